From 6f9b814a23110c8d7540389bb18fb98e2df6c2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 01/60] fix: query must-be-single, paged and set methods
 correctly with batch size 1, and send no empty batches

---
 kasa/protocols/smartprotocol.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 5539de7..7dc2022 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -205,11 +205,10 @@ class SmartProtocol(BaseProtocol):
         multi_result: dict[str, Any] = {}
         smart_method = "multipleRequest"
 
-        end = len(requests)
         # The SmartCamProtocol sends requests with a length 1 as a
         # multipleRequest. The SmartProtocol doesn't so will never
         # raise_on_error
-        raise_on_error = end == 1
+        raise_on_error = len(requests) == 1
 
         multi_requests = [
             {"method": method, "params": params} if params else {"method": method}
@@ -220,17 +219,11 @@ class SmartProtocol(BaseProtocol):
         # Break the requests down as there can be a size limit
         step = self._multi_request_batch_size
         if step == 1:
-            # If step is 1 do not send request batches
-            for request in multi_requests:
-                method = request["method"]
-                req = self.get_smart_request(method, request.get("params"))
-                resp = await self._transport.send(req)
-                self._handle_response_error_code(
-                    resp, method, raise_on_error=raise_on_error
-                )
-                multi_result[method] = resp["result"]
-            return multi_result
+            # If step is 1 do not send request batches, all the methods will be
+            # queried individually below
+            multi_requests = []
 
+        end = len(multi_requests)
         for batch_num, i in enumerate(range(0, end, step)):
             requests_step = multi_requests[i : i + step]
 
@@ -312,7 +305,12 @@ class SmartProtocol(BaseProtocol):
                 self._handle_response_error_code(
                     resp, method, raise_on_error=raise_on_error
                 )
-                multi_result[method] = resp.get("result")
+                result = resp.get("result")
+                if iterate_list_pages and result:
+                    await self._handle_response_lists(
+                        result, method, params, retry_count=retry_count
+                    )
+                multi_result[method] = result
         return multi_result
 
     async def _execute_query(
-- 
2.43.0


From 205af03a0c14066598f0c9210199955038d43b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:57 +0000
Subject: [PATCH 02/60] fix: renew the KLAP session when its sequence is
 exhausted, and treat undecodable JSON as a failed reply

---
 kasa/transports/klaptransport.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/kasa/transports/klaptransport.py b/kasa/transports/klaptransport.py
index 8253e0a..a5a30b7 100644
--- a/kasa/transports/klaptransport.py
+++ b/kasa/transports/klaptransport.py
@@ -355,7 +355,15 @@ class KlapTransport(BaseTransport):
 
         # Check for mypy
         if self._encryption_session is not None:
-            payload, seq = self._encryption_session.encrypt(request.encode())
+            try:
+                payload, seq = self._encryption_session.encrypt(request.encode())
+            except struct.error as ex:
+                # The signed 32 bit sequence number is exhausted
+                self._handshake_done = False
+                raise _RetryableError(
+                    f"Sequence number exhausted for {self._host}, "
+                    "a new handshake is required"
+                ) from ex
 
         response_status, response_data = await self._http_client.post(
             self._request_url,
@@ -391,13 +399,12 @@ class KlapTransport(BaseTransport):
                 assert isinstance(response_data, bytes)
             try:
                 decrypted_response = self._encryption_session.decrypt(response_data)
+                json_payload = json_loads(decrypted_response)
             except Exception as ex:
                 raise KasaException(
                     f"Error trying to decrypt device {self._host} response: {ex}"
                 ) from ex
 
-            json_payload = json_loads(decrypted_response)
-
             _LOGGER.debug("Device %s query response received", self._host)
 
             return json_payload
-- 
2.43.0


From 41a7590722002136e4fa6e887d89bcaa5e2704b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:18 +0000
Subject: [PATCH 03/60] fix: report malformed device responses as KasaException
 and reset the session

---
 kasa/protocols/iotprotocol.py   | 7 +++++++
 kasa/protocols/smartprotocol.py | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/kasa/protocols/iotprotocol.py b/kasa/protocols/iotprotocol.py
index 7ca02e0..5b0a493 100755
--- a/kasa/protocols/iotprotocol.py
+++ b/kasa/protocols/iotprotocol.py
@@ -132,6 +132,13 @@ class IotProtocol(BaseProtocol):
                     ex,
                 )
                 raise ex
+            except (AttributeError, LookupError, TypeError, ValueError) as ex:
+                # Malformed responses
+                await self._transport.reset()
+                _LOGGER.debug("Malformed response from %s: %r", self._host, ex)
+                raise KasaException(
+                    f"Malformed response from {self._host}: {ex!r}", ex
+                ) from ex
 
         # make mypy happy, this should never be reached..
         raise KasaException("Query reached somehow to unreachable")
diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 7dc2022..7b9dac4 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -194,6 +194,13 @@ class SmartProtocol(BaseProtocol):
                     ex,
                 )
                 raise ex
+            except (AttributeError, LookupError, TypeError, ValueError) as ex:
+                # Malformed responses
+                await self._transport.reset()
+                _LOGGER.debug("Malformed response from %s: %r", self._host, ex)
+                raise KasaException(
+                    f"Malformed response from {self._host}: {ex!r}", ex
+                ) from ex
 
         # make mypy happy, this should never be reached..
         raise KasaException("Query reached somehow to unreachable")
-- 
2.43.0


From de84054fced5e13fd0e1ce3ee69c43a220aed753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 04/60] fix: camera transport returns to secure requests after
 a secure handshake, and reports an empty handshake1 reply properly

---
 kasa/transports/sslaestransport.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/transports/sslaestransport.py b/kasa/transports/sslaestransport.py
index eeb2980..ba20aef 100644
--- a/kasa/transports/sslaestransport.py
+++ b/kasa/transports/sslaestransport.py
@@ -473,6 +473,7 @@ class SslAesTransport(BaseTransport):
         lsk = self.generate_encryption_token("lsk", local_nonce, server_nonce, pwd_hash)
         ivb = self.generate_encryption_token("ivb", local_nonce, server_nonce, pwd_hash)
         self._encryption_session = AesEncyptionSession(lsk, ivb)
+        self._send_secure = True
         self._state = TransportState.ESTABLISHED
         _LOGGER.debug("Handshake2 complete ...")
 
@@ -522,7 +523,7 @@ class SslAesTransport(BaseTransport):
 
         # Try the default username. If it fails raise the original error_code
         if (
-            not resp_dict
+            resp_dict is None
             or (error_code := self._get_response_error(resp_dict))
             is not SmartErrorCode.INVALID_NONCE
             or "nonce" not in resp_dict["result"].get("data", {})
-- 
2.43.0


From ed4bdc1861923a96a66616cbd86ea84773e00195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 05/60] fix: TLS token transport reports unknown error codes as
 DeviceError and keeps connection and timeout errors of the fallback login

---
 kasa/transports/ssltransport.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/kasa/transports/ssltransport.py b/kasa/transports/ssltransport.py
index e4fef9a..39cef80 100644
--- a/kasa/transports/ssltransport.py
+++ b/kasa/transports/ssltransport.py
@@ -25,6 +25,8 @@ from kasa.exceptions import (
     DeviceError,
     KasaException,
     SmartErrorCode,
+    TimeoutError,
+    _ConnectionError,
     _RetryableError,
 )
 from kasa.httpclient import HttpClient
@@ -117,8 +119,15 @@ class SslTransport(BaseTransport):
 
     async def _handle_response_error_code(self, resp_dict: Any, msg: str) -> None:
         """Handle response errors to request reauth etc."""
-        error_code = SmartErrorCode(resp_dict.get("error_code"))  # type: ignore[arg-type]
-        if error_code == SmartErrorCode.SUCCESS:
+        error_code_raw = resp_dict.get("error_code")
+        try:
+            error_code = SmartErrorCode.from_int(error_code_raw)
+        except ValueError:
+            _LOGGER.warning(
+                "Device %s received unknown error code: %s", self._host, error_code_raw
+            )
+            error_code = SmartErrorCode.INTERNAL_UNKNOWN_ERROR
+        if error_code is SmartErrorCode.SUCCESS:
             return
 
         msg = f"{msg}: {self._host}: {error_code.name}({error_code.value})"
@@ -180,7 +189,7 @@ class SslTransport(BaseTransport):
                     "%s: logged in with default credentials",
                     self._host,
                 )
-            except AuthenticationError:
+            except (AuthenticationError, _ConnectionError, TimeoutError):
                 raise
             except Exception as ex:
                 raise KasaException(
-- 
2.43.0


From acac8b2c2ce00210b030f12290144a6866b8749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:02 +0000
Subject: [PATCH 06/60] fix: report HTTP request timeouts as TimeoutError so
 that they are retried

---
 kasa/httpclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/httpclient.py b/kasa/httpclient.py
index 31d8dfb..fa35b49 100644
--- a/kasa/httpclient.py
+++ b/kasa/httpclient.py
@@ -144,7 +144,7 @@ class HttpClient:
             raise _ConnectionError(
                 f"Device connection error: {self._config.host}: {ex}", ex
             ) from ex
-        except (aiohttp.ServerTimeoutError, TimeoutError) as ex:
+        except (aiohttp.ServerTimeoutError, asyncio.TimeoutError) as ex:
             raise TimeoutError(
                 "Unable to query the device, "
                 + f"timed out: {self._config.host}: {ex}",
-- 
2.43.0


From 9ffbb0102ddf84f5a8ee32d39b3f3e2e40c6ed6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:05 +0000
Subject: [PATCH 07/60] fix: keep the cookies of other devices when an HTTP
 session is shared

---
 kasa/httpclient.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/httpclient.py b/kasa/httpclient.py
index fa35b49..3ffd715 100644
--- a/kasa/httpclient.py
+++ b/kasa/httpclient.py
@@ -88,7 +88,8 @@ class HttpClient:
         _LOGGER.debug("Posting to %s", url)
         response_data = None
         self._last_url = url
-        self.client.cookie_jar.clear()
+        # Leave the cookies of other devices using the same session alone
+        self.client.cookie_jar.clear_domain(URL(url).raw_host or "")
         return_json = bool(json)
         if self._config.timeout is None:
             _LOGGER.warning("Request timeout is set to None.")
-- 
2.43.0


From b8ab80a908c18455dc926ec273d452cea06e8abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:38 +0000
Subject: [PATCH 08/60] fix: query methods missing from cut short child
 responses, and report child errors and malformed child responses as such

---
 kasa/protocols/smartcamprotocol.py | 71 ++++++++++++++------------
 kasa/protocols/smartprotocol.py    | 80 +++++++++++++++++++++---------
 2 files changed, 97 insertions(+), 54 deletions(-)

diff --git a/kasa/protocols/smartcamprotocol.py b/kasa/protocols/smartcamprotocol.py
index 9bf40f7..c836602 100644
--- a/kasa/protocols/smartcamprotocol.py
+++ b/kasa/protocols/smartcamprotocol.py
@@ -223,38 +223,47 @@ class _ChildCameraProtocolWrapper(SmartProtocol):
         """Wrap request inside controlChild envelope."""
         if not isinstance(request, dict):
             raise KasaException("Child requests must be dictionaries.")
-        requests = []
-        methods = []
-        for key, val in request.items():
-            request = {
-                "method": "controlChild",
-                "params": {
-                    "childControl": {
-                        "device_id": self._device_id,
-                        "request_data": {"method": key, "params": val},
-                    }
-                },
-            }
-            methods.append(key)
-            requests.append(request)
-
-        multipleRequest = {"multipleRequest": {"requests": requests}}
-
-        response = await self._protocol.query(multipleRequest, retry_count)
-
-        responses = response["multipleRequest"]["responses"]
-        response_dict = {}
-
         # Raise errors for single calls
-        raise_on_error = len(requests) == 1
-
-        for index_id, response in enumerate(responses):
-            response_data = response["result"]["response_data"]
-            method = methods[index_id]
-            self._handle_response_error_code(
-                response_data, method, raise_on_error=raise_on_error
-            )
-            response_dict[method] = response_data.get("result")
+        raise_on_error = len(request) == 1
+
+        response_dict: dict[str, Any] = {}
+        # Multi requests don't continue after errors so query again any missing.
+        while missing := [method for method in request if method not in response_dict]:
+            requests = [
+                {
+                    "method": "controlChild",
+                    "params": {
+                        "childControl": {
+                            "device_id": self._device_id,
+                            "request_data": {
+                                "method": method,
+                                "params": request[method],
+                            },
+                        }
+                    },
+                }
+                for method in missing
+            ]
+            multipleRequest = {"multipleRequest": {"requests": requests}}
+
+            response = await self._protocol.query(multipleRequest, retry_count)
+
+            try:
+                responses = response["multipleRequest"]["responses"]
+                for method, response_data in zip(missing, responses, strict=False):
+                    # Errors from the hub do not have a result
+                    if result := response_data.get("result"):
+                        response_data = result["response_data"]
+                    self._handle_response_error_code(
+                        response_data, method, raise_on_error=raise_on_error
+                    )
+                    response_dict[method] = response_data.get("result")
+            except (AttributeError, LookupError, TypeError, ValueError) as ex:
+                raise KasaException(
+                    f"Malformed child response from {self._host}: {ex!r}", ex
+                ) from ex
+            if not responses:
+                raise KasaException(f"No child response from {self._host}")
 
         return response_dict
 
diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 7b9dac4..59fd224 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -14,7 +14,7 @@ import time
 import uuid
 from collections.abc import Callable
 from pprint import pformat as pf
-from typing import TYPE_CHECKING, Any
+from typing import TYPE_CHECKING, Any, cast
 
 from ..exceptions import (
     SMART_AUTHENTICATION_ERRORS,
@@ -384,14 +384,11 @@ class SmartProtocol(BaseProtocol):
             return
 
         response_list_name = next(
-            iter(
-                [
-                    key
-                    for key in response_result
-                    if isinstance(response_result[key], list)
-                ]
-            )
+            (key for key in response_result if isinstance(response_result[key], list)),
+            None,
         )
+        if response_list_name is None:
+            return
         while (list_length := len(response_result[response_list_name])) < list_sum:
             request = self._get_list_request(method, params, list_length)
             response = await self._execute_query(
@@ -492,6 +489,34 @@ class _ChildProtocolWrapper(SmartProtocol):
     async def _query(self, request: str | dict, retry_count: int = 3) -> dict:
         """Wrap request inside control_child envelope."""
         method, params = self._get_method_and_params_for_request(request)
+        try:
+            response_data = await self._query_child(method, params, retry_count)
+            if (
+                response_data
+                and (result := response_data.get("result"))
+                and (multi_responses := result.get("responses")) is not None
+            ):
+                requests = cast(dict, request) if method == "multipleRequest" else {}
+                return await self._handle_multi_responses(
+                    requests, multi_responses, retry_count
+                )
+            if not response_data:
+                if method == "multipleRequest":
+                    raise KasaException(f"No child response from {self._host}")
+                return {method: None}
+
+            self._handle_response_error_code(response_data, "control_child")
+
+            return {method: response_data.get("result")}
+        except (AttributeError, LookupError, TypeError, ValueError) as ex:
+            raise KasaException(
+                f"Malformed child response from {self._host}: {ex!r}", ex
+            ) from ex
+
+    async def _query_child(
+        self, method: str, params: dict | None, retry_count: int
+    ) -> dict | None:
+        """Send a wrapped request and return the response of the child."""
         request_data = {
             "method": method,
             "params": params,
@@ -502,25 +527,34 @@ class _ChildProtocolWrapper(SmartProtocol):
                 "requestData": request_data,
             }
         }
-
         response = await self._protocol.query(wrapped_payload, retry_count)
-        result = response.get("control_child")
         # Unwrap responseData for control_child
-        if result and (response_data := result.get("responseData")):
-            result = response_data.get("result")
-            if result and (multi_responses := result.get("responses")):
-                ret_val = {}
-                for multi_response in multi_responses:
-                    method = multi_response["method"]
-                    self._handle_response_error_code(
-                        multi_response, method, raise_on_error=False
-                    )
-                    ret_val[method] = multi_response.get("result")
-                return ret_val
+        return (response.get("control_child") or {}).get("responseData")
 
-            self._handle_response_error_code(response_data, "control_child")
+    async def _handle_multi_responses(
+        self, requests: dict, multi_responses: list[dict], retry_count: int
+    ) -> dict:
+        """Return results by method, querying the missing ones individually."""
+        ret_val: dict[str, Any] = {}
+        for multi_response in multi_responses:
+            if not (method := multi_response.get("method")):
+                continue
+            self._handle_response_error_code(
+                multi_response, method, raise_on_error=False
+            )
+            ret_val[method] = multi_response.get("result")
 
-        return {method: result}
+        # Multi requests don't continue after errors so requery any missing.
+        for method, params in requests.items():
+            if method not in ret_val:
+                response = await self._query_child(method, params, retry_count)
+                if not response:
+                    raise KasaException(
+                        f"No child response from {self._host} for {method}"
+                    )
+                self._handle_response_error_code(response, method, raise_on_error=False)
+                ret_val[method] = response.get("result")
+        return ret_val
 
     async def close(self) -> None:
         """Do nothing as the parent owns the protocol."""
-- 
2.43.0


From e472538599f8bd8641b85c447978c861673b6d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:57 +0000
Subject: [PATCH 09/60] fix: keep the vacuum responses unchanged when
 processing them

---
 kasa/smart/modules/clean.py        | 2 +-
 kasa/smart/modules/cleanrecords.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/clean.py b/kasa/smart/modules/clean.py
index 376e0d3..d6ba45c 100644
--- a/kasa/smart/modules/clean.py
+++ b/kasa/smart/modules/clean.py
@@ -240,7 +240,7 @@ class Clean(SmartModule):
                 "Multiple error codes, using the first one only: %s", errors
             )
 
-        error = errors.pop(0)
+        error = errors[0]
         try:
             self._error_code = ErrorCode(error)
         except ValueError:
diff --git a/kasa/smart/modules/cleanrecords.py b/kasa/smart/modules/cleanrecords.py
index fdd0dae..c453f68 100644
--- a/kasa/smart/modules/cleanrecords.py
+++ b/kasa/smart/modules/cleanrecords.py
@@ -87,6 +87,7 @@ class Records(DataClassDictMixin):
     @classmethod
     def __pre_deserialize__(cls, d: dict) -> dict:
         if ldr := d.get("lastest_day_record"):
+            d = d.copy()
             d["lastest_day_record"] = {
                 "timestamp": ldr[0],
                 "clean_time": ldr[1],
-- 
2.43.0


From 0160ceef161ca1acecd7f6a30bd76975f2b5c23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:57 +0000
Subject: [PATCH 10/60] fix: recover from failures during the first update

A failed first update could not be repeated, errors for the component
lists ended in TypeErrors, responses of child modules that were not
queried got lost and failing child queries raised UnboundLocalError.
---
 kasa/smart/modules/childdevice.py |  8 +++++++-
 kasa/smart/smartchilddevice.py    |  3 ++-
 kasa/smart/smartdevice.py         | 26 ++++++++++++++++++++------
 kasa/smartcam/smartcamdevice.py   | 14 ++++++++++----
 4 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/kasa/smart/modules/childdevice.py b/kasa/smart/modules/childdevice.py
index e816e3f..be52345 100644
--- a/kasa/smart/modules/childdevice.py
+++ b/kasa/smart/modules/childdevice.py
@@ -39,6 +39,7 @@ True
 """
 
 from ...device_type import DeviceType
+from ...exceptions import SmartErrorCode
 from ..smartmodule import SmartModule
 
 
@@ -51,6 +52,11 @@ class ChildDevice(SmartModule):
     def query(self) -> dict:
         """Query to execute during the update cycle."""
         q = super().query()
-        if self._device.device_type is DeviceType.Hub:
+        # The components of non hub children do not change so only query again
+        # if the initial query failed.
+        if self._device.device_type is DeviceType.Hub or isinstance(
+            self._device._last_update.get("get_child_device_component_list"),
+            SmartErrorCode,
+        ):
             q["get_child_device_component_list"] = None
         return q
diff --git a/kasa/smart/smartchilddevice.py b/kasa/smart/smartchilddevice.py
index 3f730f0..af22658 100644
--- a/kasa/smart/smartchilddevice.py
+++ b/kasa/smart/smartchilddevice.py
@@ -101,7 +101,8 @@ class SmartChildDevice(SmartDevice):
                 resp = await self._handle_modular_update_error(
                     ex, first_update, ", ".join(mod.name for mod in module_queries), req
                 )
-            self._last_update = resp
+            # Keep the responses of the modules that were not queried
+            self._last_update.update(resp)
 
         for module in self.modules.values():
             await self._handle_module_post_update(
diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 2e2dc7c..e52be4e 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -224,7 +224,9 @@ class SmartDevice(Device):
         self._info = self._try_get_response(resp, "get_device_info")
 
         # Create our internal presentation of available components
-        self._components_raw = cast(ComponentsRaw, resp["component_nego"])
+        self._components_raw = cast(
+            ComponentsRaw, self._try_get_response(resp, "component_nego")
+        )
 
         self._components = self._parse_components(self._components_raw)
 
@@ -240,9 +242,13 @@ class SmartDevice(Device):
         if child_info := self._try_get_response(
             self._last_update, "get_child_device_list", {}
         ):
-            changed = await self._create_delete_children(
-                child_info, self._last_update["get_child_device_component_list"]
-            )
+            # Children can't be created if querying the components failed
+            if child_components := self._try_get_response(
+                self._last_update, "get_child_device_component_list", {}
+            ):
+                changed = await self._create_delete_children(
+                    child_info, child_components
+                )
 
             for info in child_info["child_device_list"]:
                 child_id = info.get("device_id")
@@ -265,7 +271,6 @@ class SmartDevice(Device):
 
         first_update = self._last_update_time is None
         now = time.monotonic()
-        self._last_update_time = now
 
         if first_update:
             await self._negotiate()
@@ -275,6 +280,8 @@ class SmartDevice(Device):
                 await self._handle_module_post_update(cloud_mod, now, had_query=True)
 
         resp = await self._modular_update(first_update, now)
+        # Only set after success so that a failed first update can be repeated
+        self._last_update_time = now
 
         children_changed = await self._update_children_info()
         # Call child update which will only update module calls, info is updated
@@ -291,7 +298,14 @@ class SmartDevice(Device):
         # We can first initialize the features after the first update.
         # We make here an assumption that every device has at least a single feature.
         if not self._features:
-            await self._initialize_features()
+            try:
+                await self._initialize_features()
+            except KasaException:
+                # Start from scratch on the next update
+                self._features.clear()
+                for module in self._modules.values():
+                    module._module_features.clear()
+                raise
 
         if _LOGGER.isEnabledFor(logging.DEBUG):
             updated = self._last_update if first_update else resp
diff --git a/kasa/smartcam/smartcamdevice.py b/kasa/smartcam/smartcamdevice.py
index 3beda36..f0aebb1 100644
--- a/kasa/smartcam/smartcamdevice.py
+++ b/kasa/smartcam/smartcamdevice.py
@@ -85,9 +85,13 @@ class SmartCamDevice(SmartDevice):
         if child_info := self._try_get_response(
             self._last_update, "getChildDeviceList", {}
         ):
-            changed = await self._create_delete_children(
-                child_info, self._last_update["getChildDeviceComponentList"]
-            )
+            # Children can't be created if querying the components failed
+            if child_components := self._try_get_response(
+                self._last_update, "getChildDeviceComponentList", {}
+            ):
+                changed = await self._create_delete_children(
+                    child_info, child_components
+                )
 
             for info in child_info["child_device_list"]:
                 child_id = info.get("device_id")
@@ -105,6 +109,7 @@ class SmartCamDevice(SmartDevice):
         """Initialize a smart child device attached to a smartcam device."""
         child_id = info["device_id"]
         child_protocol = _ChildCameraProtocolWrapper(child_id, self.protocol)
+        initial_response: dict | None = None
         try:
             initial_response = await child_protocol.query(
                 {"get_connect_cloud_state": None}
@@ -214,7 +219,8 @@ class SmartCamDevice(SmartDevice):
         self._update_internal_info(resp)
 
         self._components_raw = cast(
-            ComponentsRaw, resp["getAppComponentList"]["app_component"]
+            ComponentsRaw,
+            self._try_get_response(resp, "getAppComponentList")["app_component"],
         )
         self._components = self._parse_components(self._components_raw)
 
-- 
2.43.0


From 1183dc7823f527db6a43b082993f0e77b1dfbef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:48 +0000
Subject: [PATCH 11/60] fix: keep module data of power strips and their sockets
 separate

Merging the responses of an update modified the nested dictionaries of the
previous update in place. The sockets of a strip start out with the update
of the strip, so that the schedule, usage, antitheft and countdown data of the
strip and all sockets were overwritten by those of the last socket.
---
 kasa/iot/iotdevice.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index d1de7f9..1ef1ff1 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -425,12 +425,14 @@ class IotDevice(Device):
             for k, v in response.items():
                 # The same module could have results in different responses
                 # i.e. smartlife.iot.common.schedule for Usage and
-                # Schedule, so need to call update(**v) here. If a module is
+                # Schedule, so need to merge them here. If a module is
                 # not supported the response
                 # {'err_code': -1, 'err_msg': 'module not support'}
-                # become top level key/values of the response so check for dict
+                # become top level key/values of the response so check for dict.
+                # The nested dicts are replaced instead of updated in place as the
+                # previous update can be shared between a strip and its sockets.
                 if isinstance(v, dict):
-                    update.setdefault(k, {}).update(**v)
+                    update[k] = {**update.get(k, {}), **v}
         self._last_update = update
 
         # IOT modules are added as default but could be unsupported post first update
-- 
2.43.0


From fa5b1d44fad7730cbe8dbe175317fdb46b2db65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:08 +0000
Subject: [PATCH 12/60] fix: refresh the system information inherited by strip
 sockets

The sockets of a strip kept the system information of the strip from the first
update forever.
---
 kasa/iot/iotstrip.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index a63b3e1..98fa6a5 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -382,6 +382,8 @@ class IotStripPlug(IotPlug):
         Internal implementation to allow patching of public update in the cli
         or test framework.
         """
+        # Keep the inherited system information up to date
+        self._set_sys_info(self._parent.sys_info)
         await self._modular_update({})
         for module in self._modules.values():
             await module._post_update_hook()
-- 
2.43.0


From 3d1cd1da5f027c1faf0917b8ad89b87bb2a3f1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:31 +0000
Subject: [PATCH 13/60] fix: report on_since correctly when it moves backwards

The jitter check kept the cached value whenever the new value was earlier, for
example after setting the device time.
---
 kasa/iot/iotdevice.py     | 4 +---
 kasa/iot/iotstrip.py      | 4 +---
 kasa/smart/smartdevice.py | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index 1ef1ff1..a0cd440 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -644,9 +644,7 @@ class IotDevice(Device):
         on_time = self._sys_info["on_time"]
 
         on_since = self.time - timedelta(seconds=on_time)
-        if not self._on_since or timedelta(
-            seconds=0
-        ) < on_since - self._on_since > timedelta(seconds=5):
+        if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
             self._on_since = on_since
         return self._on_since
 
diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index 98fa6a5..7d656d0 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -469,9 +469,7 @@ class IotStripPlug(IotPlug):
         time = self._parent.time
 
         on_since = time - timedelta(seconds=on_time)
-        if not self._on_since or timedelta(
-            seconds=0
-        ) < on_since - self._on_since > timedelta(seconds=5):
+        if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
             self._on_since = on_since
         return self._on_since
 
diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index e52be4e..08aba73 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -642,9 +642,7 @@ class SmartDevice(Device):
 
         on_time = cast(float, on_time)
         on_since = self.time - timedelta(seconds=on_time)
-        if not self._on_since or timedelta(
-            seconds=0
-        ) < on_since - self._on_since > timedelta(seconds=5):
+        if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
             self._on_since = on_since
         return self._on_since
 
-- 
2.43.0


From a4e04bce26e48d8478bd8d444fc6dd3bbe6f6145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:06 +0000
Subject: [PATCH 14/60] fix: reject NaN for number features

---
 kasa/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/feature.py b/kasa/feature.py
index 0c4c6e2..423fdd6 100644
--- a/kasa/feature.py
+++ b/kasa/feature.py
@@ -248,7 +248,7 @@ class Feature:
         if self.type == Feature.Type.Number:  # noqa: SIM102
             if not isinstance(value, int | float):
                 raise ValueError("value must be a number")
-            if value < self.minimum_value or value > self.maximum_value:
+            if not self.minimum_value <= value <= self.maximum_value:
                 raise ValueError(
                     f"Value {value} out of range "
                     f"[{self.minimum_value}, {self.maximum_value}]"
-- 
2.43.0


From a82d1695624af4109b5bac7dba1f1fe58957e83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:06 +0000
Subject: [PATCH 15/60] fix: send the alarm volume as text when it is set as a
 level

---
 kasa/smart/modules/alarm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kasa/smart/modules/alarm.py b/kasa/smart/modules/alarm.py
index cd60218..267df59 100644
--- a/kasa/smart/modules/alarm.py
+++ b/kasa/smart/modules/alarm.py
@@ -171,9 +171,8 @@ class Alarm(SmartModule, AlarmInterface):
         self, volume: AlarmVolume | int
     ) -> Annotated[dict, FeatureAttribute()]:
         """Set alarm volume."""
-        self._check_and_convert_volume(volume)
         payload = self.data["get_alarm_configure"].copy()
-        payload["volume"] = volume
+        payload["volume"] = self._check_and_convert_volume(volume)
         return await self.call("set_alarm_configure", payload)
 
     @property
-- 
2.43.0


From c3d03b9399c0dc381ab480bc4091c243cb892e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:06 +0000
Subject: [PATCH 16/60] fix: a thermostat reporting only a low battery is idle

---
 kasa/smart/modules/temperaturecontrol.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kasa/smart/modules/temperaturecontrol.py b/kasa/smart/modules/temperaturecontrol.py
index 5b08046..616c2d8 100644
--- a/kasa/smart/modules/temperaturecontrol.py
+++ b/kasa/smart/modules/temperaturecontrol.py
@@ -93,12 +93,13 @@ class TemperatureControl(SmartModule):
 
         states = self.states
 
+        # Discard known extra states, and report on unknown extra states
+        states.discard("low_battery")
+
         # If the states is empty, the device is idling
         if not states:
             return ThermostatState.Idle
 
-        # Discard known extra states, and report on unknown extra states
-        states.discard("low_battery")
         if len(states) > 1:
             _LOGGER.warning("Got multiple states: %s", states)
 
-- 
2.43.0


From 13992ce841cc54a55268a038fc80afd97fbe3662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:06 +0000
Subject: [PATCH 17/60] fix: water alert timestamp of sensors without an own
 time

---
 kasa/smart/modules/waterleaksensor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/waterleaksensor.py b/kasa/smart/modules/waterleaksensor.py
index b6f0101..972254f 100644
--- a/kasa/smart/modules/waterleaksensor.py
+++ b/kasa/smart/modules/waterleaksensor.py
@@ -84,5 +84,9 @@ class WaterleakSensor(SmartModule):
             return None
 
         ts = self._device.sys_info["trigger_timestamp"]
-        tz = self._device.modules[Module.Time].timezone
+        # The device may not have an own time, i.e., when it is connected to a hub
+        if (time_module := self._device.modules.get(Module.Time)) is not None:
+            tz = time_module.timezone
+        else:
+            tz = self._device.timezone
         return datetime.fromtimestamp(ts, tz=tz)
-- 
2.43.0


From 0839b44713733aa09413b70ebd961d6ef86fb8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:06 +0000
Subject: [PATCH 18/60] fix: keep the alarm volume readable after setting it to
 1.0

---
 kasa/smartcam/modules/alarm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/smartcam/modules/alarm.py b/kasa/smartcam/modules/alarm.py
index df1891e..2a52e31 100644
--- a/kasa/smartcam/modules/alarm.py
+++ b/kasa/smartcam/modules/alarm.py
@@ -211,6 +211,6 @@ class Alarm(SmartCamModule, AlarmInterface):
         if duration is not None:
             config["duration"] = duration
         if volume is not None:
-            config["volume"] = str(volume)
+            config["volume"] = str(int(volume))
 
         return config
-- 
2.43.0


From c6e9dfc22fbaa59e5d57f34fddf578ca72d2072d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:07 +0000
Subject: [PATCH 19/60] fix: battery charging state of cameras

---
 kasa/smartcam/modules/battery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/smartcam/modules/battery.py b/kasa/smartcam/modules/battery.py
index d6bd97f..083cfdc 100644
--- a/kasa/smartcam/modules/battery.py
+++ b/kasa/smartcam/modules/battery.py
@@ -110,4 +110,4 @@ class Battery(SmartCamModule):
     @property
     def battery_charging(self) -> bool:
         """Return True if battery is charging."""
-        return self._device.sys_info["battery_voltage"] != "NO"
+        return self._device.sys_info["battery_charging"] != "NO"
-- 
2.43.0


From efd36a3647dc7df785b856bea902980082ee0aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:07 +0000
Subject: [PATCH 20/60] fix: apply and save legacy light presets at their own
 index

---
 kasa/iot/modules/lightpreset.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/kasa/iot/modules/lightpreset.py b/kasa/iot/modules/lightpreset.py
index 3330af6..6fbeac6 100644
--- a/kasa/iot/modules/lightpreset.py
+++ b/kasa/iot/modules/lightpreset.py
@@ -113,8 +113,16 @@ class LightPreset(IotModule, LightPresetInterface):
                 preset = LightState(hue=0, saturation=0, brightness=100)
             else:
                 preset = LightState(brightness=100)
-        elif (preset := self._presets.get(preset_name)) is None:  # type: ignore[assignment]
+        elif (iot_preset := self._presets.get(preset_name)) is None:
             raise ValueError(f"{preset_name} is not a valid preset: {self.preset_list}")
+        else:
+            # Do not send the preset specific fields like index as a light state
+            preset = LightState(
+                brightness=iot_preset.brightness,
+                hue=iot_preset.hue,
+                saturation=iot_preset.saturation,
+                color_temp=iot_preset.color_temp,
+            )
 
         return await light.set_state(preset)
 
@@ -134,7 +142,9 @@ class LightPreset(IotModule, LightPresetInterface):
         if preset_name not in self._presets:
             raise ValueError(f"{preset_name} is not a valid preset: {self.preset_list}")
 
-        index = list(self._presets.keys()).index(preset_name)
+        # The position of the preset differs from its index if the device lists
+        # effects along with the presets
+        index = self._presets[preset_name].index
         state = asdict(preset_state)
         state = {k: v for k, v in state.items() if v is not None}
         state["index"] = index
@@ -163,7 +173,7 @@ class LightPreset(IotModule, LightPresetInterface):
         if len(self._presets) == 0:
             raise KasaException("Device does not supported saving presets")
 
-        if preset.index >= len(self._presets):
+        if preset.index >= len(self.data["preferred_state"]):
             raise KasaException("Invalid preset index")
 
         return await self.call("set_preferred_state", preset.to_dict())
-- 
2.43.0


From 94f4fc7b839fa8a4b23634d603bf1d6ce616cadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:07 +0000
Subject: [PATCH 21/60] fix: save SMART light presets to their slot on the
 device

---
 kasa/smart/modules/lightpreset.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/kasa/smart/modules/lightpreset.py b/kasa/smart/modules/lightpreset.py
index 87e96ea..7caa994 100644
--- a/kasa/smart/modules/lightpreset.py
+++ b/kasa/smart/modules/lightpreset.py
@@ -28,6 +28,7 @@ class LightPreset(SmartModule, LightPresetInterface):
 
     _presets: dict[str, LightState]
     _preset_list: list[str]
+    _preset_indexes: dict[str, int]
 
     def __init__(self, device: SmartDevice, module: str) -> None:
         super().__init__(device, module)
@@ -38,10 +39,12 @@ class LightPreset(SmartModule, LightPresetInterface):
         """Update the internal presets."""
         index = 0
         self._presets = {}
+        # Index of the presets on the device, which may store effects among them
+        self._preset_indexes = {}
 
         state_key = "states" if not self._state_in_sysinfo else self.SYS_INFO_STATE_KEY
         if preset_states := self.data.get(state_key):
-            for preset_state in preset_states:
+            for device_index, preset_state in enumerate(preset_states):
                 if "brightness" not in preset_state:
                     # Some devices can store effects as a preset. These will be ignored
                     # and handled in the effects module
@@ -59,10 +62,13 @@ class LightPreset(SmartModule, LightPresetInterface):
                     hue=hue,
                     saturation=saturation,
                 )
+                self._preset_indexes[f"Light preset {index + 1}"] = device_index
                 if color_temp is None and hue is None and saturation is None:
                     self._brightness_only = True
                 index = index + 1
-        elif preset_brightnesses := self.data.get("brightness"):
+        elif not self._state_in_sysinfo and (
+            preset_brightnesses := self.data.get("brightness")
+        ):
             self._brightness_only = True
             for preset_brightness in preset_brightnesses:
                 self._presets[f"Brightness preset {index + 1}"] = LightState(
@@ -139,8 +145,8 @@ class LightPreset(SmartModule, LightPresetInterface):
         """Update the preset with preset_name with the new preset_info."""
         if preset_name not in self._presets:
             raise ValueError(f"{preset_name} is not a valid preset: {self.preset_list}")
-        index = list(self._presets.keys()).index(preset_name)
         if self._brightness_only:
+            index = list(self._presets.keys()).index(preset_name)
             bright_list = [state.brightness for state in self._presets.values()]
             bright_list[index] = preset_state.brightness
             return await self.call("set_preset_rules", {"brightness": bright_list})
@@ -148,7 +154,8 @@ class LightPreset(SmartModule, LightPresetInterface):
             state_params = asdict(preset_state)
             new_info = {k: v for k, v in state_params.items() if v is not None}
             return await self.call(
-                "edit_preset_rules", {"index": index, "state": new_info}
+                "edit_preset_rules",
+                {"index": self._preset_indexes[preset_name], "state": new_info},
             )
 
     @property
-- 
2.43.0


From adbaebe3542d32ea2558cced55009b9eb2848709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:07 +0000
Subject: [PATCH 22/60] fix: SMART light effects with edited scene names or
 activated elsewhere

---
 kasa/smart/modules/lighteffect.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/kasa/smart/modules/lighteffect.py b/kasa/smart/modules/lighteffect.py
index 96135de..37b0d3b 100644
--- a/kasa/smart/modules/lighteffect.py
+++ b/kasa/smart/modules/lighteffect.py
@@ -37,12 +37,14 @@ class LightEffect(SmartModule, SmartLightEffect):
         for effect in effects.values():
             if not effect["scene_name"]:
                 # If the name has not been edited scene_name will be an empty string
-                effect["scene_name"] = self.AVAILABLE_BULB_EFFECTS[effect["id"]]
+                effect["scene_name"] = self.AVAILABLE_BULB_EFFECTS.get(
+                    effect["id"], effect["id"]
+                )
             else:
                 # Otherwise it might be b64 encoded or raw string
-                with contextlib.suppress(binascii.Error):
+                with contextlib.suppress(binascii.Error, ValueError):
                     effect["scene_name"] = base64.b64decode(
-                        effect["scene_name"]
+                        effect["scene_name"], validate=True
                     ).decode()
 
         self._effect_state_list = effects
@@ -120,9 +122,14 @@ class LightEffect(SmartModule, SmartLightEffect):
         If *effect_id* is None, return the data for active effect.
         """
         if effect_id is None:
-            effect_id = self.data["current_rule_id"]
+            # The rules are updated less often than the device info
+            effect_id = (
+                self._device._info.get("dynamic_light_effect_id")
+                or self.data["current_rule_id"]
+            )
 
-        return self._effect_state_list[effect_id]
+        # Use the rule as stored on the device, including its unchanged scene name
+        return next(rule for rule in self.data["rule_list"] if rule["id"] == effect_id)
 
     @property
     def brightness(self) -> int:
-- 
2.43.0


From cca7622169d65f88c06b200c52bd227750023d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:20 +0000
Subject: [PATCH 23/60] fix: error for a timezone legacy devices do not support

---
 kasa/iot/iottimezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/iot/iottimezone.py b/kasa/iot/iottimezone.py
index 6553834..b1164ef 100644
--- a/kasa/iot/iottimezone.py
+++ b/kasa/iot/iottimezone.py
@@ -35,7 +35,7 @@ async def get_timezone_index(tzone: tzinfo) -> int:
     for i in range(110):
         if _is_same_timezone(tzone, await get_timezone(i)):
             return i
-    raise ValueError("Device does not support timezone %s", name)
+    raise ValueError(f"Device does not support timezone {tzone}")
 
 
 async def get_matching_timezones(tzone: tzinfo) -> list[str]:
-- 
2.43.0


From 458a885befaa70714c90ec272ec304e0013dbab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:20 +0000
Subject: [PATCH 24/60] fix: camera local time is in the zone of the camera

---
 kasa/smartcam/modules/time.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/kasa/smartcam/modules/time.py b/kasa/smartcam/modules/time.py
index 54ee30e..78132ef 100644
--- a/kasa/smartcam/modules/time.py
+++ b/kasa/smartcam/modules/time.py
@@ -77,16 +77,19 @@ class Time(SmartCamModule, TimeInterface):
     @allow_update_after
     async def set_time(self, dt: datetime) -> dict:
         """Set device time."""
+        # The camera only keeps named zones, anything else is shown in its own zone
+        zinfo = dt.tzinfo if isinstance(dt.tzinfo, ZoneInfo) else None
         if not dt.tzinfo:
-            timestamp = dt.replace(tzinfo=self.timezone).timestamp()
-        else:
-            timestamp = dt.timestamp()
+            dt = dt.replace(tzinfo=self.timezone)
+        local = dt.astimezone(zinfo or self.timezone)
 
-        lt = datetime.fromtimestamp(timestamp).isoformat().replace("T", " ")
-        params = {"seconds_from_1970": int(timestamp), "local_time": lt}
+        params = {
+            "seconds_from_1970": int(local.timestamp()),
+            "local_time": local.strftime("%Y-%m-%d %H:%M:%S"),
+        }
         # Doesn't seem to update the time, perhaps because timing_mode is ntp
         res = await self.call("setTimezone", {"system": {"clock_status": params}})
-        if (zinfo := dt.tzinfo) and isinstance(zinfo, ZoneInfo):
+        if zinfo:
             tz_params = {"zone_id": zinfo.key}
             res = await self.call("setTimezone", {"system": {"basic": tz_params}})
         return res
-- 
2.43.0


From c520f45f4cff4a81a053a82da5766cbe0cb61147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:20 +0000
Subject: [PATCH 25/60] fix: on since and auto off times across changes of the
 utc offset

---
 kasa/iot/iotdevice.py         | 7 ++++---
 kasa/smart/modules/autooff.py | 9 +++++++--
 kasa/smart/smartdevice.py     | 5 +++--
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index a0cd440..f34b227 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -18,7 +18,7 @@ import functools
 import inspect
 import logging
 from collections.abc import Callable, Mapping, Sequence
-from datetime import datetime, timedelta, tzinfo
+from datetime import UTC, datetime, timedelta, tzinfo
 from typing import TYPE_CHECKING, Any, cast
 from warnings import warn
 
@@ -643,10 +643,11 @@ class IotDevice(Device):
 
         on_time = self._sys_info["on_time"]
 
-        on_since = self.time - timedelta(seconds=on_time)
+        # Calculate in UTC, arithmetic on zoned times ignores changes of the offset
+        on_since = self.time.astimezone(UTC) - timedelta(seconds=on_time)
         if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
             self._on_since = on_since
-        return self._on_since
+        return self._on_since.astimezone(self.time.tzinfo)
 
     @property  # type: ignore
     @requires_update
diff --git a/kasa/smart/modules/autooff.py b/kasa/smart/modules/autooff.py
index 4fefb00..17eb613 100644
--- a/kasa/smart/modules/autooff.py
+++ b/kasa/smart/modules/autooff.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 import logging
-from datetime import datetime, timedelta
+from datetime import UTC, datetime, timedelta
 
 from ...feature import Feature
 from ..smartmodule import SmartModule
@@ -94,7 +94,12 @@ class AutoOff(SmartModule):
 
         sysinfo = self._device.sys_info
 
-        return self._device.time + timedelta(seconds=sysinfo["auto_off_remain_time"])
+        # Calculate in UTC, arithmetic on zoned times ignores changes of the offset
+        time = self._device.time
+        off_at = time.astimezone(UTC) + timedelta(
+            seconds=sysinfo["auto_off_remain_time"]
+        )
+        return off_at.astimezone(time.tzinfo)
 
     async def _check_supported(self) -> bool:
         """Additional check to see if the module is supported by the device.
diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 08aba73..9568eec 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -641,10 +641,11 @@ class SmartDevice(Device):
             return None
 
         on_time = cast(float, on_time)
-        on_since = self.time - timedelta(seconds=on_time)
+        # Calculate in UTC, arithmetic on zoned times ignores changes of the offset
+        on_since = self.time.astimezone(UTC) - timedelta(seconds=on_time)
         if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
             self._on_since = on_since
-        return self._on_since
+        return self._on_since.astimezone(self.time.tzinfo)
 
     @property
     def timezone(self) -> tzinfo:
-- 
2.43.0


From 8355a5ae245d191ed528550f3bf15e9aa85c63ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:20 +0000
Subject: [PATCH 26/60] fix: parameters of set_state for SMART lights

---
 kasa/smart/modules/light.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/light.py b/kasa/smart/modules/light.py
index d548811..013cbc4 100644
--- a/kasa/smart/modules/light.py
+++ b/kasa/smart/modules/light.py
@@ -117,13 +117,15 @@ class Light(SmartModule, LightInterface):
     async def set_state(self, state: LightState) -> dict:
         """Set the light state."""
         state_dict = asdict(state)
+        # The device knows neither of these, transition is not supported
+        del state_dict["light_on"]
+        del state_dict["transition"]
         # brightness of 0 turns off the light, it's not a valid brightness
         if state.brightness == 0:
             state_dict["device_on"] = False
             del state_dict["brightness"]
         elif state.light_on is not None:
             state_dict["device_on"] = state.light_on
-            del state_dict["light_on"]
         else:
             state_dict["device_on"] = True
 
-- 
2.43.0


From db2a914cf73ebd5784862e2d03c47778269d72bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:20 +0000
Subject: [PATCH 27/60] fix: validate brightness set together with a color
 temperature

---
 kasa/smart/modules/colortemperature.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kasa/smart/modules/colortemperature.py b/kasa/smart/modules/colortemperature.py
index 32d6e67..60361ff 100644
--- a/kasa/smart/modules/colortemperature.py
+++ b/kasa/smart/modules/colortemperature.py
@@ -65,6 +65,12 @@ class ColorTemperature(SmartModule):
                     *valid_temperature_range, temp
                 )
             )
+        if brightness is not None and (
+            not isinstance(brightness, int) or not 0 <= brightness <= 100
+        ):
+            raise ValueError(
+                f"Invalid brightness value: {brightness} (valid range: 0-100%)"
+            )
         params = {"color_temp": temp}
         if brightness:
             params["brightness"] = brightness
-- 
2.43.0


From d912fb8089e13dd53ec019091f0012599f63aa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 28/60] fix: time and on since of the sockets of a strip

---
 kasa/iot/iotstrip.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index 7d656d0..de28c25 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 import logging
 from collections import defaultdict
-from datetime import datetime, timedelta
+from datetime import UTC, datetime, timedelta, tzinfo
 from typing import TYPE_CHECKING, Any
 
 from ..device_type import DeviceType
@@ -466,12 +466,23 @@ class IotStripPlug(IotPlug):
         info = self._get_child_info()
         on_time = info["on_time"]
 
-        time = self._parent.time
-
-        on_since = time - timedelta(seconds=on_time)
+        # Calculate in UTC, arithmetic on zoned times ignores changes of the offset
+        on_since = self.time.astimezone(UTC) - timedelta(seconds=on_time)
         if not self._on_since or abs(on_since - self._on_since) > timedelta(seconds=5):
             self._on_since = on_since
-        return self._on_since
+        return self._on_since.astimezone(self.time.tzinfo)
+
+    @property
+    @requires_update
+    def time(self) -> datetime:
+        """Return the time of the strip, the sockets have no clock of their own."""
+        return self._parent.time
+
+    @property
+    @requires_update
+    def timezone(self) -> tzinfo:
+        """Return the timezone of the strip."""
+        return self._parent.timezone
 
     @property  # type: ignore
     @requires_update
-- 
2.43.0


From bab4be8d766222b6b52688782cf19e57e57d9834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 29/60] fix: voltage of a strip with readings in volts

---
 kasa/iot/iotstrip.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index de28c25..8a7d75c 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -211,12 +211,7 @@ class StripEmeter(IotModule, Energy):
     async def get_status(self) -> EmeterStatus:
         """Retrieve current energy readings."""
         emeter_rt = await self._async_get_emeter_sum("get_status", {})
-        # Voltage is averaged since each read will result
-        # in a slightly different voltage since they are not atomic
-        emeter_rt["voltage_mv"] = int(
-            emeter_rt["voltage_mv"] / len(self._device.children)
-        )
-        return EmeterStatus(emeter_rt)
+        return self._get_status_from_sum(emeter_rt)
 
     async def get_daily_stats(
         self, year: int | None = None, month: int | None = None, kwh: bool = True
@@ -291,9 +286,18 @@ class StripEmeter(IotModule, Energy):
         emeter = merge_sums(
             [plug.modules[Module.Energy].status for plug in self._device.children]
         )
+        return self._get_status_from_sum(emeter)
+
+    def _get_status_from_sum(self, emeter: dict) -> EmeterStatus:
+        """Return the status for the summed up readings of the sockets."""
         # Voltage is averaged since each read will result
         # in a slightly different voltage since they are not atomic
-        emeter["voltage_mv"] = int(emeter["voltage_mv"] / len(self._device.children))
+        count = len(self._device.children)
+        if "voltage_mv" in emeter:
+            emeter["voltage_mv"] = int(emeter["voltage_mv"] / count)
+        # Older firmwares report volts
+        if "voltage" in emeter:
+            emeter["voltage"] /= count
         return EmeterStatus(emeter)
 
     @property
-- 
2.43.0


From 840f33adadf9195bb7644e7a2c23922b7270b9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:26 +0000
Subject: [PATCH 30/60] fix: datagrams from unrelated ports no longer hide a
 device from discovery

---
 kasa/discover.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kasa/discover.py b/kasa/discover.py
index 8e2b981..7e7008b 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -345,6 +345,9 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
             assert _AesDiscoveryQuery.keypair
 
         ip, port = addr
+        # Ignore anything not sent by a discovery service
+        if port not in (self.discovery_port, Discover.DISCOVERY_PORT_2):
+            return
         # Prevent multiple entries due multiple broadcasts
         if ip in self.seen_hosts:
             return
-- 
2.43.0


From 645a1e15a68845d4cec9969cd5fc794e1f7f9554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:26 +0000
Subject: [PATCH 31/60] fix: discovery replies with unexpected contents

---
 kasa/device_factory.py |  5 ++++-
 kasa/discover.py       | 25 ++++++++++++++++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/kasa/device_factory.py b/kasa/device_factory.py
index ecb0d0a..3999f26 100644
--- a/kasa/device_factory.py
+++ b/kasa/device_factory.py
@@ -142,7 +142,10 @@ def get_device_class_from_sys_info(sysinfo: dict[str, Any]) -> type[IotDevice]:
         # Disabled until properly implemented
         # DeviceType.Camera: IotCamera,
     }
-    return TYPE_TO_CLASS[IotDevice._get_device_type_from_sys_info(sysinfo)]
+    device_type = IotDevice._get_device_type_from_sys_info(sysinfo)
+    if (cls := TYPE_TO_CLASS.get(device_type)) is None:
+        raise UnsupportedDeviceError(f"Unsupported device of type {device_type.value}")
+    return cls
 
 
 def get_device_class_from_family(
diff --git a/kasa/discover.py b/kasa/discover.py
index 7e7008b..b0b7121 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -377,7 +377,14 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
                         "meta": {"ip": ip, "port": port},
                     }
                 )
-            device = device_func(info, config)
+            try:
+                device = device_func(info, config)
+            except KasaException:
+                raise
+            except Exception as ex:
+                raise KasaException(
+                    f"Unable to use response from device: {ip}: {ex!r}"
+                ) from ex
         except UnsupportedDeviceError as udex:
             _LOGGER.debug("Unsupported device found at %s << %s", ip, udex)
             self.unsupported_device_exceptions[ip] = udex
@@ -742,7 +749,11 @@ class Discover:
             data = redact_data(info, IOT_REDACTORS) if Discover._redact_data else info
             _LOGGER.debug("[DISCOVERY] %s << %s", config.host, pf(data))
 
-        device_class = cast(type[IotDevice], Discover._get_device_class(info))
+        try:
+            device_class = cast(type[IotDevice], Discover._get_device_class(info))
+        except UnsupportedDeviceError as ex:
+            ex.host = config.host
+            raise
         device = device_class(config.host, config=config)
         sys_info = _extract_sys_info(info)
         device_type = sys_info.get("mic_type", sys_info.get("type"))
@@ -827,7 +838,15 @@ class Discover:
         ):
             # Known encrypt types are ["1","2"] and ["3"]
             # Reuse the login_version attribute to pass the max to transport
-            login_version = max([int(i) for i in et])
+            try:
+                login_version = max([int(i) for i in et])
+            except ValueError as ex:
+                raise UnsupportedDeviceError(
+                    f"Unsupported device {discovery_result.ip} of type {type_} "
+                    + f"with unknown encrypt_type {et}",
+                    discovery_result=discovery_result.to_dict(),
+                    host=discovery_result.ip,
+                ) from ex
 
         if not encrypt_type:
             raise UnsupportedDeviceError(
-- 
2.43.0


From fa7486e15a1de04c741eca034e21ee70bf44689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:26 +0000
Subject: [PATCH 32/60] fix: an unreadable discovery reply no longer hides a
 following one

---
 kasa/discover.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index b0b7121..211f5ae 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -395,7 +395,8 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
         except KasaException as ex:
             _LOGGER.debug("[DISCOVERY] Unable to find device type for %s: %s", ip, ex)
             self.invalid_device_exceptions[ip] = ex
-            self._handle_discovered_event()
+            # An intact reply may still follow
+            self.seen_hosts.discard(ip)
             return
 
         self.discovered_devices[ip] = device
-- 
2.43.0


From 883cac04d8be84f92537c9de3d7d1ead52801972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:26 +0000
Subject: [PATCH 33/60] fix: finish or cancel all discovery callbacks before
 discover ends

---
 kasa/discover.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index 211f5ae..921132a 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -297,7 +297,9 @@ class _DiscoverProtocol(asyncio.DatagramProtocol):
             # if target_discovered then cancel was called internally
             if not self.target_discovered:
                 raise
-        # Wait for any pending callbacks to complete
+        # Wait for any pending callbacks to complete, more might be started meanwhile
+        while pending := [task for task in self.callback_tasks if not task.done()]:
+            await asyncio.gather(*pending, return_exceptions=True)
         await asyncio.gather(*self.callback_tasks)
 
     def connection_made(self, transport: DatagramTransport) -> None:  # type: ignore[override]
@@ -510,10 +512,14 @@ class Discover:
         try:
             _LOGGER.debug("Waiting %s seconds for responses...", discovery_timeout)
             await protocol.wait_for_discovery_to_complete()
-        except (KasaException, asyncio.CancelledError) as ex:
+        except BaseException:
+            transport.close()
+            for task in protocol.callback_tasks:
+                task.cancel()
+            await asyncio.gather(*protocol.callback_tasks, return_exceptions=True)
             for device in protocol.discovered_devices.values():
                 await device.protocol.close()
-            raise ex
+            raise
         finally:
             transport.close()
 
-- 
2.43.0


From 4c1863e4dffcba9b384a6abcbe0c914f899fc62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:23 +0000
Subject: [PATCH 34/60] fix: try_connect_all with devices using the first login
 version

---
 kasa/discover.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index 921132a..535bb61 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -131,7 +131,11 @@ from kasa.json import dumps as json_dumps
 from kasa.json import loads as json_loads
 from kasa.protocols.iotprotocol import REDACTORS as IOT_REDACTORS
 from kasa.protocols.protocol import mask_mac, redact_data
-from kasa.transports.aestransport import AesEncyptionSession, KeyPair
+from kasa.transports.aestransport import (
+    AesEncyptionSession,
+    AesTransport,
+    KeyPair,
+)
 from kasa.transports.xortransport import XorEncryption
 
 _LOGGER = logging.getLogger(__name__)
@@ -656,10 +660,19 @@ class Discover:
             Device.Family.IotIpCamera,
         }
         candidates: dict[
-            tuple[type[BaseProtocol], type[BaseTransport], type[Device], bool],
+            tuple[
+                type[BaseProtocol], type[BaseTransport], type[Device], bool, int | None
+            ],
             tuple[BaseProtocol, DeviceConfig],
         ] = {
-            (type(protocol), type(protocol._transport), device_class, https): (
+            (
+                type(protocol),
+                type(protocol._transport),
+                device_class,
+                https,
+                # Only the aes transport logs in differently
+                login_version if type(protocol._transport) is AesTransport else None,
+            ): (
                 protocol,
                 config,
             )
@@ -704,11 +717,11 @@ class Discover:
                     ex,
                 )
                 if on_attempt:
-                    ca = tuple.__new__(ConnectAttempt, key)
+                    ca = tuple.__new__(ConnectAttempt, key[:4])
                     on_attempt(ca, False)
             else:
                 if on_attempt:
-                    ca = tuple.__new__(ConnectAttempt, key)
+                    ca = tuple.__new__(ConnectAttempt, key[:4])
                     on_attempt(ca, True)
                 _LOGGER.debug("Found working protocol %s", prot.__class__.__name__)
                 return dev
-- 
2.43.0


From ebf33338df2ba37457d0398f3bef9c2bf12b72cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:23 +0000
Subject: [PATCH 35/60] fix: error for legacy devices failing to report their
 system info

---
 kasa/iot/iotdevice.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index f34b227..01758a1 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -313,21 +313,29 @@ class IotDevice(Device):
         if not self._last_update:
             _LOGGER.debug("Performing the initial update to obtain sysinfo")
             response = await self.protocol.query(req)
+            sys_info = self._get_sys_info_from_response(response)
             self._last_update = response
-            self._set_sys_info(_extract_sys_info(response))
+            self._set_sys_info(sys_info)
 
         if not self._modules:
             await self._initialize_modules()
 
         await self._modular_update(req)
 
-        self._set_sys_info(_extract_sys_info(self._last_update))
+        self._set_sys_info(self._get_sys_info_from_response(self._last_update))
         for module in self._modules.values():
             await module._post_update_hook()
 
         if not self._features:
             await self._initialize_features()
 
+    def _get_sys_info_from_response(self, response: dict) -> dict[str, Any]:
+        """Return the system info structure, raise if the device did not report it."""
+        sys_info = _extract_sys_info(response)
+        if not sys_info or sys_info.get("err_code", 0) != 0:
+            raise KasaException(f"Error on {self.host} system.get_sysinfo: {sys_info}")
+        return sys_info
+
     async def _initialize_modules(self) -> None:
         """Initialize modules not added in init."""
         if self.has_emeter:
-- 
2.43.0


From ce5c2aa3935900a21fd7a9452812480b56ebbb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:46 +0000
Subject: [PATCH 36/60] fix: accept firmware download states without
 auto_upgrade

---
 kasa/smart/modules/firmware.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/firmware.py b/kasa/smart/modules/firmware.py
index 8dd3a6b..12b6a82 100644
--- a/kasa/smart/modules/firmware.py
+++ b/kasa/smart/modules/firmware.py
@@ -35,7 +35,8 @@ class DownloadState(DataClassDictMixin):
     progress: Annotated[int, Alias("download_progress")]
     reboot_time: int
     upgrade_time: int
-    auto_upgrade: bool
+    # Not reported by all devices
+    auto_upgrade: bool | None = None
 
 
 @dataclass
-- 
2.43.0


From 8797663178881919a902f980c1e009135849961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:46 +0000
Subject: [PATCH 37/60] fix: await the firmware progress callback so that no
 state is lost

---
 kasa/smart/modules/firmware.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kasa/smart/modules/firmware.py b/kasa/smart/modules/firmware.py
index 12b6a82..1b3f476 100644
--- a/kasa/smart/modules/firmware.py
+++ b/kasa/smart/modules/firmware.py
@@ -212,7 +212,7 @@ class Firmware(SmartModule):
 
                 _LOGGER.debug("Update state: %s", state)
                 if progress_cb is not None:
-                    asyncio.create_task(progress_cb(state))
+                    await progress_cb(state)
 
                 if state.status == 0:
                     _LOGGER.info(
-- 
2.43.0


From 1b005401c616c5b4578f1d8caf089e57d89ec488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:00 +0000
Subject: [PATCH 38/60] fix: redact requests and error messages in the
 protocols' debug logs

---
 kasa/protocols/iotprotocol.py      | 10 ++++++++--
 kasa/protocols/protocol.py         | 11 +++++++++++
 kasa/protocols/smartcamprotocol.py |  4 ++--
 kasa/protocols/smartprotocol.py    | 27 +++++++++++++++++----------
 4 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/kasa/protocols/iotprotocol.py b/kasa/protocols/iotprotocol.py
index 5b0a493..3ccc865 100755
--- a/kasa/protocols/iotprotocol.py
+++ b/kasa/protocols/iotprotocol.py
@@ -18,7 +18,7 @@ from ..exceptions import (
 )
 from ..json import dumps as json_dumps
 from ..transports import XorEncryption, XorTransport
-from .protocol import BaseProtocol, mask_mac, redact_data
+from .protocol import BaseProtocol, mask_mac, redact_data, redact_json
 
 if TYPE_CHECKING:
     from ..transports import BaseTransport
@@ -40,6 +40,10 @@ def _mask_children(children: list[dict[str, Any]]) -> list[dict[str, Any]]:
     return [mask_child(child, index) for index, child in enumerate(children)]
 
 
+def _mask_child_ids(child_ids: list[str]) -> list[str]:
+    return [f"SCRUBBED_CHILD_DEVICE_ID_{i + 1}" for i in range(len(child_ids))]
+
+
 REDACTORS: dict[str, Callable[[Any], Any] | None] = {
     "latitude": lambda x: 0,
     "longitude": lambda x: 0,
@@ -54,6 +58,8 @@ REDACTORS: dict[str, Callable[[Any], Any] | None] = {
     "oemId": lambda x: "REDACTED_" + x[9::],
     "username": lambda _: "user@example.com",  # cnCloud
     "hwId": lambda x: "REDACTED_" + x[9::],
+    "child_ids": _mask_child_ids,
+    "password": lambda _: "#MASKED_PASSWORD#",
 }
 
 
@@ -150,7 +156,7 @@ class IotProtocol(BaseProtocol):
             _LOGGER.debug(
                 "%s >> %s",
                 self._host,
-                request,
+                redact_json(request, REDACTORS) if self._redact_data else request,
             )
         resp = await self._transport.send(request)
 
diff --git a/kasa/protocols/protocol.py b/kasa/protocols/protocol.py
index fb09b88..039bf0f 100755
--- a/kasa/protocols/protocol.py
+++ b/kasa/protocols/protocol.py
@@ -21,6 +21,8 @@ from collections.abc import Callable
 from typing import TYPE_CHECKING, Any, TypeVar, cast
 
 from ..deviceconfig import DeviceConfig
+from ..json import dumps as json_dumps
+from ..json import loads as json_loads
 
 _LOGGER = logging.getLogger(__name__)
 _NO_RETRY_ERRORS = {errno.EHOSTDOWN, errno.EHOSTUNREACH, errno.ECONNREFUSED}
@@ -64,6 +66,15 @@ def redact_data(data: _T, redactors: dict[str, Callable[[Any], Any] | None]) ->
     return cast(_T, redacted)
 
 
+def redact_json(data: str, redactors: dict[str, Callable[[Any], Any] | None]) -> str:
+    """Redact sensitive data in a json document for logging."""
+    try:
+        parsed = json_loads(data)
+    except ValueError:
+        return data
+    return json_dumps(redact_data(parsed, redactors))
+
+
 def mask_mac(mac: str) -> str:
     """Return mac address with last two octects blanked."""
     if len(mac) == 12:
diff --git a/kasa/protocols/smartcamprotocol.py b/kasa/protocols/smartcamprotocol.py
index c836602..0db6725 100644
--- a/kasa/protocols/smartcamprotocol.py
+++ b/kasa/protocols/smartcamprotocol.py
@@ -161,7 +161,7 @@ class SmartCamProtocol(SmartProtocol):
             _LOGGER.debug(
                 "%s >> %s",
                 self._host,
-                pf(smart_request),
+                pf(self._redact_request(smart_request)),
             )
         response_data = await self._transport.send(smart_request)
 
@@ -169,7 +169,7 @@ class SmartCamProtocol(SmartProtocol):
             _LOGGER.debug(
                 "%s << %s",
                 self._host,
-                pf(response_data),
+                pf(self._redact_response(response_data)),
             )
 
         if "error_code" in response_data:
diff --git a/kasa/protocols/smartprotocol.py b/kasa/protocols/smartprotocol.py
index 59fd224..67c8b6a 100644
--- a/kasa/protocols/smartprotocol.py
+++ b/kasa/protocols/smartprotocol.py
@@ -28,7 +28,7 @@ from ..exceptions import (
     _RetryableError,
 )
 from ..json import dumps as json_dumps
-from .protocol import BaseProtocol, mask_mac, md5, redact_data
+from .protocol import BaseProtocol, mask_mac, md5, redact_data, redact_json
 
 if TYPE_CHECKING:
     from ..transports import BaseTransport
@@ -70,12 +70,15 @@ REDACTORS: dict[str, Callable[[Any], Any] | None] = {
     "mfi_setup_id": lambda x: re.sub(r"\w", "0", x),
     "mfi_token_token": lambda x: re.sub(r"\w", "0", x),
     "mfi_token_uuid": lambda x: re.sub(r"\w", "0", x),
+    "username": lambda _: "user@example.com",
+    "password": lambda _: "#MASKED_PASSWORD#",
     "ip": lambda x: x,  # don't redact but keep listed here for dump_devinfo
     # smartcam
     "dev_id": lambda x: "REDACTED_" + x[9::],
     "ext_addr": lambda x: "REDACTED_" + x[9::],
     "device_name": lambda x: "#MASKED_NAME#" if x else "",
     "device_alias": lambda x: "#MASKED_NAME#" if x else "",
+    "dev_alias": lambda x: "#MASKED_NAME#" if x else "",
     "alias": lambda x: "#MASKED_NAME#" if x else "",  # child info on parent uses alias
     "local_ip": lambda x: x,  # don't redact but keep listed here for dump_devinfo
     # robovac
@@ -205,6 +208,14 @@ class SmartProtocol(BaseProtocol):
         # make mypy happy, this should never be reached..
         raise KasaException("Query reached somehow to unreachable")
 
+    def _redact_request(self, request: str) -> str:
+        """Return the request as it can be logged."""
+        return redact_json(request, REDACTORS) if self._redact_data else request
+
+    def _redact_response(self, response: Any) -> Any:
+        """Return the response as it can be logged."""
+        return redact_data(response, REDACTORS) if self._redact_data else response
+
     async def _execute_multiple_query(
         self, requests: dict, retry_count: int, iterate_list_pages: bool
     ) -> dict:
@@ -242,19 +253,15 @@ class SmartProtocol(BaseProtocol):
                     "%s %s >> %s",
                     self._host,
                     batch_name,
-                    pf(smart_request),
+                    pf(self._redact_request(smart_request)),
                 )
             response_step = await self._transport.send(smart_request)
             if debug_enabled:
-                if self._redact_data:
-                    data = redact_data(response_step, REDACTORS)
-                else:
-                    data = response_step
                 _LOGGER.debug(
                     "%s %s << %s",
                     self._host,
                     batch_name,
-                    pf(data),
+                    pf(self._redact_response(response_step)),
                 )
             try:
                 self._handle_response_error_code(response_step, batch_name)
@@ -286,7 +293,7 @@ class SmartProtocol(BaseProtocol):
                         _LOGGER.error(
                             "No method key in response for %s, skipping: %s",
                             self._host,
-                            response_step,
+                            self._redact_response(response_step),
                         )
                     # These will end up being queried individually
                     continue
@@ -342,7 +349,7 @@ class SmartProtocol(BaseProtocol):
             _LOGGER.debug(
                 "%s >> %s",
                 self._host,
-                pf(smart_request),
+                pf(self._redact_request(smart_request)),
             )
         response_data = await self._transport.send(smart_request)
 
@@ -350,7 +357,7 @@ class SmartProtocol(BaseProtocol):
             _LOGGER.debug(
                 "%s << %s",
                 self._host,
-                pf(response_data),
+                pf(self._redact_response(response_data)),
             )
 
         self._handle_response_error_code(response_data, smart_method)
-- 
2.43.0


From 9b7833059c2fffa0769416a2eeae59b2d145682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:00 +0000
Subject: [PATCH 39/60] fix: keep payloads and session tokens out of the
 transports' debug logs

---
 kasa/httpclient.py                 | 4 +++-
 kasa/transports/klaptransport.py   | 2 +-
 kasa/transports/linkietransport.py | 4 ++--
 kasa/transports/ssltransport.py    | 5 ++---
 kasa/transports/xortransport.py    | 2 +-
 5 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/kasa/httpclient.py b/kasa/httpclient.py
index 3ffd715..05f8890 100644
--- a/kasa/httpclient.py
+++ b/kasa/httpclient.py
@@ -85,7 +85,9 @@ class HttpClient:
                 )
                 await asyncio.sleep(sleep)
 
-        _LOGGER.debug("Posting to %s", url)
+        # Leave out session tokens in the query or the path
+        log_url = str(url).partition("?")[0].partition("stok=")[0]
+        _LOGGER.debug("Posting to %s", log_url)
         response_data = None
         self._last_url = url
         # Leave the cookies of other devices using the same session alone
diff --git a/kasa/transports/klaptransport.py b/kasa/transports/klaptransport.py
index a5a30b7..a4c8f12 100644
--- a/kasa/transports/klaptransport.py
+++ b/kasa/transports/klaptransport.py
@@ -376,7 +376,7 @@ class KlapTransport(BaseTransport):
         msg = (
             f"Host is {self._host}, "
             + f"Sequence is {seq}, "
-            + f"Response status is {response_status}, Request was {request}"
+            + f"Response status is {response_status}"
         )
         if response_status != 200:
             _LOGGER.error("Query failed after successful authentication: %s", msg)
diff --git a/kasa/transports/linkietransport.py b/kasa/transports/linkietransport.py
index b817373..635d714 100644
--- a/kasa/transports/linkietransport.py
+++ b/kasa/transports/linkietransport.py
@@ -68,7 +68,7 @@ class LinkieTransportV2(BaseTransport):
 
     async def _execute_send(self, request: str) -> dict:
         """Execute a query on the device and wait for the response."""
-        _LOGGER.debug("%s >> %s", self._host, request)
+        _LOGGER.debug("Device %s sending query", self._host)
 
         encrypted_cmd = XorEncryption.encrypt(request)[4:]
         b64_cmd = base64.b64encode(encrypted_cmd).decode()
@@ -95,7 +95,7 @@ class LinkieTransportV2(BaseTransport):
             json_payload: dict = json_loads(
                 XorEncryption.decrypt(base64.b64decode(response))
             )
-            _LOGGER.debug("%s << %s", self._host, json_payload)
+            _LOGGER.debug("Device %s query response received", self._host)
             return json_payload
         except Exception:  # noqa: S110
             pass
diff --git a/kasa/transports/ssltransport.py b/kasa/transports/ssltransport.py
index 39cef80..0145633 100644
--- a/kasa/transports/ssltransport.py
+++ b/kasa/transports/ssltransport.py
@@ -145,7 +145,7 @@ class SslTransport(BaseTransport):
         """Send request."""
         url = self._app_url
 
-        _LOGGER.debug("Sending %s to %s", request, url)
+        _LOGGER.debug("Sending request to %s", self._host)
 
         status_code, resp_dict = await self._http_client.post(
             url,
@@ -159,7 +159,7 @@ class SslTransport(BaseTransport):
                 + f"status code {status_code}"
             )
 
-        _LOGGER.debug("Response with %s: %r", status_code, resp_dict)
+        _LOGGER.debug("Response from %s with %s", self._host, status_code)
 
         await self._handle_response_error_code(resp_dict, "Error sending request")
 
@@ -226,7 +226,6 @@ class SslTransport(BaseTransport):
 
     async def send(self, request: str) -> dict[str, Any]:
         """Send the request."""
-        _LOGGER.debug("Going to send %s", request)
         if self._state is not TransportState.ESTABLISHED or self._session_expired():
             _LOGGER.debug("Transport not established or session expired, logging in")
             await self.perform_login()
diff --git a/kasa/transports/xortransport.py b/kasa/transports/xortransport.py
index 84fba0a..a6d911a 100644
--- a/kasa/transports/xortransport.py
+++ b/kasa/transports/xortransport.py
@@ -76,7 +76,7 @@ class XorTransport(BaseTransport):
         """Execute a query on the device and wait for the response."""
         assert self.writer is not None  # noqa: S101
         assert self.reader is not None  # noqa: S101
-        _LOGGER.debug("Device %s sending query %s", self._host, request)
+        _LOGGER.debug("Device %s sending query", self._host)
 
         self.writer.write(XorEncryption.encrypt(request))
         await self.writer.drain()
-- 
2.43.0


From 0db99361d85746a014d0fdfbcf1fd918eb389fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:00 +0000
Subject: [PATCH 40/60] fix: redact discovery data in error messages and logs

---
 kasa/discover.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/kasa/discover.py b/kasa/discover.py
index 535bb61..2b811ca 100755
--- a/kasa/discover.py
+++ b/kasa/discover.py
@@ -828,7 +828,9 @@ class Discover:
         try:
             info = json_loads(data[16:])
         except Exception as ex:
-            _LOGGER.debug("Got invalid response from device %s: %s", ip, data)
+            _LOGGER.debug(
+                "Got invalid response of %s bytes from device %s", len(data), ip
+            )
             raise KasaException(
                 f"Unable to read response from device: {ip}: {ex}"
             ) from ex
@@ -940,8 +942,9 @@ class Discover:
             device_class := get_device_class_from_family(type_, https=conn_params.https)
         ) is None:
             _LOGGER.debug("Got unsupported device type: %s", type_)
+            data = redact_data(info, NEW_DISCOVERY_REDACTORS)
             raise UnsupportedDeviceError(
-                f"Unsupported device {config.host} of type {type_}: {info}",
+                f"Unsupported device {config.host} of type {type_}: {data}",
                 discovery_result=discovery_result.to_dict(),
                 host=config.host,
             )
@@ -950,9 +953,10 @@ class Discover:
             _LOGGER.debug(
                 "Got unsupported connection type: %s", config.connection_type.to_dict()
             )
+            data = redact_data(info, NEW_DISCOVERY_REDACTORS)
             raise UnsupportedDeviceError(
                 f"Unsupported encryption scheme {config.host} of "
-                + f"type {config.connection_type.to_dict()}: {info}",
+                + f"type {config.connection_type.to_dict()}: {data}",
                 discovery_result=discovery_result.to_dict(),
                 host=config.host,
             )
-- 
2.43.0


From 75417e13b7825966edbd49535a50fbae2ba59e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:00 +0000
Subject: [PATCH 41/60] fix: redact legacy device data in error messages and
 logs

---
 kasa/iot/iotdevice.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/kasa/iot/iotdevice.py b/kasa/iot/iotdevice.py
index 01758a1..0d7a895 100755
--- a/kasa/iot/iotdevice.py
+++ b/kasa/iot/iotdevice.py
@@ -30,6 +30,8 @@ from ..feature import Feature
 from ..module import Module
 from ..modulemapping import ModuleMapping, ModuleName
 from ..protocols import BaseProtocol
+from ..protocols.iotprotocol import REDACTORS
+from ..protocols.protocol import redact_data
 from .iotmodule import IotModule, merge
 from .modules import Emeter
 
@@ -265,18 +267,20 @@ class IotDevice(Device):
         except Exception as ex:
             raise KasaException(f"Communication error on {target}:{cmd}") from ex
 
+        # The messages may be logged
+        redacted = redact_data(response, REDACTORS)
         if target not in response:
-            raise KasaException(f"No required {target} in response: {response}")
+            raise KasaException(f"No required {target} in response: {redacted}")
 
         result = response[target]
         if "err_code" in result and result["err_code"] != 0:
-            raise KasaException(f"Error on {target}.{cmd}: {result}")
+            raise KasaException(f"Error on {target}.{cmd}: {redacted[target]}")
 
         if cmd not in result:
-            raise KasaException(f"No command in response: {response}")
+            raise KasaException(f"No command in response: {redacted}")
         result = result[cmd]
         if "err_code" in result and result["err_code"] != 0:
-            raise KasaException(f"Error on {target} {cmd}: {result}")
+            raise KasaException(f"Error on {target} {cmd}: {redacted[target][cmd]}")
 
         if "err_code" in result:
             del result["err_code"]
@@ -333,7 +337,10 @@ class IotDevice(Device):
         """Return the system info structure, raise if the device did not report it."""
         sys_info = _extract_sys_info(response)
         if not sys_info or sys_info.get("err_code", 0) != 0:
-            raise KasaException(f"Error on {self.host} system.get_sysinfo: {sys_info}")
+            raise KasaException(
+                f"Error on {self.host} system.get_sysinfo: "
+                f"{redact_data(sys_info, REDACTORS)}"
+            )
         return sys_info
 
     async def _initialize_modules(self) -> None:
@@ -416,7 +423,7 @@ class IotDevice(Device):
                 est_response_size = module.estimated_query_response_size
 
             q = module.query()
-            _LOGGER.debug("Adding query for %s: %s", module, q)
+            _LOGGER.debug("Adding query for %s: %s", module, redact_data(q, REDACTORS))
             req = merge(req, q)
         request_list.append(req)
 
@@ -682,7 +689,9 @@ class IotDevice(Device):
             info = await _scan("smartlife.iot.common.softaponboarding")
 
         if "ap_list" not in info:
-            raise KasaException(f"Invalid response for wifi scan: {info}")
+            raise KasaException(
+                f"Invalid response for wifi scan: {redact_data(info, REDACTORS)}"
+            )
 
         return [WifiNetwork(**x) for x in info["ap_list"]]
 
-- 
2.43.0


From 344ee3b3dacc0fa6201bc146a601c050d60fad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:00 +0000
Subject: [PATCH 42/60] fix: redact child devices' data in logs

---
 kasa/smart/modules/childsetup.py    | 10 ++++++----
 kasa/smart/smartdevice.py           | 20 +++++++++++++++-----
 kasa/smartcam/modules/childsetup.py |  8 +++++---
 kasa/smartcam/smartcamdevice.py     |  4 +++-
 4 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/kasa/smart/modules/childsetup.py b/kasa/smart/modules/childsetup.py
index f3bf88c..2424d00 100644
--- a/kasa/smart/modules/childsetup.py
+++ b/kasa/smart/modules/childsetup.py
@@ -10,6 +10,8 @@ import logging
 
 from ...feature import Feature
 from ...interfaces.childsetup import ChildSetup as ChildSetupInterface
+from ...protocols.protocol import redact_data
+from ...protocols.smartprotocol import REDACTORS
 from ..smartmodule import SmartModule
 
 _LOGGER = logging.getLogger(__name__)
@@ -67,14 +69,14 @@ class ChildSetup(SmartModule, ChildSetupInterface):
         _LOGGER.info(
             "Discovery done, found %s devices: %s",
             len(detected["child_device_list"]),
-            detected,
+            redact_data(detected, REDACTORS),
         )
 
         return await self._add_devices(detected)
 
     async def unpair(self, device_id: str) -> dict:
         """Remove device from the hub."""
-        _LOGGER.info("Going to unpair %s from %s", device_id, self)
+        _LOGGER.info("Going to unpair %s from %s", "REDACTED_" + device_id[9:], self)
 
         payload = {"child_device_list": [{"device_id": device_id}]}
         res = await self.call("remove_child_device_list", payload)
@@ -99,7 +101,7 @@ class ChildSetup(SmartModule, ChildSetupInterface):
                 result = "added"
                 successes.append(detected)
 
-            msg = f"{detected['device_model']} - {device_id} - {result}"
+            msg = f"{detected['device_model']} - REDACTED_{device_id[9:]} - {result}"
             _LOGGER.info("Added child to %s: %s", self._device.host, msg)
 
         return successes
@@ -108,5 +110,5 @@ class ChildSetup(SmartModule, ChildSetupInterface):
         """Return list of devices detected during scanning."""
         param = {"scan_list": self.data["device_category_list"]}
         res = await self.call("get_scan_child_device_list", param)
-        _LOGGER.debug("Scan status: %s", res)
+        _LOGGER.debug("Scan status: %s", redact_data(res, REDACTORS))
         return res["get_scan_child_device_list"]
diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 9568eec..966143b 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -18,6 +18,8 @@ from ..feature import Feature
 from ..module import Module
 from ..modulemapping import ModuleMapping, ModuleName
 from ..protocols import SmartProtocol
+from ..protocols.protocol import redact_data
+from ..protocols.smartprotocol import REDACTORS
 from ..transports import AesTransport
 from .modules import (
     ChildDevice,
@@ -135,7 +137,10 @@ class SmartDevice(Device):
 
                 if child_id not in self._logged_missing_child_ids:
                     self._logged_missing_child_ids.add(child_id)
-                    _LOGGER.debug("Child device type not supported: %s", info)
+                    _LOGGER.debug(
+                        "Child device type not supported: %s",
+                        redact_data(info, REDACTORS),
+                    )
                 continue
 
             if child_id:
@@ -145,8 +150,10 @@ class SmartDevice(Device):
                         "Could not find child components for device %s, "
                         "child_id %s, components: %s: ",
                         self.host,
-                        child_id,
-                        smart_children_components,
+                        "REDACTED_" + child_id[9:],
+                        redact_data(
+                            list(smart_children_components.values()), REDACTORS
+                        ),
                     )
                 continue
 
@@ -156,7 +163,9 @@ class SmartDevice(Device):
             if "" not in self._logged_missing_child_ids:
                 self._logged_missing_child_ids.add("")
                 _LOGGER.debug(
-                    "Could not find child id for device %s, info: %s", self.host, info
+                    "Could not find child id for device %s, info: %s",
+                    self.host,
+                    redact_data(info, REDACTORS),
                 )
 
         removed_ids = existing_child_ids - child_ids
@@ -194,7 +203,8 @@ class SmartDevice(Device):
         if default is not None:
             return default
         raise KasaException(
-            f"{request} not found in {responses} for device {self.host}"
+            f"{request} not found in {redact_data(responses, REDACTORS)} "
+            f"for device {self.host}"
         )
 
     @staticmethod
diff --git a/kasa/smartcam/modules/childsetup.py b/kasa/smartcam/modules/childsetup.py
index 676bd63..4428b85 100644
--- a/kasa/smartcam/modules/childsetup.py
+++ b/kasa/smartcam/modules/childsetup.py
@@ -10,6 +10,8 @@ import logging
 
 from ...feature import Feature
 from ...interfaces.childsetup import ChildSetup as ChildSetupInterface
+from ...protocols.protocol import redact_data
+from ...protocols.smartprotocol import REDACTORS
 from ..smartcammodule import SmartCamModule
 
 _LOGGER = logging.getLogger(__name__)
@@ -75,7 +77,7 @@ class ChildSetup(SmartCamModule, ChildSetupInterface):
         _LOGGER.info(
             "Discovery done, found %s devices: %s",
             len(detected_list),
-            detected_list,
+            redact_data(detected_list, REDACTORS),
         )
         return await self._add_devices(detected_list)
 
@@ -97,14 +99,14 @@ class ChildSetup(SmartCamModule, ChildSetupInterface):
                 result = "added"
                 successes.append(detected)
 
-            msg = f"{detected['device_model']} - {device_id} - {result}"
+            msg = f"{detected['device_model']} - REDACTED_{device_id[9:]} - {result}"
             _LOGGER.info("Adding child to %s: %s", self._device.host, msg)
 
         return successes
 
     async def unpair(self, device_id: str) -> dict:
         """Remove device from the hub."""
-        _LOGGER.info("Going to unpair %s from %s", device_id, self)
+        _LOGGER.info("Going to unpair %s from %s", "REDACTED_" + device_id[9:], self)
 
         payload = {"childControl": {"child_device_list": [{"device_id": device_id}]}}
         res = await self.call("removeChildDeviceList", payload)
diff --git a/kasa/smartcam/smartcamdevice.py b/kasa/smartcam/smartcamdevice.py
index f0aebb1..24c2f47 100644
--- a/kasa/smartcam/smartcamdevice.py
+++ b/kasa/smartcam/smartcamdevice.py
@@ -115,7 +115,9 @@ class SmartCamDevice(SmartDevice):
                 {"get_connect_cloud_state": None}
             )
         except Exception as ex:
-            _LOGGER.exception("Error initialising child %s: %s", child_id, ex)
+            _LOGGER.exception(
+                "Error initialising child %s: %s", "REDACTED_" + child_id[9:], ex
+            )
 
         return await SmartChildDevice.create(
             parent=self,
-- 
2.43.0


From 8ee60bec728b323290b3738d948d4d9506844493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:23 +0000
Subject: [PATCH 43/60] fix: listing and deleting schedule rules from the
 command line

---
 kasa/cli/schedule.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/kasa/cli/schedule.py b/kasa/cli/schedule.py
index 7c9c738..302acb7 100644
--- a/kasa/cli/schedule.py
+++ b/kasa/cli/schedule.py
@@ -19,22 +19,23 @@ async def schedule(dev) -> None:
 
 
 @schedule.command(name="list")
-@pass_dev_or_child
 @click.argument("type", default="schedule")
+@pass_dev_or_child
 async def _schedule_list(dev, type):
     """Return the list of schedule actions for the given type."""
     sched = dev.modules[type]
-    for rule in sched.rules:
-        print(rule)
-    else:
+    if not sched.rules:
         error(f"No rules of type {type}")
 
+    for rule in sched.rules:
+        echo(rule)
+
     return sched.rules
 
 
 @schedule.command(name="delete")
-@pass_dev_or_child
 @click.option("--id", type=str, required=True)
+@pass_dev_or_child
 async def delete_rule(dev, id):
     """Delete rule from device."""
     schedule = dev.modules["schedule"]
-- 
2.43.0


From b2e25848dac6a4b99190556906ac7f8a27887e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:23 +0000
Subject: [PATCH 44/60] fix: keep vacuum output out of the JSON document

---
 kasa/cli/vacuum.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/kasa/cli/vacuum.py b/kasa/cli/vacuum.py
index d0ccc55..2e6edb2 100644
--- a/kasa/cli/vacuum.py
+++ b/kasa/cli/vacuum.py
@@ -10,6 +10,7 @@ from kasa import (
 )
 
 from .common import (
+    echo,
     error,
     pass_dev_or_child,
 )
@@ -30,12 +31,12 @@ async def records_group(dev: Device) -> None:
 
     data = rec.parsed_data
     latest = data.last_clean
-    click.echo(
+    echo(
         f"Totals: {rec.total_clean_area} {rec.area_unit} in {rec.total_clean_time} "
         f"(cleaned {rec.total_clean_count} times)"
     )
-    click.echo(f"Last clean: {latest.clean_area} {rec.area_unit} @ {latest.clean_time}")
-    click.echo("Execute `kasa vacuum records list` to list all records.")
+    echo(f"Last clean: {latest.clean_area} {rec.area_unit} @ {latest.clean_time}")
+    echo("Execute `kasa vacuum records list` to list all records.")
 
 
 @records_group.command(name="list")
@@ -47,7 +48,7 @@ async def records_list(dev: Device) -> None:
 
     data = rec.parsed_data
     for record in data.records:
-        click.echo(
+        echo(
             f"* {record.timestamp}: cleaned {record.clean_area} {rec.area_unit}"
             f" in {record.clean_time}"
         )
@@ -63,7 +64,7 @@ async def consumables(ctx: click.Context, dev: Device) -> None:
 
     if not ctx.invoked_subcommand:
         for c in cons.consumables.values():
-            click.echo(f"{c.name} ({c.id}): {c.used} used, {c.remaining} remaining")
+            echo(f"{c.name} ({c.id}): {c.used} used, {c.remaining} remaining")
 
 
 @consumables.command(name="reset")
@@ -81,4 +82,4 @@ async def reset_consumable(dev: Device, consumable_id: str) -> None:
 
     await cons.reset_consumable(consumable_id)
 
-    click.echo(f"Consumable {consumable_id} reset")
+    echo(f"Consumable {consumable_id} reset")
-- 
2.43.0


From c185366c37b771887b27a1fe5e706c22bdf34bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:23 +0000
Subject: [PATCH 45/60] fix: child logs as JSON and on devices without logs

---
 kasa/cli/device.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kasa/cli/device.py b/kasa/cli/device.py
index 7610a7c..4f5c5eb 100644
--- a/kasa/cli/device.py
+++ b/kasa/cli/device.py
@@ -208,7 +208,9 @@ async def update_credentials(dev, username, password):
 @pass_dev_or_child
 async def child_logs(dev):
     """Print child device trigger logs."""
-    if logs := dev.modules.get(Module.TriggerLogs):
-        await dev.update(update_children=True)
-        for entry in logs.logs:
-            print(entry)
+    if not (logs := dev.modules.get(Module.TriggerLogs)):
+        error("Device does not support trigger logs.")
+
+    await dev.update(update_children=True)
+    for entry in logs.logs:
+        echo(entry)
-- 
2.43.0


From fee073b7652731543dd764af66784e0667969715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:23 +0000
Subject: [PATCH 46/60] fix: non-zero exit status setting the time without time
 module

---
 kasa/cli/time.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kasa/cli/time.py b/kasa/cli/time.py
index e2cb4c1..77850f9 100644
--- a/kasa/cli/time.py
+++ b/kasa/cli/time.py
@@ -58,8 +58,7 @@ async def time_get(dev: Device):
 async def time_sync(dev: Device, timezone: str | None, skip_confirm: bool):
     """Set the device time to current time."""
     if (time := dev.modules.get(Module.Time)) is None:
-        echo("Device does not have time module")
-        return
+        error("Device does not have time module")
 
     now = datetime.now()
 
@@ -117,8 +116,7 @@ async def time_set(
 ):
     """Set the device time to the provided time."""
     if (time := dev.modules.get(Module.Time)) is None:
-        echo("Device does not have time module")
-        return
+        error("Device does not have time module")
 
     tzinfo: zoneinfo.ZoneInfo | None = None
     if timezone:
-- 
2.43.0


From d92db387f96337f3b270a1de9c5bed8df405c1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:23 +0000
Subject: [PATCH 47/60] fix: turn-on behavior and presets modify commands

---
 kasa/cli/light.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/kasa/cli/light.py b/kasa/cli/light.py
index a778556..2790b47 100644
--- a/kasa/cli/light.py
+++ b/kasa/cli/light.py
@@ -159,7 +159,7 @@ async def presets_modify(dev: Device, index, brightness, hue, saturation, temper
         return
 
     max_index = len(light_preset.preset_states_list) - 1
-    if index > len(light_preset.preset_states_list) - 1:
+    if not 0 <= index <= max_index:
         error(f"Invalid index, must be between 0 and {max_index}")
         return
 
@@ -179,7 +179,7 @@ async def presets_modify(dev: Device, index, brightness, hue, saturation, temper
         preset.hue = hue
     if saturation is not None and preset.saturation is not None:
         preset.saturation = saturation
-    if temperature is not None and preset.temperature is not None:
+    if temperature is not None and preset.color_temp is not None:
         preset.color_temp = temperature
 
     echo(f"Updating preset {preset_name} to: {preset}")
@@ -188,10 +188,10 @@ async def presets_modify(dev: Device, index, brightness, hue, saturation, temper
 
 
 @light.command()
-@pass_dev_or_child
 @click.option("--type", type=click.Choice(["soft", "hard"], case_sensitive=False))
 @click.option("--last", is_flag=True)
 @click.option("--preset", type=int)
+@pass_dev_or_child
 async def turn_on_behavior(dev: Device, type, last, preset):
     """Modify bulb turn-on behavior."""
     if dev.device_type is not Device.Type.Bulb or not isinstance(dev, IotBulb):
@@ -201,13 +201,12 @@ async def turn_on_behavior(dev: Device, type, last, preset):
     echo(f"Current turn on behavior: {settings}")
 
     # Return if we are not setting the value
-    if not type and not last and not preset:
+    if not type and not last and preset is None:
         return settings
 
     # If we are setting the value, the type has to be specified
-    if (last or preset) and type is None:
-        echo("To set the behavior, you need to define --type")
-        return
+    if type is None:
+        error("To set the behavior, you need to define --type")
 
     behavior = getattr(settings, type)
 
-- 
2.43.0


From 5fee1b2c3e9706284fa2ff212ef2ea484150763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:23 +0000
Subject: [PATCH 48/60] fix: log to standard error when printing JSON

---
 kasa/cli/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kasa/cli/main.py b/kasa/cli/main.py
index 4f1eccd..3ce197a 100755
--- a/kasa/cli/main.py
+++ b/kasa/cli/main.py
@@ -259,10 +259,13 @@ async def cli(
         "level": logging.DEBUG if debug > 0 else logging.INFO
     }
     try:
+        from rich.console import Console
         from rich.logging import RichHandler
 
         rich_config = {
             "show_time": False,
+            # The JSON document must be the only thing on the standard output
+            "console": Console(stderr=json),
         }
         logging_config["handlers"] = [RichHandler(**rich_config)]
         logging_config["format"] = "%(message)s"
-- 
2.43.0


From b4e8d6969e547bec27a9601f1ce108c3519bcdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:23 +0000
Subject: [PATCH 49/60] fix: exit status, hang and options of the alias option

---
 kasa/cli/discover.py | 33 +++++++++++++++++++++------------
 kasa/cli/main.py     | 10 +++++++---
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/kasa/cli/discover.py b/kasa/cli/discover.py
index af367e3..5116d65 100644
--- a/kasa/cli/discover.py
+++ b/kasa/cli/discover.py
@@ -344,6 +344,8 @@ async def find_dev_from_alias(
     target: str = "255.255.255.255",
     timeout: int = 5,
     attempts: int = 3,
+    discovery_timeout: int = 5,
+    port: int | None = None,
 ) -> Device | None:
     """Discover a device identified by its alias."""
     found_event = asyncio.Event()
@@ -369,17 +371,24 @@ async def find_dev_from_alias(
             found_event.set()
 
     async def do_discover():
-        for _ in range(1, attempts):
-            await Discover.discover(
-                target=target,
-                timeout=timeout,
-                credentials=credentials,
-                on_discovered=on_discovered,
-            )
-            if found_event.is_set():
-                break
-        found_event.set()
+        try:
+            for _ in range(1, attempts):
+                await Discover.discover(
+                    target=target,
+                    timeout=timeout,
+                    discovery_timeout=discovery_timeout,
+                    port=port,
+                    credentials=credentials,
+                    on_discovered=on_discovered,
+                )
+                if found_event.is_set():
+                    break
+        finally:
+            found_event.set()
 
-    asyncio.create_task(do_discover())
+    discover_task = asyncio.create_task(do_discover())
     await found_event.wait()
-    return found_device[0] if found_device else None
+    if found_device:
+        return found_device[0]
+    await discover_task
+    return None
diff --git a/kasa/cli/main.py b/kasa/cli/main.py
index 3ce197a..0136f3c 100755
--- a/kasa/cli/main.py
+++ b/kasa/cli/main.py
@@ -351,11 +351,15 @@ async def cli(
         from .discover import find_dev_from_alias
 
         dev = await find_dev_from_alias(
-            alias=alias, target=target, credentials=credentials
+            alias=alias,
+            target=target,
+            credentials=credentials,
+            timeout=timeout,
+            discovery_timeout=discovery_timeout,
+            port=port,
         )
         if not dev:
-            echo(f"No device with name {alias} found")
-            return
+            error(f"No device with name {alias} found")
         echo(f"Found hostname by alias: {dev.host}")
         device_updated = True
     else:  # host will be set
-- 
2.43.0


From d5d5546660759f7a6f98d0089996b9406b305f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:49 +0000
Subject: [PATCH 50/60] fix: a failing device no longer stops the discovery of
 the others

---
 kasa/cli/discover.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kasa/cli/discover.py b/kasa/cli/discover.py
index 5116d65..7430680 100644
--- a/kasa/cli/discover.py
+++ b/kasa/cli/discover.py
@@ -13,6 +13,7 @@ from kasa import (
     Credentials,
     Device,
     Discover,
+    KasaException,
     UnsupportedDeviceError,
 )
 from kasa.discover import (
@@ -94,6 +95,13 @@ async def detail(ctx: click.Context) -> DeviceDict:
                 echo("== Authentication failed for device ==")
                 _echo_discovery_info(dev._discovery_info)
                 echo()
+            except KasaException as ex:
+                # Do not let a single device stop the discovery of the others
+                if ctx.find_root().params["host"]:
+                    raise
+                echo("== Unable to query device ==")
+                echo(f"\t{dev.host}: {ex}")
+                echo()
             else:
                 ctx.parent.obj = dev
                 await ctx.parent.invoke(state)
-- 
2.43.0


From 0e6257ad0b738bb7449833a0381b7650215df3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:13 +0000
Subject: [PATCH 51/60] fix: report a light effect created after the effects
 were queried

---
 kasa/smart/modules/lighteffect.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/kasa/smart/modules/lighteffect.py b/kasa/smart/modules/lighteffect.py
index 37b0d3b..0b8032f 100644
--- a/kasa/smart/modules/lighteffect.py
+++ b/kasa/smart/modules/lighteffect.py
@@ -8,6 +8,7 @@ import contextlib
 import copy
 from typing import Any
 
+from ...exceptions import KasaException
 from ..effects import SmartLightEffect
 from ..smartmodule import Module, SmartModule, allow_update_after
 
@@ -56,9 +57,13 @@ class LightEffect(SmartModule, SmartLightEffect):
         # get_dynamic_light_effect_rules also has an enable property and current_rule_id
         # property that could be used here as an alternative
         if self._device._info["dynamic_light_effect_enable"]:
-            self._effect = self._effect_state_list[
-                self._device._info["dynamic_light_effect_id"]
-            ]["scene_name"]
+            effect_id = self._device._info["dynamic_light_effect_id"]
+            if effect_id in self._effect_state_list:
+                self._effect = self._effect_state_list[effect_id]["scene_name"]
+            else:
+                # Created since the effects were queried, query them again
+                self._effect = effect_id
+                self._last_update_time = None
         else:
             self._effect = self.LIGHT_EFFECTS_OFF
 
@@ -116,8 +121,8 @@ class LightEffect(SmartModule, SmartLightEffect):
         """Return True if effect is active."""
         return bool(self._device._info["dynamic_light_effect_enable"])
 
-    def _get_effect_data(self, effect_id: str | None = None) -> dict[str, Any]:
-        """Return effect data for the *effect_id*.
+    def _get_effect_data(self, effect_id: str | None = None) -> dict[str, Any] | None:
+        """Return effect data for the *effect_id*, None if it is not known.
 
         If *effect_id* is None, return the data for active effect.
         """
@@ -129,12 +134,16 @@ class LightEffect(SmartModule, SmartLightEffect):
             )
 
         # Use the rule as stored on the device, including its unchanged scene name
-        return next(rule for rule in self.data["rule_list"] if rule["id"] == effect_id)
+        rules = self.data["rule_list"]
+        return next((rule for rule in rules if rule["id"] == effect_id), None)
 
     @property
     def brightness(self) -> int:
         """Return effect brightness."""
-        first_color_status = self._get_effect_data()["color_status_list"][0]
+        if (effect := self._get_effect_data()) is None:
+            return self._device._info["brightness"]
+
+        first_color_status = effect["color_status_list"][0]
         brightness = first_color_status[0]
 
         return brightness
@@ -148,7 +157,10 @@ class LightEffect(SmartModule, SmartLightEffect):
         effect_id: str | None = None,
     ) -> dict:
         """Set effect brightness."""
-        new_effect = self._get_effect_data(effect_id=effect_id).copy()
+        effect = self._get_effect_data(effect_id=effect_id)
+        if effect is None:
+            raise KasaException("The active effect is not known, call update() first")
+        new_effect = effect.copy()
 
         def _replace_brightness(data: list[int], new_brightness: int) -> list[int]:
             """Replace brightness.
-- 
2.43.0


From a608a23334eeff5b650549c035d5b97d92eefe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:13 +0000
Subject: [PATCH 52/60] fix: keep the consumables of one vacuum apart from
 another's

---
 kasa/smart/modules/consumables.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kasa/smart/modules/consumables.py b/kasa/smart/modules/consumables.py
index 10de583..0485ff1 100644
--- a/kasa/smart/modules/consumables.py
+++ b/kasa/smart/modules/consumables.py
@@ -6,10 +6,14 @@ import logging
 from collections.abc import Mapping
 from dataclasses import dataclass
 from datetime import timedelta
+from typing import TYPE_CHECKING
 
 from ...feature import Feature
 from ..smartmodule import SmartModule
 
+if TYPE_CHECKING:
+    from ..smartdevice import SmartDevice
+
 _LOGGER = logging.getLogger(__name__)
 
 
@@ -86,7 +90,9 @@ class Consumables(SmartModule):
     REQUIRED_COMPONENT = "consumables"
     QUERY_GETTER_NAME = "getConsumablesInfo"
 
-    _consumables: dict[str, Consumable] = {}
+    def __init__(self, device: SmartDevice, module: str) -> None:
+        super().__init__(device, module)
+        self._consumables: dict[str, Consumable] = {}
 
     def _initialize_features(self) -> None:
         """Initialize features."""
-- 
2.43.0


From af19e7b7846ca1d8409fb7c479df37f0ed24ee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:46 +0000
Subject: [PATCH 53/60] fix: save the behavior of a bulb at power on

---
 kasa/iot/iotbulb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kasa/iot/iotbulb.py b/kasa/iot/iotbulb.py
index cb2e858..3a5b5b6 100644
--- a/kasa/iot/iotbulb.py
+++ b/kasa/iot/iotbulb.py
@@ -74,6 +74,11 @@ class TurnOnBehavior(DataClassDictMixin):
 class TurnOnBehaviors(DataClassDictMixin):
     """Model to contain turn on behaviors."""
 
+    class Config(BaseConfig):
+        """Serialization config."""
+
+        serialize_by_alias = True
+
     #: The behavior when the bulb is turned on programmatically.
     soft: Annotated[TurnOnBehavior, Alias("soft_on")]
     #: The behavior when the bulb has been off from mains power.
-- 
2.43.0


From 267b56b8f98dbc7f6cfd2ab3c2d0f2d74a5f8bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:46 +0000
Subject: [PATCH 54/60] fix: send the mode that belongs to a turn on behavior

---
 kasa/iot/iotbulb.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kasa/iot/iotbulb.py b/kasa/iot/iotbulb.py
index 3a5b5b6..c5c0e51 100644
--- a/kasa/iot/iotbulb.py
+++ b/kasa/iot/iotbulb.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 import logging
 import re
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from enum import Enum
 from typing import Annotated, cast
 
@@ -69,6 +69,14 @@ class TurnOnBehavior(DataClassDictMixin):
     hue: int | None = None
     saturation: int | None = None
 
+    def __pre_serialize__(self) -> TurnOnBehavior:
+        """Let the mode follow the chosen preset."""
+        if self.preset is not None:
+            return replace(self, mode=BehaviorMode.Preset)
+        if self.mode is BehaviorMode.Preset:
+            return replace(self, mode=BehaviorMode.Last)
+        return self
+
 
 @dataclass
 class TurnOnBehaviors(DataClassDictMixin):
-- 
2.43.0


From 38de71ecc24f845269507dae695314b83d054e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:46 +0000
Subject: [PATCH 55/60] fix: send the names of button actions and fade types to
 dimmers

---
 kasa/iot/iotdimmer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kasa/iot/iotdimmer.py b/kasa/iot/iotdimmer.py
index 6b22d64..8b0ccfc 100644
--- a/kasa/iot/iotdimmer.py
+++ b/kasa/iot/iotdimmer.py
@@ -204,9 +204,9 @@ class IotDimmer(IotPlug):
          (nothing, instant, gentle, change preset)
         :param index int: in case of preset change, the preset to select
         """
-        action_type_setter = f"set_{action_type}"
+        action_type_setter = f"set_{action_type.value}"
 
-        payload: dict[str, Any] = {"mode": str(action)}
+        payload: dict[str, Any] = {"mode": action.value}
         if index is not None:
             payload["index"] = index
 
@@ -217,7 +217,7 @@ class IotDimmer(IotPlug):
     @requires_update
     async def set_fade_time(self, fade_type: FadeType, time: int) -> dict:
         """Set time for fade in / fade out."""
-        fade_type_setter = f"set_{fade_type}_time"
+        fade_type_setter = f"set_{fade_type.value}_time"
         payload = {"fadeTime": time}
 
         return await self._query_helper(self.DIMMER_SERVICE, fade_type_setter, payload)
-- 
2.43.0


From a6590aaceef0dfe89a442fed58fddf95be77c4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:46 +0000
Subject: [PATCH 56/60] fix: read the night mode settings of the led

---
 kasa/smart/modules/led.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/kasa/smart/modules/led.py b/kasa/smart/modules/led.py
index 1733c3c..5960174 100644
--- a/kasa/smart/modules/led.py
+++ b/kasa/smart/modules/led.py
@@ -43,10 +43,12 @@ class Led(SmartModule, LedInterface):
     @property
     def night_mode_settings(self) -> dict:
         """Night mode settings."""
+        night_mode = self.data["night_mode"]
+        # The offsets are only reported for the type sunrise_sunset
         return {
-            "start": self.data["start_time"],
-            "end": self.data["end_time"],
-            "type": self.data["night_mode_type"],
-            "sunrise_offset": self.data["sunrise_offset"],
-            "sunset_offset": self.data["sunset_offset"],
+            "start": night_mode["start_time"],
+            "end": night_mode["end_time"],
+            "type": night_mode["night_mode_type"],
+            "sunrise_offset": night_mode.get("sunrise_offset"),
+            "sunset_offset": night_mode.get("sunset_offset"),
         }
-- 
2.43.0


From 8bc7cf7fa5b7260795f7842deff44010d1897008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:46 +0000
Subject: [PATCH 57/60] fix: keep the device information of strip sockets
 current

---
 kasa/iot/iotstrip.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kasa/iot/iotstrip.py b/kasa/iot/iotstrip.py
index 8a7d75c..b1da421 100755
--- a/kasa/iot/iotstrip.py
+++ b/kasa/iot/iotstrip.py
@@ -389,6 +389,7 @@ class IotStripPlug(IotPlug):
         # Keep the inherited system information up to date
         self._set_sys_info(self._parent.sys_info)
         await self._modular_update({})
+        self._last_update["system"] = self._parent._last_update["system"]
         for module in self._modules.values():
             await module._post_update_hook()
 
-- 
2.43.0


From b5e8c8ed185b3a05dcd407cdd979f54683f4d04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:46 +0000
Subject: [PATCH 58/60] fix: know the model of children that have nothing to
 update

---
 kasa/smart/smartchilddevice.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kasa/smart/smartchilddevice.py b/kasa/smart/smartchilddevice.py
index af22658..2dc42f5 100644
--- a/kasa/smart/smartchilddevice.py
+++ b/kasa/smart/smartchilddevice.py
@@ -68,6 +68,14 @@ class SmartChildDevice(SmartDevice):
             None,
         )
 
+    @property
+    def model(self) -> str:
+        """Returns the device model.
+
+        The parent provides the info, the child may have nothing to update.
+        """
+        return str(self._info.get("model"))
+
     async def update(self, update_children: bool = True) -> None:
         """Update child module info.
 
-- 
2.43.0


From e4ad6af486eb37e327f9becdc02f5bdb6d13e824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:10 +0000
Subject: [PATCH 59/60] fix: an update overlapping the first one must not
 initialize a SMART device again

---
 kasa/smart/smartdevice.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kasa/smart/smartdevice.py b/kasa/smart/smartdevice.py
index 966143b..183c121 100644
--- a/kasa/smart/smartdevice.py
+++ b/kasa/smart/smartdevice.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import asyncio
 import base64
 import logging
 import time
@@ -75,6 +76,7 @@ class SmartDevice(Device):
         self._parent: SmartDevice | None = None
         self._children: dict[str, SmartDevice] = {}
         self._last_update_time: float | None = None
+        self._update_lock = asyncio.Lock()
         self._on_since: datetime | None = None
         self._info: dict[str, Any] = {}
         self._logged_missing_child_ids: set[str] = set()
@@ -279,6 +281,12 @@ class SmartDevice(Device):
         if self.credentials is None and self.credentials_hash is None:
             raise AuthenticationError("Tapo plug requires authentication.")
 
+        # An update that overlaps the first one must not initialize everything again
+        async with self._update_lock:
+            await self._update_device(update_children)
+
+    async def _update_device(self, update_children: bool) -> None:
+        """Update the device, one update at a time."""
         first_update = self._last_update_time is None
         now = time.monotonic()
 
-- 
2.43.0


From f2d1dfc646e73a74a1c5a711db6ae09e2ef4d0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:30 +0000
Subject: [PATCH 60/60] fix: escape the login in camera stream addresses as
 userinfo, not as a form value

---
 kasa/smartcam/modules/camera.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kasa/smartcam/modules/camera.py b/kasa/smartcam/modules/camera.py
index bd4b280..e86bc7e 100644
--- a/kasa/smartcam/modules/camera.py
+++ b/kasa/smartcam/modules/camera.py
@@ -6,7 +6,7 @@ import base64
 import logging
 from enum import StrEnum
 from typing import Annotated
-from urllib.parse import quote_plus
+from urllib.parse import quote
 
 from ...credentials import Credentials
 from ...feature import Feature
@@ -116,8 +116,8 @@ class Camera(SmartCamModule):
         if not credentials or not credentials.username or not credentials.password:
             return None
 
-        username = quote_plus(credentials.username)
-        password = quote_plus(credentials.password)
+        username = quote(credentials.username, safe="")
+        password = quote(credentials.password, safe="")
 
         return f"rtsp://{username}:{password}@{self._device.host}:{LOCAL_STREAMING_PORT}/{stream}"
 
-- 
2.43.0

