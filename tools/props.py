#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))


prop("C01", "Legacy TCP: every reply answers the request it is returned for",
     "On the length-framed, XOR-obfuscated TCP connection of legacy devices, a successful query returns exactly the JSON the device sent in answer to that very request, however the reply bytes are split or delayed, and the device receives exactly the request that was made. After a timeout, cancellation, disconnect, refused connection or truncated or garbage reply at any point, no later query ever returns bytes left over from an earlier exchange. A connection whose exchange did not complete is closed and never reused.",
     ["schedules", "fault_sequences", "histories"],
     "every history of up to N queries x every fault (timeout, reset, EOF, refused, garbage, caller cancellation) at every I/O point of each exchange x every chunking of the reply within the bound",
     "Tests mock the stream reader/writer and return one well-formed reply at a time; they never deliver a late reply, a split frame after a cancellation, or a fault inside a frame followed by another query.",
     ["kasa/transports/xortransport.py", "kasa/protocols/iotprotocol.py"],
     [("length-prefixed read, close on any error", "kasa/transports/xortransport.py:XorTransport.send"),
      ("autokey XOR cipher", "kasa/transports/xortransport.py:XorEncryption"),
      ("query lock and retry loop", "kasa/protocols/iotprotocol.py:IotProtocol.query")],
     [("reader/writer", "the open connection, None when closed", "kasa/transports/xortransport.py:XorTransport")],
     ["bytes written to / read from the connection", "value returned by query"])

prop("C02", "Concurrent queries on one device are serialised and independent",
     "However many tasks query the same device (or several children of one hub or strip) at once, at most one request is outstanding on that device's connection at any time, and every caller gets the answer to its own request. The cancellation, timeout or failure of one caller neither blocks another caller for ever nor changes the answer it gets. When all callers are done, a further query succeeds against a healthy device.",
     ["schedules", "fault_sequences"],
     "all interleavings (up to the stated deviation bound) of up to 3 concurrent callers with I/O completions, timer expiries and cancellations of any caller at every suspension point, for each protocol/transport family",
     "The only concurrency test gathers a fixed set of queries against an instantly answering mock; cancellation and lock hand-over under failures are never scheduled.",
     ["kasa/protocols/iotprotocol.py", "kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py", "kasa/transports/klaptransport.py", "kasa/transports/aestransport.py", "kasa/transports/sslaestransport.py", "kasa/httpclient.py"],
     [("query lock", "kasa/protocols/smartprotocol.py:SmartProtocol.query"), ("query lock", "kasa/protocols/iotprotocol.py:IotProtocol.query"),
      ("handshake lock", "kasa/transports/klaptransport.py:KlapTransport.send")],
     observe=["requests in flight at the simulated device", "answer each caller gets"])

prop("C03", "Retries are bounded, correctly classified, and end in a library exception",
     "For every sequence of faults a query makes at most one attempt plus the configured number of retries, returns the first good answer, and never repeats a request after an authentication failure or an error classified as permanent. When it gives up, the caller sees one exception of the library's own exception family (on transports other than Linkie the timeout kind when the last fault was a timeout, the authentication kind when the device rejected the credentials) and never a bare OS, HTTP-client, JSON, key or value error. The session is discarded after every fault other than a plain connection error, and the next query to a healthy device succeeds.",
     ["fault_sequences"],
     "all fault sequences of length up to retries+1 over the fault alphabet of each transport (connect refused, reset, disconnect, timeout, HTTP error statuses, device error codes of every class, malformed or truncated bodies), for retry counts 0..3, both protocols",
     "Tests parametrise one exception repeated on every attempt; mixed sequences, malformed bodies at inner stages and recovery after failure are not enumerated.",
     ["kasa/protocols/iotprotocol.py", "kasa/protocols/smartprotocol.py", "kasa/httpclient.py", "kasa/exceptions.py", "kasa/transports"],
     [("retry loop", "kasa/protocols/smartprotocol.py:SmartProtocol._query"), ("retry loop", "kasa/protocols/iotprotocol.py:IotProtocol._query"),
      ("error classification", "kasa/exceptions.py:SMART_RETRYABLE_ERRORS"), ("HTTP error mapping", "kasa/httpclient.py:HttpClient.post")],
     observe=["attempts counted at the device", "type of exception raised", "next query"])

prop("C04", "KLAP sessions: mutual authentication, fresh sequence numbers, re-keying",
     "No encrypted request is sent to a device until a handshake in which the device proved knowledge of the user's credentials (or of the documented default or blank credentials) and the client answered with its own proof; a device that cannot prove it gets an authentication error and no further traffic in that session. Within a session the request sequence number increases by one per request sent and is never reused, requests carry the session cookie and a valid signature, and replies decrypt to what the device sent. After session expiry, a forbidden reply, any communication failure or an exhausted sequence, the next request runs a new handshake with a fresh seed and the query succeeds.",
     ["histories", "fault_sequences", "configurations"],
     "all histories of up to N steps over {query, device drops session, time passes before/after expiry, forbidden, server error, disconnect, corrupt reply, device credentials changed} x {protocol v1, v2} x {own, default, blank, wrong credentials} x extreme initial sequence numbers",
     "Tests check one handshake against a mirror of the implementation and one expiry; sequence extremes, histories of faults and a peer that is implemented independently are not covered.",
     ["kasa/transports/klaptransport.py", "kasa/httpclient.py"],
     [("handshake", "kasa/transports/klaptransport.py:KlapTransport.perform_handshake"), ("session crypto", "kasa/transports/klaptransport.py:KlapEncryptionSession")],
     [("seq", "signed 32-bit request counter derived from the handshake", "kasa/transports/klaptransport.py:KlapEncryptionSession")],
     ["requests seen by an independent KLAP server"])

prop("C05", "AES passthrough: handshake, login and fallback follow the session state",
     "A request on the AES-passthrough transport reaches the device only inside a session established by a key exchange followed by a successful login, encrypted under that session's key and carrying that login's token. Credentials sent are the user's; the vendor's default credentials are tried only after the device rejected the user's login, and on a fresh key exchange. After expiry, an error from the device, a communication failure or a reset, the client goes back to the key exchange and the next query to a healthy device succeeds.",
     ["histories", "fault_sequences"],
     "all histories of up to N steps over {query, device forgets session, time passes, error code of each class at handshake/login/request, disconnect, plaintext reply, corrupt reply} x {login v1, v2} x {right, wrong, default credentials}",
     "Tests inject one error at one stage per run with the mocked device sharing the implementation's helpers.",
     ["kasa/transports/aestransport.py", "kasa/httpclient.py"],
     [("state machine", "kasa/transports/aestransport.py:AesTransport.send"), ("login with fallback", "kasa/transports/aestransport.py:AesTransport.perform_login")],
     observe=["requests seen by an independent AES server"])

prop("C06", "Camera TLS transport: secure requests, tags and sequence follow the session",
     "Once the camera has agreed to the secure handshake, every request is sent encrypted with that session's keys, carries a correct tag and a sequence number that starts at the one the camera issued and increases by exactly one per request sent; plain requests are sent only in a session opened with the documented less-secure login. The camera must prove knowledge of the password before the client sends its own digest. After an expired session, an error status, a failed handshake or a reset, the next request performs a new handshake and, with a healthy camera, succeeds; rejected credentials or a blocked device raise the matching error without retry.",
     ["histories", "fault_sequences", "configurations"],
     "all histories of up to N steps over {query, session expired, HTTP 500/401, error code, disconnect, firmware switches between secure and less-secure login, blocked device, wrong nonce} x {sha256, md5 password hash} x {right, wrong, default credentials}",
     "Tests cover each branch once with a mock derived from the code; switching login kind, sequence behaviour across failures and repeated sessions are not explored.",
     ["kasa/transports/sslaestransport.py"],
     [("handshakes", "kasa/transports/sslaestransport.py:SslAesTransport.perform_handshake"), ("tagged passthrough", "kasa/transports/sslaestransport.py:SslAesTransport.send_secure_passthrough")],
     observe=["requests seen by an independent camera server"])

prop("C07", "TLS-token and Linkie transports: authenticated, well-formed, self-healing",
     "The TLS-token transport logs in before its first request, sends every request with the token of its latest login, renews the token after expiry, reset or a session error, and tries the vendor's default credentials only after the user's login was rejected. The Linkie transport sends each request once, correctly encoded and authenticated, and returns exactly the decoded reply. On both, every device answer, including unknown error codes and malformed bodies, ends in a result or a library exception, and a later query to a healthy device succeeds.",
     ["histories", "fault_sequences"],
     "all histories of up to N steps over the fault alphabet (error code of every class incl. unknown, HTTP status, malformed body, disconnect, timeout, expiry) x credentials",
     "Tests cover one path per branch; unknown codes, malformed bodies and recovery are not enumerated.",
     ["kasa/transports/ssltransport.py", "kasa/transports/linkietransport.py"],
     [("token login", "kasa/transports/ssltransport.py:SslTransport.perform_login"), ("linkie framing", "kasa/transports/linkietransport.py:LinkieTransportV2.send")],
     observe=["requests seen by independent servers"])

prop("C08", "Batched SMART queries equal the individual queries",
     "For any set of requested methods, batch size and per-method outcome, a multi-method query returns exactly one entry per requested method, equal to what the device answers to that method alone, with the method's error code as its entry when the device reported an error. No request is dropped, duplicated into another method's entry or sent as an empty batch, no batch exceeds the configured size, methods that must be sent alone are never batched, and paged lists are returned complete and in order. A device that cannot answer a batch is asked one method at a time and the query still succeeds.",
     ["inputs", "configurations", "fault_sequences"],
     "all subsets (with order) of a method alphabet covering plain, parametrised, failing, unsupported, list-paged, must-be-single and set methods, up to the bound x batch sizes 1..6 x device behaviours (stops at first error, drops methods, rejects batches, list lengths/page sizes)",
     "Tests use a handful of fixed method sets; the interaction of batch boundaries with errors, paging and must-be-single methods is not sampled.",
     ["kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py"],
     [("batching", "kasa/protocols/smartprotocol.py:SmartProtocol._execute_multiple_query"), ("paging", "kasa/protocols/smartprotocol.py:SmartProtocol._handle_response_lists")],
     observe=["requests at the device", "query result"])

prop("C09", "Child devices: each request reaches only its child, and the answer is its own",
     "A query made through a child of a hub or camera hub is executed by exactly that child and by no other, and its result has one entry for every requested method, which is what that child answers to that method, also when the hub cuts a batch short or leaves out method names. An error reported for the child or for one of several methods surfaces as that error for exactly that child and method, and never as another child's or method's data. A connection fault on the way is retried like one of the parent, and an answer that does not have the expected form ends in a library exception.",
     ["inputs", "histories", "fault_sequences"],
     "all sequences of up to N single/multi queries over 2-3 children and the parent x per-method outcomes x batch answers cut short by the device",
     "Tests check one child request shape; cut-short batches and error attribution across children are not explored.",
     ["kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py", "kasa/iot/iotstrip.py"],
     [("child wrapper", "kasa/protocols/smartprotocol.py:_ChildProtocolWrapper"), ("camera child wrapper", "kasa/protocols/smartcamprotocol.py:_ChildCameraProtocolWrapper"), ("child context", "kasa/iot/iotstrip.py:IotStripPlug")],
     observe=["requests executed per child in the simulated hub"])

prop("C10", "Device update isolates module failures and recovers",
     "For SMART and camera devices with their children: after any history of updates in which the device answers, errors, times out or does not answer for some modules, every module presents exactly the answer to its latest query if that succeeded and raises a library error if it failed, never stale data after a failed poll and never another module's data. A failing optional module or batch never makes the update raise or changes the data of other modules; an update raises (a library exception) only when the device information itself is not answered, or during a first update. A module whose k-th consecutive query failed is asked again once 30*k s have passed and not before, is disabled after ten, and returns to its normal schedule as soon as it answers before that; modules with a longer poll interval are queried once per interval and no more often. A failed first update can be repeated, and healthy updates then give the same modules and features as on a device that never failed.",
     ["histories", "fault_sequences"],
     "all histories of up to N updates x fault per module/batch from the alphabet x elapsed time from a set spanning the poll intervals",
     "Tests exercise one error type from a healthy state, once; multi-step error, backoff and recovery histories and a failing first update are not covered.",
     ["kasa/smart/smartdevice.py", "kasa/smart/smartmodule.py", "kasa/smartcam/smartcamdevice.py"],
     [("modular update", "kasa/smart/smartdevice.py:SmartDevice._modular_update"), ("error budget", "kasa/smart/smartmodule.py:SmartModule._post_update_hook")],
     observe=["module data and update timestamps", "methods queried at the device"])

prop("C11", "The set of child devices follows the device",
     "After every update, the children of a hub (or camera hub) are exactly the child devices that its last successfully answered child listing names, with their components, and whose kind the library supports, each under its own identity and with its own data. A child that is added or paired appears, one that is removed or unpaired disappears, one that is paired again is usable again, and the objects of unchanged children stay the same objects. A listing that fails keeps the children there were and is asked for again after its retry interval. A failure to query or initialise one child leaves the other children and the parent up to date and is recovered from on a later update.",
     ["histories", "fault_sequences"],
     "all histories of up to N steps over {pair, unpair, re-pair, reorder, child offline/online, child query error, update} on up to 3 children",
     "Tests add or remove one child once.",
     ["kasa/smart/smartdevice.py", "kasa/smart/smartchilddevice.py", "kasa/smartcam/smartcamdevice.py", "kasa/smartcam/smartcamchild.py"],
     [("child creation/deletion", "kasa/smart/smartdevice.py:SmartDevice._create_delete_children")],
     observe=["device.children after update"])

prop("C12", "Legacy devices: split updates merge completely; strip sockets stay separate",
     "Whatever way an update of a legacy device is split over several requests because of the device's response-size limit, the merged state equals what one unlimited query would have returned. On a power strip every command and every query made through a socket applies to that socket only, and each socket's schedule, usage, energy and relay data is its own; strip-level values are derived from all sockets. (Turning a whole strip on or off relies on the state of its last update.) An update after any command or change reports the device's current state, also when an earlier update failed, and no request asks for more than the device can answer unless a single module does.",
     ["histories", "configurations", "inputs"],
     "all device variants (plug, dimmer, bulb, light strip, strip with 2-3 sockets; each optional module supported or not; every distinct size limit) x all command histories and failed exchanges up to the bound",
     "Tests compare single fixtures; response-size splitting and cross-socket leakage are not explored.",
     ["kasa/iot/iotdevice.py", "kasa/iot/iotstrip.py", "kasa/iot/iotplug.py", "kasa/iot/iotbulb.py", "kasa/iot/modules"],
     [("split and merge", "kasa/iot/iotdevice.py:IotDevice._modular_update"), ("socket context", "kasa/iot/iotstrip.py:IotStripPlug._create_request")],
     observe=["device state vs. simulated device state"])

prop("C13", "Discovery reports each answering device once, whatever datagrams arrive",
     "For every sequence of datagrams on the network, discovery reports exactly the devices that sent a valid discovery reply, once per address (the first readable reply counts), with the device kind, host, port and connection parameters that reply stated; malformed, truncated, foreign or duplicate datagrams never hide, replace or corrupt another device's result and never abort discovery. Devices that answered but are unsupported or unusable are reported to the matching callback, and every started callback has finished (or its failure has surfaced) before discovery returns. Discovery of a single host ends with that host's device, or with an error saying why not, by the timeout.",
     ["schedules", "inputs", "fault_sequences"],
     "all sequences of up to N datagrams from an alphabet (legacy reply, new-protocol reply, encrypted reply, unsupported, error, garbage, truncated header, foreign source port, duplicates; 2-3 hosts) at all relative times, with slow and failing callbacks",
     "Tests feed one datagram per discovery and never mix garbage, duplicates and slow callbacks.",
     ["kasa/discover.py", "kasa/device_factory.py"],
     [("datagram handling", "kasa/discover.py:_DiscoverProtocol.datagram_received"), ("reply parsing", "kasa/discover.py:Discover._get_device_instance"), ("waiting", "kasa/discover.py:Discover.discover")],
     observe=["result mapping", "callback invocations"])

prop("C14", "Connecting never leaks connections and only yields usable devices",
     "Connecting to a device, trying all connection kinds, or discovering a single host either returns a device that answered a query with the returned configuration, or raises/returns nothing with every connection and HTTP session that was opened on the way closed. This holds when any step fails, times out or is cancelled. A device of a supported kind that answers with the given credentials is found by trying all kinds. Closing a device closes its connections, can be repeated, and never closes an HTTP session supplied by the caller.",
     ["fault_sequences", "schedules", "configurations"],
     "every fault or cancellation at every network step of connect/try-all/discover-single x every supported connection kind",
     "Tests check that disconnect was called on one mocked failure.",
     ["kasa/device_factory.py", "kasa/discover.py", "kasa/httpclient.py", "kasa/device.py"],
     [("close on failure", "kasa/device_factory.py:connect"), ("candidate loop", "kasa/discover.py:Discover.try_connect_all")],
     observe=["open sessions and sockets after the call"])

prop("C15", "Saved configurations and credential hashes reconnect to the same device",
     "Serialising any device configuration and parsing it back yields an equal configuration (apart from the HTTP client, which is never serialised), credentials are included or left out exactly as requested, and malformed input is rejected with an error. A configuration holding only the credential hash a device exposes authenticates to that device exactly as the original credentials did, on every transport that issues a hash. The connection kind chosen for a configuration depends only on its family, encryption and TLS flag, every supported kind maps to its documented protocol and transport, and the host and port named by the configuration are the ones connected to.",
     ["inputs", "configurations"],
     "all combinations of the configuration's field values (families x encryptions x login versions x flags x optional fields) and, per transport, credential alphabets incl. empty and non-ASCII",
     "Tests round-trip a few configurations and do not reconnect with the hash to an independent peer.",
     ["kasa/deviceconfig.py", "kasa/device_factory.py", "kasa/credentials.py", "kasa/transports"],
     [("serialisation", "kasa/deviceconfig.py:DeviceConfig.to_dict"), ("kind mapping", "kasa/device_factory.py:get_protocol")],
     observe=["round trip", "login accepted by independent servers"])

prop("C16", "Secrets and identifiers never reach debug logs",
     "With redaction enabled (the default), no log record emitted while discovering, connecting to, updating or commanding a device contains the password, an authentication token, or any personal identifier the device reports (MAC, device and hardware ids, owner, SSID, alias, location) with its identifying part, in any nesting of the reply, batch or child wrapper. Redaction masks only copies: data delivered to callers is unchanged. Fields that identify nobody stay readable.",
     ["inputs", "configurations"],
     "every device family's reply structures with unique canary values in every sensitive field x every protocol, batch, child-wrapper and discovery path",
     "Tests check a few fields of a few fixtures for discovery and one query.",
     ["kasa/protocols/protocol.py", "kasa/protocols/iotprotocol.py", "kasa/protocols/smartprotocol.py", "kasa/protocols/smartcamprotocol.py", "kasa/discover.py"],
     [("redactors", "kasa/protocols/protocol.py:redact_data"), ("redactor tables", "kasa/protocols/smartprotocol.py:REDACTORS")],
     observe=["log records", "returned data"])

prop("C17", "Settable features accept exactly their domain and read back what was set",
     "For every settable feature of every supported device, a value outside the advertised range or choices is rejected with a value error before anything is sent, and every value inside it is accepted. After setting and updating, the feature reads back the value that was set (a brightness or fan speed of zero turns the device off), and no unrelated setting of the device has changed. Read-only features reject being set and show the value the device reports, actions trigger the one command they name, and reading any feature of an updated device never fails.",
     ["inputs", "configurations"],
     "every feature of every device fixture x its whole choice domain, range ends, just outside, and interior values",
     "Tests set dummy features or assert the call that was made; they do not close the loop through a device model for every feature and value.",
     ["kasa/feature.py", "kasa/smart/modules", "kasa/iot/modules", "kasa/smartcam/modules"],
     [("validation", "kasa/feature.py:Feature.set_value")],
     observe=["requests sent", "device model state", "feature value"])

prop("C18", "Light commands reach the light exactly and leave it consistent",
     "Any sequence of light commands (on, off, brightness, colour, colour temperature, combined state, transitions) leaves the simulated light in the state a user would expect from the last values given, and the library's light state read after an update equals the device's. Values out of range given to the brightness, colour and colour-temperature setters raise a value (or type) error without sending anything. Commands not concerned with a property never change it, and unsupported operations raise an error instead of being sent. Brightness 0 means off; parameters the device does not know are not sent; smooth-transition settings are stored and read back.",
     ["histories", "inputs", "configurations"],
     "all command sequences up to the bound over a value alphabet incl. limits on each light kind (legacy bulb/dimmer/strip, SMART bulb/dimmer/strip)",
     "Tests issue one command and assert on the call payload.",
     ["kasa/smart/modules/light.py", "kasa/smart/modules/brightness.py", "kasa/smart/modules/color.py", "kasa/smart/modules/colortemperature.py", "kasa/smart/modules/lighttransition.py", "kasa/iot/iotbulb.py", "kasa/iot/iotdimmer.py", "kasa/iot/iotlightstrip.py", "kasa/iot/modules/light.py"],
     [("light state", "kasa/smart/modules/light.py:Light.set_state"), ("legacy light", "kasa/iot/iotbulb.py:IotBulb._set_light_state")],
     observe=["simulated light state", "light state read back"])

prop("C19", "Light presets and effects: the named one is applied, saved and reported",
     "Choosing a preset or effect by any advertised name applies exactly that preset or effect on the device, and after an update it is the one reported as active; choosing off disables the effect. Saving a preset changes exactly the preset slot that was named and no other. Unknown names are rejected without sending anything, and custom effects or presets reported by the device never break listing the others.",
     ["histories", "configurations", "inputs"],
     "all preset tables up to the bound (colour, white, effect-type slots in any order) x all activate/save/set-effect sequences up to the bound",
     "Tests use fixture preset tables whose filtered and device positions coincide.",
     ["kasa/smart/modules/lightpreset.py", "kasa/smart/modules/lighteffect.py", "kasa/smart/modules/lightstripeffect.py", "kasa/iot/modules/lightpreset.py", "kasa/iot/modules/lighteffect.py"],
     [("preset mapping", "kasa/iot/modules/lightpreset.py:LightPreset"), ("preset mapping", "kasa/smart/modules/lightpreset.py:LightPreset"), ("effects", "kasa/smart/modules/lighteffect.py:LightEffect")],
     observe=["device preset/effect tables"])

prop("C20", "Device time: what is set is what the device shows, in its time zone",
     "Setting the time of a device and updating yields the same instant, and a set time zone is the one reported. Reading the time gives the instant the device reports, localised with the device's own zone or offset, for every supported zone and on both sides of daylight-saving changes. Setting the time without a zone keeps the device's zone. Times derived from it (on since, automatic switch-off at) name the right instant on both sides of daylight-saving changes. A legacy device that has no zone with the same offsets refuses the time instead of taking another zone; legacy devices report local time only, so either pass of a repeated hour is acceptable, and cameras take named zones only.",
     ["inputs", "configurations"],
     "every time-zone index/name known to the library x a grid of instants incl. both sides of every daylight-saving change of several years",
     "Tests set one zone and one time.",
     ["kasa/smart/modules/time.py", "kasa/iot/modules/time.py", "kasa/iot/iottimezone.py", "kasa/smartcam/modules/time.py", "kasa/cachedzoneinfo.py"],
     [("zone tables", "kasa/iot/iottimezone.py"), ("set_time", "kasa/smart/modules/time.py:Time.set_time")],
     observe=["device clock model", "time read back"])

prop("C21", "Energy and usage figures are unit-correct for every firmware format",
     "Power, current, voltage and energy figures equal the physical values the device measured, in the documented units, whichever of the legacy, newer or per-child formats the firmware reports, including zero and missing values. Daily and monthly statistics map each reported day or month to its own value, today's and this month's values are the entries of the current day and month (the host's date), and strip totals are the sums of the sockets.",
     ["inputs", "configurations"],
     "all report formats (field names/units present or absent) x value alphabets x dates in the window, all devices with energy monitoring",
     "Tests check fixtures in one format and a fixed date.",
     ["kasa/emeterstatus.py", "kasa/iot/modules/emeter.py", "kasa/iot/modules/usage.py", "kasa/iot/iotstrip.py", "kasa/smart/modules/energy.py", "kasa/interfaces/energy.py"],
     [("unit conversion", "kasa/emeterstatus.py:EmeterStatus"), ("statistics", "kasa/iot/modules/usage.py:Usage"), ("strip sums", "kasa/iot/iotstrip.py:StripEmeter")],
     observe=["values read"])

prop("C22", "Devices sharing one HTTP session do not disturb each other",
     "When several devices share one caller-supplied HTTP session, any interleaving of their handshakes, queries, failures and closes gives each device the same results as with a session of its own. No cookie, token or key of one device is ever sent to, or lost because of, another. Closing one device leaves the shared session open for the others.",
     ["schedules"],
     "all interleavings (up to the deviation bound) of connect/query/close of 2 devices over one session, for each HTTP transport and pair of kinds",
     "Tests use one device per session with an instantly answering mock.",
     ["kasa/httpclient.py", "kasa/transports/klaptransport.py", "kasa/transports/aestransport.py", "kasa/transports/sslaestransport.py"],
     [("cookie handling", "kasa/httpclient.py:HttpClient.post"), ("session ownership", "kasa/httpclient.py:HttpClient.close")],
     observe=["cookies/tokens received per simulated host", "results"])

prop("C23", "Firmware update: always terminates and reports the device's progress",
     "Starting a firmware update when none is available raises an error and sends no update command. Otherwise the update command is sent once (again only when its answer was lost), the progress callback gets every state the device reports, in order and before the call ends; the call ends with the device's success or failure state as its result, or with a timeout error when neither came within five minutes, whatever sequence of states, losses and errors occurs on the way. While the device is flashing it is left alone for the time it announced. Reported availability and versions match what the device said at the last check, and are unknown when that check failed.",
     ["histories", "fault_sequences"],
     "all sequences up to the bound of device download states, timeouts and errors during the update",
     "Tests replay one successful state sequence.",
     ["kasa/smart/modules/firmware.py"],
     [("update loop", "kasa/smart/modules/firmware.py:Firmware.update")],
     observe=["callback invocations", "commands at the device"])

prop("C24", "The command line does what it was told and fails loudly",
     "Every command-line command that succeeds has had exactly the effect on the device that the equivalent API call has, changes nothing else, and exits with status zero; a command that fails (device error, invalid value, unsupported device or command, no such device) has a non-zero status. With JSON output requested, a succeeding command prints exactly one JSON document on standard output, and a failing one prints nothing there that is not JSON. Options and environment variables select the device, child and connection they name; a device that does not answer does not keep discovery from showing the others. (A declined confirmation is not a failure; joining a wireless network succeeds although the device stops answering.)",
     ["inputs", "configurations", "fault_sequences"],
     "all commands x argument alphabets x device kinds x {text, json} x {healthy, failing at each request}",
     "Tests invoke commands on mocked devices and assert on single calls.",
     ["kasa/cli"],
     [("error handling", "kasa/cli/common.py"), ("dispatch", "kasa/cli/main.py")],
     observe=["exit status", "stdout", "device model state"])

prop("C25", "A device object shows its own device, whatever else the process does",
     "No operation on one device object changes what another device object shows, accepts or sends, nor does creating, updating or using devices earlier in the process change what a later one does. A long-lived device object shows, after an update (once the polling intervals of its modules have passed), the same features with the same values as a newly created object for the same device would, whatever was changed on the device in between and by whom. (The advertised range and choices of a feature may stay as first read.)",
     ["histories", "schedules"],
     "all interleavings of {update, use of every feature and module command, update} of two device objects, for every recorded device with partners of the same and of another model, each in a fresh process",
     "Tests create one device per test, in one process, and never compare two objects.",
     ["kasa/smart", "kasa/iot", "kasa/smartcam"],
     [("module registries and class attributes", "kasa/smart/smartmodule.py"), ("consumables", "kasa/smart/modules/consumables.py")],
     observe=["feature sets, values and metadata of each object", "state of each simulated device"])

prop("C26", "A command the device refuses or never answers is reported, and the next update shows the truth",
     "Whatever a command of a device, module or feature asks of the device: if the device refuses it, or it or its answer is lost and every retry as well, the caller gets an error of the library (never a success and never a foreign exception); a lost exchange that a retry repairs is not reported. Whether the command had been carried out or not, an update straight afterwards succeeds and the object then shows what the device really is, exactly as a newly created object does. (Checking for new firmware reports a refusal as nothing known; scanning and joining wireless networks may end without an error.)",
     ["histories", "fault_sequences"],
     "all commands x requests they make x {refused, lost, answer lost}, for every recorded device",
     "Tests let single commands fail on mocked protocols, and do not compare the object with the device afterwards.",
     ["kasa/smart", "kasa/iot", "kasa/smartcam", "kasa/protocols"],
     [("answer of a command", "kasa/smart/smartmodule.py:SmartModule.call"), ("refresh after a command", "kasa/smart/smartmodule.py:allow_update_after"), ("legacy answers", "kasa/iot/iotdevice.py:IotDevice._query_helper")],
     observe=["raised exceptions", "values and features of the object and of a new one", "state of the simulated device"])

prop("C27", "Commands of devices and modules do exactly what they say",
     "Every public command beyond lights, presets, effects, clocks, energy readings, pairing and firmware (rules and statistics, names and addresses, restart, reset, networks, turn-on behaviours, button actions and fade times, ambient light and motion sensors, alarms, vacuum cleaning and dustbin, consumables, power protection, heating, child and frost protection, camera detection, lens mask and movement) has, for every valid argument and prior state, exactly the named effect on the device or child it is called on and no other; it returns what the device holds where it reads, refuses an argument outside the advertised range without any effect, sends nothing the device does not know, and after an update the object shows the outcome as a new object does.",
     ["inputs", "histories"],
     "all commands x argument alphabets x prior states, for every recorded device",
     "Tests assert on single calls with mocked queries, whatever the device would make of them.",
     ["kasa/smart/modules", "kasa/iot/modules", "kasa/smartcam/modules", "kasa/iot/iotbulb.py", "kasa/iot/iotdimmer.py", "kasa/iot/iotdevice.py", "kasa/smart/smartdevice.py"],
     [("rules", "kasa/iot/modules/rulemodule.py"), ("turn-on behaviour", "kasa/iot/iotbulb.py:TurnOnBehavior"), ("dimmer buttons", "kasa/iot/iotdimmer.py:IotDimmer.set_button_action"), ("vacuum", "kasa/smart/modules/clean.py"), ("alarm", "kasa/smart/modules/alarm.py"), ("power protection", "kasa/smart/modules/powerprotection.py")],
     observe=["state of the simulated device and its children", "one-shot requests at the device", "returned values"])

prop("C28", "A device object describes the device it talks to",
     "After every update, what a device or child object says about itself is what the device reports at that moment: its name (decoded, any characters), addresses in one notation, identifiers, model, region, hardware and firmware versions, kind, location, network name, signal strength, on state, whether it has a meter, and the hardware and device information built from them, whether it was discovered or connected directly and whatever it reported before; children are found by their id, position and name (in any case); the stream addresses of a camera lead to it and carry the given or configured login exactly, whatever characters it has. Values of modules that are not shown as features (schedules of the status light, cloud account, sensor ranges and presets, thermostat limits and states, cleaning and trigger logs, pairing codes, supported sounds and categories, firmware options) are what the device reports as well.",
     ["inputs", "histories"],
     "all fields a device reports about itself x value alphabets x change and change back, for every recorded device and child, discovered or not",
     "Tests read a handful of properties of recorded devices as recorded and never change what the device reports.",
     ["kasa/device.py", "kasa/smart", "kasa/iot", "kasa/smartcam"],
     [("identity of SMART devices", "kasa/smart/smartdevice.py"), ("identity of legacy devices", "kasa/iot/iotdevice.py"), ("children", "kasa/smart/smartchilddevice.py"), ("cameras", "kasa/smartcam/smartcamdevice.py")],
     observe=["properties of device objects and modules", "what the simulated device reports"])

prop("C29", "Calls on one device object that overlap or are abandoned leave it consistent",
     "Whatever two calls on one device object or its children overlap (an update and a command, two updates, two first updates, two commands), wherever in the course of the other one of them starts: on a healthy device both succeed if they do one after the other, and the device ends as after one of the two orders. A call that is cancelled at any point ends as cancelled. After either, an update succeeds, the object then shows what the device really is, exactly as a newly created object does, and later commands on it work and are shown as on any other object.",
     ["schedules", "crash_points"],
     "all pairs of calls x start positions of the second, and all calls x cancellation points, for every recorded device and child",
     "Tests await one call after the other; nothing overlaps or is cancelled.",
     ["kasa/smart", "kasa/iot", "kasa/smartcam", "kasa/protocols"],
     [("one update at a time", "kasa/smart/smartdevice.py:SmartDevice.update"), ("refresh after a command", "kasa/smart/smartmodule.py:allow_update_after"), ("legacy update", "kasa/iot/iotdevice.py:IotDevice.update")],
     observe=["results and errors of the calls", "state of the simulated device", "values and features of the object and of a new one"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
