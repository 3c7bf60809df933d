"""C15: configurations round-trip, credential hashes reconnect, kinds map to their documented stacks."""

from __future__ import annotations

import asyncio
import json

from mc import core, net, sess
from mc.core import Violation

prepare = sess.prepare
BOUNDS = {
    "quick": "full product of the configuration's field alphabets (14 families x 3 encryptions x 4 login versions x 2 https x ports x credentials x hash x batch x keys) for serialisation and kind mapping; 8 transports x credential alphabet x device credential alphabet for reconnecting by hash against independent peers, with one network fault",
    "thorough": "larger field alphabets, two faults",
}
FAMILIES = ["IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB", "IOT.IPCAMERA", "SMART.KASAPLUG", "SMART.KASASWITCH", "SMART.TAPOPLUG",
            "SMART.TAPOBULB", "SMART.TAPOSWITCH", "SMART.TAPOHUB", "SMART.KASAHUB", "SMART.IPCAMERA", "SMART.TAPOROBOVAC",
            "SMART.TAPOCHIME", "SMART.TAPODOORBELL"]
ENC = ["KLAP", "AES", "XOR"]
CREDS = {
    "own": sess.OWN, "ascii": ("a@b.c", "pw"), "empty-pw": ("a@b.c", ""), "empty-user": ("", "pw"), "blank": ("", ""),
    "quote": ('u"s\\er', 'p"a{s}s\n'), "utf": ("ü@é.ż", "密码🔑"), "long": ("x" * 70 + "@y.z", "p" * 200), "tapo": sess.DEFAULTS["tapo"],
    "kasa": sess.DEFAULTS["kasa"], "cam": sess.DEFAULTS["cam"], "other": sess.OTHER,
}
HASH_KINDS = ["klap1-iot", "klap2-smart", "klap2-https", "aes1", "aes2", "cam", "cam-md5", "cam-plain", "token"]


def documented(family, enc, https, strict):
    """Expected (protocol, transport) class names; None when unsupported."""
    if family in ("SMART.IPCAMERA", "SMART.TAPODOORBELL"):
        return None if strict and enc != "AES" else ("SmartCamProtocol", "SslAesTransport")
    if family == "IOT.IPCAMERA":
        return None if strict and enc != "XOR" else ("IotProtocol", "LinkieTransportV2")
    if family == "SMART.TAPOROBOVAC" and enc == "AES":
        return "SmartProtocol", "SslTransport"
    if family.startswith("IOT."):
        if https:
            return None
        return {"XOR": ("IotProtocol", "XorTransport"), "KLAP": ("IotProtocol", "KlapTransport")}.get(enc)
    if enc == "KLAP":
        return "SmartProtocol", "KlapTransportV2"
    if enc == "AES":
        return ("SmartCamProtocol", "SslAesTransport") if https else ("SmartProtocol", "AesTransport")
    return None


def documented_class(family, https):
    if family == "IOT.SMARTPLUGSWITCH" or family == "IOT.SMARTBULB":
        return None if https else {"IOT.SMARTPLUGSWITCH": "IotPlug", "IOT.SMARTBULB": "IotBulb"}[family]
    if family == "IOT.IPCAMERA":
        return None
    if https and family in ("SMART.TAPOHUB", "SMART.IPCAMERA", "SMART.TAPODOORBELL"):
        return "SmartCamDevice"
    return "SmartDevice"


DEFAULT_PORT = {"XorTransport": 9999, "KlapTransport": 80, "KlapTransportV2": 80, "AesTransport": 80, "SslAesTransport": 443,
                "SslTransport": 4433, "LinkieTransportV2": 10443}


def scenarios(tier):
    th = tier == "thorough"
    out = []
    for f in FAMILIES:
        for e in ENC:
            out.append(dict(part="rt", family=f, enc=e, big=th))
    out.append(dict(part="bad"))
    for kind in HASH_KINDS:
        for c in CREDS:
            out.append(dict(part="hash", kind=kind, cli=c, budget=0, faults=[]))
            if c in ("own", "utf", "tapo", "other"):
                out.append(dict(part="hash", kind=kind, cli=c, budget=2 if th else 1,
                                faults=["disc", "losthang", "s500", "s403"] if th else ["disc", "s500"]))
    for kind in ["xor", "klap1-iot", "klap2-smart", "klap2-https", "aes1", "aes2", "cam", "token", "linkie"]:
        out.append(dict(part="port", kind=kind))
    return out


def run(ctx, p):
    return globals()["run_" + p["part"]](ctx, p)


_LOOP = None


def run_rt(ctx, p):
    """Constructing transports needs a running loop (cookie jar), nothing is awaited."""
    global _LOOP
    _LOOP = _LOOP or asyncio.new_event_loop()
    asyncio.events._set_running_loop(_LOOP)
    try:
        return _run_rt(ctx, p)
    finally:
        asyncio.events._set_running_loop(None)


def _run_rt(ctx, p):
    from kasa import Credentials, DeviceConfig
    from kasa.device_factory import get_device_class_from_family, get_protocol
    from kasa.deviceconfig import DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily

    big = p["big"]
    https = ctx.pick([False, True], "https")
    login = ctx.pick([None, 1, 2, 3], "login")
    http_port = ctx.pick([None, 80, 4433] if big else [None, 8443], "http_port")
    host = ctx.pick(["127.0.0.1", "dev.local", "::1"] if big else ["127.0.0.1"], "host")
    timeout = ctx.pick([5, 1, 30] if big else [5, 1], "timeout")
    port = ctx.pick([None, 9999, 12345] if big else [None, 12345], "port")
    creds = ctx.pick([None, ("", ""), sess.OWN], "creds")
    chash = ctx.pick([None, "aGFzaA=="], "hash")
    batch = ctx.pick([None, 1, 7] if big else [None, 1], "batch")
    keys = ctx.pick([None, {"private": "a", "public": "b"}], "keys")
    marker = object() if ctx.pick([False, True], "client") else None

    def make(**kw):
        ct = DeviceConnectionParameters(DeviceFamily(p["family"]), DeviceEncryptionType(p["enc"]), login_version=login, https=https, http_port=http_port)
        args = dict(host=host, timeout=timeout, port_override=port, credentials=Credentials(*creds) if creds is not None else None,
                    credentials_hash=chash, batch_size=batch, connection_type=ct, aes_keys=keys, http_client=marker)
        args.update(kw)
        return DeviceConfig(**args)

    cfg = make()
    ref = make()
    d = cfg.to_dict()
    text = json.dumps(d)
    back = DeviceConfig.from_dict(json.loads(text))
    if back != ref or cfg != ref:
        raise Violation(f"{ref} came back as {back}", "round trip")
    if back.http_client is not None or "http_client" in d:
        raise Violation("HTTP client serialised", "http client")
    if DeviceConfig.from_json(cfg.to_json()) != ref:
        raise Violation("json round trip differs", "json round trip")
    if creds is not None and creds[1] and (creds[1] not in d["credentials"].values()):
        raise Violation("to_dict left the credentials out", "credentials")
    fd = DeviceConnectionParameters.from_values(p["family"], p["enc"], login_version=login, https=https, http_port=http_port)
    if fd != ref.connection_type:
        raise Violation(f"from_values gave {fd}", "from_values")
    for h in (None, "", "bmV3"):
        for excl in (False, True):
            dd = cfg.to_dict_control_credentials(credentials_hash=h, exclude_credentials=excl)
            b2 = DeviceConfig.from_dict(json.loads(json.dumps(dd)))
            if h is None:
                want = make(credentials=None) if excl else make()
            else:
                want = make(credentials=None, credentials_hash=h or None)
            if b2 != want:
                raise Violation(f"to_dict_control_credentials({h!r}, {excl}) parsed to {b2}, expected {want}", "credential control")
            if creds is not None and creds[1] and (h is not None or excl) and creds[1] in json.dumps(dd, ensure_ascii=False):
                raise Violation("the password is in a configuration that must leave it out", "password leaked")
    if cfg != ref or cfg.http_client is not marker:
        raise Violation("serialising changed the configuration", "mutated")
    if cfg.uses_http != (p["enc"] != "XOR" or https):
        raise Violation("uses_http", "uses_http")
    # kind mapping; a real HTTP client is created lazily, so no client object is needed
    cls = get_device_class_from_family(p["family"], https=https)
    if (cls and cls.__name__) != documented_class(p["family"], https):
        raise Violation(f"{p['family']} https={https} maps to {cls}", "device class")
    if not (keys or marker or chash):
        for strict in (False, True):
            c2 = make(http_client=None)
            proto = get_protocol(c2, strict=strict)
            want = documented(p["family"], p["enc"], https, strict)
            got = (type(proto).__name__, type(proto._transport).__name__) if proto else None
            if got != want:
                raise Violation(f"{p['family']} {p['enc']} login={login} https={https} strict={strict} maps to {got}, documented {want}", "kind mapping")
            if want:
                dflt = DEFAULT_PORT[want[1]]
                if want[1] == "KlapTransportV2" and https:
                    dflt = 4433
                exp_port = port or (http_port if http_port and want[1] != "XorTransport" else dflt)
                if proto._transport._port != exp_port:
                    raise Violation(f"{got} uses port {proto._transport._port}, expected {exp_port}", "port")
                if proto._transport._host != host:
                    raise Violation("host", "host")
    return f"{https} {bool(cls)}"


def run_bad(ctx, p):
    """Malformed serialised configurations are rejected, never half-parsed."""
    from kasa import DeviceConfig, KasaException
    from kasa.deviceconfig import DeviceConnectionParameters

    good = {"host": "h", "timeout": 5, "credentials": {"username": "u", "password": "p"},
            "connection_type": {"device_family": "SMART.TAPOBULB", "encryption_type": "KLAP", "login_version": 2, "https": False, "http_port": 80}}
    DeviceConfig.from_dict(json.loads(json.dumps(good)))
    bads = [
        {}, [], "text", None, 5,
        {k: v for k, v in good.items() if k != "host"},
        {**good, "connection_type": {}}, {**good, "connection_type": "x"}, {**good, "connection_type": []},
        {**good, "connection_type": {**good["connection_type"], "device_family": "SMART.NOPE"}},
        {**good, "connection_type": {**good["connection_type"], "encryption_type": "klap"}},
        {**good, "connection_type": {"encryption_type": "KLAP"}}, {**good, "connection_type": {"device_family": "SMART.TAPOBULB"}},
        {**good, "connection_type": {**good["connection_type"], "device_family": None}},
        {**good, "timeout": "soon"}, {**good, "credentials": "user"}, {**good, "credentials": ["u", "p"]},
        {**good, "batch_size": "many"}, {**good, "port_override": "x"},
    ]
    b = ctx.pick(bads, "bad")
    try:
        r = DeviceConfig.from_dict(b)
    except (ValueError, LookupError, TypeError, KasaException):
        pass
    else:
        raise Violation(f"{b!r} was accepted as {r}", "malformed accepted")
    fam = ctx.pick(["SMART.NOPE", "", None, "smart.tapobulb", "SMART.TAPOBULB"], "family")
    enc = ctx.pick(["KLAP", "nope", None, ""], "enc")
    ok = fam == "SMART.TAPOBULB" and enc == "KLAP"
    try:
        DeviceConnectionParameters.from_values(fam, enc)
    except KasaException:
        if ok:
            raise Violation("valid parameters rejected", "rejected") from None
    except Exception as ex:
        raise Violation(f"from_values({fam!r}, {enc!r}) raised {ex!r}", "not a library exception") from ex
    else:
        if not ok:
            raise Violation(f"from_values({fam!r}, {enc!r}) accepted", "accepted")
    return "bad"


def run_hash(ctx, p):
    from kasa import DeviceConfig
    from kasa.device_factory import get_protocol

    kind = p["kind"]
    cli = CREDS[p["cli"]]
    dev_names = ["cli", "other", "blank", "tapo", "kasa"] + (["cam"] if kind.startswith("cam") else [])
    dev = ctx.pick(dev_names, "device credentials")
    dev_creds = cli if dev == "cli" else CREDS[dev]
    ctx.budget = p["budget"]
    out = {}

    async def main(loop):
        n = net.Net(loop, ctx)
        st = sess.Stack(n, kind, creds=cli, dev_creds=dev_creds)
        proto = get_protocol(st.config)
        want_cls = (type(st.proto), type(st.transport))
        if (type(proto), type(proto._transport)) != want_cls:
            raise Violation(f"{kind} maps to {type(proto)}, {type(proto._transport)}", "kind mapping")
        await st.proto.close()
        st.proto, st.transport = proto, proto._transport
        n.http_faults = p["faults"]
        oc = []
        first, _ = await sess.run_query(ctx, loop, st, 1, 1, oc)
        n.http_faults = []
        out["first"], _ = await sess.run_query(ctx, loop, st, 2, 1, oc)
        h = proto._transport.credentials_hash
        h2 = proto._transport.credentials_hash
        if h != h2:
            raise Violation("credentials_hash is not stable", "unstable")
        out["hash"] = h
        await proto.close()
        if h is None:
            return
        d = st.config.to_dict_control_credentials(credentials_hash=h)
        txt = json.dumps(d)
        if cli[1] and len(cli[1]) > 3 and cli[1] in json.dumps(d, ensure_ascii=False):
            raise Violation("password in the hash-only configuration", "password")
        cfg2 = DeviceConfig.from_dict(json.loads(txt))
        proto2 = get_protocol(cfg2)
        if (type(proto2), type(proto2._transport)) != want_cls:
            raise Violation("parsed configuration selects another stack", "kind mapping")
        st.proto, st.transport, st.config = proto2, proto2._transport, cfg2
        n.http_faults = p["faults"]
        await sess.run_query(ctx, loop, st, 3, 1, oc)
        n.http_faults = []
        out["second"], _ = await sess.run_query(ctx, loop, st, 4, 1, oc)
        out["hash2"] = proto2._transport.credentials_hash
        await proto2.close()

    core.run_loop(ctx, main)
    if out["hash"] is None:
        if cli[0] and cli[1]:
            raise Violation(f"no credentials hash for {cli[0]!r} on {kind}", "no hash")
        return f"nohash {out['first']}"
    if out["first"] != out["second"]:
        raise Violation(f"with the credentials: {out['first']}, with only their hash: {out['second']} (device: {dev}, {kind})", "hash not equivalent")
    if dev == "cli" and out["first"] != "ok":
        raise Violation(f"the device's own credentials ended in {out['first']}", "own credentials rejected")
    if out["hash2"] != out["hash"]:
        raise Violation(f"hash {out['hash']} became {out['hash2']}", "hash changed")
    return f"{out['first']}"


def run_port(ctx, p):
    """The port and host a configuration names are the ones connected to."""
    from kasa import DeviceConfig
    from kasa.device_factory import get_protocol

    kind = p["kind"]
    override = ctx.pick([None, 7001], "override")
    hp = ctx.pick([None, 7002], "http_port")

    async def main(loop):
        n = net.Net(loop, ctx)
        st = sess.Stack(n, kind)
        (key,) = list(n.http) or list(n.tcp)
        d = st.config.to_dict()
        if kind == "linkie":
            d["connection_type"]["device_family"] = "IOT.IPCAMERA"
        if override:
            d["port_override"] = override
        if hp:
            d["connection_type"]["http_port"] = hp
        port = override or (hp if hp and kind != "xor" else key[1])
        for tab in (n.http, n.tcp):
            if key in tab:
                srv = tab.pop(key)
                tab[(key[0], port)] = srv
        cfg = DeviceConfig.from_dict(d)
        await st.proto.close()
        proto = get_protocol(cfg)
        st.proto, st.transport = proto, proto._transport
        kind_, ex = await sess.run_query(ctx, loop, st, 1, 0, [])
        if kind_ != "ok":
            raise Violation(f"{kind} on port {port} (override {override}, http_port {hp}): {kind_} {ex}", "port not used")
        await proto.close()
        return kind_

    return core.run_loop(ctx, main)
