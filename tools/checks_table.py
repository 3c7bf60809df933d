DPOR = "stateless model checking of the real code: controlled scheduler + fault injector, exhaustive DFS under a deviation bound"
CHECKS = {
    "C01": (DPOR, "real TCP transport on a virtual event loop; every fault/split/cancel/timer choice within the bound; independent device model as oracle"),
    "C08": ("explicit enumeration of all method sequences x batch sizes x device behaviours on the real protocol against a per-method reference device", "real SMART and camera protocol over an in-memory transport; every sequence within the bound; the reference device defines the answer of each method alone"),
    "C02": (DPOR, "2-3 concurrent callers on each real protocol/transport stack; every completion order, timer expiry, fault and cancellation within the bound"),
    "C09": ("explicit enumeration of all method sequences x children x hub behaviours x fault positions on the real child protocol wrappers against a reference hub", "real parent and child protocols over an in-memory transport; the reference hub records what each child executed and defines its answers"),
    "C13": ("stateless model checking of the real discovery: explicit enumeration of all datagram sequences x hosts x arrival phases x callback behaviours on a virtual event loop, cancellation at every step", "independent classification of every datagram defines what must be reported, with which parameters; the queries sent are checked, too"),
    "C14": (DPOR, "connect, try-all and discover-single on every real transport kind against independent peers serving recorded devices; every fault position, persistent failure and cancellation step; all sessions, sockets and datagram endpoints of the process are tracked"),
    "C15": ("explicit enumeration of the whole product of configuration field alphabets on the real code, and of credential x peer-credential x fault combinations against independent peers", "round trip, kind mapping and reconnect-by-hash on the real configuration, factory and transport classes"),
    "C16": ("explicit enumeration of every recorded device with a unique canary in every sensitive field x every protocol, transport and credential case x one failing exchange at every position, of every method alone and wrapped for children, and of discovery replies of every kind, truncation and damage, on the real code with all log records captured", "real discovery, factory, device, protocol and transport classes; every record (with traceback) is scanned for canaries in plain, base64 and hashed form; returned data compared with logging off; harmless values must stay readable"),
    "C22": (DPOR, "two real devices over one real shared HTTP cookie jar; every interleaving of their histories within the bound"),
    "C04": (DPOR, "real KLAP v1/v2 transports over a simulated HTTP session against an independent KLAP device; all event/fault histories within the bound incl. clock jumps and sequence extremes"),
    "C10": ("explicit enumeration of all update histories x faults per method/batch/exchange x elapsed times on the real device classes over simulated recorded devices, with an independent poll-schedule and answer model in lock step", "real SMART and camera device, module and child classes on a virtual clock; every history within the bound; failure runs of every method up to and past the disabling limit"),
    "C11": ("explicit enumeration of all histories of hub changes, child faults and listing failures on the real device and child classes over a simulated hub, with an independent model of the child population", "pair/unpair/re-pair/reorder/state changes between updates, through the library and behind its back, x offline children, failing child queries and failing listings; paged listings up to 23 children"),
    "C12": ("explicit enumeration of all request splittings, missing services, command histories and lost exchanges on the real legacy device classes over simulated devices built from every recorded legacy device", "every effect is compared with an expected-effect model, every update with the simulated device"),
    "C03": (DPOR, "every fault sequence up to the bound at every exchange of every transport, with retry counts 0..3; attempts, exception kinds and recovery judged"),
    "C05": (DPOR, "real AES transport against an independent device; all event/error-code/fault histories within the bound"),
    "C06": (DPOR, "real camera transport against an independent camera; all event/error-code/fault histories within the bound incl. login-kind switches"),
    "C07": (DPOR, "real TLS-token and Linkie transports against independent servers; all event/error-code/fault histories within the bound"),
    "C17": ("explicit enumeration of every settable feature of every recorded device over its value classes, in sequence, on the real device and module classes over simulated devices, with an expected-effect model of each setting", "every choice, range ends and interiors, values just outside and of wrong types; device-side effect, read-back and all other settings compared after each; sensor alphabets"),
    "C19": ("explicit enumeration of all preset tables x operation sequences, and of all effect operations x stored scene names, on the real modules over simulated lights that hold the preset and effect tables", "the device's tables and light are compared after each operation, the library's listing and active name after each update"),
    "C18": ("explicit enumeration of all light command sequences x argument value classes on the real light, colour and state modules over simulated lights of every kind, with an expected-effect model", "every documented brightness/colour/temperature/state call incl. invalid arguments; the simulated device rejects what the real one rejects; its state and the read-back are compared after each call"),
    "C20": ("explicit enumeration of zones x dates around every offset change x set/get operations on the real time modules over simulated clocks, with an independent calendar oracle", "device clock, zone index, on-since and auto-off instants compared as absolute times"),
    "C21": ("explicit enumeration of report formats x values x dates on the real energy and usage modules over simulated meters", "each figure compared with the physical value the simulated meter holds"),
    "C23": (DPOR, "real firmware module, protocol and device over a simulated device on a virtual clock: every sequence of poll fates within the bound with every tail; states delivered, commands, spacing, end and result judged"),
    "C24": (DPOR, "real command line run in process on simulated devices: every command x argument alphabet x {text, JSON} x refused or dying device, and every way of naming device and connection in a network of several; exit status, standard output and the devices' state compared with the equivalent library call"),
    "C25": ("explicit enumeration of all interleavings of the histories of two device objects, for every recorded device and partner, each execution in a fresh process, on the real device and module classes over simulated devices", "what an object shows and what reaches its device is compared with the same history run alone; a long-lived object is compared with a new one"),
    "C26": ("explicit enumeration of every command of every recorded device x every request it makes x {refused, lost, answer lost, lost once} on the real device, module, feature and protocol classes over simulated devices", "the caller must get an error of the library; an update straight afterwards must succeed and show what a newly created object shows"),
    "C27": ("explicit enumeration of every command of every recorded device and child x its argument alphabet x the prior states it depends on, on the real device and module classes over simulated devices, with an expected-effect model of each command", "the whole device state, the one-shot requests and the result are compared with the model; the object with a newly created one; thorough: every ordered pair of commands"),
    "C28": ("explicit enumeration of every reported field x its value alphabet, changed and changed back, for every recorded device and child on the real device and module classes over simulated devices, with an independent description model", "all device-level properties and all non-feature module values are compared with the model after every update; thorough: every ordered pair of fields"),
    "C29": ("stateless model checking of the real device, module and protocol classes on a virtual event loop: explicit enumeration of all pairs of overlapping calls x start positions and of all calls x cancellation points, for every recorded device", "final device state must be one of the two serial outcomes (computed by running them), and after an update the object must equal a newly created one"),
}
NOT_APPLICABLE = {}
