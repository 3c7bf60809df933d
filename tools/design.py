"""Write DESIGN.md from the parts below, properties.jsonl, the checks' stated bounds, known_findings.json and seeded/."""
import importlib
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
sys.path.insert(0, str(ROOT / "tools"))
from checks_table import CHECKS  # noqa: E402

INTRO = """# Verification of python-kasa by model checking

## Approach

python-kasa is single-threaded asyncio code, so a *behaviour* is a sequence of decisions of the
outside world: which I/O completes next and how, which timer fires before which reply, which caller
is cancelled and where, what each device answers, and what the user asks for next. All checks
enumerate those decisions exhaustively inside stated bounds **on the real code** (stateless
exploration); nothing is sampled and no solver is involved.

* `mc/core.py` - `VLoop`, an asyncio event loop with virtual time and no selector. Whenever no task is
  runnable it asks the explorer what happens next (environment event + outcome, timer, cancellation,
  "event and cancellation in the same tick"). `explore_chunk` is a depth-first enumerator over choice
  sequences with a deviation (preemption-style) budget: the default decision is free, every other
  decision costs one unit unless it is marked free (input enumeration). All executions up to the budget
  are run. Time, `os.urandom`, `secrets`, `random` and the hash seed are deterministic, so a choice
  sequence is a complete replay recipe; every 64th execution and every violation is run twice and must
  behave identically (`replay_determinism` in the evidence).
* `mc/net.py` - simulated TCP, UDP (through the loop's `create_connection` /
  `create_datagram_endpoint`) and HTTP (through `aiohttp.ClientSession._request`, with real sessions and
  real cookie jars). Faults are outcomes of environment events.
* `mc/servers.py` - independent peers for every transport (own KLAP, AES, camera, token, XOR and Linkie
  servers written from the protocol descriptions). They check every request they receive.
* `mc/sim.py`, `mc/iotsim.py` - independent simulations of SMART devices, cameras, hubs with children
  and legacy devices. Each is loaded with a device recorded in `/repo/tests/fixtures` and then holds
  real state: a setter changes what the getters answer, unknown methods, unknown keys, values of the
  wrong type and (for lights) contradicting requests are refused, lists are paged, each child and each
  socket has its own state, legacy devices refuse or cut answers that do not fit their buffer.
  They are the oracle: what a device *is* after a history is read from the simulation, never from the
  library.
* `mc/fake.py`, `mc/hist.py`, `mc/sess.py`, `mc/cmds.py` - in-memory transports, history generators,
  session models, and the list of all commands a device object offers with their arguments.
* `mc/run.py` - worker pool (work sharing over unexplored prefixes), evidence, known findings, replay
  (`./check.sh C01 quick --replay out/C01/violation-1.json`), `--only SUBSTRING` for one scenario.

States are distinct canonical decision points (hash of the trace of observable events up to the
decision); transitions are decisions executed. Every trace is an execution of the implementation, so
`traces_validated_against_impl` equals the executions: model and implementation run in lock step.

The simulations are bound to reality in two ways: their start state and answer shapes are the
recorded answers of real devices, and the library's own recorded-device test-suite passes against
them where they overlap. What a simulated device refuses is what the recorded devices or the
library's documentation say is refused; where neither says anything the simulation is permissive and
the point is listed as an assumption.

A check looks only at what the code does (requests at the peer, returned values, exceptions,
properties, log records, exit status). The few private names it uses (`_transport`, `_modules`,
`_last_update`, `_query_helper`, `_discovery_info`, `_children`, the child protocol wrappers) are
names the repository's own tests rely on.

Cost: every quick check takes between 2 and 150 s on 8 cores (all 29 together about 25 minutes);
thorough tiers deepen the same exploration and are bounded by a wall clock of their own (a run that
does not finish its bound says `NOT exhausted` in its output and `exhaustive: false` in its evidence).

No property had to be listed as not applicable: everything the properties speak about is decided by
inputs, histories, schedules and faults, all of which can be enumerated inside bounds. Python code
paths that depend on real sockets, real TLS and the operating system's resolver are replaced by the
simulated network; that is the one part of the stack no check here executes. The developer tools
(`devtools/`) are not covered.
"""

NOTES = {
    "C01": "Oracle: an independent model of a legacy TCP device which tags every answer with the request that caused it; an answer returned to a caller must be the answer to that caller's request, once.",
    "C02": "Oracle: the peer records which request was being processed when; no request may start while another of the same session is unanswered, and every caller gets its own answer. Lesson: a cancelled KLAP/camera request may consume its sequence number without being sent, so gaps are allowed, reuse is not.",
    "C03": "Oracle: the documented retry rules per failure class (count of attempts, kind of exception, later usability). Only the last failure decides the exception kind.",
    "C04": "Oracle: own KLAP v1/v2 device. Lessons: the body of handshake2 carries nothing and is ignored; a gap in sequence numbers after a cancelled request is legal.",
    "C05": "Oracle: own AES device. A login is judged by the device's view of key, token and expiry.",
    "C06": "Oracle: own camera. Lessons: a camera keeps the user name that worked in the fall-back login; HTTP 500 means session loss only within a secure session.",
    "C07": "Oracle: own token and Linkie devices. An empty body is a valid reply on the token transport.",
    "C08": "Oracle: each method asked alone of the reference device. An unknown error code for a whole camera batch legitimately switches batching off.",
    "C09": "Oracle: reference hub with one answer table per child. Code -40401 is retryable.",
    "C10": "Oracle: lock-step model of which methods are due at each update (intervals, back-off, disabling after 10 failures) and of the data each module must show. Lessons: cleaning records need the device's time zone, the device module is never counted as failing, and the very first update of a camera may raise for the connection type.",
    "C11": "Oracle: child population of the hub model. A failed listing is only asked again after 30 s, so pair() inside that window reports nothing.",
    "C12": "Oracle: expected-effect model of each legacy command and the simulated device. Lessons: setting the brightness of a dimmer turns it on by design; strip-wide on and off work from cached socket states; on_since of a strip is judged in absolute time.",
    "C13": "Oracle: independent classification of every datagram. A host is judged by its first readable reply.",
    "C14": "Oracle: sessions, sockets and endpoints that exist after the call; which device is found. The caller's own session needs the library's cookie settings. A success answer with nonsense contents may raise anything but must not leak.",
    "C15": "Oracle: independent tables of encryption, family, class and port. timeout=None equals the default; blank credentials combined with a hash are excluded for cameras.",
    "C16": "Oracle: unique canaries in every sensitive field. Device descriptions may name the alias; artificial values (non-text MAC, undecryptable text) are excluded; short tokens are matched at word starts because base64 text matched by chance.",
    "C17": "Oracle: expected-effect model per feature on the whole device state. The range is cached by design; fractions of whole-number settings may be truncated; effects and presets are left to C19.",
    "C18": "Oracle: simulated lights which refuse what real ones refuse, plus an effect model per command. Brightness 0 together with hsv or colour temperature on SMART is excluded; a dimmer's turn_on(transition) uses the cached brightness.",
    "C19": "Oracle: preset and effect tables of the simulated light. Equal presets are indistinguishable; an effect created by another app since the last (daily) effects query is shown as its id.",
    "C20": "Oracle: independent calendar. Legacy devices report local fields only, so the repeated hour is ambiguous; cameras take named zones only.",
    "C21": "Oracle: physical values of the simulated meter. Statistics replies with mixed units are excluded; a strip's total of sockets without totals reads 0.",
    "C22": "Oracle: both peers must see only their own session's cookies and requests.",
    "C23": "Oracle: lock-step model of the update's progress. -1001 is a retryable code, so the plain failure uses -1008.",
    "C24": "Oracle: the same library call made on an equal device, and the stated exit-status and JSON rules. Lessons: joining a network on a dead device succeeds by design; prompts are not judged; `kasa --host` performs two updates.",
    "C25": "Oracle: the same history of one object run alone in its own process (fork per execution), and a newly created object.",
    "C26": "Oracle: a newly created object after the failed command. Firmware checks, network scans and joins may end without an error.",
    "C27": "Oracle: expected-effect model per command over the whole device state and the one-shot requests. Only requests the device accepted count.",
    "C28": "Oracle: independent description model (`want_smart`, `want_cam`, `want_iot`) computed from what the simulated device reports. Stream addresses are judged by parsing them (RFC 3986).",
    "C29": "Oracle: both serial orders of the two calls, run on the real code, and a newly created object. The two answers of one device cannot overtake one another (it has one connection), so the start position of the second call determines the interleaving. Calls in which the caller itself reads, changes and writes back, firmware checks and the step widths of a camera's movement (settings of the object) are left out.",
}

SKIPPED = """## What is deliberately not judged

* FrostProtection.minimum_temperature and temperature_unit (the library never asks for them and no recorded
  device shows them), BatterySensor.battery of devices without a percentage, LightTransition's separate
  durations on version 1 devices, the brightness of an inactive SMART effect, usage figures an energy
  meter inherits from the interface, countdown rules of devices that leave out weekday fields.
* Settings which the library writes together with the other settings of the same group from its last update
  (alarm, auto-off, LED schedule, dust collection, mop, power protection): setting two of one group without an
  update in between may restore the first. Every command is judged after an update (C17, C27), overlapping ones
  against the two serial orders (C29).
* A factory reset, restart or network command for a camera behind a hub: refused with KasaException by design.
* Interactive prompts of the command line, the wording of printed text, `devtools/`.

## False alarms that were corrected in the machinery (not in the code)

Each of these was first reported by a check and turned out to be right in the code; the property or the
oracle was corrected: `on_since` oracle across a change of the zone's offset (C12); sequence gaps after a cancelled
KLAP or camera request (C02, C04); fall-back user name of cameras and HTTP 500 without a session (C06); empty
bodies on the token transport (C07); batching switched off by an unknown code (C08); -40401 (C09); dependence of
cleaning records on the time zone query (C10); pairing inside the 30 s back-off of a failed listing (C11);
dimmer brightness and cached strip state (C12); first readable reply (C13); default timeout equality (C15);
base64 texts matching short canaries, aliases in device descriptions (C16); cached ranges and truncated
fractions (C17); brightness or colour on a light that is off (C18); equal presets (C19); repeated hours (C20);
host's day (C21); retryable -1001 (C23); background discovery cancelled with the program (C24); modules polled once a
day (C25, C28); the simulator inventing `device_on` for devices without a state (C26); `getSirenStatus` in the
state snapshot and recorded error numbers answered as data (C26, C27); strips known by their MAC address, firmware
options of version 1 components (C28).
"""


def main():
    out = [INTRO, "## Properties\n"]
    props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines()]
    for p in props:
        i = p["id"]
        m = importlib.import_module(f"mc.checks.{i.lower()}")
        tech, detail = CHECKS[i]
        out.append(f"### {i}: {p['title']}\n")
        out.append(p["statement"] + "\n")
        out.append(f"*Deciding method*: {tech}. {detail[0].upper() + detail[1:]}.\n")
        b = getattr(m, "BOUNDS", {})
        out.append(f"*Bounds*: quick - {b.get('quick')}; thorough - {b.get('thorough')}.\n")
        a = getattr(m, "ASSUMPTIONS", None)
        if a:
            out.append("*Assumptions*: " + ("; ".join(a) if isinstance(a, list) else a) + ".\n")
        out.append(NOTES[i] + "\n")
    out.append(SKIPPED)
    out.append("## Defects found in python-kasa\n\nRepaired (one `fix:` commit each) or recorded (`known`), as listed in `known_findings.json`:\n")
    for e in json.loads((ROOT / "known_findings.json").read_text()):
        w = e["what"].removeprefix("fixed: ").removeprefix(f"property={e['property']} ")
        out.append(f"* {e['property']} {e['status']}: {w}")
    out.append("\n## Planted bugs\n\n`seeded/<id>/`; caught = the property's quick check exits 1 with the patch applied.\n")
    out.append("| change | property | needs | caught |\n|---|---|---|---|")
    cat = ROOT / "tools" / "caught.json"
    caught = json.loads(cat.read_text()) if cat.exists() else {}
    for d in sorted((ROOT / "seeded").iterdir()):
        if (d / "meta.json").exists():
            mt = json.loads((d / "meta.json").read_text())
            out.append(f"| {d.name} | {mt['property']} | {mt['needs'].replace('|', '/')} | {caught.get(d.name, '')} |")
    mut = ROOT / "tools" / "mutants.md"
    if mut.exists():
        out.append("\n" + mut.read_text())
    (ROOT / "DESIGN.md").write_text("\n".join(out) + "\n")


main()
