# Per-property wording for MANIFEST.json.
ASAN = " Repository code runs under AddressSanitizer and bounds checks; every smart-pointer access is bounds-checked by the stand-in."
STAND = " Trusts the stand-ins for the absent submodules (lib/standin) and the harness oracle."
FCL = " OpenCL code runs on an in-process implementation (lib/fakecl), not on real devices."
TECH = {
 "C01": "property-based round trip with generated model-state histories; libFuzzer in the thorough tier",
 "C02": "property-based testing against a reference coder and table invariants; libFuzzer in the thorough tier",
 "C03": "property-based testing against sorted suffixes (prefix doubling); libFuzzer in the thorough tier",
 "C04": "property-based testing against a recency-list model; libFuzzer in the thorough tier",
 "C05": "property-based testing against a reference filter in guarded memory",
 "C06": "property-based testing against a reference traversal",
 "C07": "property-based differential testing of all paths against a reference transform",
 "C08": "property-based differential testing of all paths against a reference predictor and its inverse",
 "C09": "structure-aware fuzzing of PNG files, differential against libpng",
 "C10": "property-based testing with a reference decoder of the emitted streams",
 "C11": "structure-aware fuzzing of JPEG files, differential against libjpeg",
 "C12": "stateful model-based testing against a map",
 "C13": "stateful model-based testing with an independent parser of the file",
 "C14": "stateful model-based testing against a dependency model",
 "C15": "stateful model-based testing with generated invalid operations",
 "C16": "stateful model-based testing against a set of paths",
 "C17": "generated schedules (deterministic scheduler) with a linearisability oracle",
 "C18": "stateful model-based testing end to end (processor, codecs, archive)",
 "C19": "generated schedules (deterministic scheduler) with an invariant over the history",
 "C20": "generated schedules (deterministic scheduler) against a permit-count model",
 "C21": "fault injection at generated bytes of a simulated transport, and real sockets, against a message model",
 "C22": "generated client behaviours against a live server, session-count model",
 "C23": "stateful model-based testing of a live server, files checked by an independent parser",
 "C24": "protocol fuzzing with generated cut points and damage against a live server",
 "C25": "property-based testing against an independent grammar",
 "C26": "property-based round trips against reference encodings",
 "C27": "stateful model-based testing against a vector",
 "C28": "property-based testing over generated environments and device sets",
 "C29": "stateful model-based testing over generated device sets with injected build failures",
 "C30": "property-based testing against a reference size parser and option model",
 "C31": "stateful model-based testing over generated directory trees",
 "C32": "property-based testing over identifiers and request orders; byte-exact round trip",
 "C34": "stateful model-based testing of the running program with generated settings and signals",
 "C33": "stateful model-based testing against a dense count table",
}
LEVEL = {}
_S = "Generated-input search: no violation among the cases counted in the evidence file, which is not a proof."
NOTE = {f"C{i:02}": _S + ASAN + STAND for i in range(1, 35)}
for i in ("C07", "C08", "C10", "C28", "C29"): NOTE[i] += FCL
for i in ("C17", "C19", "C20"):
    NOTE[i] = _S + " Interleavings are drawn at synchronisation calls, stream operations and instrumented memory accesses under sequential consistency; weak-memory effects are not explored." + STAND
for i in ("C18", "C22", "C23", "C34"): NOTE[i] = _S + " Real threads and processes: schedules are the operating system's." + STAND
NOTE["C24"] += " Real threads and processes: schedules are the operating system's."
NOTE["C11"] = _S + " Only layouts that fit one interleaved scan are written back. Trusts libjpeg as the oracle." + ASAN
NOTE["C09"] = _S + " Trusts libpng as the oracle." + ASAN
NA = {}
