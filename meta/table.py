HOOKS = {"guard": "cfg(ragu_sim), cfg(ragu_liar)", "enable": "RUSTFLAGS='--cfg ragu_sim --cfg ragu_liar' (set by check.sh)",
         "source_commits": ["8183c43cf1b9110c38f6fcd4836b4a1d3887e2f1", "c67eb1894df90e5a3ebeee458f7d10a648ca1510", "4c523189f09f55056a1b245b87cfce4ccae325d7"]}
NOTES = ("check.sh builds /verif/harness (path dependencies on /repo's crates, offline stand-ins for the missing git "
         "dependencies in /verif/shims) and runs seeded deterministic simulation; 'check.sh replay <ID> <FILE>' replays a violation.")
DST = "deterministic simulation with fault injection: "

prop("C01", "Execution traces do not depend on scheduling",
     "Computing the execution trace of a circuit for a witness yields the same trace and the same auxiliary data on every "
     "interleaving of the worker pool, for every number of workers, and with any other callers running concurrently. "
     "That result equals the sequential one and satisfies the registered circuit for exactly the outputs the program defines.",
     ["schedules", "programs", "inputs"],
     "Every schedule of the fork-join pool (work stealing, stalls, 1..64 workers), every circuit program nesting predicted and unpredicted sub-routines, every witness, any concurrent callers.",
     "Tests run a handful of fixed circuits on whatever schedule the host produces; a reordering that only shows when a predicted routine finishes late or nested tasks are stolen is not sampled or repeatable.",
     ["crates/ragu_circuits/src/trace.rs", "crates/ragu_circuits/src/floor_planner.rs", "crates/ragu_circuits/src/registry.rs", "crates/ragu_circuits/src/lib.rs"],
     [("predicted routines are spawned as tasks and their segments re-sorted by call path", "crates/ragu_circuits/src/trace.rs"),
      ("segments scattered to the positions of the floor plan", "crates/ragu_circuits/src/trace.rs Trace::assemble"),
      ("registration records the same segments", "crates/ragu_circuits/src/metrics.rs")],
     [("segments", "gates recorded per routine call, keyed by the call path"), ("trace polynomial", "assembled gate values")],
     ["trace + assemble called from simulated client threads", "circuit identity checked on the assembled polynomial"],
     None,
     "Seeded search over schedules of the real trace code on a simulated pool against the sequential run, an independent evaluator and the circuit identity; samples, does not prove. Trusts the offline field/curve stand-ins.",
     DST + "schedule search over a simulated work-stealing pool, reference evaluator oracle")

prop("C02", "A failing witness computation fails exactly its own call",
     "When witness computations inside a trace computation fail or panic, the call reports one of those failures unchanged (the "
     "same error value or panic) and never returns a trace, never hangs and never invents another failure. "
     "Calls in which nothing failed, and the same call repeated after the fault is gone, return exactly what a fault-free run returns.",
     ["fault_sequences", "schedules", "programs"],
     "Every placement of errors and panics on witness computations (inside predicted routines running as tasks, predictions, nested routines, the root), several at once, on every schedule and with concurrent callers.",
     "Tests inject no failures into worker tasks; which of several racing failures surfaces, and whether the collector notices the loss, depends on the interleaving.",
     ["crates/ragu_circuits/src/trace.rs", "crates/ragu_core/src/drivers/emulator.rs", "crates/ragu_core/src/routines.rs", "crates/ragu_core/src/errors.rs"],
     [("task results and errors collected through a channel", "crates/ragu_circuits/src/trace.rs eval"),
      ("task panics re-thrown by the scope", "crates/ragu_circuits/src/trace.rs eval")],
     [("fault plan", "which witness computations fail in this run, and how")],
     ["return value or panic of each simulated call", "retry after the fault"],
     None,
     "Seeded search over fault placements and schedules; every fired fault is accounted for in the outcome of its own call. Panics are observed by unwinding; aborting builds are out of scope.",
     DST + "errors and panics injected into witness computations on simulated schedules")

prop("C03", "Parallel transforms and multiscalar products equal their definition",
     "Fourier transforms over fields and modules, multiscalar multiplications and products of linear factors computed on the worker "
     "pool equal their mathematical definition for every input, every number of workers and every interleaving, with other "
     "callers running at the same time. A panic in the element arithmetic reaches that caller only, and a later call is unaffected.",
     ["schedules", "inputs", "fault_sequences"],
     "Every size from empty up, scalars and points including zero, identity and repeated ones, every worker count and schedule, panics injected at any module operation.",
     "Tests fix the host's pool size and a few input sizes; the code branches on the number of workers and splits work recursively, so most (size, workers, schedule) combinations never run.",
     ["crates/ragu_arithmetic/src/fft.rs", "crates/ragu_arithmetic/src/domain.rs", "crates/ragu_arithmetic/src/util.rs", "crates/ragu_arithmetic/src/multicore.rs"],
     [("recursive butterflies with a pool-size dependent cut-off", "crates/ragu_arithmetic/src/fft.rs"),
      ("window sums computed in parallel and combined in order", "crates/ragu_arithmetic/src/util.rs mul")],
     [("twiddles, buckets", "shared read-only inputs of the parallel parts")],
     ["returned vectors and points"],
     None,
     "Seeded search over sizes, inputs, worker counts and schedules against direct evaluation of the definition (points with known discrete logarithms); sampled. Point and field arithmetic itself is a stand-in.",
     DST + "schedule search and injected panics against direct definitions")

PCD_FILES = ["crates/ragu_pcd/src/fuse", "crates/ragu_pcd/src/verify.rs", "crates/ragu_pcd/src/proof.rs", "crates/ragu_pcd/src/lib.rs"]
HOOK = "storage seam: cfg(ragu_sim) module crates/ragu_pcd/src/sim.rs exposes the stored parts of a proof (no serialization exists)"

prop("C04", "Every honest proof-carrying item verifies, with the data its step computed",
     "Whatever honest steps are run in whatever order on whatever nodes, every item a step or a rerandomization returned is accepted by "
     "verification on every node of the same application, carries exactly the data and auxiliary output its step function defines, "
     "and can be the left or right input of any step that takes its header. This holds across loss, duplication and reordering of "
     "items, node crashes that lose everything but stored items, and poor prover randomness.",
     ["histories", "fault_sequences", "crash_points", "schedules"],
     "Every history of seeding, fusing, rerandomizing, sending and verifying over all step signatures (unit, one- and two-element headers, equal encodings), any item reuse, every crash point between calls, any entropy.",
     "The tests run one short chain per example application on one process; histories that reuse items, mix rerandomized and fresh children, or restart a node are not covered and cannot be enumerated.",
     PCD_FILES + ["crates/ragu_pcd/src/header.rs", "crates/ragu_pcd/src/step/mod.rs", "crates/ragu_pcd/src/components", "crates/ragu_pcd/src/internal"],
     [("fuse transcript and accumulation", "crates/ragu_pcd/src/fuse/mod.rs"), ("verification", "crates/ragu_pcd/src/verify.rs"),
      ("rerandomization through an internal step", "crates/ragu_pcd/src/lib.rs"), ("headers encoded with suffix and padding", "crates/ragu_pcd/src/header.rs")],
     [("stored item", "header data and every stored part of its proof"), ("seeded proof cache", "filled on first rerandomization, lost in a crash")],
     ["verify verdicts on every node", "data and aux against the reference model", "stored bytes of a reloaded item"],
     HOOK,
     "Seeded histories of up to five proof-making events against a plain evaluator; a fuse takes a second, so hundreds of histories per check. Field, curve and hash are offline stand-ins.",
     DST + "simulated nodes, lossy network, crash and restart from stored bytes, reference model")

prop("C05", "Damaged, mixed-up or relabelled items are rejected",
     "Verification accepts an item only for the data, header type, step and child headers it was made with: replacing, altering, tearing or "
     "swapping any of these, any challenge, any commitment the transcript binds, the accumulated polynomials, or the multiplication wires of any stored trace "
     "makes verification say no. It never panics on a damaged item and never says no to an undamaged one.",
     ["fault_sequences", "inputs"],
     "Every stored part of every reachable item (fresh, fused, wrapped, rerandomized, unit) and every kind of damage: altered element, swapped, zeroed, torn, foreign, scaled, resized parts, misdelivered data, relabelled headers; any verifier randomness.",
     "The tests corrupt a few hand-picked parts of one proof; each of some ninety stored parts is protected by a different claim, and dropping one claim is invisible to honest runs.",
     ["crates/ragu_pcd/src/verify.rs", "crates/ragu_pcd/src/proof.rs", "crates/ragu_pcd/src/internal", "crates/ragu_circuits/src/registry.rs"],
     [("per-circuit revdot claims over the stored traces", "crates/ragu_pcd/src/verify.rs"),
      ("unified instance and header checks", "crates/ragu_pcd/src/internal"),
      ("registry polynomial and evaluation checks", "crates/ragu_pcd/src/verify.rs")],
     [("stored parts", "polynomials, commitments, challenges, headers and circuit identity of a proof")],
     ["verify verdict for every fault"],
     HOOK,
     "Seeded fault injection on stored parts; every bound part is hit in a quick run. Rejection is probabilistic with negligible error. Parts the design leaves to the next fuse or to the pending decider (blinding wires, bridge traces, a few registry restrictions) are listed in DESIGN.md and not claimed here.",
     DST + "storage and transport faults on every stored part of simulated items")

prop("C06", "Damage cannot be laundered by further steps",
     "An item that does not match its data, or whose stored parts were damaged, never becomes acceptable by being used: every item obtained "
     "from it through honest fusing and rerandomizing is either refused when made or rejected by verification, however many steps later.",
     ["fault_sequences", "histories"],
     "Every stored part and kind of damage (also damage only the next step binds: commitments not opening to their polynomial, blinding wires), every position in which the item is used, chains of several steps.",
     "Recursive soundness is a statement about all histories; the tests never feed a damaged child to a step.",
     PCD_FILES + ["crates/ragu_pcd/src/internal", "crates/ragu_pcd/src/components"],
     [("child claims folded into the accumulator", "crates/ragu_pcd/src/fuse"), ("internal recursion circuits checking the child's transcript", "crates/ragu_pcd/src/internal")],
     [("accumulator", "ab, p and the nested commitments carried from child to parent")],
     ["verify verdict after each step of the chain"],
     HOOK,
     "Seeded search over (item, damage, chain). Three stored traces of the nested field are not yet accumulated by the code: recorded as known findings.",
     DST + "storage faults followed by simulated honest use, verdict tracked over the history")

prop("C07", "Proofs depend only on their inputs and the prover's randomness",
     "Making, rerandomizing or verifying an item gives bit for bit the same result on every schedule, for every number of workers, and "
     "with other nodes proving, verifying or building applications at the same time in the same process. Building the same application again gives the same application.",
     ["schedules", "configurations"],
     "Every interleaving of the simulated pool, 1..64 workers, one to three concurrent callers sharing caches and pool.",
     "A host's schedule is neither controlled nor repeatable, and the tests never compare proofs bit for bit.",
     PCD_FILES + ["crates/ragu_circuits/src/trace.rs", "crates/ragu_circuits/src/registry.rs", "crates/ragu_arithmetic/src/util.rs", "crates/ragu_arithmetic/src/fft.rs"],
     [("parallel parts of proving", "crates/ragu_pcd/src/fuse"), ("lazily filled seeded proof", "crates/ragu_pcd/src/lib.rs")],
     [("seeded proof cache", "shared by callers of one application")],
     ["digest of the stored item, verdict, aux"],
     HOOK,
     "Seeded schedule search, each result compared with the same job run alone.",
     DST + "schedule search over concurrent provers, bitwise comparison with the lone run")

prop("C08", "Rerandomizing keeps meaning and verdict, and hides the original",
     "Rerandomizing an item keeps its data and its verdict, whatever the item and however often it is done, with or without a node restart in between. "
     "Apart from what says which step ran and which headers it saw, the stored form shares nothing with the original or with another rerandomization made with other randomness.",
     ["histories", "inputs", "fault_sequences"],
     "Every item (fresh, fused, wrapped, already rerandomized, damaged), every entropy, before and after a restart that loses the cached seeded proof.",
     "The tests rerandomize one proof once and check that it verifies; freshness of each stored part and damaged inputs are not looked at.",
     ["crates/ragu_pcd/src/lib.rs", "crates/ragu_pcd/src/fuse", "crates/ragu_pcd/src/step/internal"],
     [("fuse with a seeded trivial proof", "crates/ragu_pcd/src/lib.rs rerandomize"), ("blinding of every trace and commitment", "crates/ragu_pcd/src/fuse")],
     [("blinding wires and commitments", "fresh in every stored part")],
     ["stored parts compared between original and both rerandomizations", "verdicts"],
     HOOK,
     "Seeded search; hiding is checked as freshness of every stored part, not as a distributional proof.",
     DST + "rerandomization histories with restarts and damaged inputs")

prop("C09", "A failed call leaves the node as it was",
     "When making, rerandomizing or verifying an item fails (an error or panic in a step's witness computation, an entropy source that dies part way, "
     "an unregistered step, a malformed child, an oversized header), the failure is reported to that caller, and every later call on the same node "
     "gives exactly what it gives on a fresh node.",
     ["fault_sequences", "crash_points"],
     "Every fault site of every step, every entropy draw, one or two failures in a row, then any healthy call.",
     "The tests inject no failures into proving and never look at a node afterwards.",
     ["crates/ragu_pcd/src/lib.rs", "crates/ragu_pcd/src/fuse", "crates/ragu_circuits/src/trace.rs"],
     [("one-time initialisation of the seeded proof", "crates/ragu_pcd/src/lib.rs"), ("errors surfaced from worker tasks", "crates/ragu_circuits/src/trace.rs")],
     [("seeded proof cache", "must not be left half made")],
     ["identity of the reported failure", "later result compared bit for bit with a fresh node"],
     HOOK,
     "Seeded search over fault sites and draws. Panics are observed by unwinding.",
     DST + "witness, entropy and input faults injected into proving, comparison with a fresh node")

prop("C10", "Items are accepted only under the application that made them",
     "A node accepts an item only if it runs an application with the same steps in the same places as the one that made it: items made under a version with a changed, "
     "added, removed or reordered step, or another header size, are rejected, as are items made by running unregistered code under a registered step's place. "
     "No mixing of versions in a history yields an item that either version accepts. A list of steps out of order, or in which two header types share a suffix, "
     "is refused wherever in the list that happens.",
     ["histories", "configurations"],
     "Pairs of application versions, items of every kind crossing between them, merged, rerandomized or verified there; lists of steps to build an application from.",
     "Soundness across versions is a statement about all pairs of applications; the tests build single applications.",
     ["crates/ragu_pcd/src/lib.rs", "crates/ragu_circuits/src/registry.rs", "crates/ragu_pcd/src/verify.rs", "crates/ragu_pcd/src/fuse"],
     [("registry digest and key bound into every trace", "crates/ragu_circuits/src/registry.rs"), ("circuit identity of the step checked at verification", "crates/ragu_pcd/src/verify.rs")],
     [("registry", "ordered set of circuits of an application")],
     ["verdicts of every version on every item"],
     HOOK,
     "Seeded search over six versions of one application; a prover that stops with an error or assertion counts as a refusal.",
     DST + "a simulated fleet running several versions exchanges items")

prop("C11", "A lying prover cannot get a false claim accepted",
     "A participant who controls its own prover may tell any stage of a fuse anything: false facts about a child, challenges of its own choosing, false error terms, "
     "claims, evaluations, polynomials or commitments, with everything computed afterwards made to agree with the lie. If what was told is false, the item it gets is rejected by "
     "verification, as is whatever honest nodes make from it; and every challenge that follows a stage depends on all that was told to that stage.",
     ["fault_sequences", "histories", "inputs"],
     "Every point of a fuse at which a prover says something, every element of what is said there, every amount by which it is false, with or without the later values adapted to it, over every step and every pair of children.",
     "The tests run honest provers only; each check inside the recursion circuits matters only against a prover that breaks exactly that one equation and keeps the rest consistent, and no test builds such a prover.",
     ["crates/ragu_pcd/src/fuse", "crates/ragu_pcd/src/verify.rs", "crates/ragu_pcd/src/internal/native", "crates/ragu_pcd/src/internal/transcript.rs", "crates/ragu_pcd/src/internal/fold_revdot.rs"],
     [("hash circuits derive every challenge from what was committed", "crates/ragu_pcd/src/internal/native/circuits/hashes_1.rs, hashes_2.rs"),
      ("collapse circuits fold the claims", "crates/ragu_pcd/src/internal/native/circuits/inner_collapse.rs, outer_collapse.rs"),
      ("all queries combined into one evaluation", "crates/ragu_pcd/src/internal/native/circuits/compute_v.rs")],
     [("transcript", "sponge that hears every stage and gives the challenges"), ("unified instance", "values the internal circuits agree on")],
     ["verdict on the item", "verdict on items honest nodes make from it", "challenges compared with an honest run"],
     "cfg(ragu_liar) module crates/ragu_pcd/src/liar.rs: what each stage of a fuse is told passes through a seam where the simulated liar may change it",
     "Seeded search over about 170 fixed lies, each breaking one equation, and random ones. Values that only the unfinished nested side would bind are left out (DESIGN.md).",
     DST + "a Byzantine prover lies to one stage of the protocol and adapts the later stages")

prop("C12", "Transcript answers are a function of everything told, wherever it is carried",
     "What a transcript or sponge answers is a function of exactly the sequence of things it was told and asked: it does not matter on which driver it runs, whether it was saved, "
     "handed to another party and resumed between two calls, or how what is told was split into calls. Two transcripts told different things, in different order, under different "
     "labels, or with an absorption in place of a squeeze, answer differently; calls that are not allowed are refused and change nothing.",
     ["histories", "configurations", "inputs"],
     "Every sequence of absorbs, squeezes, saves and resumes, every place to cut it and hand it over, every message, with errors injected into what is told.",
     "The tests squeeze a few fixed sequences; buffering, padding and mode switches at every boundary position and every hand-over point are not sampled.",
     ["crates/ragu_primitives/src/poseidon.rs", "crates/ragu_pcd/src/internal/transcript.rs", "crates/ragu_primitives/src/promotion.rs"],
     [("duplex sponge that buffers up to a rate and permutes lazily", "crates/ragu_primitives/src/poseidon.rs"),
      ("saved state carried between circuits and resumed", "crates/ragu_pcd/src/internal/transcript.rs")],
     [("sponge state", "field elements, buffered values and mode")],
     ["answers compared with a plain reference sponge", "wires recorded in every driver", "transcripts that differ in one thing told"],
     "cfg(ragu_sim) re-export of the transcript from crates/ragu_pcd/src/sim.rs",
     "Seeded search over operation histories against an independent sponge built on the published permutation parameters; collisions are asserted only for histories that really differ.",
     DST + "histories of absorbs and squeezes with crashes that keep only the saved state, handed between parties")

prop("C13", "No advice makes an in-circuit operation mean anything else",
     "The constraints an in-circuit operation lays down admit, for given inputs, only the outputs the operation defines, whatever advice the prover chooses: element arithmetic, inversion, "
     "division, zero and equality tests, booleans and conditionals, packing, points and scalar multiplication, endoscalars, sponges, and composite values. Inputs for which an operation is "
     "impossible, and illegal inputs (a bit that is not one, a point off the curve), cannot be satisfied at all.",
     ["inputs", "fault_sequences", "programs"],
     "Every program of operations, every input, every choice of the prover's free values (not only those the library's witness code would choose).",
     "The tests run the honest witness code, which satisfies the constraints even when one is missing; only a prover that departs from it shows that an operation is under-constrained.",
     ["crates/ragu_primitives/src/element.rs", "crates/ragu_primitives/src/boolean.rs", "crates/ragu_primitives/src/point.rs", "crates/ragu_primitives/src/endoscalar.rs", "crates/ragu_primitives/src/poseidon.rs", "crates/ragu_core/src/gadgets/foreign.rs"],
     [("advice allocated and tied down by gates and linear constraints", "crates/ragu_primitives/src/element.rs, boolean.rs, point.rs, endoscalar.rs")],
     [("advice", "values of the prover's wires")],
     ["recorded constraints solved for other advice", "outputs compared with the reference meaning"],
     None,
     "Seeded search by a lying prover (propagation with drawn choices at every free wire, then checked against all constraints); it samples satisfying advice and does not prove its absence.",
     DST + "a Byzantine prover chooses the advice in a simulated proving of the recorded constraints")

prop("C14", "Every driver gives a program the same meaning",
     "One circuit program means the same on every driver: the values it computes when it is simulated, emulated (with or without wires, with or without a witness), predicted, traced by the pool, "
     "and when its wiring is evaluated three ways; its wire counts agree; errors in its witness code come back unchanged and from the same place on each; and an honest trace satisfies the registered "
     "circuit exactly when the program's own checks hold.",
     ["programs", "inputs", "schedules", "fault_sequences"],
     "Every program over the whole operation set including composite values, nested routines and maps between drivers, every input legal or not, faults in witness code, all schedules of the pool.",
     "Each driver is tested on its own small circuits; agreement among seven drivers on arbitrary programs is a statement no sample of fixed circuits settles.",
     ["crates/ragu_core/src/drivers.rs", "crates/ragu_core/src/drivers/emulator.rs", "crates/ragu_core/src/convert.rs", "crates/ragu_primitives/src/simulator.rs", "crates/ragu_circuits/src/trace.rs", "crates/ragu_circuits/src/metrics.rs", "crates/ragu_circuits/src/s", "crates/ragu_macros/src"],
     [("one program interpreted by many drivers", "crates/ragu_core/src/drivers.rs"), ("values present or absent by type", "crates/ragu_core/src/maybe.rs")],
     [("wires", "what each driver keeps of a value")],
     ["values, counts and errors per driver", "circuit identity on the simulated trace"],
     None,
     "Seeded search over programs against an independent model of the operations; samples, does not prove.",
     DST + "generated programs run on every driver and on the simulated pool with witness faults")

prop("C15", "Every view of a registry is the same polynomial, on every node",
     "However it is asked (restricted in one, two or all variables, at a circuit's place, at an empty place, outside, or at zero), a registry answers from one polynomial: the circuits in their documented "
     "places plus the key term. Nodes that register the same circuits get the same registry and digest, whatever the interleaving of registrations across categories, concurrent readers or failed attempts "
     "in between; registries that differ as polynomials have different digests.",
     ["histories", "schedules", "inputs", "fault_sequences"],
     "Every list of circuits and stages, every order of registering that leaves the documented order the same, every point including zeros and domain points, concurrent readers, panics in synthesis.",
     "The tests compare three views at random points on one list of equal circuits; zeros, empty places, routines that leave gaps, and agreement among nodes are not sampled.",
     ["crates/ragu_circuits/src/registry.rs", "crates/ragu_circuits/src/s", "crates/ragu_circuits/src/floor_planner.rs", "crates/ragu_circuits/src/staging", "crates/ragu_circuits/src/metrics.rs"],
     [("circuits placed at roots of unity in bit-reversed order", "crates/ragu_circuits/src/registry.rs"), ("key term injected into every view", "crates/ragu_circuits/src/registry.rs"),
      ("three evaluators of the wiring polynomial", "crates/ragu_circuits/src/s")],
     [("registry", "circuits, floor plans and key"), ("digest", "hash of six evaluations")],
     ["answers to concurrent readers", "digests of nodes"],
     None,
     "Seeded search; the expected polynomial is interpolated from registries that hold one circuit each, so an error common to all three wiring evaluators and all places is left to C16.",
     DST + "simulated nodes register and read concurrently while synthesis fails at drawn points")

prop("C16", "A registered circuit accepts exactly the traces that satisfy it",
     "For a circuit given as a program of gates, linear constraints and nested routines, the registered wiring accepts an assembled trace and public outputs if and only if every gate, every linear "
     "constraint and every public output of the program holds, for honest and dishonest provers alike and on every schedule on which the trace was made.",
     ["programs", "inputs", "schedules", "fault_sequences"],
     "Every program (any nesting of predicted and unpredicted routines, paired allocations, long sums of sums), every false value or set of false values that cancel in part, every schedule.",
     "The tests accept honest traces; a constraint lost or laid in the wrong row by an unusual layout shows only against a prover that breaks exactly that constraint.",
     ["crates/ragu_circuits/src/trace.rs", "crates/ragu_circuits/src/s", "crates/ragu_circuits/src/metrics.rs", "crates/ragu_circuits/src/raw.rs", "crates/ragu_circuits/src/floor_planner.rs", "crates/ragu_circuits/src/ky.rs"],
     [("constraints and gates laid out by the floor plan", "crates/ragu_circuits/src/floor_planner.rs"), ("wiring polynomial", "crates/ragu_circuits/src/s")],
     [("trace polynomial", "values of all gates"), ("public polynomial", "outputs in the rows below")],
     ["circuit identity at random points against a direct check of every constraint"],
     None,
     "Seeded search over programs and lies; the identity is checked at random points, so a false acceptance has negligible probability.",
     DST + "a Byzantine prover breaks drawn constraints of generated programs traced on the simulated pool")

prop("C17", "Stages made apart combine into exactly the circuit they are stages of",
     "Stage polynomials made separately, at different times or by different parties, combine with the final trace into one that is accepted if and only if the circuit's constraints hold for what the "
     "stages really contain; a stage mask accepts exactly the polynomials that touch nothing outside the stage. Lost, stale, duplicated or altered stages are accepted only if the constraints hold all the "
     "same. Bonding circuits constrain exactly what they say and refuse what they may not contain; stages that do not fit are refused.",
     ["histories", "inputs", "fault_sequences", "configurations"],
     "Every chain of stages (odd, empty, shorter than declared, skipped, enforced or not), every wire in or next to a stage, every history of deliveries of stage polynomials.",
     "The tests combine honest stages of a few sizes; boundaries between stages and half-filled gates matter only for polynomials that reach across them.",
     ["crates/ragu_circuits/src/staging/mod.rs", "crates/ragu_circuits/src/staging/mask.rs", "crates/ragu_circuits/src/staging/builder.rs", "crates/ragu_circuits/src/staging/bonding.rs"],
     [("stages occupy consecutive gates", "crates/ragu_circuits/src/staging/builder.rs, mod.rs"), ("masks", "crates/ragu_circuits/src/staging/mask.rs"), ("bonding circuits", "crates/ragu_circuits/src/staging/bonding.rs")],
     [("stage polynomial", "values of one stage"), ("mask", "where a stage may be non-zero")],
     ["mask and circuit identities at random points against a direct check", "commitment difference at the announced generator"],
     None,
     "Seeded search over four chains of three stages of different shapes; identities are checked at random points.",
     DST + "stage polynomials delivered late, twice, stale, altered or not at all, and combined")

prop("C18", "A polynomial means the same after any history of operations on it",
     "A stored polynomial is its coefficients and nothing else: after any history of constructions, sums, differences, scalings, dilations, folds, quotients and transforms, on any number of concurrent "
     "callers that share polynomials, its coefficients read from either end, its value at every point, its inner products, its commitment and its further use are those the definitions give, "
     "however zeros, gaps and cancellations fell; an operation that fails leaves its operands as they were, and more coefficients than there is room for are refused.",
     ["histories", "inputs", "schedules", "fault_sequences"],
     "Every sequence of operations, every placement of runs, gaps and cancellations across the block structure, every scalar including zero, every interleaving of callers.",
     "The tests compare single operations on a few layouts; the block structure that one operation leaves for the next (adjacent, split, inline zeros) grows out of histories they do not build.",
     ["crates/ragu_circuits/src/polynomials", "crates/ragu_arithmetic/src/util.rs", "crates/ragu_arithmetic/src/domain.rs", "crates/ragu_arithmetic/src/fft.rs"],
     [("sorted blocks with short gaps kept inline", "crates/ragu_circuits/src/polynomials/sparse/mod.rs"), ("wire buffers mapped to degrees", "crates/ragu_circuits/src/polynomials/sparse/view.rs")],
     [("polynomial", "non-overlapping blocks of coefficients"), ("shared slot", "polynomial published by one caller and used by others")],
     ["comparison with a plain vector after every operation", "values, inner products and commitments against the definitions"],
     None,
     "Seeded search over histories against a dense reference model, both ranks.",
     DST + "histories of operations by concurrent simulated callers, with term sources that fail, against a small reference model")
