BIND = "TLC's state graph is turned into covering walks that are replayed on the real code, comparing the whole observable state after every step"
VEC = "TLC enumerates inputs with the outcomes the specification requires; each is run on the real code"
NA = {}
NOTE = {
"P01": (BIND, "Every transition of bounded worlds (2-4 handles, 2-3 objects each holding a handle) plus random walks is replayed under AddressSanitizer; the counting invariants are model-checked in the same worlds. Assumes a user counter that increments/decrements as documented."),
"P02": (BIND, "Every transition of bounded worlds of guards and timers plus random walks; time is a scripted steady clock, so recorded durations are compared exactly."),
"P03": (BIND, "Every transition with three references and three callables, for nine signature/callable palettes (const, mutable, overloaded, function pointer, std::function, move-only and reference arguments/results)."),
"P04": (VEC, "All start/stop/step combinations around lengths 0-6 (0-12 thorough) with integer extremes, plus huge lengths by a closed form that TLC shows equal to the walk; undefined overflow is trapped by UBSan."),
"P06": (VEC, "Every operator over a palette of leaves exhaustively, sampled deeper DAGs and mixed scalar operands; plus histories of rebinding, compound assignment, moves and self-reference (all small histories to a depth, random long ones) with exact values in the field Z_46337."),
"P07": (VEC, "Degree rules in TLA+ give the exact type in the polynomial fragment; elsewhere exact derivatives at several points give a lower bound that the reported type must reach."),
"P08": (VEC, "The rules of calculus are written in TLA+ as each operator's local derivatives and the chain rule; the emitted formulas are evaluated and compared with numeric and symbolic gradients, Jacobians and Hessians; histories compare exact jets over Z_46337."),
"P09": (BIND, "All histories of 3 steps over 24 actions and thousands of random ones, each closed by asking every handle and object, changing every variable and asking again; answers are exact jets over Z_46337."),
"P10": (BIND, "Every transition of the pool's bounded state graph with overlap, ownership and reuse checks; expressions up to depth 1e6 built, differentiated and released on a 512 KiB stack; every history returns the pool to its baseline."),
"P16": (VEC, "Step-size rule: exact rational definition over integer vectors (exhaustive small palettes plus samples); the code's step must be the largest admissible one."),
"P17": (BIND, "Histories of filter operations sampled by TLC from palettes around every threshold (ties, tiny and huge violations, NaN, infinities); the spec is the history-based acceptance rule with a ghost set of excluded regions."),
"P18": (VEC, "Inertia counts, the escalation loop as a state machine (scripted factorization outcomes derived from diagonals), exact 2x2 and leading-minor definiteness in rationals; dense and sparse code paths, float and double."),
"P19": (VEC, "Exact rational optimality error of sampled integer problems and of their power-of-two rescalings; double and float; Newton, SQP and interior-point forms."),
"P20": (VEC, "Exact rational scaling rule on sampled sparse matrices including empty rows, stored zeros, negative and non-finite entries."),
"P21": (VEC, "Exhaustive small integer Jacobians and violations; the declared verdict equals the specification's stationarity definition."),
"P27": (VEC, "Initialisation, multiplier re-estimation and block assembly of the restoration phase from exact rationals."),
"P25": (BIND, "The recording is a byte-stream state machine with a reader; TLC checks the round trip and its byte streams are compared with the files written (compressed and uncompressed matrices, float and double); the shipped reader is run on the same files. Problem.tla's histories record whole solves and compare every file with the matrices the same, unrecorded solve shows its callbacks, and the two solves with each other."),
"P26": (VEC, "Every status and type under 2400 format specifications; every pair of print calls on seven kinds of healthy and broken streams; the real Python bindings are compiled and compared with the same table."),
"P05": (BIND, "Programs over a heap of handles: views of views (elements, rows, columns, blocks, segments, slices, strided slices, transposes of const matrices), assignment and overlap, sampled by TLC; every element's exact value (field Z_46337) and identity compared after every step."),
"P11": (VEC, "Every comparison between scalars, variables, matrices, views and numeric matrices; the constraint vector's order, sign and kind compared element by element."),
"P28": (BIND, "Random programs of matrix operations incl. aliasing (A *= A, overlapping blocks), compared exactly in Z_46337 after every step."),
}
NOTE["P24"] = (BIND, "Every assignment of statuses and costs to 1-3 guesses (4-5 on smaller palettes) and every completion order, and drawn ones for 5-24 guesses, enforced on the real concurrent tasks under ThreadSanitizer; the returned result must be one of the specification's best.")
NOTE["P22"] = (VEC, "Sampled sets of inequality constraints written in nine ways, with exact dyadic bounds, in double and float; mask, tightest bounds, every conflict, untouched values, and the status of solving; projection against the exact rational formula with strict interior checks.")
TR = "the recorded event trace of every real solve is validated against the specification by TLC, and TLC-generated fault scenarios drive the solves"
NOTE["P13"] = (TR, "Solver.tla (Newton, SQP, interior point, restoration; the environment may return anything) is explored completely; thousands of generated problems with 0-3 callbacks, stops and injected faults are run and every callback, its order, iteration number and dimensions must be accepted by the event monitor that the model also satisfies.")
NOTE["P14"] = (TR, "Same model and monitor: termination, limits, and the truth of every exit status under injected non-finite values at any evaluation, exhausted line searches, factorization failures and scripted clocks; the sanitized build runs the same scenarios; Problem.tla's histories cut solves short by either limit and compare status and values with the same solve run freely.")
NOTE["P16"] = (VEC + "; " + TR, "Step-size rule: exact rational definition over integer vectors; recorded interior-point solves: positive finite slacks and multipliers each iteration and no exit from the feasible region in feasible mode.")
NOTE["P27"] = (VEC + "; " + TR, "Initialisation, multiplier re-estimation (also with dependent gradients) and block assembly from exact rationals; the restoration problem's functions and derivatives evaluated at chosen points and every way it can end, with the inner solver replaced by a stand-in; recorded solves must leave restoration consistently.")
NOTE["P12"] = (BIND, "Problem.tla is the Problem interface as a state machine (declare, set, cost, constraints, callbacks, copy, move, solve, re-solve); sampled histories are replayed call by call and every answer - types, solver named, status class, written-back solution (also of solves cut short by the iteration or time limit, which must be an iterate of the same solve run freely), symmetric matrices, untouched parameters - must be the specification's.")
NOTE["P15"] = (VEC, "Problems constructed backwards from their solution: strictly convex ones from drawn minimiser, multipliers and active constraints (TLC checks the optimality conditions of every one), nonconvex ones whose first-order points are a product of small sets; posed in several styles, orders, scales, senses and from several guesses. A convex one may stay unsolved in at most 0.4 % of cases, never be solved wrongly or called infeasible.")
NOTE["P30"] = (VEC + "; " + BIND, "Every report function on generated data, parsed back and compared with the specification's rows; whole solves of Problem.tla's histories with the printed structure, iteration table and final status checked against the specification and the callbacks' record; traces of the three solvers in which every printed iteration row is an event that must describe the iterate that follows it.")
NOTE["P31"] = (BIND + "; " + VEC, "The extension module is built from the bindings and driven by a Python interpreter of the same specifications the C++ harnesses replay: Mats programs (views, algebra, relations), Problem histories with callbacks, limits, timeouts, spy and diagnostics, Ocp trajectories and bounds, Multistart schedules; plus PyCall (every function and operator over every operand kind, values and derivatives), PyDiff (Gradient, Hessian, Jacobian at histories of points), PyLin (linear solves, exponentials, expression kinds), PyOptions (keyword arguments on a problem whose iterates are known, refused keywords, enumerators) and PyLife (names that outlive the objects they came from, with fresh allocations churned over freed memory). Every operation is written in one of the spellings Python offers, drawn reproducibly.")
NOTE["P23"] = (VEC, "Feasible trajectories of every transcription method, dynamics form and timestep method computed by TLC in exact rationals (fourth-order step, discrete map, cubic collocation), and single-entry changes of them with the required verdict; shapes, initial values, per-step callback arguments, bounds and end-to-end solves.")
NOTE["P29"] = (BIND, "Every interleaving of small two-thread programs and sampled schedules of longer ones are enforced on real threads (switching inside solves at their callbacks) and every answer and pool count compared with the program run alone; the same programs run freely under ThreadSanitizer.")
def _add(pid, text):
    k = NOTE[pid]
    NOTE[pid] = (k[0], k[1] + " " + text)
_add("P28", "Products, Kronecker, block and linear solves of 1..7 unknowns (values and derivatives, at points other than the one they were built at) and matrix exponentials against exact rational systems.")
_add("P11", "Truth values of boolean comparisons over magnitudes down to the smallest subnormal.")
_add("P16", "The step-size rule over magnitudes from subnormal to near overflow, by exponent classes.")
_add("P22", "Row scales 2^e across the whole exponent range.")
_add("P03", "One palette puts three callables at one address, so that rebinding is judged by behaviour and not by address.")
for _p in ("P06", "P07", "P08"):
    _add(_p, "Dyadic.tla: exact sums of powers of two cover magnitudes 2^-300..2^150, constants 2^-50 away from 0, 1 and 2, and arguments far out where a function has reached its limit.")
_add("P11", "NaN and infinite operands.")
