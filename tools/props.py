#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Solve verdicts are exact and models are real, over incremental histories",
  "For every interleaving of Add, Assume, Lit and Solve, Solve returns 1 exactly when the clauses added so far together with the literals assumed since the previous Solve are satisfiable and -1 exactly when they are not (never 0 when nothing stops it, and never a panic). "
  "After 1, Value gives one total assignment over all variables up to MaxVar that satisfies every added clause and every assumption, with Value(m) and Value(m.Not()) always opposite. "
  "Assumptions never outlive the Solve that consumed them, clauses never disappear, MaxVar is the largest variable seen, and Lit returns a variable never used before.",
  ["inputs", "histories"], "all finite CNFs (any clause sizes incl. empty, unit, duplicate and complementary literals) and all histories of Add/Assume/Lit/Solve over them, at any initial capacity hint",
  "Unit tests solve a few dozen fixed or randomly drawn instances and hardly check UNSAT answers independently; wrong answers depend on specific clause/assumption interleavings.",
  ["gini.go", "internal/xo/s.go", "internal/xo/cdb.go", "internal/xo/trail.go", "internal/xo/derive.go", "internal/xo/guess.go", "internal/xo/vars.go"],
  [("CDCL loop, assumption levels", "internal/xo/s.go Solve/solveInit/makeAssumptions/cleanupSolve"), ("clause addition with simplification", "internal/xo/cdb.go Cdb.Add"), ("two-watched-literal propagation", "internal/xo/trail.go Prop"), ("1UIP learning and minimisation", "internal/xo/derive.go Derive/minimize"), ("variable heap", "internal/xo/guess.go")],
  [("trail", "assigned literals by decision level", "internal/xo/trail.go"), ("assumes", "assumptions made since the last Solve/Test", "internal/xo/s.go")],
  ["Solve() result", "Value(m)", "MaxVar()", "Lit()"])

p("C02", "Why names a sufficient subset of the assumptions behind an UNSAT answer",
  "After a Solve or a Test returned -1, Why returns only literals that were assumed and are still in force, and the added clauses together with the returned literals alone are unsatisfiable. "
  "An empty result therefore means the clauses themselves are unsatisfiable. "
  "Asking Why never changes later answers, and when the last answer was not UNSAT it names nothing.",
  ["inputs", "histories"], "all clause sets, assumption lists (duplicates, opposite pairs, already implied or refuted literals, several Test scopes) and repeated solves",
  "Existing tests only check that failed assumptions are non-empty or on php instances; sufficiency must hold for every conflict derivation.",
  ["gini.go", "internal/xo/s.go"],
  [("implication-graph walk from the final conflict", "internal/xo/s.go Why/final/finalRec"), ("failed assumption found by propagation", "internal/xo/s.go makeAssumptions (xLit)")],
  [("x, xLit", "final conflict clause / first refuted assumption", "internal/xo/s.go")], ["Why(nil), Why(buf)"])

p("C03", "Test/Untest scopes: assumptions, propagated literals, reasons are sound",
  "Assumptions passed through Test stay in force for every later Test and Solve until the matching Untest removes exactly that scope's assumptions, while assumptions not passed through Test are forgotten by the next Solve. "
  "Test answers -1 only if clauses plus scoped assumptions are unsatisfiable, 1 only with every variable assigned to a satisfying model, and otherwise lists each newly assigned literal exactly once, every one of them a consequence of clauses and scoped assumptions and including the new assumptions; Untest answers -1 only if what remains is unsatisfiable. "
  "Reasons(m) for a listed literal m returns currently true literals that together with the clauses imply m, and following reasons never cycles.",
  ["inputs", "histories"], "all clause sets and all well-formed histories of Assume/Test/Untest/Solve/Reasons/Why (Test not called after an unresolved -1, Add only outside scopes), including Solve learning units under open scopes",
  "Tests cover one or two fixed scope sequences; soundness must survive every interleaving of learning under scopes with untests.",
  ["gini.go", "internal/xo/s.go", "internal/xo/trail.go", "inter/s.go"],
  [("scope stack", "internal/xo/s.go Test/Untest/cleanupSolve"), ("late units under lower scopes", "internal/xo/trail.go backWithLates"), ("reason clauses", "internal/xo/s.go Reasons")],
  [("testLevels/endTestLevel", "decision level of each open scope", "internal/xo/s.go")], ["Test result and list", "Untest result", "Reasons", "Solve under scopes"])

p("C04", "Activation literals switch clauses on and off exactly, across recycling",
  "A clause added under an activation literal constrains a Solve exactly when that activation literal is assumed; after Deactivate the clause and everything learned from it never constrains anything again. "
  "Activation literals returned while others are live are distinct from every live activation literal and every problem variable, and a recycled literal behaves like a fresh one. "
  "All other clauses keep their effect, and verdicts, models and failed assumptions stay exact throughout.",
  ["inputs", "histories"], "all histories of Add, Activate, ActivationLit, ActivateWith, Assume, Solve, Deactivate (non-empty, non-tautological activated clauses), with enough churn to trigger clause compaction and relocation",
  "Unit tests exercise a couple of activate/deactivate rounds; stale learned clauses or dangling clause references only show after specific recycle-and-relearn histories.",
  ["gini.go", "internal/xo/active.go", "internal/xo/cdb.go", "internal/xo/cgc.go", "internal/xo/cdat.go", "inter/s.go"],
  [("occurrence lists incl. learned clauses", "internal/xo/active.go, internal/xo/cdb.go Learn"), ("unlink/compaction/relocation", "internal/xo/cgc.go, internal/xo/cdb.go Unlink, internal/xo/cdat.go Compact")],
  [("Active.Free/Occs/IsActive", "recyclable literals and the clauses that mention them", "internal/xo/active.go")], ["Solve/Value/Why after each step", "Activate result"])

p("C05", "A copied solver is an independent, equivalent solver",
  "Copy (and SCopy) taken at any point of a history yields a solver that answers every later operation correctly for the clauses, activations, open scopes and pending assumptions present at the copy. "
  "After the copy, no operation on either solver influences the answers, models, propagations or variables of the other, even when both run concurrently; "
  "the same holds for copies of copies and for a copy taken while a background solve is paused. "
  "A copy has every bit of the original but statistics and controls: the same calls on both give the same verdicts, models, cores and new literals, after the same search.",
  ["inputs", "histories", "schedules"], "all points of a history at which Copy may be called, followed by arbitrary diverging histories on original and copies, sequentially or concurrently",
  "Tests copy once and solve both on a small instance; shared slices only show up under divergence after the copy (growth, learning, compaction).",
  ["gini.go", "internal/xo/s.go", "internal/xo/cdb.go", "internal/xo/cdat.go", "internal/xo/vars.go", "internal/xo/trail.go", "internal/xo/guess.go", "internal/xo/derive.go", "internal/xo/cgc.go", "internal/xo/active.go", "internal/xo/luby.go"],
  [("deep copy of each component", "Copy/CopyWith/CopyTo methods in internal/xo")], None, ["answers of both solvers after the copy"])

p("C06", "Background solves: Stop, Try, Test, Pause, Wait never lose or falsify a result",
  "For a Solve started with GoSolve, any permitted sequence of Test, Pause, Unpause, Try, Stop and Wait terminates and yields at most one final result, which is 1, -1 or, only through Stop or an elapsed Try, 0; a nonzero result is the exact verdict and after 1 the model is real. "
  "A stopped or timed-out solve, synchronous Try included, leaves the solver as usable as before: every later Add, Assume, Test, Solve or GoSolve answers exactly and without an inherited deadline or stop. "
  "Wait and Solve never return 0 unless that very solve was stopped, and untested assumptions are consumed by a stopped solve as by any other.",
  ["histories", "schedules"], "all control sequences over background solves at arbitrary moments of easy and hard searches, repeated on one solver",
  "The test suite pauses or stops one fixed php instance; interrupted states and leftover deadlines only matter to what is solved next.",
  ["internal/xo/ctl.go", "internal/xo/s.go", "inter/solve.go", "gini.go"],
  [("channel handshake", "internal/xo/ctl.go Tick/Stop/Pause/Unpause/Try"), ("interrupt point in search", "internal/xo/s.go Solve"), ("deadline", "internal/xo/s.go Try")],
  None, ["results of inter.Solve calls and of later solves"])

p("C07", "Long searches stay exact through restarts, learned-clause removal and compaction",
  "However much effort a solver has already spent (restarts, learned clauses kept and dropped, clause memory compacted and relocated, scores rescaled, variables grown), its next answer is exact: satisfiable instances are never called UNSAT, unsatisfiable ones never SAT, every model satisfies all added clauses, and Why stays sufficient. "
  "Presenting an equivalent problem (clauses or literals reordered, variables renamed or negated, clauses duplicated, solved incrementally or at once) gives the same verdict.",
  ["inputs", "histories"], "instances hard enough to run through many restarts and garbage collections: planted and uniform random 3-SAT, pigeonhole, parity, colouring, partition; incremental sequences of assumptions over them",
  "Housekeeping is only triggered after thousands of conflicts; tests that run that long check very little about the outcome.",
  ["internal/xo/s.go", "internal/xo/cgc.go", "internal/xo/cdat.go", "internal/xo/cdb.go", "internal/xo/chd.go", "internal/xo/luby.go", "internal/xo/guess.go", "internal/xo/watch.go"],
  [("restarts", "internal/xo/s.go, luby.go"), ("learned clause removal", "internal/xo/cgc.go Compact"), ("clause memory compaction", "internal/xo/cdat.go Compact, cgc.go relocate")],
  None, ["Solve/Value/Why on hard instances"])

p("C08", "DIMACS CNF text is read as exactly the clauses it denotes",
  "Every well-formed DIMACS CNF text, with comments and blank lines anywhere before the header and between clauses, any layout of spaces, tabs and newlines, and any way the reader splits its bytes, delivers to the visitor exactly one Init with the header's numbers (without a header, outside strict mode, some non-negative defaults), then exactly the literals and clause ends of the text in order, then Eof once and success. "
  "Strict reading accepts exactly the texts whose maximum variable and clause count match the header. "
  "Text with anything which is neither a comment, the header nor an integer of a variable's range is an error, as is a reader that fails; whatever the bytes, nothing panics or hangs and no literal is delivered which is not in the text, and a solver made by NewDimacs answers for exactly these clauses.",
  ["inputs", "fault_sequences"], "all byte strings and all chunkings of the reader, with read errors at any offset",
  "Tests parse a handful of fixed strings through a bytes reader; chunk boundaries, comment positions and byte-level corruption are unbounded.",
  ["dimacs/cnf.go", "dimacs/cfilt.go", "dimacs/int.go", "dimacs/lit.go", "internal/xo/dimacs.go"],
  [("comment filter state machine", "dimacs/cfilt.go"), ("header and body", "dimacs/cnf.go"), ("integer reader", "dimacs/int.go")], None, ["visitor calls", "returned error", "gini.NewDimacs"])

p("C09", "Incremental DIMACS (icnf) streams are read as the events they denote",
  "Every well-formed icnf text (header line 'p inccnf', then clauses and 'a' assumptions ended by 0 in any whitespace layout, with comment lines anywhere and any reader chunking) delivers exactly its clause literals, clause ends, assumption literals and assumption ends in order, followed by Eof once. "
  "Malformed bytes or a failing reader produce an error, never a panic or hang.",
  ["inputs", "fault_sequences"], "all byte strings and reader chunkings",
  "Two fixed strings are tested.",
  ["dimacs/icnf.go", "dimacs/int.go", "dimacs/cfilt.go", "dimacs/vis.go"],
  [("icnf reader", "dimacs/icnf.go")], None, ["visitor calls", "error"])

p("C10", "Solver output is understood: solution files and written CNFs round-trip",
  "Reading solver output ('c', 's', 'v' lines, as this project's own command prints them, values split over 'v' lines in any way, in any reader chunking) reports exactly the verdict and the literals printed, and malformed output gives an error rather than a panic. "
  "Writing a solver's CNF gives well-formed text whose header counts its clauses and covers its variables, which reads back (strictly when its largest variable occurs) as a solver with the same set of models over the variables and activation literals in use, whatever was added, solved, deactivated or copied before; a failing writer gives an error.",
  ["inputs", "histories"], "all solution texts and chunkings; all histories of Add/Assume/Solve before Write",
  "ReadSolve has no tests at all; Write is never read back.",
  ["dimacs/solve.go", "dimacs/vis.go", "gini.go", "internal/xo/cdb.go", "internal/xo/cdat.go"],
  [("solution reader", "dimacs/solve.go"), ("Cdb.Write", "internal/xo/cdb.go"), ("CDat.Dimacs", "internal/xo/cdat.go")], None, ["SolveVis calls", "Write output"])

p("C11", "Logic circuits compute the Boolean functions they were asked to build",
  "Any literal built with And, Or, Xor, Choice, Implies, Ands, Ors over inputs and constants evaluates, through Eval and bitwise through Eval64, to that Boolean function of its inputs for every input assignment (constant T true, F false); building never changes the function of literals built earlier. "
  "Structurally hashed building returns the same literal for the same And of the same literals; inputs, Ins, Type, Len, At and Copy report the structure faithfully and a copy is independent.",
  ["inputs", "programs"], "all construction programs over any number of inputs, all 64-way input assignments, circuits large enough to grow storage and chain hash buckets",
  "Tests check a few gates and one random cnf; hash collisions, growth and simplification cases combine without bound.",
  ["logic/c.go"],
  [("simplification and strashing", "logic/c.go And/newNode/grow"), ("evaluation", "logic/c.go Eval/Eval64")], [("nodes/strash", "and-nodes and hash table", "logic/c.go")], ["Eval", "Eval64", "returned literals"])

p("C12", "CNF generated from a circuit is equivalent to the circuit",
  "For every circuit, the clauses produced by ToCnf, ToCnfFrom(roots) and successive CnfSince calls admit, for every assignment to the inputs, exactly one extension to the gates in question and that extension is the circuit's evaluation. "
  "So solving them under an assumed root finds a model exactly when the root can be true, each gate is encoded by CnfSince exactly once across calls, and gates outside the requested cones stay unconstrained.",
  ["inputs", "programs"], "all construction programs, sets of roots and interleavings of construction with CnfSince, on combinational and sequential circuits",
  "Tests encode one or two circuits and check satisfiability only.",
  ["logic/c.go", "logic/s.go"],
  [("Tseitin clauses", "logic/c.go ToCnf/ToCnfFrom/CnfSince/addAnd")], [("mark", "per-node marks for CnfSince", "logic/c.go")], ["clauses sent to inter.Adder", "solver verdict under roots"])

p("C13", "Cardinality literals mean exactly their bound",
  "For any list of literals and any bound, the literals CardSort.Leq(k), Geq(k), Less(k), Gr(k) are true exactly when the number of true literals in the list is at most, at least, less than, greater than k; N is the list's length. "
  "This holds for evaluation and for the generated CNF, in which unit propagation from any partial assignment of distinct literals yields the bounds it settles.",
  ["inputs"], "all lengths (0,1, powers of two and others), repeated and complementary literals, all bounds including out of range, all input assignments",
  "Tests sample one length and check a few bounds.",
  ["logic/card.go", "logic/c.go"],
  [("odd-even merge sorter", "logic/card.go")], None, ["Eval of the literals", "solver"])

p("C14", "Unrolling a sequential circuit reproduces step-by-step simulation",
  "For every sequential circuit (inputs, latches with initial value 0, 1 or unspecified, any next-state functions, literals of either sign) and every depth d, Roll.At(m,d) evaluates to the value m has after d clock steps of simulation from the initial state under the inputs given to each step. "
  "Unspecified latches start with an arbitrary value, At is stable across calls in any order, and the unrolled circuit's CNF agrees.",
  ["inputs", "programs"], "all sequential circuits, depths and query orders",
  "One counter and a couple of hand-made machines are tested.",
  ["logic/roll.go", "logic/s.go"],
  [("memoised unrolling", "logic/roll.go At"), ("latch bookkeeping", "logic/s.go Latch/SetNext/SetInit")], None, ["Roll.At literals under Eval / Solve"])

p("C15", "AIGER files round-trip, in both formats",
  "Writing any and-inverter system (inputs, latches with any initial value, and gates, outputs, bad states, constraints, justice, fairness, names) in ASCII or binary AIGER and reading it back gives a system with the same inputs, latches, outputs, properties and names, in order, that behaves identically on every input sequence. "
  "The written file is valid AIGER: header counts match the contents, definitions are in order, and an independent reading of the file by the format's rules yields the same behaviour, constants included.",
  ["inputs", "programs"], "all circuits with all element kinds, constants, dangling gates and both literal signs; both formats and conversions between them",
  "Tests round-trip a few small machines and compare little more than counts.",
  ["logic/aiger/aiger.go", "logic/s.go", "logic/c.go"],
  [("writers", "logic/aiger WriteAscii/WriteBinary"), ("readers", "logic/aiger ReadAscii/ReadBinary")], None, ["file bytes", "T after reading"])

p("C16", "AIGER readers answer any bytes with a circuit or an error",
  "For every byte string, truncation or corruption of a valid file, every reader chunking and a reader that fails at any point, ReadAscii and ReadBinary return either a usable circuit or an error; they never panic, loop forever or allocate out of proportion to the input (and the inputs a binary header declares). "
  "A file whose body ends early, that uses an undefined literal, or that defines gates in a loop or twice, and a reader that fails, give an error. "
  "Every well-formed file with each element kind, any legal ordering, symbol table and comment section is accepted with the meaning the format gives it.",
  ["inputs", "fault_sequences"], "all byte strings, mutations of valid files, chunkings and read faults; hand-laid-out valid files not produced by the writer",
  "No malformed-input tests exist.",
  ["logic/aiger/aiger.go"],
  [("header and body parsers", "logic/aiger readHeader, readAscii*, readBinary*, readSyms")], None, ["returned error or T"])

p("C17", "The assumption exchanger answers every request exactly once and correctly",
  "Every request accepted by Ex or TryEx gets exactly one response carrying that request, and a response of 1 or -1 is the exact verdict of the problem under the request's literals, with Ms a satisfying assignment of the requested variables or a sufficient set of failed literals respectively. "
  "A 0 response occurs only when the request's time limit ran out or the exchanger was stopped; TryEx never blocks; requests do not influence each other, in any interleaving and with any capacity. "
  "Each response tells the number of requests accepted and not yet answered; Stop may come at any time, from any goroutine and repeatedly: exchanges return, and all solves and goroutines end.",
  ["histories", "schedules"], "all request streams and client interleavings (several client goroutines, mixed limits, capacities 1..n, stop at any time)",
  "One example, skipped by the suite for its timing, is all there is.",
  ["ax/ax.go", "ax/req.go", "ax/resp.go"],
  [("serve loop and unit pool", "ax/ax.go"), ("limits", "ax/ax.go handleResult")], None, ["responses"])

p("C18", "A CRISP client behaves like a local solver",
  "For every history of Add, Assume, Solve/Try/GoSolve, Value, Model/ModelFor, Failed/Why, Reset and extension queries, a client connected to a server over any stream returns what a local solver may return: exact verdicts, models satisfying clauses and assumptions, sufficient failed-assumption sets, and errors only where the protocol defines them. "
  "Concurrent clients of one server do not influence each other, and a client that disconnects or sends garbage leaves the server able to serve others. Shutting a server down ends its service of new clients without error and frees its address for another server at once (shutting it down again does nothing to that one); a stale socket is replaced, but no other file at an address is ever touched.",
  ["histories", "schedules", "fault_sequences"], "all client histories, concurrent clients, abrupt disconnects at any byte",
  "Client and server tests run one fixed conversation each.",
  ["crisp/client.go", "crisp/server.go", "crisp/handler.go", "crisp/netsolve.go", "crisp/proto.go", "inter/net"],
  [("protocol state machine", "crisp/handler.go"), ("client", "crisp/client.go"), ("async solve", "crisp/netsolve.go")], None, ["client API results"])

p("C19", "CRISP wire integers and operations round-trip; bad bytes give an error",
  "Any sequence of 32-bit values and literals written to the CRISP stream codec and flushed is read back identically however the transport splits it, reading never consumes beyond the values asked for by the peer's protocol position, and over-long or truncated encodings give an error. "
  "Version numbers, address strings and extension id blocks are encoded and decoded faithfully.",
  ["inputs", "fault_sequences"], "all value sequences, transport chunkings and truncations; all version, address and extension numbers",
  "Tests write a few random values through one buffer.",
  ["crisp/vu32io.go", "crisp/version.go", "crisp/addr.go", "crisp/exts.go", "crisp/proto.go"],
  [("varuint codec", "crisp/vu32io.go"), ("version/address/extensions", "crisp/version.go, addr.go, exts.go")], None, ["decoded values"])

p("C20", "Literals, variables and inner/outer variable maps are consistent bijections",
  "Literal and variable conversions (Pos, Neg, Not, Var, Sign, IsPos, Dimacs, Dimacs2Lit, String) are mutually inverse over the full documented range. "
  "z.Vars maps outer to inner variables injectively and stably, never confuses inner-only variables with outer ones, and reuses freed inner variables only after Free. "
  "A solver wrapped by NewSv or NewSvVars answers exactly like the plain solver for its user's variables while inner variables stay disjoint from them.",
  ["inputs", "histories"], "all literals in range; all interleavings of ToInner/ToOuter/Inner/Free and of the wrapped solver's operations",
  "Only a few fixed values are tested; the wrapper is untested.",
  ["z/lit.go", "z/var.go", "z/dv.go", "sv.go"],
  [("literal encoding", "z/lit.go, z/var.go"), ("inner/outer maps", "z/dv.go"), ("wrapper", "sv.go")], None, ["returned literals", "wrapped Solve/Value/Why"])

p("C21", "Generators produce the problems they advertise",
  "Each generator adds exactly the problem it documents: Rand3Cnf n,m gives m clauses of three literals over distinct variables up to n (n at least 3); Php, Partition, BinCycle, RandColor, PyTriples and Py2Triples give formulas satisfiable exactly when the described combinatorial object exists, and a model decodes to such an object. "
  "Random generators stay in the documented ranges for every size and seed, and RandCuber yields cubes over the given range. The random solver gives only the result asked for, in every history of synchronous and background solves.",
  ["inputs"], "all sizes within reach of exact combinatorial oracles, all seeds",
  "Tests merely run two generators.",
  ["gen/gen.go", "gen/color.go", "gen/pt.go", "gen/cubes.go", "gen/rands.go"],
  [("generators", "gen/*.go")], None, ["clauses sent to inter.Adder"])

p("C22", "The gini command reports exact verdicts, models, cores and exit codes",
  "For any CNF or icnf inputs, plain, gzip or bzip2 compressed, given by file or standard input as documented, and solved locally or by a CRISP server, the command prints the exact verdict line of each question in order, with -model a complete satisfying assignment of a satisfiable CNF, with -failed a sufficient subset of the -assume literals of an unsatisfiable one, and in competition mode exits 10, 20 or 0; its output reads back by dimacs.ReadSolve, "
  "and UNKNOWN is only given when the time ran out or the command was interrupted. "
  "Unreadable or malformed input yields an error message and never a verdict (an icnf input is answered up to the error), and neither that nor any combination of flags crashes the command. crispd serves at the address it was given until it is interrupted, which ends it also while it solves; it then can be started again there, refuses bad arguments and touches no other file at its address.",
  ["inputs", "configurations", "histories"], "all inputs and documented flag combinations",
  "The commands have no tests.",
  ["cmd/gini", "cmd/crispd", "dimacs"],
  [("main and run modes", "cmd/gini/*.go")], None, ["stdout", "exit status"])

p("C23", "Benchmark suites and runs persist and reload faithfully",
  "A suite created by copying or linking files, with absolute or relative paths and whatever the names of the files, holds exactly these instances, with their contents, origins and hashes, and reopens as it was; creating one over an existing suite or of files which are not there is an error and changes no suite. "
  "A run stored in it reopens with the name, command, description, commit, timeouts, environment and start it was made with and with exactly the instance results recorded so far (result by the exit code 10/20, times, start, error), however often it is interrupted, killed or reopened; an instance is never run over its recorded result, and a timeout ends the run of an instance, also when the command has children that go on; "
  "the outputs recorded are those of the command; removing a run removes that run only, and names which are no names of runs are errors and touch nothing. "
  "Selections of files give as many distinct matching files as asked for or are there; selections and comparisons of runs (totals, times, rates, scatter, cactus, listings, the bench command), complete or not, follow the stored results and leave the suite as it was.",
  ["inputs", "histories", "crash_points"], "all instance sets and names, run results, kill times and create/open/remove histories",
  "The bench package has no tests, and the results depend on processes, kill times and file names.",
  ["bench/suite.go", "bench/run.go", "bench/instrun.go", "bench/cmp.go", "bench/sel.go", "cmd/bench/bench.go"],
  [("suite/run directories", "bench/suite.go, bench/run.go"), ("instance run files", "bench/instrun.go")], None, ["reloaded Suite/Run values", "output of bench cmp"])

for x in P: print(json.dumps(x))
