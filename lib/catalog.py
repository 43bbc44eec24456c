"""The properties and the checks that decide them; bin/mkmanifest writes properties.jsonl and MANIFEST.json from it."""
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, level=level))


S = "src/candy/"
prop("P01", "Single-shot answers are correct in every configuration",
     "For every CNF formula and every combination of solver options and components, a SATISFIABLE answer comes with a total, consistent assignment that satisfies every clause, and an UNSATISFIABLE answer is given only if no assignment satisfies the formula. "
     "A run that is not interrupted always ends with one of these two answers and never crashes.",
     ["inputs", "configurations"], "all formulas x all option settings (branching, propagation, pre-/inprocessing, reduction, restarts)",
     "The tests solve a fixed set of instances in a few configurations; wrong answers hide in rare combinations of restart, reduction, inprocessing and elimination.",
     [S + "core/Solver.h", S + "systems", S + "simplification", S + "core/Trail.h", S + "core/clauses"],
     [("search loop", S + "core/Solver.h"), ("model construction", S + "core/CandySolverResult.h"), ("variable elimination", S + "simplification/VariableElimination.h"), ("propagation", S + "systems/propagate"), ("branching heuristics", S + "systems/branching")],
     "TLA+ interface specification with a DPLL oracle; TLC validates recorded solver runs",
     "Ipasir.tla decides satisfiability itself for small formulas; larger ones are decided by their model or by a witness found in another configuration.")
prop("P02", "Incremental answers reflect exactly the clauses and current assumptions",
     "After any sequence of adding clauses, assuming literals and solving, a solve answers SAT exactly if some assignment satisfies all clauses added so far together with the literals assumed since the previous solve. "
     "On SAT the reported values form a consistent assignment of all mentioned variables that satisfies all of these. Assumptions last for one solve only. Solvers that are used side by side do not influence each other.",
     ["histories", "configurations"], "all histories of add/assume/solve calls, including variables that appear late or only as assumptions",
     "Unit tests replay a few short histories; wrong answers need particular interleavings of elimination, restored clauses, new variables and assumptions.",
     [S + "ipasir/ipasircandy.cc", S + "core/Solver.h", S + "simplification/VariableElimination.h", S + "core/Trail.h"],
     [("ipasir adapter", S + "ipasir/ipasircandy.cc"), ("init/solve re-entry", S + "core/Solver.h"), ("undo of elimination", S + "simplification/VariableElimination.h"), ("assumption handling", S + "core/Trail.h")],
     "TLA+ state machine of the incremental interface, TLC-generated behaviours replayed and recorded histories validated by TLC",
     "MCIpasir is exhausted for 2 variables; recorded histories have up to 20 variables with exact oracle and up to 150 with witnesses.")
prop("P03", "Failed assumptions form an unsatisfiable core",
     "Whenever solving under assumptions answers UNSAT, the literals reported as failed are assumptions of that very call and are jointly inconsistent with the clauses added so far.",
     ["histories", "configurations"], "all histories with assumptions",
     "Whether the reported subset is really contradictory depends on the implication graph at the moment of failure, which tests with one or two assumptions do not vary.",
     [S + "systems/learning/ConflictAnalysis.h", S + "core/Solver.h", S + "ipasir/ipasircandy.cc"],
     [("final conflict analysis", S + "systems/learning/ConflictAnalysis.h"), ("failed map", S + "ipasir/ipasircandy.cc")],
     "TLA+ interface specification; TLC checks every reported core with its own satisfiability procedure",
     "Cores are checked exactly (up to about 20 variables).")
prop("P04", "Interruption yields unknown, promptly, and leaves the solver correct",
     "A solve answers 'unknown' only if the termination callback asked it to stop, and a solve whose callback asks to stop returns even on formulas that it could not decide in time. "
     "After an interrupted solve all later answers, models and cores are still correct. A callback receives the state it was registered with, and none is called any more after it was replaced by NULL.",
     ["histories", "schedules"], "all points at which the callback may ask to stop, followed by any further calls",
     "Tests interrupt rarely and do not look at what an interrupted solver answers afterwards.",
     [S + "core/Solver.h", S + "ipasir/ipasircandy.cc"],
     [("polling", S + "core/Solver.h"), ("set_terminate", S + "ipasir/ipasircandy.cc")],
     "TLA+ interface specification; TLC validates recorded histories with interruptions after every number of polls",
     "Interruption points are the polls of the callback (0..20).")
prop("P05", "Exported learnt clauses are implied and respect the length bound",
     "Every clause handed to the learn callback is a logical consequence of the clauses added so far, independent of the current assumptions, mentions only known variables and is not longer than the registered maximum. "
     "With a sufficient maximum every learnt clause is handed out.",
     ["histories", "configurations"], "all histories with a learn callback",
     "No test checks exported clauses semantically; an unsound or truncated export is invisible to the exporting solver.",
     [S + "core/Solver.h", S + "systems/learning/ConflictAnalysis.h"],
     [("export", S + "core/Solver.h"), ("clause learning", S + "systems/learning/ConflictAnalysis.h")],
     "TLA+ interface specification; TLC checks implication of every exported clause",
     "Implication is decided exactly for formulas up to about 20 variables.")
prop("P06", "Every UNSAT answer is backed by a valid certificate",
     "When a certificate file is requested and a run answers UNSAT, the file is a syntactically correct DRAT proof in which every added clause has the RUP or RAT property with respect to the clauses present at that point, and it derives the empty clause.",
     ["inputs", "configurations"], "all unsatisfiable formulas x configurations (preprocessing, elimination, inprocessing, reduction, branching)",
     "A missing or too early deleted line only shows on particular formulas; the tests do not verify proofs.",
     [S + "core/clauses/Certificate.h", S + "core/clauses/ClauseDatabase.h", S + "simplification"],
     [("certificate", S + "core/clauses/Certificate.h"), ("logging of additions and deletions", S + "core/clauses/ClauseDatabase.h"), ("strengthening", S + "simplification/SubsumptionClauseDatabase.h")],
     "TLA+ specification of DRAT; TLC replays every certificate line by line",
     "MCDrat shows on all proofs over 2 variables that accepted refutations are sound; certificates of the real solver are validated line by line.")
prop("P08", "Reading DIMACS yields exactly the formula of the text",
     "For every well-formed plain or gzipped DIMACS text, whatever its layout, comments or size, the clauses read are those of the text in order, with repeated literals merged and tautologies dropped, and the number of variables is the largest one mentioned. "
     "Malformed or truncated text is reported as an error, and printing a formula and reading it back gives the same formula.",
     ["inputs"], "all texts: layouts, line lengths, sizes relative to the read buffer, malformed variants",
     "Layout and the position of buffer boundaries are arbitrary; tests read a handful of small files.",
     [S + "core/CNFProblem.cc", S + "utils/StreamBuffer.cc"],
     [("tokenizer and block refill", S + "utils/StreamBuffer.cc"), ("clause normalization", S + "core/CNFProblem.cc")],
     "TLA+ model of the block-wise reader (exhaustive) and TLA+ grammar; TLC validates what the real reader returned",
     "MCDimacs is exhaustive for all texts up to length 6 over 6 characters with block size 4; real files go up to several read blocks.")
prop("P09", "Unit propagation is sound and complete",
     "Whenever the search propagates, every newly assigned literal is forced by a clause of the current database whose other literals are all false, its recorded reason is such a clause, and a reported conflict is a clause of the database with all literals false. "
     "If no conflict is reported, no clause of the database is left unit or falsified. Between propagations the trail only loses whole decision levels and gains decisions or facts.",
     ["inputs", "configurations", "histories"], "all clause databases, trails and histories of attaching, detaching, reducing and backtracking, for both propagation back ends",
     "A lost watch or a stale blocker only matters on particular orders of assignment and backtracking; the answers usually stay right, only slower, or go wrong much later.",
     [S + "systems/propagate", S + "core/Trail.h", S + "core/Solver.h"],
     [("two-watched-literal propagation", S + "systems/propagate/Propagate.h"), ("statically allocated watchers", S + "systems/propagate/StaticPropagate.h"), ("trail", S + "core/Trail.h")],
     "TLA+ specification of CDCL (exhaustive for 2-3 variables); TLC validates recorded trails, databases and propagation outcomes of the real solver",
     "Completeness is demanded whenever all clauses are attached and the whole trail has been visited.")
prop("P10", "Conflict analysis learns implied, asserting clauses and correct cores",
     "Every clause learnt from a conflict is implied by the formula, is falsified by the trail at the conflict, contains exactly one literal of the conflict level, and its backtrack level is the highest level among the others, so that after backtracking it asserts its first literal; the recorded LBD is the number of its levels. "
     "The final conflict clause over assumptions contains only negated assumptions, includes the failed one, and is implied.",
     ["inputs", "configurations", "histories"], "all implication graphs that the search can reach",
     "Minimization and backjumping depend on the exact shape of the implication graph; a clause that is not implied rarely changes an answer in a test.",
     [S + "systems/learning/ConflictAnalysis.h", S + "core/Solver.h", S + "core/Trail.h"],
     [("first UIP and minimization", S + "systems/learning/ConflictAnalysis.h"), ("backjump", S + "core/Solver.h"), ("levels and reasons", S + "core/Trail.h")],
     "TLA+ specification of CDCL (exhaustive for 2-3 variables); TLC validates recorded conflicts, learnt clauses and backjumps of the real solver",
     "Implication is decided by RUP or by the DPLL procedure of Cnf.tla.")
prop("P12", "Changes of the clause database preserve the meaning of the formula",
     "Whatever pre- and inprocessing, reduction and simplification do to the stored clauses, every clause they add is implied by the formula, an unsatisfiable formula stays unsatisfiable, and every model of the stored clauses can be extended to a model of the formula over the eliminated variables.",
     ["inputs", "configurations", "histories"], "all formulas and all sequences of subsumption, strengthening, elimination, reduction and simplification",
     "Wrongly removed clauses only show if a model happens to violate them.",
     [S + "simplification", S + "core/clauses/ClauseDatabase.h", S + "systems/ReduceDB.h", S + "core/Solver.h"],
     [("subsumption and strengthening", S + "simplification/Subsumption.h"), ("variable elimination", S + "simplification/VariableElimination.h"), ("reduction", S + "systems/ReduceDB.h"), ("database", S + "core/clauses/ClauseDatabase.h")],
     "TLA+ specification; TLC compares the recorded database with the formula after every change",
     "All models of the stored clauses are enumerated up to 8 variables; beyond that, implication and satisfiability are compared.")
prop("P07", "The built-in proof checker accepts exactly the valid refutations",
     "For every formula and every proof file over its variables, the checker (used by -test-proof) accepts if the file is a DRAT refutation - each lemma RUP or RAT on one of its literals with respect to the clauses present at that point, unit deletions ignored, empty clause derived - and rejects otherwise. "
     "In particular it never accepts a proof for a satisfiable formula, and it accepts every certificate of the solver.",
     ["inputs"], "all formulas and proofs: lemma orders, deletions, duplicate clauses, RAT pivots, mutated certificates",
     "Tests only feed certificates that the solver itself wrote and that are valid; an unsound checker is indistinguishable from a sound one on valid proofs.",
     [S + "core/DRATChecker.cc", S + "core/DRATChecker.h"],
     [("lemma check", S + "core/DRATChecker.cc"), ("deletion", S + "core/DRATChecker.cc")],
     "TLA+ specification of DRAT (soundness exhaustive for 2 variables); TLC decides for recorded formula/proof pairs what the verdict has to be",
     "Random and mutated proofs over 2-5 variables with RAT lemmas and deletions, and certificates of the solver with mutations.")
prop("P11", "The clause database stores exactly the live clauses",
     "After any sequence of creating, removing and strengthening clauses and reorganizing the memory, the database iterates over exactly the clauses that were created and not removed, with their literals and weights unchanged, whatever their lengths. "
     "The binary watch lists and the list of unit clauses describe exactly the stored clauses, the empty-clause flag is set exactly if an empty clause was stored, and the certificate has one line per addition and removal in order.",
     ["histories", "inputs"], "all histories of create/remove/strengthen/reorganize, all clause lengths, all page layouts",
     "A clause lost or corrupted while memory is compacted only shows when the page boundary falls on it; tests allocate a few clauses.",
     [S + "core/clauses/ClauseDatabase.h", S + "core/clauses/ClauseAllocator.h", S + "core/clauses/ClauseAllocatorMemory.h", S + "core/clauses/Clause.h", S + "core/clauses/Certificate.h"],
     [("paged allocator and compaction", S + "core/clauses/ClauseAllocatorMemory.h"), ("database", S + "core/clauses/ClauseDatabase.h"), ("certificate", S + "core/clauses/Certificate.h")],
     "TLA+ state machine of the store (exhaustive for 2 variables); TLC validates recorded histories of the real database",
     "Clause lengths up to 70000; single-threaded (the shared allocator is switched off in the program).")
prop("P13", "Recognized gates describe the formula faithfully",
     "For every formula, gate recognition partitions the clauses: each clause is a root clause, belongs to exactly one gate, or remains unrecognized; nothing is lost or invented. Each gate's clauses contain its output with the right polarity, the structure is acyclic from the roots, a gate marked non-monotone is a total function of its inputs, and a gate marked monotone is used in one polarity only, so that its backward clauses can be dropped without changing satisfiability. "
     "The forward and backward clauses of a gate are blocked on its output. Tree-like Tseitin encodings with unique roots are recognized completely, and normalizing the roots keeps the problem equisatisfiable.",
     ["inputs"], "all formulas: random CNF, Tseitin and Plaisted-Greenbaum encodings of circuits with sharing, damaged encodings",
     "Recognition depends on clause order, polarity and sharing; tests look at a handful of fixed encodings.",
     [S + "gates/GateAnalyzer.h", S + "gates/GateAnalyzer.cc", S + "gates/GateProblem.h", S + "gates/BlockList.h"],
     [("recognition", S + "gates/GateAnalyzer.cc"), ("gate structure", S + "gates/GateProblem.h")],
     "TLA+ specification of gate recognition (exhaustive for small formulas); TLC validates the structures the real analyzer returned",
     "Functionality and blockedness are decided over the gate's own clauses by enumeration; formulas up to about 12 variables.")
prop("P14", "Minimized models are sufficient and irreducible partial models",
     "A minimized model is a subset of the given model that still satisfies every clause that the minimization has to cover, and no literal of it can be left out; with -minimize-minimal no smaller subset covers them either. "
     "With gate-structure pruning, every assignment of the non-gate variables that agrees with the minimized model can be completed to a model of the whole formula.",
     ["inputs", "configurations"], "all satisfiable formulas, models and minimizer options",
     "A cover that is one literal too small or too large only shows on particular clause sets; tests run it on one file without checking the result.",
     [S + "minimizer/Minimizer.cc", S + "minimizer/Minimizer.h", S + "gates/GateProblem.h"],
     [("hitting set", S + "minimizer/Minimizer.cc"), ("counter", S + "minimizer/Minimizer.h"), ("pruned problem", S + "gates/GateProblem.h")],
     "TLA+ specification of covers and pruned problems; TLC validates minimized models of the real minimizer",
     "All subsets of the model are enumerated (up to 9 variables) for minimality.")
prop("P15", "Random simulation reports exactly the equivalences and constants it observed",
     "Every simulated valuation satisfies the clauses of the simulated gates, each gate being evaluated once and after its inputs. Whatever vectors are observed over however many rounds, the variables reported equivalent (or opposite) are exactly those whose vectors agreed (or were complementary) in every round, and the backbone conjectures are exactly those that never changed; filters drop exactly the conjectures they name.",
     ["inputs", "configurations"], "all circuits, simulation vectors, numbers of rounds, compression schedules and filters",
     "A hash that cancels, a gate evaluated too early or a lost group only shows for particular signatures; the tests use a handful of circuits.",
     [S + "randomsimulation", S + "frontend/RandomSimulationFrontend.h"],
     [("gate order", S + "randomsimulation/ClauseOrder.cc"), ("propagation of vectors", S + "randomsimulation/Propagation.cc"), ("partition by hashes", S + "randomsimulation/Partition.cc"), ("rounds and abortion", S + "randomsimulation/RandomSimulator.cc")],
     "TLA+ specification of partition refinement and conjectures; TLC validates recorded gate orders, simulated valuations, partitions and conjectures",
     "Circuits with up to 5 inputs are compared with all input patterns; partitions are driven with chosen vectors for up to 17 rounds.")
prop("P16", "Abstraction refinement keeps answers exact and approximations tight",
     "At every refinement step the clauses switched on by the assumptions say exactly what is left of the conjectures after removing the chosen variables, every approximation clause can be switched off, a clause once switched off stays off, and after the last removal none is active. "
     "A solver that uses abstraction refinement (-rsar-enable), with any conjectures - right or wrong - answers SAT and UNSAT exactly like a plain solver, with a model of the formula.",
     ["inputs", "histories", "configurations"], "all formulas, conjectures, heuristics and refinement sequences",
     "A conjecture that is not withdrawn, or an implication lost when a variable leaves a class, makes a wrong answer only for particular removal orders.",
     [S + "rsar", S + "frontend/SolverFactory.h"],
     [("implication cycles", S + "rsar/ApproximationState.cc"), ("refinement strategy", S + "rsar/Refinement.cc"), ("refinement loop", S + "rsar/ARSolver.cc"), ("factory", S + "frontend/SolverFactory.h")],
     "TLA+ specification of guarded approximations, exhaustively checked for all removal orders by TLC; TLC validates recorded refinement steps and answers",
     "All valuations of the conjectured variables (up to 7) are enumerated at each step.")

prop("P17", "The command line program keeps its contract",
     "For every input text and every combination of options, the program rejects unreadable formulas and invalid options with exit code 1 and without any answer; otherwise it prints exactly one result line, which is right, and exits with 10 (SAT), 20 (UNSAT) or 0 (verified with -test-model/-test-proof, or no answer). "
     "'s INDETERMINATE' appears only if a limit was set or the run was interrupted. With -model every SAT answer has exactly one value line naming each variable once and satisfying the formula (or one minimized model), no other answer has one; verification lines appear exactly when requested and never deny the result. Plain, compressed and standard input are treated alike, wherever the file name stands.",
     ["inputs", "configurations"], "all texts (also damaged ones), options and ways of input; interrupts and limits",
     "The test-suite never runs the program as a whole, and its output and exit code combine parser, option handling, solver, minimizer and checkers.",
     [S + "Main.cc", S + "utils/Options.cc", S + "frontend/CLIOptions.h", S + "core/CNFProblem.cc", S + "frontend/SolverFactory.h"],
     [("main program", S + "Main.cc"), ("option parsing", S + "utils/Options.cc"), ("solver factory", S + "frontend/SolverFactory.h")],
     "TLA+ specification of the program's contract on top of the DIMACS and SAT specifications; TLC validates recorded runs of the binary",
     "Formulas up to about 9 variables are parsed and decided by the specification itself; interrupted runs use larger ones.")
prop("P18", "A portfolio of threads gives one correct, complete answer",
     "With -threads=n, whatever the interleaving of the solver threads, the program ends, prints exactly one result line, which is right for the formula, together with the complete model, core or certificate of the one solver that found it (-test-model and -test-proof confirm it), and exits with the matching code; it never crashes or reports the data of a solver that did not answer. "
     "If a limit or an interrupt stops all threads, the answer is indeterminate and nothing else is claimed.",
     ["schedules", "inputs"], "all schedules of 2 to 8 solver threads, all points of an interrupt",
     "Races between the winning thread, the polling main thread and the threads that are still running depend on the schedule; no test starts more than one thread.",
     [S + "Main.cc", S + "frontend/CandyBuilder.cc", S + "core/clauses/Certificate.h"],
     [("thread portfolio", S + "Main.cc"), ("certificates per thread", S + "Main.cc")],
     "TLA+ model of the portfolio protocol checked by TLC for up to 4 (thorough: 5) threads in all interleavings; TLC validates recorded runs of the binary",
     "The protocol model is exhaustive; the binary runs under the schedules of the operating system, with many short formulas that make the threads finish at about the same time.")
prop("P19", "Options take exactly the values that were given and allowed",
     "For every command line, each option ends up with the last valid value given for it or with its default, boolean options follow -name and -no-name, integer and real options accept exactly the numbers within their range, strings are taken unchanged whatever their length, and nothing that is not an option of the program is taken for one. "
     "An invalid value or unknown option is rejected with exit code 1 (in strict mode); positional arguments keep their order and count.",
     ["inputs"], "all command lines over all options of the program",
     "Range checks and the handling of malformed numbers, long strings and positions differ for each kind of option; tests never parse a command line.",
     [S + "utils/Options.h", S + "utils/Options.cc", S + "frontend/CLIOptions.cc", S + "frontend/CLIOptions.h"],
     [("parser", S + "utils/Options.cc"), ("kinds of options", S + "utils/Options.h"), ("table of options", S + "frontend/CLIOptions.h")],
     "TLA+ state machine of option parsing (exhaustive on short strings); TLC validates the recorded values of all options after each command line",
     "Every option of the program is driven with boundary values; numbers with up to nine digits and a decimal point.")
prop("P20", "cnf2aig prints a circuit equivalent to the formula",
     "For every DIMACS formula, cnf2aig prints a well-formed ASCII AIGER circuit (and nothing else on standard output): counts match the header, every variable is either an input or defined once by an and-gate over defined variables without cycles, and there is one output. "
     "Input v of the circuit stands for variable v of the formula, and the output is true exactly for those input valuations that can be extended to a model of the formula.",
     ["inputs"], "all formulas: random CNF, circuits with shared and negated gates, damaged encodings, trivial formulas",
     "The translation composes recognition, normalization of roots, negation of outputs and splitting of conjunctions; no test looks at its output.",
     [S + "cnf2aig.cc", S + "gates/AIGProblem.h", S + "gates/GateProblem.h", S + "gates/GateAnalyzer.cc"],
     [("translation and printing", S + "gates/AIGProblem.h"), ("program", S + "cnf2aig.cc"), ("normalized root", S + "gates/GateProblem.h")],
     "TLA+ specification of AIGER circuits and of what they represent; TLC shows it for the translation of every recognized structure of small formulas and validates the circuits that the program printed",
     "The truth table of every circuit over up to 7 inputs (thorough: 9) is compared with satisfiability under each valuation.")
prop("P21", "Branching picks a free variable of maximal activity in its saved phase",
     "Whenever the solver decides, the chosen variable is unassigned and a decision variable, no unassigned decision variable has a higher activity, and a decision is missing only if every decision variable is assigned. The literal has the phase that was saved when the variable was last unassigned (initially the configured one). "
     "With simulation advice (RSIL) a decision may instead oppose a conjecture whose other side is assigned, within the configured budget or probability and never otherwise. A conflict raises exactly the activities of the variables involved, all by the same amount, which grows by the decay factor from one conflict to the next; with the extra bump also those of the variables of the conflict level that were propagated by learnt clauses of a lower distance. Learning-rate branching orders by the averaged share of the conflicts, since its assignment, that a variable took part in.",
     ["histories", "configurations"], "all formulas, search histories, branching components and their options",
     "A heap that loses a variable or a stale order shows as a missing or worse decision only after particular sequences of backtracking and bumps, and answers stay right.",
     [S + "systems/branching", S + "mtl/Heap.h", S + "core/Solver.h"],
     [("VSIDS", S + "systems/branching/VSIDS.h"), ("VSIDS over clauses", S + "systems/branching/VSIDSC.h"), ("learning rate branching", S + "systems/branching/LRB.h"), ("implicit learning", S + "systems/branching/rsil")],
     "TLA+ specification of decision making, exhaustively checked by TLC on small instances; TLC validates every decision of recorded searches",
     "Recorded searches of formulas up to 24 variables, with all activities observed before each decision.")
prop("P22", "Restarts, reductions and component selection follow their policy",
     "A restart is triggered exactly when the running averages of literal-block distances demand it (and is postponed when the trail grew unusually large), with exact window contents after any history of conflicts. Database reductions become due after the configured, growing numbers of conflicts and remove the worse half of the candidates only, never clauses at or below the protected distance. "
     "The priority queue always returns a minimal element and keeps exactly the inserted ones; the bounded queue keeps exactly the last entries and their average. The factory builds the branching and propagation components that the options name.",
     ["histories", "configurations"], "all histories of conflicts, reductions, queue operations; all options of the factory",
     "The policies do not influence answers, so no test notices a window of the wrong length, a reduction that removes good clauses, or a component that was swapped for another.",
     [S + "systems/Restart.h", S + "systems/ReduceDB.h", S + "mtl/Heap.h", S + "mtl/BoundedQueue.h", S + "frontend/CandyBuilder.h"],
     [("restart policy", S + "systems/Restart.h"), ("reduction policy", S + "systems/ReduceDB.h"), ("heap", S + "mtl/Heap.h"), ("bounded queue", S + "mtl/BoundedQueue.h"), ("builder", S + "frontend/CandyBuilder.h")],
     "TLA+ specification of the policies and containers, exhaustively checked by TLC; TLC validates recorded histories of the real classes",
     "Averages are compared with exact rational arithmetic; values where rounding of doubles could decide either way may go both ways.")
prop("P23", "Stored problems and their fingerprints depend on the formula only",
     "Whatever clauses are read in whatever portions, the problem stores exactly them without repeated literals and tautologies, and knows its number of variables; renaming to gap-less names is injective, keeps the clauses and their order; printing gives the DIMACS text of what is stored; a (partial) valuation is confirmed exactly if it satisfies every clause. "
     "The gbd hash is the MD5 digest of the DIMACS text of the clauses on one line, and the degree hash that of the sorted literal degrees after removal of the clauses satisfied by unit clauses, so that it does not depend on names, signs and order of clauses; MD5 digests follow RFC 1321 however the message is cut into pieces.",
     ["inputs", "histories"], "all formulas and histories of reading, renaming, checking, printing and hashing; all byte sequences",
     "Fingerprints are used to recognise formulas; a collision or a dependence on the order of clauses shows only for particular formulas, and nothing in the tests calls them.",
     [S + "core/CNFProblem.cc", S + "core/CNFProblem.h", S + "gbd/hash.cpp", S + "gbd/md5"],
     [("problem store", S + "core/CNFProblem.cc"), ("hashes", S + "gbd/hash.cpp"), ("message digest", S + "gbd/md5/md5.cpp"), ("result of a valuation", S + "core/CandySolverResult.h")],
     "TLA+ specification of the store, of MD5 and of both fingerprints, invariance checked by TLC; TLC validates recorded histories",
     "Invariance and distinctness are exhaustive for up to 3 clauses of up to 2 literals over 2 variables; digests are computed by the specification itself.")
prop("P24", "What is derived from a recognized circuit describes the circuit",
     "A traversal enters exactly the gates below the roots (without those that the visitor prunes, and what is only below them), each once, leaves every gate after the gates it depends on, and reports every input of the circuit among them once. "
     "The input-dependency heuristic gives a gate's variable up at the first refinement step whose limit is exceeded by the number of circuit inputs on which the gate depends (in the last step if none is), in no other step, and takes exactly these variables out of equivalences and backbones. "
     "A problem is said to look like a miter exactly if the part in which gates are used in one polarity ends in XORs of disjoint pairs (or their AND form), with something behind it. "
     "Branching advice made from conjectures states for each variable exactly what the small enough conjectures say about it, and filtering removes exactly the variables given up, with the budgets staying with their literals.",
     ["inputs", "histories"], "all circuits, roots, pruning decisions, limits, conjectures and filters",
     "A wrong order, a gate that is skipped because it is reached twice, or a count that misses shared inputs shows only on circuits with particular sharing, and none of it changes an answer.",
     [S + "gates/GateDFSTraversal.h", S + "gates/MiterDetector.cc", S + "rsar/Heuristics.cc", S + "systems/branching/rsil"],
     [("traversal", S + "gates/GateDFSTraversal.h"), ("miter detection", S + "gates/MiterDetector.cc"), ("input dependencies", S + "rsar/Heuristics.cc"), ("advice", S + "systems/branching/rsil/ImplicitLearningAdvice.h"), ("filter", S + "systems/branching/rsil/RSARHeuristicsFilter.h")],
     "TLA+ specification of traversal and counting, exhaustively checked by TLC for all circuits with 3 gates in every order; TLC validates what was derived from recorded circuits and conjectures",
     "Circuits of up to 20 gates; the dependencies are recomputed by the specification from the gates that the analysis reported.")
