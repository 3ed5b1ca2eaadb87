#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the long lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

R = "src/algorithms/Refinement.hpp"; T = "src/algorithms/ThreePhase.hpp"
G = "src/greedy/Greedy.hpp"; RD = "src/greedy/redundancy.hpp"; SC = "src/greedy/scores.hpp"
SG = "src/subgradient/Subgradient.hpp"; SU = "src/subgradient/utils.hpp"; PR = "src/subgradient/Pricer.hpp"
CF = "src/fixing/ColFixing.hpp"; FD = "src/fixing/FixingData.hpp"; FX = "src/fixing/fix_columns.hpp"
PA = "src/core/parsing.hpp"; CL = "src/core/CliArgs.hpp"; MA = "src/main.cpp"; IN = "src/core/Instance.hpp"
CU = "src/core/utils.hpp"; CO = "src/core/cft.hpp"; PU = "src/utils/parse_utils.hpp"; SV = "src/utils/StringView.hpp"
CC = "src/utils/CoverCounters.hpp"; SA = "src/utils/SortedArray.hpp"; SO = "src/utils/sort.hpp"; UT = "src/utils/utility.hpp"
RN = "src/utils/random.hpp"; XO = "src/utils/xoshiro_prng.hpp"; PY = "src/pycft/set_cover_solver.py"; BI = "src/pycft/_bindings.cpp"
SM = "src/utils/SparseBinMat.hpp"; CH = "src/utils/Chrono.hpp"; SP = "src/utils/Span.hpp"

prop("C01", "Every returned solution is a cover made of valid columns",
 "For every instance with at least one row and in which each row lies in at least one column, the solution returned by the full algorithm, by the 3-phase procedure, by the accft program or by the Python solver selects only existing columns, none twice, and covers every row. This holds for every cost structure (unit, fractional, zero, very large), parameter setting in range, seed, feasible warm start, and time at which the time limit expires.",
 ["inputs", "configurations", "schedules"], "all feasible instances, parameter settings, seeds, feasible warm starts and expiry points of the time limit",
 "Tests solve a dozen generated and benchmark instances with default parameters; coverage is asserted only in debug builds on those runs.",
 [R, T, G, FD, FX, MA, PY],
 [("solution lifted through the fixing maps", R + ": from_fixed_to_unfixed_sol"), ("core -> unfixed mapping", T + ": _from_core_to_unfixed_sol"), ("greedy completion and redundancy removal", G)],
 [("best_sol", "incumbent in original indexes", R + ": run"), ("fixing", "fixed columns and index maps", FD)],
 ["return value of run / ThreePhase", "solution file", "SetCoverSolver.get_solution()"])
prop("C02", "The reported cost is the cost of the selected columns",
 "The cost reported with a solution (by the full algorithm, the 3-phase procedure, the solution file, or the Python solver) equals, up to floating point rounding, the sum of the instance costs of the selected columns. This holds for integral, fractional, zero and large costs and whatever the tolerance parameter is.",
 ["inputs", "configurations", "schedules"], "all feasible instances, cost structures, parameters, warm starts and expiry points",
 "Debug asserts compare the two only on the sampled integral-cost runs; the cost is carried incrementally through fixings, cutoffs and discarded greedy results that those runs rarely reach.",
 [R, T, G, RD, FD], [("incremental cost bookkeeping (fixed cost + core cost)", T + ": _from_core_to_unfixed_sol"), ("redundancy removal cost", RD)],
 [("fixed_cost", "cost of the fixed columns", FD)], ["return value of run / ThreePhase", "solution file", "SetCoverSolver.get_cost()"])
prop("C03", "The reported lower bound never exceeds the optimum",
 "The lower bound returned with a solution never exceeds the optimal cost of the instance that was solved (nor, therefore, the cost of the returned solution), up to floating point rounding. The dual multipliers returned with it are one per row, finite and non-negative.",
 ["inputs", "configurations", "schedules"], "all feasible instances, parameters, warm starts and expiry points",
 "Tests check the bound on a few instances whose optimum is known; validity needs the optimum of every instance.",
 [SG, PR, T, R], [("Lagrangian bound computed over all the columns, not just the core", PR + ": _compute_col_reduced_costs"), ("bound saved before any fixing", T + ": nofix_dual")],
 [("nofix_dual", "multipliers and bound before the first fixing", T)], ["CftResult.dual", "get_lower_bound()/get_dual_multipliers()"])
prop("C04", "A warm start is never made worse",
 "When a feasible initial solution is given (C++ argument, -w file, CVRP file, or earlier Python solve), the result never costs more than it, and if nothing strictly cheaper was found the initial solution itself is returned unchanged. The initial solution never makes the reported lower bound invalid or the result infeasible.",
 ["inputs", "configurations", "histories"], "all feasible instances and feasible initial solutions, optimal ones included",
 "Tests use one warm start per instance and only check that it is parsed or that the final cost is not above it.",
 [R, PA, PY], [("incumbent initialised from the warm start, replaced only by strictly cheaper solutions", R + ": run")],
 [("best_sol", "incumbent", R)], ["return value of run", "solution file written with -w", "second solve() in Python"])
prop("C05", "Runs terminate and honour the time limit at any expiry point",
 "Every run on a feasible instance terminates. Once the time limit has expired no new refinement round is started, at most the round of work in progress is completed, and the best solution found so far is returned; this holds wherever the expiry falls, limits of zero and already expired timers included. Without expiry the limit has no influence on the result.",
 ["schedules", "inputs", "configurations"], "every clock reading at which the limit may expire, on every instance",
 "The wall clock decides where a test expires; no test can place the expiry at each of the readings of the clock.",
 [R, T, SG, CH], [("time checks", R + ": run; " + T + ": operator(); " + SG + ": operator(), heuristic()")],
 [("env.timer", "start of the time budget", CO)], ["return of run under a virtual clock"])
prop("C06", "Equal inputs and seeds give equal results through every interface",
 "Without a time limit, the result is a function of instance, parameters and seed: repeating a run, in the same or another process and whatever was solved before, or solving the same instance through C++, accft and Python, gives the same selected columns, cost and lower bound. The verbosity level never changes the result and the seed, however it is given, does select the random sequence used.",
 ["histories", "inputs", "configurations"], "all sequences of runs in a process, interfaces and seeds",
 "Tests never compare two runs.",
 [R, T, CL, BI, PY, MA], [("functor caches reset at each call", T + ": _three_phase_setup"), ("seeded generator in the environment", CO + ": Environment::rnd"), ("seed argument", CL)],
 [("rnd", "generator state", CO)], ["results of repeated and interleaved runs"])
prop("C07", "Refinement fixes, grows, resets and stops as specified",
 "Each refinement round restarts from the whole instance and fixes columns of the incumbent in order of increasing contribution to the optimality gap, as long as together they cover no more than the current share of rows; the share is the configured minimum when the incumbent improved and otherwise grows by the factor alpha, up to one. Refinement stops exactly when the incumbent costs at most beta times the lower bound plus epsilon, when every row is fixed, or when time is over, and the incumbent is replaced exactly when a strictly cheaper solution is found.",
 ["histories", "inputs", "configurations"], "all sequences of 3-phase outcomes and all alpha, beta, epsilon and minimum fixing values",
 "The sequence of outcomes of a real run is always the same few rounds; tests look only at the final cost.",
 [R, FD], [("fixing share schedule and gap contributions", R + ": RefinementFixManager"), ("stop test", R + ": run")],
 [("fix_fraction", "share of rows to fix", R), ("max_cost", "cost at which refinement stops", R)], ["instances passed to the 3-phase procedure", "return value of run"])
prop("C08", "The 3-phase keeps its best solution and stops only when justified",
 "The 3-phase procedure returns, in the columns of the instance it was given, the cheapest of all the solutions it met (initial greedy and heuristic ones, completed with the columns fixed meanwhile), at its exact cost. It alternates bounding, heuristic and fixing on the residual instance and stops only when all rows are fixed, when the bound shows that no solution better by more than epsilon is left, or when time is over; the multipliers and bound returned are the ones of the instance before any fixing.",
 ["histories", "inputs"], "all sequences of outcomes of bounding, heuristic and fixing",
 "Needs sequences of sub-procedure outcomes that sampled runs do not produce, observed between the phases.",
 [T], [("incumbent update and cutoff arithmetic", T + ": operator()")],
 [("best_sol", "best solution of this 3-phase", T), ("cutoff", "best cost minus fixed cost", T)], ["return value of ThreePhase", "calls made to its phases"])
prop("C09", "Fixing columns leaves exactly the residual problem",
 "Fixing a set of columns removes exactly those columns, the rows they cover and the columns left empty, keeps everything else with unchanged costs and relative order and with consistent row and column views, and adds exactly their cost to the fixed cost. After any sequence of fixings the maps send each remaining row and column to the original one it stems from, so any cover of the residual instance plus the fixed columns covers the original one at the sum of the two costs.",
 ["inputs", "histories"], "all instances, sets of columns to fix and sequences of fixings",
 "Checked only by debug asserts on the fixings that sampled runs make.",
 [FX, FD, CF, R], [("in-place removal with index maps", FX), ("composition of maps", FD + ": apply_maps_to_fixing_data")],
 [("curr2orig", "current to original indexes", FD), ("fixed_cols/fixed_cost", "what has been fixed", FD)], ["instance and maps after fix_columns_and_compute_maps / ColFixing"])
prop("C10", "Pricing returns the Lagrangian bound and a sound core instance",
 "For any multipliers, pricing returns the Lagrangian lower bound over all the columns of the instance. The core instance it builds holds, for every row, the five columns of smallest reduced cost that cover it (all of them if fewer), and the columns with reduced cost below 0.1 (at most five per row, the smallest); no column appears twice and each has the cost and rows of the column it maps to.",
 ["inputs", "histories"], "all instances, multipliers and earlier contents of the core instance",
 "No test calls pricing directly; errors only degrade bounds and solution quality.",
 [PR, SA, CU], [("column selection c1/c2", PR), ("bounded sorted array", SA)],
 [("core.col_map", "core to instance columns", PR)], ["return value and core instance of Pricer"])
prop("C11", "Greedy builds a valid cover following its scores",
 "The greedy procedure extends the given partial solution one column at a time, always with a column of minimum score for the rows still uncovered, until every row is covered or the maximum size is reached, and then removes redundant columns. If the cost it returns is below the given cutoff, that cost is the exact cost of the returned columns and, when no size limit intervened, they cover every row; otherwise it returns a cost not below the cutoff, and no solution cheaper than the cutoff was available from that selection.",
 ["inputs", "histories"], "all instances, multipliers, partial solutions, cutoffs and size limits",
 "Tests exercise greedy only inside whole runs (one README snippet aside).",
 [G, SC, RD], [("score maintenance and best-candidates window", SC), ("cutoff and early exit", G + ": _remove_redundant_cols")],
 [("scores/score_map", "scores by position and position by column", SC)], ["return value and solution of Greedy"])
prop("C12", "Redundancy removal is safe and, up to ten columns, optimal",
 "Removing redundant columns from a set of columns never uncovers a covered row. When at most ten of its columns are redundant, the columns kept have the smallest total cost among all the subsets covering the same rows; when there are more, the costliest redundant ones are dropped first until ten are left, and the remaining choice is optimal.",
 ["inputs"], "all instances and column sets, cost ties and zero costs included",
 "Unit tests use one hand-made instance for each function; cost ties, more than ten redundant columns and early exits are not covered.",
 [RD, G], [("heuristic removal", RD + ": heuristic_removal"), ("enumeration", RD + ": Enumerator")],
 [("redund_set, partial_cover, total_cover", "undecided columns and coverage with none/all of them", RD)], ["solution of Greedy", "RedundancyData after the removal functions"])
prop("C13", "Cover counters count exactly",
 "After any sequence of cover and uncover operations each counter equals the number of covers minus uncovers of that element; every operation returns the exact number of elements that became covered or uncovered. The redundancy queries answer whether all elements of the subset are covered already, or would all stay covered after its removal, without changing anything, and a reset forgets all that came before.",
 ["histories"], "all sequences of operations on counters of any size",
 "Unit tests run a handful of fixed sequences.",
 [CC], [("per-element counters", CC)], [("cov_counters", "cover multiplicity of each element", CC)], ["return values and counters"])
prop("C14", "Selection helpers return exactly the smallest keys",
 "The bounded sorted array keeps, in order, exactly the smallest keys among the elements inserted since it was last cleared, and reports whether an element was taken; the sort, partial selection, minimum and removal helpers return permutations, minima and filtered sequences that respect the key and the order they promise.",
 ["inputs", "histories"], "all sequences of insertions, containers and keys, ties included",
 "Unit tests use a few fixed sequences.",
 [SA, SO, UT], [("insertion in sorted order with eviction", SA), ("key-based sort/nth_element/remove_if/range_min", SO + ", " + UT)],
 [("data, sz", "elements in key order", SA)], ["contents after each operation"])
prop("C15", "Well-formed instance files are read exactly",
 "Every well-formed RAIL, SCP, CVRP or MPS file yields exactly the instance it describes: same number of rows and columns, same costs, each column with exactly its rows (zero-based), consistent row view, and for CVRP the embedded initial solution with its cost. Layout choices the formats leave free (spaces, blank-separated lists over any number of lines in SCP, trailing newline or none, CR-LF line ends, section headers and names in MPS) do not matter.",
 ["inputs"], "all well-formed files of the four formats",
 "Tests parse one benchmark file for each format and look at a few entries.",
 [PA, PU, SV, IN], [("format parsers", PA), ("line iterator and number consumption", PU)],
 [], ["Instance returned by the parsers"])
prop("C16", "Malformed or infeasible inputs are rejected, not misread",
 "A truncated file, an index out of range, a wrong count, an unparsable or out-of-range number, a row that no column covers, a column listing a row twice, a missing section or an unknown row name, and an invalid initial solution all produce an error. They never cause a hang, a crash, an access out of bounds, or a silently different instance.",
 ["inputs", "fault_sequences"], "all truncations and single corruptions of files of the four formats and of solution files",
 "Tests feed a few whole files of the wrong format.",
 [PA, PU, MA], [("format checks", PA), ("range-checked number parsing", PU)], [], ["exception from the parsers", "exit status of accft"])
prop("C17", "Solution files round-trip",
 "A solution written to a file and read back is the same: same columns in the same order and bit-identical cost, for every solution the index and cost types can represent. A solution that cannot be written completely is reported as an error.",
 ["inputs", "fault_sequences"], "all solutions; all write failures",
 "Tests write and read two solutions and one unwritable path.",
 [PA], [("shortest round-trip formatting", PA + ": write_solution"), ("parser", PA + ": parse_solution")], [], ["file contents, parse_solution result"])
prop("C18", "Command line arguments set exactly the parameters they name",
 "Parsing a command line applies each recognised flag, short or long, to exactly its own parameter, the last occurrence wins, everything not mentioned keeps its default, unknown words and a trailing flag without value are ignored, and values that do not parse or do not fit are errors. The instance path is mandatory, and when no output path is given it is the instance file name without folder and extension, plus .sol.",
 ["inputs", "histories"], "all argument sequences",
 "Tests pass each flag once, in one order.",
 [CL, PU], [("flag table", CL + ": parse_cli_args"), ("default output name", CL + ": make_sol_name")], [("env", "parameters", CO)], ["Environment returned, exception"])
prop("C19", "Unit-cost mode solves the same instance with all costs one",
 "With unit costs requested, rows and columns are those of the file, every column costs one, an initial solution costs as many as its columns, and the result equals the one obtained from the same instance written with all costs equal to one: its cost is the number of selected columns.",
 ["inputs", "configurations"], "all instances and initial solutions, in every format",
 "Tests never combine unit costs with a solve or an initial solution.",
 [PA, CL, MA], [("cost replacement after parsing", PA + ": parse_inst_and_initsol")], [], ["parse_inst_and_initsol result", "accft -u"])
prop("C20", "The Python solver is consistent under any sequence of calls",
 "In any sequence of additions of sets, solves, queries, file loads and rejected calls, set indexes are consecutive from zero, every solve returns a cover of all the elements added so far, and adding sets without new elements never makes the solution worse. Adding a set with a new element forgets the previous solution until the next solve, a rejected call changes nothing, and solving while some element up to the largest is in no set is an error that leaves the solver usable.",
 ["histories"], "all sequences of calls on a solver",
 "Five fixed scripts of at most two solves.",
 [PY, BI], [("result invalidation on new elements", PY + ": add_set"), ("warm start from previous result", PY + ": solve"), ("prepare check", BI)],
 [("_result, _max_element, _initialized", "previous result, largest element, rows ready", PY)], ["returned values and exceptions of SetCoverSolver"])
prop("C21", "accft succeeds exactly when it writes a valid solution",
 "The accft program exits with success exactly when it has written, at the requested or default path, a solution file holding a cover of the instance with its exact cost; in every other case it exits with failure, prints an error and does not crash. It creates no other file and leaves its input files unchanged.",
 ["inputs", "configurations", "fault_sequences"], "all command lines, instance files and output failures",
 "No test runs the program.",
 [MA, CL, PA], [("exception to exit status", MA), ("solution writing", PA + ": write_solution")], [], ["exit status, stderr, files"])
prop("C22", "Index and real types do not change the algorithm",
 "Built with any signed or unsigned index types wide enough for the instance, the library returns the same solutions, costs and bounds as with the default types. With double precision reals every returned solution is still a cover with its exact cost and a valid lower bound.",
 ["configurations", "inputs"], "all index/real types and all instances that fit them, up to their limits",
 "Tests run one small and one large configuration on one family of instances and only check costs loosely.",
 [CO, IN, FX, UT], [("type aliases and casts", CO), ("removed-index sentinels", CO)], [], ["results of differently configured builds"])
prop("C23", "Random numbers follow their generators and ranges",
 "The generators produce, for each seed, the published xoshiro 128/256 (+ and ++) sequences seeded by SplitMix64, and copying a generator forks its sequence. Real draws lie in the given interval, are reproducible and use the generator's high bits, integer draws lie within the inclusive bounds, and coin flips follow the given probability, certain and impossible ones included.",
 ["inputs", "histories"], "all seeds and ranges",
 "Tests check averages over one seed.",
 [XO, RN], [("state update", XO), ("conversion to ranges", RN)], [("state", "generator state", XO)], ["generated values"])
prop("C24", "Step size, exit and pricing schedules follow their rules",
 "Over any sequence of bounds, the step size changes only every twenty iterations: it is halved when the bounds of the period spread more than 1%, grows by half when they spread at most 0.1%, and stays within 1e-6 and 10. The subgradient stops exactly at an iteration closing a period of 300 in which both the absolute and the relative improvement are below their thresholds, and pricing happens exactly at the announced iterations, whose distance grows tenfold, fivefold or twofold (up to its maximum) or goes back to ten according to the gap between core and real bound.",
 ["histories"], "all sequences of bounds and iterations",
 "Not tested directly.",
 [SU], [("StepSizeManager, ExitConditionManager, PricingManager", SU)], [("period, next_update_iter", "current schedule", SU)], ["values returned by the managers"])
prop("C25", "Subgradient phases keep bounds, multipliers and incumbents sound",
 "The bounding phase returns the best of the bounds computed by pricing the whole instance, stops once it reaches the cutoff less epsilon, and leaves a core instance on which every row can be covered. Multipliers stay between zero and one million, one per row; the heuristic phase makes at most the configured number of greedy attempts and replaces the incumbent only by a valid solution cheaper by at least epsilon and strictly below the cutoff.",
 ["inputs", "histories", "configurations"], "all instances, multipliers, cutoffs, epsilons and iteration limits",
 "Only reached through whole runs, whose final cost hides such errors.",
 [SG, PR, T], [("multiplier clamping", SG + ": _update_lagr_mult"), ("acceptance test", SG + ": heuristic")], [("best_real_lb", "best bound over all the columns", SG)], ["arguments and results of both phases"])
prop("C26", "Calls neither alter their inputs nor influence one another",
 "Solving never modifies the instance, initial solution and parameters passed in. The procedure objects (3-phase, subgradient, greedy, pricing, column fixing) give on every call the result a fresh object would give, whatever instances they worked on before.",
 ["histories", "inputs"], "all sequences of calls on reused objects, instances of different sizes",
 "Tests always use fresh objects on one instance.",
 [T, G, SG, PR, CF, RD], [("caches reinitialised at each call", T + ", " + G + ", " + SG + ", " + PR + ", " + CF)], [("caches", "buffers kept between calls", G)], ["results of fresh and reused objects"])
prop("C27", "Numbers and words are read exactly or refused",
 "Reading a number from text yields exactly the value written, consumes exactly its characters, and fails when there is no number or the value does not fit the target type; it never wraps around or saturates. Trimming, splitting, comparing and slicing of text follow their definition for every string, empty and all-blank ones included.",
 ["inputs"], "all strings and target types",
 "Unit tests sample a few strings and types.",
 [PU, SV], [("string_to", PU), ("trim/split", PU), ("StringView", SV)], [], ["values, remaining text, exceptions"])
prop("C28", "Instance building keeps row and column views consistent",
 "Appending and copying columns, clearing, and filling rows from columns always leave an instance whose row view is exactly the transpose of its column view, with columns listed in increasing order in each row and untouched contents and costs, whatever the instance objects held before. Compressed storage returns for each column exactly the elements appended for it.",
 ["histories", "inputs"], "all sequences of building operations, empty columns included",
 "Unit tests build two fixed instances.",
 [IN, SM, SP], [("fill_rows_from_cols, push_back_col_from, clear_inst", IN), ("compressed columns", SM)], [("begs, idxs", "compressed storage", SM)], ["instance contents after each operation"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
