import json
def P(id,title,st,over,text,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if obs: a["observe_at"]=obs
    return {"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
V="vrpy/vrp.py"; M="vrpy/master_solve_pulp.py"; C="vrpy/subproblem_cspy.py"; L="vrpy/subproblem_lp.py"; G="vrpy/subproblem_greedy.py"; CW="vrpy/clarke_wright.py"; S="vrpy/schedule.py"; H="vrpy/hyper_heuristic.py"; CK="vrpy/checks.py"; R="vrpy/restricted_master_heuristics.py"
SCHED="every problem class and combination of solve() options, every choice the MIP/LP and labelling solvers may make among equal answers, every duration of their calls (including cut short by the time limit), clock steps, and earlier solves of the same problem"
out=[
P("C01","Every customer is served exactly as often as required",
 "Whenever solve() returns, every customer is on exactly one route of the plan, or, in a periodic problem, on exactly as many routes as its frequency says. A customer may be left out only if dropping was allowed, and a dropped customer is on no route. This holds for every pricing strategy, solver choice, time limit, iteration limit, initial solution, locked routes, diving and heuristic-only mode.",
 ["inputs","schedules","configurations","histories"],SCHED,
 "The 85 tests solve a few fixed instances, mostly to optimality with one solver answer each; they never see the covering (>=) model return an over-covering incumbent, integrality noise or a search stopped half way.",
 [V,M,S],[("covering constraints turned into equalities for the final selection",M+" _add_set_covering_constraints / _solve"),("rounding to routes and dropped customers",M+" get_total_cost_and_routes"),("conversion to node lists",V+" _best_routes_as_node_lists"),("preassigned routes merged",V+" _merge_with_preassigned_routes")],
 [("_best_routes","the plan handed to the user")],["VehicleRoutingProblem.best_routes after solve()"]),
P("C02","Every returned route can be driven",
 "Whenever solve() returns, every route starts at Source, ends at Sink, visits no customer twice, uses only arcs of the given graph, and respects every constraint given for its vehicle type: stops, capacity at every point of the route (delivery, pickup and delivery, or simultaneous distribution and collection), duration including service times, time windows, and pickup before delivery on the same route. Only locked routes given by the caller are taken as they are.",
 ["inputs","schedules","configurations","histories"],SCHED,
 "Tests compare objective values of a few instances; which columns enter the plan depends on dual values, solver tie-breaking, heuristics and where the time limit falls, and an infeasible column is only visible when it is selected.",
 [V,C,L,G,CW],[("resource extension functions of the labelling algorithm",C+" _CustomResources / _SubProblemCSPY.solve"),("MIP pricing constraints",L+" _formulate"),("greedy pricing",G+" _SubProblemGreedy"),("savings merges",CW+" _process_edge"),("arc pruning",V+" _prune_graph")],
 None,["best_routes, best_routes_type"]),
P("C03","The plan never uses more vehicles than available",
 "Whenever solve() returns a plan found by column generation without locked routes, the number of routes of each vehicle type is at most num_vehicles of that type, and exactly num_vehicles when use_all_vehicles is set. For periodic problems the limit applies per day (see C04). Locked routes and heuristic-only plans are not counted today: recorded findings.",
 ["inputs","schedules","configurations","histories"],SCHED+"; fleet sizes from one vehicle to one per customer",
 "Two tests use num_vehicles, with one instance each; limits that bind only under a particular incumbent or with several vehicle types are not sampled.",
 [V,M],[("fleet constraints and dummy vehicle slack",M+" _add_bound_vehicles"),("empty routes",V+" _pre_solve")],None,["best_routes, best_routes_type"]),
P("C04","Periodic schedules put every route on exactly one valid day",
 "In a returned periodic schedule every route is planned on exactly one day of the planning horizon, no customer is visited twice on the same day and no day uses more vehicles than available. When the scheduling problem is solved to completion and such a schedule exists for the routes, one is returned, and the number of routes per day is as balanced as possible.",
 ["inputs","schedules","configurations"],"every periodic instance, horizon 2 or 3 days, fleet limit or none, every solver answer, timing and cut-off",
 "Two periodic tests assert a cost and one schedule; alternative optimal route sets and cut short scheduling problems never occur in them.",
 [V,S,M],[("day assignment MIP",S+" _Schedule"),("visit frequencies in the master problem",M)],None,["schedule, best_routes"]),
P("C05","Reported figures equal what the routes imply",
 "Whenever solve() returns, reading the solution never fails and best_value, the cost, vehicle type, load, duration, load at every node, arrival and departure times it reports equal what the input data imply for exactly the reported routes, including fixed costs, drop penalties, the span objective and the cost of the vehicle type used.",
 ["inputs","schedules","configurations","histories"],SCHED,
 "Tests assert figures for single hand-made plans; whether figures and routes belong together after renumbering, repeated routes, locks, re-solves and mixed fleets depends on which columns were selected.",
 [V],[("figures derived from the stored copy of the graph",V+" best_routes_cost, best_routes_load, best_routes_duration, node_load, arrival_time, departure_time, best_value"),("fixed costs on arcs",V+" _add_fixed_costs")],[("_H","copy of the graph the figures are computed from")],["the public result attributes"]),
P("C06","The time limit is respected and clock changes do no harm",
 "With time_limit=T, solve() comes back within T plus a few seconds of grace for the final selection, however long the solver calls would take and wherever in the search the limit strikes, and it comes back with a plan whenever the final selection has an answer. With max_iter=k at most k further rounds of column generation (one relaxation each) follow the first. A limit that is not reached changes nothing about the plan, a step of the system clock changes nothing at all, and comp_time is the time that passed.",
 ["schedules","configurations","fault_sequences"],"every sequence of solver call durations and overruns, every T, pricing strategy, diving, and system clock steps at any clock reading; measured in simulated time",
 "The tests use real time and one or two limits; they cannot place a slow call at a chosen point, nor step the clock.",
 [V,M,C,L,G,R],[("remaining time",V+" _get_time_remaining"),("limits handed to the solvers",M+" _solve / "+C+" solve / "+L+" solve"),("diving loop",R)],[("_start_time","start of the current solve")],["duration of solve() on the simulated clock","comp_time"]),
P("C07","The search never returns worse than what it already had",
 "When the final selection completes, the returned plan costs no more than the feasible initial routes the caller gave, than serving every customer alone (no fleet limit), than the Clarke & Wright plan it starts from, or than dropping every customer if that is allowed. More iterations under the same solver answers never give a worse plan. This holds wherever the time or iteration limit stops the search.",
 ["inputs","schedules","configurations"],"every point at which time_limit or max_iter stops the search, every solver answer before it",
 "Tests check final costs of converged runs; quality at an arbitrary stopping point is a statement over all prefixes of the search.",
 [V,M,CW],[("initial columns",V+" _get_initial_solution / _convert_initial_routes_to_digraphs"),("columns only ever added",M+" update"),("final integer selection over all columns",M+" _solve")],None,["best_value"]),
P("C08","Column generation stops only at the optimum of its relaxation",
 "When solve() ends without being stopped by a limit or a failure, the master problem's relaxation has reached the optimum over all feasible routes, for every pricing strategy, with labelling or MIP pricing, greedy or not, elementary or not. So no feasible route that could still improve the relaxation is missed.",
 ["inputs","schedules","configurations"],"every instance small enough for complete enumeration of its routes (up to 7 customers), every strategy combination, solver tie-breaking and random choice of the heuristics",
 "Tests check optimal values on a few instances where the initial columns or the first heuristics suffice; a stopping rule that gives up too early shows only under particular duals and column orders.",
 [V,M,C,L,G,H],[("fallback to exact pricing",V+" _find_columns / _attempt_solve_exact"),("duals handed to pricing",M+" get_duals"),("heuristic arc removal","vrpy/subproblem.py"),("choice of heuristic",H)],None,["objective of the last linear relaxation handed to the LP solver"]),
P("C09","Solver failures and cut-offs never turn into a wrong plan",
 "If the external MIP/LP solver cannot be started, crashes, is killed, writes no answer, stops without or with only a preliminary solution, or if pricing fails, runs out of memory, the disk is full or the user interrupts, solve() either raises or returns a plan that satisfies C01 to C05. It never presents an earlier plan or fractional values as the answer.",
 ["fault_sequences","crash_points","schedules","histories"],"every solver call of a run as the fault point, every fault kind, with and without an earlier successful solve",
 "The tests only meet healthy solvers.",
 [V,M,C,L,R],[("solver status",M+" _solve / get_total_cost_and_routes"),("pricing status",L+" solve"),("pricing cut short",C+" solve")],None,["best_routes and figures after a solve() during which a fault was injected"]),
P("C10","Solving again gives what a new problem would give",
 "After any sequence of solve() calls on a problem, whether they returned, raised, ran into a limit or were interrupted, and after changing its options, the next solve() gives exactly the result a newly created problem would give under the same solver behaviour. The caller's graph, option lists and arguments are left unchanged, also when two problems share one graph.",
 ["histories","crash_points","fault_sequences"],"every sequence of two to four solves with option changes, faults at any solver call and interrupts at any function entry in between",
 "Tests call solve() once per problem (one test twice); histories with failures in the middle are never run.",
 [V,M,R],[("working copy of the graph, restored parameters",V+" solve"),("per-solve state",V+" solve / _initialize")],[("G, num_stops, num_vehicles","inputs that are rewritten while solving")],["results of a re-solve against a fresh problem; the caller's objects"]),
P("C11","Problems solved in the same process do not influence each other",
 "Solving several problems in one process, one after the other or interleaved in threads at any point where the solve waits for a solver, gives each of them exactly the result it gives alone. No state is shared through modules, classes or default arguments.",
 ["schedules","histories"],"every interleaving at solver call and clock boundaries of two or three concurrent solves of any kind, and every sequential order",
 "Tests run in one process but compare nothing across problems, and there is no concurrent test.",
 [V,M,R,H],[("mutable class or default state",R+" _LPNode / _DivingHeuristic"),("per problem master problem and hyper heuristic",V)],None,["results together against results alone"]),
P("C12","Locked routes are kept verbatim and the rest is planned around them",
 "Every complete route (Source to Sink) passed as a preassignment appears exactly once and verbatim in the returned plan, none of its customers appears elsewhere, and the remaining customers are served feasibly around them (C01, C02); if the locks are feasible, solve() does not fail. Partial preassigned paths are documented to be extended, but are not kept today: a recorded finding.",
 ["inputs","schedules","histories","configurations"],"every set of feasible disjoint locked routes including all customers, every stopping point, re-solves with and without locks",
 "Two tests lock one route each on one instance, solved to optimality.",
 [V,CK],[("removal of locked customers",V+" _lock"),("merge into the plan",V+" _merge_with_preassigned_routes")],[("_preassignments","routes locked for the current solve")],["best_routes"]),
P("C13","A servable problem is always solved in a bounded number of steps",
 "If every customer can be served alone and no fleet limit or failure stands in the way, solve() returns a plan after a bounded number of solver calls, for every combination of documented options, every random choice and every solver answer, also when solver calls take no measurable time. Once failures of earlier solves have stopped, the next solve of the same problem returns a plan again. With use_all_vehicles a plan is often not found today: a recorded finding.",
 ["schedules","fault_sequences","configurations","histories"],"every option combination, answer order and timing including zero-length calls, with failing solves before; bound of 1500 solver calls",
 "Tests terminate by construction; cycling between equal columns, division by zero measured time or a crash in a rare branch depends on schedules they do not control.",
 [V,H,R,M],[("end of column generation",V+" _column_generation / _find_columns"),("scores of the heuristics",H),("tabu list of diving",R)],None,["outcome and number of solver calls of solve()"]),
P("C14","Invalid input is refused with an error before anything is solved",
 "Graphs without Source or Sink, missing costs, inconsistent vehicle type lists, undeliverable demands and option combinations that are documented as unsupported raise an exception and never a plan.",
 ["inputs"],"every malformed input",
 "Tests sample a few malformed inputs.",
 [CK,V],[("argument and graph checks",CK)],None,["exception raised by solve()"]),
P("C15","Benchmark instance files are read as published",
 "The benchmark readers turn every Augerat, Solomon and similar instance file into the problem it describes: same customers, demands, distances, time windows and capacities.",
 ["inputs"],"every well formed instance file",
 "Tests read a few files.",
 ["benchmarks"],[("file parsers","benchmarks/*_dataset.py")],None,["attributes of the built problem"]),
]
open('/verif/properties.jsonl','w').write("".join(json.dumps(o)+"\n" for o in out))
M={"version":1,"setup_cmd":"bash setup.sh","hooks":{"guard":"none","enable":"no hooks: every source of nondeterminism is replaced in the modules vrpy imports (sim/seams.py) before vrpy is imported from /repo's working tree","source_commits":[]},"checks":[],"not_applicable":[
 {"property":"C14","reason":"A pure function of the input: no schedule, clock, I/O, randomness or fault can change whether an argument check raises, so simulation adds nothing; refused inputs do occur as events inside C10 histories."},
 {"property":"C15","reason":"Parsing of static text files: no concurrency, time, fault or multi-step behaviour for a simulator to vary."}]}
notes={
"C06":"simulated time: every duration and overrun is drawn by the simulator; grace 5 s plus injected overruns",
"C08":"oracle: complete enumeration of all feasible routes and the LP over them (n <= 7); the relaxation value is read at the seam between pulp and CBC",
"C10":"oracle: the same operation with the same solver behaviour on a newly created problem",
"C11":"oracle: the same operation alone in its own simulated process; threads are real but released one at a time by the seeded scheduler",
"C13":"liveness as a bound of 1500 solver calls per solve and a watchdog for Python code that makes no solver call"}
for o in out[:13]:
    i=o["id"]
    M["checks"].append({"property":i,"quick_cmd":"./check.py %s --tier quick"%i,"thorough_cmd":"./check.py %s --tier thorough"%i,
     "technique":"deterministic simulation with fault injection (seeded search over schedules, solver behaviours and faults; replayable minimised traces)",
     "level":"exploration",
     "level_note":"Holds on every seeded run executed (fixed number per tier), not on all inputs; "+notes.get(i,"oracle: independent reference model of feasibility, coverage and figures (sim/ref.py)")+". Trusts CBC and cspy to answer correctly when they finish."})
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
