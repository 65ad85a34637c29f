#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext),
        why_tests_cant=why, anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=None)))
B='skdecide/builders/'; S=B+'scheduling/'; DO=B+'discrete_optimization/'; GT=DO+'generic_tools/'; HD='skdecide/hub/domain/'; HS='skdecide/hub/solver/'

prop('C01','Adapting a domain to a solver\'s expected level never changes the content',
 'When a domain is viewed at another compatible level of agents, concurrency or memory (for example a single-agent, sequential, Markovian domain used by a multi-agent, parallel, history-based caller, or the converse for one agent), every argument reaches the domain and every result reaches the caller with the same content, re-wrapped into the container that level prescribes. (A side without agents, concurrency or history sees the content of the one agent, the one action or the one remembered state.) This holds for spaces, distributions, transition and environment outcomes, values, constraints and memories; calling through the view has the same effect on the domain as calling it directly, and an object viewed at one level and later at another shows the last one.',
 ['inputs','configurations'],'all pairs of compatible levels (agents x concurrency x memory) and all argument/result structures built from them',
 'The 96 tests sample fixed pairs of levels with fixed values and mostly look at shapes; content must be preserved for every nested structure and every pair.',
 ['skdecide/core.py','skdecide/domains.py',B+'domain/agent.py',B+'domain/concurrency.py',B+'domain/memory.py'],
 [('structural cast along type hints','skdecide/core.py autocast'),('cast tables','skdecide/domains.py, builders/domain')],['arguments seen by the wrapped domain method','values returned by autocast methods'])

prop('C02','An environment\'s memory is exactly its recent state (or observation) history',
 'Resetting a domain returns the observation of a fresh initial state and starts its memory with that state only; each step or sample is a transition from the current memory by the given action, a step appends exactly the new state to the memory keeping only as many entries as the domain\'s memory length (one for Markovian, none for memoryless, all for unbounded history), and sampling a hypothetical transition never changes the memory. The observation, value, termination flag and info returned describe that very transition, and with partial observability only the state, never the observation, is remembered by the simulator.',
 ['histories','configurations'],'all interleavings of reset, step, sample and state-setting calls, on all memory lengths and dynamics levels (environment, simulation, uncertain, enumerable, deterministic)',
 'No repository test calls reset or step on a domain with a bounded or unbounded history; memory discipline is a property of every call sequence.',
 [B+'domain/dynamics.py',B+'domain/initialization.py',B+'domain/memory.py',B+'domain/observability.py'],
 [('step/reset/sample template methods','dynamics.py, initialization.py'),('bounded memory construction','memory.py')],['returned outcomes','contents of the domain memory after every call'])

prop('C03','Action, goal, terminal and observation queries agree with one another',
 'For every domain and memory, an action is reported applicable exactly when it belongs to the applicable-actions space, an event is reported enabled exactly when it belongs to the enabled-events space, and a state is reported a goal exactly when it belongs to the goal space, agent by agent and with the current memory used when none is given. Spaces and initial states are fixed once asked for, sampling a space yields a member, a transformed observation is fully determined by (state, action), and the domain-wide answer for several agents combines the answers of the agents (an action is applicable for the domain when it is for every agent, an event is an action when it is for some agent).',
 ['inputs','configurations'],'all domains built from the action/goal/initialisation/observability mix-ins, all memories and events, one or several agents',
 'Existing tests never query applicability, goals or terminals across agent levels.',
 [B+'domain/events.py',B+'domain/goals.py',B+'domain/initialization.py',B+'domain/observability.py','skdecide/core.py','skdecide/hub/space/gym/gym.py'],
 [('query template methods','events.py, goals.py'),('space membership','core.py')],['query results'])

prop('C04','Values, outcomes and distributions are internally consistent',
 'A transition value always satisfies reward = -cost (whichever was given, and an unspecified value means zero), outcomes carry one value and one info per agent by default, and a positive-only-cost domain accepts exactly non-negative costs. A distribution\'s samples always lie in its declared support, a single-valued one always returns its value, and the deterministic, enumerable, uncertain and simulated views of one transition agree: every sampled next state is in the support of the next-state distribution for that memory and action, and the value and termination reported are those of that sampled next state.',
 ['inputs','histories'],'all values, outcome structures, weighted supports and transitions of all dynamics levels',
 'Tests construct single outcomes and never compare the dynamics levels with one another.',
 ['skdecide/core.py',B+'domain/dynamics.py',B+'domain/value.py',B+'domain/initialization.py'],
 [('reward/cost duality','core.py TransitionValue'),('derivation of each dynamics level from the stronger one','dynamics.py')],['outcome fields','sampled values vs. declared supports'])

prop('C05','Solver matching is exact and non-interfering',
 'A solver accepts a domain exactly when the domain provides every characteristic the solver requires (accounting for a stronger characteristic standing for a weaker one) and passes the solver\'s additional check. Matching a collection of solvers against a domain returns exactly the accepted ones, and neither matching, nor solving, nor resetting one solver changes what another solver or domain answers.',
 ['configurations'],'all combinations of domain characteristics and solver requirements, all candidate collections',
 'No test enumerates the characteristic lattice.',
 ['skdecide/solvers.py','skdecide/utils.py',B+'solver/policy.py'],
 [('check_domain','solvers.py'),('match_solvers','utils.py')],['check_domain and match_solvers answers'])

prop('C06','A rollout is a legal execution of the domain under the given policy',
 'Rolling out a domain performs the requested number of episodes of at most the requested number of steps, each starting from a reset (or from the given memory, state), each step applying exactly the action that the solver returned for the latest observation (or, without solver, an applicable action), stopping an episode exactly when a terminal outcome occurs or the step bound is hit. The episode returned reports exactly the observations, actions and values the domain produced, in order (rollout_episode returns the last of its episodes), the saved results one entry per episode, and rolling out changes nothing else in the domain.',
 ['histories','configurations'],'all domains, policies, horizons, episode counts and starting points',
 'No test runs the rollout helpers.',
 ['skdecide/utils.py'],
 [('rollout loops','utils.py rollout, rollout_episode')],['calls made on domain and solver','returned episodes'])

prop('C07','Parallel domains return every job\'s own result exactly once',
 'Whatever number of worker domains, job durations and order of calls, each call delegated to a parallel domain runs exactly once on one worker, its result is delivered to the caller that asked for it with unchanged content, and a caller that does not name a worker is given only a free one. A job that fails (it raises, or cannot be shipped to a worker) has no result but is reported and neither hangs its caller nor loses a worker, no more jobs run at once than there are workers, a worker is available again once its result is read, and closing the pool terminates all workers.',
 ['schedules','histories','fault_sequences'],'all schedules of launches, completions, failures, result reads and closes over 1..k workers, both transports (pipes and shared memory)',
 'Tests compare a handful of sequential calls with one schedule; interleavings, failures and reuse of workers are not exercised.',
 ['skdecide/domains.py',B+'solver/parallelability.py'],
 [('active-domain table and per-worker channels','domains.py PipeParallelDomain, ShmParallelDomain')],['results obtained through the parallel domain API','worker occupancy'])

prop('C08','Scheduling tasks follow their lifecycle, precedence and durations',
 'Along every execution of a scheduling domain each task is in exactly one of remaining, ongoing, paused, completed or ruled out; it starts only when remaining and only by a start action, after all its predecessors are complete when the action is an offered one; it accumulates progress only while ongoing, at one over the duration drawn for its start and mode, and completes exactly when its accumulated active time reaches that duration, its recorded start and end dates being those of the events. Time advances by exactly one unit on a time-progress action and by nothing otherwise. The cost of a transition is, for each declared objective, the time elapsed (makespan) and the mode cost of a start plus the unit cost of every renewable resource in use times the time elapsed plus the amount of non-renewable resources newly consumed (cost). Computing a successor never alters the state it starts from (unless in-place updates were requested).',
 ['histories','inputs'],'all instances (modes, precedences, durations, preemption, calendars) and all sequences of actions',
 'There is no scheduling assertion in the stable test suite; correctness depends on every action history.',
 [S+'scheduling_domains.py',S+'scheduling_domains_modelling.py',S+'task_duration.py',S+'task_progress.py',S+'precedence.py',S+'task.py',HD+'rcpsp/rcpsp_sk.py'],
 [('ordered update rules','scheduling_domains.py update_*')],['state returned after every action'])

prop('C09','Scheduling resources are conserved and never over-committed',
 'In every reachable scheduling state the quantity used of each resource equals the sum over running tasks of what their mode needs at their current active time (plus, for non-renewable resources, everything consumed so far), a start or resume is granted exactly when its needs (and skills) fit into what the declared availability leaves at that date and is otherwise without effect, and everything renewable is given back on completion or pause, as are non-renewables declared returnable on pause. Individual resource units serve at most one task at a time, and units assigned to a task of a multi-skill project have the skills the task needs.',
 ['histories','inputs'],'all instances (renewable or not, constant or time-varying availability and needs, skills) and all action sequences',
 'No stable test observes resource bookkeeping.',
 [S+'scheduling_domains.py',S+'resource_availability.py',S+'resource_consumption.py',S+'resource_renewability.py',S+'skills.py',HD+'rcpsp/rcpsp_sk.py'],
 [('resource update on start/pause/resume/complete','scheduling_domains.py'),('feasibility check','scheduling_domains.py check_if_action_can_be_started')],['resource_used, resource_used_for_task, resource_availability in states'])

prop('C10','Stochastic scheduling outcomes are exactly the declared distribution',
 'For a scheduling domain with uncertain durations or conditional tasks, the distribution over next states has total probability one, its branches are exactly the combinations of the declared uncertain alternatives (each with the product of their probabilities), every branch is itself a legal successor, and a sampled transition is always one of the branches. A task conditioned on an outcome becomes available exactly in the branches where that outcome occurs.',
 ['histories','inputs'],'all instances with duration or condition distributions and all action sequences',
 'No stable test enumerates outcome distributions.',
 [S+'scheduling_domains.py',S+'conditional_tasks.py',S+'task_duration.py'],
 [('uncertain updates','scheduling_domains.py update_*_uncertain, update_conditional_tasks')],['next-state distributions','sampled states'])

prop('C11','Scheduling offers exactly the startable actions and ends exactly when done',
 'In every reachable scheduling state the start actions offered are exactly the available, precedence-ready tasks in modes whose resource needs can be met now, the resume actions exactly the paused tasks whose needs can be met, the pause actions exactly the preemptive ongoing tasks, and letting time progress is always offered, and while the calendar leaves more in use than available only pausing and letting time progress are; every offered action can be executed without error. The goal holds exactly when no task remains, runs or is paused, and the state is terminal exactly when the goal holds, the horizon is passed or some task has become impossible.',
 ['histories','inputs'],'all instances and all reachable states',
 'No stable test checks applicability of scheduling actions.',
 [S+'scheduling_domains.py',S+'scheduling_domains_modelling.py',S+'preemptivity.py',S+'modes.py'],
 [('applicable actions','scheduling_domains.py SchedulingActionSpace, SchedulingActionSpaceWithResourceUnit')],['applicable action spaces, goal and terminal answers'])

prop('C12','The bundled A* planner returns optimal plans',
 'On any deterministic goal domain with non-negative costs and a consistent heuristic, after solving, following the policy of the lazy A* solver from the initial state applies only applicable actions, reaches a goal, and costs exactly the minimum over all paths; the policy is defined exactly along that plan, the reported values equal the remaining cost along it, and a heuristic weight w bounds the plan cost by w times the minimum. Solving again from another start, or when the start already is a goal, gives the plan of that start only.',
 ['inputs','histories'],'all finite weighted transition graphs with admissible heuristics, all starts, repeated solves',
 'No test runs the planner.',
 [HS+'lazy_astar/lazy_astar.py'],[('best-first search with parent updates','lazy_astar.py')],['policy and values after solve'])

prop('C13','Online planners and policies only issue valid, policy-consistent actions',
 'The LRTA* and simple greedy solvers only ever issue actions applicable in the current state; the greedy solver issues an action of greatest immediate expected value, and the LRTA* solver\'s learned values never exceed the true optimal cost-to-go when its heuristic does not, its policy being greedy with respect to them. A policy is reported defined exactly where an action can be obtained, and restoring, resetting or re-solving leaves no trace of an earlier problem.',
 ['inputs','histories'],'all finite domains (acyclic ones for LRTA* optimality), start states, seeds and sequences of solve and query calls',
 'No test runs these solvers.',
 [HS+'lrtastar/lrtastar.py',HS+'simple_greedy/simple_greedy.py'],[('value updates','lrtastar.py'),('one-step lookahead','simple_greedy.py')],['issued actions, values'])

prop('C14','Explored graphs are exactly the domain\'s reachable part',
 'Exploring a deterministic or stochastic domain depth-first or fully yields a graph whose vertices are exactly states reachable from the initial one, whose edges are exactly the applicable transitions out of the expanded states with their costs and probabilities, with no transition of an expanded state missing, invented or duplicated; when the exploration bound is not reached the graph is complete. The graph used as a domain offers the same applicable actions, next states, costs, goals and terminals as the original.',
 ['inputs','configurations'],'all finite deterministic and stochastic domains, all exploration bounds',
 'No test runs graph exploration.',
 [HS+'graph_explorer/FullSpaceExploration.py',HS+'graph_explorer/DFS_Uncertain_Exploration.py',HS+'graph_explorer/GraphDomain.py'],[('expansion loops','graph_explorer')],['the graph domain built'])

prop('C15','RCPSP schedules are the serial schedules of their encoding; checks are truthful',
 'Whatever the task permutation and mode choice, the schedule the RCPSP model builds is the serial one: time and again the first task of the permutation whose predecessors are placed, at the earliest date where its mode fits the renewable capacities (constant or calendar) for its whole duration; it is flagged infeasible exactly when a non-renewable budget is exceeded or a task cannot end within the horizon. A mode a task does not have is replaced by mode 1. The satisfaction check answers yes exactly for schedules (given or built, tasks lasting what their modes say) that respect precedence, capacity at every time and budgets. Evaluation reports the end of the last task, beyond the horizon when infeasible, and for constant renewable resources the mean share of capacity left free until then. After any sequence of assignments of permutation or modes, copies (shallow or not), changes of problem, checks and evaluations, a solution checked or evaluated stands for its present encoding and its copies are unaffected. Evaluating a permutation alone or modes alone (0-based, with the fixed counterpart) is evaluating that solution. Resource use over time, allocation to individual units (each task holds what it needs, one task per unit at a time), the permutation read from a schedule (sorted by start), start differences and the precedence graph agree with the schedule. Robust problems report the aggregate (mean, min, max, weighted sum) of the scenario makespans and one model of aggregated data; uncertain models draw best/worst/average/sampled data within the stated range around the base (durations at least 1, needs between 0 and capacity) and leave the base untouched. Postponing pre-helper activities moves only them, later, keeps the schedule feasible and the gaps are reported.',
 ['inputs','histories'],'all instances, permutations, mode vectors, calendars, and sequences of edits and reads of one solution',
 'No stable test builds an RCPSP schedule.',
 [DO+'rcpsp/rcpsp_model.py',DO+'rcpsp/rcpsp_utils.py'],[('serial schedule generation','rcpsp_model.py generate_schedule_from_permutation_serial_sgs'),('satisfy/evaluate','rcpsp_model.py')],['rcpsp_schedule, satisfy(), evaluate()'])

prop('C16','Multi-skill RCPSP schedules staff every task with available qualified people',
 'Every schedule the multi-skill model builds respects precedence, mode durations, resource and employee calendars at every date and non renewable budgets, assigns each employee to at most one task at a time, and covers each task\'s skill requirement with the skills of the employees assigned to it; employees contribute only skills they have, and a single one per task when the problem asks. It is the serial one: tasks in the order of the permutation (predecessors first), each at the earliest date at which resources and enough present and unoccupied employees are available, taken in the order of the task\'s priorities until the skills are covered; modes a task does not have become mode 1; no task ends at the horizon or later, otherwise there is no schedule and the makespan exceeds the horizon. The same holds for every encoding (permutation, modes, priorities, priorities as one permutation) and for copies changed and evaluated again. The satisfaction check answers yes exactly for complete plans with these feasibility properties, wherever they come from (tasks lasting what their modes say), and the evaluation reports the end of the last task. Converting a plan to priorities lists the tasks by start date, keeps the modes and prefers the employees used. Left shifting a plan keeps employees, modes and feasibility and moves each task as early as they allow. The pooled resource problem offers at each date the skills of the employees present.',
 ['inputs','histories'],'all instances, permutations, modes and worker priorities, plans from elsewhere',
 'No stable test builds a multi-skill schedule.',
 [DO+'rcpsp_multiskill/rcpsp_multiskill.py',DO+'rcpsp_multiskill/solvers/lns_post_process_rcpsp.py'],[('sgs_multi_skill','rcpsp_multiskill.py'),('satisfy/evaluate','rcpsp_multiskill.py'),('sgs_variant','lns_post_process_rcpsp.py')],['schedule, employee_usage, satisfy, evaluate'])

prop('C17','Result stores keep and return the best solutions',
 'After any sequence of solutions given to a result store (at construction or later, before or after it is finalised, each always with the same fitness), the solution it returns as best has the best fitness for the declared direction of all those given (a non-dominated one when fitnesses are vectors), the first, last and random best of a scalar store are a first, last and arbitrary best one, and a non-best random solution is not a best one unless all are. Every distinct solution given stays listed with its own fitness. The ranking of a scalar store is the best fitnesses of the distinct solutions given, up to the declared limit, best first once finalised. A Pareto front contains exactly the non-dominated points among all those offered to it, in whatever order they arrive, also when built from a store, when merged from several stores, in both directions; its extreme points are extreme. Vector fitnesses are compared by Pareto dominance: greater or smaller when one dominates, equal when neither does. Removing duplicates keeps the first solution of each distinct content.',
 ['histories'],'all sequences of insertions with ties and repetitions, both directions, all limits, scalar and vector fitnesses',
 'No test exercises the stores.',
 [GT+'result_storage/result_storage.py',GT+'result_storage/multiobj_utils.py',GT+'result_storage/resultcomparator.py'],[('heap and dominance maintenance','result_storage.py'),('dominance','multiobj_utils.py')],['store contents after each insertion'])

prop('C18','Local search reports the best solution it visited, with its true objective',
 'Hill climbing (single or vector objective, and its Pareto variant) and simulated annealing, in either direction, with any mutation (building new solutions or changing them in place), restart handler and number of iterations, do exactly that number of iterations, each moving from the current solution: a better candidate always becomes the current solution, hill climbing drops any other, simulated annealing accepts a candidate that is worse by d with probability exp(-d/temperature) and always accepts a tie, cooling once per iteration as declared, and a dropped candidate leaves the current solution as it was. A limit handler restarts from the best solution visited, paired with its objective, once more than the given number of iterations in a row brought no new best or no improvement. The result holds only visited solutions, each with the objective the problem gives it, unaltered by later moves, all of them if asked to store them; its best one is no worse than any solution evaluated during the run including the start, and the Pareto variant returns exactly the non-dominated visited points.',
 ['histories','inputs'],'all problems, start solutions, moves, random seeds, restart and cooling settings, consecutive runs',
 'No test runs local search.',
 [GT+'ls/hill_climber.py',GT+'ls/simulated_annealing.py',GT+'ls/local_search.py'],[('accept/reject loop with restart','ls/*.py')],['result storage, evaluated solutions'])

prop('C19','Mutations keep solutions well-formed, report their objective and can be undone',
 'Every mutation operator maps a well-formed encoding (permutation, binary, bounded integer, item selection) to a well-formed one, leaves parts of the solution it does not concern untouched, reports the objective of the mutated solution when asked to evaluate it, and undoing the returned move restores the encoding it started from exactly. Each operator makes the kind of change its name declares: a swap mutation exchanges pairs of positions, at most the stated number of times; a two-opt reverses a contiguous section of at least two positions (list encodings); a partial shuffle permutes at most its share of the positions; a flip with probability one flips every bit; the knapsack operator never switches on an item that does not fit; a portfolio applies only operators of positive weight. Applied over and over, the shuffling, swapping, reversing and flipping operators reach every position. A mutated scheduling solution is evaluated on the schedule of its present permutation and modes. (For the generic bit flip on knapsacks this is claimed with force_recompute_values.)',
 ['inputs','histories'],'all encodings of every length, random seeds and chains of mutate / undo',
 'No test exercises mutations.',
 [GT+'mutations/permutation_mutations.py',GT+'mutations/mutation_bool.py',GT+'mutations/mutation_integer.py',GT+'mutations/mixed_mutation.py',DO+'knapsack/mutation/mutation_knapsack.py',DO+'rcpsp/mutations/mutation_rcpsp.py'],[('mutate / backtrack_local_move','mutations')],['solution encodings before and after'])

prop('C20','Converting scheduling problems between the two formalisms loses nothing',
 'Converting a scheduling domain into an optimisation problem (build_do_domain) or the reverse (build_sk_domain), in any chain, preserves tasks, modes, durations, resource needs, availabilities at every date up to the horizon, renewability, successors, employees with skills and presence, and the horizon; without varying availabilities, a resource offers its greatest availability of a calendar. Making durations uncertain spreads each non-zero duration d of the chosen tasks evenly over d-10..d+10 (at least 1), doubles the horizon and keeps everything else; settling them again gives instances whose durations are possible ones. The final state of a completed execution converts into a solution with the start and end dates, modes and employees of the tasks as executed, which the problem\'s own check judges exactly as its constraints do, hence feasible when availabilities are constant.',
 ['inputs','configurations','histories'],'all instances of every supported variant (single/multi mode, calendar, costs, uncertain, multi-skill), chains of conversions and complete executions; needs constant over a task\'s execution; varying_ressource=False for multi-skill problems only with constant availabilities',
 'No stable test runs the conversion.',
 [HS+'do_solver/sk_to_do_binding.py',HD+'rcpsp/rcpsp_sk.py'],[('field by field translation','sk_to_do_binding.py')],['data of the converted problem or domain through its public questions','solution of a final state, satisfy(), evaluate()'])

prop('C21','Scheduling policies follow their rule, start what can start, and finish',
 'In every reachable state of a scheduling domain without conditional tasks, every bundled policy answers a start (in the prescribed mode, with the prescribed resource units) of an available, precedence-ready, affordable task chosen by its rule, or lets time pass exactly when its rule names no such task, and leaves the state unchanged. Rules: following a Gantt plan starts a task planned for the current date; the ready rule starts the first startable task of the permutation; the strict and precedence rules only the first precedence-ready task or those planned for the same date, with time freedom those planned at most that much after it, with index freedom those at most that many places after it; greedy piles the startable task (first mode) with the most tasks after it, the fastest, or a random one. A meta policy answers what the policy whose rollouts on the known domain end earliest answers. Carried to its end, a policy completes every task in the prescribed modes whenever each task can run alone (constant renewable resources) and the horizon has room, at the dates its rule gives; a Gantt policy whenever the plan fits, at exactly the planned dates. Policies made from solutions of the optimisation problem reproduce their order, modes, crews and dates.',
 ['histories','inputs'],'all instances, permutations, modes, target schedules, crews and policy variants, drawn durations; complete permutations and plans',
 'No stable test runs a scheduling policy.',
 [HS+'sgs_policies/sgs_policies.py',HS+'pile_policy/pile_policy.py',HS+'meta_policy/meta_policies.py',HS+'do_solver/do_solver_scheduling.py'],[('next-action rules','sgs_policies.py, pile_policy.py'),('rollouts of policies','meta_policies.py'),('from_solution_to_policy','do_solver_scheduling.py')],['actions issued per state, final states'])

prop('C22','Bundled games and grid domains follow their published rules',
 'In the bundled Mastermind, rock-paper-scissors, maze and grid-world domains every transition, score, cost, reward, observation, goal and terminal answer follows the rules of the game for every state and action: Mastermind counts exact matches and, among the rest, colours present elsewhere, each peg at most once, starts from any code with equal probability and ends exactly when the code is found; in rock-paper-scissors each player sees the other\'s move and wins +1, loses -1 or draws 0, and the game lasts exactly the declared number of moves; in mazes (closed by walls except for start and goal) and grids a move enters the neighbouring free cell for 1 or stays in place for 2, and only the goal is terminal. Sampling does not move the play, every observation lies in the declared space, every action is offered, and drawing the maze shows the player and the goal on the layout.',
 ['inputs','histories'],'all states and actions of all sizes/layouts',
 'Only fixed layouts are used, in example scripts.',
 [HD+'mastermind/mastermind.py',HD+'rock_paper_scissors/rock_paper_scissors.py',HD+'maze/maze.py',HD+'simple_grid_world/simple_grid_world.py'],[('transition functions','hub/domain')],['outcomes of every (state, action)'])

prop('C23','Knapsack, colouring, facility: plans worth what is claimed, heuristics sound',
 'For every knapsack, graph colouring and facility location problem, with items and nodes named as the user likes: the evaluation of a plan, directly, from its encoding, after a copy or once moved to another problem, equals the value, weight, number of colours, clashes, costs and excess that the problem data give it, and the plan is accepted exactly when nothing is exceeded and no edge has equal ends; copies are independent. The knapsack dynamic programme (plain, vectorised, started by density) returns a feasible plan of the greatest possible value; the greedy rules take items in their declared order and leave no item that still fits, and the best-of rule is at least as good as both. Every greedy colouring strategy gives a proper colouring of at most degree + 1 colours, named by first appearance, and the best-of answer uses no more colours than any deterministic strategy; listed cliques are maximal and complete unless cut. The sequential facility rule fills facilities in order within their capacity. Graphs answer neighbours, predecessors, ancestors, attributes and loops as their listed edges define.',
 ['inputs'],'all instances and encodings, all solver options; positive weights; no time or item limits',
 'No test exercises these models.',
 [DO+'knapsack/knapsack_model.py',DO+'knapsack/solvers/greedy_solvers.py',DO+'knapsack/solvers/dyn_prog_knapsack.py',DO+'coloring/coloring_model.py',DO+'coloring/solvers/greedy_coloring.py',DO+'facility/facility_model.py',DO+'facility/solvers/greedy_solvers.py',DO+'generic_tools/graph_api.py'],[('evaluate/satisfy','*_model.py')],['evaluate(), satisfy(), solver results'])

prop('C24','Objective aggregation and policy evaluation combine results as declared',
 'The objective function built for a problem returns exactly the declared combination of its evaluation, the same from a solution and from its evaluation: the first objective times its weight (SINGLE), the weighted sum (AGGREGATE), or the weighted vector in the declared order (MULTI_OBJ); by default objectives, weights, handling and direction are those of the problem\'s register, and every problem\'s evaluation provides the objectives it declares. A robust problem over scenarios reports, per objective, the mean, median, linear percentile, weighted mean, minimum or maximum of the scenario evaluations, as asked. Evaluating a policy on a goal problem reports the exact action, predecessors and expected cost of every state it reaches (goals terminal, start not a goal); estimating by rollouts reports the mean over the visits of the executions run, and for scheduling the mean duration, leaving the domain as it was.',
 ['inputs','configurations'],'all evaluation dictionaries, weights, handling modes, scenario sets and policies',
 'No test checks aggregation.',
 [GT+'do_problem.py',GT+'robustness/robustness_tool.py',HS+'policy_evaluators/policy_evaluator.py'],[('build_aggreg_function_and_params_objective','do_problem.py')],['aggregated fitness, evaluator reports'])

prop('C25','Gym environments as domains, and domains as environments, keep their behaviour',
 'An environment with the classic Gym interface wrapped as a domain shows the same observations, rewards, terminations, information and spaces; wrapped with a deterministic initial state, every reset restores the state of the first one, and with deterministic dynamics any remembered state can be continued or asked about in any order, any number of times, with the outcome the environment gives from that state, whether it is restored by copying or by snapshots. Wrapped states are equal exactly when their observations are, with equal hashes. The planning wrapper counts depth along the path and declares as goals the states at the depth limit and, if asked, the ends of episodes. Discretised actions are exactly the legal grid of the action space (or distinct members of it when limited), interval, distance and binary features are computed as specified, and a domain wrapped as a Gym environment speaks in the spaces it declares.',
 ['histories','inputs','configurations'],'all finite environments, observation structures, orders of queries over remembered states, action spaces, discretisation factors, sequences of observed values',
 'No stable test wraps a Gym environment.',
 [HD+'gym/gym.py','skdecide/hub/space/gym/gym.py'],[('wrappers and features','gym.py')],['outcomes per call, remembered states, actions, features'])

prop('C26','Tours and vehicle routes: true lengths and loads, sound moves and plans',
 'For every travelling salesman problem (same or different ends, points or any symmetric distances, plain or compiled evaluation) a tour\'s length and legs are those of the points in its order, whether it is given by its nodes, by their ranks, copied, changed or moved to another problem; both encodings always describe the same tour, and it is accepted exactly when it visits every other node once between the problem\'s ends. Every 2-opt, intersection and swap move gives a tour that differs by one reversal or exchange, with exactly its length and legs, never worse when only improvements are asked, the best reversal when all are tried, and can be undone; reported crossings are the legs that cross. Searches and the OR-Tools solver return a true tour with its true fitness. Closest-neighbour tours and parsers are exact. For every fleet, the legs, length, loads and overload of routes are those of the data, and routes are accepted exactly when no vehicle is overloaded and every customer is visited once; the greedy plan fills vehicles in order with the largest demands that fit, the OR-Tools plan serves all customers within the capacities; distance tables, nearest lists, pruned and full graphs carry the true distances.',
 ['inputs'],'all instances with at least one inner node (two for moves), all encodings and chains of moves; one length objective',
 'No test imports these models (the module could not even be imported).',
 [DO+'tsp/tsp_model.py',DO+'tsp/mutation/mutation_tsp.py',DO+'tsp/common_tools_tsp.py',DO+'tsp/solver/solver_ortools.py',DO+'vrp/vrp_model.py',DO+'vrp/vrp_toolbox.py',DO+'vrp/solver/greedy_vrp.py',DO+'vrp/solver/solver_ortools.py'],[('evaluate/satisfy','*_model.py'),('mutate_and_compute_obj','mutation_tsp.py')],['evaluate(), satisfy(), moves, solver results'])

prop('C27','Exact solvers are exact, and neighbourhood searches keep what they promise',
 'For every knapsack, graph colouring and facility location problem that has a feasible plan (items and nodes named as the user likes, edges listed in one or both directions): the linear programmes, with or without cliques, and the constraint models return feasible plans whose fitness is the true one, every stored plan included, and the best of them is optimal: of greatest value, with the fewest colours possible, of least cost. Pruning a facility problem leaves open exactly the cheapest facilities and the nearest of each customer, and the plan returned is the best one within what is left open. A large neighbourhood search, over a programme or a constraint model, goes at each move to a best plan among those that keep the asked fraction of the plan in hand (any plan when it starts without one, or the first move is free), releases at the next move what it held, stores every plan it meets with its true fitness, never returns a plan worse than the one it started from, and goes on for the asked number of moves, or until more than the asked number in a row brought no improvement. Compacting a colouring renumbers its colours without merging any. The searches that solvers run by themselves do the same.',
 ['inputs','histories','configurations'],'all instances, fractions, numbers of moves, starting plans and options that leave the back end time to finish; feasible instances only; the programme of the search knows the colours of its starting plan; MiniZinc with Gecode, the mip package over a stand-in back end, OR-Tools',
 'No test runs a solver of these problems.',
 [DO+'knapsack/solvers/lp_solvers.py',DO+'knapsack/solvers/cp_solvers.py',DO+'knapsack/solvers/knapsack_lns_solver.py',DO+'knapsack/solvers/knapsack_lns_cp_solver.py',DO+'coloring/solvers/coloring_lp_solvers.py',DO+'coloring/solvers/coloring_cp_solvers.py',DO+'coloring/solvers/coloring_cp_lns_solvers.py',DO+'coloring/solvers/coloring_lp_lns_solvers.py',DO+'facility/solvers/facility_lp_solver.py',DO+'facility/solvers/facility_cp_solvers.py',DO+'facility/solvers/facility_lp_lns_solver.py',GT+'lns_mip.py',GT+'lns_cp.py'],[('solve/solve_lns','solvers/*.py, lns_mip.py, lns_cp.py')],['solver results, stored plans, moves'])

prop('C28','Project solvers: optimal where exact, prompt where greedy, sound always',
 'For every project (one or several modes per task, identified as the user likes; budgets; capacities constant or following a calendar): the multi-mode constraint model and the single- and multi-mode programmes return only schedules in which every task lasts as long as its mode says, precedence, capacities at every moment and budgets hold, and every side constraint of the partial solution given (start times, orders, tasks starting together, at or some time after the start or end of another, modes) is kept, each with its true fitness; the one named best is the best of those returned and no schedule that keeps the constraints ends sooner; the constraint model returns none only when there is none. Mode settings found for a project are exactly mode choices of its tasks that keep the budgets and ask for no more than there ever is, all of them when all are asked for. The list schedulers return sound schedules in which no task waits while it could run, started in the order reported, the tasks ranked by the chosen rule or the given list, in the modes given. The critical path method finds the earliest and latest dates that the precedences alone allow with the quickest modes, a chain of tasks from first to last as long as the project, and an order of the tasks by those dates; the schedules that it builds for single-mode projects are sound, no task in them could be moved earlier alone (but for the time loop), following a given order they are those of the serial scheme, and the project is left as it was.',
 ['inputs','configurations'],'all projects, side constraints, rules, lists and modes; feasible instances for the programmes and list schedulers; a calendar that ends with full capacities for the list scheduler and the schedules of the critical path method (which has no budgets); the side constraints that the programme at hand reads; MiniZinc with Gecode, the mip package over a stand-in back end',
 'No test runs a solver of scheduling problems.',
 [DO+'rcpsp/solver/cp_solvers.py',DO+'rcpsp/solver/rcpsp_lp_solver.py',DO+'rcpsp/solver/rcpsp_pile.py',DO+'rcpsp/solver/cpm.py',DO+'rcpsp/minizinc/rcpsp_multi_mode_mzn.mzn',DO+'rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn',DO+'rcpsp/minizinc/mrcpsp_mode_satisfy.mzn',DO+'rcpsp/minizinc/fzn_my_cumulative.mzn'],[('solve/compute_schedule_from_priority_list/run_classic_cpm/run_sgs_on_order','cp_solvers.py, rcpsp_lp_solver.py, rcpsp_pile.py, cpm.py')],['solver results'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    print(len(P))
