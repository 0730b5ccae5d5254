"""The properties, their anchors and how each is decided; tools/gen_meta.py writes properties.jsonl and MANIFEST.json from it."""

def p(id, title, statement, over, quant, why, files, mechanism, observe=None, technique=None, note=None):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mechanism=mechanism,
                observe=observe, technique=technique, note=note)


MDP, ENV, AG, GU, IO = "maMDP/mdp.py", "maMDP/environments.py", "maMDP/agents.py", "maMDP/grid_utils.py", "maMDP/env_io.py"
DP, AS, SR, PL, MC, IRL, BA = ["maMDP/algorithms/%s.py" % n for n in (
    "dynamic_programming", "action_selection", "successor_representation", "policy_learning", "mcts", "irl", "base")]
PLOT = "maMDP/plotting.py"

PROPS = [
 p("C01", "Square grid moves: every action leads exactly to the geometric neighbour",
   "On a square grid MDP of any width and height, actions 0, 1, 2, 3 move from (x, y) with probability 1 to (x, y+1), (x+1, y), (x, y-1), (x-1, y) respectively when that cell lies on the grid and neither end is a wall, and otherwise have no transition at all; no other transition exists. "
   "With self transitions enabled there is one extra, last action that stays in place in every non-wall cell. "
   "Two cells are adjacent exactly when they differ by one step along one axis, and the action reported for an adjacent pair is the direction of that step (an error for a non-adjacent pair).",
   ["inputs", "configurations"], "every grid shape within the bounds, every wall layout, both self-transition settings; adjacency and actions for all integer coordinates",
   "the tests compare a few hand-written cells of one or two shapes; a wrong transition for a particular column, border or wall layout is not sampled",
   [MDP, GU], ["SquareGridMDP._get_sas", "square_adjacency", "get_action_from_states_square"], "mdp.sas"),
 p("C02", "Hexagonal grid moves: six consistent directions and a true distance",
   "On a hexagonal grid MDP actions 0 and 3 change (x, y) by (0, +1) and (0, -1); from odd columns actions 1, 2, 4, 5 change it by (+1, 0), (+1, -1), (-1, -1), (-1, 0), and from even columns by (+1, +1), (+1, 0), (-1, 0), (-1, +1); each is deterministic, exists exactly when both ends are on the grid and not walls, actions k and k+3 undo each other, and with self transitions one extra last action stays in place. "
   "The distance between two hexagons is the least number of such moves between them on an unbounded grid (a metric: zero only for equal cells, symmetric, triangle inequality), and adjacency means distance 1. "
   "The action reported for an adjacent pair is the one whose move leads from the first to the second.",
   ["inputs", "configurations"], "every grid shape within the bounds, every wall layout, both self-transition settings; distance, adjacency and action for arbitrary integer coordinates",
   "the tests check single hand-picked hexes; direction tables depend on column parity and border, which samples miss",
   [MDP, GU], ["HexGridMDP._get_sas", "hex_adjacency", "hex_dist", "offset_to_cube", "get_action_from_states_hex"], "mdp.sas"),
 p("C03", "State ids, coordinates and grids agree everywhere",
   "In any grid MDP of width w and height h, state id s corresponds to coordinates (s // h, s % h): converting id to coordinates and back, the coordinate table, reshaping a flat value array or the features into grids, and the positions where walls and features are placed all use this same row-major bijection. "
   "Reshaping loses, duplicates or moves no value.",
   ["inputs", "configurations"], "every state of every non-square grid shape within the bounds, arbitrary values and features",
   "tests use square-ish shapes or single states, on which transposed or column-major conversions agree",
   [MDP, GU], ["GridMDP.state_to_idx", "GridMDP.idx_to_state", "GridMDP.get_state_coords", "GridMDP.flat_to_grid", "GridMDP.features_as_grid", "grid_coords"]),
 p("C04", "Walls block exactly the walled states, through every sequence of edits",
   "After any sequence of setting walls, adding walls by x/y coordinates and clearing walls, the transitions equal the wall-free transitions with every transition into or out of a walled state removed, and nothing else changed; adjacency, the available actions and neighbour queries agree with those transitions. "
   "Adding walls by coordinates adds exactly the cells given by the product of the x and y entries (a two-entry range excludes its end) to the walls already there. "
   "Clearing walls restores the wall-free transitions, and neither operation modifies an array supplied by the caller.",
   ["histories", "inputs"], "every wall layout and every sequence of up to three edits on grids within the bounds, and on arbitrary transition functions",
   "the tests set walls once on one grid; histories that set, add and clear walls are not explored",
   [MDP], ["MDP.walls", "GridMDP.add_wall_xy", "GridMDP.reset_walls"], "mdp.sas, mdp.adjacency, mdp.walls"),
 p("C05", "Invalid models are rejected and leave the model unchanged",
   "Transition functions that are not (states, actions, states) arrays with every entry a probability in [0, 1] (NaN included), feature arrays that do not have one column per state, and wall arrays that are not one 0/1 entry per state are rejected with an error; valid ones are always accepted. "
   "A rejected assignment leaves transitions, features and walls exactly as they were. "
   "A model counts as deterministic exactly when no transition probability lies strictly between 0 and 1.",
   ["inputs"], "every transition function, feature array and wall array of the bounded sizes, including NaN and infinite entries",
   "tests try one wrong shape and one wrong value each; single bad entries at arbitrary places and partially applied updates are not tried",
   [MDP], ["MDP.sas", "MDP.features", "MDP.walls"]),
 p("C06", "Next states are drawn from the transition function",
   "The next state for a state and an available action always has positive transition probability; in a deterministic model it is the unique successor, and in a stochastic model each state is chosen for exactly its share of the random draw, so its chance equals its transition probability. "
   "An action with no transition from that state is refused with an error, and negative actions are refused.",
   ["inputs", "schedules"], "every transition function of the bounded sizes, every state and action, every random draw",
   "there is no test of stochastic transitions at all",
   [MDP], ["MDP.get_next_state"]),
 p("C07", "Trajectories, valid actions and adjacency match the transitions",
   "The actions recovered from a trajectory of consecutive states are the ones most likely to produce each move, for every move in order, and a pair of states with no connecting action is an error; asking for all connecting actions gives exactly those with positive probability. "
   "The valid actions of a state are exactly the actions with some transition, and two states are adjacent exactly when some action leads from the first to the second.",
   ["inputs"], "every transition function of the bounded sizes and every trajectory up to the length bound",
   "tests convert one trajectory on one deterministic grid",
   [MDP], ["MDP._trajectory_to_state_action", "MDP._state_pair_to_action", "MDP.is_adjacent", "MDP.state_valid_actions"]),
 p("C08", "Value iteration computes the optimal values and action values",
   "Value iteration returns action values equal to the expected reward of the state reached plus the discounted value of that state, minus infinity for actions that have no transition, and state values equal to the best available action value (0 for a state with no action); at convergence these are the optimal discounted values within the tolerance, for any rewards including all-negative ones, and after k sweeps they are within discount^k of the optimum. "
   "Iteration stops only once a sweep changes no state value by as much as the tolerance or the iteration limit is reached.",
   ["inputs", "configurations"], "every reward function, feature array and transition function (wall layouts or arbitrary stochastic rows) of the bounded sizes, discounts and sweep limits",
   "tests compare one grid's values with stored numbers and positive rewards; the Bellman equation for all rewards and transition functions is not sampled",
   [DP], ["solve_value_iteration", "state_value_iterator", "get_state_action_values", "delta_update", "ValueIteration._fit"]),
 p("C09", "Soft value iteration backs up the log-sum-exp of available actions",
   "In soft mode every state's value is the logarithm of the sum of the exponentials of the values of its available actions (0 for a state with none), action values are the expected reward of the state reached plus its discounted value, and unavailable actions are minus infinity. "
   "Soft values are never below the best available action value and exceed it by at most the logarithm of the number of available actions.",
   ["inputs", "configurations"], "every reward function and transition function of the bounded sizes",
   "tests check one grid against stored numbers",
   [DP], ["solve_value_iteration", "state_value_iterator"]),
 p("C10", "Greedy action selection picks only, and all of, the best actions",
   "For every table of action values, greedy probabilities are equal over exactly the actions attaining the state's maximum and zero elsewhere, and the chosen action always is one of those maximisers, any of them being reachable; missing (NaN) entries count as minus infinity. "
   "A state whose entries are all missing gets action -1 and missing probabilities; a table that is entirely missing, not two-dimensional or not an array is rejected; the table passed in is not modified.",
   ["inputs", "schedules"], "all action-value tables of the bounded sizes with real, infinite and missing entries, and every random draw",
   "tests use fixed tables with one seed; ties, mixed NaN/-inf rows and every random outcome are not enumerated",
   [AS], ["MaxActionSelector", "ActionSelector.get_pi", "ActionSelector.get_pi_p", "random_max"]),
 p("C11", "Softmax selection is a proper, order-preserving distribution",
   "Softmax probabilities are non-negative, sum to 1 in every state with a value, equal exp(q/T) normalised (so they ignore a constant shift, rank like the action values, give 0 to minus infinity and 1/n each when all are minus infinity), and the temperature must be positive. "
   "The chosen action is drawn according to those probabilities; states whose entries are all missing get action -1 and missing probabilities, and the table passed in is not modified.",
   ["inputs", "schedules"], "all action-value tables of the bounded sizes with real, minus-infinite and missing entries, all positive temperatures, and every random draw",
   "tests check one table at one temperature",
   [AS], ["SoftmaxActionSelector", "softmax"]),
 p("C12", "Stepping an agent keeps position, history, features and counters in step",
   "Each step moves the named agent along its policy's action for the current state to a state with positive transition probability, returns the new position, appends exactly it to that agent's history (which starts with the start position), sets that agent's feature row to 1 at the new position and 0 elsewhere, adds one to the step counter, and changes no other agent. The policy followed is the one the agent's current action values and selector give, drawn anew at every step. "
   "Stepping an unfitted agent, an agent with no valued action in its state, or an unknown agent name is an error that moves nothing.",
   ["histories", "inputs", "schedules"], "every wall layout, start position, action-value table and random draw, for sequences of steps and repositionings up to the bound",
   "tests make a few steps on one grid and compare with stored positions",
   [ENV, AG, MDP], ["Environment.step", "AttachedAgent.step", "AttachedAgent.position", "MDP.update_agent_feature"]),
 p("C13", "Feature consumption removes and counts exactly what the agent eats",
   "When an agent enters a state, each feature it consumes that is present there (value above 0) becomes 0 in that state and its consumption count rises by one; features it does not consume, absent features, other states and other agents' counts are unchanged. "
   "A feature already eaten is not counted again.",
   ["histories", "inputs"], "every feature layout, consumption list, and step sequence within the bounds",
   "one test consumes one feature once",
   [ENV, MDP], ["Environment._consume_features", "MDP.consume_features"]),
 p("C14", "Reset returns agents and features to their starting state",
   "After any history of steps, repositionings and consumption, resetting the environment puts every agent back at its starting position with a history holding just that position, no policy and zero consumption counts, and restores the feature array, including agent rows, to what it was when the environment was built. "
   "A history run again after a reset has the same effects as the first time, and resetting twice is the same as resetting once; a position history the caller read before the reset is not erased by it.",
   ["histories"], "every feature layout and every history of up to three operations, followed by resets",
   "one test resets after one step",
   [ENV, AG, MDP], ["Environment.reset", "AttachedAgent.reset", "MDP.reset"]),
 p("C15", "Environments attach agents with the right features and reject bad specifications",
   "An environment adds one feature row per agent after the model's own features, in the order given, marking that agent's start position, and each agent knows its own row; agents keep their own reward function, consumption list and number of moves. "
   "A reward function of the wrong length, type or dimension, a position that is not an integer state of the model, or a consumed feature index beyond the last is rejected. "
   "Putting a model that already hosts agents into a new environment first removes the old agents' rows, leaving the model's own features.",
   ["configurations", "inputs"], "every number of features and agents, position and reward length within the bounds",
   "tests attach one or two agents to one model",
   [ENV, AG, MDP], ["Environment._set_mdp_and_agents", "AttachedAgent.__init__", "MDP.add_agent_feature", "MDP.remove_agent_features"]),
 p("C16", "Probabilistic stepping propagates the state distribution",
   "Stepping probabilistically returns, for each state, the total over start states and actions of start probability times action probability times transition probability, so a start distribution over states that have valued actions yields a distribution summing to 1; the given distribution is normalised first and defaults to certainty at the agent's position. "
   "Agent position, history and features do not change and the given array is not modified.",
   ["inputs"], "every start distribution, action-value table and transition function of the bounded sizes",
   "one test starts from a single state where contributions do not overlap",
   [AG, ENV], ["AttachedAgent.step_proba", "Environment.step_proba"]),
 p("C17", "Planned moves are split over turns like the documented example",
   "With n moves per turn, t turns, p moves to plan and current move c (0 <= c < n), the plan gives turn i the number of planned moves c..c+p-1 that fall in that turn, so it has t entries between 0 and n that sum to min(p, n*t - c). "
   "A current move at or beyond the moves per turn is rejected.",
   ["inputs"], "all values within the bounds",
   "tests list a few examples",
   [ENV], ["get_n_moves_plan"]),
 p("C18", "Multi-step moves make the requested steps and stop when another agent is caught",
   "Moving an agent several steps takes exactly the requested number of single steps (the given count, the first entry of a list, or the agent's own number of moves) in order and returns the positions reached; when stopping on a catch is enabled and the agent lands on an agent it consumes, it stops right there and returns False, otherwise it goes on. "
   "With refitting, the agent is refitted before each step and its planner is told, per agent with the moving agent first, the planned moves per turn for the current step, in turns of each agent's number of moves and over the supplied planning totals (without totals, the moving agent plans over the requested number of steps). "
   "Unknown names, planning totals of the wrong length or with a non-positive entry are rejected before anything moves.",
   ["histories", "inputs", "configurations"], "every step count, planning total, position, consumption relation and action-value table within the bounds",
   "tests run two or three configurations",
   [ENV], ["Environment.step_multi", "Environment._check_agents_caught", "Environment._get_all_agents_n_steps"]),
 p("C19", "Interactive turns move agents in order for their number of moves",
   "Moving several agents over several turns makes, in every turn and in the given order of agents, exactly each agent's number of moves for that turn (from the agents or the supplied table, whose width is the number of turns), leaves the supplied tables unmodified, and stops completely as soon as a move catches an agent when stopping on a catch is enabled.",
   ["histories", "configurations"], "every order of agents, turn count and move table within the bounds, with and without a catch",
   "no test calls it",
   [ENV], ["Environment.step_multi_interactive"]),
 p("C20", "Tree search only simulates legal moves and leaves the world alone",
   "Planning by tree search changes neither the model, its features, nor any agent; every simulated path starts next to the agent's position, moves only along existing transitions and makes exactly the planned number of own moves unless the agent is caught (when fitted without a plan, the configured number of steps in turns of the agent's number of moves). "
   "Afterwards action values are present exactly for the available actions of the agent's position (missing everywhere else) and equal the successor's accumulated value divided by one plus its visit count.",
   ["inputs", "schedules", "configurations"], "every wall layout, feature layout, reward function and every random choice of the search within the bounds",
   "tests run one seeded search and check that it finishes",
   [MC], ["mcts_iteration", "run_mcts", "get_MCTS_action_values", "MCTS._fit", "MCTS_next_node"]),
 p("C21", "Tree search statistics are the sums over simulated paths",
   "After tree search, a state's visit count is the number of times it occurs on the simulated paths and its value is the sum, over those occurrences, of the total return of the path; a path's return is the sum of rewards of the states entered, given the features still present at that time, plus rewards and costs of catches. "
   "While some successor of the current node is unvisited an unvisited one is chosen; once all are visited the one with the best upper confidence bound is (exploration counts nothing when the current node itself is unvisited); after the first new state the rest of the path may go to any successor.",
   ["inputs", "schedules"], "every reward function, feature layout and random choice of the search within the bounds",
   "tests check helper outputs on single fixed arrays",
   [MC], ["mcts_iteration", "run_mcts", "UCB", "MCTS_next_node"]),
 p("C22", "Catching in the search: reward once, cost once, then out of play",
   "In interactive search an agent is caught when an agent that consumes it shares its state: a caught primary agent ends the path with the catch cost added once, a caught other agent gives the primary its value once if the primary eats it, and then no longer moves, eats or is eaten. "
   "Catches are judged before every simulated move and after the last one; when two agents would eat each other the primary eats first. Agents that are not in the same state, or where neither consumes the other, do not affect each other.",
   ["inputs", "schedules", "histories"], "every consumption relation, position, value and activity pattern for up to three agents",
   "tests check two fixed position triples",
   [MC], ["check_agent_overlap", "get_agent_consumes", "get_agent_values", "extract_agent_info"]),
 p("C23", "Simulated opponents act greedily on their own rewards; caching changes nothing",
   "A simulated opponent moves to a state reachable by an action that is best under its own action values (any best one), or with non-zero softmax probability, or any reachable state when random; opponents' values come from the current positions and remaining features. "
   "Switching caching on gives the same simulated behaviour as switching it off.",
   ["inputs", "schedules", "configurations"], "every reward function, layout and random choice of the search within the bounds",
   "tests only run with one layout and no caching comparison",
   [MC], ["get_opponent_next_state", "mcts_iteration"]),
 p("C24", "Saved environments load back identical",
   "Converting a hexagonal environment to a dictionary or JSON and back gives an environment with the same shape, self-transition setting, walls, transitions, features, and for each agent in the same order the same name, position, number of moves, reward weights (fractions included), consumption list, planning algorithm and action selector with their settings. "
   "Saving again gives the same dictionary, and saving does not modify the environment.",
   ["inputs", "configurations"], "every wall and 0/1 feature layout, position and real-valued reward function within the bounds",
   "no test round-trips an environment",
   [IO], ["hex_env_to_dict", "hex_env_to_json", "hex_environment_from_dict", "hex_environment_from_json"]),
 p("C25", "Expected state visitation sums the policy's occupancy",
   "The state visitation frequencies after n iterations are the sums, over steps 0 to n-1, of the probability of being in each state when starting from the given distribution and following the given policy and transition function; their total is therefore n whenever every reachable state has a full action and transition distribution. "
   "The inputs are not modified.",
   ["inputs"], "every policy, transition function and start distribution of the bounded sizes",
   "tests check shape or one stored array",
   [IRL], ["state_visitation_iterator"]),
 p("C26", "Maximum-entropy reward learning steps along the feature-expectation error",
   "Each iteration of maximum entropy reward learning adds to the reward weights the learning rate times the difference between the demonstrators' mean feature counts (each trajectory's counts divided by its length, averaged over trajectories) and the mean features per step expected under the policy for the current weights (starting like the demonstrators, over as many steps as the planner's iteration limit); the learning rate on iteration i is the initial rate times i^-decay (constant without decay); ignored features keep weight 0; learning stops early once the mean absolute error is below the tolerance. "
   "Resetting restores the initial weights and learning rate whatever was fitted in between, and arrays supplied by the caller are not modified.",
   ["inputs", "histories"], "every set of trajectories, feature array, initial weights and decay within the bounds",
   "tests fit once on one grid",
   [IRL], ["MaxCausalEntIRL._solve_maxcausalent", "MaxCausalEntIRL.reset"]),
 p("C27", "Policy learning moves action preferences toward the observed actions",
   "For every observed action, in order over all trajectories, each action's preference moves toward 1 if it was taken and 0 otherwise (or, with the kernel, toward the squared exponential exp(-(d*ls)^2/2) of the angular distance d in degrees to the taken action) by the learning rate times n^-decay for the n-th action (constant without decay), each trajectory being read in its own model; empty trajectories change nothing. "
   "Resetting restores the initial preferences whatever was fitted in between, and arrays supplied by the caller are not modified.",
   ["inputs", "histories"], "every initial preference vector, learning rate, decay and trajectory set within the bounds",
   "no test covers it beyond one run",
   [PL], ["TDGeneralPolicyLearner._fit_TD_policy", "TDGeneralPolicyLearner.reset", "degdist", "deg_sq_exp_kernel"]),
 p("C28", "Feature-counting reward learners count exactly the features seen",
   "Feature matching returns, for every non-ignored feature, the total over trajectories of the feature's values in the states after the start state, each trajectory read in its own model, and 0 for ignored features. "
   "The line-of-sight learner sums, per observed move, the features of all states from the start of the move along the moved direction to the end of the line (where it stops reaching new states; normalised per trajectory), and its contrast subtracts the same quantity for the directions not taken (staying put is not a direction).",
   ["inputs"], "every feature array and trajectory on the bounded grids",
   "tests check one trajectory each or none",
   [IRL], ["MFFeatureMatching.fit", "get_eyeline_features", "get_trajectory_eyeline_features", "get_trajectory_eyeline_features_diff", "SimpleActionIRL", "SimpleActionFeatureDiffIRL"]),
 p("C29", "Successor representation satisfies its Bellman equation",
   "The state-action successor representation M of a deterministic model satisfies M = I + gamma * P * M, where P moves from a state and action to the successor state with each of its actions equally likely (and nowhere if the action has no transition). "
   "Action values derived from it are the M-weighted sums of state rewards, minus infinity for actions with no transition.",
   ["inputs"], "every deterministic transition function of the bounded sizes, discount, weights and features",
   "tests check one array's shape or stored numbers",
   [SR], ["get_sa_sr", "get_sr_q_values"]),
 p("C30", "Seeded components are reproducible and independent",
   "Two action selectors or models built with the same seed and used in the same way make the same random choices whatever other random numbers are drawn in between, and a seeded component never consumes the global random stream; an unseeded one takes its randomness from the global stream.",
   ["schedules", "histories"], "every action-value table and random stream within the bounds, with arbitrary draws interleaved",
   "tests compare one seed on one table",
   [AS, MDP], ["MaxActionSelector", "SoftmaxActionSelector", "MDP.get_next_state"]),
 p("C31", "Fitting validates its input, publishes complete results and can be reset",
   "Fitting any planning algorithm accepts only a one-dimensional reward array with one entry per feature, and on success publishes one value per state and one action value per state and action and marks itself fitted; a rejected fit leaves the previous results in place, and reset returns it to the unfitted state. "
   "Policies are only available from a fitted agent, and the null planner values everything at 1.",
   ["inputs", "histories"], "every reward length and history of fits, failed fits and resets within the bounds",
   "tests fit once per algorithm",
   [BA, AG, ENV], ["Algorithm.fit", "Algorithm.reset", "Null", "Environment.get_agent_pi", "Environment.get_agent_pi_p"]),
 p("C32", "Plots put every state at its own place",
   "Feature, wall and state-value maps of square and hexagonal grids show every cell at the place of its own state, with as many cells across and down as the grid has, one layer per feature in its own colour and transparency, whether or not there are agents. "
   "Positions of different states differ, states one move apart are drawn at one common distance and all others further away. Agents, trajectory arrows and step numbers are drawn at the positions of their states, in order and with the style given, and plotting changes nothing.",
   ["inputs", "configurations"], "every feature, wall and value layout, position and trajectory on the grids within the bounds",
   "no test looks at plots",
   [PLOT, MDP, ENV, AG], ["plot_hex_grids", "plot_grids", "plot_trajectory", "plot_sequence", "plot_grid_values", "plot_hex_grid_values", "HexGridMDP.state_to_position", "Environment.plot"]),
]
