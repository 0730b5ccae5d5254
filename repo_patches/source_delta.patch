From 1b214d6662e0535c80b61b0e23d8fa871c79e043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:48 +0000
Subject: [PATCH 01/39] fix: sample stochastic transitions with the configured
 RNG

get_next_state() used rng.random.choice and np.int, neither of which exists, so
every step in a stochastic MDP raised.
---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 83ef70f..78dfd79 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -219,7 +219,7 @@ class MDP():
         if self._deterministic:
             next_state = np.argmax(possible_states)
         else:
-            next_state = self.rng.random.choice(np.arange(len(possible_states), dtype=np.int), p=possible_states)
+            next_state = self.rng.choice(np.arange(len(possible_states)), p=possible_states)
 
         return next_state
 
-- 
2.43.0


From 503fb86fe8723f39d937e318ea40dbe8b5e332c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:48 +0000
Subject: [PATCH 02/39] fix: accumulate all contributions in step_proba

Probabilities of reaching the same state by different routes overwrote each other, and a
single sampled successor was used instead of the transition distribution.
---
 maMDP/agents.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index cb2acea..b97a65e 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -216,8 +216,8 @@ class AttachedAgent():
 
         for s in current_states:
             for action in range(self.pi_p.shape[1]):
-                next_state = self._parent_mdp.get_next_state(s, action)
-                next_states_p[next_state] = self.pi_p[s, action] * position[s]
+                if self.pi_p[s, action] > 0:
+                    next_states_p += self.pi_p[s, action] * position[s] * self._parent_mdp.sas[s, action, :]
 
         return next_states_p
 
-- 
2.43.0


From 0d431aa9d132ca1a0e91303d733e04beb0f46573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:48 +0000
Subject: [PATCH 03/39] fix: refuse unavailable actions in get_next_state

An action with no outgoing transition silently moved the agent to state 0.
---
 maMDP/mdp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 78dfd79..e9349a0 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -216,6 +216,9 @@ class MDP():
         # Get possible transitions given the best action
         possible_states = self.sas[current_state, action, :]
 
+        if not np.any(possible_states > 0):
+            raise ValueError('Action {0} is not available in state {1}'.format(action, current_state))
+
         if self._deterministic:
             next_state = np.argmax(possible_states)
         else:
-- 
2.43.0


From 7ea1803fdb66925998cc902a6ba1d1d9fa5ab622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:48 +0000
Subject: [PATCH 04/39] fix: report out of range agent positions

The position check raised an IndexError while formatting its own message, negative positions
were accepted, and a failed construction left the MDP counting an agent whose feature was
never added.
---
 maMDP/agents.py       | 4 ++--
 maMDP/environments.py | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index b97a65e..ad8e9d2 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -137,9 +137,9 @@ class AttachedAgent():
     @position.setter
     def position(self, new_position:int):
 
-        if new_position >= self._parent_mdp.n_states:
+        if new_position < 0 or new_position >= self._parent_mdp.n_states:
             raise ValueError("Position must be less than the number of states in the parent MDP. " 
-                             "Provided position {0}, MDP has {1} states".format(self._parent_mdp.n_states))
+                             "Provided position {0}, MDP has {1} states".format(new_position, self._parent_mdp.n_states))
 
         if self.__starting_position is None:
             self.__starting_position = new_position
diff --git a/maMDP/environments.py b/maMDP/environments.py
index 6b509aa..56f1a4b 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -129,6 +129,13 @@ class Environment:
                     "Agent {0}: Position should be an int".format(agent_object.name)
                 )
 
+            if position < 0 or position >= mdp.n_states:
+                raise ValueError(
+                    "Agent {0}: Position {1} is not a state of the MDP, which has {2} states".format(
+                        agent_object.name, position, mdp.n_states
+                    )
+                )
+
             if not len(reward_function) == original_mdp_n_features + self.n_agents:
                 raise AttributeError(
                     "Agent {0}: Agent reward function must have the same number of entries"
-- 
2.43.0


From 9936fce27c846e058bc7981a09f1e205179d549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:48 +0000
Subject: [PATCH 05/39] fix: clear consumption counts when an agent is reset

---
 maMDP/agents.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index ad8e9d2..1ca5be8 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -227,6 +227,7 @@ class AttachedAgent():
         self.pi = None
         self.pi_p = None
         self.position_history = [self.__starting_position]
+        self.consumed = np.zeros(len(self.reward_function))
 
     def plot(self, ax:plt.axes, marker:str="X", *args, **kwargs):
         """
-- 
2.43.0


From a0633137aaa8bdbc627aaf01e7b290dfe29eed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:48 +0000
Subject: [PATCH 06/39] fix: derive adjacency and determinism from the walled
 transitions

The walls setter edited the transition array after adjacency had been computed from it, and
required a grid shape, so a plain MDP could not be constructed at all.
---
 maMDP/mdp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index e9349a0..75afb7c 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -122,21 +122,23 @@ class MDP():
         # Check shape etc
         if not walls.ndim == 1:
             raise AttributeError("Array specifying walls must be 1 dimensional")
-        if not walls.shape == np.product(self.shape):
+        if not walls.shape[0] == self.n_states:
             raise AttributeError("Walls array must have the same number of entries as the number of states. Expected {0}, "
                                 "got {1}".format(self.sas.shape[0], walls.shape))
         if not np.all(np.isin(walls, [0, 1])):
             raise ValueError("Wall array values must be either 0 (no wall) or 1 (wall)")
 
         # Reset SAS
-        self.sas = self.__original_sas.copy()
+        sas = self.__original_sas.copy()
 
         # Add array
         self.__walls = walls
 
         # Adjust SAS
-        self.sas[:, :, walls == 1] = 0 # Make it impossible to transition to these states
-        self.sas[walls == 1, :, :] = 0 # Make it impossible to transition from these states
+        sas[:, :, walls == 1] = 0 # Make it impossible to transition to these states
+        sas[walls == 1, :, :] = 0 # Make it impossible to transition from these states
+
+        self.sas = sas
 
     def _get_walls(self, walls):
         return walls
-- 
2.43.0


From bd9cdb9f57817592518496702c11e3d309600b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:48 +0000
Subject: [PATCH 07/39] fix: do not zero the caller's wall array in reset_walls

The array is shared with whoever supplied it, including other MDPs built from it.
---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 75afb7c..fc0d2a4 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -423,7 +423,7 @@ class GridMDP(MDP, metaclass=ABCMeta):
 
     def reset_walls(self):
 
-        self.walls *= 0
+        self.walls = np.zeros_like(self.walls)
 
 
     def plot_trajectory(self, trajectory:List[int], ax:plt.axes, colour:str='black', 
-- 
2.43.0


From 0228adc1a092bd51d4f105e944855bee609a5821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:48 +0000
Subject: [PATCH 08/39] fix: reject NaN transition probabilities

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index fc0d2a4..d0c0861 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -60,7 +60,7 @@ class MDP():
         if  not sas.ndim == 3 or not sas.shape[0] == sas.shape[2]:
             raise TypeError('SAS should be a numpy array of shape (states, actions, states)')
 
-        if np.min(sas) < 0 or np.max(sas) > 1:
+        if not (np.min(sas) >= 0 and np.max(sas) <= 1):
             raise AttributeError('SAS should contain probabilities between 0 and 1,'
                                  'min value provided = {0}, max value provided = {1}'.format(np.min(sas), np.max(sas)))
 
-- 
2.43.0


From d17a7f25b4c533797c34279440dfd09f30bbd859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:47 +0000
Subject: [PATCH 09/39] fix: leave unavailable actions out of the value
 iteration backup

Actions with no outgoing transition took part in the max (and the soft max) with value 0,
which is wrong as soon as all available actions have negative value.
---
 maMDP/algorithms/dynamic_programming.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/maMDP/algorithms/dynamic_programming.py b/maMDP/algorithms/dynamic_programming.py
index adda596..43b194f 100644
--- a/maMDP/algorithms/dynamic_programming.py
+++ b/maMDP/algorithms/dynamic_programming.py
@@ -113,15 +113,19 @@ def state_value_iterator(values:np.ndarray, delta:float, reward:np.ndarray,
         # Values of each action taken from state s
         action_values = get_state_action_values(s, n_actions, sas, reward, discount, values)
 
+        # Ignore actions that the agent can't take
+        valid_actions = np.where(sas[s, ...].sum(axis=-1) > 0)[0]
+
         # Update action values
-        if not soft:
+        if len(valid_actions) == 0:
+            values[s] = 0
+        elif not soft:
             # Max
-            values[s] = action_values.max()
+            values[s] = action_values[valid_actions].max()
         else:
             # Softmax (e.g. Bloem & Bambos, 2014)
-            valid_actions = np.argwhere(sas[s, ...])[:, 0]  # Ignore actions that the agent can't take
             # action_values
-            values[s] = np.log(np.sum(np.exp(action_values)) + 1e-200)  # Add a small amount here to avoid doing log(0) and getting -inf
+            values[s] = np.log(np.sum(np.exp(action_values[valid_actions])) + 1e-200)  # Add a small amount here to avoid doing log(0) and getting -inf
 
         # Update Q value for each action in this state
         q_values[s, :] = action_values
-- 
2.43.0


From c53c382310b1a9224a021646cff29db90af87e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:15 +0000
Subject: [PATCH 10/39] fix: keep fractional reward weights when saving
 environments

---
 maMDP/env_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 729c537..0a2aca2 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -58,7 +58,7 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
 
         agent_dict[agent_name]['n_moves'] = agent.n_moves
 
-        agent_dict[agent_name]['reward_function'] = [int(i) for i in list(agent.reward_function)]
+        agent_dict[agent_name]['reward_function'] = [i.item() for i in agent.reward_function]
         agent_dict[agent_name]['consumes'] = agent.consumes
 
         agent_dict[agent_name]['algorithm'] = agent.algorithm.name
-- 
2.43.0


From 542652567908e990bafb2d62624f5b7c58d1e511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:15 +0000
Subject: [PATCH 11/39] fix: restore features when no feature names are given

hex_environment_from_json() cannot pass feature names on, so every environment loaded
from JSON had empty features.
---
 maMDP/env_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 0a2aca2..766cd72 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -102,6 +102,8 @@ def hex_environment_from_dict(env_dict, feature_names=[]):
     else:
         n_features = len(env_dict['features'])
         features = np.zeros((n_features, np.product(env_dict['size'])))
+        if not len(feature_names):
+            feature_names = list(env_dict['features'])
         for n, f in enumerate(feature_names):
             # print("CREATING ENV", n, f)
             states = env_dict['features'][f]
-- 
2.43.0


From 2e9096f4810724c39a5777238f5c75fec7e75d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:15 +0000
Subject: [PATCH 12/39] fix: let hex_env_to_dict default its feature names

---
 maMDP/env_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 766cd72..fc01f9a 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -23,6 +23,9 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
         Dict: Returns a dictionary specifying shape of the grid, agent positions and properties, MDP properties
     """
 
+    if feature_names is None:
+        feature_names = env.mdp.feature_names[:env.mdp.n_features - len(env.agents)]
+
     if not (env.mdp.n_features - len(env.agents)) == len(feature_names):
         raise AttributeError('Number of feature names should equal number of features, excluding agents')
 
-- 
2.43.0


From da89ace37f3a8318423177993176424c284db461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:58 +0000
Subject: [PATCH 13/39] fix: plan over the requested number of steps in
 step_multi

---
 maMDP/environments.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index 56f1a4b..e69db23 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -330,7 +330,7 @@ class Environment:
         # If not provided this will just be the number of steps the agent is expected to make
         if n_moves_plan is None:
             # Get number of moves for each agent and put in a list
-            n_moves_plan = n_agent_steps
+            n_moves_plan = copy(n_agent_steps)
         # Otherwise use the values provided
         else:
             n_moves_plan = copy(
@@ -352,6 +352,10 @@ class Environment:
         # If a list is given, take the first value as the number of steps for the primary agent
         elif isinstance(n_steps, list):
             n_steps_primary_agent = n_steps[0]
+            n_agent_steps[:len(n_steps)] = n_steps
+
+        # The agent being moved makes the requested number of steps per turn
+        n_agent_steps[0] = n_steps_primary_agent
 
         # Check that number of planning moves for all agents is > 0
         if not all([i > 0 for i in n_moves_plan]):
-- 
2.43.0


From e10a80fb89bf4f25bcadbe11c742d30203d51a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:31 +0000
Subject: [PATCH 14/39] fix: make step_multi_interactive move agents over their
 turns

---
 maMDP/environments.py | 64 ++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index e69db23..61515b3 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -458,65 +458,67 @@ class Environment:
             `agent.n_moves` attribute or the `n_moves_plan` argument). If an int is provided, this represents the total expected
             number of moves, and planning steps will only decrement once they go beyond this. For example, if `n_moves_plan` indicates
             that the agent should plan 6 moves ahead but `adjust_planning_steps` is set to 10, the number of planning steps will
-            only be decremented after the 4th move. Defaults to True.
+            only be decremented after the 4th move. Defaults to True. Currently has no effect, as planning moves are always distributed
+            over turns by step_multi.
         """
 
-        # Get number of moves for each agent if not provided
-        if n_moves is None:
-            agent_names = [agent_name] + [
-                i for i in self.agent_names if not i == agent_name
-            ]  # Put primary agent first
-            n_moves = [[[self.agents[i].n_moves] * n_turns for i in agent_names]]
-        else:
-            n_moves = copy(n_moves)  # avoid modifying the original that was provided
-            n_turns = len(n_moves[0])  # Get number of turns from n_moves
-
-        # Get the number of planning moves
-        if n_moves_plan is None:
-            n_moves_plan = copy(n_moves)
-
         if agent_names is None:
             agent_names = self.agent_names
 
         for agent_name in agent_names:
             self._check_agent_name(agent_name)
 
+        # Get number of moves for each agent if not provided
+        if n_moves is None:
+            n_moves = [[self.agents[i].n_moves] * n_turns for i in agent_names]
+        else:
+            n_moves = copy(n_moves)  # avoid modifying the original that was provided
+            n_turns = len(n_moves[0])  # Get number of turns from n_moves
+
         if progressbar:
             turns = progress_bar(range(n_turns))
         else:
             turns = range(n_turns)
 
-        agent_steps = dict([(a, self.agents[a].n_moves) for a in agent_names])
-
-        # Need to determine the total number of planning steps
-        if adjust_planning_steps is True:
-            adjust_planning_steps = sum((sum(i) for i in n_moves))
-
         for t in turns:
 
             for n, agent_name in enumerate(agent_names):
 
                 positions = self.step_multi(
                     agent_name,
-                    agent_steps[agent_name],
+                    n_steps=int(n_moves[n][t]),
                     refit=refit,
-                    n_steps=n_moves[n][t],
                     n_turns_plan=n_turns - t,
-                    n_moves_plan=n_moves_plan,
-                    adjust_planning_steps=adjust_planning_steps,
+                    n_moves_plan=self._get_turn_n_moves_plan(
+                        agent_name, agent_names, n_moves_plan, t
+                    ),
                     stop_on_caught=stop_on_caught,
                 )
 
-                if positions == False and stop_on_caught:
+                if positions is False and stop_on_caught:
                     warnings.warn("Agent was caught, stopping")
                     return
 
-                # Decrement adjust_planning_steps (this should work...)
-                if isinstance(adjust_planning_steps, int):
-                    adjust_planning_steps -= n_moves[n][t]
+    def _get_turn_n_moves_plan(self, agent_name, agent_names, n_moves_plan, turn):
+        """
+        Total number of moves to simulate for each agent from the given turn onwards, with the agent being
+        moved first. Agents for which no planning moves are given use their own number of moves.
+        """
+
+        if n_moves_plan is None:
+            return None
+
+        total_moves_plan = dict(zip(agent_names, n_moves_plan))
+
+        turn_n_moves_plan = []
+        for i in [agent_name] + [i for i in self.agent_names if not i == agent_name]:
+            total = total_moves_plan.get(i, self.agents[i].n_moves)
+            # Moves given per turn - count those in the remaining turns
+            if not np.isscalar(total):
+                total = sum(total[turn:])
+            turn_n_moves_plan.append(total)
 
-                # Update number of planning moves for each agent
-                n_moves_plan[n] = n_moves_plan[n][t + 1 :]
+        return turn_n_moves_plan
 
     def reset(self):
         """
-- 
2.43.0


From c669ee61f0ab28dc7159c3e6970de2b091884e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:54 +0000
Subject: [PATCH 15/39] fix: let MCTS plan when no moves per turn are given

---
 maMDP/algorithms/mcts.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index a7209eb..e6f9cf5 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -5,6 +5,7 @@ from typing import Dict, Tuple, List, Union
 from .dynamic_programming import solve_value_iteration
 from .successor_representation import get_sa_sr, get_sr_q_values
 from ..mdp import MDP
+from ..environments import get_n_moves_plan
 from .action_selection import softmax
 import warnings
 import time
@@ -702,7 +703,7 @@ def run_mcts(
 
     # Only used the extracted number of moves if n_moves has not been specified
     if n_moves is None:
-        n_moves = extracted_n_moves
+        n_moves = [[i] for i in extracted_n_moves]
 
     # Remove agent features
     features = features.copy()
@@ -938,6 +939,17 @@ class MCTS(Algorithm):
                 "Interactive MCTS algorithm must be used in the context of an interactive environment"
             )
 
+        # Use the number of steps and the agents' own number of moves if no moves are given
+        if n_moves is None:
+            n_turns = int(np.ceil(self.n_steps / self._agent.n_moves))
+            n_moves = [
+                get_n_moves_plan(0, n_turns, self._agent.n_moves, self.n_steps)
+            ]
+            if self.interactive:
+                for agent_name, agent in self._environment.agents.items():
+                    if not agent_name == self._agent.name:
+                        n_moves.append([agent.n_moves] * n_turns)
+
         # Reset things
         self.reset()
 
-- 
2.43.0


From 6d58f0b58b811fff818fae3ff7a8ff9d9bd771e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:54 +0000
Subject: [PATCH 16/39] fix: only simulate the primary agent's moves in
 non-interactive MCTS

---
 maMDP/algorithms/mcts.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index e6f9cf5..f0f51e4 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -312,8 +312,8 @@ def mcts_iteration(
         along with cached Q values.
     """
 
-    # Total number of steps is total number of moves in n_moves
-    n_steps = sum([sum(n) for n in n_moves])
+    # Total number of steps is total number of moves in n_moves (only the primary agent moves if not interactive)
+    n_steps = sum([sum(n) for n in (n_moves if interactive else n_moves[:1])])
 
     expand = True  # This determines whether we expand or simulate
     accumulated_reward = 0  # Total reward accumulated across all states
@@ -354,7 +354,7 @@ def mcts_iteration(
     while total_steps < n_steps:
 
         # If this agent is supposed to be moving
-        if n_moves[current_actor][current_turns[current_actor]] > 0:
+        if not interactive or n_moves[current_actor][current_turns[current_actor]] > 0:
 
             # Set corresponding agent feature
             features[agent_feature_idx[current_actor], :] = 0
-- 
2.43.0


From ef079511d989df42cbbb7d12146ae7c98dd953ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:54 +0000
Subject: [PATCH 17/39] fix: simulate MCTS opponents without any reward

---
 maMDP/algorithms/mcts.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index f0f51e4..c2366cf 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -9,7 +9,6 @@ from ..environments import get_n_moves_plan
 from .action_selection import softmax
 import warnings
 import time
-from operator import itemgetter
 
 
 @njit
@@ -406,7 +405,7 @@ def mcts_iteration(
                         np.arange(len(current_node)) != current_actor
                     ]
                     feature_consumption = tuple(
-                        itemgetter(*agent_preferences[current_actor])(consumed_features)
+                        consumed_features[f] for f in agent_preferences[current_actor]
                     )
 
                     if (
-- 
2.43.0


From 9d849fb111f428274e454b746b2780c1c5e110e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:54 +0000
Subject: [PATCH 18/39] fix: record each consumed feature separately when
 caching in MCTS

---
 maMDP/algorithms/mcts.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index c2366cf..70ccf23 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -466,13 +466,7 @@ def mcts_iteration(
                 if caching:
                     for f in np.where(consumes_features[current_actor, :])[0]:
                         # Check there is something to consume
-                        if (
-                            features[
-                                consumes_features[current_actor, :],
-                                current_node[current_actor],
-                            ]
-                            != 0
-                        ):
+                        if features[f, current_node[current_actor]] != 0:
                             consumed_features[f] = consumed_features[f] + (
                                 current_node[current_actor],
                             )
-- 
2.43.0


From 80fc01cb97e1bfed877c17c365d99e6830f55136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:54 +0000
Subject: [PATCH 19/39] fix: keep eaten agents out of play in MCTS

---
 maMDP/algorithms/mcts.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 70ccf23..6544bc6 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -224,7 +224,12 @@ def check_agent_overlap(
         agent2 = consumed_agents[n]
 
         # If agents are in the same state
-        if current_node[agent1] == current_node[agent2]:
+        # (agents that have already been eaten no longer take part)
+        if (
+            agents_active[agent1]
+            and agents_active[agent2]
+            and current_node[agent1] == current_node[agent2]
+        ):
             # set the agent inactive
             agents_active[agent2] = False
             # If Agent 2 is the primary agent, end the iteration
-- 
2.43.0


From 1cab6c7e345fbcdb7a709f9e34ffc39b9987c72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:54 +0000
Subject: [PATCH 20/39] fix: avoid NaN upper confidence bounds for unvisited
 nodes

---
 maMDP/algorithms/mcts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 6544bc6..b300aa0 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -140,8 +140,11 @@ def UCB(
         np.ndarray: UCB for each state
     """
 
+    # The starting node may not have been visited itself
+    node_N = max(N[node], 1)
+
     ucb = (V[states] / (1 + N[states])) + C * np.sqrt(
-        (2 * np.log(N[node])) / (1 + N[states])
+        (2 * np.log(node_N)) / (1 + N[states])
     )
 
     return ucb
-- 
2.43.0


From 39e562fa7937f523a473fb87ff2b26495f6cd683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:54 +0000
Subject: [PATCH 21/39] fix: call value iteration with its own arguments in
 solve_all_value_iteration

---
 maMDP/algorithms/mcts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index b300aa0..84afbc1 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -797,6 +797,8 @@ def solve_all_value_iteration(
         (sas.shape[0], sas.shape[0], sas.shape[1])
     )  # Prey idx X opponent_states X actions
 
+    features = features.copy()
+
     for prey_state in range(features.shape[1]):
 
         # Set prey feature according to the current prey location
@@ -805,8 +807,6 @@ def solve_all_value_iteration(
 
         # Do value iteration
         _, all_q_values[prey_state, ...] = solve_value_iteration(
-            sas.shape[0],
-            sas.shape[1],
             predator_reward_function,
             features,
             max_iter,
-- 
2.43.0


From 3e47f92afc3da70fbfcf440ac2aa8b2148d38658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:18 +0000
Subject: [PATCH 22/39] fix: let MCTS opponents see where agents have moved to

---
 maMDP/algorithms/mcts.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 84afbc1..19e1970 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -382,6 +382,10 @@ def mcts_iteration(
                         other_agent_visited_states,
                     )
 
+                # Agents that have been eaten are no longer present
+                for agent in np.where(~agents_active)[0]:
+                    features[agent_feature_idx[agent], :] = 0
+
             # Get actions and resulting states from current node for the current actor
             _, _, states = get_actions_states(sas, current_node[current_actor])
 
@@ -470,6 +474,10 @@ def mcts_iteration(
             # Consume features in this state
             if agents_active[current_actor]:
 
+                # The agent is now in its new state
+                features[agent_feature_idx[current_actor], :] = 0
+                features[agent_feature_idx[current_actor], current_node[current_actor]] = 1
+
                 # Keep a record of what's been consumed
                 if caching:
                     for f in np.where(consumes_features[current_actor, :])[0]:
-- 
2.43.0


From 3015e331369003ad909b537c5aa07a1108ea1205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:18 +0000
Subject: [PATCH 23/39] fix: notice agents caught on the last simulated move

---
 maMDP/algorithms/mcts.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 19e1970..8677ab9 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -514,7 +514,12 @@ def mcts_iteration(
                 else:
                     current_actor = 0
 
-
+    # Check whether any agents were eaten on the last move
+    if interactive:
+        added_reward, agents_active, _ = check_agent_overlap(
+            consumes_agents, current_node, caught_cost, agents_active, agent_values
+        )
+        accumulated_reward += added_reward
 
     return (
         accumulated_reward,
-- 
2.43.0


From 53d1ce64c93f1898737675be4baf01c4484f4ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:18 +0000
Subject: [PATCH 24/39] fix: only reuse cached MCTS opponent values for the
 same situation

---
 maMDP/algorithms/mcts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 8677ab9..030ae87 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -419,6 +419,10 @@ def mcts_iteration(
                     feature_consumption = tuple(
                         consumed_features[f] for f in agent_preferences[current_actor]
                     )
+                    # Eaten agents, and the agent's own position if it matters to it, also affect its values
+                    feature_consumption += tuple(agents_active)
+                    if agent_feature_idx[current_actor] in agent_preferences[current_actor]:
+                        feature_consumption += (current_node[current_actor],)
 
                     if (
                         caching
-- 
2.43.0


From 422e48d2a0a69082d12bdc615332ed60db8bdbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:57 +0000
Subject: [PATCH 25/39] fix: sampled action index cannot run past the end
 through rounding

---
 maMDP/algorithms/mcts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 030ae87..a76bfa5 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -19,8 +19,9 @@ def rand_choice_nb(arr, p):
     :param prob: A 1D numpy array of probabilities for the given samples.
     :return: A random sample from the given array with a given probability.
     """
-    prob = p / p.sum()
-    return arr[np.searchsorted(np.cumsum(prob), np.random.random(), side="right")]
+    # Scale by the total so that rounding cannot push the sample past the last entry
+    cdf = np.cumsum(p)
+    return arr[np.searchsorted(cdf, np.random.random() * cdf[-1], side="right")]
 
 
 @njit
-- 
2.43.0


From 96b02726eb8ef4c76061b2610c64b098539f7071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:59 +0000
Subject: [PATCH 26/39] fix: weight every demonstrated trajectory equally in
 MaxCausalEntIRL

---
 maMDP/algorithms/irl.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 4595cdb..128b4ed 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -174,9 +174,8 @@ class MaxCausalEntIRL(BaseIRL):
         # Get empirical state visitation counts
         for t in trajectories:
             for s in t:
-                visited_states[s] += 1
-            # Normalise
-            visited_states /= len(t)
+                # Normalise by trajectory length
+                visited_states[s] += 1 / len(t)
         # Normalise
         visited_states /= len(trajectories)
 
-- 
2.43.0


From a6e8430b561b3ebcff88686d7a3c4c10a4a8cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:59 +0000
Subject: [PATCH 27/39] fix: compare observed and expected features on the same
 scale in MaxCausalEntIRL

---
 maMDP/algorithms/irl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 128b4ed..bfdd88a 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -161,8 +161,8 @@ class MaxCausalEntIRL(BaseIRL):
         # Get state visitation frequencies
         self._get_state_visitation_frequencies(mdp, trajectories, pi, self.max_iter)
 
-        # Get feature counts
-        deltaF = (mdp.features * self.D_).sum(axis=1).astype(float)
+        # Get feature counts, per step like the observed counts
+        deltaF = (mdp.features * self.D_).sum(axis=1).astype(float) / self.max_iter
 
         return deltaF
             
-- 
2.43.0


From e4c37313667dca05329431618665931adb0697ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:59 +0000
Subject: [PATCH 28/39] fix: only ignore the requested features in
 MaxCausalEntIRL

---
 maMDP/algorithms/irl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index bfdd88a..f43e2e1 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -168,6 +168,9 @@ class MaxCausalEntIRL(BaseIRL):
             
     def _solve_maxcausalent(self, mdp, trajectories, ignore_features=(), show_progress=True):
         
+        # An empty tuple would index (and so ignore) every feature
+        ignore_features = list(ignore_features)
+
         # Get observed state visitation counts
         visited_states = np.zeros(mdp.n_states)
         
-- 
2.43.0


From ec34ef2ebe0315011cba0977a04519563f509ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:59 +0000
Subject: [PATCH 29/39] fix: decay the MaxCausalEntIRL learning rate as
 documented

---
 maMDP/algorithms/irl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index f43e2e1..9020678 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -216,8 +216,8 @@ class MaxCausalEntIRL(BaseIRL):
             if self.learning_rate_decay == 0:
                 self.theta += self.learning_rate * error
             else:
-                self.learning_rate = (self.learning_rate * np.power(i+1, -float(self.learning_rate_decay)))
-                self.theta += (self.learning_rate * np.power(i+1, -float(self.learning_rate_decay))) * error
+                self.learning_rate = (self.original_learning_rate * np.power(i+1, -float(self.learning_rate_decay)))
+                self.theta += self.learning_rate * error
 
             # Update progress bar
             mean_abs_error = np.mean(np.abs(error))
-- 
2.43.0


From adafaf92352566e26978ff980ae67759667e157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:59 +0000
Subject: [PATCH 30/39] fix: keep initial reward weights intact while fitting
 IRL models

---
 maMDP/algorithms/irl.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 9020678..cc90abb 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -121,8 +121,8 @@ class MaxCausalEntIRL(BaseIRL):
         self.original_learning_rate = learning_rate
         self.learning_rate_decay = decay
         self.max_iter_irl = max_iter_irl
-        self.original_theta = np.array(theta).copy()
-        self.theta = theta
+        self.original_theta = None if theta is None else np.array(theta, dtype=float)
+        self.theta = None if theta is None else np.array(theta, dtype=float)
 
         # This is used for feature count estimation
         if soft:
@@ -233,7 +233,7 @@ class MaxCausalEntIRL(BaseIRL):
 
     def reset(self):
         """ Resets the reward function and learning rate to its initial state """
-        self.theta = self.original_theta
+        self.theta = None if self.original_theta is None else self.original_theta.copy()
         self.learning_rate = self.original_learning_rate
 
     def reset_learning_rate(self):
@@ -338,8 +338,8 @@ class HyptestIRL(BaseIRL):
         self.learning_rate = learning_rate
         self.asymmetry = asymmetry
         self.learning_rate_decay = decay
-        self.original_theta = np.array(theta).copy()
-        self.theta = theta
+        self.original_theta = None if theta is None else np.array(theta, dtype=float)
+        self.theta = None if theta is None else np.array(theta, dtype=float)
         self.normalisation = normalisation
 
     def _single_move(self, start:int, next_state:int, sas:np.ndarray, q_values:Union[np.ndarray, None], 
@@ -487,7 +487,7 @@ class HyptestIRL(BaseIRL):
 
     def reset(self):
         """ Resets the reward function to its initial state """
-        self.theta = self.original_theta
+        self.theta = None if self.original_theta is None else self.original_theta.copy()
 
     def fit(self, mdp:Union[MDP, List[MDP]], trajectories:List[List[int]], ignore_features:tuple=(), show_progress:bool=True) -> np.ndarray:
         """
-- 
2.43.0


From c3700177a6b3277bba49f56babe00cbeca59f26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:59 +0000
Subject: [PATCH 31/39] fix: judge convergence of MaxCausalEntIRL by the
 absolute error

---
 maMDP/algorithms/irl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index cc90abb..5f921c6 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -228,7 +228,7 @@ class MaxCausalEntIRL(BaseIRL):
                 print("Converged after {0} iterations".format(i))
                 break
 
-        if not np.mean(error) < self.tol:
+        if not mean_abs_error < self.tol:
             warnings.warn('Solver did not converge', Warning)
 
     def reset(self):
-- 
2.43.0


From dd6da086d86031a2aeeb220b81633c084169ccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:59 +0000
Subject: [PATCH 32/39] fix: ignore features rather than trajectories in
 MFFeatureMatching

---
 maMDP/algorithms/irl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 5f921c6..3494c28 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -289,7 +289,7 @@ class MFFeatureMatching(BaseIRL):
         for n, t in enumerate(trajectories):
             feature_array[n, :] = mdp[n].features[:, t[1:]].sum(axis=1)  # Exclude the first state of the trajectory as it's the start state which wasn't chosen
 
-        feature_array[ignore_features, :] = 0
+        feature_array[:, list(ignore_features)] = 0
 
         self.theta = feature_array.sum(axis=0)
 
-- 
2.43.0


From 8db9671e742ab99f198bbb4f7fadeccac87bb379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:59 +0000
Subject: [PATCH 33/39] fix: end the line of sight when it stops reaching new
 states

---
 maMDP/algorithms/irl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 3494c28..e9625a6 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -536,7 +536,7 @@ def get_eyeline_features(mdp, current_state, action):
     while not complete:
         states.append(current_state)
         sa_next_states = mdp.sas[current_state, action, :]
-        if np.max(sa_next_states) > 0:
+        if np.max(sa_next_states) > 0 and np.argmax(sa_next_states) not in states:
             current_state = np.argmax(sa_next_states)
         else:
             complete = True
-- 
2.43.0


From 8c42c23e749e170d04d3d79367359d1c3f4b2f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:59 +0000
Subject: [PATCH 34/39] fix: contrast the moved direction with every other
 direction

---
 maMDP/algorithms/irl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index e9625a6..153cc14 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -567,10 +567,10 @@ def get_trajectory_eyeline_features_diff(mdp, trajectories, normalise=True):
 
         for n, state in enumerate(trajectory[:-1]):
             chosen_action = state_pair_to_action(mdp, state, trajectory[n+1])
-            for action in range(mdp.n_actions-1):
+            for action in range(mdp.n_actions):
                 if action == chosen_action:
                     chosen_feature_counts += get_eyeline_features(mdp, state, action)
-                else:
+                elif not mdp.sas[state, action, state] > 0:  # Staying in place is not a direction
                     unchosen_feature_counts += get_eyeline_features(mdp, state, action)
 
     if normalise:
-- 
2.43.0


From a923d4a00bbb2ea71ac835cfa05f9da48a1e1ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:55 +0000
Subject: [PATCH 35/39] fix: read each trajectory in its own MDP in
 TDGeneralPolicyLearner

---
 maMDP/algorithms/policy_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index ff77f9b..f47862d 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -99,7 +99,7 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
                 action = mdp[n]._trajectory_to_state_action(trajectory)[:, 1].astype(int)
 
                 # Loop through individual actions within each trajectory
-                for n, a in enumerate(action):
+                for a in action:
                     
                     trial_reward = np.zeros(mdp[n].n_actions)
 
-- 
2.43.0


From 28709136dbd4cc93de2ad2162b78d2e2ef0856bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:55 +0000
Subject: [PATCH 36/39] fix: decay the TDGeneralPolicyLearner learning rate as
 documented

---
 maMDP/algorithms/policy_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index f47862d..18da853 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -115,7 +115,7 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
 
                     # Adjust learning rate
                     if self.learning_rate_decay > 0:
-                        self._adjusted_learning_rate = self._adjusted_learning_rate * np.power(self.n_states, -self.learning_rate_decay)
+                        self._adjusted_learning_rate = self.learning_rate * np.power(self.n_states, -float(self.learning_rate_decay))
                         self.Q += self._adjusted_learning_rate * delta
 
                     # No learning rate adjustment
-- 
2.43.0


From 8bc0db8f2e57749eb2e10f8b43a164acce736a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:55 +0000
Subject: [PATCH 37/39] fix: keep initial action preferences intact while
 fitting TDGeneralPolicyLearner

---
 maMDP/algorithms/policy_learning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index 18da853..65c3bfa 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -64,15 +64,15 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
         self._adjusted_learning_rate = learning_rate
         self.kernel = kernel
         self.ls = ls
-        self.original_Q = np.array(Q).copy()
+        self.original_Q = None if Q is None else np.array(Q, dtype=float)
         self.n_states = 1
         self.fit_complete = False
 
-        self.Q = Q 
+        self.Q = None if Q is None else np.array(Q, dtype=float)
 
     def reset(self):
         """ Resets the estimate to its initial state """
-        self.Q = self.original_Q
+        self.Q = None if self.original_Q is None else self.original_Q.copy()
         self.reset_learning_rate()
         self.fit_complete = False
 
-- 
2.43.0


From 4beff77ac7ce61cdc2e5aebf4718a7ce05b76420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:51 +0000
Subject: [PATCH 38/39] fix: plot the features of grid MDPs that have no agents

With no agents [:-self.n_agents] is [:-0], which selects no features at all.
---
 maMDP/mdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index d0c0861..e409e97 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -528,7 +528,7 @@ class SquareGridMDP(GridMDP):
         """
 
         # Plot features
-        ax = plot_grids(self.features_as_grid()[:-self.n_agents, :], colours, alphas, *args, **kwargs)
+        ax = plot_grids(self.features_as_grid()[:self.n_features - self.n_agents, :], colours, alphas, *args, **kwargs)
 
         # Plot walls
         ax = plot_grids(self.flat_to_grid(self.walls)[None, :], [wall_colour], [1], ax=ax)
@@ -638,7 +638,7 @@ class HexGridMDP(GridMDP):
             plt.axes: Axes
         """
 
-        ax, self.coords = plot_hex_grids(self.features_as_grid()[:-self.n_agents, :], colours, alphas, ax=ax, *args, **kwargs)
+        ax, self.coords = plot_hex_grids(self.features_as_grid()[:self.n_features - self.n_agents, :], colours, alphas, ax=ax, *args, **kwargs)
 
         # Plot walls
         ax, _ = plot_hex_grids(self.flat_to_grid(self.walls)[None, :], [wall_colour], [1], ax=ax)
-- 
2.43.0


From 8c6ca38c6df5b3830dc203de32136cc15afdd71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:51 +0000
Subject: [PATCH 39/39] fix: draw state values of square grids the same way
 round as features

plot_grid_values drew the grid transposed relative to plot_grids, plot_agent and plot_trajectory.
---
 maMDP/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/plotting.py b/maMDP/plotting.py
index cdf339c..310509b 100644
--- a/maMDP/plotting.py
+++ b/maMDP/plotting.py
@@ -96,11 +96,11 @@ def plot_grid_values(
         _, ax = plt.subplots(*args, **kwargs)
 
     # Plot each grid
-    ax.imshow(grid, cmap=cmap)
+    ax.imshow(grid.T, cmap=cmap)  # X is the first dimension, as in plot_grids
 
     ax.grid(which="major", axis="both", linestyle="-", color="#333333", linewidth=1)
     ax.set_xticks(np.arange(-0.5, grid.shape[0], 1))
-    ax.set_yticks(np.arange(-0.5, grid.shape[0], 1))
+    ax.set_yticks(np.arange(-0.5, grid.shape[1], 1))
     for tic in ax.xaxis.get_major_ticks():
         tic.tick1line.set_visible(False)
         tic.tick2line.set_visible(False)
-- 
2.43.0

