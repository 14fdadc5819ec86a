From a987064c20bc44508eab47c29b2ce6c9530fa82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:19 +0000
Subject: [PATCH 01/52] fix: base MDP could not be instantiated (wall check
 used the grid-only shape attribute)

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 83ef70f..5cb6e18 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -122,7 +122,7 @@ class MDP():
         # Check shape etc
         if not walls.ndim == 1:
             raise AttributeError("Array specifying walls must be 1 dimensional")
-        if not walls.shape == np.product(self.shape):
+        if not walls.shape[0] == self.sas.shape[0]:
             raise AttributeError("Walls array must have the same number of entries as the number of states. Expected {0}, "
                                 "got {1}".format(self.sas.shape[0], walls.shape))
         if not np.all(np.isin(walls, [0, 1])):
-- 
2.43.0


From 2d3b90b6f755803a915fa5ce20b369ac419e4c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:19 +0000
Subject: [PATCH 02/52] fix: sampling the next state of a non-deterministic MDP
 raised AttributeError

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 5cb6e18..2a5b6c9 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -219,7 +219,7 @@ class MDP():
         if self._deterministic:
             next_state = np.argmax(possible_states)
         else:
-            next_state = self.rng.random.choice(np.arange(len(possible_states), dtype=np.int), p=possible_states)
+            next_state = self.rng.choice(np.arange(len(possible_states)), p=possible_states)
 
         return next_state
 
-- 
2.43.0


From d202e5dd945547bfdeed38b7e749a23819a70a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:41 +0000
Subject: [PATCH 03/52] fix: probabilistic stepping lost probability mass when
 several moves reach the same state

---
 maMDP/agents.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index cb2acea..9a2c5a2 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -216,8 +216,7 @@ class AttachedAgent():
 
         for s in current_states:
             for action in range(self.pi_p.shape[1]):
-                next_state = self._parent_mdp.get_next_state(s, action)
-                next_states_p[next_state] = self.pi_p[s, action] * position[s]
+                next_states_p += self.pi_p[s, action] * position[s] * self._parent_mdp.sas[s, action, :]
 
         return next_states_p
 
-- 
2.43.0


From 389001cf9b927f95897a108fa916718f4f0a987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:41 +0000
Subject: [PATCH 04/52] fix: impossible actions silently led to state 0 instead
 of being rejected

---
 maMDP/algorithms/base.py | 3 +++
 maMDP/mdp.py             | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/maMDP/algorithms/base.py b/maMDP/algorithms/base.py
index 042879a..8188355 100644
--- a/maMDP/algorithms/base.py
+++ b/maMDP/algorithms/base.py
@@ -104,4 +104,7 @@ class Null(Algorithm):
         state_vawlues = np.ones(mdp.n_states)
         q_values = np.ones((mdp.n_states, mdp.n_actions))
 
+        # Set invalid transitions to negative infinity
+        q_values[mdp.sas.sum(axis=-1) == 0] = -np.inf
+
         return state_vawlues, q_values
\ No newline at end of file
diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 2a5b6c9..9778d75 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -216,6 +216,9 @@ class MDP():
         # Get possible transitions given the best action
         possible_states = self.sas[current_state, action, :]
 
+        if not np.any(possible_states > 0):
+            raise ValueError("Action {0} is not possible in state {1}".format(action, current_state))
+
         if self._deterministic:
             next_state = np.argmax(possible_states)
         else:
-- 
2.43.0


From 8d7dcc3ff919e2d064ce5a55ab50db32c71e4cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:41 +0000
Subject: [PATCH 05/52] fix: adjacency matrix ignored walls; resetting walls
 overwrote the array supplied by the caller

---
 maMDP/mdp.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 9778d75..67cb8a2 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -128,15 +128,16 @@ class MDP():
         if not np.all(np.isin(walls, [0, 1])):
             raise ValueError("Wall array values must be either 0 (no wall) or 1 (wall)")
 
-        # Reset SAS
-        self.sas = self.__original_sas.copy()
+        # Start from the original SAS
+        sas = self.__original_sas.copy()
 
         # Add array
-        self.__walls = walls
+        self.__walls = walls.copy()
 
         # Adjust SAS
-        self.sas[:, :, walls == 1] = 0 # Make it impossible to transition to these states
-        self.sas[walls == 1, :, :] = 0 # Make it impossible to transition from these states
+        sas[:, :, walls == 1] = 0 # Make it impossible to transition to these states
+        sas[walls == 1, :, :] = 0 # Make it impossible to transition from these states
+        self.sas = sas
 
     def _get_walls(self, walls):
         return walls
-- 
2.43.0


From 065769d12ff316140a09ea454c86c78b5635ca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:41 +0000
Subject: [PATCH 06/52] fix: valid actions were repeated when an action has
 several possible outcomes

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 67cb8a2..fee18f4 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -301,7 +301,7 @@ class MDP():
             np.ndarray: Returns an array of action indices.
         """
 
-        return np.where(self.sas[state, ...])[0]
+        return np.unique(np.where(self.sas[state, ...])[0])
 
     def observation(self):
         pass
-- 
2.43.0


From 7b6ae3ad44ef102e22062474d78b5c6404e08219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:41 +0000
Subject: [PATCH 07/52] fix: a rejected agent position corrupted the number of
 agents in the MDP

---
 maMDP/mdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index fee18f4..239a0f2 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -150,13 +150,13 @@ class MDP():
             positions (int): List of state indices for each agent.
         """
 
-        self.n_agents += 1
-
         agent_features = np.zeros((self.n_states))
         agent_features[position] = 1
 
         self.features = np.vstack([self.features, agent_features[None, :]])
 
+        self.n_agents += 1
+
     def update_agent_feature(self, agent_idx:int, position:int):
         """
         Updates the feature associated with an agent (i.e. moving the position of the agent)
-- 
2.43.0


From 0ebdc5aa56edede609fcba550e058afe76fa7af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:41 +0000
Subject: [PATCH 08/52] fix: out of range positions raised IndexError from the
 error message, negative positions were accepted

---
 maMDP/agents.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index 9a2c5a2..7f9cae8 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -137,9 +137,9 @@ class AttachedAgent():
     @position.setter
     def position(self, new_position:int):
 
-        if new_position >= self._parent_mdp.n_states:
-            raise ValueError("Position must be less than the number of states in the parent MDP. " 
-                             "Provided position {0}, MDP has {1} states".format(self._parent_mdp.n_states))
+        if not 0 <= new_position < self._parent_mdp.n_states:
+            raise ValueError("Position must be non-negative and less than the number of states in the parent MDP. " 
+                             "Provided position {0}, MDP has {1} states".format(new_position, self._parent_mdp.n_states))
 
         if self.__starting_position is None:
             self.__starting_position = new_position
-- 
2.43.0


From 2bd57730e879d4a629c96c5f0cc86769260b4619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:41 +0000
Subject: [PATCH 09/52] fix: consumption counts survived a reset

---
 maMDP/agents.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index 7f9cae8..0c02725 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -226,6 +226,7 @@ class AttachedAgent():
         self.pi = None
         self.pi_p = None
         self.position_history = [self.__starting_position]
+        self.consumed = np.zeros(len(self.reward_function))
 
     def plot(self, ax:plt.axes, marker:str="X", *args, **kwargs):
         """
-- 
2.43.0


From 1f4cdda10e1d5fff1f16184c9e64b9cbe9cad7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:40 +0000
Subject: [PATCH 10/52] fix: step_multi with refit failed when asked for more
 steps than the agent makes per turn

---
 maMDP/environments.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index 6b509aa..d712a1c 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -345,6 +345,10 @@ class Environment:
         # If a list is given, take the first value as the number of steps for the primary agent
         elif isinstance(n_steps, list):
             n_steps_primary_agent = n_steps[0]
+            n_agent_steps = list(n_steps)
+
+        # The agent being moved takes the requested number of steps in its turn
+        n_agent_steps = [n_steps_primary_agent] + n_agent_steps[1:]
 
         # Check that number of planning moves for all agents is > 0
         if not all([i > 0 for i in n_moves_plan]):
-- 
2.43.0


From 5f3293e9fe58a2c0e96fe5512c5c569162b56e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:40 +0000
Subject: [PATCH 11/52] fix: step_multi_interactive always raised an exception

---
 maMDP/environments.py | 37 +++++++------------------------------
 1 file changed, 7 insertions(+), 30 deletions(-)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index d712a1c..fc85e35 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -454,63 +454,40 @@ class Environment:
             only be decremented after the 4th move. Defaults to True.
         """
 
-        # Get number of moves for each agent if not provided
-        if n_moves is None:
-            agent_names = [agent_name] + [
-                i for i in self.agent_names if not i == agent_name
-            ]  # Put primary agent first
-            n_moves = [[[self.agents[i].n_moves] * n_turns for i in agent_names]]
-        else:
-            n_moves = copy(n_moves)  # avoid modifying the original that was provided
-            n_turns = len(n_moves[0])  # Get number of turns from n_moves
-
-        # Get the number of planning moves
-        if n_moves_plan is None:
-            n_moves_plan = copy(n_moves)
-
         if agent_names is None:
             agent_names = self.agent_names
 
         for agent_name in agent_names:
             self._check_agent_name(agent_name)
 
+        # Get number of moves for each agent if not provided
+        if n_moves is None:
+            n_moves = [[self.agents[i].n_moves] * n_turns for i in agent_names]
+        else:
+            n_turns = len(n_moves[0])  # Get number of turns from n_moves
+
         if progressbar:
             turns = progress_bar(range(n_turns))
         else:
             turns = range(n_turns)
 
-        agent_steps = dict([(a, self.agents[a].n_moves) for a in agent_names])
-
-        # Need to determine the total number of planning steps
-        if adjust_planning_steps is True:
-            adjust_planning_steps = sum((sum(i) for i in n_moves))
-
         for t in turns:
 
             for n, agent_name in enumerate(agent_names):
 
                 positions = self.step_multi(
                     agent_name,
-                    agent_steps[agent_name],
                     refit=refit,
                     n_steps=n_moves[n][t],
                     n_turns_plan=n_turns - t,
                     n_moves_plan=n_moves_plan,
-                    adjust_planning_steps=adjust_planning_steps,
                     stop_on_caught=stop_on_caught,
                 )
 
-                if positions == False and stop_on_caught:
+                if positions is False and stop_on_caught:
                     warnings.warn("Agent was caught, stopping")
                     return
 
-                # Decrement adjust_planning_steps (this should work...)
-                if isinstance(adjust_planning_steps, int):
-                    adjust_planning_steps -= n_moves[n][t]
-
-                # Update number of planning moves for each agent
-                n_moves_plan[n] = n_moves_plan[n][t + 1 :]
-
     def reset(self):
         """
         Resets the agents and the MDP to their starting states.
-- 
2.43.0


From 6cf91db654a886303a0d5918ca0770cb13528b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:40 +0000
Subject: [PATCH 12/52] fix: agents sharing a name silently replaced one
 another

---
 maMDP/environments.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index fc85e35..2517837 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -90,6 +90,11 @@ class Environment:
         self.n_agents = len(agents)
         self.agent_names = [agent.name for agent in agents.keys()]
 
+        if len(set(self.agent_names)) < self.n_agents:
+            raise ValueError(
+                "Agent names must be unique, got {0}".format(self.agent_names)
+            )
+
         self.__mdp = mdp
 
         # Remove any agent-related features that may already be present in the MDP
-- 
2.43.0


From f19548a8b18033f12063a222a0aa237ee1fd4b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:40 +0000
Subject: [PATCH 13/52] fix: value iteration treated impossible actions as free
 zero-reward moves

---
 maMDP/algorithms/dynamic_programming.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/maMDP/algorithms/dynamic_programming.py b/maMDP/algorithms/dynamic_programming.py
index adda596..f042932 100644
--- a/maMDP/algorithms/dynamic_programming.py
+++ b/maMDP/algorithms/dynamic_programming.py
@@ -113,15 +113,19 @@ def state_value_iterator(values:np.ndarray, delta:float, reward:np.ndarray,
         # Values of each action taken from state s
         action_values = get_state_action_values(s, n_actions, sas, reward, discount, values)
 
+        # Ignore actions that the agent can't take
+        valid_action_values = action_values[sas[s].sum(axis=-1) > 0]
+
         # Update action values
-        if not soft:
+        if len(valid_action_values) == 0:
+            # Nothing can be gained from a state that can't be left
+            values[s] = 0
+        elif not soft:
             # Max
-            values[s] = action_values.max()
+            values[s] = valid_action_values.max()
         else:
             # Softmax (e.g. Bloem & Bambos, 2014)
-            valid_actions = np.argwhere(sas[s, ...])[:, 0]  # Ignore actions that the agent can't take
-            # action_values
-            values[s] = np.log(np.sum(np.exp(action_values)) + 1e-200)  # Add a small amount here to avoid doing log(0) and getting -inf
+            values[s] = np.log(np.sum(np.exp(valid_action_values)) + 1e-200)  # Add a small amount here to avoid doing log(0) and getting -inf
 
         # Update Q value for each action in this state
         q_values[s, :] = action_values
-- 
2.43.0


From b3f29283efc10912da5daf02e990dd1c932f3880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:34 +0000
Subject: [PATCH 14/52] fix: fitting MCTS without an explicit number of moves
 raised TypeError

---
 maMDP/algorithms/mcts.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index a7209eb..11a5e14 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -5,6 +5,7 @@ from typing import Dict, Tuple, List, Union
 from .dynamic_programming import solve_value_iteration
 from .successor_representation import get_sa_sr, get_sr_q_values
 from ..mdp import MDP
+from ..environments import get_n_moves_plan
 from .action_selection import softmax
 import warnings
 import time
@@ -702,7 +703,7 @@ def run_mcts(
 
     # Only used the extracted number of moves if n_moves has not been specified
     if n_moves is None:
-        n_moves = extracted_n_moves
+        n_moves = [[n] for n in extracted_n_moves]
 
     # Remove agent features
     features = features.copy()
@@ -952,6 +953,12 @@ class MCTS(Algorithm):
             reward_function, self.interactive, mdp
         )
 
+        # If not specified, simulate n_steps steps using the number of moves each agent makes per turn
+        if n_moves is None:
+            n_turns = -(-self.n_steps // self._agent.n_moves)
+            n_moves = [get_n_moves_plan(0, n_turns, self._agent.n_moves, self.n_steps)]
+            n_moves += [[info[1]] * n_turns for info in opponent_info.values()]
+
         # Run MCTS
         (
             self.V,
-- 
2.43.0


From c9f86aad502252194405e048ec4a96db7b1252de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:34 +0000
Subject: [PATCH 15/52] fix: MCTS with caching failed when an agent consumes
 more than one feature

---
 maMDP/algorithms/mcts.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 11a5e14..3b59ab9 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -467,13 +467,7 @@ def mcts_iteration(
                 if caching:
                     for f in np.where(consumes_features[current_actor, :])[0]:
                         # Check there is something to consume
-                        if (
-                            features[
-                                consumes_features[current_actor, :],
-                                current_node[current_actor],
-                            ]
-                            != 0
-                        ):
+                        if features[f, current_node[current_actor]] != 0:
                             consumed_features[f] = consumed_features[f] + (
                                 current_node[current_actor],
                             )
-- 
2.43.0


From 80ef3506ab6624cb91205a7a11d06982280700ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:34 +0000
Subject: [PATCH 16/52] fix: interactive MCTS failed when another agent has an
 all-zero reward function

---
 maMDP/algorithms/mcts.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 3b59ab9..5ebc85c 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -9,7 +9,6 @@ from ..environments import get_n_moves_plan
 from .action_selection import softmax
 import warnings
 import time
-from operator import itemgetter
 
 
 @njit
@@ -406,7 +405,7 @@ def mcts_iteration(
                         np.arange(len(current_node)) != current_actor
                     ]
                     feature_consumption = tuple(
-                        itemgetter(*agent_preferences[current_actor])(consumed_features)
+                        consumed_features[f] for f in agent_preferences[current_actor]
                     )
 
                     if (
-- 
2.43.0


From f0c88c0d2fdc17ae2dc72fb188e22ed9c0493d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:34 +0000
Subject: [PATCH 17/52] fix: caught agents were caught again and kept catching
 others in MCTS simulations

---
 maMDP/algorithms/mcts.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 5ebc85c..02e29f8 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -223,8 +223,12 @@ def check_agent_overlap(
         agent1 = consuming_agents[n]
         agent2 = consumed_agents[n]
 
-        # If agents are in the same state
-        if current_node[agent1] == current_node[agent2]:
+        # If agents are in the same state, and neither has been caught already
+        if (
+            current_node[agent1] == current_node[agent2]
+            and agents_active[agent1]
+            and agents_active[agent2]
+        ):
             # set the agent inactive
             agents_active[agent2] = False
             # If Agent 2 is the primary agent, end the iteration
-- 
2.43.0


From 476f818290ef3099d2ecbf5ce0e84b627ddc36dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:34 +0000
Subject: [PATCH 18/52] fix: MCTS simulations represented agents where they
 were before their last move, and restored caught agents

---
 maMDP/algorithms/mcts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 02e29f8..8857088 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -359,10 +359,6 @@ def mcts_iteration(
         # If this agent is supposed to be moving
         if n_moves[current_actor][current_turns[current_actor]] > 0:
 
-            # Set corresponding agent feature
-            features[agent_feature_idx[current_actor], :] = 0
-            features[agent_feature_idx[current_actor], current_node[current_actor]] = 1
-
             # Check whether any agents should be eaten
             if interactive:
                 added_reward, agents_active, caught = check_agent_overlap(
@@ -466,6 +462,10 @@ def mcts_iteration(
             # Consume features in this state
             if agents_active[current_actor]:
 
+                # Set corresponding agent feature
+                features[agent_feature_idx[current_actor], :] = 0
+                features[agent_feature_idx[current_actor], current_node[current_actor]] = 1
+
                 # Keep a record of what's been consumed
                 if caching:
                     for f in np.where(consumes_features[current_actor, :])[0]:
-- 
2.43.0


From 3c1ebab99d44edbd6996bf1550ae6a8e753bcb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:34 +0000
Subject: [PATCH 19/52] fix: cached opponent action values ignored the position
 of an opponent that values itself

---
 maMDP/algorithms/mcts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 8857088..d3c185a 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -401,8 +401,10 @@ def mcts_iteration(
                 if agents_active[current_actor]:
                     if verbose:
                         print('Stepping other agent, total steps = {0}. Current node = {1}'.format(total_steps, current_node[current_actor]))
+                    # The actor's own position only matters if it values itself
                     other_agent_nodes = current_node[
-                        np.arange(len(current_node)) != current_actor
+                        (np.arange(len(current_node)) != current_actor)
+                        | (reward_functions[current_actor, agent_feature_idx[current_actor]] != 0)
                     ]
                     feature_consumption = tuple(
                         consumed_features[f] for f in agent_preferences[current_actor]
-- 
2.43.0


From 8d18db0d551bb8d2502bd8d94f99b41e5e34d7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:34 +0000
Subject: [PATCH 20/52] fix: UCB was undefined (NaN) for an unvisited node, so
 MCTS always took the first action from the root

---
 maMDP/algorithms/mcts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index d3c185a..144cb99 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -141,7 +141,7 @@ def UCB(
     """
 
     ucb = (V[states] / (1 + N[states])) + C * np.sqrt(
-        (2 * np.log(N[node])) / (1 + N[states])
+        (2 * np.log(max(N[node], 1))) / (1 + N[states])
     )
 
     return ucb
-- 
2.43.0


From 466cc4140c6d4a9d912f012ad6df724946c4f480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:34 +0000
Subject: [PATCH 21/52] fix: solve_all_value_iteration passed the wrong
 arguments to the solver

---
 maMDP/algorithms/mcts.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 144cb99..70ae45c 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -803,8 +803,6 @@ def solve_all_value_iteration(
 
         # Do value iteration
         _, all_q_values[prey_state, ...] = solve_value_iteration(
-            sas.shape[0],
-            sas.shape[1],
             predator_reward_function,
             features,
             max_iter,
-- 
2.43.0


From 2a1c37de32ec19179f2ecb8c8a70b34d87c9de66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:25 +0000
Subject: [PATCH 22/52] fix: MaxCausalEntIRL ignored every feature unless
 ignore_features was given as a list

---
 maMDP/algorithms/irl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 4595cdb..6d40ba2 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -168,6 +168,8 @@ class MaxCausalEntIRL(BaseIRL):
             
     def _solve_maxcausalent(self, mdp, trajectories, ignore_features=(), show_progress=True):
         
+        ignore_features = list(ignore_features)  # An empty tuple would index the whole array
+
         # Get observed state visitation counts
         visited_states = np.zeros(mdp.n_states)
         
-- 
2.43.0


From 65f6cb43b64b2a6d6bf7f0b48eabb1f576ca8f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:25 +0000
Subject: [PATCH 23/52] fix: MaxCausalEntIRL normalised earlier trajectories
 repeatedly

---
 maMDP/algorithms/irl.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 6d40ba2..78c9402 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -176,9 +176,7 @@ class MaxCausalEntIRL(BaseIRL):
         # Get empirical state visitation counts
         for t in trajectories:
             for s in t:
-                visited_states[s] += 1
-            # Normalise
-            visited_states /= len(t)
+                visited_states[s] += 1 / len(t)
         # Normalise
         visited_states /= len(trajectories)
 
-- 
2.43.0


From f7e71ddd1bd9f7fb5d0db07e182ee68876a223be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:25 +0000
Subject: [PATCH 24/52] fix: resetting a learner did not restore its initial
 estimate, and fitting overwrote arrays supplied by or returned to the caller

---
 maMDP/algorithms/irl.py             | 8 +++++---
 maMDP/algorithms/policy_learning.py | 4 +++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 78c9402..2406d61 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -121,7 +121,7 @@ class MaxCausalEntIRL(BaseIRL):
         self.original_learning_rate = learning_rate
         self.learning_rate_decay = decay
         self.max_iter_irl = max_iter_irl
-        self.original_theta = np.array(theta).copy()
+        self.original_theta = None if theta is None else np.array(theta, dtype=float)
         self.theta = theta
 
         # This is used for feature count estimation
@@ -189,6 +189,8 @@ class MaxCausalEntIRL(BaseIRL):
         # Initial guess at reward function
         if self.theta is None:
             self.theta = np.ones(mdp.n_features) * 0
+        else:
+            self.theta = np.array(self.theta, dtype=float)  # Don't modify the previous estimate
 
         self.theta[ignore_features] = 0
 
@@ -336,7 +338,7 @@ class HyptestIRL(BaseIRL):
         self.learning_rate = learning_rate
         self.asymmetry = asymmetry
         self.learning_rate_decay = decay
-        self.original_theta = np.array(theta).copy()
+        self.original_theta = None if theta is None else np.array(theta, dtype=float)
         self.theta = theta
         self.normalisation = normalisation
 
@@ -424,7 +426,7 @@ class HyptestIRL(BaseIRL):
         if self.theta is None:
             R_ = np.zeros(features[0].shape[0])
         else:
-            R_ = self.theta
+            R_ = np.array(self.theta, dtype=float)  # Don't modify the previous estimate
         learning_rate = np.ones(features[0].shape[0]) * self.learning_rate
         Rs = []
         observed_Rs = []
diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index ff77f9b..8cbcd59 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -64,7 +64,7 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
         self._adjusted_learning_rate = learning_rate
         self.kernel = kernel
         self.ls = ls
-        self.original_Q = np.array(Q).copy()
+        self.original_Q = None if Q is None else np.array(Q, dtype=float)
         self.n_states = 1
         self.fit_complete = False
 
@@ -87,6 +87,8 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
         # Initialise Q
         if self.Q is None:
             self.Q = np.zeros(mdp[0].n_actions)
+        else:
+            self.Q = np.array(self.Q, dtype=float)  # Don't modify the previous estimate
 
         self.n_states = 1  # Used for adjusting learning rate
 
-- 
2.43.0


From 1f7a0a3ccfe145b2ec7adb29c8a74d7739280e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:25 +0000
Subject: [PATCH 25/52] fix: MFFeatureMatching ignored trajectories rather than
 features

---
 maMDP/algorithms/irl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 2406d61..b6a948f 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -289,7 +289,7 @@ class MFFeatureMatching(BaseIRL):
         for n, t in enumerate(trajectories):
             feature_array[n, :] = mdp[n].features[:, t[1:]].sum(axis=1)  # Exclude the first state of the trajectory as it's the start state which wasn't chosen
 
-        feature_array[ignore_features, :] = 0
+        feature_array[:, ignore_features] = 0
 
         self.theta = feature_array.sum(axis=0)
 
-- 
2.43.0


From 34a372bed91d414f98f11c6ae867b8772e311e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:25 +0000
Subject: [PATCH 26/52] fix: TDGeneralPolicyLearner used the MDP of the wrong
 trajectory, failing on most inputs

---
 maMDP/algorithms/policy_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index 8cbcd59..d8ccf36 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -101,7 +101,7 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
                 action = mdp[n]._trajectory_to_state_action(trajectory)[:, 1].astype(int)
 
                 # Loop through individual actions within each trajectory
-                for n, a in enumerate(action):
+                for a in action:
                     
                     trial_reward = np.zeros(mdp[n].n_actions)
 
-- 
2.43.0


From 6abf7243939e0d39f8812769cd298cddc4ed7d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:25 +0000
Subject: [PATCH 27/52] fix: observing a stay action made the eyeline feature
 count loop forever

---
 maMDP/algorithms/irl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index b6a948f..2203ce2 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -533,7 +533,7 @@ def get_eyeline_features(mdp, current_state, action):
     complete = False
     states = []
 
-    while not complete:
+    while not complete and current_state not in states:
         states.append(current_state)
         sa_next_states = mdp.sas[current_state, action, :]
         if np.max(sa_next_states) > 0:
-- 
2.43.0


From a78aca18408581fcdc24b7da279313d73f6863ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:25 +0000
Subject: [PATCH 28/52] fix: environments loaded from JSON lost all their
 features

---
 maMDP/env_io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 729c537..2734d75 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -94,7 +94,11 @@ def hex_env_to_json(env:Environment, feature_names:List, return_string=False, fn
         return json_string
 
 
-def hex_environment_from_dict(env_dict, feature_names=[]):
+def hex_environment_from_dict(env_dict, feature_names=None):
+
+    # Use all of the features, in the order they were saved
+    if feature_names is None:
+        feature_names = list(env_dict['features'].keys())
 
     if not env_dict['type'] == 'hex':
         raise NotImplementedError()
-- 
2.43.0


From 1819bd90d9052d5716e796376b32be3acb93258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:25 +0000
Subject: [PATCH 29/52] fix: saving an environment truncated reward weights to
 integers

---
 maMDP/env_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 2734d75..b3f5b13 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -58,7 +58,7 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
 
         agent_dict[agent_name]['n_moves'] = agent.n_moves
 
-        agent_dict[agent_name]['reward_function'] = [int(i) for i in list(agent.reward_function)]
+        agent_dict[agent_name]['reward_function'] = agent.reward_function.tolist()
         agent_dict[agent_name]['consumes'] = agent.consumes
 
         agent_dict[agent_name]['algorithm'] = agent.algorithm.name
-- 
2.43.0


From 76db7809f27d263d2728ceded40b5f33c4023d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:25 +0000
Subject: [PATCH 30/52] fix: saving an environment without feature names raised
 TypeError

---
 maMDP/env_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index b3f5b13..ab20110 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -23,6 +23,9 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
         Dict: Returns a dictionary specifying shape of the grid, agent positions and properties, MDP properties
     """
 
+    if feature_names is None:
+        feature_names = env.mdp.feature_names[:env.mdp.n_features - len(env.agents)]
+
     if not (env.mdp.n_features - len(env.agents)) == len(feature_names):
         raise AttributeError('Number of feature names should equal number of features, excluding agents')
 
-- 
2.43.0


From da6c92f88c257c22c70d3d54d645267488410846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:25 +0000
Subject: [PATCH 31/52] fix: plotting an MDP without agents showed none of its
 features

---
 maMDP/mdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 239a0f2..cd9bdfa 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -527,7 +527,7 @@ class SquareGridMDP(GridMDP):
         """
 
         # Plot features
-        ax = plot_grids(self.features_as_grid()[:-self.n_agents, :], colours, alphas, *args, **kwargs)
+        ax = plot_grids(self.features_as_grid()[:self.n_features - self.n_agents, :], colours, alphas, *args, **kwargs)
 
         # Plot walls
         ax = plot_grids(self.flat_to_grid(self.walls)[None, :], [wall_colour], [1], ax=ax)
@@ -637,7 +637,7 @@ class HexGridMDP(GridMDP):
             plt.axes: Axes
         """
 
-        ax, self.coords = plot_hex_grids(self.features_as_grid()[:-self.n_agents, :], colours, alphas, ax=ax, *args, **kwargs)
+        ax, self.coords = plot_hex_grids(self.features_as_grid()[:self.n_features - self.n_agents, :], colours, alphas, ax=ax, *args, **kwargs)
 
         # Plot walls
         ax, _ = plot_hex_grids(self.flat_to_grid(self.walls)[None, :], [wall_colour], [1], ax=ax)
-- 
2.43.0


From f3d4be1fc82694b0c104912b160938985819810c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:25 +0000
Subject: [PATCH 32/52] fix: state values of a square grid were plotted
 transposed relative to the grid and its trajectories

---
 maMDP/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/plotting.py b/maMDP/plotting.py
index cdf339c..c34f742 100644
--- a/maMDP/plotting.py
+++ b/maMDP/plotting.py
@@ -96,11 +96,11 @@ def plot_grid_values(
         _, ax = plt.subplots(*args, **kwargs)
 
     # Plot each grid
-    ax.imshow(grid, cmap=cmap)
+    ax.imshow(grid.T, cmap=cmap)
 
     ax.grid(which="major", axis="both", linestyle="-", color="#333333", linewidth=1)
     ax.set_xticks(np.arange(-0.5, grid.shape[0], 1))
-    ax.set_yticks(np.arange(-0.5, grid.shape[0], 1))
+    ax.set_yticks(np.arange(-0.5, grid.shape[1], 1))
     for tic in ax.xaxis.get_major_ticks():
         tic.tick1line.set_visible(False)
         tic.tick2line.set_visible(False)
-- 
2.43.0


From f9276b8368687840c59d4e18a34869f3e2705152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:50 +0000
Subject: [PATCH 33/52] fix: a hypothesis that does not distinguish between
 actions turned the HyptestIRL estimate into NaN

---
 maMDP/algorithms/irl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 2203ce2..960f163 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -17,7 +17,10 @@ def zscore_nb(x):
     for i in range(x.shape[1]):
         x_i = x[:, i]
         x_i[np.isinf(x_i)] = np.nan
-        xnew[:, i] = (x_i - np.nanmean(x_i)) / np.nanstd(x_i)
+        std = np.nanstd(x_i)
+        if std == 0:
+            std = 1  # All values are equal, so the scores are zero
+        xnew[:, i] = (x_i - np.nanmean(x_i)) / std
     return xnew
 
 @njit
-- 
2.43.0


From c901acdd7bde0b8fb0bc5b75385065b8a14c77ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:50 +0000
Subject: [PATCH 34/52] fix: coordinates of a feature or wall in a single state
 were saved as a bare pair instead of a list of pairs

---
 maMDP/env_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index ab20110..a2072dc 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -39,12 +39,12 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
         if format == 'index':
             env_dict['features'][feature_names[f]] = np.where(env.mdp.features[f, :])[0].astype(int).tolist()
         elif format == 'coords':
-            env_dict['features'][feature_names[f]] = np.stack(env.mdp.state_to_idx(np.where(env.mdp.features[f, :]))).T.squeeze().astype(int).tolist()
+            env_dict['features'][feature_names[f]] = np.stack(env.mdp.state_to_idx(np.where(env.mdp.features[f, :]))).T.reshape(-1, 2).astype(int).tolist()
 
     if format == 'index':
         env_dict['walls'] = np.where(env.mdp.walls)[0].astype(int).tolist()
     elif format == 'coords':
-        env_dict['walls'] = np.stack(env.mdp.state_to_idx(np.where(env.mdp.walls))).T.squeeze().astype(int).tolist()
+        env_dict['walls'] = np.stack(env.mdp.state_to_idx(np.where(env.mdp.walls))).T.reshape(-1, 2).astype(int).tolist()
 
     env_dict['type'] = 'hex'
     env_dict['self_transitions'] = env.mdp.self_transitions
-- 
2.43.0


From 2a137eed8426b5c2821971a7c45812c570ad9088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:28 +0000
Subject: [PATCH 35/52] fix: non-interactive MCTS spent the other agents'
 planning moves on the planning agent, and never ended when its first turn has
 no moves

---
 maMDP/algorithms/mcts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 70ae45c..2cceaaf 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -315,6 +315,10 @@ def mcts_iteration(
         along with cached Q values.
     """
 
+    # Only the primary agent is simulated, there are no turns to take
+    if not interactive:
+        n_moves = [[sum(n_moves[0])]]
+
     # Total number of steps is total number of moves in n_moves
     n_steps = sum([sum(n) for n in n_moves])
 
-- 
2.43.0


From 3937a258f48f42005543df8f1e23a9c18d49414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:16 +0000
Subject: [PATCH 36/52] fix: HyptestIRL scored actions of equal value -1
 instead of 0 when rounding made their standard deviation nonzero

---
 maMDP/algorithms/irl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 960f163..b24681c 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -17,10 +17,10 @@ def zscore_nb(x):
     for i in range(x.shape[1]):
         x_i = x[:, i]
         x_i[np.isinf(x_i)] = np.nan
-        std = np.nanstd(x_i)
-        if std == 0:
-            std = 1  # All values are equal, so the scores are zero
-        xnew[:, i] = (x_i - np.nanmean(x_i)) / std
+        if np.nanmax(x_i) == np.nanmin(x_i):
+            xnew[:, i] = x_i - x_i  # All values are equal, so the scores are zero
+        else:
+            xnew[:, i] = (x_i - np.nanmean(x_i)) / np.nanstd(x_i)
     return xnew
 
 @njit
-- 
2.43.0


From 08e6875b9ba6c57cad9d05dc51be3bc3fd5398d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:16 +0000
Subject: [PATCH 37/52] fix: SimpleActionFeatureDiffIRL never counted the last
 direction in MDPs without self-transitions

---
 maMDP/algorithms/irl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index b24681c..65bb7fd 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -566,11 +566,14 @@ def get_trajectory_eyeline_features_diff(mdp, trajectories, normalise=True):
     chosen_feature_counts = np.zeros(mdp.n_features)
     unchosen_feature_counts = np.zeros(mdp.n_features)
 
+    # The last action is staying in place, which isn't a direction, if self-transitions are allowed
+    n_directions = mdp.n_actions - 1 if getattr(mdp, 'self_transitions', False) else mdp.n_actions
+
     for trajectory in trajectories:
 
         for n, state in enumerate(trajectory[:-1]):
             chosen_action = state_pair_to_action(mdp, state, trajectory[n+1])
-            for action in range(mdp.n_actions-1):
+            for action in range(n_directions):
                 if action == chosen_action:
                     chosen_feature_counts += get_eyeline_features(mdp, state, action)
                 else:
-- 
2.43.0


From 3761d9da211b3f504510c62a69af9735b423e003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:16 +0000
Subject: [PATCH 38/52] fix: fitting SimpleActionIRL and
 SimpleActionFeatureDiffIRL without reset overwrote the estimate returned
 earlier

---
 maMDP/algorithms/irl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 65bb7fd..c056113 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -601,7 +601,7 @@ class SimpleActionIRL():
 
         for n, m in enumerate(mdp):
             observed_feature_counts = get_trajectory_eyeline_features(m, [trajectories[n]])
-            self.theta += observed_feature_counts
+            self.theta = self.theta + observed_feature_counts
 
         return self.theta
 
@@ -619,7 +619,7 @@ class SimpleActionFeatureDiffIRL():
         for n, m in enumerate(mdp):
             observed_feature_counts = get_trajectory_eyeline_features_diff(m, [trajectories[n]])
 
-            self.theta += observed_feature_counts
+            self.theta = self.theta + observed_feature_counts
         
         return self.theta
 
-- 
2.43.0


From f54eed3b58cdaab2069033ca5734444fe3685804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 39/52] fix: TDGeneralPolicyLearner failed whenever the
 learning rate decay is an integer

---
 maMDP/algorithms/policy_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index d8ccf36..ec9d2df 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -117,7 +117,7 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
 
                     # Adjust learning rate
                     if self.learning_rate_decay > 0:
-                        self._adjusted_learning_rate = self._adjusted_learning_rate * np.power(self.n_states, -self.learning_rate_decay)
+                        self._adjusted_learning_rate = self._adjusted_learning_rate * np.power(self.n_states, -float(self.learning_rate_decay))
                         self.Q += self._adjusted_learning_rate * delta
 
                     # No learning rate adjustment
-- 
2.43.0


From fd7b2b807f066573394fe58375cf7063592aa506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:08 +0000
Subject: [PATCH 40/52] fix: states whose action values overflow or cancel out
 when averaged (very large values next to -inf) were treated as having no
 known values

---
 maMDP/algorithms/action_selection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/action_selection.py b/maMDP/algorithms/action_selection.py
index 0080e97..491d9e7 100644
--- a/maMDP/algorithms/action_selection.py
+++ b/maMDP/algorithms/action_selection.py
@@ -62,7 +62,7 @@ class ActionSelector(metaclass=ABCMeta):
         # Ensure q values are provided in the right format
         check_q_values(q_values)
 
-        nan_states = np.isnan(np.nanmean(q_values, axis=1))
+        nan_states = np.all(np.isnan(q_values), axis=1)
 
         q_values = q_values.copy()
         q_values[np.isnan(q_values)] = -np.inf
@@ -98,7 +98,7 @@ class ActionSelector(metaclass=ABCMeta):
         # Ensure q values are provided in the right format
         check_q_values(q_values)
         
-        nan_states = np.isnan(np.nanmean(q_values, axis=1))
+        nan_states = np.all(np.isnan(q_values), axis=1)
 
         q_values = q_values.copy()
         q_values[np.isnan(q_values)] = -np.inf
-- 
2.43.0


From 3ba0fbf7e164d52603335e61fc209f4afea99d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:01 +0000
Subject: [PATCH 41/52] fix: MaxCausalEntIRL's decaying learning rate
 compounded over iterations instead of being learning rate * n^-decay

---
 maMDP/algorithms/irl.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index c056113..bd40000 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -219,7 +219,6 @@ class MaxCausalEntIRL(BaseIRL):
             if self.learning_rate_decay == 0:
                 self.theta += self.learning_rate * error
             else:
-                self.learning_rate = (self.learning_rate * np.power(i+1, -float(self.learning_rate_decay)))
                 self.theta += (self.learning_rate * np.power(i+1, -float(self.learning_rate_decay))) * error
 
             # Update progress bar
-- 
2.43.0


From afea0664c37ba2dfade1cd09a4d00a920c094361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:01 +0000
Subject: [PATCH 42/52] fix: TDGeneralPolicyLearner's decaying learning rate
 compounded over moves instead of being learning rate * n^-decay

---
 maMDP/algorithms/policy_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index ec9d2df..9d54b97 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -117,7 +117,7 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
 
                     # Adjust learning rate
                     if self.learning_rate_decay > 0:
-                        self._adjusted_learning_rate = self._adjusted_learning_rate * np.power(self.n_states, -float(self.learning_rate_decay))
+                        self._adjusted_learning_rate = self.learning_rate * np.power(self.n_states, -float(self.learning_rate_decay))
                         self.Q += self._adjusted_learning_rate * delta
 
                     # No learning rate adjustment
-- 
2.43.0


From 37030bb8fc5eee404a25a4809116d17117d21f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:19 +0000
Subject: [PATCH 43/52] fix: HyptestIRL turned the reward weights of ignored
 features into NaN

---
 maMDP/algorithms/irl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index bd40000..57f37c5 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -457,6 +457,7 @@ class HyptestIRL(BaseIRL):
 
                 # Error
                 delta = R - R_
+                delta[list(ignore_features)] = 0  # Leave ignored features alone
 
                 # Adjust learning rate
                 if self.learning_rate_decay > 0:
-- 
2.43.0


From 23e2928aef86e22236cad3f9cfe4fcae7b3802c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:29 +0000
Subject: [PATCH 44/52] fix: reset walls that were given as a boolean array

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index cd9bdfa..303aa16 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -422,7 +422,7 @@ class GridMDP(MDP, metaclass=ABCMeta):
 
     def reset_walls(self):
 
-        self.walls *= 0
+        self.walls = np.zeros_like(self.walls)
 
 
     def plot_trajectory(self, trajectory:List[int], ax:plt.axes, colour:str='black', 
-- 
2.43.0


From 118d5a106e2c0698fbb69e7cfe8a5a5151a44f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:29 +0000
Subject: [PATCH 45/52] fix: solve value iteration for features and transitions
 of any numeric type

---
 maMDP/algorithms/dynamic_programming.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/dynamic_programming.py b/maMDP/algorithms/dynamic_programming.py
index f042932..e4a9ac5 100644
--- a/maMDP/algorithms/dynamic_programming.py
+++ b/maMDP/algorithms/dynamic_programming.py
@@ -161,11 +161,15 @@ def solve_value_iteration(reward_function:np.ndarray, features:np.ndarray, max_i
     n_states = sas.shape[0]
     n_actions = sas.shape[1]
 
+    # Allow features and transitions of any numeric type
+    features_ = features.astype(np.float64)
+    sas_ = sas.astype(np.float64)
+
     # Initialise state values at zero
     values_ = np.zeros(n_states)
 
     # Get state rewards based on the supplied reward function
-    reward_ = np.dot(reward_function.astype(np.float64), features)
+    reward_ = np.dot(reward_function.astype(np.float64), features_)
 
     # Until converged   
     for _ in range(max_iter):
@@ -173,7 +177,7 @@ def solve_value_iteration(reward_function:np.ndarray, features:np.ndarray, max_i
         # Delta checks for convergence
         delta_ = 0
 
-        values_, delta_, q_values_ = state_value_iterator(values_, delta_, reward_, discount, sas, soft)
+        values_, delta_, q_values_ = state_value_iterator(values_, delta_, reward_, discount, sas_, soft)
 
         if delta_ < tol:
             break
-- 
2.43.0


From 738bfa6c9a142e4cb9f6e0a26f1fd7c2f3d1a5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:29 +0000
Subject: [PATCH 46/52] fix: get successor representation Q values for integer
 features

---
 maMDP/algorithms/successor_representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/successor_representation.py b/maMDP/algorithms/successor_representation.py
index 6bae20c..2f2857a 100644
--- a/maMDP/algorithms/successor_representation.py
+++ b/maMDP/algorithms/successor_representation.py
@@ -64,7 +64,7 @@ def get_sr_q_values(
         features.shape[-1] == n_states
     ), "Mismatch between features shape and number of states"
 
-    reward = np.dot(theta, features)
+    reward = np.dot(theta.astype(np.float64), features.astype(np.float64))
     qs = np.dot(
         sr, reward.repeat(n_actions)
     )  # Repeat so we have the same reward for each action in a state
-- 
2.43.0


From 1b82cf68eff751611311c8470a6102e0f4fc11ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:29 +0000
Subject: [PATCH 47/52] fix: weigh every action once, and infer the most likely
 one, in non-deterministic hypothesis testing

---
 maMDP/algorithms/irl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 57f37c5..a1ae94a 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -363,9 +363,8 @@ class HyptestIRL(BaseIRL):
         """
 
         # Get the action that was taken
-        try:
-            next_action = np.argwhere(sas[start, :, next_state])[0][0]
-        except Exception as e:
+        next_action = np.argmax(sas[start, :, next_state])
+        if not sas[start, next_action, next_state] > 0:
             raise ValueError('State {0} and state {1} are not adjacent'.format(start, next_state))
 
         # Estimate Q values if not provided
@@ -390,6 +389,7 @@ class HyptestIRL(BaseIRL):
 
         # Get legal actions in this state
         _, actions, _ = get_actions_states(sas, start)
+        actions = np.unique(actions)
 
         # Z score the Q value according to each hypothesis within each action
         if self.normalisation == 'z-score':
-- 
2.43.0


From ee0c87415d5e2f1409cb238c1ed8643271d658a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:30 +0000
Subject: [PATCH 48/52] fix: sample the next state when some outcomes of an
 action are walled off

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 303aa16..c6db8c0 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -223,7 +223,7 @@ class MDP():
         if self._deterministic:
             next_state = np.argmax(possible_states)
         else:
-            next_state = self.rng.choice(np.arange(len(possible_states)), p=possible_states)
+            next_state = self.rng.choice(np.arange(len(possible_states)), p=possible_states / possible_states.sum())
 
         return next_state
 
-- 
2.43.0


From 17cf60c3488d43d5fb6b2834d5168e2cb6a999be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:18 +0000
Subject: [PATCH 49/52] fix: save environments whose sizes, positions, moves or
 consumed features are numpy numbers

---
 maMDP/env_io.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index a2072dc..4fe5eac 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -31,7 +31,7 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
 
     env_dict = dict()
 
-    env_dict['size'] = list(env.mdp.shape)
+    env_dict['size'] = [int(i) for i in env.mdp.shape]
     env_dict['features'] = {}
 
     for f in range(env.mdp.n_features - len(env.agents)):
@@ -47,7 +47,7 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
         env_dict['walls'] = np.stack(env.mdp.state_to_idx(np.where(env.mdp.walls))).T.reshape(-1, 2).astype(int).tolist()
 
     env_dict['type'] = 'hex'
-    env_dict['self_transitions'] = env.mdp.self_transitions
+    env_dict['self_transitions'] = bool(env.mdp.self_transitions)
 
     env_dict['agents'] = []
 
@@ -55,14 +55,14 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
         agent_dict = {agent_name: {}}
         agent_dict[agent_name] = {}
         if format == 'index':
-            agent_dict[agent_name]['position'] = agent.position
+            agent_dict[agent_name]['position'] = int(agent.position)
         elif format == 'coords':
             agent_dict[agent_name]['position']  = [[int(i) for i in list(env.mdp.state_to_idx(agent.position))]]
 
-        agent_dict[agent_name]['n_moves'] = agent.n_moves
+        agent_dict[agent_name]['n_moves'] = int(agent.n_moves)
 
         agent_dict[agent_name]['reward_function'] = agent.reward_function.tolist()
-        agent_dict[agent_name]['consumes'] = agent.consumes
+        agent_dict[agent_name]['consumes'] = [int(i) for i in agent.consumes]
 
         agent_dict[agent_name]['algorithm'] = agent.algorithm.name
         agent_dict[agent_name]['algorithm_kwargs'] = agent.algorithm_kwargs
-- 
2.43.0


From d88378b38467794f1b92effef5b77ee5f3a336bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:47 +0000
Subject: [PATCH 50/52] fix: accept numbers of steps given as numpy numbers,
 tuples or arrays

---
 maMDP/environments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index 2517837..b0f480b 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -345,10 +345,10 @@ class Environment:
         if n_steps is None:
             n_steps_primary_agent = self.agents[agent_name].n_moves
         # If an int is given, use this as the number of steps for the primary agent
-        elif isinstance(n_steps, int):
+        elif isinstance(n_steps, (int, np.integer)):
             n_steps_primary_agent = n_steps
         # If a list is given, take the first value as the number of steps for the primary agent
-        elif isinstance(n_steps, list):
+        elif isinstance(n_steps, (list, tuple, np.ndarray)):
             n_steps_primary_agent = n_steps[0]
             n_agent_steps = list(n_steps)
 
-- 
2.43.0


From 5cd92d64fac57e5c38f48824418db0af7b0dfe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:47 +0000
Subject: [PATCH 51/52] fix: probabilistic stepping loses no probability when
 outcomes of an action are walled off

---
 maMDP/agents.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index 0c02725..f0ee8ea 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -216,7 +216,9 @@ class AttachedAgent():
 
         for s in current_states:
             for action in range(self.pi_p.shape[1]):
-                next_states_p += self.pi_p[s, action] * position[s] * self._parent_mdp.sas[s, action, :]
+                outcome_p = self._parent_mdp.sas[s, action, :]
+                if outcome_p.sum() > 0:  # Some of the outcomes may be walled off
+                    next_states_p += self.pi_p[s, action] * position[s] * outcome_p / outcome_p.sum()
 
         return next_states_p
 
-- 
2.43.0


From 380c29fd609c24a790abbeb00ee8c2f479a080f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:09 +0000
Subject: [PATCH 52/52] fix: key the search's cached action values on the
 simulated features, not on a record of what was eaten

---
 maMDP/algorithms/mcts.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 2cceaaf..b840618 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -344,9 +344,6 @@ def mcts_iteration(
     # Keep track of which other agents have been eaten
     agents_active = np.ones(len(current_node), dtype=np.bool_)
 
-    # Track which features have been consumed
-    consumed_features = [() for _ in range(features.shape[0])]
-
     # Which features each agent cares about (i.e. where reward function has zero weight)
     agent_preferences = []
     for agent in range(n_agents):
@@ -410,9 +407,9 @@ def mcts_iteration(
                         (np.arange(len(current_node)) != current_actor)
                         | (reward_functions[current_actor, agent_feature_idx[current_actor]] != 0)
                     ]
-                    feature_consumption = tuple(
-                        consumed_features[f] for f in agent_preferences[current_actor]
-                    )
+                    feature_consumption = features[
+                        agent_preferences[current_actor], :
+                    ].tobytes()
 
                     if (
                         caching
@@ -472,15 +469,6 @@ def mcts_iteration(
                 features[agent_feature_idx[current_actor], :] = 0
                 features[agent_feature_idx[current_actor], current_node[current_actor]] = 1
 
-                # Keep a record of what's been consumed
-                if caching:
-                    for f in np.where(consumes_features[current_actor, :])[0]:
-                        # Check there is something to consume
-                        if features[f, current_node[current_actor]] != 0:
-                            consumed_features[f] = consumed_features[f] + (
-                                current_node[current_actor],
-                            )
-
                 # Remove consumed feature from the feature array
                 features[
                     consumes_features[current_actor, :], current_node[current_actor]
-- 
2.43.0

