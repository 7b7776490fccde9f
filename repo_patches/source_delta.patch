From acc531e00c202e1461049ef65b0e73cd626601ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 01/44] fix: two-channel gate given as (h,0) with h >= 2 acted
 on the wrong channels

The tensor list is built by two successive swaps. When channel_vertical is 0 the
first swap has already moved channel 0, so the second swap has to look up where it went.
---
 src/fock_state_circuit/nodes/nodelist/node_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/nodelist/node_list.py b/src/fock_state_circuit/nodes/nodelist/node_list.py
index aa59fdb..c43b999 100644
--- a/src/fock_state_circuit/nodes/nodelist/node_list.py
+++ b/src/fock_state_circuit/nodes/nodelist/node_list.py
@@ -204,7 +204,9 @@ class NodeList():
                 tensor_list[0], tensor_list[1] = tensor_list[1], tensor_list[0] #swap
             else:
                 tensor_list[0], tensor_list[channel_horizontal] = tensor_list[channel_horizontal],  tensor_list[0]
-                tensor_list[1], tensor_list[channel_vertical] = tensor_list[channel_vertical],  tensor_list[1]  
+                # channel_vertical may have been moved by the first swap (if it is channel 0), so look up its current position
+                position_vertical = tensor_list.index(channel_vertical)
+                tensor_list[1], tensor_list[position_vertical] = tensor_list[position_vertical],  tensor_list[1]  
         
         else:
             raise Exception('error creating tensor list, more than two channels provided')
-- 
2.43.0


From b7caecf47bfa81f71ff88596e5f5b30052139a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 02/44] fix: evaluating a circuit with a classical node changed
 the caller's collection in place

---
 src/fock_state_circuit/circuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 3126ba1..3d9a2ea 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -384,6 +384,8 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         # case where next node is of type 'classical' *
         #**********************************************
         elif self.node_list[current_node_index].get('node_type') == 'classical':          
+            # work on a copy, so the collection passed in by the caller is not modified
+            collection_of_states_input = collection_of_states_input.copy()
             for state in collection_of_states_input:
                 # read the function from the node_list
                 classical_function = self.node_list[current_node_index].get('function')
-- 
2.43.0


From c2d2f181322201fd925c083e6b6c756670f8ff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 03/44] fix: recorded measurement results were rewritten when a
 classical channel changed later

The record stored a reference to the state's classical channel list instead of its
value at the time of the measurement (the photon-resolved measurement also stored it
once per channel instead of once per measurement).
---
 src/fock_state_circuit/circuit.py                             | 4 ++--
 .../interference_group.py                                     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 3d9a2ea..b5d5b1a 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -684,9 +684,9 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                 new_state.classical_channel_values[n] = outcome[i]
             # 3. the new state's measurement results need to be updated with 
             try:
-                new_state.measurement_results.append({'measurement_results':new_state.classical_channel_values, 'probability': tot_prob})   
+                new_state.measurement_results.append({'measurement_results':new_state.classical_channel_values.copy(), 'probability': tot_prob})   
             except:
-                new_state.measurement_results = [{'measurement_results':new_state.classical_channel_values, 'probability': tot_prob}]
+                new_state.measurement_results = [{'measurement_results':new_state.classical_channel_values.copy(), 'probability': tot_prob}]
             new_state.optical_components = {self._dict_of_optical_values[tuple(name[0])]:{'amplitude':new_amplitude,'probability': new_probability} for name, new_amplitude, new_probability in zip(list_of_outcomes,new_amps, new_probs)}
             # 4. Other aspects like initial_state and auxiliary_information remain unchanged
             # add the new state to the collection
diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index 22f8fc8..f37097c 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -968,7 +968,7 @@ class InterferenceGroup():
                 for index, value in enumerate(values_to_measure):
                     classical_channel = classical_channels_to_write_to[index]
                     state.classical_channel_values[classical_channel] = value
-                    state.measurement_results.append({'measurement_results':state.classical_channel_values, 'probability': probability_for_partial_outcome})  
+                state.measurement_results.append({'measurement_results':state.classical_channel_values.copy(), 'probability': probability_for_partial_outcome})  
             # add the group for this partial outcome to the list which will be returned
             list_of_groups.append(new_group)
 
-- 
2.43.0


From f4793b0eafbceac5ab8ed6d9f701e7c920664182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 04/44] fix: set_collection_as_statistical_mixture lost states
 at random and changed its arguments

Random identifiers were checked against the old collection instead of the mixture being
built, so two states could get the same identifier and one would be lost. A state that
occurs twice in the list ended up with the last weight for both.
---
 src/fock_state_circuit/collection_of_states.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 4e52b8f..2f35209 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -461,12 +461,13 @@ class CollectionOfStates(Plot):
         for state, weight in list_of_tuples_state_weight:
             # make random identifier which is not yet used in self._collection_of_states.keys()
             identifier = 'identifier_' + alphabet[random.randint(0,len(alphabet)-1)]
-            while identifier in self._collection_of_states.keys():
+            while identifier in mixture.keys():
                 identifier += alphabet[random.randint(0,len(alphabet)-1)]
 
             # for initial state use initial state name in first state and copy to all in the mixture
 
             if bool(state):
+                state = state.copy() # the same state can occur more than once, and should not be changed for the caller
                 state.cumulative_probability = weight
                 state.initial_state = initial_state
                 mixture.update({identifier : state})
-- 
2.43.0


From ef30dad2e7164de0e29bd01fd40ecdde399cc8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 05/44] fix: clean_up raised an exception when rounding brought
 the merged probability just above 1

---
 src/fock_state_circuit/collection_of_states.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 2f35209..c92ecd8 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -946,6 +946,10 @@ class CollectionOfStates(Plot):
                 for other_identifier in list_of_same_oc:
                     overall_cumulative_probability = overall_cumulative_probability + self._collection_of_states[other_identifier]['cumulative_probability']
                     del self._collection_of_states[other_identifier]
+                # rounding in the sum can bring a total probability of 1 marginally above 1
+                if 1 < overall_cumulative_probability <= 1 + self._threshold_probability_for_setting_to_zero:
+                    overall_cumulative_probability = 1.0
+
                 if overall_cumulative_probability >= self._threshold_probability_for_setting_to_zero:
                     self._collection_of_states[identifier]['cumulative_probability'] = overall_cumulative_probability
                 else:
-- 
2.43.0


From 6e34bfd2d747b273914e6b9badfff697a9f70b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 06/44] fix: clean_up merged or kept apart identical states
 depending on their order

Components below the threshold were set to zero but kept, and the comparison only looked
at the components of one of the two states.
---
 src/fock_state_circuit/state.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 9afb1d9..2c03433 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -579,6 +579,10 @@ class State():
             else:
                 total_probability += np.abs(amplitude_probability['amplitude'])**2
 
+        # remove the components that were set to zero, also if the remaining ones do not have to be re-normalized
+        oc = {component : amplitude_probability for component, amplitude_probability in oc.items() if amplitude_probability['probability'] != 0}
+        self.state['optical_components'] = oc
+
         if np.abs(total_probability - 1.0) >= self._threshold_probability_for_setting_to_zero:
             scale_factor = 1/math.sqrt(total_probability)
             new_oc = dict([])
@@ -601,6 +605,8 @@ class State():
         optical_components_equal = True
         oc = self.state['optical_components']
         other_oc = other_state['optical_components']
+        if len(oc) != len(other_oc):
+            optical_components_equal = False
         for component, amplitude_probability in oc.items():
             if component not in other_oc.keys():
                 optical_components_equal = False
-- 
2.43.0


From 836f2b7e8be8e223d83107f4b710bc88066cc9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 07/44] fix: reduce left an empty collection with its old
 number of channels

---
 src/fock_state_circuit/collection_of_states.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index c92ecd8..305d98a 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -832,13 +832,13 @@ class CollectionOfStates(Plot):
                 new_collection_of_states.add_state(state=new_state,identifier=identifier+traced_out_value)
 
 
-            #self = new_collection_of_states.copy()
-            self._fock_state_circuit = new_collection_of_states._fock_state_circuit
-            self._collection_of_states = new_collection_of_states.collection_as_dict()
-            self._no_of_classical_channels = new_collection_of_states._no_of_classical_channels
-            self._no_of_optical_channels = new_collection_of_states._no_of_optical_channels
-            self._dict_of_valid_component_names = new_collection_of_states._dict_of_valid_component_names
-            self._dict_of_optical_values = new_collection_of_states._dict_of_optical_values
+        #self = new_collection_of_states.copy()
+        self._fock_state_circuit = new_collection_of_states._fock_state_circuit
+        self._collection_of_states = new_collection_of_states.collection_as_dict()
+        self._no_of_classical_channels = new_collection_of_states._no_of_classical_channels
+        self._no_of_optical_channels = new_collection_of_states._no_of_optical_channels
+        self._dict_of_valid_component_names = new_collection_of_states._dict_of_valid_component_names
+        self._dict_of_optical_values = new_collection_of_states._dict_of_optical_values
 
         return 
     
-- 
2.43.0


From b11a42c561780221575cc49e54d96c83004dba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 08/44] fix: evaluate_circuit silently skipped nodes when
 nodes_to_be_evaluated was not in ascending order

---
 src/fock_state_circuit/circuit.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index b5d5b1a..92dd9ea 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -328,16 +328,10 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                     break
                 else:
                     optical_nodes_list.append(node_index)
-            if max(optical_nodes_list) >= max(nodes_to_be_evaluated):
-                remaining_nodes = []
-            else:
-                remaining_nodes = nodes_to_be_evaluated[len(optical_nodes_list):]
+            remaining_nodes = nodes_to_be_evaluated[len(optical_nodes_list):]
         else:
             current_node_index = nodes_to_be_evaluated[0]
-            if current_node_index >= max(nodes_to_be_evaluated):
-                remaining_nodes = []
-            else:
-                remaining_nodes = nodes_to_be_evaluated[1:]
+            remaining_nodes = nodes_to_be_evaluated[1:]
 
         #****************************************************
         #                                                   *
-- 
2.43.0


From c3d67b182c64039e5be7b041e379449fc6b175de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 09/44] fix: nodes accepted channel numbers that the circuit
 does not have

The controlled nodes compared with > instead of >=, and shift, c_shift and
channel_coupling built the documented exception without raising it.
---
 src/fock_state_circuit/nodes/controlled_nodes.py     |  8 ++++----
 src/fock_state_circuit/nodes/custom_nodes.py         | 12 ++++++------
 .../nodes/quantum_operator_nodes.py                  |  4 ++--
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/fock_state_circuit/nodes/controlled_nodes.py b/src/fock_state_circuit/nodes/controlled_nodes.py
index 8372f76..3317bf3 100644
--- a/src/fock_state_circuit/nodes/controlled_nodes.py
+++ b/src/fock_state_circuit/nodes/controlled_nodes.py
@@ -54,9 +54,9 @@ class ControlledNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if classical_channel_for_phase_shift > self._no_of_classical_channels:
+        if classical_channel_for_phase_shift >= self._no_of_classical_channels:
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if optical_channel_to_shift > self._no_of_optical_channels:
+        if optical_channel_to_shift >= self._no_of_optical_channels:
             raise Exception('the optical channel is a not defined channel in the circuit')
 
         if node_info == None: node_info = {}
@@ -129,9 +129,9 @@ class ControlledNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) > self._no_of_classical_channels:
+        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) >= self._no_of_classical_channels:
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if max(optical_channel_horizontal, optical_channel_vertical) > self._no_of_optical_channels:
+        if max(optical_channel_horizontal, optical_channel_vertical) >= self._no_of_optical_channels:
             raise Exception('the optical channel is a not defined channel in the circuit')
         
         if node_info == None: node_info = {}
diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index f97fafb..c8a9094 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -189,12 +189,12 @@ class CustomNodes(NodeList):
         error = False
         if len(shift_per_channel) == len(target_channels):
             for shift, target in zip(shift_per_channel, target_channels):
-                if min(shift, target) < 0 or target > self._no_of_optical_channels:
+                if min(shift, target) < 0 or target >= self._no_of_optical_channels:
                     error = True
         else:
             error = True
         if error:
-            Exception('Error in channel input for function FockStateCircuit.shift')
+            raise Exception('Error in channel input for function FockStateCircuit.shift')
 
         this_is_first_round = True  
         # for each channel create a transition matrix
@@ -412,14 +412,14 @@ class CustomNodes(NodeList):
         error = False
         if len(control_channels) == len(target_channels):
             for control, target in zip(control_channels,target_channels):
-                if min(control, target) < 0 or max(control, target) > self._no_of_optical_channels:
+                if min(control, target) < 0 or max(control, target) >= self._no_of_optical_channels:
                     error = True
                 if control == target:
                     error = True
         else:
             error = True
         if error:
-            Exception('Error in channel input for function FockStateCircuit.c_shift')
+            raise Exception('Error in channel input for function FockStateCircuit.c_shift')
             
         
         this_is_first_round = True  
@@ -491,14 +491,14 @@ class CustomNodes(NodeList):
         error = False
         if len(control_channels) == len(target_channels):
             for control, target in zip(control_channels,target_channels):
-                if min(control, target) < 0 or max(control, target) > self._no_of_optical_channels:
+                if min(control, target) < 0 or max(control, target) >= self._no_of_optical_channels:
                     error = True
                 if control == target:
                     error = True
         else:
             error = True
         if error:
-            Exception('Error in channel input for function FockStateCircuit.channel_coupling')
+            raise Exception('Error in channel input for function FockStateCircuit.channel_coupling')
             
         
         # the coupling matrix is pre-filled as identity matrix
diff --git a/src/fock_state_circuit/nodes/quantum_operator_nodes.py b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
index f7b6fd1..3690a48 100644
--- a/src/fock_state_circuit/nodes/quantum_operator_nodes.py
+++ b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
@@ -145,9 +145,9 @@ class QuantumOperatorNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) > self._no_of_classical_channels:
+        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) >= self._no_of_classical_channels:
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if max(optical_channel_horizontal, optical_channel_vertical) > self._no_of_optical_channels:
+        if max(optical_channel_horizontal, optical_channel_vertical) >= self._no_of_optical_channels:
             raise Exception('the optical channel is a not defined channel in the circuit')
         
         if node_info == None: node_info = {}
-- 
2.43.0


From ad0ff5fd1b911c2d2875b959e948195b7abae4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 10/44] fix: order of the basis depended on which component
 names were used before

---
 .../nodes/nodelist/optical_values_component_names.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
index 2f18f81..fe9242b 100644
--- a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
+++ b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
@@ -210,6 +210,7 @@ class ComponentNames():
         self.string_format_in_state_as_word = "{:0"+str(self.digits_per_channel)+ "d}"
         self.tuple_of_strings = tuple(self.string_format_in_state_as_word.format(number) for number in range(self.length_of_fock_state))
         self.size_of_basis = self.length_of_fock_state**self.no_of_optical_channels
+        self.full_basis_generated = False
         return
 
     def __getitem__(self,component_name: str) -> list:
@@ -229,8 +230,10 @@ class ComponentNames():
         
     def __iter__(self):
         """ Iterator for optical component names as a string"""
-        if len(self.dict_of_valid_component_names) == self.size_of_basis:
-            return iter(self.dict_of_optical_values)
+        # names that were looked up one by one are not in standard order (and can be invalid), so only
+        # use the stored names if they were generated here as the full basis
+        if self.full_basis_generated and len(self.dict_of_valid_component_names) == self.size_of_basis:
+            return iter(self.dict_of_valid_component_names)
 
         self.list_of_fock_states = [self._values_from_index(n)  for n in range(self.length_of_fock_state**self.no_of_optical_channels)]
         if self.channel_0_left_in_state_name == True:
@@ -238,6 +241,7 @@ class ComponentNames():
         else: #self.state_least_significant_digit_left == False:
             self.dict_of_valid_component_names = {''.join([self.tuple_of_strings[number] for number in optical_state[::-1]]):optical_state for optical_state in self.list_of_fock_states}       
 
+        self.full_basis_generated = True
         return iter(self.dict_of_valid_component_names)
     
     def __contains__(self, key: str) -> bool:
@@ -393,6 +397,7 @@ class OpticalValues():
         self.string_format_in_state_as_word = component_names.string_format_in_state_as_word
         self.tuple_of_strings = component_names.tuple_of_strings
         self.size_of_basis = component_names.size_of_basis
+        self.full_basis_generated = False
         return
     
     def __getitem__(self,optical_values: Union[list, tuple]) -> str:
@@ -409,9 +414,10 @@ class OpticalValues():
             return component_name
     
     def __iter__(self):
-        if len(self.dict_of_optical_values) == self.size_of_basis:
+        if self.full_basis_generated and len(self.dict_of_optical_values) == self.size_of_basis:
             return iter(self.dict_of_optical_values)
         self.dict_of_optical_values = {tuple(v):k for k,v in self.component_names.items()}      
+        self.full_basis_generated = True
         return iter(self.dict_of_optical_values)
     
     def __len__(self) -> int:
-- 
2.43.0


From 0cdddbd745db00f6b0f0c88d5fc94b544868901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 11/44] fix: evaluating generic function nodes and
 photon-resolved or PR measurements changed the caller's collection

---
 src/fock_state_circuit/circuit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 92dd9ea..1fc878c 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -407,7 +407,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
 
                 # perform the measurement
                 # the function perform_measurement_photon_resolved is part of the module 'spectral_nodes.py'
-                collection_of_states_output = self.perform_measurement_photon_resolved(  collection_of_states=collection_of_states_input, 
+                collection_of_states_output = self.perform_measurement_photon_resolved(  collection_of_states=collection_of_states_input.copy(), 
                                                                                     optical_channels_to_measure=optical_channels_to_be_read, 
                                                                                     classical_channels_to_write_to=classical_channels_to_be_written,
                                                                                     list_of_projections = list_of_projections)
@@ -418,7 +418,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
                 optical_channels_to_be_read = self.node_list[current_node_index].get('optical_channels_to_be_read')
                 classical_channels_to_be_written = self.node_list[current_node_index].get('classical_channels_to_be_written')  
                 # The function perform_measurement_pr_correlation is part of the module superquantum_nodes.py
-                collection_of_states_output = self.perform_measurement_pr_correlation(  collection_of_states=collection_of_states_input, 
+                collection_of_states_output = self.perform_measurement_pr_correlation(  collection_of_states=collection_of_states_input.copy(), 
                                                                     optical_channels_to_measure=optical_channels_to_be_read, 
                                                                     classical_channels_to_write_to=classical_channels_to_be_written)
                 return self.evaluate_circuit(collection_of_states_input = collection_of_states_output, nodes_to_be_evaluated = remaining_nodes)
@@ -516,7 +516,7 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
             generic_function = self.node_list[current_node_index].get('generic_function')
             generic_function_parameters = self.node_list[current_node_index].get('generic_function_parameters')
             
-            collection_of_states_output = generic_function(collection_of_states_input,generic_function_parameters)
+            collection_of_states_output = generic_function(collection_of_states_input.copy(),generic_function_parameters)
          
             return self.evaluate_circuit(collection_of_states_input = collection_of_states_output, nodes_to_be_evaluated = remaining_nodes)
 
-- 
2.43.0


From e8f5895a0ba454c521a50c4f7f5a251eaa147375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 12/44] fix: c_shift with chained channel pairs applied the
 pairs in reverse order, unlike c_shift_direct

---
 src/fock_state_circuit/nodes/custom_nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index c8a9094..1c996b1 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -213,7 +213,7 @@ class CustomNodes(NodeList):
                 coupling_matrix = coupling_matrix_one_target_control_combination
                 this_is_first_round = False
             else:
-                coupling_matrix  = np.matmul(coupling_matrix, coupling_matrix_one_target_control_combination)
+                coupling_matrix  = np.matmul(coupling_matrix_one_target_control_combination, coupling_matrix)
 
         if node_info == None: node_info = {}
         node_info = {
@@ -440,7 +440,7 @@ class CustomNodes(NodeList):
                 coupling_matrix = coupling_matrix_one_target_control_combination
                 this_is_first_round = False
             else:
-                coupling_matrix  = np.matmul(coupling_matrix, coupling_matrix_one_target_control_combination)
+                coupling_matrix  = np.matmul(coupling_matrix_one_target_control_combination, coupling_matrix)
 
         self.custom_fock_state_node(custom_fock_matrix = coupling_matrix, node_type='custom fock matrix', node_info = node_info)
 
@@ -526,7 +526,7 @@ class CustomNodes(NodeList):
                         coupling_matrix_one_target_control_combintation[output_index][input_index] = np.sqrt(np.cdouble((1-coupling_strength))*(1 + 0*1j))
                     else:
                         coupling_matrix_one_target_control_combintation[output_index][input_index] = np.cdouble(0)
-            coupling_matrix  = np.matmul(coupling_matrix, coupling_matrix_one_target_control_combintation)
+            coupling_matrix  = np.matmul(coupling_matrix_one_target_control_combintation, coupling_matrix)
 
         self.custom_fock_state_node(custom_fock_matrix = coupling_matrix, node_type='custom fock matrix', node_info = node_info)
 
-- 
2.43.0


From d3ef551c3e3766ae2fea18fdbf0a354bff2910ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 13/44] fix: density_matrix took minutes for large bases to
 find the trace of the squared matrix

---
 src/fock_state_circuit/collection_of_states.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 305d98a..439d021 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -730,7 +730,8 @@ class CollectionOfStates(Plot):
                     dm_mixed_state += state.cumulative_probability * dm_single_state
 
             trace_dm = np.round(np.abs(np.trace(dm_mixed_state)),decimals=decimal_places_for_trace)
-            trace_dm_squared = np.round(np.abs(np.trace(np.matmul(dm_mixed_state,dm_mixed_state))),decimals=decimal_places_for_trace)
+            # trace of the squared matrix, without calculating the complete matrix product
+            trace_dm_squared = np.round(np.abs(np.sum(dm_mixed_state * dm_mixed_state.T)),decimals=decimal_places_for_trace)
             dictionary_with_return_values.update({initial_state : {'density_matrix' : dm_mixed_state, 'trace' : trace_dm, 'trace_dm_squared' : trace_dm_squared}})
 
         return dictionary_with_return_values
-- 
2.43.0


From 7a044d9a6d1213c208b6715adb7988c4e0a1a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 14/44] fix: QuantumOperator applied a list of Hamiltonians in
 reverse order

---
 src/fock_state_circuit/nodes/quantum_operator_nodes.py        | 4 ++--
 .../quantum_operator_functionality/quantum_operators.py       | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/nodes/quantum_operator_nodes.py b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
index 3690a48..38c65f5 100644
--- a/src/fock_state_circuit/nodes/quantum_operator_nodes.py
+++ b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
@@ -103,7 +103,7 @@ class QuantumOperatorNodes(NodeList):
             ham_theta_minus = Hamiltonian([('+0-0',-1*theta ),('-0+0',theta )], operator_channels)
             ham_chi = Hamiltonian([('-+00', -1j*chi),('00-+',-1j*chi )], operator_channels)
 
-            operator_generic_wave_plate_list= [ham_theta_minus,ham_phi,ham_theta_plus,ham_chi]
+            operator_generic_wave_plate_list= [ham_theta_plus,ham_phi,ham_theta_minus,ham_chi]
 
             operator_generic_wave_plate = QuantumOperator(operator_generic_wave_plate_list,
                                                           length_of_fock_state=collection._length_of_fock_state)
@@ -185,7 +185,7 @@ class QuantumOperatorNodes(NodeList):
                 ham_theta_minus = Hamiltonian([('+0-0',-1*theta ),('-0+0',theta )], operator_channels)
                 ham_chi = Hamiltonian([('-+00', -1j*chi),('00-+',-1j*chi )], operator_channels)
 
-                operator_generic_wave_plate_list= [ham_theta_minus,ham_phi,ham_theta_plus,ham_chi]
+                operator_generic_wave_plate_list= [ham_theta_plus,ham_phi,ham_theta_minus,ham_chi]
         
 
                 operator_generic_wave_plate = QuantumOperator( operator_generic_wave_plate_list, 
diff --git a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
index cc3c9b5..eb97dd3 100644
--- a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
+++ b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
@@ -194,7 +194,8 @@ class QuantumOperator:
         """
         transition_matrix = np.identity(n=self._transition_matrices_list[0].shape[0], dtype=np.csingle)
         for matrix in self._transition_matrices_list:
-            transition_matrix = np.matmul(matrix,transition_matrix)
+            # rows of the matrices are the input states, so the operator applied last is the rightmost factor
+            transition_matrix = np.matmul(transition_matrix,matrix)
         return transition_matrix
 
     def apply_operator_to_collection(self,input_collection: CollectionOfStates, optical_channels: list[int]) -> CollectionOfStates: # type: ignore
-- 
2.43.0


From ba9c13128aebdc8b6ad587354c71875f24cb7cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 15/44] fix: State.copy shared the recorded measurement values
 with the original state

---
 src/fock_state_circuit/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 2c03433..809060a 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -429,7 +429,7 @@ class State():
                             'cumulative_probability' : self.state['cumulative_probability'],
                             'optical_components' : { name:amp_prob.copy() for name, amp_prob in self.state['optical_components'].items() }, 
                             'classical_channel_values' : self.state['classical_channel_values'].copy(),
-                            'measurement_results' : [{k:v for k,v in m_result.items()} for m_result in self.state['measurement_results']]
+                            'measurement_results' : copy.deepcopy(self.state['measurement_results'])
                             }
         auxiliary_information = self.state.get('auxiliary_information', None)
 
-- 
2.43.0


From 90e7e34b7f075afeebcfeafe19ba52a39a68d0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 16/44] fix: mix_generic_refl_transm did not split light
 according to reflection and transmission

---
 src/fock_state_circuit/nodes/optical_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/optical_nodes.py b/src/fock_state_circuit/nodes/optical_nodes.py
index 59dc40b..877272b 100644
--- a/src/fock_state_circuit/nodes/optical_nodes.py
+++ b/src/fock_state_circuit/nodes/optical_nodes.py
@@ -662,7 +662,8 @@ class OpticalNodes(NodeList):
             raise Exception(
                 'For generic mixing the sum or reflection and transmission has to be 1 and both have to between 0 and 1 (including)'
                 )
-        theta = math.atan2(math.sqrt(reflection),math.sqrt(transmission))
+        # the optical matrix contains cos(2*theta) for reflection (light stays in its channel) and sin(2*theta) for transmission
+        theta = math.atan2(math.sqrt(transmission),math.sqrt(reflection))/2
         self.__apply_generic_rotation_2_channels(first_channel, second_channel, theta = theta, phi = math.pi, node_info = node_info)
         return
     
-- 
2.43.0


From fe734e9abdc91846547a95a4238b41683a2c27c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 17/44] fix: generic mixing refused reflection sin(theta)**2
 with transmission cos(theta)**2 because of rounding

---
 src/fock_state_circuit/nodes/optical_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/optical_nodes.py b/src/fock_state_circuit/nodes/optical_nodes.py
index 877272b..ac38828 100644
--- a/src/fock_state_circuit/nodes/optical_nodes.py
+++ b/src/fock_state_circuit/nodes/optical_nodes.py
@@ -658,7 +658,7 @@ class OpticalNodes(NodeList):
                     'markersize' : 20,
                     'fillstyle' : 'full'
                 }|node_info
-        if reflection + transmission != 1:
+        if not math.isclose(reflection + transmission, 1):
             raise Exception(
                 'For generic mixing the sum or reflection and transmission has to be 1 and both have to between 0 and 1 (including)'
                 )
-- 
2.43.0


From 2136ef22d9ac9b3f29f0403f28d2a175d0a4b8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 18/44] fix: plot and plot_correlations mixed up classical
 channels when channel 0 is on the right in names

---
 src/fock_state_circuit/visualization/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/visualization/plot.py b/src/fock_state_circuit/visualization/plot.py
index ea63572..e749540 100644
--- a/src/fock_state_circuit/visualization/plot.py
+++ b/src/fock_state_circuit/visualization/plot.py
@@ -195,9 +195,9 @@ class Plot():
             str: name of the state of component derived from photon number per channel. e.g., '013'
         """        
         string_format_in_state_as_word = "{:0"+str(len(str(self._length_of_fock_state-1)))+ "d}"
-        name = ''.join([string_format_in_state_as_word.format(abs(int(number)%self._length_of_fock_state)) for number in state])              
         if self._channel_0_left_in_state_name == False:
-            name = name[::-1]
+            state = state[::-1]
+        name = ''.join([string_format_in_state_as_word.format(abs(int(number)%self._length_of_fock_state)) for number in state])              
         return name
     
     def _create_list_of_values_from_name(self, name: str) -> list:
@@ -211,6 +211,8 @@ class Plot():
             end = start + len(str(self._length_of_fock_state-1))
             values.append(int(name[start:end]))
             start = end
+        if self._channel_0_left_in_state_name == False:
+            values = values[::-1]
         return values
     
 
-- 
2.43.0


From c599a908e9d9946420414108705be3603c51dd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 19/44] fix: nodes with channels the circuit does not have were
 accepted, or refused after changing the circuit

---
 src/fock_state_circuit/nodes/classical_nodes.py     |  2 +-
 src/fock_state_circuit/nodes/controlled_nodes.py    |  8 ++++----
 src/fock_state_circuit/nodes/custom_nodes.py        |  9 +++++++++
 src/fock_state_circuit/nodes/nodelist/node_list.py  |  2 ++
 src/fock_state_circuit/nodes/optical_nodes.py       |  9 +++++++++
 .../nodes/quantum_operator_nodes.py                 | 13 +++++++++++--
 6 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/fock_state_circuit/nodes/classical_nodes.py b/src/fock_state_circuit/nodes/classical_nodes.py
index 5684acb..2edcdc6 100644
--- a/src/fock_state_circuit/nodes/classical_nodes.py
+++ b/src/fock_state_circuit/nodes/classical_nodes.py
@@ -109,7 +109,7 @@ class ClassicalNodes(NodeList):
         """
         conditions = [
             len(list_of_values_for_classical_channels) != len(list_of_classical_channel_numbers),
-            max(list_of_classical_channel_numbers) >= self._no_of_classical_channels
+            not all(0 <= channel < self._no_of_classical_channels for channel in list_of_classical_channel_numbers)
             ]
         if any(conditions):
             raise Exception('Incorrect input in function set_classical_channels')
diff --git a/src/fock_state_circuit/nodes/controlled_nodes.py b/src/fock_state_circuit/nodes/controlled_nodes.py
index 3317bf3..037002c 100644
--- a/src/fock_state_circuit/nodes/controlled_nodes.py
+++ b/src/fock_state_circuit/nodes/controlled_nodes.py
@@ -54,9 +54,9 @@ class ControlledNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if classical_channel_for_phase_shift >= self._no_of_classical_channels:
+        if not 0 <= classical_channel_for_phase_shift < self._no_of_classical_channels:
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if optical_channel_to_shift >= self._no_of_optical_channels:
+        if not 0 <= optical_channel_to_shift < self._no_of_optical_channels:
             raise Exception('the optical channel is a not defined channel in the circuit')
 
         if node_info == None: node_info = {}
@@ -129,9 +129,9 @@ class ControlledNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) >= self._no_of_classical_channels:
+        if not all(0 <= channel < self._no_of_classical_channels for channel in (classical_channel_for_phase_shift, classical_channel_for_orientation)):
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if max(optical_channel_horizontal, optical_channel_vertical) >= self._no_of_optical_channels:
+        if not all(0 <= channel < self._no_of_optical_channels for channel in (optical_channel_horizontal, optical_channel_vertical)):
             raise Exception('the optical channel is a not defined channel in the circuit')
         
         if node_info == None: node_info = {}
diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index 1c996b1..bde50fa 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -258,6 +258,10 @@ class CustomNodes(NodeList):
                 Exception when the input channel numbers do not match with the circuit.
                 
         """
+        if (len(shift_per_channel) != len(target_channels)
+            or not all(0 <= channel < self._no_of_optical_channels for channel in target_channels)):
+            raise Exception('Error in channel input for function FockStateCircuit.shift_direct')
+        
         if node_info == None: node_info = {}
         node_info = {
             'label' : "shift",
@@ -324,6 +328,11 @@ class CustomNodes(NodeList):
                 Exception when the input channel numbers do not match with the circuit.
                 
         """
+        if (len(control_channels) != len(target_channels)
+            or not all(0 <= channel < self._no_of_optical_channels for channel in control_channels + target_channels)
+            or any(control == target for control, target in zip(control_channels, target_channels))):
+            raise Exception('Error in channel input for function FockStateCircuit.c_shift_direct')
+        
         if node_info == None: node_info = {}
         node_info = {
                 'label' : "c-shift",
diff --git a/src/fock_state_circuit/nodes/nodelist/node_list.py b/src/fock_state_circuit/nodes/nodelist/node_list.py
index c43b999..ebbc246 100644
--- a/src/fock_state_circuit/nodes/nodelist/node_list.py
+++ b/src/fock_state_circuit/nodes/nodelist/node_list.py
@@ -187,6 +187,8 @@ class NodeList():
         if not channel_numbers or len(channel_numbers) == 0:
             # if no channel numbers are given return the default list [0,1,2,..]
             return tensor_list
+        elif not all(0 <= channel < self._no_of_optical_channels for channel in channel_numbers):
+            raise Exception('the optical channel is a not defined channel in the circuit')
         elif len(channel_numbers) == 1:
             # if there is only one channel number we swap channel number '0' and the given channel number
             channel_for_shift = channel_numbers[0]
diff --git a/src/fock_state_circuit/nodes/optical_nodes.py b/src/fock_state_circuit/nodes/optical_nodes.py
index ac38828..5abb425 100644
--- a/src/fock_state_circuit/nodes/optical_nodes.py
+++ b/src/fock_state_circuit/nodes/optical_nodes.py
@@ -292,6 +292,9 @@ class OpticalNodes(NodeList):
                 }|node_info
         if self._no_of_optical_channels < 4:
             raise Exception('For beamsplitter 4 channels are needed in the circuit')
+        # check both pairs of channels before the circuit is changed
+        for channel_pair in zip(input_channels_a, input_channels_b):
+            self._translate_channels_numbers_to_tensor_list(channel_numbers = channel_pair)
         self.mix_generic_refl_transm(
             first_channel = input_channels_a[0], 
             second_channel = input_channels_b[0], 
@@ -699,6 +702,9 @@ class OpticalNodes(NodeList):
         
         if self._no_of_optical_channels < 4:
             raise Exception('For beamsplitter 4 channels are needed in the circuit')
+        # check both pairs of channels before the circuit is changed
+        for channel_pair in zip(input_channels_a, input_channels_b):
+            self._translate_channels_numbers_to_tensor_list(channel_numbers = channel_pair)
         self.swap(first_channel = input_channels_a[1], second_channel = input_channels_b[1], node_info = node_info)
         return
     
@@ -746,6 +752,9 @@ class OpticalNodes(NodeList):
                 }|node_info
         if self._no_of_optical_channels < 4:
             raise Exception('For beamsplitter 4 channels are needed in the circuit')
+        # check both pairs of channels before the circuit is changed
+        for channel_pair in zip(input_channels_a, input_channels_b):
+            self._translate_channels_numbers_to_tensor_list(channel_numbers = channel_pair)
         self.mix_50_50(first_channel = input_channels_a[0], second_channel = input_channels_b[0], node_info = node_info_0)
         self.mix_50_50(first_channel = input_channels_a[1], second_channel = input_channels_b[1], node_info = node_info_1)
         return
diff --git a/src/fock_state_circuit/nodes/quantum_operator_nodes.py b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
index 38c65f5..7214cbc 100644
--- a/src/fock_state_circuit/nodes/quantum_operator_nodes.py
+++ b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
@@ -17,6 +17,9 @@ class QuantumOperatorNodes(NodeList):
                     node_info: dict = None
                     ) -> None:  
         
+        if len(set(channels)) != len(channels) or not all(0 <= channel < self._no_of_optical_channels for channel in channels):
+            raise Exception('the optical channels have to be different channels defined in the circuit')
+        
         if node_info == None: node_info = {}
 
         node_info = {
@@ -74,6 +77,10 @@ class QuantumOperatorNodes(NodeList):
         Raises:
             nothing
         """
+        if (channel_horizontal == channel_vertical
+            or not all(0 <= channel < self._no_of_optical_channels for channel in (channel_horizontal, channel_vertical))):
+            raise Exception('the optical channels have to be different channels defined in the circuit')
+        
         if node_info == None: node_info = {}
 
         node_info = {
@@ -145,11 +152,13 @@ class QuantumOperatorNodes(NodeList):
         Raises:
             exception if the requested channels are not available
         """ 
-        if max(classical_channel_for_phase_shift, classical_channel_for_orientation) >= self._no_of_classical_channels:
+        if not all(0 <= channel < self._no_of_classical_channels for channel in (classical_channel_for_phase_shift, classical_channel_for_orientation)):
             raise Exception('the classical channel is a not defined channel in the circuit')
-        if max(optical_channel_horizontal, optical_channel_vertical) >= self._no_of_optical_channels:
+        if not all(0 <= channel < self._no_of_optical_channels for channel in (optical_channel_horizontal, optical_channel_vertical)):
             raise Exception('the optical channel is a not defined channel in the circuit')
         
+        if optical_channel_horizontal == optical_channel_vertical:
+            raise Exception('channel numbers identical where two different channel numbers are needed')
         if node_info == None: node_info = {}
         node_info = {
                 'label' : "wave_plate(c)",
-- 
2.43.0


From fc7dc1ac9704a58c043566a40f2bd33b8e84ce68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 20/44] fix: reduced, extended and length-adjusted collections
 lost the custom threshold when copied

---
 src/fock_state_circuit/collection_of_states.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 439d021..6d53e54 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -779,7 +779,8 @@ class CollectionOfStates(Plot):
         updated_circuit = NodeList(length_of_fock_state = self._length_of_fock_state, 
                                 no_of_optical_channels = len(optical_channels_to_keep), 
                                 no_of_classical_channels= len(classical_channels_to_keep),
-                                channel_0_left_in_state_name = self._channel_0_left_in_state_name
+                                channel_0_left_in_state_name = self._channel_0_left_in_state_name,
+                                threshold_probability_for_setting_to_zero = self._threshold_probability_for_setting_to_zero
                                 )
         
         new_collection_of_states = CollectionOfStates(fock_state_circuit=updated_circuit)
@@ -868,7 +869,8 @@ class CollectionOfStates(Plot):
         updated_circuit = NodeList(length_of_fock_state = new_length_of_fock_state, 
                                 no_of_optical_channels = self._no_of_optical_channels, 
                                 no_of_classical_channels= self._no_of_classical_channels,
-                                channel_0_left_in_state_name = self._channel_0_left_in_state_name
+                                channel_0_left_in_state_name = self._channel_0_left_in_state_name,
+                                threshold_probability_for_setting_to_zero = self._threshold_probability_for_setting_to_zero
                                 )
         new_collection_of_states = CollectionOfStates(fock_state_circuit= updated_circuit )
         new_collection_of_states.clear()
@@ -1012,7 +1014,8 @@ class CollectionOfStates(Plot):
         updated_circuit  = NodeList(length_of_fock_state = self._length_of_fock_state, 
                         no_of_optical_channels = self._no_of_optical_channels+extra_optical_channels,
                         no_of_classical_channels= self._no_of_classical_channels+extra_classical_channels,
-                        channel_0_left_in_state_name = self._channel_0_left_in_state_name
+                        channel_0_left_in_state_name = self._channel_0_left_in_state_name,
+                        threshold_probability_for_setting_to_zero = self._threshold_probability_for_setting_to_zero
                         )
         new_collection_of_states = CollectionOfStates(fock_state_circuit= updated_circuit )
         new_collection_of_states.clear()
-- 
2.43.0


From dd5c411860cfa05d104a2f8e69db1af5b5e74f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 21/44] fix: evaluating optical nodes attached the caller's
 collection to the evaluating circuit

---
 src/fock_state_circuit/circuit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 1fc878c..a70da64 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -713,8 +713,9 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         if collection_of_states is None:
             collection_of_states = CollectionOfStates(fock_state_circuit=self)
         else:
-            collection_of_states._fock_state_circuit = self
-            collection_of_states = collection_of_states.copy()
+            # make a copy that belongs to this circuit, the collection handed to this function should not change
+            copied_states = {identifier : state.copy() for identifier, state in collection_of_states.items()}
+            collection_of_states = CollectionOfStates(self, copied_states)
         if self._use_full_fock_matrix == True:
             # if 'use_full_fock_matrix' is set to 'True' we always use the complete matrix. There is no need to group
             # states by photon number.
-- 
2.43.0


From 7aed09118da15fec128b774a533446a1f14801b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 22/44] fix: evaluating an empty circuit returned the input
 collection itself, or nothing for the default input

---
 src/fock_state_circuit/circuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index a70da64..19be6e1 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -304,7 +304,9 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
         if nodes_to_be_evaluated == ['all']:
             nodes_to_be_evaluated = list(range(len(self.node_list)))
             if len(self.node_list) == 0: # case for empty circuit
-                return collection_of_states_input
+                if collection_of_states_input is None:
+                    return CollectionOfStates(self)
+                return collection_of_states_input.copy()
         # if nodes_to_be_evaluated is empty return the input state. This was last recursion loop
         elif len(nodes_to_be_evaluated) == 0:
             return collection_of_states_input
-- 
2.43.0


From 7415c3995c0634036fc00820cc9e2bac7dc5143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 23/44] fix: bridge to a circuit without classical channels
 kept the classical values

---
 src/fock_state_circuit/collection_of_states.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index 6d53e54..a3e171e 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -737,7 +737,7 @@ class CollectionOfStates(Plot):
         return dictionary_with_return_values
         
     def reduce(self, optical_channels_to_keep: list[int] = [],
-                classical_channels_to_keep: list[int] = []
+                classical_channels_to_keep: list[int] = None
                 ) -> None:
         """ Reduces the number of optical and/or classical channels. 
 
@@ -750,7 +750,8 @@ class CollectionOfStates(Plot):
 
             Args:
                 optical_channels_to_keep (list): list of optical channel numbers that should remain
-                classical_channels_to_keep (list): list of classical channel numbers that should remain
+                classical_channels_to_keep (list): list of classical channel numbers that should remain. Defaults to None,
+                    in that case all classical channels remain. For an empty list all classical channels are removed.
            
             Returns:
                 Nothing. The 'collection of states' will be modified in-place.
@@ -767,7 +768,7 @@ class CollectionOfStates(Plot):
         
         if optical_channels_to_keep == []:
             optical_channels_to_keep  = [*range(self._no_of_optical_channels)]
-        if classical_channels_to_keep ==  []:
+        if classical_channels_to_keep is None:
             classical_channels_to_keep  = [*range(self._no_of_classical_channels)]
 
         if not all([channel in [*range(self._no_of_optical_channels)] for channel in optical_channels_to_keep]):
-- 
2.43.0


From 4d86d1105bc9b482fdf780c946ff96e0b1886f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:46 +0000
Subject: [PATCH 24/44] fix: reduce, extend and adjust length left states
 sharing records, auxiliary information and components

---
 src/fock_state_circuit/collection_of_states.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index a3e171e..b0db96a 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -832,7 +832,7 @@ class CollectionOfStates(Plot):
                     'auxiliary_information' : old_state['auxiliary_information']
                     }
                 new_state = State(collection_of_states=new_collection_of_states, input_state_as_a_dict=new_state_as_a_dict)
-                new_collection_of_states.add_state(state=new_state,identifier=identifier+traced_out_value)
+                new_collection_of_states.add_state(state=new_state.copy(),identifier=identifier+traced_out_value)
 
 
         #self = new_collection_of_states.copy()
@@ -896,7 +896,7 @@ class CollectionOfStates(Plot):
                                     'auxiliary_information' : state.auxiliary_information
                                     }
             new_state = State(collection_of_states=new_collection_of_states,input_state_as_a_dict=new_state_as_a_dict)
-            new_collection_of_states.add_state(state = new_state, identifier=identifier)
+            new_collection_of_states.add_state(state = new_state.copy(), identifier=identifier)
         
         # self = new_collection_of_states.copy()
         self._fock_state_circuit = new_collection_of_states._fock_state_circuit
@@ -1060,7 +1060,7 @@ class CollectionOfStates(Plot):
                     }
                 if new_state_as_a_dict['cumulative_probability'] >= self._threshold_probability_for_setting_to_zero:
                     new_state = State(collection_of_states=new_collection_of_states, input_state_as_a_dict=new_state_as_a_dict)
-                    new_collection_of_states.add_state(state=new_state)
+                    new_collection_of_states.add_state(state=new_state.copy())
             
         # self = new_collection_of_states.copy()
         self._fock_state_circuit = new_collection_of_states._fock_state_circuit
-- 
2.43.0


From 74d0e13ec8780bc88db918c857b8b974baa36862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:46 +0000
Subject: [PATCH 25/44] fix: copying a state took the shape of a collection
 reshaped in the meantime

---
 src/fock_state_circuit/state.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index 809060a..e62938f 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -417,6 +417,16 @@ class State():
             return (False,'Invalid state: classical channel values does not match with number of classical channels')
         return (True, 'Valid state')
 
+    def _state_with_same_parameters(self, new_state_as_a_dict: dict) -> "State":
+        # the parameters come from this state and not from the collection for which it was made, as that
+        # collection can have been reduced, extended or adjusted since
+        new_state = copy.copy(self)
+        new_state.state = new_state_as_a_dict
+        valid_state = self._check_valid_state(state_to_check=new_state)
+        if not True in valid_state:
+            raise Exception('invalid state', valid_state, str(new_state))
+        return new_state
+
     def copy(self) -> "State":       
         """ Return a deep copy of a state with same parameters (i.e., suitable for same fock state circuit)
 
@@ -437,7 +447,8 @@ class State():
         if auxiliary_information:
             new_state_as_a_dict.update({'auxiliary_information' : copy.deepcopy(self.state['auxiliary_information'])})
 
-        return State(self._collection_of_states, new_state_as_a_dict )
+        return self._state_with_same_parameters(new_state_as_a_dict)
+
     
         # This is an earlier implementation which looks slower but we measure very marginal performance differences.
         # new_initial_state = "{:s}".format(self.state['initial_state'])
@@ -527,7 +538,7 @@ class State():
                                     'measurement_results' : new_measurement_results
                                     }
 
-        return State(self._collection_of_states, empty_state_as_a_dict )
+        return self._state_with_same_parameters(empty_state_as_a_dict)
     
     def translate_state_components_to_vector(self) -> tuple:
         """ Return a tuple with a first element a vector and as second element the basis. The vector represents the state in the given basis
-- 
2.43.0


From d63dfe29aa2a1f3cb33f48fcca1f03f37d3e3e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:40 +0000
Subject: [PATCH 26/44] fix: Hamiltonian evolution diverged for many photons or
 large angles

---
 .../quantum_operator_functionality/quantum_operators.py   | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
index eb97dd3..1d8652c 100644
--- a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
+++ b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
@@ -183,8 +183,14 @@ class QuantumOperator:
         transition_matrices_list = []
         for matrix in self._matrices:
             transition_matrix = np.identity(n=matrix.shape[0], dtype=np.csingle)
+            # the expansion only converges within its powers for small matrices, so use exp(H) = exp(H/2**s)**(2**s)
+            size_of_matrix = np.linalg.norm(matrix, ord=2)
+            number_of_squarings = math.ceil(math.log2(size_of_matrix)) if size_of_matrix > 1 else 0
+            scaled_matrix = matrix/2**number_of_squarings
             for n in range(1,self.power_for_exponent_taylor_expansion):
-                transition_matrix = transition_matrix + (1/math.factorial(n))* np.linalg.matrix_power(matrix,n)
+                transition_matrix = transition_matrix + (1/math.factorial(n))* np.linalg.matrix_power(scaled_matrix,n)
+            for _ in range(number_of_squarings):
+                transition_matrix = np.matmul(transition_matrix, transition_matrix)
             transition_matrices_list.append(transition_matrix)
         return transition_matrices_list 
     
-- 
2.43.0


From 4138e0b25cbf995b3edd8df7a4ec5965126b3a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:47 +0000
Subject: [PATCH 27/44] fix: measuring a component with amplitude zero gave a
 state with undefined amplitudes

---
 src/fock_state_circuit/circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fock_state_circuit/circuit.py b/src/fock_state_circuit/circuit.py
index 19be6e1..13f4aa6 100644
--- a/src/fock_state_circuit/circuit.py
+++ b/src/fock_state_circuit/circuit.py
@@ -665,6 +665,9 @@ class FockStateCircuit(OpticalNodes,BridgeNodes, MeasurementNodes, ClassicalNode
             old_probabilities = old_amplitudes.real**2 + old_amplitudes.imag**2
             tot_amp = np.sum(old_amplitudes )
             tot_prob = np.sum(old_probabilities )
+            # components can be present with amplitude zero, their outcome cannot occur and has no collapsed state
+            if tot_prob == 0:
+                continue
             # renormalized to create new amplitudes and probabilities
             new_amps = old_amplitudes/np.sqrt(tot_prob)
             new_probs = new_amps.real**2 + new_amps.imag**2
-- 
2.43.0


From 60b4075b5470ef9a901473d956a3f6b1d9f2ebac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 28/44] fix: drawing a circuit with a Hamiltonian gate raised
 an exception

---
 src/fock_state_circuit/nodes/quantum_operator_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/quantum_operator_nodes.py b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
index 7214cbc..7b247ec 100644
--- a/src/fock_state_circuit/nodes/quantum_operator_nodes.py
+++ b/src/fock_state_circuit/nodes/quantum_operator_nodes.py
@@ -24,7 +24,7 @@ class QuantumOperatorNodes(NodeList):
 
         node_info = {
                     'label' : "Hamiltonian",
-                    'channels_optical' : [channels],
+                    'channels_optical' : list(channels),
                     'markers' : ['s'],
                     'markercolor' : ['purple'],
                     'markerfacecolor' : ['grey'],
-- 
2.43.0


From 9b813a1c63b8908c748cc471021f863b618882ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:17 +0000
Subject: [PATCH 29/44] fix: keep total probability 1 when a photon-resolved
 state is measured again

After a measurement the boson factor of each column was rescaled on its own,
as if the columns in the interference group do not interfere. A second
measurement then returned probabilities that do not add up to 1 (e.g., 2 for a
Mach-Zehnder interferometer). Rescale the boson factors with one common factor
such that the total probability for the group, with interference, is 1.
---
 .../interference_group.py                     | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
index f37097c..6df59ad 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/interference_group.py
@@ -129,8 +129,8 @@ class InterferenceGroup():
             Adapt the column amplitudes such that the sum of their squares adds up to 1
 
         rescale_boson_factors(self):
-            Adapt the boson factors such that for each column the 'self detection probability' is equal to the square of the
-            column amplitude 
+            Scale all boson factors in the group by one common factor such that the total probability over all outcomes for 
+            the group is 1 (the interference between the columns is taken into account).
 
         _valid_combinations(self,measurement_projection: list,state_column: ColumnOfStates) -> list:
             Generate all valid combinations between photon state and projection
@@ -597,19 +597,18 @@ class InterferenceGroup():
         return
     
     def rescale_boson_factors(self):
-        """ Adapt the boson factors such that for each column the 'self detection probability' is equal to the square of the
-            column amplitude """
+        """ Scale all boson factors in the group by one common factor such that the total probability over all outcomes for 
+            the group is 1 (the interference between the columns is taken into account). """
+        columns_per_outcome = dict([])
         for column in self.by_column():
             outcome = column.generate_optical_component_corresponding_to_column()
-            measurement_projection, projection_boson_factor = self._measurement_projection(optical_component = outcome)
-            measured_probability = self._calculate_probability_for_this_projection_for_these_state_columns(
-                                                                        measurement_projection,
-                                                                        projection_boson_factor,
-                                                                        column, 
-                                                                        column)
-            expected_probability = np.abs(column.column_amplitude)**2
-            correction_needed = expected_probability/measured_probability
-            column.column_boson_factor = column.column_boson_factor / np.sqrt(correction_needed)
+            columns_per_outcome.setdefault(outcome, []).append(column)
+        total_probability = sum([self._probability_column_list(column_list) for column_list in columns_per_outcome.values()])
+        if total_probability < 1e-12:
+            # the columns in this group cancel each other, there is nothing to rescale
+            return
+        for column in self.by_column():
+            column.column_boson_factor = column.column_boson_factor * np.sqrt(total_probability)
         return
         
 
-- 
2.43.0


From cb59c2196467c65c4db610bf22c6d2b32f3df18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:50 +0000
Subject: [PATCH 30/44] fix: set_pulse_width for all channels as first spectral
 node raised KeyError

For states without photon resolution only the photon information was added,
without the identifiers for interference group and column. The next spectral
node or measurement then raised KeyError. Use the general path (which splits
the states in single photon states) unless the states are already photon
resolved.
---
 .../temporal_functions.py                                      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/temporal_functions.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/temporal_functions.py
index c6ddfee..5fcaf66 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/temporal_functions.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/temporal_functions.py
@@ -196,7 +196,8 @@ def set_pulse_width(collection_of_states: CollectionOfStates, parameters: list)
         return collection_of_states
 
     # check if all channels have to be set, in that case use fast option
-    if set(info['channels_to_set_pulse_width']) == set(range(collection_of_states._no_of_optical_channels)):
+    if (set(info['channels_to_set_pulse_width']) == set(range(collection_of_states._no_of_optical_channels))
+        and collection_of_states.is_photon_resolved()):
 
         for state in collection_of_states:
             # if key 'photon_resolution' does not exist add this key
-- 
2.43.0


From 8074df0b33d33f8bbfd68ba1f92300b642cdfc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 31/44] fix: plotting a photon-resolved collection changed its
 states

_pre_plot splits the states in the collection itself in single-component
columns. A second call to plot(), or an evaluation after plot(), then returned
different results. Work on a copy.
---
 src/fock_state_circuit/visualization/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/visualization/plot.py b/src/fock_state_circuit/visualization/plot.py
index e749540..fa12910 100644
--- a/src/fock_state_circuit/visualization/plot.py
+++ b/src/fock_state_circuit/visualization/plot.py
@@ -167,7 +167,7 @@ class Plot():
         resulting_collection.clear()
 
         # step 1: Same as above for full outcomes
-        coll_of_cols = CollectionOfStateColumns(collection_of_states=self)
+        coll_of_cols = CollectionOfStateColumns(collection_of_states=self.copy())
         coll_of_cols.split()
         
         # step 2: Per group consolidate in new state without photon resolution
-- 
2.43.0


From 5c511d12632c52be56cea147bdd951bb255acbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:34 +0000
Subject: [PATCH 32/44] fix: orthogonal polarisers were correlated for large
 quantumness in Popescu-Rohrlich measurements

---
 .../popescu_rohrlich_correlations.py                          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index 6ed9a57..9f261b8 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -108,6 +108,10 @@ def _probability_from_stokes_vectors(vector1, vector2,quantumness_value: int = 1
     # If this angle is zero the probability is 1, if this angle is 180 degree the probability is zero
     # 180 degree on Poincare sphere is 90 degree between polarization orientation, so orthogonal
     probability_amplitude = np.inner(vector1,vector2)/np.sqrt(np.inner(vector1,vector1)*np.inner(vector2,vector2))
+    # the vectors are known in single precision. What is left of an inner product which should be zero must not
+    # be blown up when taking the root for a large quantumness value
+    if abs(probability_amplitude) < 1e-6:
+        probability_amplitude = 0
     sign = np.sign(probability_amplitude)
     probability_amplitude = sign*np.power(sign*probability_amplitude,1/quantumness_value)
 
-- 
2.43.0


From c563b5caba595d6dd8ddc7f1289747fc3b57bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:34 +0000
Subject: [PATCH 33/44] fix: measurement results of Popescu-Rohrlich
 measurements hold the probability of the outcome given the measured state

---
 .../popescu_rohrlich_correlations.py                       | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
index 9f261b8..b703057 100644
--- a/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
+++ b/src/fock_state_circuit/popescu_rohrlich_correlation_functionality/popescu_rohrlich_correlations.py
@@ -369,11 +369,14 @@ def perform_measurement_popescu_rohrlich_correlation(collection_of_states: Colle
             reference_state = state
             break
         initial_state_name_for_output_collection = reference_state.auxiliary_information['popescu_rohrlich_correlation'].get('initial_state_name_for_output','popescu_rohrlich_correlation')
+        # measurement results hold the probability of the outcome for the state that is measured
+        probability_before = reference_state.auxiliary_information['popescu_rohrlich_correlation'].get('original_cumulative_probability', 1)
         del reference_state.auxiliary_information['popescu_rohrlich_correlation']
         reference_state.initial_state = initial_state_name_for_output_collection
         for outcome in histo:
             new_state = reference_state.copy()
             new_state.cumulative_probability = outcome['probability']
+            outcome_probability = outcome['probability']/probability_before if probability_before > 0 else 0
             new_state.optical_components = [(outcome['output_state'],1)]
             new_classical_channel_values = [val for val in new_state.classical_channel_values]
             optical_channel_values = new_state._dict_of_valid_component_names[outcome['output_state']]
@@ -384,9 +387,9 @@ def perform_measurement_popescu_rohrlich_correlation(collection_of_states: Colle
             # measurement results in the input state copy these to the new collapsed state
             if state.measurement_results and state.measurement_results is not None:
                 measurement_results = [previous_values for previous_values in state.measurement_results]   
-                measurement_results.append({'measurement_results':new_state.classical_channel_values.copy(), 'probability': outcome['probability']})   
+                measurement_results.append({'measurement_results':new_state.classical_channel_values.copy(), 'probability': outcome_probability})   
             else:
-                measurement_results = [{'measurement_results':new_state.classical_channel_values.copy(), 'probability': outcome['probability']}]
+                measurement_results = [{'measurement_results':new_state.classical_channel_values.copy(), 'probability': outcome_probability}]
             new_state.measurement_results = measurement_results
             output_collection.add_state(state = new_state)
     return output_collection
-- 
2.43.0


From 67ba33198be43aae81edb46f30430976a85ccf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 34/44] fix: custom optical node accepted matrices that are not
 2x2 and a single channel

---
 src/fock_state_circuit/nodes/custom_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/nodes/custom_nodes.py b/src/fock_state_circuit/nodes/custom_nodes.py
index bde50fa..62fc76d 100644
--- a/src/fock_state_circuit/nodes/custom_nodes.py
+++ b/src/fock_state_circuit/nodes/custom_nodes.py
@@ -131,7 +131,7 @@ class CustomNodes(NodeList):
                 'fillstyle' : 'full'
             }|node_info
  
-        if len(matrix_optical) != 2 and len(matrix_optical[0]) != 2:
+        if np.shape(matrix_optical) != (2,2) or len(optical_channels) != 2:
             raise Exception('Only optical nodes with 2-channel interaction are implemented')
         channel_numbers = optical_channels
         tensor_list = self._translate_channels_numbers_to_tensor_list(channel_numbers = channel_numbers)
-- 
2.43.0


From 3a08a4388c26a54e71187e55080c001f7db1c268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:27 +0000
Subject: [PATCH 35/44] fix: setting a state from a vector changed the given
 vector

---
 src/fock_state_circuit/state.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/fock_state_circuit/state.py b/src/fock_state_circuit/state.py
index e62938f..a23316f 100644
--- a/src/fock_state_circuit/state.py
+++ b/src/fock_state_circuit/state.py
@@ -567,7 +567,6 @@ class State():
         for index, value in enumerate(state_vector):
             # if value is below threshold set to zero
             if np.abs(value)**2 < self._threshold_probability_for_setting_to_zero:
-                state_vector[index] = 0
                 continue
             amplitude = state_vector[index]
             component = self._dict_of_valid_component_names.at_index(index)
-- 
2.43.0


From a203cb33879ad28b0d28343692d1d9e90689675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 36/44] fix: only one valid spelling of a component name, other
 lookups do not change the map

For lengths of 11 and more '011' was accepted as component next to '0101' and
looking it up made the values (1,1) translate to '011'. Looking up values that
the circuit does not have, like (-1,0), replaced the values of a valid name.
---
 .../optical_values_component_names.py         | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
index fe9242b..d00faad 100644
--- a/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
+++ b/src/fock_state_circuit/nodes/nodelist/optical_values_component_names.py
@@ -221,9 +221,18 @@ class ComponentNames():
             component_name_as_integer_tuple = tuple( int(component_name[a:a+self.digits_per_channel]) for a in range(0,len(component_name),self.digits_per_channel))
             if not self.channel_0_left_in_state_name:
                 component_name_as_integer_tuple = tuple(reversed(component_name_as_integer_tuple))
-            self.dict_of_valid_component_names.update({component_name: component_name_as_integer_tuple})
-            self.dict_of_optical_values.update({component_name_as_integer_tuple: component_name})
+            # only remember the one valid name for these values, for other spellings (e.g., '011' for '0101') 
+            # the values would be translated back to a name that is not in the basis
+            if self._is_valid(component_name_as_integer_tuple) and component_name == self.at_index(self._index_from_values(component_name_as_integer_tuple)):
+                self.dict_of_valid_component_names.update({component_name: component_name_as_integer_tuple})
+                self.dict_of_optical_values.update({component_name_as_integer_tuple: component_name})
             return list(component_name_as_integer_tuple)
+
+    def _is_valid(self, values: Union[list,tuple]) -> bool:
+        return len(values) == self.no_of_optical_channels and min(values) >= 0 and max(values) < self.length_of_fock_state
+
+    def _index_from_values(self, values: Union[list,tuple]) -> int:
+        return sum([value*(self.length_of_fock_state**index) for index,value in enumerate(values)])
         
     def _values_from_index(self, index: int) -> list:
         return [(index//(self.length_of_fock_state**c))%self.length_of_fock_state for c in range(self.no_of_optical_channels)]
@@ -246,8 +255,8 @@ class ComponentNames():
     
     def __contains__(self, key: str) -> bool:
         """ True if the componet name (as string) represent a valid optical state."""
-        values = self.__getitem__(key)
-        return len(values) == self.no_of_optical_channels and min(values) >= 0 and max(values) < self.length_of_fock_state
+        self.__getitem__(key)
+        return key in self.dict_of_valid_component_names
     
     def __len__(self) -> int:
         """ Total number of possible states as number_of_possible_optical_values ^ number_of_optical_channels."""
@@ -409,8 +418,9 @@ class OpticalValues():
                 component_name = ''.join([self.tuple_of_strings[number] for number in optical_values])                                                                 
             else:
                 component_name = ''.join([self.tuple_of_strings[number] for number in reversed(optical_values)])   
-            self.dict_of_optical_values.update({optical_values: component_name})
-            self.dict_of_valid_component_names.update({component_name: optical_values})
+            if optical_values in self:
+                self.dict_of_optical_values.update({optical_values: component_name})
+                self.dict_of_valid_component_names.update({component_name: optical_values})
             return component_name
     
     def __iter__(self):
-- 
2.43.0


From 9a458f4b392d492d12d86da8dcbc07eb62f540ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:24 +0000
Subject: [PATCH 37/44] fix: compound circuits created without a list shared
 one list

---
 src/fock_state_circuit/compound_circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fock_state_circuit/compound_circuit.py b/src/fock_state_circuit/compound_circuit.py
index 843ce50..e2bab94 100644
--- a/src/fock_state_circuit/compound_circuit.py
+++ b/src/fock_state_circuit/compound_circuit.py
@@ -47,7 +47,7 @@ class CompoundFockStateCircuit:
     _VERSION = '1.0.0'
 
     def __init__(self, 
-                 list_of_circuits: list = [],
+                 list_of_circuits: list = None,
                  compound_circuit_name: str = None
                 ):
         ''' Constructor for an instance of the class CompoundFockStateCircuit. The instance will be created the list_of_circuits passed as argument. 
@@ -58,7 +58,7 @@ class CompoundFockStateCircuit:
             compound_circuit_name (str, optional): Defaults to '' 
         '''
 
-        self.list_of_circuits = list_of_circuits
+        self.list_of_circuits = list_of_circuits if list_of_circuits is not None else []
         if compound_circuit_name is None:
             self.compound_circuit_name = FockStateCircuit._CIRCUIT_DRAW_DEFAULT_SETTINGS.get('compound_circuit_title','Optical circuit')
         else:
-- 
2.43.0


From 2667a156f721e600e9ea8195ae196a62d1de02f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:36 +0000
Subject: [PATCH 38/44] fix: drawings with beamsplitters that fill a line or of
 which a station has one half failed

---
 src/fock_state_circuit/visualization/draw.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index 6b9456f..4b63ea0 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -213,13 +213,16 @@ class Draw():
                     else:
                         number_of_combined_nodes += 1
 
-                nodes_occupied_by_combined_node = number_of_combined_nodes//2
+                nodes_occupied_by_combined_node = (1+ number_of_combined_nodes)//2 # 0 -> 0, 1->1,  2-> 1, 3 -> 2, 4->2, ....
                 # if combined node does not fit on a page treat it as individual nodes (combined node is too large)
-                if (number_of_combined_nodes//2) > len(compound_circuit_settings['node_x_values']):
-                    this_is_a_combined_node = False
                 # if combined node is a single node treat it as a single node
-                if number_of_combined_nodes <= 1:
-                    this_is_a_combined_node = False
+                draw_combined_node_as_individual_nodes = (number_of_combined_nodes <= 1 or
+                                                          nodes_occupied_by_combined_node > len(compound_circuit_settings['node_x_values']))
+
+            # all nodes in the combination have to be treated the same way
+            if this_is_a_combined_node and draw_combined_node_as_individual_nodes:
+                this_is_a_combined_node = False
+                this_is_first_of_a_combined_node = False
 
             # create a number which in binary format has a 1 for occupied channels and 0 otherwise, this is used to determine
             # whether we can draw nodes on the same x-location (if the nodes do not overlap this makes the circuit drawing more
@@ -338,12 +341,13 @@ class Draw():
                 if this_is_first_of_a_combined_node:
                     # add node in next position after the already occupied node positions
                     page_number_first_combined_node, node_number_on_page_first_combined_node= divmod(len(compound_circuit_settings['node_positions_occupied']), len(compound_circuit_settings['node_x_values']))
-                    nodes_occupied_by_combined_node = (1+ number_of_combined_nodes)//2 # 0 -> 0, 1->1,  2-> 1, 3 -> 2, 4->2, ....
                     page_number_last_combined_node, node_number_on_page_last_combined_node= divmod(len(compound_circuit_settings['node_positions_occupied']) + nodes_occupied_by_combined_node, len(compound_circuit_settings['node_x_values']))
                     page_number = page_number_last_combined_node
 
                     # check if full combined nodes still fits on the page, otherwise move everything to next page
-                    if page_number_last_combined_node != page_number_first_combined_node:
+                    if node_number_on_page_first_combined_node == 0:
+                        page_number = page_number_first_combined_node
+                    elif page_number_last_combined_node != page_number_first_combined_node:
                         # if we move combined node to next page fill up the empty positions in the current page
                         for _ in range(node_number_on_page_first_combined_node, len(compound_circuit_settings['node_x_values'])):
                             compound_circuit_settings['node_positions_occupied'].append(0)
@@ -357,7 +361,7 @@ class Draw():
                   
                     # generate the x-values for all nodes in the combined node
                     combined_node_x_values = []
-                    node_spacing = compound_circuit_settings['node_x_values'][1]-compound_circuit_settings['node_x_values'][0]
+                    node_spacing = compound_circuit_settings['spacing_between_nodes']
                     node_x_original_first_node_in_compound = compound_circuit_settings['node_x_values'][node_number_on_page_first_combined_node]
                     if number_of_combined_nodes%2 == 0: #case for even number of nodes
                         shift_combined_node = (-1/4)*node_spacing
-- 
2.43.0


From e9a05945bb3b90a11c75d69073e3523e79f4baf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:36 +0000
Subject: [PATCH 39/44] fix: drawings hid the last node or a page when nodes
 without channels came last

---
 src/fock_state_circuit/visualization/draw.py | 22 +++++++++-----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index 4b63ea0..51eaafa 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -328,10 +328,11 @@ class Draw():
                 page_number, node_number_on_page= divmod(len(compound_circuit_settings['node_positions_occupied']), len(compound_circuit_settings['node_x_values']))
                 # if node is most left on page start a new page
                 start_empty_new_page = (node_number_on_page == 0)
-                # if this is a bridge it will be drawn 'inbetween' nodes so we have to shorten the list of nodes occupied to avoid a gap
-                compound_circuit_settings['node_positions_occupied'].append(bitnumber_occupied_channels)
-                if this_node_is_a_bridge:
-                    compound_circuit_settings['node_positions_occupied']  = compound_circuit_settings['node_positions_occupied'][1:]
+                # if this is a bridge it will be drawn 'inbetween' nodes so it does not occupy a position of its own, to avoid a gap
+                if not this_node_is_a_bridge:
+                    compound_circuit_settings['node_positions_occupied'].append(bitnumber_occupied_channels)
+                elif len(compound_circuit_settings['node_positions_occupied']) > 0:
+                    compound_circuit_settings['node_positions_occupied'][-1] = bitnumber_occupied_channels
 
                 # determine where to write this node
                 node_x = compound_circuit_settings['node_x_values'][node_number_on_page]
@@ -849,17 +850,14 @@ class Draw():
             # if this is the end of the compound circuit go through all pages and ensure 
             # that there are no empty channel lines extending. Cut the lines right after
             # last node on the page
-            last_node_on_page = []
+            last_node_on_page = {}
             for node_position, channels_occupied in enumerate(compound_circuit_settings['node_positions_occupied']):
                             
                 page_number, node_number_on_page= divmod(node_position, len(compound_circuit_settings['node_x_values']))
-                if channels_occupied != 0:
-                    if page_number < len(last_node_on_page):
-                        if node_number_on_page > last_node_on_page[page_number][0]:
-                            last_node_on_page[page_number] = (node_number_on_page,node_position)
-                    else:
-                        last_node_on_page.append( (node_number_on_page,node_position) )
-            for page_number, node_indices in enumerate(last_node_on_page):
+                # nodes without channels do not determine the length of the lines, but their page is to be kept
+                if channels_occupied != 0 or page_number not in last_node_on_page:
+                    last_node_on_page[page_number] = (node_number_on_page,node_position)
+            for page_number, node_indices in last_node_on_page.items():
                 axis = compound_circuit_settings['plot_axs'][page_number][0]
                 last_node_x = compound_circuit_settings['node_x_values'][node_indices[0]]     
 
-- 
2.43.0


From 9ef76c1c7f5fa8f0454128684567acd979d35f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:09 +0000
Subject: [PATCH 40/44] fix: a list of Hamiltonians used the operator channels
 of the first one for all of them

---
 .../quantum_operator_functionality/quantum_operators.py    | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
index 1d8652c..f8f6513 100644
--- a/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
+++ b/src/fock_state_circuit/quantum_operator_functionality/quantum_operators.py
@@ -100,10 +100,10 @@ class QuantumOperator:
             'frozen' dataclass we need to use settattr to be able to modify the arguments (so it looks more complex than it actually is)
         """
         object.__setattr__(self, 'operator_channels', self.hamiltonians[0].operator_channels)
-        lim_basis_to_values, lim_basis_to_index = self._generate_limited_basis(self.operator_channels, self.length_of_fock_state)
+        lim_basis_to_values, lim_basis_to_index = self._generate_limited_basis([channel for hamiltonian in self.hamiltonians for channel in hamiltonian.operator_channels], self.length_of_fock_state)
         object.__setattr__(self, '_lim_basis_to_values', lim_basis_to_values)
         object.__setattr__(self, '_lim_basis_to_index', lim_basis_to_index)
-        matrices = [self._generate_limited_matrix(hamiltonian.operators, self.operator_channels, self.length_of_fock_state) for hamiltonian in self.hamiltonians]
+        matrices = [self._generate_limited_matrix(hamiltonian.operators, hamiltonian.operator_channels, self.length_of_fock_state) for hamiltonian in self.hamiltonians]
         object.__setattr__(self, '_matrices', matrices)
         object.__setattr__(self, '_transition_matrices_list', self._exponentiaze())
         object.__setattr__(self, '_transition_matrix', self._combine_operators())
@@ -152,8 +152,7 @@ class QuantumOperator:
         Returns:
             ndarray: Matrix representing the effect of the operator.
         """
-        number_of_channels = len(set(operator_channels))
-        matrix_size = length_of_fock_state**number_of_channels
+        matrix_size = len(self._lim_basis_to_values)
         matrix = np.zeros((matrix_size,matrix_size), np.csingle)
         for index, values in self._lim_basis_to_values.items():
             for operator in operators:
-- 
2.43.0


From 89c4fb714e8decd77149b33c1ab380f639bd823d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:09 +0000
Subject: [PATCH 41/44] fix: draw_station drew all stations when asked for a
 list of stations

---
 src/fock_state_circuit/visualization/draw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fock_state_circuit/visualization/draw.py b/src/fock_state_circuit/visualization/draw.py
index 51eaafa..0e97f84 100644
--- a/src/fock_state_circuit/visualization/draw.py
+++ b/src/fock_state_circuit/visualization/draw.py
@@ -1098,7 +1098,7 @@ class Draw():
         elif not isinstance(stations['station_to_draw'],list):
             station_list = [stations['station_to_draw']]
         else: 
-            station_list = list(stations['station_channels'].keys())
+            station_list = stations['station_to_draw']
 
         # create the settings for drawing stations for this circuit
         settings_for_drawing_station = self.create_settings_for_drawing_stations(stations,settings_for_drawing_circuit)
-- 
2.43.0


From 7cbe240632221e1d7286d090f43c30f5eb6d2772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:23 +0000
Subject: [PATCH 42/44] fix: reduce gave states with undefined amplitudes for
 components with amplitude zero

---
 src/fock_state_circuit/collection_of_states.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index b0db96a..e04fffe 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -818,6 +818,9 @@ class CollectionOfStates(Plot):
                 cumulative_probability = 0
                 for amplitude_probability in new_optical_components.values():
                     cumulative_probability += np.abs(amplitude_probability['amplitude'])**2
+                if cumulative_probability == 0:
+                    # only components with amplitude zero, this outcome does not occur
+                    continue
                 scale_factor = math.sqrt((1/cumulative_probability))
                 for component in new_optical_components.keys():
                     new_amplitude = new_optical_components[component]['amplitude'] * scale_factor
-- 
2.43.0


From 6de055774c9cb857a3cdfd691bd45a2d5358529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:23 +0000
Subject: [PATCH 43/44] fix: adjusting the length replaced components by others
 with amplitude zero

---
 src/fock_state_circuit/collection_of_states.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fock_state_circuit/collection_of_states.py b/src/fock_state_circuit/collection_of_states.py
index e04fffe..a33976e 100644
--- a/src/fock_state_circuit/collection_of_states.py
+++ b/src/fock_state_circuit/collection_of_states.py
@@ -890,6 +890,9 @@ class CollectionOfStates(Plot):
                 for value in values:
                     new_values.append(value%new_length_of_fock_state)
                 new_name = updated_circuit._dict_of_optical_values[tuple(new_values)]
+                # a component with amplitude zero does not replace another one
+                if amp_prob['amplitude'] == 0 and new_name in new_optical_components:
+                    continue
                 new_optical_components.update({new_name:amp_prob})
             new_state_as_a_dict = { 'initial_state' : state.initial_state,
                                     'cumulative_probability' : state.cumulative_probability,
-- 
2.43.0


From 18c45cbe224d2b4c82291cf780356ed27460326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:32 +0000
Subject: [PATCH 44/44] fix: components with amplitude zero gave undefined
 amplitudes in photon-resolved states

---
 .../column_of_states.py                                      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
index 76deb49..2fa1cf3 100644
--- a/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
+++ b/src/fock_state_circuit/temporal_and_spectral_gate_functionality/column_of_states.py
@@ -455,6 +455,11 @@ class ColumnOfStates():
         """
         new_column = None
         for index, state in enumerate(self.list_of_states):
+            # components with amplitude zero are not columns
+            components = [(name, amp_prob['amplitude']) for name, amp_prob in state.optical_components.items() if amp_prob['amplitude'] != 0]
+            if 0 < len(components) < len(state.optical_components):
+                state.optical_components = components
+
             if len(state.optical_components) == 1:
                 continue
             else:
-- 
2.43.0

