From b72d9bf9b9ac5062be830c2f283922ee26e25f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 01/78] fix: chunk equality must not depend on the order of
 several negations in a slot

---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 58ea8f2..add038f 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -206,7 +206,7 @@ class Chunk(Sequence):
                             else:
                                 yield tuple([key, hash(value)])
 
-        self.__hash = hash(tuple(hash_func())), self.boundvars.copy() #store the hash along with the vars used to calculate it, so it doesnt need to be recalculated
+        self.__hash = hash(frozenset(hash_func())), self.boundvars.copy() #store the hash along with the vars used to calculate it, so it doesnt need to be recalculated
         return self.__hash[0]
 
     def __iter__(self):
-- 
2.43.0


From 357f9df3ae5e195afc701cf1b098bad698f6c062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 02/78] fix: a slot missing in the matched chunk counts as
 empty when matching patterns

---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index add038f..2348add 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -256,7 +256,7 @@ class Chunk(Sequence):
             try:
                 matching_val = getattr(otherchunk.actrchunk, x[0] + "_") #get the value of attr
             except AttributeError:
-                matching_val = None #if it is missing, it must be None
+                matching_val = self.__emptyvalue #if it is missing, it must be empty
 
             if isinstance(matching_val, utilities.VarvalClass):
                 matching_val = matching_val.values #the value might be written using _variablesvalues namedtuple; in that case, get it out
-- 
2.43.0


From f8d0a5194b9ea36ec97a9bc031ee8b98a52e4bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 03/78] fix: the value of isa in a chunk string is the name of
 a type even if a chunk of that name exists

---
 pyactr/chunks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 2348add..4752803 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -395,9 +395,9 @@ def createchunkdict(chunk):
                 if elem[idx][0] == "'" or elem[idx][0] == '"':
                     update_val = elem[idx][1:-1]
                 else:
-                    #check if the string is an existing chunk in the database of chunks
+                    #check if the string is an existing chunk in the database of chunks (the value of isa is a name of a type, never a chunk)
                     try:
-                        update_val = Chunk._chunks[elem[idx]]
+                        update_val = Chunk._chunks[elem[idx]] if elem[0].lower() != "isa" else elem[idx]
                     #if not, save it as a string
                     except KeyError:
                         update_val = elem[idx]
-- 
2.43.0


From 52891e51652d30f9a6301b0b0b28b87a905487b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 04/78] fix: accept isa in any combination of capital and small
 letters in chunk strings

---
 pyactr/chunks.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 4752803..a81e273 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -419,12 +419,8 @@ def createchunkdict(chunk):
                 chunk_dict[key][x] = None
         chunk_dict[key] = utilities.VarvalClass(**chunk_dict[key])
     type_chunk = ""
-    try:
-        type_chunk = chunk_dict.pop("isa").values #change this - any combination of capital/small letters
-        type_chunk = chunk_dict.pop("ISA").values
-        type_chunk = chunk_dict.pop("Isa").values
-    except KeyError:
-        pass
+    for key in [x for x in chunk_dict if x.lower() == "isa"]: #any combination of capital/small letters
+        type_chunk = chunk_dict.pop(key).values
     return type_chunk, chunk_dict
 
 def makechunk(nameofchunk="", typename="", **dictionary):
-- 
2.43.0


From 1847e833fd65d17f0ce9f1e4227fda26f2d8b4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 05/78] fix: reject the slot isa in chunk types, as announced
 by the error message

---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index a81e273..8c166e6 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -30,7 +30,7 @@ def chunktype(cls_name, field_names, defaults=None, include=None):
         pass  # assume it's already a sequence of identifiers
     field_names = tuple(sorted(name + "_" for name in field_names))
     for each in field_names:
-        if each == "ISA" or each == "isa":
+        if each == "ISA_" or each == "isa_":
             raise ACTRError("You cannot use the slot 'isa' in your chunk. That slot is used to define chunktypes.")
 
     # If an ancestor was specified, union the field names and re-sort
-- 
2.43.0


From 3e4120b46a1060c22fdc0a0cae963b188ff0711d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 06/78] fix: initialize declarative memory with chunks that
 have two slots

---
 pyactr/declarative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 17c5eea..5b238ee 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -23,7 +23,7 @@ class DecMem(collections.abc.MutableMapping):
         if data is not None:
             try:
                 self.update(data)
-            except ValueError:
+            except (ValueError, utilities.ACTRError): #data are chunks without times; ACTRError appears when chunks with two slots were taken to be chunk-time pairs
                 self.update({x:0 for x in data})
 
     def __contains__(self, elem):
-- 
2.43.0


From 22d5e6dbbb0ecf7b17df7ab00ab65533a1745384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 07/78] fix: add chunks to declarative memory from any
 iterable, as documented

---
 pyactr/declarative.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 5b238ee..92d7277 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -82,6 +82,8 @@ class DecMem(collections.abc.MutableMapping):
 
         element can be either one chunk, or an iterable of chunks.
         """
+        if isinstance(element, collections.abc.Iterable) and not isinstance(element, (chunks.Chunk, str)):
+            element = list(element) #any iterable of chunks can be added, even if it is hashable (tuples, frozensets)
         if isinstance(time, collections.abc.Iterable):
             try:
                 new = np.concatenate((self.setdefault(element, np.array([])), np.array(time)))
-- 
2.43.0


From fbbe9bbee04aab0329165971717442944ab48576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 08/78] fix: a rejected modification must leave the chunk in
 the buffer

---
 pyactr/buffers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/buffers.py b/pyactr/buffers.py
index 875ada4..258bdc9 100644
--- a/pyactr/buffers.py
+++ b/pyactr/buffers.py
@@ -99,11 +99,11 @@ class Buffer(collections.abc.MutableSet):
         """
         if actrvariables == None:
             actrvariables = {}
-        elem = self._data.pop()
         try:
             mod_attr_val = {x[0]: utilities.check_bound_vars(actrvariables, x[1]) for x in otherchunk.removeunused()} #creates dict of attr-val pairs according to otherchunk
         except utilities.ACTRError as arg:
             raise utilities.ACTRError(f"The modification by the chunk '{otherchunk} is impossible; {arg}")
+        elem = self._data.pop()
         elem_attr_val = {x[0]: x[1] for x in elem}
         elem_attr_val.update(mod_attr_val) #updates original chunk with attr-val from otherchunk
         mod_chunk = chunks.Chunk(otherchunk.typename, **elem_attr_val) #creates new chunk
-- 
2.43.0


From 69494d5cdb01061b4c0e9d8e0c7181f6bb2022af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 09/78] fix: copies of goal and retrieval buffers keep delay,
 finst, recent retrievals and parameters; a retrieval copy has its own memory
 as documented

---
 pyactr/declarative.py | 6 ++++--
 pyactr/goals.py       | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 92d7277..34d975f 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -172,8 +172,10 @@ class DecMemBuffer(buffers.Buffer):
         Copy buffer, along with its declarative memory, unless dm is specified. You need to specify new dm if 2 buffers share the same dm - only one of them should copy dm then.
         """
         if dm == None:
-            dm = self.dm 
-        copy_buffer = DecMemBuffer(dm, self._data.copy())
+            dm = self.dm.copy() if self.dm is not None else None
+        copy_buffer = DecMemBuffer(dm, self._data.copy(), self.finst)
+        copy_buffer.recent = self.recent.copy()
+        copy_buffer.model_parameters = self.model_parameters.copy()
         return copy_buffer
 
     def test(self, state, inquiry):
diff --git a/pyactr/goals.py b/pyactr/goals.py
index 1b33b29..900ef2b 100644
--- a/pyactr/goals.py
+++ b/pyactr/goals.py
@@ -68,7 +68,7 @@ class Goal(buffers.Buffer):
         """
         if harvest == None:
             harvest = self.dm
-        copy_goal = Goal(self._data.copy(), harvest)
+        copy_goal = Goal(self._data.copy(), harvest, self.delay)
         return copy_goal
     
     def test(self, state, inquiry):
-- 
2.43.0


From ce750ab33d2bceef8a24e86c2e63eea727a8ac1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 10/78] fix: compare the retrieval time rounded as presentation
 times are

---
 pyactr/declarative.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 34d975f..8c54677 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -191,6 +191,8 @@ class DecMemBuffer(buffers.Buffer):
         model_parameters = model_parameters.copy()
         model_parameters.update(self.model_parameters)
 
+        time = utilities.roundtime(time) #presentation times are stored rounded; without rounding, chunks stored just now would not be recognized as such
+
         if actrvariables == None:
             actrvariables = {}
         try:
-- 
2.43.0


From afa268d54d5d64dcd4f36485335d8833fe3f23fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 11/78] fix: no presentation at the present moment counts in
 base-level activation, with optimized learning as well

---
 pyactr/utilities.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 3381c09..5b99ca5 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -6,7 +6,6 @@ import collections
 import collections.abc
 import re
 import math
-import warnings
 
 import numpy as np
 import pyparsing as pp
@@ -425,25 +424,13 @@ def baselevel_learning(current_time, times, bll, decay, activation=None, optimiz
     Calculate base-level learning: B_i = ln(sum(t_j^{-decay})) for t_j = current_time - t for t in times.
     """
     if bll:
+        times = np.asarray(times)
+        times = times[times < current_time] #this part removes chunk storages that are stored at current time (blocking simultaneous retrieval)
         if len(times) > 0:
-            with warnings.catch_warnings(record=True):
-                warnings.filterwarnings('error')
-                if not optimized_learning:
-                    try:
-                        B = math.log(np.sum((current_time - times) ** (-decay)))
-                    #this part removes chunk storages that are stored at current time (blocking simultaneous retrieval)
-                    except RuntimeWarning:
-                        temp_times = np.delete(times, times.argmax())
-                        if len(temp_times) > 0:
-                            B = math.log(np.sum((current_time - temp_times) ** (-decay)))
-                else:
-                    try:
-                        B = math.log(len(times)/(1-decay)) - decay*math.log(current_time - np.max(times)) #calculating bll using optimized learning -- much faster since it's a single calculation
-                    #this part removes chunk storages that are stored at current time (blocking simultaneous retrieval)
-                    except RuntimeWarning:
-                        temp_times = np.delete(times, times.argmax())
-                        if len(temp_times) > 0:
-                            B = math.log(len(times)/(1-decay)) - decay*math.log(current_time - np.max(temp_times)) #calculating bll using optimized learning -- much faster since it's a single calculation
+            if not optimized_learning:
+                B = math.log(np.sum((current_time - times) ** (-decay)))
+            else:
+                B = math.log(len(times)/(1-decay)) - decay*math.log(current_time - np.max(times)) #calculating bll using optimized learning -- much faster since it's a single calculation
     else:
         B = 0
 
-- 
2.43.0


From 04277b8c73267855bf2f595da781f6f4e20d4fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 12/78] fix: reject a negative finst given when the retrieval
 buffer is created

---
 pyactr/declarative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 8c54677..463a9ee 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -119,7 +119,7 @@ class DecMemBuffer(buffers.Buffer):
     def __init__(self, decmem=None, data=None, finst=0):
         buffers.Buffer.__init__(self, decmem, data)
         self.recent = collections.deque()
-        self.__finst = finst
+        self.finst = finst
         self.activation = None #activation of the last retrieved element
 
         #parameters
-- 
2.43.0


From c0c2af2e461417e6e8890f15fd5b697014810155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 13/78] fix: variables with names longer than one character are
 told apart in chunk equality and matching

---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 8c166e6..0eab339 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -186,7 +186,7 @@ class Chunk(Sequence):
                 temp_varval = {"values": set(), "negvalues": set()}
                 for key in ["variables", "negvariables"]:
                     if getattr(varval, key):
-                        for value in getattr(varval, key):
+                        for value in ([varval.variables] if key == "variables" else varval.negvariables): #at most one variable, any number of negvariables
                             try:
                                 temp_varval[re.sub("variables", "values", key)].add(self.boundvars[utilities.ACTRVARIABLE + value]) #add (neg)value based on the (neg)variable
                             except KeyError:
-- 
2.43.0


From 684ec4c49c4648f4f16b170bd0f499e9412bdabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 14/78] fix: matching decides slot by slot, even when pattern
 and chunk have equal hashes

---
 pyactr/chunks.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 0eab339..78091b1 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -241,15 +241,13 @@ class Chunk(Sequence):
         """
         Check whether one chunk is part of another (given boundvariables in boundvars).
         """
-        return self == otherchunk or self.match(otherchunk, partialmatching=False) #actually, the second disjunct should be enough -- TODO: check why it fails in some cases; this might be important for partial matching
+        return self.match(otherchunk, partialmatching=False)
 
     def match(self, otherchunk, partialmatching, mismatch_penalty=1):
         """
         Check partial match (given bound variables in boundvars).
         """
         similarity = 0
-        if self == otherchunk:
-            return similarity
         #below starts the check that self is proper part of otherchunk. __emptyvalue is ignored. 4 cases have to be checked separately, =x, ~=x, !1, ~!1. Also, variables and their values have to be saved in boundvars. When self is not part of otherchunk the loop adds to (dis)similarity.
         for x in self:
 
-- 
2.43.0


From f0b8b5f8498906ba8a8d3ff7ffe679bc1512cfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 15/78] fix: learned utilities decide in later conflict
 resolutions

---
 pyactr/productions.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 50cd31e..ba176bf 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -462,7 +462,8 @@ class ProductionRules:
     def __init__(self, rules, buffers, dm, model_parameters):
         self.__actrvariables = {} #variables in a fired rule
         self.rules = rules
-        self.ordered_rulenames = sorted(rules.keys(), key=lambda x: rules[x]['utility'], reverse=True) #rulenames ordered by utilities -- this speeds up rule selection when utilities are used
+        self.ordered_rulenames = list(rules.keys())
+        self.__order_rulenames()
 
         self.last_rule = None #used for production compilation
         self.last_rule_slotvals = {key: None for key in buffers} #slot-values after a production; used for production compilation
@@ -479,6 +480,12 @@ class ProductionRules:
 
         self.model_parameters = model_parameters
 
+    def __order_rulenames(self):
+        """
+        Order rulenames by utilities -- this speeds up rule selection when utilities are used. The order of rules with the same utility does not change.
+        """
+        self.ordered_rulenames.sort(key=lambda x: self.rules[x]['utility'], reverse=True)
+
     def procedural_process(self, start_time=0):
         """
         Process that is carrying a production. Proceeds in steps: conflict resolution -> rule selection -> rule firing; or conflict resolution -> no rule found. Start_time specifies when production starts in discrete event simulation.
@@ -529,6 +536,7 @@ class ProductionRules:
                 if self.model_parameters["utility_learning"] and self.rules[used_rulename]["reward"] != None:
                     utilities.modify_utilities(time, self.rules[used_rulename]["reward"], self.rules.used_rulenames, self.rules, self.model_parameters)
                     self.rules.used_rulenames = {}
+                    self.__order_rulenames() #learned utilities decide in later conflict resolutions
                 compiled_rulename, re_created = self.compile_rules()
                 self.compile = []
                 if re_created:
@@ -556,7 +564,9 @@ class ProductionRules:
         if self.model_parameters["production_compilation"] and self.compile:
             compiled_rulename, re_created = self.rules.compile_rules(self.compile[0], self.compile[1], self.compile[2], self.buffers, self.model_parameters)
             if compiled_rulename:
-                self.ordered_rulenames.append(compiled_rulename)
+                if compiled_rulename not in self.ordered_rulenames:
+                    self.ordered_rulenames.append(compiled_rulename)
+                self.__order_rulenames()
             return compiled_rulename, re_created
         else:
             return None, None
-- 
2.43.0


From 79e9a6a48939010c6c618cbbadd567090910e271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 16/78] fix: trigger keys pressed after the last screen, or
 when a screen runs out, do not crash the simulation

---
 pyactr/simulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 9460268..9ffb64e 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -107,7 +107,8 @@ class Simulation:
             yield pro | self.__environment_activate
             if self.__environment_activate.triggered:
                 self.__environment_activate = self.__simulation.event()
-                pro.interrupt()
+                if pro.is_alive:
+                    pro.interrupt()
             try:
                 event = next(generator)
             except StopIteration:
@@ -201,7 +202,7 @@ class Simulation:
                 self.__printevent__(event)
                 self.__activate__(event)
             try:
-                if self.__env.trigger and self.__pr.env_interaction.intersection(self.__env.trigger):
+                if self.__env.trigger and self.__pr.env_interaction.intersection(self.__env.trigger) and not self.__environment_activate.triggered:
                     self.__environment_activate.succeed(value=(self.__env.trigger, self.__pr.env_interaction))
                 self.__pr.env_interaction = set()
             except AttributeError:
-- 
2.43.0


From eda0adc7caac12c01de85c9fd2ba7665ecefdb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:59 +0000
Subject: [PATCH 17/78] fix: attention shifts find objects at list and
 non-integer positions and report a missing object

---
 pyactr/vision.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 5e7a2bd..c41b967 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -333,16 +333,22 @@ class Visual(buffers.Buffer):
             raise ACTRError(f"Shifting towards the chunk '{otherchunk}' is impossible; {arg}")
 
         vis_delay = None
+        stim = None
 
         for each in self.environment.stimulus:
             try:
-                if self.environment.stimulus[each]['position'] == (float(mod_attr_val['screen_pos'].values.screen_x.values), float(mod_attr_val['screen_pos'].values.screen_y.values)):
+                position = self.environment.stimulus[each]['position']
+                attended = (float(mod_attr_val['screen_pos'].values.screen_x.values), float(mod_attr_val['screen_pos'].values.screen_y.values))
+                if tuple(position) == attended or (int(position[0]), int(position[1])) == attended: #location chunks carry integer positions
                     vis_delay = self.environment.stimulus[each].get('vis_delay')
                     stim = self.environment.stimulus[each].copy()
                     stim.update({'cmd': mod_attr_val['cmd']})
             except (AttributeError, KeyError):
                 raise ACTRError("The chunk in the visual buffer is not defined correctly. It is not possible to move attention.")
 
+        if stim is None:
+            raise ACTRError("There is no object at the location to which attention should move. It is not possible to move attention.")
+
         new_chunk = chunk_from_stimulus(stim, "visual", position=False) #creates new chunk
 
         if model_parameters['emma']:
-- 
2.43.0


From 443d663db5a88c7d22f21e122db2cef295ea7daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:02 +0000
Subject: [PATCH 18/78] fix: an object that disappears while it is being
 encoded does not crash the simulation

---
 pyactr/productions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index ba176bf..4c10a5f 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -890,7 +890,10 @@ class ProductionRules:
         visualbuffer.move_eye(landing_site)
         yield Event(roundtime(time), name, f"SHIFT COMPLETE TO POSITION: {str(visualbuffer.current_focus)}")
         if encoding > preparation+execution:
-            newchunk, extra_time, _ = visualbuffer.shift(otherchunk, actrvariables=temp_actrvariables, model_parameters=self.model_parameters)
+            try:
+                newchunk, extra_time, _ = visualbuffer.shift(otherchunk, actrvariables=temp_actrvariables, model_parameters=self.model_parameters)
+            except ACTRError:
+                pass #the object disappeared from the screen during the eye movement; its encoding continues with the original encoding time
             yield from self.visualencode(name, visualbuffer, otherchunk, temp_actrvariables, time, (1-((preparation+execution)/encoding))*extra_time[0], landing_site)
         visualbuffer.processor = visualbuffer._FREE
         visualbuffer.execution = visualbuffer._FREE
-- 
2.43.0


From 99f3f550f2af8e67a0fa0e252a6de0fcc2978bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:23 +0000
Subject: [PATCH 19/78] fix: a visual request without a command is rejected
 with ACTRError

---
 pyactr/productions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 4c10a5f..7786d16 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -761,8 +761,8 @@ class ProductionRules:
             yield Event(roundtime(time), name, f"ENCODED LOCATION:'{str(chunk)}'")
         elif isinstance(updated, vision.Visual):
             mod_attr_val = {x[0]: utilities.check_bound_vars(temp_actrvariables, x[1]) for x in otherchunk.removeunused()}
-            if (not mod_attr_val['cmd'].values) or mod_attr_val['cmd'].values not in utilities.CMDVISUAL:
-                raise ACTRError(f"Visual module received no command or an invalid command: '{mod_attr_val['cmd'].values}'. The valid commands are: '{utilities.CMDVISUAL}'")
+            if 'cmd' not in mod_attr_val or (not mod_attr_val['cmd'].values) or mod_attr_val['cmd'].values not in utilities.CMDVISUAL:
+                raise ACTRError(f"Visual module received no command or an invalid command: '{mod_attr_val.get('cmd')}'. The valid commands are: '{utilities.CMDVISUAL}'")
             if mod_attr_val['cmd'].values == utilities.CMDMOVEATTENTION:
                 ret = yield from self.visualshift(name, updated, otherchunk, temp_actrvariables, time)
                 yield ret #visual action returns value, namely, its continuation method
-- 
2.43.0


From 3173c9881fe74c6805a5f9cdf5676a3fee95fef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:25 +0000
Subject: [PATCH 20/78] fix: motor requests without a command or a key are
 rejected with ACTRError

---
 pyactr/motor.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pyactr/motor.py b/pyactr/motor.py
index bb7b718..a6be019 100644
--- a/pyactr/motor.py
+++ b/pyactr/motor.py
@@ -50,16 +50,15 @@ class Motor(buffers.Buffer):
         except ACTRError as arg:
             raise ACTRError(f"Setting the chunk '{otherchunk}' in the manual buffer is impossible; {arg}")
 
-        new_chunk = chunks.Chunk(self._MANUAL, **mod_attr_val) #creates new chunk
-
-        if new_chunk.cmd.values not in utilities.CMDMANUAL:
-            raise ACTRError(f"Motor module received an invalid command: '{new_chunk.cmd.values}'. The valid commands are: '{utilities.CMDMANUAL}'")
+        if 'cmd' not in mod_attr_val or mod_attr_val['cmd'].values != utilities.CMDPRESSKEY:
+            raise ACTRError(f"Motor module received no command or an invalid command: '{mod_attr_val.get('cmd')}'. The valid commands are: '{utilities.CMDMANUAL}'")
 
-        if new_chunk.cmd.values == utilities.CMDPRESSKEY:
-            pressed_key = new_chunk.key.values.upper() #change key into upper case
-            mod_attr_val["key"] = pressed_key
-            new_chunk = chunks.Chunk(self._MANUAL, **mod_attr_val) #creates new chunk
-        if pressed_key not in self.LEFT_HAND and new_chunk.key.values not in self.RIGHT_HAND:
+        if 'key' not in mod_attr_val:
+            raise ACTRError("Motor module received no key to press")
+        pressed_key = str(mod_attr_val['key'].values).upper() #change key into upper case
+        mod_attr_val["key"] = pressed_key
+        new_chunk = chunks.Chunk(self._MANUAL, **mod_attr_val) #creates new chunk
+        if pressed_key not in self.LEFT_HAND and pressed_key not in self.RIGHT_HAND:
             raise ACTRError(f"Motor module received an invalid key: {pressed_key}")
 
         return new_chunk
-- 
2.43.0


From 6a8457540ddd151e967a704bc3b03fc6e72845da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 21/78] fix: a variable bound to an omitted slot means the same
 as one bound to an explicitly empty slot

---
 pyactr/chunks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 78091b1..d1168fc 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -258,6 +258,8 @@ class Chunk(Sequence):
 
             if isinstance(matching_val, utilities.VarvalClass):
                 matching_val = matching_val.values #the value might be written using _variablesvalues namedtuple; in that case, get it out
+            if matching_val == self.__emptyvalue:
+                matching_val = str(utilities.EMPTYVALUE) #omitted slots and explicitly empty slots are treated the same way, for example, when a variable is bound to them
             varval = utilities.splitting(x[1])
 
             #checking variables, e.g., =x
-- 
2.43.0


From 97f2e4911cca74f4def3af80bd2431c50a371aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:09 +0000
Subject: [PATCH 22/78] fix: two processes started in one module at the same
 moment do not crash the simulation

---
 pyactr/simulation.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 9ffb64e..a98095b 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -159,7 +159,15 @@ class Simulation:
             except StopIteration:
                 if name in self.__interruptibles:
                     self.__interruptibles.pop(name) #remove this process from interruptibles since it's finished
-                yield self.__dict_extra_proc_activate[name]
+                try:
+                    yield self.__dict_extra_proc_activate[name]
+                except simpy.Interrupt:
+                    #two processes were started at the same moment, before this module could react to the first one; a request of a production rule has precedence over automatic processes, otherwise the later process has precedence
+                    started = [x for x in self.__procs_started if x[0] == name]
+                    kept = next((x for x in reversed(started) if x[1].__name__ in self.__pr._INTERRUPTIBLE), started[-1])
+                    for each in started:
+                        if each is not kept:
+                            self.__procs_started.remove(each)
                 self.__dict_extra_proc_activate[name] = self.__simulation.event()
             else:
                 self.__procs_started.remove((name, proc))
-- 
2.43.0


From f57a57f9d7cae72b29f4efe12a30534e65d1b9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 23/78] fix: compile rules whose retrieval the second rule does
 not use, keeping the retrieval request

---
 pyactr/productions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 7786d16..d061ab2 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -408,6 +408,10 @@ class Productions(collections.UserDict):
         
         pro2 = next(production2)
 
+        if retrieval and utilities._LHSCONVENTIONS_REVERSED["test"] + retrieval not in pro2:
+            slotvals[retrieval] = None #the second rule does not use what was retrieved, so the retrieval request is kept
+            retrieval = None
+
         matched, valued = utilities.match(pro2, slotvals, rule_name1, rule_name2)
 
         new_1rule = self.__substitute__(self[rule_name1], matched, valued)
-- 
2.43.0


From 0b51104408e3a1dd5ba2f3533a472b8035ab0d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:44 +0000
Subject: [PATCH 24/78] fix: visual_location is not busy for good after an
 automatic search

---
 pyactr/productions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index d061ab2..3af9916 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -807,7 +807,6 @@ class ProductionRules:
         """
         Automatic search of environment stim in the visual buffer. Automatic search is never found by production rules. Production rules are bypassed, this is called directly by simulation.
         """
-        visualbuffer.state = visualbuffer._BUSY
         newchunk = None
         if self.model_parameters["automatic_visual_search"]:
             newchunk, stim = visualbuffer.automatic_search(stim)
@@ -816,6 +815,7 @@ class ProductionRules:
                 visualbuffer.modify(newchunk, stim)
             else:
                 visualbuffer.add(newchunk, stim, time)
+            visualbuffer.state = visualbuffer._FREE
             yield Event(roundtime(time), name, f"ENCODED LOCATION: {newchunk}")
         else:
             yield Event(roundtime(time), name, self._UNKNOWN)
-- 
2.43.0


From 5e3423cf6ce1b9788ee3d7e35d18f380b59f2eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:16 +0000
Subject: [PATCH 25/78] fix: interrupted visual processes do not leave the
 visual module busy

---
 pyactr/productions.py | 11 +++++++----
 pyactr/vision.py      | 10 ++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 3af9916..ba25f3d 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -764,6 +764,7 @@ class ProductionRules:
                 updated.state = updated._ERROR
             yield Event(roundtime(time), name, f"ENCODED LOCATION:'{str(chunk)}'")
         elif isinstance(updated, vision.Visual):
+            updated.stop_preparation()
             mod_attr_val = {x[0]: utilities.check_bound_vars(temp_actrvariables, x[1]) for x in otherchunk.removeunused()}
             if 'cmd' not in mod_attr_val or (not mod_attr_val['cmd'].values) or mod_attr_val['cmd'].values not in utilities.CMDVISUAL:
                 raise ACTRError(f"Visual module received no command or an invalid command: '{mod_attr_val.get('cmd')}'. The valid commands are: '{utilities.CMDVISUAL}'")
@@ -824,8 +825,7 @@ class ProductionRules:
         """
         Automatic buffering of environment stim in the visual buffer. Automatic buffering is never found by production rules. Production rules are bypassed, this is called directly by simulation.
         """
-        visualbuffer.state = visualbuffer._BUSY
-        visualbuffer.autoattending = visualbuffer._BUSY
+        visualbuffer.stop_preparation()
         foveal_distance = utilities.calculate_distance(1, visualbuffer.environment.size, visualbuffer.environment.simulated_screen_size, visualbuffer.environment.viewing_distance)
         cf = tuple(visualbuffer.current_focus)
         newchunk = None
@@ -835,10 +835,13 @@ class ProductionRules:
                 if (not visualbuffer) or list(visualbuffer)[0].value.values != st['text']: #automatic buffer only of there is sth to buffer
                     newchunk, encoding = visualbuffer.automatic_buffering(st, self.model_parameters)
         time += encoding
+        if newchunk:
+            visualbuffer.state = visualbuffer._BUSY
+            visualbuffer.autoattending = visualbuffer._BUSY
         yield Event(roundtime(time), name, self._UNKNOWN)
-        visualbuffer.state = visualbuffer._FREE
-        visualbuffer.autoattending = visualbuffer._FREE
         if newchunk:
+            visualbuffer.state = visualbuffer._FREE
+            visualbuffer.autoattending = visualbuffer._FREE
             if visualbuffer:
                 visualbuffer.modify(newchunk)
             else:
diff --git a/pyactr/vision.py b/pyactr/vision.py
index c41b967..4022f72 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -316,6 +316,16 @@ class Visual(buffers.Buffer):
         """
         self.attend_automatic = False
 
+    def stop_preparation(self):
+        """
+        Give up an attention shift in preparation and automatic buffering in progress, because they are interrupted. An eye movement that is being executed continues.
+        """
+        if self._BUSY in {self.preparation, self.autoattending}:
+            self.preparation = self._FREE
+            self.autoattending = self._FREE
+            self.processor = self.execution
+            self.state = self.execution
+
     def shift(self, otherchunk, harvest=None, actrvariables=None, model_parameters=None):
         """
         Return a chunk, time needed to attend and shift eye focus to the chunk, and the landing site of eye mvt.
-- 
2.43.0


From aaaa5882e1d534bd12b37b03fbc689f02f1d5135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 26/78] fix: strict harvesting does not cancel a request in
 progress

---
 pyactr/productions.py | 9 ++++++++-
 pyactr/simulation.py  | 7 +++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index ba25f3d..8fd8731 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -609,7 +609,7 @@ class ProductionRules:
             for key in temp_actrvariables:
                 submodule_name = key[1:]
                 if submodule_name in self.buffers:
-                    self.procs.append((submodule_name, self.clear(submodule_name, self.buffers[submodule_name], None, self.__actrvariables, time)))
+                    self.procs.append((submodule_name, self.harvest(submodule_name, self.buffers[submodule_name], self.__actrvariables, time)))
 
     def extra_test(self, name, tested, test, temp_actrvariables, time):
         """
@@ -641,6 +641,13 @@ class ProductionRules:
         if freeing:
             cleared.state = cleared._FREE
 
+    def harvest(self, name, harvested, temp_actrvariables, time):
+        """
+        Clear a buffer because of strict harvesting. A request that is in progress in the buffer continues.
+        """
+        requested = harvested.state == harvested._BUSY
+        yield from self.clear(name, harvested, None, temp_actrvariables, time, freeing=not requested)
+
     def execute(self, name, executed, executecommand, temp_actrvariables, time):
         """
         Execute a command.
diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index a98095b..5bc6534 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -244,14 +244,17 @@ class Simulation:
             except ValueError:
                 yield self.__proc_activate #wait for proc_activate
             else:
-                for proc in self.__procs_started:
+                for proc in list(self.__procs_started):
                     name = proc[0]
                     if not self.__dict_extra_proc_activate[name].triggered:
                         if proc[1].__name__ in self.__pr._INTERRUPTIBLE:
                             self.__interruptibles[name] = proc[1] #add new process interruptibles if the process can be interrupted according to ACT-R
                         self.__dict_extra_proc_activate[name].succeed() #activate modules that were used if not active
                     else:
-                        if name in self.__interruptibles and proc[1] != self.__interruptibles[name]:
+                        if name in self.__interruptibles and proc[1].__name__ == "harvest":
+                            self.__procs_started.remove(proc)
+                            self.__simulation.process(self.__localprocess__(name, proc[1])) #strict harvesting does not interrupt a request
+                        elif name in self.__interruptibles and proc[1] != self.__interruptibles[name]:
                             self.__interruptibles[name] = proc[1]
                             self.__dict_extra_proc[name].interrupt() #otherwise, interrupt them
             for _ in range(5):
-- 
2.43.0


From 136752d238f4f321bbd21638a9a2e1edbd2fbfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:03 +0000
Subject: [PATCH 27/78] fix: a screen change does not cancel a search requested
 at the same moment

---
 pyactr/simulation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 5bc6534..54c8a4b 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -131,8 +131,10 @@ class Simulation:
                 if not self.__dict_extra_proc_activate[proc[0]].triggered:
                     self.__interruptibles[proc[0]] = proc[1] #add new process interruptibles if the process can be interrupted according to ACT-R
                     self.__dict_extra_proc_activate[proc[0]].succeed() #activate modules that are used if not active
-                else:
-                    if proc[1] != self.__interruptibles[proc[0]]:
+                elif proc[0] in self.__interruptibles: #(a process that cannot be interrupted is finished first)
+                    if isinstance(self.__buffers[name], vision.VisualLocation) and self.__interruptibles[proc[0]].__name__ in self.__pr._INTERRUPTIBLE:
+                        self.__procs_started.remove(proc) #a search requested by a rule at this very moment has precedence over automatic search
+                    elif proc[1] != self.__interruptibles[proc[0]]:
                         self.__interruptibles[proc[0]] = proc[1]
                         self.__dict_extra_proc[proc[0]].interrupt() #otherwise, interrupt them
 
@@ -254,7 +256,7 @@ class Simulation:
                         if name in self.__interruptibles and proc[1].__name__ == "harvest":
                             self.__procs_started.remove(proc)
                             self.__simulation.process(self.__localprocess__(name, proc[1])) #strict harvesting does not interrupt a request
-                        elif name in self.__interruptibles and proc[1] != self.__interruptibles[name]:
+                        elif name in self.__interruptibles and proc[1].__name__ in self.__pr._INTERRUPTIBLE and proc[1] != self.__interruptibles[name]: #(automatic processes were handled by the environment)
                             self.__interruptibles[name] = proc[1]
                             self.__dict_extra_proc[name].interrupt() #otherwise, interrupt them
             for _ in range(5):
-- 
2.43.0


From 6c78f4be9e2a433f61ac8944a6fd2a51b137bc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 28/78] fix: the last two rules are compiled once at the end of
 a run, also with recent simpy

---
 pyactr/productions.py | 2 +-
 pyactr/simulation.py  | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 8fd8731..65aaa05 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -542,7 +542,6 @@ class ProductionRules:
                     self.rules.used_rulenames = {}
                     self.__order_rulenames() #learned utilities decide in later conflict resolutions
                 compiled_rulename, re_created = self.compile_rules()
-                self.compile = []
                 if re_created:
                     yield Event(roundtime(time), self._PROCEDURAL, f"RULE {re_created}: {compiled_rulename}")
                 self.current_slotvals = {key: None for key in self.buffers}
@@ -567,6 +566,7 @@ class ProductionRules:
         """
         if self.model_parameters["production_compilation"] and self.compile:
             compiled_rulename, re_created = self.rules.compile_rules(self.compile[0], self.compile[1], self.compile[2], self.buffers, self.model_parameters)
+            self.compile = [] #each pair is compiled once
             if compiled_rulename:
                 if compiled_rulename not in self.ordered_rulenames:
                     self.ordered_rulenames.append(compiled_rulename)
diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 54c8a4b..8b21c16 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -270,10 +270,14 @@ class Simulation:
         Run simulation for the number of seconds specified in max_time.
         """
         if not self.gui:
+            while self.__simulation.peek() < max_time:
+                self.__simulation.step()
+            ended = self.__simulation.peek() == float("inf") #(checked here because running up to max_time leaves an event behind)
             self.__simulation.run(max_time)
         else:
             self.__runGUI__()
-        if self.__simulation.peek() == float("inf"):
+            ended = self.__simulation.peek() == float("inf")
+        if ended:
             self.__pr.compile_rules() #at the end of the simulation, run compilation (the last two rules are not yet compiled)
     
     def show_time(self):
-- 
2.43.0


From 248348179353120dace14b97f1c67a2b06ce8cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 29/78] fix: motor preparation depends on the hand and the
 movement class of the keys

---
 pyactr/productions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 65aaa05..38e5280 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -935,8 +935,8 @@ class ProductionRules:
         if newchunk.key == motorbuffer.last_key[0] or self.model_parameters["motor_prepared"]:
             self.model_parameters["motor_prepared"] = False #motor_prepared is only used for the 1st key press
             preparation = 0
-        elif motorbuffer.last_key[0] and (newchunk.key in motorbuffer.PRESSING) == (motorbuffer.last_key[0] in motorbuffer.PRESSING):
-            if (newchunk.key in motorbuffer.LEFT_HAND) == (motorbuffer.last_key[0] in motorbuffer.LEFT_HAND): 
+        elif motorbuffer.last_key[0] and (str(newchunk.key) in motorbuffer.PRESSING) == (str(motorbuffer.last_key[0]) in motorbuffer.PRESSING):
+            if (str(newchunk.key) in motorbuffer.LEFT_HAND) == (str(motorbuffer.last_key[0]) in motorbuffer.LEFT_HAND):
                 preparation -= 0.1 #the same hand, same mvt cuts down by 100 ms; Lisp ACT-R also has the same finger which cuts down by 150 ms; this is not currently implemented
             else:
                 preparation -= 0.05 #a different hand, same mvt cuts down by 50 ms
-- 
2.43.0


From 61830e595a35d7e4a53c914d49e62bc5bef7c80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 30/78] fix: queued key presses wait for each other and keep
 the motor module busy

---
 pyactr/productions.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 38e5280..80ed788 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -968,11 +968,13 @@ class ProductionRules:
         
         time += initiation
         
-        motorbuffer.last_key[1] = time + execution + movement_finish
+        finished = time + execution + movement_finish
+        motorbuffer.last_key[1] = finished
         
         yield Event(roundtime(time), name, 'INITIATION COMPLETE')
         
-        motorbuffer.processor = motorbuffer._FREE
+        if motorbuffer.last_key[1] == finished and motorbuffer.preparation == motorbuffer._FREE: #no other movement is being prepared or waiting for this one to finish
+            motorbuffer.processor = motorbuffer._FREE
         
         time += execution
         yield Event(roundtime(time), name, self._UNKNOWN)
@@ -986,9 +988,11 @@ class ProductionRules:
         yield Event(roundtime(time), name, 'MOVEMENT FINISHED')
         
         self.env_interaction.discard(otherchunk.key)
-        motorbuffer.state = motorbuffer._FREE
-        motorbuffer.execution = motorbuffer._FREE
-        motorbuffer.last_key[1] = 0
+        if motorbuffer.last_key[1] == finished:
+            motorbuffer.execution = motorbuffer._FREE
+            motorbuffer.last_key[1] = 0
+            if motorbuffer.preparation == motorbuffer._FREE:
+                motorbuffer.state = motorbuffer._FREE
 
     def LHStest(self, dictionary, actrvariables, update=False):
         """
-- 
2.43.0


From 7c547a151dcac09ce2af4e356799750b1afbae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:51 +0000
Subject: [PATCH 31/78] fix: the environment leaves the caller's list of
 stimuli as it is

---
 pyactr/environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyactr/environment.py b/pyactr/environment.py
index 44e0ae9..80f056e 100644
--- a/pyactr/environment.py
+++ b/pyactr/environment.py
@@ -83,6 +83,7 @@ class Environment:
         #make all arguments iterables if they are not yet
         if isinstance(stimuli, str) or isinstance(stimuli, collections.abc.Mapping) or not isinstance(stimuli, collections.abc.Iterable):
             stimuli = [stimuli]
+        stimuli = list(stimuli) #the list supplied by the caller stays as it is
         for idx in range(len(stimuli)):
             if isinstance(stimuli[idx], collections.abc.Mapping):
                 for each in stimuli[idx]:
-- 
2.43.0


From f0d3273691a29e0ce96e17b5d5e5da6cd10b0da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 32/78] fix: stimuli without text can be seen

---
 pyactr/productions.py | 2 +-
 pyactr/vision.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 80ed788..387d27d 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -839,7 +839,7 @@ class ProductionRules:
         encoding = 0
         for st in stim:
             if st['position'][0] > cf[0]-foveal_distance and st['position'][0] < cf[0]+foveal_distance and st['position'][1] > cf[1]-foveal_distance and st['position'][1] < cf[1]+foveal_distance:
-                if (not visualbuffer) or list(visualbuffer)[0].value.values != st['text']: #automatic buffer only of there is sth to buffer
+                if (not visualbuffer) or list(visualbuffer)[0].value.values != st.get('text', ''): #automatic buffer only of there is sth to buffer
                     newchunk, encoding = visualbuffer.automatic_buffering(st, self.model_parameters)
         time += encoding
         if newchunk:
diff --git a/pyactr/vision.py b/pyactr/vision.py
index 4022f72..08474e4 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -123,7 +123,7 @@ class VisualLocation(buffers.Buffer):
                 pass
 
             #check value in text; in principle, you can search based on any value, so this is more powerful than actual visual search
-            if chunk_used_for_search.value != chunk_used_for_search.EmptyValue() and chunk_used_for_search.value.values != self.environment.stimulus[each]["text"]:
+            if chunk_used_for_search.value != chunk_used_for_search.EmptyValue() and chunk_used_for_search.value.values != self.environment.stimulus[each].get("text", ""):
                 continue
 
             position = (int(self.environment.stimulus[each]['position'][0]), int(self.environment.stimulus[each]['position'][1]))
-- 
2.43.0


From 1079f26881aa8f68ee4f1e2c0c57cf1135fe4ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 33/78] fix: relative positions compared with variables;
 unbound negated variables raise ACTRError

---
 pyactr/utilities.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 5b99ca5..7ddedff 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -267,6 +267,7 @@ def check_bound_vars(actrvariables, elem, negative_impossible=True):
     neg_result = set()
     varval = splitting(elem)
     for x in varval._fields:
+        temp_result = None
         if x == "variables" and getattr(varval, x):
             var = getattr(varval, x)
             var = "".join([ACTRVARIABLE, var])
@@ -292,21 +293,16 @@ def check_bound_vars(actrvariables, elem, negative_impossible=True):
                     try:
                         neg_result.add(actrvariables[neg_var])
                     except KeyError:
-                        raise ACTRError(f"Object '{var[1:]}' in the value '{elem}' is a variable that is not bound; this is illegal in ACT-R") #is this correct? maybe in some special cases binding only in RHS should be allowed? If so this should be adjusted in productions.py
-        if result and temp_result in {VISIONGREATER, VISIONSMALLER} or result in {VISIONGREATER, VISIONSMALLER}:
-            result = "".join(sorted([temp_result, result], reverse=True))
-        elif result and temp_result != result:
+                        raise ACTRError(f"Object '{neg}' in the value '{elem}' is a variable that is not bound; this is illegal in ACT-R") #is this correct? maybe in some special cases binding only in RHS should be allowed? If so this should be adjusted in productions.py
+        if temp_result is None: #no value or variable in this part
+            continue
+        if result in (VISIONGREATER, VISIONSMALLER): #the sign precedes the value it is compared with
+            result = "".join([result, str(temp_result)])
+        elif result is not None and temp_result != result:
             raise ACTRError(f"It looks like in '{elem}', one slot would have to carry two values at the same time; this is illegal in ACT-R")
         else:
-            try:
-                result = temp_result
-            except UnboundLocalError: #temp_result wasn't used
-                pass
-    try:
-        if temp_result:
-            returned_tuple = VarvalClass(variables=None, values=result, negvariables=(), negvalues=tuple(neg_result))
-    except UnboundLocalError: #temp_result was never used, which means that no values were defined
-        returned_tuple = VarvalClass(variables=None, values=None, negvariables=(), negvalues=tuple(neg_result))
+            result = temp_result
+    returned_tuple = VarvalClass(variables=None, values=result, negvariables=(), negvalues=tuple(neg_result))
     return returned_tuple
 
 def match(dict2, slotvals, name1, name2):
-- 
2.43.0


From 998cd308917bd031390554e42f8d5d3e990fe913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 34/78] fix: negated texts and positions in visual searches

---
 pyactr/vision.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 08474e4..913eac2 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -123,7 +123,8 @@ class VisualLocation(buffers.Buffer):
                 pass
 
             #check value in text; in principle, you can search based on any value, so this is more powerful than actual visual search
-            if chunk_used_for_search.value != chunk_used_for_search.EmptyValue() and chunk_used_for_search.value.values != self.environment.stimulus[each].get("text", ""):
+            text = self.environment.stimulus[each].get("text", "")
+            if chunk_used_for_search.value != chunk_used_for_search.EmptyValue() and ((chunk_used_for_search.value.values and chunk_used_for_search.value.values != text) or text in chunk_used_for_search.value.negvalues):
                 continue
 
             position = (int(self.environment.stimulus[each]['position'][0]), int(self.environment.stimulus[each]['position'][1]))
@@ -140,6 +141,18 @@ class VisualLocation(buffers.Buffer):
             except (TypeError, ValueError, AttributeError):
                 pass
 
+            #check negated positions
+            try:
+                if str(position[0]) in {str(x) for x in chunk_used_for_search.screen_x.negvalues}:
+                    continue
+            except AttributeError:
+                pass
+            try:
+                if str(position[1]) in {str(x) for x in chunk_used_for_search.screen_y.negvalues}:
+                    continue
+            except AttributeError:
+                pass
+
             #check on x and y relative positions
             try: 
                 if chunk_used_for_search.screen_x.values[0] == utilities.VISIONSMALLER and int(chunk_used_for_search.screen_x.values[1:]) <= position[0]:
-- 
2.43.0


From c63a62b8db035671324792c0d7611fc5aae45d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:29 +0000
Subject: [PATCH 35/78] fix: only the stimulus that was found counts as
 attended

---
 pyactr/vision.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 913eac2..c4e802f 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -207,10 +207,11 @@ class VisualLocation(buffers.Buffer):
             except (TypeError, AttributeError):
                 pass
 
-            found_stim = self.environment.stimulus[each]
-            visible_chunk = chunk_from_stimulus(found_stim, "visual_location", position=False)
+            stim = self.environment.stimulus[each]
+            visible_chunk = chunk_from_stimulus(stim, "visual_location", position=False)
 
             if visible_chunk <= chunk_used_for_search:
+                found_stim = stim
                 found = chunk_from_stimulus(found_stim, "visual_location", position=True)
                 current_x = position[0]
                 current_y = position[1]
-- 
2.43.0


From 5d282df4664990d8b574da0472830fd7392cacc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:40 +0000
Subject: [PATCH 36/78] fix: extending a built-in chunk type raises ACTRError

---
 pyactr/chunks.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index d1168fc..b3ab39f 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -147,8 +147,7 @@ class Chunk(Sequence):
             chunktype(typename, dictionary.keys())  #If chunktype completely missing, it is created first
             warnings.warn(f"Chunk type {typename} was not defined; added automatically")
 
-        finally:
-            self.actrchunk = self._chunktypes[typename](**kwargs)
+        self.actrchunk = self._chunktypes[typename](**kwargs)
 
         self.__empty = None #this will store what the chunk looks like without empty values (the values will be stored on the first call of the relevant function)
         self.__unused = None #this will store what the chunk looks like without unused values
-- 
2.43.0


From 0d36c2578b77df97456001b96672d6f7dd80ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:59 +0000
Subject: [PATCH 37/78] fix: visual searches can use the extra features of
 extended location types

---
 pyactr/vision.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index c4e802f..673310c 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -99,7 +99,7 @@ class VisualLocation(buffers.Buffer):
             mod_attr_val = {x[0]: utilities.check_bound_vars(actrvariables, x[1], negative_impossible=False) for x in otherchunk.removeunused()}
         except utilities.ACTRError as arg:
             raise utilities.ACTRError(f"The chunk '{otherchunk}' is not defined correctly; {arg}")
-        chunk_used_for_search = chunks.Chunk(utilities.VISUALLOCATION, **mod_attr_val)
+        chunk_used_for_search = chunks.Chunk(otherchunk.typename, **mod_attr_val) #the type of the request is kept, since it can have extra features
             
         found = None
         found_stim = None
@@ -124,8 +124,11 @@ class VisualLocation(buffers.Buffer):
 
             #check value in text; in principle, you can search based on any value, so this is more powerful than actual visual search
             text = self.environment.stimulus[each].get("text", "")
-            if chunk_used_for_search.value != chunk_used_for_search.EmptyValue() and ((chunk_used_for_search.value.values and chunk_used_for_search.value.values != text) or text in chunk_used_for_search.value.negvalues):
-                continue
+            try:
+                if (chunk_used_for_search.value.values and chunk_used_for_search.value.values != text) or text in chunk_used_for_search.value.negvalues:
+                    continue
+            except AttributeError:
+                pass
 
             position = (int(self.environment.stimulus[each]['position'][0]), int(self.environment.stimulus[each]['position'][1]))
 
-- 
2.43.0


From 2f0c887ac315fbe2f8351b38e7f84001d631476c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:45 +0000
Subject: [PATCH 38/78] fix: a search for the closest stimulus can be stated in
 screen_y alone

---
 pyactr/vision.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 673310c..efd54c1 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -191,8 +191,15 @@ class VisualLocation(buffers.Buffer):
                 pass
 
             #check on closest
+            current_distance = utilities.calculate_pythagorean_distance(self.environment.current_focus, position)
             try: 
-                if (chunk_used_for_search.screen_x.values == utilities.VISIONCLOSEST or chunk_used_for_search.screen_y.values == utilities.VISIONCLOSEST) and utilities.calculate_pythagorean_distance(self.environment.current_focus, position) > closest:
+                if chunk_used_for_search.screen_x.values == utilities.VISIONCLOSEST and current_distance > closest:
+                    continue
+            except (TypeError, AttributeError):
+                pass
+
+            try: 
+                if chunk_used_for_search.screen_y.values == utilities.VISIONCLOSEST and current_distance > closest:
                     continue
             except (TypeError, AttributeError):
                 pass
-- 
2.43.0


From 1c40c6fc54647b7f370fb0d4ba6280acf71dbab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:54 +0000
Subject: [PATCH 39/78] fix: chunks found automatically replace the former
 chunk; rules can modify the visual_location chunk

---
 pyactr/productions.py |  4 ++--
 pyactr/vision.py      | 16 ++++++++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 387d27d..303bd7a 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -820,7 +820,7 @@ class ProductionRules:
             newchunk, stim = visualbuffer.automatic_search(stim)
         if newchunk:
             if visualbuffer:
-                visualbuffer.modify(newchunk, stim)
+                visualbuffer.replace(newchunk, stim)
             else:
                 visualbuffer.add(newchunk, stim, time)
             visualbuffer.state = visualbuffer._FREE
@@ -850,7 +850,7 @@ class ProductionRules:
             visualbuffer.state = visualbuffer._FREE
             visualbuffer.autoattending = visualbuffer._FREE
             if visualbuffer:
-                visualbuffer.modify(newchunk)
+                visualbuffer.replace(newchunk)
             else:
                 visualbuffer.add(newchunk, time)
             yield Event(roundtime(time), name, f"AUTOMATIC BUFFERING: {str(newchunk)}")
diff --git a/pyactr/vision.py b/pyactr/vision.py
index efd54c1..1061269 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -63,12 +63,18 @@ class VisualLocation(buffers.Buffer):
             if self.finst < len(self.recent):
                 self.recent.popleft()
 
-    def modify(self, otherchunk, found_stim, actrvariables=None):
+    def modify(self, otherchunk, actrvariables=None):
         """
-        Modify the chunk in VisualLocation buffer according to otherchunk. found_stim keeps information about the actual stimulus and it is used to update the queue of the recently visited chunks.
+        Modify the chunk in VisualLocation buffer according to otherchunk.
         """
 
         super().modify(otherchunk, actrvariables)
+
+    def replace(self, elem, found_stim):
+        """
+        Replace the chunk in VisualLocation buffer by another one. The former chunk is not harvested. found_stim keeps information about the actual stimulus and it is used to update the queue of the recently visited chunks.
+        """
+        super().add(elem)
         
         if self.finst and found_stim:
             self.recent.append(found_stim)
@@ -334,6 +340,12 @@ class Visual(buffers.Buffer):
         """
         super().modify(otherchunk, actrvariables)
 
+    def replace(self, elem):
+        """
+        Replace the chunk in visual buffer by another one. The former chunk is not harvested.
+        """
+        super().add(elem)
+
     def stop_automatic_buffering(self):
         """
         Stop automatic buffering of the visual buffer.
-- 
2.43.0


From b3e93a9054e025ff5f87f6b6e9772c550130a154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:12 +0000
Subject: [PATCH 40/78] fix: encoding is given up when attention shifts
 elsewhere during the eye movement

---
 pyactr/productions.py | 12 +++++++++---
 pyactr/vision.py      |  1 +
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 303bd7a..3593af0 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -733,6 +733,9 @@ class ProductionRules:
         """
         visualbuffer.state = visualbuffer._BUSY
         time += extra_time
+        yield Event(roundtime(time), name, self._UNKNOWN)
+        if visualbuffer.last_shift is not chunk: #attention shifted elsewhere in the meantime
+            return
         visualbuffer.current_focus = site #use it if visual focus is fully attention-based (internal) and not based on eye position; site is the position of attention
         yield from self.clear(name, visualbuffer, None, temp_actrvariables, time, freeing=False)
         visualbuffer.add(chunk, time)
@@ -868,6 +871,7 @@ class ProductionRules:
         visualbuffer.preparation = visualbuffer._BUSY
         visualbuffer.processor = visualbuffer._BUSY
         visualbuffer.state = visualbuffer._BUSY
+        visualbuffer.last_shift = newchunk
         
         yield Event(roundtime(time), name, 'PREPARATION TO SHIFT VISUAL ATTENTION STARTED')
 
@@ -909,9 +913,11 @@ class ProductionRules:
             except ACTRError:
                 pass #the object disappeared from the screen during the eye movement; its encoding continues with the original encoding time
             yield from self.visualencode(name, visualbuffer, otherchunk, temp_actrvariables, time, (1-((preparation+execution)/encoding))*extra_time[0], landing_site)
-        visualbuffer.processor = visualbuffer._FREE
-        visualbuffer.execution = visualbuffer._FREE
-        visualbuffer.state = visualbuffer._FREE
+        if visualbuffer.last_mvt <= time: #no other movement started in the meantime
+            visualbuffer.execution = visualbuffer._FREE
+        if visualbuffer._BUSY not in {visualbuffer.preparation, visualbuffer.execution, visualbuffer.autoattending}:
+            visualbuffer.processor = visualbuffer._FREE
+            visualbuffer.state = visualbuffer._FREE
         visualbuffer.attend_automatic = True
         #the following lines - if we think that automatic buffering should be repeated after being done with shift
         #if visualbuffer.attend_automatic:
diff --git a/pyactr/vision.py b/pyactr/vision.py
index 1061269..ddd6e56 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -283,6 +283,7 @@ class Visual(buffers.Buffer):
         self.autoattending = self._FREE
         self.attend_automatic = True #the current focus automatically attends
         self.last_mvt = 0
+        self.last_shift = None #the object to which attention was shifted most recently
 
         #parameters
         self.model_parameters = {}
-- 
2.43.0


From 36188c9be832b8578e29c6af26af85e615e71e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:05 +0000
Subject: [PATCH 41/78] fix: an eye movement that was prepared is executed even
 if attention shifts elsewhere

---
 pyactr/productions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 3593af0..78e063d 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -882,9 +882,6 @@ class ProductionRules:
         
         yield Event(roundtime(time), name, 'PREPARATION TO SHIFT VISUAL ATTENTION COMPLETED')
         
-        if encoding > preparation and encoding <= preparation+execution:
-            yield from self.visualencode(name, visualbuffer, newchunk, temp_actrvariables, time-preparation, encoding, site)
-
         yield self.visualcontinue(name, visualbuffer, newchunk, temp_actrvariables, time, extra_time, site)
 
     def visualcontinue(self, name, visualbuffer, otherchunk, temp_actrvariables, time, extra_time, landing_site):
@@ -893,6 +890,7 @@ class ProductionRules:
         """
         visualbuffer.preparation = visualbuffer._FREE
         visualbuffer.execution = visualbuffer._BUSY
+        prepared = time
         if visualbuffer.last_mvt > time:
             time = visualbuffer.last_mvt # if another move is executed, wait for that to finish before starting mvt execution
 
@@ -904,6 +902,9 @@ class ProductionRules:
 
         time += execution
 
+        if encoding > preparation and encoding <= preparation+execution:
+            yield from self.visualencode(name, visualbuffer, otherchunk, temp_actrvariables, prepared-preparation, encoding, landing_site)
+
         yield Event(roundtime(time), name, self._UNKNOWN)
         visualbuffer.move_eye(landing_site)
         yield Event(roundtime(time), name, f"SHIFT COMPLETE TO POSITION: {str(visualbuffer.current_focus)}")
-- 
2.43.0


From 0bd8f684f01a2a5771f580f3989ade5d016fa91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:15 +0000
Subject: [PATCH 42/78] fix: automatic processes do not wait behind a request
 made at the same moment

---
 pyactr/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 8b21c16..8cc88c3 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -115,6 +115,8 @@ class Simulation:
                 break
             #this part below ensures automatic buffering which proceeds independently of PROCEDURAL
             for name in self.__buffers:
+                if any(x[0] == name and x[1].__name__ in self.__pr._INTERRUPTIBLE for x in self.__procs_started if not isinstance(x, str)):
+                    continue #a request started by a rule at this very moment has precedence over automatic processes
                 if isinstance(self.__buffers[name], vision.VisualLocation) and self.__buffers[name].environment == self.__env:
                     proc = (name, self.__pr.automatic_search(name, self.__buffers[name], list(self.__env.stimulus.values()), self.__simulation.now))
                     self.__procs_started.append(proc)
-- 
2.43.0


From adfbc78379f0074af206a0ba6117da7142b4d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 43/78] fix: in production compilation, variables of the second
 rule never clash with those of the first

---
 pyactr/productions.py | 26 ++++++++++++--------------
 pyactr/utilities.py   | 22 +++++++++-------------
 2 files changed, 21 insertions(+), 27 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 78e063d..32cc17c 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -383,24 +383,22 @@ class Productions(collections.UserDict):
         if stop:
             return False, False
 
-        #we have to get rid of =, ~= sign
+        #variables of the first rule, which should not be clashed
         modified_actrvariables = set()
+        for pro in self[rule_name1]['rule']():
+            for key in pro:
+                if isinstance(pro[key], chunks.Chunk):
+                    for elem in pro[key]:
+                        varval = utilities.splitting(elem[1])
+                        modified_actrvariables.update({varval.variables}, varval.negvariables)
 
-        #get out variables that should not be clashed
         retrieval = None
         for buff in slotvals:
-            if slotvals[buff]:
-                if isinstance(slotvals[buff], collections.abc.MutableSequence):
-                    retrieval = buff #store which buffer carries retrieval info that can be discarded later
-                    #if the retrieval is not gone at the end of rule_name2 -- do not compile!!! -- this catches one case in which rules should not be combined because they might yield unsafe results
-                    if buffers[buff]:
-                        return False, False
-                else:
-                    for slot in slotvals[buff]:
-                        if slotvals[buff][slot] != None:
-                            var = slotvals[buff][slot].variables
-                            if var != None:
-                                modified_actrvariables.add(var)
+            if slotvals[buff] and isinstance(slotvals[buff], collections.abc.MutableSequence):
+                retrieval = buff #store which buffer carries retrieval info that can be discarded later
+                #if the retrieval is not gone at the end of rule_name2 -- do not compile!!! -- this catches one case in which rules should not be combined because they might yield unsafe results
+                if buffers[buff]:
+                    return False, False
 
         new_2rule = self.__rename__(rule_name2, modified_actrvariables) #rename all variables in rule_name2 to avoid var clashes
 
diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 7ddedff..8955548 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -173,23 +173,19 @@ def getchunk():
 
 def make_chunkparts_without_varconflicts(chunkpart, rule_name, variables):
     """
-    Make a chunk avoiding any variable names used in actrvariables. The function uses rule_name for naming, if possible.
+    Make a chunk avoiding any variable names used in variables. The function uses rule_name for naming, if possible.
     """
+    def rename(var):
+        new_name = "".join([str(var), "__rule__", rule_name])
+        while new_name in variables:
+            new_name = "".join([new_name, "_"])
+        return new_name
+
     varval = splitting(chunkpart)
     temp_var = None
     if varval.variables:
-        new_name = "".join([str(varval.variables), "__rule__", rule_name])
-        if "".join(["=", new_name]) in variables:
-            raise ACTRError(f"A name clash appeared when trying to compile two rules. Try to rename variables in the rule '{rule_name}'")
-        else:
-            temp_var = new_name
-    temp_negvar = set()
-    for x in varval.negvariables:
-        new_name = "".join([str(x), "__rule__", rule_name])
-        if "".join(["=", "new_name"]) in variables:
-            raise ACTRError(f"A name clash appeared when trying to compile two rules. Try to rename variables in the rule '{rule_name}'")
-        else:
-            temp_negvar.add(new_name)
+        temp_var = rename(varval.variables)
+    temp_negvar = {rename(x) for x in varval.negvariables}
     new_varval = VarvalClass(variables=temp_var, values=varval.values, negvariables=tuple(temp_negvar), negvalues=varval.negvalues)
 
     return new_varval
-- 
2.43.0


From 9d1e953a26662c481db7d548e2791f60b14cff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 44/78] fix: production compilation ties all variables that
 have to have the same value

---
 pyactr/productions.py |  14 ++++-
 pyactr/utilities.py   | 121 +++++++++++++++++-------------------------
 2 files changed, 62 insertions(+), 73 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 32cc17c..7a6549e 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -410,7 +410,19 @@ class Productions(collections.UserDict):
             slotvals[retrieval] = None #the second rule does not use what was retrieved, so the retrieval request is kept
             retrieval = None
 
-        matched, valued = utilities.match(pro2, slotvals, rule_name1, rule_name2)
+        pro1 = self[rule_name1]['rule']()
+        tested, updated = next(pro1).copy(), next(pro1)
+
+        known = slotvals.copy() #what is known about the buffers after the first rule
+        for key in tested:
+            buff = key[1:]
+            if key[0] == utilities._LHSCONVENTIONS_REVERSED["test"] and not known.get(buff) and buff not in {x[1:] for x in updated}:
+                known[buff] = tested[key]._asdict()
+
+        matched, valued = utilities.match(pro2, known, rule_name1, rule_name2)
+
+        if retrieval:
+            slotvals.pop(retrieval) #info about retrieved element has been fully used, it can be discarded now
 
         new_1rule = self.__substitute__(self[rule_name1], matched, valued)
         
diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 8955548..b7c0010 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -304,90 +304,67 @@ def check_bound_vars(actrvariables, elem, negative_impossible=True):
 def match(dict2, slotvals, name1, name2):
     """
     Match variables that happen to be tied to the same slots. This function is used in production compilation. dict2 is the LHS of the second rule, slotvals is the dictionary based on the output of the first rule.
+
+    Returns two dicts: the first one stores which variables will be substituted by which variable, the second one stores which variables will be substituted by a value.
     """
-    def temp_func(temp_set, temp_val):
+    tied = [] #list of pairs: a set of variables that are tied to each other, and the value they have (None if it is not known)
+
+    def tie(temp_set, temp_val):
         """
-        temp_func gets a set of variables and a value (possibly, None), and it returns two dicts.
-        matched stores which variables will be substituted by which variable, valued stores which variables will be substituted by a value (if temp_val not empty).
+        Tie variables in temp_set to each other and to temp_val.
         """
-        if temp_val:
-            valued.update({x: temp_val for x in temp_set})
-        else:
-            try:
-                temp_var = sorted(temp_set, key=lambda x:len(x))[0]
-            except IndexError:
-                pass
-            else:
-                matched.update({x: temp_var for x in temp_set})
-        return matched, valued
+        for other in [x for x in tied if x[0].intersection(temp_set)]:
+            tied.remove(other)
+            temp_set = temp_set.union(other[0])
+            if temp_val is not None and other[1] is not None and temp_val != other[1]:
+                raise ACTRError(f"The values in rules '{name1}' and '{name2}' do not match, production compilation failed")
+            if temp_val is None:
+                temp_val = other[1]
+        tied.append((temp_set, temp_val))
 
-    matched = {}
-    valued = {}
-    temp_slotvals = slotvals.copy()
     for key in dict2:
 
         code = key[0]
         buff = key[1:]
 
-        chunkdict2 = {}
-                    
-        renaming_set = set(_LHSCONVENTIONS.keys())
-        renaming_set.update(_RHSCONVENTIONS.keys())
-        renaming_set.difference_update({_RHSCONVENTIONS_REVERSED["execute"], _RHSCONVENTIONS_REVERSED["clear"], _RHSCONVENTIONS_REVERSED["extra_test"], _LHSCONVENTIONS_REVERSED["query"]}) #only renaming_set is kept; execute etc. cannot carry a variable, so no variable matching is needed
-
-        if code in renaming_set:
-            chunkdict2 = dict2.get(key)._asdict()
-            try:
-                chunkdict3 = temp_slotvals.pop(buff)
-            except KeyError:
-                chunkdict3 = chunkdict2
+        if _LHSCONVENTIONS[code] != "test": #queries cannot carry a variable, so no variable matching is needed
+            continue
 
-            if isinstance(chunkdict3, collections.abc.MutableSequence): #this is retrieval, it consists of mutable sequence -- 0=chunk description in the 1st rule; 1=retrieved chunk
-                for elem in chunkdict2:
-                    chunkpart2 = splitting(chunkdict2[elem])
-                    try:
-                        chunkpart3 = splitting(chunkdict3[0][elem])
-                    except KeyError:
-                        chunkpart3 = splitting(EMPTYVALUE)
-                    try:
-                        temp_val = getattr(chunkdict3[1], elem).values
-                    except AttributeError:
-                        temp_val = None
-                    temp_set = set()
-                    if chunkpart2.variables:
-                        temp_set.update(set([chunkpart2.variables]))
-                    if chunkpart3.variables:
-                        temp_set.update(set([chunkpart3.variables]))
-                    matched, valued = temp_func(temp_set, temp_val)
-                slotvals.pop(buff) #info about retrieved element has been fully used, it can be discarded now
-            else: #anything else but retrieval is here
-                for elem in chunkdict2:
-                    chunkpart2 = splitting(chunkdict2[elem])
-                    try:
-                        chunkpart3 = splitting(chunkdict3[elem])
-                    except (KeyError, TypeError):
-                        chunkpart3 = splitting(EMPTYVALUE)
-
-                    temp_set = set()
-                    if chunkpart2.variables:
-                        temp_set.update(set([chunkpart2.variables]))
-                    if chunkpart3.variables:
-                        temp_set.update(set([chunkpart3.variables]))
-                    temp_val, val2, val3 = None, None, None
-                    if chunkpart2.values:
-                        val2 = chunkpart2.values
-                    if chunkpart3.values:
-                        val3 = chunkpart3.values
-
-                    if val2 and val3 and val2 != val3:
-                        raise ACTRError(f"The values in rules '{name1}' and '{name2}' do not match, production compilation failed")
-            
-                    temp_val = val2 or val3
-
-                    matched, valued = temp_func(temp_set, temp_val)
+        chunkdict2 = dict2[key]._asdict()
+        chunkdict3 = slotvals.get(buff)
+
+        if isinstance(chunkdict3, collections.abc.MutableSequence): #this is retrieval, it consists of mutable sequence -- 0=chunk description in the 1st rule; 1=retrieved chunk
+            for elem in chunkdict2:
+                chunkpart2 = splitting(chunkdict2[elem])
+                chunkpart3 = splitting(chunkdict3[0].get(elem, EMPTYVALUE))
+                temp_val = splitting(getattr(chunkdict3[1], elem, EMPTYVALUE)).values
+                if temp_val is None:
+                    temp_val = str(EMPTYVALUE) #nothing is in the slot of the retrieved chunk
+                temp_set = {chunkpart2.variables, chunkpart3.variables}.difference({None})
+                if temp_set:
+                    tie(temp_set, temp_val)
+        else: #anything else but retrieval is here
+            for elem in chunkdict2:
+                chunkpart2 = splitting(chunkdict2[elem])
+                chunkpart3 = splitting(chunkdict3.get(elem, EMPTYVALUE) if chunkdict3 else EMPTYVALUE)
+                val2, val3 = chunkpart2.values, chunkpart3.values
+
+                if val2 is not None and val3 is not None and val2 != val3:
+                    raise ACTRError(f"The values in rules '{name1}' and '{name2}' do not match, production compilation failed")
+
+                temp_set = {chunkpart2.variables, chunkpart3.variables}.difference({None})
+                if temp_set:
+                    tie(temp_set, val3 if val2 is None else val2)
+
+    matched, valued = {}, {}
+    for temp_set, temp_val in tied:
+        if temp_val is None:
+            temp_var = min(temp_set, key=lambda x: (len(x), x))
+            matched.update({x: temp_var for x in temp_set})
+        else:
+            valued.update({x: temp_val for x in temp_set})
 
     return matched, valued
-            
 
 
 def modify_utilities(time, reward, rulenames, rules, model_parameters):
-- 
2.43.0


From 78a73641524cd8c27e93b9497d2a08bca3e1deea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 45/78] fix: rules compiled in production compilation test, set
 and request what their two parents did

---
 pyactr/productions.py | 239 +++++++++++++++++-------------------------
 pyactr/utilities.py   |  10 ++
 2 files changed, 105 insertions(+), 144 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 7a6549e..7a50790 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -122,153 +122,90 @@ class Productions(collections.UserDict):
         """
         Collapses 2 rules into 1.
         """
+        conventions = utilities._RHSCONVENTIONS
+        kept = {utilities._RHSCONVENTIONS_REVERSED[x] for x in ("execute", "clear", "extra_test")} #signs of actions that carry no chunk
+        not_actions = {utilities._RHSCONVENTIONS_REVERSED[x] for x in ("execute", "extra_test")} #signs of actions that do not change the chunk in the buffer or request anything
+        new_chunk = {utilities._RHSCONVENTIONS_REVERSED[x] for x in ("retrieveorset", "overwrite")} #signs of actions after which there is another chunk in the buffer
+
         def func():
             production1 = rule1['rule']()
             production2 = rule2['rule']()
 
             pro1 = next(production1).copy()
             pro2 = next(production2).copy()
+            updated1 = next(production1).copy()
+            updated2 = next(production2).copy()
+
+            action1 = {key[1:]: key for key in updated1 if key[0] not in not_actions}
+            action2 = {key[1:]: key for key in updated2 if key[0] not in not_actions}
+
+            def updated_slots(buff):
+                """
+                Slots which the first rule specified in buff, with their values.
+                """
+                if not slotvals.get(buff) or buff not in action1 or action1[buff][0] in kept:
+                    return {}
+                chunkdict = updated1[action1[buff]]._asdict()
+                if action1[buff][0] in new_chunk:
+                    return {slot: slotvals[buff][slot] for slot in chunkdict}
+                return {slot: chunkdict[slot] for slot in chunkdict if any(utilities.splitting(chunkdict[slot]))}
 
-            for key in pro1:
+            for key in pro2:
 
                 code = key[0]
                 buff = key[1:]
 
-                #querying just kept
                 if utilities._LHSCONVENTIONS[code] == "query":
+                    if buff not in action1 or conventions[action1[buff][0]] == "modify":
+                        pro1[key] = {**pro1.get(key, {}), **pro2[key]}
                     continue
 
-                #here below -- testing
-                if key not in pro2:
-                    continue
-
-                pro2buff = pro2.pop(key)._asdict()
-                
-                pro1buff = pro1[key]._asdict()
-                
-                mod_attr_val = {}
-
-                if buff in slotvals:
-                    for slot in pro2buff:
-                        try:
-                            slotvals_slot = slotvals[buff][slot].removeunused()
-                        except (KeyError, AttributeError, TypeError):
-                            slotvals_slot = None
-                        if not slotvals_slot:
-                            varval = utilities.merge_chunkparts(pro1buff[slot], pro2buff[slot])
-                            mod_attr_val[slot] = varval
-                        else:
-                            mod_attr_val[slot] = pro1buff[slot]
-                elif buff == retrieval:
+                if buff == retrieval:
                     continue #test on retrieved elem from rule1 in rule2 is removed because no retrieval
-                else:
-                    for slot in pro2buff:
-                        varval = utilities.merge_chunkparts(pro1buff[slot], pro2buff[slot])
-                        mod_attr_val[slot] = varval
 
-                new_chunk = chunks.Chunk(pro1[key].typename, **mod_attr_val)
-                pro1[key] = new_chunk
+                updated = updated_slots(buff)
+                if updated and action1[buff][0] in new_chunk:
+                    continue #the test is on the chunk created by rule1
 
-            #test on pro2 here below -- buffers might be in pro2 that are missing in pro1
-            for key in pro2:
-                
-                code = key[0]
-                buff = key[1:]
-
-                if utilities._LHSCONVENTIONS[code] == "query":
-                    temp_production1 = rule1['rule']()
-                    _, temp_testing = next(temp_production1), next(temp_production1)
-                    for temp_key in temp_testing:
-                        if utilities._RHSCONVENTIONS[temp_key[0]] != "modify" and utilities._RHSCONVENTIONS[temp_key[0]] != "extra_test" and temp_key[1:] == buff:
-                            break
-                    else:
-                        pro1.setdefault(key, {}).update(pro2[key])
-                    continue
-
-                pro2buff = pro2[key]._asdict()
-                
-                mod_attr_val = {}
-                
-                if buff in slotvals:
-                    for slot in pro2buff:
-                        try:
-                            slotvals_slot = slotvals[buff][slot].removeunused()
-                        except (KeyError, AttributeError, TypeError):
-                            slotvals_slot = None
-                        if not slotvals_slot:
-                            mod_attr_val[slot] = pro2buff[slot]
-                elif buff == retrieval:
-                    continue #test on retrieved elem from rule1 in rule2 is removed because no retrieval
-                else:
-                    mod_attr_val = pro2buff.copy()
-
-                new_chunk = chunks.Chunk(pro2[key].typename, **mod_attr_val)
-                pro1[key] = new_chunk
+                #what rule1 tests and what rule2 tests, except for slots which were updated by rule1
+                pro1buff = pro1[key]._asdict() if key in pro1 else {}
+                pro2buff = {slot: value for slot, value in pro2[key]._asdict().items() if slot not in updated}
+                mod_attr_val = {slot: utilities.join_chunkparts(pro1buff.get(slot, utilities.EMPTYVALUE), pro2buff.get(slot, utilities.EMPTYVALUE)) for slot in {**pro1buff, **pro2buff}}
+                pro1[key] = chunks.Chunk((pro1[key] if key in pro1 else pro2[key]).typename, **mod_attr_val)
 
             yield pro1
 
-            pro1 = next(production1).copy()
-            pro2 = next(production2).copy()
-            
+            pro = {}
+
             #anything in pro2 should go into action
-            for key in pro2:
+            for key in updated2:
 
-                code = key[0]
                 buff = key[1:]
+                updated = updated_slots(buff)
 
-                if utilities._RHSCONVENTIONS[code] in {"execute", "clear", "extra_test"}:
+                if key[0] in kept or key[0] in new_chunk or not updated:
+                    pro[key] = updated2[key]
                     continue
-                
-                if buff not in slotvals:
-                    continue
-
-                pro1buff = slotvals[buff]
-                
-                pro2buff = pro2[key]._asdict()
 
-                mod_attr_val = {}
-                
-                for slot in pro2buff:
-                    if pro1buff and slot in pro1buff:
-                        varval = utilities.merge_chunkparts(pro2buff[slot], pro1buff[slot])
-                        mod_attr_val[slot] = varval
-                    else:
-                        mod_attr_val[slot] = pro2buff[slot]
-
-                new_chunk = chunks.Chunk(pro2[key].typename, **mod_attr_val)
-                pro2[key] = new_chunk
+                #rule2 modifies the chunk in the buffer after rule1 updated it
+                pro2buff = updated2[key]._asdict()
+                mod_attr_val = {slot: utilities.merge_chunkparts(pro2buff.get(slot, utilities.EMPTYVALUE), updated.get(slot, utilities.EMPTYVALUE)) for slot in {**pro2buff, **updated}}
+                if action1[buff][0] in new_chunk and utilities._LHSCONVENTIONS_REVERSED["test"] + buff not in pro1: #there might be no chunk to modify
+                    pro[action1[buff]] = chunks.Chunk(updated1[action1[buff]].typename, **mod_attr_val)
+                else:
+                    pro[key] = chunks.Chunk(updated2[key].typename, **mod_attr_val)
 
             #actions in pro1 here below -- buffers might be in pro1 that are missing in pro2
-            for key in pro1:
-                
-                code = key[0]
-                buff = key[1:]
-                
-                for temp_key in pro2:
-                    if temp_key[1:] == buff:
-                        key = None
-                        break
+            for key in updated1:
 
-                if not key:
-                    continue
+                buff = key[1:]
 
-                if buff == retrieval:
-                    continue
-                
-                if utilities._RHSCONVENTIONS[code] in {"execute", "clear", "extra_test"}:
-                    pro2[key] = pro1[key]
+                if key[0] not in not_actions and (buff in action2 or buff == retrieval):
                     continue
 
-                pro1buff = pro1[key]._asdict()
-                
-                mod_attr_val = {}
-                for slot in pro1buff:
-                    mod_attr_val[slot] = pro1buff[slot]
-
-                new_chunk = chunks.Chunk(pro1[key].typename, **mod_attr_val)
-                pro2[key] = new_chunk
+                pro.setdefault(key, updated1[key])
 
-            yield pro2
+            yield pro
 
         return Production(rule=func, utility=self.__DFT_UTILITY, reward=self.__DFT_REWARD)
 
@@ -406,17 +343,32 @@ class Productions(collections.UserDict):
         
         pro2 = next(production2)
 
+        done = {buff for buff in slotvals if slotvals[buff]} #buffers in which the actions of the first rule were done before the second rule fired
+
         if retrieval and utilities._LHSCONVENTIONS_REVERSED["test"] + retrieval not in pro2:
             slotvals[retrieval] = None #the second rule does not use what was retrieved, so the retrieval request is kept
             retrieval = None
 
         pro1 = self[rule_name1]['rule']()
         tested, updated = next(pro1).copy(), next(pro1)
+        updated = {key[1:]: key[0] for key in updated if utilities._RHSCONVENTIONS[key[0]] != "extra_test"}
+        updated2 = {key[1:]: key[0] for key in next(production2)}
+
+        for buff in updated:
+            if utilities._RHSCONVENTIONS[updated[buff]] in {"clear", "execute"}:
+                continue
+            if buff in done:
+                #if the second rule harvests what the first rule put in the buffer -- do not compile
+                if model_parameters["strict_harvesting"] and buff != retrieval and utilities._LHSCONVENTIONS_REVERSED["test"] + buff in pro2 and buff not in updated2:
+                    return False, False
+            #if the second rule acts on the buffer while the request of the first rule is in progress -- do not compile
+            elif utilities._RHSCONVENTIONS.get(updated2.get(buff)) in {"clear", "modify", "modify_request", "overwrite"}:
+                return False, False
 
         known = slotvals.copy() #what is known about the buffers after the first rule
         for key in tested:
             buff = key[1:]
-            if key[0] == utilities._LHSCONVENTIONS_REVERSED["test"] and not known.get(buff) and buff not in {x[1:] for x in updated}:
+            if key[0] == utilities._LHSCONVENTIONS_REVERSED["test"] and not known.get(buff) and (buff not in updated or utilities._RHSCONVENTIONS[updated[buff]] == "modify_request"):
                 known[buff] = tested[key]._asdict()
 
         matched, valued = utilities.match(pro2, known, rule_name1, rule_name2)
@@ -671,23 +623,32 @@ class ProductionRules:
         executed.state = executed._FREE
         yield Event(roundtime(time), name, "EXECUTED")
 
+    def modified_slotvals(self, name, rulename, otherchunk):
+        """
+        What is known about the slots of a buffer modified by the rule rulename: the slots are as set by the rule, the other ones are as tested by it. Used in production compilation.
+        """
+        try:
+            slotvaldict = next(self.rules[rulename]["rule"]())[utilities._LHSCONVENTIONS_REVERSED["test"]+name]._asdict()
+        except KeyError:
+            slotvaldict = {}
+        slotvaldict = {slot: slotvaldict[slot]._replace(negvalues=(), negvariables=()) for slot in slotvaldict if slotvaldict[slot] != utilities.EMPTYVALUE} #what the slot is not does not carry over to other slots and actions
+        slotvaldict.update({slot: value for slot, value in otherchunk._asdict().items() if value != utilities.EMPTYVALUE})
+        return slotvaldict
+
+    def created_slotvals(self, otherchunk):
+        """
+        What is known about the slots of a buffer in which a chunk was created. Used in production compilation.
+        """
+        empty = utilities.VarvalClass(variables=None, values=str(utilities.EMPTYVALUE), negvariables=(), negvalues=())
+        return {slot: empty if value == utilities.EMPTYVALUE else value for slot, value in otherchunk._asdict().items()}
+
     def modify(self, name, modified, otherchunk, temp_actrvariables, time):
         """
         Modify a buffer chunk.
         """
         modified.state = modified._BUSY
         if self.model_parameters['production_compilation']:
-            RHSdict = otherchunk._asdict()
-            RHSdict = {item[0]: item[1] for item in RHSdict.items() if item[1] != chunks.Chunk.EmptyValue()} #delete None values, they will be copied from LHSdict
-            production = self.rules[self.used_rulename]["rule"]()
-            code = utilities._LHSCONVENTIONS_REVERSED["test"]
-            try:
-                slotvaldict = next(production)[code+name]._asdict()
-            except KeyError:
-                slotvaldict = {}
-            finally:
-                slotvaldict.update(RHSdict)
-            self.current_slotvals[name] = slotvaldict
+            self.current_slotvals[name] = self.modified_slotvals(name, self.used_rulename, otherchunk)
 
         modified.modify(otherchunk, temp_actrvariables) #time variable is currently not used - needed if modification would cost time
         modified.state = modified._FREE
@@ -698,21 +659,12 @@ class ProductionRules:
         Modify a buffer chunk. Unlike plain modify, this might add extra time to changing the chunk in the buffer.
         """
         modified.state = modified._BUSY
+        slotvals, rulename = self.current_slotvals, self.used_rulename #another rule might fire before the modification is done
         extra_time = utilities.calculate_setting_time(modified)
         time += extra_time
         yield Event(roundtime(time), name, self._UNKNOWN)
         if self.model_parameters['production_compilation']:
-            RHSdict = otherchunk._asdict()
-            RHSdict = {item[0]: item[1] for item in RHSdict.items() if item[1] != chunks.Chunk.EmptyValue()} #delete None values, they will be copied from LHSdict
-            production = self.rules[self.used_rulename]["rule"]()
-            code = utilities._LHSCONVENTIONS_REVERSED["test"]
-            try:
-                slotvaldict = next(production)[code+name]._asdict()
-            except KeyError:
-                slotvaldict = {}
-            finally:
-                slotvaldict.update(RHSdict)
-            self.current_slotvals[name] = slotvaldict
+            slotvals[name] = self.modified_slotvals(name, rulename, otherchunk)
 
         modified.modify(otherchunk, temp_actrvariables)
         modified.state = modified._FREE
@@ -723,13 +675,12 @@ class ProductionRules:
         Overwrite a buffer.
         """
         updated.state = updated._BUSY
+        slotvals = self.current_slotvals #another rule might fire before the buffer is overwritten
         extra_time = utilities.calculate_setting_time(updated)
         time += extra_time
         yield Event(roundtime(time), name, self._UNKNOWN)
         if self.model_parameters['production_compilation']:
-            RHSdict = otherchunk._asdict()
-            RHSdict = {item[0]: item[1] for item in RHSdict.items()} 
-            self.current_slotvals[name] = RHSdict
+            slotvals[name] = self.created_slotvals(otherchunk)
 
         updated.create(otherchunk, list(self.dm.values())[0], temp_actrvariables)
 
@@ -757,15 +708,14 @@ class ProductionRules:
         Find out whether a buffer should be set (for buffers that are not attached to any dm, i.e., Goal or Motor or Vision) or should trigger retrieval.
         """
         updated.state = updated._BUSY
+        slotvals = self.current_slotvals #another rule might fire before the request is done
         if isinstance(updated, goals.Goal):
             yield from self.clear(name, updated, otherchunk, temp_actrvariables, time, freeing=False)
             extra_time = utilities.calculate_setting_time(updated)
             time += extra_time
             yield Event(roundtime(time), name, self._UNKNOWN)
             if self.model_parameters['production_compilation']:
-                RHSdict = otherchunk._asdict()
-                RHSdict = {item[0]: item[1] for item in RHSdict.items()}
-                self.current_slotvals[name] = RHSdict
+                slotvals[name] = self.created_slotvals(otherchunk)
 
             updated.create(otherchunk, list(self.dm.values())[0], temp_actrvariables)
             created_elem = list(updated)[0]
@@ -806,6 +756,7 @@ class ProductionRules:
         Carry out retrieval using the retrieval buffer. 
         """
         #starting process
+        slotvals = self.current_slotvals #another rule might fire before the retrieval is done
         yield Event(roundtime(time), name, 'START RETRIEVAL')
         retrieved_elem, extra_time = retrieval.retrieve(time, otherchunk, temp_actrvariables, self.buffers, self.extra_tests.get(name, {}), self.model_parameters)
         time += extra_time
@@ -820,7 +771,7 @@ class ProductionRules:
         if self.model_parameters['production_compilation']:
             RHSdict = otherchunk._asdict()
             RHSdict = {item[0]: item[1] for item in RHSdict.items() if item[1] != chunks.Chunk.EmptyValue()} #delete None values
-            self.current_slotvals[name] = [RHSdict, retrieved_elem]
+            slotvals[name] = [RHSdict, retrieved_elem]
 
         yield Event(roundtime(time), name, f"RETRIEVED: {str(retrieved_elem)}")
 
diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index b7c0010..e510a6c 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -221,6 +221,16 @@ def make_chunkparts_with_new_vars(chunkpart, variable_dict, val_dict):
     return new_varval
 
 
+def join_chunkparts(chunkpart1, chunkpart2):
+    """
+    Join two chunk parts. The result tests everything that either chunk part tests.
+    """
+    varval1 = splitting(chunkpart1)
+    varval2 = splitting(chunkpart2)
+    if varval1.values is not None and varval2.values is not None and varval1.values != varval2.values:
+        raise ACTRError(f"During the compilation, one slot received two different values, namely {varval1.values} and {varval2.values}; exiting")
+    return VarvalClass(variables=varval1.variables or varval2.variables, values=varval1.values if varval1.values is not None else varval2.values, negvariables=tuple(dict.fromkeys(varval1.negvariables + varval2.negvariables)), negvalues=tuple(dict.fromkeys(varval1.negvalues + varval2.negvalues)))
+
 def merge_chunkparts(chunkpart1, chunkpart2):
     """
     Merge two chunk parts.
-- 
2.43.0


From 03d34de6214f31f42f1c05d14e4fe35fe9227be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 46/78] fix: a compiled rule does not fire where its second
 parent would not, because of what the second parent excludes

---
 pyactr/productions.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 7a50790..78da038 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -150,6 +150,8 @@ class Productions(collections.UserDict):
                     return {slot: slotvals[buff][slot] for slot in chunkdict}
                 return {slot: chunkdict[slot] for slot in chunkdict if any(utilities.splitting(chunkdict[slot]))}
 
+            differing = [] #variables, and what they must differ from because rule2 excludes it from the slots updated by rule1
+
             for key in pro2:
 
                 code = key[0]
@@ -164,6 +166,12 @@ class Productions(collections.UserDict):
                     continue #test on retrieved elem from rule1 in rule2 is removed because no retrieval
 
                 updated = updated_slots(buff)
+                for slot in updated:
+                    put, tested = utilities.splitting(updated[slot]), utilities.splitting(pro2[key]._asdict().get(slot, utilities.EMPTYVALUE))
+                    if put.variables:
+                        differing.append((put.variables, tested.negvalues, tested.negvariables))
+                    else:
+                        differing.extend((var, (put.values,), ()) for var in tested.negvariables)
                 if updated and action1[buff][0] in new_chunk:
                     continue #the test is on the chunk created by rule1
 
@@ -173,6 +181,16 @@ class Productions(collections.UserDict):
                 mod_attr_val = {slot: utilities.join_chunkparts(pro1buff.get(slot, utilities.EMPTYVALUE), pro2buff.get(slot, utilities.EMPTYVALUE)) for slot in {**pro1buff, **pro2buff}}
                 pro1[key] = chunks.Chunk((pro1[key] if key in pro1 else pro2[key]).typename, **mod_attr_val)
 
+            for var, negvalues, negvariables in differing:
+                for key in [key for key in pro1 if utilities._LHSCONVENTIONS[key[0]] == "test"]:
+                    pro1buff = {slot: utilities.splitting(value) for slot, value in pro1[key]._asdict().items()}
+                    bound = [slot for slot in pro1buff if pro1buff[slot].variables == var]
+                    if bound:
+                        different = utilities.VarvalClass(variables=None, values=None, negvariables=negvariables, negvalues=negvalues)
+                        pro1buff[bound[0]] = utilities.join_chunkparts(pro1buff[bound[0]], different)
+                        pro1[key] = chunks.Chunk(pro1[key].typename, **pro1buff)
+                        break
+
             yield pro1
 
             pro = {}
-- 
2.43.0


From 1011af4d1a86ab2aab789c049f213232acf8872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 47/78] fix: no production compilation when the retrieval of
 the first rule failed and the second rule uses the buffer or queries the
 failure

---
 pyactr/productions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 78da038..5fd3299 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -323,7 +323,7 @@ class Productions(collections.UserDict):
                             return True
                 elif buff in {x for x in buffers.keys() if isinstance(buffers[x], declarative.DecMemBuffer)}:
                     for key2 in pro21:
-                        if key2[0] == utilities._LHSCONVENTIONS_REVERSED["query"] and key2[1:] == buff and pro21[key2] == {"state": "error"}:
+                        if key2[0] == utilities._LHSCONVENTIONS_REVERSED["query"] and key2[1:] == buff and pro21[key2].get("state") == "error":
                             return True
 
         return False
@@ -366,6 +366,8 @@ class Productions(collections.UserDict):
         if retrieval and utilities._LHSCONVENTIONS_REVERSED["test"] + retrieval not in pro2:
             slotvals[retrieval] = None #the second rule does not use what was retrieved, so the retrieval request is kept
             retrieval = None
+        elif retrieval and not slotvals[retrieval][1]:
+            return False, False #nothing was retrieved, the second rule uses what was in the buffer before
 
         pro1 = self[rule_name1]['rule']()
         tested, updated = next(pro1).copy(), next(pro1)
-- 
2.43.0


From dc0e87d93a05c1dc26fbac493145237f54b948f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 48/78] fix: production compilation handles requests to several
 retrieval buffers in one rule

---
 pyactr/productions.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 5fd3299..07889ce 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -118,9 +118,9 @@ class Productions(collections.UserDict):
         else:
             self.rules[key] = Production(rule=value["rule"], utility=self.__DFT_UTILITY, reward=self.__DFT_REWARD)
 
-    def __collapse__(self, rule1, rule2, slotvals, retrieval):
+    def __collapse__(self, rule1, rule2, slotvals, retrievals):
         """
-        Collapses 2 rules into 1.
+        Collapses 2 rules into 1. Retrievals are the buffers for which the request of rule1 and the test of rule2 are removed.
         """
         conventions = utilities._RHSCONVENTIONS
         kept = {utilities._RHSCONVENTIONS_REVERSED[x] for x in ("execute", "clear", "extra_test")} #signs of actions that carry no chunk
@@ -162,7 +162,7 @@ class Productions(collections.UserDict):
                         pro1[key] = {**pro1.get(key, {}), **pro2[key]}
                     continue
 
-                if buff == retrieval:
+                if buff in retrievals:
                     continue #test on retrieved elem from rule1 in rule2 is removed because no retrieval
 
                 updated = updated_slots(buff)
@@ -218,7 +218,7 @@ class Productions(collections.UserDict):
 
                 buff = key[1:]
 
-                if key[0] not in not_actions and (buff in action2 or buff == retrieval):
+                if key[0] not in not_actions and (buff in action2 or buff in retrievals):
                     continue
 
                 pro.setdefault(key, updated1[key])
@@ -347,10 +347,10 @@ class Productions(collections.UserDict):
                         varval = utilities.splitting(elem[1])
                         modified_actrvariables.update({varval.variables}, varval.negvariables)
 
-        retrieval = None
+        retrievals = set() #store which buffers carry retrieval info that can be discarded later
         for buff in slotvals:
             if slotvals[buff] and isinstance(slotvals[buff], collections.abc.MutableSequence):
-                retrieval = buff #store which buffer carries retrieval info that can be discarded later
+                retrievals.add(buff)
                 #if the retrieval is not gone at the end of rule_name2 -- do not compile!!! -- this catches one case in which rules should not be combined because they might yield unsafe results
                 if buffers[buff]:
                     return False, False
@@ -363,11 +363,12 @@ class Productions(collections.UserDict):
 
         done = {buff for buff in slotvals if slotvals[buff]} #buffers in which the actions of the first rule were done before the second rule fired
 
-        if retrieval and utilities._LHSCONVENTIONS_REVERSED["test"] + retrieval not in pro2:
-            slotvals[retrieval] = None #the second rule does not use what was retrieved, so the retrieval request is kept
-            retrieval = None
-        elif retrieval and not slotvals[retrieval][1]:
-            return False, False #nothing was retrieved, the second rule uses what was in the buffer before
+        for buff in retrievals.copy():
+            if utilities._LHSCONVENTIONS_REVERSED["test"] + buff not in pro2:
+                slotvals[buff] = None #the second rule does not use what was retrieved, so the retrieval request is kept
+                retrievals.remove(buff)
+            elif not slotvals[buff][1]:
+                return False, False #nothing was retrieved, the second rule uses what was in the buffer before
 
         pro1 = self[rule_name1]['rule']()
         tested, updated = next(pro1).copy(), next(pro1)
@@ -379,7 +380,7 @@ class Productions(collections.UserDict):
                 continue
             if buff in done:
                 #if the second rule harvests what the first rule put in the buffer -- do not compile
-                if model_parameters["strict_harvesting"] and buff != retrieval and utilities._LHSCONVENTIONS_REVERSED["test"] + buff in pro2 and buff not in updated2:
+                if model_parameters["strict_harvesting"] and buff not in retrievals and utilities._LHSCONVENTIONS_REVERSED["test"] + buff in pro2 and buff not in updated2:
                     return False, False
             #if the second rule acts on the buffer while the request of the first rule is in progress -- do not compile
             elif utilities._RHSCONVENTIONS.get(updated2.get(buff)) in {"clear", "modify", "modify_request", "overwrite"}:
@@ -393,8 +394,8 @@ class Productions(collections.UserDict):
 
         matched, valued = utilities.match(pro2, known, rule_name1, rule_name2)
 
-        if retrieval:
-            slotvals.pop(retrieval) #info about retrieved element has been fully used, it can be discarded now
+        for buff in retrievals:
+            slotvals.pop(buff) #info about retrieved element has been fully used, it can be discarded now
 
         new_1rule = self.__substitute__(self[rule_name1], matched, valued)
         
@@ -408,7 +409,7 @@ class Productions(collections.UserDict):
                     mod_attr_val[elem] = varval
                 slotvals[buff] = mod_attr_val
 
-        new_rule = self.__collapse__(new_1rule, new_2rule, slotvals, retrieval)
+        new_rule = self.__collapse__(new_1rule, new_2rule, slotvals, retrievals)
         
         idx = 0
         re_created = "CREATED"
-- 
2.43.0


From 789df02472e3334408b5949a730bbca19311a5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 49/78] fix: production compilation works with partial matching
 and does not stop the run when rules do not fit each other

---
 pyactr/productions.py | 8 ++++++--
 pyactr/utilities.py   | 9 +++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 07889ce..49670c3 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -392,7 +392,10 @@ class Productions(collections.UserDict):
             if key[0] == utilities._LHSCONVENTIONS_REVERSED["test"] and not known.get(buff) and (buff not in updated or utilities._RHSCONVENTIONS[updated[buff]] == "modify_request"):
                 known[buff] = tested[key]._asdict()
 
-        matched, valued = utilities.match(pro2, known, rule_name1, rule_name2)
+        try:
+            matched, valued = utilities.match(pro2, known, rule_name1, rule_name2)
+        except utilities.ACTRError:
+            return False, False #what the second rule tests did not come from the first rule
 
         for buff in retrievals:
             slotvals.pop(buff) #info about retrieved element has been fully used, it can be discarded now
@@ -792,7 +795,8 @@ class ProductionRules:
         if self.model_parameters['production_compilation']:
             RHSdict = otherchunk._asdict()
             RHSdict = {item[0]: item[1] for item in RHSdict.items() if item[1] != chunks.Chunk.EmptyValue()} #delete None values
-            slotvals[name] = [RHSdict, retrieved_elem]
+            requested = {slot: utilities.check_bound_vars(temp_actrvariables, value, negative_impossible=False).values for slot, value in RHSdict.items()}
+            slotvals[name] = [RHSdict, retrieved_elem, requested]
 
         yield Event(roundtime(time), name, f"RETRIEVED: {str(retrieved_elem)}")
 
diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index e510a6c..71a0c4a 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -343,16 +343,17 @@ def match(dict2, slotvals, name1, name2):
         chunkdict2 = dict2[key]._asdict()
         chunkdict3 = slotvals.get(buff)
 
-        if isinstance(chunkdict3, collections.abc.MutableSequence): #this is retrieval, it consists of mutable sequence -- 0=chunk description in the 1st rule; 1=retrieved chunk
+        if isinstance(chunkdict3, collections.abc.MutableSequence): #this is retrieval, it consists of mutable sequence -- 0=chunk description in the 1st rule; 1=retrieved chunk; 2=values in the chunk description
             for elem in chunkdict2:
                 chunkpart2 = splitting(chunkdict2[elem])
                 chunkpart3 = splitting(chunkdict3[0].get(elem, EMPTYVALUE))
                 temp_val = splitting(getattr(chunkdict3[1], elem, EMPTYVALUE)).values
                 if temp_val is None:
                     temp_val = str(EMPTYVALUE) #nothing is in the slot of the retrieved chunk
-                temp_set = {chunkpart2.variables, chunkpart3.variables}.difference({None})
-                if temp_set:
-                    tie(temp_set, temp_val)
+                if chunkpart2.variables:
+                    tie({chunkpart2.variables}, temp_val)
+                if chunkpart3.variables:
+                    tie({chunkpart3.variables}, chunkdict3[2].get(elem)) #differs from what was retrieved if matching was partial
         else: #anything else but retrieval is here
             for elem in chunkdict2:
                 chunkpart2 = splitting(chunkdict2[elem])
-- 
2.43.0


From 7971cb7e13391eeb487f5cce1535e5aa2a50197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 50/78] fix: a compiled rule leaves nothing in buffers that its
 parents harvested

---
 pyactr/productions.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 49670c3..33edbaa 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -118,9 +118,9 @@ class Productions(collections.UserDict):
         else:
             self.rules[key] = Production(rule=value["rule"], utility=self.__DFT_UTILITY, reward=self.__DFT_REWARD)
 
-    def __collapse__(self, rule1, rule2, slotvals, retrievals):
+    def __collapse__(self, rule1, rule2, slotvals, retrievals, harvested):
         """
-        Collapses 2 rules into 1. Retrievals are the buffers for which the request of rule1 and the test of rule2 are removed.
+        Collapses 2 rules into 1. Retrievals are the buffers for which the request of rule1 and the test of rule2 are removed. Harvested are the buffers that have to be cleared even though no action in the rules says so.
         """
         conventions = utilities._RHSCONVENTIONS
         kept = {utilities._RHSCONVENTIONS_REVERSED[x] for x in ("execute", "clear", "extra_test")} #signs of actions that carry no chunk
@@ -223,6 +223,9 @@ class Productions(collections.UserDict):
 
                 pro.setdefault(key, updated1[key])
 
+            for buff in harvested:
+                pro.setdefault(utilities._RHSCONVENTIONS_REVERSED["clear"] + buff, None)
+
             yield pro
 
         return Production(rule=func, utility=self.__DFT_UTILITY, reward=self.__DFT_REWARD)
@@ -372,6 +375,7 @@ class Productions(collections.UserDict):
 
         pro1 = self[rule_name1]['rule']()
         tested, updated = next(pro1).copy(), next(pro1)
+        acted = {key[1:] for key in updated}
         updated = {key[1:]: key[0] for key in updated if utilities._RHSCONVENTIONS[key[0]] != "extra_test"}
         updated2 = {key[1:]: key[0] for key in next(production2)}
 
@@ -397,6 +401,11 @@ class Productions(collections.UserDict):
         except utilities.ACTRError:
             return False, False #what the second rule tests did not come from the first rule
 
+        #buffers that the two rules emptied but the actions of the new rule would not
+        harvested = {buff for buff in retrievals if buff not in updated2 and slotvals[buff][3]} #another chunk was there before retrieval
+        if model_parameters["strict_harvesting"]: #the first rule harvested the buffer, but because the second rule acts on it, the new one does not
+            harvested.update(key[1:] for key in tested if key[0] == utilities._LHSCONVENTIONS_REVERSED["test"] and key[1:] in updated2 and key[1:] not in acted and (updated2[key[1:]] != utilities._RHSCONVENTIONS_REVERSED["retrieveorset"] or not isinstance(buffers[key[1:]], goals.Goal)))
+
         for buff in retrievals:
             slotvals.pop(buff) #info about retrieved element has been fully used, it can be discarded now
 
@@ -412,7 +421,7 @@ class Productions(collections.UserDict):
                     mod_attr_val[elem] = varval
                 slotvals[buff] = mod_attr_val
 
-        new_rule = self.__collapse__(new_1rule, new_2rule, slotvals, retrievals)
+        new_rule = self.__collapse__(new_1rule, new_2rule, slotvals, retrievals, harvested)
         
         idx = 0
         re_created = "CREATED"
@@ -785,6 +794,7 @@ class ProductionRules:
         retrieved_elem, extra_time = retrieval.retrieve(time, otherchunk, temp_actrvariables, self.buffers, self.extra_tests.get(name, {}), self.model_parameters)
         time += extra_time
         yield Event(roundtime(time), name, self._UNKNOWN)
+        replaced = bool(retrieval) #whether there was something else in the buffer
         if retrieved_elem:
             yield Event(roundtime(time), name, 'CLEARED')
             retrieval.add(retrieved_elem, time)
@@ -796,7 +806,7 @@ class ProductionRules:
             RHSdict = otherchunk._asdict()
             RHSdict = {item[0]: item[1] for item in RHSdict.items() if item[1] != chunks.Chunk.EmptyValue()} #delete None values
             requested = {slot: utilities.check_bound_vars(temp_actrvariables, value, negative_impossible=False).values for slot, value in RHSdict.items()}
-            slotvals[name] = [RHSdict, retrieved_elem, requested]
+            slotvals[name] = [RHSdict, retrieved_elem, requested, replaced]
 
         yield Event(roundtime(time), name, f"RETRIEVED: {str(retrieved_elem)}")
 
-- 
2.43.0


From e168bc997348ef97be4c3c1501bf205805b94579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 51/78] fix: modifying an empty buffer is reported as an ACT-R
 error

---
 pyactr/buffers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/buffers.py b/pyactr/buffers.py
index 258bdc9..820aa41 100644
--- a/pyactr/buffers.py
+++ b/pyactr/buffers.py
@@ -103,6 +103,8 @@ class Buffer(collections.abc.MutableSet):
             mod_attr_val = {x[0]: utilities.check_bound_vars(actrvariables, x[1]) for x in otherchunk.removeunused()} #creates dict of attr-val pairs according to otherchunk
         except utilities.ACTRError as arg:
             raise utilities.ACTRError(f"The modification by the chunk '{otherchunk} is impossible; {arg}")
+        if not self._data:
+            raise utilities.ACTRError(f"The modification by the chunk '{otherchunk}' is impossible; there is no chunk in the buffer")
         elem = self._data.pop()
         elem_attr_val = {x[0]: x[1] for x in elem}
         elem_attr_val.update(mod_attr_val) #updates original chunk with attr-val from otherchunk
-- 
2.43.0


From a1fd638937a94200471ffc07d17fb9ee3e547732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 52/78] fix: a compiled rule does not fire where its second
 parent would not, because of what it excludes from the retrieved chunk

---
 pyactr/productions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 33edbaa..fcb1165 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -120,7 +120,7 @@ class Productions(collections.UserDict):
 
     def __collapse__(self, rule1, rule2, slotvals, retrievals, harvested):
         """
-        Collapses 2 rules into 1. Retrievals are the buffers for which the request of rule1 and the test of rule2 are removed. Harvested are the buffers that have to be cleared even though no action in the rules says so.
+        Collapses 2 rules into 1. Retrievals are the buffers for which the request of rule1 and the test of rule2 are removed, with the retrieved chunks. Harvested are the buffers that have to be cleared even though no action in the rules says so.
         """
         conventions = utilities._RHSCONVENTIONS
         kept = {utilities._RHSCONVENTIONS_REVERSED[x] for x in ("execute", "clear", "extra_test")} #signs of actions that carry no chunk
@@ -150,7 +150,7 @@ class Productions(collections.UserDict):
                     return {slot: slotvals[buff][slot] for slot in chunkdict}
                 return {slot: chunkdict[slot] for slot in chunkdict if any(utilities.splitting(chunkdict[slot]))}
 
-            differing = [] #variables, and what they must differ from because rule2 excludes it from the slots updated by rule1
+            differing = [] #variables, and what they must differ from because rule2 excludes it from the slots updated by rule1 or from the retrieved chunk
 
             for key in pro2:
 
@@ -163,6 +163,9 @@ class Productions(collections.UserDict):
                     continue
 
                 if buff in retrievals:
+                    for slot, value in pro2[key]._asdict().items():
+                        retrieved = utilities.splitting(getattr(retrievals[buff], slot, utilities.EMPTYVALUE)).values
+                        differing.extend((var, (retrieved,), ()) for var in utilities.splitting(value).negvariables if retrieved is not None)
                     continue #test on retrieved elem from rule1 in rule2 is removed because no retrieval
 
                 updated = updated_slots(buff)
@@ -406,8 +409,9 @@ class Productions(collections.UserDict):
         if model_parameters["strict_harvesting"]: #the first rule harvested the buffer, but because the second rule acts on it, the new one does not
             harvested.update(key[1:] for key in tested if key[0] == utilities._LHSCONVENTIONS_REVERSED["test"] and key[1:] in updated2 and key[1:] not in acted and (updated2[key[1:]] != utilities._RHSCONVENTIONS_REVERSED["retrieveorset"] or not isinstance(buffers[key[1:]], goals.Goal)))
 
+        retrieved = {}
         for buff in retrievals:
-            slotvals.pop(buff) #info about retrieved element has been fully used, it can be discarded now
+            retrieved[buff] = slotvals.pop(buff)[1] #info about retrieved element has been fully used, it can be discarded now
 
         new_1rule = self.__substitute__(self[rule_name1], matched, valued)
         
@@ -421,7 +425,7 @@ class Productions(collections.UserDict):
                     mod_attr_val[elem] = varval
                 slotvals[buff] = mod_attr_val
 
-        new_rule = self.__collapse__(new_1rule, new_2rule, slotvals, retrievals, harvested)
+        new_rule = self.__collapse__(new_1rule, new_2rule, slotvals, retrieved, harvested)
         
         idx = 0
         re_created = "CREATED"
-- 
2.43.0


From 597799418bcbd63f6b5d9201869149998a79a975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 53/78] fix: rule strings without a name can be added to a
 model

---
 pyactr/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index c2c4197..de3adfa 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -232,8 +232,8 @@ class ACTRModel:
         {'=g': example(value= two)}
         """
         if not name:
-            name = "unnamedrule" + productions.Productions._undefinedrulecounter
-            productions.Productions._undefinedrulecounter += 1
+            name = "unnamedrule" + str(self.productions._undefinedrulecounter)
+            self.productions._undefinedrulecounter += 1
         temp_dictRHS = {v: k for k, v in utilities._RHSCONVENTIONS.items()}
         temp_dictLHS = {v: k for k, v in utilities._LHSCONVENTIONS.items()}
         rule_reader = utilities.getrule()
-- 
2.43.0


From 8ca0bc461962a7d303c19d15b7106774bf32abba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 54/78] fix: models do not share the default of
 buffer_spreading_activation

---
 pyactr/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index de3adfa..7fc16e8 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -2,6 +2,8 @@
 ACT-R Model.
 """
 
+import copy
+
 import pyparsing
 
 from pyactr import chunks, declarative, goals, motor, productions, simulation, utilities, vision
@@ -97,7 +99,7 @@ class ACTRModel:
         self.productions = productions.Productions()
         self.__similarities = {}
 
-        self.model_parameters = self.MODEL_PARAMETERS.copy()
+        self.model_parameters = copy.deepcopy(self.MODEL_PARAMETERS)
 
         try:
             if not set(model_parameters.keys()).issubset(set(self.MODEL_PARAMETERS.keys())):
-- 
2.43.0


From 8480a2a3bffb3f3330b08ef8a65c668311ab0356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 55/78] fix: similarities of one model are not used in another
 model

---
 pyactr/declarative.py | 5 +++++
 pyactr/model.py       | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 463a9ee..d9f2c3f 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -125,6 +125,9 @@ class DecMemBuffer(buffers.Buffer):
         #parameters
         self.model_parameters = {}
 
+        #similarities between chunks, supplied by the model; if None, those in chunks are used
+        self.similarities = None
+
     @property
     def finst(self):
         """
@@ -200,6 +203,8 @@ class DecMemBuffer(buffers.Buffer):
         except utilities.ACTRError as arg:
             raise utilities.ACTRError(f"Retrieving the chunk '{otherchunk}' is impossible; {arg}")
         chunk_tobe_matched = chunks.Chunk(otherchunk.typename, **mod_attr_val)
+        if self.similarities is not None:
+            chunk_tobe_matched._similarities = self.similarities
 
         max_A = float("-inf")
 
diff --git a/pyactr/model.py b/pyactr/model.py
index 7fc16e8..a8ba6dd 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -325,5 +325,7 @@ class ACTRModel:
         used_productions = productions.ProductionRules(self.productions, self.__buffers, decmem, self.model_parameters)
 
         chunks.Chunk._similarities = self.__similarities
+        for retrieval in self.retrievals.values():
+            retrieval.similarities = self.__similarities
 
         return simulation.Simulation(self.__env, realtime, trace, gui, self.__buffers, used_productions, initial_time, environment_process, **kwargs)
-- 
2.43.0


From 6c0df82d719691ebbb5c10a3ad2f3a55e8e8b197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:31 +0000
Subject: [PATCH 56/78] fix: names of chunks stand for these chunks in negated
 values of chunk strings

---
 pyactr/chunks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index b3ab39f..d640f99 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -389,6 +389,8 @@ def createchunkdict(chunk):
                 else:
                     updating = sp_dict[elem[idx][0]]
                     update_val = elem[idx][1]
+                    if updating == "negvalues":
+                        update_val = Chunk._chunks.get(update_val, update_val) #just like in values, the name of an existing chunk stands for that chunk
 
             except (KeyError, IndexError): #indexerror --> only a string is present; keyerror: the first element in elem[idx] is not a special symbol (in sp)
                 if elem[idx][0] == "'" or elem[idx][0] == '"':
-- 
2.43.0


From 8cffd21f9f4e4bdc255e2555b577d92d31afd890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 57/78] fix: adding a non-chunk to a buffer leaves the chunk in
 the buffer

---
 pyactr/buffers.py     | 14 ++++++++++----
 pyactr/declarative.py |  1 +
 pyactr/vision.py      |  2 ++
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyactr/buffers.py b/pyactr/buffers.py
index 820aa41..8454613 100644
--- a/pyactr/buffers.py
+++ b/pyactr/buffers.py
@@ -57,11 +57,17 @@ class Buffer(collections.abc.MutableSet):
 
         elem must be a chunk.
         """
+        self._check_chunk(elem)
+
         self._data = set()
-        
-        if isinstance(elem, chunks.Chunk):
-            self._data.add(elem)
-        else:
+        self._data.add(elem)
+
+    @staticmethod
+    def _check_chunk(elem):
+        """
+        Check that elem can be added into the buffer. This has to be done before anything in the buffer changes.
+        """
+        if not isinstance(elem, chunks.Chunk):
             raise TypeError("Only chunks can be added to Buffer")
 
     def discard(self, elem):
diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index d9f2c3f..b7ad08c 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -160,6 +160,7 @@ class DecMemBuffer(buffers.Buffer):
         """
         Clear current buffer and adds a new chunk.
         """
+        self._check_chunk(elem)
         self.clear(time)
         super().add(elem)
 
diff --git a/pyactr/vision.py b/pyactr/vision.py
index ddd6e56..0e0318d 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -54,6 +54,7 @@ class VisualLocation(buffers.Buffer):
         """
         Clear current buffer (into a memory) and adds a new chunk. Decl. memory is either specified as default_harvest, when Visual is initialized, or it can be specified as the argument of harvest.
         """
+        self._check_chunk(elem)
         self.clear(time, harvest)
 
         super().add(elem)
@@ -307,6 +308,7 @@ class Visual(buffers.Buffer):
         """
         Clear current buffer (into a memory) and adds a new chunk. Decl. memory is either specified as default_harvest, when Visual is initialized, or it can be specified as the argument of harvest.
         """
+        self._check_chunk(elem)
         self.clear(time, harvest)
         super().add(elem)
 
-- 
2.43.0


From 373e72ddb946ab97c4520f8396ee28481a10b798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 58/78] fix: nothing is added to the declarative memory when a
 part cannot be added

---
 pyactr/declarative.py | 42 ++++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index b7ad08c..531006d 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -46,6 +46,8 @@ class DecMem(collections.abc.MutableMapping):
         return repr(self._data)
 
     def __setitem__(self, key, time):
+        if not isinstance(key, chunks.Chunk):
+            raise utilities.ACTRError(f"Only chunks can be added as attributes to Declarative Memory; '{key}' is not a chunk")
         if self.unrestricted_number_chunks and key not in self:
             for x in key:
                 if utilities.splitting(x[1]).values and utilities.splitting(x[1]).values in self.unrestricted_number_chunks:
@@ -54,16 +56,13 @@ class DecMem(collections.abc.MutableMapping):
             for x in key:
                 if utilities.splitting(x[1]).values and (x[0], utilities.splitting(x[1]).values) in self.restricted_number_chunks:
                     self.restricted_number_chunks.update([(x[0], utilities.splitting(x[1]).values)])
-        if isinstance(key, chunks.Chunk):
-            if isinstance(time, np.ndarray):
-                self._data[key] = time
-            else:
-                try:
-                    self._data[key] = np.array([round(float(time), 4)])
-                except TypeError:
-                    self._data[key] = np.array(time)
+        if isinstance(time, np.ndarray):
+            self._data[key] = time
         else:
-            raise utilities.ACTRError(f"Only chunks can be added as attributes to Declarative Memory; '{key}' is not a chunk")
+            try:
+                self._data[key] = np.array([round(float(time), 4)])
+            except TypeError:
+                self._data[key] = np.array(time)
     
     def add_activation(self, element, activation):
         """
@@ -83,23 +82,18 @@ class DecMem(collections.abc.MutableMapping):
         element can be either one chunk, or an iterable of chunks.
         """
         if isinstance(element, collections.abc.Iterable) and not isinstance(element, (chunks.Chunk, str)):
-            element = list(element) #any iterable of chunks can be added, even if it is hashable (tuples, frozensets)
+            elements = list(element) #any iterable of chunks can be added, even if it is hashable (tuples, frozensets)
+        else:
+            elements = [element]
+        for x in elements: #nothing is added unless everything can be added
+            if not isinstance(x, chunks.Chunk):
+                raise utilities.ACTRError(f"Only chunks can be added as attributes to Declarative Memory; '{x}' is not a chunk")
         if isinstance(time, collections.abc.Iterable):
-            try:
-                new = np.concatenate((self.setdefault(element, np.array([])), np.array(time)))
-                self[element] = new
-            except TypeError:
-                for x in element:
-                    new = np.concatenate((self.setdefault(x, np.array([])), np.array(time)))
-                    self[x] = new
+            new_times = np.array(time, dtype=float)
         else:
-            try:
-                new = np.append(self.setdefault(element, np.array([])), round(float(time), 4))
-                self[element] = new
-            except TypeError:
-                for x in element:
-                    new = np.append(self.setdefault(x, np.array([])), round(float(time), 4))
-                    self[x] = new
+            new_times = np.array([round(float(time), 4)])
+        for x in elements:
+            self[x] = np.concatenate((self.get(x, np.array([])), new_times))
 
     def copy(self):
         """
-- 
2.43.0


From 6e9f6509a46ac8421998b14ebb646da83262fd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:17 +0000
Subject: [PATCH 59/78] fix: a modification that fails leaves the chunk in the
 buffer

---
 pyactr/buffers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyactr/buffers.py b/pyactr/buffers.py
index 8454613..f894773 100644
--- a/pyactr/buffers.py
+++ b/pyactr/buffers.py
@@ -111,9 +111,10 @@ class Buffer(collections.abc.MutableSet):
             raise utilities.ACTRError(f"The modification by the chunk '{otherchunk} is impossible; {arg}")
         if not self._data:
             raise utilities.ACTRError(f"The modification by the chunk '{otherchunk}' is impossible; there is no chunk in the buffer")
-        elem = self._data.pop()
+        elem = next(iter(self._data))
         elem_attr_val = {x[0]: x[1] for x in elem}
         elem_attr_val.update(mod_attr_val) #updates original chunk with attr-val from otherchunk
         mod_chunk = chunks.Chunk(otherchunk.typename, **elem_attr_val) #creates new chunk
 
+        self._data.pop()
         self._data.add(mod_chunk) #put chunk directly into buffer
-- 
2.43.0


From 4e742ea6ce0966da6ed2da3c24847313a422c36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:15 +0000
Subject: [PATCH 60/78] fix: a negated variable naming a buffer excludes the
 chunk of a buffer tested later

---
 pyactr/productions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index fcb1165..0182a88 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -1033,6 +1033,9 @@ class ProductionRules:
         if submodule_var in temp_actrvariables and list(self.buffers[submodule_name])[0] != temp_actrvariables[submodule_var]:
             return False, None
 
+        if list(self.buffers[submodule_name])[0] in temp_actrvariables.get("~" + submodule_var, set()):
+            return False, None
+
         for chunk in tested:
             testchunk.boundvars = dict(temp_actrvariables)
 
-- 
2.43.0


From f2de3affb4cd500e88460e8471068766989ca5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:07 +0000
Subject: [PATCH 61/78] fix: strict harvesting clears only tested buffers, not
 buffers whose name is used as a variable

---
 pyactr/productions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 0182a88..ccbfb35 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -475,6 +475,8 @@ class ProductionRules:
 
         self.buffers = buffers #dict of buffers
 
+        self.tested_buffers = set() #buffers tested by a fired rule
+
         self.procs = [] #list of active processes
 
         self.dm = dm #list of (submodules of) memories
@@ -607,7 +609,7 @@ class ProductionRules:
         if self.model_parameters["strict_harvesting"]:
             for key in temp_actrvariables:
                 submodule_name = key[1:]
-                if submodule_name in self.buffers:
+                if submodule_name in self.buffers and submodule_name in self.tested_buffers:
                     self.procs.append((submodule_name, self.harvest(submodule_name, self.buffers[submodule_name], self.__actrvariables, time)))
 
     def extra_test(self, name, tested, test, temp_actrvariables, time):
@@ -1017,6 +1019,7 @@ class ProductionRules:
                 actrvariables.update(result[1])
         if update:
             self.__actrvariables = actrvariables
+            self.tested_buffers = {key[1:] for key in dictionary if self._LHSCONVENTIONS[key[0]] == "test"} #needed for strict harvesting
         return True
 
     def test(self, submodule_name, tested, testchunk, temp_actrvariables):
-- 
2.43.0


From 15f741aa59b2465d52bcb78329fee613ae035545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:38 +0000
Subject: [PATCH 62/78] fix: the visual processor stayed busy for good when
 automatic buffering was in progress at the end of an attention shift

---
 pyactr/productions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index ccbfb35..500f2b8 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -918,9 +918,9 @@ class ProductionRules:
             yield from self.visualencode(name, visualbuffer, otherchunk, temp_actrvariables, time, (1-((preparation+execution)/encoding))*extra_time[0], landing_site)
         if visualbuffer.last_mvt <= time: #no other movement started in the meantime
             visualbuffer.execution = visualbuffer._FREE
-        if visualbuffer._BUSY not in {visualbuffer.preparation, visualbuffer.execution, visualbuffer.autoattending}:
+        if visualbuffer._BUSY not in {visualbuffer.preparation, visualbuffer.execution}:
             visualbuffer.processor = visualbuffer._FREE
-            visualbuffer.state = visualbuffer._FREE
+            visualbuffer.state = visualbuffer.autoattending
         visualbuffer.attend_automatic = True
         #the following lines - if we think that automatic buffering should be repeated after being done with shift
         #if visualbuffer.attend_automatic:
-- 
2.43.0


From 5b82773c2d1513b442b8fd73c28f782d4a386d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:49 +0000
Subject: [PATCH 63/78] fix: an empty slot of a compiled rule's action was
 taken for an unknown one when that rule was compiled further, which created
 rules with unbound variables

---
 pyactr/productions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 500f2b8..43e1f6b 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -670,8 +670,8 @@ class ProductionRules:
             slotvaldict = next(self.rules[rulename]["rule"]())[utilities._LHSCONVENTIONS_REVERSED["test"]+name]._asdict()
         except KeyError:
             slotvaldict = {}
-        slotvaldict = {slot: slotvaldict[slot]._replace(negvalues=(), negvariables=()) for slot in slotvaldict if slotvaldict[slot] != utilities.EMPTYVALUE} #what the slot is not does not carry over to other slots and actions
-        slotvaldict.update({slot: value for slot, value in otherchunk._asdict().items() if value != utilities.EMPTYVALUE})
+        slotvaldict = {slot: slotvaldict[slot]._replace(negvalues=(), negvariables=()) for slot in slotvaldict if utilities.splitting(slotvaldict[slot]) != utilities.splitting(utilities.EMPTYVALUE)} #what the slot is not does not carry over to other slots and actions
+        slotvaldict.update({slot: value for slot, value in otherchunk._asdict().items() if utilities.splitting(value) != utilities.splitting(utilities.EMPTYVALUE)}) #(in compiled rules, empty slots are empty varvals)
         return slotvaldict
 
     def created_slotvals(self, otherchunk):
@@ -679,7 +679,7 @@ class ProductionRules:
         What is known about the slots of a buffer in which a chunk was created. Used in production compilation.
         """
         empty = utilities.VarvalClass(variables=None, values=str(utilities.EMPTYVALUE), negvariables=(), negvalues=())
-        return {slot: empty if value == utilities.EMPTYVALUE else value for slot, value in otherchunk._asdict().items()}
+        return {slot: empty if utilities.splitting(value) == utilities.splitting(utilities.EMPTYVALUE) else value for slot, value in otherchunk._asdict().items()} #(in compiled rules, empty slots are empty varvals)
 
     def modify(self, name, modified, otherchunk, temp_actrvariables, time):
         """
-- 
2.43.0


From f3d9c0b10b5c006fbcb5035b358f5d66e844dc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:51 +0000
Subject: [PATCH 64/78] fix: all uses of a rule given as a string shared the
 same dictionaries, so composing a rule with one of its own parts mixed up
 variables

---
 pyactr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index a8ba6dd..a7090df 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -243,8 +243,8 @@ class ACTRModel:
             rule = rule_reader.parse_string(string, parse_all=True)
         except pyparsing.ParseException as e:
             raise utilities.ACTRError(f"The rule '{name}' could not be parsed. The following error was observed: {e}")
-        lhs, rhs = {}, {}
         def func():
+            lhs, rhs = {}, {}
             for each in rule[0]:
                 if each[0] == temp_dictLHS["query"]:
                     lhs[each[0]+each[1]] = {x[0]:x[1] for x in each[3]}
-- 
2.43.0


From 287af10345632ac06a68497b51e305410c9818a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:58 +0000
Subject: [PATCH 65/78] fix: rules are not compiled if the second one tests a
 buffer that the first one emptied

---
 pyactr/productions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 43e1f6b..cb9112e 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -382,6 +382,13 @@ class Productions(collections.UserDict):
         updated = {key[1:]: key[0] for key in updated if utilities._RHSCONVENTIONS[key[0]] != "extra_test"}
         updated2 = {key[1:]: key[0] for key in next(production2)}
 
+        #if the second rule tests a buffer that the first rule emptied, the tested chunk did not come from the first rule -- do not compile
+        emptied = {buff for buff in updated if utilities._RHSCONVENTIONS[updated[buff]] == "clear"}
+        if model_parameters["strict_harvesting"]:
+            emptied.update(key[1:] for key in tested if key[0] == utilities._LHSCONVENTIONS_REVERSED["test"] and key[1:] not in acted)
+        if any(utilities._LHSCONVENTIONS_REVERSED["test"] + buff in pro2 for buff in emptied):
+            return False, False
+
         for buff in updated:
             if utilities._RHSCONVENTIONS[updated[buff]] in {"clear", "execute"}:
                 continue
-- 
2.43.0


From 2bd9dc64ac34be9b621da7a9d9edb9ca41886ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:48 +0000
Subject: [PATCH 66/78] fix: queries of a buffer that the first of two compiled
 rules emptied are settled or block the compilation

---
 pyactr/productions.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index cb9112e..84de9dd 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -118,9 +118,9 @@ class Productions(collections.UserDict):
         else:
             self.rules[key] = Production(rule=value["rule"], utility=self.__DFT_UTILITY, reward=self.__DFT_REWARD)
 
-    def __collapse__(self, rule1, rule2, slotvals, retrievals, harvested):
+    def __collapse__(self, rule1, rule2, slotvals, retrievals, harvested, emptied):
         """
-        Collapses 2 rules into 1. Retrievals are the buffers for which the request of rule1 and the test of rule2 are removed, with the retrieved chunks. Harvested are the buffers that have to be cleared even though no action in the rules says so.
+        Collapses 2 rules into 1. Emptied are the buffers that rule1 emptied. Retrievals are the buffers for which the request of rule1 and the test of rule2 are removed, with the retrieved chunks. Harvested are the buffers that have to be cleared even though no action in the rules says so.
         """
         conventions = utilities._RHSCONVENTIONS
         kept = {utilities._RHSCONVENTIONS_REVERSED[x] for x in ("execute", "clear", "extra_test")} #signs of actions that carry no chunk
@@ -158,8 +158,13 @@ class Productions(collections.UserDict):
                 buff = key[1:]
 
                 if utilities._LHSCONVENTIONS[code] == "query":
-                    if buff not in action1 or conventions[action1[buff][0]] == "modify":
-                        pro1[key] = {**pro1.get(key, {}), **pro2[key]}
+                    settled = {"buffer"} if buff in emptied else set() #queries that hold because of what rule1 did
+                    if buff in action1 and conventions[action1[buff][0]] == "clear":
+                        settled.add("state")
+                    if buff not in action1 or conventions[action1[buff][0]] in {"modify", "clear"}:
+                        query = {**pro1.get(key, {}), **{x: pro2[key][x] for x in pro2[key] if x not in settled}}
+                        if query:
+                            pro1[key] = query
                     continue
 
                 if buff in retrievals:
@@ -388,6 +393,11 @@ class Productions(collections.UserDict):
             emptied.update(key[1:] for key in tested if key[0] == utilities._LHSCONVENTIONS_REVERSED["test"] and key[1:] not in acted)
         if any(utilities._LHSCONVENTIONS_REVERSED["test"] + buff in pro2 for buff in emptied):
             return False, False
+        #the same if the second rule queries such a buffer for what does not hold after the buffer is emptied
+        for buff in emptied:
+            query = pro2.get(utilities._LHSCONVENTIONS_REVERSED["query"] + buff, {})
+            if query.get("buffer", "empty") != "empty" or (buff in acted and query.get("state", "free") != "free"):
+                return False, False
 
         for buff in updated:
             if utilities._RHSCONVENTIONS[updated[buff]] in {"clear", "execute"}:
@@ -432,7 +442,7 @@ class Productions(collections.UserDict):
                     mod_attr_val[elem] = varval
                 slotvals[buff] = mod_attr_val
 
-        new_rule = self.__collapse__(new_1rule, new_2rule, slotvals, retrieved, harvested)
+        new_rule = self.__collapse__(new_1rule, new_2rule, slotvals, retrieved, harvested, emptied)
         
         idx = 0
         re_created = "CREATED"
-- 
2.43.0


From f2fb19832a75c7a78c571215f19144c0466a91fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:49 +0000
Subject: [PATCH 67/78] fix: a simulation in real time starts at its initial
 time

---
 pyactr/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 8cc88c3..69aed2d 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -51,7 +51,7 @@ class Simulation:
         self.__realtime = realtime
 
         if not self.gui and realtime:
-            self.__simulation = simpy.RealtimeEnvironment()
+            self.__simulation = simpy.RealtimeEnvironment(initial_time=round(initial_time, 4))
 
         self.__trace = trace
 
-- 
2.43.0


From 05f3d001670db3178d97822f95503b094f6a03ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:41 +0000
Subject: [PATCH 68/78] fix: with several declarative memories of which one is
 not empty, buffers without a memory use that one

---
 pyactr/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index a7090df..c733cda 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -302,9 +302,10 @@ class ACTRModel:
             for key in self.__buffers:
                 self.__buffers[key].dm = self.decmem #if only one dm, let all buffers use it
         elif len([x for x in self.decmems.values() if x]) == 1:
+            nontrivial = next(x for x in self.decmems.values() if x)
             for key in self.__buffers:
-                if not self.__buffers[key].dm:
-                    self.__buffers[key].dm = self.decmem #if only one non-trivial dm, let buffers use it that do not have a dm specified
+                if self.__buffers[key].dm is None:
+                    self.__buffers[key].dm = nontrivial #if only one non-trivial dm, let buffers use it that do not have a dm specified
 
         decmem = {name: self.__buffers[name].dm for name in self.__buffers\
                 if self.__buffers[name].dm != None} #dict of declarative memories used; more than 1 decmem might appear here
-- 
2.43.0


From ed33ce0d10d6e18370f5bb5e329fb6de16b84b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:51 +0000
Subject: [PATCH 69/78] fix: a visual buffer created without a memory is
 cleared into the only memory of the model

---
 pyactr/productions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 84de9dd..4a25ddd 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -646,8 +646,9 @@ class ProductionRules:
         try:
             cleared.clear(time) #clear the buffer; works for decl. mem. buffers (tied to a specific decl. mem)
         except AttributeError: #unless it fails because the cleared chunk cannot be added anywhere
-            if len(self.dm) == 1:
-                cleared.clear(time, list(self.dm.values())[0]) #if there is only one memory, add the chunk there
+            memories = {id(dm): dm for dm in self.dm.values()} #several buffers can share one memory
+            if len(memories) == 1:
+                cleared.clear(time, list(memories.values())[0]) #if there is only one memory, add the chunk there
             elif optional:
                 cleared.clear(time, self.dm[optional]) #if not, optional must specify memory where chunk should be added
             else:
-- 
2.43.0


From 3a3eb5b07d88d900cfb623eae6a89c77a7872996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:58 +0000
Subject: [PATCH 70/78] fix: motor_prepared holds for every simulation of a
 model, the first key press does not change the parameter

---
 pyactr/productions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 4a25ddd..acd2ca3 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -500,6 +500,8 @@ class ProductionRules:
 
         self.env_interaction = set() #set interacting with environment (pressed keys)
 
+        self.motor_prepared = True #no key was pressed yet; the model parameter motor_prepared might apply
+
         self.model_parameters = model_parameters
 
     def __order_rulenames(self):
@@ -959,8 +961,8 @@ class ProductionRules:
         preparation = time_presses[0]
 
         #preparation can be modified if previous key was the same or similar -- see if-clauses below
-        if newchunk.key == motorbuffer.last_key[0] or self.model_parameters["motor_prepared"]:
-            self.model_parameters["motor_prepared"] = False #motor_prepared is only used for the 1st key press
+        prepared, self.motor_prepared = self.motor_prepared and self.model_parameters["motor_prepared"], False #motor_prepared is only used for the 1st key press
+        if newchunk.key == motorbuffer.last_key[0] or prepared:
             preparation = 0
         elif motorbuffer.last_key[0] and (str(newchunk.key) in motorbuffer.PRESSING) == (str(motorbuffer.last_key[0]) in motorbuffer.PRESSING):
             if (str(newchunk.key) in motorbuffer.LEFT_HAND) == (str(motorbuffer.last_key[0]) in motorbuffer.LEFT_HAND):
-- 
2.43.0


From fc3cd8f58fac62b7d45fc7b064dc32244e387294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:15 +0000
Subject: [PATCH 71/78] fix: a new simulation of a model does not wait for what
 an earlier simulation left unfinished

---
 pyactr/buffers.py |  7 +++++++
 pyactr/model.py   |  3 +++
 pyactr/vision.py  | 14 +++++++++++++-
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/pyactr/buffers.py b/pyactr/buffers.py
index f894773..24a7cfa 100644
--- a/pyactr/buffers.py
+++ b/pyactr/buffers.py
@@ -89,6 +89,13 @@ class Buffer(collections.abc.MutableSet):
         except AttributeError:
             print(attr)
 
+    def stop(self):
+        """
+        Stop whatever is in progress. Used when a new simulation starts, because what was left unfinished by an earlier simulation will not be finished anymore.
+        """
+        if self.state == self._BUSY:
+            self.state = self._FREE
+
     def test_buffer(self, inquiry):
         """
         Is buffer full/empty?
diff --git a/pyactr/model.py b/pyactr/model.py
index c733cda..6c6a0e5 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -321,6 +321,9 @@ class ACTRModel:
                 self.__buffers["visual"] = vision.Visual(self.__env, dm) #adding vision buffers
                 self.__buffers["visual_location"] = vision.VisualLocation(self.__env, dm) #adding vision buffers
         
+        for key in self.__buffers:
+            self.__buffers[key].stop() #an earlier simulation of the model might have been left unfinished
+
         self.productions.used_rulenames = {} # remove any previously stored rules for utility learning
 
         used_productions = productions.ProductionRules(self.productions, self.__buffers, decmem, self.model_parameters)
diff --git a/pyactr/vision.py b/pyactr/vision.py
index 0e0318d..3b8cf52 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -283,7 +283,7 @@ class Visual(buffers.Buffer):
         self.execution = self._FREE
         self.autoattending = self._FREE
         self.attend_automatic = True #the current focus automatically attends
-        self.last_mvt = 0
+        self.last_mvt = float("-inf") #the time at which the last eye movement is finished
         self.last_shift = None #the object to which attention was shifted most recently
 
         #parameters
@@ -355,6 +355,18 @@ class Visual(buffers.Buffer):
         """
         self.attend_automatic = False
 
+    def stop(self):
+        """
+        Stop whatever is in progress, eye movements included.
+        """
+        super().stop()
+        self.preparation = self._FREE
+        self.processor = self._FREE
+        self.execution = self._FREE
+        self.autoattending = self._FREE
+        self.last_mvt = float("-inf")
+        self.last_shift = None
+
     def stop_preparation(self):
         """
         Give up an attention shift in preparation and automatic buffering in progress, because they are interrupted. An eye movement that is being executed continues.
-- 
2.43.0


From 99af73974af389355e2d582005a81bf267615bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:06 +0000
Subject: [PATCH 72/78] fix: what a rule does after overwriting a goal buffer
 with a delay follows the delay

---
 pyactr/productions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index acd2ca3..cfe100c 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -622,7 +622,7 @@ class ProductionRules:
             if production.__name__ in self._INTERRUPTIBLE:
                 self.procs.append((submodule_name, production)) 
             else:
-                yield from production #this either moves production on to modify, retrieve etc. (see RHSCONVENTIONS for the list), or it appends that process to the processes that have to be done as an extra process by model, i.e., not directly by productions (distinction made as in ACT-R)
+                time = (yield from production) or time #this either moves production on to modify, retrieve etc. (see RHSCONVENTIONS for the list), or it appends that process to the processes that have to be done as an extra process by model, i.e., not directly by productions (distinction made as in ACT-R)
 
         #this last part is strict harvesting
         if self.model_parameters["strict_harvesting"]:
@@ -746,6 +746,7 @@ class ProductionRules:
         created_elem = list(updated)[0]
         updated.state = updated._FREE
         yield Event(roundtime(time), name, f"WROTE A CHUNK: {str(created_elem)}")
+        return time #what the rule does next follows the overwriting
 
     def visualencode(self, name, visualbuffer, chunk, temp_actrvariables, time, extra_time, site):
         """
-- 
2.43.0


From 7e5c84291176e53cb755db4df6fe72aac9d47081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:10 +0000
Subject: [PATCH 73/78] fix: creating chunks in goal buffers does not need a
 declarative memory

---
 pyactr/model.py       | 2 +-
 pyactr/productions.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index 6c6a0e5..62ff5d9 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -317,7 +317,7 @@ class ACTRModel:
             if self.visbuffers:
                 self.__buffers.update(self.visbuffers)
             else:
-                dm = list(decmem.values())[0]
+                dm = next(iter(decmem.values()), None) #None if it is open which memory buffers use
                 self.__buffers["visual"] = vision.Visual(self.__env, dm) #adding vision buffers
                 self.__buffers["visual_location"] = vision.VisualLocation(self.__env, dm) #adding vision buffers
         
diff --git a/pyactr/productions.py b/pyactr/productions.py
index cfe100c..5f0eebb 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -741,7 +741,7 @@ class ProductionRules:
         if self.model_parameters['production_compilation']:
             slotvals[name] = self.created_slotvals(otherchunk)
 
-        updated.create(otherchunk, list(self.dm.values())[0], temp_actrvariables)
+        updated.create(otherchunk, None, temp_actrvariables)
 
         created_elem = list(updated)[0]
         updated.state = updated._FREE
@@ -770,14 +770,14 @@ class ProductionRules:
         updated.state = updated._BUSY
         slotvals = self.current_slotvals #another rule might fire before the request is done
         if isinstance(updated, goals.Goal):
-            yield from self.clear(name, updated, otherchunk, temp_actrvariables, time, freeing=False)
+            yield from self.clear(name, updated, None, temp_actrvariables, time, freeing=False)
             extra_time = utilities.calculate_setting_time(updated)
             time += extra_time
             yield Event(roundtime(time), name, self._UNKNOWN)
             if self.model_parameters['production_compilation']:
                 slotvals[name] = self.created_slotvals(otherchunk)
 
-            updated.create(otherchunk, list(self.dm.values())[0], temp_actrvariables)
+            updated.create(otherchunk, None, temp_actrvariables)
             created_elem = list(updated)[0]
             updated.state = updated._FREE
             yield Event(roundtime(time), name, f"CREATED A CHUNK: {str(created_elem)}")
-- 
2.43.0


From 95ef9839ef14c4b2c190216737c75dab46689948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:13 +0000
Subject: [PATCH 74/78] fix: the first simulation takes the memories of visual
 buffers into account as later ones do

---
 pyactr/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index 62ff5d9..82a3a33 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -298,6 +298,9 @@ class ACTRModel:
         kwargs are arguments that environment_process will be supplied with.
         """
 
+        if self.__env:
+            self.__buffers.update(self.visbuffers)
+
         if len(self.decmems) == 1:
             for key in self.__buffers:
                 self.__buffers[key].dm = self.decmem #if only one dm, let all buffers use it
@@ -314,9 +317,7 @@ class ACTRModel:
 
         if self.__env:
             self.__env.initial_time = initial_time #set the initial time of the environment to be the same as simulation
-            if self.visbuffers:
-                self.__buffers.update(self.visbuffers)
-            else:
+            if not self.visbuffers:
                 dm = next(iter(decmem.values()), None) #None if it is open which memory buffers use
                 self.__buffers["visual"] = vision.Visual(self.__env, dm) #adding vision buffers
                 self.__buffers["visual_location"] = vision.VisualLocation(self.__env, dm) #adding vision buffers
-- 
2.43.0


From d8165b63849f074f7c7c8aceb1151f4fe22b0f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:34 +0000
Subject: [PATCH 75/78] fix: a stimulus that appears when the first rule fires
 is noticed

---
 pyactr/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 69aed2d..03d93d8 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -74,7 +74,7 @@ class Simulation:
         
         self.__proc_activate = self.__simulation.event() #special event (lock) for procedural module
         
-        self.__procs_started = [] #list of processes that are started as a result of production rules
+        self.__procs_started = self.__pr.procs #list of processes that are started as a result of production rules
 
         #activate environment process, if environment present
         if self.__env:
-- 
2.43.0


From 723ebd76e77e36b82135accf0ffdb3740f76f0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:37 +0000
Subject: [PATCH 76/78] fix: start the environment at start_time

environment_process subtracted start_time from the initial time of the
simulation. Any positive start_time thus meant an event in the past, on
which the simulation crashed (ValueError: Negative delay). The first
stimulus now appears at start_time, as documented; requests made before
that find nothing on the screen.
---
 pyactr/environment.py | 8 ++++----
 pyactr/vision.py      | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyactr/environment.py b/pyactr/environment.py
index 80f056e..78b5908 100644
--- a/pyactr/environment.py
+++ b/pyactr/environment.py
@@ -60,7 +60,7 @@ class Environment:
         """
         return utilities.roundtime(time)
 
-    def environment_process(self, stimuli=None, triggers=None, times=1, start_time=0):
+    def environment_process(self, stimuli=None, triggers=None, times=1, start_time=None):
         """
         Example of environment process. Text appears, changes/disappers after run_time runs out.
 
@@ -68,7 +68,7 @@ class Environment:
         stimuli: list of stimuli
         triggers: list of triggers.
         times: how much time (in seconds) it takes before the screen is flushed and a new environment (next screen) appears
-        start_time: starting point of the first stimulus.
+        start_time: starting point of the first stimulus (by default, the start of the simulation).
 
         The length of triggers has to match the length of stimuli or one of them has to be of length 1.
 
@@ -78,8 +78,8 @@ class Environment:
         (Use this key with caution: visual_location searches cannot return an object if it contains
         an externally-visible attribute that is not present in the search)
         """
-        #subtract start_time from initial_time
-        start_time = self.initial_time - start_time
+        #the environment cannot start before the simulation does
+        start_time = self.initial_time if start_time is None else max(self.initial_time, start_time)
         #make all arguments iterables if they are not yet
         if isinstance(stimuli, str) or isinstance(stimuli, collections.abc.Mapping) or not isinstance(stimuli, collections.abc.Iterable):
             stimuli = [stimuli]
diff --git a/pyactr/vision.py b/pyactr/vision.py
index 3b8cf52..efc1ddf 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -115,7 +115,7 @@ class VisualLocation(buffers.Buffer):
         y_closest = float("inf")
         current_x = None
         current_y = None
-        for each in self.environment.stimulus:
+        for each in self.environment.stimulus or (): #nothing is on the screen before the first stimulus
 
             #extra test applied first
             try:
@@ -396,7 +396,7 @@ class Visual(buffers.Buffer):
         vis_delay = None
         stim = None
 
-        for each in self.environment.stimulus:
+        for each in self.environment.stimulus or (): #nothing is on the screen before the first stimulus
             try:
                 position = self.environment.stimulus[each]['position']
                 attended = (float(mod_attr_val['screen_pos'].values.screen_x.values), float(mod_attr_val['screen_pos'].values.screen_y.values))
-- 
2.43.0


From 72dc4f538a8a6005d9927e8abfb6c5084da3ac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:25 +0000
Subject: [PATCH 77/78] fix: do not compile rules of which the second tests
 what a pending request has not replaced yet

---
 pyactr/productions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 5f0eebb..3bf6949 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -409,6 +409,9 @@ class Productions(collections.UserDict):
             #if the second rule acts on the buffer while the request of the first rule is in progress -- do not compile
             elif utilities._RHSCONVENTIONS.get(updated2.get(buff)) in {"clear", "modify", "modify_request", "overwrite"}:
                 return False, False
+            #the same if the second rule tests what was in the buffer before the request of the first rule
+            elif utilities._RHSCONVENTIONS[updated[buff]] == "retrieveorset" and utilities._LHSCONVENTIONS_REVERSED["test"] + buff in pro2:
+                return False, False
 
         known = slotvals.copy() #what is known about the buffers after the first rule
         for key in tested:
-- 
2.43.0


From c7ade9c937626871fbb774fd4799307d2af568f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:44 +0000
Subject: [PATCH 78/78] fix: copies of retrieval buffers keep the similarities
 of their model

---
 pyactr/declarative.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 531006d..7b999c6 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -174,6 +174,7 @@ class DecMemBuffer(buffers.Buffer):
         copy_buffer = DecMemBuffer(dm, self._data.copy(), self.finst)
         copy_buffer.recent = self.recent.copy()
         copy_buffer.model_parameters = self.model_parameters.copy()
+        copy_buffer.similarities = self.similarities
         return copy_buffer
 
     def test(self, state, inquiry):
-- 
2.43.0

