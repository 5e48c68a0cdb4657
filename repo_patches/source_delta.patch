From 8ee000e3936dfd25732facdb87d42f7f17ff629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:32 +0000
Subject: [PATCH 01/49] fix: align the states of shared variables when
 combining numpy stores

---
 bcause/factors/values/numpyops.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bcause/factors/values/numpyops.py b/bcause/factors/values/numpyops.py
index 2613968..f6690cd 100644
--- a/bcause/factors/values/numpyops.py
+++ b/bcause/factors/values/numpyops.py
@@ -35,6 +35,11 @@ class NumpyStoreOperations(OperationSet):
 
         new_domain = OrderedDict({**op1.domain, **op2.domain})
 
+        # Set the same state order in the shared variables
+        for v in op1.variables:
+            if op1.domain[v] != new_domain[v]:
+                op1 = NumpyStoreOperations._reorder_states(op1, v, new_domain[v])
+
         # Extend domains if needed
         if len(op1.variables) < len(new_domain):
             op1 = NumpyStoreOperations._extend_domain(op1, **new_domain)
@@ -69,6 +74,14 @@ class NumpyStoreOperations(OperationSet):
         # create new object
         return store.builder(data = new_data, domain = new_dom)
 
+    @staticmethod
+    def _reorder_states(store, var, new_states) -> 'NumpyStore':
+        old_states = list(store.domain[var])
+        idx = [old_states.index(s) for s in new_states]
+        new_data = np.take(store.data, idx, axis=store.get_var_index(var))
+        new_dom = OrderedDict([(v, d if v != var else new_states) for v, d in store.domain.items()])
+        return store.builder(data=new_data, domain=new_dom)
+
     @staticmethod
     def _extend_domain(store, **extra_dom) -> 'NumpyStore':
 
-- 
2.43.0


From 5ac7f3209996ad0844b8a6a9f198444503ee3b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:33 +0000
Subject: [PATCH 02/49] fix: restriction to lists of states keeps each state
 with its own values

---
 bcause/factors/values/numpyops.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bcause/factors/values/numpyops.py b/bcause/factors/values/numpyops.py
index f6690cd..f2c3e4f 100644
--- a/bcause/factors/values/numpyops.py
+++ b/bcause/factors/values/numpyops.py
@@ -113,8 +113,9 @@ class NumpyStoreOperations(OperationSet):
 
     @staticmethod
     def restrict(store : 'NumpyStore', observation:dict) -> 'NumpyStore':
-        items = []
+        new_data = store.data
         new_dom = OrderedDict()
+        axis = 0
         for v in store.variables:
             if v in observation.keys():
                 obs_v = observation[v]
@@ -123,14 +124,13 @@ class NumpyStoreOperations(OperationSet):
 
                 if not isinstance(obs_v, list):
                     idx = np.where(np.array(store.domain[v]) == obs_v)[0][0]
-                    items.append(idx)
+                    new_data = np.take(new_data, idx, axis=axis)
                 else:
-                    idx = [np.where(np.array(store.domain[v]) == x)[0][0] for x in obs_v]
-                    items.append(idx)
                     new_dom[v] = [x for x in store.domain[v] if x in obs_v]
+                    idx = [np.where(np.array(store.domain[v]) == x)[0][0] for x in new_dom[v]]
+                    new_data = np.take(new_data, idx, axis=axis)
+                    axis += 1
             else:
-                items.append(slice(None))
                 new_dom[v] = store.domain[v]
-        new_data = store._data[tuple(items)].copy()
-        return store.builder(domain=new_dom, data=new_data)
-
+                axis += 1
+        return store.builder(domain=new_dom, data=np.array(new_data))
-- 
2.43.0


From 6d503d69381e7c776d3fa8745b594763fcff6f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:33 +0000
Subject: [PATCH 03/49] fix: look states up by equality so that tuple and other
 hashable labels work

---
 bcause/factors/values/numpyops.py   | 4 ++--
 bcause/factors/values/numpystore.py | 2 +-
 bcause/util/domainutils.py          | 2 +-
 bcause/util/treesutil.py            | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/bcause/factors/values/numpyops.py b/bcause/factors/values/numpyops.py
index f2c3e4f..ad1cb61 100644
--- a/bcause/factors/values/numpyops.py
+++ b/bcause/factors/values/numpyops.py
@@ -123,11 +123,11 @@ class NumpyStoreOperations(OperationSet):
                     obs_v = obs_v[0]
 
                 if not isinstance(obs_v, list):
-                    idx = np.where(np.array(store.domain[v]) == obs_v)[0][0]
+                    idx = list(store.domain[v]).index(obs_v)
                     new_data = np.take(new_data, idx, axis=axis)
                 else:
                     new_dom[v] = [x for x in store.domain[v] if x in obs_v]
-                    idx = [np.where(np.array(store.domain[v]) == x)[0][0] for x in new_dom[v]]
+                    idx = [list(store.domain[v]).index(x) for x in new_dom[v]]
                     new_data = np.take(new_data, idx, axis=axis)
                     axis += 1
             else:
diff --git a/bcause/factors/values/numpystore.py b/bcause/factors/values/numpystore.py
index bf66303..58f45d0 100644
--- a/bcause/factors/values/numpystore.py
+++ b/bcause/factors/values/numpystore.py
@@ -41,7 +41,7 @@ class NumpyStore(DiscreteStore):
     def set_value(self, value, observation):
         items = []
         for v in self.variables:
-            idx = np.where(np.array(self.domain[v]) == observation[v])[0][0]
+            idx = list(self.domain[v]).index(observation[v])
             items.append(idx)
         self._data[tuple(items)] = value
 
diff --git a/bcause/util/domainutils.py b/bcause/util/domainutils.py
index d8e7039..d200971 100644
--- a/bcause/util/domainutils.py
+++ b/bcause/util/domainutils.py
@@ -44,7 +44,7 @@ def restrict_domain(domain, observation):
 
 
 def values_to_coord(domain, observation):
-    return {v:np.where(np.array(domain[v]) == s)[0][0] for v,s in observation.items() if v in domain}
+    return {v:list(domain[v]).index(s) for v,s in observation.items() if v in domain}
 
 
 def to_numeric_domains(domain):
diff --git a/bcause/util/treesutil.py b/bcause/util/treesutil.py
index d965ded..9fc3b83 100644
--- a/bcause/util/treesutil.py
+++ b/bcause/util/treesutil.py
@@ -26,7 +26,7 @@ def build_default_tree(dom, data):
 
     var = variables[0]
     if len(variables)==1:
-        return treeNode(var = var,  children = dict(zip(np.ravel(list(dom.values())), np.ravel(data))))
+        return treeNode(var = var,  children = dict(zip(dom[var], np.ravel(data))))
 
     inner_dom =  {v:s for v,s in dom.items() if v != var}
     inner_size = reduce(lambda x,y: x*y, [len(s) for s in inner_dom.values()])
-- 
2.43.0


From 806b4a287627d88372b5d7225394ff78dbe87ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:33 +0000
Subject: [PATCH 04/49] fix: accept numbers (numpy ones included) on either
 side of factor operations

---
 bcause/factors/mulitnomial.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index ad64d51..9ad9c6d 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import logging
 import math
+import numbers
 from collections import OrderedDict
 from functools import reduce
 from typing import Dict, List, Iterable, Union, Hashable
@@ -77,7 +78,7 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
 
     def _prepare_operand(self, f):
         # if it's a scalar, transform it in a constant factor
-        if type(f) in [int,float]: f = self.builder(domain=dict(), values=[f])
+        if isinstance(f, numbers.Number): f = self.builder(domain=dict(), values=[f])
         return f
 
     def multiply(self, other : Union[MultinomialFactor, int, float]):
@@ -169,25 +170,25 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         return self.multiply(other)
 
     def __rmul__(self, other):
-        return other.multiply(self)
+        return self._prepare_operand(other).multiply(self)
 
     def __add__(self, other):
         return self.addition(other)
 
     def __radd__(self, other):
-        return other.addition(self)
+        return self._prepare_operand(other).addition(self)
 
     def __sub__(self, other):
         return self.subtract(other)
 
     def __rsub__(self, other):
-        return other.subtract(self)
+        return self._prepare_operand(other).subtract(self)
 
     def __truediv__(self, other):
         return self.divide(other)
 
     def __rtruediv__(self, other):
-        return other.divide(self)
+        return self._prepare_operand(other).divide(self)
 
 
     def __xor__(self, vars_remove):
-- 
2.43.0


From f674830ed45941aeebe11c11f3d1d6009605b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:06 +0000
Subject: [PATCH 05/49] fix: compile queries without evidence

---
 bcause/inference/probabilistic/datainference.py | 3 ++-
 bcause/inference/probabilistic/probabilistic.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bcause/inference/probabilistic/datainference.py b/bcause/inference/probabilistic/datainference.py
index b0be195..01009b7 100644
--- a/bcause/inference/probabilistic/datainference.py
+++ b/bcause/inference/probabilistic/datainference.py
@@ -18,13 +18,14 @@ class LaplaceInference(ProbabilisticInference):
         super(self.__class__, self).__init__(data)
     def compile(self, target, evidence=None) -> Inference:
 
+        evidence = evidence or dict()
         target = as_lists(target)
         if len(set(target)) != len(target): raise ValueError("Repeated variables in target")
         if not set(target).isdisjoint(evidence.keys()):
             raise ValueError(f"Target {target} and evidence are not disjoint {evidence.keys()}")
 
         self._target = target
-        self._evidence = evidence or dict()
+        self._evidence = evidence
         logging.info(f"Starting inference: target={str(target)} evidence={str(evidence)}")
 
         self._inference_model = self._preprocess()
diff --git a/bcause/inference/probabilistic/probabilistic.py b/bcause/inference/probabilistic/probabilistic.py
index 245eb76..76862c9 100644
--- a/bcause/inference/probabilistic/probabilistic.py
+++ b/bcause/inference/probabilistic/probabilistic.py
@@ -17,13 +17,14 @@ class ProbabilisticInference(Inference):
 
     def compile(self, target, evidence=None) -> Inference:
 
+        evidence = evidence or dict()
         target = as_lists(target)
         if len(set(target)) != len(target): raise ValueError("Repeated variables in target")
         if not set(target).isdisjoint(evidence.keys()):
             raise ValueError(f"Target {target} and evidence are not disjoint {evidence.keys()}")
 
         self._target = target
-        self._evidence = evidence or dict()
+        self._evidence = evidence
         logging.info(f"Starting inference: target={str(target)} evidence={str(evidence)}")
         assert_dag_with_nodes(self.model.graph, self._target | self._evidence.keys())
 
-- 
2.43.0


From 57b83bec2066896bda4c2e1bf1cc195803267a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:41 +0000
Subject: [PATCH 06/49] fix: submodel passes its arguments by name, as builders
 require

---
 bcause/models/pgmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/pgmodel.py b/bcause/models/pgmodel.py
index 53d2f2c..747469a 100644
--- a/bcause/models/pgmodel.py
+++ b/bcause/models/pgmodel.py
@@ -180,7 +180,7 @@ class DiscreteDAGModel(PGModel):
     def submodel(self, nodes:list) -> DiscreteDAGModel:
         new_dag = self.graph.subgraph(nodes)
         new_factors = {x: f for x, f in self.factors.items() if x in nodes}
-        return self.builder(new_dag, new_factors)
+        return self.builder(dag=new_dag, factors=new_factors)
 
     def rename_vars(self, names_mapping: dict) -> DiscreteDAGModel:
         logging.debug(f"Renaming variables as {names_mapping}")
-- 
2.43.0


From a71e265d520e3ed65f612375b0af400a05e385a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:17 +0000
Subject: [PATCH 07/49] fix: casting a causal model to tables keeps its
 endogenous variables

---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 0011e02..5793a24 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -183,7 +183,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
         super().set_factor(var, f)
 
     def to_multinomial(self) -> StructuralCausalModel:
-        return StructuralCausalModel(dag=self.graph, factors=self.factors, cast_multinomial=True)
+        return StructuralCausalModel(dag=self.graph, factors=self.factors, endogenous=self.endogenous, cast_multinomial=True)
 
     @property
     def has_deterministic(self):
-- 
2.43.0


From 52fc2421fc894caa729be93dfabf55fcd60d529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:17 +0000
Subject: [PATCH 08/49] fix: a causal model can be renamed partially

---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 5793a24..d65447a 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -201,7 +201,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
         logging.debug(f"Renaming variables as {names_mapping}")
         new_dag = relabel_nodes(self.graph, names_mapping)
         new_factors = [f.rename_vars(names_mapping) for f in self.factors.values()]
-        new_endogenous = [names_mapping[x] for x in self.endogenous]
+        new_endogenous = [names_mapping.get(x, x) for x in self.endogenous]
         return StructuralCausalModel(dag=new_dag, factors=new_factors, endogenous=new_endogenous, cast_multinomial=self._cast_multinomial)
 
 
-- 
2.43.0


From f2808cd64246d975b3d0fc7b556a9cf85660230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:17 +0000
Subject: [PATCH 09/49] fix: fusing models keeps the nodes without arcs of all
 of them

---
 bcause/models/transform/combination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/transform/combination.py b/bcause/models/transform/combination.py
index 5b0ee4d..2eedec5 100644
--- a/bcause/models/transform/combination.py
+++ b/bcause/models/transform/combination.py
@@ -14,9 +14,9 @@ def fusion_roots(models, on, **builder_kargs):
         raise ValueError("All models when fusion must all of the same type")
 
     new_dag = nx.DiGraph()
-    for v in models[0].variables: new_dag.add_node(v)
     new_factors = models[0].get_factors(*on)
     for m in models:
+        for v in m.variables: new_dag.add_node(v)
         for x ,y in m.graph.edges: new_dag.add_edge(x ,y)
         new_factors.extend(m.get_factors(*set(m.variables).difference(on)))
 
-- 
2.43.0


From c90eed4eca1deb694ab5fba6ada357eb2a21fee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:39 +0000
Subject: [PATCH 10/49] fix: identify true and false in boolean domains

---
 bcause/util/domainutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/util/domainutils.py b/bcause/util/domainutils.py
index d200971..e1f052e 100644
--- a/bcause/util/domainutils.py
+++ b/bcause/util/domainutils.py
@@ -100,7 +100,7 @@ def identify_true_false(varname, dom):
     if len(set(dtypes))>1: raise ValueError("Cannot identify true/false states: different data types")
 
     tf = []
-    if dtypes[0] in [int, float]:
+    if dtypes[0] in [int, float, bool]:
         tf = [d for d in dom if d==True] + [d for d in dom if d==False]
     elif dtypes[0] == str:
         tf = [d for d in dom if d.lower() == varname.lower()+"1"] + [d for d in dom if d.lower() == varname.lower()+"0"] + [d for d in dom if d.lower() == varname.lower()+"2"]
-- 
2.43.0


From 18d4feabe16aad25496520e2d85391b5b14d14ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:52 +0000
Subject: [PATCH 11/49] fix: c-components include the variables without
 exogenous arcs

---
 bcause/models/cmodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index d65447a..ec65049 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -75,7 +75,10 @@ class DiscreteCausalDAGModel(DiscreteDAGModel):
         :return: object of class nx.DiGraph
         '''
         exo_edges = [(x,y) for x,y in self.graph.edges if self.is_exogenous(x)]
-        return DiGraph(self.graph.edge_subgraph(exo_edges).edges)
+        g = DiGraph()
+        g.add_nodes_from(self.graph.nodes)
+        g.add_edges_from(exo_edges)
+        return g
 
     @property
     def ccomponents(self):
-- 
2.43.0


From 236e1044e1ff1d114794bdcab28272d68c70eb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:52 +0000
Subject: [PATCH 12/49] fix: the graph of the c-component factorisation is
 acyclic

---
 bcause/models/info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/info.py b/bcause/models/info.py
index a7a4f44..38a2b10 100644
--- a/bcause/models/info.py
+++ b/bcause/models/info.py
@@ -37,7 +37,7 @@ def get_qgraph(model:DiscreteCausalDAGModel):
         for i in range(len(c_comp)):
             x = c_comp[i]
             for p in list(pa_c) + c_comp[0:i]:
-                if p not in nx.descendants(model.endo_graph, x):
+                if order.index(p) < order.index(x):
                     g.add_edge(p, x)
 
     return g
-- 
2.43.0


From e573e871e965c2f0335309907ec68feb40bae68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:37 +0000
Subject: [PATCH 13/49] fix: count the missing cells under their own state

---
 bcause/util/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/util/datautils.py b/bcause/util/datautils.py
index b68b491..3903e62 100644
--- a/bcause/util/datautils.py
+++ b/bcause/util/datautils.py
@@ -6,13 +6,13 @@ def to_counts(domains, data=None, normalize=False):
     domains = domains.copy()
     if data is not None:
         data = data[list(domains.keys())]
-        dcounts = data.value_counts(dropna=False).to_dict()
         # Add None where missing values
         for x in [v for v in data.columns if data.isna().any()[v]]:
             if not all([type(v)==str for v in domains[x]]):
                 raise ValueError("Missing values are only compatible in variables with str-like domains")
             domains[x] = domains[x] + ["nan"]
         data = data.fillna("nan")
+        dcounts = data.value_counts().to_dict()
     else:
         dcounts = dict()
 
-- 
2.43.0


From 2165d57614b937b384a0251f2fc6981f9794337b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:01 +0000
Subject: [PATCH 14/49] fix: learning leaves the caller's data as it was

---
 bcause/learning/parameter/expectation_maximization.py | 1 +
 bcause/learning/parameter/gradient.py                 | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index e4d2924..0dc13d1 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -78,6 +78,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
 
     def _process_data(self, data: pd.DataFrame):
         # add missing variables
+        data = data.copy()
         missing_vars = [v for v in self.prior_model.variables if v not in data.columns]
         for v in missing_vars: data[v] = float("nan")
 
diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index c7873fe..595e3c4 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -150,6 +150,7 @@ class GradientLikelihood(IterativeParameterLearning):
 
     def _process_data(self, data: pd.DataFrame):
         # add missing variables
+        data = data.copy()
         missing_vars = [v for v in self.prior_model.variables if v not in data.columns]
         for v in missing_vars: data[v] = float("nan")
 
-- 
2.43.0


From f6416a927a8562b6b84c66697731ab52c4e3064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:01 +0000
Subject: [PATCH 15/49] fix: EM assigns the expected counts to the observed
 states only

---
 bcause/learning/parameter/expectation_maximization.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index 0dc13d1..d7921ed 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -64,7 +64,12 @@ class ExpectationMaximization(AbastractExpectationMaximization):
                 hidden = [x for x in relevant if x not in obs]
 
                 #print(f"{hidden} | {obs}")
-                exp_counts = self._inf.query(target=hidden, evidence=obs) * c
+                exp_counts = self._inf.query(target=hidden, evidence=obs) * c if hidden else c
+                # expected counts belong to the observed states only
+                for x in relevant:
+                    if x in obs:
+                        dom = self._prior_model.domains[x]
+                        exp_counts = MultinomialFactor({x: dom}, [1.0 if s == obs[x] else 0.0 for s in dom]) * exp_counts
                 pcounts[v] = pcounts[v] + exp_counts
 
         return pcounts
-- 
2.43.0


From 17a1aea50532bf2e633e4b054e10222bceb96832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:45 +0000
Subject: [PATCH 16/49] fix: EM counts each record once when cells are missing

---
 .../parameter/expectation_maximization.py     |  6 +----
 bcause/util/datadeps.py                       | 22 ++++++++++++++-----
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index d7921ed..e60585f 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -1,5 +1,4 @@
 from abc import abstractmethod
-from functools import reduce
 
 import pandas as pd
 
@@ -48,10 +47,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         self._converged_vars = set()
 
     def _get_obs_counts(self, target):
-        obs_blanket = self._datadeps.get_minimal_obs_blanket(target)
-        return [(obs, sum(reduce( lambda x,y : x&y, [self._data[v] == s for v,s in obs.items()]))) for obs in obs_blanket]
-
-
+        return self._datadeps.get_obs_counts(target)
 
     def _expectation(self, **kwargs):
         #print("===")
diff --git a/bcause/util/datadeps.py b/bcause/util/datadeps.py
index 375ba6f..d4b01ac 100644
--- a/bcause/util/datadeps.py
+++ b/bcause/util/datadeps.py
@@ -5,7 +5,7 @@ import networkx as nx
 import numpy as np
 import pandas as pd
 
-from functools import cache
+from functools import cache, reduce
 
 import bcause as bc
 from bcause.models.cmodel import StructuralCausalModel
@@ -26,14 +26,24 @@ class DataDepAnalysis(object):
 
 
 
+    def get_minimal_obs(self, target, record):
+        evidence_vars = [v for v in record.keys() if not pd.isna(record[v])]
+        connected_vars = dcon_nodes(self._dag, target, evidence_vars) | {target}
+        return {k: v for k, v in record.items() if k in connected_vars and k in evidence_vars}
+
     @cache
     def get_minimal_obs_blanket(self, target):
-        def dsep_filter(d):
-            evidence_vars = [v for v in d.keys() if not pd.isna(d[v])]
-            connected_vars = dcon_nodes(self._dag, target, evidence_vars) | {target}
-            return {k: v for k, v in d.items() if k in connected_vars and k in evidence_vars}
+        return self.__obs_unique([self.get_minimal_obs(target, d) for d in self._data_unique])
 
-        return self.__obs_unique([dsep_filter(d) for d in self._data_unique])
+    @cache
+    def get_obs_counts(self, target):
+        counts = [[obs, 0] for obs in self.get_minimal_obs_blanket(target)]
+        for d in self._data_unique:
+            # records with the same observed values and the same missing cells
+            equal = [self._data[v].isna() if pd.isna(s) else self._data[v] == s for v, s in d.items()]
+            obs = self.get_minimal_obs(target, d)
+            next(c for c in counts if c[0] == obs)[1] += sum(reduce(lambda x, y: x & y, equal))
+        return [(obs, n) for obs, n in counts]
 
     @staticmethod
     def __obs_unique(obs_list):
-- 
2.43.0


From a66f2f6083a5819f7a6b6b7f0795e9d5692516a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:25 +0000
Subject: [PATCH 17/49] fix: EM keeps updating every trainable variable and
 starts afresh on each run

---
 .../parameter/expectation_maximization.py      | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index e60585f..2703af4 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -22,6 +22,7 @@ class AbastractExpectationMaximization(IterativeParameterLearning):
 
     def initialize(self, data: pd.DataFrame, **kwargs):
         self._model = self.prior_model.copy()
+        self._model_evolution = [self.prior_model]
         self._process_data(data)
 
     def _calculate_updated_factors(self):
@@ -53,7 +54,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         #print("===")
         self._inf = self._inference_method(self._model)
         pcounts = self._get_pseudocounts_dict()
-        for v in set(self.trainable_vars).difference(self._converged_vars):
+        for v in self.trainable_vars:
 
             for obs, c in self._get_obs_counts(v):
                 relevant = [v] + self._prior_model.get_parents(v)
@@ -72,7 +73,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
 
     def _maximization(self, pcounts, **kwargs):
         new_probs = dict()
-        for v in set(self.trainable_vars).difference(self._converged_vars):
+        for v in self.trainable_vars:
             joint_counts = pcounts[v]
             new_probs[v] = joint_counts / (joint_counts.marginalize(v))
         return new_probs
@@ -93,13 +94,14 @@ class ExpectationMaximization(AbastractExpectationMaximization):
     def _stop_learning(self) -> bool:
         from scipy.special import rel_entr
 
+        # a variable that did not change in this step may still do so when the others change
+        self._converged_vars = set()
         for v in self._trainable_vars:
-            if v not in self._converged_vars:
-                P = self.model_evolution[-2].factors[v]
-                Q = self.model_evolution[-1].factors[v]
-                kl_div = sum(rel_entr(P.values, Q.values))
-                if kl_div == 0:
-                    self._converged_vars = self._converged_vars | {v}
+            P = self.model_evolution[-2].factors[v]
+            Q = self.model_evolution[-1].factors[v]
+            kl_div = sum(rel_entr(P.values, Q.values))
+            if kl_div == 0:
+                self._converged_vars = self._converged_vars | {v}
         return set(self._trainable_vars) == self._converged_vars
 
 
-- 
2.43.0


From c279984c2239b7c9346ee2914736af7004ad5d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:04 +0000
Subject: [PATCH 18/49] fix: domains of a variable given by name are those of
 that variable only

---
 bcause/models/pgmodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bcause/models/pgmodel.py b/bcause/models/pgmodel.py
index 747469a..247c283 100644
--- a/bcause/models/pgmodel.py
+++ b/bcause/models/pgmodel.py
@@ -138,9 +138,11 @@ class DiscreteDAGModel(PGModel):
 
 
     def get_domains(self, variables):
+        if isinstance(variables, str): variables = [variables]
         return {v:d for v,d in self._domains.items() if v in variables}
 
     def get_varsizes(self, variables):
+        if isinstance(variables, str): variables = [variables]
         return {v:len(d) for v,d in self._domains.items() if v in variables}
 
 
-- 
2.43.0


From 61d257bca2b2774300cc1ea9f8d93783b3ab4969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:04 +0000
Subject: [PATCH 19/49] fix: a causal model can be given its DAG as a string

---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index ec65049..f562172 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -151,7 +151,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
     def __init__(self, dag:Union[nx.DiGraph,str], factors:Union[dict,list] = None, endogenous:Iterable = None,
                  cast_multinomial:bool = True, check_factors:bool = True):
         self._initialize(dag)
-        self._endogenous = endogenous or [x for x in dag if len(list(dag.predecessors(x)))>0]
+        self._endogenous = endogenous or [x for x in self.graph if len(list(self.graph.predecessors(x)))>0]
         self._cast_multinomial = cast_multinomial
         self._check_factors = check_factors
 
-- 
2.43.0


From 1c67ed44d511cee643f90f9e2c041ecb4a4264ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:42 +0000
Subject: [PATCH 20/49] fix: DAG strings keep the nodes without arcs

---
 bcause/util/graphutils.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/bcause/util/graphutils.py b/bcause/util/graphutils.py
index ea2bc2e..05a03f9 100644
--- a/bcause/util/graphutils.py
+++ b/bcause/util/graphutils.py
@@ -20,15 +20,14 @@ def dag2str(dag: nx.DiGraph) -> str:
 
 
 def str2dag(str_dag: str) -> nx.DiGraph:
-    arcs = []
-    s = str_dag[1:-1].split("][")[1]
+    dag = nx.DiGraph()
     for s in str_dag[1:-1].split("]["):
-        if "|" in s:
-            x, right_vars = s.split("|")
-            for y in right_vars.split(":"):
-                arcs.append((y, x))
+        x, *right_vars = s.split("|")
+        dag.add_node(x)
+        for y in right_vars[0].split(":") if right_vars else []:
+            dag.add_edge(y, x)
 
-    return nx.DiGraph(arcs)
+    return dag
 
 
 def _barren_info(dag: nx.DiGraph, S=None):
-- 
2.43.0


From 7c28770e271616dd8d4c5f12e9d98e666bb9a80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:52 +0000
Subject: [PATCH 21/49] fix: gradient learner's objective with several
 exogenous parents

---
 bcause/learning/parameter/gradient.py | 29 ++++++++++++++++++---------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index 595e3c4..373ebda 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -71,6 +71,9 @@ class GradientLikelihood(IterativeParameterLearning):
 
         # get the quantities named as in our paper
         bmV = m.get_edogenous_children(U)
+        # children with further exogenous parents share their likelihood with the whole c-component
+        if any(len(m.get_exogenous_parents(V)) > 1 for V in bmV):
+            bmV = list(m.get_endo_ccomponent(U))
         bmY = self._get_bmY(bmV, m)
 
         # compute N[\bmv,\bmy] and \prod_{V \in \bmV} P(v | pa_V) from the paper
@@ -123,22 +126,28 @@ class GradientLikelihood(IterativeParameterLearning):
     def _compute_P(self, bmv: Dict, bmy: Dict, m: Any, U: str, bmV: List[str], bmY: List[str]) -> Dict:
         # compute \prod_{V \in \bmV} P(v|Pa(V))
         P = {}
+        # the other exogenous parents (none in quasi-Markovian models) are averaged out with their current PMFs
+        others = [W for W in m.get_parents(*bmV) if m.is_exogenous(W) and W != U]
         for u in m.get_domains(U)[U]:
-            prod_P_v_pav = 1 # As the product of P(v|Pa(V)) \in {0, 1}, so we initiate the value to 1.
-                             # If we find any P(v|Pa(V)) = 0, we stop the computation as it must be that \prod_{V \in \bmV} P(v|Pa(V)) = 0   
-            for V in bmV:
-                P_v_pav_key = self._get_P_v_pav_key(bmv, bmy, m, u, V, bmV, bmY)
-                if m.factors[V].values_dict[tuple(P_v_pav_key)] == 0: # TODO: Rafa, please initiate values_dict in MultinomialFactor in order to contain Integer (binary) only values!
-                    prod_P_v_pav = 0
-                    break # once we got 0, the product must be zero, so we finish immediately
-            P[u] = prod_P_v_pav
+            P[u] = 0
+            for exo in assingment_space(m.get_domains(others)):
+                prod_P_v_pav = 1 # As the product of P(v|Pa(V)) \in {0, 1}, so we initiate the value to 1.
+                                 # If we find any P(v|Pa(V)) = 0, we stop the computation as it must be that \prod_{V \in \bmV} P(v|Pa(V)) = 0   
+                for W in others:
+                    prod_P_v_pav = prod_P_v_pav * m.factors[W].get_value(**{W: exo[W]})
+                for V in bmV:
+                    P_v_pav_key = self._get_P_v_pav_key(bmv, bmy, m, {**exo, U: u}, V, bmV, bmY)
+                    if m.factors[V].values_dict[tuple(P_v_pav_key)] == 0: # TODO: Rafa, please initiate values_dict in MultinomialFactor in order to contain Integer (binary) only values!
+                        prod_P_v_pav = 0
+                        break # once we got 0, the product must be zero, so we finish immediately
+                P[u] = P[u] + prod_P_v_pav
         return P
 
-    def _get_P_v_pav_key(self, bmv: Dict, bmy: Dict, m: Any, u: str, V: str, bmV: List[str], bmY: List[str]) -> List[Tuple[str, Any]]:
+    def _get_P_v_pav_key(self, bmv: Dict, bmy: Dict, m: Any, exo: Dict, V: str, bmV: List[str], bmY: List[str]) -> List[Tuple[str, Any]]:
         P_v_pav_key = []
         for var in m.factors[V].variables:
             if var in m.exogenous:
-                key = (var, u)
+                key = (var, exo[var])
             elif var in bmV:
                 key = (var, bmv[var])
             elif var in bmY:
-- 
2.43.0


From e7d7f5d6f9f4056014cfc531a22fea60e6ec8ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:15 +0000
Subject: [PATCH 22/49] fix: adding models to an inference leaves the caller's
 list alone

---
 bcause/inference/causal/multi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/inference/causal/multi.py b/bcause/inference/causal/multi.py
index 5f10039..1fea3f4 100644
--- a/bcause/inference/causal/multi.py
+++ b/bcause/inference/causal/multi.py
@@ -28,7 +28,7 @@ class CausalMultiInference(CausalInference):
         return self._models
 
     def set_models(self, models: list[StructuralCausalModel]):
-        self._models = models or []
+        self._models = list(models or [])
         self._compiled = False
 
     def add_models(self, models: list[StructuralCausalModel]):
-- 
2.43.0


From 5a2198b23f9ebc9a231b0f446ffe69beddf2c9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:15 +0000
Subject: [PATCH 23/49] fix: probabilities of causation over several models as
 the first query

---
 bcause/inference/causal/multi.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bcause/inference/causal/multi.py b/bcause/inference/causal/multi.py
index 1fea3f4..5669a96 100644
--- a/bcause/inference/causal/multi.py
+++ b/bcause/inference/causal/multi.py
@@ -27,6 +27,11 @@ class CausalMultiInference(CausalInference):
     def models(self) -> list[StructuralCausalModel]:
         return self._models
 
+    @property
+    def model(self) -> StructuralCausalModel:
+        if not self._compiled: self.compile()
+        return self._model
+
     def set_models(self, models: list[StructuralCausalModel]):
         self._models = list(models or [])
         self._compiled = False
-- 
2.43.0


From a69c4e6ea04421c8c1622f9ea4df2e42a6fdb204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:26 +0000
Subject: [PATCH 24/49] fix: UAI readers keep the nodes without arcs and parse
 any printed number

---
 bcause/readwrite/bnread.py  | 3 ++-
 bcause/readwrite/scmread.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bcause/readwrite/bnread.py b/bcause/readwrite/bnread.py
index cc76063..8eab08a 100644
--- a/bcause/readwrite/bnread.py
+++ b/bcause/readwrite/bnread.py
@@ -48,7 +48,7 @@ def from_uai(filepath, reverse_values=True, var_prefix="V", init_var_id=0, init_
     def get_numbers(path):
         with open(path) as f:
             for line in f:
-                for v in re.findall(r"[-+]?(?:\d*\.*\d+)", line):
+                for v in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", line):
                     yield v
 
     numbers = get_numbers(filepath)
@@ -73,6 +73,7 @@ def from_uai(filepath, reverse_values=True, var_prefix="V", init_var_id=0, init_
         assert varnames[int(next(numbers))] == v
 
     dag = nx.DiGraph(arcs)
+    dag.add_nodes_from(varnames)
 
     # factors in the model
     factors = dict()
diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index baec44d..c9820d9 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -36,7 +36,7 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
     def get_numbers(path):
         with open(path) as f:
             for line in f:
-                for v in re.findall(r"[-+]?(?:\d*\.*\d+E?[-+]?\d*)", line):
+                for v in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", line):
                     yield v
 
     numbers = get_numbers(filepath)
@@ -61,6 +61,7 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
         assert varnames[int(next(numbers))] == v
 
     dag = nx.DiGraph(arcs)
+    dag.add_nodes_from(varnames)
 
     # factors in the model
     factors = dict()
-- 
2.43.0


From c7ec1fa4f8714299189d24bb7a1b2d5e683d86c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:58 +0000
Subject: [PATCH 25/49] fix: UAI readers do not mistake parents whose name is
 part of the child's

---
 bcause/readwrite/bnread.py  | 2 +-
 bcause/readwrite/scmread.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bcause/readwrite/bnread.py b/bcause/readwrite/bnread.py
index 8eab08a..dbf48ad 100644
--- a/bcause/readwrite/bnread.py
+++ b/bcause/readwrite/bnread.py
@@ -80,6 +80,6 @@ def from_uai(filepath, reverse_values=True, var_prefix="V", init_var_id=0, init_
     for v in varnames:
         num_values = int(next(numbers))
         values = [float(next(numbers)) for _ in range(num_values)]
-        factors[v] = MultinomialFactor(dutils.var_parents_domain(dom, dag, v), left_vars=v, values=values)
+        factors[v] = MultinomialFactor(dutils.var_parents_domain(dom, dag, v), left_vars=[v], values=values)
 
     return BayesianNetwork(dag, factors)
diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index c9820d9..362f0a1 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -69,9 +69,9 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
         num_values = int(next(numbers))
         values = [float(next(numbers)) for _ in range(num_values)]
         if len(list(dag.predecessors(v))) == 0:
-            factors[v] = MultinomialFactor(dutils.var_parents_domain(dom, dag, v), left_vars=v, values=values)
+            factors[v] = MultinomialFactor(dutils.var_parents_domain(dom, dag, v), left_vars=[v], values=values)
         else:
-            factors[v] = DeterministicFactor(dutils.var_parents_domain(dom, dag, v), left_vars=v, values=values)
+            factors[v] = DeterministicFactor(dutils.var_parents_domain(dom, dag, v), left_vars=[v], values=values)
 
     from bcause.models.cmodel import StructuralCausalModel
 
-- 
2.43.0


From fa1a0a03a719b351367d696342120b2dc3b2c4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:41 +0000
Subject: [PATCH 26/49] fix: tables turn into equations over the states and UAI
 files hold their positions

---
 bcause/factors/mulitnomial.py | 3 ++-
 bcause/readwrite/bnwrite.py   | 5 ++++-
 bcause/readwrite/scmread.py   | 1 +
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index 9ad9c6d..014cf2b 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -46,7 +46,8 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
             raise ValueError("Wrong number of variables on the left")
 
         v = self.left_vars[0]
-        values = self.values_array().argmax(axis=self.variables.index(v))
+        idx = self.values_array().argmax(axis=self.variables.index(v))
+        values = [self.domain[v][i] for i in idx.flatten()]
         from bcause.factors import DeterministicFactor
         return DeterministicFactor(self.domain, left_vars=[v], values=values)
 
diff --git a/bcause/readwrite/bnwrite.py b/bcause/readwrite/bnwrite.py
index f08b478..f0ed188 100644
--- a/bcause/readwrite/bnwrite.py
+++ b/bcause/readwrite/bnwrite.py
@@ -68,7 +68,10 @@ def to_uai(model:'BayesianNetwork', filepath, reverse_values=False, label="BAYES
         # if not reverse_values:
         #     var_order = var_order[::-1]
         values = f.values_array(vorder).flatten()
-        if v in integer_varlist:
+        if isinstance(f, DeterministicFactor):
+            # equations are written with the positions of the states
+            values = [f.domain[v].index(p) for p in values]
+        elif v in integer_varlist:
             values = [int(p) for p in values]
         out += f"{len(values)}\t" + " ".join([str(p) for p in values]) + "\n"
 
diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index 362f0a1..5fe6bb6 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -71,6 +71,7 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
         if len(list(dag.predecessors(v))) == 0:
             factors[v] = MultinomialFactor(dutils.var_parents_domain(dom, dag, v), left_vars=[v], values=values)
         else:
+            values = [dom[v][int(i)] for i in values]
             factors[v] = DeterministicFactor(dutils.var_parents_domain(dom, dag, v), left_vars=[v], values=values)
 
     from bcause.models.cmodel import StructuralCausalModel
-- 
2.43.0


From acb30074e1d3fec4b95c74ed981bc27651659cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:34 +0000
Subject: [PATCH 27/49] fix: UAI files of causal models keep the equations of
 endogenous roots

---
 bcause/factors/deterministic.py |  2 +-
 bcause/factors/factor.py        |  2 +-
 bcause/readwrite/scmread.py     | 11 +++++++----
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/bcause/factors/deterministic.py b/bcause/factors/deterministic.py
index 92f8cda..ecf4b22 100644
--- a/bcause/factors/deterministic.py
+++ b/bcause/factors/deterministic.py
@@ -69,7 +69,7 @@ class DeterministicFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         return MultinomialFactor(self.domain, right_vars=self.right_vars, values=values, vtype=self.vtype)
 
     def values_array(self, var_order = None) -> np.array:
-        return super().values_array(var_order or self.right_vars)
+        return super().values_array(self.right_vars if var_order is None else var_order)
 
     def constant(self, left_value):
         new_dom = self.left_domain
diff --git a/bcause/factors/factor.py b/bcause/factors/factor.py
index e7cc9aa..233a5b0 100644
--- a/bcause/factors/factor.py
+++ b/bcause/factors/factor.py
@@ -100,7 +100,7 @@ class DiscreteFactor(Factor):
         return self.store.values_dict
 
     def values_array(self, var_order = None) -> np.array:
-        var_order  = var_order or list(self.domain.keys())
+        if var_order is None: var_order = list(self.domain.keys())
         dom_order = OrderedDict([(v,self.domain[v]) for v in var_order])
         shape = [len(dom_order[v]) for v in var_order]
         return np.array([self.store.get_value(**s)
diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index 5fe6bb6..7ecd63f 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -68,12 +68,15 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
     for v in varnames:
         num_values = int(next(numbers))
         values = [float(next(numbers)) for _ in range(num_values)]
-        if len(list(dag.predecessors(v))) == 0:
-            factors[v] = MultinomialFactor(dutils.var_parents_domain(dom, dag, v), left_vars=[v], values=values)
+        domv = dutils.var_parents_domain(dom, dag, v)
+        # tables have a value for each state of the variable too (with a single state, they are not null)
+        if num_values == len(dutils.state_space(domv)) and any(values):
+            factors[v] = MultinomialFactor(domv, left_vars=[v], values=values)
         else:
             values = [dom[v][int(i)] for i in values]
-            factors[v] = DeterministicFactor(dutils.var_parents_domain(dom, dag, v), left_vars=[v], values=values)
+            factors[v] = DeterministicFactor(domv, left_vars=[v], values=values)
 
     from bcause.models.cmodel import StructuralCausalModel
 
-    return StructuralCausalModel(dag, factors, cast_multinomial=cast_multinomial)
+    endogenous = [v for v in dag.nodes if isinstance(factors[v], DeterministicFactor)]
+    return StructuralCausalModel(dag, factors, endogenous=endogenous, cast_multinomial=cast_multinomial)
-- 
2.43.0


From 63693443594087c04e305783939511f792b423d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:12 +0000
Subject: [PATCH 28/49] fix: UAI files list the states in the order of the
 model

---
 bcause/readwrite/bnwrite.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bcause/readwrite/bnwrite.py b/bcause/readwrite/bnwrite.py
index f0ed188..5bd64d0 100644
--- a/bcause/readwrite/bnwrite.py
+++ b/bcause/readwrite/bnwrite.py
@@ -6,6 +6,7 @@ from pgmpy.readwrite import BIFWriter, XMLBIFWriter
 
 from bcause.factors import MultinomialFactor, DeterministicFactor
 from bcause.util.assertions import assert_file_exists
+from bcause.util.domainutils import assingment_space, subdomain
 
 
 from typing import TYPE_CHECKING
@@ -67,10 +68,11 @@ def to_uai(model:'BayesianNetwork', filepath, reverse_values=False, label="BAYES
 
         # if not reverse_values:
         #     var_order = var_order[::-1]
-        values = f.values_array(vorder).flatten()
+        # the factors might list the states in an order different from the one in the model
+        values = [f.get_value(**s) for s in assingment_space(subdomain(model.domains, *vorder))]
         if isinstance(f, DeterministicFactor):
             # equations are written with the positions of the states
-            values = [f.domain[v].index(p) for p in values]
+            values = [model.domains[v].index(p) for p in values]
         elif v in integer_varlist:
             values = [int(p) for p in values]
         out += f"{len(values)}\t" + " ".join([str(p) for p in values]) + "\n"
-- 
2.43.0


From 7541497b4f5b8c262b9a158c1ac00757f397c4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:33 +0000
Subject: [PATCH 29/49] fix: conversion to pgmpy lays the tables out as it
 expects and keeps every node

---
 bcause/conversion/pgmpy.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/bcause/conversion/pgmpy.py b/bcause/conversion/pgmpy.py
index cd54587..224a4e4 100644
--- a/bcause/conversion/pgmpy.py
+++ b/bcause/conversion/pgmpy.py
@@ -25,18 +25,12 @@ def toMultinomialFactor(factor : pfd.TabularCPD, vtype=None) -> bfd.MultinomialF
 def toTabularCPT(f : bfd.MultinomialFactor) -> pfd.TabularCPD:
     v = list(f.left_domain.keys())[0]
     card = f.store.cardinality_dict
-    values = f.values_array()
-    if np.ndim(values)<2:
-        values = np.expand_dims(values, axis=0)
-
-    if np.ndim(values) > 2:
-        shape = values.shape
-        values = values.reshape(np.prod(shape[:-1]), shape[0])
+    values = f.values_array([v] + list(f.right_vars)).reshape(card[v], -1)
 
     args = dict(
         variable = v,
         variable_card = card[v],
-        values = values.T,
+        values = values,
         state_names = f.domain
     )
 
@@ -51,6 +45,7 @@ def toTabularCPT(f : bfd.MultinomialFactor) -> pfd.TabularCPD:
 def toBCauseBNet(orig : pm.BayesianNetwork, vtype=None) -> 'bm.BayesianNetwork':
     vtype = vtype or DataStore.DEFAULT_STORE
     dag = DiGraph(orig.in_edges)
+    dag.add_nodes_from(orig.nodes)
     factors = {f.variable:toMultinomialFactor(f, vtype) for f in orig.cpds}
     import bcause.models as bm
     return bm.BayesianNetwork(dag, factors)
-- 
2.43.0


From ba3f4d3b5d18ae540836b4619827306e536ef2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:40 +0000
Subject: [PATCH 30/49] fix: pgmpy networks list the states of each variable in
 one order

---
 bcause/conversion/pgmpy.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bcause/conversion/pgmpy.py b/bcause/conversion/pgmpy.py
index 224a4e4..7470292 100644
--- a/bcause/conversion/pgmpy.py
+++ b/bcause/conversion/pgmpy.py
@@ -22,16 +22,18 @@ def toMultinomialFactor(factor : pfd.TabularCPD, vtype=None) -> bfd.MultinomialF
     right_vars = [v for v in factor.variables if v != factor.variable]
     return bfd.MultinomialFactor(domain, data, right_vars=right_vars, vtype=vtype)
 
-def toTabularCPT(f : bfd.MultinomialFactor) -> pfd.TabularCPD:
+def toTabularCPT(f : bfd.MultinomialFactor, domains=None) -> pfd.TabularCPD:
     v = list(f.left_domain.keys())[0]
     card = f.store.cardinality_dict
-    values = f.values_array([v] + list(f.right_vars)).reshape(card[v], -1)
+    # states in the given order, which might not be the one in the factor
+    domain = {x: (domains or f.domain)[x] for x in [v] + list(f.right_vars)}
+    values = np.reshape([f.get_value(**s) for s in assingment_space(domain)], (card[v], -1))
 
     args = dict(
         variable = v,
         variable_card = card[v],
         values = values,
-        state_names = f.domain
+        state_names = domain
     )
 
     parents = f.right_vars
@@ -53,5 +55,5 @@ def toBCauseBNet(orig : pm.BayesianNetwork, vtype=None) -> 'bm.BayesianNetwork':
 
 def toPgmpyBNet(orig : 'bm.BayesianNetwork') -> pm.BayesianNetwork:
     dest = pm.BayesianNetwork(orig.graph)
-    dest.add_cpds(*[toTabularCPT(f) for f in orig.factors.values()])
+    dest.add_cpds(*[toTabularCPT(f, orig.domains) for f in orig.factors.values()])
     return dest
\ No newline at end of file
-- 
2.43.0


From a0e91a1a5f1989468698e2d0ef2bbaf0aa8fd211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:24 +0000
Subject: [PATCH 31/49] fix: endogenous samples as a list of records

---
 bcause/models/cmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index f562172..2a00e7d 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -250,7 +250,8 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
 
 
     def sampleEndogenous(self, n_samples: int, as_pandas = True) -> Union[list[Dict], pd.DataFrame]:
-        return self.sample(n_samples, as_pandas)[self.endogenous]
+        data = self.sample(n_samples)[self.endogenous]
+        return data if as_pandas else data.to_dict("records")
 
     def log_likelihood(self, data, variables=None):
         bn = self.get_qbnet()
-- 
2.43.0


From 66191888f54f69152cc21ad786d118145b340dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:40 +0000
Subject: [PATCH 32/49] fix: random deterministic tables without right
 variables

---
 bcause/factors/mulitnomial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index 014cf2b..09af1ff 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -237,6 +237,7 @@ def uniform_multinomial(domain:Dict, right_vars:list=None, vtype=None):
 
 def random_deterministic(dom:Dict, right_vars:list=None, vtype=None):
     vtype = vtype or DataStore.DEFAULT_STORE
+    right_vars = right_vars or []
     data = np.zeros([len(d) for d in dom.values()])
     for idx in [list(s.values()) for s in random_assignment(to_numeric_domains(dom), right_vars)]:
         set_value(1., data, idx)
-- 
2.43.0


From 43c8050e90e123d84aea75d79ebaa8be029bd95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:40 +0000
Subject: [PATCH 33/49] fix: canonical equations with any number of endogenous
 parents

---
 bcause/factors/deterministic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bcause/factors/deterministic.py b/bcause/factors/deterministic.py
index ecf4b22..576ea39 100644
--- a/bcause/factors/deterministic.py
+++ b/bcause/factors/deterministic.py
@@ -131,6 +131,7 @@ class DeterministicFactor(bf.DiscreteFactor, bf.ConditionalFactor):
 
 def canonical_deterministic(domain:Dict, exo_var:Hashable, right_endo_vars:list=None, vtype=None) -> MultinomialFactor:
     vtype = vtype or DataStore.DEFAULT_STORE
+    right_endo_vars = right_endo_vars or []
 
     left_var = [x for x in domain.keys() if x not in right_endo_vars and x != exo_var]
     if len(left_var) != 1:
@@ -141,7 +142,7 @@ def canonical_deterministic(domain:Dict, exo_var:Hashable, right_endo_vars:list=
     domEndoPa = dutils.assingment_space(dutils.subdomain(domain, *right_endo_vars))
     m = len(domEndoPa)
 
-    new_values = list(product(*[domain[left_var]] * m))
+    new_values = [x for states in product(*[domain[left_var]] * m) for x in states]
     new_dom = {**dutils.subdomain(domain, left_var), **dutils.subdomain(domain, exo_var), **dutils.subdomain(domain, *right_endo_vars)}
 
     return DeterministicFactor(domain=new_dom, values=new_values, left_vars=[left_var], vtype=vtype)
-- 
2.43.0


From b8911bc47bc2c6d551b56ac1257cc9ef6e0d9e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:38 +0000
Subject: [PATCH 34/49] fix: equations from data frames with the left variable
 in any column

---
 bcause/factors/deterministic.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bcause/factors/deterministic.py b/bcause/factors/deterministic.py
index 576ea39..367d7dc 100644
--- a/bcause/factors/deterministic.py
+++ b/bcause/factors/deterministic.py
@@ -45,14 +45,12 @@ class DeterministicFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         columns = list(df.columns)
         left_var = left_var or columns[-1]
 
-        for v in columns:
-            df[v] = pd.Categorical(df[v], domains[v])
-
-        df = df.sort_values(by=columns)
+        df = df.assign(**{v: pd.Categorical(df[v], domains[v]) for v in columns})
+        df = df.sort_values(by=[v for v in columns if v != left_var])
 
         domf = dutils.subdomain(domains, *columns)
         values = list(df[left_var].values)
-        return DeterministicFactor(domf, left_vars=left_var, values=values)
+        return DeterministicFactor(domf, left_vars=[left_var], values=values)
 
     @property
     def domain(self) -> Dict:
-- 
2.43.0


From 805c50d49dd17b3af47ce3d39130901da194985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:06 +0000
Subject: [PATCH 35/49] fix: interval factors can be renamed

---
 bcause/factors/imprecise.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bcause/factors/imprecise.py b/bcause/factors/imprecise.py
index 002b5e8..81f7578 100644
--- a/bcause/factors/imprecise.py
+++ b/bcause/factors/imprecise.py
@@ -99,6 +99,11 @@ class IntervalProbFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         values_up = new_store.restrict(_bound="up").data
         return self.builder(domain=new_dom, values_low=values_low, values_up=values_up, left_vars=new_left_vars)
 
+    def rename_vars(self, names_mapping) -> IntervalProbFactor:
+        new_dom = OrderedDict([(names_mapping.get(v, v), d) for v, d in self.domain.items()])
+        new_left_vars = [names_mapping.get(v, v) for v in self.left_vars]
+        return self.builder(domain=new_dom, values_low=self.store_low.values_list, values_up=self.store_up.values_list, left_vars=new_left_vars)
+
     def _prepare_operand(self, f):
         raise NotImplementedError()
 
-- 
2.43.0


From b7727c80983ddf127e8ef14b853dc5b6a6fcbf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:06 +0000
Subject: [PATCH 36/49] fix: interval factors over trees of values can be
 restricted

---
 bcause/factors/imprecise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/factors/imprecise.py b/bcause/factors/imprecise.py
index 81f7578..dfe9c2e 100644
--- a/bcause/factors/imprecise.py
+++ b/bcause/factors/imprecise.py
@@ -95,8 +95,8 @@ class IntervalProbFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         new_store = self.store.restrict(**observation)
         new_left_vars = [v for v in new_store.variables if v in self.left_vars]
         new_dom = {v:k for v,k in new_store.domain.items() if not v.startswith("_")}
-        values_low = new_store.restrict(_bound="low").data
-        values_up = new_store.restrict(_bound="up").data
+        values_low = new_store.restrict(_bound="low").values_list
+        values_up = new_store.restrict(_bound="up").values_list
         return self.builder(domain=new_dom, values_low=values_low, values_up=values_up, left_vars=new_left_vars)
 
     def rename_vars(self, names_mapping) -> IntervalProbFactor:
-- 
2.43.0


From edd3ece5a29bf80cd2e1f8c8037ac2dc24d1908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:05 +0000
Subject: [PATCH 37/49] fix: interval factors from tables that list the same
 variables in another order

---
 bcause/factors/imprecise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/factors/imprecise.py b/bcause/factors/imprecise.py
index dfe9c2e..b50f5be 100644
--- a/bcause/factors/imprecise.py
+++ b/bcause/factors/imprecise.py
@@ -57,7 +57,7 @@ class IntervalProbFactor(bf.DiscreteFactor, bf.ConditionalFactor):
     def from_precise(list_factors):
         dom = list_factors[0].domain
         left_vars = list_factors[0].left_vars
-        if not all(list_factors[0].domain == f.domain for f in list_factors):
+        if not all({v: set(s) for v, s in dom.items()} == {v: set(s) for v, s in f.domain.items()} for f in list_factors):
             raise ValueError("Domains must be identical for building an IntervalFactor")
 
         values = np.array([[f.get_value(**obs) for f in list_factors] for obs in assingment_space(dom)])
-- 
2.43.0


From 87d62b8e0e120e1fcc53f17765e4450829423c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:46 +0000
Subject: [PATCH 38/49] fix: learners choose the variables to train anew for
 each data set

---
 bcause/learning/parameter/expectation_maximization.py | 4 ++--
 bcause/learning/parameter/gradient.py                 | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index 2703af4..ca0aabc 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -43,7 +43,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
     def __init__(self, prior_model: DiscreteDAGModel, trainable_vars: list = None,
                  inference_method=VariableElimination):
         self._prior_model = prior_model
-        self._trainable_vars = trainable_vars
+        self._trainable_vars = self._given_trainable_vars = trainable_vars
         self._inference_method = inference_method
         self._converged_vars = set()
 
@@ -85,7 +85,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         for v in missing_vars: data[v] = float("nan")
 
         # Set as trainable variables those with missing
-        self._trainable_vars = self.trainable_vars or list(data.columns[data.isna().any()])
+        self._trainable_vars = self._given_trainable_vars or list(data.columns[data.isna().any()])
 
         self._datadeps = DataDepAnalysis(self.model.graph, data)
         self._variables = list(data.columns)
diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index 373ebda..59c1ab6 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -38,7 +38,7 @@ class GradientLikelihood(IterativeParameterLearning):
 
     def __init__(self, prior_model: StructuralCausalModel, trainable_vars: list = None, tol : float = 1e-8):
         self._prior_model = prior_model
-        self._trainable_vars = trainable_vars
+        self._trainable_vars = self._given_trainable_vars = trainable_vars
         self._tol = tol
 
 
@@ -164,7 +164,7 @@ class GradientLikelihood(IterativeParameterLearning):
         for v in missing_vars: data[v] = float("nan")
 
         # Set as trainable variables those with missing
-        self._trainable_vars = self.trainable_vars or list(data.columns[data.isna().any()]) 
+        self._trainable_vars = self._given_trainable_vars or list(data.columns[data.isna().any()]) 
                                                                                             
 
         for v in self._trainable_vars:
-- 
2.43.0


From ca64e07c51b2c57c38daeef444f0fa1756cffc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:46 +0000
Subject: [PATCH 39/49] fix: the gradient learner records the models of its
 last run only

---
 bcause/learning/parameter/gradient.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index 59c1ab6..16c0b4d 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -44,6 +44,7 @@ class GradientLikelihood(IterativeParameterLearning):
 
     def initialize(self, data: pd.DataFrame, **kwargs):
         self._model = self.prior_model.copy()
+        self._model_evolution = [self.prior_model]
         self._process_data(data)
 
     def _stop_learning(self) -> bool:
-- 
2.43.0


From 018261fc6662dc82d10d9444a48b8d4d5c1ef133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:46 +0000
Subject: [PATCH 40/49] fix: one-dimensional stores keep their own copy of the
 values

---
 bcause/factors/values/numpystore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/factors/values/numpystore.py b/bcause/factors/values/numpystore.py
index 58f45d0..a82f4a0 100644
--- a/bcause/factors/values/numpystore.py
+++ b/bcause/factors/values/numpystore.py
@@ -63,7 +63,7 @@ class Numpy1DStore(DiscreteStore):
         self.builder = builder
         #self.set_operationSet(ListStoreOperations)
         self.set_operationSet(GenericOperations)
-        super(self.__class__, self).__init__(domain=domain, data=np.ravel(data))
+        super(self.__class__, self).__init__(domain=domain, data=np.array(np.ravel(data)))
 
     @staticmethod
     def _check_consistency(data, domain):
-- 
2.43.0


From ec521d0e528db90dd80dda31dc1c7e1aeddcdc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:54 +0000
Subject: [PATCH 41/49] fix: setting a value in a tree store leaves the stores
 that share its nodes alone

---
 bcause/factors/values/treedictstore.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bcause/factors/values/treedictstore.py b/bcause/factors/values/treedictstore.py
index 53cc7da..39b1cd8 100644
--- a/bcause/factors/values/treedictstore.py
+++ b/bcause/factors/values/treedictstore.py
@@ -52,8 +52,9 @@ class TreeDictStore(DiscreteStore):
             else:
                 other_obs = {v: s for v, s in observation.items() if v != data["var"]}
                 ch = data["children"][observation[data["var"]]]
-                data["children"][observation[data["var"]]] = modify_dict(ch, other_obs, value)
-                out = data
+                # the nodes might be shared with other stores
+                new_ch = {**data["children"], observation[data["var"]]: modify_dict(ch, other_obs, value)}
+                out = treeNode(data["var"], new_ch)
             return out
 
         relevant_obs = {v: s for v, s in observation.items() if v in self.domain}
-- 
2.43.0


From 03f4fe3876fcd488dc7574a84d9b604c7ce38eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:27 +0000
Subject: [PATCH 42/49] fix: the factors of a model agree on the states of
 every variable, in whatever order they are set

---
 bcause/models/pgmodel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bcause/models/pgmodel.py b/bcause/models/pgmodel.py
index 247c283..fb462ed 100644
--- a/bcause/models/pgmodel.py
+++ b/bcause/models/pgmodel.py
@@ -62,8 +62,10 @@ class PGModel(ABC):
 
             # check domains
             for v in f.variables:
-                if v in self._domains and self._domains[v] != None:
-                        if set(self._domains[v]) != set(f.domain[v]): raise ValueError(f"Inconsistent domain for {v} when setting {var}")
+                # states declared for the variable and those in the factors of its children
+                declared = [self._domains.get(v)] + [g.domain.get(v) for x, g in self._factors.items() if g is not None and x != var]
+                if any(d is not None and set(d) != set(f.domain[v]) for d in declared):
+                    raise ValueError(f"Inconsistent domain for {v} when setting {var}")
 
         # Update domains
         if var not in self._domains or self._domains[var] == None:
-- 
2.43.0


From a3e6b3486ec8029ea6aa613526e565da67c24ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:27 +0000
Subject: [PATCH 43/49] fix: queries on data about unknown variables raise an
 error

---
 bcause/inference/probabilistic/datainference.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bcause/inference/probabilistic/datainference.py b/bcause/inference/probabilistic/datainference.py
index 01009b7..539b8c3 100644
--- a/bcause/inference/probabilistic/datainference.py
+++ b/bcause/inference/probabilistic/datainference.py
@@ -23,6 +23,8 @@ class LaplaceInference(ProbabilisticInference):
         if len(set(target)) != len(target): raise ValueError("Repeated variables in target")
         if not set(target).isdisjoint(evidence.keys()):
             raise ValueError(f"Target {target} and evidence are not disjoint {evidence.keys()}")
+        missing = [v for v in [*target, *evidence] if v not in self.model.columns or (v in target and v not in self._domains)]
+        if len(missing) > 0: raise ValueError(f"{missing} not found in the data")
 
         self._target = target
         self._evidence = evidence
-- 
2.43.0


From bc8603b96b7162658c86505640f4f4fe6d03b142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:42 +0000
Subject: [PATCH 44/49] fix: EM keeps the probabilities given configurations of
 the parents that the data rule out

---
 bcause/learning/parameter/expectation_maximization.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index ca0aabc..650d4bb 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -8,6 +8,7 @@ from bcause.learning.parameter import IterativeParameterLearning
 from bcause.models.cmodel import StructuralCausalModel
 from bcause.models.pgmodel import DiscreteDAGModel
 from bcause.util.datadeps import DataDepAnalysis
+from bcause.util.domainutils import assingment_space
 
 
 
@@ -75,7 +76,13 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         new_probs = dict()
         for v in self.trainable_vars:
             joint_counts = pcounts[v]
-            new_probs[v] = joint_counts / (joint_counts.marginalize(v))
+            pa_counts = joint_counts.marginalize(v)
+            new_probs[v] = joint_counts / pa_counts
+            # keep the probabilities given those configurations of the parents that never happen in the data
+            for pa in assingment_space(pa_counts.domain):
+                if pa_counts.get_value(**pa) == 0:
+                    for s in joint_counts.domain[v]:
+                        new_probs[v].store.set_value(self._model.factors[v].get_value(**pa, **{v: s}), {**pa, v: s})
         return new_probs
 
     def _process_data(self, data: pd.DataFrame):
-- 
2.43.0


From ab6dc721961e473cbf34082ead8d04731f00882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:42 +0000
Subject: [PATCH 45/49] fix: the learners of parallel runs are kept in the
 order of their models

---
 bcause/learning/aggregator/aggregator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bcause/learning/aggregator/aggregator.py b/bcause/learning/aggregator/aggregator.py
index 032051d..993cf7a 100644
--- a/bcause/learning/aggregator/aggregator.py
+++ b/bcause/learning/aggregator/aggregator.py
@@ -50,10 +50,12 @@ class ModelAggregator(ABC):
     def generate(self, num_models : int):
         if num_models<1: raise ValueError(f"Wrong number of models: {num_models}")
         if not self._parallel:
-            self._generated_models += [self._single_generate(i) for i in range(num_models)]
+            learners = [self._single_generate(i) for i in range(num_models)]
         else:
             from joblib import Parallel, delayed
-            self._generated_models +=  Parallel(n_jobs=-1, backend="threading") (delayed(self._single_generate)(i) for i in range(num_models))
+            learners = Parallel(n_jobs=-1, backend="threading") (delayed(self._single_generate)(i) for i in range(num_models))
+        self._learn_objects += learners
+        self._generated_models += [l.model for l in learners]
 
     @abstractmethod
     def _single_generate(self, i):
@@ -76,8 +78,7 @@ class ModelAggregatorEM(ModelAggregator):
     def _single_generate(self, i):
         optimizer = ExpectationMaximization(self._model.randomize_factors(self._trainlable_vars, allow_zero=False), trainable_vars=self._trainlable_vars)
         optimizer.run(self._data, max_iter=self._max_iter)
-        self._learn_objects.append(optimizer)
-        return optimizer.model
+        return optimizer
 
 class SimpleModelAggregatorEM(SimpleModelAggregator, ModelAggregatorEM):
 
@@ -93,8 +94,7 @@ class ModelAggregatorGD(ModelAggregator):
     def _single_generate(self, i):
         optimizer = GradientLikelihood(self._model.randomize_factors(self._trainlable_vars, allow_zero=False), trainable_vars=self._trainlable_vars, tol=self._tol)
         optimizer.run(self._data, max_iter=self._max_iter)
-        self._learn_objects.append(optimizer)
-        return optimizer.model
+        return optimizer
 
 
 class SimpleModelAggregatorGD(SimpleModelAggregator, ModelAggregatorGD):
-- 
2.43.0


From 68b2d4aae3feb87ccdf676d8f2f02a4b043149c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:01 +0000
Subject: [PATCH 46/49] fix: conditional samples match observations by
 variable, not by position

---
 bcause/factors/mulitnomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index 09af1ff..229db95 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -149,7 +149,7 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
             raise ValueError("sample size cannot be lower than 1.")
         df_obs = pd.DataFrame(observations).drop_duplicates()
         factors = {tuple(val_obs):self.R(**dict(list(zip(list(df_obs.keys()), list(val_obs))))) for val_obs in df_obs.values}
-        return [factors[tuple(obs.values())]._sample(varnames=varnames) for obs in observations]
+        return [factors[tuple(obs[v] for v in df_obs.columns)]._sample(varnames=varnames) for obs in observations]
 
 
     def _sample(self, varnames:bool=True) -> tuple:
-- 
2.43.0


From 8a42e2d0b5f57ffd695d6dc41c4a94d8ae07c220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 47/49] fix: counterfactual queries refuse models whose names
 clash with those of the worlds

---
 bcause/inference/causal/causal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bcause/inference/causal/causal.py b/bcause/inference/causal/causal.py
index d8b1232..b4ff775 100644
--- a/bcause/inference/causal/causal.py
+++ b/bcause/inference/causal/causal.py
@@ -60,6 +60,8 @@ class CausalInference(Inference):
             models = [self.model]
             for i in range(0, len(do)):
                 mapping = {v: f"{v}_{i+1}" for v in self.model.endogenous}
+                clash = set(mapping.values()).intersection(self.model.variables)
+                if len(clash) > 0: raise ValueError(f"Names of variables in world {i+1} are already in the model: {clash}")
                 models.append(self.model.intervention(**do[i]).rename_vars(mapping))
 
             new_endogenous = sum([m.endogenous for m in models],[])
-- 
2.43.0


From 77bc1e46ab5c2c2429cae101ce65355e8fb0b9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 48/49] fix: a submodel of a causal model keeps as endogenous
 only the variables it has

---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 2a00e7d..5272beb 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -160,7 +160,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
 
     def builder(self, **kwargs):
         if "cast_multinomial" not in kwargs: kwargs["cast_multinomial"] = self._cast_multinomial
-        if "endogenous" not in kwargs: kwargs["endogenous"] = self.endogenous
+        if "endogenous" not in kwargs: kwargs["endogenous"] = [v for v in self.endogenous if v in kwargs["dag"]]
         return StructuralCausalModel(**kwargs)
 
     @staticmethod
-- 
2.43.0


From 4cc1eb22f71562df3597502e6444d55054422489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:05 +0000
Subject: [PATCH 49/49] fix: tree stores keep branches that hold a single value
 for several configurations

---
 bcause/factors/values/treedictstore.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bcause/factors/values/treedictstore.py b/bcause/factors/values/treedictstore.py
index 39b1cd8..2aeb435 100644
--- a/bcause/factors/values/treedictstore.py
+++ b/bcause/factors/values/treedictstore.py
@@ -23,7 +23,8 @@ class TreeDictStore(DiscreteStore):
         if data is None:
             data = np.zeros(np.prod([len(d) for d in domain.values()]))
         if not isinstance(data, dict):
-            if len(domain)>0 and type(data) not in [dict, OrderedDict]:
+            # a single value holds for every configuration
+            if len(domain)>0 and np.ndim(data)>0:
                 data = build_default_tree(domain, data)
         def builder(**kwargs):
             return TreeDictStore(**kwargs)
@@ -41,12 +42,16 @@ class TreeDictStore(DiscreteStore):
 
     def set_value(self, value, observation):
         def modify_dict(data, observation, value):
-            if not isinstance(data, dict) or len(observation) == 0:
+            if len(observation) == 0:
                 out = value
+            elif not isinstance(data, dict):
+                # the branch ends before the observed variables: it has to be expanded
+                v = next(iter(observation))
+                out = modify_dict(treeNode(v, {s: data for s in self.domain[v]}), observation, value)
             elif data["var"] not in observation:
                 new_ch = dict()
                 for state, ch in data["children"].items():
-                    new_ch[state] = value if not isinstance(ch, dict) else modify_dict(ch, observation, value)
+                    new_ch[state] = modify_dict(ch, observation, value)
                 out = treeNode(data["var"], new_ch)
 
             else:
-- 
2.43.0

