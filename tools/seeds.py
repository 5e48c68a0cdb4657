"""Planted bugs: each breaks a property while the repository's tests still pass."""
SEEDS = []


def seed(sid, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(sid=sid, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


PRE = '''
import logging
logging.disable(logging.CRITICAL)
import networkx as nx
import numpy as np
from bcause.factors import MultinomialFactor as MF, DeterministicFactor as DF
from bcause.models import BayesianNetwork
from bcause.models.cmodel import StructuralCausalModel as SCM
from bcause.inference.probabilistic.elimination import VariableElimination as VE
from bcause.inference.causal.elimination import CausalVariableElimination as CVE
b = [0, 1]
'''

seed("C05_joint_targets", "C05", "a joint query over targets that lie in different connected parts once the evidence is cut",
     "nodes connected to only one of several targets are pruned as irrelevant, so the joint posterior misses their factors",
     [("bcause/util/graphutils.py", "return any([nx.node_connectivity(G, t, y) > 0 for t in as_lists(target)])", "return all([nx.node_connectivity(G, t, y) > 0 for t in as_lists(target)])")],
     PRE + '''
g = nx.DiGraph([("A", "B"), ("C", "D")])
m = BayesianNetwork(g, {"A": MF({"A": b}, [.3, .7]), "B": MF({"B": b, "A": b}, [.9, .2, .1, .8], right_vars=["A"]),
                        "C": MF({"C": b}, [.6, .4]), "D": MF({"D": b, "C": b}, [.5, .1, .5, .9], right_vars=["C"])})
f = VE(m).query(["B", "D"])
pb = .3 * .1 + .7 * .8
pd = .6 * .5 + .4 * .9
assert abs(f.get_value(B=1, D=1) - pb * pd) < 1e-9, f
''')

seed("C06_first_target", "C06", "a conditional query with two or more targets",
     "normalises over the first target only, so the answer is P(t1 | t2, conditions) instead of P(t1, t2 | conditions)",
     [("bcause/inference/probabilistic/probabilistic.py", "return p.divide(p.marginalize(*target))", "return p.divide(p.marginalize(target[0]))")],
     PRE + '''
g = nx.DiGraph([("A", "B"), ("A", "C")])
m = BayesianNetwork(g, {"A": MF({"A": b}, [.3, .7]), "B": MF({"B": b, "A": b}, [.9, .2, .1, .8], right_vars=["A"]),
                        "C": MF({"C": b, "A": b}, [.5, .1, .5, .9], right_vars=["A"])})
f = VE(m).query(["B", "C"], conditioning="A")
assert abs(f.get_value(B=1, C=1, A=1) - .8 * .9) < 1e-9, f
''')

seed("C04_divide_left_only", "C04", "dividing by a factor that itself has conditioned variables not in the dividend's right side",
     "variables on the right of the divisor stay on the left of the quotient",
     [("bcause/factors/mulitnomial.py", "if v in self.right_vars or v in other.variables]", "if v in self.right_vars or v in other.left_vars]")],
     PRE + '''
j = MF({"A": b, "B": b, "C": b}, [.1, .2, .05, .15, .1, .1, .2, .1])
c = MF({"B": b, "C": b}, [.4, .3, .6, .7], right_vars=["C"])
q = j / c
assert sorted(q.right_vars) == ["B", "C"] and q.left_vars == ["A"], (q.left_vars, q.right_vars)
''')

seed("C12_previous_only", "C12", "a confounded component with three or more endogenous variables",
     "each variable is conditioned only on the previous one of its component, so the product of the factors is not the observational distribution",
     [("bcause/models/info.py", "for p in list(pa_c) + c_comp[0:i]:", "for p in list(pa_c) + c_comp[max(0, i-1):i]:")],
     PRE + '''
g = nx.DiGraph([("U", "A"), ("U", "B"), ("U", "C")])
u = [0, 1, 2, 3]
m = SCM(g, [MF({"U": u}, [.1, .2, .3, .4]), DF({"A": b, "U": u}, [0, 0, 1, 1], left_vars=["A"]),
            DF({"B": b, "U": u}, [0, 1, 0, 1], left_vars=["B"]), DF({"C": b, "U": u}, [0, 1, 1, 0], left_vars=["C"])])
bn = m.get_qbnet()
p = bn.prob([dict(A=0, B=0, C=0)])[0]
assert abs(p - .1) < 1e-9, p
''')

seed("C09_constant_sorted", "C09", "intervening on a variable whose states are not listed in sorted order, then using the intervened model itself",
     "the intervened model has the variable fixed at another state",
     [("bcause/factors/mulitnomial.py", "        new_data[states.index(left_value)] = 1.0\n", "        new_data[sorted(states).index(left_value)] = 1.0\n")],
     PRE + '''
x = [1, 0]
g = nx.DiGraph([("U", "X"), ("X", "Y"), ("V", "Y")])
m = SCM(g, [MF({"U": b}, [.3, .7]), MF({"V": b}, [.2, .8]), DF({"X": x, "U": b}, [0, 1], left_vars=["X"]), DF({"Y": b, "X": x, "V": b}, [0, 1, 1, 0], left_vars=["Y"])])
k = m.intervention(X=1)
assert VE(k).query("X").get_value(X=1) == 1.0
assert abs(VE(k).query("Y").get_value(Y=1) - .8) < 1e-9
''')

seed("C10_default_worlds", "C10", "several targets and several hypothetical worlds, with no worlds named for the targets",
     "targets default to worlds 1, 2, ... instead of all to the first world",
     [("bcause/inference/causal/causal.py", "targets_subgraphs = targets_subgraphs or [1]*len(target)", "targets_subgraphs = targets_subgraphs or [min(i+1, len(do)) if isinstance(do, list) else 1 for i in range(len(target))]")],
     PRE + '''
g = nx.DiGraph([("U", "X"), ("X", "Y"), ("X", "Z"), ("V", "Y"), ("V", "Z")])
m = SCM(g, [MF({"U": b}, [.3, .7]), MF({"V": b}, [.2, .8]), DF({"X": b, "U": b}, [0, 1], left_vars=["X"]),
            DF({"Y": b, "X": b, "V": b}, [0, 1, 1, 0], left_vars=["Y"]), DF({"Z": b, "X": b, "V": b}, [0, 1, 1, 1], left_vars=["Z"])])
f = CVE(m).counterfactual_query(["Y", "Z"], do=[dict(X=0), dict(X=1)])
assert sorted(f.variables) == ["Y_1", "Z_1"], f
''')

seed("C03_array_shape", "C03", "asking for the value array in an order of variables other than the factor's, with different numbers of states",
     "the array is laid out with the factor's own shape",
     [("bcause/factors/factor.py", "shape = [len(dom_order[v]) for v in var_order]", "shape = [len(d) for d in self.domain.values() if len(self.domain) == len(var_order)] or [len(dom_order[v]) for v in var_order]")],
     PRE + '''
f = MF({"A": b, "B": [0, 1, 2]}, [1., 2, 3, 4, 5, 6])
a = f.values_array(["B", "A"])
assert a.shape == (3, 2) and a[2, 0] == 3, a
''')

seed("C11_sorted_states", "C11", "a string-labelled variable whose states are name0/name1",
     "true and false are swapped for such variables",
     [("bcause/util/domainutils.py", 'tf = [d for d in dom if d.lower() == varname.lower()+"1"] + [d for d in dom if d.lower() == varname.lower()+"0"] + [d for d in dom if d.lower() == varname.lower()+"2"]',
       'tf = sorted(d for d in dom if d.lower() in [varname.lower()+str(i) for i in range(3)])')],
     PRE + '''
x, y = ["x0", "x1"], ["y0", "y1"]
g = nx.DiGraph([("U", "X"), ("X", "Y"), ("V", "Y")])
v = [0, 1, 2]
m = SCM(g, [MF({"U": b}, [.3, .7]), MF({"V": v}, [.2, .5, .3]), DF({"X": x, "U": b}, ["x0", "x1"], left_vars=["X"]),
            DF({"Y": y, "X": x, "V": v}, ["y0", "y0", "y1", "y1", "y0", "y1"], left_vars=["Y"])])
p = CVE(m).prob_necessity_sufficiency("X", "Y")
assert abs(p - .2) < 1e-9, p
p = CVE(m).prob_necessity("X", "Y")
assert abs(p - .2 / .5) < 1e-9, p
''')

seed("C02_max_initial", "C02", "maximising out of a table all of whose entries are negative (log-space tables, differences)",
     "the maximum is floored at zero",
     [("bcause/factors/values/numpyops.py", "new_data = np.max(store.data, axis=idx_vars)", "new_data = np.max(store.data, axis=idx_vars, initial=0.0)")],
     PRE + '''
f = MF({"A": b, "B": b}, [-.5, -.25, .5, .25])
g = f.maximize("B") if hasattr(f, "maximize") else f ^ "B"
assert g.get_value(A=0) == -.25 and g.get_value(A=1) == .5, list(g.values)
''')

seed("C04_add_right", "C04", "adding a conditional table to one that has the conditioning variable on its left",
     "a variable that is on the left of one operand ends up on the right of the sum",
     [("bcause/factors/mulitnomial.py", "new_store = self.store.addition(other.store)\n        new_right_vars = [v for v in new_store.variables\n                          if v not in self.left_vars and v not in other.left_vars]",
       "new_store = self.store.addition(other.store)\n        new_right_vars = [v for v in new_store.variables\n                          if v in self.right_vars or v in other.right_vars]")],
     PRE + '''
c = MF({"A": b, "B": b}, [.4, .3, .6, .7], right_vars=["B"])
j = MF({"B": b}, [.5, .5])
s = c + j
assert sorted(s.left_vars) == ["A", "B"] and s.right_vars == [], (s.left_vars, s.right_vars)
''')

seed("C09_endo_lost", "C09", "using the intervened model as a causal model (its endogenous and exogenous variables, its c-components, a further query)",
     "an intervened variable without parents counts as exogenous afterwards",
     [("bcause/models/cmodel.py", "return StructuralCausalModel(dag=new_dag, factors=new_factors, endogenous=self.endogenous, cast_multinomial=self._cast_multinomial)" + chr(10) + chr(10) + "    def rename",
       "return StructuralCausalModel(dag=new_dag, factors=new_factors, cast_multinomial=self._cast_multinomial)" + chr(10) + chr(10) + "    def rename")],
     PRE + '''
g = nx.DiGraph([("U", "X"), ("X", "Y"), ("V", "Y")])
m = SCM(g, [MF({"U": b}, [.3, .7]), MF({"V": b}, [.2, .8]), DF({"X": b, "U": b}, [0, 1], left_vars=["X"]), DF({"Y": b, "X": b, "V": b}, [0, 1, 1, 0], left_vars=["Y"])])
k = m.intervention(X=1)
assert sorted(k.endogenous) == ["X", "Y"] and sorted(k.exogenous) == ["U", "V"], (k.endogenous, k.exogenous)
''')

seed("C10_accumulated", "C10", "two or more hypothetical worlds that intervene on different variables",
     "each world also gets the interventions of the worlds before it",
     [("bcause/inference/causal/causal.py", "            for i in range(0, len(do)):" + chr(10) + "                mapping", "            world = dict()" + chr(10) + "            for i in range(0, len(do)):" + chr(10) + "                world.update(do[i])" + chr(10) + "                mapping"),
      ("bcause/inference/causal/causal.py", "self.model.intervention(**do[i])", "self.model.intervention(**world)")],
     PRE + '''
g = nx.DiGraph([("U", "X"), ("X", "Y"), ("V", "Y"), ("Z", "Y"), ("W", "Z")])
m = SCM(g, [MF({"U": b}, [.3, .7]), MF({"V": b}, [.2, .8]), MF({"W": b}, [.4, .6]), DF({"X": b, "U": b}, [0, 1], left_vars=["X"]), DF({"Z": b, "W": b}, [0, 1], left_vars=["Z"]),
            DF({"Y": b, "X": b, "Z": b, "V": b}, [0, 0, 0, 1, 1, 0, 1, 1], left_vars=["Y"])])
f = CVE(m).counterfactual_query("Y", do=[dict(X=0), dict(Z=1)], targets_subgraphs=[2])
# Z=1, X as it is: Y=1 iff V=1 (X=0) or always (X=1)
assert abs(f.get_value(Y_2=1) - (.3 * .8 + .7)) < 1e-9, f
''')

seed("C13_maxll_unique", "C13", "data in which some record occurs more often than others",
     "the maximum likelihood is computed for frequencies that ignore how often records occur",
     [("bcause/models/cmodel.py", "bn = self.get_qbnet(data)" + chr(10), "bn = self.get_qbnet(data.drop_duplicates())" + chr(10))],
     PRE + '''
import pandas as pd
g = nx.DiGraph([("U", "X")])
m = SCM(g, [MF({"U": b}, [.5, .5]), DF({"X": b, "U": b}, [0, 1], left_vars=["X"])])
d = pd.DataFrame([[0], [0], [0], [1]], columns=["X"])
want = 3 * np.log(.75) + np.log(.25)
assert abs(m.max_log_likelihood(d) - want) < 1e-9, m.max_log_likelihood(d)
''')

seed("C14_dom_mutated", "C14", "counting data with missing values twice with the same domains",
     "the caller's lists of states grow by the missing-value state, so later counts have further states",
     [("bcause/util/datautils.py", "    domains = domains.copy()" + chr(10) + "    if data", "    if data"), ("bcause/util/datautils.py", 'domains[x] = domains[x] + ["nan"]', 'domains[x].append("nan")')],
     PRE + '''
import pandas as pd
from bcause.util.datautils import to_counts
dom = {"A": ["x", "y"], "B": [0, 1]}
to_counts(dom, pd.DataFrame([["x", 0], [None, 1], ["x", 1]], columns=["A", "B"]))
f = to_counts(dom, pd.DataFrame([["x", 0], ["y", 1]], columns=["A", "B"]))
assert list(f.domain["A"]) == ["x", "y"], dict(f.domain)
''')

seed("C17_minmax_first", "C17", "three or more precise models, the last of which attains a bound",
     "the last model is left out of the bounds",
     [("bcause/factors/imprecise.py", "values.min(axis=1), values.max(axis=1)", "values[:, :-1].min(axis=1) if values.shape[1] > 2 else values.min(axis=1), values.max(axis=1)")],
     PRE + '''
from bcause.inference.causal.multi import CausalMultiInference as CMI
g = nx.DiGraph([("U", "X"), ("X", "Y"), ("V", "Y")])
mk = lambda p: SCM(g, [MF({"U": b}, [.3, .7]), MF({"V": b}, [p, 1 - p]), DF({"X": b, "U": b}, [0, 1], left_vars=["X"]), DF({"Y": b, "X": b, "V": b}, [0, 1, 1, 0], left_vars=["Y"])])
for ps in ([.2, .5, .8], [.8, .5, .2]):
    f = CMI([mk(p) for p in ps]).causal_query("Y", do=dict(X=0))
    lo, up = f.restrict(Y=1).values
    assert abs(lo - .2) < 1e-9 and abs(up - .8) < 1e-9, (lo, up)
''')

seed("C17_add_models", "C17", "querying, adding models, and querying again",
     "models added after the first query are left out of later answers",
     [("bcause/inference/causal/multi.py", "        self._models += models" + chr(10) + "        self._compiled = False", "        self._models += models" + chr(10) + "        if not models: self._compiled = False")],
     PRE + '''
from bcause.inference.causal.multi import CausalMultiInference as CMI
g = nx.DiGraph([("U", "X"), ("X", "Y"), ("V", "Y")])
mk = lambda p: SCM(g, [MF({"U": b}, [.3, .7]), MF({"V": b}, [p, 1 - p]), DF({"X": b, "U": b}, [0, 1], left_vars=["X"]), DF({"Y": b, "X": b, "V": b}, [0, 1, 1, 0], left_vars=["Y"])])
inf = CMI([mk(.5)])
inf.causal_query("Y", do=dict(X=0))
inf.add_models([mk(.2)])
lo, up = inf.causal_query("Y", do=dict(X=0)).restrict(Y=1).values
assert abs(lo - .5) < 1e-9 and abs(up - .8) < 1e-9, (lo, up)
''')

seed("C18_order", "C18", "a UAI file of a model in which some variable's parents were declared in another order than the variables",
     "the scope line of the file lists the parents in another order than the table is written in",
     [("bcause/readwrite/bnwrite.py", "var_order[v] = [x for x in model.get_parents(v)][::-1] + [v]", "var_order[v] = sorted([x for x in model.get_parents(v)], key=var_idx.get)[::-1] + [v]"),
      ("bcause/readwrite/bnwrite.py", "        vorder = var_order[v]" + chr(10), "        vorder = [x for x in model.get_parents(v)][::-1] + [v]" + chr(10))],
     PRE + '''
import os, tempfile
g = nx.DiGraph()
g.add_nodes_from(["A", "B", "C"])
g.add_edges_from([("B", "C"), ("A", "C")])
m = BayesianNetwork(g, {"A": MF({"A": b}, [.3, .7]), "B": MF({"B": b}, [.6, .4]), "C": MF({"C": b, "A": b, "B": b}, [.1, .2, .3, .4, .9, .8, .7, .6], right_vars=["A", "B"])})
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "m.uai")
    m.save(p)
    r = BayesianNetwork.read(p)
assert abs(r.factors["V2"].get_value(V2=0, V0=0, V1=1) - .2) < 1e-9
assert abs(r.factors["V2"].get_value(V2=0, V0=1, V1=0) - .3) < 1e-9
''')

seed("C18_digits", "C18", "probabilities with more than ten significant digits",
     "probabilities are cut to ten significant digits in the file",
     [("bcause/readwrite/bnwrite.py", 'out += f"{len(values)}\\t" + " ".join([str(p) for p in values]) + "\\n"', 'out += f"{len(values)}\\t" + " ".join([f"{p:.10g}" for p in values]) + "\\n"')],
     PRE + '''
import os, tempfile
m = BayesianNetwork(nx.DiGraph([("A", "B")]), {"A": MF({"A": b}, [1 / 3, 2 / 3]), "B": MF({"B": b, "A": b}, [1 / 7, .5, 6 / 7, .5], right_vars=["A"])})
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "m.uai")
    m.save(p)
    r = BayesianNetwork.read(p)
assert abs(r.factors["V0"].get_value(V0=0) - 1 / 3) < 1e-14, r.factors["V0"].get_value(V0=0)
''')

seed("C20_unnormalised", "C20", "sampling from a factor whose entries add up to less than one",
     "the missing mass goes to the last state instead of being shared out in proportion",
     [("bcause/factors/mulitnomial.py", "p=probs / probs.sum()", "p=probs / probs.sum() if probs.sum() > 1 else np.append(probs[:-1], 1 - probs[:-1].sum())")],
     PRE + '''
f = MF({"A": b}, [.2, .1])
np.random.seed(0)
n = sum(r["A"] == 0 for r in f.sample(3000))
assert 1800 < n < 2200, n
''')

seed("C16_bounds", "C16", "a trained exogenous state whose best probability is zero",
     "the problem handed to the optimiser leaves out distributions with zeros",
     [("bcause/learning/parameter/gradient.py", "bounds=[(0, 1)]*len(initial_params)", "bounds=[(1e-3, 1)]*len(initial_params)")],
     PRE + '''
import pandas as pd
import bcause.learning.parameter.gradient as gr
seen = []
real = gr.minimize
def spy(*a, **k):
    seen.append(k.get("bounds"))
    return real(*a, **k)
gr.minimize = spy
m = SCM(nx.DiGraph([("U", "X")]), [MF({"U": [0, 1, 2]}, [.4, .3, .3]), DF({"X": b, "U": [0, 1, 2]}, [0, 1, 1], left_vars=["X"])])
d = pd.DataFrame([[0]] * 3, columns=["X"])
g = gr.GradientLikelihood(m)
g.run(d)
p = [g.model.factors["U"].get_value(U=u) for u in (0, 1, 2)]
assert p[0] > 1 - 1e-3, p
''')

seed("C24_asarray", "C24", "the array a factor was built from is changed afterwards",
     "the factor keeps the caller's array instead of a copy of it",
     [("bcause/factors/values/numpystore.py", "super(self.__class__, self).__init__(domain=domain, data=np.array(data))", "super(self.__class__, self).__init__(domain=domain, data=np.asarray(data))")],
     PRE + '''
a = np.array([.3, .7])
f = MF({"A": b}, a)
a[:] = [.9, .1]
assert f.get_value(A=0) == .3, f.get_value(A=0)
''')

seed("C24_shallow_copy", "C24", "a factor of a copied model is replaced",
     "the copy shares the dictionary of factors, so the original changes too",
     [("bcause/models/pgmodel.py", "        return self.builder(dag=self.graph, factors=self.factors)\n", "        import copy\n        return copy.copy(self)\n")],
     PRE + '''
m = BayesianNetwork(nx.DiGraph([("A", "B")]), {"A": MF({"A": b}, [.3, .7]), "B": MF({"B": b, "A": b}, [.9, .2, .1, .8], right_vars=["A"])})
c = m.copy()
c.set_factor("A", MF({"A": b}, [.5, .5]))
assert m.factors["A"].get_value(A=0) == .3
''')

seed("C11_effect_default", "C11", "probability of necessity with the cause's states given and the effect's left to the default",
     "the states given for the cause are taken for the effect too",
     [("bcause/inference/causal/causal.py", "        Teffect, Feffect = true_false_effect or dutils.identify_true_false(effect, self.model.domains[effect])\n\n        # Run the query\n        return self._process_output(self.counterfactual_query(\n            effect,\n            do={cause: Fcause},", "        Teffect, Feffect = true_false_effect or true_false_cause or dutils.identify_true_false(effect, self.model.domains[effect])\n\n        # Run the query\n        return self._process_output(self.counterfactual_query(\n            effect,\n            do={cause: Fcause},")],
     PRE + '''
u = [0, 1, 2, 3]
m = SCM(nx.DiGraph([("U", "X"), ("U", "Y"), ("X", "Y")]), [MF({"U": u}, [.1, .2, .3, .4]), DF({"X": b, "U": u}, [0, 0, 1, 1], left_vars=["X"]),
                                                        DF({"Y": b, "X": b, "U": u}, [0, 1, 0, 1, 1, 1, 0, 0], left_vars=["Y"])])
p = CVE(m).prob_necessity("X", "Y", true_false_cause=(0, 1))
assert abs(p) < 1e-9, p
''')

seed("C25_tolerance", "C25", "an equation table with an entry that is nearly, but not exactly, 0 or 1",
     "tables that are not degenerate are accepted as equations",
     [("bcause/factors/factor.py", "if x != 0 and x != 1]", "if abs(x) > 1e-9 and abs(x - 1) > 1e-9]")],
     PRE + '''
m = SCM(nx.DiGraph([("U", "X")]))
m.set_factor("U", MF({"U": b}, [.3, .7]))
try:
    m.set_factor("X", MF({"X": b, "U": b}, [1e-10, 1, 1 - 1e-10, 0], right_vars=["U"]))
except ValueError:
    pass
else:
    raise SystemExit("accepted")
''')

seed("C25_targets_do", "C25", "a causal query whose target is one of the intervened variables",
     "the ill-posed query is answered instead of refused",
     [("bcause/inference/causal/causal.py", "        evidence = {**evidence, **do}\n", "        evidence = {**evidence, **{v: s for v, s in do.items() if v not in target}}\n")],
     PRE + '''
m = SCM(nx.DiGraph([("U", "X"), ("X", "Y")]), [MF({"U": b}, [.3, .7]), DF({"X": b, "U": b}, [0, 1], left_vars=["X"]), DF({"Y": b, "X": b}, [1, 0], left_vars=["Y"])])
try:
    f = CVE(m).causal_query("X", do={"X": 0})
except ValueError:
    pass
else:
    raise SystemExit(f"answered {f}")
''')

seed("C25_selfloop", "C25", "a graph in which a variable is its own parent",
     "self-loops are no longer refused",
     [("bcause/models/pgmodel.py", "len(list(nx.simple_cycles(dag)))>0", "any(len(c) > 1 for c in nx.simple_cycles(dag))")],
     PRE + '''
for M in (BayesianNetwork, SCM):
    try:
        M(nx.DiGraph([("A", "B"), ("B", "B")]))
    except ValueError:
        pass
    else:
        raise SystemExit("accepted")
''')

seed("C26_smoothing", "C26", "a step from a model that already reproduces the frequencies of the data",
     "a small pseudo-count is added to every configuration, so fitted tables keep moving",
     [("bcause/learning/parameter/expectation_maximization.py", "MultinomialFactor(dom, values=0)", "MultinomialFactor(dom, values=1e-9)")],
     PRE + '''
import pandas as pd
from bcause.learning.parameter.expectation_maximization import ExpectationMaximization as EM
m = SCM(nx.DiGraph([("U", "X")]), [MF({"U": [0, 1, 2]}, [0., .25, .75]), DF({"X": b, "U": [0, 1, 2]}, [0, 0, 1], left_vars=["X"])])
em = EM(m, trainable_vars=["U"])
em.run(pd.DataFrame([[0], [1], [1], [1]], columns=["X"]), max_iter=1)
assert em.model.factors["U"].get_value(U=0) == 0, em.model.factors["U"].get_value(U=0)
''')

seed("C30_tol", "C30", "GDCC with a tolerance looser than its default",
     "the tolerance asked for does not reach the learner",
     [("bcause/learning/aggregator/aggregator.py", "tol=self._tol)\n        optimizer", "tol=min(self._tol, 1e-3))\n        optimizer")],
     PRE + '''
import pandas as pd
import bcause.learning.parameter.gradient as gr
from bcause.learning.aggregator.aggregator import SimpleModelAggregatorGD
seen = []
real = gr.minimize
def spy(*a, **k):
    seen.append(k.get("tol"))
    return real(*a, **k)
gr.minimize = spy
m = SCM(nx.DiGraph([("U", "X")]), [MF({"U": [0, 1, 2]}, [.4, .3, .3]), DF({"X": b, "U": [0, 1, 2]}, [0, 1, 1], left_vars=["X"])])
SimpleModelAggregatorGD(m, pd.DataFrame([[0], [1]], columns=["X"]), tol=.25, max_iter=3).run(1)
assert seen == [.25], seen
''')

seed("C30_reset", "C30", "an aggregator that is run again after a reset",
     "the learners of the earlier runs are still listed after a reset",
     [("bcause/learning/aggregator/aggregator.py", "        self._learn_objects = []\n", "        if not hasattr(self, '_learn_objects'): self._learn_objects = []\n")],
     PRE + '''
import pandas as pd
from bcause.learning.aggregator.aggregator import SimpleModelAggregatorEM
m = SCM(nx.DiGraph([("U", "X")]), [MF({"U": [0, 1, 2]}, [.4, .3, .3]), DF({"X": b, "U": [0, 1, 2]}, [0, 1, 1], left_vars=["X"])])
a = SimpleModelAggregatorEM(m, pd.DataFrame([[0], [1]], columns=["X"]), max_iter=1)
a.run(2)
a.reset()
a.run(1)
assert len(a.learn_objects) == len(a.models) == 1, (len(a.learn_objects), len(a.models))
''')

seed("C06_set_targets", "C06", "a conditional query with at least two more targets than conditions",
     "the answer is normalised over the first targets only",
     [("bcause/inference/probabilistic/probabilistic.py", "return p.divide(p.marginalize(*target))", "return p.divide(p.marginalize(*[v for v in target if v in p.left_vars][:len(conditioning) + 1]))")],
     PRE + '''
g = nx.DiGraph([("A", "B"), ("A", "C"), ("A", "D")])
cp = lambda v, p, q: MF({v: b, "A": b}, [p, q, 1 - p, 1 - q], right_vars=["A"])
m = BayesianNetwork(g, {"A": MF({"A": b}, [.3, .7]), "B": cp("B", .9, .2), "C": cp("C", .6, .1), "D": cp("D", .4, .8)})
f = VE(m).query(["B", "C", "D"], conditioning="A")
assert abs(f.get_value(A=0, B=0, C=0, D=0) - .9 * .6 * .4) < 1e-9, f.get_value(A=0, B=0, C=0, D=0)
''')

seed("C08_blanket", "C08", "the Markov blanket of a variable whose child has children of its own",
     "the other parents of such children are left out of the blanket",
     [("bcause/models/pgmodel.py", "pa_ch = set(self.get_parents(*ch)).difference({v})", "pa_ch = set(self.get_parents(*[c for c in ch if not self.get_children(c)])).difference({v})")],
     PRE + '''
m = BayesianNetwork(nx.DiGraph([("A", "B"), ("C", "B"), ("B", "D")]))
assert set(m.markov_blanket("A")) == {"B", "C"}, m.markov_blanket("A")
''')

seed("C12_direct_parents", "C12", "a confounded component of three or more variables with a parent outside that is not a parent of the last one",
     "the factorisation leaves out that parent",
     [("bcause/models/info.py", "        pa_c = pa_c.difference(c_comp)\n", "        pa_c = pa_c.difference(c_comp) if len(c_comp) < 3 else set(model.get_edogenous_parents(c_comp[-1])).difference(c_comp)\n")],
     PRE + '''
m = SCM(nx.DiGraph([("W", "Z"), ("Z", "A"), ("U", "A"), ("U", "B"), ("U", "C"), ("A", "B"), ("B", "C")]))
assert ("Z", "A") in m.qgraph.edges and ("Z", "C") in m.qgraph.edges, m.qgraph.edges
''')

seed("C10_third_world", "C10", "a counterfactual query with three worlds, the third with other intervened variables than the second",
     "the third world and later ones get the second world's intervention",
     [("bcause/inference/causal/causal.py", "models.append(self.model.intervention(**do[i]).rename_vars(mapping))", "models.append(self.model.intervention(**do[min(i, 1)]).rename_vars(mapping))")],
     PRE + '''
m = SCM(nx.DiGraph([("U", "X"), ("X", "Y"), ("V", "Y")]), [MF({"U": b}, [.3, .7]), DF({"X": b, "U": b}, [0, 1], left_vars=["X"]), MF({"V": b}, [.2, .8]),
                                                       DF({"Y": b, "X": b, "V": b}, [0, 1, 1, 1], left_vars=["Y"])])
f = CVE(m).counterfactual_query(["Y"], do=[{"X": 1}, {"X": 1}, {}], targets_subgraphs=[3])
assert abs(f.get_value(Y_3=0) - .06) < 1e-9, f
''')

seed("C21_uniform_layout", "C21", "a uniform conditional table whose left-hand variable is not first and has another number of states",
     "the entries do not add up to one",
     [("bcause/factors/mulitnomial.py", "data = normalize_array(np.ones([len(d) for d in domain.values()]), axis=left_dims)", "data = np.ones([len(d) for d in domain.values()]) / np.prod([len(domain[v]) for v in list(domain)[:len(left_dims)]])")],
     PRE + '''
from bcause.factors.mulitnomial import uniform_multinomial
f = uniform_multinomial({"A": b, "B": [0, 1, 2]}, right_vars=["A"])
assert abs(sum(f.get_value(A=0, B=s) for s in (0, 1, 2)) - 1) < 1e-9, f
''')

seed("C22_mixed", "C22", "a causal model with some equations as functions and some as 0/1 tables",
     "casting it to a Bayesian network leaves the functions as they are",
     [("bcause/models/cmodel.py", "return any([isinstance(f, DeterministicFactor)", "return all([isinstance(f, DeterministicFactor)")],
     PRE + '''
m = SCM(nx.DiGraph([("U", "X"), ("X", "Y")]), [MF({"U": b}, [.3, .7]), DF({"X": b, "U": b}, [1, 0], left_vars=["X"]), MF({"Y": b, "X": b}, [1, 0, 0, 1], right_vars=["X"])], cast_multinomial=False)
n = m.to_bnet()
assert n.factors["X"].get_value(X=1, U=0) == 1 and n.factors["X"].get_value(X=0, U=0) == 0
assert abs(VE(n).query("Y").get_value(Y=1) - .3) < 1e-9
''')

seed("C23_inplace", "C23", "a Bayesian network is used after a renamed version of it was made",
     "the graph of the original is renamed too",
     [("bcause/models/pgmodel.py", "new_dag = relabel_nodes(self.graph, names_mapping)", "new_dag = relabel_nodes(self.graph, names_mapping, copy=False)")],
     PRE + '''
m = BayesianNetwork(nx.DiGraph([("A", "B")]), {"A": MF({"A": b}, [.3, .7]), "B": MF({"B": b, "A": b}, [.9, .2, .1, .8], right_vars=["A"])})
n = m.rename_vars({"A": "Z"})
assert set(m.variables) == {"A", "B"} and set(n.variables) == {"Z", "B"}, (m.variables, n.variables)
''')

seed("C29_class_inf", "C29", "two EM learners whose expectation steps overlap",
     "the inference engine of a step is shared by all the learners running at the time",
     [("bcause/learning/parameter/expectation_maximization.py", "self._inf = self._inference_method(self._model)", "type(self)._inf = self._inference_method(self._model)")],
     PRE + '''
import pandas as pd
from bcause.learning.parameter.expectation_maximization import ExpectationMaximization as EM
d = pd.DataFrame([[0], [1], [1]], columns=["X"])
mk = lambda p: EM(SCM(nx.DiGraph([("U", "X")]), [MF({"U": [0, 1, 2]}, p), DF({"X": b, "U": [0, 1, 2]}, [0, 1, 1], left_vars=["X"])]), trainable_vars=["U"])
one = mk([.2, .2, .6])
one.run(d, max_iter=1)
want = one.model.factors["U"].values
two, other = mk([.2, .2, .6]), mk([.2, .7, .1])
two.initialize(d)
other.initialize(d)
real = two._get_pseudocounts_dict
def late():
    # the other learner begins a step just now
    other._expectation()
    return real()
two._get_pseudocounts_dict = late
two.step()
got = two.model.factors["U"].values
assert np.allclose(got, want), (got, want)
''')

seed("C02_tree_absent", "C02", "several variables of different cardinality are summed out at once from a tree whose branches do not mention them all",
     "constant branches are weighted with the number of states of the first variable removed",
     [("bcause/factors/values/treedictops.py", "new_data = TreeDictStoreOperations._marginalize_dict(new_data, v, len(store.domain[v]), lambda x, y: x + y)", "new_data = TreeDictStoreOperations._marginalize_dict(new_data, v, len(store.domain[vars_remove[0]]), lambda x, y: x + y)")],
     PRE + '''
def leaf(v, ch):
    return dict(var=v, children=ch)
t = leaf("A", {0: .5, 1: leaf("B", {0: .1, 1: .2, 2: .3})})
f = MF({"A": b, "B": [0, 1, 2], "C": b}, t, vtype="treedict")
g = f.marginalize("C", "B")
assert abs(g.get_value(A=0) - 3.) < 1e-9 and abs(g.get_value(A=1) - 1.2) < 1e-9, g.values
''')

seed("C03_korder", "C03", "a list-stored factor built from a transposed array",
     "the entries are read in memory order, not in index order",
     [("bcause/factors/values/liststore.py", "data=list(np.ravel(data)))", "data=list(np.ravel(data, order='K')))")],
     PRE + '''
a = np.array([[.1, .9], [.4, .6], [.5, .5]]).T
f = MF({"A": b, "B": [0, 1, 2]}, a, right_vars=["B"], vtype="list")
assert f.get_value(A=0, B=1) == .4, f.values
''')
