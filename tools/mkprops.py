"""Writes properties.jsonl (kept as a script only so the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))
F="bcause/factors/"; V=F+"values/"; M="bcause/models/"; I="bcause/inference/"; L="bcause/learning/"; U="bcause/util/"; R="bcause/readwrite/"
p("C01","Factor arithmetic is pointwise, whatever the layout",
  "The product, sum, difference or quotient of two factors has, at every joint assignment, exactly the value obtained by applying that operation to the operands' values at that assignment, and so does an operation between a factor and a plain number written on either side. This holds for shared, disjoint and nested scopes, for any order of the variables and any order of a shared variable's states, and for every value storage, including trees whose branches end early because the value there does not depend on the remaining variables. In the default storage 0/0 counts as 0.",
  ["inputs","configurations"],"for all real values of both operands, all scopes, variable orders, state orders and storages",
  "Tests multiply a handful of fixed tables; the claim is over all values, scopes and orders, and operands with permuted states are never tried.",
  [F+"mulitnomial.py",V+"numpyops.py",V+"listops.py",V+"operations.py",V+"treedictops.py",U+"domainutils.py"],
  [("domain union, extension, axis reordering",V+"numpyops.py"),("index arithmetic",U+"domainutils.py"),("tree combination",V+"treedictops.py"),("scalar promotion",F+"mulitnomial.py")],
  ["get_value / values_dict of the result"])
p("C02","Eliminating variables sums (or maximises) over exactly their states",
  "Summing variables out of a factor gives, at every remaining assignment, the sum of the original values over all joint states of the removed variables, and max-elimination gives their maximum. Removing several variables at once equals removing them one after another in any order, and removing only variables that are not in the factor changes nothing. All storages agree, trees whose branches end early included.",
  ["inputs","configurations"],"for all real values, scopes, storages, subsets and orders of removed variables",
  "Tests check a few numeric tables for particular variables; not all subsets, orders and storages for all values.",
  [F+"mulitnomial.py",V+"numpyops.py",V+"listops.py",V+"operations.py",V+"treedictops.py"],
  [("axis reduction",V+"numpyops.py"),("index iterators",U+"domainutils.py"),("tree marginalisation",V+"treedictops.py")],["values of the result"])
p("C03","Restriction and value lookup select exactly the observed entries",
  "Restricting a factor to an observation keeps exactly the entries that agree with it and drops the observed variables; restricting to a list of states keeps exactly those states of that variable, each with its own values. Reading one value, the value list, the value dictionary and the value array (in any requested variable order) always agree with each other; observations about variables outside the factor have no effect. All storages agree, trees whose branches end early included; writing one entry changes that entry only.",
  ["inputs","configurations"],"for all values, scopes, labels (including falsy ones such as 0, False and the empty string), observation subsets and state lists in any order",
  "Tests restrict a few tables to single states; lists of states out of domain order, several lists at once and falsy labels are not covered.",
  [F+"factor.py",F+"mulitnomial.py",V+"numpyops.py",V+"numpystore.py",V+"listops.py",V+"treedictops.py",V+"store.py",U+"domainutils.py"],
  [("index selection",V+"numpyops.py"),("index iterators",U+"domainutils.py"),("value views",V+"store.py")],["restrict, get_value, values_list, values_dict, values_array"])
p("C04","Factors keep track of which variables are conditioned on",
  "After any operation each variable of the resulting factor is on exactly one side: restriction and elimination keep every remaining variable on its side, a product leaves on the right only variables that neither operand has on the left, and dividing by a factor puts that factor's variables on the right. A conditional distribution multiplied by the distribution of its conditions, then divided by that distribution, is the original conditional distribution again.",
  ["inputs","configurations"],"for all values, scopes, left/right splits and operation sequences",
  "Unit tests look at the sides of a few results; the claim covers all splits and compositions.",
  [F+"factor.py",F+"mulitnomial.py"],[("left/right bookkeeping",F+"mulitnomial.py"),("side assignment",F+"factor.py")],["left_vars / right_vars and values"])
p("C05","Posterior queries are exact",
  "For every Bayesian network and every evidence of positive probability, a posterior query over one or several target variables returns the conditional distribution of the targets given the evidence that the product of the network's tables defines, normalised over the targets and scoped to exactly the targets. This holds for disconnected networks, evidence that makes nodes irrelevant, evidence states that are falsy, and no evidence at all.",
  ["inputs","configurations"],"for all table entries, DAGs, cardinalities, targets, and evidence sets",
  "Tests query the asia network and toy networks for fixed numbers; the statement ranges over all tables and all target/evidence combinations.",
  [I+"probabilistic/elimination.py",I+"probabilistic/probabilistic.py",I+"ordering.py",M+"transform/simplification.py"],
  [("elimination loop and normalisation",I+"probabilistic/elimination.py"),("relevance pruning",M+"transform/simplification.py")],["query(target, evidence=...)"])
p("C06","Conditional queries return P(target | conditions, evidence)",
  "A query with conditioning variables returns a factor over targets and conditioning variables whose value at every assignment with possible conditions equals P(targets | conditions, evidence), with the conditioning variables on the right-hand side. It agrees with asking the posterior of the targets with each condition given as evidence.",
  ["inputs","configurations"],"for all table entries, DAGs, targets, conditioning sets and evidence",
  "Tests cover a few conditional queries on one network.",
  [I+"probabilistic/probabilistic.py",I+"probabilistic/elimination.py"],[("joint then divide",I+"probabilistic/probabilistic.py")],["query(target, conditioning=..., evidence=...)"])
p("C07","Answers do not depend on heuristic, storage or listing order",
  "The answer to a query is the same function of the model whatever elimination heuristic is chosen, whichever value storage holds the tables, and in whatever order the nodes, edges, factors, the variables of a factor, the states of a variable, the targets and the evidence are listed. Asking the same engine again after other queries gives the same answer.",
  ["inputs","configurations","histories"],"for all table entries, under every permutation of the listing orders, every heuristic and storage",
  "Tests fix one listing order; only the built-in heuristics are compared on one network.",
  [I+"ordering.py",I+"probabilistic/elimination.py",V+"store.py",M+"pgmodel.py"],[("ordering heuristics",I+"ordering.py"),("storages",V+"store.py")],["query results of two differently written equal models"])
p("C08","Pruning and graphical independence statements are sound",
  "Simplifying a model for a target and evidence leaves the posterior of the target unchanged; removing barren nodes leaves the joint of the remaining ones unchanged. Nodes reported as separated from a target by an evidence set really are independent of it given that evidence for every parametrisation, nodes reported as connected are dependent for some parametrisation, and the Markov blanket shields a variable from all others. The submodel over a set of variables that contains their parents keeps their arcs and tables, so it is the marginal of the model over them; in a causal model its variables also keep their roles, endogenous or exogenous.",
  ["inputs","configurations"],"for all DAGs and all parametrisations within the bound",
  "Tests check node sets on one or two graphs; independence is a statement about every parametrisation.",
  [M+"transform/simplification.py",U+"graphutils.py",M+"pgmodel.py",M+"cmodel.py"],[("barren / disconnected removal",M+"transform/simplification.py"),("d-separation",U+"graphutils.py")],["minimalize, barren_nodes, dsep_nodes, markov_blanket, submodel"])
p("C09","Interventional queries follow the truncated factorisation",
  "For every structural causal model, a causal query for targets under an intervention and evidence returns the distribution given by replacing the intervened variables' equations with the constants, all else unchanged, conditioned on the evidence. The intervened model returned to the user has those variables without parents and fixed at the given states, keeps every other mechanism and the set of endogenous variables, and intervening on a variable never changes the distribution of its non-descendants.",
  ["inputs","configurations"],"for all exogenous distributions, all structural equations, DAGs, interventions and evidence of positive probability",
  "Tests compare fixed numbers on a couple of models.",
  [I+"causal/causal.py",I+"causal/elimination.py",M+"cmodel.py",F+"mulitnomial.py",F+"deterministic.py"],
  [("intervention surgery",M+"cmodel.py"),("causal query",I+"causal/causal.py"),("constant factor",F+"mulitnomial.py")],["causal_query, intervention"])
p("C10","Counterfactual queries share the background across worlds",
  "A counterfactual query returns the distribution of the targets in the hypothetical worlds given evidence observed in the factual world, where all worlds share the same exogenous values and each world has exactly its own intervention. Several simultaneous interventions define separate worlds, targets may be taken from any of them (from the first unless said otherwise), and the answer is conditioned on the factual evidence only.",
  ["inputs","configurations"],"for all exogenous distributions, structural equations, interventions (one or two worlds), targets and evidence of positive probability",
  "Tests check a few counterfactual numbers on fixed models.",
  [I+"causal/causal.py",M+"transform/combination.py",M+"cmodel.py"],[("twin network fusion",M+"transform/combination.py"),("world naming and evidence",I+"causal/causal.py")],["counterfactual_query"])
p("C11","Necessity and sufficiency probabilities match their definitions",
  "The probability of necessity is the probability that the effect would have been false had the cause been false, given both were true; sufficiency is the probability that the effect would have been true had the cause been true, given both were false; and necessity-and-sufficiency is the joint probability that the effect is false under cause false and true under cause true. They use the given true/false states, or, by default, 1/0 (or True/False, or name1/name0, name1/name2) as true/false whatever the order the states are listed in.",
  ["inputs","configurations"],"for all exogenous distributions, structural equations and state labellings",
  "Tests compare a few numbers on one model.",
  [I+"causal/causal.py",U+"domainutils.py",I+"causal/multi.py"],[("PN/PS/PNS queries",I+"causal/causal.py"),("true/false detection",U+"domainutils.py")],["prob_necessity, prob_sufficiency, prob_necessity_sufficiency"])
p("C12","The c-component factorisation reproduces the observational distribution",
  "The confounded components partition the variables: two endogenous variables are in one component exactly when a chain of shared exogenous parents links them. The graph of the component factorisation is acyclic and its factors are the conditional distributions of the model given their parents in that graph; their product equals the distribution of the endogenous variables.",
  ["inputs","configurations"],"for all exogenous distributions, structural equations and causal DAGs within the bound",
  "Tests check components and factors for one model.",
  [M+"cmodel.py",M+"info.py"],[("exogenous subgraph components",M+"cmodel.py"),("q-graph and q-factors",M+"info.py")],["ccomponents, qgraph, get_qfactorisation, get_qbnet"])
p("C13","Probabilities and log-likelihoods of data are computed from the right entries",
  "A model's probability of complete observations is, for each observation in turn, the product of its tables' entries, and its log-probability is the logarithm of that (or of the product over the selected variables only). The log-likelihood a causal model assigns to a data set of endogenous variables is the sum over rows of the log of the row's probability under the model, and the maximum log-likelihood uses the empirical conditional frequencies instead.",
  ["inputs","configurations"],"for all table entries, exogenous distributions, equations and data rows",
  "Tests compare one or two numbers.",
  [M+"pgmodel.py",M+"cmodel.py",F+"mulitnomial.py"],[("product of entries",M+"pgmodel.py"),("likelihood via component factors",M+"cmodel.py")],["prob, log_prob, log_likelihood, max_log_likelihood"])
p("C14","Inference from data returns relative frequencies",
  "Counting a data set over some variables gives, for every joint state (present in the data or not), the number of rows with that state, missing cells counting under their own state, or that number over the number of rows when normalised. A query answered from data returns, for every target state, the fraction of the rows compatible with the evidence (and conditions) that have that state.",
  ["inputs","configurations"],"for all row multiplicities, column orders, domains, targets, conditions and evidence",
  "Tests compare one sampled data set.",
  [I+"probabilistic/datainference.py",U+"datautils.py"],[("row filtering and counting",U+"datautils.py"),("query",I+"probabilistic/datainference.py")],["to_counts, LaplaceInference.query"])
p("C15","An EM step computes exact expected-count estimates",
  "One expectation-maximisation step replaces each trainable variable's table by the normalised expected counts of the data under the current model: for every configuration, the sum over data rows of the posterior probability of that configuration given the row's observed cells, divided by the sum over the variable's own states. Other variables keep their tables, and further steps start from the updated model. A run makes the number of steps asked for, or stops after the first step that leaves every trained table as it was.",
  ["inputs","histories","configurations"],"for all parameters of the current model, all row multiplicities, patterns of missing cells and step counts within the bound",
  "Tests look only at final bounds of randomised runs with a tolerance.",
  [L+"parameter/expectation_maximization.py",L+"parameter/parameter.py",U+"datadeps.py"],[("expected counts",L+"parameter/expectation_maximization.py"),("relevant observations",U+"datadeps.py"),("iteration",L+"parameter/parameter.py")],["step/run and the learnt model's factors"])
p("C16","The gradient learner optimises the model's own likelihood",
  "The objective handed to the optimiser for an exogenous variable is, up to a constant, the negative log-likelihood the model assigns to the data as a function of that variable's distribution, infinite when an observed row becomes impossible. The feasible set is exactly the probability distributions over that variable, the search starts at the current distribution, and the optimum found becomes the variable's distribution in the learnt model while everything else stays as it was.",
  ["inputs","configurations"],"for all distributions, row multiplicities and structural equations within the bound",
  "Tests only look at final bounds of randomised optimisations.",
  [L+"parameter/gradient.py"],[("counts and compatibility",L+"parameter/gradient.py"),("objective and constraint",L+"parameter/gradient.py")],["objective/constraints passed to the optimiser; learnt model"])
p("C17","Interval answers are the exact envelope of the precise models",
  "A query over several precise models returns, entry by entry, the minimum and the maximum of the models' precise answers (or the list of precise answers when intervals are switched off), and scalar causal probabilities are returned as [min, max]. Restricting an interval factor, listing its values or reading a bound by name returns the corresponding lower and upper values, whatever store it is in and whichever order the models list their variables in, and after the set of models changes the next answer is about the new set.",
  ["inputs","configurations","histories"],"for all model parameters, numbers of models within the bound, and sequences of set/add/query",
  "Tests check two or three models with fixed numbers.",
  [I+"causal/multi.py",F+"imprecise.py"],[("envelope",F+"imprecise.py"),("per-model inference",I+"causal/multi.py")],["CausalMultiInference queries, IntervalProbFactor"])
p("C18","Saving to UAI and reading back preserves the model",
  "Writing a Bayesian network or a structural causal model to a UAI file and reading it back gives the same model up to the positional naming of variables and states: same arcs, same cardinalities and every table entry (or equation) at the same assignment. This holds for any number and order of parents, nodes without arcs, equations given as tables or as functions, and any probability value, however it is printed.",
  ["inputs","configurations"],"for all table entries and structural equations, all DAGs within the bound and any float rendering",
  "Tests round-trip a few files whose numbers are all plain decimals.",
  [R+"bnwrite.py",R+"bnread.py",R+"scmwrite.py",R+"scmread.py",F+"mulitnomial.py"],[("writer layout",R+"bnwrite.py"),("number scanner and rebuild",R+"bnread.py")],["save / read with .uai"])
p("C19","Conversion to and from pgmpy networks preserves every probability",
  "Converting a Bayesian network to a pgmpy network and back, or through the BIF-style readers and writers built on it, preserves the nodes, the arcs, the states and the value of every table entry at every assignment. This holds for any number and order of parents, mixed cardinalities, any position of the child in its own table, and nodes without arcs.",
  ["inputs","configurations"],"for all table entries, parent counts, cardinalities, table layouts and DAGs within the bound",
  "Tests convert one network whose tables have few parents and one layout.",
  ["bcause/conversion/pgmpy.py",R+"bnread.py",R+"bnwrite.py"],[("table flattening",  "bcause/conversion/pgmpy.py"),("reassembly","bcause/conversion/pgmpy.py")],["toTabularCPT, toMultinomialFactor, toPgmpyBNet, toBCauseBNet"])
p("C20","Sampling draws every variable from its own conditional distribution",
  "Each sampled row is complete, uses declared states only, and every variable's value in it was drawn with probabilities equal to that variable's table given the values its parents have in the same row. A sample from a single factor is drawn with the factor's normalised probabilities; a variable with zero probability for a state given its parents never takes it.",
  ["inputs","configurations"],"for all table entries, DAGs within the bound and every outcome of the random draws",
  "Tests compare empirical means of one seed; wrong conditioning for rare rows is invisible there.",
  [M+"sampling.py",M+"pgmodel.py",F+"mulitnomial.py"],[("ancestral sampling",M+"sampling.py"),("draw",F+"mulitnomial.py")],["model.sample, factor.sample, sample_conditional"])
p("C21","Generated factors and models are valid",
  "Random and uniform tables are non-negative and sum to one over the left-hand variables for every configuration of the right-hand ones, strictly positive when zeros are disallowed; random equations assign exactly one state per parent configuration. The canonical equation of a variable enumerates every function from its endogenous parents' configurations to its states exactly once over the exogenous states, and randomising the factors of a model changes exactly the requested variables.",
  ["inputs","configurations"],"for every outcome of the random source, all domains and left/right splits within the bound",
  "Tests look at a few seeds.",
  [F+"mulitnomial.py",F+"deterministic.py",M+"cmodel.py",U+"arrayutils.py",U+"domainutils.py"],[("normalisation",U+"arrayutils.py"),("random assignment",U+"domainutils.py"),("canonical enumeration",F+"deterministic.py")],["random_multinomial, uniform_multinomial, random_deterministic, canonical_*"])
p("C22","Converting between equation, table and network forms keeps the mechanism",
  "Turning an equation into a table gives probability one to the state the equation assigns and zero to all others, at every parent configuration and whatever the variable order; turning such a table back gives the same equation, with the state labels. Casting a structural causal model to table form or to a Bayesian network keeps the graph, every mechanism and the roles of the variables that the target form can express.",
  ["inputs","configurations"],"for all structural equations, label types, variable orders and storages",
  "Tests convert one or two equations with 0/1 labels.",
  [F+"deterministic.py",F+"mulitnomial.py",M+"cmodel.py",M+"transform/conversion.py"],[("to_multinomial / to_deterministic",F+"deterministic.py"),("model casts",M+"cmodel.py")],["to_multinomial, to_deterministic, to_bnet, causal_to_bnet"])
p("C23","Renaming variables changes names and nothing else",
  "Renaming some or all variables of a factor or a model yields the same factor or model under the new names: the value at every renamed assignment, the sides, the arcs, the endogenous set and the answer to every renamed query are unchanged, and the original is untouched. Renaming back restores the original.",
  ["inputs","configurations"],"for all values, partial and full renamings (including swaps) and models within the bound",
  "Tests rename all variables of one model.",
  [F+"factor.py",M+"pgmodel.py",M+"cmodel.py"],[("rename_vars",F+"factor.py"),("rename_vars",M+"cmodel.py")],["rename_vars"])
p("C24","Operations leave their inputs alone and do not depend on history",
  "Factor operations, queries, interventions, casts, renamings, sampling, learning and saving never change the factors, models or data passed to them (models' domains and graphs included). Overwriting the values of a result afterwards (set_value, set_factor) leaves the operands and the other results alone, and vice versa, and so does reusing the arrays and dictionaries a factor was built from. Repeating an operation on the same objects, after any other operations, gives the same result as the first time, and a learner or engine used before answers as a new one would.",
  ["inputs","histories"],"for all values, models and sequences of operations within the bound",
  "Tests check results, not the state of the operands after other calls.",
  [F+"mulitnomial.py",V+"numpystore.py",I+"probabilistic/elimination.py",I+"causal/causal.py",M+"cmodel.py",L+"parameter/expectation_maximization.py"],[("copy-on-write stores",V+"numpystore.py"),("model copies",M+"pgmodel.py"),("learner state",L+"parameter/parameter.py")],["operands and repeated results"])
p("C25","Models accept exactly the well-formed inputs",
  "A structural causal model accepts a mechanism table for an endogenous variable exactly when all its entries are 0 or 1, and any model accepts a factor for a variable exactly when its left side is that variable, its right side is that variable's parents and its states agree, in any listing order, with those already declared or used by the model's other factors; a rejected factor leaves the model as it was. Cyclic and undirected graphs are rejected, and a graph given in bracket notation has exactly the nodes and arcs written. Ill-posed queries (unknown variables, repeated targets, targets among the evidence, conditions or interventions, interventions to unknown states, counterfactual worlds the query does not have) raise an error and never return a factor; well-posed ones return a factor over exactly the variables asked for.",
  ["inputs","configurations"],"for all table values and all graph/scope combinations within the bound",
  "Tests try a few wrong inputs; acceptance is a condition on every entry.",
  [M+"pgmodel.py",M+"cmodel.py",F+"factor.py",I+"probabilistic/probabilistic.py"],[("set_factor checks",M+"pgmodel.py"),("degenerate check",F+"factor.py"),("query checks",I+"probabilistic/probabilistic.py")],["constructors, set_factor, query"])
p("C26","An EM step never lowers the likelihood",
  "After each expectation-maximisation step the learnt tables are probability distributions, and the likelihood of the training data under the updated model is at least the likelihood under the previous one. A model that already reproduces the data's frequencies exactly is left unchanged by a step, tables outside the trained variables never change, and distributions given parents' configurations that the data rule out are kept.",
  ["inputs","histories"],"for all parameters of the current model and the data sets within the bound",
  "Tests look at final results of a few random starts; monotonicity is a statement about every starting point.",
  [L+"parameter/expectation_maximization.py"],[("expected counts and normalisation",L+"parameter/expectation_maximization.py")],["likelihood before and after a step"])
p("C27","DAG notation round-trips",
  "Printing a DAG in bracket notation and parsing it back gives the same nodes and arcs, isolated nodes and single-node graphs included.",
  ["inputs"],"for all DAGs and variable names free of the notation's separators",
  "Tests parse one string.",
  [U+"graphutils.py",M+"pgmodel.py"],[("dag2str / str2dag",U+"graphutils.py")],["dag2str, str2dag, models built from strings"])
p("C28","Learning converges to a maximum-likelihood model",
  "Run without an iteration limit, the learners end at parameters whose likelihood is the maximum the data allow, within tolerance, and the interval over several runs lies inside the true bounds.",
  ["inputs","histories"],"for all data sets and starting points",
  "Tests sample a few starts with wide tolerances.",
  [L+"parameter/gradient.py",L+"parameter/expectation_maximization.py",L+"aggregator/aggregator.py"],[("iteration / SLSQP",L+"parameter/gradient.py")],["learnt models"])
p("C29","Parallel learning gives what each learner gives alone, in any interleaving",
  "Learning several models with the parallel option yields the requested number of models and of learner objects; the i-th learner (and the history an engine reports for the i-th model) belongs to the i-th model; every model and every step of its history is what that learner gives when run alone from its own random start; the starts are drawn separately; all this under every interleaving of the learner threads.",
  ["schedules","inputs"],"for all interleavings of the learner threads and all random starts, within the bound",
  "Tests never enable the option, and a run samples one interleaving.",
  [L+"aggregator/aggregator.py"],[("joblib threads",L+"aggregator/aggregator.py"),("per-thread learner state",L+"parameter/expectation_maximization.py")],["aggregator.models, learn_objects; GDCC.get_model_evolution"])
p("C30","Learning by several runs: one model per run, answers over exactly those models",
  "An aggregator run n times holds n models and n learners in matching order, adds to the earlier ones when run again, and starts empty after a reset. Every run starts from a proper distribution with positive probabilities drawn anew for each trained exogenous variable, leaves every other table as given, and its model is what the single learner gives from that start; the tolerance and iteration limit given reach the learner. EMCC and GDCC answer every query with the envelope over exactly the models they learnt, the same ones for later queries, and the incremental compilation grows that set by the step requested until the number of runs is reached. The given model and data stay as they were; no models or no runs raise an error.",
  ["inputs","histories"],"for all random starts, optima and parameters within the bound, and all sequences of runs, resets and queries within the bound",
  "Tests run a few seeds and compare rounded results.",
  [L+"aggregator/aggregator.py","bcause/inference/causal/multi.py",M+"pgmodel.py"],[("generate / run / reset",L+"aggregator/aggregator.py"),("compile, compile_incremental, query dispatch","bcause/inference/causal/multi.py")],["aggregator.models, learn_objects; EMCC / GDCC queries, models, get_model_evolution, compile_incremental"])
p("C31","Seeding makes every random operation repeatable, and nothing else resets it",
  "After the library's seed function is called with a number, any sequence of random operations (samples from factors and models, conditional samples, random tables and equations, randomised models, learning runs) gives the same results every time it is repeated after the same seed, whatever ran before and whatever the number, 0 included. Without seeding again, later random operations never reuse earlier random numbers: operations that have nothing random about them (queries, elimination orderings, likelihoods, learning steps, saving, renaming) neither reset the generators nor use up their numbers, and random operations do not reset them either.",
  ["inputs","histories"],"for all random numbers and all pairs of random operations with the listed operations in between",
  "Tests fix a seed and compare rounded results once; they cannot tell an operation that draws from a stream of its own or resets the generator.",
  [U+"randomUtil.py",F+"mulitnomial.py",M+"sampling.py",M+"pgmodel.py",I+"ordering.py",U+"domainutils.py",L+"aggregator/aggregator.py"],
  [("seed",U+"randomUtil.py"),("draws of tables and samples",F+"mulitnomial.py"),("own generator of the orderings",I+"ordering.py")],["results of random operations after seeding"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
