HOW = {
"C01": "Both operands get arbitrary symbolic entries; the result's value at every joint assignment must equal the operation on the operands' values at that assignment (`unsat` of the difference). Scopes, variable orders, orders of shared states and storages are enumerated, 0/0 through symbolic zero patterns. Tests compare a few literal tables in matching layouts.",
"C02": "Symbolic entries; each remaining entry of a sum- or max-out must equal the sum/maximum over the removed states, all at once and one by one in every order.",
"C03": "Symbolic entries; after restricting, every entry must be the operand's entry at the combined assignment; `get_value`, value lists, dictionaries and arrays (in every requested order) must give the same terms.",
"C04": "Left/right sides are compared with the rule in the statement after every operation and in chains; for tables that are symbolic conditional distributions the round trip (product, then division) must give back every entry.",
"C05": "Symbolic positive tables (with structural zero patterns); each entry of the answer times P(evidence) must equal the brute-force sum of the joint.",
"C06": "As C05, cross-multiplied with P(conditions, evidence); values at impossible conditions are left free.",
"C07": "One symbolic network is built in many listings, storages and with every heuristic; the answers must be the same terms at the same assignment as the definition gives; sequences of queries on one engine repeat the comparison.",
"C08": "Simplified models are queried with symbolic tables and compared with the full joint. Separation statements: if reported separated, the conditional distribution must not depend on the node for any parametrisation (`unsat`); if reported connected, some parametrisation must make it depend (`sat`). Submodels over ancestral sets are compared with the model, table by table and role by role.",
"C09": "Symbolic exogenous distributions and solver-chosen equations; reference: substitute the constants and sum over the exogenous states.",
"C10": "As C09 with one copy of the endogenous variables per world over shared exogenous states.",
"C11": "The three probabilities against the counterfactual definition by summation over exogenous states, for every listing of the states and explicit true/false states.",
"C12": "Components against the closure of `shares an exogenous parent`; each q-factor against the conditional of the brute-force joint; their product against the endogenous joint.",
"C13": "Probability and log-probability per record and variable as products of symbolic entries (logs compared by exponentiation); log-likelihoods likewise; the maximum log-likelihood against relative frequencies of symbolic multiplicities.",
"C14": "Data frames whose records have symbolic multiplicities; counts and answers must be the corresponding sums and quotients.",
"C15": "`initialize`, `step` and `run` on symbolic models with symbolic multiplicities against expected counts computed per record from the brute-force joint.",
"C16": "`scipy.optimize.minimize` is taken over: the objective it receives is evaluated at two symbolic distributions (differences must equal that of the negative log-likelihood), the constraints and bounds at an arbitrary point of R^k (feasible exactly for distributions), the start and the use of the returned optimum are compared.",
"C17": "Several symbolic models; every bound must be at most (at least) each precise answer and equal to one of them.",
"C18": "Real files in a scratch directory. A symbolic probability prints as a literal unique to it; the reader must return it at the same assignment.",
"C19": "As C18 through pgmpy objects and BIF/XMLBIF files.",
"C20": "Random sources are taken over: each draw forks over its outcomes and records the probabilities it was given, which must be the variable's table given the row's parents.",
"C21": "Uniform draws are arbitrary numbers of the interval; sums, signs and one-state-per-column must hold for all; canonical equations are compared with the set of all functions.",
"C22": "Equations chosen by the solver, converted to tables, back, to data frames and to networks; values per assignment.",
"C23": "Values, sides, arcs, sets and query answers under the new names against the original, symbolic throughout.",
"C24": "Snapshots (every symbolic term, order, dictionary, graph) of all inputs before and after each operation, and of results when operations are repeated after others or operands overwritten.",
"C25": "Entries of mechanism tables are arbitrary reals: the constructor's decision must be `all are 0 or 1` on every path. Scopes, states, graphs and queries are enumerated with the accept/reject rule as oracle; a rejected factor must leave every term in place.",
"C26": "One or two EM steps on symbolic models: sums to one, the likelihood after minus before is not negative (nonlinear query), and at models that reproduce the data's frequencies the step must return the same terms.",
"C29": "The threads run for real, one at a time; before every line of the aggregator and every call in the learning code the scheduler may switch, each switch being a forked choice; on every interleaving, for arbitrary random starts and optima, models, learners and histories are compared with what the same learner gives alone.",
"C30": "Random starts and optima arbitrary; models, learners, histories, engines' answers and increments against single learners and the envelope over the same models; starts of different runs must be able to differ.",
"C31": "Both generators are streams of arbitrary numbers indexed by seed and position. The same operations after the same seed must give the same symbolic terms, on every outcome of the discrete draws, with other operations before; without reseeding no position of a stream may be read twice, and operations with nothing random in them must leave the position where it was.",
}
