"""The properties (single source): `python -m mc.spec` writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/sims_pars/'
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None, technique='', note='', na=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why,
         'anchors': {'files': [S + f for f in files],
                     'mechanism': [{'name': n, 'where': S + w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': S + w} for n, m, w in state]
    d['anchors']['observe_at'] = observe or []
    d['anchors']['hook_needed'] = None
    d['_'] = (technique, note, na)
    P.append(d)


EXH = 'exhaustive enumeration of %s on the real code, compared with a reference model'

prop('C01', 'Forward sampling follows the joint law of the network',
     'Sampling a complete network returns exactly one value for every node: nodes given by the caller keep the given value, '
     'constants and functions equal their definition evaluated at the values of their parents in the same sample, and random '
     'nodes are drawn from their distribution at those values, independently of one another. The resulting joint law does not '
     'depend on the order in which the nodes were defined or on their names. The caller\'s given values are left unaltered.',
     ['inputs', 'programs'],
     'for every acyclic network, order of definition, set of given nodes (all exogenous nodes included) and outcome of every draw',
     'The tests sample two or three fixed networks and check a few values or key sets; no test looks at the joint law or at '
     'conditional inputs other than exogenous ones.',
     ['fn.py', 'bayesnet/bn.py', 'bayesnet/loci.py'],
     [('sample', 'fn.py:sample'), ('topological order', 'bayesnet/bn.py:BayesianNetwork.Order'),
      ('rendering of one node', 'bayesnet/loci.py:*Loci.render')],
     observe=['return value of sims_pars.sample', 'sample_chromosome'],
     technique=EXH % 'all small networks, given sets and outcomes of every random draw (controlled chooser)',
     note='all networks with <=3 nodes in every order and naming scheme, all 4-node networks; exact rational law')

prop('C02', 'Minimal sampling is exact for the requested nodes',
     'Sampling only what is needed for a set of target nodes, given some nodes, returns values of the targets (and, when '
     'asked for, of exactly the nodes that mediate) whose joint law equals the law of these nodes in the full network when the '
     'given nodes are held at their given values. Exogenous inputs are demanded only if some target depends on them around the '
     'given nodes, and a missing one is an error. The caller\'s given values are left unaltered.',
     ['inputs', 'programs'],
     'for every acyclic network, non-empty target set, set of given nodes and outcome of every draw',
     'One test checks the node set of one network; none checks values, laws or missing inputs.',
     ['fn.py', 'bayesnet/dag.py'],
     [('sample_minimally', 'fn.py:sample_minimally'), ('sufficient nodes', 'bayesnet/dag.py:DAG.get_sufficient_nodes'),
      ('minimal requirements', 'bayesnet/dag.py:DAG.get_minimal_nodes')],
     observe=['return value of sims_pars.fn.sample_minimally'],
     technique=EXH % 'all small networks, (targets, given) set pairs and outcomes of every draw',
     note='all networks <=3 nodes x all set pairs; 4 nodes bounded set sizes (thorough: all)')

prop('C03', 'The log density of an assignment is the chain-rule sum',
     'The log density of an assignment of values is the sum, over the assigned random nodes of the network, of the log density '
     'of the node\'s value under its distribution at the assigned values of its parents; constants, functions, exogenous nodes '
     'and names outside the network add nothing, and the order of the assignment is irrelevant. A value outside the support, or '
     'parameters outside their domain, give minus infinity and not an error. Every sampled chromosome '
     'carries the log density of its own values.',
     ['inputs', 'programs'],
     'for every acyclic network and every assignment that contains the parents of its random nodes, on and off the support',
     'The tests evaluate one full assignment of one network and compare nothing but its sign or finiteness.',
     ['fn.py', 'bayesnet/loci.py', 'bayesnet/chromosome.py'],
     [('evaluate_nodes', 'fn.py:evaluate_nodes'), ('log density of one node', 'bayesnet/loci.py:DistributionLoci.evaluate'),
      ('sample_chromosome', 'fn.py:sample_chromosome')],
     observe=['evaluate_nodes', 'Chromosome.LogProb'],
     technique=EXH % 'all small networks and parent-closed assignments over a value alphabet',
     note='all networks <=3 nodes, all parent-closed assignments over 4 values; 4 nodes full assignments (thorough: all)')

prop('C04', 'Interventions on a chromosome touch exactly what depends on them',
     'After any history of interventions on a chromosome, the intervened nodes have the imposed values, every other node that '
     'depends on a changed node is recomputed by its definition (random ones drawn afresh) from the current values, and every '
     'node that does not keeps its value. An intervention with no value draws the node from its own definition; '
     'interventions that change nothing keep the recorded probability, all others mark it as unknown; clones taken before are '
     'unaffected, and nodes absent from the chromosome are not added.',
     ['histories', 'programs', 'inputs'],
     'for every network, every finite sequence of interventions (single, several at once, without a value, with or without the '
     'network) and every outcome of the draws',
     'The tests apply one intervention to one three-node network.',
     ['bayesnet/chromosome.py', 'bayesnet/dag.py'],
     [('impulse', 'bayesnet/chromosome.py:Chromosome.impulse'), ('descendants', 'bayesnet/dag.py:DAG.descendants')],
     state=[('Locus', 'current values', 'bayesnet/chromosome.py:Chromosome'),
            ('LogProb', 'recorded log density, NaN when unknown', 'bayesnet/chromosome.py:Chromosome')],
     observe=['Chromosome items', 'Chromosome.LogProb', 'clone'],
     technique='explicit-state search over intervention histories of real chromosomes; exact law of every transition '
               'against a reference model',
     note='all networks <=3 nodes (and 4-node ones), depth 2-3 histories, all single/pair interventions')

prop('C05', 'A network always reflects the last accepted definition of each name',
     'After any history of definitions, redefinitions, rejected cyclic definitions, completions and re-openings, the network '
     'consists of exactly the last accepted definition of each name plus an exogenous node for every other name referred to; a '
     'definition that would close a cycle is rejected and changes nothing, and a complete network accepts no further '
     'definition. All derived relations (parents, children, ancestors, descendants, order, roots, leaves, random roots, '
     'exogenous nodes, randomness and determinism given other nodes) follow from these definitions alone.',
     ['histories', 'programs'],
     'for every finite sequence of construction operations and every network it reaches',
     'The tests build half a dozen fixed networks once, in one order, and never redefine or re-open one.',
     ['bayesnet/bn.py', 'bayesnet/dag.py', 'bayesnet/loci.py'],
     [('append_loci / append_from_definition', 'bayesnet/bn.py:BayesianNetwork.append_loci'),
      ('complete / defrost', 'bayesnet/bn.py:BayesianNetwork.complete'), ('graph', 'bayesnet/dag.py:DAG')],
     state=[('DAG', 'nodes, edges and the loci', 'bayesnet/bn.py:BayesianNetwork.DAG')],
     observe=['BayesianNetwork properties and queries'],
     technique='explicit-state search over construction histories; all reached networks compared with brute force',
     note='all histories <=3 (dedup. 4) of 31 operations over 3 names; all networks <=4 nodes')

prop('C06', 'JSON form, clone and copy preserve a network and are independent of it',
     'The JSON form of a network, sent through JSON text and read back, and its clones and copies describe the same network: '
     'same name, nodes, definitions, graph, descriptions, sampled law and log density; a clone is complete if the '
     'original is, a copy is open for changes. Changing either the copy or the original afterwards leaves the other as it was.',
     ['programs', 'histories'],
     'for every network, every kind of node and distribution, repeated round trips and every later change to either side',
     'The tests round-trip one function and no network; independence is never checked.',
     ['bayesnet/bn.py', 'bayesnet/loci.py'],
     [('to_json', 'bayesnet/bn.py:form_js'), ('bayes_net_from_json', 'bayesnet/bn.py:bayes_net_from_json'),
      ('clone / copy', 'bayesnet/bn.py:BayesianNetwork.copy'), ('loci_from_json', 'bayesnet/loci.py:loci_from_json')],
     observe=['to_json', 'bayes_net_from_json', 'clone', 'copy'],
     technique=EXH % 'all small networks, round trips and follow-up changes',
     note='all networks <=3 nodes, half of the 4-node ones, catalogue of all distributions')

prop('C07', 'Scripts are insensitive to layout and the generated script is faithful',
     'A network written as a script describes the same network whatever the order of its lines (definitions may precede those '
     'of their parents), indentation, spacing, tabs, blank lines, comment lines or line ends. The script generated from a '
     'network, read back, yields the same name, nodes, definitions, graph, descriptions and sampled law, and generating it '
     'again gives the same text.',
     ['programs', 'configurations'],
     'for every network, every layout of its text and every order of its lines',
     'The tests parse a few scripts in one layout each and never read a generated script back.',
     ['bayesnet/bn.py', 'bayesnet/loci.py'],
     [('bayes_net_from_script', 'bayesnet/bn.py:bayes_net_from_script'), ('form_script', 'bayesnet/bn.py:form_script'),
      ('parse_loci', 'bayesnet/loci.py:parse_loci')],
     observe=['bayes_net_from_script', 'to_script'],
     technique=EXH % 'all small networks, layouts and line orders; generated scripts replayed through the parser',
     note='all networks <=3 nodes x 18 layouts x line orders; third of the 4-node ones')

prop('C08', 'Combining two networks keeps the intended definition of every name',
     'Merging a second network into a copy of the first yields a network with all the names of both in which the definitions '
     'of the second one win; extending a network by another yields a network with all the names of both in which its own '
     'definitions win or, when overriding is declined, those of the other one. Every variable keeps all of its dependencies on the parents in its definition in force, a '
     'combination that would be cyclic is rejected, and the networks combined are left as they were.',
     ['programs', 'inputs'],
     'for every ordered pair of networks over shared or distinct names, frozen or open, with and without override',
     'One test merges two networks that share a single exogenous name; extension is never tested.',
     ['bayesnet/bn.py', 'bayesnet/dag.py'],
     [('merge', 'bayesnet/bn.py:BayesianNetwork.merge'), ('extend', 'bayesnet/bn.py:BayesianNetwork.extend'),
      ('merge_dag', 'bayesnet/dag.py:merge_dag')],
     observe=['merge', 'extend', 'state of both operands afterwards'],
     technique=EXH % 'ordered pairs of small networks over three names',
     note='networks over subsets of 3 names, every parent set and placement; thorough: all pairs with random kinds')

prop('C09', 'Graph queries agree with their definition on every graph',
     'For every directed acyclic graph, parents, children, ancestors, descendants, upstream and downstream sets, roots, '
     'leaves, topological order, sorting, removal of edges and of everything up- or downstream, merging, the minimal graph, the minimal and sufficient nodes for '
     'targets given other nodes, and offspring are what paths in the graph say, for no nodes at all too; queries do not change the graph.',
     ['inputs'],
     'for every directed acyclic graph, insertion order and argument node set',
     'The tests ask a few of the queries on one seven-node graph with one argument.',
     ['bayesnet/dag.py'],
     [('queries', 'bayesnet/dag.py:DAG'), ('minimal_requirements', 'bayesnet/dag.py:minimal_requirements'),
      ('get_sufficient_nodes', 'bayesnet/dag.py:get_sufficient_nodes'), ('minimal_dag', 'bayesnet/dag.py:minimal_dag')],
     observe=['return values of DAG queries'],
     technique=EXH % 'all directed acyclic graphs up to 5 nodes and all query arguments',
     note='all graphs <=4 nodes x all argument sets, all 5-node graphs (thorough: all pairs, 6 nodes)')

prop('C10', 'Every way of writing a distribution gives the same distribution',
     'Arguments of a distribution may be given by position, by name in any order, or left to their defaults, as numbers or '
     'expressions over the parents, and the resulting distribution depends only on the values they denote; the names of '
     'variables are told apart from names of functions and distributions. Unknown distributions, missing or unknown arguments '
     'and values outside the domain are rejected. Registered functions and data functions can be used like the built-in ones.',
     ['inputs', 'programs', 'configurations'],
     'for every shipped distribution, every split of its arguments over the ways of giving them, and every value of the parents',
     'The tests parse each distribution in one form with constant arguments.',
     ['prob.py', 'factory/craftstation.py', 'util.py', 'bayesnet/loci.py'],
     [('completing a definition', 'factory/craftstation.py:Atelier.complete_def'),
      ('creating', 'factory/craftstation.py:Atelier.create'), ('parsing', 'util.py:parse_function'),
      ('arguments', 'util.py:ParsedFunction.get_arguments')],
     observe=['parse_distribution', 'complete_function', 'loci of scripts'],
     technique=EXH % 'all argument forms of all shipped distributions',
     note='every positional/keyword/omitted split x 24 argument expressions x parameter grid')

prop('C11', 'Distributions: draws, support, moments and density belong to one law',
     'Each shipped distribution, for every valid choice of its parameters, draws values only from its stated support and, as a '
     'function of the underlying uniform variate, with the quantiles of one law; the log density, mean, standard deviation and '
     'interval are those of that same law: the density is minus infinity outside the support, sums or integrates to one, '
     'and is the documented one for the parametrisation (gamma by shape and rate, lognormal, triangle by bounds and mode, ...). '
     'Asking for n values yields n independent draws of the same law. Categories are drawn in proportion to their '
     'weights, and a weight may be zero.',
     ['inputs', 'configurations'],
     'for every shipped distribution, valid parameters, points on, off and around the support, and random answers',
     'The tests draw one sample of a few distributions and compare a mean with a loose tolerance.',
     ['prob.py'],
     [('wrapped distributions', 'prob.py:SpDouble / SpInteger'), ('constant', 'prob.py:Const'), ('category', 'prob.py:Category'),
      ('creators', 'prob.py:AbsCreator subclasses')],
     observe=['sample', 'logpdf', 'mean', 'std', 'Interval', 'Type'],
     technique=EXH % 'distributions x parameter grid x points x quantile cells of every draw',
     note='closed forms on a grid; scipy itself is trusted for nothing but its quantile functions being monotone')

prop('C12', 'Expressions mean what they say',
     'An arithmetic expression over variables, numbers and the documented mathematical functions reports exactly the variables '
     'it mentions, can be evaluated exactly when all of them have values, and then has its arithmetic value, whatever its spacing; '
     'the values it is given are left unaltered. A function call is split into its name, its positional and its named arguments in order, '
     'and its text form denotes the same call.',
     ['inputs', 'programs'],
     'for every expression, layout, environment and set of missing variables',
     'The tests evaluate three expressions at one environment.',
     ['util.py'],
     [('parse_math_expression', 'util.py:parse_math_expression'), ('evaluation', 'util.py:MathExpression.__call__'),
      ('parse_function', 'util.py:parse_function')],
     observe=['MathExpression', 'ParsedFunction'],
     technique=EXH % 'all expressions to operator depth 2 (3), layouts, environments and missing sets',
     note='>200k expressions x environments against direct evaluation')

prop('C13', 'Weighted resampling draws by normalised weights and reports the mean weight',
     'Resampling by log weights (or weights) draws positions independently in proportion to the weights, whatever constant is '
     'added to all log weights and however large or small they are; weights that are zero, or not finite, are never drawn. Drawn '
     'values, their log weights and their parameters stay aligned; the sample has the requested size; the mean weight reported is '
     'the log of the average weight, minus infinity (zero) if there is no weight at all. The inputs are left unaltered.',
     ['inputs', 'schedules'],
     'for every vector of weights and every outcome of the draws',
     'The tests resample one uniform vector and compare a rough mean.',
     ['util.py'],
     [('resample', 'util.py:resample'), ('log-sum-exp', 'util.py:lse')],
     observe=['resample'],
     technique='exhaustive enumeration of weight vectors and of all draws; exact law compared with the normalised weights',
     note='all vectors of <=3 (4) weights over 7 values incl. -inf, NaN, -4000')

prop('C14', 'Simulation cores hold the requested parameters and follow the law of the network',
     'A hierarchy of parameter groups over a network is accepted exactly if no group wants a variable floating that its own fixed '
     'variables rest upon. Every requested variable is fixed or floating in the group that asked for it, every other one on which it rests is placed so '
     'that all groups that need it see one shared value, and functions of fixed variables are fixed along with them. The values of the root core and of all cores bred under it follow the '
     'law of the network in which every variable is drawn once per core that holds it, given the values visible to that core '
     '(its own and those of the cores above it); variables fixed above are shared by siblings and never drawn again. '
     'Values given at generation or breeding are kept, and given dictionaries are left unaltered.',
     ['programs', 'inputs', 'configurations'],
     'for every network, hierarchy of groups, allocation of variables to groups as fixed or floating, and outcome of all draws',
     'The tests generate one hierarchy over one network and compare a few keys.',
     ['simulation/nodeset.py', 'simulation/simugroup.py', 'simulation/simucore.py', 'simulation/fn.py', 'simulation/parcore.py'],
     [('allocation', 'simulation/nodeset.py:NodeSet.inject_bn'), ('generation', 'simulation/simugroup.py:SimulationGroup.generate'),
      ('breeding', 'simulation/parcore.py:ParameterCore.breed')],
     observe=['as_simulation_core', 'SimulationCore.generate', 'ParameterCore.breed', 'ParameterCore.__getitem__'],
     technique=EXH % 'networks, group hierarchies, allocations and outcomes of all draws (exact rational law)',
     note='all 1-3-node networks x all allocations on one/chain (fifth on fork/three levels)')

prop('C15', 'Samplers of a core follow the conditional law given its current values',
     'Every floating variable of a core has a sampler, shared among siblings or local, whose draws follow the law of that variable '
     'given the values currently visible from the core, drawing afresh whatever lies in between; it never alters the values held. '
     'This stays true after any intervention, also for samplers obtained before it once they are obtained anew or updated.',
     ['programs', 'histories', 'inputs'],
     'for every network, hierarchy, allocation, reached state of the cores and outcome of the draws',
     'The tests call one or two samplers and look at the type of the answer.',
     ['simulation/actor.py', 'simulation/nodeset.py', 'simulation/parcore.py', 'simulation/simugroup.py'],
     [('actors', 'simulation/actor.py:CompoundActor.sample'), ('blueprints', 'simulation/nodeset.py'),
      ('get_samplers', 'simulation/parcore.py:ParameterCore.get_samplers')],
     observe=['get_samplers', 'get_sampler', 'get_child_samplers', 'Sampler.__call__'],
     technique=EXH % 'networks, allocations, reached states and outcomes of all draws of all samplers (exact law)',
     note='as C14 on a stride of allocations, before and after interventions')

prop('C16', 'Interventions on simulation cores reach exactly what depends on them',
     'An intervention at a core imposes the given values in that core and all cores below wherever they are held, draws afresh, '
     'in order and from the current visible values, every held random variable that depends on them (and those named '
     'without a value), recomputes the deterministic ones, and leaves everything else - other branches, cores above, other variables - '
     'as it was; one that names nothing changes nothing. The log prior of every touched core is that of its new values.',
     ['histories', 'programs', 'inputs'],
     'for every network, hierarchy, allocation, finite sequence of interventions at any cores, and outcome of the draws',
     'The tests apply two interventions on one hierarchy and compare one value.',
     ['simulation/parcore.py', 'simulation/simugroup.py', 'bayesnet/dag.py'],
     [('impulse', 'simulation/parcore.py:ParameterCore.impulse'), ('set_response', 'simulation/simugroup.py:SimulationGroup.set_response')],
     state=[('Locus', 'values held by a core', 'simulation/parcore.py:ParameterCore')],
     observe=['values of all cores', 'LogPrior', 'samplers'],
     technique='explicit-state search over intervention histories on real core hierarchies; exact law of every transition against a reference model',
     note='all <=2-node networks x all allocations x all interventions; strides for 3 nodes; histories of 2 (3)')

prop('C17', 'Life cycle of simulation cores: families stay consistent',
     'After any history of breeding, breeding siblings, duplicating, making prototypes, removing, detaching (with or without '
     'collecting the parameters of the parent), cloning (with or without the children, with or without the simulation core), moving to another simulation '
     'core and interventions: every core knows its parent, children, group and nickname; a core sees its own values before those above '
     'it; copies have equal values and log priors and share no state with the original; a detached core keeps its own values (and '
     'the collected ones); the log prior of a core is the log density of the random values fixed in it, the deep log prior adds those '
     'of all cores below; a nickname in use is refused.',
     ['histories', 'programs'],
     'for every network, hierarchy and finite sequence of life-cycle operations at any cores',
     'The tests breed and detach once; cloning with children, duplication and deep log priors are not tested.',
     ['simulation/parcore.py', 'simulation/simugroup.py', 'simulation/simucore.py'],
     [('breed', 'simulation/parcore.py:ParameterCore.breed'), ('detach', 'simulation/parcore.py:ParameterCore.detach_from_parent'),
      ('clone', 'simulation/parcore.py:ParameterCore.clone'), ('reset_sc', 'simulation/parcore.py:ParameterCore.reset_sc')],
     state=[('Children', 'cores bred under this one', 'simulation/parcore.py:ParameterCore'),
            ('Parent', 'core above', 'simulation/parcore.py:ParameterCore')],
     observe=['values, parents, children, log priors and samplers of all cores ever made'],
     technique='explicit-state search over life-cycle histories of real core families against a reference model; draws forced',
     note='366k histories of 2 operations in the quick tier; 3 operations thorough')


prop('C18', 'Data models serve, score and describe their free parameters consistently',
     'The free parameters of a data model are its real-valued random roots that are not fixed by the exogenous parameters; its domain lists '
     'exactly these, in order, with the limits, location and scale of their distributions. Prior draws follow the law of the network with the '
     'exogenous parameters held; serving a (partial) assignment keeps the given values, holds the exogenous parameters, completes the rest from the '
     'law given them, and carries the log density of the result; a record read back keeps its values and recorded log probability. '
     'The distance (log likelihood) of a particle is the sum over all targets, is computed once and kept; '
     'copies and JSON forms of a particle keep its parameters, free values and outputs, and changing a copy leaves the original alone. Sets of particles '
     'list them in order of insertion; tables over chromosomes have one row each, in order. Clones, JSON forms and data forms of a chromosome are what it '
     'was when they were taken, whatever happens to it or to them later.',
     ['inputs', 'programs', 'histories'],
     'for every network, exogenous parameters, partial assignment, outcome of draws, and history of operations on a particle',
     'No test covers the fitting package.',
     ['fit/base.py', 'fit/results.py', 'fn.py', 'bayesnet/chromosome.py'],
     [('serve / sample_prior / Domain', 'fit/base.py:DataModel'), ('particle', 'fit/base.py:Particle'), ('parameter set', 'fit/results.py:ParameterSet')],
     state=[('Notes', 'scores and summaries of a particle', 'fit/base.py:Particle')],
     observe=['DataModel.serve, sample_prior, evaluate_prior, Domain, FreeParameters, calc_distance, calc_likelihood', 'Particle', 'ParameterSet'],
     technique=EXH % 'all small networks x exogenous sets x assignments x outcomes of draws (exact law), and histories of operations on particles',
     note='all networks with <=3 nodes, all exo sets; 7-operation particle histories of length 4 (6)')

prop('C19', 'Targets measure the distance and likelihood of simulations as declared',
     'A source of targets (numbers, numbers with a relative error, values with a range, named distributions) is read into one target per '
     'name with the declared value and spread, or refused when malformed. The distance of a simulated value from a point target is zero at the '
     'target, positive elsewhere, and is the squared deviation over the scale of the target (relative error or range at the 95% level); for '
     'distributions it is minus the log density, the likelihood being the log density. Expected value and observation variance follow the declared '
     'spread. Only the entry of the target\'s own name is read; a missing one is an error.',
     ['inputs'],
     'for every finite list of targets in any form and every simulated value',
     'No test covers targets.',
     ['fit/targets/__init__.py', 'fit/targets/base.py', 'fit/targets/single.py', 'fit/targets/multi.py'],
     [('read_targets', 'fit/targets/__init__.py:read_targets'), ('single targets', 'fit/targets/single.py')],
     observe=['read_targets', 'calc_distance', 'calc_likelihood', 'ev', 'get_var_obs'],
     technique=EXH % 'all short lists of targets over a value grid in every form x simulated values',
     note='lists of <=2 (3) targets over 6 values x 3 errors x 3 forms, 4 ranges, 5 distributions')

prop('C20', 'Converters between the unit interval and parameter domains are increasing bijections',
     'For a domain with finite or infinite limits the converter maps the open unit interval onto it, increasing and continuous, the ends '
     'to the limits; mapping back gives the same number; with infinite limits the scale (and location, when unbounded on both sides) of the domain '
     'sets the spread (centre).',
     ['inputs'],
     'for every domain (limits, location, scale) and every point of the interval or domain',
     'No test covers converters.',
     ['fit/converter.py'],
     [('get_converter', 'fit/converter.py:get_converter')],
     observe=['uniform2value', 'value2uniform'],
     technique=EXH % 'a grid of domains x dense grids of points (and the domains of 15 shipped distributions)',
     note='5x5 limits x 3 locations x 4 scales x 129 (2049) points')

prop('C21', 'Rejection ABC keeps exactly the acceptable prior draws',
     'The threshold of rejection sampling is the requested quantile of the distances of the test runs (draws with infinite distance are replaced); the '
     'posterior consists of the requested number of prior draws, each the first after the last with a distance not above the '
     'threshold, with their parameters, simulations and log probabilities; the recorded threshold, acceptance ratio and effective size are those '
     'of the run. Serial and parallel runs agree given the same draws, and sampling posteriors again does not change the fit.',
     ['inputs', 'schedules', 'histories'],
     'for every model, settings and sequence of prior draws',
     'No test covers fitting.',
     ['fit/abcom/alg.py', 'fit/base.py', 'fit/results.py'],
     [('ApproxBayesCom', 'fit/abcom/alg.py:ApproxBayesCom')],
     state=[('Eps', 'threshold', 'fit/abcom/alg.py')],
     observe=['State.Eps', 'sample_posteriors'],
     technique='stateless exploration of the real sampler under all sequences of prior draws with a bounded number of deviations; each execution compared with a reference run',
     note='5 distance tables x 5 quantiles x sizes; <=3 (5) deviating draws')

prop('C22', 'Every round of ABC-SMC is a step of the algorithm',
     'Starting from the first requested number of prior draws of finite distance, equally weighted, each round sets the threshold to the quantile (alpha times the '
     'share of particles within the last threshold) of the distances, never rising; drops the weight of particles beyond it; resamples, by weight, iff the effective '
     'size is below its limit; proposes one perturbed valid parameter set per particle with step sizes of the weighted spread of the particles; '
     'replaces a particle by its proposal iff that lies within the threshold; weights sum to one, particles with weight lie within the threshold, '
     'and parameters, simulation, distance and log probability of a particle belong together. Runs stop by the documented rules (rounds, '
     'rounds without progress, acceptance), the trace lists every round, and a posterior draw follows the weights.',
     ['histories', 'inputs', 'schedules'],
     'for every model, settings, initial population and outcome of every draw',
     'No test covers fitting; the laws concern every round of every run.',
     ['fit/abc_smc/alg.py', 'fit/base.py', 'fit/results.py'],
     [('ApproxBayesComSMC', 'fit/abc_smc/alg.py:ApproxBayesComSMC')],
     state=[('Particles, Wts, Eps, Round, Stay', 'population of the sampler', 'fit/abc_smc/alg.py')],
     observe=['State after every round', 'Monitor.Trajectories', 'sample_posteriors'],
     technique='stateless exploration of the real sampler under controlled prior draws, resampling and perturbation (bounded deviations); every round checked against the transition relation',
     note='8 models x strides of all initial populations of 4-5 (6) particles x 9 settings; 3 (5) rounds')


prop('C23', 'Every wave of history matching keeps exactly the plausible candidates',
     'Each wave runs the requested number of simulations, of complete parameter sets at points of a space-filling design within the bounds reached by the '
     'wave before; emulators are trained on these points and their results on the scale on which they later predict. Candidates are drawn within the '
     'same bounds; the implausibility of a candidate is its largest distance from a target in units of the total standard deviation (model, '
     'observation, emulator); kept are exactly the candidates whose implausibility is at most the larger of the cut-off and the quantile given by the minimal acceptance. The next bounds span the '
     'kept candidates; errors, acceptance, cut-off and wave number recorded are those of the wave. Posterior parameters lie within the last bounds, and a run '
     'equals its waves carried out one at a time.',
     ['histories', 'inputs', 'schedules'],
     'for every model, emulator, settings, design and candidate draw',
     'No test covers history matching.',
     ['fit/hme/alg.py', 'fit/base.py', 'fit/targets/base.py'],
     [('BayesHistoryMatching', 'fit/hme/alg.py:BayesHistoryMatching'), ('emulator', 'fit/hme/emulator.py:GPREmulator')],
     state=[('Bounds, Wave, CutOff, MSE, Acc', 'state of the algorithm', 'fit/hme/alg.py')],
     observe=['State after every wave', 'simulations and training sets', 'sample_posteriors', 'Monitor.Trajectories'],
     technique='stateless exploration of the real waves under controlled designs and candidate draws (bounded deviations); every wave checked against the transition relation; emulators stood in for, the real one run once',
     note='4 models x 6 emulators x 45 settings; 2-3 (4) waves; <=1 (2) deviating draws')

prop('C24', 'Fitting has no memory of earlier use of the fitter',
     'Whatever was configured, fitted, sampled, attached or closed before, a fit with given settings and draws gives the state, posterior, trace and '
     'settings that a new fitter gives; settings passed to one fit replace the earlier ones and unknown ones are ignored; the defaults of '
     'the class, the models and the posteriors returned earlier are unchanged. Phases run in order (initialise, update until termination, collect) and errors '
     'are logged as errors.',
     ['histories'],
     'for every sequence of operations on a fitter',
     'No test fits anything, let alone twice.',
     ['fit/base.py', 'fit/abcom/alg.py', 'fit/abc_smc/alg.py', 'fit/hme/alg.py', 'monitor.py'],
     [('fit', 'fit/base.py:Fitter')],
     state=[('Settings, State, Monitor', 'fitter', 'fit/base.py:Fitter')],
     observe=['fit', 'sample_posteriors', 'Monitor.Trajectories', 'Settings'],
     technique=EXH % 'all histories of operations on the three fitters, each fit compared with that of a new fitter under the same draws',
     note='9 operations, histories of 3 (4), 3 fitters x 3 sequences of draws')

prop('C25', 'A monitor records exactly what was kept, step by step',
     'The trajectory of a monitor lists, in order, one row per step forward in time, with the values kept since the step before and the time from which the step was taken; '
     'a step to the current time does nothing, one backwards is refused and changes nothing; resetting empties the record and restarts at the given time. Trajectories and '
     'files written hold the same rows; messages of each level arrive at the log once, with their level.',
     ['histories'],
     'for every sequence of operations on a monitor',
     'The tests check one sequence.',
     ['monitor.py'],
     [('Monitor', 'monitor.py:Monitor')],
     state=[('Time, Last, Records', 'the record', 'monitor.py:Monitor')],
     observe=['Monitor.Trajectories', 'Monitor.save_trajectories', 'log files'],
     technique=EXH % 'all histories of operations on a monitor',
     note='12 operations, histories of 5 (6)')

prop('C26', 'Genetic operators combine, select and perturb as specified',
     'Crossover gives two children of which every parameter comes from the two parents (shuffle: each parameter, independently, from either, the other child '
     'getting the other; average: both the mean), unevaluated, the parents unaltered. Tournament and importance selection return the requested number of '
     'individuals with the laws of the best of a random subset, and of weights in proportion to the likelihood (posterior). Mutation adds a '
     'normal step, scaled by the spread of the population, to each parameter and keeps it within its limits.',
     ['inputs', 'schedules'],
     'for every population, fitness, limit and outcome of draws',
     'No test covers the operators.',
     ['fit/ga/cross.py', 'fit/ga/mutate.py', 'fit/ga/select.py'],
     [('crossover', 'fit/ga/cross.py'), ('mutators', 'fit/ga/mutate.py'), ('selection', 'fit/ga/select.py')],
     observe=['crossover', 'select', 'propose'],
     technique=EXH % 'all small populations and outcomes of every draw (exact law)',
     note='pairs over 1-3 parameters x 3 values; populations of 3-7; 2 (3) picks')

prop('C27', 'Data tables are read and sampled as written',
     'A transition matrix samples the next state with the weights of the row of the current state. A probability table samples '
     'combinations in proportion to their weights (repeated rows adding up), and conditioning or marginalising gives, in any order, the '
     'table of the conditional or marginal law and leaves the original as it was. Time series, vectors, probability series and Lee-Carter rates take, at any time, the '
     'value of their interpolation (nearest row by default, linear, previous) for any order of rows, and the first (last) value before (after) all rows. The source tables are unaltered.',
     ['inputs', 'histories'],
     'for every small table, order of rows, query and outcome of draws',
     'No test covers the data package.',
     ['data/frame.py', 'data/static.py', 'data/timeseries.py', 'data/datafunction.py'],
     [('ConditionalProbabilityTable', 'data/static.py'), ('time series', 'data/timeseries.py')],
     observe=['calls and samples', 'condition', 'marginalise'],
     technique=EXH % 'all small tables, orders of rows, histories of conditioning and marginalising, and draws (exact law)',
     note='2x2..2x2x2 (2x2x3) tables; 41 query times; histories of 2 (3)')

prop('C28', 'Regression models and hazards predict, describe and sample one and the same law',
     'A linear combination is the sum of the effects of its inputs (coefficient if true, coefficient times value, coefficient of the category), '
     'whatever their order. Linear, logistic and Poisson regressions have the expectation of their link at the intercept plus this '
     'sum; predictions and samplers follow that normal, Bernoulli or Poisson law; the categories of a multinomial model have probabilities that sum to one and grow with their '
     'score. Cumulative hazards and their inverses invert each other; (zero-inflated) Cox models sample the inverse at an exponential with the '
     'relative risk as rate (or zero, with the probability of zero), and mean, spread and density are those of that law. An unknown baseline is refused.',
     ['inputs', 'schedules'],
     'for every model, input and outcome of draws',
     'No test covers regression models.',
     ['data/reg/linear.py', 'data/reg/glm.py', 'data/reg/hazard.py', 'data/reg/survival.py'],
     [('regressions', 'data/reg/glm.py'), ('hazards', 'data/reg/hazard.py'), ('Cox models', 'data/reg/survival.py')],
     observe=['expectation', 'predict', 'get_sampler', 'cum_hazard', 'inv_cum_hazard', 'mean', 'std', 'logpdf', 'sample'],
     technique=EXH % 'all short lists of regressors x inputs x baselines x quantiles of every draw',
     note='8 regressors, lists of 2 (3); 20 baselines; 20-point quantile grids')

prop('C29', 'Results depend on definitions, calls and random numbers only',
     'Given the same definitions, the same calls and the same stream of random numbers, everything the system returns is the same, in the same order, '
     'in every process and however often it is done: samples and their log densities, interventions, listings (orders, roots, parents in JSON forms, free parameters, actors, '
     'samplers), simulation cores through their life, JSON forms, generated scripts and texts, states and posteriors of fits, genetic operators, draws of tables, '
     'regressions and distributions. In particular the order in which sets happen to be iterated (the hash seed of the process) decides nothing, '
     'nor does anything done before with other objects.',
     ['schedules', 'inputs'],
     'for every order in which sets of variable names can be iterated and every small network, hierarchy and choice of draws',
     'Tests run in one process and compare with tolerance or not at all; an order that varies between processes never shows.',
     ['bayesnet/bn.py', 'bayesnet/loci.py', 'bayesnet/dag.py', 'simulation/nodeset.py', 'simulation/simugroup.py', 'fit/base.py', 'fn.py', 'util.py'],
     [('order of nodes and parents', 'bayesnet/bn.py:BayesianNetwork'), ('placement of nodes', 'simulation/nodeset.py:NodeSet'), ('free parameters', 'fit/base.py:DataModel'),
      ('variables of expressions', 'util.py:find_ast_parents')],
     observe=['sample', 'sample_minimally', 'to_json', 'to_script', 'generate', 'breed', 'impulse', 'list_actors', 'get_samplers', 'fit', 'sample_posteriors'],
     technique='exhaustive enumeration of the iteration orders of sets of names (one process each) x small networks, hierarchies and draws, transcripts compared with their order',
     note='6 (24) orders of iteration; networks of <=3 nodes; cores of a fraction of the requests; fits with three fixed streams')

prop('C30', 'A failure is reported, changes nothing it should not, and leaves no false record',
     'When a draw, a density, a simulation or a distance fails (raises) in the middle of an operation, the operation raises that failure instead of hiding it; the values given, '
     'the network, the data model, the settings and everything the operation does not concern stay as they were. Nothing false stays behind: a chromosome never reports a log density '
     'of values it no longer holds, a failed distance, likelihood or prior is not noted, a child that could not be generated is no member of its family. And the operation can be '
     'repeated: sampling, generating, breeding and samplers follow the same law as before the failure, a repeated intervention leads where it would have led at once '
     '(values, priors, samplers), a fit after a failed fit equals that of a new fitter, and a failed fit never offers the posteriors of an earlier one.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'for every point at which an operation can fail',
     'Tests never make anything fail half-way.',
     ['bayesnet/chromosome.py', 'fn.py', 'simulation/parcore.py', 'simulation/simugroup.py', 'simulation/actor.py', 'fit/base.py', 'fit/abcom/alg.py', 'fit/abc_smc/alg.py', 'fit/hme/alg.py'],
     [('interventions', 'bayesnet/chromosome.py:Chromosome'), ('family of cores', 'simulation/parcore.py:ParameterCore'), ('fits', 'fit/base.py:Fitter')],
     observe=['exceptions', 'values and LogProb', 'generate', 'breed', 'impulse', 'samplers', 'notes of particles', 'fit', 'sample_posteriors'],
     technique='exhaustive fault injection (every draw, density, simulation or distance of an operation fails once), exact laws of what follows',
     note='one failure per operation; networks of <=3 nodes, hierarchies up to a fork; every failing answer of small fits')

prop('C31', 'The bundled example models follow their equations',
     'The beta-binomial example simulates two independent binomial counts (10 and 20 trials) with the probabilities served; the example of two normals simulates means of independent normal '
     'samples of the declared size with the means and spread served, and its data are such means; the SIR example solves the SIR equations for the rates served (10 infected of 1000): '
     'prevalence, incidence and recoveries at times 2 to 7 are those of that epidemic, a function of the rates alone, and its data are the epidemic at the true rates, which are at distance zero. '
     'Priors, domains, free parameters and distances of each are those of its script and its targets.',
     ['inputs', 'schedules'],
     'for every choice of parameters and data and every outcome of draws',
     'No test covers the example models, on which tutorials and fits are tried out.',
     ['fit/toys.py'],
     [('examples', 'fit/toys.py')],
     observe=['serve', 'simulate', 'calc_distance', 'Domain', 'Data'],
     technique=EXH % 'grids of parameters and data, all quantiles of every draw (exact law); reference integration of the epidemic',
     note='5 x 5 probabilities, 20 quantiles; 15 normals, 6 quantiles; 30 epidemics')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d in P:
            f.write(json.dumps({k: v for k, v in d.items() if k != '_'}) + '\n')
    checks, na = [], []
    for d in P:
        t, n, r = d['_']
        if r:
            na.append({'property': d['id'], 'reason': r})
            continue
        checks.append({'property': d['id'], 'quick_cmd': './check %s --tier quick' % d['id'],
                       'thorough_cmd': './check %s --tier thorough' % d['id'],
                       'evidence_file': 'evidence/%s.json' % d['id'], 'technique': t, 'level': 'model_checking',
                       'level_note': n})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
         'notes': 'Pure Python, no build step: the checks import /repo/src directly. No hooks are needed.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
