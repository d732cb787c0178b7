#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the anchors stay readable)."""
import json, os
H = "include/dcgp/"
P = []
def prop(id, title, statement, over, text, tests, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
              "anchors": {"files": [H + f if not f.startswith("dcgpy") else f for f in files],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "One seeded random sequence, shared by all threads without loss or repetition",
     "After the global random generator is seeded with s, the values handed out are exactly the consecutive values of the Mersenne-twister sequence started by s, whatever threads ask for them: every value is handed out exactly once, each thread sees its values in sequence order, and the multiset handed out does not depend on the schedule. "
     "Re-seeding restarts the sequence atomically, so that every value handed out belongs either wholly to the old or wholly to the new sequence; the same seed always gives the same sequence.",
     ["schedules", "histories", "inputs"], "every seed, every interleaving of draws and re-seeds by any number of threads",
     "test/rng.cpp draws from a single thread with one seed; no schedule with two threads is ever run.",
     ["rng.hpp"], [("mutex around the engine", "random_device::next, random_device::set_seed"), ("lazily seeded static engine", "detail::random_device_statics")],
     [("m_e", "position in the current pseudo-random sequence", "detail::random_device_statics"), ("m_mutex", "protects the engine", "detail::random_device_statics")],
     ["random_device::next", "random_device::set_seed"])
prop("C02", "The type-erased function wrapper is an independent value",
     "A function wrapper behaves as a value: a copy (constructed or assigned, self-assignment included) holds an equal but independent callable, so that calling, changing or destroying one never changes what the other returns; a move transfers the callable and leaves the source reporting itself as not valid; saving and loading yields an equal, independent wrapper, also through the containers that hold wrappers. "
     "Calling a wrapper that holds no function (default-constructed, or made from a null function pointer) raises an error, extraction yields the callable only when asked with its exact stored type, the call forwards all arguments unchanged and returns the callable's result, and a failing load leaves the target unchanged.",
     ["histories", "inputs"], "every sequence of construct/copy/move/assign/swap/call/extract/save/load over any number of wrapper objects and stored types",
     "test/function.cpp runs one straight-line history per feature with one object; aliasing between several objects, moved-from sources and failed loads are not sampled.",
     ["function.hpp", "s11n.hpp"], [("deep clone of the erased callable", "function::function(const function&), function_inner::clone"), ("empty check before the call", "function::operator()"), ("load into a temporary then swap", "function::load")],
     [("m_ptr", "the stored callable, or nothing", "function")], ["function::operator()", "function::extract", "function::is", "function::is_valid"])
prop("C03", "Thread-safety guarantees are never overstated",
     "The thread-safety level reported by a function wrapper is that of the callable it holds; that of a kernel is the weaker of its numeric and symbolic callables; and that of a symbolic-regression problem is the weakest over its kernels. "
     "The reported level is unchanged by copying, moving, assigning, and saving and loading at any of these layers.",
     ["histories", "configurations"], "every combination of levels of the callables, every kernel set, every history of copies, moves, assignments, saves and loads",
     "test/function.cpp looks at the level of a freshly built function only; nothing looks at a level after a load, or at kernels and problems with mixed levels.",
     ["function.hpp", "kernel.hpp", "problems/symbolic_regression.hpp"], [("level read from the erased callable", "function::get_thread_safety"), ("min of the two callables", "kernel::kernel"), ("min over kernels", "symbolic_regression::get_thread_safety")],
     [("m_thread_safety", "cached level of a kernel", "kernel")], ["function::get_thread_safety", "kernel::get_thread_safety", "symbolic_regression::get_thread_safety"])
prop("C04", "Kernels and kernel sets keep their functions, names and order",
     "A kernel evaluates its numeric function on numbers and its symbolic function on strings, prints as its name, and keeps all three through copies, moves, assignments, and saving and loading. "
     "A kernel set lists exactly the kernels pushed, in push order, each under the name asked for; asking for an unknown name raises an error, leaves the set as it was, and all ways of building the same set (list of names, vector of names, one by one) agree.",
     ["histories", "inputs"], "every sequence of pushes (valid and invalid names, names and kernels), clears, copies, moves and round trips",
     "No test of the kernel set checks contents after an error, and kernels are only checked for a handful of names.",
     ["kernel.hpp", "kernel_set.hpp", "wrapped_functions.hpp"], [("name table", "kernel_set::push_back(std::string)"), ("two callables and a name", "kernel"), ("serialization registrations", "wrapped_functions_s11n_implement.hpp")],
     [("m_kernels", "the ordered set", "kernel_set"), ("m_f, m_pf, m_name", "callables and name", "kernel")], ["kernel_set::operator()()", "kernel_set::operator[]", "kernel::operator()"])
prop("C05", "Every built-in basis function computes its formula, in every numeric type",
     "Each built-in basis function returns, for every number of arguments it accepts, the value of its defining formula (protected division returns 1 on a non-finite quotient), and the text it prints for symbolic arguments denotes that same formula (for protected division, the plain quotient) of its arguments, whichever printed basis functions the arguments are. "
     "Evaluated on truncated-Taylor numbers it returns the same value and the exact derivatives of that formula.",
     ["inputs"], "all basis functions, all arities, all argument values and nested symbolic arguments",
     "test/wrapped_functions.cpp samples one or two points per function, never composes the printed forms, and cannot be built here.",
     ["wrapped_functions.hpp"], [("numeric functor per type", "my_*"), ("printers", "print_my_*")], (), ["kernel::operator()", "kernel_set"])
prop("C06", "A chromosome is always valid; invalid input is rejected and changes nothing",
     "For every accepted set of construction parameters the bounds on the genes are those of the Cartesian encoding (function genes index the kernels; connections of a column reach only the inputs, or the previous levels-back columns; outputs likewise), and after construction and after every public operation every gene lies within its bounds, so that the program is feed-forward. "
     "Invalid construction parameters, chromosomes, gene indices or constants raise an error, and a call that raises leaves the expression exactly as it was.",
     ["histories", "inputs", "configurations"], "every geometry (inputs, outputs, rows, columns, levels-back, variable arity, kernels, ephemeral constants), every sequence of operations valid or invalid",
     "Tests construct a few geometries and run a few operations; a levels-back or arity corner, or a failing call half way through, is not sampled.",
     ["expression.hpp"], [("bounds", "expression::init_bounds_and_chromosome"), ("argument checks", "check_cgp_encoding, sanity_checks, mutate")],
     [("m_x", "the chromosome", "expression"), ("m_lb, m_ub", "bounds", "expression")], ["expression::get", "expression::get_lb", "expression::get_ub"])
prop("C07", "Active nodes and genes are exactly what the outputs depend on",
     "After construction and after every operation, the reported active nodes are exactly the nodes (inputs included) reachable from the output genes through the connection genes, sorted and without repetition, and the reported active genes are exactly the genes of those nodes and the output genes. "
     "Membership queries agree with those lists.",
     ["histories", "inputs", "configurations"], "every geometry and chromosome, every history of sets and mutations, failed calls included",
     "Tests check the lists for a few hand-written chromosomes just after a set; not after each kind of mutation, a failed call, a load or a copy.",
     ["expression.hpp", "expression_weighted.hpp", "expression_ann.hpp"], [("recomputation after each change", "expression::update_data_structures")],
     [("m_active_nodes, m_active_genes", "what the outputs depend on", "expression")], ["get_active_nodes", "get_active_genes", "is_active_node", "is_active_gene"])
prop("C08", "Evaluating a program is evaluating the graph its chromosome encodes",
     "Calling an expression on a point returns, for each output gene, the value of the encoded acyclic graph at that point: inputs, then ephemeral constants, then each node applying its kernel to the values its connection genes select, in order. "
     "Evaluation has no side effect, does not depend on inactive genes nor on earlier calls, and a point of the wrong size is rejected.",
     ["inputs", "histories", "configurations"], "every geometry, variable arity, chromosome, kernel set and input point, after any history",
     "Tests evaluate a few hand-written chromosomes with two or three kernels.",
     ["expression.hpp"], [("node by node evaluation over the sorted active nodes", "expression::call_operator_impl")], (), ["expression::operator()"])
prop("C09", "The printed formula of a program denotes the function it computes",
     "The symbolic output of any program (plain, weighted or neural), read as an ordinary mathematical formula with its constants and weights replaced by their values, has at every point the value the numeric evaluation returns, for every output.",
     ["inputs", "configurations"], "every program over the built-in kernels, nested at any depth",
     "Tests compare printed text with a few hand-written strings; the nesting of arbitrary kernels is not sampled.",
     ["expression.hpp", "expression_weighted.hpp", "expression_ann.hpp", "wrapped_functions.hpp", "problems/symbolic_regression.hpp"], [("symbolic evaluation", "expression::operator()(vector<string>)"), ("printers", "print_my_*")], (), ["expression::operator()(strings)"])
prop("C10", "Each mutation operator changes only the genes it names, and really changes them",
     "Mutating a gene gives it a new, different value within its bounds (a gene whose bounds allow one value only is left alone) and touches no other gene; the operators restricted to active genes, inactive genes, active function genes, active connection genes, output genes, or N random genes change only genes of that class (as classed when each change is made) and at most N of them, and can reach every gene of the class and every allowed value. "
     "Mutating inactive genes never changes what the program computes.",
     ["histories", "inputs"], "every chromosome and geometry, every operator and N, every random outcome",
     "Tests call each operator a few times and compare against the class of genes before the call for one geometry only.",
     ["expression.hpp"], [("redraw until different", "expression::mutate"), ("class restricted draws", "mutate_active, mutate_inactive, mutate_active_fgene, mutate_active_cgene, mutate_ogene, mutate_random")], (), ["mutate*", "get"])
prop("C11", "Same seed, same program: copies and reloaded programs continue identically",
     "Two programs built with the same arguments and seed are identical and stay so under the same calls; a copy, a moved-to object, or a program saved and loaded is observably equal to the original (structure, chromosome, constants, weights and biases, active nodes, outputs) and reacts identically to every later random operation, while changes to one never show in the other. "
     "Re-seeding makes later random operations depend on the seed and the program only.",
     ["histories", "configurations"], "every program type, every history before and after the copy or the save",
     "Tests compare a round-tripped chromosome or one output at most; later random operations on both sides are not compared.",
     ["expression.hpp", "expression_weighted.hpp", "expression_ann.hpp", "kernel.hpp", "function.hpp"], [("default copies; serialize members incl. the engine", "expression::serialize, expression_weighted::serialize, expression_ann::serialize")],
     [("m_e", "the program's own random engine", "expression")], ["all getters", "operator<<"])
prop("C12", "The loss of a program is the mean loss over the data, serial or parallel",
     "The loss over a data set is the mean of the per-point losses: mean squared error over the outputs, or cross-entropy of the softmax of the outputs against the labels; it does not depend on the number of parallel parts the data is split into and evaluating it changes nothing. "
     "Empty or mismatched data, wrongly sized points or labels, an unknown loss and a split that does not divide the data are rejected.",
     ["inputs", "schedules"], "all data sets, programs, losses, and all numbers of parallel parts and their interleavings",
     "Tests compute the loss of one or two programs on a few points and one parallel split.",
     ["expression.hpp"], [("accumulation under a spin lock", "expression::loss(iterators)"), ("per point loss", "expression::loss(point)")], (), ["expression::loss"])
prop("C13", "A phenotype correction wraps every numeric evaluation until it is removed",
     "Once set, a phenotype correction determines every numeric evaluation (calls, losses, and the fitness of a regression problem) of the program it is set on: it receives the point and the uncorrected program, at its current genes and constants, and its result is returned unchanged; once removed, evaluation is uncorrected again. "
     "Copies and reloaded programs carry it along and apply it to themselves, never to the program they came from; it leaves chromosome, active sets and symbolic form unaffected.",
     ["histories", "inputs"], "every history of set/unset, mutations, copies, saves and loads around evaluations",
     "test/expression.cpp sets one correction and evaluates once; copies, moves and mutations after the set are not sampled.",
     ["expression.hpp", "problems/symbolic_regression.hpp"], [("optional wrapper called with the bound program", "expression::operator()")], [("m_phenotype_correction", "optional correction", "expression")], ["set_phenotype_correction", "unset_phenotype_correction", "operator()"])
prop("C14", "Ephemeral constants are extra inputs fixed inside the program",
     "A program with k ephemeral constants takes points without them: evaluation, symbolic form and loss use exactly the current constant values (or names) as the last k inputs, in order, and evaluating equals evaluating the same chromosome of a constant-free program on the extended point. "
     "Values and names change only by their setters, which reject wrong sizes; mutations never change them.",
     ["histories", "inputs", "configurations"], "every number of constants, every value and name assignment, every history",
     "Tests use one program with constants and one setting of values.",
     ["expression.hpp"], [("constants appended to the point", "call_operator_impl, operator()(strings)")], [("m_eph_val, m_eph_symb", "values and names", "expression")], ["get_eph_val", "get_eph_symb", "operator()"])
prop("C15", "Every weight of a weighted program multiplies the connection it is named after",
     "In a weighted program the weight addressed by (node, input position) multiplies exactly that input of that node, in evaluation and in the symbolic form, where it appears under its own name; setting or reading one weight by address, or all of them at once, in any order, agrees with that and touches no other weight. "
     "Weights survive mutations of genes, copies and round trips; wrong addresses or sizes are rejected without change.",
     ["histories", "inputs", "configurations"], "every geometry with variable arity, every weight assignment, every history of sets and mutations",
     "Tests use a single geometry with uniform arity and check a few addresses.",
     ["expression_weighted.hpp"], [("weight offset from the gene index", "expression_weighted::set_weight, get_weight, kernel_call")], [("m_weights, m_weights_symbols", "values and names", "expression_weighted")], ["set_weight", "get_weight", "set_weights", "operator()"])
prop("C16", "A neural program computes its layered network with its own weights and biases",
     "A neural program returns for each output the value of the encoded network: every node applies its activation to the sum of its inputs, each multiplied by the weight addressed by (node, input position), plus the node's bias; setters, getters and random initialisers of weights and biases address the same entries, touch no others, and reject wrong addresses or sizes. "
     "The number of active weights is the number of distinct weights (without those fed by unused nodes) the outputs depend on, and setting the output activations changes the function genes of exactly the nodes the outputs are connected to.",
     ["histories", "inputs", "configurations"], "every geometry with variable arity, chromosome, activation set, weights and biases, every history",
     "Tests check one or two networks; variable arity, skip connections and shared nodes are hardly sampled.",
     ["expression_ann.hpp"], [("bias and weight offsets", "expression_ann::fill_nodes, set_weight, set_bias"), ("active weight count", "n_active_weights"), ("output activations", "set_output_f")], [("m_weights, m_biases", "network parameters", "expression_ann"), ("m_connected", "who reads each node", "expression_ann")], ["operator()", "get_weight", "get_bias", "n_active_weights"])
prop("C17", "Backpropagation returns the true gradient of the loss",
     "For every neural program, data point(s), loss and activation set, the loss returned by backpropagation is the program's loss, and the gradients it returns are the exact partial derivatives of that loss with respect to every weight and bias (zero for those the outputs do not depend on), averaged over the batch, and independent of the number of parallel parts. "
     "Computing them changes nothing in the program; inconsistent data is rejected.",
     ["inputs", "configurations", "schedules"], "every network topology (skip connections, shared nodes, several outputs on one node, outputs on inputs), every weights, batch and parallel split",
     "Tests compare to numerical differences for a few random layered networks with a tolerance.",
     ["expression_ann.hpp"], [("backward sweep over connected nodes", "expression_ann::d_loss"), ("batch accumulation under a lock", "d_loss batch")], [("m_connected", "who reads each node", "expression_ann")], ["expression_ann::d_loss"])
prop("C18", "Stochastic gradient descent takes exactly the gradient steps it promises",
     "One epoch visits every data point exactly once, in consecutive batches of the requested size (the last may be shorter), and after each batch moves every weight and bias by minus the learning rate times the batch-mean gradient at the current parameters; it returns the mean of the batch losses met before each update, keeps data points and labels paired, does not alter the program's genes, and is unaffected by the number of parallel parts.",
     ["inputs", "histories", "schedules"], "every data set, batch size (dividing or not), learning rate, shuffle outcome and parallel split",
     "Tests only check that the loss decreases for one network.",
     ["expression_ann.hpp"], [("mini-batch loop and update", "expression_ann::sgd, update_weights"), ("paired shuffle", "sgd")], (), ["expression_ann::sgd", "get_weights", "get_biases"])
prop("C19", "A regression problem's fitness is a function of the decision vector alone",
     "The fitness of a decision vector (constants, then genes) is the loss on the problem's data of the program it encodes, plus, for two objectives, that program's formula complexity; it does not depend on earlier fitness, gradient or Hessian evaluations, on the order of evaluations, on which copy or reloaded problem is asked, or on parallel splitting, and changing the phenotype correction or the program set in the problem takes effect at the next evaluation. "
     "Bounds and the split between continuous and integer variables match the program's constants and gene bounds, and inconsistent construction data is rejected.",
     ["histories", "inputs", "configurations"], "every problem, every sequence of evaluations of fitness, gradient and Hessians over any decision vectors, copies and saves in between",
     "Tests evaluate the fitness of a few fresh vectors; no history of interleaved evaluations is compared with fresh evaluations.",
     ["problems/symbolic_regression.hpp"], [("fitness", "symbolic_regression::fitness"), ("caches", "m_cache_*"), ("checks", "symbolic_regression::sanity_checks")], [("m_cache", "last vector and its derivatives", "symbolic_regression")], ["fitness", "get_bounds", "get_nix", "get_nobj"])
prop("C20", "Regression gradients and Hessians are the derivatives of the fitness",
     "The gradient and the Hessians a regression problem returns are, entry by entry and in the order of the sparsity patterns it declares, the first and second partial derivatives of its loss with respect to the program's constants at the given decision vector, whatever was evaluated before.",
     ["inputs", "histories", "configurations"], "every problem, number of constants (including none and one), decision vector and history of evaluations",
     "Tests compare one gradient and one Hessian for a few vectors with one fresh problem.",
     ["problems/symbolic_regression.hpp"], [("truncated-Taylor evaluation", "symbolic_regression::gradient, hessians"), ("sparsity patterns", "gradient_sparsity, hessians_sparsity")], [("m_cache", "last vector and its derivatives", "symbolic_regression")], ["gradient", "hessians", "gradient_sparsity", "hessians_sparsity"])
prop("C21", "Predictions and printed models are those of the decision vector given",
     "Predicting a point or a list of points with a decision vector returns the outputs of the program that vector encodes, the printed models are that program's formulas on the problem's variables and constants, and the program the problem exposes after such calls, or after the setters, encodes the vector or program last given. "
     "None of these calls changes the fitness of any decision vector, and vectors of the wrong size are rejected.",
     ["inputs", "histories"], "every problem, decision vector, point(s), and order of calls",
     "Tests call predict and pretty once on one problem.",
     ["problems/symbolic_regression.hpp"], [("set then evaluate", "symbolic_regression::predict, pretty, prettier"), ("exposed program", "get_cgp, set_cgp")], (), ["predict", "pretty", "prettier", "get_cgp"])
prop("C22", "Evolutionary strategies never lose the best program found",
     "During a single-objective (1+lambda) or memetic evolution every offspring is a mutant of the incumbent, which starts as the population's best and gives way only to an offspring of the generation that is not worse ((1+lambda)) or strictly better (memetic), so its loss never gets worse. "
     "The evolved population keeps its size, every individual in it carries the fitness its decision vector really has and genes within the bounds; the (1+lambda) strategy returns the start with the last offspring in the places they improve and then the incumbent in the place of the worst, if better; the memetic one the start with the incumbent, when better than the start's best, in the place of the worst. "
     "With learning of constants off, (1+lambda) offspring carry the constants of their parent; the memetic ones differ from it by one Newton step on the constants the loss depends on.",
     ["histories", "inputs", "configurations"], "every regression problem, population, seed, number of mutations, offspring and generations",
     "Tests only check construction errors and that one evolution runs.",
     ["algorithms/es4cgp.hpp", "algorithms/mes4cgp.hpp"], [("elitist replacement", "es4cgp::evolve, mes4cgp::evolve")], [("best_f, best_x", "incumbent", "es4cgp::evolve")], ["evolve", "population::champion_f", "get_log"])
prop("C23", "Multi-objective selection keeps the best non-dominated individuals",
     "In a multi-objective evolution each generation's population is chosen from the union of the previous population and the new offspring so that no rejected individual dominates, or lies in a better non-dominated front than, a kept one (duplicates aside), each offspring descends from its own individual by mutation (and, in the memetic one, one Newton step), the population keeps its size, every individual carries the true fitness of its decision vector and valid genes, and no point of the attained Pareto front is lost except to a tie of space within one front.",
     ["histories", "inputs", "configurations"], "every two-objective regression problem, population, seed and number of generations",
     "Tests only check construction errors and that one evolution runs.",
     ["algorithms/moes4cgp.hpp", "algorithms/momes4cgp.hpp"], [("non-dominated sorting of the union", "moes4cgp::evolve, momes4cgp::evolve")], (), ["evolve", "population::get_f"])
prop("C24", "Gradient descent on constants is monotone and leaves the program alone",
     "Gradient descent for constants changes the continuous variables of the selected individual only: a step is taken along minus the normalised gradient, accepted exactly when the loss improves (the step size then grows by its factor, and shrinks otherwise), so the loss never gets worse; the genes, the other individuals and the population size stay as they were, and the run ends at the iteration limit, at the minimum step size, or when the gradient vanishes.",
     ["inputs", "histories", "configurations"], "every regression problem with constants, start population, step sizes and limits",
     "Tests only check construction errors and one run.",
     ["algorithms/gd4cgp.hpp"], [("back-tracking step loop", "gd4cgp::evolve")], [("lr", "current step size", "gd4cgp::evolve")], ["evolve", "get_log"])
prop("C25", "Evolutions are reproducible, stop when told, and account for every evaluation",
     "An evolution is a function of the algorithm's parameters and seed, the problem and the start population: repeating it, reloading the algorithm, batch or serial evaluation, and verbosity make no difference to the result. "
     "It runs exactly the requested generations unless the best loss falls below the requested tolerance, in which case it stops there, whatever the verbosity; logged generations, evaluation counts and best values are the real ones, with verbosity off nothing is printed or logged; and unsuitable problems, populations or parameters are rejected before anything is changed.",
     ["histories", "inputs", "configurations"], "every algorithm, parameter set, seed, verbosity, tolerance and population",
     "Tests check some construction and rejection errors; results of repeated runs, log lines and stopping are not compared.",
     ["algorithms/es4cgp.hpp", "algorithms/mes4cgp.hpp", "algorithms/moes4cgp.hpp", "algorithms/momes4cgp.hpp", "algorithms/gd4cgp.hpp"], [("own engine seeded at construction", "m_e, m_seed"), ("tolerance and generation checks", "evolve")], [("m_log", "log lines of the last run", "algorithms")], ["evolve", "get_log", "get_seed", "set_seed"])
prop("C26", "Benchmark data generators return paired, complete and repeatable data",
     "Every benchmark generator overwrites its two output arguments, whatever they held, with equally many points and labels of the advertised number and dimensions, label i being the documented function of point i (grid and random points inside the documented interval), or the tabulated measurement. "
     "Repeated calls, in any order, return the same data and never disturb the tables themselves.",
     ["inputs", "histories"], "every generator, any previous content of the outputs, any order and repetition of calls",
     "test/gym.cpp calls each generator once on empty vectors and looks at sizes for most.",
     ["gym.hpp", "nist_data.hpp", "misc_data.hpp"], [("clear and fill", "gym::detail generators"), ("tables", "nist_data.hpp, misc_data.hpp")], (), ["gym::generate_*"])
prop("C27", "The Python layer mirrors the C++ library",
     "Programs, problems and algorithms driven through the Python module behave as the C++ ones do: arguments, results, exceptions, copies and pickles cross the boundary unchanged.",
     ["inputs", "configurations"], "every call made through the Python module",
     "The Python tests need the compiled extension, which cannot be built here.",
     ["dcgpy/core.cpp"], [("bindings", "dcgpy/*.cpp")], (), ["dcgpy"])
prop("C28", "Calls under way at the same time do not disturb one another",
     "Evaluations of one program through its const interface, and any operations on distinct programs, problems and evolutions, give exactly what they give alone, whatever else is under way: in other threads, at any interleaving, or in the same thread from within a kernel that itself evaluates programs (numerically, symbolically, weighted, neural, losses and their gradients). "
     "None of them changes a program it was not asked to change.",
     ["schedules", "inputs", "histories"], "every interleaving of calls at the calls of their kernels, and every nesting",
     "No test evaluates programs from two threads or from within a kernel.",
     ["expression.hpp", "expression_weighted.hpp", "expression_ann.hpp", "problems/symbolic_regression.hpp"],
     [("node values and arguments local to the call", "expression::call_operator_impl, operator() of strings, expression_weighted::operator(), expression_ann::fill_nodes, d_loss")],
     (), ["operator()", "loss", "d_loss", "mutate_*", "fitness", "evolve"])
prop("C29", "The network encoder returns the network asked for",
     "Encoding a feed-forward network returns a neural program of the requested inputs, outputs and levels-back that is exactly that network: one active neuron per requested neuron, each with the non-linearity of its layer and fed once by every neuron of the layer before (the first by every input), the outputs being the distinct neurons of the last layer, with unit weights and zero biases, so that its value is the dense network's for any weights and biases. "
     "It is refused with ValueError when the lists do not match, a kernel is unknown or unfit for networks, or a size is zero; its arguments are left as they were.",
     ["inputs", "configurations"], "every number of inputs and outputs, every list of layer sizes and kernels (equal or different, in any order), every levels-back",
     "No test in the C++ suite reaches it; the Python test encodes two networks and only evaluates one of them.",
     ["dcgpy/_encode.py"], [("hand-written chromosome", "encode_ffnn")], (), ["encode_ffnn"])
prop("C30", "Simplified expressions and drawings mean the program",
     "The simplified expressions of a program (without ephemeral constants of its own) are, output by output, equal to its value wherever that is defined, with the input names given, the last inputs replaced by the constants given and, when asked, the weights by their values. "
     "Its drawing shows exactly its graph: inputs, function nodes with their function, outputs, and one connection per argument (labelled with its weight when asked), the active part told from the inactive, which is hidden when asked; a network's drawing has one line per connection between the circles of its neurons. "
     "Every program can be drawn; name lists of the wrong length are refused with ValueError; neither changes the program or its arguments.",
     ["inputs", "configurations"], "every program (any geometry, arity per column, kernels, weights), names, constants and options",
     "No test looks at a drawing; the Python tests do not simplify.",
     ["dcgpy/_simplify.py", "dcgpy/_visualize.py"], [("substitution of names, weights and constants", "_sympy_simplify"), ("edges and styles", "_graphviz_visualize, _dcgpann_visualize")], (), ["simplify", "visualize"])

prop("C31", "Descriptions state the real parameters",
     "What programs, kernels, kernel sets, regression problems and evolutionary algorithms print of themselves is what they are: sizes, arities, bounds, current chromosome, active nodes and genes, functions, constants, weights and biases of a program; dimensions, kernels and loss of a problem; generations, mutations, tolerances, step sizes, seed, verbosity, learning of constants and batch evaluation of an algorithm, as constructed and as last set, also after copies, saving and loading, and evolutions. "
     "Printing changes nothing.",
     ["inputs", "histories"], "every program, problem and algorithm, after any history of changes, copies and round trips",
     "Tests call the stream operators but never look at the text.",
     ["expression.hpp", "expression_weighted.hpp", "expression_ann.hpp", "kernel.hpp", "kernel_set.hpp", "problems/symbolic_regression.hpp", "algorithms/*.hpp"],
     [("label and value lines", "operator<<, get_extra_info")], (), ["operator<<", "get_extra_info", "get_seed", "get_verbosity"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
