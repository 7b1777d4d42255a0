WF = "include/dcgp/wrapped_functions.hpp"
KS_ = "include/dcgp/kernel_set.hpp"
KT = "The kernel tests are not part of the buildable suite and evaluate a few numbers with two or five arguments; "
prop("K01", "Every kernel computes its documented function for any number of arguments",
     "Each kernel obtained by name from a kernel set computes the documented function of its arguments, for any number (at least one) of arguments: sums, differences, products and quotients run over all of them, the "
     "activation functions (sig, tanh, ReLu, ELU, ISRU, sin_nu, cos_nu, gaussian_nu, inv_sum, abs, step) apply to the sum of all of them, and the unary ones (sin, cos, log, exp, gaussian, sqrt, psqrt) to the first. "
     "Protected division is the quotient where that is finite and 1 otherwise, so it is finite for finite arguments. The kernels on Taylor polynomials carry the same value and its exact "
     "first and second derivatives, away from kinks.",
     "inputs", "every kernel, every real argument, one to five arguments (one to three for Taylor polynomials)", KT + "a slip in one kernel or for one arity goes unseen.",
     [WF], [("my_*_func::operator()", WF)], "bounded in the number of arguments; values are decided over the reals, and for protected division with IEEE comparisons")
prop("K02", "The printed form of a kernel denotes the value it computes",
     "Read as a formula with the usual (Python) precedences, the printed form of every kernel applied to symbols is the function the kernel computes on the values of those symbols, "
     "for any number of arguments; and so it is when an argument is itself the printed form of any kernel, so that the formula an expression prints is the model it evaluates (where all the quotients in it are finite).",
     "inputs configurations", "every kernel with up to five arguments; every pair of kernels, every position; every real value of the symbols", KT + "and compare a few strings; no test reads a formula back.",
     [WF], [("print_my_*_func::operator()", WF)], "bounded: compositions of two kernels, up to three arguments")
prop("K03", "A kernel set holds exactly the kernels asked for, in order",
     "A kernel set built from names, or grown by pushing back names or kernels, holds exactly the kernels of those names, in that order, each evaluating, printing and named as the kernel of its name; clear empties that set only. "
     "A name that is not a kernel is refused with std::invalid_argument and nothing is added.", "inputs configurations", "every kernel name, lists of up to three, every other name of up to eleven printable characters",
     KT + "no test tries all names or unknown ones.", [KS_], [("push_back, operator(), operator[], clear", KS_)], "bounded: lists of three, names of eleven characters")
SR = "include/dcgp/problems/symbolic_regression.hpp"
ST = "The problem's tests are not part of the buildable suite, and evaluate it in a few decision vectors; "
prop("P01", "A symbolic regression problem is the model's loss over its data",
     "A symbolic regression problem has the constants (in [-10, 10]) followed by the genes (within the bounds of the chromosome, all integer) as decision vector. Its fitness is the mean loss of the encoded model over the data, "
     "whatever the number of parallel batches, followed, if multi-objective, by the number of active genes. predict, pretty and prettier are the outputs and the printed forms of that model. Malformed data, shapes, "
     "kernels or losses are refused with std::invalid_argument and nothing else is; decision vectors whose integer part encodes no model are refused. It is as thread safe as its least safe kernel, and never more than basic.",
     "inputs configurations", "every decision vector, point and label; every malformation of the arguments", ST + "they cannot cover the decision vectors.",
     [SR], [("constructor, fitness, predict, pretty, get_bounds", SR)], "bounded in the size of the problems; equality of losses over the reals")
prop("P02", "The gradient and Hessians of a symbolic regression problem are exact",
     "The gradient and the Hessians of the problem are the exact first and second partial derivatives of its (first) fitness with respect to the constants, in the order of their sparsity patterns: dense, "
     "lower triangular, each pair once; zero for inactive constants and for the complexity objective. So it is for any number of constants, with a phenotype correction, and whatever was evaluated before.",
     "inputs configurations histories", "every value of the constants, points and labels, two to three arbitrary genes", ST + "they compare a few derivatives with precomputed numbers.",
     [SR], [("gradient, hessians, gradient_sparsity, hessians_sparsity", SR)], "bounded in the size of the problems; identity over the reals by symbolic differentiation of the executed fitness; where pdiv divides")
prop("P03", "The fitness and predictions depend on the decision vector alone",
     "Whatever was asked of the problem before (fitness, gradient, Hessians, predictions of the same or other decision vectors, setting or unsetting the phenotype correction, setting the inner CGP), the fitness and the predictions of a decision "
     "vector are those of its model with the current correction.", "histories inputs", "every sequence of two operations, every value of the constants",
     ST + "they do not interleave the operations, so stale caches go unseen.", [SR], [("m_cache_fitness", SR), ("set_cgp", SR)], "bounded: two or three operations")
ALG = ["include/dcgp/algorithms/%s.hpp" % a for a in ("es4cgp", "mes4cgp", "moes4cgp", "momes4cgp", "gd4cgp")]
AT = "The algorithms' tests are not part of the buildable suite, and run a few seeded evolutions; "
AB = "bounded: populations of two, tiny problems, one to three generations; the problem's values are arbitrary"
prop("X01", "Evolution keeps its population consistent and never loses the best",
     "Evolving a population with es4cgp, mes4cgp, moes4cgp or momes4cgp returns a population of the same size in which every individual was there before or was evaluated during the evolution, with the fitness it had there; every decision vector "
     "evaluated encodes a model. The single objective algorithms never lose the best individual, and the best one found ends in the population. Every generation evaluates as many offspring as individuals, for the requested number of generations, "
     "stopping earlier only when, and as soon as, the best loss is below the tolerance, whatever the verbosity.", "inputs histories", "every loss (NaN included), every draw", AT + "they see few of the fitness patterns.",
     ALG[:4], [("evolve", a) for a in ALG[:4]], AB)
prop("X02", "Offspring are mutants of the selected parents, learning by exact Newton steps",
     "Every offspring has the genes of the best individual (or of a selected one, in the multi-objective algorithms), at most max_mut of them changed. Its constants are those of that parent, in es4cgp and moes4cgp each plus ten times a standard normal draw when learning. "
     "In mes4cgp and momes4cgp they take one Newton step: with a single (active) constant minus the first over the second derivative, if finite and not zero; with several active ones minus the inverse Hessian times the gradient when the Hessian is positive definite, "
     "and none otherwise; inactive constants, if there are several constants, are drawn anew in [-10, 10]. Learning never changes the genes.", "inputs histories", "every gradient; every (small) Hessian; every draw", AT + "they do not look at the offspring.",
     ALG[:4], [("evolve", a) for a in ALG[:4]], AB)
prop("X03", "gd4cgp is a normalised descent that only ever improves",
     "gd4cgp moves the constants of the selected individual along minus the normalised gradient by the current rate, never touching the genes; a point is kept only when its loss is lower, and then the rate grows by 1.5, otherwise it is divided by four; it stops "
     "when the rate falls below the minimum, the gradient vanishes or is not finite, or after the iterations asked for. The best point replaces the individual the policy names, with its loss; all others are left alone.",
     "inputs histories", "every loss and gradient, every rate, one to three iterations", AT + "they only look at the final loss.", ALG[4:], [("evolve", ALG[4])], "bounded: one to three iterations, one or two constants")
prop("X04", "Multi-objective evolution selects among all parents and offspring",
     "In every generation of moes4cgp and momes4cgp the parents and all the offspring (in momes4cgp those finite and not yet there), and nobody else, compete, as many as the population holds are selected, and exactly the selected ones form the new population.",
     "inputs histories", "every loss and complexity, every outcome of the selection", AT + "they only look at the final front.", ALG[2:4], [("evolve", a) for a in ALG[2:4]], AB)
prop("X05", "Verbosity changes nothing but what is printed, and the log is true",
     "At verbosity zero nothing is printed nor logged. At any other verbosity the evolution is the same, and the log has a line every that many generations and one at the end, with the generation, the number of evaluations, the best loss so far and the constants and "
     "formula of a best individual (or the size of the front and the complexity of the best individual).", "inputs configurations histories", "every loss, every draw; verbosity 1 and 2", AT + "no test compares runs of different verbosity.",
     ALG[:4], [("log_single_line", a) for a in ALG[:4]], AB)
prop("X06", "The algorithms refuse what they cannot evolve, before changing anything",
     "The constructors refuse exactly zero mutations, negative tolerances, and minimum learning rates not between zero and the initial one. evolve refuses problems that are not symbolic regressions, with the wrong number of objectives or (gd4cgp) without constants, "
     "and populations of less than two individuals (not gd4cgp); with no generations to run it returns the population as it is. All with std::invalid_argument and without evaluating anything.", "inputs configurations", "every number, every kind of malformed population",
     AT + "they try a few values.", ALG, [("constructors, evolve", a) for a in ALG], "bounded: up to five mutations")
prop("X07", "The same seed gives the same evolution, batch evaluated or not",
     "Two algorithms of the same parameters and seed, whether it was given on construction or set later, evaluate the same decision vectors and return the same population; a batch evaluator changes neither.", "inputs histories configurations", "every loss, every draw",
     AT + "they compare two runs of one seed.", ALG[:4], [("set_seed, evolve", a) for a in ALG[:4]], AB)
FN, KE = "include/dcgp/function.hpp", "include/dcgp/kernel.hpp"
prop("S01", "What is saved and loaded again is the same object",
     "Loading what was saved of an expression (plain, weighted or neural), a kernel, a kernel set, a wrapped function, a symbolic regression problem or an algorithm gives an object that behaves as the saved one, whatever the object loaded into was before: "
     "same geometry, chromosome, constants, weights, biases, phenotype correction, kernels and thread safety, same values, formulas, losses, gradients and Hessians, same parameters, policies, log and random engine, hence the same mutations and the same evolution. "
     "Everything saved is loaded, in the same order; a wrapped function whose loading fails stays as it was; every kernel of the library is registered for serialization under a key of its own.",
     "inputs configurations histories", "every chromosome, constant and weight, used and unused objects, every kernel", "The tests save and load a few objects and compare some printed numbers.",
     [EX, ANN, WEI, KE, KS_, FN, SR] + ALG, [("serialize", f) for f in [EX, ANN, WEI, KE, KS_, FN, SR] + ALG], "bounded: small objects; Boost's archives are replaced by one in memory")
GY, ND, MD, RN = "include/dcgp/gym.hpp", "include/dcgp/nist_data.hpp", "include/dcgp/misc_data.hpp", "include/dcgp/rng.hpp"
prop("G01", "The benchmark problems are the documented functions and data",
     "Every synthetic problem of the gym computes its documented function at every point. Its generator leaves in the vectors, whatever they held, exactly the documented number of points of the right dimension, in the documented "
     "interval (equally spaced, bounds included, in one dimension) or box, each labelled with the value of the problem's function there; and so for equally spaced data of any function, interval and number of points (the lower bound alone for one). "
     "Generating twice gives the same data. The NIST data sets have the published numbers of observations, and the certified parameters give the certified residual sums of squares on them.",
     "inputs configurations", "every problem, every real point, every content of the vectors, every interval, up to twelve points", "The gym tests generate each problem once and compare the sizes, and the functions at a few points.",
     [GY, ND, MD], [("the functions and generators", GY), ("NIST's observations", ND)], "bounded: up to twelve points for arbitrary functions; values are decided over the reals")
prop("R01", "The random device is one seedable sequence, safe for threads",
     "The words the library's random device returns after a seed is set are those of a Mersenne twister of that seed, whatever was drawn before. Setting the seed and drawing are atomic: threads doing so concurrently share no unprotected state, and the device is "
     "free again afterwards. Expressions and algorithms made without a seed take the next word each, so that they equal those made with it and all of a program follows from the seed set.",
     "schedules histories inputs", "every seed, every earlier state, three (and 630) words, two and three threads", "The tests draw two numbers on one thread; a race shows only under particular schedules.",
     [RN, EX] + ALG[:4], [("random_device::next, set_seed", RN), ("default seeds", EX + ":constructors")], "bounded: up to three threads with one operation each (lockset race detection); the smallest expressions")
prop("F01", "A wrapped function is its callable, and its copies are independent",
     "Calling a wrapped function calls the callable it was made from, with its state, arguments passed by reference being the caller's and those by value copies; what it throws passes, and a null pointer is refused. It knows its callable's type and thread safety, and is valid unless moved from. "
     "Copies are independent of the original; copying and moving (onto itself too) leave every wrapper with exactly one callable; a copy that fails says so and leaves the target as it was. Everything is released exactly once.",
     "histories inputs", "every sequence of two operations on two wrappers, every kind of callable, every state and argument", "The function tests exercise each operation once, on one kind of callable.",
     [FN], [("function, function_inner", FN)], "bounded: two wrappers, two (thorough: three) operations; memory is checked on every path")
PYE, PYS = "dcgpy/_encode.py", "dcgpy/_simplify.py"
prop("Y01", "encode_ffnn encodes exactly the feed forward network asked for",
     "encode_ffnn gives a neural expression with the inputs, outputs and levels-back asked for, whose chromosome respects its bounds and whose outputs compute exactly the network asked for: every neuron of a layer is a node of its own with the layer's kernel, fully connected "
     "to every neuron of the layer before (the first to every input once), the outputs being the last layer. A number of kernels other than one per layer, or an unknown kernel, is refused with ValueError; the caller's lists are left alone.",
     "inputs configurations", "every size, kernels and levels-back of networks of up to four hidden layers, every order of a Python set", "The Python module and its tests are not built here; they encode one network.",
     [PYE], [("encode_ffnn", PYE)], "bounded: sizes of two to six, by depth; the compiled classes are modelled by the documented layout")
prop("Y02", "Simplified formulas are the same function",
     "simplify returns, for each output, a formula equal to the expression for all values of its symbols, wherever no divisor is zero: weights replaced by their values in order of their connections if asked, the ephemeral constants by the values given for "
     "the last inputs, otherwise left as symbols. Symbols or constants of the wrong number are refused with ValueError, and the caller's lists are left alone.",
     "inputs configurations", "every chromosome within the bounds, every real value of inputs, weights and constants", "The Python module and its tests are not built here; they simplify a few expressions.",
     [PYS], [("_sympy_simplify", PYS)], "bounded: nine small geometries; the compiled expression is modelled; over the reals")
