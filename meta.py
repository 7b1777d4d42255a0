"""Properties, in one place: writes properties.jsonl and MANIFEST.json (python3 meta.py)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
EX = "include/dcgp/expression.hpp"
ANN = "include/dcgp/expression_ann.hpp"
WEI = "include/dcgp/expression_weighted.hpp"
PROPS = []


def prop(pid, title, statement, over, qtext, why, files, mech, note, state=None, observe=None):
    p = {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        p["anchors"]["state"] = [{"name": n, "where": w} for n, w in state]
    if observe:
        p["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    PROPS.append((p, note))


UNT = "The expression tests are not part of the buildable suite, and they sample a few seeded geometries; "
prop("E01", "Chromosomes always lie within the bounds their encoding defines",
     "After construction and after any accepted operation on an expression, its chromosome has rows*sum(1+arity of each column)+outputs genes, its published lower and upper "
     "bounds are those the encoding defines (kernel ids for function genes; inputs, constants and nodes of at most levels-back preceding columns for connection genes; likewise "
     "for output genes), and every gene lies within its bounds. The accessors report the geometry the expression was built with, and copies carry the same chromosome.",
     "inputs histories configurations", "every draw of the constructor, every valid chromosome, every single operation (set, set from a range, each mutation, set_f_gene, copy) and all its draws",
     UNT + "a bound off by one shows only for particular geometries (levels-back smaller than the columns, mixed arities, constants) and draws.",
     [EX], [("constructors and bounds", EX + ":init_bounds_and_params"), ("setters and mutations", EX + ":set, mutate*")],
     "bounded: four geometries, one operation after an arbitrary state (inductive over histories)", [("m_x, m_lb, m_ub", EX)])
prop("E02", "Active nodes and genes are exactly those the outputs depend on",
     "After construction and after any accepted operation, the active nodes reported by an expression are exactly the inputs, constants and nodes reachable from its output genes, "
     "sorted and without repetition. The active genes reported are exactly the genes of the active nodes that have any, plus the output genes, and is_active_node / is_active_gene agree with both.",
     "inputs histories configurations", "every valid chromosome, every single operation and all its draws", UNT + "a stale or incomplete activity set shows only after particular mutations.",
     [EX], [("update_data_structures", EX + ":update_data_structures"), ("mutations", EX + ":mutate*")],
     "bounded: four geometries, one operation after an arbitrary state (inductive over histories)", [("m_active_nodes, m_active_genes", EX)])
prop("E03", "Numeric evaluation is the value of the encoded graph",
     "Evaluating an expression at a point returns, for each output gene, the value of the graph the chromosome encodes: inputs, then ephemeral constants, then each node's kernel "
     "applied to its connections in order; a set phenotype correction is applied to that function, and is absent once unset. Evaluating again, evaluating a copy, or changing "
     "inactive genes gives the same outputs, and after a mutation or a change of a function gene the outputs follow the new chromosome.",
     "inputs histories configurations", "every valid chromosome, every point and constant value, any kernels (uninterpreted), every mutation",
     UNT + "they compare a handful of hand-made chromosomes.", [EX], [("operator()", EX + ":operator()"), ("phenotype correction", EX + ":set_phenotype_correction")],
     "bounded: four geometries; kernels are uninterpreted functions, so the result is independent of the kernels")
prop("E04", "Symbolic evaluation is the formula of the encoded graph",
     "Evaluating an expression on symbols returns, for each output gene, the composition of the kernels' printed forms that the chromosome encodes, with the symbols of inputs "
     "and of ephemeral constants (c1, c2, ... unless others were set) at the leaves.", "inputs configurations", "every valid chromosome of the geometries, arbitrary printing kernels",
     UNT + "the strings of a few chromosomes are compared.", [EX], [("operator() on strings", EX + ":operator()")], "bounded: four geometries")
prop("E06", "Mutations change only the genes they are entitled to",
     "A mutation of given genes changes exactly those (to another value, unless their bounds allow one only); a random mutation changes at most the requested number of genes; the "
     "active, inactive, active-function, active-connection and output mutations change only genes of that kind, at most as many as requested. Mutated genes stay within "
     "bounds, a single mutation that can change a gene does change one, and every mutation ends.", "inputs histories configurations",
     "every valid chromosome, every index, every stream of draws, 0, 1 and 2 requested mutations",
     UNT + "random draws hide rare cases (single output, fixed genes, no inactive genes).", [EX], [("mutate, mutate_random, mutate_active, ...", EX + ":mutate*")],
     "bounded: four geometries, N <= 2; for more than one mutation the activity of connection genes is judged after each step only in aggregate")
prop("E07", "Invalid requests are refused and leave the expression unchanged",
     "Constructing an expression from an impossible geometry, setting a chromosome of the wrong length or out of bounds (also from floating-point values, NaN and infinities included), "
     "mutating or setting genes or nodes that do not exist, setting the wrong number of constants, evaluating a point of the wrong size, or asking for a loss of mismatched data, "
     "of an unknown type or of an uneven number of parts, raises std::invalid_argument. A refused request leaves chromosome, bounds, active genes and constants as they were, and valid requests are accepted.",
     "inputs configurations", "every value of each argument around its limits, from every valid state of the geometries", UNT + "they try one invalid value per argument, if any.",
     [EX], [("sanity_checks, check_cgp_encoding", EX + ":sanity_checks"), ("argument checks", EX + ":set, mutate, set_f_gene, loss")], "bounded: four geometries, sizes up to two off")
prop("E08", "The loss is the mean over points of the squared error or cross entropy",
     "For the mean-squared-error type the loss of a point is the mean over outputs of the squared difference from the label, and for the cross-entropy type it is minus the sum of "
     "labels times the logarithm of the softmax of the outputs. The loss of a batch is the mean of the losses of its points.", "inputs configurations",
     "every point, label and chromosome of the geometries; batches of up to three points", UNT + "no test compares against the definition for more than a few values.",
     [EX], [("loss", EX + ":loss")], "bounded: batches up to 3; identity over the real numbers (not rounding)")
prop("E09", "The parallel loss equals the serial loss for any division and schedule",
     "Computing the loss of a batch in any number of parallel parts that divides it evenly gives the same value as the serial computation, whatever the order in which the parts "
     "run; the parts share no unprotected state. A number of parts that does not divide the batch is refused.", "schedules inputs configurations",
     "every order of the parts, every division of batches of up to six points", "A race or a lost part shows only under particular schedules; the tests run one.",
     [EX], [("parallel_for with a spin mutex", EX + ":loss")],
     "bounded: batches up to 6, tasks atomic with respect to their critical section in every order, plus a lockset race detection; real-number identity")
prop("E10", "Random choices of an expression are a function of its seed",
     "Two expressions (plain, weighted or neural) built with the same arguments and seed have the same chromosome and constants, whatever else was random before. After seed(s), or from "
     "the same state, the same chromosome and mutations give the same chromosomes: in two expressions, again in the same one, and in a copy and its original. randomise_weights and "
     "randomise_biases give the same values for the same seed.", "inputs configurations histories",
     "every seed (construction, parameters); every stream of random words (mutations), arbitrary gene values; every mutation, also after another one",
     UNT + "they fix seeds but compare no two runs, so a state shared between expressions, or kept between calls, goes unseen.",
     [EX, ANN, WEI], [("constructors", EX + ":expression"), ("seed", EX + ":seed"), ("randomise_weights, randomise_biases", ANN + ":randomise_weights")],
     "bounded: four geometries; draws abstracted to functions of the state of the generator")
prop("W01", "Weighted expressions multiply each connection by its own weight",
     "A weighted expression evaluates its graph with every connection multiplied by its own weight, on numbers and on symbols (w<node>_<input>), also through a reference to the base "
     "class and in copies. Weights start at one; the accessors read and change exactly the weight they name, and refuse connections that do not exist and vectors of the wrong size, leaving all weights unchanged.",
     "inputs configurations", "every valid chromosome, weight and point of the geometries; every node and input index", UNT + "one chromosome is evaluated with fixed weights.",
     [WEI], [("kernel_call", WEI + ":kernel_call"), ("weights accessors", WEI + ":set_weight, get_weight")], "bounded: four geometries; uninterpreted kernels")
prop("A01", "A neural expression evaluates its network exactly",
     "A neural expression evaluates each node as its activation function applied to the bias of the node plus the sum of its inputs times the weights of its connections, on numbers "
     "and on symbols (b<node>, w<node>_<input>), also through a reference to the base class; points of the wrong size are refused.", "inputs configurations",
     "every weight, bias and point in [-2, 2], chromosomes of the geometries, all the activation functions", UNT + "they evaluate a few networks on a few points.",
     [ANN], [("kernel_call", ANN + ":kernel_call"), ("operator()", ANN + ":operator()")], "bounded: three geometries; identity over the real numbers")
prop("A02", "Back-propagation returns the exact gradient of the loss",
     "The loss and gradient computed by a neural expression over points and labels are the value of the loss and its exact partial derivatives with respect to every weight and bias, "
     "for both loss types (cross entropy: labels summing to one) and every activation function where it is differentiable. The parallel computation gives the same for any "
     "division of the batch, and refuses parts that do not divide it.", "inputs schedules configurations",
     "every weight, bias, point and label in [-2, 2]; chromosomes of the geometries including shared and skip connections; every order of the parallel parts",
     UNT + "they compare with finite differences at a few points, within tolerances.", [ANN], [("d_loss", ANN + ":d_loss"), ("update_node, connected", ANN + ":fill_nodes, d_loss"),
     ("derivatives of the activation functions", ANN + ":m_d_map")],
     "bounded: three geometries, batches up to 3; identity over the real numbers by symbolic differentiation of the executed code")
prop("A03", "Stochastic gradient descent takes exactly one gradient step per batch",
     "One epoch of gradient descent divides the data in consecutive batches (the last may be smaller), moves every weight and bias by minus the learning rate times the gradient of the "
     "loss of each batch in turn, and returns the mean of the losses of the batches before their step; shuffling keeps every point with its label and loses none. "
     "Non-positive or NaN rates, zero batches, empty or mismatched data, unknown losses and batches that do not divide into the parallel parts are refused before anything changes.",
     "inputs configurations", "every weight, bias, point, label in [-2, 2] and rate; every batch size; every shuffle", UNT + "they check that the loss decreases in a few runs.",
     [ANN], [("sgd, update_weights", ANN + ":sgd")], "bounded: up to 3 points for the step, 4 for refusals and shuffles; real-number identity")
prop("A04", "Network parameters are read and changed exactly as addressed",
     "Weights and biases of a neural expression start at one and zero; its accessors (by node and input, by index, whole vectors, randomisation) read and change exactly the parameters "
     "they name; they refuse nodes, inputs and vector sizes that do not exist (a position in the vector given directly must exist), and only activation functions are accepted as kernels. set_output_f sets the kernel of exactly the output nodes, or refuses and changes nothing; "
     "n_active_weights counts the (distinct) connections of the active nodes.", "inputs configurations", "every chromosome, node, index and kernel name of the geometries",
     UNT + "they address a few parameters.", [ANN], [("accessors", ANN + ":set_weight, set_bias, set_output_f, n_active_weights")], "bounded: three geometries")

exec(open(os.path.join(V, "meta2.py")).read()) if os.path.exists(os.path.join(V, "meta2.py")) else None

if __name__ == "__main__":
    import specs
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, note in PROPS:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, note in PROPS:
        if p["id"] in specs.PROPERTIES:
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                           "technique": specs.PROPERTIES[p["id"]].get("technique", "symbolic execution of the real code's LLVM IR with z3"), "level": "model_checking",
                           "level_note": "Every value within the bounds is decided by the solver. " + note[0].upper() + note[1:] + ". Trusts clang's lowering, the executor's LLVM semantics, z3, "
                           "and the stand-ins for libraries that are not installed; every reported violation is replayed against the real code."})
        else:
            na.append({"property": p["id"], "reason": note})
    man = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. No hooks in /repo: the harnesses include its headers as they are."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    have = {p["id"] for p, n in PROPS}
    for k in specs.PROPERTIES:
        if k not in have:
            print("no property text for", k)
