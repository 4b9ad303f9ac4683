#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in step with each other)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N, M, U, P = "src/psdd_node.cpp", "src/psdd_manager.cpp", "src/psdd_unique_table.cpp", "src/psdd_parameter.cpp"
PH = "include/psdd/psdd_node.h"
T = "the 17 tests use two or three fixed vtrees of at most a few variables and one or two fixed parameter sets"
props = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = list(observe) or ["return values of the public functions"]
    a["hook_needed"] = None
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Evidence probabilities are those of the encoded distribution",
  "For every normalised PSDD and every partial assignment of its variables, the reported probability of the evidence equals the sum, over all complete assignments agreeing with it, of the product of the parameters they select. Impossible evidence gets probability exactly zero and empty evidence gets one. The answer does not depend on values given for variables outside the evidence, nor on whether the PSDD or its node listing was passed.",
  ["inputs", "configurations"],
  "every vtree shape and variable numbering, every normalised PSDD over it (parameters down to exp(-575) and exact zeros, more than a hundred variables), every partial or complete assignment",
  T + " and query a few evidence sets; the guarantee is about every structure, parameter vector and evidence.",
  [N, P], [("Evaluate, bottom-up pass over a node listing", N), ("log-domain sum and product", P)],
  [("user_data", "per-node scratch pointer used by the pass", N)])
p("C02", "Every operation returns a well-formed PSDD respecting its vtree",
  "Every PSDD returned by construction, true-node creation, constraint conversion, normalisation, parameter sampling, learning, multiplication, loading or file reading is well formed: each inner node sits at an inner vtree node with primes over the left and subs over the right child, the primes of a node are pairwise disjoint, it has at least one element, nodes carry the requested flag, and the result sits at the vtree node asked for. Sampling, learning and multiplication give local parameters that sum to one at every node; loading and file reading keep them.",
  ["inputs", "histories"],
  "every vtree, every PSDD and every sequence of node-producing operations over it",
  T + "; no test audits the structure of a result, and chains of operations are not tested.",
  [M, N, U], [("GetConformedPsddDecisionNode", M), ("NormalizePsddNode, GetTrueNode, ConvertSddToPsdd, LoadPsddNode, Multiply", M)])
p("C03", "Compiling a logical constraint keeps exactly its models",
  "Converting a constraint (SDD) into a PSDD, for the whole vtree, for a sub-vtree or for a set of used variables, yields a PSDD whose support is exactly the set of models of the constraint over those variables, for every constraint and every numbering of variables between the two. An unsatisfiable constraint yields no PSDD; variables the constraint does not mention stay unconstrained.",
  ["inputs", "configurations"],
  "every Boolean function over every vtree, including constants, literals, functions of a subset of the variables and every variable mapping",
  "the tests convert two or three hand-written constraints over four variables; the guarantee is about every Boolean function and every vtree.",
  [M], [("ConvertSddToPsdd", M), ("FromSdd", M), ("GetPsddManagerFromSddVtree variable mapping", M)])
p("C04", "Exporting the support as a constraint keeps exactly the support",
  "Converting a PSDD to a logical constraint (SDD), under any renaming of variables and into a constraint manager over any vtree, gives a constraint whose models are exactly the assignments the PSDD's structure admits, which are those with non-zero probability when no parameter is zero. Converting that constraint back gives a PSDD admitting the same assignments.",
  ["inputs", "configurations"],
  "every PSDD, also with zero parameters, every target vtree and every variable renaming",
  "one test converts one PSDD; it does not compare model by model nor with renamed variables.",
  [N, M], [("ConvertPsddNodeToSddNode", N)])
p("C05", "Model counts and consistency answers are exact",
  "The model count of a PSDD is the exact number of complete assignments its structure admits (all parameters being non-zero), for any number of variables and without overflow. A partial assignment is reported consistent exactly when some admitted complete assignment extends it; asking about several PSDDs at once is the conjunction over each of them.",
  ["inputs"],
  "every PSDD up to several hundred variables, every partial and complete assignment",
  "the tests count two small PSDDs; counts beyond 64 bits and consistency are barely touched.",
  [N], [("ModelCount (GMP integers)", N), ("IsConsistent", N)])
p("C06", "Multiplication is the normalised product of the two distributions",
  "For any two PSDDs over the same vtree, zero parameters included, multiplication returns a normalised PSDD and a constant such that constant times the result equals the pointwise product of the two distributions on every complete assignment; the constant is the total mass of that product. When the supports do not meet, no PSDD is returned and the constant is zero; multiplying by no PSDD gives the same.",
  ["inputs", "histories"],
  "all pairs and chains of PSDDs over any vtree, of this or another manager, equal, overlapping and disjoint supports",
  "one test multiplies one pair over a small vtree and checks only one quantity.",
  [M, U], [("Multiply / MultiplyWithCache", M)])
p("C07", "The most probable explanation attains the maximum probability",
  "For every PSDD the returned explanation is a complete assignment of its variables whose probability equals the reported value, and no complete assignment is more probable. The result never has probability zero when the PSDD has a possible assignment, and only variables of the PSDD are set.",
  ["inputs"],
  "every PSDD, with ties, skewed, tiny and zero parameters, up to hundreds of variables",
  "one test asks for one MPE; maximality over exponentially many assignments is not tested.",
  [N], [("GetMPESolution", N)])
p("C08", "Reported marginals are the exact single-variable marginals",
  "For every normalised PSDD the reported pair for each variable is the probability of the variable being true and of it being false (in the documented order), every variable of the PSDD has an entry and no other, and each pair sums to one.",
  ["inputs"],
  "every normalised PSDD, with shared nodes, zero parameters, up to hundreds of variables",
  "one test compares the marginals of one PSDD; sharing, depth and zero parameters vary without bound.",
  [N], [("GetMarginals: top-down derivative pass", N)])
p("C09", "Learned parameters are the smoothed relative frequencies of the data",
  "Learning on a complete data set keeps the structure and sets every local parameter to (matching examples + smoothing) / (examples reaching the node + smoothing times number of choices), where an example reaches a node and matches a choice exactly when it does so in the PSDD's own semantics; repeated examples count each time, examples outside the support count nowhere. With positive smoothing no possible choice gets probability zero, and the result is normalised.",
  ["inputs"],
  "every PSDD structure, every complete data set, every smoothing constant (zero when every node is reached)",
  "the tests learn from one small data set on one structure; shared nodes and repeated or inconsistent examples are not covered.",
  [M, N], [("LearnPsddParameters", M), ("data counts", N)],
  [("data_counts", "examples per element", N), ("batched values and contexts", "examples for which a node is true / reached", N)])
p("C10", "Random parameters keep the structure and give proper distributions",
  "Sampling parameters returns, for each PSDD given and in the same order, a PSDD with the same support and structure whose parameters are non-negative and sum to one at every node, each distribution made of numbers of its own drawn from the generator it is given; it uses the requested flag. Nodes shared by several given PSDDs receive one set of parameters, equal inputs give equal outputs, and the originals are unchanged.",
  ["inputs", "histories"],
  "every list of PSDDs of one manager (equal, nested, overlapping, different depths) and every generator returning positive numbers",
  "a test samples parameters of one PSDD with one generator seed and looks at normalisation only.",
  [M, N], [("SampleParametersForMultiplePsdds", M), ("SampleParameters of a node", N)])
p("C11", "Sampled assignments follow the distribution",
  "Every assignment drawn from a normalised PSDD has non-zero probability and sets only variables of the PSDD, whatever numbers the generator delivers within its range. Over many draws each assignment appears with a frequency equal to its probability, whatever the range of the uniform generator.",
  ["inputs", "histories"],
  "every normalised PSDD, every uniform generator range, every sequence of generator outputs, boundary values included",
  "a test draws from one PSDD and bounds one frequency; boundary draws have probability about zero in a test.",
  [N, "src/random_double_generator.cpp"], [("DirectSample of each node kind", N)])
p("C12", "PSDD files round-trip and are read as written",
  "Writing a PSDD to a file and reading it back, in the same or another manager over the same vtree, gives the same support, structure and distribution, up to the printed precision of the parameters, under the requested flag. Files are self-contained and list children before parents with the declared node count, and hand-written files of the documented format, with comments, any node identifiers and any element order, are read as the distribution they describe.",
  ["inputs", "histories"],
  "every PSDD (zero and tiny parameters, sub-vtree roots, wide nodes) and every well-formed file",
  "the tests read one or two fixed files; no round trip of arbitrary PSDDs.",
  [N, M], [("WritePsddToFile", N), ("ReadPsddFile", M)])
p("C13", "Loading and lifting keep the distribution over the shared variables",
  "Loading a PSDD into a manager, at the root or at any vtree node covering its variables, and lifting a PSDD to an ancestor vtree node, give a PSDD at exactly that vtree node under which every assignment of the original variables keeps its probability and the additional variables are independent and unconstrained. The source PSDD is not affected.",
  ["inputs", "configurations"],
  "every PSDD over a vtree that is equal to, or a projection of, the target vtree; every covering target node",
  "one test loads one PSDD into an equal vtree; projections onto arbitrary subsets of variables are not covered.",
  [M], [("LoadPsddNode", M), ("NormalizePsddNode", M), ("GetTrueNode", M)])
p("C14", "Equal structures share one node and different ones never do",
  "Within a manager, constructing the same node again (same vtree node, same flag, same children with the same parameters, in any element order) returns the very same node, by whatever operation it arises, also after clean-ups. Nodes differing in flag, literal, any child or any parameter (beyond the documented comparison precision) are never identified.",
  ["inputs", "histories"],
  "every sequence of constructions, by any route, in one manager",
  "the tests compare a few pointers; collisions and near-equal parameters over arbitrary histories are not covered.",
  [U, N, P], [("unique table look-up", U), ("hash values and equality of nodes", N), ("equality and hash of parameters", P)],
  [("unique table", "per vtree node hash tables", U)])
p("C15", "Clean-up frees exactly the unused nodes and destruction frees everything",
  "After a clean-up that names some PSDDs to keep, everything reachable from them is intact and usable, every other node has been released, and constructing a released node again gives a correct new one. Destroying a manager releases all its memory, does not disturb other managers, and repeated clean-up or create/destroy rounds do not accumulate memory.",
  ["histories"],
  "every sequence of constructions and clean-ups with any kept set (empty, repeated, nested, inner nodes), any number of managers",
  "no test performs a clean-up with shared nodes under several flags or observes memory.",
  [U, M], [("DeleteUnusedPsddNodes", U), ("destructors", M)])
p("C16", "Operations do not disturb PSDDs, vtrees or later answers",
  "No query or operation changes any PSDD that already exists (its structure, parameters, numbering or flag), the vtrees and constraints it was given, or the evidence and data passed in. All scratch state is cleared when an operation returns, so any interleaving of queries and operations, repeated in any order, gives the same answers as asking each alone.",
  ["histories"],
  "every sequence of operations of any kind over several PSDDs and managers",
  "each test runs one operation on a fresh manager; leftovers of one operation that mislead the next need sequences.",
  [N, M, U], [("scratch fields reset at the end of each pass", N)],
  [("user_data, activation flags, data counts, batched values, vtree data", "scratch state", N)])
p("C17", "Log-domain numbers behave like the non-negative numbers they stand for",
  "Sums, products and quotients of log-domain numbers, and their compound-assignment forms, agree with ordinary arithmetic up to rounding, for zeros, tiny and huge values, aliased and chained operands, without overflow, underflow or NaN. Comparison is consistent with the numbers' order, equal numbers have equal hashes however they were obtained, and equality is exact up to the documented precision.",
  ["inputs", "histories"],
  "all pairs and expression sequences of representable numbers",
  "no test exercises the arithmetic apart from the queries using it.",
  [P, "include/psdd/psdd_parameter.h"], [("operator+, *, /, +=, *=, /=, ==, <, hash_value", P)])
p("C18", "UAI network files are read exactly, and malformed ones are refused",
  "Reading a UAI file over binary variables gives exactly the network it describes: its kind, number of variables, each factor's variables in their order and every entry at its position, whatever the layout (line breaks and blanks between numbers of a table, blank lines, carriage returns, number formats). A file that ends before its last number is refused with an error exit instead of being read as a different network, and reading a second file replaces the first.",
  ["inputs", "fault_sequences"],
  "every network of binary variables and every admissible layout; every truncation of a file between two numbers",
  "no test reads a UAI file.",
  ["src/uai_network.cpp", "include/psdd/uai_network.h"], [("read_file", "src/uai_network.cpp")])
p("C19", "A compiled network is the normalised product of its factors",
  "Compiling a network of factors over binary variables, by any of the strategies, over any suitable vtree and any garbage-collection rate, gives a normalised PSDD over all variables and a constant such that constant times the PSDD equals the product of all factors at every complete assignment; each single factor likewise. A network whose product is zero everywhere gives no PSDD and the constant zero.",
  ["inputs", "configurations"],
  "every network (zero, tiny and huge entries, constants, unused variables, repeated scopes), every strategy, vtree source and collection rate from 1 up; suitable vtree: at each inner node that splits a factor's variables, exactly one of them is on the left",
  "no test compiles a network.",
  ["src/pgm_compiler.cpp", M], [("compile_factor", "src/pgm_compiler.cpp"), ("compile_network, compile_network_with_vtree, compile_network_dc", "src/pgm_compiler.cpp")])
p("C20", "Vtree utilities keep shape, order and variables",
  "Listing a vtree gives every node exactly once with parents before children; its variables, and its leaves in left-to-right order, are reported exactly; the argument is never modified, copies share nothing with it. Copying a vtree, with or without renaming variables, gives the same shape; projecting onto some variables keeps exactly those, their order and their nesting; looking up a set of variables gives the node whose variables are exactly that set, or none.",
  ["inputs"],
  "every vtree up to thousands of leaves and any depth, every inner node, renaming and non-empty variable subset",
  "the utilities are only exercised indirectly on one or two small vtrees.",
  [N, PH], [("vtree_util::*", N)])
p("C21", "Vtrees built from a network cover every variable exactly once",
  "Each of the three constructions (min-fill order, join tree, hypergraph partitioning) returns, for every network, a proper vtree whose leaves are exactly the network's variables once each (for hypergraph partitioning: the variables occurring in a factor), and at each of its inner nodes that splits a factor's variables exactly one of them is on the left, so that the network compiles on it; a node with two inner children splits no factor. The hypergraph construction works in the directory it is given, whatever its path length.",
  ["inputs", "configurations"],
  "every set of factor scopes (disconnected, chains, grids, repeated and empty scopes), every elimination order, tree decomposition and bipartition that the external libraries may answer",
  "no test builds a vtree from a network.",
  ["src/minfill_vtree.cpp", "src/jointree_vtree.cpp", "src/hypergraph_decomposition_vtree.cpp"],
  [("MinFillVtree", "src/minfill_vtree.cpp"), ("JointreeVtree", "src/jointree_vtree.cpp"), ("HypergraphDecompositionVtree", "src/hypergraph_decomposition_vtree.cpp")])
p("C22", "Data sets keep every record with its multiplicity",
  "Reading a data file, adding records and reading sparse JSON data give exactly the multiset of rows supplied, the right number of examples and of variables; writing a data set and reading it back gives the same multiset. The entropy is that of the empirical distribution, a second read replaces what was there, and a file that cannot be opened ends the program with an error.",
  ["inputs", "histories"],
  "every data set up to 65535 columns, with repeated rows, every record order, every admissible JSON document",
  "one test reads one CSV file.",
  ["src/binary_data.cpp"], [("ReadFile, WriteFile, AddRecord, ReadSparseDataJsonFile, CalculateEntropy", "src/binary_data.cpp")])
p("C23", "The CSV tokeniser returns exactly the fields, and is memory-safe",
  "For every well-formed CSV text (any delimiter, quoting, line ends, field lengths, with or without header, from a string, which the tokeniser copies, or a file) the tokeniser returns exactly the fields of every row in order, and then the end. On arbitrary bytes it terminates, never accesses memory out of bounds and releases all it allocates.",
  ["inputs"],
  "every table and quoting; every byte string",
  "the tokeniser is only used on one well-formed file of digits.",
  ["src/csvparser.c"], [("CsvParser_getRow", "src/csvparser.c")])
p("C24", "CNF constraints are read and compiled exactly",
  "Reading a CNF file gives exactly its clauses, whatever the layout (comments, blank lines, problem line, blanks, line ends). Compiling clauses over a manager's vtree gives a PSDD over all of its variables whose possible assignments are exactly the models of the clauses, or no PSDD when there is none. A CNF file that cannot be opened ends the program with an error.",
  ["inputs", "configurations"],
  "every set of clauses (empty, unit, repeated, tautological), every vtree and variable numbering, every file layout with one clause per line",
  "no test compiles a CNF.",
  ["src/cnf.cpp"], [("CNF(const char*)", "src/cnf.cpp"), ("CNF::Compile", "src/cnf.cpp")])
p("C25", "The inference tool prints the exact conditioned answers",
  "For every PSDD, vtree and CNF evidence file, the inference tool prints the most probable explanation and the marginals of the distribution conditioned on the evidence (of the plain distribution when there is none), in whichever order and spelling the options are given. Contradictory evidence is reported as such, and the tool ends normally.",
  ["inputs", "configurations"],
  "every PSDD file and vtree file, every CNF evidence, every combination of queries and option spellings, options before file names",
  "no test runs the tool.",
  ["psdd_inference_main.cpp", "src/cnf.cpp", N], [("main", "psdd_inference_main.cpp")], observe=["standard output, exit status"])
p("C26", "Long mixed histories are memory-safe, reproducible and leak-free",
  "Any sequence of valid operations over one or more managers, including clean-ups of everything, destruction of managers in any order and work going on afterwards, runs without invalid memory access, undefined behaviour or use of uninitialised values. The same sequence with the same seeds gives the same answers when run again in the same process, and once its managers are destroyed it leaves no memory behind.",
  ["histories"],
  "every finite sequence of operations of any kind with valid arguments",
  "the tests run without sanitizers, one operation per manager, and never look at memory.",
  [N, M, U, P, "src/cnf.cpp", "src/binary_data.cpp", "src/csvparser.c"], [("ownership of nodes by the unique table", U), ("ownership of vtrees by managers", M)])
p("C27", "The network compiler tool writes the distribution of the network",
  "For every network file and vtree source, the compiler tool writes a PSDD file and a vtree file beside the network file that together encode the normalised product of the factors over all variables, and prints its log normalising constant; a vtree file given, whatever its name, is the vtree written; the inference tool run on these files gives the network's exact marginals. A network that is zero everywhere is reported as unsatisfied and a missing network file ends with an error.",
  ["inputs", "configurations"],
  "every network of binary variables, every vtree method or suitable vtree file, every path and working directory",
  "no test runs the tool.",
  ["uai_compiler.cpp", "src/pgm_compiler.cpp", "psdd_inference_main.cpp"], [("main", "uai_compiler.cpp")], observe=["files written, standard output, exit status"])
p("C28", "Node listings are complete, duplicate-free and parents-first",
  "Listing the nodes of one or several PSDDs gives every node reachable from them exactly once and nothing else, each node before all of its children, and for one PSDD its root first. The reported size is the number of independent parameters of the reachable nodes (elements minus one per decision node, one per free variable), and the set of covered nodes is the reachable set.",
  ["inputs"],
  "every PSDD and every list of PSDDs (repeated, nested, overlapping, of different depths and flags)",
  "tests use listings of a single small PSDD only as a step towards something else.",
  [N], [("SerializePsddNodes, GetCoveredPsddNodes, GetPsddSize", N)])
p("C29", "The benchmark tool reads any PSDD, reports its node count and ends normally",
  "For every PSDD file and vtree file over any number of variables, the benchmark tool reads the PSDD, reports exactly the number of its nodes (each node reachable from the root once, lines describing unused or repeated nodes not counted), runs its random evidence through both of its batch evaluations without invalid memory access, prints both times and ends normally. The files it is given are not changed.",
  ["inputs"],
  "every normalised PSDD file with its vtree file",
  "no test runs the tool.",
  ["psdd_inference_benchmark.cpp", M, N], [("main", "psdd_inference_benchmark.cpp")], observe=["standard output, exit status, sanitizer reports"])

if __name__ == "__main__":
    with open(V + "/properties.jsonl", "w") as f:
        for x in props:
            f.write(json.dumps(x) + "\n")
    checks = json.load(open(V + "/checks.json"))
    tech = {"C23": "ASan/UBSan-monitored generated and hostile workload with reference-parser oracle",
            "C26": "ASan+UBSan and valgrind memcheck over random histories, replay comparison, live-heap monitor",
            "C15": "ASan-monitored histories with snapshot auditor and live-heap monitor",
            "C16": "runtime monitor: bit-exact state snapshots after every step of random histories",
            "C28": "runtime monitor: independent traversal oracle under ASan/UBSan"}
    m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
         "notes": "Every check builds /repo's current sources with gcc ASan+UBSan, links a monitor harness "
                  "(harness/cNN.cpp) and runs a seeded workload on all cores; see DESIGN.md. No hooks in /repo are needed."}
    for x in props:
        i = x["id"]
        if i not in checks:
            continue
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 run_check.py %s quick" % i,
            "thorough_cmd": "python3 run_check.py %s thorough" % i,
            "technique": tech.get(i, "ASan/UBSan-instrumented runtime monitoring against an independent reference oracle"),
            "level": "exploration",
            "level_note": "Seeded random exploration of the quantified inputs/histories with an online oracle on every "
                          "execution; covers what was generated, not everything. Trusts the harness's reference model, "
                          "gcc's sanitizers, the bundled libsdd" +
                          (" and the stand-ins for the htd and KaHyPar libraries, which are not available offline."
                           if i in ("C19", "C21", "C27") else ".")})
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")
