#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only because JSON lines are hard to edit by hand)."""
import json, os
H = "src/header/EasyFactorGraph/"
S = "src/src/"
P = []


def prop(pid, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = {"id": pid, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    P.append(d)


prop("C01", "Marginals are exact on acyclic models",
     "For every model whose hidden part has no cycle (a forest, or a graph whose cycles are all broken by the evidences) "
     "and that admits at least one assignment compatible with the evidences, the marginal distribution returned for any "
     "variable, by variable or by name, equals within float accuracy the one obtained by summing the product of all the factors over all "
     "the assignments compatible with the evidences. An observed variable gets all its probability on the observed value.",
     ["inputs", "configurations"],
     "every acyclic model: any number of variables, any domain sizes, asymmetric, sparse, tiny or huge factors, "
     "constant, exponential or tunable, several components, any insertion order of factors and evidences",
     "the tests check a few hand made trees with symmetric binary factors; direction, order and sparsity of the factors "
     "are never varied (a transposition of the messages was unnoticed)",
     [S + "structure/QueryManager.cpp", S + "structure/Types.cpp", S + "structure/SpecialFactors.cpp",
      S + "structure/bases/BeliefAware.cpp", S + "structure/bases/StateAware.cpp"],
     [("message passing over a tree", S + "structure/bases/BeliefAware.cpp"),
      ("computation of a message", S + "structure/SpecialFactors.cpp"),
      ("product of the unaries of a variable", S + "structure/SpecialFactors.cpp")],
     [("messages", "belief sent from a hidden variable to another", H + "structure/Types.h")],
     ["marginal query"])

prop("C02", "MAP answers are maximizers on acyclic models",
     "On every acyclic hidden part compatible with the evidences, the maximum a posteriori value returned for a variable "
     "maximizes, up to float accuracy, its max-marginal, and is the observed value for an observed variable. The assignment returned for the whole hidden set "
     "lists one value per hidden variable, in the same order used when listing the hidden variables, each maximizing its max-marginal; "
     "when the best assignment is unique the answer is that assignment.",
     ["inputs", "configurations"],
     "every acyclic model, with impossible combinations, ties, several components and evidences",
     "tests use a couple of chains with dominating values and no impossible combination",
     [S + "structure/QueryManager.cpp", S + "structure/SpecialFactors.cpp", S + "structure/bases/BeliefAware.cpp"],
     [("max product messages", S + "structure/SpecialFactors.cpp"), ("MAP queries", S + "structure/QueryManager.cpp")],
     (), ["MAP queries"])

prop("C03", "Joint marginals of connected groups are exact",
     "On every acyclic hidden part compatible with the evidences, the factor returned for a group of variables has exactly the requested variables "
     "in the requested order and, once normalized, equals within float accuracy the exact joint distribution, also when some variables of the group are observed "
     "or lie in different components. This holds for the groups whose hidden variables are connected to each other inside each component they touch.",
     ["inputs", "configurations"],
     "every acyclic model, any subgroup satisfying the connection condition, any order of the group, any evidences",
     "tests check three groups of one fixed graph, never with observed variables",
     [S + "structure/QueryManager.cpp", S + "factor/Factor.cpp"],
     [("joint query", S + "structure/QueryManager.cpp"), ("permutation of the group", S + "factor/Factor.cpp")],
     (), ["joint marginal query"])

prop("C04", "Answers depend only on the current content of the model",
     "After any history of insertions, evidence settings, changes and removals, weight changes, queries, samplings and gradient computations, "
     "every query answers as a model freshly built with the same factors, weights and evidences. No stale message, "
     "no leftover of a removed evidence and no lost factor ever shows up in the answers.",
     ["histories"],
     "every sequence of public operations on every model, queries interleaved at any point",
     "tests query once after construction and a few set/remove pairs; they do not sample histories "
     "(removing an evidence with observed neighbours and changing the weights of unary factors gave wrong answers)",
     [S + "structure/EvidenceManager.cpp", S + "structure/bases/StateAware.cpp", S + "structure/bases/BeliefAware.cpp",
      S + "structure/FactorsConstManager.cpp", S + "trainable/FactorsTunableManager.cpp"],
     [("evidence insertion and removal", S + "structure/EvidenceManager.cpp"),
      ("invalidation of the propagation result", S + "structure/bases/BeliefAware.cpp"),
      ("split and merge of the hidden clusters", S + "structure/bases/StateAware.cpp")],
     [("merged unaries", "cached product of the unary factors of a node", H + "structure/Types.h"),
      ("last propagation result", "validity of the messages", H + "structure/bases/BeliefAware.h")],
     ["all the queries"])

prop("C05", "Evidence and variable bookkeeping is consistent",
     "At any point of any history, the variables of the model are exactly those of the inserted factors, partitioned in hidden and observed, "
     "the observed ones being exactly those with an evidence set and not removed, with the last value set. The collections of all, constant and tunable "
     "factors, lookups by name and the structures reported after a propagation (sizes of the hidden components and whether they are trees) match that content.",
     ["histories"],
     "every history of insertions, evidence changes by variable or by name, single, multiple and total removals",
     "tests check few fixed sequences on one graph",
     [S + "structure/EvidenceManager.cpp", S + "structure/bases/StateAware.cpp", S + "structure/bases/FactorsAware.cpp",
      S + "structure/FactorsConstManager.cpp", H + "misc/SmartMap.h"],
     [("hidden clusters maintenance", S + "structure/bases/StateAware.cpp"), ("evidence manager", S + "structure/EvidenceManager.cpp")],
     [("clusters of hidden variables", "connected components of the hidden part", H + "structure/Types.h")],
     ["getters of the model", "propagation result"])

prop("C06", "Loopy propagation terminates and reports honestly",
     "With cycles in the hidden part, every query terminates within the iterations allowed by the propagation context, whose changes, like those of the strategy, are effective from the next query; the propagation is reported as completed "
     "only when it converged (acyclic parts always complete), a bound too low is reported as not completed, and a higher bound does not alter an already completed result. "
     "When belief propagation is contractive the returned marginals equal its fixed point within the convergence tolerance, and they are always valid distributions.",
     ["inputs", "configurations"],
     "every loopy model, from weak to frustrated couplings, every bound of iterations, user defined strategies included",
     "tests compare two loopy graphs with the default context",
     [S + "structure/BaselineLoopyPropagator.cpp", S + "structure/bases/BeliefAware.cpp"],
     [("iterations of the loopy propagation", S + "structure/BaselineLoopyPropagator.cpp"),
      ("report of the propagation", S + "structure/bases/BeliefAware.cpp")],
     (), ["queries, last propagation result"])

prop("C07", "Answers do not depend on the number of threads",
     "For any number of threads passed to a query, gradient or training call, and any scheduling, the answer is the one of the single thread call "
     "(exactly on acyclic hidden parts up to float accuracy, within the convergence tolerance on loopy ones). Repeating the same sampling with the same seed and number of threads "
     "gives the same samples.",
     ["schedules", "configurations"],
     "every schedule of the worker threads, 1 to many threads, every model",
     "tests run with a couple of thread counts, on an idle machine: the schedules are always alike",
     [S + "structure/bases/PoolAware.cpp", S + "structure/bases/BeliefAware.cpp", S + "structure/BaselineLoopyPropagator.cpp",
      S + "structure/GibbsSampler.cpp", S + "trainable/FactorsTunableManager.cpp"],
     [("parallel order of the messages", S + "structure/BaselineLoopyPropagator.cpp"), ("pool", S + "structure/bases/PoolAware.cpp")],
     (), ["queries, samples and gradients with different threads"])

prop("C08", "No data race in parallel computations",
     "No call using more threads (queries, sampling, gradient, conditional train set generation) ever performs two unsynchronized conflicting accesses "
     "to the same memory. Distinct models can be used by distinct threads at the same time, also when they share factors and variables.",
     ["schedules"],
     "every interleaving of the worker threads and of the callers",
     "tests cannot observe races: they only see final values, and of one schedule",
     [S + "structure/bases/PoolAware.cpp", S + "structure/GibbsSampler.cpp", S + "structure/BaselineLoopyPropagator.cpp",
      S + "structure/bases/BeliefAware.cpp", S + "trainable/FactorsTunableManager.cpp"],
     [("handover of the tasks to the workers", S + "structure/bases/PoolAware.cpp"),
      ("groups of independent messages", S + "structure/BaselineLoopyPropagator.cpp"),
      ("groups of independent samplings", S + "structure/GibbsSampler.cpp")],
     [("worker slots", "task assigned to each worker", H + "structure/bases/PoolAware.h")],
     ["memory accesses"])

prop("C09", "The thread pool runs every task exactly once before returning",
     "Every task passed to the pool is run exactly once, has completed with its effects visible when the call returns, and receives the id of the running worker, "
     "lower than the pool size and never used by two tasks at the same time. This holds for any number of tasks (none included), pool size, sequence of calls, resizing and destruction, "
     "and concurrent callers; a pool without threads is refused.",
     ["schedules", "histories"],
     "every schedule, pool size, number of tasks, sequence of calls and resizes",
     "the pool tests measure the time of one call with sleeping tasks",
     [S + "structure/bases/PoolAware.cpp"],
     [("distribution of the tasks and barrier", S + "structure/bases/PoolAware.cpp")],
     (), ["tasks"])

prop("C10", "No memory error, leak or undefined behaviour",
     "No sequence of public calls, with valid or refused arguments, ever performs an invalid memory access, reads uninitialized data, causes other undefined behaviour, aborts, "
     "or leaks the variables, factors and memory a destroyed model was holding.",
     ["histories", "inputs"],
     "every sequence of calls, hostile arguments included",
     "tests run without sanitizers, on well behaved sequences",
     [S + "structure/bases/StateAware.cpp", S + "structure/EvidenceManager.cpp", S + "structure/QueryManager.cpp", S + "factor/Function.cpp",
      H + "misc/Cache.h"],
     [("raw pointers among nodes, clusters and factors", H + "structure/Types.h"), ("caches", H + "misc/Cache.h")],
     (), ["memory accesses, allocations"])

prop("C11", "Invalid operations are refused and change nothing",
     "An operation whose arguments are invalid (unknown variables or names, values out of domain, factors with unsupported or clashing variables, duplicated insertions, wrong number of weights, "
     "unknown sharing group, zero threads for a computation, null strategy, train sets with too few columns or values out of domain) throws an exception, and leaves variables, evidences, factors, weights and all the answers exactly as before. The model stays usable.",
     ["histories", "fault_sequences"],
     "every invalid operation, at any point of any history",
     "tests check that few calls throw, never the state afterwards (several refused calls left half done changes)",
     [S + "structure/EvidenceManager.cpp", S + "structure/FactorsConstManager.cpp", S + "structure/bases/FactorsAware.cpp",
      S + "trainable/FactorsTunableManager.cpp", S + "structure/bases/PoolAware.cpp"],
     [("validation before the changes", S + "structure/bases/StateAware.cpp"), ("tunable insertion", S + "trainable/FactorsTunableManager.cpp")],
     (), ["exceptions, getters, queries"])

prop("C12", "Gibbs samples are well formed and reproducible",
     "Sampling returns exactly the requested number of samples, each with one value per variable in the order of the variables of the model, inside the domains, with observed variables at their evidence. "
     "Once the chain is in a possible state it never leaves the possible ones, and the same seed, context and number of threads on the same model give the same samples, "
     "spacing and transient only selecting which states of the same chain are kept.",
     ["inputs", "histories", "configurations"],
     "every model, evidences, number of samples, spacing, transient, seed and threads",
     "tests compare frequencies of a few models with a fixed seed; boundary draws of the generator never happen there",
     [S + "structure/GibbsSampler.cpp"],
     [("evolution of the chain", S + "structure/GibbsSampler.cpp"), ("uniform sampler", H + "structure/GibbsSampler.h")],
     (), ["samples"])

prop("C13", "Gibbs samples follow the model distribution",
     "On models whose chain mixes, the empirical distribution of the samples converges to the distribution of the model given the evidences, "
     "for pairs of connected variables and for independent ones too, with any seed or none, and with any number of threads.",
     ["inputs", "configurations", "schedules"],
     "every mixing model, with fixed or automatic seeds and one or more threads",
     "tests accept large deviations on single variable frequencies of a few models; dependence among variables that should be independent is never observed",
     [S + "structure/GibbsSampler.cpp", S + "structure/SpecialFactors.cpp"],
     [("conditional distribution of a variable", S + "structure/GibbsSampler.cpp"), ("seeding of the engines", S + "structure/GibbsSampler.cpp")],
     (), ["samples"])

prop("C14", "Random field gradient is the likelihood gradient",
     "For a random field without cycles, the gradient returned for a train set is, per group of factors sharing the weight, the average over the train set of the sum of their raw images minus the expected value "
     "of that sum under the model with the current weights and no evidences, in the same order of the weights. It depends only on the current model and on the passed samples, "
     "whatever was computed before.",
     ["inputs", "histories"],
     "every acyclic random field, weights, sharing, train set and subset, sequence of weight changes and gradients",
     "tests train two small models and look at the final weights",
     [S + "model/RandomField.cpp", S + "trainable/FactorsTunableManager.cpp", S + "trainable/tuners/BaseTuner.cpp",
      S + "trainable/tuners/UnaryTuner.cpp", S + "trainable/tuners/BinaryTuner.cpp", S + "trainable/tuners/CompositeTuner.cpp"],
     [("empirical part of the gradient", S + "trainable/tuners/BaseTuner.cpp"), ("expected part of the gradient", S + "trainable/tuners")],
     (), ["gradient"])

prop("C15", "Conditional random field gradient is the conditional gradient",
     "For a conditional random field whose hidden part is acyclic, the gradient for a train set is, per group of factors sharing the weight, the average over the samples of the sum of the raw images minus its expectation "
     "given the observed values of that sample. It is in the order of the weights, and uses for each evidence the column of the same variable.",
     ["inputs", "histories"],
     "every conditional random field, order of variables and evidences, train set, sharing and weights",
     "tests check convergence of the training of one model whose evidences happen to be symmetric",
     [S + "model/ConditionalRandomField.cpp", S + "model/HiddenObservedTuner.cpp"],
     [("gradient given the evidences of each sample", S + "model/ConditionalRandomField.cpp"),
      ("tuner of a factor between hidden and observed", S + "model/HiddenObservedTuner.cpp")],
     (), ["gradient"])

prop("C16", "Conditional random fields keep their fixed evidence set",
     "A conditional random field has the observed variables of its source for ever, changing only their values: setting the evidences takes one value per observed variable, in the order the observed variables are listed, and a refused setting changes nothing. "
     "Models without evidences, or with tunable factors attached to observed variables only, are refused; generated train sets contain complete samples of the model, the same number for every combination of evidence values or, for percentages lower than one, for an evenly spaced part of them, not smaller than requested.",
     ["inputs", "histories"],
     "every source model, evidences and sequence of settings, any percentage of the evidence combinations",
     "tests set the evidences of one model once",
     [S + "model/ConditionalRandomField.cpp", H + "model/ConditionalRandomField.h"],
     [("evidences setting", S + "model/ConditionalRandomField.cpp"), ("generation of the train set", S + "model/ConditionalRandomField.cpp")],
     (), ["evidences, train sets, queries"])

prop("C17", "Weights and sharing groups are coherent",
     "Weights are read and written in the order of the groups of tunable factors sharing the weight, reading back what was written, with all the factors of a group having the same weight, equal to that of the group joined also when inserted with a different one. "
     "The groups listed partition the tunable factors, and answers and gradients use the current weights.",
     ["histories", "inputs"],
     "every sequence of insertions with and without sharing and of weight changes",
     "tests set the weights of a single sharing example",
     [S + "trainable/FactorsTunableManager.cpp", S + "trainable/tuners/CompositeTuner.cpp", S + "trainable/tuners/BaseTuner.cpp"],
     [("tuners and their groups", S + "trainable/FactorsTunableManager.cpp")],
     (), ["weights, clusters, queries"])

prop("C18", "JSON export and import round trip preserves the model",
     "Exporting any model to JSON and importing the result in an empty one gives back the same variables, factors (kind, variables order, raw images, weights and sharing groups) and, through them, the same answers. "
     "Importing in a non empty model adds the content to it, and exporting again gives the same document content.",
     ["inputs"],
     "every model: names with quotes, control and non ASCII characters, any float image or weight, sparse and dense factors, sharing groups and evidences",
     "tests use plain names and round values",
     [S + "io/json/Exporter.cpp", S + "io/json/Importer.cpp", S + "io/Utils.cpp", H + "io/ModelComponents.h"],
     [("JSON writer", S + "io/json/Exporter.cpp"), ("JSON reader", S + "io/json/Importer.cpp")],
     (), ["files, strings, models"])

prop("C19", "Malformed JSON never corrupts nor crashes",
     "Importing any text, valid or not, either succeeds giving a coherent and usable model with what the text describes, or throws an exception; it never crashes, hangs, aborts or performs invalid accesses. "
     "A document with missing or inconsistent parts (values out of domain, unknown variables, different sizes for a variable) is refused.",
     ["inputs", "fault_sequences"],
     "every text: truncated, mutated, with missing, duplicated or mistyped fields",
     "tests import well formed files only",
     [S + "io/json/Importer.cpp", S + "io/Utils.cpp"],
     [("JSON reader", S + "io/json/Importer.cpp")],
     (), ["exceptions, imported models, memory accesses"])

prop("C20", "Factors behave as maps from combinations to images",
     "After any sequence of sets, clears, copies and variable replacements, a factor gives for each combination the last image set (zero when never set), independently of how many combinations were set and in which order, also when too many combinations are possible to be enumerated; "
     "iterations visit every combination once in lexicographic order with its image (or all the non null ones), and negative images and invalid combinations are refused with no effect. "
     "Correlation factors give one to the combinations with all equal values and zero to the others, anti correlation the opposite.",
     ["histories", "inputs"],
     "every group of variables and sequence of operations, across the change of representation from sparse to dense",
     "tests set few combinations of small groups",
     [S + "factor/Function.cpp", H + "factor/Function.h", S + "factor/Factor.cpp", S + "factor/Mutable.cpp"],
     [("sparse to dense switch", S + "factor/Function.cpp"), ("index of a combination", S + "factor/Function.cpp")],
     [("container of the images", "hash map or dense vector", H + "factor/Function.h")],
     ["images"])

prop("C21", "Factor algebra is exact",
     "The merge of any factors is defined over the union of their variables and gives for each combination the product of their images; fixing, summing or maximizing out a variable, permuting the group, cloning with transformed images, exponentiating with a weight, "
     "finding images through a bigger group and computing probabilities give for each combination the value of their definition. Probabilities are non negative, sum to one, and are uniform for a null factor; "
     "invalid merges and permutations are refused.",
     ["inputs"],
     "every set of factors, with any order of variables, sparse or dense, exponential or not",
     "tests merge a few small factors in one order",
     [S + "factor/Factor.cpp", S + "factor/FactorExponential.cpp", S + "factor/ImageFinder.cpp", S + "factor/Immutable.cpp"],
     [("merge", S + "factor/Factor.cpp"), ("finder", S + "factor/ImageFinder.cpp")],
     (), ["images, probabilities"])

prop("C22", "Ranges enumerate the joint domain once, in order",
     "Iterating the joint domain of any group yields every combination exactly once, in lexicographic order with the last variable changing first, then becomes equal to the end and refuses further increments. "
     "Copies iterate independently from the point reached, and two ranges compare equal only at the same point.",
     ["inputs", "histories"],
     "every group of variables, also with unary domains and huge joint domains",
     "tests iterate two groups",
     [S + "categoric/GroupRange.cpp", H + "categoric/GroupRange.h"],
     [("increment", S + "categoric/GroupRange.cpp")],
     (), ["combinations"])

prop("C23", "Variables and groups are always valid",
     "Variables have a non empty name and a non null size; groups are never empty and never contain two variables with the same name, whatever sequence of constructions, additions and replacements is attempted, and a refused one changes nothing. "
     "Equality of groups ignores the order, replacements keep position by position the sizes, the size of a group is the product of its sizes, and the difference of sets of variables removes exactly the given ones.",
     ["inputs", "histories"],
     "every sequence of operations on variables and groups",
     "tests try a few duplicated additions",
     [S + "categoric/Group.cpp", S + "categoric/Variable.cpp", H + "categoric/Group.h", H + "misc/SmartSet.h"],
     [("checks when changing a group", S + "categoric/Group.cpp")],
     (), ["groups"])

prop("C24", "Copied and absorbed models are equivalent and independent",
     "A model copied from or absorbing another one has the same factors (a deep copy of a constant one keeps its final images), weights and sharing groups and, for the same evidences, gives the same answers. "
     "With deep copies any later change of one of the two (evidences, weights, factors) never alters the other; with shallow ones only the weights of shared factors are common.",
     ["histories", "inputs"],
     "every pair of models and sequence of changes after the copy, deep or shallow",
     "tests absorb one model and compare factor counts",
     [S + "model/Graph.cpp", S + "model/RandomField.cpp", S + "structure/FactorsConstManager.cpp", S + "trainable/FactorsTunableManager.cpp",
      H + "structure/FactorsConstManager.h"],
     [("absorption of constant factors", S + "structure/FactorsConstManager.cpp"), ("absorption of tunable factors", S + "trainable/FactorsTunableManager.cpp")],
     (), ["getters and queries of both models"])

prop("C25", "Train sets give back exactly their samples",
     "A train set imported from a file has exactly the samples of its non empty lines, with their values in order, and a missing, uneven or empty one is refused. Iterating a train set visits every sample once, in order; "
     "a subset iterator of a percentage visits as many samples as that fraction of the size (rounded down, refused when it is not in (0,1]), all belonging to the train set and the same at each iteration.",
     ["inputs"],
     "every file content and percentage",
     "tests import one file and count samples",
     [S + "io/TrainSetImport.cpp", S + "io/Utils.cpp", S + "trainable/TrainSet.cpp"],
     [("parsing of the lines", S + "io/Utils.cpp"), ("subset", S + "trainable/TrainSet.cpp")],
     (), ["samples"])

prop("C26", "Returned distributions are always valid",
     "Whatever the model and the evidences (impossible ones, contradictory or null factors, hubs with very many neighbours, very small or very large images and weights inside the float range), every returned distribution has one entry per value, "
     "finite and non negative, summing to one, and every MAP value is in the domain. On possible acyclic models the precision does not degrade with the number of factors.",
     ["inputs", "configurations"],
     "every model, including degenerate ones",
     "tests use small well conditioned models: under and overflows and null products never happen",
     [S + "structure/SpecialFactors.cpp", S + "structure/QueryManager.cpp", S + "factor/Immutable.cpp"],
     [("normalization of merged unaries and messages", S + "structure/SpecialFactors.cpp")],
     (), ["returned distributions"])

prop("C27", "Training exposes the real weights and likelihood gradient",
     "While a model is trained, the trainer sees as parameters exactly the current weights of the model, every parameter vector it sets becomes the weights (one of the wrong size is refused), and the gradient it gets is the opposite of the likelihood gradient "
     "over the whole train set or, with a stochastic percentage, over a freshly drawn subset of that size. Whatever the trainer does, throwing included, the weights it left are kept and the model answers coherently afterwards, with any number of threads.",
     ["inputs", "histories"],
     "every random or conditional field, train set, percentage, thread count and behaviour of the trainer",
     "tests run a few trainers and look at the trend of the likelihood, and need libraries that are fetched",
     [S + "trainable/ModelTrainer.cpp", S + "trainable/FactorsTunableManager.cpp", S + "trainable/TrainSet.cpp"],
     [("adapter given to the trainer", S + "trainable/ModelTrainer.cpp")],
     (), ["calls of a trainer, weights and answers of the model"])

prop("C28", "XML files describe the model exactly",
     "Exporting any model to XML and importing the file gives back the same variables, evidences, factors, raw images, weights and sharing groups (those that the variables of their first factor identify); a document written by hand is imported as it says, whatever the order of its parts and with values in separate files. "
     "A missing file or an inconsistent document (unknown or repeated variables, values out of domain, missing or negative numbers, files with the wrong columns) is refused with an exception, without invalid accesses.",
     ["inputs", "fault_sequences"],
     "every model and every text",
     "tests import a few well formed files, and need a library that is fetched",
     [S + "io/xml/Exporter.cpp", S + "io/xml/Importer.cpp", S + "io/Utils.cpp"],
     [("XML writer", S + "io/xml/Exporter.cpp"), ("XML reader", S + "io/xml/Importer.cpp"), ("files of values", S + "io/Utils.cpp")],
     (), ["files, models, exceptions"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
