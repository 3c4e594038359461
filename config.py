"""What each check runs: harness, instrumentation, number of cases."""

TREE = ("models generated per case from (seed, property, case): random forests, also with cycles that the "
        "evidences break, unary/binary, constant/exponential/tunable factors, sparse images, mixed insertion orders")
HIST = ("random histories of insertions, evidence changes, weight changes, queries and samplings on a Graph or "
        "RandomField, mirrored by a shadow of the content")


def rel(src, quick, thorough, **kw):
    return dict({"src": src, "variant": "rel", "quick": quick, "thorough": thorough}, **kw)


def asan(src, quick, thorough, **kw):
    return dict({"src": src, "variant": "asan", "quick": quick, "thorough": thorough}, **kw)


def tsan(src, quick, thorough, **kw):
    return dict({"src": src, "variant": "tsan", "quick": quick, "thorough": thorough}, **kw)


NOT_APPLICABLE = {}

PROPS = {
    "C01": {
        "technique": "runtime oracle (independent double precision reference) over generated models, plus ASan/UBSan run",
        "note": "every marginal of every generated acyclic model compared with an exact reference that is itself cross-checked by enumeration; explores, does not enumerate",
        "runs": [rel("c01", 12000, 400000), asan("c01", 600, 20000)],
        "rule": TREE + "; non trivial: at least one edge between hidden variables and one marginal compared "
                "with the exact one; distinct by topology, domain sizes, zero pattern and evidences",
        "assumptions": ["factor images with a log range that float products can represent"],
    },
    "C02": {
        "technique": "runtime oracle (exact max-marginals) over generated models, plus ASan/UBSan run",
        "note": "MAP answers judged against exact max-marginals, ties within 2e-4 accepted",
        "runs": [rel("c02", 12000, 400000), asan("c02", 600, 20000)],
        "rule": TREE + "; non trivial: at least one edge between hidden variables and MAP values compared with the "
                "exact max marginals (ties accepted within 2e-4); distinct by model signature",
        "assumptions": ["factor images with a log range that float products can represent"],
    },
    "C03": {
        "technique": "runtime oracle (joint by conditioning the reference) over generated models, plus ASan/UBSan run",
        "note": "joints judged against the exact ones; groups restricted as in the statement",
        "runs": [rel("c03", 25000, 300000), asan("c03", 1200, 15000)],
        "rule": TREE + "; non trivial: a joint distribution of at least two variables compared with the exact one; "
                "distinct by model signature and subgroup",
        "assumptions": ["the hidden part of the subgroup is connected inside each hidden component"],
    },
    "C04": {
        "technique": "online monitor with a shadow of the content over random histories, plus ASan/UBSan run",
        "note": "answers at random points of the histories compared with the reference computed from the shadow",
        "runs": [rel("c04", 25000, 300000), asan("c04", 500, 15000)],
        "rule": HIST + "; non trivial: at least one comparison of all the marginals after at least three operations; "
                "distinct by model signature and history",
        "assumptions": ["loopy contents are compared only when the reference contracts (ratio below 0.8)"],
    },
    "C05": {
        "technique": "online monitor of the bookkeeping with a shadow over random histories, plus ASan/UBSan run",
        "note": "all the getters and reported structures compared with the shadow along the histories",
        "runs": [rel("c05", 7000, 300000), asan("c05", 300, 15000)],
        "rule": HIST + "; non trivial: bookkeeping compared with the shadow after each operation; distinct by history",
    },
    "C06": {
        "technique": "runtime monitor of the loopy propagation (fixed point oracle, wrapped strategy, bounds sweep)",
        "note": "fixed point compared only when the reference contracts whatever the order of the updates; termination seen by a stall detector",
        "runs": [rel("c06", 4000, 100000), asan("c06", 200, 5000)],
        "rule": "random graphs with cycles, couplings from weak to frustrated; non trivial: at least one loopy "
                "hidden cluster propagated; distinct by model signature",
        "assumptions": ["beliefs compared with the fixed point only when the reference contracts"],
    },
    "C07": {
        "technique": "runtime oracle over thread counts with schedule perturbation",
        "note": "same answers asked with different threads, delays injected at allocations; explores schedules, does not enumerate",
        "runs": [rel("c07", 200, 6000, procs=1)],
        "rule": "random models, each asked with 2-4 different thread counts (1-16), forced delays at allocations; "
                "non trivial: marginals compared with the reference for every thread count; distinct by signature "
                "and counts",
    },
    "C08": {
        "technique": "ThreadSanitizer over parallel workloads with schedule perturbation",
        "note": "happens-before race detection on the executed schedules",
        "runs": [tsan("c08", 600, 20000, procs=2, libs=("json",)), tsan("c09", 400, 10000, procs=2)],
        "rule": "internally parallel calls and models used at the same time by different threads, under the thread "
                "sanitizer, forced delays at allocations; distinct by model signature and threads",
        "assumptions": ["what the sanitizer can observe in the executed interleavings"],
    },
    "C09": {
        "technique": "online exactly-once/barrier monitor of the pool with injected delays, plus ThreadSanitizer",
        "note": "every task observed; explores schedules, does not enumerate",
        "runs": [rel("c09", 1500, 40000, procs=1), tsan("c09", 300, 10000, procs=2)],
        "rule": "random sequences of parallelFor calls (sizes 1-12, 0-200 tasks, several callers, resizes, short "
                "lives), forced delays in tasks and at allocations; every task monitored; distinct by sequence",
    },
    "C10": {
        "technique": "AddressSanitizer + UBSan + libstdc++ assertions, live allocation/ownership monitor and valgrind memcheck over hostile histories",
        "note": "random sequences of all the public calls on several models sharing factors and variables, with refused calls and any order of destruction",
        "runs": [asan("c10", 3000, 150000, libs=("json",)), rel("c10", 8000, 300000, libs=("json",)),
                 rel("c10", 200, 6000, libs=("json",), name="c10-memcheck", env={"VF_SINGLE": "1"},
                     wrapper=["valgrind", "-q", "--error-exitcode=79", "--leak-check=no"])],
        "rule": "hostile histories of calls on variables, groups, ranges, factors, finders, several models of all the kinds, "
                "train sets and files; non trivial: at least one query, sampling or gradient returned; distinct by trace of "
                "the calls and refusals",
        "assumptions": ["documented preconditions respected: no null variables, train sets with one column per variable"],
    },
    "C11": {
        "technique": "online monitor comparing content and answers around refused operations at random points of histories, plus ASan/UBSan run",
        "note": "about 90 kinds of invalid operations, and strategies failing in the middle of a propagation",
        "runs": [rel("c11", 24000, 600000), asan("c11", 600, 20000)],
        "rule": HIST + "; non trivial: an invalid operation tried, with content compared before and after and answers with "
                "the reference; distinct by operation and content",
        "assumptions": ["no threads are refused when something has to be computed"],
    },
    "C12": {
        "technique": "trace monitor of the samples (shape, domains, evidences, reachable states, replays of the chain), plus ASan/UBSan run",
        "note": "chains compared with longer ones of the same seed, impossible states watched sample by sample",
        "runs": [rel("c12", 12000, 400000), rel("c12m", 300, 6000, procs=1), asan("c12", 400, 15000)],
        "rule": "random models, evidences and contexts; non trivial: at least one sample checked; distinct by model "
                "signature and context",
    },
    "C13": {
        "technique": "statistical monitor of the sampled frequencies (singles, pairs, independent pairs) against the exact reference",
        "note": "thresholds set for a false alarm probability below 1e-6 per run, fixed and automatic seeds, 1-8 threads",
        "runs": [rel("c13", 900, 20000), rel("c13m", 200, 3000, procs=1)],
        "rule": "models whose chain mixes, thousands of samples each; non trivial: frequencies of at least one variable and "
                "pair compared with the exact ones; distinct by model signature and context",
        "assumptions": ["deviations smaller than the statistical resolution of the samples are not visible"],
    },
    "C14": {
        "technique": "runtime oracle (gradient from the reference) over histories of weights and gradients, plus ASan/UBSan run",
        "note": "every component compared with the definition computed in double precision",
        "runs": [rel("c14", 16000, 400000), asan("c14", 400, 15000)],
        "rule": "random fields with acyclic structure, sharing groups, train sets and subsets; non trivial: at least one "
                "component compared; distinct by model signature",
    },
    "C15": {
        "technique": "runtime oracle (conditional gradient from the reference) over generated conditional fields, plus ASan/UBSan run",
        "note": "every component compared with the definition computed in double precision",
        "runs": [rel("c15", 12000, 400000), asan("c15", 400, 15000)],
        "rule": "conditional fields with hidden parts acyclic, sharing groups, random order of the evidences; non trivial: at "
                "least one component compared; distinct by model signature",
    },
    "C16": {
        "technique": "online monitor with a shadow over histories of conditional fields, plus ASan/UBSan run",
        "note": "evidences, answers and generated train sets compared with the shadow",
        "runs": [rel("c16", 12000, 400000), asan("c16", 400, 15000)],
        "rule": "histories on conditional fields, valid and invalid sources; non trivial: evidences set and compared, or "
                "source judged; distinct by model signature",
    },
    "C17": {
        "technique": "online monitor with a shadow of weights and groups over random histories, plus ASan/UBSan run",
        "note": "weights, groups, answers and gradients compared with the shadow",
        "runs": [rel("c17", 50000, 400000), asan("c17", 2000, 15000)],
        "rule": "histories of insertions with and without sharing, weight changes and queries; non trivial: weights compared "
                "for at least one group; distinct by model signature",
    },
    "C18": {
        "technique": "round trip monitor (content, answers, document) over generated models, plus ASan/UBSan run",
        "note": "content compared bit by bit after export and import through objects, text and files",
        "runs": [rel("c18", 10000, 400000, libs=("json",)), asan("c18", 500, 15000, libs=("json",))],
        "rule": "random models with hostile names and arbitrary floats; non trivial: a content imported back and compared; "
                "distinct by model signature",
    },
    "C19": {
        "technique": "AddressSanitizer + UBSan and coherence monitor over structure aware mutations of JSON documents",
        "note": "mutated documents and texts, each judged by an independent validity model, every imported model exercised",
        "runs": [asan("c19", 4000, 150000, libs=("json",)), rel("c19", 24000, 600000, libs=("json",))],
        "rule": "documents built from random models and mutated (fields removed, duplicated, retyped, values out of range, "
                "bytes flipped, truncations); non trivial: a document imported or refused and the model checked after; "
                "distinct by document",
    },
    "C20": {
        "technique": "online monitor with a shadow map over random histories of operations on factors, plus ASan/UBSan run",
        "note": "every combination compared with the shadow across sparse and dense representations",
        "runs": [rel("c20", 80000, 600000), asan("c20", 3000, 30000)],
        "rule": "random groups and histories of sets, clears, copies and replacements; non trivial: all the images compared "
                "after some operation; distinct by group and history",
    },
    "C21": {
        "technique": "runtime oracle (definitions in double precision) over random factors, plus ASan/UBSan run",
        "note": "merge, permutation, exponentials, finders and probabilities compared value by value",
        "runs": [rel("c21", 80000, 600000), asan("c21", 3000, 30000)],
        "rule": "random factors, sparse and dense, any order; non trivial: at least one result compared for every "
                "combination; distinct by case signature",
    },
    "C22": {
        "technique": "online trace monitor of the iterations, plus ASan/UBSan run",
        "note": "every combination of every range compared with the lexicographic sequence",
        "runs": [rel("c22", 150000, 600000), asan("c22", 10000, 30000)],
        "rule": "random groups, unary domains included, and histories of increments and copies; non trivial: at least one "
                "combination checked; distinct by sizes and history",
    },
    "C23": {
        "technique": "online monitor with a shadow over histories of operations on variables and groups, plus ASan/UBSan run",
        "note": "groups and sets compared with a shadow after each accepted or refused operation",
        "runs": [rel("c23", 200000, 800000), asan("c23", 20000, 60000)],
        "rule": "random operations, most of them invalid; non trivial: group compared with the shadow; distinct by history",
    },
    "C24": {
        "technique": "online monitor of pairs of models after copies and absorptions, plus ASan/UBSan run",
        "note": "content of the other model compared before and after each step, answers with the reference",
        "runs": [rel("c24", 25000, 400000), asan("c24", 400, 15000)],
        "rule": "copies and absorptions, deep and shallow, of graphs, random and conditional fields, then histories on both; "
                "non trivial: at least one step after the copy; distinct by model signature and kind",
        "assumptions": ["answers of a model whose shared weights were changed through another one are compared after its own weights are set again"],
    },
    "C25": {
        "technique": "runtime oracle over generated files and train sets, plus ASan/UBSan run",
        "note": "samples compared one by one with what was written",
        "runs": [rel("c25", 60000, 300000), asan("c25", 4000, 20000)],
        "rule": "random files (spaces, blank lines, uneven lines) and percentages; non trivial: samples compared or file "
                "refused; distinct by content",
        "assumptions": ["values are non negative integers"],
    },
    "C26": {
        "technique": "runtime validity and precision monitor over degenerate and large models, plus ASan/UBSan run",
        "note": "impossible, null, extreme and large models; precision compared with the reference when possible",
        "runs": [rel("c26", 60000, 2000000), asan("c26", 2500, 60000)],
        "rule": "null factors, contradictory evidences, hubs, chains, hundreds of unary factors, images in e^+-80, large "
                "weights; non trivial: all the distributions of a model checked; distinct by model signature",
        "assumptions": ["joint images inside the float range"],
    },
    "C27": {
        "technique": "online monitor inside a trainer driving the real training entry point, plus ASan/UBSan run",
        "note": "parameters and gradients seen by the trainer compared with the shadow and the exact reference; the trainer interface of the external library is a stand-in",
        "runs": [rel("c27", 12000, 300000, libs=("learn",)), asan("c27", 500, 15000, libs=("learn",))],
        "rule": "trainings of random and conditional fields on random train sets, with trainers that read, set, refuse, ask "
                "gradients, descend or throw; non trivial: at least one gradient seen by the trainer compared with the exact "
                "one; distinct by model signature",
        "assumptions": ["the interface of the trainers is the one the library uses (getParameters, setParameters, getGradient)"],
    },
    "C28": {
        "technique": "round trip oracle and hostile documents over generated models, plus ASan/UBSan run",
        "note": "models and documents compared with their shadow; the XML library is a stand-in with the interface the code uses",
        "runs": [rel("c28", 12000, 300000, libs=("xml",)), asan("c28", 1500, 30000, libs=("xml",))],
        "rule": "models exported and imported again, documents written by hand with values in separate files, inconsistent and "
                "mutated documents; non trivial: content compared or inconsistent document refused; distinct by model signature",
        "assumptions": ["names of letters, digits and underscores (escaping is up to the external library)"],
    },
}
