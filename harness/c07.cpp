// C07: the answers do not depend on the number of threads
#include "ops.hpp"
#include "cond.hpp"
#include "perturb.hpp"
using namespace vf;

// every pair connected, weakly: the messages depend on many others
static Spec genDense(Rng &r) {
  Spec s;
  int n = static_cast<int>(r.ri(4, 8));
  double range = r.pick(std::vector<double>{0.2, 0.4, 0.8}), keep = r.pick(std::vector<double>{1, 0.7});
  std::vector<std::size_t> planted(static_cast<std::size_t>(n), 0);
  for (int k = 0; k < n; ++k) {
    s.sz.push_back(static_cast<int>(r.ri(2, 3)));
    s.nm.push_back(cat("dense ", k));
  }
  for (int k = 0; k < n; ++k) {
    FSpec u;
    u.v = {k};
    genImages(r, s, u, 3, false, planted, 0);
    s.f.push_back(u);
    for (int j = 0; j < k; ++j)
      if (r.p(keep)) {
        FSpec f;
        f.v = r.p(0.5) ? std::vector<int>{k, j} : std::vector<int>{j, k};
        genImages(r, s, f, range, false, planted, 0);
        s.f.push_back(f);
      }
  }
  r.shuffle(s.f);
  return s;
}

template <typename M> static void drive(Ctx &c) {
  auto U = [](long x) { return static_cast<std::size_t>(x); };
  GenOpt o;
  double u = c.rng.uni();
  o.nmin = 2;
  o.nmax = u < 0.5 ? 9 : (u < 0.9 ? 25 : 80);
  o.maxsz = u < 0.5 ? 4 : 3;
  bool loopy = c.rng.p(0.3);
  o.range = loopy ? 0.8 : c.rng.pick(std::vector<double>{1, 6, 12});
  o.loops = loopy ? static_cast<int>(c.rng.ri(1, 6)) : 0;
  o.zeros = loopy ? 0 : 0.3;
  bool dense = c.rng.p(0.2);
  bool idle = !dense && c.rng.p(0.2);
  Spec s = dense ? genDense(c.rng) : (idle ? genIdle(c.rng) : genModel(c.rng, o));
  c.desc = s.str();
  M m;
  Live l;
  build(m, s, l, c.rng);
  Ref ref(s, s.ev);
  auto R = ref.run(false);
  if (!R.possible)
    throw HarnessError{"impossible model"};
  bool usable = true;
  if (!ref.all_trees) {
    usable = R.converged && R.contraction < 0.8;
  }
  vf::perturb::level = static_cast<std::uint32_t>(c.rng.pick(std::vector<long>{0, 20, 200}));
  struct Off {
    ~Off() { vf::perturb::level = 0; }
  } off;
  std::vector<std::size_t> counts;
  for (long k = c.rng.ri(2, 4); k > 0; --k)
    counts.push_back(U(c.rng.p(0.9) ? c.rng.ri(1, 4) : (s.sz.size() > 9 ? c.rng.ri(5, 7) : c.rng.ri(5, 16))));
  if (idle)
    counts = {U(c.rng.ri(3, 8))};
  if (usable && !ref.all_trees)
    c.st.add(dense ? "dense_models" : (idle ? "loops_with_idle_messages" : "loopy_models"));
  std::optional<EFG::train::TrainSet> ts;
  if constexpr (std::is_same_v<M, RandomField>) {
    std::vector<std::vector<std::size_t>> combs;
    for (int k = 0; k < 6; ++k) {
      combs.emplace_back();
      for (auto &v : m.getAllVariables())
        combs.back().push_back(U(c.rng.ri(0, static_cast<long>(v->size()) - 1)));
    }
    ts.emplace(combs);
  }
  for (auto t : counts) {
    c.st.add(cat("threads_", t));
    c.st.maxi("threads", static_cast<double>(t));
    m.getMAP(l.var[0], 1); // so that the query has to propagate
    std::vector<float> d = m.getMarginalDistribution(l.var[0], t);
    for (std::size_t k = 0; k < s.sz.size(); ++k) {
      if (k)
        d = m.getMarginalDistribution(l.var[k], t);
      checkDistribution(d, U(s.sz[k]), "invalid-distribution");
      double e = distrError(d, R.belief[k]);
      require(!usable || within(e, R.tolerance(k, 2e-5)), "threads-dependent-marginal", "threads ", t, " variable ", k,
              " got ", vec(d), " expected ", vec(R.belief[k]));
    }
    c.st.add("marginals_compared", s.sz.size());
    if (ref.all_trees) {
      auto RM = ref.run(true);
      auto a = m.getHiddenSetMAP(t);
      std::size_t pos = 0;
      for (auto &v : m.getHiddenVariables()) {
        std::size_t k = U(std::find(l.var.begin(), l.var.end(), v) - l.var.begin());
        double mx = *std::max_element(RM.belief[k].begin(), RM.belief[k].end());
        require(RM.belief[k][a[pos]] >= mx * (1 - 2e-4), "threads-dependent-map", "threads ", t,
                " variable ", k, " got ", a[pos], " max marginals ", vec(RM.belief[k]));
        ++pos;
      }
      // a pair of connected hidden variables
      if (!ref.edges.empty()) {
        auto &e = ref.edges[U(c.rng.ri(0, static_cast<long>(ref.edges.size()) - 1))];
        bool possible;
        auto ex = refJoint(s, s.ev, {e.a, e.b}, possible);
        m.getMAP(l.var[0], t);
        auto j = m.getJointMarginalDistribution(groupOf(l, {e.a, e.b}), t).getProbabilities();
        require(within(distrError(j, ex), 2e-5), "threads-dependent-joint", "threads ", t, " pair ",
                e.a, ",", e.b, " got ", vec(j), " expected ", vec(ex));
      }
    }
    // sampling: same seed and threads, same samples
    GibbsSampler::SamplesGenerationContext ctx;
    ctx.samples_number = U(c.rng.ri(1, 5));
    ctx.delta_iterations = U(c.rng.ri(1, 2));
    ctx.seed = U(c.rng.ri(0, 100000));
    ctx.transient = U(c.rng.ri(0, 3));
    auto a = m.makeSamples(ctx, t);
    if (c.rng.p(0.5)) // with another number of threads in between
      m.makeSamples(ctx, U(c.rng.ri(1, 5)));
    auto b = m.makeSamples(ctx, t);
    require(a == b, "samples-not-reproducible", "threads ", t);
    c.st.add("sample_sets_compared");
  }
  if constexpr (std::is_same_v<M, RandomField>) {
    auto it = ts->makeIterator();
    std::vector<float> base;
    // the gradient removes the evidences: the model becomes loopy when they break a cycle
    Ref noev(s, {});
    auto R2 = noev.run(false);
    double gtol = 1e-4;
    if (!noev.all_trees) {
      for (std::size_t k = 0; k < s.sz.size(); ++k)
        gtol = std::max(gtol, 20 * R2.tolerance(k, 0));
      if (!R2.converged || R2.contraction > 0.8)
        gtol = 1e9;
    }
    if (R2.possible) {
      counts.push_back(1);
      for (auto t : counts) {
        auto g = m.getWeightsGradient(it, t);
        require(g.size() == tunableClusters(s).size(), "gradient-size", g.size());
        if (base.empty())
          base = g;
        for (std::size_t k = 0; k < g.size(); ++k) {
          require(std::isfinite(g[k]), "gradient", "not finite");
          require(within(std::fabs(g[k] - base[k]), gtol * (1 + std::fabs(base[k]))),
                  "threads-dependent-gradient", "threads ", t, " got ", vec(g), " vs ", vec(base));
        }
      }
      c.st.add("gradients_compared", counts.size());
    }
  }
  c.st.add("forced_delays", vf::perturb::delays.exchange(0));
  if (usable)
    c.nontrivial(signature(s) ^ hashStr(vec(counts)));
}

// gradients and answers of conditional models
static void conditional(Ctx &c) {
  Rng &r = c.rng;
  GenOpt o;
  o.nmin = 2;
  o.nmax = r.p(0.7) ? 6 : 12;
  o.maxsz = 3;
  o.range = 3;
  o.zeros = 0.1;
  o.evs = 1;
  o.evfrac = 0.4;
  CondWorld w{c, r};
  w.make(o);
  vf::perturb::level = static_cast<std::uint32_t>(r.pick(std::vector<long>{0, 20, 200}));
  struct Off {
    ~Off() { vf::perturb::level = 0; }
  } off;
  EFG::train::TrainSet ts(w.randomSamples(r.ri(1, 5)));
  auto it = ts.makeIterator();
  auto samples = samplesOf(it, *w.m, w.l);
  auto ref = refGradient(w.s, samples, &w.observed);
  std::string counts;
  for (long k = r.ri(2, 3); k > 0; --k) {
    auto t = static_cast<std::size_t>(r.p(0.85) ? r.ri(1, 4) : r.ri(5, 12));
    counts += cat(t, " ");
    auto g = w.m->getWeightsGradient(it, t);
    for (auto &[v, x] : w.m->getEvidences())
      w.s.ev[w.indexOf(v)] = x;
    if (ref.decidable)
      compareGradient(c, g, ref, samples.size(), "threads-dependent-gradient");
    Ref now(w.s, w.s.ev);
    auto R = now.run(false);
    if (!R.possible || !now.all_trees)
      continue;
    for (std::size_t v = 0; v < w.s.sz.size(); ++v) {
      auto d = w.m->getMarginalDistribution(w.l.var[v], t);
      require(within(distrError(d, R.belief[v]), 3e-5), "threads-dependent-marginal", "threads ", t, " variable ", v,
              " got ", vec(d), " expected ", vec(R.belief[v]));
    }
  }
  c.st.add("conditional_models");
  c.st.add("forced_delays", vf::perturb::delays.exchange(0));
  if (ref.decidable)
    c.nontrivial(signature(w.s) ^ hashStr(counts));
}

static void run(Ctx &c) {
  if (c.rng.p(0.15))
    return conditional(c);
  if (c.rng.p(0.4))
    drive<Graph>(c);
  else
    drive<RandomField>(c);
}
VF_MAIN("C07", run)
