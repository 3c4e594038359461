// C06: loopy models: fixed point of the belief propagation, termination,
// honest report of the structures and of the convergence
#include "gen.hpp"
#include <EasyFactorGraph/structure/BaselineLoopyPropagator.h>
using namespace vf;
using EFG::strct::PropagationKind;

struct Counting : public EFG::strct::LoopyBeliefPropagationStrategy {
  EFG::strct::BaselineLoopyPropagator base;
  Rng *pessimist = nullptr; // when not null, randomly reports failures
  std::shared_ptr<std::vector<bool>> outcomes = std::make_shared<std::vector<bool>>();
  bool propagateBelief(EFG::strct::HiddenCluster &subject, PropagationKind kind,
                       const EFG::strct::PropagationContext &context,
                       EFG::strct::Pool &pool) final {
    bool res = base.propagateBelief(subject, kind, context, pool);
    if (pessimist && pessimist->p(0.4))
      res = false;
    outcomes->push_back(res);
    return res;
  }
};

static Spec genLoopy(Ctx &c, double &coupling) {
  Rng &r = c.rng;
  GenOpt o;
  o.tame = true;
  o.zeros = 0;
  o.evs = 0.5;
  o.evfrac = 0.2;
  o.evLoops = true;
  double u = r.uni();
  coupling = r.pick(std::vector<double>{0.3, 0.8, 1.5, 4, 10});
  o.range = coupling;
  o.nmin = 3;
  o.nmax = u < 0.7 ? 8 : (u < 0.95 ? 16 : 40);
  o.maxsz = u < 0.7 ? 4 : 3;
  o.loops = static_cast<int>(r.ri(1, r.p(0.3) ? 12 : 3));
  Spec s = genModel(r, o);
  if (r.p(0.25)) {
    // grid or ring: edges rewritten
    int n = static_cast<int>(s.sz.size());
    std::vector<FSpec> keep;
    for (auto &f : s.f)
      if (f.v.size() == 1)
        keep.push_back(f);
    for (auto &f : keep)
      f.share = -1;
    s.f = keep;
    int w = r.p(0.5) ? n : 3;
    std::vector<std::size_t> planted(s.sz.size(), 0);
    auto edge = [&](int a, int b) {
      FSpec f;
      f.v = r.p(0.5) ? std::vector<int>{a, b} : std::vector<int>{b, a};
      genImages(r, s, f, coupling, false, planted, 0);
      s.f.push_back(f);
    };
    for (int k = 0; k < n; ++k) {
      if ((k + 1) % w && k + 1 < n)
        edge(k, k + 1);
      if (w < n && k + w < n)
        edge(k, k + w);
    }
    if (w == n && n > 2)
      edge(n - 1, 0);
    for (int k = 0; k < n; ++k) {
      bool used = false;
      for (auto &f : s.f)
        used = used || std::count(f.v.begin(), f.v.end(), k);
      if (!used) {
        FSpec f;
        f.v = {k};
        genImages(r, s, f, coupling, false, planted, 0);
        s.f.push_back(f);
      }
    }
  }
  return s;
}

// values whose probability does not change while the one of the others does, in all the messages
static Spec genNeutral(Ctx &c, double &coupling) {
  Rng &r = c.rng;
  auto U = [](long x) { return static_cast<std::size_t>(x); };
  Spec s;
  int n = static_cast<int>(r.ri(3, r.p(0.9) ? 8 : 20)), d = static_cast<int>(r.ri(3, 5));
  std::vector<double> e(U(d), 0.0);
  int up = static_cast<int>(r.ri(0, d - 1)), down = static_cast<int>(r.ri(0, d - 2));
  down += down >= up;
  e[U(up)] = 1;
  e[U(down)] = -1;
  for (int k = 0; k < n; ++k) {
    s.sz.push_back(d);
    s.nm.push_back(cat("v", k));
  }
  coupling = r.uni(0.3, 0.95);
  auto edge = [&](int a, int b) {
    FSpec f;
    f.v = r.p(0.5) ? std::vector<int>{a, b} : std::vector<int>{b, a};
    double x = r.p(0.7) ? coupling : r.uni(-coupling, coupling);
    for (int i = 0; i < d; ++i)
      for (int j = 0; j < d; ++j)
        f.img.push_back(static_cast<float>(1 + x * e[U(i)] * e[U(j)]));
    s.f.push_back(f);
  };
  for (int k = 0; k < n; ++k)
    edge(k, (k + 1) % n);
  if (n > 3 && r.p(0.3)) // a tail
    s.f.pop_back(), edge(n - 2, 0);
  bool one = false;
  for (int k = 0; k < n; ++k)
    if (r.p(0.25) || (k + 1 == n && !one)) {
      FSpec f;
      f.v = {k};
      double h = r.uni(-0.9, 0.9);
      for (int i = 0; i < d; ++i)
        f.img.push_back(static_cast<float>(1 + h * e[U(i)]));
      s.f.push_back(f);
      one = true;
    }
  r.shuffle(s.f);
  c.st.add("neutral_values");
  return s;
}

// more loopy components, each with its own coupling
static Spec genParts(Ctx &c, double &coupling) {
  Spec s;
  coupling = 0;
  for (long k = c.rng.ri(2, 4); k > 0; --k) {
    double cp;
    Spec p = genLoopy(c, cp);
    if (p.sz.size() > 10)
      continue;
    coupling = std::max(coupling, cp);
    int shift = static_cast<int>(s.sz.size()), fshift = static_cast<int>(s.f.size());
    for (std::size_t v = 0; v < p.sz.size(); ++v) {
      s.sz.push_back(p.sz[v]);
      s.nm.push_back(cat(p.nm[v], "/part", k));
    }
    for (auto f : p.f) {
      for (auto &v : f.v)
        v += shift;
      if (f.share >= 0)
        f.share += fshift;
      s.f.push_back(f);
    }
    for (auto &[v, x] : p.ev)
      s.ev[v + shift] = x;
  }
  return s.sz.empty() ? genLoopy(c, coupling) : s;
}

static void checkStructures(const EFG::strct::PropagationResult &res, const Ref &ref,
                            PropagationKind kind) {
  require(res.propagation_kind_done == kind, "propagation-kind", "wrong kind reported");
  std::vector<std::pair<bool, std::size_t>> got, expected;
  for (auto &s : res.structures)
    got.emplace_back(s.tree_or_loopy_graph, s.size);
  for (std::size_t k = 0; k < ref.comps.size(); ++k)
    expected.emplace_back(ref.comp_tree[k] != 0, ref.comps[k].size());
  std::sort(got.begin(), got.end());
  std::sort(expected.begin(), expected.end());
  require(got == expected, "structures", "reported clusters ", got.size(), " expected ",
          expected.size());
  if (ref.all_trees)
    require(res.was_completed, "completed", "propagation of trees reported as not completed");
}

template <typename M> static void drive(Ctx &c) {
  double coupling;
  Spec s = c.rng.p(0.06)   ? genNeutral(c, coupling)
           : c.rng.p(0.25) ? genParts(c, coupling)
                           : genLoopy(c, coupling);
  c.desc = s.str();
  Ref ref(s, s.ev);
  M m;
  Live l;
  build(m, s, l, c.rng);
  auto U = [](long x) { return static_cast<std::size_t>(x); };
  std::size_t n = s.sz.size();
  std::size_t threads = U(c.rng.p(0.96) ? 1 : c.rng.ri(2, 3));
  std::shared_ptr<std::vector<bool>> outcomes;
  if (c.rng.p(0.4)) {
    auto st = std::make_unique<Counting>();
    outcomes = st->outcomes;
    m.setLoopyPropagationStrategy(std::move(st));
    c.st.add("monitored_strategies");
  }
  std::size_t loopyComps = 0;
  for (char t : ref.comp_tree)
    loopyComps += t ? 0 : 1;
  bool lastCompleted = false;
  auto propagate = [&](std::size_t maxIter, bool map) {
    m.setPropagationContext(EFG::strct::PropagationContext{maxIter});
    require(m.getPropagationContext().max_iterations_loopy_propagation == maxIter, "context",
            "not stored");
    // a new propagation is forced, or it should be enough to have another bound
    bool forced = c.rng.p(0.5);
    if (forced) {
      if (map)
        m.getMarginalDistribution(l.var[0], threads);
      else
        m.getMAP(l.var[0], threads);
    }
    if (outcomes)
      outcomes->clear();
    std::vector<std::vector<float>> res;
    if (map) {
      for (std::size_t k = 0; k < n; ++k)
        res.push_back({static_cast<float>(m.getMAP(l.var[k], threads))});
    } else
      for (std::size_t k = 0; k < n; ++k) {
        res.push_back(m.getMarginalDistribution(l.var[k], threads));
        checkDistribution(res.back(), U(s.sz[k]), "invalid-distribution");
      }
    require(m.hasPropagationResult(), "no-result", "propagation result is missing");
    const auto &out = m.getLastPropagationResult();
    checkStructures(out, ref, map ? PropagationKind::MAP : PropagationKind::SUM);
    c.st.add(forced ? "propagations_forced" : "propagations_after_a_change_of_context");
    bool reused = !forced && outcomes && outcomes->empty() && lastCompleted;
    lastCompleted = out.was_completed;
    if (outcomes && !reused) {
      require(outcomes->size() == loopyComps, "strategy-calls", outcomes->size(),
              " calls of the strategy with ", loopyComps, " loopy clusters");
      bool all = std::find(outcomes->begin(), outcomes->end(), false) == outcomes->end();
      require(out.was_completed == all, "completed", "outcome of the strategy not reported");
    }
    c.st.add(out.was_completed ? "propagations_completed" : "propagations_not_completed");
    return std::make_pair(out.was_completed, res);
  };
  // whatever the outcomes of the strategy, the report is their conjunction
  if (loopyComps > 0 && c.rng.p(0.3)) {
    auto st = std::make_unique<Counting>();
    st->pessimist = &c.rng;
    outcomes = st->outcomes;
    m.setLoopyPropagationStrategy(std::move(st));
    lastCompleted = false;
    for (int k = 0; k < 3; ++k)
      propagate(c.rng.p(0.5) ? 10 : 1000, k == 1);
    c.st.add("pessimist_strategies");
    if (loopyComps > 1)
      c.st.add("pessimist_strategies_on_parts");
    auto again = std::make_unique<Counting>();
    outcomes = again->outcomes;
    m.setLoopyPropagationStrategy(std::move(again));
    lastCompleted = false;
  }
  auto R = ref.run(false);
  bool decidable = R.converged && R.contraction < 0.8;
  if (decidable && !ref.all_trees)
    decidable = ref.sameForAllOrders(R, false, coupling < 2 ? 1 : 3);
  for (std::size_t k = 0; k < n && decidable; ++k)
    decidable = R.tolerance(k, 0) < 0.1;
  auto [done, full] = propagate(1000, false);
  if (decidable && c.rng.p(0.2)) { // converges anyway
    m.setPropagationContext(EFG::strct::PropagationContext{
        c.rng.pick(std::vector<std::size_t>{1ULL << 31, 1ULL << 32, ~0ULL, 1ULL << 63, 70000})});
    for (std::size_t k = 0; k < n; ++k)
      require(m.getMarginalDistribution(l.var[k], threads) == full[k], "completed", "a huge bound alters the result");
    require(m.getLastPropagationResult().was_completed, "completed", "not completed with a huge bound");
    c.st.add("huge_bounds");
  }
  if (decidable) {
    require(done, "completed", "propagation of a contractive model not completed");
    double worst = 0;
    for (std::size_t k = 0; k < n; ++k) {
      double e = distrError(full[k], R.belief[k]), tol = R.tolerance(k, 2e-5);
      worst = std::max(worst, e / tol);
      require(within(e, tol), "not-a-fixed-point", "variable ", k, " got ", vec(full[k]),
              " expected ", vec(R.belief[k]), " tolerance ", tol);
    }
    c.st.maxi("max_error_over_tolerance", worst);
    c.st.add("fixed_points_compared");
    if (!ref.all_trees)
      c.nontrivial(signature(s));
  } else
    c.st.add("strong_coupling");
  // the bound on the iterations is respected, and truthfully reported
  if (!ref.all_trees) {
    auto none = propagate(0, false);
    require(!none.first, "completed", "reported as completed without any iteration");
    long first = -1;
    for (long k = 1; k <= 8; ++k) {
      auto p = propagate(U(k), false);
      if (first >= 0)
        require(p.first && p.second == full, "completed",
                "more iterations alter an already completed propagation, bound ", k);
      else if (p.first) {
        first = k;
        require(done && p.second == full, "completed",
                "completed with a bound of ", k, " iterations but not with 1000, or differently");
      }
    }
    if (first < 0)
      c.st.add("needed_more_than_8_iterations");
  } else {
    auto none = propagate(0, false);
    require(none.first && none.second == full, "completed", "trees should not be affected by the bound");
  }
  // MAP
  auto RM = ref.run(true);
  auto mp = propagate(1000, true);
  // the max product may have many fixed points, when there are many cycles
  if (RM.converged && RM.contraction < 0.8 && mp.first && ref.singleCycles() &&
      ref.sameForAllOrders(RM, true, ref.all_trees ? 0 : 4)) {
    for (std::size_t k = 0; k < n; ++k) {
      auto b = RM.belief[k];
      double mx = *std::max_element(b.begin(), b.end());
      auto got = static_cast<std::size_t>(mp.second[k][0]);
      require(got < b.size(), "map-domain", "variable ", k);
      double slack = 2e-4;
      if (!RM.rel[k].empty()) {
        auto best = static_cast<std::size_t>(std::max_element(b.begin(), b.end()) - b.begin());
        slack += 2 * RM.msgError() * (RM.rel[k][best] + RM.rel[k][got]);
      }
      require(b[got] >= mx * (1 - slack), "wrong-loopy-map", "variable ", k, " got ", got,
              " beliefs ", vec(b));
    }
    c.st.add("maps_compared");
  }
}

// factors that do not couple the variables: the first iteration computes the messages, the second one sees that
// nothing changes
template <typename M> static void separable(Ctx &c) {
  Rng &r = c.rng;
  auto U = [](long x) { return static_cast<std::size_t>(x); };
  Spec s;
  int n = static_cast<int>(r.ri(3, r.p(0.9) ? 7 : 20));
  for (int k = 0; k < n; ++k) {
    s.sz.push_back(static_cast<int>(r.ri(2, 5)));
    s.nm.push_back(cat("v", k));
  }
  std::set<std::pair<int, int>> edges;
  for (int k = 0; k < n; ++k)
    edges.insert({std::min(k, (k + 1) % n), std::max(k, (k + 1) % n)});
  for (long k = r.ri(0, 4); k > 0; --k) {
    int a = static_cast<int>(r.ri(0, n - 1)), b = static_cast<int>(r.ri(0, n - 1));
    if (a != b)
      edges.insert({std::min(a, b), std::max(a, b)});
  }
  std::vector<std::vector<double>> belief;
  for (int k = 0; k < n; ++k)
    belief.emplace_back(U(s.sz[U(k)]), 1.0);
  auto part = [&](int v) {
    std::vector<float> x;
    for (int k = 0; k < s.sz[U(v)]; ++k)
      x.push_back(static_cast<float>(r.uni(0.5, 2)));
    x[U(r.ri(0, s.sz[U(v)] - 1))] = 4.f;
    return x;
  };
  for (auto &[a, b] : edges) {
    FSpec f;
    f.v = r.p(0.5) ? std::vector<int>{a, b} : std::vector<int>{b, a};
    auto g = part(f.v[0]), h = part(f.v[1]);
    for (auto x : g)
      for (auto y : h)
        f.img.push_back(x * y);
    for (std::size_t k = 0; k < g.size(); ++k)
      belief[U(f.v[0])][k] *= g[k];
    for (std::size_t k = 0; k < h.size(); ++k)
      belief[U(f.v[1])][k] *= h[k];
    s.f.push_back(f);
  }
  r.shuffle(s.f);
  c.desc = s.str();
  M m;
  Live l;
  build(m, s, l, r);
  std::size_t threads = U(r.p(0.96) ? 1 : r.ri(2, 3));
  std::vector<std::size_t> bounds = {0, 1, 2, 3, 1000};
  r.shuffle(bounds);
  for (auto b : bounds) {
    m.setPropagationContext(EFG::strct::PropagationContext{b});
    if (r.p(0.5))
      m.getMAP(l.var[0], threads);
    auto p = m.getMarginalDistribution(l.var[0], threads);
    require(m.getLastPropagationResult().was_completed == (b >= 2), "completed", "with a bound of ", b,
            " when 2 iterations are needed");
    if (b >= 1)
      for (int k = 0; k < n; ++k) {
        auto d = m.getMarginalDistribution(l.var[U(k)], threads);
        auto exp = belief[U(k)];
        double sum = 0;
        for (auto x : exp)
          sum += x;
        for (auto &x : exp)
          x /= sum;
        require(within(distrError(d, exp), 3e-5), "not-a-fixed-point", "variable ", k, " got ", vec(d), " expected ", vec(exp));
      }
  }
  c.st.add("separable_models");
  c.nontrivial(signature(s));
}

// a slow loop and many messages that never change: with more threads, some have nothing to wait for
template <typename M> static void idle(Ctx &c) {
  Rng &r = c.rng;
  auto U = [](long x) { return static_cast<std::size_t>(x); };
  Spec s = genIdle(r);
  c.desc = s.str();
  Ref ref(s, s.ev);
  auto R = ref.run(false);
  bool decidable = R.converged && R.contraction < 0.8 && ref.sameForAllOrders(R, false, 1);
  for (std::size_t k = 0; k < s.sz.size() && decidable; ++k)
    decidable = R.tolerance(k, 0) < 0.1;
  if (!decidable) {
    c.st.add("strong_coupling");
    return;
  }
  M m;
  Live l;
  build(m, s, l, r);
  std::size_t threads = U(r.p(0.2) ? 1 : r.ri(2, 8));
  m.setPropagationContext(EFG::strct::PropagationContext{1000});
  for (std::size_t k = 0; k < s.sz.size(); ++k) {
    auto d2 = m.getMarginalDistribution(l.var[k], threads);
    double e = distrError(d2, R.belief[k]), tol = R.tolerance(k, 2e-5);
    require(within(e, tol), "not-a-fixed-point", "variable ", k, " got ", vec(d2), " expected ", vec(R.belief[k]),
            " tolerance ", tol, " threads ", threads);
  }
  require(m.getLastPropagationResult().was_completed, "completed", "propagation of a contractive model not completed");
  c.st.add("loops_with_idle_messages");
  c.nontrivial(signature(s));
}

static void run(Ctx &c) {
  if (c.rng.p(0.02)) {
    if (c.rng.p(0.4))
      idle<Graph>(c);
    else
      idle<RandomField>(c);
    return;
  }
  if (c.rng.p(0.15)) {
    if (c.rng.p(0.4))
      separable<Graph>(c);
    else
      separable<RandomField>(c);
    return;
  }
  if (c.rng.p(0.4))
    drive<Graph>(c);
  else
    drive<RandomField>(c);
}
VF_MAIN("C06", run)
