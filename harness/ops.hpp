// A model driven by a random history of operations, together with a shadow of
// what its content should be.
#pragma once
#include "gen.hpp"

#include <EasyFactorGraph/structure/BaselineLoopyPropagator.h>
#include <EasyFactorGraph/trainable/TrainSet.h>

namespace vf {
using EFG::strct::GibbsSampler;

template <typename M> struct World {
  static constexpr bool TUNABLE = std::is_base_of_v<EFG::train::FactorsTunableInserter, M>;
  Ctx &c;
  Rng &r;
  Spec full;             // everything that may be inserted
  std::vector<int> left; // factors still to insert
  Spec cur;              // what is expected to be in the model
  std::vector<int> where; // position in cur.f of each factor of full (-1: not inserted)
  Live l;
  std::unique_ptr<M> m = std::make_unique<M>();
  std::vector<int> present; // variables of the model, in order of appearance
  std::string log;
  int nops = 0;
  std::size_t threads = 1;
  bool defaults = true; // the default strategy may be set again

  World(Ctx &ctx, const GenOpt &o) : c(ctx), r(ctx.rng) {
    full = genModel(r, o);
    full.ev.clear();
    if (!TUNABLE)
      for (auto &f : full.f)
        if (f.kind == TUN) {
          f.kind = CEXP;
          f.share = -1;
        }
    l.makeVars(full, r);
    cur.sz = full.sz;
    cur.nm = full.nm;
    for (std::size_t k = 0; k < full.f.size(); ++k)
      left.push_back(static_cast<int>(k));
    where.assign(full.f.size(), -1);
    c.desc = full.str();
  }
  // another model expected to have the same content of o
  template <typename M2> World(const World<M2> &o, std::unique_ptr<M> model) : c(o.c), r(o.r), m(std::move(model)) {
    full = o.full;
    cur = o.cur;
    left = o.left;
    where = o.where;
    l.var = o.l.var;
    threads = o.threads;
    log = "(copied) ";
    if (!TUNABLE)
      for (auto *s : {&full, &cur})
        for (auto &f : s->f)
          if (f.kind == TUN) {
            f.kind = CEXP;
            f.share = -1;
          }
    // the order may change, the samples have the one of the model
    for (auto &v : m->getAllVariables()) {
      auto it = std::find(l.var.begin(), l.var.end(), v);
      require(it != l.var.end(), "variables", "unknown instance of ", v->name());
      present.push_back(static_cast<int>(it - l.var.begin()));
    }
  }
  static std::size_t U(long x) { return static_cast<std::size_t>(x); }
  void note(const std::string &s) {
    ++nops;
    if (log.size() < 6000)
      log += s + "; ";
    c.desc = full.str() + "\n  history: " + log;
  }
  bool isPresent(int v) const {
    return std::find(present.begin(), present.end(), v) != present.end();
  }

  // ------------------------------------------------------------- operations
  bool insert() {
    if (left.empty())
      return false;
    // the factor sharing the weight should be already in the model
    std::size_t pos = U(r.p(0.7) ? 0 : r.ri(0, static_cast<long>(left.size()) - 1));
    int k = left[pos];
    FSpec f = full.f[U(k)];
    if (f.share >= 0) {
      std::set<int> owner(full.f[U(f.share)].v.begin(), full.f[U(f.share)].v.end());
      auto same_vars = std::count_if(cur.f.begin(), cur.f.end(), [&owner](const FSpec &x) {
        return x.kind == TUN && std::set<int>(x.v.begin(), x.v.end()) == owner;
      });
      if (where[U(f.share)] < 0 || same_vars != 1)
        f.share = -1;
      else {
        f.share = where[U(f.share)];
        f.w = cur.f[U(f.share)].w;
      }
    }
    left.erase(left.begin() + static_cast<long>(pos));
    where[U(k)] = static_cast<int>(cur.f.size());
    note(cat("insert ", k));
    cur.f.push_back(f);
    // inserted with its own weight, which should be then ignored
    if (f.share >= 0 && r.p(0.5)) {
      auto tmp = cur;
      tmp.f.back().w = genWeight(r) / full.feat;
      insertFactor(*m, tmp, tmp.f.size() - 1, l, r);
    } else
      insertFactor(*m, cur, cur.f.size() - 1, l, r);
    for (int v : f.v)
      if (!isPresent(v))
        present.push_back(v);
    return true;
  }
  bool setEvidence() {
    if (present.empty())
      return false;
    int v = r.pick(present);
    std::size_t val = U(r.ri(0, full.sz[U(v)] - 1));
    setEvidence(v, val);
    return true;
  }
  void setEvidence(int v, std::size_t val) {
    note(cat("ev ", v, "=", val));
    cur.ev[v] = val;
    if (r.p(0.5))
      m->setEvidence(l.var[U(v)], val);
    else
      m->setEvidence(full.nm[U(v)], val);
  }
  bool removeEvidence() {
    if (cur.ev.empty())
      return false;
    auto it = cur.ev.begin();
    std::advance(it, r.ri(0, static_cast<long>(cur.ev.size()) - 1));
    int v = it->first;
    note(cat("rem ", v));
    cur.ev.erase(it);
    if (r.p(0.3)) {
      // the key owned by the model itself is passed
      const auto &evs = m->getEvidences();
      auto e = evs.find(l.var[U(v)]);
      require(e != evs.end(), "evidence-lost", "variable ", v);
      m->removeEvidence(e->first);
    } else if (r.p(0.5))
      m->removeEvidence(l.var[U(v)]);
    else
      m->removeEvidence(full.nm[U(v)]);
    return true;
  }
  bool removeEvidences() {
    std::vector<int> some;
    for (auto &[v, x] : cur.ev)
      if (r.p(0.5))
        some.push_back(v);
    note(cat("remset ", vec(some)));
    for (int v : some)
      cur.ev.erase(v);
    if (r.p(0.5)) {
      VariablesSet set;
      for (int v : some)
        set.emplace(l.var[U(v)]);
      m->removeEvidences(set);
    } else {
      std::unordered_set<std::string> set;
      for (int v : some)
        set.emplace(full.nm[U(v)]);
      m->removeEvidences(set);
    }
    return true;
  }
  void removeAll() {
    note("remall");
    cur.ev.clear();
    m->removeAllEvidences();
  }
  bool setWeights() {
    if constexpr (TUNABLE) {
      auto cl = tunableClusters(cur);
      if (cl.empty())
        return false;
      note("weights");
      if (full.feat == 1.f && r.p(0.1)) {
        EFG::train::set_ones(*m);
        for (auto &f : cur.f)
          if (f.kind == TUN)
            f.w = 1.f;
        return true;
      }
      std::vector<float> w = m->getWeights();
      require(w.size() == cl.size(), "weights-count", w.size(), " instead of ", cl.size());
      bool some = r.p(0.5);
      for (std::size_t k = 0; k < w.size(); ++k)
        if (!some || r.p(0.3))
          w[k] = genWeight(r) / full.feat;
      if (r.p(0.1)) {
        // the factors may have been already changed from outside, as when they
        // are shared with another model
        note("outside");
        auto groups = m->getTunableClusters();
        for (std::size_t k = 0; k < groups.size(); ++k) {
          if (auto *one = std::get_if<EFG::train::FactorExponentialPtr>(&groups[k]))
            (*one)->setWeight(w[k]);
          else
            for (auto &f : std::get<EFG::train::TunableClusters>(groups[k]))
              f->setWeight(w[k]);
        }
      }
      m->setWeights(w);
      for (std::size_t k = 0; k < w.size(); ++k)
        for (auto f : cl[k])
          cur.f[f].w = w[k];
      return true;
    } else
      return false;
  }
  void sampling() {
    if (present.empty())
      return;
    note("samples");
    GibbsSampler::SamplesGenerationContext ctx;
    ctx.samples_number = U(r.ri(0, 5));
    ctx.delta_iterations = U(r.ri(0, 2));
    ctx.seed = U(r.ri(0, 1000));
    ctx.transient = U(r.ri(0, 3));
    auto s = m->makeSamples(ctx, threads);
    require(s.size() == ctx.samples_number, "samples-number", s.size());
  }
  std::vector<std::vector<std::size_t>> randomCombs(std::size_t n) {
    std::vector<std::vector<std::size_t>> res;
    for (std::size_t k = 0; k < n; ++k) {
      res.emplace_back();
      for (int v : present)
        res.back().push_back(U(r.ri(0, full.sz[U(v)] - 1)));
    }
    return res;
  }
  void gradient() {
    if constexpr (TUNABLE) {
      if (present.empty())
        return;
      note("gradient");
      EFG::train::TrainSet ts(randomCombs(U(r.ri(1, 4))));
      auto g = m->getWeightsGradient(ts.makeIterator(), threads);
      require(g.size() == tunableClusters(cur).size(), "gradient-size", g.size());
      cur.ev.clear(); // the gradient of a random field refers to all the variables
    }
  }
  void query() {
    if (present.empty())
      return;
    auto v = U(r.pick(present));
    switch (r.ri(0, defaults ? 5 : 4)) {
    case 0:
      note("marginal");
      m->getMarginalDistribution(l.var[v], threads);
      break;
    case 1:
      note("map");
      m->getMAP(full.nm[v], threads);
      break;
    case 2:
      note("mapset");
      m->getHiddenSetMAP(threads);
      break;
    case 3:
      note("joint");
      m->getJointMarginalDistribution(std::vector<std::string>{full.nm[v]}, threads);
      break;
    case 5:
      // no effect, with the default values
      note("context");
      if (r.p(0.5))
        m->setPropagationContext(EFG::strct::PropagationContext{1000});
      else
        m->setLoopyPropagationStrategy(std::make_unique<EFG::strct::BaselineLoopyPropagator>());
      break;
    case 4:
      note("vars");
      m->getHiddenVariables();
      m->getObservedVariables();
      break;
    }
  }
  // one random operation
  void step() {
    double u = r.uni();
    if (u < 0.3) {
      if (!insert())
        setEvidence();
    } else if (u < 0.5)
      setEvidence();
    else if (u < 0.62)
      removeEvidence();
    else if (u < 0.67)
      removeEvidences();
    else if (u < 0.70)
      removeAll();
    else if (u < 0.80)
      setWeights();
    else if (u < 0.94)
      query();
    else if (u < 0.98)
      sampling();
    else
      gradient();
  }

  // ----------------------------------------------------------------- oracles
  // -> false when the content of the model does not allow to decide
  bool compareAnswers(double acyclicTol, const char *key) {
    if (present.empty())
      return false;
    Ref ref(cur, cur.ev);
    auto R = ref.run(false);
    if (!R.possible)
      return false;
        if (!ref.all_trees) {
      if (!R.converged || R.contraction > 0.8) {
        c.st.add("undecided_loopy");
        return false;
      }
      for (int v : present)
        if (R.tolerance(U(v), 0) > 0.1)
          return false;
    }
    bool map = r.p(0.3);
    if (map && ref.all_trees) {
      auto RM = ref.run(true);
      for (int v : present) {
        auto got = m->getMAP(l.var[U(v)], threads);
        require(got < RM.belief[U(v)].size(), key, "map out of domain");
        double mx = *std::max_element(RM.belief[U(v)].begin(), RM.belief[U(v)].end());
        require(RM.belief[U(v)][got] >= mx * (1 - 2e-4), key, "map of variable ", v, " got ", got,
                " max marginals ", vec(RM.belief[U(v)]));
      }
      c.st.add("map_comparisons");
      if (r.p(0.5)) {
        auto hid = m->getHiddenVariables();
        auto whole = m->getHiddenSetMAP(threads);
        require(whole.size() == hid.size(), key, "map of ", whole.size(), " variables over ", hid.size());
        std::size_t pos = 0;
        for (auto &x : hid) {
          auto v = U(std::find(l.var.begin(), l.var.end(), x) - l.var.begin());
          require(v < l.var.size(), key, "unknown hidden variable ", x->name());
          auto got = whole[pos++];
          require(got < RM.belief[v].size(), key, "map out of domain");
          double mx = *std::max_element(RM.belief[v].begin(), RM.belief[v].end());
          require(RM.belief[v][got] >= mx * (1 - 2e-4), key, "map set, variable ", v, " got ", got, " max marginals ",
                  vec(RM.belief[v]));
        }
        c.st.add("map_set_comparisons");
      }
    }
    if (ref.all_trees && r.p(0.25))
      compareJoint(acyclicTol, key);
    for (int v : present) {
      auto d = m->getMarginalDistribution(l.var[U(v)], threads);
      checkDistribution(d, U(full.sz[U(v)]), key);
      double e = distrError(d, R.belief[U(v)]), tol = R.tolerance(U(v), acyclicTol);
      if (ref.all_trees || ref.hidden[U(v)])
        c.st.maxi(ref.all_trees ? "max_error_acyclic" : "max_error_loopy_over_tolerance",
                  ref.all_trees ? e : e / tol);
      require(within(e, tol), key, "variable ", v, " got ", vec(d), " expected ",
              vec(R.belief[U(v)]), " tolerance ", tol);
    }
    c.st.add(ref.all_trees ? "comparisons_acyclic" : "comparisons_loopy");
    return true;
  }
  // the joint distribution of two variables sharing a factor
  void compareJoint(double tol, const char *key) {
    std::vector<std::vector<int>> pairs;
    for (auto &f : cur.f)
      if (f.v.size() == 2 && full.sz[U(f.v[0])] * full.sz[U(f.v[1])] <= 40)
        pairs.push_back(f.v);
    if (pairs.empty())
      return;
    auto g = r.pick(pairs);
    if (r.p(0.5))
      std::swap(g[0], g[1]);
    bool possible = true;
    auto expected = refJoint(cur, cur.ev, g, possible);
    if (!possible)
      return;
    auto d = m->getJointMarginalDistribution(groupOf(l, g), threads).getProbabilities();
    checkDistribution(d, expected.size(), key);
    require(within(distrError(d, expected), tol), key, "joint of ", vec(g), " got ", vec(d), " expected ",
            vec(expected));
    c.st.add("joint_comparisons");
  }
  void checkBookkeeping() {
    const auto &all = m->getAllVariables();
    require(all.size() == present.size(), "variables", "the model has ", all.size(),
            " variables instead of ", present.size());
    for (std::size_t k = 0; k < present.size(); ++k) {
      require(std::count(all.begin(), all.end(), l.var[U(present[k])]) == 1, "variables", "variable ",
              present[k], " lost");
      require(m->findVariable(full.nm[U(present[k])]) == l.var[U(present[k])], "find-variable",
              full.nm[U(present[k])]);
    }
    const auto &ev = m->getEvidences();
    require(ev.size() == cur.ev.size(), "evidences", ev.size(), " instead of ", cur.ev.size());
    for (auto &[v, val] : cur.ev) {
      auto it = ev.find(l.var[U(v)]);
      require(it != ev.end() && it->second == val, "evidences", "variable ", v);
      require(it->first.get() == l.var[U(v)].get(), "evidences", "variable instance of ", v);
    }
    auto obs = m->getObservedVariables();
    auto hid = m->getHiddenVariables();
    require(obs.size() == cur.ev.size(), "observed-set", obs.size());
    require(hid.size() == present.size() - cur.ev.size(), "hidden-set", hid.size(), " hidden, ",
            cur.ev.size(), " observed, ", present.size(), " in total");
    for (int v : present) {
      bool o = cur.ev.count(v) > 0;
      require((obs.count(l.var[U(v)]) > 0) == o, "observed-set", "variable ", v);
      require((hid.count(l.var[U(v)]) > 0) == !o, "hidden-set", "variable ", v);
    }
    require(m->getAllFactors().size() == cur.f.size(), "factors", m->getAllFactors().size(),
            " instead of ", cur.f.size());
    std::size_t consts = 0;
    for (auto &f : cur.f)
      consts += (f.kind != TUN);
    require(m->getConstFactors().size() == consts, "const-factors", m->getConstFactors().size());
    for (auto &f : m->getConstFactors())
      require(m->getAllFactors().count(f) == 1, "const-factors", "not among all the factors");
    if constexpr (TUNABLE) {
      require(m->getTunableFactors().size() == cur.f.size() - consts, "tunable-factors",
              m->getTunableFactors().size());
      auto cl = tunableClusters(cur);
      auto w = m->getWeights();
      require(w.size() == cl.size(), "weights", w.size(), " instead of ", cl.size());
      for (std::size_t k = 0; k < w.size(); ++k)
        require(w[k] == cur.f[cl[k][0]].w, "weights", "cluster ", k, " has ", w[k], " instead of ",
                cur.f[cl[k][0]].w);
    }
  }
};
} // namespace vf
