// Conditional random fields and their shadow
#pragma once
#include "grad.hpp"

namespace vf {
struct CondWorld {
  Ctx &c;
  Rng &r;
  Spec s;
  Live l;
  RandomField source;
  std::unique_ptr<ConditionalRandomField> m;
  std::vector<int> observed; // in the order of getObservedVariables()
  bool deep = false;
  static std::size_t U(long x) { return static_cast<std::size_t>(x); }
  int indexOf(const VariablePtr &v) const {
    return static_cast<int>(std::find(l.var.begin(), l.var.end(), v) - l.var.begin());
  }
  // false when no valid model was generated
  bool make(const GenOpt &o) {
    s = genModel(r, o);
    if (s.ev.empty())
      s.ev[static_cast<int>(r.ri(0, static_cast<long>(s.sz.size()) - 1))] = 0;
    for (auto &f : s.f) {
      bool onlyEv = true;
      for (int v : f.v)
        onlyEv = onlyEv && s.ev.count(v);
      if (onlyEv && f.kind == TUN)
        f.kind = CEXP;
    }
    for (auto &f : s.f)
      if (f.kind != TUN)
        f.share = -1;
    for (auto &f : s.f)
      if (f.share >= 0 && s.f[U(f.share)].kind != TUN)
        f.share = -1;
    // the group sharing the weight should identify one cluster only
    for (auto &f : s.f)
      if (f.share >= 0) {
        // root of the chain of sharings
        int root = f.share;
        while (s.f[U(root)].share >= 0)
          root = s.f[U(root)].share;
        f.w = s.f[U(root)].w;
      }
    c.desc = s.str();
    build(source, s, l, r);
    if (r.p(0.2))
      source.getHiddenSetMAP();
    deep = r.p(0.5);
    m = std::make_unique<ConditionalRandomField>(source, deep);
    refreshOrder();
    return true;
  }
  void refreshOrder() {
    observed.clear();
    for (auto &v : m->getObservedVariables())
      observed.push_back(indexOf(v));
  }
  std::vector<std::size_t> randomEvidences() {
    std::vector<std::size_t> v;
    for (int k : observed)
      v.push_back(U(r.ri(0, s.sz[U(k)] - 1)));
    return v;
  }
  void setEvidences(const std::vector<std::size_t> &v) {
    m->setEvidences(v);
    for (std::size_t k = 0; k < v.size(); ++k)
      s.ev[observed[k]] = v[k];
  }
  void setWeights() {
    auto cl = tunableClusters(s);
    auto w = m->getWeights();
    require(w.size() == cl.size(), "weights-count", w.size(), " instead of ", cl.size());
    for (std::size_t k = 0; k < w.size(); ++k) {
      w[k] = genWeight(r) / s.feat;
      for (auto f : cl[k])
        s.f[f].w = w[k];
    }
    m->setWeights(w);
  }
  std::vector<std::vector<std::size_t>> randomSamples(long n) {
    std::vector<std::vector<std::size_t>> res;
    for (; n > 0; --n) {
      res.emplace_back();
      for (auto &v : m->getAllVariables())
        res.back().push_back(U(r.ri(0, static_cast<long>(v->size()) - 1)));
    }
    return res;
  }
  void checkEvidences(const char *key) {
    require(m->getEvidences().size() == s.ev.size(), key, m->getEvidences().size(), " evidences");
    for (auto &[k, v] : s.ev) {
      auto it = m->getEvidences().find(l.var[U(k)]);
      require(it != m->getEvidences().end(), key, "variable ", k, " is not observed any more");
      require(it->second == v, key, "variable ", k, " observed as ", it->second, " instead of ", v);
    }
    auto obs = m->getObservedVariables();
    require(obs.size() == s.ev.size(), key, "observed variables ", obs.size());
    std::size_t k = 0;
    for (auto &v : obs) {
      require(indexOf(v) == observed[k], key, "order of the observed variables");
      ++k;
    }
    require(m->getHiddenVariables().size() + obs.size() == s.sz.size(), key, "hidden variables");
  }
  bool checkAnswers(const char *key) {
    Ref ref(s, s.ev);
    auto R = ref.run(false);
    if (!R.possible || !ref.all_trees)
      return false;
    for (std::size_t k = 0; k < s.sz.size(); ++k) {
      auto d = m->getMarginalDistribution(l.var[k]);
      require(within(distrError(d, R.belief[k]), 3e-5), key, "variable ", k, " got ", vec(d), " expected ",
              vec(R.belief[k]));
    }
    c.st.add("answers_compared");
    return true;
  }
};
} // namespace vf
