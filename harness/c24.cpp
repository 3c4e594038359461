// C24: copies and absorptions
#include "content.hpp"
#include "ops.hpp"
using namespace vf;

static std::size_t U(long x) { return static_cast<std::size_t>(x); }

// weights common to the factors the two worlds had when the copy was made
template <typename A, typename B> static void shareWeights(World<A> &from, World<B> &to, std::size_t common) {
  for (std::size_t k = 0; k < common; ++k)
    to.cur.f[k].w = from.cur.f[k].w;
  // factors that joined later a common cluster
  if constexpr (World<B>::TUNABLE) {
    auto cl = tunableClusters(to.cur);
    for (auto &x : cl)
      for (auto f : x)
        to.cur.f[f].w = to.cur.f[x[0]].w;
  }
}

template <typename A, typename B> static void refresh(World<A> &a, World<B> &b, std::size_t common) {
  // what was precomputed in the other model is dropped setting again the weights
  shareWeights(a, b, common);
  if constexpr (World<B>::TUNABLE) {
    // the factors joined later to a common cluster are realigned too
    auto w = b.m->getWeights();
    auto cl = tunableClusters(b.cur);
    require(w.size() == cl.size(), "weights", w.size());
    for (std::size_t k = 0; k < w.size(); ++k)
      require(w[k] == b.cur.f[cl[k][0]].w, "shallow-weights", "cluster ", k, " has ", w[k], " instead of ",
              b.cur.f[cl[k][0]].w);
    b.m->setWeights(w);
  } else {
    // only looking at the factors
    std::multiset<float> got, exp;
    for (auto &f : b.m->getAllFactors())
      if (auto *e = dynamic_cast<const FactorExponential *>(f.get()))
        got.insert(e->getWeight());
    for (auto &f : b.cur.f)
      if (f.kind != CONST)
        exp.insert(f.w);
    if (got.size() == exp.size()) // some may have been deeply copied when inserted
      require(got == exp, "shallow-weights", "not common");
  }
}

// two models evolving after the copy
template <typename A, typename B> static void evolve(Ctx &c, World<A> &a, World<B> &b, bool deep, long ops) {
  std::size_t common = a.cur.f.size();
  bool staleB = false; // answers of the graph can't be refreshed after the weights changed elsewhere
  auto check = [&](auto &w, bool answers) {
    w.checkBookkeeping();
    if (answers && w.compareAnswers(3e-5, "answers"))
      c.st.add("answers_compared");
  };
  for (long k = 0; k < ops; ++k) {
    bool first = c.rng.p(0.5);
    auto step = [&](auto &w, auto &o, bool wIsA) {
      auto beforeO = contentOf(*o.m);
      auto wWeights = w.cur;
      if (deep || c.rng.p(0.8)) {
        // weights are altered only on purpose when they are common
        if (deep)
          w.step();
        else
          switch (c.rng.ri(0, 5)) {
          case 0:
            w.insert();
            break;
          case 1:
            w.setEvidence();
            break;
          case 2:
            w.removeEvidence();
            break;
          case 3:
            w.query();
            break;
          case 4:
            w.gradient();
            break;
          case 5:
            w.sampling();
            break;
          }
        auto afterO = contentOf(*o.m);
        require(afterO == beforeO, deep ? "deep-not-independent" : "shallow-not-independent", beforeO.diff(afterO));
        c.st.add(deep ? "deep_steps" : "shallow_steps");
      } else if (w.setWeights()) {
        c.st.add("common_weight_changes");
        refresh(w, o, common);
        if (!std::decay_t<decltype(o)>::TUNABLE)
          staleB = true;
      }
    };
    if (first)
      step(a, b, true);
    else
      step(b, a, false);
    check(a, c.rng.p(0.3));
    check(b, !staleB && c.rng.p(0.5));
  }
  check(a, true);
  check(b, !staleB);
}

static std::unique_ptr<RandomField> copyOf(Ctx &c, const RandomField &m, bool deep) {
  if (!deep && c.rng.p(0.5)) {
    c.st.add("copy_constructed");
    return std::make_unique<RandomField>(m);
  }
  auto res = std::make_unique<RandomField>();
  res->absorb(m, deep);
  return res;
}
static std::unique_ptr<Graph> copyOf(Ctx &c, const Graph &m, bool deep) {
  if (!deep && c.rng.p(0.5)) {
    c.st.add("copy_constructed");
    return std::make_unique<Graph>(m);
  }
  auto res = std::make_unique<Graph>();
  res->absorb(m, deep);
  return res;
}

template <typename M> static Content flattened(const M &m, bool transformed) {
  auto x = contentOf(m, transformed);
  if constexpr (std::is_base_of_v<EFG::train::FactorsTunableGetter, M>) {
    for (auto &f : m.getTunableFactors())
      x.consts.push_back(describeFactor(*f, transformed));
  }
  std::sort(x.consts.begin(), x.consts.end());
  x.clusters.clear();
  x.weights.clear();
  return x;
}

template <typename A, typename B> static void twins(Ctx &c) {
  GenOpt o;
  o.nmax = c.rng.p(0.8) ? 7 : (c.rng.p(0.93) ? 20 : 70);
  o.maxsz = 4;
  o.range = 3;
  o.evs = 1;
  World<A> a(c, o);
  long first = c.rng.p(0.6) ? static_cast<long>(a.left.size()) : c.rng.ri(0, static_cast<long>(a.left.size()));
  for (long k = 0; k < first; ++k)
    a.insert();
  for (long k = c.rng.ri(0, 12); k > 0; --k)
    a.step();
  bool deep = c.rng.p(0.6);
  auto before = contentOf(*a.m);
  std::unique_ptr<B> copy;
  if constexpr (std::is_same_v<A, B>)
    copy = copyOf(c, *a.m, deep);
  else {
    copy = std::make_unique<B>();
    copy->absorb(*a.m, deep);
  }
  require(contentOf(*a.m) == before, "source-altered", before.diff(contentOf(*a.m)));
  if constexpr (std::is_same_v<A, B>) {
    auto x = contentOf(*a.m, deep), y = contentOf(*copy, deep);
    require(x == y, "copy-content", x.diff(y));
    if constexpr (World<A>::TUNABLE)
      if (deep)
        for (auto &f : copy->getTunableFactors())
          require(a.m->getTunableFactors().count(f) == 0, "deep-shares-factors", "tunable factor shared");
  } else {
    auto x = flattened(*a.m, deep), y = flattened(*copy, deep);
    require(x == y, "copy-content", x.diff(y));
  }
  if (deep)
    for (auto &f : copy->getAllFactors())
      require(a.m->getAllFactors().count(f) == 0, "deep-shares-factors", "factor shared");
  c.st.add(deep ? "deep_copies" : "shallow_copies");
  World<B> b(a, std::move(copy));
  std::uint64_t sig = hashStr(a.log) ^ signature(a.full) ^ (deep ? 5 : 9);
  bool kill = c.rng.p(0.2);
  if (kill) {
    // the source disappears
    a.m.reset();
    a.l.fac.clear();
    c.st.add("source_destroyed");
    for (long k = c.rng.ri(1, 10); k > 0; --k) {
      b.step();
      b.checkBookkeeping();
      if (c.rng.p(0.4) && b.compareAnswers(3e-5, "answers"))
        c.st.add("answers_compared");
    }
  } else
    evolve(c, a, b, deep, c.rng.ri(2, 12));
  c.nontrivial(sig);
}

// what is expected after having absorbed itself: unaries twice, while the
// already connected pairs are refused
template <typename M> static std::vector<std::string> doubled(const M &m, bool copy) {
  std::vector<std::string> res;
  for (auto &f : m.getConstFactors()) {
    res.push_back(describeFactor(*f, true));
    if (copy && f->function().vars().getVariables().size() == 1)
      res.push_back(res.back());
  }
  std::sort(res.begin(), res.end());
  return res;
}

// a model split in two parts, absorbed by a third one (or one by the other)
static void merge(Ctx &c) {
  Rng &r = c.rng;
  GenOpt o;
  o.nmin = 2;
  o.nmax = r.p(0.8) ? 7 : (r.p(0.93) ? 20 : 70);
  o.maxsz = 4;
  o.range = 3;
  o.evs = 0.7;
  Spec s = genModel(r, o);
  c.desc = s.str();
  Live l;
  l.makeVars(s, r);
  // clusters are not split
  std::vector<int> part(s.f.size(), 0);
  for (std::size_t k = 0; k < s.f.size(); ++k)
    part[k] = s.f[k].share >= 0 ? part[U(s.f[k].share)] : static_cast<int>(r.ri(0, 1));
  RandomField m[2];
  std::set<int> vars[2];
  for (std::size_t k = 0; k < s.f.size(); ++k) {
    insertFactor(m[part[k]], s, k, l, r);
    for (int v : s.f[k].v)
      vars[part[k]].insert(v);
  }
  std::map<int, std::size_t> ev = s.ev;
  for (auto &[v, x] : ev) {
    bool in0 = vars[0].count(v), in1 = vars[1].count(v);
    if (in1)
      m[1].setEvidence(l.var[U(v)], x);
    if (in0 && (!in1 || r.p(0.5)))
      m[0].setEvidence(l.var[U(v)], x); // otherwise carried by the other
    else if (in0 && in1 && s.sz[U(v)] > 1 && r.p(0.3))
      m[0].setEvidence(l.var[U(v)], (x + 1) % U(s.sz[U(v)])); // then replaced
  }
  if (r.p(0.3))
    m[0].getHiddenSetMAP();
  if (r.p(0.3))
    m[1].getHiddenSetMAP();
  bool deep = r.p(0.5);
  auto c1 = contentOf(m[1]);
  std::unique_ptr<RandomField> third;
  RandomField *dest = &m[0];
  if (r.p(0.4)) {
    third = std::make_unique<RandomField>();
    third->absorb(m[0], deep);
    third->absorb(m[1], deep);
    dest = third.get();
  } else
    dest->absorb(m[1], deep);
  require(contentOf(m[1]) == c1, "source-altered", c1.diff(contentOf(m[1])));
  // content
  RandomField whole;
  Live l2;
  l2.var = l.var;
  for (std::size_t k = 0; k < s.f.size(); ++k)
    insertFactor(whole, s, k, l2, r);
  for (auto &[v, x] : ev)
    whole.setEvidence(l.var[U(v)], x);
  auto x = contentOf(whole, true), y = contentOf(*dest, true);
  for (auto *z : {&x, &y}) {
    std::sort(z->clusters.begin(), z->clusters.end());
    std::sort(z->weights.begin(), z->weights.end());
  }
  require(x == y, "merge-content", x.diff(y));
  Ref ref(s, ev);
  auto R = ref.run(false);
  if (R.possible && ref.all_trees) {
    for (std::size_t k = 0; k < s.sz.size(); ++k) {
      auto d = dest->getMarginalDistribution(l.var[k]);
      require(within(distrError(d, R.belief[k]), 3e-5), "merge-answers", "variable ", k, " got ", vec(d), " expected ",
              vec(R.belief[k]));
    }
    c.st.add("merges_compared");
  }
  c.st.add(deep ? "deep_merges" : "shallow_merges");
  // absorbing itself never damages
  if (r.p(0.3)) {
    bool d2 = r.p(0.5);
    auto b4 = contentOf(*dest);
    auto exp = doubled(*dest, d2);
    dest->absorb(*dest, d2);
    auto af = contentOf(*dest);
    require(af.vars == b4.vars && af.evs == b4.evs, "self-absorb", b4.diff(af));
    if (!d2)
      require(af == b4, "self-absorb", b4.diff(af));
    auto consts = contentOf(*dest, true).consts;
    require(consts == exp, "self-absorb-copied", vec(consts), " instead of ", vec(exp));
    for (auto &v : l.var)
      checkDistribution(dest->getMarginalDistribution(v), v->size(), "self-absorb");
    // the same for a graph
    EFG::model::Graph g;
    g.absorb(m[1], deep);
    auto gb = contentOf(g);
    exp = doubled(g, d2);
    g.absorb(g, d2);
    auto ga = contentOf(g, true);
    require(ga.vars == gb.vars && ga.evs == gb.evs, "self-absorb-graph", gb.diff(ga));
    require(ga.consts == exp, "self-absorb-graph", vec(ga.consts), " instead of ", vec(exp));
    c.st.add("self_absorptions");
  }
  c.nontrivial(signature(s) ^ hashStr(vec(part)) ^ (deep ? 5 : 9));
}

// conditional fields
static void conditional(Ctx &c) {
  Rng &r = c.rng;
  GenOpt o;
  o.nmin = 2;
  o.nmax = r.p(0.97) ? 8 : 40;
  o.maxsz = 4;
  o.range = 3;
  o.evs = 1;
  o.evfrac = 0.4;
  o.zeros = 0;
  Spec s = genModel(r, o);
  c.desc = s.str();
  if (s.ev.empty())
    return;
  for (auto &f : s.f) {
    bool onlyEv = true;
    for (int v : f.v)
      onlyEv = onlyEv && s.ev.count(v);
    if (onlyEv && f.kind == TUN) {
      f.kind = CEXP;
      f.share = -1;
    }
  }
  for (auto &f : s.f)
    if (f.share >= 0 && s.f[U(f.share)].kind != TUN)
      f.share = -1;
  auto m = std::make_unique<RandomField>();
  Live l;
  build(*m, s, l, r);
  bool deep = r.p(0.5);
  auto before = contentOf(*m);
  auto crf = std::make_unique<ConditionalRandomField>(*m, deep);
  require(contentOf(*m) == before, "source-altered", before.diff(contentOf(*m)));
  auto x = contentOf(*m, deep), y = contentOf(*crf, deep);
  require(x == y, "conditional-content", x.diff(y));
  auto answers = [&](auto &model, const std::map<int, std::size_t> &ev) {
    Ref ref(s, ev);
    auto R = ref.run(false);
    if (!R.possible || !ref.all_trees)
      return;
    for (std::size_t k = 0; k < s.sz.size(); ++k) {
      auto d = model.getMarginalDistribution(l.var[k]);
      require(within(distrError(d, R.belief[k]), 3e-5), "conditional-answers", "variable ", k, " got ", vec(d),
              " expected ", vec(R.belief[k]));
    }
    c.st.add("conditional_answers");
  };
  answers(*crf, s.ev);
  if (r.p(0.3)) {
    auto copy = std::make_unique<ConditionalRandomField>(*crf);
    auto z = contentOf(*copy, deep);
    require(y == z, "conditional-copy", y.diff(z));
    crf = std::move(copy);
    c.st.add("conditional_copies");
    answers(*crf, s.ev);
  }
  // evidences of one do not alter the other
  auto other = s.ev;
  std::vector<std::size_t> vals;
  for (auto &v : crf->getObservedVariables()) {
    auto k = static_cast<int>(std::find(l.var.begin(), l.var.end(), v) - l.var.begin());
    other[k] = U(r.ri(0, s.sz[U(k)] - 1));
    vals.push_back(other[k]);
  }
  crf->setEvidences(vals);
  answers(*crf, other);
  require(contentOf(*m) == before, "conditional-not-independent", before.diff(contentOf(*m)));
  answers(*m, s.ev);
  if (r.p(0.5)) {
    m->removeAllEvidences();
    answers(*crf, other);
  }
  if (deep) {
    auto z = contentOf(*crf);
    auto w = m->getWeights();
    for (auto &k : w)
      k = genWeight(r) / s.feat;
    m->setWeights(w);
    require(contentOf(*crf) == z, "conditional-not-independent", z.diff(contentOf(*crf)));
    answers(*crf, other);
  }
  m.reset();
  l.fac.clear();
  answers(*crf, other);
  c.st.add(deep ? "deep_conditional" : "shallow_conditional");
  c.nontrivial(signature(s) ^ (deep ? 5 : 9));
}

static void run(Ctx &c) {
  double u = c.rng.uni();
  if (u < 0.3)
    twins<RandomField, RandomField>(c);
  else if (u < 0.45)
    twins<Graph, Graph>(c);
  else if (u < 0.55)
    twins<RandomField, Graph>(c);
  else if (u < 0.62)
    twins<Graph, RandomField>(c);
  else if (u < 0.82)
    merge(c);
  else
    conditional(c);
}
VF_MAIN("C24", run)
