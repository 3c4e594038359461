// C03: joint marginals of connected sub groups, in acyclic models, are exact
#include "gen.hpp"
using namespace vf;

// grows a set of variables whose hidden part is connected inside each component
static std::vector<int> pickGroup(Rng &r, const Spec &s, const Ref &ref, std::size_t maxDomain) {
  std::vector<int> g;
  std::set<int> in;
  std::set<int> usedComps;
  std::size_t dom = 1;
  auto U = [](int x) { return static_cast<std::size_t>(x); };
  long want = r.ri(1, 5);
  for (int attempts = 0; attempts < 40 && static_cast<long>(g.size()) < want; ++attempts) {
    std::vector<int> cand;
    if (!g.empty() && r.p(0.7)) {
      for (int v : g)
        if (ref.hidden[U(v)])
          for (int e : ref.inc[U(v)])
            cand.push_back(ref.other(e, v));
    } else {
      for (std::size_t k = 0; k < s.sz.size(); ++k)
        if (!ref.hidden[k] || !usedComps.count(ref.comp[k]))
          cand.push_back(static_cast<int>(k));
    }
    if (cand.empty())
      continue;
    int v = r.pick(cand);
    if (in.count(v) || dom * U(s.sz[U(v)]) > maxDomain)
      continue;
    in.insert(v);
    g.push_back(v);
    dom *= U(s.sz[U(v)]);
    if (ref.hidden[U(v)])
      usedComps.insert(ref.comp[U(v)]);
  }
  if (g.empty())
    g.push_back(static_cast<int>(r.ri(0, static_cast<long>(s.sz.size()) - 1)));
  r.shuffle(g);
  return g;
}

template <typename M> static void check(Ctx &c, M &m, const Spec &s, Live &l, const Ref &ref) {
  auto base = ref.run(false);
  bool any = false;
  long queries = c.rng.ri(1, 5);
  for (long q = 0; q < queries; ++q) {
    auto g = pickGroup(c.rng, s, ref, s.sz.size() > 40 ? 40 : 160);
    std::size_t threads = static_cast<std::size_t>(c.rng.p(0.97) ? 1 : c.rng.ri(2, 3));
    if (c.rng.p(0.2))
      m.getMAP(l.var[0], threads);
    bool possible = true;
    auto expected = refJoint(s, s.ev, g, possible);
    std::vector<std::string> names;
    for (int v : g)
      names.push_back(s.nm[static_cast<std::size_t>(v)]);
    bool byName = c.rng.p(0.5);
    EFG::factor::Factor joint = byName ? m.getJointMarginalDistribution(names, threads)
                                       : m.getJointMarginalDistribution(groupOf(l, g), threads);
    const auto &vars = joint.function().vars().getVariables();
    require(vars.size() == g.size(), "joint-variables", "group of ", vars.size());
    for (std::size_t k = 0; k < g.size(); ++k)
      require(vars[k].get() == l.var[static_cast<std::size_t>(g[k])].get(), "joint-variables",
              "position ", k, " has ", vars[k]->name(), " instead of ", names[k]);
    auto d = joint.getProbabilities();
    checkDistribution(d, expected.size(), "invalid-joint");
    c.st.add("joints_queried");
    if (!possible)
      continue;
    double e = distrError(d, expected);
    c.st.maxi("max_error", e);
    require(within(e, 2e-5), "wrong-joint", "group ", vec(g), " got ", vec(d), " expected ",
            vec(expected));
    c.st.add("joints_compared");
    c.st.maxi("largest_group", static_cast<double>(g.size()));
    bool hasEv = false, hasHid = false;
    for (int v : g)
      (ref.hidden[static_cast<std::size_t>(v)] ? hasHid : hasEv) = true;
    if (hasEv && hasHid)
      c.st.add("joints_mixing_observed_and_hidden");
    // the marginals are the marginalization of the joint
    if (c.rng.p(0.3)) {
      std::size_t pos = static_cast<std::size_t>(c.rng.ri(0, static_cast<long>(g.size()) - 1));
      auto v = static_cast<std::size_t>(g[pos]);
      std::vector<std::size_t> sizes;
      for (int x : g)
        sizes.push_back(static_cast<std::size_t>(s.sz[static_cast<std::size_t>(x)]));
      std::vector<double> sum(static_cast<std::size_t>(s.sz[v]), 0.0);
      for (std::size_t k = 0; k < d.size(); ++k)
        sum[unflat(k, sizes)[pos]] += d[k];
      auto marg = m.getMarginalDistribution(l.var[v], threads);
      require(within(distrError(marg, sum), 5e-5), "joint-vs-marginal", "group ", vec(g),
              " variable ", v, " ", vec(marg), " vs ", vec(sum));
    }
    any = any || g.size() > 1;
  }
  if (any)
    c.nontrivial(signature(s));
}

static void run(Ctx &c) {
  GenOpt o;
  double u = c.rng.uni();
  if (u < 0.7) {
    o.nmax = 7;
    o.maxsz = 4;
  } else if (u < 0.95) {
    o.nmin = 5;
    o.nmax = 18;
    o.maxsz = 3;
  } else {
    o.nmin = 30;
    o.nmax = 120;
    o.maxsz = 3;
  }
  if (c.rng.p(0.03)) {
    o.nmin = 1;
    o.nmax = 5;
    o.maxsz = 12;
  }
  o.evs = 0.7;
  o.range = c.rng.pick(std::vector<double>{1, 4, 8, 14});
  Spec s = genModel(c.rng, o);
  c.desc = s.str();
  Ref ref(s, s.ev);
  if (!ref.all_trees)
    throw HarnessError{"not acyclic"};
  Live l;
  if (c.rng.p(0.4)) {
    Graph m;
    build(m, s, l, c.rng);
    check(c, m, s, l, ref);
  } else {
    RandomField m;
    build(m, s, l, c.rng);
    check(c, m, s, l, ref);
  }
}
VF_MAIN("C03", run)
