// C01: marginals of acyclic models are exact
#include "gen.hpp"
using namespace vf;

static GenOpt scale(Ctx &c) {
  GenOpt o;
  double u = c.rng.uni();
  if (u < 0.55) {
    o.nmin = 1;
    o.nmax = 7;
    o.maxsz = 5;
  } else if (u < 0.85) {
    o.nmin = 5;
    o.nmax = 25;
    o.maxsz = static_cast<int>(c.rng.pick(std::vector<long>{2, 4, 9}));
  } else if (u < 0.97) {
    o.nmin = 30;
    o.nmax = 90;
    o.maxsz = 4;
  } else {
    o.nmin = 150;
    o.nmax = c.thorough ? 600 : 250;
    o.maxsz = 3;
  }
  if (c.rng.p(0.04)) {
    o.nmax = std::min(o.nmax, 6);
    o.nmin = 1;
    o.maxsz = 40;
  }
  o.range = c.rng.pick(std::vector<double>{1, 4, 8, 14});
  return o;
}

template <typename M> static void check(Ctx &c, M &m, const Spec &s, Live &l, const Ref &ref) {
  auto R = ref.run(false);
  std::vector<int> order;
  for (std::size_t k = 0; k < s.sz.size(); ++k)
    order.push_back(static_cast<int>(k));
  c.rng.shuffle(order);
  if (order.size() > 60)
    order.resize(60);
  std::size_t threads = static_cast<std::size_t>(c.rng.p(0.95) ? 1 : c.rng.ri(2, 3));
  int asked = 0;
  for (int k : order) {
    auto U = static_cast<std::size_t>(k);
    if (asked < 20 && c.rng.p(0.1))
      m.getMAP(l.var[U], threads); // forces a new propagation
    std::vector<float> d = c.rng.p(0.5) ? m.getMarginalDistribution(l.var[U], threads)
                                        : m.getMarginalDistribution(s.nm[U], threads);
    checkDistribution(d, static_cast<std::size_t>(s.sz[U]), "invalid-distribution");
    if (!R.possible)
      continue;
    double e = distrError(d, R.belief[U]);
    c.st.maxi("max_error", e);
    require(within(e, 2e-5), "wrong-marginal", "variable ", k, " got ", vec(d), " expected ",
            vec(R.belief[U]), " threads ", threads);
    ++asked;
  }
  c.st.add("marginals_compared", static_cast<std::uint64_t>(asked));
  c.st.add(R.possible ? "models_possible" : "models_impossible");
  if (asked > 0 && !ref.edges.empty())
    c.nontrivial(signature(s));
}

static void run(Ctx &c) {
  Spec s = genModel(c.rng, scale(c));
  c.desc = s.str();
  if (c.rng.p(0.1))
    selfCheck(s, s.ev);
  Ref ref(s, s.ev);
  if (!ref.all_trees)
    throw HarnessError{"not acyclic"};
  Live l;
  c.st.add("variables", s.sz.size());
  c.st.add("observed", s.ev.size());
  if (c.rng.p(0.4)) {
    Graph m;
    build(m, s, l, c.rng);
    check(c, m, s, l, ref);
  } else {
    RandomField m;
    build(m, s, l, c.rng);
    check(c, m, s, l, ref);
  }
}
VF_MAIN("C01", run)
