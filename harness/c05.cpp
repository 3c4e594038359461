// C05: evidences and variables are tracked faithfully along any history
#include "ops.hpp"
using namespace vf;

template <typename M> static void answers(Ctx &c, World<M> &w) {
  if (w.present.empty())
    return;
  auto U = [](long x) { return static_cast<std::size_t>(x); };
  int v = c.rng.pick(w.present);
  if (!w.cur.ev.empty() && c.rng.p(0.6)) {
    auto it = w.cur.ev.begin();
    std::advance(it, c.rng.ri(0, static_cast<long>(w.cur.ev.size()) - 1));
    v = it->first;
  }
  auto d = w.m->getMarginalDistribution(w.l.var[U(v)], w.threads);
  checkDistribution(d, U(w.full.sz[U(v)]), "invalid-distribution");
  if (auto it = w.cur.ev.find(v); it != w.cur.ev.end()) {
    for (std::size_t k = 0; k < d.size(); ++k)
      require(d[k] == (k == it->second ? 1.f : 0.f), "observed-marginal", "variable ", v,
              " observed as ", it->second, " has ", vec(d));
    require(w.m->getMAP(w.full.nm[U(v)], w.threads) == it->second, "observed-map", "variable ", v);
    auto j = w.m->getJointMarginalDistribution(std::vector<std::string>{w.full.nm[U(v)]}).getProbabilities();
    require(j == d, "observed-joint", "variable ", v, " ", vec(j));
    c.st.add("observed_answers");
  }
  // structure reported by the propagation
  require(w.m->hasPropagationResult(), "propagation-result", "missing after a query");
  const auto &res = w.m->getLastPropagationResult();
  Ref ref(w.cur, w.cur.ev);
  std::vector<std::pair<bool, std::size_t>> got, expected;
  for (auto &s : res.structures)
    got.emplace_back(s.tree_or_loopy_graph, s.size);
  for (std::size_t k = 0; k < ref.comps.size(); ++k)
    if (w.isPresent(ref.comps[k][0]))
      expected.emplace_back(ref.comp_tree[k] != 0, ref.comps[k].size());
  std::sort(got.begin(), got.end());
  std::sort(expected.begin(), expected.end());
  require(got == expected, "clusters", got.size(), " clusters reported, ", expected.size(), " expected");
  c.st.add("structures_compared");
  auto hid = w.m->getHiddenVariables();
  require(w.m->getHiddenSetMAP(w.threads).size() == hid.size(), "hidden-map-size", hid.size());
}

template <typename M> static void drive(Ctx &c) {
  GenOpt o;
  o.nmin = 1;
  double u = c.rng.uni();
  o.nmax = u < 0.7 ? 8 : (u < 0.95 ? 20 : 60);
  o.maxsz = 4;
  o.evs = 1;
  o.evLoops = c.rng.p(0.4);
  o.range = 2;
  World<M> w(c, o);
  long ops = c.rng.p(0.1) ? c.rng.ri(60, c.thorough ? 400 : 120) : c.rng.ri(5, 40);
  // as a start, insert nearly all or a few of the factors
  long first = c.rng.p(0.5) ? static_cast<long>(w.left.size()) : c.rng.ri(0, 3);
  for (long k = 0; k < first; ++k)
    w.insert();
  w.checkBookkeeping();
  for (long k = 0; k < ops; ++k) {
    w.threads = static_cast<std::size_t>(c.rng.p(0.99) ? 1 : 2);
    if (c.rng.p(0.35))
      w.setEvidence();
    else
      w.step();
    w.checkBookkeeping();
    if (c.rng.p(0.3))
      answers(c, w);
    // updating again the same variable, also with the same value
    if (!w.cur.ev.empty() && c.rng.p(0.1)) {
      auto it = w.cur.ev.begin();
      w.setEvidence(it->first, c.rng.p(0.5) ? it->second
                                            : static_cast<std::size_t>(c.rng.ri(
                                                  0, w.full.sz[static_cast<std::size_t>(it->first)] - 1)));
      w.checkBookkeeping();
    }
  }
  answers(c, w);
  c.st.add("operations", static_cast<std::uint64_t>(w.nops));
  c.st.maxi("longest_history", w.nops);
  if (w.nops > 3)
    c.nontrivial(hashStr(w.log) ^ signature(w.full));
}

static void run(Ctx &c) {
  if (c.rng.p(0.35))
    drive<Graph>(c);
  else
    drive<RandomField>(c);
}
VF_MAIN("C05", run)
