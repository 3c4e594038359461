// C02: the MAP estimations of acyclic models are maximizers
#include "gen.hpp"
using namespace vf;

static GenOpt scale(Ctx &c) {
  GenOpt o;
  double u = c.rng.uni();
  if (u < 0.6) {
    o.nmax = 7;
    o.maxsz = 5;
  } else if (u < 0.9) {
    o.nmin = 5;
    o.nmax = 25;
    o.maxsz = static_cast<int>(c.rng.pick(std::vector<long>{2, 4, 9}));
  } else {
    o.nmin = 30;
    o.nmax = c.thorough ? 300 : 120;
    o.maxsz = 3;
  }
  if (c.rng.p(0.04)) {
    o.nmin = 1;
    o.nmax = std::min(o.nmax, 6);
    o.maxsz = 40;
  }
  o.range = c.rng.pick(std::vector<double>{0.2, 4, 8, 14});
  o.zeros = 0.4;
  return o;
}

template <typename M> static void check(Ctx &c, M &m, const Spec &s, Live &l, const Ref &ref) {
  auto R = ref.run(true);
  std::size_t threads = static_cast<std::size_t>(c.rng.p(0.95) ? 1 : c.rng.ri(2, 3));
  bool decided = R.possible; // no ties at all
  double gap = 1e300;
  for (std::size_t k = 0; k < s.sz.size(); ++k) {
    auto b = R.belief[k];
    if (!ref.hidden[k] || b.size() < 2)
      continue;
    std::sort(b.rbegin(), b.rend());
    gap = std::min(gap, b[0] > 0 ? (b[0] - b[1]) / b[0] : 0.0);
  }
  decided = decided && gap > 1e-3;
  auto ok = [&](std::size_t k, std::size_t got) {
    double mx = *std::max_element(R.belief[k].begin(), R.belief[k].end());
    return R.belief[k][got] >= mx * (1 - 2e-4);
  };
  int asked = 0;
  std::vector<int> order;
  for (std::size_t k = 0; k < s.sz.size(); ++k)
    order.push_back(static_cast<int>(k));
  c.rng.shuffle(order);
  if (order.size() > 40)
    order.resize(40);
  auto single = [&]() {
    for (int v : order) {
      auto k = static_cast<std::size_t>(v);
      if (asked < 10 && c.rng.p(0.1))
        m.getMarginalDistribution(l.var[k], threads); // changes the kind of propagation
      std::size_t got =
          c.rng.p(0.5) ? m.getMAP(l.var[k], threads) : m.getMAP(s.nm[k], threads);
      require(got < static_cast<std::size_t>(s.sz[k]), "map-out-of-domain", "variable ", v, " value ",
              got);
      if (!ref.hidden[k])
        require(got == s.ev.at(v), "map-of-evidence", "variable ", v, " got ", got);
      else if (R.possible)
        require(ok(k, got), "wrong-map", "variable ", v, " got ", got, " max marginals ",
                vec(R.belief[k]));
      ++asked;
    }
  };
  auto whole = [&]() {
    if (c.rng.p(0.2))
      m.getMarginalDistribution(l.var[0], threads);
    auto hid = m.getHiddenVariables();
    auto got = m.getHiddenSetMAP(threads);
    require(got.size() == hid.size(), "map-set-size", "got ", got.size(), " values for ", hid.size(),
            " hidden variables");
    std::vector<std::size_t> a(s.sz.size());
    for (auto &[k, v] : s.ev)
      a[static_cast<std::size_t>(k)] = v;
    std::size_t pos = 0;
    std::set<std::string> seen;
    for (auto &v : hid) {
      std::size_t k = 0;
      while (k < s.nm.size() && s.nm[k] != v->name())
        ++k;
      require(k < s.nm.size() && ref.hidden[k] && seen.insert(v->name()).second,
              "wrong-hidden-set", v->name());
      std::size_t val = got[pos++];
      require(val < static_cast<std::size_t>(s.sz[k]), "map-out-of-domain", "variable ", k, " value ",
              val);
      if (R.possible)
        require(ok(k, val), "wrong-map-set", "variable ", k, " got ", val, " max marginals ",
                vec(R.belief[k]));
      a[k] = val;
    }
    std::size_t nh = 0;
    for (char h : ref.hidden)
      nh += h ? 1 : 0;
    require(nh == hid.size(), "wrong-hidden-set", "hidden variables ", hid.size(), " expected ", nh);
    if (decided) {
      double sc = logScore(s, a);
      c.st.maxi("max_log_score_loss", R.logz - sc);
      require(std::fabs(sc - R.logz) < 1e-3 * (1 + 1e-3 * std::fabs(R.logz)), "map-set-not-optimal",
              "log score ", sc, " best ", R.logz);
      c.st.add("whole_assignments_optimal");
    }
    c.st.add("whole_sets_checked");
  };
  if (c.rng.p(0.5)) {
    single();
    whole();
  } else {
    whole();
    single();
  }
  c.st.add("single_maps_checked", static_cast<std::uint64_t>(asked));
  c.st.add(R.possible ? "models_possible" : "models_impossible");
  if (R.possible && !ref.edges.empty())
    c.nontrivial(signature(s));
}

// few variables with images close to the smallest representable ones
static Spec tiny(Ctx &c) {
  Rng &r = c.rng;
  GenOpt o;
  o.nmin = 2;
  o.nmax = 4;
  o.maxsz = 4;
  o.exps = o.tun = o.share = o.wide = false;
  o.zeros = 0.8;
  Spec s = genModel(r, o);
  for (auto &f : s.f) {
    if (f.corr || f.anti)
      continue;
    int e = f.v.size() == 2 || r.p(0.3) ? static_cast<int>(r.ri(120, 128)) : 0;
    for (auto &x : f.img)
      if (x != 0)
        x = std::ldexp(static_cast<float>(r.ri(1, 4)), -e);
  }
  c.st.add("tiny_images");
  return s;
}

static void run(Ctx &c) {
  Spec s = c.rng.p(0.04) ? tiny(c) : genModel(c.rng, scale(c));
  c.desc = s.str();
  if (c.rng.p(0.1))
    selfCheck(s, s.ev);
  Ref ref(s, s.ev);
  if (!ref.all_trees)
    throw HarnessError{"not acyclic"};
  Live l;
  if (c.rng.p(0.4)) {
    Graph m;
    build(m, s, l, c.rng);
    check(c, m, s, l, ref);
  } else {
    RandomField m;
    build(m, s, l, c.rng);
    check(c, m, s, l, ref);
  }
}
VF_MAIN("C02", run)
