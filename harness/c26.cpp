// C26: returned distributions are valid for any model, and precise for any
// number of factors
#include "gen.hpp"
using namespace vf;

static std::size_t U(long x) { return static_cast<std::size_t>(x); }

static void addVar(Spec &s, int size) {
  s.nm.push_back("v" + std::to_string(s.sz.size()));
  s.sz.push_back(size);
}

// images around e^gain, without impossible combinations
static void addFactor(Rng &r, Spec &s, std::vector<int> v, double range, double gain, int kind = CONST, float w = 1.f) {
  FSpec f;
  f.v = std::move(v);
  f.kind = kind;
  f.w = w;
  std::size_t tot = 1;
  for (int k : f.v)
    tot *= U(s.sz[U(k)]);
  for (std::size_t k = 0; k < tot; ++k)
    f.img.push_back(kind == CONST ? static_cast<float>(std::exp(gain + r.uni(-range / 2, range / 2)))
                                  : static_cast<float>(r.uni(0, range / 2)));
  if (kind != CONST && gain != 0 && r.p(0.5)) {
    // exponents around the gain
    double mag = r.pick(std::vector<double>{1, 0.5, 2, r.uni(0.02, 60)});
    f.w = static_cast<float>(gain < 0 ? -mag : mag);
    for (auto &i : f.img)
      i = static_cast<float>((std::fabs(gain) + i) / mag);
  }
  s.f.push_back(std::move(f));
}

static int anyKind(Rng &r, double pexp) { return r.p(pexp) ? (r.p(0.5) ? TUN : CEXP) : CONST; }

// many factors around the same variables
static Spec many(Ctx &c, std::string &shape) {
  Rng &r = c.rng;
  Spec s;
  double gain = r.pick(std::vector<double>{0, 0, -4, 4, -20, 20, -50, 50});
  double pexp = r.pick(std::vector<double>{0, 0.5});
  int lo = 20, hi = c.thorough ? 500 : 120;
  switch (r.ri(0, 4)) {
  case 0: { // hub
    shape = "hub";
    int n = static_cast<int>(r.ri(lo, hi));
    // every leaf moves the distribution of the hub
    double range = r.p(0.5) ? 0.4 : 40.0 / n;
    addVar(s, static_cast<int>(r.ri(2, 4)));
    for (int k = 1; k <= n; ++k) {
      addVar(s, static_cast<int>(r.ri(1, 3)));
      std::vector<int> v{0, k};
      if (r.p(0.5))
        std::swap(v[0], v[1]);
      addFactor(r, s, v, range, gain, anyKind(r, pexp), genWeight(r));
      if (r.p(0.3))
        addFactor(r, s, {k}, range, gain, anyKind(r, pexp), genWeight(r));
    }
    // observed leaves
    if (r.p(0.5))
      for (int k = 1; k <= n; ++k)
        if (r.p(0.4))
          s.ev[k] = U(r.ri(0, s.sz[U(k)] - 1));
    if (r.p(0.1))
      s.ev[0] = U(r.ri(0, s.sz[0] - 1));
  } break;
  case 1: { // a lot of unary factors
    shape = "unaries";
    int n = static_cast<int>(r.ri(lo, 3 * hi));
    addVar(s, static_cast<int>(r.ri(2, 4)));
    addVar(s, static_cast<int>(r.ri(2, 4)));
    addFactor(r, s, {0, 1}, 2, gain);
    for (int k = 0; k < n; ++k)
      addFactor(r, s, {static_cast<int>(r.p(0.8) ? 0 : 1)}, 40.0 / n, gain, anyKind(r, pexp), genWeight(r));
  } break;
  case 2: { // long chain
    shape = "chain";
    int n = static_cast<int>(r.ri(lo, hi));
    int z = static_cast<int>(r.ri(2, 4));
    for (int k = 0; k < n; ++k) {
      addVar(s, z);
      if (k > 0)
        addFactor(r, s, r.p(0.5) ? std::vector<int>{k - 1, k} : std::vector<int>{k, k - 1}, 3, gain, anyKind(r, pexp),
                  genWeight(r));
      if (k == 0 || r.p(0.3))
        addFactor(r, s, {k}, 3, gain, anyKind(r, pexp), genWeight(r));
    }
    if (r.p(0.5))
      for (int k = 0; k < n; ++k)
        if (r.p(0.05))
          s.ev[k] = U(r.ri(0, z - 1));
  } break;
  case 3: { // hubs of hubs
    shape = "caterpillar";
    int hubs = static_cast<int>(r.ri(2, 6)), leaves = static_cast<int>(r.ri(5, hi / 4));
    int prev = 0;
    for (int h = 0; h < hubs; ++h) {
      int id = static_cast<int>(s.sz.size());
      addVar(s, static_cast<int>(r.ri(2, 3)));
      if (h > 0)
        addFactor(r, s, {prev, id}, 3, gain, anyKind(r, pexp), genWeight(r));
      prev = id;
      for (int k = 0; k < leaves; ++k) {
        addVar(s, static_cast<int>(r.ri(2, 3)));
        int leaf = static_cast<int>(s.sz.size()) - 1;
        addFactor(r, s, r.p(0.5) ? std::vector<int>{id, leaf} : std::vector<int>{leaf, id}, 30.0 / leaves, gain,
                  anyKind(r, pexp), genWeight(r));
        if (r.p(0.3))
          s.ev[leaf] = U(r.ri(0, s.sz[U(leaf)] - 1));
      }
    }
  } break;
  case 4: { // big domains
    shape = "domains";
    int n = static_cast<int>(r.ri(2, 4)), z = static_cast<int>(r.ri(20, 60));
    for (int k = 0; k < n; ++k) {
      addVar(s, static_cast<int>(r.ri(z / 2, z)));
      if (k > 0)
        addFactor(r, s, {k - 1, k}, 6, gain, anyKind(r, pexp), genWeight(r));
      if (k == 0 || r.p(0.5))
        addFactor(r, s, {k}, 6, gain, anyKind(r, pexp), genWeight(r));
    }
  } break;
  }
  return s;
}

// no guarantee that something is possible
static Spec degenerate(Ctx &c) {
  Rng &r = c.rng;
  Spec s;
  int n = static_cast<int>(r.ri(1, 9));
  double pz = r.pick(std::vector<double>{0, 0.3, 0.7, 0.95, 1});
  double range = r.pick(std::vector<double>{2, 30, 80, 160});
  for (int k = 0; k < n; ++k)
    addVar(s, static_cast<int>(r.ri(1, 4)));
  double top = r.p(0.25) ? r.pick(std::vector<double>{0.2, 1}) : 0;
  auto zeroes = [&]() {
    FSpec &f = s.f.back();
    if (f.kind != CONST) {
      // exponents inside +-80
      f.w = static_cast<float>(r.uni(-80, 80));
      for (auto &i : f.img)
        i = static_cast<float>(r.p(0.3) ? 0 : r.uni(0, 1));
      if (r.p(0.2)) {
        f.w = static_cast<float>(r.uni(-1, 1));
        for (auto &i : f.img)
          i *= 80;
      }
      return;
    }
    double mine = r.p(0.8) ? pz : r.pick(std::vector<double>{0, 1});
    for (auto &i : f.img)
      if (r.p(mine))
        i = 0.f;
    // up to the biggest float
    if (r.p(top))
      for (auto &i : f.img)
        if (i > 0 && r.p(0.8))
          i = static_cast<float>(std::exp(r.uni(86, 88.7)));
  };

  for (int k = 1; k < n; ++k)
    if (r.p(0.9)) {
      int o = static_cast<int>(r.ri(0, k - 1));
      addFactor(r, s, r.p(0.5) ? std::vector<int>{k, o} : std::vector<int>{o, k}, range, 0, anyKind(r, 0.3));
      zeroes();
    }
  if (r.p(0.5)) {
    std::set<std::set<int>> pairs;
    for (auto &f : s.f)
      pairs.insert(std::set<int>(f.v.begin(), f.v.end()));
    for (long k = r.ri(0, 3); k > 0; --k) {
      int a = static_cast<int>(r.ri(0, n - 1)), b = static_cast<int>(r.ri(0, n - 1));
      if (a != b && pairs.insert({a, b}).second) {
        addFactor(r, s, {a, b}, range, 0, anyKind(r, 0.3));
        zeroes();
      }
    }
  }
  std::vector<char> used(U(n), 0);
  for (auto &f : s.f)
    for (int v : f.v)
      used[U(v)] = 1;
  for (int k = 0; k < n; ++k)
    for (long q = used[U(k)] ? r.ri(0, 2) : r.ri(1, 2); q > 0; --q) {
      addFactor(r, s, {k}, range, 0, anyKind(r, 0.3));
      zeroes();
    }
  for (int k = 0; k < n; ++k)
    if (r.p(0.2))
      s.ev[k] = U(r.ri(0, s.sz[U(k)] - 1));
  r.shuffle(s.f);
  return s;
}

// the log of the biggest image the joint of the group may have
static double jointLog(const Spec &s, const std::vector<int> &group) {
  double tot = 0;
  for (auto &f : s.f) {
    if (f.v.size() != 2)
      continue;
    if (!std::count(group.begin(), group.end(), f.v[0]) || !std::count(group.begin(), group.end(), f.v[1]))
      continue;
    double m = 0;
    for (std::size_t k = 0; k < f.img.size(); ++k) {
      double p = potential(f, k);
      if (p > 0)
        m = std::max(m, std::log(p));
    }
    tot += m;
  }
  return tot;
}

template <typename M> static void validity(Ctx &c, M &m, const Spec &s, const Live &l, bool joints) {
  std::vector<int> order;
  for (std::size_t k = 0; k < s.sz.size(); ++k)
    order.push_back(static_cast<int>(k));
  c.rng.shuffle(order);
  if (order.size() > 12)
    order.resize(12);
  for (int k : order) {
    checkDistribution(m.getMarginalDistribution(l.var[U(k)]), U(s.sz[U(k)]), "invalid-marginal");
    c.st.add("distributions");
  }
  if (joints)
    for (long k = c.rng.ri(1, 3); k > 0; --k) {
      c.rng.shuffle(order);
      std::vector<int> group(order.begin(), order.begin() + std::min<long>(static_cast<long>(order.size()), c.rng.ri(1, 3)));
      double size = 1;
      for (int v : group)
        size *= s.sz[U(v)];
      if (jointLog(s, group) > 88.71 || size > 5000)
        continue; // its images are not floats, or it takes too long
      auto j = m.getJointMarginalDistribution(groupOf(l, group));
      std::size_t tot = 1;
      for (int v : group)
        tot *= U(s.sz[U(v)]);
      checkDistribution(j.getProbabilities(), tot, "invalid-joint");
      c.st.add("joints");
    }
  for (int k : order) {
    auto got = m.getMAP(l.var[U(k)]);
    require(got < U(s.sz[U(k)]), "invalid-map", "variable ", k, " got ", got);
  }
  auto all = m.getHiddenSetMAP();
  auto hid = m.getHiddenVariables();
  require(all.size() == hid.size(), "invalid-map-set", all.size());
  std::size_t p = 0;
  for (auto &v : hid)
    require(all[p++] < v->size(), "invalid-map-set", v->name());
}

template <typename M> static void precise(Ctx &c, const Spec &s) {
  M m;
  Live l;
  build(m, s, l, c.rng, c.rng.p(0.5));
  Ref ref(s, s.ev);
  if (!ref.all_trees)
    throw HarnessError{"not acyclic"};
  auto R = ref.run(false);
  if (!R.possible)
    throw HarnessError{"not possible"};
  double tol = 4e-6 + 1e-7 * static_cast<double>(s.f.size());
  for (auto &f : s.f) // the exponents are rounded too
    if (f.kind != CONST)
      tol += 1.2e-7 * std::fabs(f.w) * *std::max_element(f.img.begin(), f.img.end());
  std::vector<int> order{0}; // the hub
  for (int k = 0; k < 12; ++k)
    order.push_back(static_cast<int>(c.rng.ri(0, static_cast<long>(s.sz.size()) - 1)));
  for (int k : order) {
    auto d = m.getMarginalDistribution(l.var[U(k)]);
    checkDistribution(d, U(s.sz[U(k)]), "invalid-marginal");
    double e = distrError(d, R.belief[U(k)]);
    c.st.maxi("max_error_over_tolerance", e / tol);
    require(within(e, tol), "imprecise-marginal", "variable ", k, " got ", vec(d), " expected ", vec(R.belief[U(k)]));
    c.st.add("marginals_compared");
  }
  validity(c, m, s, l, true);
  c.st.maxi("max_factors", static_cast<double>(s.f.size()));
}

template <typename M> static void hostile(Ctx &c, Spec s) {
  M m;
  Live l;
  build(m, s, l, c.rng);
  validity(c, m, s, l, true);
  // other evidences, mostly impossible too
  for (long k = c.rng.ri(0, 4); k > 0; --k) {
    int v = static_cast<int>(c.rng.ri(0, static_cast<long>(s.sz.size()) - 1));
    if (c.rng.p(0.3) && s.ev.count(v)) {
      m.removeEvidence(l.var[U(v)]);
      s.ev.erase(v);
    } else {
      auto x = U(c.rng.ri(0, s.sz[U(v)] - 1));
      m.setEvidence(l.var[U(v)], x);
      s.ev[v] = x;
    }
    validity(c, m, s, l, true);
  }
  if constexpr (std::is_same_v<M, RandomField>) {
    auto cl = tunableClusters(s);
    if (!cl.empty()) {
      std::vector<float> w;
      for (auto &x : cl) {
        double top = 0;
        for (auto i : s.f[x[0]].img)
          top = std::max<double>(top, i);
        w.push_back(static_cast<float>(c.rng.uni(-79, 79) / std::max(top, 1.0)));
        s.f[x[0]].w = w.back();
      }
      m.setWeights(w);
      validity(c, m, s, l, true);
      c.st.add("large_weights");
    }
  }
}

static void run(Ctx &c) {
  Rng &r = c.rng;
  if (r.p(c.thorough ? 0.25 : 0.12)) {
    std::string shape;
    Spec s = many(c, shape);
    if (s.f.size() < 20)
      r.shuffle(s.f);
    c.desc = shape + " " + s.str();
    if (r.p(0.4))
      precise<Graph>(c, s);
    else
      precise<RandomField>(c, s);
    c.st.add("shape_" + shape);
    c.nontrivial(signature(s));
    return;
  }
  Spec s = degenerate(c);
  c.desc = s.str();
  Ref ref(s, s.ev);
  auto R = ref.run(false);
  c.st.add(R.possible ? "possible_models" : "impossible_models");
  c.st.add(ref.all_trees ? "acyclic_models" : "loopy_models");
  if (r.p(0.4))
    hostile<Graph>(c, s);
  else
    hostile<RandomField>(c, s);
  c.nontrivial(signature(s));
}
VF_MAIN("C26", run)
