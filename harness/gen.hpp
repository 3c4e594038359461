// Generators of models and their construction through the public API.
#pragma once
#include "ref.hpp"

#include <EasyFactorGraph/factor/FactorExponential.h>
#include <EasyFactorGraph/model/ConditionalRandomField.h>
#include <EasyFactorGraph/model/Graph.h>
#include <EasyFactorGraph/model/RandomField.h>

namespace vf {
using EFG::categoric::Group;
using EFG::categoric::VariablePtr;
using EFG::categoric::VariablesSet;
using EFG::categoric::VariablesSoup;
using EFG::factor::Factor;
using EFG::factor::FactorExponential;
using EFG::factor::Immutable;
using EFG::factor::ImmutablePtr;
using EFG::model::ConditionalRandomField;
using EFG::model::Graph;
using EFG::model::RandomField;

struct GenOpt {
  int nmin = 1, nmax = 8;
  int maxsz = 5;
  double zeros = 0.25;  // probability that the model has impossible combinations
  bool exps = true;     // exponential factors
  bool tun = true;      // tunable factors
  bool share = true;    // weights sharing
  double range = 5;     // log range of the factors
  double evs = 0.5;     // probability of having evidences
  double evfrac = 0.3;  // fraction of observed variables
  bool evLoops = true;  // cycles, all broken by the evidences
  int loops = 0;        // additional edges between hidden variables
  bool wide = true;     // sometimes variables with more values than maxsz
  bool huge = true;     // very rarely with hundreds of values
  bool tame = false;    // plain names only
  double feats = 0.05;  // probability of small or big exponential images
  double comps = 0.15;  // probability of opening a new component
};

inline std::string genName(Rng &r, int k, bool tame) {
  if (tame)
    return "v" + std::to_string(k);
  switch (r.ri(0, 10)) {
  case 10: {
    // names differing only by the case of the letters
    std::string name = "abcdefghijkl";
    for (std::size_t b = 0; b < name.size(); ++b)
      if (k >> b & 1)
        name[b] = static_cast<char>(name[b] - 'a' + 'A');
    return name;
  }
  case 0:
    return std::to_string(k);
  case 1:
    return "a name with spaces " + std::to_string(k);
  case 2:
    return std::string(static_cast<std::size_t>(r.ri(1, 60)), 'x') + std::to_string(k);
  case 3:
    return "V" + std::to_string(k);
  case 4:
    return " v" + std::to_string(k) + " ";
  case 5:
    return "\xc3\xa9\xe2\x82\xac_" + std::to_string(k);
  case 6:
    return "hidden/" + std::to_string(k * 7919);
  default:
    return "v" + std::to_string(k);
  }
}

inline float genImg(Rng &r, double range) {
  return static_cast<float>(std::exp(r.uni(-range / 2, range / 2)));
}

// fills the images of f. maxrange is the log range that can be used
inline void genImages(Rng &r, const Spec &s, FSpec &f, double maxrange, bool zeros,
                      const std::vector<std::size_t> &planted, int gainStyle = 0) {
  auto U = [](int x) { return static_cast<std::size_t>(x); };
  std::size_t tot = 1;
  for (int v : f.v)
    tot *= U(s.sz[U(v)]);
  f.img.assign(tot, 0.f);
  std::size_t keep = planted[U(f.v[0])];
  if (f.v.size() == 2)
    keep = keep * U(s.sz[U(f.v[1])]) + planted[U(f.v[1])];
  if (f.kind == CONST) {
    if (f.v.size() == 2 && s.sz[U(f.v[0])] == s.sz[U(f.v[1])] && zeros && r.p(0.15)) {
      std::size_t n = U(s.sz[U(f.v[0])]);
      bool corr = planted[U(f.v[0])] == planted[U(f.v[1])];
      f.corr = corr;
      f.anti = !corr;
      for (std::size_t a = 0; a < n; ++a)
        for (std::size_t b = 0; b < n; ++b)
          f.img[a * n + b] = ((a == b) == corr) ? 1.f : 0.f;
      return;
    }
    double pz = zeros ? r.pick(std::vector<double>{0.0, 0.2, 0.5, 0.85}) : 0.0;
    // overall scale: none, random or the same (tiny or huge) for all the factors
    double gain = gainStyle == 0 ? (r.p(0.2) ? r.uni(-6, 6) : 0) : gainStyle;
    for (std::size_t k = 0; k < tot; ++k) {
      if (k != keep && r.p(pz))
        continue;
      f.img[k] = genImg(r, maxrange) * static_cast<float>(std::exp(gain));
    }
  } else {
    bool sparse = r.p(0.3);
    for (std::size_t k = 0; k < tot; ++k)
      f.img[k] = (sparse && r.p(0.6)) ? 0.f : static_cast<float>(r.uni(0, maxrange / 2));
  }
}

inline float genWeight(Rng &r) {
  switch (r.ri(0, 9)) {
  case 0:
    return 0.f;
  case 1:
    return 1.f;
  case 2:
    return -1.f;
  default:
    return static_cast<float>(r.uni(-2, 2));
  }
}

inline Spec genModel(Rng &r, const GenOpt &o) {
  auto U = [](int x) { return static_cast<std::size_t>(x); };
  Spec s;
  int n = static_cast<int>(r.ri(o.nmin, o.nmax));
  int szStyle = static_cast<int>(r.ri(0, 5));
  std::vector<std::size_t> planted;
  for (int k = 0; k < n; ++k) {
    int z;
    switch (szStyle) {
    case 0:
      z = 2;
      break;
    case 1:
      z = std::min(3, o.maxsz);
      break;
    default:
      z = static_cast<int>(r.ri(r.p(0.1) ? 1 : 2, o.maxsz));
    }
    s.sz.push_back(z);
    s.nm.push_back(genName(r, k, o.tame));
    planted.push_back(U(static_cast<int>(r.ri(0, z - 1))));
  }
  // sometimes a variable with many values
  if (n <= 6 && o.wide && r.p(0.12)) {
    int k = static_cast<int>(r.ri(0, n - 1));
    // more than what a byte can represent
    s.sz[U(k)] = static_cast<int>(o.huge && n <= 4 && r.p(0.1) ? r.ri(257, 320) : r.ri(6, 12));
    planted[U(k)] = U(static_cast<int>(r.ri(0, s.sz[U(k)] - 1)));
  }
  // distinct names
  {
    std::set<std::string> seen;
    for (int k = 0; k < n; ++k)
      if (!seen.insert(s.nm[U(k)]).second) {
        s.nm[U(k)] += "#" + std::to_string(k);
        seen.insert(s.nm[U(k)]);
      }
  }
  // spanning forest
  std::vector<int> perm;
  for (int k = 0; k < n; ++k)
    perm.push_back(k);
  r.shuffle(perm);
  std::set<std::pair<int, int>> edges;
  int style = static_cast<int>(r.ri(0, 4));
  int root = 0;
  double pnew = r.p(0.5) ? 0.0 : o.comps;
  for (int k = 1; k < n; ++k) {
    if (r.p(pnew)) {
      root = k;
      continue;
    }
    int par;
    switch (style) {
    case 0:
      par = k - 1;
      break;
    case 1:
      par = root;
      break;
    case 2:
      par = std::max(root, k - static_cast<int>(r.ri(1, 3)));
      break;
    case 3:
      par = root + (k - root - 1) / 2;
      break;
    default:
      par = static_cast<int>(r.ri(root, k - 1));
    }
    edges.insert({std::min(perm[U(k)], perm[U(par)]), std::max(perm[U(k)], perm[U(par)])});
  }
  if (r.p(o.evs)) {
    for (int k = 0; k < n; ++k)
      if (r.p(o.evfrac))
        s.ev[k] = planted[U(k)];
    if (o.evLoops)
      for (auto &[k, v] : s.ev) {
        int extra = static_cast<int>(r.ri(0, 2));
        for (int e = 0; e < extra; ++e) {
          int b = static_cast<int>(r.ri(0, n - 1));
          if (b != k)
            edges.insert({std::min(k, b), std::max(k, b)});
        }
      }
  }
  for (int e = 0; e < o.loops && n > 2; ++e) {
    int a = static_cast<int>(r.ri(0, n - 1)), b = static_cast<int>(r.ri(0, n - 1));
    if (a != b)
      edges.insert({std::min(a, b), std::max(a, b)});
  }
  std::vector<int> deg(U(n), 0);
  for (auto &[a, b] : edges) {
    FSpec f;
    f.v = r.p(0.5) ? std::vector<int>{a, b} : std::vector<int>{b, a};
    s.f.push_back(f);
    ++deg[U(a)];
    ++deg[U(b)];
  }
  double unp = r.pick(std::vector<double>{0.0, 0.5, 1.0});
  for (int k = 0; k < n; ++k) {
    bool must = deg[U(k)] == 0; // variables exist only through factors
    int q = must ? static_cast<int>(r.ri(1, 2)) : (r.p(unp) ? (r.p(0.2) ? 3 : 1) : 0);
    for (int e = 0; e < q; ++e) {
      FSpec f;
      f.v = {k};
      s.f.push_back(f);
      ++deg[U(k)];
    }
  }
  r.shuffle(s.f);
  bool zeros = r.p(o.zeros);
  int gainStyle = static_cast<int>(r.p(0.7) ? 0 : r.pick(std::vector<long>{-12, -6, 6, 12}));
  double pexp = (o.exps || o.tun) ? r.pick(std::vector<double>{0.0, 0.4, 1.0}) : 0;
  for (std::size_t k = 0; k < s.f.size(); ++k) {
    auto &f = s.f[k];
    int d = 1;
    for (int v : f.v)
      d = std::max(d, deg[U(v)]);
    double range = std::min(o.range, (zeros ? 30.0 : 60.0) / d);
    if (r.p(pexp)) {
      f.kind = (o.tun && (!o.exps || r.p(0.6))) ? TUN : CEXP;
      f.w = genWeight(r);
    }
    genImages(r, s, f, range, zeros, planted, gainStyle);
  }
  if (r.p(o.feats)) {
    s.feat = r.pick(std::vector<float>{0.01f, 30.f, 500.f, 20000.f});
    for (auto &f : s.f)
      if (f.kind != CONST) {
        f.w /= s.feat;
        for (auto &x : f.img)
          x *= s.feat;
      }
  }
  if (o.share) {
    // groups are designated by the variables of one of their factors, that
    // should be the only one with those variables when the factor is inserted
    std::map<std::set<int>, int> uses;
    for (std::size_t k = 0; k < s.f.size(); ++k) {
      if (s.f[k].kind != TUN)
        continue;
      ++uses[std::set<int>(s.f[k].v.begin(), s.f[k].v.end())];
      if (k == 0 || !r.p(0.3))
        continue;
      std::vector<int> cand;
      std::set<int> own(s.f[k].v.begin(), s.f[k].v.end());
      for (std::size_t j = 0; j < k; ++j) {
        std::set<int> other(s.f[j].v.begin(), s.f[j].v.end());
        if (s.f[j].kind == TUN && uses[other] - (own == other ? 1 : 0) == 1)
          cand.push_back(static_cast<int>(j));
      }
      if (cand.empty())
        continue;
      s.f[k].share = r.pick(cand);
      s.f[k].w = s.f[U(s.f[k].share)].w;
    }
  }
  return s;
}

struct Live {
  std::vector<VariablePtr> var;
  std::vector<ImmutablePtr> fac; // nullptr when a deep copy was inserted
  std::vector<std::unique_ptr<char[]>> junk;

  void makeVars(const Spec &s, Rng &r) {
    for (std::size_t k = 0; k < s.sz.size(); ++k) {
      var.push_back(EFG::categoric::make_variable(static_cast<std::size_t>(s.sz[k]), s.nm[k]));
      noise(r);
    }
  }
  // heap noise: the iteration order of pointers sets changes
  void noise(Rng &r) {
    if (r.p(0.3))
      junk.emplace_back(new char[static_cast<std::size_t>(r.ri(1, 700))]);
    if (!junk.empty() && r.p(0.1))
      junk.erase(junk.begin() + r.ri(0, static_cast<long>(junk.size()) - 1));
  }
};

inline Group groupOf(const Live &l, const std::vector<int> &v) {
  VariablesSoup soup;
  for (int k : v)
    soup.push_back(l.var[static_cast<std::size_t>(k)]);
  return Group{soup};
}

inline std::vector<std::size_t> unflat(std::size_t flat, const std::vector<std::size_t> &sizes) {
  std::vector<std::size_t> c(sizes.size());
  for (std::size_t k = sizes.size(); k-- > 0;) {
    c[k] = flat % sizes[k];
    flat /= sizes[k];
  }
  return c;
}

inline std::shared_ptr<Factor> makeShape(const Spec &s, const FSpec &f, const Live &l, Rng &r) {
  Group g = groupOf(l, f.v);
  if (f.corr)
    return std::make_shared<Factor>(g, Factor::SimplyCorrelatedTag{});
  if (f.anti)
    return std::make_shared<Factor>(g, Factor::SimplyAntiCorrelatedTag{});
  auto res = std::make_shared<Factor>(g);
  std::vector<std::size_t> sizes;
  for (int v : f.v)
    sizes.push_back(static_cast<std::size_t>(s.sz[static_cast<std::size_t>(v)]));
  std::vector<std::size_t> order(f.img.size());
  for (std::size_t k = 0; k < order.size(); ++k)
    order[k] = k;
  if (r.p(0.5))
    r.shuffle(order);
  bool explicitZeros = r.p(0.3);
  for (auto k : order) {
    if (f.img[k] == 0.f && !explicitZeros)
      continue;
    res->set(unflat(k, sizes), f.img[k]);
  }
  return res;
}

inline std::optional<VariablesSet> sharingOf(const Spec &s, const FSpec &f, const Live &l) {
  if (f.share < 0)
    return std::nullopt;
  VariablesSet g;
  for (int v : s.f[static_cast<std::size_t>(f.share)].v)
    g.emplace(l.var[static_cast<std::size_t>(v)]);
  return g;
}

template <typename ModelT>
void insertFactor(ModelT &m, const Spec &s, std::size_t k, Live &l, Rng &r) {
  const FSpec &f = s.f[k];
  l.noise(r);
  auto shape = makeShape(s, f, l, r);
  if (l.fac.size() <= k)
    l.fac.resize(k + 1);
  bool copy = r.p(0.3);
  if (f.kind == CONST) {
    if (copy)
      m.copyConstFactor(*shape);
    else {
      m.addConstFactor(shape);
      l.fac[k] = shape;
    }
    return;
  }
  auto e = std::make_shared<FactorExponential>(*shape, f.w);
  if constexpr (std::is_base_of_v<EFG::train::FactorsTunableInserter, ModelT>) {
    if (f.kind == TUN) {
      auto sh = sharingOf(s, f, l);
      if (copy)
        m.copyTunableFactor(*e, sh);
      else {
        m.addTunableFactor(e, sh);
        l.fac[k] = e;
      }
      return;
    }
  }
  if (copy)
    m.copyConstFactor(*e);
  else {
    m.addConstFactor(e);
    l.fac[k] = e;
  }
}

// factors and evidences inserted in a random relative order: the final content
// is always the one of the specification
template <typename ModelT>
void build(ModelT &m, const Spec &s, Live &l, Rng &r, bool mixEvidences = true) {
  l.makeVars(s, r);
  std::vector<std::pair<int, std::size_t>> evs(s.ev.begin(), s.ev.end());
  r.shuffle(evs);
  std::set<int> present;
  std::size_t e = 0;
  for (std::size_t k = 0; k < s.f.size(); ++k) {
    insertFactor(m, s, k, l, r);
    for (int v : s.f[k].v)
      present.insert(v);
    if (mixEvidences && e < evs.size() && present.count(evs[e].first) && r.p(0.3)) {
      m.setEvidence(l.var[static_cast<std::size_t>(evs[e].first)], evs[e].second);
      ++e;
    }
  }
  for (; e < evs.size(); ++e) {
    if (r.p(0.5))
      m.setEvidence(l.var[static_cast<std::size_t>(evs[e].first)], evs[e].second);
    else
      m.setEvidence(s.nm[static_cast<std::size_t>(evs[e].first)], evs[e].second);
  }
}

// the weights of the clusters, in order of insertion
inline std::vector<std::vector<std::size_t>> tunableClusters(const Spec &s) {
  std::vector<std::vector<std::size_t>> res;
  std::map<std::size_t, std::size_t> where;
  for (std::size_t k = 0; k < s.f.size(); ++k) {
    if (s.f[k].kind != TUN)
      continue;
    if (s.f[k].share < 0) {
      where[k] = res.size();
      res.push_back({k});
    } else {
      auto c = where.at(static_cast<std::size_t>(s.f[k].share));
      where[k] = c;
      res[c].push_back(k);
    }
  }
  return res;
}

// the factor owning the shared weight
inline int rootOf(const Spec &s, const FSpec &f) {
  int root = f.share;
  while (s.f[static_cast<std::size_t>(root)].share >= 0)
    root = s.f[static_cast<std::size_t>(root)].share;
  return root;
}

// do the variables identify the groups owning the shared weights?
// (among all the tunable factors, or only among those that do not share the weight of others)
inline bool ambiguous(const Spec &s, bool fronts) {
  auto group = [](const FSpec &f) { return std::set<int>(f.v.begin(), f.v.end()); };
  for (auto &f : s.f)
    if (f.share >= 0) {
      int n = 0;
      for (auto &g : s.f)
        n += g.kind == TUN && (!fronts || g.share < 0) && group(g) == group(s.f[static_cast<std::size_t>(rootOf(s, f))]);
      if (n != 1)
        return true;
    }
  return false;
}

inline std::uint64_t signature(const Spec &s) {
  std::ostringstream o;
  o << vec(s.sz);
  for (auto &f : s.f) {
    o << vec(f.v) << f.kind << f.share;
    int z = 0;
    for (auto i : f.img)
      z += (i == 0.f);
    o << z;
  }
  for (auto &[k, v] : s.ev)
    o << k << "=" << v << ",";
  return hashStr(o.str());
}

// a slow loop and many messages that never change
inline Spec genIdle(Rng &r) {
  auto U = [](long x) { return static_cast<std::size_t>(x); };
  Spec s;
  int n = static_cast<int>(r.ri(3, 6)), d = static_cast<int>(r.ri(2, 3)), leaves = static_cast<int>(r.ri(8, 30));
  for (int k = 0; k < n + leaves; ++k) {
    s.sz.push_back(d);
    s.nm.push_back(cat("v", k));
  }
  auto edge = [&](int a, int b, float off) {
    FSpec f;
    f.v = r.p(0.5) ? std::vector<int>{a, b} : std::vector<int>{b, a};
    for (int i = 0; i < d * d; ++i)
      f.img.push_back(i % (d + 1) ? off : 1.f);
    s.f.push_back(f);
  };
  for (int k = 0; k < n; ++k)
    edge(k, (k + 1) % n, static_cast<float>(r.uni(0.05, 0.3)));
  for (int k = n; k < n + leaves; ++k)
    edge(k, static_cast<int>(r.p(0.8) ? r.ri(0, n - 1) : r.ri(0, k - 1)), 1.f);
  FSpec f;
  f.v = {static_cast<int>(r.ri(0, n - 1))};
  f.img.assign(U(d), 1.f);
  f.img[U(r.ri(0, d - 1))] = static_cast<float>(r.uni(1.3, 3));
  s.f.push_back(f);
  r.shuffle(s.f);
  return s;
}

// ------------------------------------------------------------------ oracles
inline void checkDistribution(const std::vector<float> &d, std::size_t size, const char *key) {
  require(d.size() == size, key, "distribution with ", d.size(), " values instead of ", size);
  double sum = 0;
  for (float v : d) {
    if (!std::isfinite(v))
      fail(key, "not finite value in ", vec(d));
    if (!(v >= 0 && v <= 1.0001f))
      fail(key, "value out of [0,1] in ", vec(d));
    sum += v;
  }
  if (!(std::fabs(sum - 1) < 1e-3))
    fail(key, "distribution summing to ", sum, ": ", vec(d));
}

inline double distrError(const std::vector<float> &d, const std::vector<double> &ref) {
  double e = 0;
  for (std::size_t k = 0; k < d.size() && k < ref.size(); ++k) {
    double x = std::fabs(d[k] - ref[k]);
    if (!(x == x))
      return x; // NaN: never within a tolerance
    e = std::max(e, x);
  }
  return e;
}
inline bool within(double err, double tol) { return err <= tol; }
} // namespace vf
