// Independent double precision reference of a factor graph: nothing of the
// library under test is used here.
#pragma once
#include "common.hpp"
#include <limits>
#include <queue>

namespace vf {
enum Kind { CONST = 0, CEXP = 1, TUN = 2 };

struct FSpec {
  std::vector<int> v;     // variables (indices), 1 or 2
  std::vector<float> img; // raw images, row major in the order of v
  int kind = CONST;
  float w = 1.f;  // weight, for CEXP and TUN
  int share = -1; // TUN only: index of the factor whose weight is shared
  bool corr = false, anti = false;
};

struct Spec {
  std::vector<int> sz;
  std::vector<std::string> nm;
  std::vector<FSpec> f;
  std::map<int, std::size_t> ev;
  float feat = 1.f; // scale of the images of the exponential factors, whose weights have the inverse one

  std::string str() const {
    std::ostringstream o;
    o.precision(9);
    o << "vars{";
    for (std::size_t k = 0; k < sz.size(); ++k)
      o << (k ? " " : "") << k << ":" << sz[k] << "'" << nm[k] << "'";
    o << "} factors{";
    for (auto &x : f) {
      o << " (" << vec(x.v) << (x.kind == CONST ? "C" : x.kind == CEXP ? "E" : "T");
      if (x.kind != CONST)
        o << " w=" << x.w;
      if (x.share >= 0)
        o << " share=" << x.share;
      o << " " << vec(x.img) << ")";
      if (o.tellp() > 6000) {
        o << "...";
        break;
      }
    }
    o << " } ev{";
    for (auto &[k, v] : ev)
      o << k << "=" << v << " ";
    o << "}";
    return o.str();
  }
};

inline double potential(const FSpec &f, std::size_t flat) {
  double raw = f.img[flat];
  return f.kind == CONST ? raw : std::exp(static_cast<double>(f.w) * raw);
}

struct RefEdge {
  int a, b;               // hidden nodes
  std::vector<double> t;  // sz[a] x sz[b]
  double at(const std::vector<int> &sz, std::size_t ia, std::size_t ib) const {
    return t[ia * static_cast<std::size_t>(sz[static_cast<std::size_t>(b)]) + ib];
  }
};

// the model conditioned to some evidences
struct Ref {
  std::vector<int> sz;
  std::vector<char> hidden;
  std::vector<std::size_t> evval;
  std::vector<std::vector<double>> un; // per hidden variable
  std::vector<RefEdge> edges;
  std::vector<std::vector<int>> inc; // incident edges
  std::vector<int> comp;             // component of each hidden var (-1 otherwise)
  std::vector<std::vector<int>> comps;
  std::vector<char> comp_tree;
  double const_log = 0; // log of the factors among evidences only
  bool all_trees = true;

  Ref(const Spec &s, const std::map<int, std::size_t> &ev) : sz(s.sz) {
    const std::size_t n = sz.size();
    hidden.assign(n, 1);
    evval.assign(n, 0);
    for (auto &[k, v] : ev) {
      hidden[static_cast<std::size_t>(k)] = 0;
      evval[static_cast<std::size_t>(k)] = v;
    }
    un.resize(n);
    inc.resize(n);
    for (std::size_t k = 0; k < n; ++k)
      un[k].assign(static_cast<std::size_t>(sz[k]), 1.0);
    auto U = [](int x) { return static_cast<std::size_t>(x); };
    for (auto &f : s.f) {
      if (f.v.size() == 1) {
        int a = f.v[0];
        if (hidden[U(a)]) {
          for (std::size_t i = 0; i < U(sz[U(a)]); ++i)
            un[U(a)][i] *= potential(f, i);
          scale(un[U(a)], const_log);
        } else
          const_log += std::log(potential(f, evval[U(a)]));
        continue;
      }
      int a = f.v[0], b = f.v[1];
      std::size_t sb = U(sz[U(b)]);
      bool ha = hidden[U(a)], hb = hidden[U(b)];
      if (ha && hb) {
        RefEdge e;
        e.a = a;
        e.b = b;
        e.t.resize(f.img.size());
        for (std::size_t k = 0; k < f.img.size(); ++k)
          e.t[k] = potential(f, k);
        inc[U(a)].push_back(static_cast<int>(edges.size()));
        inc[U(b)].push_back(static_cast<int>(edges.size()));
        edges.push_back(std::move(e));
      } else if (ha) {
        for (std::size_t i = 0; i < U(sz[U(a)]); ++i)
          un[U(a)][i] *= potential(f, i * sb + evval[U(b)]);
        scale(un[U(a)], const_log);
      } else if (hb) {
        for (std::size_t i = 0; i < sb; ++i)
          un[U(b)][i] *= potential(f, evval[U(a)] * sb + i);
        scale(un[U(b)], const_log);
      } else
        const_log += std::log(potential(f, evval[U(a)] * sb + evval[U(b)]));
    }
    // components
    comp.assign(n, -1);
    for (std::size_t k = 0; k < n; ++k) {
      if (!hidden[k] || comp[k] >= 0)
        continue;
      int id = static_cast<int>(comps.size());
      comps.emplace_back();
      std::size_t deg = 0;
      std::vector<int> st{static_cast<int>(k)};
      comp[k] = id;
      while (!st.empty()) {
        int x = st.back();
        st.pop_back();
        comps.back().push_back(x);
        deg += inc[U(x)].size();
        for (int e : inc[U(x)]) {
          int o = other(e, x);
          if (comp[U(o)] < 0) {
            comp[U(o)] = id;
            st.push_back(o);
          }
        }
      }
      bool tree = (deg / 2 == comps.back().size() - 1);
      comp_tree.push_back(tree);
      all_trees = all_trees && tree;
    }
  }

  int other(int e, int x) const {
    const auto &ed = edges[static_cast<std::size_t>(e)];
    return ed.a == x ? ed.b : ed.a;
  }

  struct Result {
    std::vector<std::vector<double>> belief; // normalized (sum 1 or max 1)
    double logz = 0;                         // or log of the best score
    bool possible = true;
    bool converged = true;
    double contraction = 0; // last ratio of the loopy part
    std::vector<std::vector<double>> rel; // loopy parts: effect of the errors of the messages

    // distance from the fixed point, of messages that vary less than 1e-3
    double msgError() const { return 1e-3 * std::max(contraction, 0.3) / (1 - contraction); }
    // tolerance to use for the belief of a variable
    double tolerance(std::size_t x, double acyclic) const {
      double t = 0;
      for (std::size_t i = 0; i < rel[x].size(); ++i)
        t += belief[x][i] * rel[x][i];
      return std::max(acyclic, t * msgError());
    }
  };

  // no component has more than one cycle
  bool singleCycles() const {
    for (auto &c : comps) {
      std::size_t deg = 0;
      for (int x : c)
        deg += inc[static_cast<std::size_t>(x)].size();
      if (deg / 2 > c.size())
        return false;
    }
    return true;
  }
  // the fixed point does not depend on the order of the updates
  bool sameForAllOrders(const Result &base, bool map, int orders) const {
    for (int k = 1; k <= orders; ++k) {
      auto o = run(map, static_cast<std::uint64_t>(k) * 77);
      if (!o.converged)
        return false;
      for (std::size_t x = 0; x < sz.size(); ++x)
        for (std::size_t i = 0; i < base.belief[x].size(); ++i)
          if (!(std::fabs(base.belief[x][i] - o.belief[x][i]) < 1e-6))
            return false;
    }
    return true;
  }

  static void scale(std::vector<double> &v, double &acc) {
    double m = *std::max_element(v.begin(), v.end());
    if (m > 0) {
      for (auto &x : v)
        x /= m;
      acc += std::log(m);
    } else
      acc = -std::numeric_limits<double>::infinity();
  }

  // message from x through edge e
  std::vector<double> message(int e, int x, const std::vector<double> &prod, bool map) const {
    const auto &ed = edges[static_cast<std::size_t>(e)];
    bool fwd = ed.a == x;
    int o = fwd ? ed.b : ed.a;
    std::vector<double> r(static_cast<std::size_t>(sz[static_cast<std::size_t>(o)]), 0.0);
    for (std::size_t j = 0; j < r.size(); ++j)
      for (std::size_t i = 0; i < prod.size(); ++i) {
        double v = prod[i] * (fwd ? ed.at(sz, i, j) : ed.at(sz, j, i));
        if (map)
          r[j] = std::max(r[j], v);
        else
          r[j] += v;
      }
    return r;
  }

  // shuffle: order of the updates of the loopy parts (0: natural)
  Result run(bool map, std::uint64_t shuffle = 0) const {
    Result R;
    auto U = [](int x) { return static_cast<std::size_t>(x); };
    R.belief.resize(sz.size());
    R.rel.resize(sz.size());
    R.logz = const_log;
    std::map<std::pair<int, int>, std::vector<double>> msg; // (edge, sender)
    for (std::size_t c = 0; c < comps.size(); ++c) {
      if (comp_tree[c]) {
        // bfs order
        std::vector<int> order{comps[c][0]}, pe(sz.size(), -1);
        std::vector<char> seen(sz.size(), 0);
        seen[U(order[0])] = 1;
        for (std::size_t k = 0; k < order.size(); ++k)
          for (int e : inc[U(order[k])]) {
            int o = other(e, order[k]);
            if (!seen[U(o)]) {
              seen[U(o)] = 1;
              pe[U(o)] = e;
              order.push_back(o);
            }
          }
        // upward
        for (std::size_t k = order.size(); k-- > 0;) {
          int x = order[k];
          std::vector<double> prod = un[U(x)];
          for (int e : inc[U(x)])
            if (e != pe[U(x)]) {
              auto &m = msg[{e, other(e, x)}];
              for (std::size_t i = 0; i < prod.size(); ++i)
                prod[i] *= m[i];
              scale(prod, R.logz);
            }
          if (k > 0) {
            auto m = message(pe[U(x)], x, prod, map);
            scale(m, R.logz);
            msg[{pe[U(x)], x}] = m;
          } else {
            double s = 0;
            for (auto v : prod)
              s = map ? std::max(s, v) : s + v;
            if (s > 0)
              R.logz += std::log(s);
            else
              R.logz = -std::numeric_limits<double>::infinity();
          }
        }
        // downward
        for (std::size_t k = 0; k < order.size(); ++k) {
          int x = order[k];
          for (int e : inc[U(x)])
            if (e != pe[U(x)]) {
              std::vector<double> prod = un[U(x)];
              double dummy = 0;
              for (int e2 : inc[U(x)])
                if (e2 != e) {
                  auto &m = msg[{e2, other(e2, x)}];
                  for (std::size_t i = 0; i < prod.size(); ++i)
                    prod[i] *= m[i];
                  scale(prod, dummy);
                }
              auto m = message(e, x, prod, map);
              scale(m, dummy);
              msg[{e, x}] = m;
            }
        }
      } else {
        for (int x : comps[c])
          for (int e : inc[U(x)])
            msg[{e, x}].assign(U(sz[U(other(e, x))]), 1.0 / sz[U(other(e, x))]);
        double prev = 0;
        bool conv = false;
        std::vector<std::pair<int, int>> updates;
        for (int x : comps[c])
          for (int e : inc[U(x)])
            updates.emplace_back(x, e);
        if (shuffle)
          Rng(shuffle).shuffle(updates);
        for (int it = 0; it < 3000 && !conv; ++it) {
          double delta = 0;
          for (auto &[x, e] : updates) {
              std::vector<double> prod = un[U(x)];
              double dummy = 0;
              for (int e2 : inc[U(x)])
                if (e2 != e) {
                  auto &m = msg[{e2, other(e2, x)}];
                  for (std::size_t i = 0; i < prod.size(); ++i)
                    prod[i] *= m[i];
                  scale(prod, dummy);
                }
              auto m = message(e, x, prod, map);
              double s = 0;
              for (auto v : m)
                s += v;
              if (s > 0)
                for (auto &v : m)
                  v /= s;
              auto &old = msg[{e, x}];
              double d = 0;
              for (std::size_t i = 0; i < m.size(); ++i)
                d += std::fabs(m[i] - old[i]);
              delta = std::max(delta, d);
              old = m;
            }
          if (prev > 1e-9 && it > 1)
            R.contraction = std::max(R.contraction, delta / prev);
          prev = delta;
          conv = delta < 1e-12;
        }
        R.converged = R.converged && conv;
      }
      for (int x : comps[c]) {
        auto b = un[U(x)];
        double dummy = 0;
        if (!comp_tree[c]) {
          R.rel[U(x)].assign(b.size(), 0.0);
          for (int e : inc[U(x)]) {
            auto &m = msg[{e, other(e, x)}];
            for (std::size_t i = 0; i < b.size(); ++i)
              R.rel[U(x)][i] += 1 / std::max(1e-12, m[i]);
          }
        }
        for (int e : inc[U(x)]) {
          auto &m = msg[{e, other(e, x)}];
          for (std::size_t i = 0; i < b.size(); ++i)
            b[i] *= m[i];
          scale(b, dummy);
        }
        double s = 0;
        for (auto v : b)
          s += v;
        if (s > 0) {
          if (!map)
            for (auto &v : b)
              v /= s;
        } else
          R.possible = false;
        R.belief[U(x)] = b;
      }
    }
    if (!(R.logz > -std::numeric_limits<double>::infinity()))
      R.possible = false;
    for (std::size_t k = 0; k < sz.size(); ++k)
      if (!hidden[k]) {
        R.belief[k].assign(U(sz[k]), 0.0);
        R.belief[k][evval[k]] = 1;
      }
    return R;
  }
};

// log of the (unnormalized) score of a full assignment
inline double logScore(const Spec &s, const std::vector<std::size_t> &a) {
  double r = 0;
  for (auto &f : s.f) {
    std::size_t flat = a[static_cast<std::size_t>(f.v[0])];
    if (f.v.size() == 2)
      flat = flat * static_cast<std::size_t>(s.sz[static_cast<std::size_t>(f.v[1])]) +
             a[static_cast<std::size_t>(f.v[1])];
    r += std::log(potential(f, flat));
  }
  return r;
}

// cross check of the reference, by enumeration
inline void selfCheck(const Spec &s, const std::map<int, std::size_t> &ev) {
  double tot = 1;
  for (int z : s.sz)
    tot *= z;
  if (tot > 3000)
    return;
  Ref ref(s, ev);
  if (!ref.all_trees)
    return;
  auto sum = ref.run(false);
  auto mp = ref.run(true);
  std::vector<std::vector<double>> m(s.sz.size()), mm(s.sz.size());
  for (std::size_t k = 0; k < m.size(); ++k) {
    m[k].assign(static_cast<std::size_t>(s.sz[k]), 0.0);
    mm[k].assign(static_cast<std::size_t>(s.sz[k]), 0.0);
  }
  std::vector<std::size_t> a(s.sz.size(), 0);
  double Z = 0;
  while (true) {
    bool ok = true;
    for (auto &[k, v] : ev)
      ok = ok && a[static_cast<std::size_t>(k)] == v;
    if (ok) {
      double v = std::exp(logScore(s, a));
      Z += v;
      for (std::size_t k = 0; k < a.size(); ++k) {
        m[k][a[k]] += v;
        mm[k][a[k]] = std::max(mm[k][a[k]], v);
      }
    }
    std::size_t k = a.size();
    while (k > 0) {
      if (++a[k - 1] < static_cast<std::size_t>(s.sz[k - 1]))
        break;
      a[k - 1] = 0;
      --k;
    }
    if (k == 0)
      break;
  }
  if (Z <= 0) {
    if (sum.possible)
      throw HarnessError{"reference: impossible model not recognized"};
    return;
  }
  if (!sum.possible || std::fabs(std::log(Z) - sum.logz) > 1e-6)
    throw HarnessError{cat("reference: logz ", std::log(Z), " vs ", sum.logz)};
  for (std::size_t k = 0; k < m.size(); ++k) {
    double mx = *std::max_element(mm[k].begin(), mm[k].end());
    double rmx = *std::max_element(mp.belief[k].begin(), mp.belief[k].end());
    for (std::size_t i = 0; i < m[k].size(); ++i) {
      if (std::fabs(m[k][i] / Z - sum.belief[k][i]) > 1e-9)
        throw HarnessError{"reference: marginal mismatch"};
      if (std::fabs(mm[k][i] / mx - mp.belief[k][i] / rmx) > 1e-9)
        throw HarnessError{"reference: max marginal mismatch"};
    }
  }
}

// joint distribution of the passed variables (row major), by conditioning.
// Only for models that are acyclic once conditioned to ev.
inline std::vector<double> refJoint(const Spec &s, const std::map<int, std::size_t> &ev,
                                    const std::vector<int> &group, bool &possible) {
  std::vector<double> lz;
  std::vector<std::size_t> c(group.size(), 0);
  double best = -std::numeric_limits<double>::infinity();
  while (true) {
    auto ev2 = ev;
    bool ok = true;
    for (std::size_t k = 0; k < group.size(); ++k) {
      auto it = ev.find(group[k]);
      if (it != ev.end() && it->second != c[k])
        ok = false;
      ev2[group[k]] = c[k];
    }
    double v = -std::numeric_limits<double>::infinity();
    if (ok) {
      auto R = Ref(s, ev2).run(false);
      v = R.possible ? R.logz : v;
    }
    lz.push_back(v);
    best = std::max(best, v);
    std::size_t k = c.size();
    while (k > 0) {
      if (++c[k - 1] < static_cast<std::size_t>(s.sz[static_cast<std::size_t>(group[k - 1])]))
        break;
      c[k - 1] = 0;
      --k;
    }
    if (k == 0)
      break;
  }
  possible = best > -std::numeric_limits<double>::infinity();
  double sum = 0;
  for (auto &v : lz) {
    v = possible ? std::exp(v - best) : 0;
    sum += v;
  }
  if (possible)
    for (auto &v : lz)
      v /= sum;
  return lz;
}
} // namespace vf
