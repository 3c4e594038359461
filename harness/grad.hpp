// Reference of the gradients
#pragma once
#include "ops.hpp"

namespace vf {
struct RefGradient {
  std::vector<double> value;
  std::vector<double> scale; // magnitude of the terms, per cluster
  bool decidable = true;
};

inline double rawImage(const Spec &s, const FSpec &f, const std::vector<std::size_t> &a) {
  std::size_t flat = a[static_cast<std::size_t>(f.v[0])];
  if (f.v.size() == 2)
    flat = flat * static_cast<std::size_t>(s.sz[static_cast<std::size_t>(f.v[1])]) + a[static_cast<std::size_t>(f.v[1])];
  return f.img[flat];
}

// expected raw image of a factor, given the evidences
inline double expectedImage(const Spec &s, const FSpec &f, const std::map<int, std::size_t> &ev, const Ref::Result &R) {
  auto U = [](long x) { return static_cast<std::size_t>(x); };
  double res = 0;
  if (f.v.size() == 1) {
    for (std::size_t i = 0; i < f.img.size(); ++i)
      res += R.belief[U(f.v[0])][i] * f.img[i];
    return res;
  }
  std::size_t sb = U(s.sz[U(f.v[1])]);
  bool oa = ev.count(f.v[0]), ob = ev.count(f.v[1]);
  if (oa || ob) {
    for (std::size_t k = 0; k < f.img.size(); ++k)
      res += R.belief[U(f.v[0])][k / sb] * R.belief[U(f.v[1])][k % sb] * f.img[k];
    return res;
  }
  bool possible;
  auto j = refJoint(s, ev, f.v, possible);
  for (std::size_t k = 0; k < f.img.size(); ++k)
    res += j[k] * f.img[k];
  return res;
}

// samples: values of the variables of the specification
inline RefGradient refGradient(const Spec &s, const std::vector<std::vector<std::size_t>> &samples,
                               const std::vector<int> *observed) {
  RefGradient g;
  auto cl = tunableClusters(s);
  g.value.assign(cl.size(), 0.0);
  g.scale.assign(cl.size(), 0.0);
  double n = static_cast<double>(samples.size());
  for (std::size_t k = 0; k < cl.size(); ++k)
    for (auto f : cl[k]) {
      double mx = 0;
      for (auto v : s.f[f].img)
        mx = std::max(mx, static_cast<double>(v));
      g.scale[k] += mx;
    }
  auto beta = [&](const std::map<int, std::size_t> &ev, double coeff) {
    Ref ref(s, ev);
    auto R = ref.run(false);
    if (!R.possible || !ref.all_trees) {
      g.decidable = false;
      return;
    }
    for (std::size_t k = 0; k < cl.size(); ++k)
      for (auto f : cl[k])
        g.value[k] -= coeff * expectedImage(s, s.f[f], ev, R);
  };
  std::map<std::vector<std::size_t>, double> byEvidence;
  for (auto &a : samples) {
    for (std::size_t k = 0; k < cl.size(); ++k)
      for (auto f : cl[k])
        g.value[k] += rawImage(s, s.f[f], a) / n;
    if (observed) {
      std::vector<std::size_t> e;
      for (int v : *observed)
        e.push_back(a[static_cast<std::size_t>(v)]);
      byEvidence[e] += 1 / n;
    }
  }
  if (!observed)
    beta({}, 1);
  else
    for (auto &[e, coeff] : byEvidence) {
      std::map<int, std::size_t> ev;
      for (std::size_t k = 0; k < e.size(); ++k)
        ev[(*observed)[k]] = e[k];
      beta(ev, coeff);
      if (!g.decidable)
        break;
    }
  return g;
}

inline void compareGradient(Ctx &c, const std::vector<float> &got, const RefGradient &ref, std::size_t samples,
                            const char *key) {
  require(got.size() == ref.value.size(), key, got.size(), " values instead of ", ref.value.size());
  for (std::size_t k = 0; k < got.size(); ++k) {
    double tol = (2e-5 + 3e-7 * static_cast<double>(samples)) * (1 + ref.scale[k]);
    double e = std::fabs(got[k] - ref.value[k]);
    c.st.maxi("max_error_over_tolerance", e / tol);
    require(within(e, tol), key, "group ", k, ": got ", vec(got), " expected ", vec(ref.value));
  }
}

// the samples of an iterator, as values of the variables of the specification
template <typename M>
std::vector<std::vector<std::size_t>> samplesOf(const EFG::train::TrainSet::Iterator &it, const M &m, const Live &l) {
  std::vector<std::size_t> pos;
  const auto &vars = m.getAllVariables();
  for (auto &v : l.var)
    pos.push_back(static_cast<std::size_t>(std::find(vars.begin(), vars.end(), v) - vars.begin()));
  std::vector<std::vector<std::size_t>> res;
  it.forEachSample([&](const std::vector<std::size_t> &x) {
    res.emplace_back();
    for (auto p : pos)
      res.back().push_back(p < x.size() ? x[p] : 0);
  });
  return res;
}
} // namespace vf
