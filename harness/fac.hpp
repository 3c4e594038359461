// Factors of any number of variables next to a reference table.
#pragma once
#include "common.hpp"
#include <EasyFactorGraph/factor/Factor.h>
#include <EasyFactorGraph/factor/FactorExponential.h>
#include <EasyFactorGraph/factor/ImageFinder.h>

namespace vf {
using EFG::categoric::Group;
using EFG::categoric::make_variable;
using EFG::categoric::VariablePtr;
using EFG::categoric::VariablesSoup;
using EFG::factor::Factor;
using EFG::factor::FactorExponential;
using EFG::factor::Immutable;
using Comb = std::vector<std::size_t>;

struct Table {
  VariablesSoup vars;
  std::vector<float> img; // row major

  std::size_t flat(const Comb &c) const {
    std::size_t f = 0;
    for (std::size_t k = 0; k < c.size(); ++k)
      f = f * vars[k]->size() + c[k];
    return f;
  }
  Comb comb(std::size_t f) const {
    Comb c(vars.size());
    for (std::size_t k = c.size(); k-- > 0;) {
      c[k] = f % vars[k]->size();
      f /= vars[k]->size();
    }
    return c;
  }
  explicit Table(const VariablesSoup &v) : vars(v) {
    std::size_t t = 1;
    for (auto &x : v)
      t *= x->size();
    img.assign(t, 0.f);
  }
  std::string str() const {
    std::string s = "<";
    for (auto &v : vars)
      s += cat(v->name(), ":", v->size(), " ");
    return s + ">" + (img.size() < 60 ? vec(img) : cat("[", img.size(), " images]"));
  }
};

template <typename F> bool throws(F &&f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}

inline float genImage(Rng &r) {
  double u = r.uni();
  if (u < 0.1)
    return 0.f;
  if (u < 0.15)
    return 1.f;
  if (u < 0.2)
    return static_cast<float>(std::exp(r.uni(-30, 30)));
  return static_cast<float>(r.uni(0, 4));
}

inline bool close(float a, float b) { return a == b || std::fabs(a - b) <= 1e-5f * std::fabs(b); }

// everything readable from the factor is compared with the table
template <typename F, typename T>
void checkImages(const F &f, const Table &t, const T &transform, const char *key) {
  const auto &fn = f.function();
  require(fn.vars().getVariables().size() == t.vars.size(), key, "number of variables");
  for (std::size_t k = 0; k < t.vars.size(); ++k)
    require(fn.vars().getVariables()[k].get() == t.vars[k].get(), key, "variable at position ", k);
  require(fn.getInfo().totCombinations == t.img.size(), key, "combinations ", fn.getInfo().totCombinations);
  require(fn.getInfo().sizes.size() == t.vars.size(), key, "sizes");
  for (std::size_t k = 0; k < t.vars.size(); ++k)
    require(fn.getInfo().sizes[k] == t.vars[k]->size(), key, "size at position ", k);
  for (std::size_t k = 0; k < t.img.size(); ++k) {
    auto c = t.comb(k);
    require(fn.findImage(c) == t.img[k], key, "image of ", vec(c), " is ", fn.findImage(c), " instead of ", t.img[k]);
    require(close(fn.findTransformed(c), transform(t.img[k])), key, "transformed of ", vec(c), " is ",
            fn.findTransformed(c), " instead of ", transform(t.img[k]));
  }
  std::size_t pos = 0;
  fn.template forEachCombination<false>([&](const Comb &c, float v) {
    require(pos < t.img.size() && c == t.comb(pos) && v == t.img[pos], key, "iteration at ", pos, ": ", vec(c), " ", v);
    ++pos;
  });
  require(pos == t.img.size(), key, "iterated ", pos, " combinations");
  pos = 0;
  fn.template forEachCombination<true>([&](const Comb &c, float v) {
    require(pos < t.img.size() && c == t.comb(pos) && close(v, transform(t.img[pos])), key, "transformed iteration at ",
            pos, ": ", vec(c), " ", v);
    ++pos;
  });
  require(pos == t.img.size(), key, "iterated ", pos, " combinations");
  std::vector<int> seen(t.img.size(), 0);
  fn.template forEachNonNullCombination<false>([&](const Comb &c, float v) {
    require(c.size() == t.vars.size(), key, "non null iteration");
    auto fl = t.flat(c);
    require(fl < t.img.size() && t.img[fl] == v, key, "non null iteration: ", vec(c), " ", v);
    ++seen[fl];
  });
  for (std::size_t k = 0; k < seen.size(); ++k)
    require(t.img[k] != 0 ? seen[k] == 1 : seen[k] <= 1, key, "non null iteration visits ", seen[k], " times ",
            vec(t.comb(k)), " with image ", t.img[k]);
  std::fill(seen.begin(), seen.end(), 0);
  fn.template forEachNonNullCombination<true>([&](const Comb &c, float v) {
    auto fl = t.flat(c);
    require(fl < t.img.size() && close(v, transform(t.img[fl])), key, "transformed non null iteration: ", vec(c), " ", v);
    ++seen[fl];
  });
  for (std::size_t k = 0; k < seen.size(); ++k)
    require(t.img[k] != 0 ? seen[k] == 1 : seen[k] <= 1, key, "transformed non null iteration visits ", seen[k],
            " times ", vec(t.comb(k)));
}
inline float same(float x) { return x; }

inline VariablesSoup genVars(Rng &r, long n, std::size_t maxTot, const std::string &pre = "v") {
  VariablesSoup s;
  std::size_t tot = 1;
  bool eq = r.p(0.3);
  long z0 = r.ri(1, 5);
  for (long k = 0; k < n; ++k) {
    long z = eq ? z0 : (r.p(0.1) ? 1 : (r.p(0.1) ? r.ri(6, 20) : r.ri(2, 4)));
    if (tot * static_cast<std::size_t>(z) > maxTot)
      z = 1;
    tot *= static_cast<std::size_t>(z);
    s.push_back(make_variable(static_cast<std::size_t>(z), pre + std::to_string(k)));
  }
  return s;
}

// random content, sparse or dense
inline void fill(Rng &r, Factor &f, Table &t) {
  double density = r.pick(std::vector<double>{0.0, 0.1, 0.4, 0.5, 0.6, 1.0});
  std::vector<std::size_t> order(t.img.size());
  for (std::size_t k = 0; k < order.size(); ++k)
    order[k] = k;
  r.shuffle(order);
  for (auto k : order)
    if (r.p(density)) {
      float v = genImage(r);
      f.set(t.comb(k), v);
      t.img[k] = v;
    }
}
} // namespace vf
