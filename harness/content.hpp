// Everything a model contains, as text that can be compared
#pragma once
#include "gen.hpp"

namespace vf {
inline std::string hexf(float v) {
  char b[40];
  std::snprintf(b, sizeof b, "%a", v == 0 ? 0.0 : static_cast<double>(v)); // -0 is 0
  return b;
}

inline std::string describeFactor(const Immutable &f, bool transformed = false) {
  std::string s;
  auto *e = dynamic_cast<const FactorExponential *>(&f);
  if (!transformed)
    s += e ? "exp w=" + hexf(e->getWeight()) : std::string("plain");
  for (auto &v : f.function().vars().getVariables())
    s += cat(" {", v->name(), "}:", v->size());
  s += " ->";
  auto add = [&](const std::vector<std::size_t> &, float img) { s += " " + hexf(img); };
  if (transformed)
    f.function().forEachCombination<true>(add);
  else
    f.function().forEachCombination<false>(add);
  return s;
}

struct Content {
  std::vector<std::string> vars, evs, consts;
  std::vector<std::vector<std::string>> clusters; // in order
  std::vector<float> weights;
  bool operator==(const Content &o) const {
    return vars == o.vars && evs == o.evs && consts == o.consts && clusters == o.clusters && weights == o.weights;
  }
  std::string diff(const Content &o) const {
    std::string r;
    auto list = [&](const char *n, const std::vector<std::string> &a, const std::vector<std::string> &b) {
      if (a == b)
        return;
      r += cat(n, " differ: ");
      for (auto &x : a)
        if (!std::count(b.begin(), b.end(), x))
          r += "-<" + x + "> ";
      for (auto &x : b)
        if (!std::count(a.begin(), a.end(), x))
          r += "+<" + x + "> ";
      if (a.size() != b.size())
        r += cat(a.size(), " vs ", b.size(), " ");
    };
    list("variables", vars, o.vars);
    list("evidences", evs, o.evs);
    list("const factors", consts, o.consts);
    if (clusters != o.clusters) {
      std::vector<std::string> a, b;
      for (auto &x : clusters)
        a.push_back(vec(x));
      for (auto &x : o.clusters)
        b.push_back(vec(x));
      r += "(clusters, or their order) ";
      list("clusters", a, b);
    }
    if (weights != o.weights)
      r += "weights " + vec(weights) + " vs " + vec(o.weights);
    return r.substr(0, 3000);
  }
};

template <typename M> Content contentOf(const M &m, bool transformedConsts = false) {
  Content c;
  for (auto &v : m.getAllVariables())
    c.vars.push_back(cat("{", v->name(), "}:", v->size()));
  std::sort(c.vars.begin(), c.vars.end());
  for (auto &[v, x] : m.getEvidences())
    c.evs.push_back(cat("{", v->name(), "}=", x));
  std::sort(c.evs.begin(), c.evs.end());
  for (auto &f : m.getConstFactors())
    c.consts.push_back(describeFactor(*f, transformedConsts));
  std::sort(c.consts.begin(), c.consts.end());
  if constexpr (std::is_base_of_v<EFG::train::FactorsTunableGetter, M>) {
    for (auto &cl : m.getTunableClusters()) {
      std::vector<std::string> e;
      if (auto *one = std::get_if<EFG::train::FactorExponentialPtr>(&cl))
        e.push_back(describeFactor(**one));
      else
        for (auto &f : std::get<EFG::train::TunableClusters>(cl))
          e.push_back(describeFactor(*f));
      c.clusters.push_back(e);
    }
    c.weights = m.getWeights();
  }
  return c;
}
} // namespace vf
