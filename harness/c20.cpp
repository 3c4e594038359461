// C20: factors are maps from combinations to images
#include "fac.hpp"
#include <map>
using namespace vf;

// factors over so many variables that the combinations can't be enumerated:
// only the images set are stored
static void huge(Ctx &c) {
  Rng &r = c.rng;
  auto U = [](long x) { return static_cast<std::size_t>(x); };
  VariablesSoup vars;
  double logTot = 0, goal = r.p(0.3) ? r.uni(60, 70) : r.uni(30, 140); // base 2
  bool same = r.p(0.4);
  long z = r.p(0.5) ? 2 : r.ri(2, 9);
  while (logTot < goal) {
    long s = same ? z : r.p(0.1) ? 1 : r.ri(2, r.p(0.05) ? 70000 : 7);
    vars.push_back(make_variable(U(s), cat("h", vars.size())));
    logTot += std::log2(static_cast<double>(s));
  }
  Group g(vars);
  std::map<Comb, float> ref;
  std::unique_ptr<Factor> f;
  if (same && r.p(0.3)) {
    f = std::make_unique<Factor>(g, Factor::SimplyCorrelatedTag{});
    for (long k = 0; k < z; ++k)
      ref[Comb(vars.size(), U(k))] = 1.f;
    c.st.add("huge_correlated");
  } else
    f = std::make_unique<Factor>(g);
  auto gen = [&] {
    Comb x;
    if (!ref.empty() && r.p(0.6)) {
      // close to one already there
      auto it = ref.begin();
      std::advance(it, r.ri(0, static_cast<long>(ref.size()) - 1));
      x = it->first;
      auto p = U(r.ri(0, static_cast<long>(x.size()) - 1));
      x[p] = U(r.ri(0, static_cast<long>(vars[p]->size()) - 1));
      return x;
    }
    for (auto &v : vars)
      x.push_back(U(r.p(0.2) ? static_cast<long>(v->size()) - 1 : r.ri(0, static_cast<long>(v->size()) - 1)));
    return x;
  };
  auto check = [&](const Factor &s, const std::map<Comb, float> &m, const VariablesSoup &vs, const char *key) {
    const auto &fn = s.function();
    require(fn.vars().getVariables().size() == vs.size(), key, "number of variables");
    for (std::size_t k = 0; k < vs.size(); ++k)
      require(fn.vars().getVariables()[k].get() == vs[k].get(), key, "variable at position ", k);
    for (auto &[x, v] : m)
      require(fn.findImage(x) == v && fn.findTransformed(x) == v, key, "image of ", vec(x), " is ", fn.findImage(x),
              " instead of ", v);
    std::map<Comb, float> seen;
    fn.forEachNonNullCombination<false>([&](const Comb &x, float v) {
      require(seen.emplace(x, v).second, key, vec(x), " visited twice");
      auto it = m.find(x);
      require((it == m.end() ? 0.f : it->second) == v, key, "visited ", vec(x), " with ", v);
    });
    for (auto &[x, v] : m)
      require(v == 0 || seen.count(x), key, vec(x), " with ", v, " not visited");
    auto finder = s.makeFinder(vs);
    for (auto &[x, v] : m)
      require(finder.findImage(x) == v, key, "finder on ", vec(x), ": ", finder.findImage(x), " instead of ", v);
    for (int k = 0; k < 10; ++k) {
      auto x = gen();
      auto it = m.find(x);
      require(fn.findImage(x) == (it == m.end() ? 0.f : it->second), key, "image of ", vec(x), " is ", fn.findImage(x));
    }
  };
  check(*f, ref, vars, "initial-images");
  long ops = r.p(0.2) ? r.ri(100, 500) : r.ri(5, 60);
  for (long k = 0; k < ops; ++k) {
    double u = r.uni();
    if (u < 0.85) {
      auto x = gen();
      float v = genImage(r);
      f->set(x, v);
      ref[x] = v;
      c.st.add("huge_sets");
    } else if (u < 0.92) {
      auto x = gen();
      auto p = U(r.ri(0, static_cast<long>(x.size()) - 1));
      x[p] = vars[p]->size();
      require(throws([&] { f->set(x, 1.f); }), "invalid-set-accepted", vec(x));
    } else if (u < 0.93) {
      f->clear();
      ref.clear();
    } else if (u < 0.95) {
      auto copy = std::make_unique<Factor>(*f);
      std::swap(copy, f);
      copy->clear();
    } else if (u < 0.96) {
      VariablesSoup nv;
      for (auto &v : vars)
        nv.push_back(make_variable(v->size(), v->name() + "_"));
      f->replaceVariables(nv);
      vars = nv;
    } else
      check(*f, ref, vars, "images");
  }
  check(*f, ref, vars, "images");
  c.desc = cat("huge: ", vars.size(), " variables, 2^", logTot, " combinations, ", ref.size(), " images");
  c.st.add("huge_factors");
  c.nontrivial(hashStr(cat(c.desc, ops)));
}

static void run(Ctx &c) {
  Rng &r = c.rng;
  if (r.p(0.1))
    return huge(c);
  auto U = [](long x) { return static_cast<std::size_t>(x); };
  auto vars = genVars(r, r.ri(1, 5), r.p(0.05) ? 3000 : 150);
  if (r.p(0.25)) {
    // all with the same size
    long z = r.ri(1, 5), k = 0;
    for (auto &v : vars)
      v = make_variable(U(vars.size() > 3 ? std::min(z, 3L) : z), cat("v", k++));
  }
  Group g(vars);
  Table t(vars);
  std::string log;
  std::vector<std::pair<std::unique_ptr<Factor>, Table>> others; // copies that should not change
  std::unique_ptr<Factor> f;
  bool sameSize = true;
  for (auto &v : vars)
    sameSize = sameSize && v->size() == vars[0]->size();
  bool can = vars.size() > 1 && sameSize;
  long kind = r.ri(0, can ? 3 : 5);
  if (kind <= 1 && !can) {
    bool thrown = throws([&] {
      if (kind)
        Factor(g, Factor::SimplyCorrelatedTag{});
      else
        Factor(g, Factor::SimplyAntiCorrelatedTag{});
    });
    require(thrown, "invalid-correlation-accepted", vars.size(), " variables");
    c.st.add("invalid_correlations_refused");
    kind = 5;
  }
  if (kind <= 1) {
    if (kind)
      f = std::make_unique<Factor>(g, Factor::SimplyCorrelatedTag{});
    else
      f = std::make_unique<Factor>(g, Factor::SimplyAntiCorrelatedTag{});
    for (std::size_t k = 0; k < t.img.size(); ++k) {
      auto x = t.comb(k);
      bool eq = std::count(x.begin(), x.end(), x[0]) == static_cast<long>(x.size());
      t.img[k] = (eq == (kind == 1)) ? 1.f : 0.f;
    }
    c.st.add(kind ? "correlated" : "anti_correlated");
  } else
    f = std::make_unique<Factor>(g);
  checkImages(*f, t, same, "initial-images");
  long ops = r.p(0.2) ? r.ri(50, 400) : r.ri(1, 40);
  if (t.img.size() > 500)
    ops = std::min(ops * 10, 3000L);
  double every = t.img.size() > 500 ? 0.005 : 0.15;
  bool focus = r.p(0.3); // the same few combinations set again and again
  std::size_t window = focus ? U(r.ri(1, 7)) : t.img.size();
  for (long k = 0; k < ops; ++k) {
    double u = r.uni();
    if (u < 0.80) {
      std::size_t p = U(r.ri(0, static_cast<long>(std::min(window, t.img.size())) - 1));
      float v = genImage(r);
      f->set(t.comb(p), v);
      t.img[p] = v;
      log += 's';
      c.st.add("sets");
    } else if (u < 0.9) {
      // refused
      auto x = t.comb(U(r.ri(0, static_cast<long>(t.img.size()) - 1)));
      float v = genImage(r);
      switch (r.ri(0, 3)) {
      case 0:
        v = r.p(0.5) ? -1e-6f : -v - 1.f;
        break;
      case 1: {
        auto p = U(r.ri(0, static_cast<long>(x.size()) - 1));
        x[p] = vars[p]->size() + (r.p(0.5) ? 0 : U(r.ri(1, 1000)));
        if (r.p(0.1))
          x[p] = static_cast<std::size_t>(-1);
        break;
      }
      case 2:
        x.push_back(0);
        break;
      case 3:
        x.pop_back();
        break;
      }
      require(throws([&] { f->set(x, v); }), "invalid-set-accepted", vec(x), " -> ", v);
      log += 'x';
      c.st.add("invalid_sets_refused");
    } else if (u < 0.92) {
      f->clear();
      std::fill(t.img.begin(), t.img.end(), 0.f);
      log += 'c';
      c.st.add("clears");
    } else if (u < 0.95) {
      auto copy = std::make_unique<Factor>(*f);
      checkImages(*copy, t, same, "copy");
      if (r.p(0.5))
        std::swap(copy, f);
      if (others.size() < 4)
        others.emplace_back(std::move(copy), t);
      log += 'k';
      c.st.add("copies");
    } else if (u < 0.98) {
      VariablesSoup nv;
      bool bad = r.p(0.3);
      for (std::size_t j = 0; j < vars.size(); ++j)
        nv.push_back(make_variable(vars[j]->size(), cat("r", k, "_", j)));
      if (bad) {
        switch (r.ri(0, 2)) {
        case 0:
          nv.pop_back();
          break;
        case 1:
          nv.back() = make_variable(nv.back()->size() + 1, "bigger");
          break;
        case 2:
          if (nv.size() > 1 && nv[0]->size() == nv[1]->size())
            nv[0] = nv[1];
          else
            nv.push_back(make_variable(2, "more"));
          break;
        }
      }
      bool thrown = throws([&] { f->replaceVariables(nv); });
      require(thrown == bad, bad ? "invalid-replace-accepted" : "valid-refused", "replaceVariables");
      if (!bad) {
        vars = nv;
        t.vars = nv;
        c.st.add("replaced");
      }
      log += 'r';
    } else {
      // exponential made from this one
      float w = static_cast<float>(r.uni(-1, 1));
      FactorExponential e(*f, w);
      auto tr = [w](float x) { return expf(w * x); };
      Table te = t;
      checkImages(e, te, tr, "exponential-images");
      log += 'e';
      c.st.add("exponentials");
    }
    if (r.p(every))
      checkImages(*f, t, same, "images");
  }
  checkImages(*f, t, same, "images");
  for (auto &[o, to] : others)
    checkImages(*o, to, same, "copy-not-independent");
  c.desc = t.str() + " " + log.substr(0, 500);
  std::size_t nz = 0;
  for (auto v : t.img)
    nz += v != 0;
  c.st.add(nz * 2 >= t.img.size() ? "ended_mostly_full" : "ended_mostly_empty");
  c.nontrivial(hashStr(c.desc));
}
VF_MAIN("C20", run)
