// C21: factor algebra
#include "fac.hpp"
#include <EasyFactorGraph/structure/SpecialFactors.h>
using namespace vf;

struct Item {
  Table t;
  std::unique_ptr<Factor> f;
  std::unique_ptr<FactorExponential> e;
  float w = 0;
  const Immutable &get() const { return e ? static_cast<const Immutable &>(*e) : *f; }
  double value(const Comb &c) const {
    float raw = t.img[t.flat(c)];
    return e ? std::exp(static_cast<double>(w) * raw) : raw;
  }
};

static Item genItem(Rng &r, const VariablesSoup &all, long maxVars, double scales, bool top = false) {
  VariablesSoup v = all;
  r.shuffle(v);
  v.resize(static_cast<std::size_t>(r.ri(1, std::min<long>(maxVars, static_cast<long>(v.size())))));
  Item i{Table(v), std::make_unique<Factor>(Group(v)), nullptr};
  double density = r.pick(std::vector<double>{0.0, 0.2, 0.5, 0.8, 1.0});
  if (r.p(0.6))
    density = 1;
  double scale = r.p(0.35) ? r.uni(-scales, scales) : 0;
  double spread = r.p(0.2) ? scales / 2 : 3;
  if (top && r.p(0.1)) { // the sum is not a float
    scale = 87.2;
    spread = 1.5;
  }
  for (std::size_t k = 0; k < i.t.img.size(); ++k)
    if (r.p(density)) {
      float x = static_cast<float>(std::exp(scale + r.uni(-spread, spread)));
      i.f->set(i.t.comb(k), x);
      i.t.img[k] = x;
    }
  if (r.p(0.3)) {
    i.w = static_cast<float>(r.uni(-1, 1)) * 6.f * std::exp(static_cast<float>(-std::max(0., scale) - spread));
    i.e = std::make_unique<FactorExponential>(*i.f, i.w);
  }
  return i;
}

static void near(double got, double exp, const char *key, const std::string &what) {
  require(std::isfinite(got) && std::fabs(got - exp) <= 2e-5 * std::fabs(exp) + 1e-30, key, what, ": ", got,
          " instead of ", exp);
}

static void checkProbabilities(Ctx &c, const Item &i) {
  auto p = i.get().getProbabilities();
  require(p.size() == i.t.img.size(), "probabilities", p.size(), " values");
  double sum = 0;
  for (std::size_t k = 0; k < p.size(); ++k)
    sum += i.value(i.t.comb(k));
  for (std::size_t k = 0; k < p.size(); ++k) {
    double ex = sum > 0 ? i.value(i.t.comb(k)) / sum : 1.0 / static_cast<double>(p.size());
    near(p[k], ex, "probabilities", vec(i.t.comb(k)));
  }
  c.st.add(sum > 0 ? "probabilities" : "uniform_probabilities");
}

// compared as distributions: the scale of these factors is not meaningful
static void checkDistribution(const Immutable &f, const VariablePtr &var, std::vector<double> ex, const char *key) {
  const auto &v = f.function().vars().getVariables();
  require(v.size() == 1 && v[0] == var, key, "variables");
  double sum = 0;
  for (auto x : ex)
    sum += x;
  auto p = f.getProbabilities();
  require(p.size() == ex.size(), key, p.size(), " values");
  for (std::size_t k = 0; k < p.size(); ++k) {
    double e = sum > 0 ? ex[k] / sum : 1.0 / static_cast<double>(p.size());
    require(std::isfinite(p[k]) && std::fabs(p[k] - e) <= 1e-5, key, "value ", k, ": ", p[k], " instead of ", e);
    // the impossible values remain impossible, whatever the scale
    if (sum > 0 && ex[k] == 0)
      require(f.function().findTransformed({k}) == 0, key, "value ", k, " should be impossible, while has ",
              f.function().findTransformed({k}));
  }
}

// factors obtained fixing, merging and eliminating variables
static void special(Ctx &c) {
  using namespace EFG::factor;
  Rng &r = c.rng;
  auto U = [](long x) { return static_cast<std::size_t>(x); };
  auto A = make_variable(U(r.ri(1, 6)), "A"), B = make_variable(U(r.ri(1, 6)), "B");
  // unaries
  std::vector<Item> un;
  for (long k = r.ri(1, 6); k > 0; --k)
    un.push_back(genItem(r, {A}, 1, 8));
  std::vector<double> merged(A->size(), 1.0);
  auto fold = [&](std::vector<double> &m, const Item &i) {
    double mx = 0;
    for (std::size_t k = 0; k < m.size(); ++k)
      mx = std::max(mx, m[k] *= i.value({k}));
    if (mx > 0)
      for (auto &x : m)
        x /= mx;
  };
  std::vector<const Immutable *> fs;
  for (auto &i : un) {
    fs.push_back(&i.get());
    fold(merged, i);
    c.desc += "unary " + i.t.str() + (i.e ? cat(" exp ", i.w, "; ") : "; ");
  }
  MergedUnaries mu(fs);
  require(mu.getVariable() == A, "merged-unaries", "variable");
  checkDistribution(mu, A, merged, "merged-unaries");
  {
    MergedUnaries step(A);
    checkDistribution(step, A, std::vector<double>(A->size(), 1.0), "merged-unaries");
    bool norm = r.p(0.5);
    for (auto &i : un) {
      step.merge(i.get());
      if (norm || un.size() > 3)
        step.normalize();
    }
    checkDistribution(step, A, merged, "merged-unaries");
  }
  // a binary factor
  VariablesSoup order{A, B};
  r.shuffle(order);
  Item b = genItem(r, order, 2, 8, true);
  while (b.t.vars.size() != 2)
    b = genItem(r, order, 2, 8, true);
  c.desc += "binary " + b.t.str() + (b.e ? cat(" exp ", b.w, "; ") : "; ");
  auto at = [&](std::size_t a, std::size_t bb) {
    return b.value(b.t.vars[0] == A ? Comb{a, bb} : Comb{bb, a});
  };
  std::vector<double> sum(B->size(), 0.0), mx(B->size(), 0.0);
  for (std::size_t k = 0; k < B->size(); ++k)
    for (std::size_t a = 0; a < A->size(); ++a) {
      double x = merged[a] * at(a, k);
      sum[k] += x;
      mx[k] = std::max(mx[k], x);
    }
  checkDistribution(MessageSUM(mu, b.get()), B, sum, "sum-out");
  checkDistribution(MessageMAP(mu, b.get()), B, mx, "max-out");
  for (std::size_t a = 0; a < A->size(); ++a) {
    Evidence ev(b.get(), A, a);
    require(ev.getVariable() == B, "fixed-variable", "variable");
    for (std::size_t k = 0; k < B->size(); ++k)
      near(ev.function().findTransformed({k}), at(a, k), "fixed-variable", cat(a, ",", k));
    Indicator in(A, a);
    require(in.getVariable() == A, "indicator", "variable");
    for (std::size_t k = 0; k < A->size(); ++k)
      require(in.function().findTransformed({k}) == (k == a ? 1.f : 0.f), "indicator", "value ", k, " of ", a);
  }
  require(throws([&] { Indicator(A, A->size() + U(r.ri(0, 2))); }), "invalid-indicator-accepted", A->size());
  // invalid factors
  auto C = make_variable(A->size(), "C");
  Item other = genItem(r, {C}, 1, 3);
  require(throws([&] { mu.merge(other.get()); }), "invalid-unary-merge-accepted", "other variable");
  require(throws([&] { mu.merge(b.get()); }), "invalid-unary-merge-accepted", "binary factor");
  checkDistribution(mu, A, merged, "merged-unaries");
  if (r.p(0.5))
    fs.push_back(&other.get());
  else
    fs.push_back(&b.get());
  require(throws([&] { MergedUnaries{fs}; }), "invalid-unary-merge-accepted", "in a set");
  require(throws([&] { MessageSUM(mu, un[0].get()); }) && throws([&] { MessageMAP(mu, un[0].get()); }) &&
              throws([&] { Evidence(un[0].get(), A, 0); }),
          "invalid-binary-accepted", "a unary factor");
  c.st.add("special_factors");
  c.nontrivial(hashStr(c.desc));
}

static void run(Ctx &c) {
  if (c.rng.p(0.25))
    return special(c);
  Rng &r = c.rng;
  auto U = [](long x) { return static_cast<std::size_t>(x); };
  auto all = genVars(r, r.ri(1, 5), 400);
  std::vector<Item> items;
  long n = r.ri(1, 5);
  for (long k = 0; k < n; ++k)
    items.push_back(genItem(r, all, r.p(0.5) ? 2 : 4, n == 1 ? 50 : 8, n == 1));
  if (n > 1 && r.p(0.3)) {
    // the same variables, in another order
    auto &a = items[0];
    VariablesSoup v = a.t.vars;
    r.shuffle(v);
    items[1] = genItem(r, v, static_cast<long>(v.size()), 8);
  }
  for (auto &i : items)
    c.desc += i.t.str() + (i.e ? cat(" exp ", i.w, "; ") : "; ");
  // merge
  {
    std::vector<const Immutable *> fs;
    std::set<std::string> names;
    for (auto &i : items) {
      fs.push_back(&i.get());
      for (auto &v : i.t.vars)
        names.insert(v->name());
    }
    std::unique_ptr<Factor> m;
    if (items.size() == 2 && r.p(0.5))
      m = std::make_unique<Factor>(Factor::merge(items[0].get(), items[1].get()));
    else if (items.size() == 3 && r.p(0.5))
      m = std::make_unique<Factor>(Factor::merge(items[0].get(), items[1].get(), items[2].get()));
    else
      m = std::make_unique<Factor>(fs);
    const auto &mv = m->function().vars().getVariables();
    std::set<std::string> got;
    for (auto &v : mv) {
      got.insert(v->name());
      require(std::count(all.begin(), all.end(), v) == 1, "merge-variables", "instance of ", v->name());
    }
    require(got == names && mv.size() == names.size(), "merge-variables", got.size(), " instead of ", names.size());
    Table t(mv);
    std::size_t nz = 0;
    for (std::size_t k = 0; k < t.img.size(); ++k) {
      auto comb = t.comb(k);
      double ex = 1;
      for (auto &i : items) {
        Comb sub;
        for (auto &v : i.t.vars)
          sub.push_back(comb[U(std::find(mv.begin(), mv.end(), v) - mv.begin())]);
        ex *= i.value(sub);
      }
      nz += ex > 0;
      near(m->function().findImage(comb), ex, "merge-image", vec(comb));
      near(m->function().findTransformed(comb), ex, "merge-image", vec(comb));
    }
    c.st.add("merges");
    c.st.add("merged_images", t.img.size());
    if (items.size() > 1)
      c.nontrivial(hashStr(c.desc));
  }
  for (auto &i : items) {
    auto &t = i.t;
    checkProbabilities(c, i);
    // permutation
    VariablesSoup nv = t.vars;
    r.shuffle(nv);
    {
      auto p = i.f->cloneWithPermutedGroup(Group(nv));
      Table tp(nv);
      for (std::size_t k = 0; k < t.img.size(); ++k) {
        auto comb = t.comb(k);
        Comb pc;
        for (auto &v : nv)
          pc.push_back(comb[U(std::find(t.vars.begin(), t.vars.end(), v) - t.vars.begin())]);
        tp.img[tp.flat(pc)] = t.img[k];
      }
      checkImages(p, tp, same, "permuted-images");
      c.st.add("permutations");
      // back again
      auto q = p.cloneWithPermutedGroup(Group(t.vars));
      checkImages(q, t, same, "permuted-images");
      // equal variables, but not the same instances: when accepted, the images are the same ones
      if (r.p(0.2)) {
        VariablesSoup eq = nv;
        for (auto &v : eq)
          if (r.p(0.7))
            v = make_variable(v->size(), v->name());
        bool thrown = throws([&] {
          auto e = i.f->cloneWithPermutedGroup(Group(eq));
          tp.vars = eq;
          checkImages(e, tp, same, "permuted-images");
        });
        c.st.add(thrown ? "equal_variables_refused" : "equal_variables_permuted");
      }
    }
    {
      VariablesSoup bad = nv;
      switch (r.ri(0, 2)) {
      case 0:
        bad.push_back(make_variable(2, "another"));
        break;
      case 1:
        bad.back() = make_variable(bad.back()->size(), "another");
        break;
      case 2:
        bad.back() = make_variable(bad.back()->size() + 1, bad.back()->name());
        break;
      }
      require(throws([&] { i.f->cloneWithPermutedGroup(Group(bad)); }), "invalid-permutation-accepted", bad.size());
      if (nv.size() > 1) {
        bad = nv;
        bad.pop_back();
        require(throws([&] { i.f->cloneWithPermutedGroup(Group(bad)); }), "invalid-permutation-accepted", "subgroup");
      }
      c.st.add("invalid_permutations_refused");
    }
    // transformed clone
    {
      Factor cl(i.get(), Factor::CloneTrasformedImagesTag{});
      for (std::size_t k = 0; k < t.img.size(); ++k) {
        near(cl.function().findImage(t.comb(k)), i.value(t.comb(k)), "transformed-clone", vec(t.comb(k)));
        require(cl.function().findImage(t.comb(k)) == cl.function().findTransformed(t.comb(k)), "transformed-clone",
                "transformed again");
      }
      require(cl.function().vars().getVariables() == t.vars, "transformed-clone", "variables");
      c.st.add("transformed_clones");
    }
    // finder
    {
      VariablesSoup big = t.vars;
      for (long k = r.ri(0, 3); k > 0; --k)
        big.push_back(make_variable(U(r.ri(1, 4)), cat("extra", k)));
      r.shuffle(big);
      auto fd = i.get().makeFinder(big);
      for (long k = 0; k < 6; ++k) {
        Comb bc, sub;
        for (auto &v : big)
          bc.push_back(U(r.ri(0, static_cast<long>(v->size()) - 1)));
        for (auto &v : t.vars)
          sub.push_back(bc[U(std::find(big.begin(), big.end(), v) - big.begin())]);
        require(fd.findImage(bc) == t.img[t.flat(sub)], "finder", "image of ", vec(bc));
        near(fd.findTransformed(bc), i.value(sub), "finder", cat("transformed of ", vec(bc)));
      }
      auto missing = big;
      missing.erase(std::find(missing.begin(), missing.end(), t.vars[0]));
      require(throws([&] { i.get().makeFinder(missing); }), "invalid-finder-accepted", "");
      c.st.add("finders");
    }
    // exponential
    {
      float w = r.p(0.2) ? 0.f : static_cast<float>(r.uni(-2, 2));
      std::unique_ptr<FactorExponential> e;
      if (r.p(0.2)) {
        w = 1;
        e = std::make_unique<FactorExponential>(*i.f);
      } else
        e = std::make_unique<FactorExponential>(*i.f, w);
      require(e->getWeight() == w, "weight", e->getWeight(), " instead of ", w);
      auto look = [&](const FactorExponential &x, float weight) {
        for (std::size_t k = 0; k < t.img.size(); ++k) {
          auto comb = t.comb(k);
          require(x.function().findImage(comb) == t.img[k], "exponential", "raw image of ", vec(comb));
          double arg = static_cast<double>(weight) * t.img[k];
          if (std::fabs(arg) < 60)
            near(x.function().findTransformed(comb), std::exp(arg), "exponential", vec(comb));
        }
      };
      look(*e, w);
      FactorExponential copy(*e);
      require(copy.getWeight() == w, "weight", "of a copy ", copy.getWeight());
      float w2 = static_cast<float>(r.uni(-2, 2));
      if (r.p(0.5)) {
        e->setWeight(w2);
        require(e->getWeight() == w2 && copy.getWeight() == w, "weight", "copies are not independent");
        look(*e, w2);
        look(copy, w);
      } else {
        copy.setWeight(w2);
        require(e->getWeight() == w && copy.getWeight() == w2, "weight", "copies are not independent");
        look(*e, w);
        look(copy, w2);
      }
      // the generating factor is changed afterwards
      if (r.p(0.3)) {
        auto k = U(r.ri(0, static_cast<long>(t.img.size()) - 1));
        float old = t.img[k];
        i.f->set(t.comb(k), old + 1);
        require(e->function().findImage(t.comb(k)) == old, "exponential", "not independent from the factor");
        i.f->set(t.comb(k), old);
      }
      c.st.add("exponentials");
    }
  }
  // invalid merges
  {
    require(throws([&] { Factor(std::vector<const Immutable *>{}); }), "invalid-merge-accepted", "no factors");
    auto &v = items[0].t.vars[0];
    auto clash = make_variable(v->size() + U(r.ri(0, 1)), v->name());
    Factor other{Group(clash)};
    require(throws([&] { Factor::merge(items[0].get(), other); }), "invalid-merge-accepted", "clash of names");
    c.st.add("invalid_merges_refused");
  }
}
VF_MAIN("C21", run)
