// C17: weights and sharing groups
#include "grad.hpp"
using namespace vf;
static std::size_t U(long x) { return static_cast<std::size_t>(x); }
using EFG::train::FactorExponentialPtr;
using EFG::train::TunableClusters;

struct Shadow {
  std::vector<std::vector<FactorExponentialPtr>> clusters;
  std::vector<float> w;
};

static float anyWeight(Rng &r) {
  switch (r.ri(0, 6)) {
  case 0:
    return 0.f;
  case 1:
    return -0.f;
  case 2:
    return r.p(0.5) ? 1e-40f : -3e-39f;
  case 3:
    return r.p(0.5) ? 1e20f : -1e20f;
  case 4:
    return 1.f;
  default:
    return static_cast<float>(r.uni(-3, 3));
  }
}

static bool same(float a, float b) { return std::memcmp(&a, &b, 4) == 0; }

static void check(Ctx &c, const RandomField &m, const Shadow &s) {
  auto w = m.getWeights();
  require(w.size() == s.w.size(), "weights-count", w.size(), " instead of ", s.w.size());
  for (std::size_t k = 0; k < w.size(); ++k)
    require(same(w[k], s.w[k]), "weight", "group ", k, " has ", w[k], " instead of ", s.w[k]);
  auto cl = m.getTunableClusters();
  require(cl.size() == s.clusters.size(), "clusters-count", cl.size(), " instead of ", s.clusters.size());
  std::set<const void *> seen;
  std::size_t tot = 0;
  for (std::size_t k = 0; k < cl.size(); ++k) {
    std::vector<FactorExponentialPtr> got;
    if (auto *one = std::get_if<FactorExponentialPtr>(&cl[k]))
      got.push_back(*one);
    else {
      got = std::get<TunableClusters>(cl[k]);
      require(got.size() >= 2, "clusters", "group of ", got.size());
    }
    require(got == s.clusters[k], "clusters", "group ", k, " has ", got.size(), " factors instead of ",
            s.clusters[k].size(), ", or others");
    for (auto &f : got) {
      require(seen.insert(f.get()).second, "clusters", "factor in two groups");
      require(m.getTunableFactors().count(f) == 1, "clusters", "not a tunable factor");
      require(same(f->getWeight(), s.w[k]), "weight-of-factor", "group ", k, ": ", f->getWeight(), " instead of ", s.w[k]);
      ++tot;
    }
  }
  require(m.getTunableFactors().size() == tot, "tunable-factors", m.getTunableFactors().size(), " instead of ", tot);
  c.st.add("checks");
}

// pointers and groups, whatever the weights
static void pointers(Ctx &c) {
  Rng &r = c.rng;
  int n = static_cast<int>(r.ri(2, 9));
  std::vector<VariablePtr> v;
  for (int k = 0; k < n; ++k)
    v.push_back(EFG::categoric::make_variable(U(r.ri(1, 4)), cat("v", k)));
  RandomField m;
  Shadow s;
  std::vector<std::vector<int>> groups; // of the inserted tunables
  std::vector<std::pair<std::size_t, std::set<int>>> owners; // cluster, variables
  std::set<std::set<int>> pairs;
  std::string log;
  auto count = [&](const std::set<int> &g) {
    long q = 0;
    for (auto &o : owners)
      q += o.second == g;
    return q;
  };
  for (long k = r.ri(3, 25); k > 0; --k) {
    double u = r.uni();
    if (u < 0.6) {
      std::vector<int> g{static_cast<int>(r.ri(0, n - 1))};
      if (r.p(0.6)) {
        int b = static_cast<int>(r.ri(0, n - 1));
        if (b != g[0])
          g.push_back(b);
      }
      std::set<int> gs(g.begin(), g.end());
      if (g.size() == 2 && !pairs.insert(gs).second)
        continue;
      EFG::categoric::VariablesSoup soup;
      for (int x : g)
        soup.push_back(v[U(x)]);
      Factor shape{Group{soup}};
      shape.set(std::vector<std::size_t>(g.size(), 0), static_cast<float>(r.uni(0, 1)));
      auto f = std::make_shared<FactorExponential>(shape, anyWeight(r));
      std::optional<EFG::categoric::VariablesSet> share;
      std::size_t cl = s.clusters.size();
      if (!owners.empty() && r.p(0.6)) {
        auto &o = r.pick(owners);
        if (count(o.second) == 1) {
          share.emplace();
          for (int x : o.second)
            share->emplace(v[U(x)]);
          cl = o.first;
        }
      }
      bool copy = r.p(0.3);
      log += cat(copy ? "copy" : "add", vec(g), share ? "shared" : "", cl, "; ");
      float fw = f->getWeight();
      if (copy) {
        auto before = m.getTunableFactors();
        m.copyTunableFactor(*f, share);
        require(same(f->getWeight(), fw), "copied-factor-altered", "weight");
        FactorExponentialPtr added;
        for (auto &x : m.getTunableFactors())
          if (!before.count(x))
            added = x;
        require(added && added != f, "copied-factor", "not found");
        f = added;
      } else
        m.addTunableFactor(f, share);
      if (cl == s.clusters.size()) {
        s.clusters.push_back({f});
        s.w.push_back(fw);
      } else {
        s.clusters[cl].push_back(f);
        c.st.add("joined");
      }
      owners.emplace_back(cl, gs);
      c.st.add("insertions");
    } else if (u < 0.85) {
      std::vector<float> w;
      for (std::size_t q = 0; q < s.w.size(); ++q)
        w.push_back(r.p(0.7) ? anyWeight(r) : s.w[q]);
      log += "weights; ";
      m.setWeights(w);
      s.w = w;
      c.st.add("settings");
    } else if (u < 0.9) {
      log += "ones; ";
      EFG::train::set_ones(m);
      for (auto &x : s.w)
        x = 1.f;
    } else if (u < 0.95) {
      // refused
      auto w = s.w;
      if (r.p(0.5) || w.empty())
        w.push_back(3);
      else
        w.pop_back();
      for (auto &x : w)
        x += 1;
      bool thrown = false;
      try {
        m.setWeights(w);
      } catch (const std::exception &) {
        thrown = true;
      }
      require(thrown, "wrong-number-accepted", w.size(), " weights for ", s.w.size(), " groups");
      c.st.add("settings_refused");
    } else if (!m.getAllVariables().empty()) {
      auto x = r.pick(m.getAllVariables());
      if (m.getEvidences().count(x))
        m.removeEvidence(x);
      else
        m.setEvidence(x, 0);
    }
    c.desc = log;
    check(c, m, s);
  }
  if (s.clusters.size())
    c.nontrivial(hashStr(log) ^ static_cast<std::uint64_t>(c.id));
}

// answers and gradients use the current weights
static void uses(Ctx &c) {
  Rng &r = c.rng;
  GenOpt o;
  o.nmin = 1;
  o.nmax = r.p(0.98) ? 7 : 40;
  o.maxsz = 4;
  o.range = 4;
  o.exps = false;
  o.zeros = 0;
  World<RandomField> w(c, o);
  while (w.insert()) {
    if (r.p(0.3)) {
      w.setWeights();
      w.compareAnswers(3e-5, "answers");
    }
    if (r.p(0.2))
      w.setEvidence();
  }
  long compared = 0;
  for (long k = r.ri(2, 6); k > 0; --k) {
    w.setWeights();
    w.checkBookkeeping();
    if (r.p(0.3))
      w.setEvidence();
    if (r.p(0.2))
      w.removeEvidence();
    compared += w.compareAnswers(3e-5, "answers");
    if (r.p(0.4)) {
      EFG::train::TrainSet ts(w.randomCombs(U(r.ri(1, 4))));
      auto it = ts.makeIterator();
      auto ref = refGradient(w.cur, samplesOf(it, *w.m, w.l), nullptr);
      auto g = w.m->getWeightsGradient(it);
      w.cur.ev.clear();
      if (ref.decidable) {
        compareGradient(c, g, ref, it.size(), "gradient");
        c.st.add("gradients");
      }
      compared += w.compareAnswers(3e-5, "answers");
    }
  }
  if (compared && !tunableClusters(w.cur).empty())
    c.nontrivial(signature(w.full) ^ hashStr(w.log));
}

static void run(Ctx &c) {
  if (c.rng.p(0.5))
    pointers(c);
  else
    uses(c);
}
VF_MAIN("C17", run)
