// C11: invalid operations are refused and change nothing
#include "cond.hpp"
#include "content.hpp"
#include "ops.hpp"

#include <EasyFactorGraph/structure/BaselineLoopyPropagator.h>
using namespace vf;
static std::size_t U(long x) { return static_cast<std::size_t>(x); }

// everything the user may ask
struct Answers {
  std::vector<std::vector<float>> marg;
  std::vector<std::size_t> map, mapset;
  std::vector<std::vector<float>> joint;
};

template <typename M> static Answers answersOf(M &m, Rng &r) {
  Answers a;
  (void)r;
  auto vars = m.getAllVariables();
  for (auto &v : vars)
    a.marg.push_back(m.getMarginalDistribution(v));
  if (vars.size() >= 2)
    a.joint.push_back(m.getJointMarginalDistribution(Group{VariablesSoup{vars.front(), vars.back()}}).getProbabilities());
  return a;
}

static void same(const Answers &a, const Answers &b, double tol, const std::string &what) {
  require(a.marg.size() == b.marg.size(), "answers-changed", what, ": number of variables");
  for (std::size_t k = 0; k < a.marg.size(); ++k) {
    require(a.marg[k].size() == b.marg[k].size(), "answers-changed", what);
    for (std::size_t i = 0; i < a.marg[k].size(); ++i)
      require(std::fabs(a.marg[k][i] - b.marg[k][i]) <= tol, "answers-changed", what, ": variable ", k, " had ",
              vec(a.marg[k]), " now ", vec(b.marg[k]));
  }
  require(a.joint.size() == b.joint.size(), "answers-changed", what);
  for (std::size_t k = 0; k < a.joint.size(); ++k)
    for (std::size_t i = 0; i < a.joint[k].size(); ++i)
      require(std::fabs(a.joint[k][i] - b.joint[k][i]) <= tol, "answers-changed", what, ": joint had ", vec(a.joint[k]),
              " now ", vec(b.joint[k]));
}

struct Thrower : public EFG::strct::LoopyBeliefPropagationStrategy {
  EFG::strct::BaselineLoopyPropagator base;
  bool &armed;
  explicit Thrower(bool &a) : armed(a) {}
  bool propagateBelief(EFG::strct::HiddenCluster &subject, EFG::strct::PropagationKind kind,
                       const EFG::strct::PropagationContext &context, EFG::strct::Pool &pool) override {
    if (armed)
      throw std::runtime_error("strategy failure");
    return base.propagateBelief(subject, kind, context, pool);
  }
};

// names of the invalid operations, each returning what should throw (empty
// when it can't be done now)
struct Op {
  std::string name;
  std::function<void()> call;
};

template <typename M> static std::vector<Op> evidenceOps(World<M> &w) {
  Rng &r = w.r;
  M &m = *w.m;
  std::vector<Op> ops;
  auto unknown = EFG::categoric::make_variable(U(r.ri(1, 4)), "nobody knows me");
  ops.push_back({"evidence of an unknown variable", [&m, unknown]() { m.setEvidence(unknown, 0); }});
  ops.push_back({"evidence of an unknown name", [&m]() { m.setEvidence("nobody knows me", 0); }});
  ops.push_back({"evidence of an empty name", [&m]() { m.setEvidence("", 0); }});
  ops.push_back({"removal of an unknown variable", [&m, unknown]() { m.removeEvidence(unknown); }});
  ops.push_back({"removal of an unknown name", [&m]() { m.removeEvidence("nobody knows me"); }});
  ops.push_back({"removal of unknown names", [&m]() { m.removeEvidences(std::unordered_set<std::string>{"nobody"}); }});
  if (w.present.empty())
    return ops;
  int v = r.pick(w.present);
  auto var = w.l.var[U(v)];
  auto name = w.full.nm[U(v)];
  auto other = EFG::categoric::make_variable(var->size() + U(r.ri(1, 3)), name);
  ops.push_back({"evidence of a variable with another size", [&m, other]() { m.setEvidence(other, other->size() - 1); }});
  std::size_t out = r.p(0.5) ? var->size() : (r.p(0.5) ? var->size() + U(r.ri(1, 5)) : r.pick(std::vector<std::size_t>{~0ULL, 1ULL << 32, 1ULL << 63}));
  ops.push_back({"evidence out of domain", [&m, var, out]() { m.setEvidence(var, out); }});
  ops.push_back({"evidence out of domain by name", [&m, name, out]() { m.setEvidence(name, out); }});
  std::vector<int> hidden, obs;
  for (int p : w.present)
    (w.cur.ev.count(p) ? obs : hidden).push_back(p);
  if (!hidden.empty()) {
    int h = r.pick(hidden);
    auto hv = w.l.var[U(h)];
    auto hn = w.full.nm[U(h)];
    ops.push_back({"removal of an hidden variable", [&m, hv]() { m.removeEvidence(hv); }});
    ops.push_back({"removal of an hidden name", [&m, hn]() { m.removeEvidence(hn); }});
    VariablesSet set{hv};
    std::unordered_set<std::string> names{hn};
    for (int o : obs)
      if (r.p(0.7)) {
        set.emplace(w.l.var[U(o)]);
        names.emplace(w.full.nm[U(o)]);
      }
    ops.push_back({"removal of a set with an hidden variable", [&m, set]() { m.removeEvidences(set); }});
    ops.push_back({"removal of names with an hidden one", [&m, names]() { m.removeEvidences(names); }});
  }
  {
    VariablesSet set{unknown};
    std::unordered_set<std::string> names{"nobody knows me"};
    for (int o : obs)
      if (r.p(0.7)) {
        set.emplace(w.l.var[U(o)]);
        names.emplace(w.full.nm[U(o)]);
      }
    ops.push_back({"removal of a set with an unknown variable", [&m, set]() { m.removeEvidences(set); }});
    ops.push_back({"removal of names with an unknown one", [&m, names]() { m.removeEvidences(names); }});
  }
  return ops;
}

template <typename M> static std::vector<Op> queryOps(World<M> &w) {
  Rng &r = w.r;
  M &m = *w.m;
  std::vector<Op> ops;
  auto unknown = EFG::categoric::make_variable(U(r.ri(1, 4)), "nobody knows me");
  ops.push_back({"marginal of an unknown variable", [&m, unknown]() { m.getMarginalDistribution(unknown); }});
  ops.push_back({"marginal of an unknown name", [&m]() { m.getMarginalDistribution("nobody knows me"); }});
  ops.push_back({"map of an unknown variable", [&m, unknown]() { m.getMAP(unknown); }});
  ops.push_back({"map of an unknown name", [&m]() { m.getMAP("nobody knows me"); }});
  ops.push_back({"find of an unknown name", [&m]() { m.findVariable("nobody knows me"); }});
  ops.push_back({"joint of no names", [&m]() { m.getJointMarginalDistribution(std::vector<std::string>{}); }});
  ops.push_back({"joint of an unknown variable", [&m, unknown]() { m.getJointMarginalDistribution(Group{unknown}); }});
  ops.push_back({"null strategy", [&m]() { m.setLoopyPropagationStrategy(nullptr); }});
  if (w.present.empty())
    return ops;
  int v = r.pick(w.present);
  auto var = w.l.var[U(v)];
  auto name = w.full.nm[U(v)];
  bool first = r.p(0.5);
  ops.push_back({"joint with an unknown variable", [&m, unknown, var, first]() {
                   m.getJointMarginalDistribution(first ? Group{unknown, var} : Group{var, unknown});
                 }});
  ops.push_back({"joint with an unknown name", [&m, name]() {
                   m.getJointMarginalDistribution(std::vector<std::string>{name, "nobody knows me"});
                 }});
  ops.push_back({"joint with a name twice",
                 [&m, name]() { m.getJointMarginalDistribution(std::vector<std::string>{name, name}); }});
  auto other = EFG::categoric::make_variable(var->size() + 1, name);
  ops.push_back({"marginal of a variable with another size", [&m, other]() { m.getMarginalDistribution(other); }});
  ops.push_back({"joint of a variable with another size", [&m, other]() { m.getJointMarginalDistribution(Group{other}); }});
  if (!m.hasPropagationResult()) {
    ops.push_back({"marginal with no threads", [&m, var]() { m.getMarginalDistribution(var, 0); }});
    ops.push_back({"map with no threads", [&m, name]() { m.getMAP(name, 0); }});
    ops.push_back({"map of all with no threads", [&m]() { m.getHiddenSetMAP(0); }});
    ops.push_back({"joint with no threads", [&m, var]() { m.getJointMarginalDistribution(Group{var}, 0); }});
  }
  ops.push_back({"samples with no threads", [&m]() {
                   GibbsSampler::SamplesGenerationContext ctx;
                   ctx.samples_number = 3;
                   ctx.delta_iterations = 1;
                   ctx.seed = 1;
                   ctx.transient = 1;
                   m.makeSamples(ctx, 0);
                 }});
  return ops;
}

template <typename M> static std::vector<Op> factorOps(World<M> &w) {
  Rng &r = w.r;
  M &m = *w.m;
  std::vector<Op> ops;
  auto plain = [](const VariablesSoup &vars) {
    auto f = std::make_shared<Factor>(Group{vars});
    f->set(std::vector<std::size_t>(vars.size(), 0), 2.f);
    return f;
  };
  using Maker = std::function<std::shared_ptr<Factor>()>;
  // every bad factor is tried with all the ways to insert it
  auto bad = [&](const std::string &what, Maker make) {
    ops.push_back({"adding " + what, [&m, make]() { m.addConstFactor(make()); }});
    ops.push_back({"copying " + what, [&m, make]() { m.copyConstFactor(*make()); }});
    ops.push_back({"adding as exponential " + what,
                   [&m, make]() { m.addConstFactor(std::make_shared<FactorExponential>(*make(), 0.5f)); }});
    if constexpr (World<M>::TUNABLE) {
      std::optional<VariablesSet> sharing;
      auto cl = tunableClusters(w.cur);
      if (!cl.empty() && r.p(0.5)) {
        sharing.emplace();
        for (int v : w.cur.f[r.pick(r.pick(cl))].v)
          sharing->emplace(w.l.var[U(v)]);
      }
      ops.push_back({"adding as tunable " + what, [&m, make, sharing]() {
                       m.addTunableFactor(std::make_shared<FactorExponential>(*make(), 0.5f), sharing);
                     }});
      ops.push_back({"copying as tunable " + what,
                     [&m, make, sharing]() { m.copyTunableFactor(FactorExponential(*make(), 0.5f), sharing); }});
    }
  };
  ops.push_back({"null factor", [&m]() { m.addConstFactor(nullptr); }});
  if constexpr (World<M>::TUNABLE)
    ops.push_back({"null tunable factor", [&m]() { m.addTunableFactor(nullptr); }});
  auto fresh = [&](const std::string &n) { return EFG::categoric::make_variable(2, "fresh " + n); };
  bad("three new variables", [plain, a = fresh("a"), b = fresh("b"), c = fresh("c")]() { return plain({a, b, c}); });
  if (w.present.empty())
    return ops;
  int v = r.pick(w.present);
  auto var = w.l.var[U(v)];
  bad("three variables, one known", [plain, var, b = fresh("b"), c = fresh("c")]() { return plain({b, var, c}); });
  auto clash = EFG::categoric::make_variable(var->size(), var->name());
  auto clashSize = EFG::categoric::make_variable(var->size() + 1, var->name());
  auto wrong = r.p(0.5) ? clash : clashSize;
  bad("another instance of a variable", [plain, wrong]() { return plain({wrong}); });
  bad("a new variable and another instance", [plain, wrong, b = fresh("b")]() { return plain({b, wrong}); });
  bad("another instance and a new variable", [plain, wrong, b = fresh("b")]() { return plain({wrong, b}); });
  if (w.present.size() > 1) {
    int o = r.pick(w.present);
    if (o != v)
      bad("a known variable and another instance", [plain, wrong, b = w.l.var[U(o)]]() { return plain({b, wrong}); });
  }
  // what is already there
  auto &all = m.getAllFactors();
  std::vector<ImmutablePtr> facs(all.begin(), all.end());
  auto again = r.pick(facs);
  ops.push_back({"the same factor again", [&m, again]() { m.addConstFactor(again); }});
  if constexpr (World<M>::TUNABLE) {
    std::vector<std::shared_ptr<FactorExponential>> tun(m.getTunableFactors().begin(), m.getTunableFactors().end());
    if (!tun.empty()) {
      auto t = r.pick(tun);
      ops.push_back({"the same tunable factor again", [&m, t]() { m.addTunableFactor(t); }});
      VariablesSet set = t->function().vars().getVariablesSet();
      ops.push_back({"the same tunable factor again, sharing", [&m, t, set]() { m.addTunableFactor(t, set); }});
      ops.push_back({"the same tunable factor again, as constant", [&m, t]() { m.addConstFactor(t); }});
    }
  }
  for (int k = 0; k < 3; ++k) {
    auto f = r.pick(facs);
    auto vars = f->function().vars().getVariables();
    if (vars.size() == 2) {
      if (r.p(0.5))
        std::swap(vars[0], vars[1]);
      bad("a second factor for two variables", [plain, vars]() { return plain(vars); });
      break;
    }
  }
  if constexpr (World<M>::TUNABLE) {
    // groups that no tunable factor has
    auto make = [&](VariablesSoup vars) {
      return std::make_shared<FactorExponential>(*plain(vars), 0.5f);
    };
    std::set<std::set<int>> groups;
    for (auto &f : w.cur.f)
      if (f.kind == TUN)
        groups.insert(std::set<int>(f.v.begin(), f.v.end()));
    std::vector<VariablesSet> none{VariablesSet{}, VariablesSet{fresh("a")}};
    none.push_back(VariablesSet{var, fresh("b")});
    if (!groups.count({v}))
      none.push_back(VariablesSet{var});
    for (auto &f : w.cur.f)
      if (f.v.size() == 2 && !groups.count(std::set<int>(f.v.begin(), f.v.end())))
        none.push_back(VariablesSet{w.l.var[U(f.v[0])], w.l.var[U(f.v[1])]});
    auto set = r.pick(none);
    auto one = make({var}), two = make({fresh("c"), var}), three = make({fresh("d")});
    ops.push_back({"unknown sharing group, known variable", [&m, set, one]() { m.addTunableFactor(one, set); }});
    ops.push_back({"unknown sharing group, a new variable", [&m, set, two]() { m.addTunableFactor(two, set); }});
    ops.push_back({"unknown sharing group, new variables", [&m, set, three]() { m.copyTunableFactor(*three, set); }});
  }
  return ops;
}

template <typename M> static std::vector<Op> trainOps(World<M> &w) {
  std::vector<Op> ops;
  if constexpr (World<M>::TUNABLE) {
    Rng &r = w.r;
    M &m = *w.m;
    std::vector<float> wg = m.getWeights();
    auto more = wg, less = wg;
    for (auto &x : more)
      x += 1;
    more.push_back(0.3f);
    ops.push_back({"too many weights", [&m, more]() { m.setWeights(more); }});
    if (!less.empty()) {
      for (auto &x : less)
        x += 1;
      less.resize(r.p(0.5) ? less.size() - 1 : 0);
      ops.push_back({"too few weights", [&m, less]() { m.setWeights(less); }});
    }
    if (!w.present.empty() && w.cur.ev.empty()) {
      // (the evidences are removed by a gradient, here there are none)
      auto ts = std::make_shared<EFG::train::TrainSet>(w.randomCombs(2));
      ops.push_back({"gradient with no threads", [&m, ts]() { m.getWeightsGradient(ts->makeIterator(), 0); }});
    }
    if (!w.present.empty()) {
      auto samples = w.randomCombs(U(r.ri(1, 4)));
      spoilSamples(samples, m.getAllVariables(), r);
      auto ts = std::make_shared<EFG::train::TrainSet>(samples);
      ops.push_back({"gradient of a train set of another model", [&m, ts]() { m.getWeightsGradient(ts->makeIterator()); }});
    }
  }
  return ops;
}

template <typename M> static void history(Ctx &c, GenOpt o) {
  Rng &r = c.rng;
  World<M> w(c, o);
  long n = r.ri(3, 25);
  for (long k = 0; k < n; ++k) {
    w.step();
    if (!r.p(0.4) && k + 1 < n)
      continue;
    // refused operations
    for (long q = r.ri(1, 3); q > 0; --q) {
      std::vector<Op> ops;
      switch (r.ri(0, 9)) {
      case 0:
      case 1:
      case 2:
        ops = evidenceOps(w);
        break;
      case 3:
      case 4:
        ops = queryOps(w);
        break;
      case 5:
      case 6:
      case 7:
      case 8:
        ops = factorOps(w);
        break;
      case 9:
        ops = trainOps(w);
        break;
      }
      if (ops.empty())
        continue;
      Op op = r.pick(ops);
      auto before = contentOf(*w.m);
      auto varsBefore = w.m->getAllVariables();
      // answers are asked before only some times: what was not propagated may remain so
      bool ask = r.p(0.5) && op.name.find("no threads") == std::string::npos;
      // (a new loopy propagation may visit the messages with another order)
      ask = ask && Ref(w.cur, w.cur.ev).all_trees;
      Answers a;
      if (ask)
        a = answersOf(*w.m, r);
      w.note("REFUSED " + op.name);
      bool thrown = false;
      try {
        op.call();
      } catch (const std::exception &) {
        thrown = true;
      }
      require(thrown, "not-refused", op.name);
      auto after = contentOf(*w.m);
      require(before == after, "content-changed", op.name, ": ", before.diff(after));
      require(varsBefore == w.m->getAllVariables(), "content-changed", op.name, ": order of the variables");
      w.checkBookkeeping();
      if (ask)
        same(a, answersOf(*w.m, r), 2e-5, op.name);
      c.st.add("refused");
      c.st.add("op: " + op.name);
      c.nontrivial(hashStr(op.name) ^ signature(w.cur));
    }
    if (r.p(0.5) && w.compareAnswers(3e-5, "answers"))
      c.st.add("answers_compared");
  }
  w.compareAnswers(3e-5, "answers");
}

// a strategy failing in the middle of a propagation
template <typename M> static void failingStrategy(Ctx &c) {
  Rng &r = c.rng;
  GenOpt o;
  o.nmin = 3;
  o.nmax = c.rng.p(0.98) ? 9 : 50;
  o.loops = static_cast<int>(r.ri(1, 4));
  o.range = 1;
  o.zeros = 0;
  World<M> w(c, o);
  w.defaults = false;
  while (w.insert())
    ;
  bool armed = false;
  w.m->setLoopyPropagationStrategy(std::make_unique<Thrower>(armed));
  for (long k = r.ri(2, 8); k > 0; --k) {
    for (long q = r.ri(0, 2); q > 0; --q)
      w.step();
    auto before = contentOf(*w.m);
    Ref ref(w.cur, w.cur.ev);
    bool loopy = !ref.all_trees;
    // the propagation would be needed
    if (w.m->hasPropagationResult() || !loopy) {
      w.compareAnswers(3e-5, "answers");
      continue;
    }
    armed = true;
    bool thrown = false;
    w.note("FAILING propagation");
    try {
      auto v = w.l.var[U(r.pick(w.present))];
      switch (r.ri(0, 2)) {
      case 0:
        w.m->getMarginalDistribution(v);
        break;
      case 1:
        w.m->getMAP(v);
        break;
      case 2:
        w.m->getJointMarginalDistribution(Group{v});
        break;
      }
    } catch (const std::runtime_error &) {
      thrown = true;
    }
    armed = false;
    require(thrown, "failure-hidden", "the exception of the strategy was lost");
    auto after = contentOf(*w.m);
    require(before == after, "content-changed", before.diff(after));
    require(!w.m->hasPropagationResult(), "failed-result", "a failed propagation left a result");
    if (w.compareAnswers(3e-5, "answers"))
      c.st.add("answers_after_failure");
    c.st.add("failed_propagations");
    c.nontrivial(signature(w.cur) ^ 99);
  }
}

static void conditional(Ctx &c) {
  Rng &r = c.rng;
  GenOpt o;
  o.nmin = 2;
  o.nmax = 7;
  o.maxsz = 4;
  o.evs = 1;
  o.evfrac = 0.4;
  CondWorld w{c, r};
  if (!w.make(o))
    return;
  auto &m = *w.m;
  auto before = contentOf(m);
  bool ask = r.p(0.5);
  Answers a;
  if (ask)
    a = answersOf(m, r);
  std::vector<Op> ops;
  std::vector<std::size_t> good;
  auto obs = m.getObservedVariables();
  for (auto &v : obs)
    good.push_back(U(r.ri(0, static_cast<long>(v->size()) - 1)));
  auto more = good, less = good, out = good;
  more.push_back(0);
  less.pop_back();
  {
    std::size_t k = U(r.ri(0, static_cast<long>(out.size()) - 1)), p = 0;
    for (auto &v : obs)
      if (p++ == k)
        out[k] = v->size() + U(r.ri(0, 2));
  }
  ops.push_back({"crf: too many evidences", [&]() { m.setEvidences(more); }});
  ops.push_back({"crf: too few evidences", [&]() { m.setEvidences(less); }});
  ops.push_back({"crf: evidences out of domain", [&]() { m.setEvidences(out); }});
  auto wg = m.getWeights();
  wg.push_back(2.f);
  ops.push_back({"crf: too many weights", [&]() { m.setWeights(wg); }});
  ops.push_back({"crf: unknown name", [&]() { m.getMarginalDistribution("nobody knows me"); }});
  GibbsSampler::SamplesGenerationContext ctx;
  ctx.samples_number = 2;
  ctx.delta_iterations = 1;
  ctx.transient = 1;
  ctx.seed = 3;
  ops.push_back({"crf: train set of a negative percentage", [&]() { m.makeTrainSet(ctx, -0.5f); }});
  ops.push_back({"crf: train set of an undefined percentage", [&]() { m.makeTrainSet(ctx, std::nanf("")); }});
  ops.push_back({"crf: train set of more than all", [&]() { m.makeTrainSet(ctx, 1.2f); }});
  {
    auto samples = w.randomSamples(r.ri(1, 4));
    spoilSamples(samples, m.getAllVariables(), r);
    auto ts = std::make_shared<EFG::train::TrainSet>(samples);
    ops.push_back({"crf: gradient of a train set of another model",
                   [&m, ts]() { m.getWeightsGradient(ts->makeIterator()); }});
  }
  ops.push_back({"crf: samples with no threads", [&]() { m.makeSamples(ctx, 0); }});
  for (long k = r.ri(1, 4); k > 0; --k) {
    Op op = r.pick(ops);
    bool thrown = false;
    try {
      op.call();
    } catch (const std::exception &) {
      thrown = true;
    }
    require(thrown, "not-refused", op.name);
    auto after = contentOf(m);
    require(before == after, "content-changed", op.name, ": ", before.diff(after));
    if (ask)
      same(a, answersOf(m, r), 2e-5, op.name);
    c.st.add("refused");
    c.st.add("op: " + op.name);
    c.nontrivial(hashStr(op.name) ^ signature(w.s));
  }
}

static void run(Ctx &c) {
  Rng &r = c.rng;
  double u = r.uni();
  if (u < 0.1)
    return conditional(c);
  if (u < 0.25) {
    if (r.p(0.4))
      failingStrategy<Graph>(c);
    else
      failingStrategy<RandomField>(c);
    return;
  }
  GenOpt o;
  o.nmin = 1;
  o.nmax = r.p(0.8) ? 6 : 14;
  o.maxsz = 4;
  o.range = 3;
  o.loops = r.p(0.2) ? static_cast<int>(r.ri(1, 3)) : 0;
  if (r.p(0.4))
    history<Graph>(c, o);
  else
    history<RandomField>(c, o);
}
VF_MAIN("C11", run)
