// C08: absence of data races (to be run with the thread sanitizer)
#include "ops.hpp"
#include "perturb.hpp"
#include <nlohmann/json.hpp>
#include <EasyFactorGraph/Error.h>
#include <EasyFactorGraph/io/json/Exporter.h>
#include <EasyFactorGraph/io/json/Importer.h>
#include <thread>
using namespace vf;

static GenOpt opt(Ctx &c) {
  GenOpt o;
  o.nmin = 2;
  o.nmax = c.rng.p(0.8) ? 8 : 20;
  o.maxsz = 3;
  o.range = 1;
  o.zeros = 0.1;
  o.loops = c.rng.p(0.5) ? static_cast<int>(c.rng.ri(1, 5)) : 0;
  return o;
}

static GibbsSampler::SamplesGenerationContext sampling(Rng &r) {
  GibbsSampler::SamplesGenerationContext ctx;
  ctx.samples_number = static_cast<std::size_t>(r.ri(1, 4));
  ctx.delta_iterations = static_cast<std::size_t>(r.ri(1, 2));
  ctx.seed = static_cast<std::size_t>(r.ri(0, 1000));
  ctx.transient = static_cast<std::size_t>(r.ri(0, 3));
  return ctx;
}

template <typename M>
static void useModel(M &m, const Spec &s, Live &l, Rng &r, std::size_t t, std::uint64_t &events) {
  for (long k = r.ri(2, 5); k > 0; --k) {
    auto v = static_cast<std::size_t>(r.ri(0, static_cast<long>(s.sz.size()) - 1));
    switch (r.ri(0, 5)) {
    case 0:
      m.getMarginalDistribution(l.var[v], t);
      break;
    case 1:
      m.getMAP(l.var[v], t);
      break;
    case 2:
      m.getHiddenSetMAP(t);
      break;
    case 3:
      m.getJointMarginalDistribution(Group{l.var[v]}, t);
      break;
    case 4:
      m.makeSamples(sampling(r), t);
      break;
    case 5:
      if constexpr (std::is_base_of_v<EFG::train::FactorsTunableGetter, M>) {
        std::vector<std::vector<std::size_t>> combs;
        for (int i = 0; i < 4; ++i) {
          combs.emplace_back();
          for (auto &x : m.getAllVariables())
            combs.back().push_back(
                static_cast<std::size_t>(r.ri(0, static_cast<long>(x->size()) - 1)));
        }
        EFG::train::TrainSet ts(combs);
        auto it = r.p(0.5) ? ts.makeIterator() : ts.makeSubSetIterator(0.8f);
        m.getWeightsGradient(it, t);
      }
      break;
    }
    ++events;
  }
}

// anything done by a thread on models and factors of its own, made with common variables and factors
static void independent(const Spec &s, const Live &l, Rng &r, std::uint64_t &events) {
  auto U = [](long x) { return static_cast<std::size_t>(x); };
  RandomField m;
  for (auto &f : l.fac) {
    if (!f || r.p(0.15))
      continue;
    auto e = std::dynamic_pointer_cast<EFG::factor::FactorExponential>(f);
    if (r.p(0.4))
      m.copyConstFactor(*f);
    else if (e && r.p(0.5)) {
      if (r.p(0.5))
        m.copyTunableFactor(*e);
      else
        m.addTunableFactor(std::make_shared<EFG::factor::FactorExponential>(*e));
    } else
      m.addConstFactor(f);
  }
  if (m.getAllVariables().empty())
    return;
  auto any = [&] { return r.pick(m.getAllVariables()); };
  auto value = [&](const VariablePtr &v) { return U(r.ri(0, static_cast<long>(v->size()) - 1)); };
  for (long k = r.ri(4, 12); k > 0; --k) {
    auto v = any();
    switch (r.ri(0, 10)) {
    case 0:
      m.setEvidence(v, value(v));
      break;
    case 1:
      if (m.getEvidences().count(v))
        m.removeEvidence(v);
      else
        m.setEvidence(v->name(), value(v));
      break;
    case 2: {
      auto w = m.getWeights();
      for (auto &x : w)
        x = static_cast<float>(r.uni(-1, 1));
      m.setWeights(w);
      break;
    }
    case 3:
      m.getMarginalDistribution(v);
      break;
    case 4:
      m.getHiddenSetMAP();
      break;
    case 5: {
      RandomField copy(m);
      copy.getMAP(copy.getAllVariables().front());
      Graph g;
      g.absorb(m, true);
      g.getMarginalDistribution(g.getAllVariables().back());
      break;
    }
    case 6: {
      auto json = EFG::io::json::Exporter::exportToJson(m);
      RandomField back;
      EFG::io::json::Importer::importFromJson(back, json);
      if (back.getAllVariables().size() != m.getAllVariables().size())
        ++events;
      break;
    }
    case 7: {
      // factors
      std::vector<const EFG::factor::Immutable *> fs;
      VariablesSet vs;
      double tot = 1;
      for (auto &f : m.getAllFactors()) {
        for (auto &x : f->function().vars().getVariables())
          if (vs.emplace(x).second)
            tot *= static_cast<double>(x->size());
        fs.push_back(f.get());
        if (tot > 30)
          break;
      }
      Factor merged(fs);
      merged.getProbabilities();
      auto order = merged.function().vars().getVariables();
      r.shuffle(order);
      auto p = merged.cloneWithPermutedGroup(Group(order));
      p.set(std::vector<std::size_t>(order.size(), 0), 1.f);
      auto finder = fs[0]->makeFinder(order);
      finder.findTransformed(std::vector<std::size_t>(order.size(), 0));
      EFG::factor::FactorExponential e(p, 0.3f);
      e.setWeight(0.1f);
      break;
    }
    case 8: {
      std::vector<std::vector<std::size_t>> combs;
      for (int i = 0; i < 5; ++i) {
        combs.emplace_back();
        for (auto &x : m.getAllVariables())
          combs.back().push_back(value(x));
      }
      EFG::train::TrainSet ts(combs);
      m.getWeightsGradient(r.p(0.5) ? ts.makeIterator() : ts.makeSubSetIterator(0.6f));
      break;
    }
    case 9:
      m.makeSamples(sampling(r));
      break;
    case 10: {
      // refused
      try {
        if (r.p(0.5))
          m.setEvidence(v, v->size());
        else
          m.getMarginalDistribution("not there");
      } catch (const std::exception &) {
      }
      auto n = EFG::categoric::make_variable(2, cat("new", k, "_", r.next()));
      m.addConstFactor(std::make_shared<Factor>(Group{v, n}));
      break;
    }
    }
    ++events;
  }
  if (!m.getEvidences().empty() && r.p(0.5)) {
    try {
      ConditionalRandomField crf(m, r.p(0.5));
      crf.makeTrainSet(sampling(r), 0.5f);
      ++events;
    } catch (const EFG::Error &) {
      // tunable factors on observed variables only
    }
  }
  (void)s;
}

static void run(Ctx &c) {
  Spec s = genModel(c.rng, opt(c));
  c.desc = s.str();
  vf::perturb::level = static_cast<std::uint32_t>(c.rng.pick(std::vector<long>{0, 30, 200}));
  Live l;
  RandomField m;
  build(m, s, l, c.rng);
  std::uint64_t events = 0;
  auto t = static_cast<std::size_t>(c.rng.ri(2, 4));
  switch (c.rng.ri(0, 4)) {
  case 4: {
    c.st.add("independent_uses");
    std::vector<std::thread> th;
    std::vector<std::uint64_t> ev(t, 0);
    for (std::size_t k = 0; k < t; ++k) {
      Rng r(c.rng.next());
      th.emplace_back([&, k, r]() mutable { independent(s, l, r, ev[k]); });
    }
    for (auto &x : th)
      x.join();
    for (auto e : ev)
      events += e;
    break;
  }
  case 0:
  case 1: {
    // threads internal to the calls
    c.st.add("internal_threads");
    useModel(m, s, l, c.rng, t, events);
    break;
  }
  case 2: {
    // different models, sharing the factors, used by different threads
    c.st.add("models_in_different_threads");
    std::vector<std::unique_ptr<RandomField>> ms;
    std::vector<std::unique_ptr<Graph>> gs;
    for (std::size_t k = 0; k < t; ++k) {
      if (k % 2) {
        ms.push_back(std::make_unique<RandomField>(m));
      } else {
        gs.push_back(std::make_unique<Graph>());
        gs.back()->absorb(m, false);
      }
    }
    std::vector<std::thread> th;
    std::vector<std::uint64_t> ev(t, 0);
    for (std::size_t k = 0; k < t; ++k) {
      Rng r(c.rng.next());
      std::size_t internal = c.rng.p(0.3) ? 2 : 1;
      th.emplace_back([&, k, r, internal]() mutable {
        if (k % 2)
          useModel(*ms[k / 2], s, l, r, internal, ev[k]);
        else
          useModel(*gs[k / 2], s, l, r, internal, ev[k]);
      });
    }
    for (auto &x : th)
      x.join();
    for (auto e : ev)
      events += e;
    break;
  }
  case 3: {
    // conditioned model
    c.st.add("conditional_models");
    GenOpt o = opt(c);
    Spec s2 = genModel(c.rng, o);
    // no tunable factor attached only to evidences
    s2.ev.clear();
    s2.ev[0] = 0;
    for (auto &f : s2.f) {
      f.share = -1;
      if (f.kind == TUN && f.v == std::vector<int>{0})
        f.kind = CEXP;
    }
    c.desc = s2.str();
    Live l2;
    RandomField src;
    build(src, s2, l2, c.rng);
    ConditionalRandomField crf(src, c.rng.p(0.5));
    useModel(crf, s2, l2, c.rng, t, events);
    crf.makeTrainSet(sampling(c.rng), c.rng.p(0.5) ? 1.f : 0.5f, t);
    break;
  }
  }
  vf::perturb::level = 0;
  c.st.add("operations", events);
  c.st.add("forced_delays", vf::perturb::delays.exchange(0));
  c.nontrivial(signature(s) ^ t);
}
VF_MAIN("C08", run)
