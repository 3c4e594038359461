// C15: gradient of conditional random fields
#include "cond.hpp"
using namespace vf;
using EFG::train::TrainSet;

static void run(Ctx &c) {
  Rng &r = c.rng;
  auto U = [](long x) { return static_cast<std::size_t>(x); };
  GenOpt o;
  o.nmin = 2;
  o.nmax = r.p(0.85) ? 6 : (r.p(0.9) ? 12 : 40);
  o.maxsz = 4;
  o.range = 4;
  o.exps = r.p(0.4);
  o.zeros = 0.15;
  o.evs = 1;
  o.feats = 0.1;
  o.evfrac = r.pick(std::vector<double>{0.2, 0.4, 0.7});
  CondWorld w{c, r};
  w.make(o);
  if (r.p(0.2)) {
    w.m = std::make_unique<ConditionalRandomField>(*std::unique_ptr<ConditionalRandomField>(std::move(w.m)));
    w.refreshOrder();
    c.st.add("copies");
  }
  std::size_t threads = r.p(0.97) ? 1 : U(r.ri(2, 3));
  std::optional<TrainSet> ts;
  std::optional<TrainSet::Iterator> it;
  long compared = 0;
  for (long k = r.ri(1, 5); k > 0; --k) {
    if (r.p(0.5))
      w.setWeights();
    if (r.p(0.3))
      w.setEvidences(w.randomEvidences());
    if (r.p(0.3))
      w.m->getMAP(r.pick(w.l.var), threads);
    if (!it || r.p(0.7)) {
      ts.emplace(w.randomSamples(r.p(0.8) ? r.ri(1, 6) : (r.p(0.97) ? r.ri(10, 60) : r.ri(100, 1500))));
      float p = r.p(0.7) ? 1.f : static_cast<float>(r.uni(0.3, 1));
      it.emplace(*ts, p);
      if (it->size() == 0)
        it.emplace(*ts, 1.f);
    }
    auto samples = samplesOf(*it, *w.m, w.l);
    auto ref = refGradient(w.s, samples, &w.observed);
    auto weights = w.m->getWeights();
    auto g = w.m->getWeightsGradient(*it, threads);
    require(w.m->getWeights() == weights, "weights-altered", "by the gradient");
    // the evidences were moved by the gradient, never their set
    require(w.m->getEvidences().size() == w.s.ev.size(), "evidence-set", w.m->getEvidences().size());
    for (auto &[v, x] : w.m->getEvidences())
      w.s.ev[w.indexOf(v)] = x;
    if (!ref.decidable) {
      c.st.add("undecidable");
      continue;
    }
    compareGradient(c, g, ref, samples.size(), "gradient");
    c.st.add("gradients");
    c.st.add("gradient_values", g.size());
    c.st.add("samples_used", samples.size());
    compared += static_cast<long>(g.size());
    if (r.p(0.2))
      compareGradient(c, w.m->getWeightsGradient(*it, threads), ref, samples.size(), "gradient-repeated");
    if (r.p(0.2)) {
      for (auto &[v, x] : w.m->getEvidences())
        w.s.ev[w.indexOf(v)] = x;
      w.checkAnswers("answers-after-gradient");
    }
  }
  if (compared)
    c.nontrivial(signature(w.s));
}
VF_MAIN("C15", run)
