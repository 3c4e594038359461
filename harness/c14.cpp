// C14: gradient of random fields
#include "grad.hpp"
using namespace vf;
using EFG::train::TrainSet;

static std::size_t U(long x) { return static_cast<std::size_t>(x); }

static void run(Ctx &c) {
  Rng &r = c.rng;
  GenOpt o;
  o.nmin = 1;
  o.nmax = r.p(0.85) ? 6 : (r.p(0.9) ? 14 : 45);
  o.maxsz = 4;
  o.range = 4;
  o.exps = r.p(0.5);
  o.zeros = 0.2;
  o.evs = 0;
  o.feats = 0.1;
  World<RandomField> w(c, o);
  w.threads = r.p(0.97) ? 1 : U(r.ri(2, 3));
  long first = r.p(0.7) ? static_cast<long>(w.left.size()) : r.ri(1, static_cast<long>(w.left.size()));
  for (long k = 0; k < first; ++k)
    w.insert();
  // the iterator is always at the same address: what was computed before should not matter
  std::optional<TrainSet> ts;
  std::optional<TrainSet::Iterator> it;
  std::size_t width = 0;
  long compared = 0;
  for (long k = r.ri(2, 8); k > 0; --k) {
    for (long q = r.ri(0, 3); q > 0; --q)
      w.step();
    if (r.p(0.4))
      w.setWeights();
    if (w.present.empty())
      continue;
    if (!it || width != w.present.size() || r.p(0.7)) {
      long n = r.p(0.8) ? r.ri(1, 8) : r.ri(20, 150);
      ts.emplace(w.randomCombs(U(n)));
      width = w.present.size();
      if (r.p(0.7))
        it.emplace(*ts, 1.f);
      else {
        float p = static_cast<float>(r.uni(0.3, 1));
        it.emplace(*ts, p);
        if (it->size() == 0)
          it.emplace(*ts, 1.f);
        else
          c.st.add("subsets");
      }
    }
    auto samples = samplesOf(*it, *w.m, w.l);
    auto ref = refGradient(w.cur, samples, nullptr);
    w.note(cat("gradient of ", samples.size(), " samples"));
    auto weights = w.m->getWeights();
    auto g = w.m->getWeightsGradient(*it, w.threads);
    w.cur.ev.clear();
    require(w.m->getWeights() == weights, "weights-altered", "by the gradient");
    if (!ref.decidable) {
      c.st.add("undecidable");
      continue;
    }
    compareGradient(c, g, ref, samples.size(), "gradient");
    c.st.add("gradients");
    c.st.add("gradient_values", g.size());
    compared += static_cast<long>(g.size());
    // twice the same
    if (r.p(0.2))
      compareGradient(c, w.m->getWeightsGradient(*it, w.threads), ref, samples.size(), "gradient-repeated");
    if (r.p(0.2)) {
      w.checkBookkeeping();
      w.compareAnswers(3e-5, "answers-after-gradient");
    }
  }
  if (compared)
    c.nontrivial(signature(w.full) ^ hashStr(w.log));
}
VF_MAIN("C14", run)
