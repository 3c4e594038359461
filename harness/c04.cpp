// C04: the answers depend only on the current content of the model
#include "ops.hpp"
using namespace vf;

static GenOpt opt(Ctx &c) {
  GenOpt o;
  o.nmin = 2;
  double u = c.rng.uni();
  o.nmax = u < 0.7 ? 7 : (u < 0.95 ? 14 : (u < 0.99 ? 30 : 100));
  o.maxsz = u < 0.7 ? 4 : 3;
  o.range = c.rng.pick(std::vector<double>{1, 3, 6});
  o.evs = 1; // only to have the additional edges
  o.evfrac = 0.4;
  o.evLoops = c.rng.p(0.5);
  if (o.evLoops)
    o.range = 1.2;
  return o;
}

template <typename M> static void drive(Ctx &c) {
  World<M> w(c, opt(c));
  long ops = c.rng.p(0.1) ? c.rng.ri(40, c.thorough ? 300 : 100) : c.rng.ri(4, 30);
  long checks = 0;
  double every = c.rng.pick(std::vector<double>{0.1, 0.3, 1.0});
  w.insert();
  for (long k = 0; k < ops; ++k) {
    w.threads = static_cast<std::size_t>(c.rng.p(0.985) ? 1 : 2);
    w.step();
    if (c.rng.p(every))
      checks += w.compareAnswers(3e-5, "history-dependent-answer");
  }
  checks += w.compareAnswers(3e-5, "history-dependent-answer");
  c.st.add("operations", static_cast<std::uint64_t>(w.nops));
  if (checks > 0)
    c.nontrivial(hashStr(w.log) ^ signature(w.full));
}

static void run(Ctx &c) {
  if (c.rng.p(0.35))
    drive<Graph>(c);
  else
    drive<RandomField>(c);
}
VF_MAIN("C04", run)
