// C27: a trainer sees the weights and the gradient of the model it trains
#include "cond.hpp"
#include "content.hpp"
#include <EasyFactorGraph/trainable/ModelTrainer.h>
using namespace vf;
using EFG::train::TrainInfo;
using EFG::train::TrainSet;
static std::size_t U(long x) { return static_cast<std::size_t>(x); }

namespace {
struct Stop : std::runtime_error {
  Stop() : std::runtime_error("stopped by the trainer") {}
};

struct FnTrainer : ::train::Trainer {
  std::function<void(::train::ParametersAware &)> f;
  int calls = 0;
  void train(::train::ParametersAware &m) final {
    ++calls;
    f(m);
  }
};

std::vector<float> toFloats(const ::train::Vect &v) {
  std::vector<float> r;
  for (Eigen::Index k = 0; k < v.size(); ++k)
    r.push_back(static_cast<float>(v(k)));
  return r;
}
std::vector<float> minus(std::vector<float> v) {
  for (auto &x : v)
    x = -x;
  return v;
}

// all the multisets of k elements out of n
void multisets(std::size_t n, std::size_t k, std::vector<std::size_t> &cur, const std::function<void()> &f) {
  if (cur.size() == k)
    return f();
  for (std::size_t i = cur.empty() ? 0 : cur.back(); i < n; ++i) {
    cur.push_back(i);
    multisets(n, k, cur, f);
    cur.pop_back();
  }
}

double gradTol(const RefGradient &g, std::size_t k, std::size_t n) {
  return (2e-5 + 3e-7 * static_cast<double>(n)) * (1 + g.scale[k]);
}
bool matches(const std::vector<float> &got, const RefGradient &ref, std::size_t n) {
  if (got.size() != ref.value.size())
    return false;
  for (std::size_t k = 0; k < got.size(); ++k)
    if (!within(std::fabs(got[k] - ref.value[k]), gradTol(ref, k, n)))
      return false;
  return true;
}

// what both the kinds of model share
struct Session {
  Ctx &c;
  Rng &r;
  Spec &s; // shadow of the content
  EFG::train::FactorsTunableGetter &m;
  const std::vector<int> *observed;
  std::vector<std::vector<std::size_t>> samples; // values of the variables of the specification
  long compared = 0;

  void shadowWeights(const std::vector<float> &w) {
    auto cl = tunableClusters(s);
    for (std::size_t k = 0; k < cl.size(); ++k)
      for (auto f : cl[k])
        s.f[f].w = w[k];
  }
  std::vector<float> weightsOfShadow() {
    std::vector<float> w;
    for (auto &g : tunableClusters(s))
      w.push_back(s.f[g.front()].w);
    return w;
  }
  RefGradient ref(const std::vector<std::vector<std::size_t>> &x) { return refGradient(s, x, observed); }

  void checkParameters(::train::ParametersAware &t) {
    auto p = t.getParameters();
    auto w = weightsOfShadow();
    require(U(p.size()) == w.size(), "parameters-count", p.size(), " instead of ", w.size());
    for (std::size_t k = 0; k < w.size(); ++k)
      require(p(static_cast<Eigen::Index>(k)) == static_cast<double>(w[k]), "parameters", "group ", k, ": ",
              p(static_cast<Eigen::Index>(k)), " instead of ", w[k]);
    require(m.getWeights() == w, "model-weights", vec(m.getWeights()), " instead of ", vec(w));
    c.st.add("parameters_compared", w.size());
  }
  void setParameters(::train::ParametersAware &t) {
    auto w = weightsOfShadow();
    ::train::Vect v(static_cast<Eigen::Index>(w.size()));
    for (std::size_t k = 0; k < w.size(); ++k) {
      w[k] = genWeight(r) / s.feat;
      v(static_cast<Eigen::Index>(k)) = w[k];
    }
    t.setParameters(v);
    shadowWeights(w);
    c.st.add("settings");
  }
  void wrongSize(::train::ParametersAware &t) {
    auto n = static_cast<long>(weightsOfShadow().size());
    long k = r.p(0.5) ? n + r.ri(1, 3) : r.ri(0, n);
    if (k == n)
      ++k;
    ::train::Vect v = ::train::Vect::Constant(k, 0.25);
    bool thrown = false;
    try {
      t.setParameters(v);
    } catch (const std::exception &) {
      thrown = true;
    }
    require(thrown, "wrong-parameters-accepted", k, " values for ", n, " weights");
    checkParameters(t);
    c.st.add("settings_refused");
  }
  void fullGradient(::train::ParametersAware &t) {
    auto g = minus(toFloats(t.getGradient()));
    auto R = ref(samples);
    checkParameters(t);
    if (!R.decidable) {
      c.st.add("undecidable");
      return;
    }
    compareGradient(c, g, R, samples.size(), "descent-gradient");
    c.st.add("gradients");
    compared += static_cast<long>(g.size());
  }
  // gradients of random subsets
  void stochastic(::train::ParametersAware &t, std::size_t k) {
    std::vector<RefGradient> refs;
    std::vector<std::size_t> cur;
    bool ok = true;
    multisets(samples.size(), k, cur, [&] {
      if (!ok)
        return;
      std::vector<std::vector<std::size_t>> x;
      for (auto i : cur)
        x.push_back(samples[i]);
      refs.push_back(ref(x));
      ok = refs.back().decidable;
    });
    if (!ok) {
      c.st.add("undecidable");
      return;
    }
    // is any couple of subsets clearly different?
    auto apart = [&](const RefGradient &a, const RefGradient &b) {
      for (std::size_t q = 0; q < a.value.size(); ++q)
        if (std::fabs(a.value[q] - b.value[q]) > 8 * gradTol(a, q, k))
          return true;
      return false;
    };
    std::set<std::size_t> seen;
    std::vector<std::vector<float>> all;
    int calls = 3;
    // the multisets of identical elements, one per sample
    std::vector<std::size_t> single;
    {
      std::size_t at = 0;
      multisets(samples.size(), k, cur, [&] {
        if (std::count(cur.begin(), cur.end(), cur[0]) == static_cast<long>(k))
          single.push_back(at);
        ++at;
      });
    }
    bool distinct = k == 1 && single.size() > 1;
    for (std::size_t a = 0; a < single.size() && distinct; ++a)
      for (std::size_t b = 0; b < a && distinct; ++b)
        distinct = apart(refs[single[a]], refs[single[b]]);
    if (distinct)
      calls = 60;
    for (int q = 0; q < calls; ++q) {
      auto g = minus(toFloats(t.getGradient()));
      bool found = false;
      for (std::size_t i = 0; i < refs.size() && !found; ++i)
        if (matches(g, refs[i], k)) {
          found = true;
          seen.insert(i);
        }
      require(found, "stochastic-gradient", vec(g), " is the gradient of no ", k, " samples out of ", samples.size());
      c.st.add("stochastic_gradients");
      ++compared;
    }
    if (distinct) {
      // each sample has probability 1/n to be the next one
      require(seen.size() > 1, "stochastic-constant", "60 gradients of the same sample out of ", samples.size());
      c.st.add("resampling_observed");
    }
    checkParameters(t);
  }
};

// a train set that can't refer to the model
void refused(Ctx &c, Session &z, const TrainSet &ts) {
  Rng &r = c.rng;
  auto samples = ts.getCombinations();
  spoilSamples(samples, z.m.getAllVariables(), r);
  TrainSet spoiled(samples);
  FnTrainer tr;
  std::size_t gradients = 0;
  tr.f = [&](::train::ParametersAware &t) {
    t.getGradient();
    ++gradients;
  };
  bool error = false;
  auto ev = z.m.getEvidences();
  try {
    EFG::train::train_model(z.m, tr, spoiled);
  } catch (const std::exception &) {
    error = true;
  }
  require(error && gradients == 0, "train-set-accepted", "not compatible with the model");
  require(z.m.getWeights() == z.weightsOfShadow(), "weights-after-refusal", vec(z.m.getWeights()), " instead of ",
          vec(z.weightsOfShadow()));
  require(z.m.getEvidences() == ev, "evidences-after-refusal", ev.size(), " evidences");
  c.st.add("refused_train_sets");
}

template <typename Body, typename Check>
void sessions(Ctx &c, Session &z, const TrainSet &ts, const Body &fix, const Check &after) {
  Rng &r = c.rng;
  for (long q = r.ri(1, 3); q > 0; --q) {
    if (r.p(0.15))
      refused(c, z, ts);
    TrainInfo info;
    info.threads = r.p(0.9) ? 1 : U(r.ri(2, 4));
    std::size_t n = z.samples.size(), k = n;
    if (n <= 5 && n > 1 && r.p(0.4)) {
      k = U(r.ri(1, std::min<long>(2, static_cast<long>(n) - 1)));
      // far from the steps of the floor
      info.stochastic_percentage = (static_cast<float>(k) + 0.5f) / static_cast<float>(n);
    }
    bool stochastic = k != n;
    bool badPercentage = r.p(0.05);
    if (badPercentage)
      info.stochastic_percentage = r.pick(std::vector<float>{0.f, -0.5f, 1.5f, std::nanf("")});
    bool stop = r.p(0.2);
    FnTrainer tr;
    tr.f = [&](::train::ParametersAware &t) {
      z.checkParameters(t);
      for (long op = r.ri(1, 6); op > 0; --op)
        switch (r.ri(0, 4)) {
        case 0:
          z.setParameters(t);
          z.checkParameters(t);
          break;
        case 1:
          z.wrongSize(t);
          break;
        case 2:
          z.checkParameters(t);
          break;
        default:
          if (badPercentage) {
            t.getGradient();
            require(false, "percentage-accepted", info.stochastic_percentage);
          } else if (stochastic)
            z.stochastic(t, k);
          else
            z.fullGradient(t);
          fix();
        }
      if (stop)
        throw Stop{};
    };
    bool stopped = false, error = false;
    try {
      EFG::train::train_model(z.m, tr, ts, info);
    } catch (const Stop &) {
      stopped = true;
    } catch (const Violation &) {
      throw;
    } catch (const std::exception &) {
      error = true;
    }
    if (badPercentage) {
      // refused at once, or when the gradient is asked
      c.st.add("bad_percentages");
    } else {
      require(!error, "training-error", "valid training refused");
      require(tr.calls == 1, "trainer-calls", tr.calls);
      require(stopped == stop, "exception-of-the-trainer", "lost");
      if (stop)
        c.st.add("stopped_trainings");
    }
    fix();
    require(z.m.getWeights() == z.weightsOfShadow(), "weights-after-training", vec(z.m.getWeights()), " instead of ",
            vec(z.weightsOfShadow()));
    if (r.p(0.5))
      after();
    c.st.add("trainings");
  }
  // plain descent: the function is convex, and the step is below the inverse of its curvature
  auto R0 = z.ref(z.samples);
  if (R0.decidable && !R0.value.empty() && r.p(0.4)) {
    double curvature = 0;
    for (auto s : R0.scale)
      curvature += s * s;
    double step = 0.5 / std::max(curvature, 0.1);
    FnTrainer tr;
    tr.f = [&](::train::ParametersAware &t) {
      for (int k = 0; k < 6; ++k) {
        ::train::Vect g = t.getGradient();
        ::train::Vect w = t.getParameters();
        t.setParameters(w - step * g);
      }
    };
    EFG::train::train_model(z.m, tr, ts);
    z.shadowWeights(z.m.getWeights());
    fix();
    auto R1 = z.ref(z.samples);
    if (R1.decidable) {
      double a = 0, b = 0, tol = 0;
      for (std::size_t k = 0; k < R0.value.size(); ++k) {
        a += R0.value[k] * R0.value[k];
        b += R1.value[k] * R1.value[k];
        tol += std::pow(20 * gradTol(R0, k, z.samples.size()), 2);
      }
      require(within(std::max(0.0, std::sqrt(b) - std::sqrt(a)), std::sqrt(tol)), "descent",
              "norm of the gradient from ", std::sqrt(a), " to ", std::sqrt(b));
      c.st.add("descents");
    }
    after();
  }
}

void onRandomField(Ctx &c) {
  Rng &r = c.rng;
  GenOpt o;
  o.nmin = 1;
  o.nmax = r.p(0.96) ? 6 : 30;
  o.maxsz = 3;
  o.range = 3;
  o.feats = 0; // descents on scaled features may diverge
  o.exps = r.p(0.7);
  o.zeros = 0.15;
  o.evs = 0;
  World<RandomField> w(c, o);
  while (!w.left.empty())
    w.insert();
  if (w.m->getWeights().empty())
    return;
  TrainSet ts(w.randomCombs(U(r.p(0.7) ? r.ri(1, 5) : (r.p(0.97) ? r.ri(6, 40) : r.ri(100, 700)))));
  Session z{c, r, w.cur, *w.m, nullptr, samplesOf(ts.makeIterator(), *w.m, w.l)};
  w.note("trainings");
  sessions(
      c, z, ts, [&] { w.cur.ev.clear(); },
      [&] {
        w.checkBookkeeping();
        w.compareAnswers(3e-5, "answers-after-training");
      });
  if (z.compared)
    c.nontrivial(signature(w.cur));
}

void onConditional(Ctx &c) {
  Rng &r = c.rng;
  GenOpt o;
  o.nmin = 2;
  o.nmax = r.p(0.96) ? 6 : 30;
  o.maxsz = 3;
  o.range = 3;
  o.feats = 0; // descents on scaled features may diverge
  o.exps = r.p(0.7);
  o.zeros = 0.15;
  o.evs = 1;
  o.evfrac = r.pick(std::vector<double>{0.2, 0.4, 0.7});
  CondWorld w{c, r};
  w.make(o);
  if (w.m->getWeights().empty())
    return;
  TrainSet ts(w.randomSamples(r.p(0.7) ? r.ri(1, 5) : (r.p(0.97) ? r.ri(6, 30) : r.ri(100, 500))));
  Session z{c, r, w.s, *w.m, &w.observed, samplesOf(ts.makeIterator(), *w.m, w.l)};
  sessions(
      c, z, ts,
      [&] {
        require(w.m->getEvidences().size() == w.s.ev.size(), "evidence-set", w.m->getEvidences().size());
        for (auto &[v, x] : w.m->getEvidences())
          w.s.ev[w.indexOf(v)] = x;
      },
      [&] {
        w.checkEvidences("evidences-after-training");
        w.checkAnswers("answers-after-training");
      });
  if (z.compared)
    c.nontrivial(signature(w.s) ^ 27);
}

void run(Ctx &c) {
  if (c.rng.p(0.6))
    onRandomField(c);
  else
    onConditional(c);
}
} // namespace
VF_MAIN("C27", run)
