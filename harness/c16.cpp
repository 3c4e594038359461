// C16: conditional random fields keep their evidence set
#include "cond.hpp"
#include "content.hpp"
using namespace vf;
static std::size_t U(long x) { return static_cast<std::size_t>(x); }

static void refusedSources(Ctx &c) {
  Rng &r = c.rng;
  GenOpt o;
  o.nmin = 1;
  o.nmax = 6;
  o.maxsz = 4;
  Spec s = genModel(r, o);
  bool noEvidence = r.p(0.4);
  if (noEvidence)
    s.ev.clear();
  else if (s.ev.empty())
    s.ev[0] = 0;
  bool bad = noEvidence;
  if (!noEvidence) {
    // a tunable factor attached only to observed variables
    if (r.p(0.5)) {
      int v = s.ev.begin()->first;
      FSpec f;
      f.v = {v};
      f.kind = TUN;
      f.w = genWeight(r);
      f.img.assign(U(s.sz[U(v)]), 0.5f);
      if (r.p(0.3)) {
        // sharing the weight with a good one
        std::map<std::set<int>, int> uses;
        for (auto &x : s.f)
          if (x.kind == TUN)
            ++uses[std::set<int>(x.v.begin(), x.v.end())];
        for (int k = 0; k < static_cast<int>(s.f.size()); ++k)
          if (s.f[U(k)].kind == TUN && uses[std::set<int>(s.f[U(k)].v.begin(), s.f[U(k)].v.end())] == 1 &&
              std::set<int>(s.f[U(k)].v.begin(), s.f[U(k)].v.end()) != std::set<int>{v}) {
            f.share = k;
            break;
          }
      }
      s.f.push_back(f);
    } else if (s.sz.size() > 1 && r.p(0.5)) {
      // connecting two of them
      int a = static_cast<int>(r.ri(0, static_cast<long>(s.sz.size()) - 1)), b = a;
      while (b == a)
        b = static_cast<int>(r.ri(0, static_cast<long>(s.sz.size()) - 1));
      bool connected = false;
      for (auto &x : s.f)
        connected = connected || std::set<int>(x.v.begin(), x.v.end()) == std::set<int>{a, b};
      if (!connected) {
        FSpec f;
        f.v = {a, b};
        f.kind = r.p(0.7) ? TUN : CEXP;
        f.w = genWeight(r);
        f.img.assign(U(s.sz[U(a)] * s.sz[U(b)]), 0.5f);
        s.ev.emplace(a, 0);
        s.ev.emplace(b, 0);
        s.f.push_back(f);
      }
    }
    for (auto &f : s.f) {
      bool onlyEv = true;
      for (int v : f.v)
        onlyEv = onlyEv && s.ev.count(v);
      bad = bad || (onlyEv && f.kind == TUN);
    }
  }
  c.desc = s.str();
  RandomField m;
  Live l;
  build(m, s, l, r);
  auto before = contentOf(m);
  bool thrown = false;
  try {
    ConditionalRandomField x(m, r.p(0.5));
  } catch (const std::exception &) {
    thrown = true;
  }
  require(thrown == bad, "source-validity", thrown ? "valid source refused" : "invalid source accepted");
  require(contentOf(m) == before, "source-altered", before.diff(contentOf(m)));
  c.st.add(bad ? "sources_refused" : "sources_accepted");
  c.nontrivial(signature(s) ^ 77);
}

static void run(Ctx &c) {
  Rng &r = c.rng;
  if (r.p(0.15))
    return refusedSources(c);
  GenOpt o;
  o.nmin = 2;
  o.nmax = r.p(0.8) ? 6 : 14;
  o.maxsz = r.p(0.8) ? 4 : 2;
  o.zeros = 0.3;
  o.range = 3;
  o.evs = 1;
  o.evfrac = r.pick(std::vector<double>{0.2, 0.4, 0.7});
  CondWorld w{c, r};
  w.make(o);
  w.checkEvidences("initial-evidences");
  w.checkAnswers("answers");
  std::string log;
  for (long k = r.ri(2, 10); k > 0; --k) {
    switch (r.ri(0, 8)) {
    case 0:
    case 1:
    case 2: {
      auto v = w.randomEvidences();
      log += cat("set", vec(v));
      w.setEvidences(v);
      c.st.add("settings");
      break;
    }
    case 3: {
      // refused: nothing changes
      auto v = w.randomEvidences();
      switch (r.ri(0, 3)) {
      case 0:
        v.push_back(0);
        break;
      case 1:
        v.pop_back();
        break;
      default: {
        auto p = U(r.ri(0, static_cast<long>(v.size()) - 1));
        v[p] = r.p(0.7) ? U(w.s.sz[U(w.observed[p])]) + U(r.ri(0, 2)) : r.pick(std::vector<std::size_t>{~0ULL, 1ULL << 32, 1ULL << 63});
      }
      }
      log += cat("refuse", vec(v));
      auto before = contentOf(*w.m);
      bool thrown = false;
      try {
        w.m->setEvidences(v);
      } catch (const std::exception &) {
        thrown = true;
      }
      require(thrown, "invalid-evidences-accepted", vec(v));
      require(contentOf(*w.m) == before, "refused-setting-changes", before.diff(contentOf(*w.m)));
      c.st.add("settings_refused");
      break;
    }
    case 4:
      log += "weights";
      w.setWeights();
      break;
    case 5: {
      log += "gradient";
      EFG::train::TrainSet ts(w.randomSamples(r.ri(1, 3)));
      w.m->getWeightsGradient(ts.makeIterator());
      for (auto &[v, x] : w.m->getEvidences())
        w.s.ev[w.indexOf(v)] = x;
      break;
    }
    default: {
      double combs = 1;
      for (int v : w.observed)
        combs *= w.s.sz[U(v)];
      if (combs > 500)
        break;
      EFG::strct::GibbsSampler::SamplesGenerationContext ctx;
      ctx.samples_number = U(r.ri(1, 3));
      ctx.delta_iterations = 1;
      ctx.seed = U(r.ri(0, 10000));
      ctx.transient = U(r.ri(0, 2));
      float pct;
      switch (r.ri(0, 4)) {
      case 0:
        pct = 1.f;
        break;
      case 1:
        pct = 0.f;
        break;
      case 2:
        // exact fractions
        pct = 1.f / static_cast<float>(r.ri(1, static_cast<long>(combs) + 1));
        break;
      default:
        pct = static_cast<float>(r.uni());
      }
      log += cat("train set ", pct);
      if (r.p(0.15)) {
        auto before = contentOf(*w.m);
        bool thrown = false;
        try {
          w.m->makeTrainSet(ctx, r.pick(std::vector<float>{-0.1f, 1.01f, 2.f, -1.f, std::nanf("")}));
        } catch (const std::exception &) {
          thrown = true;
        }
        require(thrown, "invalid-percentage-accepted", "");
        require(contentOf(*w.m) == before, "refused-train-set-changes", before.diff(contentOf(*w.m)));
        c.st.add("percentages_refused");
      }
      std::size_t threads = r.p(0.97) ? 1 : 2;
      auto ts = w.m->makeTrainSet(ctx, pct, threads);
      std::map<std::vector<std::size_t>, std::size_t> seen;
      auto vars = w.m->getAllVariables();
      std::vector<std::size_t> cols;
      for (int v : w.observed)
        cols.push_back(U(std::find(vars.begin(), vars.end(), w.l.var[U(v)]) - vars.begin()));
      for (auto &x : ts) {
        require(x.size() == vars.size(), "train-set", "incomplete sample");
        for (std::size_t i = 0; i < x.size(); ++i)
          require(x[i] < vars[i]->size(), "train-set", "value out of domain");
        std::vector<std::size_t> e;
        for (auto p : cols)
          e.push_back(x[p]);
        ++seen[e];
      }
      for (auto &[e, n] : seen)
        require(n == ctx.samples_number, "train-set", n, " samples of ", vec(e), " instead of ", ctx.samples_number);
      if (pct == 1.f)
        require(seen.size() == U(static_cast<long>(combs)), "train-set", seen.size(), " combinations instead of ", combs);
      else {
        auto atLeast = std::max(1.0, std::floor(combs * static_cast<double>(pct) - 1e-3));
        require(static_cast<double>(seen.size()) >= atLeast, "train-set", seen.size(),
                " combinations, less than the requested ", atLeast, " of ", combs);
        // one every some of them
        auto wanted = std::max(1.0, std::floor(combs * static_cast<double>(pct) + 1e-3));
        auto atMost = std::ceil(combs / std::floor(combs / wanted));
        require(static_cast<double>(seen.size()) <= atMost, "train-set", seen.size(), " combinations, more than the ",
                wanted, " (about) requested of ", combs);
        std::set<std::size_t> at; // in the order the combinations are enumerated
        for (auto &[e, n] : seen) {
          std::size_t flat = 0;
          for (std::size_t i = 0; i < e.size(); ++i)
            flat = flat * U(w.s.sz[U(w.observed[i])]) + e[i];
          at.insert(flat);
        }
        if (at.size() > 1) {
          std::size_t gap = *std::next(at.begin()) - *at.begin();
          for (auto it = std::next(at.begin()); it != at.end(); ++it)
            require(*it - *std::prev(it) == gap, "train-set", "combinations not evenly spaced: ", *std::prev(it), " ", *it,
                    " after a gap of ", gap);
          require(*at.begin() < gap && *at.rbegin() + gap >= U(static_cast<long>(combs)), "train-set",
                  "combinations from ", *at.begin(), " to ", *at.rbegin(), " every ", gap, " of ", combs);
          c.st.add("spaced_combinations");
        }
      }
      c.st.add("train_sets");
      c.st.add("evidence_combinations", seen.size());
      for (auto &[v, x] : w.m->getEvidences())
        w.s.ev[w.indexOf(v)] = x;
      break;
    }
    }
    w.checkEvidences("evidences");
    if (r.p(0.5))
      w.checkAnswers("answers");
    require(w.source.getEvidences().size() == w.s.ev.size(), "source-altered", "evidences of the source");
  }
  w.checkAnswers("answers");
  c.desc += "\n  " + log;
  c.nontrivial(signature(w.s) ^ hashStr(log));
}
VF_MAIN("C16", run)
