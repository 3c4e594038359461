// C12: well formed and reproducible samples
#pragma once
#include "ops.hpp"
using namespace vf;

static std::size_t U(long x) { return static_cast<std::size_t>(x); }
using Samples = std::vector<std::vector<std::size_t>>;

// seeds that make the default engine of the standard library give its extreme
// values at the n-th extraction (just seeds, for any other engine)
static std::size_t extremeSeed(Rng &r) {
  const std::uint64_t M = 2147483647ULL, inv = 1407677000ULL; // 16807^-1 mod M
  std::uint64_t x = 1;
  for (long n = r.ri(1, 40); n > 0; --n)
    x = x * inv % M;
  switch (r.ri(0, 2)) {
  case 0:
    return static_cast<std::size_t>(x);
  case 1:
    return static_cast<std::size_t>(x * (M - 1) % M);
  default:
    return static_cast<std::size_t>(x * (M - 1 - static_cast<std::uint64_t>(r.ri(0, 200))) % M);
  }
}
static std::size_t genSeed(Rng &r) {
  switch (r.ri(0, 5)) {
  case 0:
    return U(r.ri(0, 3));
  case 1:
    return r.pick(std::vector<std::size_t>{2147483646ULL, 2147483647ULL, 4294967295ULL, 4294967296ULL, 4294967301ULL, ~0ULL});
  case 2:
  case 3:
    return extremeSeed(r);
  default:
    return U(static_cast<long>(r.next() >> 33));
  }
}

static void wellFormed(const Samples &x, std::size_t n, const EFG::categoric::VariablesSoup &vars,
                       const std::map<std::string, std::size_t> &ev) {
  require(x.size() == n, "samples-number", x.size(), " instead of ", n);
  for (auto &s : x) {
    require(s.size() == vars.size(), "sample-size", s.size(), " instead of ", vars.size());
    for (std::size_t k = 0; k < s.size(); ++k) {
      require(s[k] < vars[k]->size(), "out-of-domain", "variable ", vars[k]->name(), " has ", s[k]);
      auto it = ev.find(vars[k]->name());
      require(it == ev.end() || it->second == s[k], "evidence-not-kept", "variable ", vars[k]->name(), " has ", s[k]);
    }
  }
}

template <typename M> static void sampling(Ctx &c, M &m, const Spec &s, const Live &l, std::map<int, std::size_t> ev, bool multi) {
  Rng &r = c.rng;
  auto vars = m.getAllVariables();
  std::map<std::string, std::size_t> evn;
  for (auto &[k, v] : ev)
    evn[s.nm[U(k)]] = v;
  std::vector<std::size_t> pos; // column of each variable
  for (auto &v : l.var)
    pos.push_back(U(std::find(vars.begin(), vars.end(), v) - vars.begin()));
  for (long rep = r.ri(1, 3); rep > 0; --rep) {
    std::size_t threads = multi ? U(r.ri(2, 4)) : 1;
    EFG::strct::GibbsSampler::SamplesGenerationContext ctx;
    ctx.seed = genSeed(r);
    // all the states of the chain
    ctx.delta_iterations = 1;
    ctx.transient = 0;
    ctx.samples_number = U(multi ? r.ri(10, 30) : r.ri(20, 70));
    const bool far = !multi && s.sz.size() < 7 && r.p(0.04);
    if (far)
      ctx.samples_number = U(r.ri(300, 2500));
    auto chain = m.makeSamples(ctx, threads);
    wellFormed(chain, ctx.samples_number, vars, evn);
    c.st.add("states", chain.size());
    if (r.p(multi ? 0.5 : 0.004)) {
      // something else in between, with another number of threads
      auto q = ctx;
      q.samples_number = U(r.ri(0, 2));
      std::size_t other = multi && r.p(0.3) ? 1 : threads + U(r.ri(1, 3));
      if (r.p(0.5) && !l.var.empty())
        m.getMAP(r.pick(l.var), other);
      if (r.p(0.7))
        m.makeSamples(q, other);
      c.st.add("other_threads_in_between");
    }
    require(m.makeSamples(ctx, threads) == chain, "not-reproducible", "same seed ", *ctx.seed, ", threads ", threads);
    // only possible states, once in a possible one
    bool possible = false;
    std::size_t distinct = 0;
    for (std::size_t k = 0; k < chain.size(); ++k) {
      std::vector<std::size_t> a(s.sz.size());
      for (std::size_t v = 0; v < a.size(); ++v)
        a[v] = chain[k][pos[v]];
      bool now = logScore(s, a) > -std::numeric_limits<double>::infinity();
      require(now || !possible, "impossible-state", "state ", k, ": ", vec(a), " seed ", *ctx.seed, " threads ", threads);
      possible = possible || now;
      distinct += k && chain[k] != chain[k - 1];
    }
    c.st.add(possible ? "chains_possible" : "chains_never_possible");
    c.st.add("moves", distinct);
    // spacing and transient select the states of the same chain
    for (int sel = 0; sel < 2; ++sel) {
      auto q = ctx;
      std::size_t d, t;
      if (r.p(0.3)) {
        // default values
        q.samples_number = U(r.ri(1, 21));
        q.delta_iterations = std::nullopt;
        q.transient = std::nullopt;
        d = (q.samples_number + 9) / 10;
        t = 10 * d;
        if (r.p(0.3)) {
          q.transient = U(r.ri(0, 5));
          t = *q.transient;
        } else if (r.p(0.3)) {
          q.delta_iterations = U(r.ri(0, 3));
          d = std::max<std::size_t>(1, *q.delta_iterations);
          t = 10 * d;
        }
        c.st.add("default_contexts");
      } else {
        q.delta_iterations = U(far && r.p(0.7) ? r.ri(5, 600) : r.ri(0, 4));
        d = std::max<std::size_t>(1, *q.delta_iterations);
        q.transient = U(far ? r.ri(0, static_cast<long>(chain.size()) - 1) : r.ri(0, 12));
        t = *q.transient;
        q.samples_number = U(r.ri(far ? 1 : 0, far ? 4 : 8));
        if (far)
          c.st.add("far_selections");
      }
      if (r.p(0.3) && !vars.empty())
        m.getMarginalDistribution(r.pick(l.var)); // nothing to do with the samples
      auto x = m.makeSamples(q, threads);
      wellFormed(x, q.samples_number, vars, evn);
      for (std::size_t k = 0; k < x.size(); ++k) {
        auto at = t + k * d;
        if (at < chain.size()) {
          require(x[k] == chain[at], "not-the-same-chain", "sample ", k, " with spacing ", d, " and transient ", t,
                  " is not the state ", at, " of the chain; seed ", *ctx.seed, " threads ", threads);
          c.st.add("selected_states_compared");
        }
      }
    }
    // no seed
    if (r.p(0.2)) {
      auto q = ctx;
      q.seed = std::nullopt;
      q.samples_number = 3;
      wellFormed(m.makeSamples(q, threads), 3, vars, evn);
      c.st.add("without_seed");
    }
  }
}

static void run(Ctx &c, bool multi) {
  Rng &r = c.rng;
  GenOpt o;
  o.nmin = 1;
  o.nmax = r.p(0.8) ? 6 : (r.p(0.95) ? 15 : 70);
  o.zeros = 0.6;
  o.range = 6;
  o.loops = r.p(0.4) ? static_cast<int>(r.ri(1, 5)) : 0;
  Spec s = genModel(r, o);
  // half of the times the initial state of the chain is possible
  if (r.p(0.6)) {
    for (auto &f : s.f) {
      std::size_t flat = 0;
      for (int v : f.v)
        flat = flat * U(s.sz[U(v)]) + (s.ev.count(v) ? s.ev[v] : 0);
      if (f.img[flat] == 0 && f.kind == CONST) {
        f.img[flat] = 1.f;
        f.corr = f.anti = false;
      }
    }
  }
  c.desc = s.str();
  Live l;
  int kind = static_cast<int>(r.ri(0, 3));
  if (kind == 0) {
    Graph m;
    build(m, s, l, r);
    sampling(c, m, s, l, s.ev, multi);
  } else {
    RandomField m;
    build(m, s, l, r);
    bool cond = kind == 3 && !s.ev.empty();
    for (auto &f : s.f) {
      bool onlyEv = true;
      for (int v : f.v)
        onlyEv = onlyEv && s.ev.count(v);
      cond = cond && !(onlyEv && f.kind == TUN);
    }
    if (cond) {
      ConditionalRandomField crf(m, r.p(0.5));
      auto ev = s.ev;
      if (r.p(0.7)) {
        std::vector<std::size_t> vals;
        for (auto &v : crf.getObservedVariables()) {
          auto k = static_cast<int>(std::find(l.var.begin(), l.var.end(), v) - l.var.begin());
          ev[k] = U(r.ri(0, s.sz[U(k)] - 1));
          vals.push_back(ev[k]);
        }
        crf.setEvidences(vals);
      }
      sampling(c, crf, s, l, ev, multi);
      c.st.add("conditional_fields");
    } else {
      sampling(c, m, s, l, s.ev, multi);
      // evidences changed in the meantime
      if (r.p(0.3)) {
        m.removeAllEvidences();
        sampling(c, m, s, l, {}, multi);
        int k = static_cast<int>(r.ri(0, static_cast<long>(s.sz.size()) - 1));
        std::size_t v = U(r.ri(0, s.sz[U(k)] - 1));
        m.setEvidence(l.var[U(k)], v);
        sampling(c, m, s, l, {{k, v}}, multi);
      }
    }
  }
  if (r.p(0.01)) {
    Graph empty;
    EFG::strct::GibbsSampler::SamplesGenerationContext q;
    q.samples_number = 3;
    require(empty.makeSamples(q).size() == 3, "samples-number", "empty model");
  }
  c.nontrivial(signature(s));
}
