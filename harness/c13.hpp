// C13: the samples follow the distribution of the model
#pragma once
#include "ops.hpp"
#include <unistd.h>
using namespace vf;

static std::size_t U(long x) { return static_cast<std::size_t>(x); }
using Samples = std::vector<std::vector<std::size_t>>;

// bound (Chernoff) of the log probability of a chi square above x
static double logTail(double x, double dof) {
  if (x <= dof)
    return 0;
  return dof / 2 * (1 - x / dof + std::log(x / dof));
}

// -> log of the p-value (bound), comparing the observed counts with the probabilities
static double compare(const std::vector<double> &counts, const std::vector<double> &p) {
  double n = 0;
  for (auto v : counts)
    n += v;
  double rest_c = 0, rest_e = 0, x = 0;
  int bins = 0;
  for (std::size_t k = 0; k < p.size(); ++k) {
    double e = n * p[k];
    if (e < 15) {
      rest_c += counts[k];
      rest_e += e;
      continue;
    }
    x += (counts[k] - e) * (counts[k] - e) / e;
    ++bins;
  }
  double extra = 0;
  if (rest_e >= 15) {
    x += (rest_c - rest_e) * (rest_c - rest_e) / rest_e;
    ++bins;
  } else if (rest_c > rest_e)
    // Poisson tail
    extra = rest_c - rest_e - rest_c * std::log(rest_c / std::max(rest_e, 1e-300));
  double lp = bins > 1 ? logTail(x / 1.5, bins - 1) : 0;
  return std::min(lp, extra);
}

struct Target {
  std::vector<int> vars;
  std::vector<double> p;
};

static void run(Ctx &c, bool multi) {
  Rng &r = c.rng;
  GenOpt o;
  o.nmin = 1;
  o.nmax = r.p(0.7) ? 4 : 7;
  o.maxsz = 3;
  if (o.nmax == 4 && r.p(0.4))
    o.maxsz = r.p(0.5) ? 5 : 8;
  o.zeros = 0;
  o.range = r.pick(std::vector<double>{0.5, 1.0, 1.5});
  o.evs = 0.5;
  o.comps = 0.4;
  o.loops = r.p(0.3) ? 2 : 0;
  Spec s = genModel(r, o);
  for (auto &f : s.f)
    if (f.kind != CONST)
      f.w = std::max(-1.f, std::min(1.f, f.w));
  // sometimes nothing but independent variables, possibly one for each thread
  std::size_t threads = multi ? U(r.ri(2, 4)) : 1;
  bool many = multi && r.p(0.12);
  if (many) {
    threads = U(r.ri(5, 8));
    c.st.add("a_thread_per_variable");
  }
  if (many || r.p(0.2)) {
    Spec t;
    t.sz = s.sz;
    t.nm = s.nm;
    if (many) {
      t.sz.clear();
      t.nm.clear();
      for (std::size_t k = 0; k < threads; ++k) {
        t.sz.push_back(static_cast<int>(r.ri(2, 3)));
        t.nm.push_back(cat("v", k));
      }
      s.sz = t.sz;
    }
    for (int k = 0; k < static_cast<int>(s.sz.size()); ++k) {
      FSpec f;
      f.v = {k};
      for (int i = 0; i < s.sz[U(k)]; ++i)
        f.img.push_back(static_cast<float>(r.uni(0.5, 1.5)));
      t.f.push_back(f);
    }
    s = t;
  }
  // sometimes values that are much more probable than the others
  if (r.p(0.35)) {
    for (long n = r.ri(1, static_cast<long>(s.sz.size())); n > 0; --n) {
      int k = static_cast<int>(r.ri(0, static_cast<long>(s.sz.size()) - 1));
      FSpec f;
      f.v = {k};
      for (int i = 0; i < s.sz[U(k)]; ++i)
        f.img.push_back(static_cast<float>(r.uni(0.5, 1.5)));
      f.img[U(r.ri(0, s.sz[U(k)] - 1))] *= static_cast<float>(std::exp(r.uni(1, 4.5)));
      s.f.push_back(f);
    }
    c.st.add("skewed_models");
  }
  c.desc = s.str();
  Live l;
  Graph g;
  RandomField rf;
  bool graph = r.p(0.5);
  if (graph)
    build(g, s, l, r);
  else
    build(rf, s, l, r);
  auto vars = graph ? g.getAllVariables() : rf.getAllVariables();
  std::vector<std::size_t> pos;
  for (auto &v : l.var)
    pos.push_back(U(std::find(vars.begin(), vars.end(), v) - vars.begin()));
  // what to compare: all the pairs, and everything when small
  std::vector<Target> targets;
  std::vector<int> hid;
  double tot = 1;
  for (int k = 0; k < static_cast<int>(s.sz.size()); ++k)
    if (!s.ev.count(k)) {
      hid.push_back(k);
      tot *= s.sz[U(k)];
    }
  if (hid.empty())
    return;
  // by enumeration
  std::vector<std::vector<std::size_t>> states;
  std::vector<double> prob;
  {
    std::vector<std::size_t> x(s.sz.size(), 0);
    for (auto &[k, v] : s.ev)
      x[U(k)] = v;
    double z = 0;
    while (true) {
      states.push_back(x);
      prob.push_back(std::exp(logScore(s, x)));
      z += prob.back();
      std::size_t k = hid.size();
      while (k > 0) {
        if (++x[U(hid[k - 1])] < U(s.sz[U(hid[k - 1])]))
          break;
        x[U(hid[k - 1])] = 0;
        --k;
      }
      if (k == 0)
        break;
    }
    for (auto &v : prob)
      v /= z;
  }
  auto target = [&](const std::vector<int> &g) {
    std::size_t n = 1;
    for (int v : g)
      n *= U(s.sz[U(v)]);
    Target t{g, std::vector<double>(n, 0.0)};
    for (std::size_t k = 0; k < states.size(); ++k) {
      std::size_t flat = 0;
      for (int v : g)
        flat = flat * U(s.sz[U(v)]) + states[k][U(v)];
      t.p[flat] += prob[k];
    }
    targets.push_back(t);
  };
  if (tot <= 81)
    target(hid);
  for (std::size_t a = 0; a < hid.size(); ++a) {
    target({hid[a]});
    for (std::size_t b = a + 1; b < hid.size(); ++b)
      target({hid[a], hid[b]});
  }
  EFG::strct::GibbsSampler::SamplesGenerationContext ctx;
  bool seeded = r.p(0.8);
  if (seeded)
    ctx.seed = U(r.p(0.3) ? r.ri(0, 100) : static_cast<long>(r.next() >> 33));
  ctx.delta_iterations = many ? 2 : multi ? 6 : 8;
  ctx.transient = 30;
  ctx.samples_number = many ? 500 : multi ? 1500 : 4000;
  auto make = [&] { return graph ? g.makeSamples(ctx, threads) : rf.makeSamples(ctx, threads); };
  auto worst = [&](const Samples &x, std::string &what) {
    double w = 0;
    for (auto &t : targets) {
      std::vector<double> cnt(t.p.size(), 0.0);
      for (auto &smp : x) {
        std::size_t flat = 0;
        for (int v : t.vars)
          flat = flat * U(s.sz[U(v)]) + smp[pos[U(v)]];
        cnt[flat] += 1;
      }
      double lp = compare(cnt, t.p);
      if (lp < w) {
        w = lp;
        for (auto &k : cnt)
          k /= static_cast<double>(x.size());
        what = cat("variables ", vec(t.vars), " observed ", vec(cnt), " expected ", vec(t.p), " log p ", lp);
      }
    }
    return w;
  };
  auto x = make();
  require(x.size() == ctx.samples_number, "samples-number", x.size());
  std::string what;
  double w = worst(x, what);
  c.st.add("samples", x.size());
  c.st.add("tables_compared", targets.size());
  c.st.maxi("minus_log_p", -w);
  if (w < -6) {
    // once more, with more draws (and others, when not seeded): it should converge
    c.st.add("second_stages");
    if (!seeded)
      usleep(1100000);
    ctx.samples_number *= 5;
    std::string what2;
    double w2 = worst(make(), what2);
    c.st.maxi("second_stage_minus_log_p", -w2);
    require(w2 > -15, "distribution", (seeded ? "seeded, " : "not seeded, "), "threads ", threads, ": ", what2);
  }
  // other seeds give other samples
  if (seeded && r.p(0.2)) {
    double same = 0; // log probability of a coincidence
    for (auto &t : targets)
      if (t.vars == hid) {
        double col = 0;
        for (auto p : t.p)
          col += p * p;
        same = 200 * std::log(std::max(col, 1e-9));
      }
    if (same < -30) {
      ctx.samples_number = 200;
      auto a = make();
      ctx.seed = *ctx.seed + U(r.ri(1, 1000));
      require(a != make(), "seed-ignored", "the same samples with another seed");
      c.st.add("seed_changes");
    }
  }
  c.st.add(seeded ? "seeded" : "not_seeded");
  c.st.add(cat("threads_", threads));
  c.nontrivial(signature(s) ^ threads);
}
