// C18: JSON round trip
#include "content.hpp"
#include "scratch.hpp"
#include <nlohmann/json.hpp>
#include <EasyFactorGraph/io/json/Exporter.h>
#include <EasyFactorGraph/io/json/Importer.h>
using namespace vf;
using EFG::io::json::Exporter;
using EFG::io::json::Importer;

// any valid UTF-8 name
static std::string weirdName(Rng &r, int k) {
  static const std::vector<std::string> bits = {
      "\"", "\\", "\n", "\t", "\r", "\b", "\f", "/", "{", "}", "[", "]", ":", ",", "'", " ", "\x01", "\x1f", "\x7f",
      "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\\u0041", "\\n", "null", "a", "Z", "0", "-", "%s", "<", ">", "&", ";",
      "\xc2\xa0"};
  std::string s;
  for (long n = r.ri(1, 6); n > 0; --n)
    s += r.pick(bits);
  return s + (r.p(0.8) ? std::to_string(k) : std::string(static_cast<std::size_t>(k) + 1, '_'));
}

static float anyFloat(Rng &r, bool negative) {
  switch (r.ri(0, 7)) {
  case 0: {
    // any finite pattern
    while (true) {
      auto b = static_cast<std::uint32_t>(r.next());
      float f;
      std::memcpy(&f, &b, 4);
      if (std::isfinite(f))
        return negative ? f : std::fabs(f);
    }
  }
  case 1:
    return static_cast<float>(r.ri(negative ? -20 : 0, 20));
  case 2:
    return 0.1f * static_cast<float>(r.ri(1, 30));
  case 3:
    return static_cast<float>(std::exp(r.uni(-80, 80)));
  case 4:
    return static_cast<float>(r.ri(16777000, 16777216));
  default:
    return static_cast<float>(r.uni(negative ? -5 : 0, 5));
  }
}

static nlohmann::json canonical(nlohmann::json j) {
  auto sorted = [](nlohmann::json &a) {
    if (a.is_null()) {
      a = nlohmann::json::array();
      return;
    }
    std::vector<nlohmann::json> v(a.begin(), a.end());
    std::sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.dump() < y.dump(); });
    a = v;
  };
  for (auto &p : j["Potentials"])
    if (p.contains("Distr_val"))
      sorted(p["Distr_val"]);
  sorted(j["Potentials"]);
  sorted(j["Variables"]);
  return j;
}

static void run(Ctx &c) {
  Rng &r = c.rng;
  GenOpt o;
  double u = r.uni();
  o.nmax = u < 0.7 ? 6 : (u < 0.97 ? 15 : 60);
  o.zeros = 0.5;
  o.loops = r.p(0.3) ? 3 : 0;
  Spec s = genModel(r, o);
  bool weird = r.p(0.6);
  if (weird) {
    std::set<std::string> used;
    for (std::size_t k = 0; k < s.nm.size(); ++k) {
      do
        s.nm[k] = weirdName(r, static_cast<int>(k));
      while (!used.insert(s.nm[k]).second);
    }
  }
  bool wild = r.p(0.5);
  if (wild) {
    for (auto &f : s.f) {
      if (!f.corr && !f.anti)
        for (auto &x : f.img)
          if (x != 0)
            x = anyFloat(r, false);
      if (f.kind != CONST)
        f.w = anyFloat(r, true);
      if (r.p(0.05))
        std::fill(f.img.begin(), f.img.end(), 0.f);
      if (f.img.empty())
        f.corr = f.anti = false;
    }
    for (auto &f : s.f)
      if (f.share >= 0)
        f.w = s.f[static_cast<std::size_t>(f.share)].w;
  }
  c.desc = s.str();
  RandomField m;
  Live l;
  build(m, s, l, r);
  auto before = contentOf(m);
  auto json = Exporter::exportToJson(m);
  require(contentOf(m) == before, "export-alters", contentOf(m).diff(before));
  auto file = scratch().file("m.json");
  auto read = [&](auto &dest, const RandomField &src) {
    switch (r.ri(0, 2)) {
    case 0:
      c.st.add("through_json");
      Importer::importFromJson(dest, json);
      break;
    case 1: {
      c.st.add("through_text");
      auto again = nlohmann::json::parse(json.dump(r.p(0.5) ? -1 : 2));
      Importer::importFromJson(dest, again);
      break;
    }
    case 2:
      c.st.add("through_file");
      Exporter::exportToFile(src, file);
      Importer::importFromFile(dest, file);
      break;
    }
  };
  {
    RandomField back;
    read(back, m);
    auto after = contentOf(back);
    require(after == before, "round-trip", before.diff(after));
    auto json2 = Exporter::exportToJson(back);
    require(canonical(json2) == canonical(json), "second-export", "differs from the first");
    c.st.add("round_trips");
    c.st.add("factors", s.f.size());
    c.st.add("shared_groups", [&] {
      std::uint64_t n = 0;
      for (auto &f : s.f)
        n += f.share >= 0;
      return n;
    }());
    // same answers, on well conditioned models
    if (!wild && r.p(0.3)) {
      Ref ref(s, s.ev);
      auto R = ref.run(false);
      if (R.possible && ref.all_trees)
        for (std::size_t k = 0; k < s.sz.size(); ++k) {
          auto d = back.getMarginalDistribution(s.nm[k]);
          require(within(distrError(d, R.belief[k]), 3e-5), "answers", "variable ", k, " got ", vec(d), " expected ",
                  vec(R.belief[k]));
          c.st.add("answers_compared");
        }
    }
  }
  // in a model with only constant factors
  {
    Graph g;
    read(g, m);
    auto after = contentOf(g);
    Content exp = before;
    for (auto &cl : exp.clusters)
      for (auto &f : cl)
        exp.consts.push_back(f);
    std::sort(exp.consts.begin(), exp.consts.end());
    exp.clusters.clear();
    exp.weights.clear();
    require(after == exp, "round-trip-graph", exp.diff(after));
    // a graph exported
    auto j2 = Exporter::exportToJson(g);
    RandomField back;
    Importer::importFromJson(back, j2);
    require(contentOf(back) == exp, "round-trip-graph", exp.diff(contentOf(back)));
  }
  // added to something already there
  if (r.p(0.3)) {
    GenOpt o2;
    o2.nmax = 3;
    o2.evs = 0;
    Spec s2 = genModel(r, o2);
    for (std::size_t k = 0; k < s2.nm.size(); ++k)
      s2.nm[k] = cat("already there ", k);
    RandomField dest;
    Live l2;
    build(dest, s2, l2, r);
    Content exp = contentOf(dest);
    read(dest, m);
    exp.vars.insert(exp.vars.end(), before.vars.begin(), before.vars.end());
    exp.consts.insert(exp.consts.end(), before.consts.begin(), before.consts.end());
    exp.clusters.insert(exp.clusters.end(), before.clusters.begin(), before.clusters.end());
    exp.weights.insert(exp.weights.end(), before.weights.begin(), before.weights.end());
    exp.evs = before.evs;
    std::sort(exp.vars.begin(), exp.vars.end());
    std::sort(exp.consts.begin(), exp.consts.end());
    require(contentOf(dest) == exp, "import-in-non-empty", exp.diff(contentOf(dest)));
    c.st.add("imports_in_non_empty");
  }
  // conditional fields can be exported too
  if (!s.ev.empty() && r.p(0.5)) {
    bool ok = true;
    for (auto &f : s.f) {
      bool onlyEv = true;
      for (int v : f.v)
        onlyEv = onlyEv && s.ev.count(v);
      ok = ok && !(f.kind == TUN && onlyEv);
    }
    if (ok) {
      ConditionalRandomField crf(m, r.p(0.5));
      auto cc = contentOf(crf, true);
      auto j2 = Exporter::exportToJson(crf);
      RandomField back;
      Importer::importFromJson(back, j2);
      require(contentOf(back, true) == cc, "round-trip-conditional", cc.diff(contentOf(back, true)));
      c.st.add("conditional_fields");
    }
  }
  c.nontrivial(signature(s) ^ hashStr(s.nm[0]));
}
VF_MAIN("C18", run)
