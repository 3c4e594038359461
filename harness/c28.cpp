// C28: XML files
#include "content.hpp"
#include "scratch.hpp"
#include <optional>
#include <EasyFactorGraph/io/xml/Exporter.h>
#include <EasyFactorGraph/io/xml/Importer.h>
using namespace vf;
using EFG::io::xml::Exporter;
using EFG::io::xml::Importer;
static std::size_t U(long x) { return static_cast<std::size_t>(x); }

namespace {
std::string readFile(const std::string &p) {
  std::ifstream f(p);
  std::stringstream b;
  b << f.rdbuf();
  return b.str();
}

std::string number(float f, Rng &r) {
  char b[64];
  std::snprintf(b, sizeof b, r.p(0.5) ? "%.9g" : "%.12e", static_cast<double>(f));
  return b;
}

// the order of the variables of a factor is not relevant, nor the one of the clusters
std::string canonicalFactor(const Immutable &f) {
  auto *e = dynamic_cast<const FactorExponential *>(&f);
  std::string s = e ? "exp w=" + hexf(e->getWeight()) : std::string("plain");
  auto vars = f.function().vars().getVariables();
  std::vector<std::size_t> order(vars.size());
  for (std::size_t k = 0; k < order.size(); ++k)
    order[k] = k;
  std::sort(order.begin(), order.end(), [&](auto a, auto b) { return vars[a]->name() < vars[b]->name(); });
  std::map<std::vector<std::size_t>, std::string> img;
  f.function().forEachCombination<false>([&](const std::vector<std::size_t> &comb, float x) {
    std::vector<std::size_t> k;
    for (auto o : order)
      k.push_back(comb[o]);
    img[k] = hexf(x);
  });
  for (auto o : order)
    s += cat(" {", vars[o]->name(), "}:", vars[o]->size());
  for (auto &[k, v] : img)
    s += " " + v;
  return s;
}

struct Canonical {
  std::vector<std::string> vars, consts;
  std::vector<std::vector<std::string>> clusters;
  bool operator==(const Canonical &o) const { return vars == o.vars && consts == o.consts && clusters == o.clusters; }
  std::string str() const {
    std::string s = "variables " + vec(vars) + " consts " + vec(consts) + " clusters";
    for (auto &c : clusters)
      s += " " + vec(c);
    return s;
  }
};

template <typename M> Canonical canonical(const M &m, bool flat = false) {
  Canonical c;
  for (auto &v : m.getAllVariables()) {
    auto it = m.getEvidences().find(v);
    c.vars.push_back(cat(v->name(), ":", v->size(), it == m.getEvidences().end() ? std::string() : cat("=", it->second)));
  }
  for (auto &f : m.getConstFactors())
    c.consts.push_back(canonicalFactor(*f));
  if constexpr (std::is_base_of_v<EFG::train::FactorsTunableGetter, M>)
    for (auto &cl : m.getTunableClusters()) {
      c.clusters.emplace_back();
      if (auto *f = std::get_if<EFG::train::FactorExponentialPtr>(&cl))
        c.clusters.back().push_back(canonicalFactor(**f));
      else
        for (auto &f : std::get<EFG::train::TunableClusters>(cl))
          c.clusters.back().push_back(canonicalFactor(*f));
    }
  if (flat) {
    for (auto &cl : c.clusters)
      c.consts.insert(c.consts.end(), cl.begin(), cl.end());
    c.clusters.clear();
  }
  for (auto &cl : c.clusters)
    std::sort(cl.begin(), cl.end());
  std::sort(c.vars.begin(), c.vars.end());
  std::sort(c.consts.begin(), c.consts.end());
  std::sort(c.clusters.begin(), c.clusters.end());
  return c;
}

// a document written by a user, the factors possibly in separate files
struct Doc {
  std::vector<std::string> vars, pots;
  std::string text() const {
    std::string s = "<Model>\n";
    for (auto &v : vars)
      s += v + "\n";
    for (auto &p : pots)
      s += p + "\n";
    return s + "</Model>\n";
  }
};

std::string attr(const std::string &k, const std::string &v) { return " " + k + "=\"" + v + "\""; }

Doc write(Ctx &c, const Spec &s) {
  Rng &r = c.rng;
  Doc d;
  for (std::size_t k = 0; k < s.sz.size(); ++k) {
    auto it = s.ev.find(static_cast<int>(k));
    d.vars.push_back("<Variable" + attr("name", s.nm[k]) + attr("Size", std::to_string(s.sz[k])) +
                     (it == s.ev.end() ? std::string() : attr("evidence", std::to_string(it->second))) + "/>");
  }
  int files = 0;
  for (auto &f : s.f) {
    std::string a;
    for (int v : f.v)
      a += attr("var", s.nm[U(v)]);
    if (f.kind != CONST)
      a += attr("weight", number(f.w, r));
    if (f.kind == TUN)
      a += attr("tunability", "Y");
    else if (f.kind == CEXP && r.p(0.5))
      a += attr("tunability", "N");
    std::string nested;
    if (f.share >= 0) {
      nested += "<Share";
      for (int v : s.f[U(rootOf(s, f))].v)
        nested += attr("var", s.nm[U(v)]);
      nested += "/>";
    }
    auto comb = [&](std::size_t flat) {
      std::vector<std::size_t> x;
      if (f.v.size() == 1)
        x = {flat};
      else
        x = {flat / U(s.sz[U(f.v[1])]), flat % U(s.sz[U(f.v[1])])};
      return x;
    };
    if (f.corr || f.anti)
      a += attr("Correlation", f.corr ? "T" : "F");
    else if (f.v.size() == 1 && r.p(0.3)) {
      // (the order of the columns is the one of the variables read: for one variable there is no doubt)
      std::string name = cat("values_", files++, ".txt"), content;
      if (r.p(0.1)) {
        std::filesystem::create_directories(scratch().dir / "nested");
        name = "nested/" + name;
      }
      for (std::size_t k = 0; k < f.img.size(); ++k)
        if (f.img[k] != 0 || r.p(0.5)) {
          content += cat(k, r.p(0.5) ? " " : "\t", number(f.img[k], r), r.p(0.8) ? "\n" : " \r\n");
          if (r.p(0.1))
            content += r.pick(std::vector<std::string>{"\n", "  \n", "\t\n"});
        }
      writeFile(scratch().file(name), content);
      a += attr("Source", name);
      c.st.add("source_files");
    } else
      for (std::size_t k = 0; k < f.img.size(); ++k)
        if (f.img[k] != 0 || r.p(0.2)) {
          nested += "<Distr_val";
          bool first = r.p(0.5);
          if (first)
            nested += attr("D", number(f.img[k], r));
          for (auto x : comb(k))
            nested += attr("v", std::to_string(x));
          if (!first)
            nested += attr("D", number(f.img[k], r));
          nested += "/>";
        }
    d.pots.push_back("<Potential" + a + (nested.empty() ? std::string("/>") : ">" + nested + "</Potential>"));
  }
  return d;
}

template <typename M> bool refused(M &m, const std::string &file) {
  try {
    Importer::importFromFile(m, file);
  } catch (const std::exception &) {
    return true;
  }
  return false;
}

void replaceFirst(std::string &s, const std::string &from, const std::string &to, const char *what) {
  auto p = s.find(from);
  if (p == std::string::npos)
    throw HarnessError{cat("can't break the document: ", what)};
  s.replace(p, from.size(), to);
}

void inconsistent(Ctx &c, const Spec &s) {
  Rng &r = c.rng;
  Doc d = write(c, s);
  auto k = U(r.ri(0, static_cast<long>(s.sz.size()) - 1));
  // a variable that some factor uses
  k = U(s.f[U(r.ri(0, static_cast<long>(s.f.size()) - 1))].v[0]);
  auto &v = d.vars[k];
  auto size = attr("Size", std::to_string(s.sz[k]));
  std::string var = attr("var", s.nm[k]);
  auto pot = [&](const std::string &a, const std::string &in) {
    d.pots.push_back("<Potential" + a + ">" + in + "</Potential>");
  };
  auto val = [](const std::string &v, const std::string &x) {
    return "<Distr_val" + (v.empty() ? v : attr("v", v)) + (x.empty() ? x : attr("D", x)) + "/>";
  };
  std::string what;
  switch (r.ri(0, 16)) {
  case 0:
    replaceFirst(v, attr("name", s.nm[k]), "", "name");
    what = "no-name";
    break;
  case 1:
    replaceFirst(v, size, "", "size");
    what = "no-size";
    break;
  case 2:
    replaceFirst(v, size, attr("Size", r.pick(std::vector<std::string>{"0", "-1", "-7", "abc", ""})), "size");
    what = "bad-size";
    break;
  case 3:
    d.vars.push_back(v);
    what = "variable-twice";
    break;
  case 4:
    d.vars.push_back("<Variable" + attr("name", s.nm[k]) + attr("Size", std::to_string(s.sz[k] + 1)) + "/>");
    what = "variable-twice-other-size";
    break;
  case 5:
    pot(attr("var", "unknown_one"), val("0", "1"));
    what = "unknown-variable";
    break;
  case 6:
    pot("", val("0", "1"));
    what = "no-variables";
    break;
  case 7:
    d.vars.push_back("<Variable" + attr("name", "the_other") + size + "/>");
    pot(var + attr("var", "the_other") + attr("Correlation", r.pick(std::vector<std::string>{"Y", "", "t", "TF"})), "");
    what = "bad-correlation";
    break;
  case 8:
    pot(var, val(r.p(0.7) ? std::to_string(s.sz[k] + static_cast<int>(r.ri(0, 3))) : std::string("4294967296"), "1"));
    what = "value-out-of-domain";
    break;
  case 9:
    pot(var, val("-1", "1"));
    what = "negative-value";
    break;
  case 10:
    pot(var, val("0", ""));
    what = "no-image";
    break;
  case 11:
    pot(var, val("", "1"));
    what = "no-combination";
    break;
  case 12:
    pot(var, val("0", "-0.5"));
    what = "negative-image";
    break;
  case 13:
    pot(var + attr("Source", "missing.txt"), "");
    what = "missing-source";
    break;
  case 14: {
    static const std::vector<std::string> bad = {"0 0 1\n", "3\n", "0\n", "0 -1\n", "-1 1\n", "\f\n", "\v\n", "9999 1\n", "4294967296 1\n", "18446744073709551616 1\n",
                                                 "0 1\n0 0 1\n", "\x0b \x0c\n"};
    writeFile(scratch().file("bad.txt"), r.pick(bad));
    pot(var + attr("Source", "bad.txt"), "");
    what = "bad-source";
    break;
  }
  case 15:
    pot(var + attr("weight", "1") + attr("tunability", "Y"), val("0", "1") + "<Share" + attr("var", "unknown_one") + "/>");
    what = "unknown-share";
    break;
  default: {
    auto p = v.find(" evidence=");
    if (p != std::string::npos)
      v = v.substr(0, p) + "/>";
    v = v.substr(0, v.size() - 2) + attr("evidence", r.pick(std::vector<std::string>{std::to_string(s.sz[k]), "-1", "100000", "4294967296", "18446744073709551616"})) + "/>";
    what = "evidence-out-of-domain";
  }
  }
  auto file = scratch().file("bad.xml");
  writeFile(file, d.text());
  c.desc = d.text().substr(0, 4000);
  RandomField m;
  require(refused(m, file), cat("accepted-", what), "an inconsistent document was accepted");
  if (what != "unknown-share") {
    Graph g;
    require(refused(g, file), cat("accepted-", what), "an inconsistent document was accepted by a graph");
  }
  // still coherent
  std::set<std::string> names;
  for (auto &v : m.getAllVariables())
    require(v->size() > 0 && names.insert(v->name()).second, "coherence", v->name());
  for (auto &f : m.getAllFactors())
    for (auto &v : f->function().vars().getVariables())
      require(m.findVariable(v->name()) == v, "coherence", "factor of an unknown variable");
  c.st.add(cat("refused_", what));
}

void hostile(Ctx &c, const Spec &s) {
  Rng &r = c.rng;
  std::string t = write(c, s).text();
  for (int rep = 0; rep < 6; ++rep) {
    std::string x = t;
    for (long k = r.ri(1, 4); k > 0; --k) {
      auto pos = U(r.ri(0, static_cast<long>(x.size()) - 1));
      switch (r.ri(0, 3)) {
      case 0:
        x[pos] = static_cast<char>(r.ri(1, 255));
        break;
      case 1:
        x.erase(pos, U(r.ri(1, 10)));
        break;
      case 2:
        x.insert(pos, x.substr(U(r.ri(0, static_cast<long>(x.size()) - 1)), U(r.ri(1, 40))));
        break;
      default:
        x[pos] = r.pick(std::vector<char>{'"', '<', '>', '/', '=', '-', '0', '9', ' '});
      }
      if (x.empty())
        x = " ";
    }
    // a huge domain makes some of the legitimate operations endless
    bool huge = false;
    for (auto p = x.find("Size"); p != std::string::npos; p = x.find("Size", p + 1)) {
      auto q = x.find('"', p);
      huge = huge || (q != std::string::npos && std::atof(x.c_str() + q + 1) > 64);
    }
    if (huge)
      continue;
    auto file = scratch().file("hostile.xml");
    writeFile(file, x);
    c.desc = x.substr(0, 4000);
    RandomField m;
    bool no = refused(m, file);
    c.st.add(no ? "hostile_refused" : "hostile_accepted");
    std::set<std::string> names;
    for (auto &v : m.getAllVariables())
      require(v->size() > 0 && v->size() <= 64 && names.insert(v->name()).second, "coherence", v->name());
    for (auto &[v, e] : m.getEvidences())
      require(e < v->size(), "coherence", "evidence out of domain");
    for (auto &v : m.getAllVariables())
      m.getMarginalDistribution(v);
  }
}

void run(Ctx &c) {
  Rng &r = c.rng;
  GenOpt o;
  o.nmax = r.p(0.8) ? 6 : (r.p(0.95) ? 14 : 60);
  o.maxsz = 4;
  o.zeros = 0.4;
  o.range = 3;
  o.loops = r.p(0.3) ? 3 : 0;
  Spec s = genModel(r, o);
  for (std::size_t k = 0; k < s.nm.size(); ++k)
    s.nm[k] = cat(r.p(0.5) ? "V" : "some_variable_", k);
  bool wild = r.p(0.4);
  if (wild)
    for (auto &f : s.f) {
      if (!f.corr && !f.anti)
        for (auto &x : f.img)
          if (x != 0)
            x = static_cast<float>(r.p(0.5) ? std::exp(r.uni(-60, 60)) : r.uni(0, 4));
      if (f.kind != CONST)
        f.w = static_cast<float>(r.p(0.5) ? r.uni(-2, 2) : r.uni(-1e-6, 1e-6));
    }
  if (wild)
    for (auto &f : s.f)
      if (f.share >= 0)
        f.w = s.f[U(rootOf(s, f))].w;
  // the tags are not read in the order they are written: such groups can't be described by a file
  if (ambiguous(s, true))
    for (auto &f : s.f)
      f.share = -1;
  c.desc = s.str();
  if (r.p(0.3)) {
    inconsistent(c, s);
    c.nontrivial(signature(s) ^ 5);
    return;
  }
  if (r.p(0.15)) {
    hostile(c, s);
    return;
  }
  RandomField m;
  Live l;
  build(m, s, l, r);
  auto before = contentOf(m);
  auto expected = canonical(m), flat = canonical(m, true);
  // exported and read again
  auto file = scratch().file("m.xml");
  EFG::io::xml::ExportInfo info{file, "TheModel"};
  Exporter::exportToFile(m, info);
  require(contentOf(m) == before, "export-alters", contentOf(m).diff(before));
  require(readFile(file) == Exporter::exportToString(m, "TheModel"), "file-and-string", "different documents");
  auto verify = [&](const char *key) {
    std::optional<InScratch> moved;
    std::string path = file;
    if (r.p(0.25)) {
      moved.emplace();
      path = InScratch::relative("m.xml", r);
      c.st.add("relative_paths");
    }
    RandomField back;
    Importer::importFromFile(back, path);
    auto got = canonical(back);
    require(got == expected, key, "from ", path, "expected ", expected.str(), "\n got ", got.str());
    Graph g;
    Importer::importFromFile(g, path);
    auto got2 = canonical(g);
    require(got2 == flat, key, "in a graph: expected ", flat.str(), "\n got ", got2.str());
    if (!wild && r.p(0.3)) {
      Ref ref(s, s.ev);
      auto R = ref.run(false);
      if (R.possible && ref.all_trees)
        for (std::size_t k = 0; k < s.sz.size(); ++k) {
          auto d = back.getMarginalDistribution(s.nm[k]);
          require(within(distrError(d, R.belief[k]), 3e-5), "answers", "variable ", k, " got ", vec(d), " expected ",
                  vec(R.belief[k]));
          c.st.add("answers_compared");
        }
    }
    c.st.add("imports");
    c.st.add("factors", s.f.size());
  };
  verify("round-trip");
  c.st.add("round_trips");
  // other kinds of models
  if (r.p(0.3)) {
    Graph g;
    Live lg;
    build(g, s, lg, r);
    auto exp = canonical(g);
    auto other = scratch().file("g.xml");
    EFG::io::xml::ExportInfo where{other, "TheGraph"};
    Exporter::exportToFile(g, where);
    require(canonical(g) == exp, "export-alters", "a graph");
    Graph back;
    Importer::importFromFile(back, other);
    auto got = canonical(back);
    require(got == exp, "round-trip", "of a graph: expected ", exp.str(), "\n got ", got.str());
    RandomField field;
    Importer::importFromFile(field, other);
    auto got2 = canonical(field);
    require(got2 == exp, "round-trip", "of a graph in a field: expected ", exp.str(), "\n got ", got2.str());
    c.st.add("graphs");
  } else if (r.p(0.3)) {
    std::unique_ptr<ConditionalRandomField> crf;
    try {
      crf = std::make_unique<ConditionalRandomField>(m, r.p(0.5));
    } catch (const EFG::Error &) {
      // not a valid source
    }
    if (crf) {
      auto exp = canonical(*crf);
      auto other = scratch().file("c.xml");
      EFG::io::xml::ExportInfo where{other, "TheField"};
      Exporter::exportToFile(*crf, where);
      require(canonical(*crf) == exp, "export-alters", "a conditional field");
      RandomField back;
      Importer::importFromFile(back, other);
      auto got = canonical(back);
      require(got == exp, "round-trip", "of a conditional field: expected ", exp.str(), "\n got ", got.str());
      c.st.add("conditional_fields");
    }
  }
  // written by hand
  if (ambiguous(s, false)) {
    c.nontrivial(signature(s));
    return;
  }
  {
    // what is copied in a model is not exponential any more, while here it is
    RandomField direct;
    Live l2;
    l2.makeVars(s, r);
    for (auto &f : s.f) {
      auto shape = makeShape(s, f, l2, r);
      if (f.kind == CONST)
        direct.addConstFactor(shape);
      else if (f.kind == CEXP)
        direct.addConstFactor(std::make_shared<FactorExponential>(*shape, f.w));
      else
        direct.addTunableFactor(std::make_shared<FactorExponential>(*shape, f.w), sharingOf(s, f, l2));
    }
    for (auto &[v, x] : s.ev)
      direct.setEvidence(l2.var[U(v)], x);
    expected = canonical(direct);
    flat = canonical(direct, true);
  }
  Doc d = write(c, s);
  if (r.p(0.5)) {
    // the factors owning the shared weights can come later
    for (std::size_t k = d.pots.size(); k > 1; --k)
      std::swap(d.pots[k - 1], d.pots[U(r.ri(0, static_cast<long>(k) - 1))]);
    for (std::size_t k = d.vars.size(); k > 1; --k)
      std::swap(d.vars[k - 1], d.vars[U(r.ri(0, static_cast<long>(k) - 1))]);
  }
  writeFile(file, d.text());
  c.desc = d.text().substr(0, 5000);
  verify("document");
  c.st.add("documents");
  c.nontrivial(signature(s));
}
} // namespace
VF_MAIN("C28", run)
