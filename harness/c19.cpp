// C19: hostile JSON documents
#include "content.hpp"
#include "scratch.hpp"
#include <nlohmann/json.hpp>
#include <EasyFactorGraph/io/json/Exporter.h>
#include <EasyFactorGraph/io/json/Importer.h>
using namespace vf;
using EFG::io::json::Exporter;
using EFG::io::json::Importer;
using J = nlohmann::json;

static std::size_t U(long x) { return static_cast<std::size_t>(x); }

// a huge domain makes some of the legitimate operations endless
static bool huge(const J &j) {
  if (!j.is_object() || !j.contains("Variables"))
    return false;
  const auto &vars = j["Variables"];
  if (!vars.is_structured())
    return false;
  for (auto &v : vars)
    if (v.is_object() && v.contains("Size") && v["Size"].is_string() &&
        std::strtoll(v["Size"].get<std::string>().c_str(), nullptr, 10) > 64)
      return true;
  return false;
}

// a value out of the domain, possibly in it once truncated to fewer bits
static std::string beyond(long size, Rng &r) {
  switch (r.ri(0, 4)) {
  case 0:
    return cat(4294967296L + r.ri(0, size - 1));
  case 1:
    return r.pick(std::vector<std::string>{"18446744073709551616", "18446744073709551617", "9223372036854775808", "340282366920938463463374607431768211456"});
  default:
    return cat(size + r.ri(0, 3));
  }
}

// whatever happened, the model is coherent and can be used
template <typename M> static void usable(Ctx &c, M &m, bool small) {
  std::set<std::string> names;
  bool tame = true;
  for (auto &v : m.getAllVariables()) {
    require(v != nullptr && !v->name().empty() && v->size() > 0, "coherence", "invalid variable");
    require(names.insert(v->name()).second, "coherence", "name repeated: ", v->name());
    require(m.findVariable(v->name()) == v, "coherence", "variable not found ", v->name());
  }
  for (auto &[v, x] : m.getEvidences()) {
    require(names.count(v->name()) > 0, "coherence", "evidence on an unknown variable");
    require(x < v->size(), "coherence", "evidence out of domain: ", x);
  }
  std::set<std::pair<std::string, std::string>> pairs;
  for (auto &f : m.getAllFactors()) {
    auto &vars = f->function().vars().getVariables();
    require(vars.size() == 1 || vars.size() == 2, "coherence", "factor with ", vars.size(), " variables");
    for (auto &v : vars)
      require(m.findVariable(v->name()) == v, "coherence", "factor of an unknown variable");
    if (vars.size() == 2)
      require(pairs.insert(std::minmax(vars[0]->name(), vars[1]->name())).second, "coherence", "pair connected twice");
    f->function().template forEachNonNullCombination<false>([&](const std::vector<std::size_t> &comb, float img) {
      for (std::size_t k = 0; k < comb.size(); ++k)
        require(comb[k] < vars[k]->size(), "coherence", "combination out of domain");
      require(!(img < 0), "coherence", "negative image ", img);
      tame = tame && img < 50.f && img > 0.f;
    });
    if (auto *e = dynamic_cast<const FactorExponential *>(f.get()))
      tame = tame && std::fabs(e->getWeight()) < 3;
  }
  require(m.getHiddenVariables().size() + m.getEvidences().size() == m.getAllVariables().size(), "coherence", "sets");
  if (!small)
    return;
  tame = tame && m.getAllFactors().size() < 60;
  auto vars = m.getAllVariables();
  for (auto &v : vars) {
    auto d = m.getMarginalDistribution(v);
    require(d.size() == v->size(), "usable", "distribution of ", d.size());
    if (tame)
      checkDistribution(d, v->size(), "usable");
  }
  c.st.add("models_queried");
  if (!vars.empty()) {
    m.setEvidence(vars[0], 0);
    m.getHiddenSetMAP();
    m.removeEvidence(vars[0]);
    EFG::strct::GibbsSampler::SamplesGenerationContext g;
    g.samples_number = 2;
    g.seed = 3;
    m.makeSamples(g);
  }
}

template <typename M> static void attempt(Ctx &c, const std::string *text, const J *doc, const char *what, bool mustThrow) {
  M m;
  bool thrown = false;
  try {
    if (text) {
      auto f = scratch().file("h.json");
      writeFile(f, *text);
      Importer::importFromFile(m, f);
    } else
      Importer::importFromJson(m, *doc);
  } catch (const std::exception &) {
    thrown = true;
  } catch (...) {
    fail("strange-exception", "not a std::exception");
  }
  c.st.add(thrown ? "refused" : "accepted");
  if (mustThrow) {
    require(thrown, cat("accepted-", what), "an inconsistent document was accepted");
    c.st.add(cat("refused_", what));
  }
  bool small = true;
  for (auto &v : m.getAllVariables())
    small = small && v->size() <= 64;
  usable(c, m, small);
  if (!thrown && small && !mustThrow) {
    // what was accepted can be written and read again
    auto before = contentOf(m);
    bool finite = true;
    for (auto &f : m.getAllFactors())
      f->function().template forEachNonNullCombination<false>([&](const auto &, float x) { finite = finite && std::isfinite(x); });
    std::set<std::set<std::string>> owners;
    if (finite) {
      M back;
      Importer::importFromJson(back, Exporter::exportToJson(m));
      auto after = contentOf(back);
      std::sort(before.clusters.begin(), before.clusters.end());
      std::sort(after.clusters.begin(), after.clusters.end());
      require(before.vars == after.vars && before.evs == after.evs && before.consts == after.consts, "accepted-round-trip",
              before.diff(after));
      c.st.add("accepted_round_trips");
    }
  }
}

static void attemptAny(Ctx &c, const std::string *text, const J *doc, const char *what, bool mustThrow, bool graphToo = true) {
  attempt<RandomField>(c, text, doc, what, mustThrow);
  if (graphToo && c.rng.p(0.3))
    attempt<Graph>(c, text, doc, what, mustThrow);
}

static J randomJson(Rng &r, int depth) {
  static const std::vector<std::string> keys = {"Variables", "Potentials", "name",       "Size", "evidence", "D",
                                                "v",         "weight",     "tunability", "Share", "Distr_val", "Correlation"};
  static const std::vector<std::string> words = {"A", "B", "2", "3", "-1", "0", "Y", "N", "T", "F", "", "1e5", "0x3", "99999999999999999999"};
  switch (depth <= 0 ? r.ri(0, 3) : r.ri(0, 7)) {
  case 0:
    return J();
  case 1:
    return J(r.ri(-5, 5));
  case 2:
    return J(r.pick(words));
  case 3:
    return r.p(0.5) ? J(true) : J(1.5);
  case 4: {
    J a = J::array();
    for (long k = r.ri(0, 3); k > 0; --k)
      a.push_back(randomJson(r, depth - 1));
    return a;
  }
  default: {
    J o = J::object();
    for (long k = r.ri(0, 4); k > 0; --k)
      o[r.pick(keys)] = randomJson(r, depth - 1);
    return o;
  }
  }
}

// all the nodes of a document
static void nodes(J &j, std::vector<J *> &out) {
  out.push_back(&j);
  if (j.is_structured())
    for (auto &x : j)
      nodes(x, out);
}

static J wrongType(Rng &r) {
  switch (r.ri(0, 5)) {
  case 0:
    return J(3);
  case 1:
    return J(true);
  case 2:
    return J::array({"x", 2});
  case 3:
    return J::object({{"a", "b"}});
  case 4:
    return J(2.5);
  default:
    return J();
  }
}

static void run(Ctx &c) {
  Rng &r = c.rng;
  GenOpt o;
  o.nmax = r.p(0.8) ? 5 : (r.p(0.95) ? 12 : 50);
  o.maxsz = 4;
  o.huge = false;
  o.zeros = 0.4;
  o.range = 3;
  o.loops = r.p(0.2) ? 2 : 0;
  Spec s = genModel(r, o);
  RandomField m;
  Live l;
  build(m, s, l, r);
  auto before = contentOf(m);
  J doc = Exporter::exportToJson(m);
  c.desc = doc.dump().substr(0, 3000);
  std::uint64_t sig = signature(s);
  long what = r.ri(0, 9);
  if (what <= 2) {
    // text level
    std::string t = doc.dump(r.p(0.5) ? -1 : 1);
    switch (r.ri(0, 4)) {
    case 0: {
      // every truncation of some documents, a few of the others
      std::vector<std::size_t> cuts;
      if (t.size() < 300 || r.p(0.02))
        for (std::size_t k = 0; k < t.size(); k += U(t.size() < 300 ? 1 : r.ri(1, 20)))
          cuts.push_back(k);
      else
        for (int k = 0; k < 6; ++k)
          cuts.push_back(U(r.ri(0, static_cast<long>(t.size()) - 1)));
      for (auto k : cuts) {
        auto x = t.substr(0, k);
        attemptAny(c, &x, nullptr, "truncated", true);
        sig ^= k * 131;
      }
      break;
    }
    case 1:
    case 2: {
      for (int rep = 0; rep < 8; ++rep) {
        std::string x = t;
        for (long k = r.ri(1, 4); k > 0; --k) {
          auto pos = U(r.ri(0, static_cast<long>(x.size()) - 1));
          switch (r.ri(0, 4)) {
          case 0:
            x[pos] = static_cast<char>(r.ri(0, 255));
            break;
          case 1:
            x.erase(pos, U(r.ri(1, 6)));
            break;
          case 2:
            x.insert(pos, x.substr(U(r.ri(0, static_cast<long>(x.size()) - 1)), U(r.ri(1, 30))));
            break;
          case 3:
            x[pos] = r.pick(std::vector<char>{'"', '{', '}', '[', ']', ',', ':', '-', '0', '9', '\\', 'n', '\0'});
            break;
          case 4:
            std::swap(x[pos], x[U(r.ri(0, static_cast<long>(x.size()) - 1))]);
            break;
          }
          if (x.empty())
            x = " ";
        }
        J parsed = J::parse(x, nullptr, false);
        if (!parsed.is_discarded() && huge(parsed)) {
          c.st.add("skipped_huge");
          continue;
        }
        attemptAny(c, &x, nullptr, "invalid-text", parsed.is_discarded());
        c.st.add("mutated_texts");
        sig ^= hashStr(x);
      }
      break;
    }
    case 3: {
      std::string x;
      switch (r.ri(0, 5)) {
      case 0:
        break;
      case 1:
        x = std::string(U(r.ri(1, 20000)), '[');
        break;
      case 2: {
        auto n = U(r.ri(1, 20000));
        x = std::string(n, '[') + std::string(n, ']');
        break;
      }
      case 3:
        x = t + t;
        break;
      case 4:
        for (long k = r.ri(1, 300); k > 0; --k)
          x += static_cast<char>(r.ri(0, 255));
        break;
      case 5:
        x = r.pick(std::vector<std::string>{"null", "{}", "[]", "3", "\"a\"", "{\"Variables\":[]}", "{\"Potentials\":[]}", "\xef\xbb\xbf", "\n"});
        break;
      }
      attemptAny(c, &x, nullptr, "not-a-model", true);
      sig ^= hashStr(x);
      break;
    }
    case 4: {
      // missing file, folder
      RandomField dest;
      bool thrown = false;
      try {
        Importer::importFromFile(dest, r.p(0.5) ? scratch().file("missing.json") : scratch().dir.string());
      } catch (const std::exception &) {
        thrown = true;
      }
      require(thrown, "missing-file", "accepted");
      require(dest.getAllVariables().empty(), "missing-file", "variables appeared");
      c.st.add("missing_files");
      // an output that can't be written
      thrown = false;
      try {
        Exporter::exportToFile(m, scratch().file("no/such/folder/a.json"));
      } catch (const std::exception &) {
        thrown = true;
      }
      require(thrown, "unwritable-file", "accepted");
      return;
    }
    }
  } else if (what == 3) {
    // random documents
    for (int rep = 0; rep < 20; ++rep) {
      J d = randomJson(r, static_cast<int>(r.ri(1, 4)));
      if (r.p(0.5)) {
        J x = J::object();
        x["Variables"] = d;
        x["Potentials"] = randomJson(r, 3);
        d = x;
      }
      attemptAny(c, nullptr, &d, "random", false);
      c.st.add("random_documents");
      sig ^= hashStr(d.dump());
    }
  } else if (what == 4) {
    // random replacements and deletions inside a good document
    for (int rep = 0; rep < 10; ++rep) {
      J d = doc;
      for (long k = r.ri(1, 3); k > 0; --k) {
        std::vector<J *> all;
        nodes(d, all);
        J *x = all[U(r.ri(1, static_cast<long>(all.size()) - 1))];
        switch (r.ri(0, 4)) {
        case 0:
          *x = randomJson(r, 2);
          break;
        case 1:
          if (x->is_structured() && !x->empty()) {
            if (x->is_object()) {
              auto it = x->begin();
              std::advance(it, r.ri(0, static_cast<long>(x->size()) - 1));
              x->erase(it);
            } else
              x->erase(U(r.ri(0, static_cast<long>(x->size()) - 1)));
          }
          break;
        case 2: {
          J copy = *all[U(r.ri(0, static_cast<long>(all.size()) - 1))];
          *x = copy;
          break;
        }
        case 3:
          if (x->is_array() && !x->empty())
            x->push_back(J((*x)[U(r.ri(0, static_cast<long>(x->size()) - 1))]));
          break;
        case 4:
          if (x->is_string())
            *x = r.pick(std::vector<std::string>{"", "-1", "0", "1", "2", "7", "abc", "1e30", "nan", "inf", "-0", "2147483648", "4294967296", "18446744073709551615", "0.5"});
          break;
        }
      }
      if (huge(d)) {
        c.st.add("skipped_huge");
        continue;
      }
      attemptAny(c, nullptr, &d, "mutated", false);
      c.st.add("mutated_documents");
      sig ^= hashStr(d.dump());
    }
  } else if (what <= 7) {
    // documents that are surely inconsistent
    auto &vars = doc["Variables"];
    auto &pots = doc["Potentials"];
    auto &v = vars[U(r.ri(0, static_cast<long>(vars.size()) - 1))];
    auto &p = pots[U(r.ri(0, static_cast<long>(pots.size()) - 1))];
    auto arity = p["Variables"].size();
    J *val = nullptr;
    if (p.contains("Distr_val") && p["Distr_val"].is_array() && !p["Distr_val"].empty())
      val = &p["Distr_val"][U(r.ri(0, static_cast<long>(p["Distr_val"].size()) - 1))];
    auto sizeOf = [&](const std::string &n) {
      for (auto &x : vars)
        if (x["name"] == n)
          return std::atoi(x["Size"].get<std::string>().c_str());
      return 0;
    };
    const char *name = nullptr;
    bool graphToo = true;
    auto kind = r.ri(0, 26);
    switch (kind) {
    case 0:
      doc.erase("Variables");
      name = "no-variables";
      break;
    case 1:
      doc.erase("Potentials");
      name = "no-potentials";
      break;
    case 2:
      v.erase("name");
      name = "no-name";
      break;
    case 3:
      v.erase("Size");
      name = "no-size";
      break;
    case 4:
      v["name"] = wrongType(r);
      name = "name-type";
      break;
    case 5:
      v["Size"] = wrongType(r);
      name = "size-type";
      break;
    case 6:
      v["Size"] = r.pick(std::vector<std::string>{"0", "-1", "-3", "", "none", "-2147483648", "-4294967294", "36893488147419103234"});
      name = "size-value";
      break;
    case 7:
      v["evidence"] = beyond(sizeOf(v["name"]), r);
      name = "evidence-out-of-domain";
      break;
    case 8:
      v["evidence"] = r.pick(std::vector<std::string>{"-1", "-2147483648", "-4294967296", "-18446744073709551615"});
      name = "evidence-negative";
      break;
    case 9:
      v["evidence"] = wrongType(r);
      name = "evidence-type";
      break;
    case 10: {
      J copy = v;
      if (r.p(0.5))
        copy["Size"] = cat(sizeOf(v["name"]) + 1);
      vars.push_back(copy);
      name = "variable-repeated";
      break;
    }
    case 11:
      v["name"] = "";
      name = "empty-name";
      break;
    case 12:
      p.erase("Variables");
      name = "potential-without-variables";
      break;
    case 13:
      p["Variables"][U(r.ri(0, static_cast<long>(arity) - 1))] = "surely unknown";
      name = "unknown-variable";
      break;
    case 14:
      p["Variables"] = J::array();
      name = "empty-group";
      break;
    case 15:
      if (arity == 2) {
        p["Variables"][0] = p["Variables"][1];
        name = "variable-twice-in-group";
      }
      break;
    case 16: {
      // a third variable
      for (auto &x : vars)
        if (p["Variables"].size() < 3 && std::count(p["Variables"].begin(), p["Variables"].end(), x["name"]) == 0)
          p["Variables"].push_back(x["name"]);
      if (p["Variables"].size() == 3)
        name = "three-variables";
      break;
    }
    case 17:
      p.erase("Distr_val");
      name = "no-values";
      break;
    case 18:
      if (val) {
        val->erase(r.p(0.5) ? "v" : "D");
        name = "incomplete-value";
      }
      break;
    case 19:
      if (val) {
        auto k = U(r.ri(0, static_cast<long>(arity) - 1));
        (*val)["v"][k] = r.p(0.5) ? beyond(sizeOf(p["Variables"][k]), r) : std::string("-1");
        name = "value-out-of-domain";
      }
      break;
    case 20:
      if (val) {
        if (r.p(0.5))
          (*val)["v"].push_back("0");
        else
          (*val)["v"].erase(0);
        name = "value-of-wrong-arity";
      }
      break;
    case 21:
      if (val) {
        (*val)["D"] = r.pick(std::vector<std::string>{"-1", "-0.001", "-1e30"});
        name = "negative-image";
      }
      break;
    case 22:
      if (val) {
        (*val)[r.p(0.5) ? "D" : "v"] = r.p(0.5) ? J(3) : J(true);
        name = "value-type";
      }
      break;
    case 23:
      p["Correlation"] = r.p(0.5) ? J("maybe") : wrongType(r);
      name = "correlation-value";
      break;
    case 24:
      p["weight"] = "1";
      p["tunability"] = "Y";
      switch (r.ri(0, 2)) {
      case 0:
        p["Share"] = J::array({"surely unknown"});
        break;
      case 1:
        p["Share"] = J::array();
        break;
      case 2:
        // a group without a tunable factor
        vars.push_back(J{{"name", "alone"}, {"Size", "2"}});
        p["Share"] = J::array({"alone"});
        graphToo = false;
        break;
      }
      name = "share-unknown";
      break;
    case 25: {
      if (arity == 2) {
        J copy = p;
        if (r.p(0.5))
          std::swap(copy["Variables"][0], copy["Variables"][1]);
        copy["Distr_val"] = J::array();
        if (copy.contains("Share"))
          copy.erase("Share");
        pots.push_back(copy);
        name = "pair-connected-twice";
      }
      break;
    }
    case 26:
      if (p.contains("weight")) {
        p["weight"] = wrongType(r);
        name = "weight-type";
      }
      break;
    }
    if (!name)
      return;
    // wrongType may give null, that is the same of an empty list for the groups: not used there
    std::string text = doc.dump();
    if (r.p(0.3))
      attemptAny(c, &text, nullptr, name, true, graphToo);
    else
      attemptAny(c, nullptr, &doc, name, true, graphToo);
    sig ^= hashStr(text);
  } else if (what == 8) {
    // the same model, written in other ways
    J d = doc;
    auto mixed = [&](J &a) {
      std::vector<J> x(a.begin(), a.end());
      r.shuffle(x);
      a = x;
    };
    mixed(d["Variables"]);
    bool order = r.p(0.5) && !ambiguous(s, true); // the owners of the weight may come after
    if (order)
      mixed(d["Potentials"]);
    for (auto &p : d["Potentials"]) {
      if (p.contains("Distr_val") && p["Distr_val"].is_array())
        mixed(p["Distr_val"]);
      if (r.p(0.3))
        p["comment"] = "ignored";
      if (p.contains("Share") && p["Share"].size() == 2 && r.p(0.5))
        std::swap(p["Share"][0], p["Share"][1]);
    }
    if (r.p(0.3))
      d["Author"] = J::object({{"Variables", 3}});
    RandomField back;
    std::string t = d.dump(r.p(0.5) ? 4 : -1);
    if (r.p(0.5)) {
      auto f = scratch().file("s.json");
      writeFile(f, "  \n" + t + "\n\n");
      Importer::importFromFile(back, f);
    } else
      Importer::importFromJson(back, d);
    auto after = contentOf(back);
    auto exp = before;
    if (order) {
      for (auto *x : {&after, &exp}) {
        for (auto &cl : x->clusters)
          std::sort(cl.begin(), cl.end());
        std::sort(x->clusters.begin(), x->clusters.end());
        std::sort(x->weights.begin(), x->weights.end());
      }
    }
    require(after == exp, "same-model-other-text", exp.diff(after));
    c.st.add("equivalent_documents");
  } else {
    // correlating factors, and clashes with what is already there
    J d = J::object();
    long sz = r.ri(1, 5);
    bool two = r.p(0.8), t = r.p(0.5);
    bool wide = two && r.p(0.2);
    d["Variables"] = J::array({J{{"name", "A"}, {"Size", cat(sz)}}, J{{"name", "B"}, {"Size", cat(wide ? sz + 1 : sz)}}});
    J p = J::object();
    p["Variables"] = two ? J::array({"A", "B"}) : J::array({"A"});
    p["Correlation"] = t ? "T" : "F";
    bool exp = r.p(0.5), tun = r.p(0.5);
    if (exp) {
      p["weight"] = "0.75";
      p["tunability"] = tun ? "Y" : "N";
    }
    d["Potentials"] = J::array({p});
    c.desc = d.dump();
    RandomField back;
    bool thrown = false;
    try {
      Importer::importFromJson(back, d);
    } catch (const std::exception &) {
      thrown = true;
    }
    if (two && !wide) {
      require(!thrown, "correlation", "refused");
      require(back.getAllFactors().size() == 1, "correlation", "factor lost");
      auto &f = **back.getAllFactors().begin();
      f.function().forEachCombination<false>([&](const std::vector<std::size_t> &x, float img) {
        require(img == ((x[0] == x[1]) == t ? 1.f : 0.f), "correlation", vec(x), " has ", img);
      });
      auto *e = dynamic_cast<const FactorExponential *>(&f);
      require((e != nullptr) == exp, "correlation", "kind of factor");
      require(!exp || e->getWeight() == 0.75f, "correlation", "weight");
      require(back.getTunableFactors().size() == (exp && tun ? 1 : 0), "correlation", "tunability");
      c.st.add("correlations");
    } else
      usable(c, back, true);
    // clash: same name, another size
    if (two && !wide) {
      J d2 = d;
      d2["Variables"][0]["Size"] = cat(sz + 1);
      d2["Potentials"] = J::array({J{{"Variables", J::array({"A"})}, {"Distr_val", J::array()}}});
      thrown = false;
      try {
        Importer::importFromJson(back, d2);
      } catch (const std::exception &) {
        thrown = true;
      }
      require(thrown, "clashing-size", "two sizes for the same variable accepted");
      require(back.getAllFactors().size() == 1, "clashing-size", "factor added");
      usable(c, back, true);
      c.st.add("clashes");
    }
    sig ^= hashStr(c.desc);
  }
  c.nontrivial(sig);
}
VF_MAIN("C19", run)
