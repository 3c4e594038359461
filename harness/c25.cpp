// C25: train sets give back exactly their samples
#include "scratch.hpp"
#include <EasyFactorGraph/io/TrainSetImport.h>
#include <EasyFactorGraph/trainable/TrainSet.h>
using namespace vf;
using EFG::train::TrainSet;
using Combs = std::vector<std::vector<std::size_t>>;

template <typename F> static bool throws(F &&f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
static Combs visit(const TrainSet::Iterator &it) {
  Combs v;
  it.forEachSample([&](const std::vector<std::size_t> &s) { v.push_back(s); });
  return v;
}

static void run(Ctx &c) {
  Rng &r = c.rng;
  auto U = [](long x) { return static_cast<std::size_t>(x); };
  long n = r.p(0.1) ? r.ri(50, 400) : r.ri(0, 30), cols = r.ri(1, 8);
  if (r.p(0.003))
    n = r.p(0.2) ? r.ri(66000, 70000) : r.ri(500, 5000);
  if (r.p(0.02))
    cols = r.ri(9, 300);
  if (n * cols > 600000)
    cols = 3;
  Combs data;
  long maxv = r.p(0.2) ? r.pick(std::vector<long>{99, 300, 70000, 1000000, 2147483647, 4294967300, 900000000000000000}) : 9;
  for (long k = 0; k < n; ++k) {
    data.emplace_back();
    for (long j = 0; j < cols; ++j)
      data.back().push_back(U(r.ri(0, maxv)));
  }
  bool uneven = n > 1 && r.p(0.25);
  long which = 0;
  if (uneven) {
    which = r.p(0.3) ? n - 1 : r.ri(0, n - 1);
    auto &d = data[U(which)];
    switch (r.ri(0, 2)) {
    case 0:
      d.push_back(0);
      break;
    case 1:
      if (d.size() > 1)
        d.pop_back();
      else
        d.push_back(1);
      break;
    case 2:
      d.insert(d.begin(), 3);
      break;
    }
  }
  c.desc = cat(n, " samples of ", cols, uneven ? cat(", uneven at ", which) : "");
  bool bad = uneven || n == 0;
  // direct construction
  {
    bool thrown = throws([&] { TrainSet ts(data); });
    require(thrown == bad, bad ? "invalid-accepted" : "valid-refused", "construction");
    c.st.add(bad ? "refused" : "built");
    if (n > 0 && r.p(0.2)) {
      auto withEmpty = data;
      withEmpty[U(r.ri(0, n - 1))].clear();
      require(throws([&] { TrainSet ts(withEmpty); }), "invalid-accepted", "empty sample");
      Combs onlyEmpty(U(r.ri(1, 3)));
      require(throws([&] { TrainSet ts(onlyEmpty); }), "invalid-accepted", "only empty samples");
    }
  }
  // import
  std::string text;
  bool crlf = r.p(0.15), blanks = r.p(0.3), tabs = r.p(0.2), trail = r.p(0.2), lastNl = r.p(0.8);
  for (long k = 0; k < n; ++k) {
    if (blanks && r.p(0.3))
      text += r.pick(std::vector<std::string>{"\n", "  \n", "\t\n", "\n\n"});
    if (trail && r.p(0.5))
      text += " ";
    for (std::size_t j = 0; j < data[U(k)].size(); ++j) {
      if (j)
        text += tabs ? "\t" : (r.p(0.1) ? "   " : " ");
      text += std::to_string(data[U(k)][j]);
    }
    if (trail && r.p(0.5))
      text += "  ";
    if (k + 1 < n || lastNl)
      text += crlf ? "\r\n" : "\n";
  }
  if (blanks && r.p(0.5))
    text += "\n\n";
  auto file = scratch().file("ts");
  writeFile(file, text);
  {
    std::unique_ptr<TrainSet> ts;
    bool thrown = throws([&] { ts = std::make_unique<TrainSet>(EFG::io::import_train_set(file)); });
    require(thrown == bad, bad ? "invalid-accepted" : "valid-refused", "import of ", text.substr(0, 300));
    c.st.add(bad ? "imports_refused" : "imports");
    if (!bad) {
      require(ts->getCombinations() == data, "imported-samples", "differ from the file: ",
              ts->getCombinations().size(), " samples instead of ", data.size());
      require(visit(ts->makeIterator()) == data, "iterated-samples", "differ from the file");
    }
    require(throws([&] { EFG::io::import_train_set(scratch().file("not-existing")); }), "invalid-accepted",
            "inexistent file");
  }
  if (bad) {
    c.nontrivial(hashStr(c.desc + text));
    return;
  }
  // iterators
  auto ts = std::make_unique<TrainSet>(data);
  require(ts->getCombinations() == data, "samples", "differ");
  auto all = ts->makeIterator();
  require(all.size() == data.size(), "iterator-size", all.size());
  require(visit(all) == data && visit(all) == data, "iterated-samples", "differ");
  std::set<std::vector<std::size_t>> known(data.begin(), data.end());
  std::vector<TrainSet::Iterator> kept;
  std::vector<Combs> first;
  for (int k = 0; k < 4; ++k) {
    float p = r.p(0.1) ? 1.f : (r.p(0.2) ? static_cast<float>(r.ri(1, 4)) * 0.25f : static_cast<float>(r.uni(1e-4, 1)));
    auto it = ts->makeSubSetIterator(p);
    auto v = visit(it);
    require(v.size() == it.size(), "subset-size", "visits ", v.size(), " samples, size ", it.size());
    double exact = static_cast<double>(p) * static_cast<double>(n);
    double lo = std::floor(exact - 1e-3), hi = std::floor(exact + 1e-3);
    require(static_cast<double>(it.size()) >= lo && static_cast<double>(it.size()) <= hi, "subset-size", it.size(),
            " samples for ", p, " of ", n);
    for (auto &s : v)
      require(known.count(s) == 1, "subset-content", "unknown sample ", vec(s));
    if (p == 1.f)
      require(v == data, "subset-content", "not all the samples");
    require(visit(it) == v, "subset-unstable", "");
    c.st.add("subsets");
    kept.push_back(it);
    first.push_back(v);
  }
  for (float p : {0.f, -0.1f, 1.001f, 2.f, -1.f, std::nanf(""), std::numeric_limits<float>::infinity()})
    require(throws([&] { ts->makeSubSetIterator(p); }), "invalid-percentage-accepted", p);
  // the iterators survive the train set
  ts.reset();
  for (std::size_t k = 0; k < kept.size(); ++k)
    require(visit(kept[k]) == first[k], "subset-unstable", "after the destruction of the train set");
  require(visit(all) == data, "iterated-samples", "after the destruction of the train set");
  c.nontrivial(hashStr(c.desc + text));
}
VF_MAIN("C25", run)
