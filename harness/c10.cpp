// C10: hostile sequences of calls, under the sanitizers. Without them, live
// allocations and owned objects are counted instead.
#include "gen.hpp"
#include "scratch.hpp"

#include <EasyFactorGraph/categoric/GroupRange.h>
#include <EasyFactorGraph/factor/ImageFinder.h>
#include <EasyFactorGraph/io/TrainSetImport.h>
#include <EasyFactorGraph/io/json/Exporter.h>
#include <EasyFactorGraph/io/json/Importer.h>
#include <EasyFactorGraph/trainable/TrainSet.h>

#include <atomic>
#include <new>
#include <optional>
#include <variant>

#ifndef VF_ASAN
// counted allocations
namespace {
std::atomic<long> liveBlocks{0};
}
void *operator new(std::size_t n) {
  if (void *p = std::malloc(n ? n : 1)) {
    liveBlocks.fetch_add(1, std::memory_order_relaxed);
    return p;
  }
  throw std::bad_alloc{};
}
void operator delete(void *p) noexcept {
  if (p)
    liveBlocks.fetch_sub(1, std::memory_order_relaxed);
  std::free(p);
}
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
static long live() { return liveBlocks.load(); }
#else
static long live() { return 0; }
#endif

using namespace vf;
using EFG::categoric::GroupRange;
using EFG::factor::ImageFinder;
using EFG::io::json::Exporter;
using EFG::io::json::Importer;
using EFG::strct::GibbsSampler;
using EFG::train::TrainSet;
// waiting threads are not fairly scheduled by valgrind
static const bool single = std::getenv("VF_SINGLE") != nullptr;
static std::size_t U(long x) { return static_cast<std::size_t>(x); }

namespace {
using ModelPtr = std::variant<std::shared_ptr<Graph>, std::shared_ptr<RandomField>, std::shared_ptr<ConditionalRandomField>>;

struct Owned {
  std::vector<std::weak_ptr<EFG::categoric::Variable>> vars;
  std::vector<std::weak_ptr<Immutable>> facs;
};

struct Scene {
  Rng r;
  std::uint64_t calls = 0, refused = 0, results = 0;
  std::uint64_t trace = 0;
  bool keepLog;
  std::string log;
  Owned &owned;
  bool io;

  std::vector<VariablePtr> vars;
  std::vector<std::shared_ptr<Factor>> facs;
  std::vector<std::shared_ptr<FactorExponential>> exps;
  std::set<const void *> inserted; // their variables should not be replaced any more
  std::vector<ModelPtr> models;
  std::vector<ImageFinder> finders;
  std::vector<std::size_t> finderSizes;
  std::vector<TrainSet::Iterator> iterators;
  std::vector<std::vector<std::vector<std::size_t>>> sampleSets;
  std::vector<Group> groups;
  std::vector<GroupRange> ranges;
  std::vector<std::shared_ptr<Factor>> joints;
  nlohmann::json doc;
  double sink = 0;
  // objects are removed by the history, their number is just bounded here
  Scene(std::uint64_t seed, Owned &o, bool keep, bool withIo) : r(seed), keepLog(keep), owned(o), io(withIo) {}

  void note(const char *s) {
    trace = mix(trace ^ hashStr(s));
    if (keepLog && log.size() < 3000) {
      log += s;
      log += "; ";
    }
  }
  template <typename F> void attempt(const char *what, const F &f) {
    note(what);
    ++calls;
    try {
      f();
    } catch (const std::exception &) {
      ++refused;
      note("(refused)");
    }
  }

  VariablePtr anyVar() { return r.pick(vars); }
  VariablesSoup soup(long n, bool distinct) {
    VariablesSoup s;
    for (long k = 0; k < n; ++k) {
      auto v = anyVar();
      if (distinct && std::any_of(s.begin(), s.end(), [&](auto &o) { return o->name() == v->name(); }))
        continue;
      s.push_back(v);
    }
    if (s.empty())
      s.push_back(anyVar());
    return s;
  }
  void newVar() {
    static const char *names[] = {"a", "b", "c", "d", "e", "f", "g", "h", "a long name of a variable, not a short string"};
    attempt("variable", [&]() {
      auto v = EFG::categoric::make_variable(U(r.p(0.05) ? 0 : r.ri(1, 4)), r.p(0.03) ? "" : names[r.ri(0, 8)]);
      owned.vars.push_back(v);
      if (vars.size() < 14)
        vars.push_back(v);
      else
        vars[U(r.ri(0, 13))] = v;
    });
  }
  void newFactor() {
    attempt("factor", [&]() {
      double u = r.uni();
      auto g = soup(u < 0.35 ? 1 : (u < 0.85 ? 2 : r.ri(1, 4)), r.p(0.9));
      std::shared_ptr<Factor> f;
      double k = r.uni();
      if (k < 0.1)
        f = std::make_shared<Factor>(Group{g}, Factor::SimplyCorrelatedTag{});
      else if (k < 0.2)
        f = std::make_shared<Factor>(Group{g}, Factor::SimplyAntiCorrelatedTag{});
      else if (k < 0.3 && !facs.empty())
        f = std::make_shared<Factor>(*r.pick(facs));
      else if (k < 0.35 && !exps.empty())
        f = std::make_shared<Factor>(*r.pick(exps), Factor::CloneTrasformedImagesTag{});
      else if (k < 0.42 && !facs.empty()) {
        std::vector<const Immutable *> many;
        for (long q = r.ri(0, 3); q > 0; --q)
          many.push_back(r.p(0.7) || exps.empty() ? static_cast<const Immutable *>(r.pick(facs).get())
                                                  : static_cast<const Immutable *>(r.pick(exps).get()));
        f = std::make_shared<Factor>(many);
      } else
        f = std::make_shared<Factor>(Group{g});
      owned.facs.push_back(f);
      if (f->function().vars().size() > 3000)
        return;
      if (facs.size() < 16)
        facs.push_back(f);
      else
        facs[U(r.ri(0, 15))] = f;
    });
  }
  void touchFactor() {
    if (facs.empty())
      return;
    auto f = r.pick(facs);
    attempt("images", [&]() {
      auto &vs = f->function().vars().getVariables();
      long n = r.p(0.3) ? static_cast<long>(f->function().vars().size()) * 2 : r.ri(1, 6);
      for (; n > 0; --n) {
        std::vector<std::size_t> comb;
        for (auto &v : vs)
          comb.push_back(U(r.ri(0, static_cast<long>(v->size()) - (r.p(0.98) ? 1 : 0))));
        if (r.p(0.02))
          comb.push_back(0);
        if (r.p(0.02) && !comb.empty())
          comb.pop_back();
        f->set(comb, static_cast<float>(r.p(0.02) ? -1.0 : (r.p(0.2) ? 0.0 : r.uni(0, 4))));
      }
    });
  }
  void factorCalls() {
    if (facs.empty())
      return;
    auto f = r.pick(facs);
    switch (r.ri(0, 9)) {
    case 0:
      attempt("clear", [&]() { f->clear(); });
      break;
    case 1:
      if (!inserted.count(static_cast<const Immutable *>(f.get())))
        attempt("replace", [&]() {
          f->replaceVariables(soup(static_cast<long>(f->function().vars().getVariables().size()), r.p(0.8)));
        });
      break;
    case 2:
      attempt("probabilities", [&]() {
        for (auto p : f->getProbabilities())
          sink += p;
      });
      break;
    case 3:
      attempt("permute", [&]() {
        auto vs = f->function().vars().getVariables();
        r.shuffle(vs);
        if (r.p(0.1))
          vs.pop_back();
        auto p = std::make_shared<Factor>(f->cloneWithPermutedGroup(Group{vs}));
        owned.facs.push_back(p);
        joints.push_back(p);
      });
      break;
    case 4:
      attempt("merge", [&]() {
        auto p = std::make_shared<Factor>(Factor::merge(*f, *r.pick(facs)));
        owned.facs.push_back(p);
        if (p->function().vars().size() < 3000)
          joints.push_back(p);
      });
      break;
    case 5:
      attempt("finder", [&]() {
        VariablesSoup big = f->function().vars().getVariables();
        for (long k = r.ri(0, 2); k > 0; --k) {
          auto v = anyVar();
          if (std::none_of(big.begin(), big.end(), [&](auto &o) { return o->name() == v->name(); }))
            big.push_back(v);
        }
        r.shuffle(big);
        if (r.p(0.1))
          big.pop_back();
        finders.push_back(f->makeFinder(big));
        finderSizes.push_back(big.size());
      });
      break;
    case 6:
      attempt("iterate", [&]() {
        f->function().forEachCombination<false>([&](const auto &c, float v) { sink += v + static_cast<double>(c.size()); });
        f->function().forEachNonNullCombination<true>([&](const auto &c, float v) { sink += v + static_cast<double>(c.size()); });
      });
      break;
    case 7:
      attempt("exponential", [&]() {
        auto e = r.p(0.5) || exps.empty() ? std::make_shared<FactorExponential>(*f, static_cast<float>(r.uni(-1, 1)))
                                          : std::make_shared<FactorExponential>(*r.pick(exps));
        owned.facs.push_back(e);
        if (exps.size() < 10)
          exps.push_back(e);
        else
          exps[U(r.ri(0, 9))] = e;
      });
      break;
    case 8:
      if (!exps.empty())
        attempt("weight of a factor", [&]() {
          auto e = r.pick(exps);
          e->setWeight(static_cast<float>(r.uni(-1, 1)));
          sink += e->getWeight();
          if (!inserted.count(static_cast<const Immutable *>(e.get())) && r.p(0.3))
            e->replaceVariables(soup(static_cast<long>(e->function().vars().getVariables().size()), true));
        });
      break;
    case 9:
      if (!finders.empty())
        attempt("find", [&]() {
          auto k = U(r.ri(0, static_cast<long>(finders.size()) - 1));
          std::vector<std::size_t> comb(finderSizes[k], 0);
          sink += finders[k].findImage(comb) + finders[k].findTransformed(comb);
        });
      break;
    }
    if (finders.size() > 6) {
      finders.erase(finders.begin());
      finderSizes.erase(finderSizes.begin());
    }
    while (joints.size() > 6)
      joints.erase(joints.begin());
  }
  void groupCalls() {
    switch (r.ri(0, 6)) {
    case 0:
      attempt("group", [&]() { groups.emplace_back(soup(r.ri(1, 4), r.p(0.7))); });
      break;
    case 1:
      if (!groups.empty())
        attempt("group add", [&]() { groups[U(r.ri(0, static_cast<long>(groups.size()) - 1))].add(anyVar()); });
      break;
    case 2:
      if (!groups.empty())
        attempt("group replace", [&]() {
          auto &g = groups[U(r.ri(0, static_cast<long>(groups.size()) - 1))];
          // also with its own collection
          if (r.p(0.2))
            g.replaceVariables(g.getVariables());
          else
            g.replaceVariables(soup(static_cast<long>(g.getVariables().size()), r.p(0.5)));
        });
      break;
    case 3:
      if (!groups.empty())
        attempt("sets", [&]() {
          VariablesSet a = r.pick(groups).getVariablesSet();
          VariablesSet b = r.pick(groups).getVariablesSet();
          auto c = EFG::categoric::get_complementary(a, b);
          sink += static_cast<double>(c.size());
          using EFG::categoric::operator-=;
          if (r.p(0.3))
            a -= a;
          else
            a -= b;
          sink += static_cast<double>(a.size());
        });
      break;
    case 4:
      if (!groups.empty())
        attempt("range", [&]() { ranges.emplace_back(r.pick(groups)); });
      break;
    case 5:
      if (!ranges.empty())
        attempt("increment", [&]() {
          auto &a = ranges[U(r.ri(0, static_cast<long>(ranges.size()) - 1))];
          for (long k = r.ri(1, 30); k > 0; --k) {
            ++a;
            if (a != EFG::categoric::RANGE_END)
              sink += static_cast<double>(a->front());
          }
        });
      break;
    case 6:
      if (!ranges.empty())
        attempt("copy range", [&]() {
          GroupRange copy(r.pick(ranges));
          ranges.push_back(copy);
        });
      break;
    }
    if (groups.size() > 6)
      groups.erase(groups.begin());
    while (ranges.size() > 6)
      ranges.pop_back(); // not assignable
  }

  // ------------------------------------------------------------------ models
  void newModel() {
    if (models.size() >= 4)
      models.erase(models.begin() + r.ri(0, 3));
    switch (r.ri(0, 6)) {
    case 0:
    case 1:
      attempt("graph", [&]() { models.emplace_back(std::make_shared<Graph>()); });
      return;
    case 2:
    case 3:
      attempt("field", [&]() { models.emplace_back(std::make_shared<RandomField>()); });
      return;
    case 4:
    case 5:
      if (!models.empty())
        attempt("conditional", [&]() {
          if (auto *f = std::get_if<std::shared_ptr<RandomField>>(&r.pick(models)))
            models.emplace_back(std::make_shared<ConditionalRandomField>(**f, r.p(0.5)));
        });
      return;
    case 6:
      if (!models.empty())
        attempt("copy of a model", [&]() {
          ModelPtr copy = std::visit([](auto &m) -> ModelPtr { return std::make_shared<std::decay_t<decltype(*m)>>(*m); },
                                     r.pick(models));
          models.push_back(copy);
        });
      return;
    }
  }
  void dropModel() {
    note("drop model");
    if (!models.empty())
      models.erase(models.begin() + r.ri(0, static_cast<long>(models.size()) - 1));
  }
  template <typename M> VariablePtr varOf(M &m) {
    auto all = m.getAllVariables();
    return all.empty() || r.p(0.05) ? anyVar() : r.pick(all);
  }
  template <typename M> void inserting(M &m) {
    if (r.p(0.75) || exps.empty() || !std::is_base_of_v<EFG::train::FactorsTunableInserter, M>) {
      if (facs.empty())
        return;
      attempt("add const", [&]() {
        if (!exps.empty() && r.p(0.3)) {
          auto e = r.pick(exps);
          if (r.p(0.3))
            m.copyConstFactor(*e);
          else {
            m.addConstFactor(e);
            inserted.insert(static_cast<const Immutable *>(e.get()));
          }
          return;
        }
        auto f = r.pick(facs);
        if (r.p(0.3))
          m.copyConstFactor(*f);
        else {
          m.addConstFactor(f);
          inserted.insert(static_cast<const Immutable *>(f.get()));
        }
      });
      return;
    }
    if constexpr (std::is_base_of_v<EFG::train::FactorsTunableInserter, M>) {
      attempt("add tunable", [&]() {
        auto e = r.pick(exps);
        std::optional<VariablesSet> sharing;
        if (r.p(0.3)) {
          if (!m.getTunableFactors().empty() && r.p(0.8))
            sharing = (*m.getTunableFactors().begin())->function().vars().getVariablesSet();
          else
            sharing = VariablesSet{anyVar()};
        }
        if (r.p(0.3))
          m.copyTunableFactor(*e, sharing);
        else {
          m.addTunableFactor(e, sharing);
          inserted.insert(static_cast<const Immutable *>(e.get()));
        }
      });
    }
  }
  template <typename M> void evidences(M &m) {
    switch (r.ri(0, 6)) {
    case 0:
    case 1:
    case 2:
      attempt("evidence", [&]() {
        auto v = varOf(m);
        auto x = U(r.ri(0, static_cast<long>(v->size()) - (r.p(0.95) ? 1 : 0)));
        if (r.p(0.5))
          m.setEvidence(v, x);
        else
          m.setEvidence(v->name(), x);
      });
      break;
    case 3:
      attempt("remove", [&]() {
        auto &evs = m.getEvidences();
        if (evs.empty() || r.p(0.1))
          m.removeEvidence(varOf(m));
        else if (r.p(0.5))
          m.removeEvidence(evs.begin()->first); // the key owned by the model
        else
          m.removeEvidence(evs.begin()->first->name());
      });
      break;
    case 4:
      attempt("remove set", [&]() {
        VariablesSet set;
        for (auto &[v, x] : m.getEvidences())
          if (r.p(0.5))
            set.emplace(v);
        if (r.p(0.1))
          set.emplace(varOf(m));
        m.removeEvidences(set);
      });
      break;
    case 5:
      attempt("remove names", [&]() {
        std::unordered_set<std::string> set;
        for (auto &[v, x] : m.getEvidences())
          if (r.p(0.5))
            set.emplace(v->name());
        m.removeEvidences(set);
      });
      break;
    case 6:
      attempt("remove all", [&]() { m.removeAllEvidences(); });
      break;
    }
  }
  template <typename M> void queries(M &m) {
    if (m.getAllVariables().empty())
      return; // nothing to ask
    std::size_t th = r.p(0.97) ? 1 : U(r.ri(0, single ? 1 : 3));
    switch (r.ri(0, 8)) {
    case 0:
    case 1:
      attempt("marginal", [&]() {
        for (auto x : m.getMarginalDistribution(varOf(m), th))
          sink += x;
        ++results;
      });
      break;
    case 2:
      attempt("map", [&]() {
        sink += static_cast<double>(m.getMAP(varOf(m)->name(), th));
        ++results;
      });
      break;
    case 3:
      attempt("map set", [&]() {
        sink += static_cast<double>(m.getHiddenSetMAP(th).size());
        ++results;
      });
      break;
    case 4:
    case 5:
      attempt("joint", [&]() {
        VariablesSoup s;
        for (long k = r.ri(1, 4); k > 0; --k) {
          auto v = varOf(m);
          if (r.p(0.05) || std::none_of(s.begin(), s.end(), [&](auto &o) { return o->name() == v->name(); }))
            s.push_back(v);
        }
        auto j = std::make_shared<Factor>(m.getJointMarginalDistribution(Group{s}, th));
        for (auto x : j->getProbabilities())
          sink += x;
        owned.facs.push_back(j);
        joints.push_back(j); // outlives the model
        ++results;
      });
      break;
    case 6:
      attempt("samples", [&]() {
        GibbsSampler::SamplesGenerationContext ctx;
        ctx.samples_number = U(r.ri(0, 6));
        ctx.delta_iterations = U(r.ri(0, 2));
        ctx.transient = U(r.ri(0, 4));
        ctx.seed = U(r.ri(0, 99));
        auto s = m.makeSamples(ctx, th);
        sink += static_cast<double>(s.size());
        ++results;
      });
      break;
    case 7:
      attempt("context", [&]() {
        EFG::strct::PropagationContext p;
        p.max_iterations_loopy_propagation = U(r.ri(0, 20));
        m.setPropagationContext(p);
        if (m.hasPropagationResult())
          for (auto &x : m.getLastPropagationResult().structures)
            sink += static_cast<double>(x.size);
      });
      break;
    case 8:
      attempt("getters", [&]() {
        sink += static_cast<double>(m.getHiddenVariables().size() + m.getObservedVariables().size() +
                                    m.getAllFactors().size() + m.getConstFactors().size());
        if (r.p(0.2))
          m.setLoopyPropagationStrategy(nullptr);
      });
      break;
    }
  }
  template <typename M> std::vector<std::vector<std::size_t>> combs(M &m, long n) {
    std::vector<std::vector<std::size_t>> res;
    for (; n > 0; --n) {
      res.emplace_back();
      for (auto &v : m.getAllVariables())
        res.back().push_back(U(r.ri(0, static_cast<long>(v->size()) - 1)));
    }
    return res;
  }
  template <typename M> void training(M &m) {
    if constexpr (std::is_base_of_v<EFG::train::FactorsTunableGetter, M>) {
      if (m.getAllVariables().empty())
        return;
      switch (r.ri(0, 3)) {
      case 0:
        attempt("weights", [&]() {
          auto w = m.getWeights();
          for (auto &x : w)
            x = static_cast<float>(r.uni(-1, 1));
          if (r.p(0.1))
            w.push_back(0);
          m.setWeights(w);
        });
        break;
      case 1:
        attempt("gradient", [&]() {
          std::optional<TrainSet::Iterator> it;
          {
            auto samples = combs(m, r.ri(0, 4));
            if (r.p(0.15))
              spoilSamples(samples, m.getAllVariables(), r);
            TrainSet ts(samples);
            it.emplace(r.p(0.5) ? ts.makeIterator() : ts.makeSubSetIterator(static_cast<float>(r.uni(0.4, 1.05))));
          } // the iterator outlives the train set
          for (auto x : m.getWeightsGradient(*it, r.p(0.97) ? 1 : U(r.ri(0, single ? 1 : 3))))
            sink += x;
          ++results;
        });
        break;
      case 2:
        attempt("clusters", [&]() { sink += static_cast<double>(m.getTunableClusters().size()); });
        break;
      case 3:
        if constexpr (std::is_same_v<M, ConditionalRandomField>) {
          if (r.p(0.6))
            attempt("conditional evidences", [&]() {
              std::vector<std::size_t> v;
              for (auto &o : m.getObservedVariables())
                v.push_back(U(r.ri(0, static_cast<long>(o->size()) - (r.p(0.97) ? 1 : 0))));
              if (r.p(0.05))
                v.push_back(0);
              m.setEvidences(v);
            });
          else {
            double tot = 1;
            for (auto &o : m.getObservedVariables())
              tot *= static_cast<double>(o->size());
            if (tot <= 64)
              attempt("conditional train set", [&]() {
                GibbsSampler::SamplesGenerationContext ctx;
                ctx.samples_number = U(r.ri(1, 3));
                ctx.delta_iterations = 1;
                ctx.transient = U(r.ri(0, 2));
                ctx.seed = 5;
                sampleSets.push_back(m.makeTrainSet(ctx, static_cast<float>(r.uni(0, 1.1)), 1));
              });
          }
          if (sampleSets.size() > 3)
            sampleSets.erase(sampleSets.begin());
        }
        break;
      }
    }
  }
  template <typename M> void absorbing(M &m) {
    if constexpr (!std::is_same_v<M, ConditionalRandomField>)
      attempt("absorb", [&]() {
        bool copy = r.p(0.5);
        if (m.getAllFactors().size() > 40)
          return;
        if (r.p(0.15))
          m.absorb(m, copy);
        else
          std::visit([&](auto &o) { m.absorb(*o, copy); }, r.pick(models));
      });
  }
  template <typename M> void files(M &m) {
    if (!io)
      return;
    switch (r.ri(0, 3)) {
    case 0:
      attempt("export", [&]() { doc = Exporter::exportToJson(m); });
      break;
    case 1:
      if constexpr (!std::is_same_v<M, ConditionalRandomField>)
        attempt("import", [&]() {
          if (m.getAllFactors().size() > 40)
            return;
          auto text = doc.dump();
          if (r.p(0.3) && !text.empty())
            for (long k = r.ri(1, 3); k > 0; --k)
              text[U(r.ri(0, static_cast<long>(text.size()) - 1))] = static_cast<char>(r.ri(32, 126));
          Importer::importFromJson(m, nlohmann::json::parse(text));
          for (auto &v : m.getAllVariables())
            if (vars.size() < 14) {
              vars.push_back(v);
            }
        });
      break;
    case 2:
      attempt("train set file", [&]() {
        std::string text;
        for (long k = r.ri(0, 4); k > 0; --k)
          text += cat(r.ri(0, 3), " ", r.ri(0, 3), r.p(0.1) ? " 7" : "", r.p(0.2) ? "\n\n" : "\n");
        auto f = scratch().file("ts.txt");
        writeFile(f, text);
        auto ts = EFG::io::import_train_set(r.p(0.1) ? f + "missing" : f);
        iterators.push_back(ts.makeSubSetIterator(static_cast<float>(r.uni(0, 1))));
        iterators.back().forEachSample([&](const auto &s) { sink += static_cast<double>(s.size()); });
        if (iterators.size() > 3)
          iterators.erase(iterators.begin());
      });
      break;
    case 3:
      attempt("file round trip", [&]() {
        auto f = scratch().file("m.json");
        Exporter::exportToFile(m, f);
        auto fresh = std::make_shared<RandomField>();
        Importer::importFromFile(*fresh, f);
        if (models.size() < 4)
          models.emplace_back(fresh);
      });
      break;
    }
  }

  void run(long n) {
    for (int k = 0; k < 5; ++k)
      newVar();
    while (vars.empty())
      newVar();
    for (int k = 0; k < 6; ++k) {
      newFactor();
      touchFactor();
    }
    for (int k = 0; k < 2; ++k)
      newModel();
    for (long k = 0; k < n; ++k) {
      double u = r.uni();
      if (u < 0.03)
        newVar();
      else if (u < 0.1)
        newFactor();
      else if (u < 0.17)
        touchFactor();
      else if (u < 0.24)
        factorCalls();
      else if (u < 0.28)
        groupCalls();
      else if (u < 0.34)
        newModel();
      else if (u < 0.36)
        dropModel();
      else if (u < 0.38 && !facs.empty()) {
        note("drop factor");
        facs.erase(facs.begin() + r.ri(0, static_cast<long>(facs.size()) - 1));
      } else if (u < 0.39 && vars.size() > 3) {
        note("drop variable");
        vars.erase(vars.begin() + r.ri(0, static_cast<long>(vars.size()) - 1));
      } else if (!models.empty()) {
        auto keep = r.pick(models); // may be removed meanwhile
        std::visit(
            [&](auto &m) {
              using M = std::decay_t<decltype(*m)>;
              double q = r.uni();
              if constexpr (!std::is_same_v<M, ConditionalRandomField>) {
                if (q < 0.35)
                  return inserting(*m);
                if (q < 0.55)
                  return evidences(*m);
              }
              if (q < 0.75)
                return queries(*m);
              if (q < 0.87)
                return training(*m);
              if (q < 0.93)
                return absorbing(*m);
              files(*m);
            },
            keep);
      }
    }
  }
};
} // namespace

static void run(Ctx &c) {
  auto seed = c.rng.next();
  long n = c.rng.ri(10, c.rng.p(0.9) ? 150 : 400);
#ifdef VF_ASAN
  const int reps = 1;
#else
  const int reps = 3;
#endif
  std::uint64_t trace = 0;
  for (int k = 0; k < reps; ++k) {
    Owned owned;
    long before = live();
    {
      Scene s(seed, owned, k == 0, true);
      s.run(n);
      if (k == 0) {
        c.desc = s.log;
        c.st.add("calls", s.calls);
        c.st.add("refused_calls", s.refused);
        c.st.add("results", s.results);
        if (s.results > 0)
          c.nontrivial(s.trace);
      }
      trace = s.trace;
    }
    std::size_t nv = 0, nf = 0;
    for (auto &v : owned.vars)
      nv += !v.expired();
    for (auto &f : owned.facs)
      nf += !f.expired();
    require(nv == 0, "leaked-variables", nv, " of ", owned.vars.size(), " variables still owned by someone");
    require(nf == 0, "leaked-factors", nf, " of ", owned.facs.size(), " factors still owned by someone");
    c.st.add("owned_objects", owned.vars.size() + owned.facs.size());
    owned = Owned{};
#ifndef VF_ASAN
    if (k == 2) {
      require(live() == before, "leaked-memory", live() - before, " blocks more than before");
      c.st.add("leak_checks");
    }
#endif
  }
}
VF_MAIN("C10", run)
