// C23: variables and groups are always valid
#include "common.hpp"
#include <EasyFactorGraph/categoric/Group.h>
using namespace vf;
using namespace EFG::categoric;

template <typename F> static bool throws(F &&f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}

struct Shadow {
  VariablesSoup vars;
};

static bool distinctNames(const VariablesSoup &s) {
  std::set<std::string> n;
  for (auto &v : s)
    n.insert(v->name());
  return n.size() == s.size();
}

static void check(const Group &g, const VariablesSoup &exp) {
  require(g.getVariables().size() == exp.size(), "group-content", g.getVariables().size(), " variables");
  std::size_t tot = 1;
  for (std::size_t k = 0; k < exp.size(); ++k) {
    require(g.getVariables()[k].get() == exp[k].get(), "group-content", "position ", k);
    require(g.getVariablesSet().count(exp[k]) == 1, "group-set", "missing ", exp[k]->name());
    tot *= exp[k]->size();
  }
  require(g.getVariablesSet().size() == exp.size(), "group-set", g.getVariablesSet().size());
  require(g.size() == tot, "group-size", g.size(), " instead of ", tot);
}

static void run(Ctx &c) {
  Rng &r = c.rng;
  auto U = [](long x) { return static_cast<std::size_t>(x); };
  // variables
  {
    std::size_t z = U(r.p(0.2) ? 0 : (r.p(0.2) ? 1 : r.ri(2, 1000)));
    std::string name = r.p(0.2) ? "" : std::string(U(r.ri(1, 40)), static_cast<char>(r.ri(1, 255)));
    if (r.p(0.05))
      name = std::string("\0x", 2);
    bool bad = z == 0 || name.empty();
    if (bad) {
      require(throws([&] { make_variable(z, name); }), "invalid-variable", "size ", z, " name ", name);
      require(throws([&] { Variable(z, name); }), "invalid-variable", "size ", z, " name ", name);
      c.st.add("invalid_variables_refused");
    } else {
      auto v = make_variable(z, name);
      require(v->size() == z && v->name() == name, "variable-content", name);
      Variable same(z, name), other(z + 1, name), other2(z, name + "x");
      require(same == *v && !(other == *v) && !(other2 == *v), "variable-equality", name);
      require(std::hash<Variable>{}(same) == std::hash<Variable>{}(*v), "variable-hash", name);
    }
  }
  // a set of variables, with clashes of names
  VariablesSoup pool;
  long np = r.ri(2, 9);
  for (long k = 0; k < np; ++k) {
    std::string name = r.p(0.3) ? std::string("n") + std::to_string(r.ri(0, 3)) : "v" + std::to_string(k);
    if (r.p(0.3)) // different, even if almost equal
      name = r.pick(std::vector<std::string>{"name", "Name", "NAME", "name ", " name", "nam", "names", "nam\xe9",
                                             std::string("name\0", 5), std::string("name\0a", 6), "name\n"});
    pool.push_back(make_variable(U(r.ri(1, 4)), name));
  }
  auto some = [&](long lo, long hi) {
    VariablesSoup s;
    for (long k = r.ri(lo, hi); k > 0; --k)
      s.push_back(r.pick(pool));
    return s;
  };
  auto distinct = [&](std::size_t n) {
    VariablesSoup all = pool, s;
    r.shuffle(all);
    for (auto &v : all) {
      if (s.size() == n)
        break;
      s.push_back(v);
      if (!distinctNames(s))
        s.pop_back();
    }
    return s;
  };
  require(throws([&] { Group(VariablesSoup{}); }), "empty-group", "accepted");
  VariablesSoup exp;
  std::unique_ptr<Group> g;
  std::string log;
  switch (r.ri(0, 2)) {
  case 0: {
    exp = {r.pick(pool)};
    g = std::make_unique<Group>(exp[0]);
    break;
  }
  case 1: {
    auto a = r.pick(pool), b = r.pick(pool), d = r.pick(pool);
    bool bad = !distinctNames({a, b, d});
    bool thrown = throws([&] { g = std::make_unique<Group>(a, b, d); });
    require(thrown == bad, bad ? "duplicated-accepted" : "valid-refused", a->name(), " ", b->name(), " ", d->name());
    exp = bad ? VariablesSoup{a} : VariablesSoup{a, b, d};
    if (bad) {
      c.st.add("refused");
      g = std::make_unique<Group>(a);
    }
    break;
  }
  case 2: {
    exp = some(1, 4);
    bool bad = !distinctNames(exp);
    bool thrown = throws([&] { g = std::make_unique<Group>(exp); });
    require(thrown == bad, bad ? "duplicated-accepted" : "valid-refused", exp.size(), " variables");
    if (bad) {
      c.st.add("refused");
      exp = distinct(2);
      g = std::make_unique<Group>(exp);
    }
    break;
  }
  }
  check(*g, exp);
  for (long k = r.ri(1, 12); k > 0; --k) {
    switch (r.ri(0, 4)) {
    case 0:
    case 1: {
      auto v = r.pick(pool);
      if (r.p(0.15)) // same name, maybe different size
        v = make_variable(U(r.ri(1, 4)), r.pick(exp)->name());
      auto e2 = exp;
      e2.push_back(v);
      bool bad = !distinctNames(e2);
      bool thrown = throws([&] { g->add(v); });
      log += cat("add ", v->name(), ":", v->size(), "; ");
      require(thrown == bad, bad ? "duplicated-accepted" : "valid-refused", "add ", v->name());
      if (!bad)
        exp = e2;
      else
        c.st.add("refused");
      break;
    }
    case 2: {
      VariablesSoup repl;
      if (r.p(0.6)) {
        for (std::size_t j = 0; j < exp.size(); ++j)
          repl.push_back(r.p(0.2) ? exp[U(r.ri(0, static_cast<long>(exp.size()) - 1))]
                                  : make_variable(exp[j]->size(), cat("r", r.ri(0, 1000))));
      } else
        repl = some(0, 4);
      bool bad = repl.size() != exp.size() || !distinctNames(repl);
      for (std::size_t j = 0; j < exp.size() && !bad; ++j)
        bad = repl[j]->size() != exp[j]->size();
      bool thrown = throws([&] { g->replaceVariables(repl); });
      log += cat("replace ", repl.size(), bad ? " bad; " : "; ");
      require(thrown == bad, bad ? "invalid-replace-accepted" : "valid-refused", "replace, ", repl.size(), " with ",
              exp.size());
      if (!bad) {
        exp = repl;
        c.st.add("replaced");
      } else
        c.st.add("refused");
      break;
    }
    case 3: {
      VariablesSoup e2 = exp;
      r.shuffle(e2);
      Group o(e2);
      require(o == *g && *g == o, "group-equality", "order should not count");
      if (e2.size() > 1) {
        e2.pop_back();
        require(!(Group(e2) == *g) && !(*g == Group(e2)), "group-equality", "with a subgroup");
      }
      e2.push_back(make_variable(1, "other"));
      require(!(Group(e2) == *g), "group-equality", "with another group");
      // differing for one variable, whatever its position
      VariablesSoup e3 = exp;
      auto &changed = e3[U(r.ri(0, static_cast<long>(e3.size()) - 1))];
      changed = r.p(0.5) ? make_variable(changed->size(), changed->name() + "x")
                         : make_variable(changed->size() + 1, changed->name());
      r.shuffle(e3);
      if (distinctNames(e3)) {
        require(!(Group(e3) == *g) && !(*g == Group(e3)), "group-equality", "with a different variable");
        require(Group(e3).getVariablesSet() != g->getVariablesSet(), "set-equality", "with a different variable");
      }
      c.st.add("equalities");
      break;
    }
    case 4: {
      Group copy = *g;
      check(copy, exp);
      auto fresh = make_variable(2, cat("fresh", k));
      copy.add(fresh);
      auto e2 = exp;
      e2.push_back(fresh);
      check(copy, e2);
      if (r.p(0.5)) {
        *g = copy;
        exp = e2;
      }
      break;
    }
    }
    check(*g, exp);
  }
  // sets
  {
    auto toRef = [](const VariablesSet &s) {
      std::set<std::pair<std::string, std::size_t>> x;
      for (auto &v : s)
        x.insert({v->name(), v->size()});
      return x;
    };
    auto a = to_vars_set(some(0, 6)), b = to_vars_set(some(0, 6));
    auto ra = toRef(a), rb = toRef(b), rd = ra;
    for (auto &x : rb)
      rd.erase(x);
    auto d = get_complementary(a, b);
    require(toRef(d) == rd, "complementary", ra.size(), " minus ", rb.size(), " gave ", d.size());
    require(toRef(a) == ra && toRef(b) == rb, "complementary", "altered its arguments");
    a -= b;
    require(toRef(a) == rd, "difference", "gave ", a.size());
    auto &same = a;
    a -= same;
    require(a.empty(), "difference", "with itself");
    c.st.add("differences");
  }
  c.desc = cat(exp.size(), " variables; ", log);
  c.nontrivial(hashStr(log) ^ static_cast<std::uint64_t>(r.ri(0, 1 << 20)));
}
VF_MAIN("C23", run)
