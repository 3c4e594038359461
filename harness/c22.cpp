// C22: ranges enumerate the joint domain once, in lexicographic order
#include "common.hpp"
#include <EasyFactorGraph/categoric/GroupRange.h>
using namespace vf;
using namespace EFG::categoric;
using Comb = std::vector<std::size_t>;

static bool next(Comb &c, const Comb &sz) {
  for (std::size_t k = c.size(); k-- > 0;) {
    if (++c[k] < sz[k])
      return true;
    c[k] = 0;
  }
  return false;
}

static GroupRange make(Ctx &c, const Comb &sz) {
  if (c.rng.p(0.4)) {
    c.st.add("from_sizes");
    return GroupRange{sz};
  }
  VariablesSoup soup;
  for (std::size_t k = 0; k < sz.size(); ++k)
    soup.push_back(make_variable(sz[k], cat("v", k)));
  c.st.add("from_group");
  return GroupRange{Group{soup}};
}

static void run(Ctx &c) {
  Rng &r = c.rng;
  Comb sz;
  std::size_t tot = 1;
  bool huge = r.p(0.1);
  std::size_t limit = r.p(0.0005) ? 70000 : 4000;
  std::size_t n = static_cast<std::size_t>(huge ? r.ri(20, 70) : r.ri(1, 7));
  for (std::size_t k = 0; k < n; ++k) {
    std::size_t z = static_cast<std::size_t>(r.p(0.2) ? 1 : (r.p(0.1) ? (r.p(0.05) ? r.ri(250, 300) : r.ri(6, 40)) : r.ri(2, 5)));
    if (!huge && tot * z > limit)
      z = 1;
    tot = huge ? 0 : tot * z;
    sz.push_back(z);
  }
  c.desc = cat("sizes ", vec(sz), huge ? " (partial)" : "");
  GroupRange range = make(c, sz);
  Comb ref(n, 0);
  if (huge) {
    // the domain is too big to be completed: only the first steps
    c.st.add("huge_domains");
    for (long k = r.ri(1, 3000); k > 0; --k) {
      require(range != RANGE_END, "ended-too-early", "");
      require(*range == ref, "wrong-combination", vec(*range), " instead of ", vec(ref));
      if (!next(ref, sz))
        break;
      ++range;
    }
    c.nontrivial(hashStr(c.desc));
    return;
  }
  std::size_t copyAt = static_cast<std::size_t>(r.ri(0, static_cast<long>(tot) - 1));
  bool useForEach = r.p(0.3);
  if (useForEach) {
    std::size_t seen = 0;
    std::size_t skip = static_cast<std::size_t>(r.p(0.5) ? 0 : r.ri(0, static_cast<long>(tot) - 1));
    for (std::size_t k = 0; k < skip; ++k) {
      ++range;
      next(ref, sz);
    }
    bool more = true;
    for_each_combination(range, [&](const Comb &x) {
      require(more, "too-many", "combination ", vec(x), " after the last one");
      require(x == ref, "wrong-combination", vec(x), " instead of ", vec(ref));
      more = next(ref, sz);
      ++seen;
    });
    require(seen == tot - skip, "missing-combinations", seen, " instead of ", tot - skip);
    require(range == RANGE_END, "not-at-end", "after for_each_combination");
  } else {
    for (std::size_t k = 0; k < tot; ++k) {
      require(range != RANGE_END && !(range == GroupRange::end()), "ended-too-early", k, " of ", tot);
      require(*range == ref && range->size() == n && *range.operator->() == ref, "wrong-combination",
              vec(*range), " instead of ", vec(ref));
      if (k == copyAt) {
        GroupRange copy = range;
        require(copy == range && !(copy != range), "copy-differs", "");
        Comb r2 = ref;
        std::size_t left = tot - k;
        std::size_t steps = static_cast<std::size_t>(r.ri(0, static_cast<long>(left)));
        for (std::size_t j = 0; j < steps; ++j) {
          require(*copy == r2, "wrong-combination", "copy ", vec(*copy), " instead of ", vec(r2));
          next(r2, sz);
          require(&(++copy) == &copy, "increment", "does not return itself");
          require(copy != range, "equal-at-different-points", "");
        }
        require((copy == RANGE_END) == (steps == left), "copy-end", "");
        require(*range == ref, "copy-not-independent", vec(*range), " instead of ", vec(ref));
        GroupRange fresh = make(c, sz);
        require((fresh == range) == (k == 0), "equality", "with a fresh range at step ", k);
      }
      ++range;
      next(ref, sz);
    }
    require(range == RANGE_END && !(range != RANGE_END), "not-at-end", "after ", tot, " increments");
  }
  for (int k = 0; k < 2; ++k) {
    bool thrown = false;
    try {
      ++range;
    } catch (const std::exception &) {
      thrown = true;
    }
    require(thrown, "increment-after-end", "accepted");
    require(range == RANGE_END, "increment-after-end", "altered the range");
  }
  c.st.add("combinations", tot);
  c.nontrivial(hashStr(c.desc));
}
VF_MAIN("C22", run)
