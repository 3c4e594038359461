// C09: the pool runs every task exactly once, before returning
#include "common.hpp"
#include "perturb.hpp"
#include <EasyFactorGraph/structure/bases/PoolAware.h>
#include <atomic>
#include <thread>
using namespace vf;
using EFG::strct::Pool;
using EFG::strct::Task;
using EFG::strct::Tasks;

struct Owner : public EFG::strct::PoolAware {
  using PoolAware::getPool;
  using PoolAware::resetPool;
  using PoolAware::setPoolSize;
  struct Scoped {
    PoolAware::ScopedPoolActivator a;
    Scoped(Owner &o, std::size_t n) : a(o, n) {}
  };
};

static void pause(Rng &r) {
  switch (r.ri(0, 9)) {
  case 0: {
    timespec t{0, static_cast<long>(r.ri(1, 40000))};
    nanosleep(&t, nullptr);
    break;
  }
  case 1:
  case 2:
    sched_yield();
    break;
  default:
    break;
  }
}

// one call of parallelFor, monitored
static void round(Ctx &c, Rng &r, Pool &pool, std::size_t n, std::size_t poolSize, bool exclusive,
                  std::vector<std::atomic<int>> &inflight, std::mutex &mtx, bool delays) {
  std::vector<int> runs(n, 0);       // not atomic on purpose: the return of the call
  std::vector<long> who(n, -1);      // should make the writes visible
  std::vector<std::atomic<int>> exact(n);
  for (auto &e : exact)
    e = 0;
  std::atomic<long> done{0};
  std::atomic<bool> returned{false};
  std::atomic<int> late{0}, overlap{0}, badId{0};
  Tasks tasks;
  for (std::size_t k = 0; k < n; ++k) {
    Rng tr(r.next());
    tasks.emplace_back([&, k, tr](const std::size_t id) mutable {
      if (returned.load())
        ++late;
      if (id >= poolSize)
        ++badId;
      else if (exclusive && inflight[id].exchange(1) != 0)
        ++overlap;
      if (delays)
        pause(tr);
      ++runs[k];
      who[k] = static_cast<long>(id);
      ++exact[k];
      ++done;
      if (delays)
        pause(tr);
      if (id < poolSize && exclusive)
        inflight[id].store(0);
    });
  }
  pool.parallelFor(tasks);
  long at = done.load();
  returned = true;
  std::string key, msg;
  std::size_t ids = 0;
  {
    std::set<long> s;
    for (std::size_t k = 0; k < n; ++k) {
      if (exact[k] != 1 || runs[k] != 1) {
        key = "not-exactly-once";
        msg = cat("task ", k, " of ", n, " run ", exact[k].load(), " times, pool of ", poolSize);
      }
      s.insert(who[k]);
    }
    ids = s.size();
  }
  if (at != static_cast<long>(n)) {
    key = "returned-too-early";
    msg = cat(at, " tasks completed when returning, instead of ", n);
  }
  if (overlap) {
    key = "same-id-in-parallel";
    msg = cat("2 tasks with the same thread id at the same time, pool of ", poolSize);
  }
  if (badId) {
    key = "wrong-thread-id";
    msg = cat("pool of ", poolSize);
  }
  // a late execution would use dangling tasks: wait for it
  if (delays && r.p(0.02)) {
    timespec t{0, 300000};
    nanosleep(&t, nullptr);
  }
  if (late) {
    key = "run-after-return";
    msg = "task run after the return of the call";
  }
  std::scoped_lock lock(mtx);
  c.st.add("tasks", n);
  c.st.add("calls");
  c.st.add(cat("thread_ids_used_", ids));
  if (!key.empty())
    throw Violation{key, msg};
}

static void run(Ctx &c) {
  Rng &r = c.rng;
  vf::perturb::level = static_cast<std::uint32_t>(r.pick(std::vector<long>{0, 10, 100}));
  struct Off {
    ~Off() { vf::perturb::level = 0; }
  } off;
  std::mutex mtx;
  bool delays = r.p(0.6);
  auto size = [&]() {
    return static_cast<std::size_t>(r.p(0.9) ? r.ri(1, 5) : (r.p(0.97) ? r.ri(6, 12) : r.ri(13, 24)));
  };
  auto tasksN = [&]() {
    double u = r.uni();
    if (!delays && r.p(0.003))
      return static_cast<std::size_t>(r.p(0.1) ? r.ri(65500, 66000) : r.ri(250, 3000));
    return static_cast<std::size_t>(u < 0.1 ? 0 : (u < 0.8 ? r.ri(1, 12) : r.ri(13, 200)));
  };
  int kind = static_cast<int>(r.ri(0, 3));
  c.desc = cat("kind ", kind, " delays ", delays);
  std::vector<std::size_t> hist;
  switch (kind) {
  case 0: { // one pool, many calls
    std::size_t ps = size();
    Pool pool(ps);
    require(pool.size() == ps, "pool-size", pool.size(), " instead of ", ps);
    std::vector<std::atomic<int>> inflight(ps);
    for (auto &x : inflight)
      x = 0;
    hist.push_back(ps);
    for (long k = r.ri(1, 25); k > 0; --k) {
      auto n = tasksN();
      hist.push_back(n);
      round(c, r, pool, n, ps, true, inflight, mtx, delays);
    }
    break;
  }
  case 1: { // resizing
    Owner o;
    require(o.getPool().size() == 1, "default-size", o.getPool().size());
    for (long k = r.ri(2, 8); k > 0; --k) {
      std::size_t ps = size();
      hist.push_back(ps);
      std::size_t before = o.getPool().size();
      auto use = [&](std::size_t expected) {
        require(o.getPool().size() == expected, "pool-size", o.getPool().size(), " instead of ",
                expected);
        std::vector<std::atomic<int>> inflight(expected);
        for (auto &x : inflight)
          x = 0;
        round(c, r, o.getPool(), tasksN(), expected, true, inflight, mtx, delays);
      };
      if (r.p(0.4)) {
        {
          Owner::Scoped a(o, ps);
          use(ps);
        }
        use(1);
      } else if (r.p(0.2)) {
        bool thrown = false;
        try {
          o.setPoolSize(0);
        } catch (const std::exception &) {
          thrown = true;
        }
        require(thrown, "null-size-accepted", "setPoolSize(0)");
        use(before);
      } else {
        o.setPoolSize(ps);
        use(ps);
      }
    }
    break;
  }
  case 2: { // the same pool, used at the same time by many threads
    std::size_t ps = size();
    Pool pool(ps);
    hist.push_back(ps);
    std::vector<std::thread> th;
    std::vector<std::atomic<int>> inflight(ps);
    for (auto &x : inflight)
      x = 0;
    std::vector<Violation> bad;
    long callers = r.ri(2, 4);
    for (long k = 0; k < callers; ++k) {
      Rng tr(r.next());
      th.emplace_back([&, tr]() mutable {
        try {
          for (long j = tr.ri(1, 6); j > 0; --j)
            round(c, tr, pool, static_cast<std::size_t>(tr.ri(0, 20)), ps, true, inflight, mtx, delays);
        } catch (const Violation &v) {
          std::scoped_lock lock(mtx);
          bad.push_back(v);
        }
      });
    }
    for (auto &t : th)
      t.join();
    if (!bad.empty())
      throw bad.front();
    hist.push_back(static_cast<std::size_t>(callers));
    break;
  }
  case 3: { // short lives
    for (long k = r.ri(3, 12); k > 0; --k) {
      std::size_t ps = size();
      hist.push_back(ps);
      Pool pool(ps);
      if (r.p(0.5)) {
        std::vector<std::atomic<int>> inflight(ps);
        for (auto &x : inflight)
          x = 0;
        round(c, r, pool, tasksN(), ps, true, inflight, mtx, delays);
      }
    }
    bool thrown = false;
    try {
      Pool p(0);
    } catch (const std::exception &) {
      thrown = true;
    }
    require(thrown, "null-size-accepted", "Pool(0)");
    break;
  }
  }
  c.desc += " " + vec(hist);
  c.st.add("forced_delays", vf::perturb::delays.exchange(0));
  c.nontrivial(hashStr(c.desc));
}
VF_MAIN("C09", run)
