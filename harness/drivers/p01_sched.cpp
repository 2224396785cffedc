// Runs workloads of label creations on real threads under a controlled
// scheduler: all interleavings at lock operations with a bounded number of
// preemptions are executed (stateless depth-first search).  Locks are recognised at the pthread level, so the
// harness does not depend on how dim.cpp is written.
#include <atomic>
#include <condition_variable>
#include <dlfcn.h>
#include <functional>
#include <map>
#include <mutex>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

#include "scipp/units/dim.h"
#include "vtrace.h"
using namespace scipp;
using vt::json;

namespace sched {
struct LockState {
  int writer = -1;
  std::multiset<int> readers;
};
struct Th {
  sem_t go;
  bool finished = false;
  const void *want = nullptr; // lock waited for
  bool want_write = false;
};
static thread_local int me = -1;
static std::vector<Th> th;
static std::map<const void *, LockState> locks;
static sem_t back; // controller wakes when the running thread pauses

static bool runnable(int t) {
  if (th[t].finished)
    return false;
  if (!th[t].want)
    return true;
  const auto &l = locks[th[t].want];
  if (th[t].want_write)
    return l.writer == -1 && l.readers.empty();
  return l.writer == -1;
}
static void pause() {
  const int m = me;
  me = -1; // sem ops are not intercepted, but be safe
  sem_post(&back);
  sem_wait(&th[m].go);
  me = m;
}
static void acquire(const void *l, bool write) {
  th[me].want = l;
  th[me].want_write = write;
  pause(); // scheduled again only when the lock is free
  th[me].want = nullptr;
  if (write)
    locks[l].writer = me;
  else
    locks[l].readers.insert(me);
}
static bool try_acquire(const void *l, bool write) {
  pause();
  auto &s = locks[l];
  if (s.writer != -1 || (write && !s.readers.empty()))
    return false;
  if (write)
    s.writer = me;
  else
    s.readers.insert(me);
  return true;
}
static void release(const void *l) {
  auto &s = locks[l];
  if (s.writer == me)
    s.writer = -1;
  else if (const auto it = s.readers.find(me); it != s.readers.end())
    s.readers.erase(it);
  pause();
}
} // namespace sched

#define REAL(name) ((int (*)(void *))dlsym(RTLD_NEXT, #name))
#define INTERPOSE(name, controlled)                                            \
  extern "C" int name(void *l) noexcept {                                      \
    if (sched::me < 0) {                                                       \
      static auto real = REAL(name);                                           \
      return real(l);                                                          \
    }                                                                          \
    controlled;                                                                \
  }
// declared in pthread.h with specific types: interpose through asm names
#undef INTERPOSE
#define INTERPOSE(name, type, controlled)                                      \
  extern "C" int name(type *l) noexcept {                                      \
    if (sched::me < 0) {                                                       \
      static auto real = (int (*)(type *))dlsym(RTLD_NEXT, #name);             \
      return real(l);                                                          \
    }                                                                          \
    controlled;                                                                \
  }
INTERPOSE(pthread_rwlock_rdlock, pthread_rwlock_t, sched::acquire(l, false); return 0)
INTERPOSE(pthread_rwlock_wrlock, pthread_rwlock_t, sched::acquire(l, true); return 0)
INTERPOSE(pthread_rwlock_tryrdlock, pthread_rwlock_t, return sched::try_acquire(l, false) ? 0 : EBUSY)
INTERPOSE(pthread_rwlock_trywrlock, pthread_rwlock_t, return sched::try_acquire(l, true) ? 0 : EBUSY)
INTERPOSE(pthread_rwlock_unlock, pthread_rwlock_t, sched::release(l); return 0)
INTERPOSE(pthread_mutex_lock, pthread_mutex_t, sched::acquire(l, true); return 0)
INTERPOSE(pthread_mutex_trylock, pthread_mutex_t, return sched::try_acquire(l, true) ? 0 : EBUSY)
INTERPOSE(pthread_mutex_unlock, pthread_mutex_t, sched::release(l); return 0)

struct Result {
  std::string op, label, name;
  int id;
};

static long long uniq = 0;

// runs the workload following `choice`, extending it with 0s; records the
// number of alternatives at every choice point
static std::vector<Result> run(const json &work, std::vector<int> &choice,
                               std::vector<int> &alts, bool &deadlock,
                               const int max_preempt) {
  using namespace sched;
  std::vector<json> ops;
  for (auto &[k, v] : work.items())
    ops.push_back(v);
  const int n = ops.size();
  th = std::vector<Th>(n);
  for (auto &t : th)
    sem_init(&t.go, 0, 0);
  sem_init(&back, 0, 0);
  locks.clear();
  std::vector<Result> results; // only the scheduled thread appends
  const std::string prefix = "s" + std::to_string(uniq++) + "_";
  std::vector<std::thread> threads;
  for (int t = 0; t < n; ++t)
    threads.emplace_back([&, t] {
      sem_wait(&th[t].go);
      me = t;
      for (const auto &o : ops[t]) {
        const auto label = prefix + o["label"].get<std::string>();
        try {
          const Dim d(label);
          const auto name = d.name();
          results.push_back({"intern", label, name, static_cast<int>(d.id())});
        } catch (const std::exception &) {
          results.push_back({"refused", label, "", 0});
        }
        sched::pause();
      }
      me = -1;
      th[t].finished = true;
      sem_post(&back);
    });
  alts.clear();
  deadlock = false;
  int current = -1, preemptions = 0;
  for (size_t step = 0;; ++step) {
    std::vector<int> cand; // first: keep running the current thread
    const bool can_continue = current >= 0 && runnable(current);
    if (can_continue)
      cand.push_back(current);
    if (!can_continue || preemptions < max_preempt)
      for (int t = 0; t < n; ++t)
        if (t != current && runnable(t))
          cand.push_back(t);
    if (cand.empty()) {
      for (int t = 0; t < n; ++t)
        if (!th[t].finished)
          deadlock = true;
      break;
    }
    if (step >= choice.size())
      choice.push_back(0);
    alts.push_back(cand.size());
    const int next = cand[choice[step] % cand.size()];
    preemptions += can_continue && next != current;
    current = next;
    sem_post(&th[current].go);
    sem_wait(&back);
  }
  if (deadlock) {
    fprintf(stderr, "DEADLOCK in workload %s\n", work.dump().c_str());
    vt::trace().flush();
    _exit(3);
  }
  for (auto &t : threads)
    t.join();
  return results;
}

int main(int argc, char **argv) {
  const auto programs = vt::read_programs(argv[1]);
  const vt::Shard shard(argv[2]);
  const long max_sched = argc > 3 ? atol(argv[3]) : 3000;
  const int max_preempt = argc > 4 ? atoi(argv[4]) : 2;
  Dim("warm up").name();
  vt::emit({{"op", "reset"}});
  long k = 0, schedules = 0;
  for (const auto &work : programs) {
    if (!shard.mine(k++))
      continue;
    std::vector<int> choice, alts;
    for (long s = 0; s < max_sched && uniq < 30000; ++s) {
      bool deadlock;
      alts.clear();
      // the registry is never cleared and holds 64536 labels: the caller
      // shards so that this is not reached
      const auto res = run(work, choice, alts, deadlock, max_preempt);
      // every execution uses fresh labels: keep the abstract state small
      vt::emit({{"op", "reset"}, {"workload", k}, {"schedule", choice}});
      for (const auto &r : res) {
        json j{{"op", r.op}, {"label", r.label}};
        if (r.op == "intern") {
          j["id"] = r.id;
          j["name"] = r.name;
        } else
          j["full"] = false;
        vt::emit(j);
      }
      ++schedules;
      // next schedule in depth-first order
      choice.resize(alts.size());
      int i = static_cast<int>(choice.size()) - 1;
      while (i >= 0 && choice[i] + 1 >= alts[i])
        --i;
      if (i < 0)
        break;
      choice.resize(i + 1);
      ++choice[i];
    }
  }
  fprintf(stderr, "schedules %ld\n", schedules);
  printf("schedules %ld\n", schedules);
}
