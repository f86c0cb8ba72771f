// Controlled scheduler and happens-before monitor for code compiled with -fsanitize=thread.
//
// Preloaded into a Python process. Between mc_begin() and mc_end() the calling thread and
// every thread created by it run one at a time; which one runs next at each
// synchronization operation is dictated by a prefix of choices, then by default. All
// choices are recorded, so that a driver can enumerate every schedule. Memory accesses
// are followed with vector clocks: two accesses to the same bytes by different threads,
// one of them a write, without a happens-before order, are a data race.
#define _GNU_SOURCE 1
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

#define EXPORT extern "C" __attribute__((visibility("default")))
static const int MAXT = 64;
static const long MAXSTEPS = 400000;

struct VC {
  uint32_t c[MAXT];
  VC() { memset(c, 0, sizeof c); }
  void join(const VC &o) {
    for (int i = 0; i < MAXT; i++)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};
enum Op { RUN, LOCK, RDLOCK, WRLOCK, JOIN, COND, FUTEX };
struct Thread {
  int id;
  bool finished = false, joined = false, signaled = false, timed = false;
  Op op = RUN;
  void *obj = nullptr, *mutex = nullptr;
  Thread *target = nullptr;
  long seen = 0;
  sem_t sem;
  pthread_t handle;
  VC vc;
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr;
};
struct Lock {
  int owner = -1, count = 0, readers = 0;
  VC vc;
};
struct Access {
  uint32_t clk;
  uint8_t tid, mask, write;
  void *pc;
};

static bool active = false;
static __thread Thread *self = nullptr;
static std::vector<Thread *> *threads;
static std::unordered_map<void *, Lock> *locks;
static std::unordered_map<void *, VC> *syncs;
static std::unordered_map<void *, int> *onces;
static std::unordered_map<uintptr_t, std::vector<Access>> *shadow;
static std::vector<int> *prefix, *sizes, *taken, *epochs;
static int epoch = 0;
static int bound = 0, preemptions = 0, nworkers = 0;
static long steps = 0, accesses = 0, progress = 0;
static int spin = 0;
static bool diverged = false, overlong = false, raced = false;
static char message[4096];
static void *race_pc[2];
static int race_kind[2], race_tid[2];
static uintptr_t race_addr;

template <class F>
static F real(const char *name, F) {
  return (F)dlsym(RTLD_NEXT, name);
}
#define REAL(f) static auto real_##f = real(#f, &f)

static bool enabled(Thread *t) {
  if (t->finished) return false;
  switch (t->op) {
    case RUN: return true;
    case LOCK: return (*locks)[t->obj].owner < 0 && (*locks)[t->obj].readers == 0;
    case WRLOCK: return (*locks)[t->obj].owner < 0 && (*locks)[t->obj].readers == 0;
    case RDLOCK: return (*locks)[t->obj].owner < 0;
    case JOIN: return t->target->finished;
    case COND: return t->signaled && (*locks)[t->mutex].owner < 0;
    case FUTEX: return progress != t->seen;
  }
  return false;
}

static void die(const char *what) {
  // the driver reads this line; nothing else can be done with the blocked threads
  char buf[4200];
  int n = snprintf(buf, sizeof buf, "\n@@MC %s\n", what);
  if (write(1, buf, n) < 0) {}
  _exit(77);
}

static Thread *pick(bool yielding) {
  std::vector<Thread *> e;
  bool cur = self && !self->finished && enabled(self);
  bool others = false;
  for (auto t : *threads)
    if (t != self && enabled(t)) others = true;
  if (cur && !(yielding && others)) e.push_back(self);
  bool locked_in = !e.empty() && preemptions >= bound;
  if (!locked_in)
    for (auto t : *threads)
      if (t != self && enabled(t)) e.push_back(t);
  if (e.empty()) {
    // a timed wait, or a futex wait that nobody answers, may still end
    for (auto t : *threads)
      if (!t->finished && ((t->op == COND && t->timed && (*locks)[t->mutex].owner < 0) || (t->op == FUTEX && t->timed))) e.push_back(t);
  }
  if (e.empty()) {
    bool all = true;
    for (auto t : *threads)
      if (!t->finished) all = false;
    if (all) return nullptr;
    std::string s = "DEADLOCK";
    for (auto t : *threads)
      if (!t->finished) s += " thread" + std::to_string(t->id) + ":" + std::to_string((int)t->op);
    die(s.c_str());
  }
  int k = 0;
  if (e.size() > 1) {
    size_t pos = taken->size();
    if (pos < prefix->size()) {
      k = (*prefix)[pos];
      if (k >= (int)e.size()) {
        diverged = true;
        k = 0;
      }
    }
    taken->push_back(k);
    sizes->push_back((int)e.size());
    epochs->push_back(epoch);
  }
  if (e[0] == self && k > 0) preemptions++;
  return e[k];
}

static void switch_to(Thread *n) {
  if (n == self) return;
  spin = 0;
  Thread *me = self;
  sem_post(&n->sem);
  if (!me->finished)
    while (sem_wait(&me->sem) && errno == EINTR) {}
}

// the calling thread is about to do `op`; returns when it may do it
static void point(Op op, void *obj = nullptr, Thread *target = nullptr, bool yielding = false) {
  self->op = op, self->obj = obj, self->target = target;
  if (++steps > MAXSTEPS) {
    overlong = true;
    if (steps > 4 * MAXSTEPS) die("OVERLONG");
  }
  if (++spin > 500) yielding = true;
  if (op != FUTEX) progress++;
  switch_to(pick(yielding));
  self->op = RUN;
}

static void acquire(const VC &v) { self->vc.join(v); }
static void release(VC &v) {
  v.join(self->vc);
  self->vc.c[self->id]++;
}

static bool mine(void *ra) {
  if (!active || !self) return false;
  static std::unordered_map<void *, bool> cache;
  auto it = cache.find(ra);
  if (it != cache.end()) return it->second;
  Dl_info i;
  bool python = false;
  if (dladdr(ra, &i) && i.dli_fname) {
    const char *b = strrchr(i.dli_fname, '/');
    b = b ? b + 1 : i.dli_fname;
    python = (strncmp(b, "python", 6) == 0 || strncmp(b, "libpython", 9) == 0);
  }
  return cache[ra] = !python;
}
#define MINE mine(__builtin_return_address(0))

// ---------------------------------------------------------------- control interface
EXPORT void mc_begin(const int *p, int n, int preemption_bound, int workers) {
  static bool init = false;
  if (!init) {
    threads = new std::vector<Thread *>, locks = new std::unordered_map<void *, Lock>;
    syncs = new std::unordered_map<void *, VC>, onces = new std::unordered_map<void *, int>;
    shadow = new std::unordered_map<uintptr_t, std::vector<Access>>;
    prefix = new std::vector<int>, sizes = new std::vector<int>, taken = new std::vector<int>, epochs = new std::vector<int>;
    init = true;
  }
  for (auto t : *threads)
    if (t->finished) delete t;
  threads->clear(), locks->clear(), syncs->clear(), shadow->clear(), onces->clear();
  prefix->assign(p, p + n), sizes->clear(), taken->clear(), epochs->clear(), epoch = 0;
  bound = preemption_bound, preemptions = 0, nworkers = workers;
  steps = accesses = progress = 0, spin = 0;
  diverged = overlong = raced = false;
  message[0] = 0;
  Thread *t = new Thread;
  t->id = 0;
  t->vc.c[0] = 1;
  sem_init(&t->sem, 0, 0);
  threads->push_back(t);
  self = t;
  active = true;
}

// out: number of choices, steps, accesses, threads, preemptions, diverged, overlong, raced, alive
EXPORT int mc_end(int *choices, int *alternatives, int *epoch_of, int cap, long *out) {
  int alive = 0;
  for (auto t : *threads)
    if (t != self && !t->finished) alive++;
  if (alive) {
    char b[100];
    snprintf(b, sizeof b, "OUTLIVES %d", alive);
    die(b);
  }
  active = false;
  self->finished = true;
  self = nullptr;
  int n = (int)taken->size();
  for (int i = 0; i < n && i < cap; i++) choices[i] = (*taken)[i], alternatives[i] = (*sizes)[i], epoch_of[i] = (*epochs)[i];
  long v[] = {n, steps, accesses, (long)threads->size(), preemptions, diverged, overlong, raced, 0};
  memcpy(out, v, sizeof v);
  return n;
}

static void describe(char *buf, size_t n, int i) {
  Dl_info d;
  const char *f = "?";
  uintptr_t off = 0;
  if (dladdr(race_pc[i], &d) && d.dli_fname) f = d.dli_fname, off = (uintptr_t)race_pc[i] - (uintptr_t)d.dli_fbase;
  snprintf(buf, n, "%s by thread %d at %s+0x%lx", race_kind[i] ? "write" : "read", race_tid[i], f, (unsigned long)off);
}

EXPORT const char *mc_race() {
  if (!raced) return "";
  char a[1500], b[1500];
  describe(a, sizeof a, 0), describe(b, sizeof b, 1);
  snprintf(message, sizeof message, "%s | %s", a, b);
  return message;
}

// ---------------------------------------------------------------- memory accesses
static void access_(uintptr_t a, size_t n, bool write, void *pc) {
  if (!active || !self) return;
  accesses++;
  while (n) {
    uintptr_t g = a & ~(uintptr_t)7;
    size_t off = a - g, k = 8 - off < n ? 8 - off : n;
    uint8_t mask = (uint8_t)(((1u << k) - 1) << off);
    auto &l = (*shadow)[g];
    bool placed = false;
    for (auto &x : l) {
      if (x.tid == self->id) {
        if (x.write == write && x.mask == mask) x.clk = self->vc.c[self->id], x.pc = pc, placed = true;
        continue;
      }
      if ((x.mask & mask) && (x.write || write) && x.clk > self->vc.c[x.tid] && !raced) {
        raced = true;
        race_pc[0] = x.pc, race_kind[0] = x.write, race_tid[0] = x.tid;
        race_pc[1] = pc, race_kind[1] = write, race_tid[1] = self->id;
        race_addr = g;
      }
    }
    if (!placed) l.push_back({self->vc.c[self->id], (uint8_t)self->id, mask, (uint8_t)write, pc});
    a += k, n -= k;
  }
}
static void forget(uintptr_t a, size_t n) {
  if (!active || !self || !n) return;
  if (n > 65536) {
    for (auto it = shadow->begin(); it != shadow->end();)
      if (it->first + 8 > a && it->first < a + n) it = shadow->erase(it);
      else ++it;
    return;
  }
  for (uintptr_t g = a & ~(uintptr_t)7; g < a + n; g += 8) shadow->erase(g);
}
#define PC __builtin_return_address(0)
#define RW(n)                                                                              \
  EXPORT void __tsan_read##n(void *a) { access_((uintptr_t)a, n, false, PC); }             \
  EXPORT void __tsan_write##n(void *a) { access_((uintptr_t)a, n, true, PC); }             \
  EXPORT void __tsan_unaligned_read##n(void *a) { access_((uintptr_t)a, n, false, PC); }   \
  EXPORT void __tsan_unaligned_write##n(void *a) { access_((uintptr_t)a, n, true, PC); }   \
  EXPORT void __tsan_volatile_read##n(void *a) { access_((uintptr_t)a, n, false, PC); }    \
  EXPORT void __tsan_volatile_write##n(void *a) { access_((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *a, unsigned long n) { access_((uintptr_t)a, n, false, PC); }
EXPORT void __tsan_write_range(void *a, unsigned long n) { access_((uintptr_t)a, n, true, PC); }
EXPORT void __tsan_vptr_read(void **a) { access_((uintptr_t)a, 8, false, PC); }
EXPORT void __tsan_vptr_update(void **a, void *) { access_((uintptr_t)a, 8, true, PC); }
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {}

EXPORT void *__wrap_memcpy(void *d, const void *s, size_t n) {
  access_((uintptr_t)s, n, false, PC), access_((uintptr_t)d, n, true, PC);
  return memcpy(d, s, n);
}
EXPORT void *__wrap_memmove(void *d, const void *s, size_t n) {
  access_((uintptr_t)s, n, false, PC), access_((uintptr_t)d, n, true, PC);
  return memmove(d, s, n);
}
EXPORT void *__wrap_memset(void *d, int c, size_t n) {
  access_((uintptr_t)d, n, true, PC);
  return memset(d, c, n);
}
EXPORT size_t __wrap_strlen(const char *s) {
  size_t n = strlen(s);
  access_((uintptr_t)s, n + 1, false, PC);
  return n;
}
EXPORT void *_Znwm(size_t);
EXPORT void *_Znam(size_t);
EXPORT void *__wrap__Znwm(size_t n) {
  void *p = _Znwm(n);
  forget((uintptr_t)p, n);
  return p;
}
EXPORT void *__wrap__Znam(size_t n) {
  void *p = _Znam(n);
  forget((uintptr_t)p, n);
  return p;
}
EXPORT void *__wrap_malloc(size_t n) {
  void *p = malloc(n);
  forget((uintptr_t)p, n);
  return p;
}
EXPORT void *__wrap_calloc(size_t a, size_t b) {
  void *p = calloc(a, b);
  forget((uintptr_t)p, a * b);
  return p;
}
EXPORT void *__wrap_realloc(void *q, size_t n) {
  void *p = realloc(q, n);
  forget((uintptr_t)p, n);
  return p;
}

// ---------------------------------------------------------------- atomics: points, and order in both directions
static void atomic_point(volatile void *a) {
  if (!active || !self) return;
  point(RUN);
  VC &v = (*syncs)[(void *)a];
  acquire(v);
  release(v);
  access_((uintptr_t)a, 1, false, PC);
}
#define ATOMIC(bits, T)                                                                                     \
  EXPORT T __tsan_atomic##bits##_load(const volatile T *a, int) {                                           \
    atomic_point((volatile void *)a);                                                                       \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                            \
  }                                                                                                         \
  EXPORT void __tsan_atomic##bits##_store(volatile T *a, T v, int) {                                        \
    atomic_point(a);                                                                                        \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                               \
  }                                                                                                         \
  EXPORT T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) {                                        \
    atomic_point(a);                                                                                        \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                     \
  }                                                                                                         \
  EXPORT T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) {                                       \
    atomic_point(a);                                                                                        \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                      \
  }                                                                                                         \
  EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) {                                       \
    atomic_point(a);                                                                                        \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                      \
  }                                                                                                         \
  EXPORT T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) {                                       \
    atomic_point(a);                                                                                        \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                      \
  }                                                                                                         \
  EXPORT T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) {                                        \
    atomic_point(a);                                                                                        \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                       \
  }                                                                                                         \
  EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) {                                       \
    atomic_point(a);                                                                                        \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                      \
  }                                                                                                         \
  EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) {            \
    atomic_point(a);                                                                                        \
    return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                     \
  }                                                                                                         \
  EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) {              \
    atomic_point(a);                                                                                        \
    return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                     \
  }                                                                                                         \
  EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int, int) {                  \
    atomic_point(a);                                                                                        \
    __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                           \
    return e;                                                                                               \
  }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) {
  if (active && self) {
    point(RUN);
    VC &v = (*syncs)[(void *)&active];
    acquire(v), release(v);
  }
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- threads
static void *start(void *p) {
  Thread *t = (Thread *)p;
  while (sem_wait(&t->sem) && errno == EINTR) {}
  self = t;
  pthread_attr_t at;
  void *base;
  size_t n;
  if (!pthread_getattr_np(pthread_self(), &at)) {
    pthread_attr_getstack(&at, &base, &n);
    pthread_attr_destroy(&at);
    forget((uintptr_t)base, n);
  }
  void *r = t->fn(t->arg);
  t->finished = true;
  progress++;
  Thread *next = pick(false);
  self = nullptr;
  if (next) sem_post(&next->sem);
  return r;
}

EXPORT int pthread_create(pthread_t *h, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  REAL(pthread_create);
  if (!MINE) return real_pthread_create(h, at, fn, arg);
  if (threads->size() >= MAXT) die("TOOMANY");
  Thread *t = new Thread;
  t->id = (int)threads->size();
  t->fn = fn, t->arg = arg;
  t->vc = self->vc;
  t->vc.c[t->id] = 1;
  self->vc.c[self->id]++;
  sem_init(&t->sem, 0, 0);
  int rc = real_pthread_create(h, at, start, t);
  if (rc) return rc;
  t->handle = *h;
  threads->push_back(t);
  point(RUN);
  return 0;
}

EXPORT int pthread_join(pthread_t h, void **r) {
  REAL(pthread_join);
  if (!MINE) return real_pthread_join(h, r);
  for (auto t : *threads)
    if (t != self && t->id > 0 && !t->joined && pthread_equal(t->handle, h)) {
      point(JOIN, nullptr, t);
      t->joined = true;
      acquire(t->vc);
      // every thread created so far is gone: what follows starts from a quiescent state
      bool quiet = true;
      for (auto u : *threads)
        if (u->id > 0 && !u->joined) quiet = false;
      if (quiet) epoch++;
      break;
    }
  return real_pthread_join(h, r);
}

EXPORT int sched_yield() {
  REAL(sched_yield);
  if (!MINE) return real_sched_yield();
  point(RUN, nullptr, nullptr, true);
  return 0;
}
EXPORT int nanosleep(const struct timespec *a, struct timespec *b) {
  REAL(nanosleep);
  if (!MINE) return real_nanosleep(a, b);
  point(RUN, nullptr, nullptr, true);
  return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
  REAL(clock_nanosleep);
  if (!MINE) return real_clock_nanosleep(c, f, a, b);
  point(RUN, nullptr, nullptr, true);
  return 0;
}

// ---------------------------------------------------------------- locks
static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

static void lock_(pthread_mutex_t *m) {
  Lock &l = (*locks)[m];
  if (l.owner == self->id && recursive(m)) {
    l.count++;
    return;
  }
  point(LOCK, m);
  Lock &k = (*locks)[m];
  k.owner = self->id, k.count = 1;
  acquire(k.vc);
}
static void unlock_(pthread_mutex_t *m) {
  Lock &l = (*locks)[m];
  if (--l.count > 0) return;
  l.owner = -1, l.count = 0;
  release(l.vc);
  progress++;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) {
  REAL(pthread_mutex_lock);
  if (!MINE) return real_pthread_mutex_lock(m);
  lock_(m);
  return 0;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
  REAL(pthread_mutex_timedlock);
  if (!MINE) return real_pthread_mutex_timedlock(m, ts);
  lock_(m);
  return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) {
  REAL(pthread_mutex_trylock);
  if (!MINE) return real_pthread_mutex_trylock(m);
  point(RUN);
  Lock &l = (*locks)[m];
  if (l.owner == self->id && recursive(m)) return l.count++, 0;
  if (l.owner >= 0) return EBUSY;
  l.owner = self->id, l.count = 1;
  acquire(l.vc);
  return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
  REAL(pthread_mutex_unlock);
  if (!MINE) return real_pthread_mutex_unlock(m);
  unlock_(m);
  return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  REAL(pthread_rwlock_rdlock);
  if (!MINE) return real_pthread_rwlock_rdlock(m);
  point(RDLOCK, m);
  Lock &l = (*locks)[m];
  l.readers++;
  acquire(l.vc);
  return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  REAL(pthread_rwlock_wrlock);
  if (!MINE) return real_pthread_rwlock_wrlock(m);
  point(WRLOCK, m);
  Lock &l = (*locks)[m];
  l.owner = self->id;
  acquire(l.vc);
  return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *m) {
  REAL(pthread_rwlock_unlock);
  if (!MINE) return real_pthread_rwlock_unlock(m);
  Lock &l = (*locks)[m];
  if (l.owner == self->id) l.owner = -1;
  else l.readers--;
  release(l.vc);
  progress++;
  return 0;
}

static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
  unlock_(m);
  self->signaled = false, self->timed = timed, self->mutex = m;
  point(COND, c);
  bool ok = self->signaled;
  self->timed = false;
  Lock &l = (*locks)[m];
  l.owner = self->id, l.count = 1;
  acquire(l.vc);
  acquire((*syncs)[c]);
  return ok ? 0 : ETIMEDOUT;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  REAL(pthread_cond_wait);
  if (!MINE) return real_pthread_cond_wait(c, m);
  return cond_wait(c, m, false);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  REAL(pthread_cond_timedwait);
  if (!MINE) return real_pthread_cond_timedwait(c, m, ts);
  return cond_wait(c, m, true);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
  REAL(pthread_cond_clockwait);
  if (!MINE) return real_pthread_cond_clockwait(c, m, k, ts);
  return cond_wait(c, m, true);
}
static int wake(pthread_cond_t *c, bool all) {
  release((*syncs)[c]);
  for (auto t : *threads)
    if (!t->finished && t->op == COND && t->obj == c && !t->signaled) {
      t->signaled = true;
      if (!all) break;
    }
  progress++;
  return 0;
}
EXPORT int pthread_cond_signal(pthread_cond_t *c) {
  REAL(pthread_cond_signal);
  if (!MINE) return real_pthread_cond_signal(c);
  return wake(c, false);
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) {
  REAL(pthread_cond_broadcast);
  if (!MINE) return real_pthread_cond_broadcast(c);
  return wake(c, true);
}
EXPORT int pthread_once(pthread_once_t *o, void (*fn)()) {
  REAL(pthread_once);
  if (!MINE) return real_pthread_once(o, fn);
  point(RUN);
  // runs to completion without another point only if fn has none; a second caller waits
  while ((*onces)[o] == 1) point(RUN, nullptr, nullptr, true);
  VC &v = (*syncs)[o];
  if (*(int *)o != 2 && (*onces)[o] == 0) {
    (*onces)[o] = 1;
    fn();
    (*onces)[o] = 2;
    *(int *)o = 2;
    release((*syncs)[o]);
  }
  acquire((*syncs)[o]);
  (void)v;
  return 0;
}
EXPORT int __cxa_guard_acquire(long long *g) {
  REAL(__cxa_guard_acquire);
  if (active && self) {
    point(RUN);
    acquire((*syncs)[g]);
  }
  return real___cxa_guard_acquire(g);
}
EXPORT void __cxa_guard_release(long long *g) {
  REAL(__cxa_guard_release);
  if (active && self) release((*syncs)[g]);
  real___cxa_guard_release(g);
}
// libstdc++ waits for futures, latches and atomics with futexes
EXPORT long syscall(long nr, ...) {
  va_list ap;
  va_start(ap, nr);
  long a[6];
  for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  static long (*rs)(long, ...) = (long (*)(long, ...))dlsym(RTLD_NEXT, "syscall");
  if (nr == SYS_futex && MINE) {
    int cmd = (int)a[1] & FUTEX_CMD_MASK;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
      if (*(volatile int *)a[0] == (int)a[2]) {
        self->seen = progress;
        self->timed = a[3] != 0;
        point(FUTEX, (void *)a[0]);
        self->timed = false;
      }
      acquire((*syncs)[(void *)a[0]]);
      return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
      release((*syncs)[(void *)a[0]]);
      progress++;
      return 0;
    }
  }
  return rs(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}

// ---------------------------------------------------------------- number of processors
EXPORT unsigned _ZNSt6thread20hardware_concurrencyEv() {
  static unsigned (*f)() = (unsigned (*)())dlsym(RTLD_NEXT, "_ZNSt6thread20hardware_concurrencyEv");
  if (nworkers > 0 && self) return (unsigned)nworkers;
  return f ? f() : 1;
}
EXPORT int get_nprocs() noexcept {
  static int (*f)() = (int (*)())dlsym(RTLD_NEXT, "get_nprocs");
  return nworkers > 0 && self ? nworkers : f();
}
EXPORT long sysconf(int n) noexcept {
  static long (*f)(int) = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
  if ((n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) && nworkers > 0 && self) return nworkers;
  return f(n);
}
