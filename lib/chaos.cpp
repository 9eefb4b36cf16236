// Chaos runtime: a small conformant OpenMP (GOMP ABI) runtime and a fork/join core for the TBB shim, with
// seeded adversarial scheduling (random chunking, chunk order, task order, inline/deferred tasks, delays,
// thread counts).  Compiled WITHOUT -fsanitize=thread: its internal locks are invisible to ThreadSanitizer,
// and only the happens-before edges that the programming models guarantee are announced through
// __tsan_acquire/__tsan_release.  So (a) a race in the code under test is not masked by runtime-internal
// synchronisation and (b) there are no false reports from an uninstrumented runtime.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <deque>
#include <functional>
#include <algorithm>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

extern "C" {
void __tsan_acquire(void*) __attribute__((weak));
void __tsan_release(void*) __attribute__((weak));
void AnnotateIgnoreReadsBegin(const char*, int) __attribute__((weak));
void AnnotateIgnoreReadsEnd(const char*, int) __attribute__((weak));
void AnnotateIgnoreWritesBegin(const char*, int) __attribute__((weak));
void AnnotateIgnoreWritesEnd(const char*, int) __attribute__((weak));
}

namespace chaos {

static inline void acq(void* p) { if (__tsan_acquire) __tsan_acquire(p); }
static inline void rel(void* p) { if (__tsan_release) __tsan_release(p); }

// ---- invisible spin lock -------------------------------------------------------------------
struct Spin {
  int v = 0;
  void lock() { int n = 0; while (__atomic_exchange_n(&v, 1, __ATOMIC_ACQUIRE)) { if (++n > 50) { sched_yield(); } } }
  void unlock() { __atomic_store_n(&v, 0, __ATOMIC_RELEASE); }
};
// Runtime-internal memory operations (allocation, intercepted memmove) are not accesses of the program under test.
struct Ign {
  Ign() { if (AnnotateIgnoreReadsBegin) { AnnotateIgnoreReadsBegin(__FILE__, __LINE__); AnnotateIgnoreWritesBegin(__FILE__, __LINE__); } }
  ~Ign() { if (AnnotateIgnoreReadsBegin) { AnnotateIgnoreWritesEnd(__FILE__, __LINE__); AnnotateIgnoreReadsEnd(__FILE__, __LINE__); } }
};
struct Guard { Spin& s; Ign ign; explicit Guard(Spin& s) : s(s) { s.lock(); } ~Guard() { s.unlock(); } };

static void nap_us(long us) { struct timespec t = {0, us * 1000}; nanosleep(&t, nullptr); }
static void idle(int& n) { if (++n < 40) sched_yield(); else nap_us(n < 200 ? 20 : 100); }

// ---- randomness and policy -----------------------------------------------------------------
static uint64_t g_seed = 1;
static uint64_t g_hash = 0, g_events = 0, g_steals = 0, g_stream = 0, g_max_team = 0;
struct Policy { int delay; int inline_pct; int order; int fewer_pct; int chunk; };
static Policy g_pol = {1, 20, 2, 10, 0};

static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }

static __thread uint64_t t_rng = 0;
static uint64_t rnd() {
  if (!t_rng) t_rng = mix(g_seed ^ mix(__atomic_add_fetch(&g_stream, 1, __ATOMIC_RELAXED)));
  t_rng += 0x9e3779b97f4a7c15ull;
  return mix(t_rng);
}
static uint64_t rnd(uint64_t n) { return n ? rnd() % n : 0; }

static void event(int kind, int who, uint64_t what) {
  // Order-sensitive hash of scheduling decisions (which thread took what, in which order).
  uint64_t e = mix(((uint64_t)kind << 56) ^ ((uint64_t)who << 40) ^ what);
  uint64_t old = __atomic_load_n(&g_hash, __ATOMIC_RELAXED);
  while (!__atomic_compare_exchange_n(&g_hash, &old, old * 0x100000001b3ull + e, true, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {}
  __atomic_add_fetch(&g_events, 1, __ATOMIC_RELAXED);
}

static void perturb() {
  if (g_pol.delay == 0) return;
  uint64_t x = rnd(100);
  if (g_pol.delay == 1) { if (x < 15) sched_yield(); else if (x < 17) nap_us(rnd(40)); }
  else { if (x < 30) sched_yield(); else if (x < 45) { volatile int k = rnd(2000); while (k > 0) k = k - 1; } else if (x < 52) nap_us(rnd(120)); }
}

}  // namespace chaos

extern "C" void chaos_seed(uint64_t seed) {
  using namespace chaos;
  g_seed = mix(seed);
  __atomic_store_n(&g_stream, 0, __ATOMIC_RELAXED);
  t_rng = 0;
  uint64_t r = mix(seed ^ 0xabcdef);
  static const int inl[] = {0, 0, 20, 50, 90};
  static const int dly[] = {0, 1, 1, 2, 2};
  static const int few[] = {0, 0, 0, 30};
  g_pol.delay = dly[r % 5]; r = mix(r);
  g_pol.inline_pct = inl[r % 5]; r = mix(r);
  g_pol.order = r % 3; r = mix(r);          // 0 LIFO, 1 FIFO, 2 random
  g_pol.fewer_pct = few[r % 4]; r = mix(r); // fewer threads than requested (thread limit)
  g_pol.chunk = r % 3;
}
extern "C" uint64_t chaos_take_schedule_hash() { return __atomic_exchange_n(&chaos::g_hash, 0, __ATOMIC_RELAXED); }
extern "C" uint64_t chaos_take_events() { return __atomic_exchange_n(&chaos::g_events, 0, __ATOMIC_RELAXED); }
extern "C" uint64_t chaos_take_max_team() { return __atomic_exchange_n(&chaos::g_max_team, 0, __ATOMIC_RELAXED); }
extern "C" uint64_t chaos_take_steals() { return __atomic_exchange_n(&chaos::g_steals, 0, __ATOMIC_RELAXED); }
extern "C" void chaos_point() { chaos::perturb(); }
extern "C" uint64_t chaos_rand(uint64_t n) { return chaos::rnd(n); }
extern "C" int chaos_chunk_mode() { return chaos::g_pol.chunk; }

// =============================================================================================
// OpenMP
// =============================================================================================
namespace chaos {

struct Group { int pending = 0; char tag = 0; };  // tasks to wait for (children or taskgroup)

struct Task {
  void (*fn)(void*) = nullptr;
  std::vector<char> buf;
  void* arg = nullptr;
  Task* parent = nullptr;
  Group children;
  Group* group = nullptr;   // enclosing taskgroup
  int creator = 0;
  int refs = 1;             // self + children still alive
};

struct WorkShare {
  int kind = 0;  // 1 loop, 2 sections, 3 single, 4 copyprivate
  bool is_ull = false;
  int64_t start = 0, incr = 1;
  uint64_t total = 0;
  std::vector<std::pair<uint64_t, uint64_t>> chunks;  // [iteration index range)
  uint64_t next = 0;
  bool taken = false;
  void* copy = nullptr;
  char tag = 0;
};

struct Team {
  int n = 1;
  Spin m;
  std::vector<Task*> tasks;
  uint64_t outstanding = 0;   // tasks created and not finished
  std::vector<WorkShare*> ws;
  int arrived = 0;
  uint64_t bar_gen = 0;
  char bar_tag[2] = {0, 0};
  void (*fn)(void*) = nullptr;
  void* data = nullptr;
  uint64_t task_seq = 0;
};

struct TS {
  Team* team = nullptr;
  int tid = 0;
  Task* cur = nullptr;
  uint64_t ws_idx = 0;      // next workshare index
  WorkShare* w = nullptr;   // current
  int level = 0;
  Group* tg = nullptr;
};
static __thread TS* t_ts = nullptr;
static int g_nthreads_var = 4;

static void task_unref(Task* t) {
  Ign ign;
  while (t) {
    if (__atomic_sub_fetch(&t->refs, 1, __ATOMIC_ACQ_REL) != 0) return;
    Task* p = t->parent;
    delete t;
    t = p;
  }
}

static void run_task(TS* ts, Task* t, bool inl) {
  Task* saved = ts->cur;
  Group* stg = ts->tg;
  WorkShare* sw = ts->w;
  ts->cur = t;
  ts->tg = t->group;
  if (!inl) acq(t);
  if (t->creator != ts->tid) __atomic_add_fetch(&g_steals, 1, __ATOMIC_RELAXED);
  perturb();
  t->fn(t->arg);
  perturb();
  ts->cur = saved;
  ts->tg = stg;
  ts->w = sw;
  // completion: release towards taskwait of the parent, taskgroup end and barriers
  Task* p = t->parent;
  if (p) { rel(&p->children.tag); }
  if (t->group) rel(&t->group->tag);
  rel(&ts->team->bar_tag[1]);
  {
    Guard g(ts->team->m);
    if (p) p->children.pending--;
    if (t->group) t->group->pending--;
  }
  task_unref(t);  // drops the reference to the parent, possibly another thread's implicit task
  Guard g(ts->team->m);
  ts->team->outstanding--;
}

static bool descends(Task* t, Task* anc) { for (t = t->parent; t; t = t->parent) if (t == anc) return true; return false; }

// Take a task eligible for this thread.  anc != null: only direct children (or, sometimes, descendants) of anc.
static Task* take(TS* ts, Task* anc, Group* grp) {
  Team* tm = ts->team;
  bool deep = anc && rnd(2) == 0;
  Guard g(tm->m);
  std::vector<size_t> el;
  for (size_t i = 0; i < tm->tasks.size(); i++) {
    Task* t = tm->tasks[i];
    if (grp) { if (t->group == grp || t->parent == anc) el.push_back(i); }
    else if (!anc || t->parent == anc || (deep && descends(t, anc))) el.push_back(i);
  }
  if (el.empty()) return nullptr;
  size_t k = g_pol.order == 0 ? el.back() : g_pol.order == 1 ? el.front() : el[rnd(el.size())];
  Task* t = tm->tasks[k];
  tm->tasks.erase(tm->tasks.begin() + k);
  event(2, ts->tid, (uint64_t)k);
  return t;
}

static void barrier(TS* ts) {
  Team* tm = ts->team;
  perturb();
  rel(&tm->bar_tag[0]);
  uint64_t gen;
  {
    Guard g(tm->m);
    gen = tm->bar_gen;
    tm->arrived++;
  }
  int n = 0;
  for (;;) {
    {
      Guard g(tm->m);
      if (tm->bar_gen != gen) break;
      if (tm->arrived == tm->n && tm->outstanding == 0) { tm->arrived = 0; tm->bar_gen++; break; }
    }
    if (Task* t = take(ts, nullptr, nullptr)) { run_task(ts, t, false); n = 0; }
    else idle(n);
  }
  acq(&tm->bar_tag[0]);
  acq(&tm->bar_tag[1]);
  perturb();
}

struct Start { Team* team; int tid; int level; };

static void run_member(Team* tm, int tid, int level) {
  TS ts;
  ts.team = tm; ts.tid = tid; ts.level = level;
  Task root;
  root.creator = tid;
  ts.cur = &root;
  TS* saved = t_ts;
  t_ts = &ts;
  perturb();
  tm->fn(tm->data);
  barrier(&ts);
  t_ts = saved;
}

static void* thread_main(void* p) {
  Start s = *(Start*)p;
  if (rnd(3) == 0) nap_us(rnd(150));
  run_member(s.team, s.tid, s.level);
  return nullptr;
}

static WorkShare* get_ws(TS* ts, int kind, const std::function<void(WorkShare*)>& init) {
  Team* tm = ts->team;
  uint64_t idx = ts->ws_idx++;
  Guard g(tm->m);
  while (tm->ws.size() <= idx) tm->ws.push_back(nullptr);
  if (!tm->ws[idx]) { auto* w = new WorkShare; w->kind = kind; init(w); tm->ws[idx] = w; }
  return ts->w = tm->ws[idx];
}

enum { K_STATIC, K_DYNAMIC, K_GUIDED };
static void init_loop(WorkShare* w, int64_t start, uint64_t total, int64_t incr, uint64_t chunk, int kind, bool mono, int n) {
  w->start = start; w->incr = incr; w->total = total;
  if (chunk == 0) chunk = 1;
  uint64_t i = 0;
  int mode = g_pol.chunk;
  while (i < total) {
    uint64_t left = total - i, sz = chunk;
    if (kind == K_GUIDED) {
      uint64_t hi = (left + n - 1) / n;
      if (hi > chunk) sz = mode == 0 ? hi : mode == 1 ? chunk : chunk + rnd(hi - chunk + 1);
    }
    sz = std::min(sz, left);
    w->chunks.push_back({i, i + sz});
    i += sz;
  }
  if (!mono) {
    if (rnd(3) == 0) { for (size_t a = w->chunks.size(); a > 1; a--) std::swap(w->chunks[a - 1], w->chunks[rnd(a)]); }
    else if (rnd(4) == 0) std::reverse(w->chunks.begin(), w->chunks.end());
  }
}

template <typename T>
static bool loop_next(T* is, T* ie) {
  TS* ts = t_ts;
  WorkShare* w = ts->w;
  perturb();
  uint64_t k = __atomic_fetch_add(&w->next, 1, __ATOMIC_RELAXED);
  if (k >= w->chunks.size()) return false;
  event(1, ts->tid, k);
  *is = (T)((uint64_t)w->start + (uint64_t)w->incr * w->chunks[k].first);
  *ie = (T)((uint64_t)w->start + (uint64_t)w->incr * w->chunks[k].second);
  return true;
}

static uint64_t niter(int64_t start, int64_t end, int64_t incr) {
  if (incr > 0) return end > start ? ((uint64_t)(end - start) + incr - 1) / incr : 0;
  return start > end ? ((uint64_t)(start - end) + (uint64_t)(-incr) - 1) / (uint64_t)(-incr) : 0;
}

static TS* need_ts() {
  // Orphaned constructs (called outside a parallel region): an implicit team of one.
  if (!t_ts) {
    static __thread TS* solo = nullptr;
    if (!solo) { solo = new TS; solo->team = new Team; solo->cur = new Task; }
    // never freed: one per thread that uses orphaned constructs
    t_ts = solo;
  }
  return t_ts;
}

static void do_parallel(void (*fn)(void*), void* data, unsigned nt, const std::function<void(Team*)>& pre) {
  Team* tm;
  { Ign ign; tm = new Team; }
  TS* outer = t_ts;
  int level = outer ? outer->level + 1 : 1;
  int n = nt ? (int)nt : g_nthreads_var;
  if (outer && outer->team && outer->team->n > 1) n = 1;     // max-active-levels = 1
  if (n > 64) n = 64;
  if (!outer) { uint64_t seen = __atomic_load_n(&g_max_team, __ATOMIC_RELAXED); if ((uint64_t)n > seen) __atomic_store_n(&g_max_team, (uint64_t)n, __ATOMIC_RELAXED); }
  if (n > 1 && (int)rnd(100) < g_pol.fewer_pct) n = 1 + (int)rnd(n);
  tm->n = n; tm->fn = fn; tm->data = data;
  if (pre) { Ign ign; pre(tm); }
  std::vector<pthread_t> th(n > 1 ? n - 1 : 0);
  std::vector<Start> st(n);
  int created = 0;
  for (int i = 1; i < n; i++) {
    st[i] = {tm, i, level};
    if (pthread_create(&th[i - 1], nullptr, thread_main, &st[i])) { fprintf(stderr, "chaos: pthread_create failed\n"); _exit(99); }
    created++;
  }
  run_member(tm, 0, level);
  for (int i = 0; i < created; i++) pthread_join(th[i], nullptr);
  Ign ign;
  for (auto* w : tm->ws) delete w;
  delete tm;
}

static Spin g_crit, g_atomic;
static char g_crit_tag, g_atomic_tag;

}  // namespace chaos

using namespace chaos;

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { do_parallel(fn, data, nt, nullptr); }

#define PARLOOP(name, KIND, MONO) \
  void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned nt, long start, long end, long incr, long chunk, unsigned) { \
    do_parallel(fn, data, nt, [&](Team* tm) { auto* w = new WorkShare; w->kind = 1; init_loop(w, start, niter(start, end, incr), incr, chunk, KIND, MONO, tm->n); tm->ws.push_back(w); }); }
#define PARLOOP_RT(name, MONO) \
  void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned nt, long start, long end, long incr, unsigned) { \
    do_parallel(fn, data, nt, [&](Team* tm) { auto* w = new WorkShare; w->kind = 1; init_loop(w, start, niter(start, end, incr), incr, 1, K_DYNAMIC, MONO, tm->n); tm->ws.push_back(w); }); }
PARLOOP(static, K_GUIDED, true)
PARLOOP(dynamic, K_DYNAMIC, true)
PARLOOP(guided, K_GUIDED, true)
PARLOOP(nonmonotonic_dynamic, K_DYNAMIC, false)
PARLOOP(nonmonotonic_guided, K_GUIDED, false)
PARLOOP_RT(runtime, true)
PARLOOP_RT(nonmonotonic_runtime, false)
PARLOOP_RT(maybe_nonmonotonic_runtime, false)

// In a combined construct the first *_next call uses workshare 0.
static inline void ensure_ws() { TS* ts = need_ts(); if (!ts->w && ts->ws_idx == 0 && !ts->team->ws.empty()) { ts->w = ts->team->ws[0]; ts->ws_idx = 1; } }

#define LOOP(name, KIND, MONO) \
  bool GOMP_loop_##name##_start(long start, long end, long incr, long chunk, long* is, long* ie) { \
    TS* ts = need_ts(); get_ws(ts, 1, [&](WorkShare* w) { init_loop(w, start, niter(start, end, incr), incr, chunk, KIND, MONO, ts->team->n); }); return loop_next<long>(is, ie); } \
  bool GOMP_loop_##name##_next(long* is, long* ie) { ensure_ws(); return loop_next<long>(is, ie); } \
  bool GOMP_loop_ull_##name##_start(bool up, unsigned long long start, unsigned long long end, unsigned long long incr, unsigned long long chunk, unsigned long long* is, unsigned long long* ie) { \
    TS* ts = need_ts(); get_ws(ts, 1, [&](WorkShare* w) { uint64_t n = up ? (end > start ? (end - start + incr - 1) / incr : 0) : (start > end ? (start - end + (-incr) - 1) / (-incr) : 0); \
      init_loop(w, (int64_t)start, n, (int64_t)incr, chunk, KIND, MONO, ts->team->n); }); return loop_next<unsigned long long>(is, ie); } \
  bool GOMP_loop_ull_##name##_next(unsigned long long* is, unsigned long long* ie) { ensure_ws(); return loop_next<unsigned long long>(is, ie); }
#define LOOP_RT(name, MONO) \
  bool GOMP_loop_##name##_start(long start, long end, long incr, long* is, long* ie) { \
    TS* ts = need_ts(); get_ws(ts, 1, [&](WorkShare* w) { init_loop(w, start, niter(start, end, incr), incr, 1, K_DYNAMIC, MONO, ts->team->n); }); return loop_next<long>(is, ie); } \
  bool GOMP_loop_##name##_next(long* is, long* ie) { ensure_ws(); return loop_next<long>(is, ie); }
LOOP(static, K_GUIDED, true)
LOOP(dynamic, K_DYNAMIC, true)
LOOP(guided, K_GUIDED, true)
LOOP(nonmonotonic_dynamic, K_DYNAMIC, false)
LOOP(nonmonotonic_guided, K_GUIDED, false)
LOOP_RT(runtime, true)
LOOP_RT(nonmonotonic_runtime, false)
LOOP_RT(maybe_nonmonotonic_runtime, false)

void GOMP_loop_end(void) { TS* ts = need_ts(); ts->w = nullptr; barrier(ts); }
void GOMP_loop_end_nowait(void) { TS* ts = need_ts(); ts->w = nullptr; }
void GOMP_barrier(void) { barrier(need_ts()); }

bool GOMP_single_start(void) {
  TS* ts = need_ts();
  perturb();
  WorkShare* w = get_ws(ts, 3, [](WorkShare*) {});
  ts->w = nullptr;
  bool mine = !__atomic_exchange_n(&w->taken, true, __ATOMIC_RELAXED);
  if (mine) event(3, ts->tid, 0);
  return mine;
}

unsigned GOMP_sections_start(unsigned count) {
  TS* ts = need_ts();
  get_ws(ts, 2, [&](WorkShare* w) { w->total = count; for (unsigned i = 0; i < count; i++) w->chunks.push_back({i, i + 1}); for (size_t a = w->chunks.size(); a > 1; a--) std::swap(w->chunks[a - 1], w->chunks[rnd(a)]); });
  uint64_t k = __atomic_fetch_add(&ts->w->next, 1, __ATOMIC_RELAXED);
  if (k >= ts->w->chunks.size()) return 0;
  event(4, ts->tid, k);
  return (unsigned)ts->w->chunks[k].first + 1;
}
unsigned GOMP_sections_next(void) {
  TS* ts = need_ts();
  if (!ts->w && !ts->team->ws.empty()) ensure_ws();
  perturb();
  uint64_t k = __atomic_fetch_add(&ts->w->next, 1, __ATOMIC_RELAXED);
  if (k >= ts->w->chunks.size()) return 0;
  event(4, ts->tid, k);
  return (unsigned)ts->w->chunks[k].first + 1;
}
void GOMP_sections_end(void) { TS* ts = need_ts(); ts->w = nullptr; barrier(ts); }
void GOMP_sections_end_nowait(void) { need_ts()->w = nullptr; }
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned nt, unsigned count, unsigned) {
  do_parallel(fn, data, nt, [&](Team* tm) { auto* w = new WorkShare; w->kind = 2; for (unsigned i = 0; i < count; i++) w->chunks.push_back({i, i + 1}); tm->ws.push_back(w); });
}

void GOMP_taskwait(void);
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long arg_size, long arg_align, bool if_clause, unsigned flags, void**, int) {
  TS* ts = need_ts();
  perturb();
  if (flags & 8) GOMP_taskwait();  // depend clauses: wait for all siblings (a legal, stricter order)
  bool undeferred = !if_clause || (flags & 2);
  bool now = undeferred || (int)rnd(100) < g_pol.inline_pct;
  Task* t;
  { Ign ign; t = new Task; }
  t->fn = fn;
  t->parent = ts->cur;
  t->group = ts->tg;
  t->creator = ts->tid;
  if (!now || cpyfn) {
    { Ign ign; t->buf.resize(arg_size + arg_align); }
    uintptr_t a = ((uintptr_t)t->buf.data() + arg_align - 1) & ~(uintptr_t)(arg_align - 1);
    t->arg = (void*)a;
    if (cpyfn) cpyfn(t->arg, data); else { Ign ign; memcpy(t->arg, data, arg_size); }
  } else {
    t->arg = data;
  }
  __atomic_add_fetch(&ts->cur->refs, 1, __ATOMIC_RELAXED);
  {
    Guard g(ts->team->m);
    ts->team->outstanding++;
    t->parent->children.pending++;
    if (t->group) t->group->pending++;
    if (!now) {
      rel(t);
      ts->team->tasks.push_back(t);
    }
  }
  if (now) run_task(ts, t, true);
  perturb();
}

void GOMP_taskwait(void) {
  TS* ts = need_ts();
  perturb();
  int n = 0;
  for (;;) {
    { Guard g(ts->team->m); if (ts->cur->children.pending == 0) break; }
    if (Task* t = take(ts, ts->cur, nullptr)) { run_task(ts, t, false); n = 0; }
    else idle(n);
  }
  acq(&ts->cur->children.tag);
}
void GOMP_taskyield(void) { perturb(); sched_yield(); }

void GOMP_taskgroup_start(void) {
  TS* ts = need_ts();
  struct GG : Group { Group* prev; };
  GG* g = new GG; g->prev = ts->tg; ts->tg = g;
}
void GOMP_taskgroup_end(void) {
  TS* ts = need_ts();
  struct GG : Group { Group* prev; };
  GG* gg = static_cast<GG*>(ts->tg);
  int n = 0;
  for (;;) {
    { Guard g(ts->team->m); if (gg->pending == 0) break; }
    if (Task* t = take(ts, ts->cur, gg)) { run_task(ts, t, false); n = 0; }
    else idle(n);
  }
  acq(&gg->tag);
  ts->tg = gg->prev;
  delete gg;
}

void GOMP_critical_start(void) { perturb(); g_crit.lock(); acq(&g_crit_tag); }
void GOMP_critical_end(void) { rel(&g_crit_tag); g_crit.unlock(); perturb(); }
void GOMP_atomic_start(void) { perturb(); g_atomic.lock(); acq(&g_atomic_tag); }
void GOMP_atomic_end(void) { rel(&g_atomic_tag); g_atomic.unlock(); }
void GOMP_critical_name_start(void** pp) {
  perturb();
  int* v = (int*)pp;
  int n = 0;
  while (__atomic_exchange_n(v, 1, __ATOMIC_ACQUIRE)) if (++n > 50) sched_yield();
  acq(pp);
}
void GOMP_critical_name_end(void** pp) { rel(pp); __atomic_store_n((int*)pp, 0, __ATOMIC_RELEASE); perturb(); }

int omp_get_thread_num(void) { return t_ts ? t_ts->tid : 0; }
int omp_get_num_threads(void) { return t_ts ? t_ts->team->n : 1; }
int omp_get_max_threads(void) { return g_nthreads_var; }
void omp_set_num_threads(int n) { if (n > 0) g_nthreads_var = n; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return t_ts && t_ts->team->n > 1; }
int omp_in_final(void) { return 0; }
int omp_get_level(void) { return t_ts ? t_ts->level : 0; }
int omp_get_active_level(void) { return omp_in_parallel(); }
int omp_get_thread_limit(void) { return 64; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels(void) { return 1; }
int omp_get_ancestor_thread_num(int) { return 0; }
int omp_get_team_size(int) { return omp_get_num_threads(); }
int omp_get_num_teams(void) { return 1; }
int omp_get_team_num(void) { return 0; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
double omp_get_wtick(void) { return 1e-9; }
struct chaos_lock { int v; };
void omp_init_lock(chaos_lock* l) { l->v = 0; }
void omp_destroy_lock(chaos_lock*) {}
void omp_set_lock(chaos_lock* l) { int n = 0; perturb(); while (__atomic_exchange_n(&l->v, 1, __ATOMIC_ACQUIRE)) if (++n > 50) sched_yield(); acq(l); }
void omp_unset_lock(chaos_lock* l) { rel(l); __atomic_store_n(&l->v, 0, __ATOMIC_RELEASE); }
int omp_test_lock(chaos_lock* l) { if (__atomic_exchange_n(&l->v, 1, __ATOMIC_ACQUIRE)) return 0; acq(l); return 1; }
}

// =============================================================================================
// Fork/join core for the TBB shim
// =============================================================================================
namespace chaos {

struct FJ { int pending = 0; char tag = 0; };
struct Item { const std::function<void()>* fn; FJ* fj; int creator; char tag = 0; };

static Spin p_m;
static std::vector<Item*> p_q;
static bool p_started = false;
static int p_limit = 4;
static __thread int t_worker = -1;
static int p_extern = 1000;

static void run_item(Item* it) {
  if (t_worker < 0) t_worker = __atomic_add_fetch(&p_extern, 1, __ATOMIC_RELAXED);
  acq(&it->tag);
  if (it->creator != t_worker) __atomic_add_fetch(&g_steals, 1, __ATOMIC_RELAXED);
  perturb();
  (*it->fn)();
  perturb();
  FJ* fj = it->fj;
  { Ign ign; delete it; }
  rel(&fj->tag);
  __atomic_sub_fetch(&fj->pending, 1, __ATOMIC_RELEASE);
}

static Item* take_item(FJ* only) {
  Guard g(p_m);
  if (p_q.empty()) return nullptr;
  size_t k;
  if (only) {
    std::vector<size_t> el;
    for (size_t i = 0; i < p_q.size(); i++) if (p_q[i]->fj == only) el.push_back(i);
    if (el.empty()) return nullptr;
    k = el[rnd(el.size())];
  } else {
    k = g_pol.order == 0 ? p_q.size() - 1 : g_pol.order == 1 ? 0 : rnd(p_q.size());
  }
  Item* it = p_q[k];
  p_q.erase(p_q.begin() + k);
  event(5, t_worker & 0xff, k);
  return it;
}

static void* worker_main(void* p) {
  t_worker = (int)(intptr_t)p;
  int n = 0;
  for (;;) {
    if (t_worker < __atomic_load_n(&p_limit, __ATOMIC_RELAXED) - 1) {
      if (Item* it = take_item(nullptr)) { run_item(it); n = 0; continue; }
    }
    idle(n);
  }
  return nullptr;
}

static void start_pool() {
  Guard g(p_m);
  if (p_started) return;
  p_started = true;
  for (int i = 0; i < 7; i++) {
    pthread_t t;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    if (pthread_create(&t, &a, worker_main, (void*)(intptr_t)i)) { fprintf(stderr, "chaos: pthread_create failed\n"); _exit(99); }
  }
}
}  // namespace chaos

// Run all functions, possibly concurrently, and wait for them (with TSan-visible fork and join edges only).
void chaos_fork_join(std::function<void()>* fns, size_t n) {
  if (n == 0) return;
  if (!p_started) start_pool();
  if (t_worker < 0) t_worker = __atomic_add_fetch(&p_extern, 1, __ATOMIC_RELAXED);
  FJ* fj;
  { Ign ign; fj = new FJ; }
  fj->pending = (int)n;
  {
    Ign ign;
    std::vector<Item*> its;
    for (size_t i = 0; i < n; i++) { its.push_back(new Item{&fns[i], fj, t_worker}); rel(&its.back()->tag); }
    Guard g(p_m);
    for (auto* it : its) p_q.push_back(it);
  }
  int k = 0;
  while (__atomic_load_n(&fj->pending, __ATOMIC_ACQUIRE) > 0) {
    Item* it = take_item(fj);
    if (!it && rnd(4) == 0) it = take_item(nullptr);  // TBB may steal unrelated work while waiting
    if (it) { run_item(it); k = 0; } else idle(k);
  }
  acq(&fj->tag);
  Ign ign;
  delete fj;
}
extern "C" void chaos_tbb_limit(int n) { __atomic_store_n(&chaos::p_limit, n < 1 ? 1 : n, __ATOMIC_RELAXED); }
extern "C" int chaos_tbb_get_limit() { return __atomic_load_n(&chaos::p_limit, __ATOMIC_RELAXED); }
extern "C" int chaos_tbb_thread_index() { if (t_worker < 0) t_worker = __atomic_add_fetch(&p_extern, 1, __ATOMIC_RELAXED); return t_worker; }
