// Shim for the parts of TBB that header-only point cloud code uses, on top of the chaos fork/join core.
// Semantics follow the oneTBB specification; every freedom the specification leaves (how far to split, where
// pieces run, in what order, when a reduction body is split) is resolved by the seeded chaos runtime.
#pragma once
#include <algorithm>
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <shared_mutex>
#include <thread>
#include <utility>
#include <vector>
#include <unordered_map>
#include <iostream>

void chaos_fork_join(std::function<void()>* fns, size_t n);
extern "C" {
void chaos_point();
uint64_t chaos_rand(uint64_t n);
int chaos_chunk_mode();
void chaos_tbb_limit(int n);
int chaos_tbb_get_limit();
int chaos_tbb_thread_index();
}

#define TBB_VERSION_MAJOR 2021
#define TBB_VERSION_MINOR 11
#define TBB_INTERFACE_VERSION 12110

namespace tbb {
struct split {};
struct simple_partitioner {};
struct auto_partitioner {};
struct static_partitioner {};
struct affinity_partitioner {};

template <typename Value>
class blocked_range {
public:
  using const_iterator = Value;
  using size_type = std::size_t;
  blocked_range(Value b, Value e, size_type g = 1) : b_(b), e_(e), g_(g) {}
  blocked_range(blocked_range& r, split) : e_(r.e_), g_(r.g_) { b_ = r.b_ + (r.e_ - r.b_) / 2u; r.e_ = b_; }
  const_iterator begin() const { return b_; }
  const_iterator end() const { return e_; }
  size_type size() const { return size_type(e_ - b_); }
  size_type grainsize() const { return g_; }
  bool empty() const { return !(b_ < e_); }
  bool is_divisible() const { return g_ < size(); }
private:
  Value b_, e_;
  size_type g_;
};

template <typename R>
class blocked_range2d_base {};

namespace chaos_detail {
// keep: 0 always split fully, otherwise stop early with some probability
inline bool stop_here(bool simple) { return !simple && chaos_chunk_mode() != 1 && chaos_rand(100) < (chaos_chunk_mode() == 0 ? 12u : 35u); }

template <typename Range>
void leaves(Range r, bool simple, std::vector<Range>& out) {
  if (!r.is_divisible() || stop_here(simple)) { out.push_back(r); return; }
  Range right(r, split());
  leaves(r, simple, out);
  leaves(right, simple, out);
}
template <typename Range, typename Body>
void pfor(const Range& range, const Body& body, bool simple) {
  if (range.empty()) return;
  std::vector<Range> ls;
  leaves(range, simple, ls);
  if (ls.size() == 1) { const Body b(body); Range r(ls[0]); b(r); return; }
  // group contiguous leaves into up to 16 tasks; within a task, order is ascending
  size_t ntask = 1 + chaos_rand(std::min<size_t>(16, ls.size()));
  std::vector<std::vector<Range>> groups(ntask);
  if (chaos_rand(2)) for (size_t i = 0; i < ls.size(); i++) groups[i * ntask / ls.size()].push_back(ls[i]);
  else for (size_t i = 0; i < ls.size(); i++) groups[chaos_rand(ntask)].push_back(ls[i]);
  std::vector<std::function<void()>> fns;
  for (auto& g : groups) {
    const std::vector<Range>* gp = &g;
    // Body copies are made in the forking thread, as TBB copies them per task.
    std::shared_ptr<Body> b = std::make_shared<Body>(body);
    fns.push_back([gp, b]() { const Body& bb = *b; for (const auto& r : *gp) { chaos_point(); Range rr(r); bb(rr); } });
  }
  chaos_fork_join(fns.data(), fns.size());
}
}  // namespace chaos_detail

template <typename Range, typename Body, typename = decltype(std::declval<const Range&>().is_divisible())>
void parallel_for(const Range& r, const Body& body) { chaos_detail::pfor(r, body, false); }
template <typename Range, typename Body, typename = decltype(std::declval<const Range&>().is_divisible())>
void parallel_for(const Range& r, const Body& body, const simple_partitioner&) { chaos_detail::pfor(r, body, true); }
template <typename Range, typename Body, typename = decltype(std::declval<const Range&>().is_divisible())>
void parallel_for(const Range& r, const Body& body, const auto_partitioner&) { chaos_detail::pfor(r, body, false); }
template <typename Range, typename Body, typename = decltype(std::declval<const Range&>().is_divisible())>
void parallel_for(const Range& r, const Body& body, const static_partitioner&) { chaos_detail::pfor(r, body, false); }
template <typename Range, typename Body, typename = decltype(std::declval<const Range&>().is_divisible())>
void parallel_for(const Range& r, const Body& body, affinity_partitioner&) { chaos_detail::pfor(r, body, false); }
template <typename Index, typename F, typename = std::enable_if_t<std::is_integral_v<Index>>>
void parallel_for(Index first, Index last, const F& f) {
  if (!(first < last)) return;
  chaos_detail::pfor(blocked_range<Index>(first, last, 1), [&](const blocked_range<Index>& r) { for (Index i = r.begin(); i != r.end(); ++i) f(i); }, false);
}
template <typename Index, typename F, typename = std::enable_if_t<std::is_integral_v<Index>>>
void parallel_for(Index first, Index last, Index step, const F& f) {
  if (!(first < last)) return;
  Index n = (last - first - 1) / step + 1;
  parallel_for(Index(0), n, [&](Index i) { f(Index(first + i * step)); });
}
template <typename It, typename F>
void parallel_for_each(It first, It last, const F& f) {
  std::vector<It> its;
  for (; first != last; ++first) its.push_back(first);
  parallel_for(size_t(0), its.size(), [&](size_t i) { f(*its[i]); });
}
template <typename C, typename F>
void parallel_for_each(C& c, const F& f) { parallel_for_each(std::begin(c), std::end(c), f); }

template <typename... Fs>
void parallel_invoke(const Fs&... fs) {
  std::vector<std::function<void()>> fns{std::function<void()>([&fs] { fs(); })...};
  if (chaos_rand(100) < 15) {  // any order, one thread
    for (size_t a = fns.size(); a > 1; a--) std::swap(fns[a - 1], fns[chaos_rand(a)]);
    for (auto& f : fns) f();
    return;
  }
  chaos_fork_join(fns.data(), fns.size());
}

namespace chaos_detail {
template <typename Range, typename Body>
void preduce(Range r, Body& body, int depth) {
  if (!r.is_divisible() || stop_here(false)) { chaos_point(); body(r); return; }
  Range right(r, split());
  const unsigned how = chaos_rand(3);
  if (how == 0 || depth > 7) {            // not stolen: the same body accumulates left, then right
    preduce(r, body, depth + 1);
    preduce(right, body, depth + 1);
  } else if (how == 1) {                  // stolen after the body was split eagerly
    Body rhs(body, split());
    std::function<void()> f[2] = {[&] { preduce(r, body, depth + 1); }, [&] { preduce(right, rhs, depth + 1); }};
    chaos_fork_join(f, 2);
    body.join(rhs);
  } else {                                // stolen: body is split while the original is running
    alignas(Body) unsigned char buf[sizeof(Body)];
    Body* rhs = nullptr;
    std::function<void()> f[2] = {[&] { preduce(r, body, depth + 1); }, [&] { rhs = new (buf) Body(body, split()); preduce(right, *rhs, depth + 1); }};
    chaos_fork_join(f, 2);
    body.join(*rhs);
    rhs->~Body();
  }
}
}  // namespace chaos_detail

template <typename Range, typename Body, typename = decltype(std::declval<const Range&>().is_divisible())>
void parallel_reduce(const Range& r, Body& body) { if (!r.empty()) chaos_detail::preduce(r, body, 0); }
template <typename Range, typename Body, typename Part, typename = decltype(std::declval<const Range&>().is_divisible()), typename = decltype(std::declval<Body&>().join(std::declval<Body&>()))>
void parallel_reduce(const Range& r, Body& body, const Part&) { if (!r.empty()) chaos_detail::preduce(r, body, 0); }
template <typename Range, typename Body>
void parallel_deterministic_reduce(const Range& r, Body& body) { if (!r.empty()) chaos_detail::preduce(r, body, 0); }

namespace chaos_detail {
template <typename Range, typename Value, typename F, typename R>
struct LambdaBody {
  const Value& id; const F& f; const R& red; Value v;
  LambdaBody(const Value& id, const F& f, const R& red) : id(id), f(f), red(red), v(id) {}
  LambdaBody(LambdaBody& o, split) : id(o.id), f(o.f), red(o.red), v(o.id) {}
  void operator()(const Range& r) { v = f(r, v); }
  void join(LambdaBody& o) { v = red(v, o.v); }
};
}
template <typename Range, typename Value, typename F, typename R>
Value parallel_reduce(const Range& r, const Value& id, const F& f, const R& red) {
  chaos_detail::LambdaBody<Range, Value, F, R> b(id, f, red);
  if (!r.empty()) chaos_detail::preduce(r, b, 0);
  return b.v;
}
template <typename Range, typename Value, typename F, typename R>
Value parallel_deterministic_reduce(const Range& r, const Value& id, const F& f, const R& red) { return parallel_reduce(r, id, f, red); }

namespace chaos_detail {
template <typename It, typename C>
void psort(It b, It e, const C& c, int depth) {
  auto n = std::distance(b, e);
  if (n < 500 || depth > 4) { std::sort(b, e, c); return; }
  It m = b + n / 2;
  std::function<void()> f[2] = {[&] { psort(b, m, c, depth + 1); }, [&] { psort(m, e, c, depth + 1); }};
  chaos_fork_join(f, 2);
  std::inplace_merge(b, m, e, c);
}
}
template <typename It, typename C>
void parallel_sort(It b, It e, const C& c) {
  // parallel_sort is unstable: present equal elements in an arbitrary order
  for (auto n = std::distance(b, e); n > 1; n--) std::swap(*(b + (n - 1)), *(b + chaos_rand(n)));
  chaos_detail::psort(b, e, c, 0);
}
template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
void parallel_sort(It b, It e) { parallel_sort(b, e, std::less<typename std::iterator_traits<It>::value_type>()); }
template <typename Cont, typename C, typename = decltype(std::begin(std::declval<Cont&>()))>
void parallel_sort(Cont&& c, const C& comp) { parallel_sort(std::begin(c), std::end(c), comp); }
template <typename Cont, typename = decltype(std::begin(std::declval<Cont&>()))>
void parallel_sort(Cont&& c) { parallel_sort(std::begin(c), std::end(c)); }

class global_control {
public:
  enum parameter { max_allowed_parallelism, thread_stack_size };
  global_control(parameter p, size_t v) : old(chaos_tbb_get_limit()), p(p) { if (p == max_allowed_parallelism) chaos_tbb_limit((int)v); }
  ~global_control() { if (p == max_allowed_parallelism) chaos_tbb_limit(old); }
  static size_t active_value(parameter) { return chaos_tbb_get_limit(); }
private:
  int old; parameter p;
};

class task_group {
public:
  template <typename F> void run(F f) { std::lock_guard<std::mutex> l(m); fs.push_back(f); }
  void wait() { for (;;) { std::vector<std::function<void()>> q; { std::lock_guard<std::mutex> l(m); q.swap(fs); } if (q.empty()) return; chaos_fork_join(q.data(), q.size()); } }
  template <typename F> void run_and_wait(const F& f) { run(f); wait(); }
private:
  std::mutex m;
  std::vector<std::function<void()>> fs;
};

class task_arena {
public:
  task_arena(int = -1, unsigned = 1) {}
  void initialize() {}
  template <typename F> auto execute(F&& f) -> decltype(f()) { return f(); }
  int max_concurrency() const { return chaos_tbb_get_limit(); }
};
namespace this_task_arena {
inline int current_thread_index() { return chaos_tbb_thread_index() & 63; }
inline int max_concurrency() { return 64; }
template <typename F> auto isolate(F&& f) -> decltype(f()) { return f(); }
}  // namespace this_task_arena

using mutex = std::mutex;
using spin_mutex_base = std::mutex;
class spin_mutex {
public:
  class scoped_lock { public: scoped_lock(spin_mutex& m) : m(&m) { m.m.lock(); } scoped_lock() = default; ~scoped_lock() { if (m) m->m.unlock(); } void acquire(spin_mutex& mm) { m = &mm; m->m.lock(); } void release() { m->m.unlock(); m = nullptr; } private: spin_mutex* m = nullptr; };
  void lock() { m.lock(); } void unlock() { m.unlock(); } bool try_lock() { return m.try_lock(); }
private:
  std::mutex m;
};
using queuing_mutex = spin_mutex;
using speculative_spin_mutex = spin_mutex;

template <typename T>
class enumerable_thread_specific {
public:
  enumerable_thread_specific() : init([] { return T(); }) {}
  explicit enumerable_thread_specific(const T& e) : init([e] { return e; }) {}
  template <typename F, typename = decltype(std::declval<F&>()())> explicit enumerable_thread_specific(F f) : init(f) {}
  T& local() { std::lock_guard<std::mutex> l(m); auto& p = v[chaos_tbb_thread_index()]; if (!p) { p = std::make_unique<T>(init()); order.push_back(p.get()); } return *p; }
  template <typename F> T combine(F f) { if (order.empty()) return init(); T r = *order[0]; for (size_t i = 1; i < order.size(); i++) r = f(r, *order[i]); return r; }
  template <typename F> void combine_each(F f) { for (auto* p : order) f(*p); }
  struct iterator { T** p; T& operator*() const { return **p; } T* operator->() const { return *p; } iterator& operator++() { ++p; return *this; } bool operator!=(const iterator& o) const { return p != o.p; } bool operator==(const iterator& o) const { return p == o.p; } };
  iterator begin() { return {order.data()}; }
  iterator end() { return {order.data() + order.size()}; }
  size_t size() const { return order.size(); }
  void clear() { v.clear(); order.clear(); }
private:
  std::function<T()> init;
  std::mutex m;
  std::unordered_map<int, std::unique_ptr<T>> v;
  std::vector<T*> order;
};
template <typename T> using combinable = enumerable_thread_specific<T>;

template <typename T, typename A = std::allocator<T>>
class concurrent_vector {
public:
  void push_back(const T& x) { std::lock_guard<std::mutex> l(m); v.push_back(x); }
  template <typename... Args> void emplace_back(Args&&... a) { std::lock_guard<std::mutex> l(m); v.emplace_back(std::forward<Args>(a)...); }
  size_t size() const { return v.size(); }
  bool empty() const { return v.empty(); }
  auto begin() { return v.begin(); }
  auto end() { return v.end(); }
  auto begin() const { return v.begin(); }
  auto end() const { return v.end(); }
  T& operator[](size_t i) { return v[i]; }
  const T& operator[](size_t i) const { return v[i]; }
private:
  std::mutex m;
  std::vector<T, A> v;
};
class tick_count {
public:
  static tick_count now() { return {}; }
};
}  // namespace tbb
namespace oneapi { namespace tbb = ::tbb; }
