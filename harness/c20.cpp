// C20: read-only objects shared by concurrent callers: no data race, every call returns what it returns alone.
#include "ops.hpp"
#include <atomic>
#include <thread>

static void run(Case& c) {
  vf::Rng& r = c.rng;
  Quiet q;
  World w, w2;
  const size_t n = r.pick({60, 200, 500, 900});  // one block of the parallel downsampling
  const uint64_t ws = r.next(), os = r.next();
  build(w, vf::Rng(ws), n); build(w2, vf::Rng(ws), n);
  vf::Rng r1(os), r2(os);
  std::vector<Op> all_ops = make_ops(w, r1), shared_ops = make_ops(w2, r2);
  for (size_t i = all_ops.size(); i > 1; i--) { const size_t j = r.u(i); std::swap(all_ops[i - 1], all_ops[j]); std::swap(shared_ops[i - 1], shared_ops[j]); }
  all_ops.resize(r.pick({2, 4, 8, 12})); shared_ops.resize(all_ops.size());
  const size_t threads = r.pick({2, 3, 4, 6}), per = r.pick({2, 4, 8});
  c.describe("n=%zu threads=%zu calls=%zu ops=%zu:", n, threads, per, all_ops.size());
  for (auto& o : all_ops) c.describe("%s", o.name);
  c.sig(c.idx);
  const uint64_t h0 = hash_cloud(*w2.target) ^ hash_cloud(*w2.source);

  // alone, three times: results that already vary (parallel summation order on a knife's edge) are not compared
  std::vector<Out> solo; std::vector<char> stable;
  auto alone = [&] { for (auto& o : all_ops) {
    solo.push_back(o.f()); bool st = true;
    if (o.mode != EXACT) for (int k = 0; k < 2 && st; k++) st = apart(o.mode, solo.back(), o.f()) <= tol(o.mode) * 0.01;
    else if (r.coin(0.3)) c.check(apart(EXACT, solo.back(), o.f()) == 0, std::string("repeat-") + o.name, "%s: the same call alone returns something else the second time", o.name);
    stable.push_back(st); if (!st) c.count("unstable_alone");
  } };
  // together
  std::vector<std::vector<std::pair<size_t, Out>>> got(threads);
  std::vector<std::vector<size_t>> plan(threads);
  const bool same = r.coin(0.3);  // everyone runs the same operation
  const size_t the = r.u(all_ops.size());
  for (auto& p : plan) for (size_t i = 0; i < per; i++) p.push_back(same ? the : r.u(all_ops.size()));
  std::atomic<size_t> ready{0}, active{0}; std::atomic<uint64_t> overlaps{0};
  const bool first = r.coin();  // globals initialised on first use: sometimes the concurrent callers come first
  if (!first) alone();
  std::vector<std::thread> th;
  for (size_t t = 0; t < threads; t++) th.emplace_back([&, t] {
    ready.fetch_add(1, std::memory_order_relaxed);
    while (ready.load(std::memory_order_relaxed) < threads) std::this_thread::yield();
    for (size_t i : plan[t]) {
      if (active.fetch_add(1, std::memory_order_relaxed)) overlaps.fetch_add(1, std::memory_order_relaxed);
      Out o = shared_ops[i].f();
      active.fetch_sub(1, std::memory_order_relaxed);
      got[t].emplace_back(i, std::move(o));
    }
  });
  for (auto& t : th) t.join();
  if (first) alone();
  c.count("overlapping_calls", overlaps);
  if (overlaps) c.nontrivial();
  for (size_t t = 0; t < threads; t++) for (auto& [i, o] : got[t]) {
    c.count("calls"); c.count(std::string("op_") + all_ops[i].name);
    if (!stable[i]) continue;
    c.count("results_compared");
    const double d = apart(all_ops[i].mode, solo[i], o);
    if (all_ops[i].mode != EXACT && d < 1e200) c.maxi(std::string("max_deviation_mode") + std::to_string(all_ops[i].mode), d);
    vf::SecondLook look(c, nullptr);
    if (all_ops[i].mode != EXACT) c.second_look = [&] { for (int k = 0; k < 40; k++) if (!(apart(all_ops[i].mode, solo[i], all_ops[i].f()) <= tol(all_ops[i].mode) * 0.01)) return false; return true; };
    c.check(d <= tol(all_ops[i].mode), std::string("differs-") + all_ops[i].name, "%s: result in thread %zu differs from the result alone (by %.6g)", all_ops[i].name, t, d);
  }
  c.check((hash_cloud(*w2.target) ^ hash_cloud(*w2.source)) == h0, "modified", "a shared cloud was modified by a read-only operation");
}
int main(int argc, char** argv) { return vf::main_loop(argc, argv, run); }
