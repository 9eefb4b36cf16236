// C33: a failure inside a call (memory exhausted, an exception from the caller's own code) reaches the caller as that
// exception, leaks nothing, leaves the arguments alone and leaves what was being modified safe and usable.
// Monitor: global operator new/delete replaced by counting versions that fail on demand at the k-th allocation; every
// customization point (point-cloud traits, factor, rejector, general factor, generator, key function) counts and throws
// on demand.  Each call is run once clean (reference, number of failure points), then once per chosen failure point.
#include "ops.hpp"
#include <atomic>
#include <new>
#include <omp.h>
#include <pcl/point_types.h>
#include <pcl/point_cloud.h>
#include <small_gicp/pcl/pcl_registration.hpp>
#include <small_gicp/pcl/pcl_registration_impl.hpp>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/util/sort_tbb.hpp>

// ---- failure points ------------------------------------------------------------------------------------------------
static std::atomic<long> g_live{0}, g_allocs{0}, g_alloc_at{-1}, g_ticks{0}, g_tick_at{-1}, g_fired{0};
static std::atomic<bool> g_persist{false};
// The thread that runs the cases.  (Workers of TBB take and give back memory on their own at any time: they are not counted
// and do not fail.)
static thread_local bool g_watched = false;
struct OutOfMemory : std::bad_alloc {};
struct UserError { int magic; };

// Whether the point number n (counted from 0) fails.
static inline bool due(long n, long at) { return at >= 0 && (n == at || (n > at && g_persist.load(std::memory_order_relaxed))); }
static void* take(size_t n, size_t al, bool nothrow) {
  // (an exception cannot leave an OpenMP region: allocations there do not fail)
  const bool watched = g_watched && !omp_get_level();
  if (watched && g_alloc_at.load(std::memory_order_relaxed) >= 0) {
    if (due(g_allocs.fetch_add(1), g_alloc_at)) { g_fired.fetch_add(1); if (nothrow) return nullptr; throw OutOfMemory(); }
  } else if (watched) g_allocs.fetch_add(1, std::memory_order_relaxed);
  void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al + (n ? 0 : al)) : malloc(n ? n : 1);
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  if (g_watched) g_live.fetch_add(1, std::memory_order_relaxed);
  return p;
}
static void give(void* p) { if (p) { if (g_watched) g_live.fetch_sub(1, std::memory_order_relaxed); free(p); } }
void* operator new(size_t n) { return take(n, 0, false); }
void* operator new[](size_t n) { return take(n, 0, false); }
void* operator new(size_t n, std::align_val_t a) { return take(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return take(n, (size_t)a, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n, 0, true); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return take(n, (size_t)a, true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return take(n, (size_t)a, true); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }
static void tick() {
  if (omp_get_level()) return;
  if (due(g_ticks.fetch_add(1), g_tick_at)) { g_fired.fetch_add(1); throw UserError{4711}; }
}

enum Src { ALLOC, USER };
enum How { RETURNED, INJECTED, OTHER };
// Runs f with the k-th failure point of the given kind armed.
template <typename F> static How attempt(F&& f, Src s, long k, bool persist) {
  g_persist = persist; g_fired = 0; g_allocs = 0; g_ticks = 0;
  (s == ALLOC ? g_alloc_at : g_tick_at) = k;
  How h = RETURNED;
  try { f(); }
  catch (const OutOfMemory&) { h = s == ALLOC ? INJECTED : OTHER; }
  catch (const UserError& e) { h = s == USER && e.magic == 4711 ? INJECTED : OTHER; }
  catch (...) { h = OTHER; }
  g_alloc_at = -1; g_tick_at = -1;
  return h;
}
// Number of failure points of f
template <typename F> static long points_of(F&& f, Src s) { g_allocs = 0; g_ticks = 0; f(); return s == ALLOC ? g_allocs : g_ticks; }
static std::vector<long> choose(vf::Rng& r, long n, size_t m) {
  std::vector<long> v;
  if (n <= (long)m) { for (long i = 0; i < n; i++) v.push_back(i); return v; }
  v.push_back(0); v.push_back(n - 1);
  while (v.size() < m) v.push_back(r.coin() ? (long)r.u(n) : std::min<long>(n - 1, (long)r.logreal(1, n)));
  return v;
}

// ---- user code that can fail ------------------------------------------------------------------------------------------
struct Fuse { PointCloud pc; };
namespace small_gicp { namespace traits {
template <> struct Traits<Fuse> {
  static size_t size(const Fuse& f) { return f.pc.size(); }
  static bool has_points(const Fuse& f) { return f.pc.size(); }
  static bool has_normals(const Fuse& f) { return f.pc.size(); }
  static bool has_covs(const Fuse& f) { return f.pc.size(); }
  static Eigen::Vector4d point(const Fuse& f, size_t i) { tick(); return f.pc.point(i); }
  static Eigen::Vector4d normal(const Fuse& f, size_t i) { tick(); return f.pc.normal(i); }
  static Eigen::Matrix4d cov(const Fuse& f, size_t i) { tick(); return f.pc.cov(i); }
  static void resize(Fuse& f, size_t n) { tick(); f.pc.resize(n); }
  static void set_point(Fuse& f, size_t i, const Eigen::Vector4d& p) { tick(); f.pc.point(i) = p; }
  static void set_normal(Fuse& f, size_t i, const Eigen::Vector4d& n) { tick(); f.pc.normal(i) = n; }
  static void set_cov(Fuse& f, size_t i, const Eigen::Matrix4d& c) { tick(); f.pc.cov(i) = c; }
};
} }
struct FuseRejector : DistanceRejector {
  template <typename T, typename S> bool operator()(const T& t, const S& s, const Eigen::Isometry3d& X, size_t ti, size_t si, double d) const { tick(); return DistanceRejector::operator()(t, s, X, ti, si, d); }
};
template <typename Base> struct FuseFactor : Base {
  struct Setting : Base::Setting {};
  FuseFactor(const Setting& s = Setting()) : Base(s) {}
  template <typename... A> bool linearize(A&&... a) { tick(); return Base::linearize(std::forward<A>(a)...); }
  template <typename... A> double error(A&&... a) const { tick(); return Base::error(std::forward<A>(a)...); }
};
struct FuseGeneral : NullFactor {
  template <typename... A> void update_linearized_system(A&&...) const { tick(); }
  template <typename... A> void update_error(A&&...) const { tick(); }
};
struct FuseGenerator {
  typedef uint32_t result_type;
  std::mt19937 g;
  static constexpr uint32_t min() { return std::mt19937::min(); }
  static constexpr uint32_t max() { return std::mt19937::max(); }
  uint32_t operator()() { tick(); return g(); }
};

static void feed(uint64_t& h, const void* p, size_t n) { const unsigned char* b = (const unsigned char*)p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull; }
static void feed(uint64_t& h, const PointCloud& p) {
  const size_t s[3] = {p.points.size(), p.normals.size(), p.covs.size()};
  feed(h, s, sizeof s);
  for (auto& x : p.points) feed(h, x.data(), 32);
  for (auto& x : p.normals) feed(h, x.data(), 32);
  for (auto& x : p.covs) feed(h, x.data(), 128);
}
template <typename M> static void feed_map(uint64_t& h, const M& m) { const size_t n = m.size(); feed(h, &n, 8); for (auto& p : traits::voxel_points(m)) feed(h, p.data(), 32); }
struct Arguments { World w; std::shared_ptr<Fuse> ft = std::make_shared<Fuse>(), fs = std::make_shared<Fuse>(), fbig = std::make_shared<Fuse>(); std::unique_ptr<UnsafeKdTree<Fuse>> ftree; };
static uint64_t state(const Arguments& a) {
  uint64_t h = 1469598103934665603ull;
  feed(h, *a.w.target); feed(h, *a.w.source); feed(h, a.ft->pc); feed(h, a.fs->pc);
  feed(h, a.w.raw_t.data(), 32 * a.w.raw_t.size()); feed(h, a.w.raw_s.data(), 32 * a.w.raw_s.size());
  feed_map(h, *a.w.gmap); feed_map(h, a.w.pmap); feed_map(h, a.w.ncmap);
  const long c[6] = {a.w.target.use_count(), a.w.source.use_count(), a.w.tree.use_count(), a.w.gmap.use_count(), a.ft.use_count(), a.fs.use_count()};
  feed(h, c, sizeof c);
  return h;
}

// ---- calls that only read their arguments -------------------------------------------------------------------------------
struct Call { std::string name; Mode mode; std::function<Out()> f; bool alloc, user, count; };
static Out of_fuse(const Fuse& f) { Out o = of_points(f.pc); Out p = of_features(f.pc); for (double x : p.v) o.v.push_back(x); return o; }

static std::vector<Call> calls(const Arguments& a, vf::Rng& r) {
  std::vector<Call> v;
  for (auto& o : make_ops(a.w, r)) {
    const std::string n = o.name;
    const bool par = n.find("omp") != std::string::npos || n.find("tbb") != std::string::npos || n.rfind("helper", 0) == 0;
    if (!par) v.push_back({n, o.mode, o.f, true, false, true});
  }
  // the helper interface with one thread (allocations inside its OpenMP regions do not fail)
  const World& w = a.w;
  auto add = [&](const char* n, Mode m, bool alloc, bool user, bool count, std::function<Out()> f) { v.push_back({n, m, std::move(f), alloc, user, count}); };
  RegistrationSetting st; st.num_threads = 1; st.downsampling_resolution = 0.4; st.max_iterations = r.pick({3, 10}); st.type = r.pick({RegistrationSetting::ICP, RegistrationSetting::PLANE_ICP, RegistrationSetting::GICP});
  RegistrationSetting vt = st; vt.type = RegistrationSetting::VGICP;
  RegistrationSetting rt = st; if (r.coin(0.3)) rt = vt;
  add("helper-align", EXACT, true, false, true, [&w, st] { return of_result(align(*w.target, *w.source, *w.tree, w.init, st)); });
  add("helper-align-vgicp", EXACT, true, false, true, [&w, vt] { return of_result(align(*w.gmap, *w.source, w.init, vt)); });
  add("helper-align-raw", EXACT, true, false, true, [&w, rt] { return of_result(align(w.raw_t, w.raw_s, w.init, rt)); });
  add("helper-preprocess", EXACT, true, false, true, [&w] { auto [c, t] = preprocess_points(*w.target, 0.4, 10, 1); return of_points(*c); });
  add("helper-voxelmap", EXACT, true, false, true, [&w] { auto m = create_gaussian_voxelmap(*w.target, 0.8); Out o; for (auto& p : traits::voxel_points(*m)) o.v.push_back(p[0]); return o; });
  add("copy-voxelmap", EXACT, true, false, true, [&w] { IncrementalVoxelMap<FlatContainerNormalCov> m(w.ncmap); Out o; o.v.push_back(m.size()); for (auto& p : traits::voxel_points(m)) o.v.push_back(p[0]); return o; });
  add("copy-cloud", EXACT, true, false, true, [&w] { PointCloud c(*w.target); return of_features(c); });
  // user code
  const Fuse &t = *a.ft, &s = *a.fs; const auto& tree = *a.ftree; const uint64_t seed = r.next();
  const int k = r.pick({1, 5, 10}), kn = r.pick({6, 10});
  const double leaf = r.pick({0.3, 0.7, 1.5});
  std::vector<Eigen::Vector4d> near(w.raw_t.begin(), w.raw_t.end());
  add("user-tree-build", EXACT, true, true, true, [&t, seed, near, k] { UnsafeKdTree<Fuse> x(t); return searches(x, seed, near, 5, k); });
  add("user-tree-build-shared", EXACT, true, true, true, [&a, seed, near, k] { KdTree<Fuse, NormalProjection> x(a.ft); return searches(x, seed, near, 5, k); });
  // (large enough for subtrees, blocks and chunks to become tasks of their own)
  const Fuse& big = r.coin(0.4) ? t : *a.fbig;
  add("user-tree-build-tbb", EXACT, false, true, false, [&big, seed, near, k] { KdTreeBuilderTBB b; b.max_leaf_size = 5; UnsafeKdTree<Fuse> x(big, b); return searches(x, seed, near, 5, k); });
  add("user-search", EXACT, true, true, true, [&tree, seed, near, k] { return searches(tree, seed, near, 5, k); });
  add("user-projective", EXACT, true, true, true, [&a, seed, near, k] { ProjectiveSearch<Fuse> p(64, 32, a.ft); return searches(p, seed, near, 5, k); });
  add("user-downsample", EXACT, true, true, true, [&t, leaf] { return of_points(voxelgrid_sampling<Fuse, Fuse>(t, leaf)->pc); });
  add("user-downsample-tbb", POINTS, false, true, false, [&big, leaf] { return of_points(voxelgrid_sampling_tbb<Fuse, Fuse>(big, leaf)->pc); });
  add("user-random-sampling", EXACT, true, true, true, [&t, seed] { FuseGenerator g{std::mt19937((unsigned)seed)}; return of_points(random_sampling<Fuse, Fuse>(t, t.pc.size() / 3, g)->pc); });
  add("user-features", EXACT, true, true, true, [&s, kn] { Fuse c(s); estimate_normals_covariances(c, kn); return of_fuse(c); });
  add("user-features-tree", EXACT, true, true, true, [&t, &tree, kn] { Fuse c(t); estimate_covariances(c, tree, kn); return of_fuse(c); });
  add("user-features-tbb", CLOSE, false, true, false, [&big, kn] { Fuse c(big); estimate_normals_covariances_tbb(c, kn); return of_fuse(c); });
  add("user-voxelmap", EXACT, true, true, true, [&t, &s, &w, seed, near] { IncrementalVoxelMap<FlatContainerNormalCov> m(0.6); m.set_search_offsets(7); m.insert(t); m.insert(s, w.init); return searches(m, seed, near, 5, 3); });
  add("user-gaussian-voxelmap", EXACT, true, true, true, [&t, &s, &w, seed, near] { GaussianVoxelMap m(0.6); m.insert(t); m.insert(s, w.init); return searches(m, seed, near, 5, 1); });
  // (one registration object per call, used again for every failure and every rerun)
  auto reg_ = [&](const char* n, auto rg, bool serial) {
    rg->rejector.max_dist_sq = 1.0; rg->optimizer.max_iterations = r.pick({2, 6});
    v.push_back({n, serial ? EXACT : POSE, [rg, &t, &s, &tree, &w] { return of_result(rg->align(t, s, tree, w.init)); }, serial, true, serial});
  };
  reg_("user-align-gicp", std::make_shared<Registration<FuseFactor<GICPFactor>, SerialReduction, FuseGeneral, FuseRejector>>(), true);
  reg_("user-align-icp-gn", std::make_shared<Registration<FuseFactor<ICPFactor>, SerialReduction, FuseGeneral, FuseRejector, GaussNewtonOptimizer>>(), true);
  reg_("user-align-huber", std::make_shared<Registration<RobustFactor<Huber, FuseFactor<PointToPlaneICPFactor>>, SerialReduction, FuseGeneral, FuseRejector>>(), true);
  reg_("user-align-tbb", std::make_shared<Registration<FuseFactor<GICPFactor>, ParallelReductionTBB, FuseGeneral, FuseRejector>>(), false);
  add("user-radix-sort", EXACT, false, true, false, [seed] {
    vf::Rng g(seed); std::vector<std::pair<uint32_t, uint32_t>> d(3000); for (auto& p : d) p = {(uint32_t)g.next(), (uint32_t)g.u(9)};
    radix_sort_tbb(d.data(), d.data() + d.size(), [](const std::pair<uint32_t, uint32_t>& p) { tick(); return p.first; });
    Out o; for (size_t i = 0; i < d.size(); i += 50) o.v.push_back(d[i].first); return o; });
  return v;
}

static void readers(Case& c) {
  vf::Rng& r = c.rng;
  Arguments a;
  build(a.w, vf::Rng(r.next()), r.pick({30, 80, 200, 400}));
  a.ft->pc = *a.w.target; a.fs->pc = *a.w.source;
  { const size_t n = a.w.target->size(), copies = std::max<size_t>(2, r.pick({1000, 2000, 5000}) / n);
    PointCloud& b = a.fbig->pc; b.resize(n * copies);
    for (size_t i = 0; i < b.size(); i++) { b.point(i) = a.w.target->point(i % n); for (int d = 0; d < 3; d++) b.point(i)[d] += r.real(-0.3, 0.3); b.normal(i) = a.w.target->normal(i % n); b.cov(i) = a.w.target->cov(i % n); } }
  a.ftree = std::make_unique<UnsafeKdTree<Fuse>>(*a.ft);
  auto all = calls(a, r);
  const uint64_t s0 = state(a);
  c.describe("%zu points, state %016llx", a.w.raw_t.size(), (unsigned long long)s0);
  for (int rep = 0; rep < (c.thorough ? 12 : 6); rep++) {
    auto& x = all[r.u(all.size())];
    const Out warm = x.f();
    const Out ref = x.f();
    bool settles = apart(x.mode, ref, warm) <= tol(x.mode);
    if (x.mode == POSE) for (int q = 0; q < 30 && settles; q++) settles = apart(x.mode, ref, x.f()) <= tol(x.mode) * 0.01;   // (parallel summation)
    if (!settles) { c.count("unsettled_calls"); continue; }
    for (int src = 0; src < 2; src++) {
      if (!(src == ALLOC ? x.alloc : x.user)) continue;
      const long n = points_of(x.f, (Src)src);
      const bool par = !x.count;
      for (long k : choose(r, n, c.thorough ? 24 : 8)) {
        const bool persist = r.coin(0.3);
        Out got;
        const long live = g_live;
        const How h = attempt([&] { got = x.f(); }, (Src)src, k, persist);
        const long fired = g_fired;
        Out kept; if (h == RETURNED) std::swap(kept.v, got.v); else { Out e; std::swap(e.v, got.v); }
        const long left = g_live - live - (kept.v.capacity() ? 1 : 0);
        const char* what = src == ALLOC ? "allocation" : "user call";
        c.count(src == ALLOC ? "allocation_failures" : "user_failures", fired ? 1 : 0);
        if (!c.check(h != OTHER, "other-exception", "%s: %s %ld of %ld failed, and another exception than the injected one arrived", x.name.c_str(), what, k, n)) return;
        if (h == RETURNED && fired) {
          if (!c.check(apart(x.mode, ref, kept) <= tol(x.mode), "failure-swallowed", "%s: %s %ld of %ld failed, and the call returned normally with a different result", x.name.c_str(), what, k, n)) return;
          c.count("failures_absorbed");
        }
        if (h == INJECTED) { c.count("failures_reported"); c.count("failed_" + x.name); c.nontrivial(); }
        // (the scheduler of TBB may keep memory of its own)
        if (x.count && !c.check(left == 0, "leak", "%s: %ld allocations outlive a call that failed at %s %ld of %ld", x.name.c_str(), left, what, k, n)) return;
        if (!c.check(state(a) == s0, "arguments-changed", "%s: arguments changed by a call that failed at %s %ld of %ld", x.name.c_str(), what, k, n)) return;
        if (par || r.coin(0.4)) {
          const Out again = x.f();
          c.count("reruns");
          if (!c.check(apart(x.mode, ref, again) <= tol(x.mode), "rerun", "%s: the same call gives another result after one that failed at %s %ld of %ld (apart %.3g)", x.name.c_str(), what, k, n, apart(x.mode, ref, again))) return;
        }
      }
    }
  }
}

// ---- calls that modify an object ------------------------------------------------------------------------------------------
static void resizing(Case& c) {
  vf::Rng& r = c.rng;
  c.describe("resizing sequence %u", (unsigned)r.next());
  for (int rep = 0; rep < 30; rep++) {
    const size_t n0 = r.pick({0, 1, 5, 100}), n1 = r.pick({0, 1, 6, 50, 400});
    PointCloud p; p.resize(n0);
    for (size_t i = 0; i < n0; i++) { p.point(i) << i, 1, 2, 1; p.normal(i) << 0, 0, (double)i, 0; p.cov(i).setConstant(i); }
    if (r.coin(0.3)) { p.resize(n0 + 20); p.resize(n0); }
    const int k = r.u(4);
    const How h = attempt([&] { p.resize(n1); }, ALLOC, k, r.coin());
    c.check(h != OTHER, "other-exception", "resize: another exception than the injected one arrived");
    const size_t n = p.size();
    if (!c.check(p.points.size() == n && p.normals.size() == n && p.covs.size() == n, "resize-lengths", "PointCloud::resize(%zu -> %zu) failing at allocation %d leaves %zu points, %zu normals, %zu covariances", n0, n1, k, p.points.size(), p.normals.size(), p.covs.size())) return;
    c.check(h == INJECTED ? (n == n0 || n == n1) : n == n1, "resize-size", "PointCloud::resize(%zu -> %zu): %zu points", n0, n1, n);
    for (size_t i = 0; i < std::min(n, std::min(n0, n1)); i++) c.check(p.point(i)[0] == i && p.normal(i)[2] == i && p.cov(i)(1, 1) == i, "resize-contents", "PointCloud::resize(%zu -> %zu): element %zu changed", n0, n1, i);
    if (h == INJECTED) {
      c.count("resizes_failed");
      p.resize(n1); c.check(p.size() == n1 && p.normals.size() == n1 && p.covs.size() == n1, "resize-retry", "PointCloud::resize(%zu) after a failed one: %zu points", n1, p.size());
    }
    { PointCloud e; std::swap(e, p); }
    // construction
    std::vector<Eigen::Vector3d> v(r.pick({1, 20}), Eigen::Vector3d(1, 2, 3));
    const long before = g_live;
    const How g = attempt([&] { PointCloud q(v); }, ALLOC, r.u(3), false);
    c.check(g == INJECTED && g_live == before, "construct", "PointCloud(points) failing: %s, %ld allocations left", g == INJECTED ? "reported" : "not reported", (long)g_live - before);
    c.count("constructions_failed");
  }
  c.nontrivial();
}

static Eigen::Vector3i cell(const Eigen::Vector4d& p, double inv) { return (p.head<3>() * inv).array().floor().cast<int>(); }
struct LessI { bool operator()(const Eigen::Vector3i& a, const Eigen::Vector3i& b) const { return std::lexicographical_compare(a.data(), a.data() + 3, b.data(), b.data() + 3); } };

// What holds in any state: voxels are distinct, contents are reachable, searches return what is stored.
template <bool HN, bool HC, typename Map>
static bool sane(Case& c, const Map& m, double inv, bool gaussian, bool settled, const char* when, vf::Rng& r) {
  const auto idx = traits::point_indices(m);
  const auto vp = traits::voxel_points(m);
  if (!c.check(vp.size() == idx.size(), "counts", "%s: %zu indices, %zu points", when, idx.size(), vp.size())) return false;
  std::set<size_t> known(idx.begin(), idx.end());
  c.check(known.size() == idx.size(), "duplicate-index", "%s: point_indices not unique", when);
  std::map<size_t, Eigen::Vector3i> vox; std::map<Eigen::Vector3i, size_t, LessI> where;
  for (size_t j = 0; j < idx.size(); j++) {
    const Eigen::Vector4d p = traits::point(m, idx[j]);
    if (!c.check(p.allFinite() && p == vp[j], "stored-point", "%s: stored point %zu is not finite, or differs between accessors", when, j)) return false;
    c.count("entries_checked");
    if constexpr (HN) if (!c.check(Eigen::Vector4d(traits::normal(m, idx[j])).allFinite(), "stored-normal", "%s: entry %zu: normal not finite", when, j)) return false;
    if constexpr (HC) if (!c.check(Eigen::Matrix4d(traits::cov(m, idx[j])).allFinite(), "stored-cov", "%s: entry %zu: covariance not finite", when, j)) return false;
    if (gaussian && !settled) continue;
    const Eigen::Vector3i k = cell(p, inv); const size_t id = m.voxel_id(idx[j]);
    auto a = vox.emplace(id, k); auto b = where.emplace(k, id);
    if (!c.check(a.first->second == k, "mixed-voxel", "%s: voxel %zu holds points of different cells", when, id)) return false;
    if (!c.check(b.first->second == id, "split-cell", "%s: cell (%d %d %d) is held by voxels %zu and %zu", when, k[0], k[1], k[2], id, b.first->second)) return false;
    size_t i = -1; double d = -1;
    const size_t f = traits::nearest_neighbor_search(m, p, &i, &d);
    if (!c.check(f == 1 && known.count(i) && d <= 1e-18 * (1 + p.squaredNorm()), "unreachable", "%s: a search at stored point %.9g %.9g %.9g found %zu (distance %.3g)", when, p[0], p[1], p[2], f, d)) return false;
  }
  for (int q = 0; q < 10; q++) {
    const Eigen::Vector4d at = idx.empty() || r.coin(0.3) ? vf::P(r.vec3(5)) : vf::P(Eigen::Vector3d(vp[r.u(vp.size())].template head<3>() + r.vec3(0.5)));
    size_t i[8]; double d[8];
    const size_t n = traits::knn_search(m, at, gaussian ? 1 : 8, i, d);
    for (size_t j = 0; j < n; j++) {
      if (!c.check(known.count(i[j]), "search-index", "%s: a search returned index %zu, which is not stored", when, i[j])) return false;
      const double e = (Eigen::Vector4d(traits::point(m, i[j])) - at).squaredNorm();
      if (!c.check(std::abs(d[j] - e) <= 1e-9 * (1 + e), "search-distance", "%s: a search returned distance %.9g for a point at %.9g", when, d[j], e)) return false;
    }
    c.count("searches_checked", n);
  }
  return true;
}

template <typename Map, bool HN, bool HC, bool G> static void growing(Case& c) {
  vf::Rng& r = c.rng;
  const double leaf = r.pick({0.3, 1.0, 2.0}), inv = 1.0 / leaf;
  Map m(leaf);
  m.lru_horizon = r.pick({(size_t)1, (size_t)2, (size_t)100}); m.lru_clear_cycle = r.pick({(size_t)1, (size_t)2, (size_t)3});
  size_t cap = 10; double msq = 0.01;
  if constexpr (!G) { m.voxel_setting.max_num_points_in_cell = cap = r.pick({(size_t)2, (size_t)10, (size_t)40}); m.voxel_setting.min_sq_dist_in_cell = msq = r.pick({1e-6, 0.01}); }
  m.set_search_offsets(r.pick({1, 7, 27}));
  c.describe("normals=%d covs=%d gaussian=%d leaf=%g horizon=%zu cycle=%zu, history %u", HN, HC, G, leaf, m.lru_horizon, m.lru_clear_cycle, (unsigned)r.next());
  const int steps = c.thorough ? 12 : 8;
  Eigen::Vector3d at = Eigen::Vector3d::Zero();
  for (int s = 0; s < steps; s++) {
    Fuse f; const size_t n = r.pick({1, 10, 60, 200});
    f.pc.resize(n);
    for (size_t i = 0; i < n; i++) { f.pc.point(i) = vf::P(r.vec3(3)); f.pc.normal(i) << r.dir(), 0; f.pc.cov(i).setZero(); f.pc.cov(i).topLeftCorner<3, 3>() = r.dir().asDiagonal(); f.pc.cov(i).topLeftCorner<3, 3>() = f.pc.cov(i).topLeftCorner<3, 3>().cwiseAbs2().eval(); }
    at += r.vec3(r.pick({0.0, 1.0, 4.0}));
    Eigen::Isometry3d T = r.iso(M_PI, 0.1); T.translation() += at;
    // how many failure points: from a copy
    const Src src = r.coin() ? ALLOC : USER;
    const long live0 = g_live;
    { Map copy(m); if (r.coin()) { const How h = attempt([&] { Map x(copy); }, ALLOC, r.u(20), r.coin()); c.check(h != OTHER, "other-exception", "copying a map: another exception"); } }
    c.check(g_live == live0, "leak", "%ld allocations outlive a failed copy of a voxel map", (long)g_live - live0);
    long cnt; { Map copy(m); cnt = points_of([&] { copy.insert(f, T); }, src); }
    bool failed = false;
    const int tries = r.pick({1, 1, 2, 4});
    for (int t = 0; t < tries && cnt; t++) {
      const long k = r.coin(0.3) ? cnt - 1 - (long)r.u(std::min<long>(cnt, 20)) : (long)r.u(cnt);
      // the changes a first failure made may leave fewer failure points for the next
      const How h = attempt([&] { m.insert(f, T); }, src, k, r.coin(0.3));
      c.count(src == ALLOC ? "allocation_failures" : "user_failures", g_fired ? 1 : 0);
      if (!c.check(h != OTHER, "other-exception", "insert: another exception than the injected one arrived")) return;
      if (h == INJECTED) { failed = true; c.count("insertions_failed"); c.nontrivial(); }
      if (!sane<HN, HC>(c, m, inv, G, h == RETURNED, h == INJECTED ? "after a failed insertion" : "after an insertion", r)) return;
      if (h == INJECTED && r.coin(0.2)) { Map copy(m); if (!sane<HN, HC>(c, copy, inv, G, false, "copy of a map after a failed insertion", r)) return; c.count("copies_after_failure"); }
      if (h == RETURNED) break;
    }
    if (failed && r.coin(0.2)) m.set_search_offsets(r.pick({1, 7, 27}));
    if (r.coin(0.2)) { attempt([&] { m.set_search_offsets(27); }, ALLOC, r.u(4), true); if (!sane<HN, HC>(c, m, inv, G, false, "after set_search_offsets failed", r)) return; m.set_search_offsets(r.pick({1, 7, 27})); c.count("offset_changes_failed"); }
    m.insert(f, T);
    if (!sane<HN, HC>(c, m, inv, G, true, "after a successful insertion", r)) return;
    // every point of the successful insertion is represented
    std::map<Eigen::Vector3i, std::vector<Eigen::Vector4d>, LessI> by;
    for (auto& p : traits::voxel_points(m)) by[cell(p, inv)].push_back(p);
    for (size_t i = 0; i < n; i++) {
      const Eigen::Vector4d p = T * f.pc.point(i);
      auto it = by.find(cell(p, inv));
      bool near = false;
      if (it != by.end()) { if (G || it->second.size() >= cap) near = true; for (auto& q : it->second) near = near || (q - p).squaredNorm() <= msq * (1 + 1e-9); }
      if (!c.check(near, "not-inserted", "step %d: point %zu of an insertion that followed %s is not represented", s, i, failed ? "a failed one" : "a successful one")) return;
    }
    c.count("insertions_completed");
  }
}

typedef pcl::PointCloud<pcl::PointXYZ> PXYZ;
static PXYZ::Ptr topcl(const PointCloud& p) { auto o = std::make_shared<PXYZ>(); for (size_t i = 0; i < p.size(); i++) o->push_back(pcl::PointXYZ(p.point(i)[0], p.point(i)[1], p.point(i)[2])); return o; }
static void pcl_interface(Case& c) {
  vf::Rng& r = c.rng;
  Arguments a, b;
  build(a.w, vf::Rng(r.next()), r.pick({60, 150})); build(b.w, vf::Rng(r.next()), r.pick({60, 150, 300}));
  const PXYZ::Ptr t1 = topcl(*a.w.target), s1 = topcl(*a.w.source), t2 = topcl(*b.w.target), s2 = topcl(*b.w.source);
  const bool vg = r.coin();
  typedef RegistrationPCL<pcl::PointXYZ, pcl::PointXYZ> R;
  auto mk = [&] { auto g = std::make_shared<R>(); g->setNumThreads(1); g->setRegistrationType(vg ? "VGICP" : "GICP"); g->setMaxCorrespondenceDistance(2.0); g->setVoxelResolution(1.0); g->setMaximumIterations(8); return g; };
  auto use = [](R& g) { PXYZ out; g.align(out); Out o; Eigen::Matrix4f T = g.getFinalTransformation(); for (int i = 0; i < 16; i++) o.v.push_back(T.data()[i]); for (auto& p : out) o.v.push_back(p.x); return o; };
  auto g = mk();
  g->setInputTarget(t1); g->setInputSource(s1);
  if (r.coin(0.7)) use(*g);
  const int what = r.u(3);
  const char* wn[] = {"setInputTarget", "setInputSource", "align"};
  auto f = [&] { if (what == 0) g->setInputTarget(t2); else if (what == 1) g->setInputSource(s2); else use(*g); };
  c.describe("%s %s, %zu/%zu and %zu/%zu points", wn[what], vg ? "VGICP" : "GICP", t1->size(), s1->size(), t2->size(), s2->size());
  long n; { auto x = mk(); x->setInputTarget(t1); x->setInputSource(s1); n = points_of([&] { if (what == 0) x->setInputTarget(t2); else if (what == 1) x->setInputSource(s2); else use(*x); }, ALLOC); }
  for (int q = 0; q < r.pick({1, 1, 3}); q++) {
    const How h = attempt(f, ALLOC, r.u(n), r.coin(0.3));
    c.count("allocation_failures", g_fired ? 1 : 0);
    if (!c.check(h != OTHER, "other-exception", "%s: another exception than the injected one arrived", wn[what])) return;
    if (h == INJECTED) { c.count(std::string("failed_pcl_") + wn[what]); c.nontrivial(); }
    else break;
  }
  // the same call again, and from then on as if nothing had happened
  f();
  auto x = mk(); x->setInputTarget(what == 0 ? t2 : t1); x->setInputSource(what == 1 ? s2 : s1);
  const Out got = use(*g), want = use(*x);
  c.check(apart(CLOSE, want, got) <= 1e-5, "pcl-after-failure", "RegistrationPCL: after a failed %s and the same call again, align gives another result than a fresh object (apart %.3g)", wn[what], apart(CLOSE, want, got));
  c.count("pcl_compared");
}

int main(int argc, char** argv) {
  omp_set_num_threads(1);
  std::cerr.setstate(std::ios::badbit);
  return vf::main_loop(argc, argv, [](Case& c) {
    g_watched = true;
    switch (c.idx % 12) {
      case 0: resizing(c); break;
      case 1: growing<IncrementalVoxelMap<FlatContainerPoints>, false, false, false>(c); break;
      case 2: growing<IncrementalVoxelMap<FlatContainerNormal>, true, false, false>(c); break;
      case 3: growing<IncrementalVoxelMap<FlatContainerCov>, false, true, false>(c); break;
      case 4: growing<IncrementalVoxelMap<FlatContainerNormalCov>, true, true, false>(c); break;
      case 5: growing<GaussianVoxelMap, false, true, true>(c); break;
      case 6: pcl_interface(c); break;
      default: readers(c);
    }
  });
}
