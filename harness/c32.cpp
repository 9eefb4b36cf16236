// C32: work grows near-linearly with the input, whatever its shape.
// Work is counted in executed basic blocks of everything compiled into this program (the library is headers; the compiler
// calls __sanitizer_cov_trace_pc in each), plus bytes moved by memcpy/memmove/memset.  Counts, unlike times, do not
// depend on the machine or its load.
#include "reg.hpp"
#include <thread>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/ann/projective_search.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
#include <small_gicp/util/sort_omp.hpp>
#include <small_gicp/util/sort_tbb.hpp>
#include <small_gicp/registration/registration_helper.hpp>
#include <small_gicp/benchmark/read_points.hpp>
#include <pcl/point_types.h>
#include <pcl/point_cloud.h>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/pcl/pcl_registration.hpp>
#include <small_gicp/pcl/pcl_registration_impl.hpp>
using vf::Case;
using namespace small_gicp;
using reg::V6;

// ---- counting -------------------------------------------------------------------------------------------------------
#define NOCOV __attribute__((no_sanitize_coverage))
static const int SLOTS = 512;
static struct alignas(64) Slot { unsigned long n; unsigned long pad[7]; } g_slot[SLOTS];
static std::atomic<int> g_next{0};
static __thread int t_slot __attribute__((tls_model("local-exec"))) = -1;
NOCOV static inline unsigned long& mine() {
  int s = t_slot;
  if (__builtin_expect(s < 0, 0)) t_slot = s = __atomic_fetch_add((int*)&g_next, 1, __ATOMIC_RELAXED) % SLOTS;
  return g_slot[s].n;
}
extern "C" {
NOCOV void __sanitizer_cov_trace_pc() { mine()++; }
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
NOCOV void* __wrap_memcpy(void* d, const void* s, size_t n) { mine() += n / 64; return __real_memcpy(d, s, n); }
NOCOV void* __wrap_memmove(void* d, const void* s, size_t n) { mine() += n / 64; return __real_memmove(d, s, n); }
NOCOV void* __wrap_memset(void* d, int v, size_t n) { mine() += n / 64; return __real_memset(d, v, n); }
}
NOCOV static unsigned long total() { unsigned long n = 0; for (int i = 0; i < SLOTS; i++) n += g_slot[i].n; return n; }
template <typename F> static double work(const F& f) { const unsigned long a = total(); f(); return (double)(total() - a); }

static std::string g_dir;
static double lg(double n) { return std::log2(n < 2 ? 2 : n) + 1; }
// basic blocks per unit on the unchanged tree, the most in 30000 cases; three times as many are allowed
static const std::map<std::string, double> MOST = {{"align", 10.1}, {"align-flat-map", 10}, {"align-gaussian-map", 8.6}, {"features", 18.2}, {"features-omp", 18.2}, {"features-tbb", 18}, {"files", 7}, {"knn", 15.2}, {"map-gaussian-insert", 53}, {"map-gaussian-insert-again", 4}, {"map-gaussian-listing", 4}, {"map-gaussian-query", 17.5}, {"map-normals-covs-insert", 63}, {"map-normals-covs-insert-again", 3}, {"map-normals-covs-listing", 6.7}, {"map-normals-covs-query", 20}, {"map-points-insert", 41}, {"map-points-insert-again", 3}, {"map-points-listing", 6.7}, {"map-points-query", 20}, {"merge-sort", 3.9}, {"nearest", 18}, {"pcl-again", 2.5}, {"pcl-next-source", 3}, {"preprocess", 13.8}, {"projective-build", 14.7}, {"projective-query", 15.2}, {"quick-sort", 4.3}, {"radix-sort", 2.7}, {"random-sampling", 2}, {"tree", 7.2}, {"tree-leaf1", 10.3}, {"tree-normal", 10}, {"tree-normal-leaf1", 15.7}, {"tree-omp", 7.2}, {"tree-omp-leaf1", 10.3}, {"tree-omp-normal", 10}, {"tree-omp-normal-leaf1", 15.7}, {"tree-tbb", 7.2}, {"tree-tbb-leaf1", 10.3}, {"tree-tbb-normal", 10}, {"tree-tbb-normal-leaf1", 15.7}, {"voxelgrid", 6}, {"voxelgrid-omp", 5.8}, {"voxelgrid-tbb", 5.7}};
static void within(Case& c, const std::string& name, double w, double unit, const char* what) {
  const double limit = 3.0 * MOST.at(name);
  c.count("measurements"); c.count("m_" + name); c.maxi("blocks_per_unit_" + name, w / unit);
  c.check(w <= limit * unit, "work-" + name, "%s: %.4g basic blocks for %s (%.4g units): %.4g per unit, at most %.4g expected", name.c_str(), w, what, unit, w / unit, limit);
}
static void growth(Case& c, const std::string& name, double w1, double u1, double w2, double u2, const char* what) {
  c.count("growth_measurements"); const double g = (w2 / u2) / (w1 / u1); c.maxi("growth_per_unit_" + name, g);
  c.check(g <= 2.0, "growth-" + name, "%s: work per unit grew %.3g-fold between two sizes of %s (%.4g to %.4g blocks)", name.c_str(), g, what, w1, w2);
}

// the parallel versions share the work out: together their threads do little more than the sequential version
static void shared_out(Case& c, const std::string& name, double par, double seq, const char* what) {
  c.count("parallel_to_sequential"); c.maxi("parallel_work_ratio_" + name, par / seq);
  c.check(par <= 2 * seq + 5000, "parallel-work-" + name, "%s: all threads together executed %.4g basic blocks for %s, the sequential version %.4g", name.c_str(), par, what, seq);
}

enum Shape { S_UNIFORM, S_SCENE, S_COINCIDENT, S_DUPLICATES, S_COLLINEAR, S_PLANAR, S_CLUSTERED, S_LATTICE, S_SPHERE, S_LIDAR, S_AXISLINE, S_SORTED, S_REVERSED, S_HEAVY, S_TWO, S_ORGAN, NSHAPES };
static const char* const SHAPE[] = {"uniform", "scene", "coincident", "duplicates", "collinear", "planar", "clustered", "lattice", "sphere", "lidar", "axisline", "sorted", "reversed", "heavy-tailed", "two-places", "organ-pipe"};
static vf::Pts shape(vf::Rng r, int s, size_t n) {
  switch (s) {
    case S_UNIFORM: return vf::gen_cloud(r, n, vf::UNIFORM, 20);
    case S_SCENE: return vf::gen_scene(r, n, 12, 0.01);
    case S_COINCIDENT: return vf::gen_cloud(r, n, vf::COINCIDENT, 20);
    case S_DUPLICATES: return vf::gen_cloud(r, n, vf::DUPLICATES, 20);
    case S_COLLINEAR: return vf::gen_cloud(r, n, vf::COLLINEAR, 20);
    case S_PLANAR: return vf::gen_cloud(r, n, vf::PLANAR, 20);
    case S_CLUSTERED: return vf::gen_cloud(r, n, vf::CLUSTERED, 20);
    case S_LATTICE: return vf::gen_cloud(r, n, vf::LATTICE, 20);
    case S_SPHERE: return vf::gen_cloud(r, n, vf::SPHERE, 20);
    case S_LIDAR: return vf::gen_cloud(r, n, vf::LIDAR, 20);
    case S_AXISLINE: return vf::gen_cloud(r, n, vf::AXISLINE, 20);
    case S_SORTED: case S_REVERSED: case S_ORGAN: {
      vf::Pts p = vf::gen_cloud(r, n, vf::UNIFORM, 20); const int ax = r.u(3);
      std::sort(p.begin(), p.end(), [&](auto& a, auto& b) { return a[ax] < b[ax]; });
      if (s == S_REVERSED) std::reverse(p.begin(), p.end());
      if (s == S_ORGAN) { vf::Pts q; for (size_t i = 0; i < n; i += 2) q.push_back(p[i]); for (size_t i = 1; i < n; i += 2) q.push_back(p[n - 1 - (i - 1) - (n % 2 ? 1 : 0)]); return q; }
      return p;
    }
    case S_HEAVY: { vf::Pts p; for (size_t i = 0; i < n; i++) p.push_back(vf::P(r.dir() * r.logreal(1e-4, 100))); return p; }
    default: { vf::Pts p; const Eigen::Vector3d a = r.vec3(10), b = r.vec3(10); for (size_t i = 0; i < n; i++) p.push_back(vf::P(r.coin() ? a : b)); return p; }
  }
}
static PointCloud cloud(const vf::Pts& p) { PointCloud c; c.resize(p.size()); for (size_t i = 0; i < p.size(); i++) { c.point(i) = p[i]; c.normal(i) = Eigen::Vector4d(0, 0, 1, 0); c.cov(i).setZero(); c.cov(i).diagonal() << 1, 1, 0.01, 0; } return c; }
static int any_shape(vf::Rng& r) { return r.u(NSHAPES); }
static int spread_shape(vf::Rng& r) { return r.pick({(int)S_UNIFORM, (int)S_SCENE, (int)S_PLANAR, (int)S_SPHERE, (int)S_LIDAR, (int)S_SORTED, (int)S_COLLINEAR}); }

template <typename Proj> static double build_work(const PointCloud& c, int builder, int leaf, int threads) {
  return work([&] {
    if (builder == 0) { KdTreeBuilder b; b.max_leaf_size = leaf; UnsafeKdTree<PointCloud, Proj> t(c, b); }
    if (builder == 1) { KdTreeBuilderOMP b(threads); b.max_leaf_size = leaf; UnsafeKdTree<PointCloud, Proj> t(c, b); }
    if (builder == 2) { KdTreeBuilderTBB b; b.max_leaf_size = leaf; UnsafeKdTree<PointCloud, Proj> t(c, b); }
  });
}

static void trees(Case& c, size_t n, size_t m) {
  vf::Rng& r = c.rng;
  const int s = any_shape(r), leaf = r.pick({1, 5, 20, 50}), th = r.pick({1, 2, 4, 8}), bl = r.u(3); const bool np = r.coin(0.3);
  const vf::Rng g = vf::Rng(r.next());
  static const char* const BN[] = {"", "-omp", "-tbb"};
  const std::string nm = std::string("tree") + BN[bl] + (np ? "-normal" : "");
  c.describe("%s %s n=%zu,%zu leaf=%d", nm.c_str(), SHAPE[s], n, m, leaf); c.count(std::string("shape_") + SHAPE[s]);
  double w[2]; const size_t nn[2] = {n, m};
  for (int i = 0; i < 2; i++) {
    const PointCloud p = cloud(shape(g, s, nn[i]));
    w[i] = np ? build_work<NormalProjection>(p, bl, leaf, th) : build_work<AxisAlignedProjection>(p, bl, leaf, th);
    // leaves this small cost a scan of the axis at every node
    within(c, nm + (leaf == 1 ? "-leaf1" : ""), w[i], nn[i] * lg(nn[i]), SHAPE[s]);
    if (bl) shared_out(c, nm, w[i], np ? build_work<NormalProjection>(p, 0, leaf, th) : build_work<AxisAlignedProjection>(p, 0, leaf, th), SHAPE[s]);
  }
  growth(c, nm, w[0], n * lg(n), w[1], m * lg(m), SHAPE[s]);
}
static void queries(Case& c, size_t n, size_t m) {
  vf::Rng& r = c.rng;
  const int s = spread_shape(r), k = r.pick({1, 1, 5, 10, 20}); const uint64_t qs = r.next(); const vf::Rng g = vf::Rng(r.next()); const bool np = r.coin(0.3);
  c.describe("queries %s n=%zu,%zu k=%d", SHAPE[s], n, m, k);
  double w[2]; const size_t nn[2] = {n, m}; const size_t Q = 300;
  for (int i = 0; i < 2; i++) {
    const vf::Pts raw = shape(g, s, nn[i]); const PointCloud p = cloud(raw);
    vf::Rng q(qs); std::vector<size_t> idx(k); std::vector<double> sq(k);
    std::vector<Eigen::Vector4d> qq; for (size_t j = 0; j < Q; j++) qq.push_back(raw[q.u(raw.size())] + Eigen::Vector4d(q.normal(), q.normal(), q.normal(), 0) * (2.0 / nn[i]));
    auto go = [&](const auto& t) { w[i] = work([&] { for (auto& x : qq) { if (k == 1) traits::nearest_neighbor_search(t, x, idx.data(), sq.data()); else traits::knn_search(t, x, k, idx.data(), sq.data()); } }); };
    if (np) go(UnsafeKdTree<PointCloud, NormalProjection>(p)); else go(UnsafeKdTree<PointCloud>(p));
    within(c, k == 1 ? "nearest" : "knn", w[i], Q * (lg(nn[i]) + 4.0 * k), SHAPE[s]);
  }
  growth(c, "queries", w[0], lg(n) + 4.0 * k, w[1], lg(m) + 4.0 * k, SHAPE[s]);
}
static void downsampling(Case& c, size_t n, size_t m) {
  vf::Rng& r = c.rng;
  const int s = any_shape(r), how = r.u(4), th = r.pick({1, 2, 4, 8}); const double leaf = r.logreal(0.02, 50); const vf::Rng g = vf::Rng(r.next());
  static const char* const DN[] = {"voxelgrid", "voxelgrid-omp", "voxelgrid-tbb", "random-sampling"};
  c.describe("%s %s n=%zu,%zu leaf=%g", DN[how], SHAPE[s], n, m, leaf); c.count(std::string("shape_") + SHAPE[s]);
  double w[2]; const size_t nn[2] = {n, m};
  for (int i = 0; i < 2; i++) {
    const PointCloud p = cloud(shape(g, s, nn[i])); std::mt19937 mt(1);
    w[i] = work([&] { if (how == 0) voxelgrid_sampling(p, leaf); if (how == 1) voxelgrid_sampling_omp(p, leaf, th); if (how == 2) voxelgrid_sampling_tbb(p, leaf); if (how == 3) random_sampling(p, nn[i] / 3, mt); });
    within(c, DN[how], w[i], nn[i] * lg(nn[i]), SHAPE[s]);
    if (how == 1 || how == 2) shared_out(c, DN[how], w[i], work([&] { voxelgrid_sampling(p, leaf); }), SHAPE[s]);
  }
  growth(c, DN[how], w[0], n * lg(n), w[1], m * lg(m), SHAPE[s]);
}
static void sorts(Case& c, size_t n, size_t m) {
  vf::Rng& r = c.rng;
  const int how = r.u(3), pat = r.u(9), th = r.pick({1, 2, 4, 8}); const uint64_t ds = r.next();
  static const char* const SN[] = {"quick-sort", "merge-sort", "radix-sort"};
  static const char* const PN[] = {"random", "equal", "sorted", "reversed", "few-distinct", "saw", "almost-sorted", "sorted-then-equal", "two-runs"};
  c.describe("%s %s n=%zu,%zu", SN[how], PN[pat], n, m); c.count(std::string("pattern_") + PN[pat]);
  double w[2], cmp[2]; const size_t nn[2] = {n, m};
  for (int i = 0; i < 2; i++) {
    vf::Rng g(ds); const size_t k = nn[i]; std::vector<std::pair<uint64_t, size_t>> v(k);
    for (size_t j = 0; j < k; j++) {
      uint64_t x = 0;
      switch (pat) { case 0: x = g.next() >> 1; break; case 1: x = 7; break; case 2: x = j; break; case 3: x = k - j; break; case 4: x = g.u(5); break; case 5: x = j % 37; break; case 6: x = g.coin(0.01) ? g.u(k) : j; break; case 7: x = j < k / 2 ? j : k; break; case 8: x = j < k / 2 ? 2 * j : 2 * (j - k / 2) + 1; break; }
      v[j] = {x, j};
    }
    std::atomic<unsigned long> calls{0}; static thread_local unsigned long mycalls; mycalls = 0;
    struct Cmp { std::atomic<unsigned long>* n; bool operator()(const std::pair<uint64_t, size_t>& a, const std::pair<uint64_t, size_t>& b) const { n->fetch_add(1, std::memory_order_relaxed); return a.first < b.first; } } comp{&calls};
    w[i] = work([&] {
      if (how == 0) quick_sort_omp(v.begin(), v.end(), comp, th);
      if (how == 1) merge_sort_omp(v.begin(), v.end(), comp, th);
      if (how == 2) radix_sort_tbb(v.data(), v.data() + k, [&](const std::pair<uint64_t, size_t>& p) { calls.fetch_add(1, std::memory_order_relaxed); return p.first; });
    });
    cmp[i] = calls;
    c.maxi(std::string("calls_per_unit_") + SN[how], cmp[i] / (how == 2 ? k : k * lg(k)));
    within(c, SN[how], w[i], k * (how == 2 ? 16 : lg(k)), PN[pat]);
  }
  growth(c, SN[how], w[0], n * (how == 2 ? 1 : lg(n)), w[1], m * (how == 2 ? 1 : lg(m)), PN[pat]);
}
static void features(Case& c, size_t n, size_t m) {
  vf::Rng& r = c.rng;
  const int s = r.coin(0.8) ? spread_shape(r) : (int)r.pick({(int)S_COINCIDENT, (int)S_CLUSTERED, (int)S_LATTICE}), how = r.u(3), k = r.pick({5, 10, 20}), th = r.pick({1, 2, 4, 8}); const vf::Rng g = vf::Rng(r.next());
  static const char* const FN[] = {"features", "features-omp", "features-tbb"};
  c.describe("%s %s n=%zu,%zu k=%d", FN[how], SHAPE[s], n, m, k);
  double w[2]; const size_t nn[2] = {n, m};
  for (int i = 0; i < 2; i++) {
    PointCloud p = cloud(shape(g, s, nn[i]));
    w[i] = work([&] { if (how == 0) estimate_normals_covariances(p, k); if (how == 1) estimate_normals_covariances_omp(p, k, th); if (how == 2) estimate_covariances_tbb(p, k); });
    within(c, FN[how], w[i], nn[i] * (lg(nn[i]) + 4.0 * k), SHAPE[s]);
    if (how) { PointCloud q = cloud(p.points); shared_out(c, FN[how], w[i], work([&] { if (how == 1) estimate_normals_covariances(q, k); else estimate_covariances(q, k); }), SHAPE[s]); }
  }
  growth(c, FN[how], w[0], n * (lg(n) + 4.0 * k), w[1], m * (lg(m) + 4.0 * k), SHAPE[s]);
}
template <typename Contents> static void maps(Case& c, const char* name, size_t n, size_t m) {
  vf::Rng& r = c.rng;
  // arrangements of voxels that recur in practice and that a poor hash would map together
  const int arr = r.u(9); const double leaf = r.pick({0.1, 0.5, 1.0}); const int off = r.pick({1, 7, 27}); const uint64_t ds = r.next();
  static const char* const AN[] = {"plane-xy", "plane-xz", "plane-yz", "line-x", "line-z", "diagonal", "solid", "shell", "antidiagonal"};
  c.describe("%s %s n=%zu,%zu leaf=%g", name, AN[arr], n, m, leaf); c.count(std::string("arrangement_") + AN[arr]);
  double w[2], q[2]; const size_t nn[2] = {n, m};
  for (int i = 0; i < 2; i++) {
    vf::Rng g(ds); const size_t k = nn[i]; vf::Pts p; const double a = std::sqrt((double)k), b = std::cbrt((double)k);
    for (size_t j = 0; j < k; j++) {
      Eigen::Vector3d v; const double x = (double)g.range(-(int64_t)a / 2, (int64_t)a / 2), y = (double)g.range(-(int64_t)a / 2, (int64_t)a / 2), l = (double)j - k / 2.0;
      switch (arr) { case 0: v = {x, y, 0}; break; case 1: v = {x, 3, y}; break; case 2: v = {-2, x, y}; break; case 3: v = {l, 0, 0}; break; case 4: v = {5, 5, l}; break; case 5: v = {l, l, l}; break; case 6: v = {(double)g.range(0, b), (double)g.range(0, b), (double)g.range(0, b)}; break; case 7: v = g.dir() * a / 3; break; default: v = {l, -l, l}; break; }
      p.push_back(vf::P(Eigen::Vector3d((v.array() + 0.5) * leaf)));
    }
    const PointCloud pc = cloud(p);
    IncrementalVoxelMap<Contents> map(leaf); map.set_search_offsets(off); map.lru_horizon = 1000;
    w[i] = work([&] { map.insert(pc); });
    const double live = map.size();
    within(c, std::string(name) + "-insert", w[i], k + live, AN[arr]);
    // further insertions: in proportion to their points and the live voxels, whatever the history
    PointCloud small = cloud(vf::Pts(p.begin(), p.begin() + 50));
    for (int t = 0; t < 8; t++) { const double w3 = work([&] { map.insert(small); }); within(c, std::string(name) + "-insert-again", w3, 50 + 2 * live, AN[arr]); }
    size_t idx[10]; double sq[10];
    q[i] = work([&] { for (size_t j = 0; j < 300; j++) { if (j % 2) map.nearest_neighbor_search(p[(j * 7919) % k], idx, sq); else map.knn_search(p[(j * 7919) % k], 10, idx, sq); } });
    within(c, std::string(name) + "-query", q[i], 300.0 * (off + 2), AN[arr]);
    const double w4 = work([&] { traits::voxel_points(map); traits::point_indices(map); });
    within(c, std::string(name) + "-listing", w4, k + live, AN[arr]);
  }
  growth(c, std::string(name) + "-insert", w[0], n, w[1], m, AN[arr]);
  growth(c, std::string(name) + "-query", q[0], 1, q[1], 1, AN[arr]);
}
// a map that moves along: each insertion costs the same, however many came before
template <typename Contents> static void travelling(Case& c, const char* name) {
  vf::Rng& r = c.rng;
  const size_t n = r.pick({50, 200, 500}), hz = r.pick({2, 5, 20}), cy = r.pick({1, 3, 10}); const int len = 240;
  c.describe("%s travelling n=%zu horizon=%zu cycle=%zu", name, n, hz, cy);
  const PointCloud p = cloud(vf::gen_scene(r, n, 10, 0.01));
  IncrementalVoxelMap<Contents> map(1.0); map.lru_horizon = hz; map.lru_clear_cycle = cy;
  double first = 0, last = 0;
  for (int i = 0; i < len; i++) {
    Eigen::Isometry3d T = Eigen::Isometry3d::Identity(); T.translation() << 1.5 * i, 0.2 * i, 0;
    const double w = work([&] { map.insert(p, T); });
    if (i >= 60 && i < 120) first += w;
    if (i >= 180) last += w;
  }
  c.count("travelling_maps"); c.maxi("growth_travelling", last / first);
  c.check(last <= 1.6 * first, "history-work", "%s: 60 insertions cost %.4g blocks after 60 insertions and %.4g after 180, although the map does not grow", name, first, last);
}

// ---- registration ---------------------------------------------------------------------------------------------------
struct CountedTree { const UnsafeKdTree<PointCloud>* t; mutable std::atomic<unsigned long> calls{0}; };
namespace small_gicp { namespace traits {
template <> struct Traits<CountedTree> {
  static size_t nearest_neighbor_search(const CountedTree& t, const Eigen::Vector4d& p, size_t* i, double* d) { t.calls.fetch_add(1, std::memory_order_relaxed); return t.t->nearest_neighbor_search(p, i, d); }
  static size_t knn_search(const CountedTree& t, const Eigen::Vector4d& p, size_t k, size_t* i, double* d) { t.calls.fetch_add(1, std::memory_order_relaxed); return t.t->knn_search(p, k, i, d); }
};
} }
static std::atomic<unsigned long> g_lin{0}, g_err{0};
template <typename F> struct Counted : F {
  struct Setting : F::Setting {};
  Counted(const Setting& s = Setting()) : F(s) {}
  template <typename... A> bool linearize(A&&... a) { g_lin.fetch_add(1, std::memory_order_relaxed); return F::linearize(std::forward<A>(a)...); }
  template <typename... A> double error(A&&... a) const { g_err.fetch_add(1, std::memory_order_relaxed); return F::error(std::forward<A>(a)...); }
};
template <typename F, typename Red, typename Opt> static void align(Case& c, const char* name, Red red, size_t n, size_t m) {
  vf::Rng& r = c.rng;
  const uint64_t ds = r.next(); const int maxit = r.pick({1, 3, 8, 20}), inner = r.pick({1, 3, 10}); const bool noise = r.coin(0.3); const double tol = r.pick({1e-3, 1e-8, 0.0});
  c.describe("%s n=%zu,%zu max_iterations=%d inner=%d", name, n, m, maxit, inner);
  const size_t nn[2] = {n, m}; double per[2];
  for (int i = 0; i < 2; i++) {
    vf::Rng g(ds); const size_t k = nn[i];
    PointCloud t = cloud(vf::gen_scene(g, k, 10, 0.0)), s = cloud(noise ? vf::gen_cloud(g, k, vf::UNIFORM, 8) : vf::Pts(t.points.begin(), t.points.end()));
    estimate_normals_covariances(t, 10); estimate_normals_covariances(s, 10);
    UnsafeKdTree<PointCloud> tree(t); CountedTree ct{&tree};
    Registration<F, Red, NullFactor, DistanceRejector, Opt> rg; rg.reduction = red;
    rg.optimizer.max_iterations = maxit; if constexpr (std::is_same_v<Opt, LevenbergMarquardtOptimizer>) rg.optimizer.max_inner_iterations = inner;
    rg.criteria.rotation_eps = tol; rg.criteria.translation_eps = tol;
    g_lin = 0; g_err = 0; RegistrationResult res;
    const double w = work([&] { res = rg.align(t, s, ct, g.iso(0.05, 0.2)); });
    const unsigned long L = g_lin, E = g_err, Q = ct.calls;
    const double steps = (double)L / k; per[i] = w / std::max(1.0, steps);
    c.count("alignments"); c.count(std::string("align_") + name); c.maxi("linearisations", steps); c.maxi("trials_per_linearisation", L ? (double)E / L : 0);
    c.check(L <= (unsigned long)maxit * k, "too-many-iterations", "%s: %lu factor linearisations for %zu points with at most %d iterations", name, L, k, maxit);
    c.check(Q == L, "searches-per-linearisation", "%s: %lu target searches for %lu factor linearisations", name, Q, L);
    const unsigned long most = std::is_same_v<Opt, LevenbergMarquardtOptimizer> ? (unsigned long)inner * L : L;
    c.check(E <= most, "too-many-trials", "%s: %lu error evaluations for %lu linearisations with at most %d trials each", name, E, L, inner);
    within(c, std::string("align"), w, std::max(1.0, steps) * k * (lg(k) + 10) * (noise ? 10 : 1) + 20.0 * E, name);
  }
  if (!noise) growth(c, "align", per[0], n * (lg(n) + 10), per[1], m * (lg(m) + 10), name);
}
static void align_maps(Case& c, size_t n, size_t m) {
  vf::Rng& r = c.rng;
  const uint64_t ds = r.next(); const double leaf = r.pick({0.5, 1.0, 2.0}); const bool gauss = r.coin(); const int off = r.pick({1, 7, 27}), th = r.pick({2, 4, 8});
  c.describe("align to a voxel map n=%zu,%zu leaf=%g", n, m, leaf);
  const size_t nn[2] = {n, m}; double per[2];
  for (int i = 0; i < 2; i++) {
    vf::Rng g(ds); const size_t k = nn[i];
    PointCloud t = cloud(vf::gen_scene(g, 4000, 10, 0.0)), s = cloud(vf::Pts());
    { vf::Pts q; for (size_t j = 0; j < k; j++) q.push_back(t.point(g.u(t.size()))); s = cloud(q); }
    estimate_normals_covariances(t, 10); for (auto& v : s.covs) { v.setZero(); v.diagonal() << 0.01, 0.01, 0.01, 0; }
    auto go = [&](const auto& map, auto red) {
      Registration<Counted<GICPFactor>, decltype(red)> rg; rg.reduction = red; rg.optimizer.max_iterations = 5; g_lin = 0; g_err = 0;
      const Eigen::Isometry3d T0 = vf::Rng(ds).iso(0.02, 0.1);
      const double w = work([&] { rg.align(map, s, map, T0); });
      const double steps = std::max(1.0, (double)g_lin / k);
      return w / steps;
    };
    auto both = [&](const auto& map) {
      ParallelReductionOMP omp; omp.num_threads = th;
      per[i] = go(map, SerialReduction()); const double o = go(map, omp), b = go(map, ParallelReductionTBB());
      within(c, gauss ? "align-gaussian-map" : "align-flat-map", per[i], k * (10.0 + 3 * off), "a scene");
      shared_out(c, "align-omp", o, per[i], "one iteration"); shared_out(c, "align-tbb", b, per[i], "one iteration");
    };
    if (gauss) { GaussianVoxelMap map(leaf); map.set_search_offsets(off); map.insert(t); both(map); }
    else { IncrementalVoxelMap<FlatContainerCov> map(leaf); map.set_search_offsets(off); map.insert(t); both(map); }
  }
  growth(c, "align-map", per[0], n, per[1], m, "a scene");
}
static void pcl_reuse(Case& c) {
  vf::Rng& r = c.rng;
  using PT = pcl::PointNormal;
  const size_t big = r.pick({20000, 40000}), small = 40; const char* type = r.pick({"GICP", "VGICP"});
  c.describe("pcl reuse %s %zu", type, big);
  auto mk = [&](const vf::Pts& p) { auto q = std::make_shared<pcl::PointCloud<PT>>(); for (auto& v : p) { PT x; x.getVector4fMap() = v.cast<float>(); q->push_back(x); } return q; };
  const vf::Pts raw = vf::gen_scene(r, big, 12, 0.0);
  auto target = mk(raw); auto source = mk(vf::Pts(raw.begin(), raw.begin() + small));
  RegistrationPCL<PT, PT> g; g.setNumThreads(r.pick({1, 2, 4})); g.setRegistrationType(type); g.setCorrespondenceRandomness(10);
  g.setInputTarget(target); g.setInputSource(source);
  pcl::PointCloud<PT> out; g.align(out);
  auto other = mk(vf::Pts(raw.begin() + 100, raw.begin() + 100 + small));
  double again = work([&] { g.setInputTarget(target); g.align(out); });  // same target: nothing to prepare
  const double next = work([&] { g.setInputSource(other); g.align(out); });
  c.count("pcl_reuses"); c.maxi("pcl_again_blocks_per_point", again / small); c.maxi("pcl_next_blocks_per_point", next / small);
  within(c, "pcl-again", again, small * lg(big) * 64, "a target aligned before");
  within(c, "pcl-next-source", next, small * lg(big) * 64, "a target aligned before");
}
static void helper_work(Case& c, size_t n, size_t m) {
  vf::Rng& r = c.rng;
  const vf::Rng g = vf::Rng(r.next()); const double leaf = r.pick({0.2, 0.5, 1.0}); const int th = r.pick({1, 2, 4});
  c.describe("preprocess n=%zu,%zu leaf=%g", n, m, leaf);
  double w[2]; const size_t nn[2] = {n, m};
  for (int i = 0; i < 2; i++) {
    const PointCloud p = cloud(shape(g, S_SCENE, nn[i]));
    w[i] = work([&] { preprocess_points(p, leaf, 10, th); });
    within(c, "preprocess", w[i], nn[i] * (lg(nn[i]) + 40), "a scene");
  }
}
static void project(Case& c, size_t n, size_t m) {
  vf::Rng& r = c.rng;
  const int s = any_shape(r); const vf::Rng g = vf::Rng(r.next()); const int wd = r.pick({64, 512}), ht = r.pick({16, 128});
  c.describe("projective %s n=%zu,%zu map %dx%d", SHAPE[s], n, m, wd, ht);
  double w[2]; const size_t nn[2] = {n, m};
  for (int i = 0; i < 2; i++) {
    auto raw = shape(g, s, nn[i]); auto p = std::make_shared<PointCloud>(cloud(raw));
    std::shared_ptr<ProjectiveSearch<PointCloud>> ps;
    w[i] = work([&] { ps = std::make_shared<ProjectiveSearch<PointCloud>>(wd, ht, p); });
    within(c, "projective-build", w[i], nn[i] + (double)wd * ht, SHAPE[s]);
    size_t idx[10]; double sq[10];
    const double q = work([&] { for (size_t j = 0; j < 100; j++) traits::knn_search(*ps, raw[(j * 7919) % raw.size()], 10, idx, sq); });
    within(c, "projective-query", q, 100.0 * 200, SHAPE[s]);
  }
}
static void files(Case& c, size_t n, size_t m) {
  vf::Rng& r = c.rng; c.describe("files n=%zu,%zu", n, m);
  const size_t nn[2] = {n, m}; double w[2];
  for (int i = 0; i < 2; i++) {
    std::vector<Eigen::Vector4f> v(nn[i]); for (auto& p : v) p << (float)r.real(), 2, 3, 1;
    const std::string f = g_dir + "/c32-" + std::to_string(getpid()) + ".bin", f2 = g_dir + "/c32-" + std::to_string(getpid()) + ".ply";
    w[i] = work([&] { write_points(f, v); read_points(f); });
    FILE* h = fopen(f2.c_str(), "wb"); fprintf(h, "ply\nformat binary_little_endian 1.0\nelement vertex %zu\nproperty float x\nproperty float y\nproperty float z\nproperty float i\nend_header\n", nn[i]); fwrite(v.data(), 16, nn[i], h); fclose(h);
    w[i] += work([&] { read_ply(f2); }); unlink(f.c_str()); unlink(f2.c_str());
    within(c, "files", w[i], nn[i] + 100, "points");
  }
  growth(c, "files", w[0], n, w[1], m, "a file");
}

static void run(Case& c) {
  vf::Rng& r = c.rng;
  const size_t n = r.range(1500, 3000), m = n * (c.rare(12, 3) ? 16 : 8);
  c.sig(r.next()); c.nontrivial();
  switch (r.u(15)) {
    case 0: case 1: trees(c, n, m); break;
    case 2: case 3: queries(c, n, m); break;
    case 4: case 5: downsampling(c, n, m); break;
    case 6: case 7: sorts(c, n * 4, m * 4); break;
    case 8: features(c, n / 2, m / 2); break;
    case 9: maps<FlatContainerPoints>(c, "map-points", n, m); break;
    case 10: if (r.coin()) maps<GaussianVoxel>(c, "map-gaussian", n, m); else maps<FlatContainerNormalCov>(c, "map-normals-covs", n, m); break;
    case 11: if (r.coin()) travelling<FlatContainerPoints>(c, "map-points"); else travelling<GaussianVoxel>(c, "map-gaussian"); break;
    case 12: case 13: {
      const size_t a = n / 4, b = a * 6; ParallelReductionOMP omp; omp.num_threads = 3; ParallelReductionTBB tbb;
      using LM = LevenbergMarquardtOptimizer; using GN = GaussNewtonOptimizer;
      switch (r.u(8)) {
        case 0: align<Counted<ICPFactor>, SerialReduction, LM>(c, "icp-lm", {}, a, b); break;
        case 1: align<Counted<GICPFactor>, SerialReduction, LM>(c, "gicp-lm", {}, a, b); break;
        case 2: align<Counted<PointToPlaneICPFactor>, SerialReduction, GN>(c, "plane-gn", {}, a, b); break;
        case 3: align<Counted<ICPFactor>, SerialReduction, GN>(c, "icp-gn", {}, a, b); break;
        case 4: align<Counted<GICPFactor>, ParallelReductionOMP, LM>(c, "gicp-lm-omp", omp, a, b); break;
        case 5: align<Counted<GICPFactor>, ParallelReductionTBB, LM>(c, "gicp-lm-tbb", tbb, a, b); break;
        case 6: align<Counted<PointToPlaneICPFactor>, ParallelReductionOMP, GN>(c, "plane-gn-omp", omp, a, b); break;
        case 7: align<Counted<ICPFactor>, ParallelReductionTBB, GN>(c, "icp-gn-tbb", tbb, a, b); break;
      }
      break;
    }
    default: switch (r.u(5)) { case 4: align_maps(c, n / 4, n * 3 / 2); break; case 0: pcl_reuse(c); break; case 1: helper_work(c, n, m); break; case 2: project(c, n, m); break; default: files(c, n, m); }
  }
}
int main(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tmp")) g_dir = argv[i + 1];
  if (g_dir.empty()) g_dir = "/tmp";
  pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS);
  return vf::main_loop(argc, argv, run);
}
