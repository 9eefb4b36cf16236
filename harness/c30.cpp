// C30: memory, threads and file handles in use depend on the live objects, not on how often the library was used.
#include "reg.hpp"
#include <dlfcn.h>
#include <dirent.h>
#include <malloc.h>
#include <atomic>
#include <fstream>
#include <pybind11/embed.h>
#include <pybind11/numpy.h>
#include <pybind11/eigen.h>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/ann/projective_search.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/registration/registration_helper.hpp>
#include <small_gicp/benchmark/read_points.hpp>
#include <pcl/point_types.h>
#include <pcl/point_cloud.h>
#include <pcl/console/print.h>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/pcl/pcl_registration.hpp>
namespace py = pybind11;
using vf::Case;
using namespace small_gicp;
extern "C" PyObject* PyInit_small_gicp();

// ---- accounting: every allocation of the process goes through these ------------------------------------------------
static std::atomic<long> g_live{0}, g_peak{0};
static std::atomic<unsigned long> g_allocs{0};
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
static inline void* got(void* p) {
  if (!p) return p;
  g_allocs.fetch_add(1, std::memory_order_relaxed);
  const long n = malloc_usable_size(p), v = g_live.fetch_add(n, std::memory_order_relaxed) + n;
  long m = g_peak.load(std::memory_order_relaxed);
  while (v > m && !g_peak.compare_exchange_weak(m, v, std::memory_order_relaxed)) {}
  return p;
}
static inline void gone(void* p) { if (p) g_live.fetch_sub(malloc_usable_size(p), std::memory_order_relaxed); }
void* malloc(size_t n) { return got(__libc_malloc(n)); }
void free(void* p) { gone(p); __libc_free(p); }
void* calloc(size_t a, size_t b) { return got(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n) {
  const long before = p ? malloc_usable_size(p) : 0;
  void* q = __libc_realloc(p, n);
  if (q || n == 0) g_live.fetch_sub(before, std::memory_order_relaxed);
  return got(q);
}
void* memalign(size_t a, size_t n) { return got(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return got(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n) { void* q = __libc_memalign(a, n); if (!q) return ENOMEM; *p = got(q); return 0; }
}
static long live() { return g_live.load(); }
static size_t entries(const char* dir) { size_t n = 0; if (DIR* d = opendir(dir)) { while (readdir(d)) n++; closedir(d); } return n; }

// ---- repeated use ----------------------------------------------------------------------------------------------------
static const int BATCHES = 5;
// Runs op(i) again and again with fresh inputs.  A leak is growth in every batch by at least 8 bytes a call; caches and
// pools that reach a steady state are fine.
static void repeat(Case& c, const char* name, int reps, const std::function<void(int)>& op, const std::function<void()>& settle = [] {}) {
  for (int i = 0; i < 4; i++) op(i);
  settle();
  long at[BATCHES + 1], thr[BATCHES + 1], fds[BATCHES + 1];
  auto probe = [&](int k) { settle(); at[k] = live(); thr[k] = entries("/proc/self/task"); fds[k] = entries("/proc/self/fd"); };
  probe(0);
  const unsigned long a0 = g_allocs;
  int n = 4;
  for (int k = 1; k <= BATCHES; k++) { for (int i = 0; i < reps; i++) op(n++); probe(k); }
  bool leak = true, threads = true, files = true;
  long least = LONG_MAX;
  for (int k = 1; k <= BATCHES; k++) {
    least = std::min(least, at[k] - at[k - 1]);
    leak = leak && at[k] - at[k - 1] >= 8l * reps;
    threads = threads && thr[k] > thr[k - 1];
    files = files && fds[k] > fds[k - 1];
  }
  c.count("calls", n); c.count(std::string("calls_") + name, n);
  c.count("allocations_observed", g_allocs - a0);
  c.maxi("steady_state_growth_per_call", at[BATCHES] <= at[0] ? 0.0 : (double)(at[BATCHES] - at[0]) / (BATCHES * reps));
  c.check(!leak, std::string("grows-") + name, "%s: memory in use grew in every batch of %d calls, by at least %ld bytes (from %ld to %ld in %d calls)", name, reps, least, at[0], at[BATCHES], BATCHES * reps);
  c.check(!threads, std::string("threads-") + name, "%s: the number of threads grew in every batch of %d calls (from %ld to %ld)", name, reps, thr[0], thr[BATCHES]);
  c.check(!files, std::string("files-") + name, "%s: the number of open files grew in every batch of %d calls (from %ld to %ld)", name, reps, fds[0], fds[BATCHES]);
}
// Peak memory of one call, beyond what was in use before.  limit: bytes per input point that no sensible implementation needs.
template <typename F> static void peak(Case& c, const char* name, size_t n, double per_point, const F& f) {
  const long before = live();
  g_peak = before;
  f();
  const double used = (double)(g_peak.load() - before);
  c.maxi(std::string("peak_bytes_per_point_") + name, n >= 2000 ? used / n : 0);
  c.count("peaks_measured");
  c.check(used <= 8e6 + per_point * n, std::string("peak-") + name, "%s: needed %.3g bytes for %zu points", name, used, n);
}

static vf::Pts fresh_points(vf::Rng& r, size_t n) {
  const double w = r.real();
  vf::Pts p = w < 0.4 ? vf::gen_scene(r, n, 8, 0.01) : vf::gen_cloud(r, n, r.pick({(int)vf::UNIFORM, (int)vf::DUPLICATES, (int)vf::CLUSTERED, (int)vf::COINCIDENT, (int)vf::LIDAR}), 10);
  if (r.coin(0.15)) for (auto& q : p) if (r.coin(0.1)) q = r.pick({vf::P(1e9, 0, 0), vf::P(0, -1e9, 0)});
  return p;
}
static size_t some(vf::Rng& r) { return r.pick({(size_t)0, (size_t)1, (size_t)4, (size_t)30, (size_t)200, (size_t)700}); }

static void searches(Case& c) {
  vf::Rng& r = c.rng;
  auto query = [&](const auto& t) {
    size_t idx[20]; double sq[20];
    for (int i = 0; i < 5; i++) { traits::nearest_neighbor_search(t, vf::P(r.vec3(10)), idx, sq); traits::knn_search(t, vf::P(r.vec3(10)), 1 + r.u(20), idx, sq); }
  };
  repeat(c, "kdtree", 15, [&](int i) { KdTree<PointCloud> t(std::make_shared<PointCloud>(fresh_points(r, some(r)))); query(t); });
  repeat(c, "kdtree-omp", 10, [&](int i) { KdTree<PointCloud> t(std::make_shared<PointCloud>(fresh_points(r, some(r))), KdTreeBuilderOMP(1 + i % 4)); query(t); });
  repeat(c, "kdtree-tbb", 10, [&](int i) { KdTree<PointCloud> t(std::make_shared<PointCloud>(fresh_points(r, some(r))), KdTreeBuilderTBB()); query(t); });
  repeat(c, "projective", 15, [&](int i) { ProjectiveSearch<PointCloud> t(8 + r.u(200), 4 + r.u(50), std::make_shared<PointCloud>(fresh_points(r, some(r)))); query(t); });
  const PointCloud big(fresh_points(r, 3000));
  peak(c, "kdtree", 3000, 2000, [&] { UnsafeKdTree<PointCloud> t(big); query(t); });
  // searches on a long-lived tree leave nothing behind
  UnsafeKdTree<PointCloud> t(big);
  repeat(c, "queries", 50, [&](int i) { query(t); });
}
static void preprocessing(Case& c) {
  vf::Rng& r = c.rng;
  repeat(c, "voxelgrid", 15, [&](int i) { voxelgrid_sampling(PointCloud(fresh_points(r, some(r))), r.logreal(0.05, 5)); });
  repeat(c, "voxelgrid-omp", 10, [&](int i) { voxelgrid_sampling_omp(PointCloud(fresh_points(r, some(r))), r.logreal(0.05, 5), 1 + i % 4); });
  repeat(c, "voxelgrid-tbb", 10, [&](int i) { voxelgrid_sampling_tbb(PointCloud(fresh_points(r, some(r))), r.logreal(0.05, 5)); });
  repeat(c, "random-sampling", 15, [&](int i) { random_sampling(PointCloud(fresh_points(r, some(r))), r.u(300), r); });
  repeat(c, "features", 6, [&](int i) { PointCloud p(fresh_points(r, some(r))); const int k = 1 + r.u(15); estimate_normals(p, k); estimate_covariances(p, k); estimate_normals_covariances(p, k); });
  repeat(c, "features-omp", 6, [&](int i) { PointCloud p(fresh_points(r, some(r))); estimate_normals_covariances_omp(p, 1 + r.u(15), 1 + i % 4); });
  repeat(c, "features-tbb", 6, [&](int i) { PointCloud p(fresh_points(r, some(r))); estimate_normals_covariances_tbb(p, 1 + r.u(15)); });
  const size_t n = 3000 + r.u(4000);
  PointCloud big(fresh_points(r, n));
  // a tiny leaf makes many voxels, and one far point a huge volume: memory follows the points, not the volume
  big.points[0] = vf::P(5e4, -5e4, 5e4);
  const double leaf = r.pick({0.1, 0.5, 50.0});
  peak(c, "voxelgrid", n, 2000, [&] { voxelgrid_sampling(big, leaf); });
  peak(c, "voxelgrid-omp", n, 4000, [&] { voxelgrid_sampling_omp(big, leaf, 4); });
  peak(c, "voxelgrid-tbb", n, 4000, [&] { voxelgrid_sampling_tbb(big, leaf); });
  peak(c, "random-sampling", n, 2000, [&] { random_sampling(big, n / 2, r); });
  peak(c, "features", n, 4000, [&] { estimate_normals_covariances(big, 10); });
}
static void helper(Case& c) {
  vf::Rng& r = c.rng;
  repeat(c, "preprocess", 5, [&](int i) { preprocess_points(PointCloud(fresh_points(r, some(r))), 0.3, 8, 1 + i % 3); });
  repeat(c, "helper-align", 4, [&](int i) {
    std::vector<Eigen::Vector3d> a, b;
    for (auto& p : fresh_points(r, some(r))) { a.push_back(p.head<3>()); b.push_back(p.head<3>() + Eigen::Vector3d(0.05, 0, 0)); }
    RegistrationSetting s; s.type = (RegistrationSetting::RegistrationType)(i % 4); s.num_threads = 1 + i % 3;
    align(a, b, Eigen::Isometry3d::Identity(), s);
  });
  auto t = reg::make_cloud(r, vf::gen_scene(r, 400, 6, 0.01));
  KdTree<PointCloud> tree(t);
  auto vm = create_gaussian_voxelmap(*t, 1.0);
  repeat(c, "helper-align-tree", 5, [&](int i) {
    auto s = reg::make_cloud(r, fresh_points(r, some(r)));
    RegistrationSetting st; st.type = (RegistrationSetting::RegistrationType)(i % 4); st.num_threads = 1 + i % 3;
    if (i % 4 == 3) align(*vm, *s, Eigen::Isometry3d::Identity(), st); else align(*t, *s, tree, Eigen::Isometry3d::Identity(), st);
  });
}
template <typename Reg> static void align_many(Case& c, const char* name) {
  vf::Rng& r = c.rng;
  auto t = reg::make_cloud(r, vf::gen_scene(r, 300, 6, 0.01));
  UnsafeKdTree<PointCloud> tree(*t);
  Reg g;
  if constexpr (std::is_same<decltype(g.reduction), ParallelReductionOMP>::value) g.reduction.num_threads = 1 + r.u(4);
  repeat(c, name, 6, [&](int i) {
    auto s = i % 3 ? reg::make_cloud(r, fresh_points(r, some(r))) : reg::transform(*t, Eigen::Isometry3d(Eigen::Translation3d(r.vec3(0.1))));
    g.align(*t, *s, tree, Eigen::Isometry3d::Identity());
  });
  const size_t n = 5000;
  auto s = reg::make_cloud(r, vf::gen_scene(r, n, 6, 0.01));
  g.optimizer.max_iterations = 30; g.criteria.translation_eps = 0; g.criteria.rotation_eps = 0;
  peak(c, name, n, 3000, [&] { g.align(*t, *s, tree, Eigen::Isometry3d::Identity()); });
}
static void registrations(Case& c) {
  align_many<Registration<ICPFactor, SerialReduction>>(c, "icp-serial");
  align_many<Registration<PointToPlaneICPFactor, ParallelReductionOMP>>(c, "plane-omp");
  align_many<Registration<GICPFactor, ParallelReductionTBB>>(c, "gicp-tbb");
  align_many<Registration<GICPFactor, SerialReduction, NullFactor, DistanceRejector, GaussNewtonOptimizer>>(c, "gicp-gn");
}
// A map fed by a moving sensor forgets what it left behind, also in memory.
template <typename Map> static void stream(Case& c, const char* name) {
  vf::Rng& r = c.rng;
  auto run = [&](int steps, bool judge) {
    const long base = live();
    auto m = std::make_unique<Map>(r.pick({0.5, 1.0, 2.0}));
    m->lru_horizon = 1 + r.u(12); m->lru_clear_cycle = 1 + r.u(10);
    m->set_search_offsets(r.pick({1, 7, 27}));
    const Eigen::Vector3d v = r.dir() * r.pick({0.5, 2.0, 10.0});
    const size_t n = r.pick({(size_t)20, (size_t)100});
    double most = 0;
    size_t voxels = 0;
    for (int i = 0; i < steps; i++) {
      {
        vf::Pts p; for (size_t j = 0; j < n; j++) p.push_back(vf::P(r.vec3(3)));
        auto cl = reg::make_cloud(r, p);
        Eigen::Isometry3d T = Eigen::Isometry3d::Identity(); T.translation() = v * i;
        m->insert(*cl, T);
      }
      voxels = std::max<size_t>(voxels, m->size());
      if (!judge) continue;
      const long used = live() - base;
      const long b = live(); long fresh;
      { const Map copy(*m); fresh = live() - b; }
      most = std::max(most, (double)fresh);
      c.maxi(std::string("map_bytes_over_copy_") + name, used / (most + 1024));
      c.check(used <= 8 * most + 65536, std::string("map-grows-") + name, "%s map: %ld bytes in use after %d insertions, while a copy of the largest map so far takes %.0f", name, used, i + 1, most);
      c.count("map_states_measured");
    }
    c.count("streamed_insertions", steps);
    m.reset();
    return live() - base;
  };
  run(r.pick({60, 150, 300}), true);
  repeat(c, (std::string("map-") + name).c_str(), 3, [&](int) { run(8, false); });
}
static void pcl_interface(Case& c) {
  vf::Rng& r = c.rng;
  typedef pcl::PointCloud<pcl::PointXYZ> Cloud;
  auto make = [&](size_t n) { auto cl = pcl::make_shared<Cloud>(); for (auto& p : vf::gen_scene(r, n, 6, 0.01)) cl->push_back(pcl::PointXYZ(p[0], p[1], p[2])); return cl; };
  RegistrationPCL<pcl::PointXYZ, pcl::PointXYZ> g;
  g.setNumThreads(1 + r.u(3)); g.setMaxCorrespondenceDistance(1.0); g.setCorrespondenceRandomness(8);
  g.setInputTarget(make(150)); g.setInputSource(make(150));
  repeat(c, "pcl-align", 4, [&](int i) {
    g.setRegistrationType(i % 2 ? "VGICP" : "GICP");
    switch (i % 5) {
      case 0: g.setInputSource(make(120)); break;
      case 1: g.setInputTarget(make(120)); break;
      case 2: g.swapSourceAndTarget(); break;
      case 3: g.clearSource(); g.setInputSource(make(130)); break;
      default: g.clearTarget(); g.setInputTarget(make(130));
    }
    Cloud out; g.align(out); g.getFitnessScore();
  });
  repeat(c, "pcl-objects", 4, [&](int i) { RegistrationPCL<pcl::PointXYZ, pcl::PointXYZ> h; h.setNumThreads(1); h.setInputTarget(make(60)); h.setInputSource(make(60)); Cloud out; h.align(out); });
}
static void files(Case& c) {
  vf::Rng& r = c.rng;
  const std::string dir = vf::G().tmpdir + "/c30_" + std::to_string(c.idx);
  if (system(("mkdir -p '" + dir + "'").c_str())) return;
  const std::string bin = dir + "/p.bin", ply = dir + "/p.ply", bad = dir + "/bad.ply";
  std::vector<Eigen::Vector4f> pts; for (size_t i = 0; i < 50 + r.u(500); i++) pts.push_back(vf::P(r.vec3(5)).cast<float>());
  auto put = [&](const std::string& p, int props, size_t n, size_t have) {
    std::ofstream f(p, std::ios::binary);
    f << "ply\nformat binary_little_endian 1.0\nelement vertex " << n << "\n";
    const char* names[] = {"x", "y", "z", "intensity"};
    for (int i = 0; i < props; i++) f << "property float " << names[i] << "\n";
    f << "end_header\n";
    f.write((const char*)pts.data(), have * props * 4);
  };
  put(ply, 4, pts.size(), pts.size());
  repeat(c, "write-points", 20, [&](int) { write_points(bin, pts); });
  repeat(c, "read-points", 20, [&](int) { read_points(bin); });
  repeat(c, "read-ply", 20, [&](int) { read_ply(ply); });
  repeat(c, "missing-files", 20, [&](int) { read_ply(dir + "/none.ply"); read_points(dir + "/none.bin"); write_points(dir + "/none/p.bin", pts); });
  put(bad, r.pick({1, 2}), pts.size(), 10);
  repeat(c, "bad-ply", 20, [&](int) { try { read_ply(bad); } catch (const std::exception&) {} });
  put(bad, 4, pts.size(), pts.size() / 2);
  repeat(c, "cut-ply", 20, [&](int) { try { read_ply(bad); } catch (const std::exception&) {} });
  py::object f = py::module_::import("small_gicp").attr("read_ply");
  repeat(c, "python-read-ply", 20, [&](int) { f(ply); try { f(dir + "/none.ply"); } catch (const py::error_already_set&) {} });
  unlink(bin.c_str()); unlink(ply.c_str()); unlink(bad.c_str()); rmdir(dir.c_str());
}
static const char* SCRIPT = R"PY(
import small_gicp as sg, numpy as np, gc
rng = np.random.default_rng(1)
def cloud(n=None):
    n = int(rng.choice([1, 5, 40, 200])) if n is None else n
    return rng.uniform(-5, 5, (n, 3 if rng.random() < 0.5 else 4))
def refuse(f, *a, **k):
    try: f(*a, **k)
    except Exception: pass
def op_clouds(i):
    p = sg.PointCloud(cloud()); x = p.points(); y = p.normals(); z = p.covs(); repr(p); len(p); p.empty(); p.size(); p.point(0); p.normal(0); p.cov(0)
    refuse(p.point, 10**6); refuse(p.normal, 10**6); refuse(p.cov, -1)
    del p; x[0]
def op_downsampling(i):
    sg.voxelgrid_sampling(cloud(), 0.5); sg.voxelgrid_sampling(sg.PointCloud(cloud()), 0.5, 1 + i % 3); refuse(sg.voxelgrid_sampling, 'no', 1.0)
def op_features(i):
    p = sg.PointCloud(cloud()); t = sg.KdTree(p, num_threads=1 + i % 3)
    sg.estimate_normals(p, t, 8); sg.estimate_covariances(p, num_neighbors=5); sg.estimate_normals_covariances(p, t, 8, 1 + i % 2)
def op_preprocess(i):
    a, t = sg.preprocess_points(cloud(), 0.5, 8, 1 + i % 2); b, u = sg.preprocess_points(sg.PointCloud(cloud()), 0.5); refuse(sg.preprocess_points, np.zeros((5, 2)), 0.5)
def op_trees(i):
    t = sg.KdTree(cloud()); t.nearest_neighbor_search(np.zeros(3)); t.knn_search(np.zeros(3), 5); t.batch_nearest_neighbor_search(cloud(), num_threads=1 + i % 3); t.batch_knn_search(cloud(), 4, num_threads=1 + i % 3); refuse(t.knn_search, np.zeros(7), 2); refuse(sg.KdTree, np.zeros((3, 9)))
    u = sg.KdTree(sg.PointCloud(cloud())); u.knn_search(np.zeros(3), 3)
def op_maps(i):
    cls = [sg.IncrementalVoxelMap, sg.IncrementalVoxelMapNormal, sg.IncrementalVoxelMapCov, sg.IncrementalVoxelMapNormalCov, sg.GaussianVoxelMap][i % 5]
    m = cls(1.0); m.set_lru(3, 2)
    for k in range(4):
        p = sg.PointCloud(cloud()); sg.estimate_normals_covariances(p, num_neighbors=5); m.insert(p)
    m.voxel_points(); repr(m); len(m); refuse(m.insert, None)
    if hasattr(m, 'voxel_normals'): m.voxel_normals()
    if hasattr(m, 'voxel_covs'): m.voxel_covs()
def op_align(i):
    a = cloud(200)[:, :3]; b = a + 0.02
    typ = ['ICP', 'PLANE_ICP', 'GICP', 'VGICP'][i % 4]
    r = sg.align(a, b, registration_type=typ, num_threads=1 + i % 3); repr(r); T = r.T_target_source; r.H; r.b; r.error; del r; T[0, 0]
    p, t = sg.preprocess_points(a, 0.3); q, u = sg.preprocess_points(b, 0.3)
    sg.align(p, q, t, registration_type=['ICP', 'PLANE_ICP', 'GICP'][i % 3]); sg.align(p, q)
    m = sg.GaussianVoxelMap(1.0); m.insert(p); sg.align(m, q)
    refuse(sg.align, a, b, registration_type='NONE'); refuse(sg.align, a, None)
def op_factors(i):
    p, t = sg.preprocess_points(cloud(100), 0.3); q, u = sg.preprocess_points(cloud(100), 0.3)
    rej = sg.DistanceRejector(); rej.set_max_distance(2.0)
    for f in (sg.ICPFactor(), sg.PointToPlaneICPFactor(), sg.GICPFactor()):
        f.linearize(p, q, t, np.identity(4), 0, rej); refuse(f.linearize, p, q, t, np.identity(4), 10**9, rej)
)PY";
static const char* PYOPS[] = {"clouds", "downsampling", "features", "preprocess", "trees", "maps", "align", "factors"};
static void python(Case& c) {
  py::object collect = py::module_::import("gc").attr("collect");
  static bool loaded = false;
  if (!loaded) { py::exec(SCRIPT, py::globals()); loaded = true; }
  const char* name = PYOPS[c.rng.u(8)];
  py::object f = py::globals()[(std::string("op_") + name).c_str()];
  c.describe("op_%s", name);
  repeat(c, (std::string("python-") + name).c_str(), 8, [&](int i) { f(i); }, [&] { collect(); });
}

int main(int argc, char** argv) {
  setenv("PYTHONMALLOC", "malloc", 1);
  setenv("OPENBLAS_NUM_THREADS", "1", 0);
  reg::Quiet quiet;
  pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS);
  PyImport_AppendInittab("small_gicp", PyInit_small_gicp);
  py::scoped_interpreter guard(false);
  return vf::main_loop(argc, argv, [](Case& c) {
    static const char* names[] = {"searches", "preprocessing", "helper", "registrations", "map-points", "map-gaussian", "map-all", "pcl", "files", "python", "python", "python"};
    const int k = c.idx % 12;
    c.describe("%s", names[k]); c.nontrivial(); c.sig(c.idx);
    try {
      switch (k) {
        case 0: searches(c); break;
        case 1: preprocessing(c); break;
        case 2: helper(c); break;
        case 3: registrations(c); break;
        case 4: stream<IncrementalVoxelMap<FlatContainerPoints>>(c, "points"); break;
        case 5: stream<GaussianVoxelMap>(c, "gaussian"); break;
        case 6: stream<IncrementalVoxelMap<FlatContainerNormalCov>>(c, "normals-covs"); break;
        case 7: pcl_interface(c); break;
        case 8: files(c); break;
        default: python(c);
      }
    } catch (const py::error_already_set& e) { c.fail("python-exception", "unexpected Python exception: %s", e.what()); }
  });
}
