// C26: odometry engines return one pose per scan, in order, equal to the composition of the estimated motions.
#include "reg.hpp"
#include <atomic>
#include <thread>
#include <fstream>
#include <filesystem>
#include <small_gicp/benchmark/benchmark_odom.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/pcl/pcl_registration.hpp>
#include <small_gicp/pcl/pcl_registration_impl.hpp>
using namespace reg;
using vf::Case;
typedef std::vector<Eigen::Isometry3d> Traj;
typedef std::vector<std::shared_ptr<PointCloud>> Scans;

// ---- delay injection: allocations made by the engines are schedule points ------------------------------------
static std::atomic<unsigned> g_delay{0};  // one allocation in g_delay sleeps
static std::atomic<uint64_t> g_delayed{0};
#ifndef VF_ASAN
static void maybe_delay() {
  const unsigned d = g_delay.load(std::memory_order_relaxed);
  if (!d) return;
  static thread_local uint64_t s = vf::mix64((uint64_t)(uintptr_t)&s ^ (uint64_t)clock());
  s = s * 6364136223846793005ull + 1442695040888963407ull;
  if ((s >> 33) % d == 0) { g_delayed++; usleep((s >> 20) % 1500); }
}
static void* alloc(size_t n, size_t al = 16) { maybe_delay(); void* p = nullptr; if (posix_memalign(&p, al < 16 ? 16 : al, n ? n : 1)) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void* operator new(size_t n, std::align_val_t a) { return alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return alloc(n, (size_t)a); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
#endif

enum Family { F2F, VOX, MODEL, VMODEL, PCLGICP };
struct Engine { const char* name; Family f; };
static const Engine ENGINES[] = {{"small_gicp", F2F}, {"small_gicp_omp", F2F}, {"small_gicp_tbb", F2F}, {"small_gicp_tbb_flow", F2F}, {"small_vgicp_omp", VOX}, {"small_vgicp_tbb", VOX},
                                 {"small_gicp_model_omp", MODEL}, {"small_gicp_model_tbb", MODEL}, {"small_vgicp_model_omp", VMODEL}, {"small_vgicp_model_tbb", VMODEL}, {"small_gicp_pcl", PCLGICP}};

static pcl::PointCloud<pcl::PointXYZ>::Ptr to_pcl(const PointCloud& p) {
  auto o = pcl::make_shared<pcl::PointCloud<pcl::PointXYZ>>(); o->resize(p.size());
  for (size_t i = 0; i < p.size(); i++) o->at(i).getVector4fMap() = p.point(i).cast<float>();
  return o;
}
// ---- reference pipelines composed from the sequential core -----------------------------------------------------
static Traj reference(Family f, const Scans& scans, const OdometryEstimationParams& p) {
  Traj traj;
  Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
  std::shared_ptr<PointCloud> last; std::shared_ptr<KdTree<PointCloud>> last_tree; std::shared_ptr<GaussianVoxelMap> last_map;
  std::shared_ptr<IncrementalVoxelMap<FlatContainerCov>> model; std::shared_ptr<GaussianVoxelMap> vmodel;
  for (size_t i = 0; i < scans.size(); i++) {
    auto pts = voxelgrid_sampling(*scans[i], p.downsampling_resolution);
    if (f == PCLGICP) for (size_t j = 0; j < pts->size(); j++) pts->point(j) = pts->point(j).cast<float>().cast<double>().eval();
    auto tree = std::make_shared<KdTree<PointCloud>>(pts);
    estimate_covariances(*pts, *tree, p.num_neighbors);
    Registration<GICPFactor, SerialReduction> rg;
    if (f == F2F || f == VOX) rg.rejector.max_dist_sq = p.max_correspondence_distance * p.max_correspondence_distance;
    if (f == F2F || f == PCLGICP) {
      if (last) {
        if (f == PCLGICP) {  // the engine's settings on a fresh object for every pair (C18 ties that object to the core)
          small_gicp::RegistrationPCL<pcl::PointXYZ, pcl::PointXYZ> g;
          g.setCorrespondenceRandomness(p.num_neighbors); g.setMaxCorrespondenceDistance(p.max_correspondence_distance); g.setNumThreads(1);
          g.setInputTarget(to_pcl(*last)); g.setInputSource(to_pcl(*pts));
          pcl::PointCloud<pcl::PointXYZ> out; g.align(out);
          T = T * Eigen::Isometry3d(g.getFinalTransformation().cast<double>());
        } else T = T * rg.align(*last, *pts, *last_tree, Eigen::Isometry3d::Identity()).T_target_source;
      }
      last = pts; last_tree = tree;
    } else if (f == VOX) {
      auto vm = std::make_shared<GaussianVoxelMap>(p.voxel_resolution); vm->insert(*pts);
      if (last) T = T * rg.align(*last_map, *pts, *last_map, Eigen::Isometry3d::Identity()).T_target_source;
      last = pts; last_map = vm;
    } else if (f == MODEL) {
      if (model) T = rg.align(*model, *pts, *model, T).T_target_source; else model = std::make_shared<IncrementalVoxelMap<FlatContainerCov>>(p.voxel_resolution);
      model->insert(*pts, T);
    } else {
      if (vmodel) T = rg.align(*vmodel, *pts, *vmodel, T).T_target_source; else vmodel = std::make_shared<GaussianVoxelMap>(p.voxel_resolution);
      vmodel->insert(*pts, T);
    }
    traj.push_back(T);
  }
  return traj;
}
static Scans jitter(const Scans& s, vf::Rng& r, double e) {
  Scans o;
  for (auto& c : s) { auto n = std::make_shared<PointCloud>(); n->resize(c->size()); for (size_t i = 0; i < c->size(); i++) { n->point(i) = c->point(i); for (int k = 0; k < 3; k++) n->point(i)[k] += e * r.real(-1, 1); } o.push_back(n); }
  return o;
}
static double worst(const Traj& a, const Traj& b) {
  double w = 0;
  for (size_t i = 0; i < std::min(a.size(), b.size()); i++) {
    if (!a[i].matrix().allFinite() || !b[i].matrix().allFinite()) return 1e300;
    w = std::max(w, (a[i].matrix() - b[i].matrix()).norm());
  }
  return w;
}

static Scans copy_ptrs(const Scans& s) { return s; }
struct Ran { Traj traj; uint64_t out_of_order = 0; };
static Ran run_engine(const char* name, const OdometryEstimationParams& p, const Scans& scans, bool watch) {
  Ran r;
  auto e = create_odometry(name, p);
  if (!e) return r;
  Scans arg = copy_ptrs(scans);
  if (!watch) { r.traj = e->estimate(arg); return r; }
  // watch the order in which the pipeline lets go of the raw scans (i.e. finishes downsampling them)
  std::atomic<bool> stop{false};
  std::vector<size_t> order; std::vector<char> seen(scans.size(), 0), done(scans.size(), 0);
  std::vector<long> base(scans.size()); for (size_t i = 0; i < scans.size(); i++) base[i] = scans[i].use_count();
  std::thread w([&] { while (!stop) { for (size_t i = 0; i < scans.size(); i++) { const long u = scans[i].use_count(); if (u > base[i]) seen[i] = 1; else if (seen[i] && !done[i]) { done[i] = 1; order.push_back(i); } } std::this_thread::yield(); } });
  r.traj = e->estimate(arg);
  stop = true; w.join();
  for (size_t i = 0; i + 1 < order.size(); i++) r.out_of_order += order[i] > order[i + 1];
  return r;
}

struct Sequence { Scans scans; Traj gt; bool empty_scan = false; const char* kind; };
#ifdef VF_ASAN
static const bool SMALL = true;   // sanitizer flavour: memory safety over small sequences
#else
static const bool SMALL = false;
#endif
static Sequence make_sequence(vf::Rng& r) {
  Sequence s;
  const int kind = r.u(12);
  size_t n = SMALL ? r.pick({2, 3}) : r.pick({2, 3, 4, 6, 8, 10});
  s.kind = "track";
  if (kind == 0) { n = r.u(2); s.kind = n ? "one-scan" : "no-scan"; }
  if (kind == 1) { s.kind = "empty-scan"; s.empty_scan = true; }
  const size_t world_n = SMALL ? 1000 : r.pick({6000, 10000, 14000});
  vf::Rng wr(r.next());
  vf::Pts world = vf::gen_scene(wr, world_n, 8.0, 0.0);
  Eigen::Isometry3d T = r.coin() ? Eigen::Isometry3d::Identity() : r.iso(1.0, 3.0);
  T.translation().z() += 1.0;
  Eigen::Isometry3d step = Eigen::Isometry3d::Identity();
  for (size_t i = 0; i < n; i++) {
    auto pc = std::make_shared<PointCloud>();
    const double keep = r.pick({0.25, 0.5, 0.8, 0.8});
    std::vector<Eigen::Vector4d> p;
    if (!(s.empty_scan && i == n / 2))
      for (auto& w : world) if (r.coin(keep)) { Eigen::Vector3d v = T.inverse() * Eigen::Vector3d(w.head<3>()) + 0.005 * Eigen::Vector3d(r.normal(), r.normal(), r.normal()); p.push_back(vf::P(v)); }
    pc->resize(p.size());
    for (size_t j = 0; j < p.size(); j++) pc->point(j) = p[j];
    s.scans.push_back(pc);
    s.gt.push_back(T);
    if (i == 0 || r.coin(0.5)) { step = r.iso(0.03, 0.25); }
    T = T * step;
  }
  if (!s.gt.empty()) { const Eigen::Isometry3d T0 = s.gt[0].inverse(); for (auto& g : s.gt) g = T0 * g; }
  return s;
}

static bool g_flow_ran = false;   // has the flow engine handled a scan in this process?
static void judge(Case& c, const char* name, const char* how, const Sequence& s, Traj& t, const Traj* ref, double tol) {
  c.count("runs"); c.count("poses", t.size()); c.count(std::string("runs_") + how);
  const std::string key = std::string(name) + "-" + how;
  if (!c.check(t.size() == s.scans.size(), "count-" + key, "%s (%s): %zu poses for %zu scans", name, how, t.size(), s.scans.size())) return;
  if (t.empty()) return;
  if (std::string(name) == "small_gicp_tbb_flow") {
    if (g_flow_ran && (t[0].matrix() - Eigen::Matrix4d::Identity()).norm() != 0.0) {
      // finding: its first scan is paired with the last scan of an earlier run; the rest is judged relative to the first pose
      c.fail("flow-first-pose-after-earlier-run", "%s: first pose is not the identity in a run after an earlier run in the same process", name);
      const Eigen::Isometry3d inv = t[0].inverse(); for (auto& x : t) x = inv * x; t[0] = Eigen::Isometry3d::Identity();
    }
    g_flow_ran = true;
  }
  c.check((t[0].matrix() - Eigen::Matrix4d::Identity()).norm() == 0.0, "first-" + key, "%s (%s): first pose is not the identity (|T-I|=%.6g)", name, how, (t[0].matrix() - Eigen::Matrix4d::Identity()).norm());
  for (size_t i = 0; i < t.size(); i++) if (!c.check(is_rigid(t[i], 1e-4), "rigid-" + key, "%s (%s): pose %zu is not a rigid transformation", name, how, i)) return;
  if (ref) { const double d = worst(t, *ref); c.count("trajectories_compared"); c.maxi(tol < 1e-5 ? "max_reference_deviation" : "max_reference_deviation_pcl", d); c.check(d <= tol, "reference-" + key, "%s (%s): trajectory differs from the composed sequential pipeline by %.6g", name, how, d); }
}

static void kitti(Case& c) {
  vf::Rng& r = c.rng;
  namespace fs = std::filesystem;
  const fs::path d = fs::path(vf::G().tmpdir) / ("k" + std::to_string(c.idx));
  fs::create_directories(d);
  const size_t n = r.u(12);
  std::vector<std::pair<std::string, std::vector<Eigen::Vector4f>>> files;
  for (size_t i = 0; i < n; i++) {
    char b[32]; snprintf(b, sizeof b, "%06llu.bin", (unsigned long long)r.u(1000000));
    std::vector<Eigen::Vector4f> p(r.u(50)); for (auto& v : p) v = Eigen::Vector4f(r.real(-50, 50), r.real(-50, 50), r.real(-5, 5), r.real());
    bool dup = false; for (auto& f : files) dup |= f.first == b; if (dup) continue;
    files.push_back({b, p});
    std::ofstream o(d / b, std::ios::binary); o.write((const char*)p.data(), 16 * p.size());
  }
  for (const char* x : {"notes.txt", "000000.ply", "bin"}) if (r.coin()) { std::ofstream o(d / x); o << "not a scan"; }
  std::sort(files.begin(), files.end(), [](auto& a, auto& b) { return a.first < b.first; });
  const size_t lim = r.coin() ? 1000000 : r.u(n + 2);
  if (files.size() > lim) files.resize(lim);
  KittiDataset k(d.string(), lim);
  c.count("datasets");
  if (c.check(k.points.size() == files.size(), "kitti-count", "%zu scans for %zu files (limit %zu)", k.points.size(), files.size(), lim)) {
    for (size_t i = 0; i < files.size(); i++) {
      bool same = k.points[i].size() == files[i].second.size();
      // read_points documents the homogeneous coordinate: the fourth stored value is replaced by 1
      for (size_t j = 0; same && j < k.points[i].size(); j++) same = k.points[i][j].head<3>() == files[i].second[j].head<3>();
      c.check(same, "kitti-order", "scan %zu does not hold the content of %s", i, files[i].first.c_str());
    }
    const auto before = k.points; const bool rel = r.coin();
    auto conv = k.convert<PointCloud>(rel);
    c.check(conv.size() == before.size(), "kitti-convert-count", "%zu converted of %zu", conv.size(), before.size());
    for (size_t i = 0; i < std::min(conv.size(), before.size()); i++) {
      bool same = conv[i] && conv[i]->size() == before[i].size();
      for (size_t j = 0; same && j < before[i].size(); j++) same = conv[i]->point(j) == before[i][j].cast<double>();
      c.check(same, "kitti-convert", "converted scan %zu differs", i);
    }
    if (!rel) c.check(k.points.size() == before.size(), "kitti-release", "points released although not asked");
  }
  fs::remove_all(d);
}

static void run(Case& c) {
  vf::Rng& r = c.rng;
  Quiet q;
  // registry
  auto names = odometry_names();
  for (auto& e : ENGINES) c.check(std::count(names.begin(), names.end(), std::string(e.name)) == 1, "registered", "engine %s registered %d times", e.name, (int)std::count(names.begin(), names.end(), std::string(e.name)));
  for (auto n : {std::string("small_gic"), std::string("small_gicp_"), std::string(""), std::string("SMALL_GICP"), std::string("small_gicp "), std::string("gicp"), std::string("no such engine")})
    if (std::count(names.begin(), names.end(), n) == 0) c.check(create_odometry(n, OdometryEstimationParams()) == nullptr, "unknown", "unknown engine name '%s' gives an engine", n.c_str());
  kitti(c);
  {  // names registered at run time are found, and give what was registered
    struct Probe : OdometryEstimation { double tag; Probe(const OdometryEstimationParams& p, double t) : OdometryEstimation(p), tag(t) {} Traj estimate(std::vector<PointCloud::Ptr>&) override { return {}; } double v() const { return params.voxel_resolution; } };
    const size_t before = names.size();
    const std::string a = "probe_" + std::to_string(c.idx) + "_a", b = "probe_" + std::to_string(c.idx) + "_b";
    register_odometry(a, [](const OdometryEstimationParams& p) { return std::make_shared<Probe>(p, 1); });
    register_odometry(b, [](const OdometryEstimationParams& p) { return std::make_shared<Probe>(p, 2); });
    OdometryEstimationParams pp; pp.voxel_resolution = r.real();
    auto pa = std::dynamic_pointer_cast<Probe>(create_odometry(a, pp)), pb = std::dynamic_pointer_cast<Probe>(create_odometry(b, pp));
    c.check(pa && pb && pa->tag == 1 && pb->tag == 2 && pa->v() == pp.voxel_resolution, "registry", "engines registered under %s/%s are not found under their names", a.c_str(), b.c_str());
    const auto now = odometry_names();
    c.check(now.size() == before + 2 && std::count(now.begin(), now.end(), a) == 1 && std::count(now.begin(), now.end(), b) == 1, "registry-names", "names registered at run time are not listed");
  }

  Sequence s = make_sequence(r);
  OdometryEstimationParams p;
  p.num_threads = r.pick({1, 2, 3, 4, 8});
  p.num_neighbors = r.pick({10, 15, 20, 30});
  p.downsampling_resolution = r.pick({0.25, 0.35, 0.5});
  p.voxel_resolution = r.pick({0.8, 1.0, 1.5});
  p.max_correspondence_distance = r.pick({0.8, 1.0, 2.0});
  c.describe("%s scans=%zu pts=%zu thr=%d k=%d ds=%g vox=%g maxd=%g", s.kind, s.scans.size(), s.scans.empty() ? 0 : s.scans[0]->size(), p.num_threads, p.num_neighbors, p.downsampling_resolution, p.voxel_resolution, p.max_correspondence_distance);
  c.sig(c.idx);
  c.count(std::string("sequences_") + s.kind);
  c.nontrivial();

  const bool thin = !c.thorough && r.coin(0.5);
  std::map<int, Traj> refs; std::map<int, bool> stable; std::map<int, bool> have;
  auto get_ref = [&](Family f) {
    if (have[f]) return;
    have[f] = true;
    refs[f] = reference(f, s.scans, p);
    stable[f] = true;
    for (int k = 0; k < (SMALL ? 1 : 2) && stable[f]; k++) { vf::Rng jr(r.next()); stable[f] = worst(refs[f], reference(f, jitter(s.scans, jr, 1e-12), p)) < (f == PCLGICP ? 1e-4 : 1e-7); }
    if (!stable[f]) c.count("rounding_sensitive_sequences");
  };
  for (auto& e : ENGINES) {
    if (e.f == PCLGICP && s.empty_scan) continue;
    if (thin && r.coin(0.4)) continue;
    get_ref(e.f);
    const bool flow = std::string(e.name) == "small_gicp_tbb_flow";
    g_delay = r.pick({0u, 0u, 30u, 200u});
    Ran t = run_engine(e.name, p, s.scans, flow);
    g_delay = 0;
    c.count(std::string("engine_") + e.name);
    if (flow) { c.count("pipeline_reorderings", t.out_of_order); if (t.out_of_order) c.count("reordered_pipeline_runs"); }
    judge(c, e.name, "single", s, t.traj, stable[e.f] ? &refs[e.f] : nullptr, e.f == PCLGICP ? 2e-4 : 1e-6);
    if (!SMALL && std::string(s.kind) == "track" && t.traj.size() == s.gt.size()) {
      double dt = 0, dr = 0;
      for (size_t i = 0; i < s.gt.size(); i++) { dt = std::max(dt, trans_diff(t.traj[i], s.gt[i])); dr = std::max(dr, rot_diff(t.traj[i], s.gt[i])); }
      c.count("tracks_checked");
      c.maxi(std::string("max_drift_m_") + e.name, dt); c.maxi(std::string("max_drift_rad_") + e.name, dr);
      c.check(dt <= 0.06 + 0.015 * s.gt.size() && dr <= 0.012 + 0.003 * s.gt.size(), std::string("drift-") + e.name, "%s drifts by %.4f m / %.4f rad over %zu scans", e.name, dt, dr, s.gt.size());
    }
  }
  // several instances in one process, one after the other and at the same time
  std::vector<const Engine*> pool;
  for (auto& e : ENGINES) if (e.f != PCLGICP || !s.empty_scan) pool.push_back(&e);
  {
    const Engine* e = r.coin(0.4) ? pool[3] : r.pick(pool);
    get_ref(e->f);
    for (int k = 0; k < 2; k++) { Traj t = run_engine(e->name, p, s.scans, false).traj; judge(c, e->name, "again", s, t, stable[e->f] ? &refs[e->f] : nullptr, e->f == PCLGICP ? 2e-4 : 1e-6); }
  }
  if (r.coin(0.5)) {
    const Engine* e[2] = {r.coin(0.4) ? pool[3] : r.pick(pool), r.coin(0.4) ? pool[3] : r.pick(pool)};
    while (e[0] == pool[3] && e[1] == pool[3]) e[1] = r.pick(pool);   // (concurrent flow engines: see the finding above)
    OdometryEstimationParams p2 = p; p2.num_threads = r.pick({1, 2, 4});
    Traj out[2];
    for (int k = 0; k < 2; k++) get_ref(e[k]->f);
    g_delay = r.pick({0u, 50u});
    std::thread a([&] { out[0] = run_engine(e[0]->name, p, s.scans, false).traj; });
    std::thread b([&] { out[1] = run_engine(e[1]->name, p2, s.scans, false).traj; });
    a.join(); b.join();
    g_delay = 0;
    for (int k = 0; k < 2; k++) judge(c, e[k]->name, "concurrent", s, out[k], stable[e[k]->f] ? &refs[e[k]->f] : nullptr, e[k]->f == PCLGICP ? 2e-4 : 1e-6);
  }
  c.count("injected_delays", g_delayed.exchange(0));
}
int main(int argc, char** argv) { return vf::main_loop(argc, argv, run); }
