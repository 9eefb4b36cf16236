// A world of clouds, trees, maps and registration objects, and some 40 operations over it with comparable results.
#pragma once
#include "reg.hpp"
#include <small_gicp/ann/projective_search.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
#include <small_gicp/registration/registration_helper.hpp>
using namespace reg;
using vf::Case;

enum Mode { EXACT, CLOSE, POINTS, POSE };
struct Out { std::vector<double> v; };
struct Op { const char* name; Mode mode; std::function<Out()> f; };

static void put(Out& o, const Eigen::Isometry3d& T) { for (int i = 0; i < 16; i++) o.v.push_back(T.matrix().data()[i]); }
static Out of_result(const RegistrationResult& r) {
  Out o; put(o, r.T_target_source);
  o.v.push_back(r.num_inliers); o.v.push_back(r.iterations); o.v.push_back(r.converged); o.v.push_back(r.error);
  for (int i = 0; i < 36; i++) o.v.push_back(r.H.data()[i]);
  for (int i = 0; i < 6; i++) o.v.push_back(r.b.data()[i]);
  return o;
}
static Out of_points(const PointCloud& p) { Out o; for (size_t i = 0; i < p.size(); i++) for (int k = 0; k < 4; k++) o.v.push_back(p.point(i)[k]); return o; }
static Out of_features(const PointCloud& p) { Out o; for (size_t i = 0; i < p.size(); i++) { for (int k = 0; k < 4; k++) o.v.push_back(p.normal(i)[k]); for (int k = 0; k < 16; k++) o.v.push_back(p.cov(i).data()[k]); } return o; }

// How far two results are apart in the sense of the operation (0: same).
static double apart(Mode m, const Out& a, const Out& b) {
  if (a.v.size() != b.v.size()) return 1e300;
  if (m == EXACT) { for (size_t i = 0; i < a.v.size(); i++) if (memcmp(&a.v[i], &b.v[i], 8)) return 1e300; return 0; }
  double w = 0;
  if (m == POINTS) {
    std::vector<char> used(a.v.size() / 4, 0);
    for (size_t i = 0; i + 3 < a.v.size(); i += 4) {
      double best = 1e300; size_t bj = 0;
      for (size_t j = 0; j + 3 < b.v.size(); j += 4) if (!used[j / 4]) { double d = 0; for (int k = 0; k < 4; k++) d = std::max(d, std::abs(a.v[i + k] - b.v[j + k])); if (d < best) { best = d; bj = j; } }
      if (best < 1e300) used[bj / 4] = 1;
      w = std::max(w, best);
    }
    return w;
  }
  const size_t n = m == POSE ? std::min<size_t>(17, a.v.size()) : a.v.size();
  for (size_t i = 0; i < n; i++) {
    if (std::isnan(a.v[i]) && std::isnan(b.v[i])) continue;
    const double d = std::abs(a.v[i] - b.v[i]) / (1 + std::abs(a.v[i]));
    if (!(d <= w)) w = std::isnan(d) ? 1e300 : d;
  }
  return w;
}
static double tol(Mode m) { return m == EXACT ? 0 : m == POSE ? 1e-6 : 1e-9; }

struct World {
  std::vector<Eigen::Vector4d> raw_t, raw_s;
  std::shared_ptr<PointCloud> target, source;
  std::shared_ptr<KdTree<PointCloud>> tree;
  std::shared_ptr<KdTree<PointCloud, NormalProjection>> ntree;
  std::unique_ptr<UnsafeKdTree<PointCloud>> utree;
  std::shared_ptr<GaussianVoxelMap> gmap;
  IncrementalVoxelMap<FlatContainerPoints> pmap{0.7};
  IncrementalVoxelMap<FlatContainerNormal> nmap{0.7};
  IncrementalVoxelMap<FlatContainerCov> cmap{0.7};
  IncrementalVoxelMap<FlatContainerNormalCov> ncmap{0.7};
  std::unique_ptr<ProjectiveSearch<PointCloud>> proj;
  Eigen::Isometry3d init;
};

template <typename Tree> static Out searches(const Tree& t, uint64_t seed, const std::vector<Eigen::Vector4d>& near, size_t n, int k) {
  vf::Rng r(seed); Out o;
  for (size_t i = 0; i < n; i++) {
    Eigen::Vector4d q = near.empty() ? vf::P(r.vec3(5)) : near[r.u(near.size())];
    if (r.coin()) q.head<3>() += r.vec3(0.5);
    std::vector<size_t> idx(k, 0); std::vector<double> d(k, 0);
    size_t m = traits::knn_search(t, q, k, idx.data(), d.data());
    o.v.push_back(m); for (size_t j = 0; j < m; j++) { o.v.push_back(idx[j]); o.v.push_back(d[j]); }
    size_t one; double d1; m = traits::nearest_neighbor_search(t, q, &one, &d1);
    o.v.push_back(m); if (m) { o.v.push_back(one); o.v.push_back(d1); }
  }
  return o;
}

template <bool VOX, typename RegT> static Op align_op(const char* name, const World& w, std::shared_ptr<RegT> rg, bool serial) {
  return {name, serial ? EXACT : POSE, [&w, rg] {
            if constexpr (VOX) return of_result(rg->align(*w.gmap, *w.source, *w.gmap, w.init));
            else return of_result(rg->align(*w.target, *w.source, *w.tree, w.init));
          }};
}
template <typename RegT> static std::shared_ptr<RegT> mk(vf::Rng& r) { auto g = std::make_shared<RegT>(); g->rejector.max_dist_sq = r.pick({1.0, 4.0}); g->optimizer.max_iterations = r.pick({3, 8, 20}); return g; }

static std::vector<Op> make_ops(const World& w, vf::Rng& r) {
  std::vector<Op> ops;
  auto add = [&](const char* n, Mode m, std::function<Out()> f) { ops.push_back({n, m, std::move(f)}); };
  const uint64_t s = r.next();
  const int k = r.pick({1, 5, 20, 40});
  const size_t nq = r.pick({5, 30});
  add("kdtree-search", EXACT, [&w, s, k, nq] { return searches(*w.tree, s, w.raw_t, nq, k); });
  add("kdtree-normal-projection-search", EXACT, [&w, s, k, nq] { return searches(*w.ntree, s, w.raw_t, nq, k); });
  add("unsafe-kdtree-search", EXACT, [&w, s, k, nq] { return searches(*w.utree, s, w.raw_t, nq, k); });
  add("voxelmap-points-search", EXACT, [&w, s, k, nq] { return searches(w.pmap, s, w.raw_t, nq, k); });
  add("voxelmap-normal-search", EXACT, [&w, s, k, nq] { return searches(w.nmap, s, w.raw_t, nq, k); });
  add("voxelmap-cov-search", EXACT, [&w, s, k, nq] { return searches(w.cmap, s, w.raw_t, nq, k); });
  add("voxelmap-normalcov-search", EXACT, [&w, s, k, nq] { return searches(w.ncmap, s, w.raw_t, nq, k); });
  add("gaussian-voxelmap-search", EXACT, [&w, s, nq] { return searches(*w.gmap, s, w.raw_t, nq, 1); });
  add("projective-search", EXACT, [&w, s, k, nq] { return searches(*w.proj, s, w.raw_t, nq, k); });
  add("voxelmap-attributes", EXACT, [&w] {
    Out o; o.v.push_back(traits::size(w.ncmap)); for (auto& p : traits::voxel_points(w.ncmap)) for (int i = 0; i < 4; i++) o.v.push_back(p[i]);
    for (auto& p : traits::voxel_normals(w.ncmap)) o.v.push_back(p[0]);
    for (auto& p : traits::voxel_covs(w.ncmap)) o.v.push_back(p(0, 1));
    o.v.push_back(traits::size(*w.gmap)); for (auto& p : traits::voxel_points(*w.gmap)) o.v.push_back(p[1]);
    return o;
  });
  typedef LevenbergMarquardtOptimizer LM; typedef GaussNewtonOptimizer GN;
  const int nt = r.pick({1, 2, 3, 4});
  ops.push_back(align_op<false>("align-gicp", w, mk<Registration<GICPFactor, SerialReduction>>(r), true));
  ops.push_back(align_op<false>("align-icp-gn", w, mk<Registration<ICPFactor, SerialReduction, NullFactor, DistanceRejector, GN>>(r), true));
  ops.push_back(align_op<false>("align-plane", w, mk<Registration<PointToPlaneICPFactor, SerialReduction>>(r), true));
  ops.push_back(align_op<true>("align-vgicp", w, mk<Registration<GICPFactor, SerialReduction>>(r), true));
  { auto g = mk<Registration<RobustFactor<Huber, GICPFactor>, SerialReduction, RestrictDoFFactor>>(r); g->general_factor.set_rotation_mask(Eigen::Array3d(0, 0, 1)); ops.push_back(align_op<false>("align-huber-restricted", w, g, true)); }
  { auto g = mk<Registration<GICPFactor, ParallelReductionOMP>>(r); g->reduction.num_threads = nt; ops.push_back(align_op<false>("align-gicp-omp", w, g, false)); }
  { auto g = mk<Registration<RobustFactor<Cauchy, ICPFactor>, ParallelReductionOMP>>(r); g->reduction.num_threads = nt; ops.push_back(align_op<false>("align-cauchy-omp", w, g, false)); }
  { auto g = mk<Registration<GICPFactor, ParallelReductionOMP>>(r); g->reduction.num_threads = nt; ops.push_back(align_op<true>("align-vgicp-omp", w, g, false)); }
  ops.push_back(align_op<false>("align-gicp-tbb", w, mk<Registration<GICPFactor, ParallelReductionTBB>>(r), false));
  ops.push_back(align_op<false>("align-plane-tbb", w, mk<Registration<PointToPlaneICPFactor, ParallelReductionTBB, NullFactor, DistanceRejector, GN>>(r), false));
  // features: into a copy of the shared cloud, over the shared tree
  const int kn = r.pick({6, 10, 20});
  add("features-shared-tree", EXACT, [&w, kn] { PointCloud c(*w.target); estimate_normals_covariances(c, *w.tree, kn); return of_features(c); });
  add("features-own-tree", EXACT, [&w, kn] { PointCloud c(*w.source); estimate_covariances(c, kn); return of_features(c); });
  add("normals-omp", CLOSE, [&w, kn, nt] { PointCloud c(*w.target); estimate_normals_omp(c, *w.tree, kn, nt); return of_features(c); });
  add("features-tbb", CLOSE, [&w, kn] { PointCloud c(*w.target); estimate_normals_covariances_tbb(c, *w.tree, kn); return of_features(c); });
  const double leaf = r.pick({0.3, 0.7, 1.5});
  add("downsample", EXACT, [&w, leaf] { return of_points(*voxelgrid_sampling(*w.target, leaf)); });
  add("downsample-omp", POINTS, [&w, leaf, nt] { return of_points(*voxelgrid_sampling_omp(*w.target, leaf, nt)); });
  add("downsample-tbb", POINTS, [&w, leaf] { return of_points(*voxelgrid_sampling_tbb(*w.target, leaf)); });
  add("random-sampling", EXACT, [&w, s] { std::mt19937 g((unsigned)s); return of_points(*random_sampling(*w.target, w.target->size() / 3, g)); });
  // building own structures over shared clouds
  add("build-tree", EXACT, [&w, s, k, nq] { KdTree<PointCloud> t(w.target); return searches(t, s, w.raw_t, nq, k); });
  add("build-tree-omp", EXACT, [&w, s, nq, nt] { UnsafeKdTree<PointCloud> t(*w.target, KdTreeBuilderOMP(nt)); return searches(t, s, w.raw_t, nq, 1); });
  add("build-tree-tbb", EXACT, [&w, s, nq] { UnsafeKdTree<PointCloud> t(*w.target, KdTreeBuilderTBB()); return searches(t, s, w.raw_t, nq, 1); });
  add("build-voxelmap", EXACT, [&w, s, nq] { IncrementalVoxelMap<FlatContainerCov> m(0.5); m.insert(*w.target); m.insert(*w.source, w.init); return searches(m, s, w.raw_t, nq, 3); });
  add("build-gaussian-voxelmap", EXACT, [&w, s, nq] { GaussianVoxelMap m(0.5); m.insert(*w.target); m.insert(*w.source, w.init); return searches(m, s, w.raw_t, nq, 1); });
  add("build-projective", EXACT, [&w, s, nq] { ProjectiveSearch<PointCloud> m(64, 32, w.target); return searches(m, s, w.raw_t, nq, 3); });
  // the helper interface
  RegistrationSetting st; st.num_threads = nt; st.downsampling_resolution = 0.4; st.max_iterations = r.pick({5, 20}); st.type = r.pick({RegistrationSetting::ICP, RegistrationSetting::PLANE_ICP, RegistrationSetting::GICP});
  add("helper-align", POSE, [&w, st] { return of_result(align(*w.target, *w.source, *w.tree, w.init, st)); });
  RegistrationSetting vt = st; vt.type = RegistrationSetting::VGICP;
  add("helper-align-vgicp", POSE, [&w, vt] { return of_result(align(*w.gmap, *w.source, w.init, vt)); });
  RegistrationSetting rt = st; if (r.coin(0.3)) rt.type = RegistrationSetting::VGICP;
  add("helper-align-raw", POSE, [&w, rt] { return of_result(align(w.raw_t, w.raw_s, w.init, rt)); });
  add("helper-preprocess", POINTS, [&w, kn, nt] { auto [c, t] = preprocess_points(*w.target, 0.4, kn, nt); return of_points(*c); });
  return ops;
}

// Two equal worlds: one for the calls alone, one that is only ever used by the concurrent callers (so that anything
// filled in lazily on first use is filled in concurrently).
static void build(World& w, vf::Rng r, size_t n) {
  const vf::Pts all = vf::gen_scene(r, n, r.pick({2.5, 5.0}), 0.0);
  const Eigen::Isometry3d T = r.iso(0.1, 0.2);
  w.raw_t = all;
  for (auto& p : all) if (r.coin(0.8)) w.raw_s.push_back(vf::P(Eigen::Vector3d(T.inverse() * Eigen::Vector3d(p.head<3>()) + 0.005 * r.vec3(1))));
  w.target = std::make_shared<PointCloud>(w.raw_t); w.source = std::make_shared<PointCloud>(w.raw_s);
  estimate_normals_covariances(*w.target, 10); estimate_normals_covariances(*w.source, 10);
  switch (r.u(3)) { case 0: w.tree = std::make_shared<KdTree<PointCloud>>(w.target); break; case 1: w.tree = std::make_shared<KdTree<PointCloud>>(w.target, KdTreeBuilderOMP(2)); break; default: w.tree = std::make_shared<KdTree<PointCloud>>(w.target, KdTreeBuilderTBB()); }
  w.ntree = std::make_shared<KdTree<PointCloud, NormalProjection>>(w.target);
  w.utree = std::make_unique<UnsafeKdTree<PointCloud>>(*w.target);
  w.gmap = std::make_shared<GaussianVoxelMap>(1.0); w.gmap->set_search_offsets(r.pick({1, 7, 27})); w.gmap->insert(*w.target);
  w.pmap.insert(*w.target); w.nmap.insert(*w.target); w.cmap.insert(*w.target); w.ncmap.insert(*w.target);
  w.nmap.set_search_offsets(7); w.cmap.set_search_offsets(27); w.ncmap.set_search_offsets(27);
  w.proj = std::make_unique<ProjectiveSearch<PointCloud>>(90, 45, w.target);
  w.init = r.coin() ? Eigen::Isometry3d::Identity() : r.iso(0.05, 0.1);
}

