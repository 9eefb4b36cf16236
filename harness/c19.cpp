// C19: degenerate inputs through the whole public interface: no memory error, no undefined behaviour, no abort, and
// only documented kinds of answers.  The sanitizers and valgrind are the main oracle.
#include "reg.hpp"
#include <small_gicp/ann/projective_search.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/points/eigen.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
#include <small_gicp/util/sort_omp.hpp>
#include <small_gicp/util/sort_tbb.hpp>
#include <small_gicp/util/lie.hpp>
#include <small_gicp/registration/registration_helper.hpp>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/pcl/pcl_proxy.hpp>
#ifndef VF_NOPCL
#include <small_gicp/pcl/pcl_registration.hpp>
#include <small_gicp/pcl/pcl_registration_impl.hpp>
#endif
using namespace reg;
using vf::Case;

static const char* KINDS[] = {"empty", "single", "pair", "coincident", "two-places", "collinear", "axis-line", "coplanar", "axis-plane", "far", "very-far", "tiny", "mixed-scale", "duplicates", "lattice", "ordinary", "extreme", "zero"};
enum { EMPTY, SINGLE, PAIR, COINC, TWOPL, COLL, AXLINE, COPL, AXPL, FARK, VFAR, TINY, MIXED, DUP, LATT, ORD, EXTREME, ZERO, NKINDS };

static vf::Pts degenerate(vf::Rng& r, int k) {
  size_t n = r.pick({3, 4, 5, 9, 10, 11, 20, 21, 40, 60});
  if (r.coin(0.08)) n = r.pick({513, 700, 1025});
  vf::Pts p; const Eigen::Vector3d c = r.vec3(10);
  switch (k) {
    case EMPTY: return p;
    case SINGLE: return {vf::P(c)};
    case PAIR: return {vf::P(c), vf::P(Eigen::Vector3d(c + r.dir() * r.pick({0.0, 1e-9, 0.5, 100.0})))};
    case COINC: return vf::Pts(n, vf::P(c));
    case ZERO: return vf::Pts(n, vf::P(0, 0, 0));
    case TWOPL: { for (size_t i = 0; i < n; i++) p.push_back(vf::P(Eigen::Vector3d(c + (i % 2) * Eigen::Vector3d(1, 0, 0)))); return p; }
    case COLL: return vf::gen_cloud(r, n, vf::COLLINEAR);
    case AXLINE: return vf::gen_cloud(r, n, vf::AXISLINE);
    case COPL: return vf::gen_cloud(r, n, vf::PLANAR);
    case AXPL: { p = vf::gen_cloud(r, n, vf::UNIFORM); const int a = r.u(3); for (auto& q : p) q[a] = r.pick({0.0}) + 1.0; return p; }
    case FARK: return vf::gen_cloud(r, n, vf::FAR_AWAY);
    case VFAR: { const double s = r.pick({1e9, 2147483648.0, 1e12, 1e16}); p = vf::gen_cloud(r, n, vf::UNIFORM); for (auto& q : p) { q.head<3>() += s * Eigen::Vector3d(r.pick({-1, 0, 1}), r.pick({-1, 0, 1}), r.pick({-1, 0, 1})); } return p; }
    case TINY: return vf::gen_cloud(r, n, r.pick({(int)vf::UNIFORM, (int)vf::COLLINEAR}), r.pick({1e-8, 1e-150, 1e-300, 4e-320}));
    case MIXED: { for (size_t i = 0; i < n; i++) p.push_back(vf::P(Eigen::Vector3d(r.vec3(1) * std::pow(10.0, r.range(-12, 8))))); return p; }
    case DUP: return vf::gen_cloud(r, n, vf::DUPLICATES);
    case LATT: return vf::gen_cloud(r, n, vf::LATTICE);
    case EXTREME: { for (size_t i = 0; i < n; i++) p.push_back(vf::P(Eigen::Vector3d(r.vec3(1) * std::pow(10.0, r.pick({0, 18, 30, 100, 150, 200, 300}))))); return p; }
    default: return vf::gen_cloud(r, n, r.pick({(int)vf::UNIFORM, (int)vf::CLUSTERED, (int)vf::LIDAR}));
  }
}
static double extent(const vf::Pts& p) { double m = 0; for (auto& q : p) m = std::max(m, q.head<3>().cwiseAbs().maxCoeff()); return m; }

struct Ctx { Case& c; vf::Rng& r; bool sane; };  // sane: coordinates at most 1e6: also the answers are judged

static void judge_knn(Ctx& x, const char* what, size_t m, size_t k, const std::vector<size_t>& idx, const std::vector<double>& d, const std::function<bool(size_t)>& valid) {
  x.c.count("searches"); if (m == 0) x.c.count("nothing_found");
  if (!x.c.check(m <= k, std::string("knn-count-") + what, "%s: %zu found, %zu asked", what, m, k)) return;
  std::set<size_t> seen;
  for (size_t i = 0; i < m; i++) {
    x.c.check(valid(idx[i]), std::string("knn-index-") + what, "%s: answer %zu is not a point (%zu)", what, i, idx[i]);
    x.c.check(seen.insert(idx[i]).second, std::string("knn-dup-") + what, "%s: a point is answered twice", what);
    x.c.check(!std::isnan(d[i]) && d[i] >= 0 && (i == 0 || d[i - 1] <= d[i]), std::string("knn-dist-") + what, "%s: distance %g after %g", what, d[i], i ? d[i - 1] : 0.0);
  }
}
template <typename Tree> static void search(Ctx& x, const char* what, const Tree& t, const vf::Pts& near, size_t n, const std::function<bool(size_t)>& valid, bool knn = true) {
  for (int i = 0; i < 3; i++) {
    Eigen::Vector4d q = near.empty() || x.r.coin(0.2) ? vf::P(Eigen::Vector3d(x.r.vec3(1) * std::pow(10.0, x.r.pick({0, 0, 1, 9, 18, 150, -300})))) : near[x.r.u(near.size())];
    const size_t k = x.r.pick({(size_t)1, (size_t)2, (size_t)5, n + 1, n + 7, std::max<size_t>(n, 1)});
    std::vector<size_t> idx(k, 0); std::vector<double> d(k, 0.0);
    if (knn) judge_knn(x, what, traits::knn_search(t, q, k, idx.data(), d.data()), k, idx, d, valid);
    judge_knn(x, what, traits::nearest_neighbor_search(t, q, idx.data(), d.data()), 1, idx, d, valid);
  }
}
static void judge_pose(Ctx& x, const char* what, const RegistrationResult& r) {
  x.c.count("registrations"); x.c.count(r.num_inliers ? "registrations_with_inliers" : "registrations_without_inliers");
  if (!x.sane) return;
  x.c.check(r.T_target_source.matrix().allFinite(), std::string("pose-finite-") + what, "%s: pose is not finite (inliers %zu, iterations %zu, converged %d)", what, (size_t)r.num_inliers, (size_t)r.iterations, (int)r.converged);
  if (r.T_target_source.matrix().allFinite()) x.c.check(is_rigid(r.T_target_source, 1e-6), std::string("pose-rigid-") + what, "%s: pose is not rigid", what);
}
static void judge_points(Ctx& x, const char* what, const PointCloud& p, size_t n) {
  x.c.count("downsamplings");
  x.c.check(p.size() <= n, std::string("down-count-") + what, "%s: %zu points out of %zu", what, p.size(), n);
  if (x.sane) for (size_t i = 0; i < p.size(); i++) x.c.check(p.point(i).allFinite() && p.point(i)[3] == 1.0, std::string("down-finite-") + what, "%s: output point %zu = (%g %g %g %g)", what, i, p.point(i)[0], p.point(i)[1], p.point(i)[2], p.point(i)[3]);
}
static void judge_features(Ctx& x, const char* what, const PointCloud& p, bool normals, bool covs) {
  x.c.count("feature_estimations");
  if (!x.sane) return;
  for (size_t i = 0; i < p.size(); i++) {
    if (normals) x.c.check(p.normal(i).allFinite() && p.normal(i)[3] == 0.0, std::string("normal-") + what, "%s: normal %zu is not finite", what, i);
    if (covs) x.c.check(p.cov(i).allFinite(), std::string("cov-") + what, "%s: covariance %zu is not finite", what, i);
  }
}

template <typename F, typename Opt, typename Gen, typename TC, typename TT>
static void align_all(Ctx& x, const char* what, const TC& target, const PointCloud& source, const TT& tree, const Eigen::Isometry3d& init) {
  auto go = [&](auto red) {
    Registration<F, decltype(red), Gen, DistanceRejector, Opt> g;
    g.reduction = red;
    g.rejector.max_dist_sq = x.r.pick({1.0, 1e-12, 1e6, 1e300});
    g.optimizer.max_iterations = x.r.pick({1, 3, 10, 20});
    judge_pose(x, what, g.align(target, source, tree, init));
  };
  switch (x.r.u(3)) { case 0: go(SerialReduction()); break; case 1: { ParallelReductionOMP o; o.num_threads = x.r.pick({1, 2, 4}); go(o); break; } default: go(ParallelReductionTBB()); }
}
template <typename F, typename TC, typename TT> static void align_f(Ctx& x, const char* what, const TC& t, const PointCloud& s, const TT& tree, const Eigen::Isometry3d& init) {
  if (x.r.coin()) align_all<F, LevenbergMarquardtOptimizer, NullFactor>(x, what, t, s, tree, init);
  else align_all<F, GaussNewtonOptimizer, NullFactor>(x, what, t, s, tree, init);
}

template <typename Contents> static void voxelmap(Ctx& x, const char* what, const PointCloud& a, const PointCloud& b, const vf::Pts& near, double leaf) {
  IncrementalVoxelMap<Contents> m(leaf);
  m.lru_horizon = x.r.pick({1, 2, 100}); m.lru_clear_cycle = x.r.pick({1, 2, 10});
  if constexpr (!std::is_same<Contents, GaussianVoxel>::value) { m.voxel_setting.max_num_points_in_cell = x.r.pick({1, 2, 10, 1000}); m.voxel_setting.min_sq_dist_in_cell = x.r.pick({0.0, 1e-4, 1e4}); }
  constexpr bool KNN = true;
  auto valid = [&](size_t i) { return m.voxel_id(i) < m.flat_voxels.size() && m.point_id(i) < traits::size(m.flat_voxels[m.voxel_id(i)]->second); };
  m.set_search_offsets(x.r.pick({1, 7, 27, 3}));
  search(x, what, m, near, 3, valid, KNN);  // empty map
  const int times = x.r.range(1, 4);
  for (int i = 0; i < times; i++) {
    const Eigen::Isometry3d T = x.r.coin() ? Eigen::Isometry3d::Identity() : x.r.iso(3.0, x.r.pick({1.0, 1e4, 1e12}));
    m.insert(x.r.coin() ? a : b, T);
  }
  search(x, what, m, near, 5, valid, KNN);
  x.c.count("map_histories");
  x.c.check(traits::voxel_points(m).size() <= 4 * (a.size() + b.size()), std::string("map-size-") + what, "%s holds more points than were inserted", what);
  if constexpr (std::is_same<Contents, FlatContainerNormalCov>::value || std::is_same<Contents, FlatContainerCov>::value || std::is_same<Contents, GaussianVoxel>::value) align_f<GICPFactor>(x, what, m, b, m, Eigen::Isometry3d::Identity());
  else align_f<ICPFactor>(x, what, m, b, m, Eigen::Isometry3d::Identity());
}

static void run(Case& c) {
  vf::Rng& r = c.rng;
  Quiet q;
  const int ka = r.u(NKINDS), kb = r.coin(0.4) ? ka : r.u(NKINDS);
  vf::Pts pa = degenerate(r, ka), pb = degenerate(r, kb);
  if (r.coin(0.1)) pb = pa;
  Ctx x{c, r, std::max(extent(pa), extent(pb)) <= 1e6};
  c.describe("%s(%zu) %s(%zu)", KINDS[ka], pa.size(), KINDS[kb], pb.size()); c.sig(c.idx);
  c.count(std::string("kind_") + KINDS[ka]); c.nontrivial();
  auto A = std::make_shared<PointCloud>(pa), B = std::make_shared<PointCloud>(pb);
  const size_t na = pa.size();
  const double leaf = r.pick({1e-6, 0.01, 0.5, 1.0, 100.0, 1e9});
  const int nt = r.pick({1, 2, 3, 4});
  auto in_a = [&](size_t i) { return i < na; };

  // features first (several operations below need them): every cloud gets defined normals and covariances
  const int k = r.pick({1, 2, 3, 4, 5, 10, 20, (int)na + 1, (int)na + 30});
  switch (r.u(6)) {
    case 0: estimate_normals_covariances(*A, k); break;
    case 1: { KdTree<PointCloud> t(A); estimate_normals(*A, t, k); estimate_covariances(*A, t, k); break; }
    case 2: estimate_normals_covariances_omp(*A, k, nt); break;
    case 3: { KdTree<PointCloud> t(A); estimate_normals_omp(*A, t, k, nt); estimate_covariances_omp(*A, t, k, nt); break; }
    case 4: estimate_normals_covariances_tbb(*A, k); break;
    default: { KdTree<PointCloud> t(A); estimate_normals_tbb(*A, t, k); estimate_covariances_tbb(*A, t, k); break; }
  }
  judge_features(x, "features", *A, true, true);
  estimate_normals_covariances(*B, r.pick({4, 10, 20}));
  judge_features(x, "features", *B, true, true);

  // trees
  {
    KdTreeBuilder b0; b0.max_leaf_size = r.pick({1, 2, 5, 20, 2000});
    KdTree<PointCloud> t(A, b0); search(x, "kdtree", t, pb.empty() ? pa : pb, na, in_a); search(x, "kdtree", t, pa, na, in_a);
    KdTreeBuilderOMP bo(nt); bo.max_leaf_size = r.pick({1, 2, 20}); UnsafeKdTree<PointCloud> to(*A, bo); search(x, "kdtree-omp", to, pa, na, in_a);
    KdTreeBuilderTBB bt; bt.max_leaf_size = r.pick({1, 2, 20}); UnsafeKdTree<PointCloud, NormalProjection> tt(*A, bt); search(x, "kdtree-tbb", tt, pb, na, in_a);
    KdTree<PointCloud, NormalProjection> tn(A); search(x, "kdtree-normal", tn, pa, na, in_a);
    KnnSetting ks; ks.epsilon = r.pick({0.0, 1e-3, 1e9});
    std::vector<size_t> idx(3, 0); std::vector<double> d(3, 0.0);
    if (na) judge_knn(x, "kdtree-early", t.knn_search(pa[0], 3, idx.data(), d.data(), ks), 3, idx, d, in_a);
    Eigen::MatrixXd em(na, 3); for (size_t i = 0; i < na; i++) em.row(i) = pa[i].head<3>().transpose();
    UnsafeKdTree<Eigen::MatrixXd> te(em); search(x, "kdtree-eigen", te, pa, na, in_a);
    ProjectiveSearch<PointCloud> ps(r.pick({1, 2, 64, 360}), r.pick({1, 3, 45}), A); search(x, "projective", ps, pb.empty() ? pa : pb, na, in_a); search(x, "projective", ps, pa, na, in_a);
    // registration against the tree
    const Eigen::Isometry3d init = r.coin() ? Eigen::Isometry3d::Identity() : r.iso(3.0, r.pick({0.1, 1e3, 1e6}));
    align_f<ICPFactor>(x, "icp", *A, *B, t, init);
    align_f<PointToPlaneICPFactor>(x, "plane", *A, *B, t, init);
    align_f<GICPFactor>(x, "gicp", *A, *B, t, init);
    align_f<RobustFactor<Huber, GICPFactor>>(x, "huber", *A, *B, t, init);
    align_f<RobustFactor<Cauchy, ICPFactor>>(x, "cauchy", *A, *B, t, init);
    align_all<GICPFactor, LevenbergMarquardtOptimizer, RestrictDoFFactor>(x, "restricted", *A, *B, t, init);
    align_f<GICPFactor>(x, "gicp-projective", *A, *B, ps, init);
    RegistrationSetting st; st.type = r.pick({RegistrationSetting::ICP, RegistrationSetting::PLANE_ICP, RegistrationSetting::GICP}); st.num_threads = nt; st.max_iterations = r.pick({1, 10}); st.max_correspondence_distance = r.pick({1.0, 1e5});
    judge_pose(x, "helper", align(*A, *B, t, init, st));
    GaussianVoxelMap::Ptr gm = create_gaussian_voxelmap(*A, leaf); st.type = RegistrationSetting::VGICP;
    judge_pose(x, "helper-vgicp", align(*gm, *B, init, st));
    st.type = r.pick({RegistrationSetting::ICP, RegistrationSetting::PLANE_ICP, RegistrationSetting::GICP, RegistrationSetting::VGICP}); st.downsampling_resolution = leaf; st.voxel_resolution = r.pick({0.1, 1.0, 1e3});
    if (r.coin()) { std::vector<Eigen::Vector3f> fa, fb; for (auto& p : pa) fa.push_back(p.head<3>().cast<float>()); for (auto& p : pb) fb.push_back(p.head<3>().cast<float>());
      bool fin = true; for (auto& p : fa) fin &= p.allFinite(); for (auto& p : fb) fin &= p.allFinite();
      if (fin) judge_pose(x, "helper-raw", align(fa, fb, init, st)); }
    else { std::vector<Eigen::Vector4d> fa(pa.begin(), pa.end()), fb(pb.begin(), pb.end()); judge_pose(x, "helper-raw", align(fa, fb, init, st)); }
  }
  // voxel maps
  voxelmap<FlatContainerPoints>(x, "map-points", *A, *B, pb, leaf);
  voxelmap<FlatContainerNormal>(x, "map-normal", *A, *B, pb, leaf);
  voxelmap<FlatContainerCov>(x, "map-cov", *A, *B, pb, leaf);
  voxelmap<FlatContainerNormalCov>(x, "map-normalcov", *A, *B, pb, leaf);
  voxelmap<GaussianVoxel>(x, "map-gaussian", *A, *B, pb, leaf);
  // downsampling
  judge_points(x, "voxelgrid", *voxelgrid_sampling(*A, leaf), na);
  judge_points(x, "voxelgrid-omp", *voxelgrid_sampling_omp(*A, leaf, nt), na);
  judge_points(x, "voxelgrid-tbb", *voxelgrid_sampling_tbb(*A, leaf), na);
  { std::mt19937 g((unsigned)r.next()); judge_points(x, "random", *random_sampling(*A, r.pick({(size_t)0, (size_t)1, na / 2, na}), g), na); }
  { auto [p, t] = preprocess_points(*A, leaf, k, nt); judge_points(x, "preprocess", *p, na); judge_features(x, "preprocess", *p, true, true); search(x, "preprocess", *t, pa, p->size(), [&, n = p->size()](size_t i) { return i < n; }); }
  // sorting
  { std::vector<uint32_t> v(r.pick({0, 1, 2, 3, 1025})), w, u; for (auto& z : v) z = r.pick({0u, 1u, 0xffffffffu, (uint32_t)r.next()}); w = v; u = v;
    quick_sort_omp(v.begin(), v.end(), std::less<uint32_t>(), nt); merge_sort_omp(w.begin(), w.end(), std::less<uint32_t>(), nt); radix_sort_tbb(u.data(), u.data() + u.size(), [](uint32_t z) { return z; });
    c.count("sorts"); c.check(std::is_sorted(v.begin(), v.end()) && std::is_sorted(w.begin(), w.end()) && std::is_sorted(u.begin(), u.end()), "sorted", "a sort of %zu keys is not sorted", v.size()); }
  // transformations
  { Eigen::Matrix<double, 6, 1> a; for (int i = 0; i < 6; i++) a[i] = r.pick({0.0, -0.0, 1e-320, 1e-160, 1e-9, 1.0, M_PI, 1e9, 1e150}) * r.pick({-1, 1});
    const Eigen::Isometry3d T = se3_exp(a); const Eigen::Quaterniond Q = so3_exp(a.head<3>()); c.count("exponentials");
    if (a.head<3>().norm() < 1e12 && a.tail<3>().norm() < 1e12) c.check(T.matrix().allFinite() && Q.coeffs().allFinite(), "exp", "the exponential of (%g %g %g %g %g %g) is not finite", a[0], a[1], a[2], a[3], a[4], a[5]); }
  // PCL interface
  {
    bool fits = true; for (auto& p : pa) fits &= p.cast<float>().allFinite(); for (auto& p : pb) fits &= p.cast<float>().allFinite();
    if (fits) {
      pcl::PointCloud<pcl::PointNormalCovariance> pc; traits::resize(pc, na); for (size_t i = 0; i < na; i++) traits::set_point(pc, i, pa[i]);
      estimate_normals_covariances(pc, r.pick({3, 10}));
      UnsafeKdTree<pcl::PointCloud<pcl::PointNormalCovariance>> t(pc); search(x, "kdtree-pcl", t, pa, na, in_a);
      auto down = voxelgrid_sampling<pcl::PointCloud<pcl::PointNormalCovariance>, PointCloud>(pc, leaf); judge_points(x, "voxelgrid-pcl", *down, na);
      pcl::PointCloud<pcl::PointXYZ> xyz; traits::resize(xyz, na); for (size_t i = 0; i < na; i++) traits::set_point(xyz, i, pa[i]);
      std::vector<Eigen::Matrix4d> covs; PointCloudProxy<pcl::PointXYZ> proxy(xyz, covs); estimate_covariances(proxy, 10); c.check(covs.size() == na, "proxy", "proxy has %zu covariances for %zu points", covs.size(), na);
#ifndef VF_NOPCL
      small_gicp::RegistrationPCL<pcl::PointXYZ, pcl::PointXYZ> g; g.setNumThreads(nt); g.setMaxCorrespondenceDistance(r.pick({1.0, 100.0})); g.setVoxelResolution(1.0); g.setRegistrationType(r.coin() ? "GICP" : "VGICP");
      auto tp = xyz.makeShared(); auto sp = pcl::make_shared<pcl::PointCloud<pcl::PointXYZ>>(); for (auto& p : pb) { pcl::PointXYZ z; z.getVector4fMap() = p.cast<float>(); sp->push_back(z); }
      g.setInputTarget(tp); g.setInputSource(sp);
      // PCL itself refuses to align without a usable target / source
      if (!tp->empty() && !sp->empty()) {
        pcl::PointCloud<pcl::PointXYZ> out; g.align(out); c.count("pcl_alignments");
        c.check(out.size() == sp->size(), "pcl-output", "aligned cloud has %zu of %zu points", out.size(), sp->size());
        if (x.sane) c.check(g.getFinalTransformation().allFinite(), "pcl-pose", "final transformation is not finite");
      }
#endif
    }
  }
}
int main(int argc, char** argv) { return vf::main_loop(argc, argv, run); }
