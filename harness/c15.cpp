// C15: registration recovers the true transformation.  Scenes with known ground truth; every method, optimiser, backend, search
// structure, kernel and interface, in both directions; the pose error is bounded by tolerance and sampling.
#include "reg.hpp"
#include <small_gicp/ann/projective_search.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/registration/registration_helper.hpp>
using namespace reg;
using vf::Case;

// Random furniture in a room corner: floor, two walls, boxes; constrained in all six directions.
struct Scene {
  struct Rect { Eigen::Vector3d o, a, b; double area; };
  std::vector<Rect> rects; std::vector<double> cum;
  double diameter = 0;
  void add(const Eigen::Vector3d& o, const Eigen::Vector3d& a, const Eigen::Vector3d& b) { rects.push_back({o, a, b, a.cross(b).norm()}); cum.push_back((cum.empty() ? 0 : cum.back()) + rects.back().area); }
  Scene(vf::Rng& r, double s) {
    add({-s, -s, 0}, {2 * s, 0, 0}, {0, 2 * s, 0});
    add({s, -s, 0}, {0, 2 * s, 0}, {0, 0, 0.6 * s});
    add({-s, -s, 0}, {2 * s, 0, 0}, {0, 0, 0.6 * s});
    for (int i = 0; i < 4; i++) {
      const Eigen::Matrix3d R = Eigen::AngleAxisd(r.real(-M_PI, M_PI), Eigen::Vector3d::UnitZ()).toRotationMatrix();
      const Eigen::Vector3d h = s * Eigen::Vector3d(r.real(0.1, 0.25), r.real(0.1, 0.25), r.real(0.15, 0.4)), o = s * Eigen::Vector3d(r.real(-0.7, 0.5), r.real(-0.5, 0.7), 0);
      const Eigen::Vector3d x = R.col(0) * 2 * h[0], y = R.col(1) * 2 * h[1], z = Eigen::Vector3d(0, 0, 2 * h[2]), c = o - 0.5 * (x + y);
      add(c, x, z); add(c, y, z); add(c + x, y, z); add(c + y, x, z); add(c + z, x, y);
    }
  }
  Eigen::Vector3d sample(vf::Rng& r) const {
    const double w = r.real() * cum.back();
    const size_t i = std::min<size_t>(std::lower_bound(cum.begin(), cum.end(), w) - cum.begin(), rects.size() - 1);
    return rects[i].o + r.real() * rects[i].a + r.real() * rects[i].b;
  }
};

enum Mode { EXACT, SUBSET, RESAMPLED };
static const char* mname(int m) { return m == EXACT ? "exact" : m == SUBSET ? "subset" : "resampled"; }
struct Plan { Mode mode; double s, spacing; double dist; Eigen::Isometry3d truth, init; int nt; double vox; };

template <typename F, typename Opt, typename TC, typename TT> static RegistrationResult go(const Plan& p, const TC& t, const PointCloud& s, const TT& tree, const Eigen::Isometry3d& init, int red) {
  auto f = [&](auto&& rg) {
    rg.rejector.max_dist_sq = p.dist * p.dist; rg.optimizer.max_iterations = 100;
    if constexpr (std::is_same_v<F, RobustFactor<Huber, GICPFactor>> || std::is_same_v<F, RobustFactor<Cauchy, GICPFactor>>) rg.point_factor.robust_kernel.c = 1.0;
    if constexpr (std::is_same_v<std::decay_t<decltype(rg.reduction)>, ParallelReductionOMP>) rg.reduction.num_threads = p.nt;
    return rg.align(t, s, tree, init);
  };
  if (red == 1) return f(Registration<F, ParallelReductionOMP, NullFactor, DistanceRejector, Opt>());
  if (red == 2) return f(Registration<F, ParallelReductionTBB, NullFactor, DistanceRejector, Opt>());
  return f(Registration<F, SerialReduction, NullFactor, DistanceRejector, Opt>());
}

// Method classes with their own accuracy: point-to-point (limited by sampling), surface methods, voxelised.
enum Acc { POINT, PLANE3, SURFACE, VOXEL };
static const char* aname(int a) { return a == POINT ? "icp" : a == PLANE3 ? "plane" : a == SURFACE ? "gicp" : "vgicp"; }

static void judge(Case& c, const Plan& p, Acc acc, const std::string& what, const RegistrationResult& r, const Eigen::Isometry3d& truth, const Eigen::Isometry3d& centre) {
  // error at the middle of the scene (its pose in the target frame is given), so that lever arms do not matter
  const Eigen::Isometry3d E = centre.inverse() * r.T_target_source * truth.inverse() * centre;
  const double rot = rot_diff(r.T_target_source, truth) * p.s;   // metres at the rim
  const double tr = E.translation().norm();
  const double err = std::max(rot, tr) / p.spacing;               // in units of the point spacing
  c.maxi(std::string("err_") + aname(acc) + "_" + mname(p.mode), std::isfinite(err) ? err : 1e300);
  c.count("recovered_" + what);
  if (r.converged) c.count("converged"); else c.count(std::string("not_converged_") + aname(acc) + "_" + mname(p.mode));
  static const double lim[4][3] = {{0.03, 0.25, 0.8}, {0.03, 0.25, 0.7}, {0.01, 0.04, 0.08}, {0.25, 0.4, 0.8}};   // > 3.5 x the largest error seen in 16000 scenes
  c.check(is_rigid(r.T_target_source, 1e-6), "not-rigid-" + what, "%s: the result is not a proper rigid transformation", what.c_str());
  c.check(err <= lim[acc][p.mode], "not-recovered-" + what, "%s (%s, %s): pose error %.4g m / %.4g rad after %zu iterations, converged=%d, %zu inliers; point spacing %.3g", what.c_str(), aname(acc), mname(p.mode), tr, rot / p.s, (size_t)r.iterations, (int)r.converged, (size_t)r.num_inliers, p.spacing);
}

static void run(Case& c) {
  vf::Rng& r = c.rng;
  const bool par_only = chaos_seed != nullptr;
  Plan p;
  p.mode = (Mode)r.u(3);
  p.s = r.pick({3.0, 5.0, 8.0});
  const size_t n = par_only ? 900 : r.range(1500, 3000);
  Scene sc(r, p.s);
  p.spacing = std::sqrt(sc.cum.back() / n);
  p.truth = r.coin(0.5) ? r.iso(M_PI, 20.0) : r.iso(0.2, 1.0);
  p.dist = p.spacing * r.pick({4.0, 6.0});
  const double pert = p.spacing * r.pick({0.1, 0.5, 1.0, 1.5});   // initial error well inside the correspondence range
  p.nt = r.pick({1, 2, 3, 4, 8});
  p.vox = p.spacing * r.pick({3.0, 4.0});
  c.describe("%s n=%zu size=%g spacing=%.3g dist=%.3g nt=%d", mname(p.mode), n, p.s, p.spacing, p.dist, p.nt);
  c.sig(c.idx);
  const Eigen::Isometry3d frame = r.iso(M_PI, 5.0);   // the target's frame
  p.init = frame * r.iso(pert / p.s, pert) * frame.inverse() * p.truth;   // disturbed about the middle of the scene
  vf::Pts tp, sp;
  const Eigen::Isometry3d TS = p.truth.inverse();
  for (size_t i = 0; i < n; i++) {
    const Eigen::Vector3d x = frame * sc.sample(r);
    tp.push_back(vf::P(x));
    if (p.mode == EXACT || (p.mode == SUBSET && r.coin(0.6))) sp.push_back(vf::P(Eigen::Vector3d(TS * x)));
    if (p.mode == RESAMPLED) sp.push_back(vf::P(Eigen::Vector3d(TS * (frame * sc.sample(r) + 0.03 * p.spacing * Eigen::Vector3d(r.normal(), r.normal(), r.normal())))));
  }
  for (size_t a = sp.size(); a > 1; a--) std::swap(sp[a - 1], sp[r.u(a)]);
  auto t = std::make_shared<PointCloud>(tp), s = std::make_shared<PointCloud>(sp);
  if (r.coin()) { estimate_normals_covariances(*t, 10); estimate_normals_covariances(*s, 10); } else { estimate_normals_covariances_omp(*t, 10, p.nt); estimate_normals_covariances_omp(*s, 10, p.nt); }
  KdTree<PointCloud> tt(t), st(s);
  const Eigen::Isometry3d inv = p.truth.inverse(), inv_init = p.init.inverse();
  c.nontrivial();
  typedef LevenbergMarquardtOptimizer LM; typedef GaussNewtonOptimizer GN;
  auto red = [&]() { return par_only ? 1 + (int)r.u(2) : (int)r.u(3); };
  auto tag = [&](const char* m, const char* o, int rd, const char* dir) { return std::string(m) + "-" + o + "-" + (rd == 0 ? "serial" : rd == 1 ? "omp" : "tbb") + dir; };
  for (int dir = 0; dir < 2; dir++) {
    const auto& T = dir ? s : t; const auto& S = dir ? t : s; const auto& tree = dir ? st : tt;
    const auto& truth = dir ? inv : p.truth; const auto& init = dir ? inv_init : p.init;
    const Eigen::Isometry3d centre = dir ? inv * frame : frame;   // the scene in T's frame
    const char* dn = dir ? "-back" : "";
    int rd;
    rd = red(); judge(c, p, POINT, tag("icp", "lm", rd, dn), go<ICPFactor, LM>(p, *T, *S, tree, init, rd), truth, centre);
    rd = red(); judge(c, p, POINT, tag("icp", "gn", rd, dn), go<ICPFactor, GN>(p, *T, *S, tree, init, rd), truth, centre);
    rd = red(); judge(c, p, PLANE3, tag("plane", "lm", rd, dn), go<PointToPlaneICPFactor, LM>(p, *T, *S, tree, init, rd), truth, centre);
    rd = red(); judge(c, p, PLANE3, tag("plane", "gn", rd, dn), go<PointToPlaneICPFactor, GN>(p, *T, *S, tree, init, rd), truth, centre);
    rd = red(); judge(c, p, SURFACE, tag("gicp", "lm", rd, dn), go<GICPFactor, LM>(p, *T, *S, tree, init, rd), truth, centre);
    rd = red(); judge(c, p, SURFACE, tag("gicp", "gn", rd, dn), go<GICPFactor, GN>(p, *T, *S, tree, init, rd), truth, centre);
    {
      GaussianVoxelMap vm(p.vox); vm.set_search_offsets(r.pick({7, 27})); vm.insert(*T);
      rd = red(); judge(c, p, VOXEL, tag("vgicp", "lm", rd, dn), go<GICPFactor, LM>(p, vm, *S, vm, init, rd), truth, centre);
      rd = red(); judge(c, p, VOXEL, tag("vgicp", "gn", rd, dn), go<GICPFactor, GN>(p, vm, *S, vm, init, rd), truth, centre);
    }
    if (par_only) continue;
    switch (r.u(5)) {
      case 0: judge(c, p, SURFACE, tag("huber", "lm", 0, dn), go<RobustFactor<Huber, GICPFactor>, LM>(p, *T, *S, tree, init, 0), truth, centre); break;
      case 1: judge(c, p, SURFACE, tag("cauchy", "gn", 0, dn), go<RobustFactor<Cauchy, GICPFactor>, GN>(p, *T, *S, tree, init, 0), truth, centre); break;
      case 2: {  // incremental map of points with covariances
        IncrementalVoxelMap<FlatContainerCov> vm(p.vox); vm.set_search_offsets(27); vm.voxel_setting.min_sq_dist_in_cell = 0; vm.voxel_setting.max_num_points_in_cell = 1000; vm.insert(*T);
        judge(c, p, SURFACE, tag("gicp-flat", "lm", 0, dn), go<GICPFactor, LM>(p, vm, *S, vm, init, 0), truth, centre); break;
      }
      case 3: { UnsafeKdTree<PointCloud, NormalProjection> kt(*T); judge(c, p, SURFACE, tag("gicp-normal-projection", "lm", 0, dn), go<GICPFactor, LM>(p, *T, *S, kt, init, 0), truth, centre); break; }
      case 4: {  // DoF restriction: truth differs from the initial guess along the free axes only
        Registration<GICPFactor, SerialReduction, RestrictDoFFactor> rg;
        rg.rejector.max_dist_sq = p.dist * p.dist; rg.optimizer.max_iterations = 100;
        Eigen::Isometry3d d = Eigen::Isometry3d::Identity();
        d.translation() = Eigen::Vector3d(r.real(-1, 1), r.real(-1, 1), 0) * p.spacing;
        rg.general_factor.set_rotation_mask(Eigen::Array3d(0, 0, 1)); rg.general_factor.set_translation_mask(Eigen::Array3d(1, 1, 0));
        judge(c, p, SURFACE, tag("gicp-restricted", "lm", 0, dn), rg.align(*T, *S, tree, truth * d), truth, centre); break;
      }
    }
    RegistrationSetting set; set.max_correspondence_distance = p.dist; set.voxel_resolution = p.vox; set.num_threads = p.nt; set.max_iterations = 100; set.downsampling_resolution = 0.5 * p.spacing;
    set.type = r.pick({RegistrationSetting::ICP, RegistrationSetting::PLANE_ICP, RegistrationSetting::GICP, RegistrationSetting::VGICP});
    const Acc acc = set.type == RegistrationSetting::ICP ? POINT : set.type == RegistrationSetting::PLANE_ICP ? PLANE3 : set.type == RegistrationSetting::GICP ? SURFACE : VOXEL;
    if (set.type == RegistrationSetting::VGICP) { auto vm = create_gaussian_voxelmap(*T, p.vox); judge(c, p, VOXEL, std::string("helper-vgicp") + dn, align(*vm, *S, init, set), truth, centre); }
    else judge(c, p, acc, std::string("helper-") + aname(acc) + dn, align(*T, *S, tree, init, set), truth, centre);
    std::vector<Eigen::Vector3d> a, b; for (auto& x : T->points) a.push_back(x.head<3>()); for (auto& x : S->points) b.push_back(x.head<3>());
    judge(c, p, acc, std::string("helper-raw-") + aname(acc) + dn, align(a, b, init, set), truth, centre);
  }
}
int main(int argc, char** argv) { return vf::main_loop(argc, argv, run); }
