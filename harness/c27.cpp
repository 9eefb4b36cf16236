// C27: registration without usable correspondences leaves the initial guess alone.
#include "reg.hpp"
#include <small_gicp/registration/registration_helper.hpp>
using namespace reg;
using vf::Case;

struct Scene { std::shared_ptr<PointCloud> target, source; double max_d; bool none; const char* kind; };

static Scene scene(vf::Rng& r, const Eigen::Isometry3d& init) {
  Scene s; s.none = true; s.max_d = r.pick({0.1, 1.0, 5.0});
  const int k = r.u(6);
  auto some = [&](size_t n) { return make_cloud(r, vf::gen_cloud(r, n, r.pick({(int)vf::UNIFORM, (int)vf::PLANAR, (int)vf::COINCIDENT, (int)vf::COLLINEAR}), 5.0)); };
  const size_t n = r.pick({1, 2, 5, 11, 40, 200});
  const size_t m = r.pick({1, 3, 11, 40, 200});
  if (k == 0) { s.kind = "empty-target"; s.target = some(0); s.source = some(n); }
  else if (k == 1) { s.kind = "empty-source"; s.target = some(n); s.source = some(0); }
  else if (k == 2) { s.kind = "both-empty"; s.target = some(0); s.source = some(0); }
  else if (k == 3 || k == 4) {
    s.kind = "out-of-range"; s.target = some(n); s.source = some(m);
    // move the source so that init * source is beyond the range of every target point
    const Eigen::Vector3d off = r.dir() * (60 + s.max_d * r.pick({1.01, 10.0, 1e4}));
    for (size_t i = 0; i < s.source->size(); i++) s.source->point(i).head<3>() = init.inverse() * (Eigen::Vector3d(s.source->point(i).head<3>()) + off);
  } else {
    s.kind = "just-beyond"; // one target point, sources on a sphere slightly beyond the range
    s.target = some(1); s.source = some(m);
    for (size_t i = 0; i < m; i++) s.source->point(i).head<3>() = init.inverse() * (Eigen::Vector3d(s.target->point(0).head<3>()) + r.dir() * s.max_d * (1 + 1e-6 + 0.01 * r.real()));
  }
  return s;
}

static void judge(Case& c, const char* how, const RegistrationResult& res, const Eigen::Isometry3d& init) {
  c.count("runs"); c.count(std::string("runs_") + how);
  const double d = (res.T_target_source.matrix() - init.matrix()).norm();
  c.check(res.T_target_source.matrix().allFinite() && d <= 1e-12 * (1 + init.matrix().norm()), std::string("moved-") + how, "%s: pose moved by %.6g", how, d);
  c.check(res.num_inliers == 0, std::string("inliers-") + how, "%s: %zu inliers", how, (size_t)res.num_inliers);
  c.check(res.error == 0.0 && res.H.isZero(0) && res.b.isZero(0), std::string("nonzero-") + how, "%s: error %.6g |H| %.6g |b| %.6g", how, res.error, res.H.norm(), res.b.norm());
}

template <typename F, typename Opt, typename Red>
static void core(Case& c, const Scene& s, const Eigen::Isometry3d& init, Red red, const char* how) {
  Registration<F, Red, NullFactor, DistanceRejector, Opt> rg;
  rg.reduction = red; rg.rejector.max_dist_sq = s.max_d * s.max_d;
  rg.optimizer.max_iterations = c.rng.pick({1, 5, 20, 100});
  KdTree<PointCloud> tree(s.target);
  judge(c, how, rg.align(*s.target, *s.source, tree, init), init);
  if constexpr (std::is_same<F, GICPFactor>::value) {
    GaussianVoxelMap vm(1.0); vm.set_search_offsets(c.rng.pick({1, 7, 27})); vm.insert(*s.target);
    judge(c, "voxelmap", rg.align(vm, *s.source, vm, init), init);
    IncrementalVoxelMap<FlatContainerNormalCov> iv(0.7); iv.set_search_offsets(27); iv.insert(*s.target);
    judge(c, "flat-voxelmap", rg.align(iv, *s.source, iv, init), init);
  }
}

static void run(Case& c) {
  vf::Rng& r = c.rng;
  const Eigen::Isometry3d init = r.coin(0.2) ? Eigen::Isometry3d::Identity() : r.iso(M_PI, r.pick({0.1, 10.0, 1000.0}));
  const Scene s = scene(r, init);
  c.describe("%s nt=%zu ns=%zu max_d=%g", s.kind, s.target->size(), s.source->size(), s.max_d);
  c.sig(c.idx);
  c.count(std::string("scenes_") + s.kind);
  c.nontrivial();
  Quiet q;
  typedef GaussNewtonOptimizer GN; typedef LevenbergMarquardtOptimizer LM;
  ParallelReductionOMP omp; omp.num_threads = r.pick({1, 2, 4});
  core<ICPFactor, LM>(c, s, init, SerialReduction(), "icp-lm");
  core<GICPFactor, LM>(c, s, init, omp, "gicp-lm-omp");
  core<PointToPlaneICPFactor, LM>(c, s, init, ParallelReductionTBB(), "plane-lm-tbb");
  core<ICPFactor, GN>(c, s, init, omp, "icp-gn-omp");
  core<GICPFactor, GN>(c, s, init, SerialReduction(), "gicp-gn");
  core<RobustFactor<Huber, ICPFactor>, LM>(c, s, init, SerialReduction(), "huber");
  // helper interface
  RegistrationSetting st; st.max_correspondence_distance = s.max_d; st.num_threads = r.pick({1, 2, 4}); st.downsampling_resolution = 0.25; st.voxel_resolution = 1.0;
  st.max_iterations = r.pick({1, 20});
  KdTree<PointCloud> tree(s.target);
  for (auto t : {RegistrationSetting::ICP, RegistrationSetting::PLANE_ICP, RegistrationSetting::GICP}) { st.type = t; judge(c, t == RegistrationSetting::ICP ? "helper-icp" : t == RegistrationSetting::GICP ? "helper-gicp" : "helper-plane", align(*s.target, *s.source, tree, init, st), init); }
  { GaussianVoxelMap vm(1.0); vm.insert(*s.target); st.type = RegistrationSetting::VGICP; judge(c, "helper-vgicp", align(vm, *s.source, init, st), init); }
  std::vector<Eigen::Vector4d> tp, sp;
  for (size_t i = 0; i < s.target->size(); i++) tp.push_back(s.target->point(i));
  for (size_t i = 0; i < s.source->size(); i++) sp.push_back(s.source->point(i));
  if (std::string(s.kind) != "just-beyond")  // downsampling averages could enter the range there
    for (auto t : {RegistrationSetting::ICP, RegistrationSetting::PLANE_ICP, RegistrationSetting::GICP, RegistrationSetting::VGICP}) { st.type = t; judge(c, "helper-raw", align(tp, sp, init, st), init); }

  // iteration limit of zero: initial guess unconverged, also with perfectly good correspondences
  auto good = make_cloud(r, vf::gen_scene(r, 60, 5.0)); KdTree<PointCloud> gt(good);
  auto src = transform(*good, r.iso(0.1, 0.2));
  auto zero = [&](const char* how, const RegistrationResult& res) {
    c.count("zero_iteration_runs");
    c.check((res.T_target_source.matrix() - init.matrix()).norm() <= 1e-12 * (1 + init.matrix().norm()) && !res.converged, std::string("zero-limit-") + how, "%s: iteration limit 0 but moved=%.3g converged=%d", how, (res.T_target_source.matrix() - init.matrix()).norm(), (int)res.converged);
  };
  { Registration<GICPFactor, SerialReduction> g; g.optimizer.max_iterations = 0; zero("lm", g.align(*good, *src, gt, init)); }
  { Registration<ICPFactor, ParallelReductionOMP, NullFactor, DistanceRejector, GN> g; g.optimizer.max_iterations = 0; zero("gn", g.align(*good, *src, gt, init)); }
  st.max_iterations = 0; st.type = r.pick({RegistrationSetting::ICP, RegistrationSetting::PLANE_ICP, RegistrationSetting::GICP});
  zero("helper", align(*good, *src, gt, init, st));
}
int main(int argc, char** argv) { return vf::main_loop(argc, argv, run); }
