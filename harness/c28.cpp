// C28: registration commutes with rigid frame changes (ICP, GICP) and ignores point order (any method).
#include "reg.hpp"
using namespace reg;
using vf::Case;

static std::shared_ptr<PointCloud> permute(vf::Rng& r, const PointCloud& in) {
  std::vector<size_t> p(in.size()); std::iota(p.begin(), p.end(), 0);
  const int how = r.u(4);
  if (how == 0) std::reverse(p.begin(), p.end());
  else if (how == 1) std::sort(p.begin(), p.end(), [&](size_t a, size_t b) { return in.point(a)[0] < in.point(b)[0]; });
  else for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[r.u(i)]);
  auto o = std::make_shared<PointCloud>(); o->resize(in.size());
  for (size_t i = 0; i < p.size(); i++) { o->point(i) = in.point(p[i]); o->normal(i) = in.normal(p[i]); o->cov(i) = in.cov(p[i]); }
  return o;
}

template <typename F, typename Opt, typename Red, bool VOX>
static void go(Case& c, Red red, const char* bk) {
  constexpr Kind K = KindOf<F>::v;
  constexpr bool LM = std::is_same<Opt, LevenbergMarquardtOptimizer>::value;
  vf::Rng& r = c.rng;
  auto target = make_cloud(r, vf::gen_scene(r, r.range(80, 400), 5.0, 0.03));
  auto source = make_cloud(r, vf::Pts());
  if (r.coin(0.6)) {
    source = transform(*target, r.iso(0.15, 0.4));
    for (size_t i = 0; i < source->size(); i++) source->point(i).head<3>() += 0.02 * Eigen::Vector3d(r.normal(), r.normal(), r.normal());
    source->resize(std::max<size_t>(20, source->size() * r.real(0.3, 1.0)));
  } else source = make_cloud(r, vf::gen_scene(r, r.range(60, 300), 5.0, 0.03));
  const double leaf = r.pick({1.0, 2.0, 4.0}); const int off = r.pick({1, 7, 27});
  Registration<F, Red, NullFactor, DistanceRejector, Opt> rg;
  rg.reduction = red;
  rg.rejector.max_dist_sq = std::pow(r.pick({0.5, 1.0, 2.0, 50.0}), 2);
  rg.optimizer.max_iterations = r.pick({1, 3, 10, 20});
  const Eigen::Isometry3d init = r.coin(0.3) ? Eigen::Isometry3d::Identity() : r.iso(0.1, 0.3);
  c.describe("%s%s %s %s nt=%zu ns=%zu max_dist_sq=%g max_iter=%d", kname(K), VOX ? "+voxelmap" : "", LM ? "LM" : "GN", bk, target->size(), source->size(), rg.rejector.max_dist_sq, rg.optimizer.max_iterations);
  c.sig(c.idx);
  auto align = [&](std::shared_ptr<PointCloud> t, const PointCloud& s, const Eigen::Isometry3d& i0) {
    Quiet q;
    if constexpr (VOX) { GaussianVoxelMap vm(leaf); vm.set_search_offsets(off); vm.insert(*t); return rg.align(vm, s, vm, i0); }
    else { KdTree<PointCloud> tree(t); return rg.align(*t, s, tree, i0); }
  };
  const auto base = align(target, *source, init);
  // Is the outcome decided by rounding?  Repeat with every input coordinate moved by ~1e-13, and look for a last step that hardly moves.
  double sens = 0; bool steady = true;
  for (int w = 0; w < 3; w++) {
    auto t2 = std::make_shared<PointCloud>(*target); for (size_t i = 0; i < t2->size(); i++) t2->point(i).head<3>() += 1e-13 * r.vec3(1);
    const auto wob = align(t2, *source, init);
    sens = std::max(sens, (wob.T_target_source.matrix() - base.T_target_source.matrix()).norm());
    steady = steady && wob.iterations == base.iterations && wob.num_inliers == base.num_inliers && wob.converged == base.converged && sens <= 1e-9;
  }
  { const int mi = rg.optimizer.max_iterations; rg.optimizer.max_iterations = (int)base.iterations; const auto before = align(target, *source, init); rg.optimizer.max_iterations = mi; if (base.num_inliers && (before.T_target_source.matrix() - base.T_target_source.matrix()).norm() < 1e-7) steady = false; }
  if (!steady) { c.count("rounding_sensitive_runs"); return; }
  vf::SecondLook look(c, [&] { return settled(base, [&](double amp) { auto t2 = std::make_shared<PointCloud>(*target); PointCloud s2 = *source; disturb(r, *t2, amp); disturb(r, s2, amp); return align(t2, s2, init); }); });
  auto same = [&](const char* what, const RegistrationResult& a, const Eigen::Isometry3d& back, double amp) {
    const Eigen::Isometry3d T = back * a.T_target_source;
    const double d = (T.matrix() - base.T_target_source.matrix()).norm();
    c.maxi(std::string("max_pose_difference_") + what, d);
    c.check(d <= (1e-8 + 1e3 * sens) * amp, std::string(what) + "-pose", "%s: pose differs by %.3g", what, d);
    c.check(a.iterations == base.iterations, std::string(what) + "-iterations", "%s: %zu iterations instead of %zu", what, (size_t)a.iterations, (size_t)base.iterations);
    c.check(a.num_inliers == base.num_inliers, std::string(what) + "-inliers", "%s: %zu inliers instead of %zu", what, (size_t)a.num_inliers, (size_t)base.num_inliers);
    c.check(a.converged == base.converged, std::string(what) + "-converged", "%s: converged=%d instead of %d", what, (int)a.converged, (int)base.converged);
    c.check(std::abs(a.error - base.error) <= 1e-6 * (base.error + 1e-6) * amp, std::string(what) + "-error", "%s: error %.12g instead of %.12g", what, a.error, base.error);
    // H and b are expressed in the source-side (right) perturbation and do not depend on the target frame
    c.check((a.H - base.H).norm() <= 1e-6 * (base.H.norm() + 1e-6) * amp, std::string(what) + "-H", "%s: information matrix differs by %.3g of %.3g", what, (a.H - base.H).norm(), base.H.norm());
    c.count(std::string("compared_") + what);
  };
  if (base.num_inliers > 10) c.nontrivial();
  { auto p = permute(r, *target); same("target-order", align(p, *source, init), Eigen::Isometry3d::Identity(), 1); }
  { auto p = permute(r, *source); same("source-order", align(target, *p, init), Eigen::Isometry3d::Identity(), 1); }
  { auto p = permute(r, *target); auto q = permute(r, *source); same("both-orders", align(p, *q, init), Eigen::Isometry3d::Identity(), 1); }
  if (!VOX && K != PLANE) {
    const double far = r.pick({1.0, 10.0, 100.0});
    const Eigen::Isometry3d G = r.iso(M_PI, far);
    same("frame-change", align(transform(*target, G), *source, G * init), G.inverse(), 1 + far);
    c.count("frame_changes");
  }
}

int main(int argc, char** argv) {
  return vf::main_loop(argc, argv, [](Case& c) {
    typedef GaussNewtonOptimizer GN; typedef LevenbergMarquardtOptimizer LM;
    ParallelReductionOMP omp; omp.num_threads = c.rng.pick({1, 2, 4, 7});
    switch (c.idx % 8) {
      case 0: go<ICPFactor, LM, SerialReduction, false>(c, {}, "serial"); break;
      case 1: go<GICPFactor, LM, SerialReduction, false>(c, {}, "serial"); break;
      case 2: go<PointToPlaneICPFactor, LM, SerialReduction, false>(c, {}, "serial"); break;
      case 3: go<GICPFactor, LM, SerialReduction, true>(c, {}, "serial"); break;
      case 4: go<ICPFactor, GN, ParallelReductionOMP, false>(c, omp, "omp"); break;
      case 5: go<GICPFactor, GN, ParallelReductionTBB, false>(c, {}, "tbb"); break;
      case 6: go<GICPFactor, LM, ParallelReductionOMP, true>(c, omp, "omp"); break;
      default: go<GICPFactor, LM, ParallelReductionOMP, false>(c, omp, "omp");
    }
  });
}
