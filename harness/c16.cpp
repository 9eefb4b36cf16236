// C16: the registration result describes the registration truthfully.  Oracle: independent recomputation (brute-force
// correspondences, long-double sums) at the poses recorded by a tracing reduction.
#include "reg.hpp"
using namespace reg;
using vf::Case;

template <typename F, typename Opt, typename Red, bool VOX>
static void go(Case& c, Red inner, const char* bk) {
  constexpr Kind K = KindOf<F>::v;
  vf::Rng& r = c.rng;
  const bool large = c.rare(307, 5);
  if (large) c.count("large_clouds");
  const size_t nt = r.coin(0.1) ? r.range(0, 12) : large ? 40 : r.range(13, 300), ns = r.coin(0.1) ? r.range(0, 12) : large ? 66000 + r.u(10000) : r.range(13, 300);
  auto target = make_cloud(r, r.coin(0.7) ? vf::gen_scene(r, nt, 5.0, 0.02) : vf::gen_cloud(r, nt, r.pick({(int)vf::UNIFORM, (int)vf::SPHERE, (int)vf::PLANAR, (int)vf::LIDAR}), 5.0));
  auto source = !large && r.coin(0.6) ? transform(*target, r.iso(0.4, 1.0)) : make_cloud(r, vf::gen_scene(r, ns, 5.0, 0.02));
  Trace tr;
  Registration<F, TracingReduction<Red>, NullFactor, DistanceRejector, Opt> reg;
  reg.reduction.inner = inner; reg.reduction.trace = &tr;
  reg.rejector.max_dist_sq = std::pow(r.pick({0.2, 0.5, 1.0, 2.0, 100.0}), 2);
  if (r.coin()) { reg.criteria.translation_eps = r.pick({1e-6, 0.05}); reg.criteria.rotation_eps = r.pick({1e-6, 0.05}); }
  reg.optimizer.max_iterations = r.pick({1, 2, 5, 20, 20, 60});
  if constexpr (std::is_same<Opt, LevenbergMarquardtOptimizer>::value) reg.optimizer.max_inner_iterations = r.pick({1, 3, 10});
  const Eigen::Isometry3d init = r.coin(0.3) ? Eigen::Isometry3d::Identity() : r.iso(0.5, 1.0);
  constexpr bool LM = std::is_same<Opt, LevenbergMarquardtOptimizer>::value;
  c.describe("%s%s %s %s nt=%zu ns=%zu max_dist_sq=%g max_iter=%d", kname(K), VOX ? "+voxelmap" : "", LM ? "LM" : "GN", bk, target->size(), source->size(), reg.rejector.max_dist_sq, reg.optimizer.max_iterations);
  c.sig(c.idx);
  KdTree<PointCloud> tree(target);
  GaussianVoxelMap vm(r.pick({0.5, 1.0, 3.0}));
  vm.set_search_offsets(r.pick({1, 7, 27}));
  vm.insert(*target);
  auto vm_hash = [&] { double h = 0; for (auto& p : traits::voxel_points(vm)) h = h * 1.000001 + p.sum(); return h; };
  const uint64_t ht = hash_cloud(*target), hs = hash_cloud(*source); const double hv = vm_hash();
  auto align = [&](const auto& rg) { Quiet q; if constexpr (VOX) return rg.align(vm, *source, vm, init); else return rg.align(*target, *source, tree, init); };
  const RegistrationResult res = align(reg);
  c.check(hash_cloud(*target) == ht && hash_cloud(*source) == hs && vm_hash() == hv, "inputs-modified", "an input cloud or map changed during alignment");
  const std::vector<Ev> ev = tr.ev;
  std::vector<size_t> lins; for (size_t i = 0; i < ev.size(); i++) if (ev[i].lin) lins.push_back(i);
  if (!c.check(!lins.empty(), "no-linearization", "nothing was linearised")) return;
  c.check((int)lins.size() <= reg.optimizer.max_iterations && (int)res.iterations <= reg.optimizer.max_iterations, "iteration-limit", "%zu linearisations, result says %zu, limit %d", lins.size(), (size_t)res.iterations, reg.optimizer.max_iterations);
  c.check(is_rigid(res.T_target_source, 1e-9), "not-rigid", "the reported pose is not a rigid transformation");
  const Eigen::Isometry3d TL = ev[lins.back()].T, TN = res.T_target_source;
  if (res.converged) {
    const Eigen::Isometry3d d = TL.inverse() * TN; const double rot = vf::rot_angle(d.linear()), tr = d.translation().norm();
    // the translation of the exponential is V(w) v: as long as v for small rotations
    if (rot < 1.0) c.check(rot <= reg.criteria.rotation_eps * (1 + 1e-6) + 1e-9 && tr <= reg.criteria.translation_eps * (1 + 1e-6) + 1e-9 * (1 + TL.translation().norm()), "convergence-untrue", "reported as converged, but the last update was %.6g rad (tolerance %.3g) and %.6g (tolerance %.3g)", rot, reg.criteria.rotation_eps, tr, reg.criteria.translation_eps);
  }
  // independent recomputation
  M6L H = M6L::Zero(); V6L b = V6L::Zero(); LD eL = 0, eN = 0; double habs = 0, babs = 0, eabs = 0, enabs = 0;
  size_t lo = 0, hi = 0; bool tie = false;
  for (size_t i = 0; i < source->size(); i++) {
    const Eigen::Vector3d q = TL * Eigen::Vector3d(source->point(i).head<3>());
    size_t ti; double d2;
    if constexpr (VOX) { if (!traits::nearest_neighbor_search(vm, vf::P(q), &ti, &d2)) continue; }
    else { const NN n = brute_nn(*target, q); if (n.i == std::numeric_limits<size_t>::max()) continue; ti = n.i; d2 = n.d2; if (n.second - n.d2 <= 1e-9 * (n.d2 + 1e-6)) tie = true; }
    const double lim = reg.rejector.max_dist_sq;
    if (std::abs(d2 - lim) <= 1e-9 * lim) { hi++; tie = true; continue; }
    if (d2 > lim) { c.count("beyond_range"); continue; }
    lo++; hi++;
    Match m; if constexpr (VOX) m = match<K>(vm, ti, *source, i); else m = match<K>(*target, ti, *source, i);
    const M3L W = weight(K, m, TL);
    const Lin l = linearize(m, W, TL);
    H += l.H; b += l.b; eL += l.e; habs += (double)l.H.norm(); babs += (double)l.b.norm(); eabs += (double)l.e;
    const LD x = cost(m, W, TN); eN += x; enabs += (double)x;
  }
  c.check(res.num_inliers >= lo && res.num_inliers <= hi, "inlier-count", "reported %zu inliers, %zu source points have a target within range at the last linearised pose", (size_t)res.num_inliers, lo);
  c.count("runs"); c.count("inliers", lo);
  c.check((res.H - res.H.transpose()).norm() <= 1e-12 * (res.H.norm() + 1e-300), "H-asymmetric", "|H-H^T|=%.3g", (res.H - res.H.transpose()).norm());
  Eigen::SelfAdjointEigenSolver<M6> es(res.H);
  c.check(es.eigenvalues()[0] >= -1e-9 * (res.H.norm() + 1e-300), "H-not-psd", "eigenvalue %.6g of norm %.6g", es.eigenvalues()[0], res.H.norm());
  c.check(is_rigid(TL), "not-rigid", "linearised pose not rigid");
  if (tie) { c.count("undecided_ties"); return; }
  if (lo) c.nontrivial();
  const double mag = 1 + TL.translation().norm() + 10;
  c.check((res.H - H.cast<double>()).norm() <= 1e-10 * habs + 1e-300, "H-wrong", "reported information matrix differs from the sum over the %zu correspondences by %.3g (relative to %.3g)", lo, (res.H - H.cast<double>()).norm(), habs);
  c.check((res.b - b.cast<double>()).norm() <= 1e-10 * babs + 1e-12 * mag * habs + 1e-300, "b-wrong", "reported information vector differs by %.3g (of %.3g)", (res.b - b.cast<double>()).norm(), babs);
  const double tol = 1e-9 * (eabs + enabs) + 1e-20 * mag * mag * habs + 1e-24;
  const bool okL = std::abs(res.error - (double)eL) <= tol, okN = std::abs(res.error - (double)eN) <= tol;
  c.check(okL || okN, "error-wrong", "reported error %.12g; summed cost is %.12g at the last linearised pose and %.12g at the accepted one", res.error, (double)eL, (double)eN);
  if (okN && !okL) c.count("error_at_accepted_pose");
  if (res.converged) c.count("converged_runs");

  // determinism of sequential runs
  if (std::is_same<Red, SerialReduction>::value) {
    tr.ev.clear();
    const RegistrationResult r2 = align(reg);
    c.check(r2.T_target_source.matrix() == res.T_target_source.matrix() && r2.H == res.H && r2.b == res.b && r2.error == res.error && r2.iterations == res.iterations && r2.num_inliers == res.num_inliers && r2.converged == res.converged,
            "not-deterministic", "two identical sequential runs differ: pose %.3g error %.3g", (r2.T_target_source.matrix() - res.T_target_source.matrix()).norm(), r2.error - res.error);
    c.count("repeated_runs");
    // tracing must not influence the result: plain reduction gives the same
    Registration<F, SerialReduction, NullFactor, DistanceRejector, Opt> pl; pl.rejector = reg.rejector; pl.criteria = reg.criteria; pl.optimizer = reg.optimizer;
    const RegistrationResult r3 = align(pl);
    c.check(r3.T_target_source.matrix() == res.T_target_source.matrix() && r3.num_inliers == res.num_inliers && r3.error == res.error, "tracing-differs", "plain run differs from traced run");
  }
}

int main(int argc, char** argv) {
  return vf::main_loop(argc, argv, [](Case& c) {
    typedef GaussNewtonOptimizer GN; typedef LevenbergMarquardtOptimizer LM;
    ParallelReductionOMP omp; omp.num_threads = c.rng.pick({1, 2, 4, 7});
    switch (c.idx % 9) {
      case 0: go<ICPFactor, LM, SerialReduction, false>(c, {}, "serial"); break;
      case 1: go<PointToPlaneICPFactor, LM, SerialReduction, false>(c, {}, "serial"); break;
      case 2: go<GICPFactor, LM, SerialReduction, false>(c, {}, "serial"); break;
      case 3: go<GICPFactor, LM, SerialReduction, true>(c, {}, "serial"); break;
      case 4: go<ICPFactor, GN, SerialReduction, false>(c, {}, "serial"); break;
      case 5: go<GICPFactor, GN, ParallelReductionOMP, false>(c, omp, "omp"); break;
      case 6: go<GICPFactor, LM, ParallelReductionOMP, true>(c, omp, "omp"); break;
      case 7: go<PointToPlaneICPFactor, GN, ParallelReductionTBB, false>(c, {}, "tbb"); break;
      default: go<ICPFactor, LM, ParallelReductionTBB, false>(c, {}, "tbb");
    }
  });
}
