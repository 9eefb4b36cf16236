// C14: the optimiser only accepts steps that do not increase the total cost.  Monitor: a tracing reduction and a tracing
// general factor record every linearisation and trial; an offline checker replays the trace.
#include "reg.hpp"
using namespace reg;
using vf::Case;

// A per-point factor with an arbitrary rugged cost, so that proposed steps are often bad.
struct Rugged {
  struct Setting {};
  Rugged(const Setting& = Setting()) {}
  template <typename A, typename B, typename C, typename D>
  bool linearize(const A& target, const B& source, const C&, const Eigen::Isometry3d& T, size_t i, const D&, M6* H, V6* b, double* e) {
    src = i; used = true;
    const size_t nt = target.size();
    tgt = nt ? (i * 7 + (size_t)std::abs(std::floor(T.translation()[0] * 3)) ) % nt : 0;   // the correspondence depends on the pose
    in = nt > 0 && (i % 5 != 4);
    if (!in) return false;
    const Match m = match<ICP>(target, tgt, source, src);
    const Lin l = reg::linearize(m, M3L::Identity(), T);
    const double rn = (double)std::sqrt(2 * l.e);
    *H = l.H.cast<double>() * 0.05; *b = l.b.cast<double>();
    *e = cost(rn);
    return true;
  }
  static double cost(double rn) { return 0.5 * rn * rn * (1.2 + std::sin(9 * rn)); }
  template <typename A, typename B>
  double error(const A& target, const B& source, const Eigen::Isometry3d& T) const {
    if (!in) return 0;
    const Match m = match<ICP>(target, tgt, source, src);
    return cost((double)std::sqrt(2 * reg::cost(m, M3L::Identity(), T)));
  }
  bool inlier() const { return in; }
  bool used = false, in = false; size_t src = 0, tgt = 0;
};

// User-supplied general factor: a pose prior with its own cost and a possibly poor linearisation.
struct Prior {
  double w = 0, gain = 1; Eigen::Vector3d t0 = Eigen::Vector3d::Zero(); Eigen::Matrix3d R0 = Eigen::Matrix3d::Identity(); double wr = 0; double ripple = 0;
  mutable size_t* lin_calls = nullptr; mutable size_t* err_calls = nullptr;
  double cost(const Eigen::Isometry3d& T) const {
    const double d = (T.translation() - t0).norm();
    return 0.5 * w * d * d + 0.5 * wr * (T.linear() - R0).squaredNorm() + ripple * (1 + std::sin(20 * d));
  }
  template <typename A, typename B, typename C>
  void update_linearized_system(const A&, const B&, const C&, const Eigen::Isometry3d& T, M6* H, V6* b, double* e) const {
    if (lin_calls) ++*lin_calls;
    H->bottomRightCorner<3, 3>() += w * gain * Eigen::Matrix3d::Identity();
    b->tail<3>() += w * T.linear().transpose() * (T.translation() - t0);
    for (int i = 0; i < 3; i++) (*H)(i, i) += 2 * wr;
    const Eigen::Matrix3d M = R0.transpose() * T.linear();
    b->head<3>() += wr * Eigen::Vector3d(M(2, 1) - M(1, 2), M(0, 2) - M(2, 0), M(1, 0) - M(0, 1));
    *e += cost(T);
  }
  template <typename A, typename B>
  void update_error(const A&, const B&, const Eigen::Isometry3d& T, double* e) const { if (err_calls) ++*err_calls; *e += cost(T); }
};

// se(3) log of an update, for judging it against the tolerances.
static void log_update(const Eigen::Isometry3d& D, double& rot, double& trans) {
  rot = vf::rot_angle(D.linear());
  Eigen::AngleAxisd aa(D.linear());
  const double th = aa.angle();
  Eigen::Vector3d v = D.translation();
  if (th > 1e-7) {
    const Eigen::Vector3d a = aa.axis();
    Eigen::Matrix3d A; A << 0, -a[2], a[1], a[2], 0, -a[0], -a[1], a[0], 0;
    const Eigen::Matrix3d V = Eigen::Matrix3d::Identity() + (1 - std::cos(th)) / th * A + (1 - std::sin(th) / th) * A * A;
    v = V.inverse() * v;
  }
  trans = v.norm();
}

struct RecordingCriteria {
  TerminationCriteria inner; double* max_rot;
  bool converged(const V6& d) const { *max_rot = std::max(*max_rot, d.head<3>().norm()); return inner.converged(d); }
};

template <typename F, typename Opt, typename Red, typename GF>
static void go(Case& c, const char* fn, Red inner) {
  constexpr bool LM = std::is_same<Opt, LevenbergMarquardtOptimizer>::value;
  vf::Rng& r = c.rng;
  auto target = make_cloud(r, r.coin(0.1) ? vf::Pts() : r.coin(0.6) ? vf::gen_scene(r, r.range(20, 200), 5.0) : vf::gen_cloud(r, r.range(1, 200), r.u(vf::CLOUD_KINDS), 5.0));
  auto source = r.coin(0.5) ? transform(*target, r.iso(0.4, 1.0)) : make_cloud(r, vf::gen_scene(r, r.range(0, 200), 5.0));
  KdTree<PointCloud> tree(target);
  Trace tr;
  Registration<F, TracingReduction<Red>, GF, DistanceRejector, Opt> reg;
  reg.reduction.inner = inner; reg.reduction.trace = &tr;
  reg.rejector.max_dist_sq = r.pick({0.25, 1.0, 4.0, 100.0});
  reg.criteria.translation_eps = r.pick({1e-3, 1e-6, 0.1, 0.0, 1.0});
  reg.criteria.rotation_eps = r.pick({1e-3, 1e-6, 0.1, 0.0, 1.0});
  if (r.coin(0.2)) { reg.criteria = TerminationCriteria(); }
  reg.optimizer.max_iterations = r.pick({0, 1, 2, 3, 5, 20, 50});
  size_t gl = 0, ge = 0;
  double prior_w = 0;
  if constexpr (std::is_same<GF, Prior>::value) {
    auto& g = reg.general_factor;
    g.w = r.pick({0.0, 1.0, 100.0, 1e4}); g.wr = r.pick({0.0, 1.0, 1e3}); g.gain = r.pick({1.0, 1.0, 0.01, 0.1}); g.ripple = r.pick({0.0, 0.0, 1.0, 50.0});
    g.t0 = r.vec3(2.0); if (r.coin()) g.R0 = r.rot();
    g.lin_calls = &gl; g.err_calls = &ge; prior_w = g.w + g.wr + g.ripple;
  }
  int inner_limit = 0;
  if constexpr (LM) {
    reg.optimizer.max_inner_iterations = inner_limit = r.pick({1, 2, 3, 10, 10});
    reg.optimizer.init_lambda = r.pick({1e-3, 1e-9, 1.0, 1e3, 1e-6});
    reg.optimizer.lambda_factor = r.pick({10.0, 2.0, 100.0});
  } else reg.optimizer.lambda = r.pick({1e-6, 1e-3, 10.0});
  const Eigen::Isometry3d init = r.coin(0.3) ? Eigen::Isometry3d::Identity() : r.iso(0.5, 1.0);
  c.describe("%s %s prior=%g nt=%zu ns=%zu max_iter=%d inner=%d eps=%g/%g", fn, LM ? "LM" : "GN", prior_w, target->size(), source->size(), reg.optimizer.max_iterations, inner_limit, reg.criteria.translation_eps, reg.criteria.rotation_eps);
  c.sig(c.idx);
  RegistrationResult res;
  { Quiet q; res = reg.align(*target, *source, tree, init); }
  auto gcost = [&](const Eigen::Isometry3d& T) { if constexpr (std::is_same<GF, Prior>::value) return reg.general_factor.cost(T); else return 0.0; };

  // ---- offline trace checker ----
  std::vector<size_t> lins;
  for (size_t i = 0; i < tr.ev.size(); i++) if (tr.ev[i].lin) lins.push_back(i);
  c.count("runs"); c.count("linearizations", lins.size()); c.count("trials", tr.ev.size() - lins.size());
  c.check((int)lins.size() <= reg.optimizer.max_iterations, "too-many-linearizations", "%zu linearisations with iteration limit %d", lins.size(), reg.optimizer.max_iterations);
  c.check((int)res.iterations <= std::max(reg.optimizer.max_iterations, 0), "iterations-exceed-limit", "result.iterations=%zu limit %d", (size_t)res.iterations, reg.optimizer.max_iterations);
  if (lins.empty()) {
    c.check(res.T_target_source.matrix() == init.matrix() && !res.converged, "no-linearization", "no linearisation but pose changed or converged=%d", (int)res.converged);
    return;
  }
  c.check(tr.ev[0].lin && tr.ev[0].T.matrix() == init.matrix(), "start-pose", "the first linearisation is not at the initial guess");
  c.nontrivial();
  bool finite = true;
  for (auto& e : tr.ev) finite = finite && e.T.matrix().allFinite() && std::isfinite(e.e);
  if (!finite) { c.count("non_finite_runs"); return; }
  // An update by a turn or more cannot be told from the pose change alone: on suspicion, look at the updates themselves.
  auto no_full_turns = [&]() {
    double mx = 0;
    RecordingCriteria rc{reg.criteria, &mx};
    std::vector<F> factors(source->size(), F(reg.point_factor));
    auto gf = reg.general_factor; Red red = inner;
    if constexpr (std::is_same<GF, Prior>::value) gf.lin_calls = gf.err_calls = nullptr;
    reg.optimizer.optimize(*target, *source, tree, reg.rejector, rc, red, init, factors, gf);
    if (mx > 3.0) c.count("runs_with_full_turns");
    return mx <= 3.0;
  };
  for (size_t k = 0; k < lins.size(); k++) {
    const Ev& L = tr.ev[lins[k]];
    const size_t nxt = k + 1 < lins.size() ? lins[k + 1] : tr.ev.size();
    const size_t trials = nxt - lins[k] - 1;
    if (LM) c.check((int)trials <= inner_limit, "too-many-trials", "iteration %zu: %zu trials, limit %d", k, trials, inner_limit);
    const Eigen::Isometry3d Tn = k + 1 < lins.size() ? tr.ev[lins[k + 1]].T : res.T_target_source;
    const double c0 = L.e + gcost(L.T);
    double c1;
    bool moved = Tn.matrix() != L.T.matrix();
    if (k + 1 < lins.size()) c1 = tr.ev[lins[k + 1]].e_at_entry + gcost(Tn);
    else {
      // the last pose: find the trial that evaluated it (factors are gone)
      bool f = !moved; c1 = c0;
      for (size_t j = lins[k] + 1; j < nxt; j++) if ((tr.ev[j].T.matrix() - Tn.matrix()).norm() == 0) { f = true; c1 = tr.ev[j].e + gcost(Tn); }
      if (LM) c.check(f, "unevaluated-pose", "the final pose was never evaluated");
      if (!LM) c1 = c0;
    }
    double rot, trans;
    log_update(L.T.inverse() * Tn, rot, trans);
    const double re = reg.criteria.rotation_eps, te = reg.criteria.translation_eps;
    const bool within = rot <= re && trans <= te;
    const bool edge = std::abs(rot - re) <= 1e-6 * re + 1e-9 || std::abs(trans - te) <= 1e-6 * te + 1e-9 * (1 + L.T.translation().norm());
    if (LM) {
      const double tol = 1e-10 * (std::abs(c0) + std::abs(c1)) + 1e-300;
      const bool accepted_trial_found = [&] { for (size_t j = lins[k] + 1; j < nxt; j++) if (tr.ev[j].e + gcost(tr.ev[j].T) <= c0) return true; return false; }();
      c.check(c1 <= c0 + tol, "cost-increased", "iteration %zu: accepted pose has total cost %.12g, the pose it replaces %.12g (general factor %.6g -> %.6g)", k, c1, c0, gcost(L.T), gcost(Tn));
      if (moved) c.count("accepted_steps");
      if (trials > 1) c.count("iterations_with_rejected_trials");
      const bool tie = [&] { for (size_t j = lins[k] + 1; j < nxt; j++) if (std::abs(tr.ev[j].e + gcost(tr.ev[j].T) - c0) <= tol) return true; return false; }();
      if (!accepted_trial_found && !tie) {
        c.count("runs_stopped_without_step");
        c.check(k + 1 == lins.size(), "continued-without-step", "iteration %zu: no trial decreased the cost but the run continued", k);
        c.check(!moved && !res.converged, "moved-without-step", "iteration %zu: no trial decreased the cost but moved=%d converged=%d", k, (int)moved, (int)res.converged);
      }
      if (k + 1 == lins.size()) {
        if (accepted_trial_found && !edge) c.check(res.converged == within || !no_full_turns(), "convergence-flag", "converged=%d but last accepted update was rot %.6g (limit %.3g) trans %.6g (limit %.3g)", (int)res.converged, rot, re, trans, te);
      }
    } else if (k + 1 == lins.size() && !edge) c.check(res.converged == within || !no_full_turns(), "convergence-flag", "GN converged=%d but last update was rot %.6g (limit %.3g) trans %.6g (limit %.3g)", (int)res.converged, rot, re, trans, te);
    if (k + 1 < lins.size() && within && !edge) c.check(!no_full_turns(), "linearized-after-convergence", "iteration %zu: update rot %.6g trans %.6g was within tolerance but another linearisation followed", k, rot, trans);
    if (within) c.count("converged_updates");
  }
  if ((int)lins.size() == reg.optimizer.max_iterations && !res.converged) c.count("runs_at_iteration_limit");
  if (res.converged) c.count("runs_converged");
  if (prior_w > 0) { c.count("runs_with_general_factor"); c.check(gl == lins.size(), "general-factor-linearizations", "general factor linearised %zu times in %zu iterations", gl, lins.size()); }
}

int main(int argc, char** argv) {
  return vf::main_loop(argc, argv, [](Case& c) {
    ParallelReductionOMP omp; omp.num_threads = 3;
    switch (c.rng.u(11)) {
      case 0: go<ICPFactor, LevenbergMarquardtOptimizer, SerialReduction, NullFactor>(c, "icp", SerialReduction()); break;
      case 1: go<ICPFactor, LevenbergMarquardtOptimizer, SerialReduction, Prior>(c, "icp", SerialReduction()); break;
      case 2: go<GICPFactor, LevenbergMarquardtOptimizer, ParallelReductionOMP, Prior>(c, "gicp", omp); break;
      case 3: go<PointToPlaneICPFactor, LevenbergMarquardtOptimizer, ParallelReductionTBB, NullFactor>(c, "plane", ParallelReductionTBB()); break;
      case 4: go<RobustFactor<Huber, GICPFactor>, LevenbergMarquardtOptimizer, SerialReduction, Prior>(c, "huber-gicp", SerialReduction()); break;
      case 5: case 6: go<Rugged, LevenbergMarquardtOptimizer, SerialReduction, NullFactor>(c, "rugged", SerialReduction()); break;
      case 7: case 8: go<Rugged, LevenbergMarquardtOptimizer, SerialReduction, Prior>(c, "rugged", SerialReduction()); break;
      case 9: go<ICPFactor, GaussNewtonOptimizer, SerialReduction, Prior>(c, "icp", SerialReduction()); break;
      default: go<GICPFactor, GaussNewtonOptimizer, SerialReduction, NullFactor>(c, "gicp", SerialReduction());
    }
  });
}
