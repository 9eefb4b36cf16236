// C13: robust kernels and DoF restriction do what they promise.
#include "reg.hpp"
using namespace reg;
using vf::Case;

template <typename K> struct KernelSpec;
template <> struct KernelSpec<Huber> { static const char* name() { return "huber"; } static double w(double c, double x) { x = std::abs(x); return x < c ? 1.0 : c / x; } };
template <> struct KernelSpec<Cauchy> { static const char* name() { return "cauchy"; } static double w(double c, double x) { return c / (c + x * x); } };

template <typename K>
static void kernel(Case& c) {
  vf::Rng& r = c.rng;
  typename K::Setting s;
  K dflt(s);
  c.check(dflt.weight(0.0) == 1.0, "weight-at-zero", "%s default weight(0)=%.17g", KernelSpec<K>::name(), dflt.weight(0.0));
  s.c = r.logreal(1e-4, 1e3);
  K k(s);
  std::vector<double> xs = {0.0, s.c, s.c * (1 - 1e-9), s.c * (1 + 1e-9), s.c * 0.5, s.c * 2, 1e-12, 1e6, std::sqrt(s.c)};
  for (int i = 0; i < 40; i++) xs.push_back(r.logreal(1e-8, 1e6));
  std::sort(xs.begin(), xs.end());
  double prev = 2;
  for (double x : xs) {
    const double w = k.weight(x);
    c.count("kernel_evaluations");
    c.check(w > 0 && w <= 1, "weight-range", "%s c=%g weight(%g)=%.17g", KernelSpec<K>::name(), s.c, x, w);
    c.check(w <= prev * (1 + 1e-12), "weight-increases", "%s c=%g weight(%g)=%.17g after %.17g", KernelSpec<K>::name(), s.c, x, w, prev);
    c.check(std::abs(k.weight(-x) - w) <= 1e-12, "weight-sign", "%s c=%g weight(-%g)=%.17g vs %.17g", KernelSpec<K>::name(), s.c, x, k.weight(-x), w);
    c.check(vf::close(w, KernelSpec<K>::w(s.c, x), 1e-6, 0), "weight-formula", "%s c=%g weight(%g)=%.17g expected %.17g", KernelSpec<K>::name(), s.c, x, w, KernelSpec<K>::w(s.c, x));
    prev = w;
  }
}

template <typename K, typename F>
static void robust(Case& c) {
  vf::Rng& r = c.rng;
  const double scale = r.pick({1.0, 10.0});
  auto target = make_cloud(r, vf::gen_cloud(r, r.range(1, 60), vf::UNIFORM, scale));
  auto source = make_cloud(r, vf::gen_cloud(r, r.range(1, 20), vf::UNIFORM, scale));
  if (r.coin(0.2)) for (size_t i = 0; i < std::min(source->size(), target->size()); i++) source->point(i) = target->point(i);  // zero residuals
  KdTree<PointCloud> tree(target);
  typename RobustFactor<K, F>::Setting st;
  st.robust_kernel.c = r.logreal(1e-3, 30);
  c.describe("%s<%s> c=%.6g nt=%zu ns=%zu", KernelSpec<K>::name(), kname(KindOf<F>::v), st.robust_kernel.c, target->size(), source->size());
  kernel<K>(c);
  K kern(st.robust_kernel);
  Registration<RobustFactor<K, F>, SerialReduction> plumbing;
  plumbing.point_factor.robust_kernel.c = st.robust_kernel.c;
  for (size_t i = 0; i < source->size(); i++) {
    RobustFactor<K, F> rf(r.coin() ? st : plumbing.point_factor);
    F pf;
    for (int round = 0; round < 2; round++) {
      const Eigen::Isometry3d T = r.coin(0.3) ? Eigen::Isometry3d::Identity() : r.iso(0.5, scale);
      DistanceRejector rej; rej.max_dist_sq = r.pick({0.05 * scale * scale, 1e9, 1e9});
      M6 H, Hr; V6 b, br; double e, er;
      const bool ok = pf.linearize(*target, *source, tree, T, i, rej, &H, &b, &e);
      const bool okr = rf.linearize(*target, *source, tree, T, i, rej, &Hr, &br, &er);
      c.count("robust_linearizations");
      c.check(ok == okr && rf.inlier() == pf.inlier(), "acceptance", "robust %d plain %d", (int)okr, (int)ok);
      if (!ok || !okr) { c.count("rejected"); c.check(rf.error(*target, *source, T) == 0.0, "rejected-error", "rejected robust factor reports %g", rf.error(*target, *source, T)); continue; }
      c.nontrivial();
      const double w = KernelSpec<K>::w(st.robust_kernel.c, std::sqrt(e));
      if (w < 0.999) c.count("down_weighted"); else c.count("full_weight");
      c.check((Hr - w * H).norm() <= 1e-9 * w * H.norm() + 1e-300, "H-scale", "|Hr - wH|=%.3g w=%.9g ratio=%.9g", (Hr - w * H).norm(), w, Hr.norm() / H.norm());
      c.check((br - w * b).norm() <= 1e-9 * w * b.norm() + 1e-300, "b-scale", "w=%.9g ratio=%.9g", w, br.norm() / b.norm());
      c.check(std::abs(er - w * e) <= 1e-9 * w * e + 1e-300, "e-scale", "w=%.9g e=%.9g robust=%.9g", w, e, er);
      for (int k = 0; k < 3; k++) {
        const Eigen::Isometry3d T2 = k ? T * r.iso(0.3, k == 1 ? 0.1 : scale) : T;
        const double p = pf.error(*target, *source, T2), q = rf.error(*target, *source, T2), w2 = KernelSpec<K>::w(st.robust_kernel.c, std::sqrt(p));
        c.check(std::abs(q - w2 * p) <= 1e-9 * w2 * p + 1e-300, k ? "error-elsewhere" : "error-same-pose", "plain %.9g weight %.9g robust %.9g", p, w2, q);
        if (k == 0) c.check(std::abs(q - er) <= 1e-9 * std::abs(er) + 1e-300, "error-vs-linearization", "linearize %.17g error %.17g", er, q);
        c.count("robust_errors");
      }
    }
  }
}

// General factor that wraps RestrictDoFFactor and records the unrestricted and restricted systems.
struct RecordingRestrict {
  RestrictDoFFactor inner;
  struct Rec { M6 H0, H1; V6 b0, b1; double e0, e1; Eigen::Isometry3d T; };
  std::vector<Rec>* rec = nullptr;
  std::vector<double>* err = nullptr;
  template <typename A, typename B, typename C>
  void update_linearized_system(const A& t, const B& s, const C& tr, const Eigen::Isometry3d& T, M6* H, V6* b, double* e) const {
    Rec q; q.H0 = *H; q.b0 = *b; q.e0 = *e; q.T = T;
    inner.update_linearized_system(t, s, tr, T, H, b, e);
    q.H1 = *H; q.b1 = *b; q.e1 = *e; rec->push_back(q);
  }
  template <typename A, typename B>
  void update_error(const A& t, const B& s, const Eigen::Isometry3d& T, double* e) const { const double x = *e; inner.update_error(t, s, T, e); err->push_back(*e - x); }
};
// Termination criteria that record every update they are shown.
struct RecordingCriteria {
  TerminationCriteria inner; std::vector<V6>* deltas;
  bool converged(const V6& d) const { deltas->push_back(d); return inner.converged(d); }
};

template <typename F, typename Opt>
static void restrict_dof(Case& c) {
  vf::Rng& r = c.rng;
  auto scene = vf::gen_scene(r, r.range(100, 400), 5.0);
  auto target = make_cloud(r, scene);
  const Eigen::Isometry3d Tt = r.iso(0.2, 0.5);
  auto source = transform(*target, Tt.inverse());
  if (r.coin(0.3)) source = make_cloud(r, vf::gen_scene(r, r.range(50, 300), 5.0));
  KdTree<PointCloud> tree(target);
  RecordingRestrict g;
  std::vector<RecordingRestrict::Rec> rec; std::vector<double> err; std::vector<V6> deltas;
  g.rec = &rec; g.err = &err;
  Eigen::Array<double, 6, 1> mask;
  for (int i = 0; i < 6; i++) mask[i] = r.coin() ? 1.0 : 0.0;
  g.inner.set_rotation_mask(mask.head<3>()); g.inner.set_translation_mask(mask.tail<3>());
  const bool custom = r.coin(0.3);
  if (custom) g.inner.lambda = r.pick({1e6, 1e8, 1e12});
  const double lam = custom ? g.inner.lambda : 1e9;
  c.check(custom || g.inner.lambda == 1e9, "default-lambda", "default restriction weight is %g", g.inner.lambda);
  char ms[32]; snprintf(ms, sizeof ms, "%d%d%d%d%d%d", (int)mask[0], (int)mask[1], (int)mask[2], (int)mask[3], (int)mask[4], (int)mask[5]);
  c.describe("restrict %s %s mask=%s lambda=%g n=%zu", kname(KindOf<F>::v), std::is_same<Opt, GaussNewtonOptimizer>::value ? "GN" : "LM", ms, lam, source->size());
  RecordingCriteria crit; crit.deltas = &deltas;
  if (r.coin()) { crit.inner.translation_eps = 1e-6; crit.inner.rotation_eps = 1e-6; }
  Opt opt; opt.max_iterations = 15;
  DistanceRejector rej; rej.max_dist_sq = r.pick({1.0, 4.0, 100.0});
  SerialReduction red;
  std::vector<F> factors(source->size());
  const Eigen::Isometry3d init = r.iso(0.1, 0.1);
  const auto res = opt.optimize(*target, *source, tree, rej, crit, red, init, factors, g);
  c.count("restricted_runs");
  for (auto& q : rec) {
    M6 D = q.H1 - q.H0;
    c.check(q.b1 == q.b0 && q.e1 == q.e0, "restrict-touches-b-or-e", "DoF restriction changed the vector or error");
    for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) {
      const double want = i == j && mask[i] == 0 ? lam : 0.0;
      c.check(std::abs(D(i, j) - want) <= 1e-9 * want + 1e-12 * q.H1.norm() * (want != 0), "restrict-H", "H(%d,%d) changed by %.6g, expected %.6g (mask %s)", i, j, D(i, j), want, ms);
    }
    c.count("restricted_systems");
  }
  for (double d : err) c.check(d == 0.0, "restrict-error", "DoF restriction changed the evaluated error by %g", d);
  double moved = 0;
  for (auto& d : deltas) {
    // an inactive axis may move at most by (gradient + coupling)/lambda of some linearised system of this run
    double bound = 0;
    for (auto& q : rec) bound = std::max(bound, (q.b0.norm() + q.H0.norm() * d.norm()) / lam);
    for (int i = 0; i < 6; i++) if (mask[i] == 0) {
      c.check(std::abs(d[i]) <= 1.01 * bound + 1e-12 * d.norm(), "inactive-axis-moves", "axis %d moved by %.6g in one update (bound %.3g, mask %s)", i, d[i], bound, ms);
      c.count("inactive_axes_checked"); moved += std::abs(d[i]);
      c.maxi("largest_inactive_motion", std::abs(d[i]));
    } else if (std::abs(d[i]) > 1e-4) c.count("active_axes_moved");
  }
  // the aligned pose: with every rotation axis inactive the attitude is kept, with every translation inactive too the pose is
  if (mask.head<3>().isZero()) { c.check(rot_diff(init, res.T_target_source) <= 1e-9 + 3 * moved, "restricted-rotation", "rotation moved by %g", rot_diff(init, res.T_target_source)); }
  if (mask.head<3>().isZero()) {
    const Eigen::Vector3d dt = init.linear().transpose() * (res.T_target_source.translation() - init.translation());
    for (int i = 0; i < 3; i++) if (mask[3 + i] == 0) c.check(std::abs(dt[i]) <= 1e-9 + 3 * moved * (1 + dt.norm()), "restricted-translation", "restricted axis %d moved by %g", i, dt[i]);
    c.count("poses_checked");
  }
  // axes active and nothing restricted: identical to the unrestricted problem
  if (mask.isOnes()) {
    Registration<F, SerialReduction, NullFactor, DistanceRejector, Opt> a; a.criteria = crit.inner; a.rejector = rej; a.optimizer = opt;
    const auto ra = a.align(*target, *source, tree, init);
    c.check((ra.T_target_source.matrix() - res.T_target_source.matrix()).norm() < 1e-12 && ra.iterations == res.iterations, "unrestricted-differs", "all axes active but result differs from the unrestricted one");
    c.count("all_active_runs");
  } else {
    // through the public interface
    Registration<F, SerialReduction, RestrictDoFFactor, DistanceRejector, Opt> a; a.criteria = crit.inner; a.rejector = rej; a.optimizer = opt;
    a.general_factor = g.inner;
    const auto ra = a.align(*target, *source, tree, init);
    c.check((ra.T_target_source.matrix() - res.T_target_source.matrix()).norm() < 1e-12 && ra.iterations == res.iterations, "align-differs", "Registration::align does not apply the DoF restriction like the optimiser");
  }
  c.nontrivial();
}

int main(int argc, char** argv) {
  return vf::main_loop(argc, argv, [](Case& c) {
    switch (c.idx % 9) {
      case 0: robust<Huber, ICPFactor>(c); break;
      case 1: robust<Cauchy, GICPFactor>(c); break;
      case 2: robust<Huber, PointToPlaneICPFactor>(c); break;
      case 3: robust<Cauchy, ICPFactor>(c); break;
      case 4: robust<Huber, GICPFactor>(c); break;
      case 5: restrict_dof<ICPFactor, LevenbergMarquardtOptimizer>(c); break;
      case 6: restrict_dof<GICPFactor, GaussNewtonOptimizer>(c); break;
      case 7: restrict_dof<GICPFactor, LevenbergMarquardtOptimizer>(c); break;
      default: restrict_dof<PointToPlaneICPFactor, GaussNewtonOptimizer>(c);
    }
  });
}
