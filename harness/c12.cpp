// C12: per-point factors linearise their own cost correctly.
#include "reg.hpp"
using namespace reg;
using vf::Case;

// Rejector that records what it is asked, and answers by a fixed threshold.
struct ProbeRejector {
  double max_sq;
  mutable size_t ti, si; mutable double d2; mutable int calls = 0; mutable Eigen::Isometry3d T;
  template <typename A, typename B>
  bool operator()(const A&, const B&, const Eigen::Isometry3d& T_, size_t t, size_t s, double d) const { ti = t; si = s; d2 = d; T = T_; calls++; return d > max_sq; }
};

template <typename F, typename TC, typename SC, typename Tree>
static void check_factor(Case& c, F& f, const TC& target, const SC& source, const Tree& tree, const PointCloud* brute, const Eigen::Isometry3d& T, size_t si, double max_sq, const char* stage) {
  constexpr Kind K = KindOf<F>::v;
  vf::Rng& r = c.rng;
  const char* kn = kname(K);
  const Eigen::Vector4d q4 = T * Eigen::Vector4d(traits::point(source, si));
  M6 H; V6 b; double e;
  H.setConstant(777); b.setConstant(777); e = 777;
  ProbeRejector rej{max_sq};
  const bool ok = f.linearize(target, source, tree, T, si, rej, &H, &b, &e);
  c.count("linearizations");
  // expected correspondence
  std::vector<size_t> cands;  // admissible target indices (several on ties)
  double nd = 1e300;
  if (brute) {
    for (size_t i = 0; i < brute->size(); i++) nd = std::min(nd, (brute->point(i) - q4).head<3>().squaredNorm());
    for (size_t i = 0; i < brute->size(); i++) if ((brute->point(i) - q4).head<3>().squaredNorm() <= nd * (1 + 1e-12) + 1e-300) cands.push_back(i);
  } else {
    size_t i; double d;
    if (traits::nearest_neighbor_search(tree, q4, &i, &d)) { nd = d; cands.push_back(i); }
  }
  if (rej.calls) {
    c.check(vf::close(rej.d2, nd, 1e-9, 1e-18), "rejector-distance", "%s %s: rejector saw squared distance %.17g, nearest is %.17g", kn, stage, rej.d2, nd);
    c.check(rej.si == si, "rejector-source", "%s %s: rejector got source index %zu for %zu", kn, stage, rej.si, si);
    c.check(std::find(cands.begin(), cands.end(), rej.ti) != cands.end(), "rejector-target", "%s %s: rejector got target %zu which is not nearest", kn, stage, rej.ti);
    c.check(rej.T.matrix() == T.matrix(), "rejector-pose", "%s %s: rejector got another pose", kn, stage);
  }
  const bool edge = !cands.empty() && std::abs(nd - max_sq) <= 1e-12 * (nd + max_sq);
  const bool expect = !cands.empty() && nd <= max_sq;
  if (!edge) c.check(ok == expect, "acceptance", "%s %s: linearize returned %d, nearest squared distance %.9g, limit %.9g, %zu candidates", kn, stage, (int)ok, nd, max_sq, cands.size());
  c.check(f.inlier() == ok, "inlier-flag", "%s %s: linearize returned %d but inlier() is %d", kn, stage, (int)ok, (int)f.inlier());
  if (!ok) {
    c.count(cands.empty() ? "no_neighbour" : "rejected");
    for (int k = 0; k < 3; k++) {
      const double er = f.error(target, source, k ? T * r.iso(1.0, 3.0) : T);
      c.check(er == 0.0, "rejected-error", "%s %s: rejected factor reports error %.9g", kn, stage, er);
    }
    return;
  }
  c.count("accepted"); c.nontrivial();
  // pick the admissible candidate that fits (ties)
  double best = 1e300; std::string why; const char* key = "cost";
  const double scale_s = Eigen::Vector4d(traits::point(source, si)).head<3>().norm();
  for (size_t ti : cands) {
    const Match m = match<K>(target, ti, source, si);
    const M3L W = weight(K, m, T);
    const double wn = (double)W.norm();
    const Lin l = linearize(m, W, T);
    const double rn = (double)(m.t - (T.linear().cast<LD>() * m.s + T.translation().cast<LD>())).norm();
    const double mag = (double)m.t.norm() + scale_s + T.translation().norm();
    const double jn = 1 + scale_s;
    // rounding: residual absolute error eps*mag, inverse of the fused covariance eps*cond
    const double cond = K == GICP ? wn * (double)(m.Ct + m.Cs).norm() + 1 : 1;
    const double er = 1e-13 * mag * 4, ew = 1e-13 * cond;
    const double tH = wn * jn * jn * (ew + 1e-13) + 1e-300, tb = wn * jn * (er + rn * (ew + 1e-13)) + 1e-300, te = wn * ((rn + er) * er + rn * rn * (ew + 1e-13)) + 1e-300;
    const double dH = (H - l.H.template cast<double>()).norm() / tH, db = (b - l.b.template cast<double>()).norm() / tb, de = std::abs(e - (double)l.e) / te;
    double worst = std::max({dH, db, de}); const char* kk = dH > 1 ? "hessian" : db > 1 ? "gradient" : "cost";
    char buf[300];
    snprintf(buf, sizeof buf, "|H err|=%.3g (|H|=%.3g) |b err|=%.3g (|b|=%.3g) |e err|=%.3g (e=%.6g, expected %.6g)", dH * tH, (double)l.H.norm(), db * tb, (double)l.b.norm(), de * te, e, (double)l.e);
    std::string msg = buf;
    // the reported error at this and other poses, correspondence and weighting fixed
    for (int k = 0; k < 4; k++) {
      const Eigen::Isometry3d T2 = k == 0 ? T : T * r.iso(k == 1 ? 1e-3 : 1.0, k == 1 ? 1e-3 : 2.0);
      const double fe = f.error(target, source, T2), oe = (double)cost(m, W, T2);
      const double rn2 = (double)(m.t - (T2.linear().cast<LD>() * m.s + T2.translation().cast<LD>())).norm();
      const double er2 = 1e-13 * (mag + T2.translation().norm()) * 4;
      const double tol = wn * ((rn2 + er2) * er2 + rn2 * rn2 * (ew + 1e-13)) + 1e-300;
      const double d = std::abs(fe - oe) / tol;
      if (d > worst) { worst = d; if (d > 1) { kk = k ? "error-elsewhere" : "error-at-same-pose"; snprintf(buf, sizeof buf, "error() at %s pose %.17g, cost at the chosen correspondence and weighting %.17g (linearisation value %.17g)", k ? "another" : "the same", fe, oe, e); msg = buf; } }
    }
    if (worst < best) { best = worst; why = msg; key = kk; }
  }
  if (best > 1) { c.check(false, key, "%s %s: %s", kn, stage, why.c_str()); return; }
  c.maxi("worst_deviation_over_tolerance", best);
  // symmetry, positive semi-definiteness
  c.check((H - H.transpose()).norm() <= 1e-12 * H.norm(), "not-symmetric", "%s %s: H asymmetric by %.3g", kn, stage, (H - H.transpose()).norm());
  Eigen::SelfAdjointEigenSolver<M6> es(H);
  c.check(es.eigenvalues()[0] >= -1e-9 * (H.norm() + 1e-300), "not-psd", "%s %s: smallest eigenvalue %.3g of %.3g", kn, stage, es.eigenvalues()[0], H.norm());
  // gradient of the factor's own error() by central differences with Richardson extrapolation
  auto fe = [&](int a, double h) { return f.error(target, source, perturb(T, a, h)); };
  const double h = 1e-3;
  V6 g;
  for (int a = 0; a < 6; a++) { const double d1 = (fe(a, h) - fe(a, -h)) / (2 * h), d2 = (fe(a, h / 2) - fe(a, -h / 2)) / h; g[a] = (4 * d2 - d1) / 3; }
  const double gs = H.norm() * 1e-2 + b.norm() + std::abs(e);
  c.check((g - b).norm() <= 1e-6 * gs, "numeric-gradient", "%s %s: returned vector differs from the numerical gradient of error() by %.3g (|b|=%.3g)", kn, stage, (g - b).norm(), b.norm());
  c.count("gradients_checked");
}

template <typename F>
static void history(Case& c) {
  vf::Rng& r = c.rng;
  constexpr Kind K = KindOf<F>::v;
  const bool vox = K == GICP && r.coin(0.3);
  const bool lattice = r.coin(0.2);
  const size_t nt = r.coin(0.08) ? 0 : r.range(1, 60), ns = r.range(1, 12);
  const double scale = r.pick({1.0, 5.0, 50.0});
  auto target = make_cloud(r, vf::gen_cloud(r, nt, lattice ? vf::LATTICE : r.u(vf::CLOUD_KINDS) == vf::FAR_AWAY ? vf::UNIFORM : r.pick({(int)vf::UNIFORM, (int)vf::CLUSTERED, (int)vf::DUPLICATES, (int)vf::SPHERE, (int)vf::COINCIDENT, (int)vf::LIDAR}), scale));
  auto source = make_cloud(r, vf::gen_cloud(r, ns, r.pick({(int)vf::UNIFORM, (int)vf::SPHERE, (int)vf::LIDAR}), scale));
  KdTree<PointCloud> tree(target);
  GaussianVoxelMap vm(scale * 0.3);
  vm.set_search_offsets(r.pick({1, 7, 27}));
  vm.insert(*target);
  const double d0 = scale * scale;
  c.describe("%s%s nt=%zu ns=%zu scale=%g", kname(K), vox ? "+voxelmap" : "", nt, ns, scale);
  c.sig(c.idx);
  std::vector<F> fs(ns);
  const int rounds = r.range(2, 5);
  for (int k = 0; k < rounds; k++) {
    const Eigen::Isometry3d T = r.coin(0.2) ? Eigen::Isometry3d::Identity() : r.iso(M_PI, r.coin(0.3) ? scale * 5 : scale * 0.3);
    const double lim = r.pick({0.0, 0.01 * d0, 0.1 * d0, d0, 1e9, 1e9});
    char stage[64]; snprintf(stage, sizeof stage, "round %d limit %.3g", k, lim);
    for (size_t i = 0; i < ns; i++) {
      const size_t si = r.coin(0.8) ? i : r.u(ns);
      const bool was = fs[i].inlier();
      if constexpr (K == GICP) if (vox) { check_factor(c, fs[i], vm, *source, vm, nullptr, T, si, lim, stage); goto done; }
      check_factor(c, fs[i], *target, *source, tree, target.get(), T, si, lim, stage);
      done:
      if (was && !fs[i].inlier()) c.count("inlier_then_outlier");
      if (!was && fs[i].inlier() && k) c.count("outlier_then_inlier");
      if (!c.reported.empty()) return;
    }
    // the library's own distance rejector honours its limit
    DistanceRejector dr; dr.max_dist_sq = lim;
    const double x = r.pick({lim, lim * (1 + 1e-9), lim * 0.5, lim * 2 + 1e-12, 0.0});
    c.check(dr(*target, *source, T, 0, 0, x) == (x > lim), "distance-rejector", "squared distance %.17g limit %.17g", x, lim);
    NullRejector nr; c.check(!nr(*target, *source, T, 0, 0, 1e300), "null-rejector", "rejected");
  }
  F fresh; c.check(!fresh.inlier() && fresh.error(*target, *source, Eigen::Isometry3d::Identity()) == 0.0, "fresh-factor", "a factor that was never linearised counts as inlier or has an error");
}

int main(int argc, char** argv) {
  return vf::main_loop(argc, argv, [](Case& c) {
    switch (c.idx % 3) { case 0: history<ICPFactor>(c); break; case 1: history<PointToPlaneICPFactor>(c); break; default: history<GICPFactor>(c); }
  });
}
