// C11: parallel reduction equals the sequential sum under every schedule.
#include "vf.hpp"
#include <atomic>
#include <omp.h>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/factors/robust_kernel.hpp>
#include <small_gicp/registration/rejector.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
using namespace small_gicp;
using vf::Case;
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix<double, 6, 1> V6;

// A factor that records how often it is processed and refuses by a plan; unique contributions per factor.
struct ProbeFactor {
  struct Setting {};
  ProbeFactor(const Setting& = Setting()) {}
  template <typename A, typename B, typename C, typename D>
  bool linearize(const A& plan, const B&, const C&, const Eigen::Isometry3d&, size_t i, const D&, M6* H, V6* b, double* e) {
    lin++;
    index = i;
    H->setConstant(1e300); b->setConstant(1e300); *e = 1e300;  // rejected outputs must not be used
    in = plan[i];
    if (!in) return false;
    const double v = std::ldexp(1.0, (int)(i % 40)) ;
    H->setIdentity(); *H *= v; b->setConstant(v); *e = (double)(i + 1);
    return true;
  }
  template <typename A, typename B>
  double error(const A&, const B&, const Eigen::Isometry3d&) const { err++; return in ? (double)(index + 1) : 0.0; }
  bool inlier() const { return in; }
  int lin = 0;
  mutable int err = 0;
  bool in = false;
  size_t index = ~0ull;
};

static double rel(const M6& A, const M6& B, double s) { return (A - B).cwiseAbs().maxCoeff() / (s > 0 ? s : 1); }

template <typename Factor>
static void real_factors(Case& c, const char* fname) {
  vf::Rng& r = c.rng;
  const bool par = chaos_seed != nullptr;
  const size_t n = r.coin(0.2) ? r.range(0, 10) : par ? r.range(0, 300) : r.range(0, 1500);
  const size_t nt = r.coin(0.1) ? r.range(0, 5) : r.range(1, 400);
  auto tp = vf::gen_scene(r, nt), sp = vf::gen_scene(r, n);
  auto target = std::make_shared<PointCloud>(), source = std::make_shared<PointCloud>();
  auto fill = [&](PointCloud& pc, const vf::Pts& p) {
    pc.resize(p.size());
    for (size_t i = 0; i < p.size(); i++) {
      pc.point(i) = p[i];
      pc.normal(i).setZero(); pc.normal(i).head<3>() = r.dir();
      Eigen::Matrix3d R = r.rot(); pc.cov(i).setZero();
      pc.cov(i).topLeftCorner<3, 3>() = R * Eigen::Vector3d(1e-3, 1, 1).asDiagonal() * R.transpose();
    }
  };
  fill(*target, tp); fill(*source, sp);
  KdTree<PointCloud> tree(target);
  const Eigen::Isometry3d T = r.iso(0.5, 1.0), T2 = T * r.iso(0.05, 0.1);
  DistanceRejector rej; rej.max_dist_sq = r.pick({0.0, 0.1, 1.0, 9.0, 1e6});
  const int nth = r.pick({1, 2, 3, 4, 5, 8, 16});
  c.describe("factor=%s n=%zu nt=%zu max_dist_sq=%g threads=%d", fname, n, nt, rej.max_dist_sq, nth);

  std::vector<Factor> fs(n), fo(n), ft(n);
  // stale state from an earlier linearisation must not matter
  if (r.coin(0.3)) { SerialReduction s; DistanceRejector all; all.max_dist_sq = 1e9; s.linearize(*target, *source, tree, all, T2, fs); fo = std::vector<Factor>(); fo.reserve(n); for (auto& f : fs) fo.emplace_back(f); ft.clear(); for (auto& f : fs) ft.emplace_back(f); c.count("with_stale_state"); }
  SerialReduction ser; ParallelReductionOMP omp; omp.num_threads = nth; ParallelReductionTBB tbb_;
  auto [H0, b0, e0] = ser.linearize(*target, *source, tree, rej, T, fs);
  // independent sums in long double
  Eigen::Matrix<long double, 6, 6> HL = Eigen::Matrix<long double, 6, 6>::Zero(); Eigen::Matrix<long double, 6, 1> bL = Eigen::Matrix<long double, 6, 1>::Zero(); long double eL = 0;
  double habs = 0, babs = 0, eabs = 0; size_t inl = 0;
  { std::vector<Factor> one(n);
    for (size_t i = 0; i < n; i++) { M6 H; V6 b; double e; if (one[i].linearize(*target, *source, tree, T, i, rej, &H, &b, &e)) { HL += H.cast<long double>(); bL += b.cast<long double>(); eL += e; habs += H.cwiseAbs().maxCoeff(); babs += b.cwiseAbs().maxCoeff(); eabs += e; inl++; } } }
  const double te0 = ser.error(*target, *source, T2, fs);
  auto cmp = [&](const char* nm, const M6& H, const V6& b, double e, std::vector<Factor>& f, double te) {
    c.count("reductions_compared"); c.count("factors_reduced", n);
    const double tol = 1e-13 * (n + 10);
    c.check(rel(H, HL.template cast<double>(), habs) <= tol, "H-differs", "%s: information matrix differs from the sum by %.3g (relative)", nm, rel(H, HL.template cast<double>(), habs));
    c.check((b - bL.template cast<double>()).cwiseAbs().maxCoeff() <= tol * babs + 1e-300, "b-differs", "%s: information vector off by %.3g", nm, (b - bL.template cast<double>()).cwiseAbs().maxCoeff());
    c.check(std::abs(e - (double)eL) <= tol * eabs + 1e-300, "e-differs", "%s: error %.17g expected %.17g", nm, e, (double)eL);
    c.check(std::abs(te - te0) <= tol * std::abs(te0) + 1e-300, "error-differs", "%s: error at the second pose %.17g sequential %.17g", nm, te, te0);
    for (size_t i = 0; i < n; i++) {
      c.check(f[i].inlier() == fs[i].inlier(), "state-differs", "%s: factor %zu inlier %d vs %d", nm, i, (int)f[i].inlier(), (int)fs[i].inlier());
      const double a = f[i].error(*target, *source, T2), b2 = fs[i].error(*target, *source, T2);
      c.check(vf::close(a, b2, 1e-12, 0), "state-differs", "%s: factor %zu error at another pose %.17g vs %.17g (correspondence state)", nm, i, a, b2);
    }
  };
  cmp("serial", H0, b0, e0, fs, te0);
  { auto [H, b, e] = omp.linearize(*target, *source, tree, rej, T, fo); const double te = omp.error(*target, *source, T2, fo); cmp("omp", H, b, e, fo, te); }
  { auto [H, b, e] = tbb_.linearize(*target, *source, tree, rej, T, ft); const double te = tbb_.error(*target, *source, T2, ft); cmp("tbb", H, b, e, ft, te); }
  if (inl) c.nontrivial();
  c.count("inliers", inl); c.count("rejected", n - inl);
}

static void probe(Case& c) {
  vf::Rng& r = c.rng;
  const size_t n = c.rare(97, 5) ? 66000 + r.u(20000) : r.pick({(size_t)0, (size_t)1, (size_t)2, (size_t)7, (size_t)8, (size_t)9, (size_t)r.range(10, 200), (size_t)r.range(200, 3000)});
  const double p = r.pick({0.0, 0.1, 0.5, 0.9, 1.0});
  if (n >= 65536) c.count("large_clouds");
  std::vector<char> plan(n); for (auto& x : plan) x = r.coin(p);
  const int nth = r.coin(0.1) ? r.pick({17, 33, 65, 130}) : r.pick({1, 2, 3, 4, 7, 8, 16});
  if (nth > 16) c.count("many_threads");
  c.describe("probe n=%zu keep=%g threads=%d", n, p, nth);
  for (auto x : plan) c.sig(x);
  const Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
  M6 H0 = M6::Zero(); V6 b0 = V6::Zero(); double e0 = 0; size_t kept = 0;
  for (size_t i = 0; i < n; i++) if (plan[i]) { const double v = std::ldexp(1.0, (int)(i % 40)); H0 += M6::Identity() * v; b0.array() += v; e0 += i + 1; kept++; }
  auto go = [&](const char* nm, auto red) {
    std::vector<ProbeFactor> f(n);
    const int rounds = 2;
    for (int k = 0; k < rounds; k++) {
      auto [H, b, e] = red.linearize(plan, plan, plan, plan, T, f);
      // all sums are exactly representable: equality must be exact whatever the order
      c.check(H == H0 && b == b0 && e == e0, "probe-sum", "%s: H00 %.17g (expected %.17g) e %.17g (expected %.17g)", nm, H(0, 0), H0(0, 0), e, e0);
      const double te = red.error(plan, plan, T, f);
      c.check(te == e0, "probe-error", "%s: error %.17g expected %.17g", nm, te, e0);
    }
    for (size_t i = 0; i < n; i++) {
      c.check(f[i].lin == rounds && f[i].err == rounds, "not-exactly-once", "%s: factor %zu processed %d/%d times in %d calls", nm, i, f[i].lin, f[i].err, rounds);
      c.check(f[i].index == i, "wrong-index", "%s: factor %zu got source index %zu", nm, i, f[i].index);
    }
    c.count("probe_factors", n * rounds); c.count("reductions_compared");
  };
  ParallelReductionOMP omp; omp.num_threads = nth;
  go("serial", SerialReduction()); go("omp", omp); go("tbb", ParallelReductionTBB());
  if (kept) c.nontrivial();
}

int main(int argc, char** argv) {
  return vf::main_loop(argc, argv, [](Case& c) {
    if (c.rare(97, 5)) return probe(c);
    switch (c.rng.u(8)) {
      case 0: real_factors<ICPFactor>(c, "icp"); break;
      case 1: real_factors<PointToPlaneICPFactor>(c, "plane"); break;
      case 2: real_factors<GICPFactor>(c, "gicp"); break;
      case 3: real_factors<RobustFactor<Huber, ICPFactor>>(c, "huber"); break;
      case 4: real_factors<RobustFactor<Cauchy, GICPFactor>>(c, "cauchy-gicp"); break;
      default: probe(c);
    }
  });
}
