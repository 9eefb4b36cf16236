// Shared by the registration harnesses: clouds, long-double factor oracle, tracing reduction, brute-force correspondences.
#pragma once
#include "vf.hpp"
#include <omp.h>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/factors/robust_kernel.hpp>
#include <small_gicp/factors/general_factor.hpp>
#include <small_gicp/registration/rejector.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/registration/optimizer.hpp>
#include <small_gicp/registration/registration.hpp>

namespace reg {
using namespace small_gicp;
using LD = long double;
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<LD, 3, 3> M3L;
typedef Eigen::Matrix<LD, 3, 1> V3L;
typedef Eigen::Matrix<LD, 6, 6> M6L;
typedef Eigen::Matrix<LD, 6, 1> V6L;
typedef Eigen::Matrix<LD, 3, 6> J36;

enum Kind { ICP, PLANE, GICP };
template <typename F> struct KindOf;
template <> struct KindOf<ICPFactor> { static constexpr Kind v = ICP; };
template <> struct KindOf<PointToPlaneICPFactor> { static constexpr Kind v = PLANE; };
template <> struct KindOf<GICPFactor> { static constexpr Kind v = GICP; };
inline const char* kname(Kind k) { return k == ICP ? "icp" : k == PLANE ? "plane" : "gicp"; }

inline M3L skewL(const V3L& x) { M3L s; s << 0, -x[2], x[1], x[2], 0, -x[0], -x[1], x[0], 0; return s; }

// One source/target match with the attributes the cost depends on.
struct Match { V3L t, n, s; M3L Ct, Cs; };
struct Lin { M6L H = M6L::Zero(); V6L b = V6L::Zero(); LD e = 0; };

inline M3L weight(Kind k, const Match& m, const Eigen::Isometry3d& T) {
  if (k == GICP) { const M3L R = T.linear().cast<LD>(); return (m.Ct + R * m.Cs * R.transpose()).inverse(); }
  if (k == PLANE) return m.n.cwiseProduct(m.n).asDiagonal();
  return M3L::Identity();
}
inline LD cost(const Match& m, const M3L& W, const Eigen::Isometry3d& T) {
  const V3L r = m.t - (T.linear().cast<LD>() * m.s + T.translation().cast<LD>());
  return (LD)0.5 * r.dot(W * r);
}
inline Lin linearize(const Match& m, const M3L& W, const Eigen::Isometry3d& T) {
  const M3L R = T.linear().cast<LD>();
  const V3L r = m.t - (R * m.s + T.translation().cast<LD>());
  J36 J; J.leftCols<3>() = R * skewL(m.s); J.rightCols<3>() = -R;
  Lin l; l.H = J.transpose() * W * J; l.b = J.transpose() * W * r; l.e = (LD)0.5 * r.dot(W * r);
  return l;
}

template <Kind k, typename TC, typename SC>
Match match(const TC& target, size_t ti, const SC& source, size_t si) {
  Match m;
  m.t = Eigen::Vector4d(traits::point(target, ti)).template head<3>().template cast<LD>();
  m.s = Eigen::Vector4d(traits::point(source, si)).template head<3>().template cast<LD>();
  m.n.setZero(); m.Ct.setZero(); m.Cs.setZero();
  if constexpr (k == PLANE) { m.n = Eigen::Vector4d(traits::normal(target, ti)).template head<3>().template cast<LD>(); }
  if constexpr (k == GICP) {
    m.Ct = Eigen::Matrix4d(traits::cov(target, ti)).template topLeftCorner<3, 3>().template cast<LD>();
    m.Cs = Eigen::Matrix4d(traits::cov(source, si)).template topLeftCorner<3, 3>().template cast<LD>();
  }
  return m;
}

// Brute-force nearest point; second nearest distance tells ties.
struct NN { size_t i; double d2, second; };
inline NN brute_nn(const PointCloud& target, const Eigen::Vector3d& q) {
  NN r{std::numeric_limits<size_t>::max(), 1e300, 1e300};
  for (size_t i = 0; i < target.size(); i++) {
    const double d = (target.point(i).head<3>() - q).squaredNorm();
    if (d < r.d2) { r.second = r.d2; r.d2 = d; r.i = i; } else if (d < r.second) r.second = d;
  }
  return r;
}

inline Eigen::Matrix4d cov4(const Eigen::Matrix3d& C) { Eigen::Matrix4d m = Eigen::Matrix4d::Zero(); m.topLeftCorner<3, 3>() = C; return m; }

// A cloud with plausible random features.
inline std::shared_ptr<PointCloud> make_cloud(vf::Rng& r, const vf::Pts& p) {
  auto pc = std::make_shared<PointCloud>();
  pc->resize(p.size());
  for (size_t i = 0; i < p.size(); i++) {
    const Eigen::Matrix3d R = r.rot();
    pc->point(i) = p[i];
    pc->normal(i).setZero(); pc->normal(i).head<3>() = R.col(0);
    pc->cov(i) = cov4(R * Eigen::Vector3d(r.pick({1e-3, 1e-3, 0.1, 1.0}), 1, r.pick({1.0, 1.0, 0.2})).asDiagonal() * R.transpose());
  }
  return pc;
}
inline std::shared_ptr<PointCloud> transform(const PointCloud& in, const Eigen::Isometry3d& T) {
  auto pc = std::make_shared<PointCloud>();
  pc->resize(in.size());
  for (size_t i = 0; i < in.size(); i++) {
    pc->point(i) = vf::P(Eigen::Vector3d(T * Eigen::Vector3d(in.point(i).head<3>())));
    pc->normal(i).setZero(); pc->normal(i).head<3>() = T.linear() * in.normal(i).head<3>();
    pc->cov(i) = cov4(T.linear() * in.cov(i).topLeftCorner<3, 3>() * T.linear().transpose());
  }
  return pc;
}
inline uint64_t hash_cloud(const PointCloud& p) {
  uint64_t h = 1469598103934665603ull;
  auto add = [&](const void* d, size_t n) { const unsigned char* c = (const unsigned char*)d; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull; };
  for (size_t i = 0; i < p.size(); i++) { add(p.point(i).data(), 32); add(p.normal(i).data(), 32); add(p.cov(i).data(), 128); }
  size_t s[3] = {p.points.size(), p.normals.size(), p.covs.size()}; add(s, sizeof s);
  return h;
}

// ---- tracing -----------------------------------------------------------------------------------
struct Ev { bool lin; Eigen::Isometry3d T; M6 H; V6 b; double e; double e_at_entry; };
struct Trace { std::vector<Ev> ev; std::function<void()> on_lin; };

// Reduction wrapper recording every linearisation and evaluation the optimiser asks for.  Before a linearisation it
// also evaluates the new pose at the *old* correspondences (the factors still hold them).
template <typename Inner>
struct TracingReduction {
  Inner inner;
  Trace* trace = nullptr;
  template <typename TC, typename SC, typename TT, typename RJ, typename F>
  std::tuple<M6, V6, double> linearize(const TC& target, const SC& source, const TT& tree, const RJ& rejector, const Eigen::Isometry3d& T, std::vector<F>& factors) const {
    Ev v; v.lin = true; v.T = T;
    v.e_at_entry = trace->ev.empty() ? 0.0 : inner.error(target, source, T, factors);
    auto [H, b, e] = inner.linearize(target, source, tree, rejector, T, factors);
    v.H = H; v.b = b; v.e = e;
    trace->ev.push_back(v);
    return {H, b, e};
  }
  template <typename TC, typename SC, typename F>
  double error(const TC& target, const SC& source, const Eigen::Isometry3d& T, std::vector<F>& factors) const {
    Ev v; v.lin = false; v.T = T; v.H.setZero(); v.b.setZero(); v.e_at_entry = 0;
    v.e = inner.error(target, source, T, factors);
    trace->ev.push_back(v);
    return v.e;
  }
};

inline Eigen::Isometry3d perturb(const Eigen::Isometry3d& T, int axis, double h) {
  Eigen::Isometry3d D = Eigen::Isometry3d::Identity();
  Eigen::Vector3d u = Eigen::Vector3d::Unit(axis % 3);
  if (axis < 3) D.linear() = Eigen::AngleAxisd(h, u).toRotationMatrix(); else D.translation() = h * u;
  return T * D;
}
inline bool is_rigid(const Eigen::Isometry3d& T, double tol = 1e-9) {
  return T.matrix().allFinite() && (T.linear().transpose() * T.linear() - Eigen::Matrix3d::Identity()).norm() < tol && std::abs(T.linear().determinant() - 1) < tol &&
         T.matrix().row(3) == Eigen::RowVector4d(0, 0, 0, 1);
}
inline double rot_diff(const Eigen::Isometry3d& A, const Eigen::Isometry3d& B) { return vf::rot_angle(A.linear().transpose() * B.linear()); }
inline double trans_diff(const Eigen::Isometry3d& A, const Eigen::Isometry3d& B) { return (A.translation() - B.translation()).norm(); }
// For vf::SecondLook: do 40 repetitions, disturbed by 1e-14 to 1e-12, end like the undisturbed computation?
template <typename F> bool settled(const RegistrationResult& base, F disturbed /* (amplitude) -> RegistrationResult */) {
  for (int i = 0; i < 40; i++) {
    const auto w = disturbed(std::pow(10.0, -14 + i % 3));
    if (w.iterations != base.iterations || w.num_inliers != base.num_inliers || w.converged != base.converged || !((w.T_target_source.matrix() - base.T_target_source.matrix()).norm() <= 1e-8)) return false;
  }
  return true;
}
inline void disturb(vf::Rng& r, PointCloud& p, double amp) { for (size_t i = 0; i < p.size(); i++) p.point(i).template head<3>() += amp * r.vec3(1); }

// The library warns on small clouds, also from several threads: swallow the text in a stateless buffer.
struct NullBuf : std::streambuf {
  int overflow(int ch) override { return ch == EOF ? 0 : ch; }
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
struct Quiet {
  NullBuf s; std::streambuf *a, *b;
  Quiet() { a = std::cerr.rdbuf(&s); b = std::cout.rdbuf(&s); }
  ~Quiet() { std::cerr.rdbuf(a); std::cout.rdbuf(b); }
};
}  // namespace reg
