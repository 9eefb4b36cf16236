// C24: so3_exp / se3_exp against the long-double matrix exponential, for every magnitude of twist.
#include "vf.hpp"
#include <small_gicp/util/lie.hpp>
using vf::Case;
using LD = long double;
typedef Eigen::Matrix<LD, 3, 3> M3L; typedef Eigen::Matrix<LD, 4, 4> M4L; typedef Eigen::Matrix<LD, 3, 1> V3L;
typedef Eigen::Matrix<double, 6, 1> V6;

// Independent oracle: scaling and squaring of the power series of the 4x4 twist matrix.
static M4L expm(const V6& a) {
  M4L A = M4L::Zero();
  A(0, 1) = -(LD)a[2]; A(0, 2) = a[1]; A(1, 0) = a[2]; A(1, 2) = -(LD)a[0]; A(2, 0) = -(LD)a[1]; A(2, 1) = a[0];
  for (int i = 0; i < 3; i++) A(i, 3) = a[3 + i];
  // angles beyond pi: reduce to the remainder analytically for the rotation, but keep the translation exact by squaring
  int s = 0; LD n = std::sqrt((LD)a[0] * a[0] + (LD)a[1] * a[1] + (LD)a[2] * a[2]);
  while (n > 0.25L) { n /= 2; s++; }
  // The translation column is scaled separately so that large translations do not force extra squarings.
  A /= std::pow((LD)2, s);
  M4L E = M4L::Identity(), T = M4L::Identity();
  for (int k = 1; k < 30; k++) { T = T * A / (LD)k; E += T; }
  for (int i = 0; i < s; i++) E = E * E;
  return E;
}

static V6 twist(vf::Rng& r) {
  V6 a; Eigen::Vector3d ax = r.coin(0.3) ? Eigen::Vector3d(Eigen::Vector3d::Unit(r.u(3)) * (r.coin() ? 1 : -1)) : r.dir();
  double th;
  switch (r.u(9)) {
    case 0: th = 0; break;
    case 1: th = std::exp(r.real(std::log(1e-320), std::log(1e-12))); break;
    case 2: th = r.logreal(1e-12, 1e-8); break;
    case 3: th = r.pick({1e-5, 1e-10, 1e-8, 1e-4, 1e-3, 1e-2}) * (1 + r.range(-3, 3) * r.pick({1e-15, 1e-9, 1e-3})); break;
    case 4: th = r.logreal(1e-8, 1e-2); break;
    case 5: th = r.real(0, M_PI); break;
    case 6: th = M_PI * r.range(0, 8) + r.pick({0.0, 1e-12, -1e-9, 1e-6, -1e-3}); break;
    case 7: th = r.real(M_PI, 50); break;
    default: th = r.logreal(50, 1e5);
  }
  a.head<3>() = th * ax;
  double tr = r.coin(0.2) ? 0.0 : r.pick({1e-100, 1e-12, 1e-3, 1.0, 1.0, 100.0, 1e6});
  a.tail<3>() = tr * (r.coin(0.2) ? Eigen::Vector3d(Eigen::Vector3d::Unit(r.u(3))) : r.coin(0.3) ? ax : Eigen::Vector3d(r.dir()));
  return a;
}
static double tolR(double th) { return 8e-15 + 2e-15 * th; }
static double tolV(double th) { return 1e-14 + 4e-15 * th + (th > 0 ? std::min(th, 8e-16 / th) : 0.0); }  // (1 - cos t) / t^2 in double

static void run(Case& c) {
  vf::Rng& r = c.rng;
  for (int it = 0; it < 200; it++) {
    const V6 a = twist(r);
    const Eigen::Vector3d w = a.head<3>(), v = a.tail<3>();
    const double th = std::sqrt(w.dot(w)), vn = v.norm();
    if (it == 0) c.describe("omega=(%.17g %.17g %.17g) v=(%.9g %.9g %.9g)", a[0], a[1], a[2], a[3], a[4], a[5]);
    c.sig(&a, sizeof a);
    c.count("twists"); if (th == 0) c.count("zero_rotation"); else if (th < 1e-10) c.count("tiny_rotation"); else if (th < 1e-5) c.count("small_rotation"); else if (th < 3.15) c.count("moderate_rotation"); else c.count("many_turns");
    if (th > 0 || vn > 0) c.nontrivial();
    // skew
    { const Eigen::Vector3d y = r.vec3(3); c.check((small_gicp::skew(w) * y - w.cross(y)).norm() <= 1e-15 * th * y.norm(), "skew", "skew(x) y is not x cross y"); }
    // rotation
    const Eigen::Quaterniond q = small_gicp::so3_exp(w);
    const Eigen::Matrix3d R = q.toRotationMatrix();
    const M4L E = expm(a);
    const M3L EL = E.topLeftCorner<3, 3>();
    c.check(q.coeffs().allFinite() && std::abs(q.norm() - 1) <= 4e-16 * 4, "quaternion-norm", "theta=%.17g: |q| - 1 = %.3g", th, q.norm() - 1);
    const M3L RL = R.cast<LD>();
    const double ortho = (double)(RL.transpose() * RL - M3L::Identity()).norm(), det = (double)(RL.determinant() - 1);
    c.check(ortho <= 8e-15 && std::abs(det) <= 8e-15, "so3-orthonormal", "theta=%.17g: |R'R-I|=%.3g det-1=%.3g", th, ortho, det);
    const double dr = (double)(RL - EL).norm();
    c.maxi("max_rotation_error_over_tolerance", dr / tolR(th));
    c.check(dr <= tolR(th), "so3-wrong", "theta=%.17g: rotation differs from the exponential by %.3g", th, dr);
    // full map
    const Eigen::Isometry3d T = small_gicp::se3_exp(a);
    const double dR = (double)(T.linear().cast<LD>() - EL).norm();
    c.check(dR <= tolR(th), "se3-rotation", "theta=%.17g: rotation part differs by %.3g", th, dR);
    c.check(T.matrix().row(3) == Eigen::RowVector4d(0, 0, 0, 1), "se3-last-row", "last row is not (0 0 0 1)");
    const double dt = (double)(T.translation().cast<LD>() - E.topRightCorner<3, 1>()).norm();
    if (vn > 0) c.maxi("max_translation_error_over_tolerance", dt / (vn * tolV(th) + 1e-320));
    c.check(dt <= vn * tolV(th), "se3-translation", "theta=%.17g |v|=%.3g: translation differs from the exponential by %.3g (relative %.3g)", th, vn, dt, dt / vn);
    c.check(w != Eigen::Vector3d::Zero() || (T.translation() == v && R == Eigen::Matrix3d::Identity()), "zero-rotation", "zero rotation does not give the plain translation");
    // inverse twist
    const Eigen::Isometry3d I = T * small_gicp::se3_exp(-a);
    c.check((I.linear() - Eigen::Matrix3d::Identity()).norm() <= 3 * tolR(th) + 4e-15, "inverse-rotation", "theta=%.17g: exp(a) exp(-a) rotates by %.3g", th, (I.linear() - Eigen::Matrix3d::Identity()).norm());
    c.check(I.translation().norm() <= vn * (2 * tolV(th) + 4e-15), "inverse-translation", "theta=%.17g: exp(a) exp(-a) translates by %.3g of %.3g", th, I.translation().norm(), vn);
    // continuity: a twist a hair larger
    const double eps = r.pick({1e-15, 1e-12, 1e-9});
    V6 a2 = a; a2.head<3>() *= 1 + eps;
    const Eigen::Isometry3d T2 = small_gicp::se3_exp(a2);
    c.check((T2.linear() - T.linear()).norm() <= 2 * th * eps + 2 * tolR(th), "discontinuous-rotation", "theta=%.17g (1+%g): rotation jumps by %.3g", th, eps, (T2.linear() - T.linear()).norm());
    c.check((T2.translation() - T.translation()).norm() <= vn * (th * eps + 2 * tolV(th)), "discontinuous-translation", "theta=%.17g (1+%g): translation jumps by %.3g", th, eps, (T2.translation() - T.translation()).norm());
  }
}
int main(int argc, char** argv) { return vf::main_loop(argc, argv, run); }
