// C10: estimated normals and covariances are the neighbourhood's PCA.  Oracle: brute-force neighbours, long-double moments,
// Rayleigh quotient of the reported direction; sequential/OMP/TBB and with/without tree must agree.
#include "vf.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
using namespace small_gicp;
using vf::Case;
using vf::Pts;
typedef Eigen::Matrix<long double, 3, 3> M3;
typedef Eigen::Matrix<long double, 3, 1> V3;

struct Local { bool invalid, ambiguous, informative; Eigen::Matrix3d C; double lmin, lmid, lmax, tol; };

static Local neighbourhood(const Pts& p, size_t i, size_t k) {
  Local L{};
  const size_t n = std::min(k, p.size());
  L.invalid = n < 5;
  if (L.invalid) return L;
  std::vector<std::pair<double, size_t>> d;
  for (size_t j = 0; j < p.size(); j++) d.push_back({(p[j] - p[i]).squaredNorm(), j});
  std::nth_element(d.begin(), d.begin() + (n - 1), d.end());
  std::sort(d.begin(), d.begin() + n);
  if (n < p.size()) {
    double nxt = 1e300;
    for (size_t j = n; j < d.size(); j++) nxt = std::min(nxt, d[j].first);
    L.ambiguous = nxt - d[n - 1].first <= 1e-9 * nxt;
  }
  V3 m = V3::Zero();
  double mag = 0;
  for (size_t j = 0; j < n; j++) { m += p[d[j].second].head<3>().cast<long double>(); mag = std::max(mag, p[d[j].second].head<3>().norm()); }
  m /= n;
  M3 c = M3::Zero();
  for (size_t j = 0; j < n; j++) { V3 q = p[d[j].second].head<3>().cast<long double>() - m; c += q * q.transpose(); }
  c /= n;
  L.C = c.cast<double>();
  Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(L.C);
  L.lmin = es.eigenvalues()[0]; L.lmid = es.eigenvalues()[1]; L.lmax = es.eigenvalues()[2];
  // rounding of the moments (relative to the squared coordinates) plus accuracy of a closed-form eigensolver
  L.tol = 1e-6 * L.lmax + 1e-14 * mag * mag * (n < 64 ? 1.0 : n / 64.0);
  L.informative = L.lmid - L.lmin > 20 * L.tol;
  return L;
}

static void run(Case& c) {
  vf::Rng& r = c.rng;
  const bool par_only = chaos_seed != nullptr;
  int kind = r.u(vf::CLOUD_KINDS);
  if (c.rare(101, 5)) kind = r.pick({(int)vf::UNIFORM, (int)vf::LIDAR, (int)vf::PLANAR, (int)vf::SPHERE});
  size_t n = r.coin(0.25) ? r.range(0, 12) : par_only ? r.range(0, 120) : r.range(0, 400);
  const bool large = c.rare(101, 5) && !par_only;
  if (large) { n = 66000 + r.u(20000); c.count("large_clouds"); }
  const double scale = r.logreal(0.1, 100);
  Pts pts = vf::gen_cloud(r, n, kind, scale);
  if (kind == vf::PLANAR && r.coin()) for (auto& p : pts) p.head<3>() += scale * 1e-3 * Eigen::Vector3d(r.normal(), r.normal(), r.normal());
  const int k = large ? r.pick({5, 10, 20}) : r.pick({5, 6, 10, 10, 20, 20, 50, 1, 3, 4, (int)n + 3});
  const int threads = r.coin(0.05) ? 40 : r.pick({1, 2, 3, 4, 8});
  c.describe("kind=%s n=%zu scale=%.4g k=%d threads=%d", vf::kind_name(kind), n, scale, k, threads);
  for (auto& p : pts) c.sigd(p[0]);

  const Eigen::Vector4d junk_n(7, 8, 9, 10);
  const Eigen::Matrix4d junk_c = Eigen::Matrix4d::Constant(42);
  auto fresh = [&]() {
    auto pc = std::make_shared<PointCloud>();
    pc->resize(n);
    for (size_t i = 0; i < n; i++) { pc->point(i) = pts[i]; pc->normal(i) = junk_n; pc->cov(i) = junk_c; }
    return pc;
  };
  struct Out { std::string name; PointCloud::Ptr pc; bool N, C; };
  std::vector<Out> outs;
  auto ref = fresh();  // owner of the tree's points
  KdTree<PointCloud> tree(ref);
  UnsafeKdTree<PointCloud> utree(*ref);
  KdTree<PointCloud> tree_omp(ref, KdTreeBuilderOMP(threads)), tree_tbb(ref, KdTreeBuilderTBB());
  auto emit = [&](const char* nm, bool N, bool C, auto&& f) { auto pc = fresh(); f(*pc); outs.push_back({nm, pc, N, C}); };
  const int which = par_only ? r.u(3) : 3;
  if (which == 0 || which == 3) {
    emit("normals", 1, 0, [&](PointCloud& p) { estimate_normals(p, k); });
    emit("normals+tree", 1, 0, [&](PointCloud& p) { estimate_normals(p, tree, k); });
    emit("normals_omp", 1, 0, [&](PointCloud& p) { estimate_normals_omp(p, k, threads); });
    emit("normals_omp+tree", 1, 0, [&](PointCloud& p) { estimate_normals_omp(p, utree, k, threads); });
    emit("normals_tbb", 1, 0, [&](PointCloud& p) { estimate_normals_tbb(p, k); });
    emit("normals_tbb+tree", 1, 0, [&](PointCloud& p) { estimate_normals_tbb(p, tree, k); });
  }
  if (which == 1 || which == 3) {
    emit("covs", 0, 1, [&](PointCloud& p) { estimate_covariances(p, k); });
    emit("covs+tree", 0, 1, [&](PointCloud& p) { estimate_covariances(p, tree_tbb, k); });
    emit("covs_omp", 0, 1, [&](PointCloud& p) { estimate_covariances_omp(p, k, threads); });
    emit("covs_omp+tree", 0, 1, [&](PointCloud& p) { estimate_covariances_omp(p, tree, k, threads); });
    emit("covs_tbb", 0, 1, [&](PointCloud& p) { estimate_covariances_tbb(p, k); });
    emit("covs_tbb+tree", 0, 1, [&](PointCloud& p) { estimate_covariances_tbb(p, utree, k); });
  }
  if (which == 2 || which == 3) {
    emit("both", 1, 1, [&](PointCloud& p) { estimate_normals_covariances(p, k); });
    emit("both+tree", 1, 1, [&](PointCloud& p) { estimate_normals_covariances(p, tree_omp, k); });
    emit("both_omp", 1, 1, [&](PointCloud& p) { estimate_normals_covariances_omp(p, k, threads); });
    emit("both_omp+tree", 1, 1, [&](PointCloud& p) { estimate_normals_covariances_omp(p, tree_tbb, k, threads); });
    emit("both_tbb", 1, 1, [&](PointCloud& p) { estimate_normals_covariances_tbb(p, k); });
    emit("both_tbb+tree", 1, 1, [&](PointCloud& p) { estimate_normals_covariances_tbb(p, tree_omp, k); });
  }
  c.count("estimations", outs.size());
  c.check(ref->size() == n, "tree-points-modified", "size");
  for (size_t i = 0; i < n && i < ref->size(); i++) c.check(ref->point(i) == pts[i] && ref->normal(i) == junk_n && ref->cov(i) == junk_c, "tree-points-modified", "the cloud owned by the search tree changed at %zu", i);

  std::vector<Local> loc(n);
  const size_t stride = large ? 997 : 1;
  const size_t first = large ? r.u(stride) : 0;
  for (size_t i = first; i < n; i += stride) loc[i] = neighbourhood(pts, i, k);
  for (auto& o : outs) {
    const char* nm = o.name.c_str();
    if (!c.check(o.pc->size() == n && o.pc->points.size() == n && o.pc->normals.size() == n && o.pc->covs.size() == n, "size-changed", "%s: cloud sizes changed", nm)) continue;
    for (size_t i = first; i < n; i += stride) {
      const Local& L = loc[i];
      c.check(o.pc->point(i) == pts[i], "point-modified", "%s: point %zu changed", nm, i);
      const Eigen::Vector4d nv = o.pc->normal(i);
      const Eigen::Matrix4d C = o.pc->cov(i);
      if (!o.N) c.check(nv == junk_n, "normal-modified", "%s: touched normal %zu", nm, i);
      if (!o.C) c.check(C == junk_c, "cov-modified", "%s: touched covariance %zu", nm, i);
      if (L.invalid) {
        c.count("invalid_points");
        if (o.N) c.check(nv.isZero(0), "invalid-normal", "%s: point %zu with %zu neighbours has normal %g %g %g %g", nm, i, std::min<size_t>(k, n), nv[0], nv[1], nv[2], nv[3]);
        if (o.C) { Eigen::Matrix4d I = Eigen::Matrix4d::Identity(); I(3, 3) = 0; c.check(C == I, "invalid-cov", "%s: point %zu covariance is not identity", nm, i); }
        continue;
      }
      if (L.ambiguous) c.count("ambiguous_neighbourhoods");
      Eigen::Vector3d dir; bool have = false;
      if (o.N) {
        c.check(std::isfinite(nv.sum()) && std::abs(nv.head<3>().norm() - 1) < 1e-6 && nv[3] == 0, "not-unit", "%s: normal %zu = %.9g %.9g %.9g %.9g", nm, i, nv[0], nv[1], nv[2], nv[3]);
        c.check(nv.head<3>().dot(pts[i].head<3>()) <= 1e-9 * pts[i].head<3>().norm(), "not-facing-origin", "%s: normal %zu . point = %.6g", nm, i, nv.head<3>().dot(pts[i].head<3>()));
        if (!L.ambiguous) {
          const double q = nv.head<3>().dot(L.C * nv.head<3>());
          c.check(q <= L.lmin + L.tol, "not-smallest-direction", "%s: point %zu variance along normal %.6g, smallest %.6g (mid %.6g max %.6g tol %.3g)", nm, i, q, L.lmin, L.lmid, L.lmax, L.tol);
          if (L.informative) { c.count("normals_decided"); c.nontrivial(); }
        }
        dir = nv.head<3>(); have = true;
      }
      if (o.C) {
        c.check(C.allFinite() && (C - C.transpose()).norm() < 1e-9, "not-symmetric", "%s: covariance %zu", nm, i);
        c.check(C.row(3).isZero(0) && C.col(3).isZero(0), "cov-border", "%s: covariance %zu has a non-zero fourth row/column", nm, i);
        Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(C.topLeftCorner<3, 3>());
        const Eigen::Vector3d ev = es.eigenvalues();
        c.check(std::abs(ev[0] - 1e-3) < 1e-6 && std::abs(ev[1] - 1) < 1e-5 && std::abs(ev[2] - 1) < 1e-5, "cov-spectrum", "%s: covariance %zu eigenvalues %.9g %.9g %.9g (moments %.3g %.3g %.3g)", nm, i, ev[0], ev[1], ev[2], L.lmin, L.lmid, L.lmax);
        const Eigen::Vector3d u = es.eigenvectors().col(0);
        if (!L.ambiguous) {
          const double q = u.dot(L.C * u);
          c.check(q <= L.lmin + L.tol, "cov-not-smallest-direction", "%s: point %zu variance along minor axis %.6g, smallest %.6g (mid %.6g tol %.3g)", nm, i, q, L.lmin, L.lmid, L.tol);
          if (L.informative) { c.count("covs_decided"); c.nontrivial(); }
        }
        if (have) c.check(std::abs(std::abs(u.dot(dir)) - 1) < 1e-6, "normal-cov-disagree", "%s: point %zu minor axis and normal differ", nm, i);
      }
      // agreement between versions
      for (auto& p : outs) {
        if (&p == &o) break;
        if (L.ambiguous) break;
        if (o.N && p.N && p.pc->normal(i) != nv && L.informative) {
          // the sign may only differ where the normal is perpendicular to the line of sight
          const bool perp = std::abs(nv.head<3>().dot(pts[i].head<3>())) < 1e-7 * pts[i].head<3>().norm();
          const double d = std::min((p.pc->normal(i) - nv).norm(), perp ? (p.pc->normal(i) + nv).norm() : 1e9);
          c.check(d * (L.lmid - L.lmin) < 10 * L.tol + 1e-9 * (L.lmid - L.lmin), "versions-differ", "%s vs %s: normal %zu differs by %.3g", nm, p.name.c_str(), i, d);
        }
        if (o.C && p.C && p.pc->cov(i) != C && L.informative) {
          const double d = (p.pc->cov(i) - C).norm();
          c.check(d * (L.lmid - L.lmin) < 20 * L.tol + 1e-9 * (L.lmid - L.lmin), "versions-differ", "%s vs %s: covariance %zu differs by %.3g", nm, p.name.c_str(), i, d);
        }
        c.count("version_comparisons");
      }
    }
  }
}
int main(int argc, char** argv) { return vf::main_loop(argc, argv, run); }
