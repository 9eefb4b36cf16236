// C25: results do not depend on how the points are stored.  All representations hold the same float-representable attributes;
// every algorithm run on a representation is compared with the same algorithm on the native cloud.
#include "reg.hpp"
#include <pcl/point_types.h>
#include <pcl/point_cloud.h>
#include <small_gicp/points/eigen.hpp>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/pcl/pcl_proxy.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/ann/projective_search.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
using namespace reg;
using vf::Case;

// A user class in the style of the documentation: structure of arrays of floats, attributes returned by value.
struct UserSoA { std::vector<float> x, y, z; std::vector<std::array<float, 3>> n; std::vector<std::array<float, 6>> c; };
// A user class with references into an array of structures of doubles.
struct UserAoS { struct P { Eigen::Vector4d p, n; Eigen::Matrix4d c; }; std::vector<P> v; };
// A user class that only has points.
struct UserPts { std::vector<Eigen::Vector3f> v; };
namespace small_gicp { namespace traits {
template <> struct Traits<UserSoA> {
  static size_t size(const UserSoA& c) { return c.x.size(); }
  static bool has_points(const UserSoA& c) { return !c.x.empty(); }
  static bool has_normals(const UserSoA& c) { return !c.n.empty(); }
  static bool has_covs(const UserSoA& c) { return !c.c.empty(); }
  static Eigen::Vector4d point(const UserSoA& c, size_t i) { return Eigen::Vector4d(c.x.at(i), c.y.at(i), c.z.at(i), 1.0); }
  static Eigen::Vector4d normal(const UserSoA& c, size_t i) { const auto& a = c.n.at(i); return Eigen::Vector4d(a[0], a[1], a[2], 0.0); }
  static Eigen::Matrix4d cov(const UserSoA& c, size_t i) {
    const auto& a = c.c.at(i);
    Eigen::Matrix4d m = Eigen::Matrix4d::Zero();
    m.topLeftCorner<3, 3>() << a[0], a[1], a[2], a[1], a[3], a[4], a[2], a[4], a[5];
    return m;
  }
  static void resize(UserSoA& c, size_t n) { c.x.resize(n); c.y.resize(n); c.z.resize(n); c.n.resize(n); c.c.resize(n); }
  static void set_point(UserSoA& c, size_t i, const Eigen::Vector4d& p) { c.x.at(i) = p[0]; c.y.at(i) = p[1]; c.z.at(i) = p[2]; }
  static void set_normal(UserSoA& c, size_t i, const Eigen::Vector4d& n) { for (int k = 0; k < 3; k++) c.n.at(i)[k] = n[k]; }
  static void set_cov(UserSoA& c, size_t i, const Eigen::Matrix4d& m) { c.c.at(i) = {(float)m(0, 0), (float)m(0, 1), (float)m(0, 2), (float)m(1, 1), (float)m(1, 2), (float)m(2, 2)}; }
};
template <> struct Traits<UserAoS> {
  static size_t size(const UserAoS& c) { return c.v.size(); }
  static bool has_points(const UserAoS& c) { return !c.v.empty(); }
  static bool has_normals(const UserAoS& c) { return !c.v.empty(); }
  static bool has_covs(const UserAoS& c) { return !c.v.empty(); }
  static const Eigen::Vector4d& point(const UserAoS& c, size_t i) { return c.v.at(i).p; }
  static const Eigen::Vector4d& normal(const UserAoS& c, size_t i) { return c.v.at(i).n; }
  static const Eigen::Matrix4d& cov(const UserAoS& c, size_t i) { return c.v.at(i).c; }
  static void resize(UserAoS& c, size_t n) { c.v.resize(n); }
  static void set_point(UserAoS& c, size_t i, const Eigen::Vector4d& p) { c.v.at(i).p = p; }
  static void set_normal(UserAoS& c, size_t i, const Eigen::Vector4d& p) { c.v.at(i).n = p; }
  static void set_cov(UserAoS& c, size_t i, const Eigen::Matrix4d& m) { c.v.at(i).c = m; }
};
template <> struct Traits<UserPts> {
  static size_t size(const UserPts& c) { return c.v.size(); }
  static bool has_points(const UserPts& c) { return !c.v.empty(); }
  static Eigen::Vector4d point(const UserPts& c, size_t i) { return c.v.at(i).cast<double>().homogeneous(); }
};
}}  // namespace small_gicp::traits

typedef pcl::PointCloud<pcl::PointXYZ> PXYZ;
typedef pcl::PointCloud<pcl::PointXYZI> PXYZI;
typedef pcl::PointCloud<pcl::PointNormal> PN;
typedef pcl::PointCloud<pcl::PointXYZRGBNormal> PCN;
typedef pcl::PointCloud<pcl::PointCovariance> PC;
typedef pcl::PointCloud<pcl::PointNormalCovariance> PNC;
typedef PointCloudProxy<pcl::PointXYZ> ProxyXYZ;
typedef PointCloudProxy<pcl::PointXYZI> ProxyXYZI;

static double f32(double x) { return (double)(float)x; }
static const double FEPS = 1.2e-7;  // relative precision of float storage

// All representations of one cloud.
struct Set {
  PointCloud::Ptr nat;
  std::shared_ptr<Eigen::MatrixXd> mat;
  std::shared_ptr<PXYZ> xyz; std::shared_ptr<PXYZI> xyzi; std::shared_ptr<PN> pn; std::shared_ptr<PCN> pcn; std::shared_ptr<PC> pc; std::shared_ptr<PNC> pnc;
  std::shared_ptr<std::vector<Eigen::Matrix4d>> cov1, cov2;
  std::shared_ptr<ProxyXYZ> prox; std::shared_ptr<ProxyXYZI> proxi;
  std::shared_ptr<UserSoA> soa; std::shared_ptr<UserAoS> aos; std::shared_ptr<UserPts> upts;
};
template <typename C> static std::shared_ptr<C> fill(const PointCloud& p, bool N, bool Cv) {
  auto o = std::make_shared<C>();
  traits::resize(*o, p.size());
  for (size_t i = 0; i < p.size(); i++) traits::set_point(*o, i, p.point(i));
  (void)N; (void)Cv;
  return o;
}
template <typename C> static void fill_n(C& o, const PointCloud& p) { for (size_t i = 0; i < p.size(); i++) traits::set_normal(o, i, p.normal(i)); }
template <typename C> static void fill_c(C& o, const PointCloud& p) { for (size_t i = 0; i < p.size(); i++) traits::set_cov(o, i, p.cov(i)); }

static Set make_set(vf::Rng& r, const PointCloud::Ptr& nat) {
  Set s;
  s.nat = nat;
  const size_t n = nat->size();
  s.mat = std::make_shared<Eigen::MatrixXd>(n, r.coin() ? 3 : 4);
  for (size_t i = 0; i < n; i++) { for (int k = 0; k < 3; k++) (*s.mat)(i, k) = nat->point(i)[k]; if (s.mat->cols() > 3) (*s.mat)(i, 3) = r.pick({0.0, 1.0, 7.0}); }
  s.xyz = fill<PXYZ>(*nat, 0, 0);
  s.xyzi = std::make_shared<PXYZI>();   // filled the PCL way
  for (size_t i = 0; i < n; i++) { pcl::PointXYZI p; p.x = nat->point(i)[0]; p.y = nat->point(i)[1]; p.z = nat->point(i)[2]; p.intensity = 5; s.xyzi->push_back(p); }
  s.pn = fill<PN>(*nat, 1, 0); fill_n(*s.pn, *nat);
  s.pcn = std::make_shared<PCN>();
  for (size_t i = 0; i < n; i++) { pcl::PointXYZRGBNormal p; p.x = nat->point(i)[0]; p.y = nat->point(i)[1]; p.z = nat->point(i)[2]; p.normal_x = nat->normal(i)[0]; p.normal_y = nat->normal(i)[1]; p.normal_z = nat->normal(i)[2]; s.pcn->push_back(p); }
  s.pc = fill<PC>(*nat, 0, 1); fill_c(*s.pc, *nat);
  s.pnc = fill<PNC>(*nat, 1, 1); fill_n(*s.pnc, *nat); fill_c(*s.pnc, *nat);
  s.cov1 = std::make_shared<std::vector<Eigen::Matrix4d>>(nat->covs); s.cov2 = std::make_shared<std::vector<Eigen::Matrix4d>>(nat->covs);
  s.prox = std::make_shared<ProxyXYZ>(*s.xyz, *s.cov1); s.proxi = std::make_shared<ProxyXYZI>(*s.xyzi, *s.cov2);
  s.soa = fill<UserSoA>(*nat, 1, 1); fill_n(*s.soa, *nat); fill_c(*s.soa, *nat);
  s.aos = fill<UserAoS>(*nat, 1, 1); fill_n(*s.aos, *nat); fill_c(*s.aos, *nat);
  s.upts = std::make_shared<UserPts>(); for (size_t i = 0; i < n; i++) s.upts->v.push_back(nat->point(i).head<3>().cast<float>());
  return s;
}

// -- 1. reading back -------------------------------------------------------------------------------------------------------------
template <typename C> static void read_points(Case& c, const char* nm, const C& o, const PointCloud& ref) {
  c.count(std::string("rep_") + nm);
  if (!c.check(traits::size(o) == ref.size(), "size", "%s: size %zu, stored %zu", nm, (size_t)traits::size(o), ref.size())) return;
  c.check(traits::has_points(o) == !ref.points.empty(), "has-points", "%s: has_points is %d with %zu points", nm, (int)traits::has_points(o), ref.size());
  for (size_t i = 0; i < ref.size(); i++) {
    const Eigen::Vector4d p = traits::point(o, i);
    if (!c.check(p == ref.point(i), "point-read-back", "%s: point %zu = %.9g %.9g %.9g w=%g, stored %.9g %.9g %.9g", nm, i, p[0], p[1], p[2], p[3], ref.point(i)[0], ref.point(i)[1], ref.point(i)[2])) return;
    c.count("points_read_back");
  }
}
template <typename C> static void read_normals(Case& c, const char* nm, const C& o, const PointCloud& ref) {
  for (size_t i = 0; i < ref.size(); i++) {
    const Eigen::Vector4d p = traits::normal(o, i);
    if (!c.check(p == ref.normal(i), "normal-read-back", "%s: normal %zu = %.9g %.9g %.9g w=%g, stored %.9g %.9g %.9g", nm, i, p[0], p[1], p[2], p[3], ref.normal(i)[0], ref.normal(i)[1], ref.normal(i)[2])) return;
    c.count("normals_read_back");
  }
}
template <typename C> static void read_covs(Case& c, const char* nm, const C& o, const PointCloud& ref) {
  for (size_t i = 0; i < ref.size(); i++) {
    const Eigen::Matrix4d p = traits::cov(o, i);
    if (!c.check(p == ref.cov(i), "cov-read-back", "%s: covariance %zu differs from the stored one by %.3g", nm, i, (p - ref.cov(i)).norm())) return;
    c.count("covs_read_back");
  }
}
template <typename T, int D, typename A = std::allocator<Eigen::Matrix<T, D, 1>>> static void construct(Case& c, const char* nm, const PointCloud& ref) {
  std::vector<Eigen::Matrix<T, D, 1>, A> v;
  for (size_t i = 0; i < ref.size(); i++) { Eigen::Matrix<T, D, 1> e; for (int k = 0; k < D; k++) e[k] = k < 3 ? (T)ref.point(i)[k] : (T)c.rng.pick({0.0, 1.0, -3.0, 1e9}); v.push_back(e); }
  const PointCloud pc(v);
  c.count(std::string("constructed_") + nm);
  c.check(pc.points.size() == v.size() && pc.normals.size() == v.size() && pc.covs.size() == v.size(), "attribute-sizes", "%s: %zu points %zu normals %zu covariances of %zu", nm, pc.points.size(), pc.normals.size(), pc.covs.size(), v.size());
  c.check(pc.empty() == v.empty(), "empty", "%s: empty() = %d with %zu points", nm, (int)pc.empty(), v.size());
  read_points(c, nm, pc, ref);
}
template <typename C> static void resizing(Case& c, const char* nm, const C& in, const PointCloud& ref, bool N, bool Cv) {
  C o(in);
  std::vector<size_t> sizes;
  for (int k = 0; k < 3; k++) sizes.push_back(c.rng.coin(0.2) ? 0 : c.rng.u(2 * ref.size() + 3));
  size_t kept = ref.size();
  for (size_t m : sizes) {
    traits::resize(o, m);
    kept = std::min(kept, m);
    c.count("resizes");
    if (!c.check(traits::size(o) == m, "resize", "%s: size %zu after resize to %zu", nm, (size_t)traits::size(o), m)) return;
    if constexpr (std::is_same_v<C, PointCloud>) if (!c.check(o.points.size() == m && o.normals.size() == m && o.covs.size() == m, "resize-attributes", "%s: %zu points %zu normals %zu covariances after resize to %zu", nm, o.points.size(), o.normals.size(), o.covs.size(), m)) return;
    c.check(traits::has_points(o) == (m > 0), "has-points", "%s: has_points after resize to %zu", nm, m);
    for (size_t i = 0; i < kept; i++) {
      const Eigen::Vector4d p = traits::point(o, i);
      if (!c.check(p == ref.point(i), "resize-lost", "%s: point %zu changed by resize to %zu", nm, i, m)) return;
    }
    if (m) {   // every attribute of the last point can be written and read
      const Eigen::Vector4d p(f32(c.rng.normal()), f32(c.rng.normal()), 3, 1), n(0, 1, 0, 0);
      Eigen::Matrix4d C4 = Eigen::Matrix4d::Zero(); C4(0, 0) = 2; C4(0, 1) = C4(1, 0) = 0.5; C4(1, 1) = 1; C4(2, 2) = 3;
      traits::set_point(o, m - 1, p);
      c.check(Eigen::Vector4d(traits::point(o, m - 1)) == p, "set-point", "%s: written point not read back", nm);
      if constexpr (!std::is_same_v<C, PXYZ> && !std::is_same_v<C, PC>) if (N) { traits::set_normal(o, m - 1, n); c.check(Eigen::Vector4d(traits::normal(o, m - 1)) == n && Eigen::Vector4d(traits::point(o, m - 1)) == p, "set-normal", "%s: written normal not read back", nm); }
      if constexpr (!std::is_same_v<C, PXYZ> && !std::is_same_v<C, PN>) if (Cv) { traits::set_cov(o, m - 1, C4); c.check(Eigen::Matrix4d(traits::cov(o, m - 1)) == C4 && Eigen::Vector4d(traits::point(o, m - 1)) == p, "set-cov", "%s: written covariance not read back", nm); }
      kept = std::min(kept, m - 1);
    }
  }
}

// -- 2. downsampling -------------------------------------------------------------------------------------------------------------
template <typename C> static std::vector<Eigen::Vector4d> pts_of(const C& o) { std::vector<Eigen::Vector4d> v; for (size_t i = 0; i < traits::size(o); i++) v.push_back(traits::point(o, i)); return v; }
// Greedy one-to-one matching within tol.
static bool same_set(const std::vector<Eigen::Vector4d>& a, const std::vector<Eigen::Vector4d>& b, double tol) {
  if (a.size() != b.size()) return false;
  std::vector<char> used(b.size(), 0);
  size_t hint = 0;
  for (auto& p : a) {
    bool ok = false;
    for (size_t t = 0; t < b.size() && !ok; t++) { const size_t j = (hint + t) % b.size(); if (!used[j] && (b[j] - p).cwiseAbs().maxCoeff() <= tol) { used[j] = 1; ok = true; hint = j + 1; } }
    if (!ok) return false;
  }
  return true;
}
struct DownRef { double leaf; std::vector<Eigen::Vector4d> grid, rnd; size_t nrnd; uint32_t seed; bool decided; double mag; int nt; };
template <typename In, typename Out> static void down(Case& c, const char* nm, const In& in, const DownRef& d, bool float_out) {
  Quiet q;
  const double tol = (float_out ? FEPS : 1e-12) * (d.mag + 1e-30);
  if (d.decided) {
    auto cmp = [&](const char* alg, const std::shared_ptr<Out>& o) {
      if (!c.check((bool)o, "null", "%s %s returned null", nm, alg)) return;
      c.count("downsamplings_compared");
      c.check(same_set(pts_of(*o), d.grid, tol), std::string("downsampling-") + alg, "%s: %s gives %zu points, native %zu (or other points, tolerance %.3g)", nm, alg, (size_t)traits::size(*o), d.grid.size(), tol);
      if constexpr (std::is_same_v<Out, PointCloud>) c.check(o->points.size() == o->normals.size() && o->points.size() == o->covs.size(), "attribute-sizes", "%s: %s output has unequal attributes", nm, alg);
    };
    cmp("voxelgrid", voxelgrid_sampling<In, Out>(in, d.leaf));
    cmp("voxelgrid_omp", voxelgrid_sampling_omp<In, Out>(in, d.leaf, d.nt));
    cmp("voxelgrid_tbb", voxelgrid_sampling_tbb<In, Out>(in, d.leaf));
  }
  std::mt19937 mt(d.seed);
  auto o = random_sampling<In, Out>(in, d.nrnd, mt);
  const auto v = pts_of(*o);
  bool same = v.size() == d.rnd.size();
  for (size_t i = 0; same && i < v.size(); i++) same = (v[i] - d.rnd[i]).norm() <= tol;
  c.check(same, "random-sampling", "%s: random_sampling with the same generator state gives another sample than the native cloud (%zu vs %zu points)", nm, v.size(), d.rnd.size());
}

// -- 3. search -------------------------------------------------------------------------------------------------------------------
struct SearchRef { std::vector<Eigen::Vector4d> q; int k; std::vector<std::vector<double>> d; };
template <typename Tree> static void search(Case& c, const std::string& nm, const Tree& tree, const SearchRef& s, size_t n) {
  std::vector<size_t> idx(s.k); std::vector<double> dd(s.k);
  for (size_t t = 0; t < s.q.size(); t++) {
    const size_t m = traits::knn_search(tree, s.q[t], s.k, idx.data(), dd.data());
    if (!c.check(m == s.d[t].size(), "search-count", "%s: %zu neighbours, native %zu", nm.c_str(), m, s.d[t].size())) return;
    for (size_t j = 0; j < m; j++) if (!c.check(idx[j] < n && std::abs(dd[j] - s.d[t][j]) <= 1e-12 * (1e-9 + s.d[t][j]), "search", "%s: neighbour %zu at squared distance %.17g, native %.17g", nm.c_str(), j, dd[j], s.d[t][j])) return;
    size_t i1; double d1;
    const size_t m1 = traits::nearest_neighbor_search(tree, s.q[t], &i1, &d1);
    if (!c.check(m1 == std::min<size_t>(1, s.d[t].size()) && (m1 == 0 || std::abs(d1 - s.d[t][0]) <= 1e-12 * (1e-9 + s.d[t][0])), "search-nearest", "%s: nearest neighbour differs from the native tree's", nm.c_str())) return;
    c.count("searches_compared");
  }
}
template <typename C> static void trees(Case& c, const char* nm, const std::shared_ptr<C>& p, const SearchRef& s, int nt) {
  Quiet q;
  const size_t n = traits::size(*p);
  search(c, std::string(nm) + " KdTree", KdTree<C>(p), s, n);
  search(c, std::string(nm) + " UnsafeKdTree", UnsafeKdTree<C>(*p), s, n);
  search(c, std::string(nm) + " KdTree/OMP", KdTree<C>(p, KdTreeBuilderOMP(nt)), s, n);
  search(c, std::string(nm) + " UnsafeKdTree/TBB", UnsafeKdTree<C>(*p, KdTreeBuilderTBB()), s, n);
  search(c, std::string(nm) + " NormalProjection", KdTree<C, NormalProjection>(p), s, n);
}
template <typename C> static void projective(Case& c, const char* nm, const std::shared_ptr<C>& p, const PointCloud::Ptr& nat, const SearchRef& s) {
  ProjectiveSearch<C> a(64, 32, p); ProjectiveSearch<PointCloud> b(64, 32, nat);
  std::vector<size_t> i1(s.k), i2(s.k); std::vector<double> d1(s.k), d2(s.k);
  for (auto& q : s.q) {
    const size_t m = a.knn_search(q, s.k, i1.data(), d1.data()), m2 = b.knn_search(q, s.k, i2.data(), d2.data());
    if (!c.check(m == m2, "projective", "%s: projective search found %zu, native %zu", nm, m, m2)) return;
    for (size_t j = 0; j < m; j++) if (!c.check(std::abs(d1[j] - d2[j]) <= 1e-12 * (1e-9 + d2[j]), "projective", "%s: projective search differs from the native cloud's", nm)) return;
    c.count("projective_compared");
  }
}

// -- 4. features -----------------------------------------------------------------------------------------------------------------
static bool feature_decided(vf::Rng& r, const PointCloud& nat, int k, size_t i) {
  // are normal and covariance of this point stable under a perturbation of the order of rounding?
  auto pc = std::make_shared<PointCloud>(nat), ref = std::make_shared<PointCloud>(nat);
  estimate_normals_covariances(*ref, k);
  for (int t = 0; t < 3; t++) {
    for (size_t j = 0; j < pc->size(); j++) pc->point(j) = vf::P(Eigen::Vector3d(nat.point(j).head<3>() + 1e-13 * (1 + nat.point(j).norm()) * r.vec3(1)));
    estimate_normals_covariances(*pc, k);
    if ((pc->normal(i) - ref->normal(i)).norm() > 1e-7 || (pc->cov(i) - ref->cov(i)).norm() > 1e-7) return false;
  }
  return true;
}
template <typename C> static void feature_cmp(Case& c, const std::string& nm, const C& o, const PointCloud& ref, const PointCloud& nat, int k, bool N, bool Cv) {
  c.check(traits::size(o) == ref.size(), "feature-size", "%s: size changed to %zu", nm.c_str(), (size_t)traits::size(o));
  int budget = 3;
  for (size_t i = 0; i < ref.size(); i++) {
    double dn = 0, dc = 0;
    if constexpr (!std::is_same_v<C, PC> && !std::is_same_v<C, ProxyXYZ> && !std::is_same_v<C, ProxyXYZI>) if (N) dn = (Eigen::Vector4d(traits::normal(o, i)) - ref.normal(i)).norm();
    if constexpr (!std::is_same_v<C, PN> && !std::is_same_v<C, PCN>) if (Cv) dc = (Eigen::Matrix4d(traits::cov(o, i)) - ref.cov(i)).norm();
    const Eigen::Vector4d p = traits::point(o, i);
    if (!c.check(p == nat.point(i), "feature-moved-point", "%s: point %zu changed", nm.c_str(), i)) return;
    if (dn <= 1e-6 && dc <= 1e-6) { c.count("features_compared"); continue; }
    if (budget-- <= 0) return;
    Quiet q;
    if (!feature_decided(c.rng, nat, k, i)) { c.count("undecided_features"); continue; }
    c.fail("features", "%s: feature of point %zu (k=%d, %zu points) differs from the native cloud's: normal %.3g, covariance %.3g", nm.c_str(), i, k, ref.size(), dn, dc);
    return;
  }
}
template <typename C, typename Make> static void features(Case& c, const char* nm, Make make, const PointCloud& ref, const PointCloud& nat, int k, int nt, bool N, bool Cv) {
  Quiet q;
  const int alg = c.rng.u(3);
  auto one = [&](const std::string& what, bool n, bool v, auto&& f) { auto o = make(); f(*o); feature_cmp(c, std::string(nm) + " " + what, *o, ref, nat, k, n, v); };
  if constexpr (!std::is_same_v<C, PC> && !std::is_same_v<C, ProxyXYZ> && !std::is_same_v<C, ProxyXYZI>) if (N)
    one("normals", 1, 0, [&](C& o) { if (alg == 0) estimate_normals(o, k); else if (alg == 1) estimate_normals_omp(o, k, nt); else estimate_normals_tbb(o, k); });
  if constexpr (!std::is_same_v<C, PN> && !std::is_same_v<C, PCN>) if (Cv)
    one("covariances", 0, 1, [&](C& o) { if (alg == 0) estimate_covariances(o, k); else if (alg == 1) estimate_covariances_omp(o, k, nt); else estimate_covariances_tbb(o, k); });
  if constexpr (std::is_same_v<C, PNC> || std::is_same_v<C, UserSoA> || std::is_same_v<C, UserAoS>)
    one("both", 1, 1, [&](C& o) { UnsafeKdTree<PointCloud> t(nat); if (alg == 0) estimate_normals_covariances(o, t, k); else if (alg == 1) estimate_normals_covariances_omp(o, t, k, nt); else estimate_normals_covariances_tbb(o, t, k); });
}

// -- 5. voxel maps ---------------------------------------------------------------------------------------------------------------
struct VoxPlan { double leaf; std::vector<Eigen::Isometry3d> T; size_t horizon, cycle, cap; double min_sq; };
template <typename VM, typename C> static std::shared_ptr<VM> vox_run(const VoxPlan& p, const C& in) {
  auto m = std::make_shared<VM>(p.leaf);
  m->lru_horizon = p.horizon; m->lru_clear_cycle = p.cycle;
  if constexpr (!std::is_same_v<VM, GaussianVoxelMap>) { m->voxel_setting.max_num_points_in_cell = p.cap; m->voxel_setting.min_sq_dist_in_cell = p.min_sq; }
  for (auto& T : p.T) m->insert(in, T);
  return m;
}
template <typename VM> static bool vox_same(const VM& a, const VM& b, bool N, bool Cv, double tol, std::string& why) {
  auto ia = traits::point_indices(a), ib = traits::point_indices(b);
  char buf[200];
  if (ia.size() != ib.size()) { snprintf(buf, sizeof buf, "%zu entries, native %zu", ia.size(), ib.size()); why = buf; return false; }
  for (size_t j = 0; j < ib.size(); j++) {
    // the entry at the same place in the other map
    const Eigen::Vector4d p = traits::point(b, ib[j]);
    size_t best = 0; double bd = 1e300;
    for (size_t t = 0; t < ia.size(); t++) { const size_t i = (j + t) % ia.size(); const double d = (Eigen::Vector4d(traits::point(a, ia[i])) - p).norm(); if (d < bd) { bd = d; best = ia[i]; } if (bd <= tol * (1 + p.norm())) break; }
    double dn = 0, dc = 0;
    if constexpr (std::is_same_v<VM, IncrementalVoxelMap<FlatContainerNormal>> || std::is_same_v<VM, IncrementalVoxelMap<FlatContainerNormalCov>>) if (N) dn = (traits::normal(a, best) - traits::normal(b, ib[j])).norm();
    if constexpr (std::is_same_v<VM, IncrementalVoxelMap<FlatContainerCov>> || std::is_same_v<VM, IncrementalVoxelMap<FlatContainerNormalCov>> || std::is_same_v<VM, GaussianVoxelMap>) if (Cv) dc = (traits::cov(a, best) - traits::cov(b, ib[j])).norm();
    if (bd > tol * (1 + p.norm()) || dn > 1e-9 || dc > 1e-9 * (1 + traits::point(b, ib[j]).squaredNorm())) { snprintf(buf, sizeof buf, "entry %zu differs: point %.3g normal %.3g covariance %.3g", j, bd, dn, dc); why = buf; return false; }
  }
  return true;
}
template <typename VM, typename C> static void voxels(Case& c, const char* nm, const char* vn, const C& in, const VoxPlan& p, const PointCloud& nat, const VM& ref, bool N, bool Cv) {
  auto m = vox_run<VM>(p, in);
  std::string why;
  c.count(std::string("voxelmaps_") + vn);
  if (vox_same(*m, ref, N, Cv, 1e-11, why)) return;
  for (int t = 0; t < 3; t++) {   // a point on a voxel face or at the minimum distance?
    PointCloud pert(nat); std::string w2;
    for (size_t j = 0; j < pert.size(); j++) pert.point(j) = vf::P(Eigen::Vector3d(nat.point(j).head<3>() + 1e-13 * (1 + nat.point(j).norm()) * c.rng.vec3(1)));
    if (!vox_same(*vox_run<VM>(p, pert), ref, N, Cv, 1e-9, w2)) { c.count("undecided_voxelmaps"); return; }
  }
  c.fail(std::string("voxelmap-") + vn, "%s inserted into %s: %s", nm, vn, why.c_str());
}

// -- 6. registration -------------------------------------------------------------------------------------------------------------
struct RegPlan { double dist; int iters; Eigen::Isometry3d init; int red, opt, nt; };
template <typename F, typename T, typename S, typename Tree> static RegistrationResult align(const RegPlan& p, const T& target, const S& source, const Tree& tree) {
  Quiet q;
  auto go = [&](auto&& rg) {
    rg.rejector.max_dist_sq = p.dist * p.dist; rg.optimizer.max_iterations = p.iters;
    if constexpr (!std::is_same_v<std::decay_t<decltype(rg.reduction)>, SerialReduction> && !std::is_same_v<std::decay_t<decltype(rg.reduction)>, ParallelReductionTBB>) rg.reduction.num_threads = p.nt;
    return rg.align(target, source, tree, p.init);
  };
  if (p.red == 1) return go(Registration<F, ParallelReductionOMP>());
  if (p.red == 2) return go(Registration<F, ParallelReductionTBB>());
  if (p.opt) return go(Registration<F, SerialReduction, NullFactor, DistanceRejector, GaussNewtonOptimizer>());
  return go(Registration<F, SerialReduction>());
}
static double res_diff(const RegistrationResult& a, const RegistrationResult& b) {
  if (a.num_inliers != b.num_inliers || a.converged != b.converged) return 1e9;
  return (a.T_target_source.matrix() - b.T_target_source.matrix()).norm() + std::abs(a.error - b.error) / (1e-6 + std::abs(b.error)) + (a.H - b.H).norm() / (1e-6 + b.H.norm());
}
template <typename F> static RegistrationResult align_native(const RegPlan& p, const PointCloud& t, const PointCloud& s) { UnsafeKdTree<PointCloud> tree(t); return align<F>(p, t, s, tree); }
template <typename F, typename T, typename S> static void registration(Case& c, const char* nm, const RegPlan& p, const std::shared_ptr<T>& t, const std::shared_ptr<S>& s, const PointCloud& nt, const PointCloud& ns, const RegistrationResult& ref) {
  RegistrationResult r;
  if (c.rng.coin()) { Quiet q; KdTree<T> tree(t); r = align<F>(p, *t, *s, tree); }
  else { Quiet q; UnsafeKdTree<T> tree(*t, KdTreeBuilderOMP(p.nt)); r = align<F>(p, *t, *s, tree); }
  c.count(std::string("registrations_") + kname(KindOf<F>::v));
  if (ref.num_inliers > 10) c.nontrivial();
  const double d = res_diff(r, ref);
  if (d <= 1e-6) return;
  for (int k = 0; k < 40; k++) {
    const double amp = std::pow(10.0, -14 + k % 3);
    PointCloud pt(nt), ps(ns);
    for (size_t j = 0; j < pt.size(); j++) pt.point(j) = vf::P(Eigen::Vector3d(nt.point(j).head<3>() + amp * c.rng.vec3(1)));
    for (size_t j = 0; j < ps.size(); j++) ps.point(j) = vf::P(Eigen::Vector3d(ns.point(j).head<3>() + amp * c.rng.vec3(1)));
    if (!(res_diff(align_native<F>(p, pt, ps), ref) <= 1e-7)) { c.count("undecided_registrations"); return; }
  }
  c.fail(std::string("registration-") + kname(KindOf<F>::v), "%s %s: differs from the native clouds': pose %.3g, inliers %zu/%zu, error %.9g/%.9g, H %.3g of %.3g", nm, kname(KindOf<F>::v), (r.T_target_source.matrix() - ref.T_target_source.matrix()).norm(), (size_t)r.num_inliers, (size_t)ref.num_inliers, r.error, ref.error, (r.H - ref.H).norm(), ref.H.norm());
}
template <typename VM, typename S> static void reg_voxel(Case& c, const char* nm, const RegPlan& p, const VM& vm, const S& s, const PointCloud& ns, const RegistrationResult& ref) {
  const RegistrationResult r = align<GICPFactor>(p, vm, s, vm);
  c.count("registrations_vgicp");
  if (res_diff(r, ref) <= 1e-6) return;
  for (int k = 0; k < 40; k++) {
    const double amp = std::pow(10.0, -14 + k % 3);
    PointCloud ps(ns);
    for (size_t j = 0; j < ps.size(); j++) ps.point(j) = vf::P(Eigen::Vector3d(ns.point(j).head<3>() + amp * c.rng.vec3(1)));
    if (!(res_diff(align<GICPFactor>(p, vm, ps, vm), ref) <= 1e-7)) { c.count("undecided_registrations"); return; }
  }
  c.fail("registration-vgicp", "%s: VGICP differs from the native source's: pose %.3g inliers %zu/%zu error %.9g/%.9g", nm, (r.T_target_source.matrix() - ref.T_target_source.matrix()).norm(), (size_t)r.num_inliers, (size_t)ref.num_inliers, r.error, ref.error);
}

static PointCloud::Ptr float_cloud(vf::Rng& r, vf::Pts p) {
  for (auto& v : p) for (int k = 0; k < 3; k++) v[k] = f32(v[k]);
  auto pc = make_cloud(r, p);
  for (size_t i = 0; i < pc->size(); i++) { pc->normal(i) = pc->normal(i).cast<float>().cast<double>(); const Eigen::Matrix4d s = 0.5 * (pc->cov(i) + pc->cov(i).transpose()); pc->cov(i) = s.cast<float>().cast<double>(); }
  return pc;
}

static void run(Case& c) {
  vf::Rng& r = c.rng;
  const size_t n = r.coin(0.2) ? r.range(0, 8) : r.range(9, 300);
  const int kind = r.u(vf::CLOUD_KINDS + 3);
  const bool scene = kind >= vf::CLOUD_KINDS;
  auto nat = float_cloud(r, scene ? vf::gen_scene(r, n, 5.0, 0.02) : vf::gen_cloud(r, n, kind, r.logreal(0.5, 50)));
  const int nt = r.pick({1, 2, 3, 4});
  c.describe("%s n=%zu nt=%d", scene ? "scene" : vf::kind_name(kind), n, nt);
  for (size_t i = 0; i < n; i += 5) c.sigd(nat->point(i)[0]);
  const Set s = make_set(r, nat);
  if (n == 0) c.count("empty_clouds");

  // reading back
  read_points(c, "MatrixXd", *s.mat, *nat);
  read_points(c, "PointXYZ", *s.xyz, *nat); read_points(c, "PointXYZI", *s.xyzi, *nat);
  read_points(c, "PointNormal", *s.pn, *nat); read_normals(c, "PointNormal", *s.pn, *nat);
  read_points(c, "PointXYZRGBNormal", *s.pcn, *nat); read_normals(c, "PointXYZRGBNormal", *s.pcn, *nat);
  read_points(c, "PointCovariance", *s.pc, *nat); read_covs(c, "PointCovariance", *s.pc, *nat);
  read_points(c, "PointNormalCovariance", *s.pnc, *nat); read_normals(c, "PointNormalCovariance", *s.pnc, *nat); read_covs(c, "PointNormalCovariance", *s.pnc, *nat);
  read_points(c, "Proxy", *s.prox, *nat); read_covs(c, "Proxy", *s.prox, *nat); read_points(c, "ProxyI", *s.proxi, *nat); read_covs(c, "ProxyI", *s.proxi, *nat);
  read_points(c, "UserSoA", *s.soa, *nat); read_normals(c, "UserSoA", *s.soa, *nat); read_covs(c, "UserSoA", *s.soa, *nat);
  read_points(c, "UserAoS", *s.aos, *nat);
  { // the native cloud through its own traits
    PointCloud o; traits::resize(o, n);
    for (size_t i = 0; i < n; i++) { traits::set_point(o, i, nat->point(i)); traits::set_normal(o, i, nat->normal(i)); traits::set_cov(o, i, nat->cov(i)); }
    read_points(c, "PointCloud", o, *nat); read_normals(c, "PointCloud", o, *nat); read_covs(c, "PointCloud", o, *nat);
    for (size_t i = 0; i < n; i++) { c.check(o.point(i) == nat->point(i) && o.normal(i) == nat->normal(i) && o.cov(i) == nat->cov(i), "member-read-back", "member access differs from what was stored at %zu", i); }
    c.check(traits::has_normals(o) == (n > 0) && traits::has_covs(o) == (n > 0), "has-attributes", "PointCloud: has_normals/has_covs");
    c.check(traits::has_normals(*s.pn) == (n > 0) && traits::has_covs(*s.pc) == (n > 0) && traits::has_covs(*s.prox) == (n > 0), "has-attributes", "PCL: has_normals/has_covs");
  }
  construct<float, 3>(c, "Vector3f", *nat); construct<float, 4>(c, "Vector4f", *nat); construct<double, 3>(c, "Vector3d", *nat); construct<double, 4>(c, "Vector4d", *nat);
  construct<float, 4, Eigen::aligned_allocator<Eigen::Vector4f>>(c, "Vector4f-aligned", *nat); construct<double, 4, Eigen::aligned_allocator<Eigen::Vector4d>>(c, "Vector4d-aligned", *nat);
  resizing(c, "PointCloud", *nat, *nat, 1, 1); resizing(c, "PointXYZ", *s.xyz, *nat, 0, 0); resizing(c, "PointNormal", *s.pn, *nat, 1, 0); resizing(c, "PointCovariance", *s.pc, *nat, 0, 1); resizing(c, "PointNormalCovariance", *s.pnc, *nat, 1, 1);
  { // the proxy owns only covariances: resize makes one per point
    std::vector<Eigen::Matrix4d> cv; ProxyXYZ px(*s.xyz, cv);
    c.check(!traits::has_covs(px), "proxy-has-covs", "proxy without covariances claims to have some");
    traits::resize(px, traits::size(px));
    c.check(cv.size() == n, "proxy-resize", "%zu covariances after resizing to %zu", cv.size(), n);
    for (size_t i = 0; i < n && i < cv.size(); i++) traits::set_cov(px, i, nat->cov(i));
    read_covs(c, "Proxy(set)", px, *nat);
  }

  // downsampling
  {
    DownRef d; d.leaf = r.logreal(0.05, 5.0); d.nt = nt; d.seed = (uint32_t)r.next(); d.nrnd = r.u(n + 3); d.mag = 1;
    for (auto& p : nat->points) d.mag = std::max(d.mag, p.head<3>().cwiseAbs().maxCoeff());
    d.decided = true;
    for (auto& p : nat->points) for (int k = 0; k < 3; k++) { const double v = p[k] / d.leaf; if (std::abs(v - std::round(v)) < 1e-9 * (1 + std::abs(v))) d.decided = false; if (std::abs(v) > 1e6) d.decided = false; }
    if (!d.decided) c.count("undecided_downsamplings");
    Quiet q;
    d.grid = pts_of(*voxelgrid_sampling(*nat, d.leaf));
    std::mt19937 mt(d.seed); d.rnd = pts_of(*random_sampling(*nat, d.nrnd, mt));
    down<PointCloud, PXYZ>(c, "PointCloud->PointXYZ", *nat, d, true);
    down<PointCloud, UserAoS>(c, "PointCloud->UserAoS", *nat, d, false);
    down<Eigen::MatrixXd, PointCloud>(c, "MatrixXd->PointCloud", *s.mat, d, false);
    down<PXYZ, PXYZ>(c, "PointXYZ->PointXYZ", *s.xyz, d, true);
    down<PXYZ, PC>(c, "PointXYZ->PointCovariance", *s.xyz, d, true);
    down<PXYZI, PointCloud>(c, "PointXYZI->PointCloud", *s.xyzi, d, false);
    down<PNC, PNC>(c, "PointNormalCovariance->same", *s.pnc, d, true);
    down<PN, PointCloud>(c, "PointNormal->PointCloud", *s.pn, d, false);
    down<ProxyXYZ, PointCloud>(c, "Proxy->PointCloud", *s.prox, d, false);
    down<UserSoA, UserSoA>(c, "UserSoA->UserSoA", *s.soa, d, true);
    down<UserPts, PointCloud>(c, "UserPts->PointCloud", *s.upts, d, false);
    down<UserAoS, PXYZ>(c, "UserAoS->PointXYZ", *s.aos, d, true);
  }

  // search
  {
    SearchRef q; q.k = r.pick({1, 2, 5, 20, (int)n + 2});
    for (int t = 0; t < 6; t++) q.q.push_back(n && r.coin(0.4) ? Eigen::Vector4d(nat->point(r.u(n))) : n && r.coin(0.7) ? vf::P(Eigen::Vector3d(nat->point(r.u(n)).head<3>() + r.vec3(1))) : vf::P(r.vec3(20)));
    for (auto& x : q.q) { std::vector<double> d; for (auto& p : nat->points) d.push_back((p - x).squaredNorm()); std::sort(d.begin(), d.end()); d.resize(std::min<size_t>(d.size(), q.k)); q.d.push_back(d); }
    trees(c, "PointCloud", nat, q, nt); trees(c, "MatrixXd", s.mat, q, nt); trees(c, "PointXYZ", s.xyz, q, nt); trees(c, "PointXYZI", s.xyzi, q, nt);
    trees(c, "PointNormalCovariance", s.pnc, q, nt); trees(c, "PointCovariance", s.pc, q, nt); trees(c, "PointNormal", s.pn, q, nt); trees(c, "Proxy", s.prox, q, nt); trees(c, "UserSoA", s.soa, q, nt); trees(c, "UserAoS", s.aos, q, nt); trees(c, "UserPts", s.upts, q, nt);
    projective(c, "MatrixXd", s.mat, nat, q); projective(c, "PointXYZ", s.xyz, nat, q); projective(c, "UserSoA", s.soa, nat, q); projective(c, "Proxy", s.prox, nat, q);
  }

  // features
  {
    const int k = r.pick({5, 8, 10, 20, 4});
    PointCloud ref(*nat);
    { Quiet q; estimate_normals_covariances(ref, k); }
    auto copy = [](const auto& p) { return [&p]() { return std::make_shared<std::decay_t<decltype(*p)>>(*p); }; };
    features<PN>(c, "PointNormal", copy(s.pn), ref, *nat, k, nt, 1, 0);
    features<PCN>(c, "PointXYZRGBNormal", copy(s.pcn), ref, *nat, k, nt, 1, 0);
    features<PC>(c, "PointCovariance", copy(s.pc), ref, *nat, k, nt, 0, 1);
    features<PNC>(c, "PointNormalCovariance", copy(s.pnc), ref, *nat, k, nt, 1, 1);
    features<UserSoA>(c, "UserSoA", copy(s.soa), ref, *nat, k, nt, 1, 1);
    features<UserAoS>(c, "UserAoS", copy(s.aos), ref, *nat, k, nt, 1, 1);
    std::vector<Eigen::Matrix4d> cv;
    if (r.coin()) cv.resize(r.u(n + 5), Eigen::Matrix4d::Constant(9));
    features<ProxyXYZ>(c, "Proxy", [&]() { return std::make_shared<ProxyXYZ>(*s.xyz, cv); }, ref, *nat, k, nt, 0, 1);
    c.check(cv.size() == n, "proxy-feature-size", "%zu covariances estimated for %zu points", cv.size(), n);
  }

  // voxel maps
  {
    VoxPlan p; p.leaf = r.pick({0.25, 0.5, 1.0, 2.0, r.logreal(0.2, 3)}); p.horizon = r.pick({1, 2, 100}); p.cycle = r.pick({1, 2, 10}); p.cap = r.pick({1, 3, 10}); p.min_sq = r.pick({0.0, 0.01, 0.1});
    const size_t ins = 1 + r.u(3);
    for (size_t i = 0; i < ins; i++) p.T.push_back(r.coin(0.3) ? Eigen::Isometry3d::Identity() : r.iso(M_PI, 3.0));
    const auto a = vox_run<IncrementalVoxelMap<FlatContainerPoints>>(p, *nat); const auto b = vox_run<IncrementalVoxelMap<FlatContainerNormal>>(p, *nat);
    const auto d = vox_run<IncrementalVoxelMap<FlatContainerCov>>(p, *nat); const auto e = vox_run<IncrementalVoxelMap<FlatContainerNormalCov>>(p, *nat); const auto g = vox_run<GaussianVoxelMap>(p, *nat);
    voxels(c, "MatrixXd", "points", *s.mat, p, *nat, *a, 0, 0); voxels(c, "PointXYZ", "points", *s.xyz, p, *nat, *a, 0, 0); voxels(c, "UserPts", "points", *s.upts, p, *nat, *a, 0, 0); voxels(c, "Proxy", "points", *s.prox, p, *nat, *a, 0, 0);
    voxels(c, "PointNormal", "normals", *s.pn, p, *nat, *b, 1, 0); voxels(c, "UserSoA", "normals", *s.soa, p, *nat, *b, 1, 0);
    voxels(c, "PointCovariance", "covs", *s.pc, p, *nat, *d, 0, 1); voxels(c, "Proxy", "covs", *s.prox, p, *nat, *d, 0, 1); voxels(c, "UserAoS", "covs", *s.aos, p, *nat, *d, 0, 1);
    voxels(c, "PointNormalCovariance", "normals-covs", *s.pnc, p, *nat, *e, 1, 1); voxels(c, "UserSoA", "normals-covs", *s.soa, p, *nat, *e, 1, 1);
    voxels(c, "PointCovariance", "gaussian", *s.pc, p, *nat, *g, 0, 1); voxels(c, "PointNormalCovariance", "gaussian", *s.pnc, p, *nat, *g, 0, 1); voxels(c, "ProxyI", "gaussian", *s.proxi, p, *nat, *g, 0, 1); voxels(c, "UserSoA", "gaussian", *s.soa, p, *nat, *g, 0, 1); voxels(c, "UserAoS", "gaussian", *s.aos, p, *nat, *g, 0, 1);
  }

  // registration
  {
    const Eigen::Isometry3d truth = r.iso(0.1, 0.3);
    vf::Pts sp; for (auto& v : nat->points) if (r.coin(0.8)) sp.push_back(vf::P(Eigen::Vector3d(truth.inverse() * Eigen::Vector3d(v.head<3>()) + 0.005 * r.vec3(1))));
    auto snat = float_cloud(r, sp);
    const Set q = make_set(r, snat);
    RegPlan p; p.dist = r.pick({0.5, 1.0, 3.0}); p.iters = r.pick({2, 5, 10}); p.init = r.coin() ? Eigen::Isometry3d::Identity() : r.iso(0.05, 0.1); p.red = r.u(3); p.opt = r.u(2); p.nt = nt;
    const auto ri = align_native<ICPFactor>(p, *nat, *snat); const auto rp = align_native<PointToPlaneICPFactor>(p, *nat, *snat); const auto rg = align_native<GICPFactor>(p, *nat, *snat);
    registration<ICPFactor>(c, "MatrixXd<-MatrixXd", p, s.mat, q.mat, *nat, *snat, ri);
    registration<ICPFactor>(c, "PointXYZ<-UserPts", p, s.xyz, q.upts, *nat, *snat, ri);
    registration<ICPFactor>(c, "UserSoA<-PointXYZI", p, s.soa, q.xyzi, *nat, *snat, ri);
    registration<PointToPlaneICPFactor>(c, "PointNormal<-PointXYZ", p, s.pn, q.xyz, *nat, *snat, rp);
    registration<PointToPlaneICPFactor>(c, "PointNormalCovariance<-MatrixXd", p, s.pnc, q.mat, *nat, *snat, rp);
    registration<PointToPlaneICPFactor>(c, "UserAoS<-Proxy", p, s.aos, q.prox, *nat, *snat, rp);
    registration<GICPFactor>(c, "PointCovariance<-PointCovariance", p, s.pc, q.pc, *nat, *snat, rg);
    registration<GICPFactor>(c, "PointNormalCovariance<-PointCloud", p, s.pnc, q.nat, *nat, *snat, rg);
    registration<GICPFactor>(c, "Proxy<-ProxyI", p, s.prox, q.proxi, *nat, *snat, rg);
    registration<GICPFactor>(c, "UserSoA<-UserAoS", p, s.soa, q.aos, *nat, *snat, rg);
    registration<GICPFactor>(c, "PointCloud<-UserSoA", p, s.nat, q.soa, *nat, *snat, rg);
    GaussianVoxelMap vm(1.0); vm.insert(*s.nat);
    const auto rv = align<GICPFactor>(p, vm, *snat, vm);
    reg_voxel(c, "PointCovariance", p, vm, *q.pc, *snat, rv); reg_voxel(c, "Proxy", p, vm, *q.prox, *snat, rv); reg_voxel(c, "UserSoA", p, vm, *q.soa, *snat, rv); reg_voxel(c, "PointNormalCovariance", p, vm, *q.pnc, *snat, rv);
  }
}
int main(int argc, char** argv) { return vf::main_loop(argc, argv, run); }
