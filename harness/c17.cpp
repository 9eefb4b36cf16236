// C17: the helper interface equals the staged pipeline built from the core components, and honours its settings.
#include "reg.hpp"
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/registration/registration_helper.hpp>
using namespace reg;
using vf::Case;

static bool lex(const Eigen::Vector4d& a, const Eigen::Vector4d& b) { for (int k = 0; k < 3; k++) if (std::abs(a[k] - b[k]) > 1e-9) return a[k] < b[k]; return false; }
static std::vector<Eigen::Vector4d> sorted(const PointCloud& p) { std::vector<Eigen::Vector4d> v; for (size_t i = 0; i < p.size(); i++) v.push_back(p.point(i)); std::sort(v.begin(), v.end(), lex); return v; }
static bool same_points(const PointCloud& a, const PointCloud& b, double tol) {
  if (a.size() != b.size()) return false;
  auto x = sorted(a), y = sorted(b);
  for (size_t i = 0; i < x.size(); i++) if (!((x[i] - y[i]).cwiseAbs().maxCoeff() <= tol)) return false;
  return true;
}
static Eigen::Matrix4d canon(const Eigen::Vector4d& n) { return n * n.transpose(); }

struct Pre { PointCloud::Ptr pts; std::shared_ptr<KdTree<PointCloud>> tree; };

static void take_team(Case& c, const char* what, int nt, bool parallel) {
  if (!chaos_take_max_team) return;
  const int m = (int)chaos_take_max_team();
  if (!parallel) return;
  c.count("thread_counts_checked");
  c.check(m <= nt, std::string("too-many-threads-") + what, "%s: used a team of %d threads with num_threads=%d", what, m, nt);
  c.check(nt == 1 || m == nt, std::string("threads-ignored-") + what, "%s: largest team is %d threads with num_threads=%d", what, m, nt);
}

// The output of preprocess_points against the individual functions.
static void check_preprocessed(Case& c, const PointCloud& raw, double leaf, int k, int nt, const Pre& out) {
  c.count("preprocessed_clouds");
  if (!c.check(out.pts && out.tree, "null-output", "preprocess_points returned a null pointer")) return;
  const auto& P = *out.pts;
  if (!c.check(P.points.size() == P.normals.size() && P.points.size() == P.covs.size(), "attribute-sizes", "sizes %zu %zu %zu", P.points.size(), P.normals.size(), P.covs.size())) return;
  c.check(out.tree->points.get() == out.pts.get(), "tree-of-other-cloud", "the returned tree is not built on the returned cloud");
  // downsampling: voxel sums are conserved whatever the number of groups
  auto ref = voxelgrid_sampling(raw, leaf);
  if (nt == 1 || raw.size() <= 128 || P.size() == ref->size()) {
    c.check(same_points(P, *ref, 1e-9), "downsampled-differs", "preprocess_points(nt=%d) returned %zu points, voxelgrid_sampling %zu (or other coordinates)", nt, P.size(), ref->size());
  } else {
    c.check(P.size() >= ref->size() && P.size() <= ref->size() + raw.size() / 100 + 1, "downsampled-size", "preprocess_points(nt=%d) returned %zu points for %zu voxels", nt, P.size(), ref->size());
  }
  // features as if estimated separately on the returned cloud
  auto again = std::make_shared<PointCloud>(*ref);
  if (!same_points(P, *ref, 1e-9)) { again = std::make_shared<PointCloud>(); again->resize(P.size()); for (size_t i = 0; i < P.size(); i++) again->point(i) = P.point(i); }
  else for (size_t i = 0; i < P.size(); i++) again->point(i) = P.point(i);
  for (size_t i = 0; i < again->size(); i++) { again->normal(i).setZero(); again->cov(i).setZero(); }
  { Quiet q; KdTree<PointCloud> t(again); estimate_normals_covariances(*again, t, k); }
  for (size_t i = 0; i < P.size(); i++) {
    // identical neighbourhoods give identical features; only ties could choose other neighbours
    if ((P.cov(i) - again->cov(i)).norm() <= 1e-6 && (P.normal(i) - again->normal(i)).norm() <= 1e-6) { c.count("features_compared"); continue; }
    std::vector<double> d; for (size_t j = 0; j < P.size(); j++) d.push_back((P.point(j) - P.point(i)).squaredNorm());
    std::sort(d.begin(), d.end());
    if ((size_t)k < d.size() && d[k] - d[k - 1] < 1e-9 * (1 + d[k])) { c.count("tied_neighbourhoods"); continue; }
    // normals are not determined when the neighbourhood is (nearly) collinear or coincident
    Eigen::Vector3d m = Eigen::Vector3d::Zero(); Eigen::Matrix3d S = Eigen::Matrix3d::Zero(); size_t n = 0; const double lim = d[std::min<size_t>(k, d.size()) - 1] * (1 + 1e-12);
    for (size_t j = 0; j < P.size(); j++) if ((P.point(j) - P.point(i)).squaredNorm() <= lim) { m += P.point(j).head<3>(); n++; }
    m /= n;
    for (size_t j = 0; j < P.size(); j++) if ((P.point(j) - P.point(i)).squaredNorm() <= lim) { Eigen::Vector3d e = P.point(j).head<3>() - m; S += e * e.transpose(); }
    Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(S);
    if (es.eigenvalues()[1] - es.eigenvalues()[0] < 1e-6 * (1e-6 + es.eigenvalues()[2]) || std::abs(es.eigenvectors().col(0).dot(P.point(i).head<3>())) < 1e-6) { c.count("undetermined_normals"); continue; }
    c.fail("features-differ", "point %zu of %zu (k=%d, nt=%d): features differ from estimate_normals_covariances by %.3g / %.3g", i, P.size(), k, nt, (P.cov(i) - again->cov(i)).norm(), (P.normal(i) - again->normal(i)).norm());
    break;
  }
  // the tree answers like exhaustive search
  for (int t = 0; t < 5 && P.size(); t++) {
    const Eigen::Vector4d q = vf::P(Eigen::Vector3d(P.point(c.rng.u(P.size())).head<3>() + 0.5 * c.rng.vec3(1)));
    size_t idx; double sq; double best = 1e300; for (size_t j = 0; j < P.size(); j++) best = std::min(best, (P.point(j) - q).squaredNorm());
    c.check(out.tree->nearest_neighbor_search(q, &idx, &sq) == 1 && vf::close(sq, best, 1e-9, 1e-12), "tree-wrong", "the returned tree misses the nearest point");
  }
}

template <typename F, typename T, typename Tree>
static RegistrationResult core(const T& target, const PointCloud& source, const Tree& tree, const Eigen::Isometry3d& init, const RegistrationSetting& s) {
  Registration<F, SerialReduction> rg;
  rg.rejector.max_dist_sq = s.max_correspondence_distance * s.max_correspondence_distance;
  rg.criteria.rotation_eps = s.rotation_eps; rg.criteria.translation_eps = s.translation_eps;
  rg.optimizer.max_iterations = s.max_iterations;
  return rg.align(target, source, tree, init);
}
static RegistrationResult staged(const PointCloud::Ptr& target, const PointCloud& source, const Eigen::Isometry3d& init, const RegistrationSetting& s) {
  Quiet q;
  if (s.type == RegistrationSetting::VGICP) { GaussianVoxelMap vm(s.voxel_resolution); vm.insert(*target); return core<GICPFactor>(vm, source, vm, init, s); }
  KdTree<PointCloud> tree(target);
  if (s.type == RegistrationSetting::ICP) return core<ICPFactor>(*target, source, tree, init, s);
  if (s.type == RegistrationSetting::PLANE_ICP) return core<PointToPlaneICPFactor>(*target, source, tree, init, s);
  return core<GICPFactor>(*target, source, tree, init, s);
}
static const char* tname(RegistrationSetting::RegistrationType t) { return t == RegistrationSetting::ICP ? "icp" : t == RegistrationSetting::PLANE_ICP ? "plane" : t == RegistrationSetting::GICP ? "gicp" : "vgicp"; }

static void same(Case& c, const std::string& what, const RegistrationResult& a, const RegistrationResult& b, double tol) {
  const double d = (a.T_target_source.matrix() - b.T_target_source.matrix()).norm();
  c.maxi("max_pose_difference", std::isfinite(d) ? d : 1e300);
  c.check(d <= tol, what + "-pose", "%s: pose differs from the staged pipeline by %.3g", what.c_str(), d);
  c.check(a.iterations == b.iterations, what + "-iterations", "%s: %zu iterations, staged %zu", what.c_str(), (size_t)a.iterations, (size_t)b.iterations);
  c.check(a.converged == b.converged, what + "-converged", "%s: converged=%d, staged %d", what.c_str(), (int)a.converged, (int)b.converged);
  c.check(a.num_inliers == b.num_inliers, what + "-inliers", "%s: %zu inliers, staged %zu", what.c_str(), (size_t)a.num_inliers, (size_t)b.num_inliers);
  c.check(std::abs(a.error - b.error) <= 1e-6 * (b.error + 1e-6), what + "-error", "%s: error %.12g, staged %.12g", what.c_str(), a.error, b.error);
  c.check((a.H - b.H).norm() <= 1e-6 * (b.H.norm() + 1e-6), what + "-H", "%s: H differs by %.3g of %.3g", what.c_str(), (a.H - b.H).norm(), b.H.norm());
  c.check((a.b - b.b).norm() <= 1e-6 * (b.H.norm() + 1e-6), what + "-b", "%s: b differs by %.3g", what.c_str(), (a.b - b.b).norm());
  c.count("compared_" + what);
}

template <typename T, int D>
static std::vector<Eigen::Matrix<T, D, 1>> cast(const vf::Pts& p) {
  std::vector<Eigen::Matrix<T, D, 1>> o;
  for (auto& v : p) { Eigen::Matrix<T, D, 1> w; for (int k = 0; k < D; k++) w[k] = (T)v[k]; o.push_back(w); }
  return o;
}
static vf::Pts as_float(vf::Pts p) { for (auto& v : p) for (int k = 0; k < 3; k++) v[k] = (double)(float)v[k]; return p; }

static void run(Case& c) {
  vf::Rng& r = c.rng;
  const bool big = r.coin(0.12);
  const size_t n = big ? r.range(1025, 3000) : r.pick({(int)r.range(0, 12), (int)r.range(20, 200), (int)r.range(200, 1000)});
  const double size = 5.0;
  vf::Pts tp = as_float(r.coin(0.9) ? vf::gen_scene(r, n, size, 0.02) : vf::gen_cloud(r, n, r.u(vf::CLOUD_KINDS), 5.0)), sp;
  const Eigen::Isometry3d truth = r.iso(0.15, 0.5);
  if (r.coin(0.85)) for (auto& v : tp) { if (r.coin(0.8)) sp.push_back(vf::P(Eigen::Vector3d(truth.inverse() * Eigen::Vector3d(v.head<3>()) + 0.01 * r.vec3(1)))); }
  else sp = vf::gen_scene(r, r.range(0, 300), size, 0.02);
  sp = as_float(sp);
  RegistrationSetting st;
  st.type = r.pick({RegistrationSetting::ICP, RegistrationSetting::PLANE_ICP, RegistrationSetting::GICP, RegistrationSetting::VGICP});
  st.num_threads = r.pick({1, 1, 2, 3, 5, 8});
  st.downsampling_resolution = r.pick({0.05, 0.25, 0.5, 1.0, 3.0});
  st.voxel_resolution = r.pick({0.5, 1.0, 2.0, 5.0});
  st.max_correspondence_distance = r.pick({0.1, 0.5, 1.0, 2.0, 100.0});
  st.max_iterations = r.pick({1, 2, 3, 5, 10, 20, 50});
  st.rotation_eps = r.pick({1e-5, 1e-4, 0.1 * M_PI / 180, 0.05, 5.0});
  st.translation_eps = r.pick({1e-5, 1e-4, 1e-3, 0.1, 10.0});
  const Eigen::Isometry3d init = r.coin(0.3) ? Eigen::Isometry3d::Identity() : r.iso(0.1, 0.3);
  c.describe("%s nt=%d n=%zu/%zu leaf=%g vox=%g dist=%g iter=%d eps=%g/%g", tname(st.type), st.num_threads, tp.size(), sp.size(), st.downsampling_resolution, st.voxel_resolution, st.max_correspondence_distance, st.max_iterations, st.rotation_eps, st.translation_eps);
  c.sig(c.idx);
  const PointCloud traw(tp), sraw(sp);
  if (chaos_take_max_team) chaos_take_max_team();

  // 1. preprocessing with its own parameters, in all element types
  {
    const int k = r.pick({5, 8, 10, 20}), nt = r.pick({1, 1, 2, 3, 6});
    const double leaf = r.pick({0.1, 0.25, 0.7, 2.0});
    Pre o;
    { Quiet q;
      auto go = [&](auto&& in) { auto [a, b] = preprocess_points(in, leaf, k, nt); o.pts = a; o.tree = b; };
      switch (r.u(5)) {
        case 0: go(cast<float, 3>(tp)); c.count("preprocess_3f"); break;
        case 1: go(cast<float, 4>(tp)); c.count("preprocess_4f"); break;
        case 2: go(cast<double, 3>(tp)); c.count("preprocess_3d"); break;
        case 3: go(cast<double, 4>(tp)); c.count("preprocess_4d"); break;
        default: go(traw); c.count("preprocess_cloud");
      } }
    take_team(c, "preprocess_points", nt, tp.size() > 100);
    check_preprocessed(c, traw, leaf, k, nt, o);
  }

  // 2. staged pipeline
  auto prep = [&](const PointCloud& raw, double leaf) {
    Quiet q; auto p = voxelgrid_sampling(raw, leaf); KdTree<PointCloud> t(p); estimate_normals_covariances(*p, t, 10); return p;
  };
  auto tpre = prep(traw, st.downsampling_resolution), spre = prep(sraw, st.downsampling_resolution);
  if (!tpre->size() || !spre->size()) c.count("empty_inputs");
  const auto ref = staged(tpre, *spre, init, st);
  // Is the outcome decided by rounding?  Repeat with every coordinate moved by a few 1e-13.
  double sens = 0; bool steady = true;
  for (int w = 0; w < 4; w++) {
    auto t2 = std::make_shared<PointCloud>(*tpre); for (size_t i = 0; i < t2->size(); i++) t2->point(i).head<3>() += (w & 1 ? 1e-12 : 1e-13) * r.vec3(1);
    PointCloud s2 = *spre; for (size_t i = 0; i < s2.size(); i++) s2.point(i).head<3>() += (w & 1 ? 1e-12 : 1e-13) * r.vec3(1);
    const auto wob = staged(t2, s2, init, st);
    sens = std::max(sens, (wob.T_target_source.matrix() - ref.T_target_source.matrix()).norm());
    steady = steady && wob.iterations == ref.iterations && wob.num_inliers == ref.num_inliers && wob.converged == ref.converged && sens <= 1e-9;
  }
  // Acceptance of a step that hardly moves is decided by rounding as well.
  { RegistrationSetting s1 = st; s1.max_iterations = (int)ref.iterations; const auto before = staged(tpre, *spre, init, s1); if (ref.num_inliers && (before.T_target_source.matrix() - ref.T_target_source.matrix()).norm() < 1e-7) steady = false; }
  const double tol = 1e-8 + 1e3 * sens;
  vf::SecondLook look(c, [&] { Quiet q; return settled(ref, [&](double amp) { auto t2 = std::make_shared<PointCloud>(*tpre); PointCloud s2 = *spre; disturb(r, *t2, amp); disturb(r, s2, amp); return staged(t2, s2, init, st); }); });

  // 3. separate align() on the preprocessed clouds
  if (steady) {
    Quiet q;
    if (chaos_take_max_team) chaos_take_max_team();
    if (st.type == RegistrationSetting::VGICP) {
      auto vm = create_gaussian_voxelmap(*tpre, st.voxel_resolution);
      same(c, "voxelmap-align", align(*vm, *spre, init, st), ref, tol);
    } else { KdTree<PointCloud> tree(tpre); if (chaos_take_max_team) chaos_take_max_team(); same(c, "cloud-align", align(*tpre, *spre, tree, init, st), ref, tol); }
    take_team(c, "align", st.num_threads, spre->size() > 0);
    if (ref.num_inliers > 5) c.nontrivial();
  } else c.count("rounding_sensitive_runs");
  c.count(std::string("type_") + tname(st.type));

  // 4. one-call alignment in all element types
  // The parallel pipeline returns its points in another order and its features from them; the comparison is made
  // against the same staged computation, so that it is exact up to rounding only when the points are the same set.
  if (steady && tp.size() <= 1000 && sp.size() <= 1000) {
    // features must not depend on ties for this comparison: perturbation-insensitive preprocessing
    bool stable = true;
    for (auto* raw : {&traw, &sraw}) {
      PointCloud w = *raw; for (size_t i = 0; i < w.size(); i++) w.point(i).head<3>() += 1e-12 * r.vec3(1);
      auto a = prep(w, st.downsampling_resolution); auto& b = raw == &traw ? tpre : spre;
      if (!same_points(*a, *b, 1e-9)) { stable = false; break; }
      // same voxels: same (sorted) order
      for (size_t i = 0; i < a->size() && stable; i++) if ((a->cov(i) - b->cov(i)).norm() > 1e-6 || (a->normal(i) - b->normal(i)).norm() > 1e-6) stable = false;
    }
    // where a block boundary of the parallel downsampling splits a voxel there are more points than staged (C07)
    if (stable && st.num_threads > 1) {
      Quiet q;
      if (preprocess_points(traw, st.downsampling_resolution, 10, st.num_threads).first->size() != tpre->size() || preprocess_points(sraw, st.downsampling_resolution, 10, st.num_threads).first->size() != spre->size()) { stable = false; c.count("voxels_split_by_blocks"); }
    }
    if (!stable) c.count("rounding_sensitive_preprocessing");
    else {
      Quiet q;
      if (chaos_take_max_team) chaos_take_max_team();
      same(c, "raw-4d", align(cast<double, 4>(tp), cast<double, 4>(sp), init, st), ref, 1e-7 + 1e5 * sens);
      take_team(c, "align-raw", st.num_threads, tp.size() > 100 && spre->size() > 0);
      same(c, "raw-3f", align(cast<float, 3>(tp), cast<float, 3>(sp), init, st), ref, 1e-7 + 1e5 * sens);
      same(c, "raw-4f", align(cast<float, 4>(tp), cast<float, 4>(sp), init, st), ref, 1e-7 + 1e5 * sens);
      same(c, "raw-3d", align(cast<double, 3>(tp), cast<double, 3>(sp), init, st), ref, 1e-7 + 1e5 * sens);
    }
  } else if (tp.size() > 1000 && steady && ref.converged) {
    // non-deterministic parallel downsampling: the outcome may differ by a few split voxels only
    Quiet q; auto res = align(cast<float, 3>(tp), cast<float, 3>(sp), init, st);
    c.check(is_rigid(res.T_target_source, 1e-6) && res.num_inliers <= sp.size(), "raw-large", "not a rigid pose");
    c.count("large_runs");
  }

  look.end();
  // 5. create_gaussian_voxelmap
  {
    auto vm = create_gaussian_voxelmap(*tpre, st.voxel_resolution);
    GaussianVoxelMap o(st.voxel_resolution); o.insert(*tpre);
    bool ok = vm && traits::size(*vm) == traits::size(o);
    if (ok) { ok = vm->flat_voxels.size() == o.flat_voxels.size(); }
    c.check(ok, "voxelmap-size", "create_gaussian_voxelmap(%g) differs in size from a map created and filled separately", st.voxel_resolution);
    for (size_t i = 0; ok && i < tpre->size(); i++) {
      size_t i1 = 0, i2 = 0; double d1 = -1, d2 = -1;
      size_t n1 = vm->nearest_neighbor_search(tpre->point(i), &i1, &d1), n2 = o.nearest_neighbor_search(tpre->point(i), &i2, &d2);
      if (!c.check(n1 == n2 && vf::close(d1, d2, 1e-9, 1e-12), "voxelmap-content", "create_gaussian_voxelmap: nearest distance %g, separately %g", d1, d2)) break;
      c.count("voxelmap_queries");
    }
  }
}
int main(int argc, char** argv) { return vf::main_loop(argc, argv, run); }
