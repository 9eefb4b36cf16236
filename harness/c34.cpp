// C34: data out of reach has no influence.  Every part is run on data A and on A with data B merged in, where B is chosen
// by independent arithmetic such that nothing of it can reach what is looked at; the outcomes are compared.
#include "reg.hpp"
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/ann/projective_search.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
#include <small_gicp/registration/registration_helper.hpp>
#include <pcl/point_types.h>
#include <pcl/point_cloud.h>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_registration.hpp>
using namespace reg;
using vf::Case;
typedef std::shared_ptr<PointCloud> CloudPtr;

static CloudPtr select(const PointCloud& in, const std::vector<size_t>& ids) {
  auto o = std::make_shared<PointCloud>(); o->resize(ids.size());
  for (size_t i = 0; i < ids.size(); i++) { o->point(i) = in.point(ids[i]); o->normal(i) = in.normal(ids[i]); o->cov(i) = in.cov(ids[i]); }
  return o;
}
// A and B in one cloud, each in its own order; where[i] is the place of A's point i.
struct Merged { CloudPtr c; std::vector<size_t> where; std::vector<char> from_b; };
static Merged merge(vf::Rng& r, const PointCloud& a, const PointCloud& b) {
  Merged m; m.c = std::make_shared<PointCloud>(); m.c->resize(a.size() + b.size()); m.where.resize(a.size());
  const int how = r.u(4);   // B first, B last, mixed, or one run inside
  const size_t at = r.u(a.size() + 1);
  size_t i = 0, j = 0;
  for (size_t k = 0; k < m.c->size(); k++) {
    bool tb;
    if (j == b.size()) tb = false; else if (i == a.size()) tb = true;
    else if (how == 0) tb = true; else if (how == 1) tb = false; else if (how == 2) tb = r.u(a.size() + b.size() - k) < b.size() - j; else tb = i >= at;
    const PointCloud& s = tb ? b : a; const size_t q = tb ? j++ : i;
    if (!tb) m.where[i++] = k;
    m.from_b.push_back(tb);
    m.c->point(k) = s.point(q); m.c->normal(k) = s.normal(q); m.c->cov(k) = s.cov(q);
  }
  return m;
}
// Points between lo and hi away from the origin
static CloudPtr far_cloud(vf::Rng& r, size_t n, double lo, double hi) {
  vf::Pts p; const int how = r.u(3); const Eigen::Vector3d dir = r.vec3(1).normalized();
  for (size_t i = 0; i < n; i++) {
    Eigen::Vector3d d = how == 0 ? Eigen::Vector3d(r.vec3(1)) : Eigen::Vector3d(dir + 0.02 * r.vec3(1));
    if (how == 2 && r.coin()) d = -d;
    p.push_back(vf::P(Eigen::Vector3d(d.normalized() * r.real(lo, hi))));
  }
  return make_cloud(r, p);
}
static double radius(const PointCloud& c) { double m = 0; for (auto& p : c.points) m = std::max(m, p.head<3>().norm()); return m; }

namespace reg { template <typename K, typename F> struct KindOf<RobustFactor<K, F>> : KindOf<F> {}; }
// ---- registration -----------------------------------------------------------------------------------------------------
template <typename F, typename Opt, typename Red, bool VOX>
static void registration(Case& c, Red red, const char* bk) {
  constexpr Kind K = KindOf<F>::v;
  vf::Rng& r = c.rng;
  auto target = make_cloud(r, vf::gen_scene(r, r.range(80, 400), 5.0, 0.03));
  auto source = make_cloud(r, vf::Pts());
  if (r.coin(0.6)) {
    source = transform(*target, r.iso(0.15, 0.4));
    for (size_t i = 0; i < source->size(); i++) source->point(i).template head<3>() += 0.02 * Eigen::Vector3d(r.normal(), r.normal(), r.normal());
    source->resize(std::max<size_t>(20, source->size() * r.real(0.3, 1.0)));
  } else source = make_cloud(r, vf::gen_scene(r, r.range(60, 300), 5.0, 0.03));
  const double leaf = r.pick({1.0, 2.0, 4.0}); const int off = r.pick({1, 7, 27});
  const double max_dist = r.pick({0.5, 1.0, 2.0, 20.0});
  const int max_it = r.pick({1, 3, 10, 20});
  const Eigen::Isometry3d init = r.coin(0.3) ? Eigen::Isometry3d::Identity() : r.iso(0.1, 0.3);
  Trace tr;
  Registration<F, TracingReduction<Red>, NullFactor, DistanceRejector, Opt> rg;
  rg.reduction.inner = red; rg.reduction.trace = &tr;
  rg.rejector.max_dist_sq = max_dist * max_dist; rg.optimizer.max_iterations = max_it;
  c.describe("registration %s%s %s nt=%zu ns=%zu max_dist=%g max_iter=%d", kname(K), VOX ? "+voxelmap" : "", bk, target->size(), source->size(), max_dist, max_it);
  c.sig(c.idx);
  auto align = [&](CloudPtr t, const PointCloud& s) {
    Quiet q; tr.ev.clear();
    if constexpr (VOX) { GaussianVoxelMap vm(leaf); vm.set_search_offsets(off); vm.insert(*t); return rg.align(vm, s, vm, init); }
    else { KdTree<PointCloud> tree(t); return rg.align(*t, s, tree, init); }
  };
  const auto base = align(target, *source);
  double shift = 0; for (auto& e : tr.ev) { if (!e.T.matrix().allFinite()) return; shift = std::max(shift, e.T.translation().norm()); }
  const double R = radius(*target) + radius(*source) + shift + max_dist + 3 * leaf;
  if (R > 2000) { c.count("unbounded_runs"); return; }
  // Is the outcome decided by rounding?
  double sens = 0; bool steady = true;
  for (int w = 0; w < 3; w++) {
    auto t2 = std::make_shared<PointCloud>(*target); for (size_t i = 0; i < t2->size(); i++) t2->point(i).template head<3>() += 1e-13 * r.vec3(1);
    const auto wob = align(t2, *source);
    sens = std::max(sens, (wob.T_target_source.matrix() - base.T_target_source.matrix()).norm());
    steady = steady && wob.iterations == base.iterations && wob.num_inliers == base.num_inliers && wob.converged == base.converged && sens <= 1e-9;
  }
  { rg.optimizer.max_iterations = (int)base.iterations; const auto before = align(target, *source); rg.optimizer.max_iterations = max_it; if (base.num_inliers && (before.T_target_source.matrix() - base.T_target_source.matrix()).norm() < 1e-7) steady = false; }
  if (!steady) { c.count("rounding_sensitive_runs"); return; }
  vf::SecondLook look(c, [&] { return settled(base, [&](double amp) { auto t2 = std::make_shared<PointCloud>(*target); PointCloud s2 = *source; disturb(r, *t2, amp); disturb(r, s2, amp); return align(t2, s2); }); });
  auto same = [&](const char* what, const RegistrationResult& a) {
    const double d = (a.T_target_source.matrix() - base.T_target_source.matrix()).norm();
    c.maxi(std::string("max_pose_difference_") + what, d);
    c.check(d <= 1e-8 + 1e3 * sens, std::string(what) + "-pose", "%s: pose differs by %.3g", what, d);
    c.check(a.iterations == base.iterations, std::string(what) + "-iterations", "%s: %zu iterations instead of %zu", what, (size_t)a.iterations, (size_t)base.iterations);
    c.check(a.num_inliers == base.num_inliers, std::string(what) + "-inliers", "%s: %zu inliers instead of %zu", what, (size_t)a.num_inliers, (size_t)base.num_inliers);
    c.check(a.converged == base.converged, std::string(what) + "-converged", "%s: converged=%d instead of %d", what, (int)a.converged, (int)base.converged);
    c.check(std::abs(a.error - base.error) <= 1e-6 * (base.error + 1e-6), std::string(what) + "-error", "%s: error %.12g instead of %.12g", what, a.error, base.error);
    c.check((a.H - base.H).norm() <= 1e-6 * (base.H.norm() + 1e-6), std::string(what) + "-H", "%s: information matrix differs by %.3g of %.3g", what, (a.H - base.H).norm(), base.H.norm());
    c.check((a.b - base.b).norm() <= 1e-6 * (base.H.norm() + 1e-6), std::string(what) + "-b", "%s: information vector differs by %.3g", what, (a.b - base.b).norm());
    c.count(std::string("compared_") + what);
  };
  if (base.num_inliers > 10) c.nontrivial();
  // the additions to the two clouds are also out of each other's reach
  auto near_ring = [&](size_t n) { return far_cloud(r, n, 1.5 * R, 3 * R); };
  auto far_ring = [&](size_t n) { return far_cloud(r, n, 8 * R, 20 * R); };
  auto amount = [&] { return (size_t)r.pick({1, 5, 50, 300, 1500}); };
  { auto m = merge(r, *source, *near_ring(amount())); same("far-source", align(target, *m.c)); }
  { auto m = merge(r, *target, *far_ring(amount())); same("far-target", align(m.c, *source)); }
  { auto s = merge(r, *source, *near_ring(amount())); auto t = merge(r, *target, *far_ring(amount())); same("far-both", align(t.c, *s.c)); }
  if (!VOX) {
    std::vector<size_t> d; for (size_t i = 0; i < target->size(); i++) if (r.coin(0.4)) d.push_back(i);
    auto m = merge(r, *target, *select(*target, d)); same("duplicated-target", align(m.c, *source));
  }
}

// ---- searches ---------------------------------------------------------------------------------------------------------
struct Found { std::vector<size_t> i; std::vector<double> d; };
template <typename S> static Found knn(const S& s, const Eigen::Vector4d& q, int k) {
  Found f; f.i.resize(k); f.d.resize(k);
  const size_t n = s.knn_search(q, k, f.i.data(), f.d.data());
  f.i.resize(n); f.d.resize(n); return f;
}
template <typename S> static Found nn(const S& s, const Eigen::Vector4d& q) {
  Found f; f.i.resize(1); f.d.resize(1);
  const size_t n = s.nearest_neighbor_search(q, f.i.data(), f.d.data());
  f.i.resize(n); f.d.resize(n); return f;
}
static void trees(Case& c) {
  vf::Rng& r = c.rng;
  auto A = make_cloud(r, vf::gen_scene(r, r.pick({1, 3, 30, 200, 1000}), 5.0, 0.05));
  c.describe("kd-trees over %zu points", A->size()); c.sig(c.idx);
  KdTree<PointCloud> ta(A);
  for (int rep = 0; rep < 3; rep++) {
    // a few queries at once, whose k nearest points B leaves alone
    const int k = r.pick({1, 4, 20}); const size_t nq = r.pick({1, 2, 4});
    std::vector<Eigen::Vector4d> q; std::vector<Found> ref, ref1;
    for (size_t i = 0; i < nq; i++) { q.push_back(vf::P(Eigen::Vector3d(A->point(r.u(A->size())).template head<3>() + r.pick({0.05, 1.0, 8.0}) * r.vec3(1)))); ref.push_back(knn(ta, q[i], k)); ref1.push_back(nn(ta, q[i])); }
    vf::Pts b; const size_t nb = r.pick({1, 20, 400, 1500});
    for (size_t t = 0; t < 6 * nb && b.size() < nb; t++) {
      Eigen::Vector3d p = r.coin() ? Eigen::Vector3d(6 * r.vec3(1)) : Eigen::Vector3d(A->point(r.u(A->size())).template head<3>() + 0.1 * r.vec3(1));
      if (r.coin(0.3)) { const size_t w = r.u(nq); p = q[w].head<3>() + r.vec3(1).normalized() * (std::sqrt(ref[w].d.back()) * r.pick({1.0001, 1.01, 1.3})); }
      bool ok = true; for (size_t i = 0; i < nq; i++) ok = ok && (int)ref[i].d.size() == k && (p - q[i].head<3>()).squaredNorm() > ref[i].d.back() * (1 + 1e-9) + 1e-12;
      if (ok) b.push_back(vf::P(p));
    }
    if (b.empty()) continue;
    auto m = merge(r, *A, *make_cloud(r, b));
    auto look = [&](const auto& tree, const char* what) {
      for (size_t i = 0; i < nq; i++) {
        const Found g = knn(tree, q[i], k), g1 = nn(tree, q[i]);
        c.count("searches_compared"); c.nontrivial();
        if (!c.check(g.d.size() == ref[i].d.size() && g1.d.size() == ref1[i].d.size(), "tree-count", "%s: farther points change the number of neighbours found from %zu to %zu", what, ref[i].d.size(), g.d.size())) return;
        for (size_t j = 0; j < g.d.size(); j++) {
          if (!c.check(vf::close(g.d[j], ref[i].d[j], 1e-12, 1e-300), "tree-distance", "%s: farther points change the distance of neighbour %zu of %d from %.17g to %.17g", what, j, k, ref[i].d[j], g.d[j])) return;
          const bool tied = (j && ref[i].d[j] <= ref[i].d[j - 1] * (1 + 1e-12)) || (j + 1 < g.d.size() && ref[i].d[j + 1] <= ref[i].d[j] * (1 + 1e-12)) || j + 1 == g.d.size();
          if (g.i[j] >= m.c->size()) { c.check(false, "tree-index", "%s: index %zu of %zu points", what, g.i[j], m.c->size()); return; }
          c.check(!m.from_b[g.i[j]], "tree-farther", "%s: a farther point is neighbour %zu", what, j);
          if (!tied) c.check(g.i[j] == m.where[ref[i].i[j]], "tree-neighbour", "%s: neighbour %zu is another point", what, j);
        }
        if (g1.d.size()) c.check(vf::close(g1.d[0], ref1[i].d[0], 1e-12, 1e-300), "tree-nearest", "%s: farther points change the distance of the nearest point from %.17g to %.17g", what, ref1[i].d[0], g1.d[0]);
      }
    };
    look(KdTree<PointCloud>(m.c), "KdTree");
    look(KdTree<PointCloud, NormalProjection>(m.c), "KdTree<NormalProjection>");
    look(UnsafeKdTree<PointCloud>(*m.c, KdTreeBuilderOMP(r.pick({1, 4}))), "KdTree (OpenMP)");
    look(UnsafeKdTree<PointCloud>(*m.c, KdTreeBuilderTBB()), "KdTree (TBB)");
  }
}
// What lies to the back of the sensor does not change what is found in front of it.
static void projective(Case& c) {
  vf::Rng& r = c.rng;
  auto ring = [&](size_t n, bool front) {
    vf::Pts p;
    while (p.size() < n) {
      const double lon = front ? r.real(-1, 1) : M_PI + r.real(-1, 1), lat = r.real(-1.3, 1.3), d = r.pick({0.5, 2.0, 20.0}) * r.real(0.5, 1.5);
      p.push_back(vf::P(d * Eigen::Vector3d(std::cos(lat) * std::sin(lon), -std::sin(lat), std::cos(lat) * std::cos(lon))));
    }
    return make_cloud(r, p);
  };
  const int w = r.pick({128, 200, 512}), h = r.pick({32, 64, 100});
  auto A = ring(r.pick({1, 20, 300, 2000}), true);
  auto m = merge(r, *A, *ring(r.pick({1, 100, 2000}), false));
  c.describe("projective search %dx%d, %zu + %zu points", w, h, A->size(), m.c->size() - A->size()); c.sig(c.idx);
  ProjectiveSearch<PointCloud> pa(w, h, A), pm(w, h, m.c);
  auto qs = ring(40, true);
  for (auto& q : qs->points) {
    const int k = r.pick({1, 3, 10});
    const Found a = knn(pa, q, k), b = knn(pm, q, k);
    c.count("projective_compared"); if (a.d.size()) c.nontrivial();
    if (!c.check(a.d.size() == b.d.size(), "projective-count", "points behind change the number found from %zu to %zu", a.d.size(), b.d.size())) return;
    for (size_t j = 0; j < a.d.size(); j++) {
      if (!c.check(vf::close(a.d[j], b.d[j], 1e-12, 1e-300), "projective-distance", "points behind change the distance of neighbour %zu from %.17g to %.17g", j, a.d[j], b.d[j])) return;
      if (b.i[j] >= m.c->size()) { c.check(false, "projective-index", "index %zu of %zu", b.i[j], m.c->size()); return; }
      c.check(!m.from_b[b.i[j]], "projective-behind", "a point behind is neighbour %zu", j);
    }
  }
}

// ---- voxels -----------------------------------------------------------------------------------------------------------
typedef std::array<long, 3> Cell;
static Cell cell_of(const Eigen::Vector3d& p, double leaf) { return {(long)std::floor(p[0] / leaf), (long)std::floor(p[1] / leaf), (long)std::floor(p[2] / leaf)}; }
static bool off_faces(const Eigen::Vector3d& p, double leaf, double eps = 1e-6) { for (int d = 0; d < 3; d++) { const double f = p[d] / leaf; if (std::abs(f - std::round(f)) < eps) return false; } return true; }
static bool chosen(const Cell& k, uint64_t salt, int share) { return vf::mix64(salt ^ vf::mix64(k[0] * 1000003ull + vf::mix64(k[1] * 7919ull + vf::mix64(k[2])))) % 10 < (uint64_t)share; }
static vf::Pts spread(vf::Rng& r, size_t n, double leaf, Eigen::Vector3d shift) {
  vf::Pts raw = r.coin() ? vf::gen_scene(r, n, 5.0, 0.05) : vf::Pts();
  if (raw.empty()) for (size_t i = 0; i < n; i++) raw.push_back(vf::P(Eigen::Vector3d(r.pick({1.0, 4.0, 30.0}) * r.vec3(1))));
  vf::Pts p; for (auto& x : raw) { const Eigen::Vector3d y = x.head<3>() + shift; if (off_faces(y, leaf)) p.push_back(vf::P(y)); }
  return p;
}
struct Near { bool operator()(const Eigen::Vector4d& a, const Eigen::Vector4d& b) const { return std::lexicographical_compare(a.data(), a.data() + 3, b.data(), b.data() + 3); } };

static void downsampling(Case& c) {
  vf::Rng& r = c.rng;
  const double leaf = r.pick({0.1, 0.37, 1.0, 2.5}); const uint64_t salt = r.next(); const int share = r.pick({1, 5, 9});
  const Eigen::Vector3d shift = r.coin() ? Eigen::Vector3d::Zero() : Eigen::Vector3d(r.pick({10.0, 1000.0}) * r.vec3(1));
  auto all = make_cloud(r, spread(r, r.pick({50, 400, 3000, 6000}), leaf, shift));
  std::vector<size_t> mine; for (size_t i = 0; i < all->size(); i++) if (chosen(cell_of(all->point(i).template head<3>(), leaf), salt, share)) mine.push_back(i);
  if (mine.empty() || mine.size() == all->size()) return;
  auto A = select(*all, mine);
  c.describe("downsampling %zu of %zu points leaf=%g", A->size(), all->size(), leaf); c.sig(c.idx);
  auto part = [&](const PointCloud& o) { vf::Pts p; for (auto& x : o.points) if (chosen(cell_of(x.template head<3>(), leaf), salt, share)) p.push_back(x); std::sort(p.begin(), p.end(), Near()); return p; };
  const double tol = 1e-9 * (1 + radius(*all));
  auto compare = [&](const char* what, const PointCloud& whole, const PointCloud& alone) {
    const vf::Pts x = part(whole), y = part(alone);
    c.check(y.size() == alone.size(), "downsampled-elsewhere", "%s: %zu of %zu output points lie in voxels without input points", what, alone.size() - y.size(), alone.size());
    if (!c.check(x.size() == y.size(), "downsampled-count", "%s: %zu voxels with the other points, %zu without", what, x.size(), y.size())) return;
    for (size_t i = 0; i < x.size(); i++) if (!c.check((x[i] - y[i]).head<3>().norm() <= tol, "downsampled-value", "%s: a voxel's point is moved by %.3g by points of other voxels", what, (x[i] - y[i]).head<3>().norm())) return;
    c.count(std::string("compared_") + what); c.nontrivial();
  };
  const auto sw = voxelgrid_sampling(*all, leaf), sa = voxelgrid_sampling(*A, leaf);
  compare("voxelgrid_sampling", *sw, *sa);
  // (the parallel versions may divide a voxel between blocks: then there is nothing to compare)
  auto parallel = [&](const char* what, auto f) {
    const auto w = f(*all), a = f(*A);
    if (w->size() != sw->size() || a->size() != sa->size()) { c.count("voxels_divided"); return; }
    compare(what, *w, *a);
  };
  const int nt = r.pick({1, 2, 4, 7});
  parallel("voxelgrid_sampling_omp", [&](const PointCloud& x) { return voxelgrid_sampling_omp(x, leaf, nt); });
  parallel("voxelgrid_sampling_tbb", [&](const PointCloud& x) { return voxelgrid_sampling_tbb(x, leaf); });
}

template <typename Map, bool HN, bool HC, bool GAUSS>
static void voxelmaps(Case& c, const char* name) {
  vf::Rng& r = c.rng;
  const double leaf = r.pick({0.3, 1.0, 2.5}); const uint64_t salt = r.next(); const int share = r.pick({1, 5, 9});
  Map whole(leaf), alone(leaf);
  const size_t horizon = r.pick({2, 5, 100}), cycle = r.pick({1, 3, 10});
  const int off = r.pick({1, 7, 27});
  for (Map* m : {&whole, &alone}) {
    m->lru_horizon = horizon; m->lru_clear_cycle = cycle; m->set_search_offsets(off);
    if constexpr (!GAUSS) { m->voxel_setting.min_sq_dist_in_cell = 0.01 * leaf * leaf; m->voxel_setting.max_num_points_in_cell = 6; }
  }
  const int steps = r.pick({1, 4, 12});
  c.describe("%s leaf=%g horizon=%zu cycle=%zu %d insertions", name, leaf, horizon, cycle, steps); c.sig(c.idx);
  auto mine = [&](const Eigen::Vector4d& p) { return chosen(cell_of(p.head<3>(), leaf), salt, share); };
  struct Entry { Eigen::Vector4d p, n; Eigen::Matrix4d C; };
  auto contents = [&](const Map& m) {
    std::vector<Entry> v; const auto idx = traits::point_indices(m);
    for (auto i : idx) { Entry e; e.p = traits::point(m, i); e.n.setZero(); e.C.setZero(); if constexpr (HN) e.n = traits::normal(m, i); if constexpr (HC) e.C = traits::cov(m, i); if (mine(e.p)) v.push_back(e); }
    std::sort(v.begin(), v.end(), [](const Entry& a, const Entry& b) { return Near()(a.p, b.p); });
    return v;
  };
  for (int s = 0; s < steps; s++) {
    const Eigen::Isometry3d T = r.coin(0.3) ? Eigen::Isometry3d::Identity() : r.iso(1.0, 3.0);
    vf::Pts raw = spread(r, r.pick({0, 20, 150, 600}), leaf, Eigen::Vector3d(s * r.pick({0.0, 3.0, 10.0}), 0, 0));
    vf::Pts in; for (auto& p : raw) if (off_faces(Eigen::Vector3d(T * Eigen::Vector3d(p.head<3>())), leaf)) in.push_back(p);
    auto all = make_cloud(r, in);
    std::vector<size_t> ids; for (size_t i = 0; i < in.size(); i++) if (mine(Eigen::Vector4d(T * in[i]))) ids.push_back(i);
    whole.insert(*all, T); alone.insert(*select(*all, ids), T);
    c.count("insertions");
    const auto x = contents(whole), y = contents(alone);
    if (!c.check(y.size() == traits::point_indices(alone).size(), "map-elsewhere", "%s: stored points lie in voxels that received none", name)) return;
    if (!c.check(x.size() == y.size(), "map-count", "%s: after insertion %d, chosen voxels hold %zu points with the other voxels filled, %zu without", name, s, x.size(), y.size())) return;
    for (size_t i = 0; i < x.size(); i++) {
      if (!c.check((x[i].p - y[i].p).norm() <= 1e-9 && (x[i].n - y[i].n).norm() <= 1e-9 && (x[i].C - y[i].C).norm() <= 1e-9, "map-contents", "%s: after insertion %d, points of other voxels change what a voxel holds", name, s)) return;
      c.count("entries_compared");
    }
    if (x.size()) c.nontrivial();
    // searches whose voxels are all chosen ones
    for (int t = 0; t < 60 && x.size(); t++) {
      const Eigen::Vector4d q = vf::P(Eigen::Vector3d(x[r.u(x.size())].p.template head<3>() + 0.3 * leaf * r.vec3(1)));
      if (!off_faces(q.head<3>(), leaf)) continue;
      bool all_mine = true;
      for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) for (int dz = -1; dz <= 1; dz++) {
        const int man = std::abs(dx) + std::abs(dy) + std::abs(dz);
        if (man > (off == 1 ? 0 : off == 7 ? 1 : 3)) continue;
        all_mine = all_mine && mine(Eigen::Vector4d(q + leaf * Eigen::Vector4d(dx, dy, dz, 0)));
      }
      if (!all_mine) continue;
      const int k = GAUSS ? 1 : r.pick({1, 5, 20});
      const Found a = k == 1 ? nn(whole, q) : knn(whole, q, k), b = k == 1 ? nn(alone, q) : knn(alone, q, k);
      c.count("map_searches_compared");
      if (!c.check(a.d.size() == b.d.size(), "map-search-count", "%s: other voxels change the number of points found from %zu to %zu", name, b.d.size(), a.d.size())) return;
      for (size_t j = 0; j < a.d.size(); j++) if (!c.check(vf::close(a.d[j], b.d[j], 1e-7, 1e-9), "map-search-distance", "%s: other voxels change the distance of neighbour %zu from %.12g to %.12g", name, j, b.d[j], a.d[j])) return;
    }
  }
}

// ---- features ---------------------------------------------------------------------------------------------------------
static void features(Case& c) {
  vf::Rng& r = c.rng;
  const int k = r.pick({5, 10, 20});
  auto A = make_cloud(r, vf::gen_scene(r, r.pick({30, 150, 600}), 5.0, 0.03));
  // B: at some distance, among A, or both
  vf::Pts b; const size_t nb = r.pick({1, 50, 600}); const int how = r.u(3); const Eigen::Vector3d hub = A->point(r.u(A->size())).template head<3>();
  for (size_t i = 0; i < nb; i++) b.push_back(vf::P(Eigen::Vector3d(how == 0 || (how == 2 && r.coin()) ? Eigen::Vector3d(hub + 0.5 * r.vec3(1)) : Eigen::Vector3d(r.pick({20.0, 500.0}) * r.vec3(1)))));
  auto m = merge(r, *A, *make_cloud(r, b));
  const Eigen::Vector4d nan4 = Eigen::Vector4d::Constant(std::numeric_limits<double>::quiet_NaN());
  const int op = r.u(3), bk = r.u(3), nt = r.pick({1, 2, 4}); const bool own_tree = r.coin();
  c.describe("features of %zu points, %zu more, k=%d operation=%d backend=%d", A->size(), b.size(), k, op, bk); c.sig(c.idx);
  auto run = [&](PointCloud& x) {
    for (size_t i = 0; i < x.size(); i++) { x.normal(i) = nan4; x.cov(i).setConstant(nan4[0]); }
    UnsafeKdTree<PointCloud> t(x);
    if (bk == 0) { if (own_tree) op == 0 ? estimate_normals(x, k) : op == 1 ? estimate_covariances(x, k) : estimate_normals_covariances(x, k); else op == 0 ? estimate_normals(x, t, k) : op == 1 ? estimate_covariances(x, t, k) : estimate_normals_covariances(x, t, k); }
    else if (bk == 1) { if (own_tree) op == 0 ? estimate_normals_omp(x, k, nt) : op == 1 ? estimate_covariances_omp(x, k, nt) : estimate_normals_covariances_omp(x, k, nt); else op == 0 ? estimate_normals_omp(x, t, k, nt) : op == 1 ? estimate_covariances_omp(x, t, k, nt) : estimate_normals_covariances_omp(x, t, k, nt); }
    else { if (own_tree) op == 0 ? estimate_normals_tbb(x, k) : op == 1 ? estimate_covariances_tbb(x, k) : estimate_normals_covariances_tbb(x, k); else op == 0 ? estimate_normals_tbb(x, t, k) : op == 1 ? estimate_covariances_tbb(x, t, k) : estimate_normals_covariances_tbb(x, t, k); }
  };
  PointCloud alone(*A), whole(*m.c);
  run(alone); run(whole);
  for (size_t i = 0; i < A->size(); i++) {
    const Eigen::Vector3d p = A->point(i).template head<3>();
    std::vector<std::pair<double, size_t>> d; for (size_t j = 0; j < A->size(); j++) d.push_back({(A->point(j).template head<3>() - p).squaredNorm(), j});
    if ((int)d.size() <= k) return;
    std::partial_sort(d.begin(), d.begin() + k + 1, d.end());
    const double reach = d[k - 1].first;
    if (d[k].first <= reach * (1 + 1e-9)) continue;
    bool alone_here = true; for (auto& x : b) alone_here = alone_here && (x.head<3>() - p).squaredNorm() > reach * (1 + 1e-9);
    if (!alone_here) { c.count("features_within_reach"); continue; }
    Eigen::Vector3d mean = Eigen::Vector3d::Zero(); for (int j = 0; j < k; j++) mean += A->point(d[j].second).template head<3>() / k;
    Eigen::Matrix3d C = Eigen::Matrix3d::Zero(); for (int j = 0; j < k; j++) { const Eigen::Vector3d e = A->point(d[j].second).template head<3>() - mean; C += e * e.transpose() / k; }
    Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(C);
    if (es.eigenvalues()[1] - es.eigenvalues()[0] < 1e-3 * es.eigenvalues()[2]) { c.count("features_undetermined"); continue; }
    const Eigen::Vector3d n = es.eigenvectors().col(0);
    c.count("features_compared"); c.nontrivial();
    const size_t w = m.where[i];
    if (op != 1 && std::abs(n.dot(p)) > 1e-6 * p.norm()) if (!c.check((alone.normal(i) - whole.normal(w)).norm() <= 1e-6, "feature-normal", "normal changed by points farther than the %d nearest: (%.9g %.9g %.9g) and (%.9g %.9g %.9g)", k, alone.normal(i)[0], alone.normal(i)[1], alone.normal(i)[2], whole.normal(w)[0], whole.normal(w)[1], whole.normal(w)[2])) return;
    if (op != 0) if (!c.check((alone.cov(i) - whole.cov(w)).norm() <= 1e-6, "feature-cov", "covariance changed by points farther than the %d nearest, by %.3g", k, (alone.cov(i) - whole.cov(w)).norm())) return;
  }
}

// ---- whole pipelines --------------------------------------------------------------------------------------------------
struct Outcome { Eigen::Isometry3d T; size_t it, inl; bool conv; };
// Compares f(target, source) with additions; skipped where rounding or the division of voxels decides.
template <typename F, typename Ok>
static void pipeline(Case& c, const char* what, const vf::Pts& t, const vf::Pts& s, double reach, double tremor, int max_it, F f, Ok comparable) {
  vf::Rng& r = c.rng;
  const Outcome base = f(t, s, max_it);
  if (!base.T.matrix().allFinite() || base.T.translation().norm() > 20) { c.count("unbounded_runs"); return; }
  auto wobble = [&](const vf::Pts& in) { vf::Pts o(in); for (auto& p : o) p.head<3>() += tremor * r.vec3(1); return o; };
  double sens = 0; bool steady = true;
  for (int w = 0; w < 3; w++) { const Outcome x = f(wobble(t), wobble(s), max_it); sens = std::max(sens, (x.T.matrix() - base.T.matrix()).norm()); steady = steady && x.it == base.it && x.inl == base.inl && x.conv == base.conv && sens < 1e3 * tremor; }
  if (base.inl && base.it && (f(t, s, (int)base.it).T.matrix() - base.T.matrix()).norm() < 1e-7) steady = false;   // (the last step is decided by rounding)
  if (!steady) { c.count("rounding_sensitive_runs"); return; }
  vf::SecondLook look(c, [&] {
    for (int i = 0; i < 30; i++) { const Outcome x = i % 3 ? f(wobble(t), wobble(s), max_it) : f(t, s, max_it); if (x.it != base.it || x.inl != base.inl || x.conv != base.conv || (x.T.matrix() - base.T.matrix()).norm() > std::max(1e-8, 1e3 * tremor)) return false; }
    return true;
  });
  const double R = 30 + reach;
  auto add = [&](const vf::Pts& in, double lo, double hi) {
    vf::Pts b; const size_t n = r.pick({1, 30, 400}); const auto fc = far_cloud(r, n, lo, hi); for (auto& p : fc->points) b.push_back(p);
    vf::Pts o(in); if (r.coin()) o.insert(o.end(), b.begin(), b.end()); else for (auto& p : b) o.insert(o.begin() + r.u(o.size() + 1), p);
    return o;
  };
  for (int which = 1; which < 4; which++) {
    const vf::Pts t2 = which & 2 ? add(t, 8 * R, 12 * R) : t, s2 = which & 1 ? add(s, 2 * R, 3 * R) : s;
    if (!comparable(t, t2) || !comparable(s, s2)) { c.count("voxels_divided"); continue; }
    const Outcome x = f(t2, s2, max_it);
    const char* wn[] = {"", "far source points", "far target points", "far points in both clouds"};
    const double d = (x.T.matrix() - base.T.matrix()).norm();
    c.count(std::string("compared_") + what);
    c.check(d <= 1e-7 + 10 * sens, std::string(what) + "-pose", "%s: %s change the pose by %.3g", what, wn[which], d);
    c.check(x.it == base.it && x.conv == base.conv, std::string(what) + "-iterations", "%s: %s change the iterations from %zu to %zu", what, wn[which], base.it, x.it);
    c.check(x.inl == base.inl, std::string(what) + "-inliers", "%s: %s change the number of inliers from %zu to %zu", what, wn[which], base.inl, x.inl);
    if (base.inl > 10) c.nontrivial();
  }
}
static void two_clouds(vf::Rng& r, vf::Pts& t, vf::Pts& s) {
  t = vf::gen_scene(r, r.range(200, 900), 5.0, 0.02); s = t;
  const Eigen::Isometry3d T = r.iso(0.1, 0.3);
  for (auto& p : s) p = vf::P(Eigen::Vector3d(T * Eigen::Vector3d(p.head<3>() + 0.01 * r.vec3(1))));
}
static void helper(Case& c) {
  vf::Rng& r = c.rng; vf::Pts t, s; two_clouds(r, t, s);
  RegistrationSetting st; st.type = r.pick({RegistrationSetting::ICP, RegistrationSetting::PLANE_ICP, RegistrationSetting::GICP, RegistrationSetting::VGICP});
  st.num_threads = r.pick({1, 2, 4}); st.downsampling_resolution = r.pick({0.3, 0.6}); st.max_iterations = r.pick({5, 20}); st.max_correspondence_distance = r.pick({0.7, 2.0}); st.voxel_resolution = 1.0;
  const char* names[] = {"icp", "plane", "gicp", "vgicp"};
  c.describe("helper %s %zu points threads=%d leaf=%g", names[st.type], t.size(), st.num_threads, st.downsampling_resolution); c.sig(c.idx);
  const bool raw = r.coin();
  const int max_it = st.max_iterations;
  auto f = [&](const vf::Pts& a, const vf::Pts& b, int mi) {
    Quiet q; RegistrationResult x; st.max_iterations = mi;
    if (raw) x = align(a, b, Eigen::Isometry3d::Identity(), st);
    else {
      PointCloud ta(a), sa(b);
      auto [tc, tt] = preprocess_points(ta, st.downsampling_resolution, 10, st.num_threads); auto [sc, ss] = preprocess_points(sa, st.downsampling_resolution, 10, st.num_threads);
      if (st.type == RegistrationSetting::VGICP) { auto vm = create_gaussian_voxelmap(*tc, st.voxel_resolution); x = align(*vm, *sc, Eigen::Isometry3d::Identity(), st); }
      else x = align(*tc, *sc, *tt, Eigen::Isometry3d::Identity(), st);
    }
    return Outcome{x.T_target_source, x.iterations, x.num_inliers, x.converged};
  };
  pipeline(c, "helper", t, s, st.max_correspondence_distance, 1e-10, max_it, f, [&](const vf::Pts& a, const vf::Pts& b) {
    if (st.num_threads == 1) return true;
    for (auto* x : {&a, &b}) { PointCloud p(*x); if (preprocess_points(p, st.downsampling_resolution, 10, st.num_threads).first->size() > voxelgrid_sampling(p, st.downsampling_resolution)->size()) return false; }   // (a voxel may be divided, never merged with another)
    return true; });
}
static void pcl_pipeline(Case& c) {
  vf::Rng& r = c.rng; vf::Pts t, s; two_clouds(r, t, s);
  typedef pcl::PointXYZ P; typedef RegistrationPCL<P, P> Reg;
  const bool vg = r.coin(); const int nt = r.pick({1, 3}), it = r.pick({5, 20}); const double md = r.pick({0.7, 2.0});
  c.describe("PCL %s %zu points threads=%d", vg ? "vgicp" : "gicp", t.size(), nt); c.sig(c.idx);
  auto f = [&](const vf::Pts& a, const vf::Pts& b, int mi) {
    Quiet q; auto cloud = [](const vf::Pts& x) { auto o = pcl::make_shared<pcl::PointCloud<P>>(); for (auto& p : x) o->push_back(P(p[0], p[1], p[2])); return o; };
    Reg g; g.setNumThreads(nt); g.setRegistrationType(vg ? "VGICP" : "GICP"); g.setMaximumIterations(mi); g.setMaxCorrespondenceDistance(md); g.setCorrespondenceRandomness(10);
    g.setInputTarget(cloud(a)); g.setInputSource(cloud(b)); pcl::PointCloud<P> out; g.align(out);
    const auto& x = g.getRegistrationResult();
    return Outcome{x.T_target_source, x.iterations, x.num_inliers, x.converged};
  };
  pipeline(c, "pcl", t, s, md, 2e-6, it, f, [](const vf::Pts&, const vf::Pts&) { return true; });
}

int main(int argc, char** argv) {
  return vf::main_loop(argc, argv, [](Case& c) {
    typedef GaussNewtonOptimizer GN; typedef LevenbergMarquardtOptimizer LM;
    ParallelReductionOMP omp; omp.num_threads = c.rng.pick({1, 2, 4, 7});
    switch (c.idx % 22) {
      case 0: registration<ICPFactor, LM, SerialReduction, false>(c, {}, "LM serial"); break;
      case 1: registration<GICPFactor, LM, SerialReduction, false>(c, {}, "LM serial"); break;
      case 2: registration<PointToPlaneICPFactor, LM, SerialReduction, false>(c, {}, "LM serial"); break;
      case 3: registration<GICPFactor, LM, SerialReduction, true>(c, {}, "LM serial"); break;
      case 4: registration<ICPFactor, GN, ParallelReductionOMP, false>(c, omp, "GN omp"); break;
      case 5: registration<GICPFactor, GN, ParallelReductionTBB, false>(c, {}, "GN tbb"); break;
      case 6: registration<GICPFactor, LM, ParallelReductionOMP, true>(c, omp, "LM omp"); break;
      case 7: if (c.idx / 22 % 2) registration<GICPFactor, LM, ParallelReductionOMP, false>(c, omp, "LM omp"); else registration<RobustFactor<Huber, GICPFactor>, LM, SerialReduction, false>(c, {}, "LM serial, Huber"); break;
      case 8: registration<PointToPlaneICPFactor, LM, ParallelReductionTBB, false>(c, {}, "LM tbb"); break;
      case 9: case 10: trees(c); break;
      case 11: projective(c); break;
      case 12: case 13: downsampling(c); break;
      case 14: voxelmaps<IncrementalVoxelMap<FlatContainerPoints>, false, false, false>(c, "voxel map (points)"); break;
      case 15: voxelmaps<IncrementalVoxelMap<FlatContainerNormal>, true, false, false>(c, "voxel map (normals)"); break;
      case 16: voxelmaps<IncrementalVoxelMap<FlatContainerNormalCov>, true, true, false>(c, "voxel map (normals, covariances)"); break;
      case 17: case 18: voxelmaps<GaussianVoxelMap, false, true, true>(c, "Gaussian voxel map"); break;
      case 19: features(c); break;
      case 20: helper(c); break;
      default: pcl_pipeline(c);
    }
  });
}
