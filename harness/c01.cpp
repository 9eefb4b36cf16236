// C01: kd-tree neighbour search is exact.  Oracle: exhaustive search over the input points.
#include "vf.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
using namespace small_gicp;
using vf::Case;
using vf::Pts;

struct Oracle {
  const Pts& p;
  std::vector<double> d;
  Oracle(const Pts& p, const Eigen::Vector4d& q) : p(p) { d.reserve(p.size()); for (auto& x : p) d.push_back((x - q).head<3>().squaredNorm()); }
};

template <typename Found>
static void judge(Case& c, const char* how, const Pts& pts, const Eigen::Vector4d& q, size_t k, size_t n_found, const std::vector<size_t>& idx, const std::vector<double>& dist, double eps, double lin_tol, Found&&) {
  c.count("queries");
  Oracle o(pts, q);
  const size_t want = std::min(k, pts.size());
  if (pts.empty()) c.count("queries_empty_tree");
  if (k >= pts.size()) c.count("queries_k_ge_n");
  if (!c.check(n_found <= k, "too-many", "%s: returned %zu > k=%zu", how, n_found, k)) return;
  std::set<size_t> seen;
  for (size_t i = 0; i < n_found; i++) {
    if (!c.check(idx[i] < pts.size(), "invalid-index", "%s: index %zu of %zu at rank %zu (N=%zu)", how, idx[i], n_found, i, pts.size())) return;
    c.check(seen.insert(idx[i]).second, "duplicate", "%s: index %zu returned twice", how, idx[i]);
    c.check(vf::close(dist[i], o.d[idx[i]], 1e-12, 1e-300), "wrong-distance", "%s: rank %zu idx %zu reported %.17g true %.17g", how, i, idx[i], dist[i], o.d[idx[i]]);
    if (i) c.check(dist[i] >= dist[i - 1], "not-ascending", "%s: d[%zu]=%.17g < d[%zu]=%.17g", how, i, dist[i], i - 1, dist[i - 1]);
  }
  // early termination: k points all closer than the threshold are acceptable
  if (eps > 0) {
    c.count("early_termination_queries");
    if (n_found == k && k > 0 && dist[n_found - 1] < eps) { c.count("early_terminated"); return; }
  }
  if (!c.check(n_found == want, "wrong-count", "%s: returned %zu, expected %zu (k=%zu N=%zu)", how, n_found, want, k, pts.size())) return;
  std::vector<double> s = o.d;
  std::partial_sort(s.begin(), s.begin() + want, s.end());
  for (size_t i = 0; i < want; i++) {
    const double a = std::sqrt(dist[i]), b = std::sqrt(s[i]);
    if (!c.check(std::abs(a - b) <= 1e-12 * b + lin_tol, "not-nearest", "%s: rank %zu distance %.17g but exhaustive search has %.17g (k=%zu N=%zu)", how, i, a, b, k, pts.size())) return;
  }
}

template <int N, typename Tree>
static size_t fixed(const Tree& t, const Eigen::Vector4d& q, std::vector<size_t>& i, std::vector<double>& d, const KnnSetting& s) {
  i.assign(N, 12345678901ull); d.assign(N, -7.0);
  return t.template knn_search<N>(q, i.data(), d.data(), s);
}

template <typename Tree>
static void query_all(Case& c, const Tree& tree, const Pts& pts, double lin_tol, bool safe_tree) {
  vf::Rng& r = c.rng;
  const size_t n = pts.size();
  const int nq = 6;
  double scale = 1.0;
  Eigen::Vector4d ctr = vf::P(0, 0, 0);
  if (n) { ctr = pts[r.u(n)]; scale = 0; for (size_t i = 0; i < std::min<size_t>(n, 50); i++) scale = std::max(scale, (pts[i] - ctr).norm()); if (scale == 0) scale = 1; }
  for (int qi = 0; qi < nq; qi++) {
    Eigen::Vector4d q;
    switch (r.u(6)) {
      case 0: q = n ? pts[r.u(n)] : vf::P(r.vec3(10)); break;                                  // on a point
      case 1: q = ctr + Eigen::Vector4d(scale * r.normal(), scale * r.normal(), scale * r.normal(), 0); break;
      case 2: q = ctr + Eigen::Vector4d(100 * scale * r.normal(), 100 * scale * r.normal(), 100 * scale * r.normal(), 0); break;
      case 3: if (n) { q = pts[r.u(n)]; int a = r.u(3); q[a] = pts[r.u(n)][a]; } else q = vf::P(0, 0, 0); break;  // on split planes
      case 4: if (n) q = 0.5 * (pts[r.u(n)] + pts[r.u(n)]); else q = vf::P(1, 2, 3); break;                        // midpoints: ties
      default: q = vf::P(r.vec3(10)); break;
    }
    KnnSetting st;
    if (r.coin(0.3)) st.epsilon = std::pow(scale * r.logreal(1e-3, 3.0), 2);
    size_t k = r.pick<size_t>({1, 1, 2, 3, 5, 10, 20, n ? n : 1, n + 3, 1 + r.u(n + 2)});
    if (k > 64 && r.coin(0.7)) k = 1 + r.u(40);
    std::vector<size_t> idx(k, 987654321);
    std::vector<double> dist(k, -1.0);
    size_t f = tree.knn_search(q, k, idx.data(), dist.data(), st);
    judge(c, "knn_search(k)", pts, q, k, f, idx, dist, st.epsilon, lin_tol, 0);

    idx.assign(1, 987654321); dist.assign(1, -1.0);
    f = tree.nearest_neighbor_search(q, idx.data(), dist.data(), st);
    judge(c, "nearest_neighbor_search", pts, q, 1, f, idx, dist, st.epsilon, lin_tol, 0);

    idx.assign(1, 987654321); dist.assign(1, -1.0);
    f = traits::nearest_neighbor_search(tree, q, idx.data(), dist.data());
    judge(c, "traits::nearest_neighbor_search", pts, q, 1, f, idx, dist, 0, lin_tol, 0);

    size_t kk = 1 + r.u(12);
    idx.assign(kk, 987654321); dist.assign(kk, -1.0);
    f = traits::knn_search(tree, q, kk, idx.data(), dist.data());
    judge(c, "traits::knn_search", pts, q, kk, f, idx, dist, 0, lin_tol, 0);

    if constexpr (!std::is_same_v<Tree, KdTree<PointCloud, AxisAlignedProjection>> && !std::is_same_v<Tree, KdTree<PointCloud, NormalProjection>>) {
      size_t ks[] = {1, 2, 3, 7, 20};
      int w = r.u(5);
      f = w == 0 ? fixed<1>(tree, q, idx, dist, st) : w == 1 ? fixed<2>(tree, q, idx, dist, st) : w == 2 ? fixed<3>(tree, q, idx, dist, st) : w == 3 ? fixed<7>(tree, q, idx, dist, st) : fixed<20>(tree, q, idx, dist, st);
      judge(c, "knn_search<N>", pts, q, ks[w], f, idx, dist, st.epsilon, lin_tol, 0);
    }
  }
}

template <typename Proj>
static void with_projection(Case& c, const Pts& pts, double lin_tol) {
  vf::Rng& r = c.rng;
  auto cloud = std::make_shared<PointCloud>(pts);
  const int builder = r.u(3), leaf = r.pick({1, 2, 3, 5, 10, 20, 20, 20, 50, 1 + (int)r.u(40)}), scan = r.pick({1, 2, 7, 128, 128, 128, 100000});
  const int threads = r.pick({1, 2, 3, 4, 8});
  c.describe("builder=%d leaf=%d scan=%d threads=%d", builder, leaf, scan, threads);
  auto go = [&](const auto& b) {
    if (r.coin()) { UnsafeKdTree<PointCloud, Proj> t(*cloud, b); query_all(c, t, pts, lin_tol, false); }
    else { KdTree<PointCloud, Proj> t(cloud, b); query_all(c, t, pts, lin_tol, true); }
  };
  if (builder == 0) { KdTreeBuilder b; b.max_leaf_size = leaf; b.projection_setting.max_scan_count = scan; go(b); }
  else if (builder == 1) { KdTreeBuilderOMP b(threads); b.max_leaf_size = leaf; b.projection_setting.max_scan_count = scan; go(b); }
  else { KdTreeBuilderTBB b; b.max_leaf_size = leaf; b.projection_setting.max_scan_count = scan; go(b); }
  if (r.coin(0.1)) { UnsafeKdTree<PointCloud, Proj> t(*cloud); query_all(c, t, pts, lin_tol, false); }
}

static void run_case(Case& c) {
  vf::Rng& r = c.rng;
  size_t n = r.pick<size_t>({0, 1, 2, 3, r.u(8), r.u(25), 19 + r.u(4), r.u(60), r.u(200), r.u(200), r.u(800), 500 + r.u(30), 1000 + r.u(100), r.u(3000)});
  if (c.idx % 97 == 0) n = 0;
  const int kind = r.u(vf::CLOUD_KINDS);
  const bool np = r.coin(0.4);
  c.describe("%s n=%zu proj=%s", vf::kind_name(kind), n, np ? "normal" : "axis");
  Pts pts = vf::gen_cloud(r, n, kind, r.pick({0.1, 10.0, 10.0, 100.0}));
  if (c.idx % 331 == 5) { n = 66000 + r.u(70000); pts = vf::gen_cloud(r, n, kind, 10.0); c.count("large_clouds"); c.describe("n=%zu", n); }
  if (r.coin(0.2)) {  // map coordinates: large compared with the spacing of the points
    const Eigen::Vector3d o = r.dir() * r.pick({1e3, 1e5, 1e6, 5e6});
    for (auto& p : pts) p.head<3>() += o;
    c.count("offset_clouds"); c.describe("offset=%.3g", o.norm());
  }
  double m = 0;
  for (auto& p : pts) { m = std::max(m, p.head<3>().cwiseAbs().maxCoeff()); c.sigd(p[0]); }
  if (n) c.nontrivial();
  if (np) with_projection<NormalProjection>(c, pts, 1e-12 * m);
  else with_projection<AxisAlignedProjection>(c, pts, 0.0);
}

int main(int argc, char** argv) { return vf::main_loop(argc, argv, run_case); }
