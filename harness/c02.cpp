// C02: parallel kd-tree construction is schedule-independent.  Oracle: sequentially built tree + exactly-once census.
#include "vf.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
using namespace small_gicp;
using vf::Case;
using vf::Pts;

template <typename Proj, typename B>
static void one(Case& c, const Pts& pts, const UnsafeKdTree<PointCloud, Proj>& ref, const PointCloud& cloud, const B& builder, const char* name, double tol) {
  vf::Rng& r = c.rng;
  UnsafeKdTree<PointCloud, Proj> tree(cloud, builder);
  c.count(std::string("trees_") + name);
  const size_t n = pts.size();
  if (n == 0) {
    size_t i; double d;
    c.check(tree.nearest_neighbor_search(vf::P(0, 0, 0), &i, &d) == 0, "empty", "%s: empty tree found a neighbour", name);
    return;
  }
  // census: a search for all N neighbours must visit every point exactly once
  std::vector<size_t> idx(n);
  std::vector<double> d(n);
  if (n <= 3000 || r.coin(0.2)) {
    size_t f = tree.knn_search(pts[r.u(n)], n, idx.data(), d.data());
    if (c.check(f == n, "census-count", "%s: a search for all %zu points found %zu", name, n, f)) {
      std::vector<char> seen(n, 0);
      for (size_t i = 0; i < n; i++) {
        if (!c.check(idx[i] < n, "census-index", "%s: index %zu of %zu", name, idx[i], n)) break;
        c.check(!seen[idx[i]], "census-duplicate", "%s: point %zu indexed more than once", name, idx[i]);
        seen[idx[i]] = 1;
      }
    }
    c.count("census_points", n);
  }
  for (int q = 0; q < 8; q++) {
    Eigen::Vector4d p = r.coin(0.4) ? pts[r.u(n)] : Eigen::Vector4d(0.5 * (pts[r.u(n)] + pts[r.u(n)]));
    size_t k = 1 + r.u(std::min<size_t>(n, 25));
    std::vector<size_t> i1(k), i2(k);
    std::vector<double> d1(k), d2(k);
    size_t f1 = ref.knn_search(p, k, i1.data(), d1.data());
    size_t f2 = tree.knn_search(p, k, i2.data(), d2.data());
    c.count("queries");
    if (!c.check(f1 == f2, "count-differs", "%s: %zu vs sequential %zu (k=%zu)", name, f2, f1, k)) continue;
    for (size_t j = 0; j < f1; j++) {
      if (!c.check(i2[j] < n, "bad-index", "%s: index %zu of %zu", name, i2[j], n)) break;
      c.check(std::abs(std::sqrt(d1[j]) - std::sqrt(d2[j])) <= tol + 1e-12 * std::sqrt(d1[j]), "distance-differs", "%s: rank %zu: %.17g vs sequential %.17g", name, j, d2[j], d1[j]);
      c.check(vf::close((pts[i2[j]] - p).squaredNorm(), d2[j], 1e-12, 1e-300), "wrong-distance", "%s: rank %zu idx %zu", name, j, i2[j]);
    }
  }
}

template <typename Proj>
static void go(Case& c, const Pts& pts, double tol) {
  vf::Rng& r = c.rng;
  PointCloud cloud(pts);
  const int leaf = r.pick({1, 2, 3, 8, 20, 20, 64}), threads = r.pick({1, 2, 3, 4, 4, 8}), scan = r.pick({3, 128, 128});
  c.describe("leaf=%d threads=%d", leaf, threads);
  KdTreeBuilder b; b.max_leaf_size = leaf; b.projection_setting.max_scan_count = scan;
  KdTreeBuilderOMP o(threads); o.max_leaf_size = leaf; o.projection_setting.max_scan_count = scan;
  KdTreeBuilderTBB t; t.max_leaf_size = leaf; t.projection_setting.max_scan_count = scan;
  UnsafeKdTree<PointCloud, Proj> ref(cloud, b);
  if (r.coin(0.6)) one(c, pts, ref, cloud, o, "omp", tol); else one(c, pts, ref, cloud, t, "tbb", tol);
}

static void run_case(Case& c) {
  vf::Rng& r = c.rng;
  size_t n = r.pick<size_t>({r.u(30), 505 + r.u(15), 513, 514, 600 + r.u(800), 1024 + r.u(10), 1500 + r.u(3000), 1500 + r.u(3000), 3000 + r.u(4000)});
  int kind = r.u(vf::CLOUD_KINDS);
  if (c.rare(151, 5)) { n = 66000 + r.u(40000); kind = r.pick({(int)vf::UNIFORM, (int)vf::LIDAR, (int)vf::PLANAR, (int)vf::LATTICE}); c.count("large_clouds"); }
  const bool np = r.coin(0.35);
  c.describe("%s n=%zu proj=%s", vf::kind_name(kind), n, np ? "normal" : "axis");
  Pts pts = vf::gen_cloud(r, n, kind);
  double m = 0;
  for (auto& p : pts) m = std::max(m, p.head<3>().cwiseAbs().maxCoeff());
  for (size_t i = 0; i < n; i += 100) c.sigd(pts[i][0]);
  if (n > 512) c.nontrivial();
  if (np) go<NormalProjection>(c, pts, 1e-12 * m); else go<AxisAlignedProjection>(c, pts, 0.0);
}
int main(int argc, char** argv) { return vf::main_loop(argc, argv, run_case); }
