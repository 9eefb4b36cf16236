// C05: Gaussian voxels are the exact running statistics of their points.  Oracle: long-double sums per voxel since its creation.
#include "vox.hpp"
using namespace vox;
using vf::Case;

static void compare(Case& c, const GaussianVoxelMap& map, const Model& m, int s, const char* what, double amp) {
  if (!c.check(map.size() == m.vox.size(), "voxel-count", "%s step %d: map has %zu voxels, replay has %zu", what, s, map.size(), m.vox.size())) return;
  const auto idx = traits::point_indices(map);
  if (!c.check(idx.size() == m.vox.size(), "entry-count", "%s step %d: %zu entries for %zu voxels", what, s, idx.size(), m.vox.size())) return;
  // every replay voxel must be matched by one entry; the entry's voxel is identified through the voxel meta information
  std::set<Key> seen;
  for (size_t i : idx) {
    const auto& v = *map.flat_voxels[map.voxel_id(i)];
    const Key k = {v.first.coord[0], v.first.coord[1], v.first.coord[2]};
    auto it = m.vox.find(k);
    if (!c.check(it != m.vox.end(), "unexpected-voxel", "%s step %d: voxel %s exists but received no points (or was evicted)", what, s, kstr(k).c_str())) return;
    c.check(seen.insert(k).second, "duplicate-voxel", "%s step %d: voxel %s appears twice", what, s, kstr(k).c_str());
    const MVox& e = it->second;
    const Eigen::Vector4d p = traits::point(map, i);
    const Eigen::Matrix4d C = traits::cov(map, i);
    Eigen::Vector4d mean; mean << (e.sum / (LD)e.n).cast<double>(), 1.0;
    Eigen::Matrix4d cov = Eigen::Matrix4d::Zero(); cov.topLeftCorner<3, 3>() = (e.csum / (LD)e.n).cast<double>();
    c.count("voxels_compared"); c.maxi("max_points_per_voxel", e.n);
    if (e.n > 1) c.count("voxels_with_several_points");
    const double tp = 1e-12 * amp * (1 + mean.norm()), tc = 1e-12 * amp * (1 + cov.norm());
    c.check((p - mean).norm() <= tp, "wrong-mean", "%s step %d: voxel %s (n=%zu) mean %.17g %.17g %.17g %.17g expected %.17g %.17g %.17g 1", what, s, kstr(k).c_str(), e.n, p[0], p[1], p[2], p[3], mean[0], mean[1], mean[2]);
    c.check((C - cov).norm() <= tc, "wrong-cov", "%s step %d: voxel %s (n=%zu) covariance off by %.3g (norm %.3g)", what, s, kstr(k).c_str(), e.n, (C - cov).norm(), cov.norm());
    c.check(v.second.num_points == e.n, "wrong-count", "%s step %d: voxel %s num_points=%zu expected %zu", what, s, kstr(k).c_str(), (size_t)v.second.num_points, e.n);
  }
  if (!idx.empty()) c.nontrivial();
}

static void run(Case& c) {
  vf::Rng& r = c.rng;
  Model m;
  random_model(c, m, true);
  Gen g(r, m);
  GaussianVoxelMap map(m.leaf);
  map.lru_horizon = m.horizon; map.lru_clear_cycle = m.cycle;
  const bool marathon = c.rare(149, 9), large = c.rare(149, 11);
  if (large) { g.scale = 40 * m.leaf; c.count("large_maps"); }
  if (marathon) { m.horizon = r.pick({(size_t)3, (size_t)60}); map.lru_horizon = m.horizon; c.count("long_histories"); }
  const int steps = marathon ? 66000 + (int)r.u(300) : large ? 2 : r.range(1, c.thorough ? 200 : 60);
  c.describe("exact=%d leaf=%.17g horizon=%zu cycle=%zu steps=%d", m.exact, m.leaf, m.horizon, m.cycle, steps);
  for (int s = 0; s < steps; s++) {
    if (!marathon && r.coin(0.04)) { m.horizon = r.range(1, 12); map.lru_horizon = m.horizon; }
    const Eigen::Isometry3d T = g.pose();
    const PointCloud pc = g.scan(T, marathon ? r.u(3) : large ? 90000 : r.coin(0.1) ? 0 : r.coin(0.1) ? r.range(200, 800) : r.range(1, 60));
    map.insert(pc, T);
    c.count("insertions"); c.count("points_inserted", pc.size());
    if (marathon && s % 4096 > 2 && s + 100 < steps && (s < 65500 || s % 16)) continue;
    compare(c, map, m, s, "history", 1 + s);
    if (!c.reported.empty()) return;
  }
  c.count("evicted_voxels", m.evicted); c.count("recreated_voxels", m.recreated);

  // A crowded voxel: more points in one voxel than fit in a short counter, over one or many insertions.
  if (c.idx % 40 == 7) {
    Model d; d.gaussian = true; d.leaf = r.logreal(0.5, 20.0); d.horizon = 1000000; d.cycle = 10; d.min_sq = 1e-4;
    Gen gd(r, d);
    gd.scale = 0.05 * d.leaf; gd.pos.setConstant(0.5 * d.leaf); gd.vel.setZero();
    GaussianVoxelMap crowded(d.leaf);
    crowded.lru_horizon = 1000000;
    const size_t total = r.pick<size_t>({300, 40000, 70000, 140000});
    const bool many = r.coin(0.3);
    int n = 0;
    for (size_t sum = 0; sum < total; n++) {
      const size_t k = many ? std::min<size_t>(total - sum, 1 + r.u(700)) : total - sum;
      const Eigen::Isometry3d T = gd.pose();
      crowded.insert(gd.scan(T, k), T); sum += k;
    }
    c.count("crowded_voxels", crowded.size());
    compare(c, crowded, d, n, "crowded", 1000 + n);
  }

  // Independence of how points are divided into insertions (no eviction).
  Model a; a.gaussian = true; a.exact = m.exact; a.leaf = m.leaf; a.horizon = 1000000; a.cycle = 10;
  Gen ga(r, a);
  const Eigen::Isometry3d T = ga.pose();
  const PointCloud pc = ga.scan(T, r.range(1, 400));
  GaussianVoxelMap split(a.leaf);
  split.lru_horizon = 1000000;
  size_t i = 0; int parts = 0;
  while (i < pc.size()) {
    const size_t n = std::min<size_t>(pc.size() - i, r.coin(0.5) ? 1 : r.range(1, 100));
    PointCloud part; part.resize(n);
    for (size_t j = 0; j < n; j++) { part.point(j) = pc.point(i + j); part.normal(j) = pc.normal(i + j); part.cov(j) = pc.cov(i + j); }
    split.insert(part, T); i += n; parts++;
    if (r.coin(0.1)) split.insert(PointCloud(), T);
  }
  c.count("split_insertions", parts);
  compare(c, split, a, parts, "split", 1 + parts);
}

int main(int argc, char** argv) { return vf::main_loop(argc, argv, [](Case& c) { run(c); }); }
