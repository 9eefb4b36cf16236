// C03: incremental voxel map contents follow the insertion history.  Monitor: after every insertion the whole
// map is read back through the public accessors and compared to a replay model of the documented rules.
#include "vox.hpp"
using namespace vox;
using vf::Case;

template <bool HN, bool HC>
static void run(Case& c) {
  vf::Rng& r = c.rng;
  using Map = IncrementalVoxelMap<FlatContainer<HN, HC>>;
  Model m;
  random_model(c, m, false);
  Gen g(r, m);
  g.wild = true;
  Map map(m.leaf);
  map.lru_horizon = m.horizon; map.lru_clear_cycle = m.cycle;
  map.voxel_setting.min_sq_dist_in_cell = m.min_sq; map.voxel_setting.max_num_points_in_cell = m.cap;
  // rarely: more insertions, or more voxels and points, than fit in 16 bits
  const bool marathon = c.rare(149, 7), large = c.rare(149, 11);
  if (large) { g.scale = 40 * m.leaf; c.count("large_maps"); }
  if (marathon) { m.horizon = r.pick({(size_t)3, (size_t)60}); map.lru_horizon = m.horizon; c.count("long_histories"); }
  const int steps = marathon ? 66000 + (int)r.u(300) : large ? 2 : r.range(1, c.thorough ? 150 : 50);
  c.describe("normals=%d covs=%d exact=%d leaf=%.17g horizon=%zu cycle=%zu min_sq=%.17g cap=%zu steps=%d", HN, HC, m.exact, m.leaf, m.horizon, m.cycle, m.min_sq, m.cap, steps);
  for (int s = 0; s < steps; s++) {
    if (r.coin(0.04)) { m.cap = r.range(1, 12); map.voxel_setting.max_num_points_in_cell = m.cap; }
    if (!marathon && r.coin(0.04)) { m.horizon = r.range(1, 12); map.lru_horizon = m.horizon; }
    const Eigen::Isometry3d T = g.pose();
    const size_t n = marathon ? r.u(3) : large ? 90000 : r.coin(0.1) ? 0 : r.coin(0.1) ? r.range(200, 600) : r.range(1, 60);
    const PointCloud pc = g.scan(T, n);
    map.insert(pc, T);
    c.count("insertions"); c.count("points_inserted", pc.size());
    if (marathon && s % 4096 > 2 && s + 100 < steps && (s < 65500 || s % 16)) continue;
    // ---- monitor
    if (!c.check(map.size() == m.vox.size() && traits::size(map) == m.vox.size(), "voxel-count", "step %d: map has %zu voxels, replay has %zu", s, map.size(), m.vox.size())) return;
    const auto idx = traits::point_indices(map);
    const auto vp = traits::voxel_points(map);
    if (!c.check(idx.size() == m.entries() && vp.size() == idx.size(), "entry-count", "step %d: %zu indices, %zu points, replay has %zu", s, idx.size(), vp.size(), m.entries())) return;
    std::set<size_t> uniq(idx.begin(), idx.end());
    c.check(uniq.size() == idx.size(), "duplicate-index", "step %d: point_indices not unique", s);
    std::map<Key, std::vector<char>> used;
    for (size_t j = 0; j < idx.size(); j++) {
      const Eigen::Vector4d p = traits::point(map, idx[j]);
      c.count("entries_compared");
      c.check(p == vp[j], "accessor-mismatch", "step %d: voxel_points[%zu] differs from point(index)", s, j);
      // locate the model entry (face-adjacent keys only matter for rounding)
      Key k; const Eigen::Vector3d p3 = p.template head<3>();
      Model probe = Model(); probe.leaf = m.leaf; probe.exact = true; probe.key(p3, k);
      const double tol = 1e-12 * (1 + p3.norm()) + 1e-12 * m.leaf;
      auto it = m.vox.find(k);
      int best = -1; double bd = 1e300;
      if (it != m.vox.end()) {
        auto& u = used[k]; u.resize(it->second.ents.size(), 0);
        for (size_t e = 0; e < it->second.ents.size(); e++) {
          const double d = (it->second.ents[e].p - p).norm();
          // identical points are told apart by their attributes
          double da = d;
          if constexpr (HN) da += 1e-3 * (it->second.ents[e].n - traits::normal(map, idx[j])).norm() * m.leaf;
          if constexpr (HC) da += 1e-3 * (it->second.ents[e].C - traits::cov(map, idx[j])).norm() * m.leaf;
          if (!u[e] && d <= tol && da < bd) { bd = da; best = e; }
        }
        if (best >= 0) u[best] = 1;
      }
      if (!c.check(best >= 0, "unexpected-point", "step %d: stored point %.17g %.17g %.17g (w=%g) is not in the replay of voxel %s", s, p[0], p[1], p[2], p[3], kstr(k).c_str())) return;
      const Ent& e = it->second.ents[best];
      if constexpr (HN) {
        const Eigen::Vector4d nn = traits::normal(map, idx[j]);
        c.check((nn - e.n).norm() <= 1e-12 * e.n.norm(), "wrong-normal", "step %d: normal %.9g %.9g %.9g %.9g expected %.9g %.9g %.9g 0", s, nn[0], nn[1], nn[2], nn[3], e.n[0], e.n[1], e.n[2]);
        c.count("normals_compared");
      }
      if constexpr (HC) {
        const Eigen::Matrix4d cc = traits::cov(map, idx[j]);
        c.check((cc - e.C).norm() <= 1e-11 * e.C.norm(), "wrong-cov", "step %d: covariance off by %.3g", s, (cc - e.C).norm());
        c.count("covs_compared");
      }
    }
    if constexpr (HN) { auto v = traits::voxel_normals(map); c.check(v.size() == idx.size(), "accessor-count", "voxel_normals %zu vs %zu", v.size(), idx.size()); for (size_t j = 0; j < v.size() && j < idx.size(); j++) c.check(v[j] == Eigen::Vector4d(traits::normal(map, idx[j])), "accessor-mismatch", "voxel_normals[%zu]", j); }
    if constexpr (HC) { auto v = traits::voxel_covs(map); c.check(v.size() == idx.size(), "accessor-count", "voxel_covs %zu vs %zu", v.size(), idx.size()); for (size_t j = 0; j < v.size() && j < idx.size(); j++) c.check(v[j] == Eigen::Matrix4d(traits::cov(map, idx[j])), "accessor-mismatch", "voxel_covs[%zu]", j); }
    if (!idx.empty()) c.nontrivial();
  }
  c.count("rejected_full", m.rej_full); c.count("rejected_close", m.rej_close); c.count("evicted_voxels", m.evicted); c.count("recreated_voxels", m.recreated);
}

int main(int argc, char** argv) {
  return vf::main_loop(argc, argv, [](Case& c) {
    switch (c.idx % 4) { case 0: run<false, false>(c); break; case 1: run<true, false>(c); break; case 2: run<false, true>(c); break; default: run<true, true>(c); }
  });
}
