// C04: voxel-map search is exact within its neighbourhood.  Oracle: brute force over the replay model's entries.
#include "vox.hpp"
using namespace vox;
using vf::Case;

struct Cand { double d; const Ent* e; };

template <bool HN, bool HC, bool GAUSS>
static void run(Case& c) {
  vf::Rng& r = c.rng;
  using Map = std::conditional_t<GAUSS, GaussianVoxelMap, IncrementalVoxelMap<FlatContainer<HN, HC>>>;
  Model m;
  random_model(c, m, GAUSS);
  if (r.coin(0.5)) m.horizon = 100;
  Gen g(r, m);
  Map map(m.leaf);
  map.lru_horizon = m.horizon; map.lru_clear_cycle = m.cycle;
  if constexpr (!GAUSS) { map.voxel_setting.min_sq_dist_in_cell = m.min_sq; map.voxel_setting.max_num_points_in_cell = m.cap; }
  const int steps = r.range(0, 25);
  c.describe("gauss=%d normals=%d covs=%d exact=%d leaf=%.17g horizon=%zu cycle=%zu min_sq=%.17g cap=%zu steps=%d", GAUSS, HN, HC, m.exact, m.leaf, m.horizon, m.cycle, m.min_sq, m.cap, steps);
  int noff = 1;  // a new map searches the query's own voxel
  for (int s = 0; s <= steps; s++) {
    if (s) {
      const Eigen::Isometry3d T = g.pose();
      map.insert(g.scan(T, r.coin(0.1) ? 0 : r.range(1, 80)), T);
    }
    const int rounds = s == steps ? 6 : r.coin(0.2) ? 1 : 0;
    for (int q = 0; q < rounds; q++) {
      if (r.coin(0.7)) {
        const int want = r.pick({1, 7, 27, 27, 7, 27, 5});
        std::streambuf* old = nullptr; std::ostringstream sink;
        if (want == 5) old = std::cerr.rdbuf(sink.rdbuf());
        map.set_search_offsets(want);
        if (old) std::cerr.rdbuf(old);
        noff = want == 5 ? 1 : want;
      }
      // model entries of a gaussian map: one per voxel
      std::map<Key, std::vector<Ent>> ents;
      for (auto& kv : m.vox) {
        if (!GAUSS) ents[kv.first] = kv.second.ents;
        else {
          Ent e; e.p.setOnes(); e.n.setZero(); e.C.setZero();
          e.p.template head<3>() = (kv.second.sum / (LD)kv.second.n).template cast<double>();
          e.C.template topLeftCorner<3, 3>() = (kv.second.csum / (LD)kv.second.n).template cast<double>();
          ents[kv.first] = {e};
        }
      }
      const auto all = traits::point_indices(map);
      const std::set<size_t> valid(all.begin(), all.end());
      for (int t = 0; t < 8; t++) {
        // query: near an entry, in a neighbouring voxel, on a face (exact mode), or anywhere
        Eigen::Vector3d p = g.pos + r.vec3(g.scale * 1.5);
        if (!all.empty() && r.coin(0.8)) {
          p = traits::point(map, r.pick(all)).template head<3>();
          const int how = r.u(4);
          if (how == 1) p += r.vec3(m.leaf);
          if (how == 2) p += Eigen::Vector3d(r.range(-2, 2), r.range(-2, 2), r.range(-2, 2)) * m.leaf;
          if (how == 3) p += r.vec3(m.leaf * 0.1);
        }
        if (m.exact && r.coin(0.7)) for (int i = 0; i < 3; i++) p[i] = std::round(p[i] / m.leaf * 8) / 8 * m.leaf;
        Key k;
        { Model probe; probe.leaf = m.leaf; probe.exact = false; if (!probe.key(p, k)) { bool lattice = m.exact; for (int i = 0; i < 3; i++) lattice = lattice && p[i] / m.leaf * 8 == std::round(p[i] / m.leaf * 8); if (!lattice) continue; m.key(p, k); } }
        std::vector<Cand> cand;
        int occupied = 0;
        for (auto& kv : ents) {
          int a = std::abs(kv.first[0] - k[0]), b = std::abs(kv.first[1] - k[1]), d = std::abs(kv.first[2] - k[2]);
          const bool in = noff == 1 ? a + b + d == 0 : noff == 7 ? a + b + d <= 1 : std::max({a, b, d}) <= 1;
          if (!in) continue;
          if (!kv.second.empty()) occupied++;
          for (auto& e : kv.second) cand.push_back({(e.p.template head<3>() - p).squaredNorm(), &e});
        }
        std::sort(cand.begin(), cand.end(), [](const Cand& x, const Cand& y) { return x.d < y.d; });
        const Eigen::Vector4d q4 = vf::P(p);
        const double tol = 1e-11 * (1 + p.norm() + m.leaf);  // on distances
        auto judge = [&](const char* how, size_t kk, size_t nf, const std::vector<size_t>& idx, const std::vector<double>& dist) {
          c.count("queries"); c.count(noff == 1 ? "queries_1" : noff == 7 ? "queries_7" : "queries_27");
          const size_t want = std::min(kk, cand.size());
          if (want) { c.nontrivial(); c.count("neighbours_checked", want); }
          if (occupied > 1) c.count("queries_over_several_voxels");
          if (kk >= cand.size()) c.count("queries_k_ge_m");
          if (!c.check(nf == want, "wrong-count", "%s offsets=%d k=%zu: %zu results, %zu entries in the neighbourhood (expected %zu)", how, noff, kk, nf, cand.size(), want)) return;
          std::set<size_t> seen;
          for (size_t i = 0; i < nf; i++) {
            if (!c.check(valid.count(idx[i]), "invalid-index", "%s offsets=%d: index %zu is not an entry of the map", how, noff, idx[i])) return;
            c.check(seen.insert(idx[i]).second, "duplicate", "%s offsets=%d: index %zu twice", how, noff, idx[i]);
            if (i) c.check(dist[i] >= dist[i - 1], "not-ascending", "%s: rank %zu", how, i);
            const Eigen::Vector4d rp = traits::point(map, idx[i]);
            c.check(std::abs(std::sqrt(dist[i]) - (rp - q4).norm()) <= tol, "wrong-distance", "%s offsets=%d: rank %zu reports %.17g, true %.17g", how, noff, i, dist[i], (rp - q4).squaredNorm());
            c.check(std::abs(std::sqrt(dist[i]) - std::sqrt(cand[i].d)) <= tol, "not-nearest", "%s offsets=%d k=%zu: rank %zu distance^2 %.17g, brute force %.17g", how, noff, kk, i, dist[i], cand[i].d);
            // resolves to a matching entry with its own attributes
            bool ok = false, okn = !HN, okc = !HC && !GAUSS;
            for (auto& x : cand) if ((x.e->p - rp).norm() <= tol) {
              ok = true;
              bool a = true, b = true;
              if constexpr (HN && !GAUSS) a = (traits::normal(map, idx[i]) - x.e->n).norm() < 1e-11;
              if constexpr (HC || GAUSS) b = (traits::cov(map, idx[i]) - x.e->C).norm() < 1e-9 * (1 + x.e->C.norm());
              if (a && b) okn = okc = true;
            }
            c.check(ok, "not-an-entry", "%s offsets=%d: returned point is not an entry of the neighbourhood", how, noff);
            c.check(okn && okc, "wrong-attributes", "%s offsets=%d: normal/covariance of the returned index belong to another entry", how, noff);
          }
        };
        {
          std::vector<size_t> i(1, 0xdeadbeef); std::vector<double> d(1, -5);
          const size_t nf = r.coin() ? map.nearest_neighbor_search(q4, i.data(), d.data()) : traits::nearest_neighbor_search(map, q4, i.data(), d.data());
          judge("nearest", 1, nf, i, d);
        }
        const size_t kk = r.pick({(size_t)1, (size_t)2, (size_t)5, (size_t)10, cand.size() ? cand.size() : (size_t)3, cand.size() + 1, (size_t)100});
        std::vector<size_t> i(kk, 0xdeadbeef); std::vector<double> d(kk, -5);
        const size_t nf = r.coin() ? map.knn_search(q4, kk, i.data(), d.data()) : traits::knn_search(map, q4, kk, i.data(), d.data());
        judge("knn", kk, nf, i, d);
        if (cand.empty()) c.count("queries_empty_neighbourhood");
      }
    }
  }
  c.count("evicted_voxels", m.evicted);
}

int main(int argc, char** argv) {
  return vf::main_loop(argc, argv, [](Case& c) {
    switch (c.idx % 5) { case 0: run<false, false, false>(c); break; case 1: run<true, false, false>(c); break; case 2: run<false, true, false>(c); break; case 3: run<true, true, false>(c); break; default: run<false, false, true>(c); }
  });
}
