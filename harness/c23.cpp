// C23: projective search against brute force over the retained points inside the search window.
#include "vf.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/traits.hpp>
#include <small_gicp/ann/projective_search.hpp>
using vf::Case;
using namespace small_gicp;
using LD = long double;

// A user-supplied projection: planar map of [-10, 10]^2, z ignored.
struct PlanarProjection { Eigen::Vector2d operator()(const Eigen::Vector3d& p) const { return Eigen::Vector2d((p.x() + 10.0) / 20.0, (p.y() + 10.0) / 20.0); } };

struct Cell { int u, v; bool sure; };
static Cell cell_of(LD fu, LD fv, int cols, int rows) {
  const LD x = fu * cols, y = fv * rows;
  Cell c{(int)std::floor(x), (int)std::floor(y), true};
  auto near = [](LD z) { return std::abs(z - std::round(z)) < 1e-9L; };
  c.sure = !near(x) && !near(y) && x >= 0 && y >= 0;  // projections promise [0, 1]; below 0 the cell is the implementation's choice
  return c;
}
template <typename Projection> static Cell project(const Eigen::Vector3d& p, int cols, int rows);
template <> Cell project<EquirectangularProjection>(const Eigen::Vector3d& p, int cols, int rows) {
  const LD x = p[0], y = p[1], z = p[2], n2 = x * x + y * y + z * z;
  if (std::abs(n2 - 1e-3L) < 1e-12L) return {0, 0, false};
  if (n2 < 1e-3L) return Cell{(int)(0.5 * cols), (int)(0.5 * rows), true};
  const LD lat = -std::asin(y / std::sqrt(n2)), lon = std::atan2(x, z), pi = std::acos((LD)-1);
  Cell c = cell_of(lon / (2 * pi) + 0.5L, lat / pi + 0.5L, cols, rows);
  // close to the poles the latitude is badly conditioned
  if (std::abs(y) / std::sqrt(n2) > 1 - 1e-12L) c.sure = false;
  return c;
}
template <> Cell project<PlanarProjection>(const Eigen::Vector3d& p, int cols, int rows) { return cell_of(((LD)p[0] + 10) / 20, ((LD)p[1] + 10) / 20, cols, rows); }

// Which columns (rows) the window around u covers.
static std::vector<char> window(int u, int h, int n, bool repeat) {
  std::vector<char> w(n, 0);
  for (int d = -h; d <= h; d++) { int x = u + d; if (repeat) x = ((x % n) + n) % n; if (x >= 0 && x < n) w[x] = 1; }
  return w;
}

template <typename Projection, typename BH, typename BV>
static void go(Case& c, const char* name) {
  vf::Rng& r = c.rng;
  constexpr bool Planar = std::is_same<Projection, PlanarProjection>::value;
  constexpr bool RH = std::is_same<BH, BorderRepeat>::value, RV = std::is_same<BV, BorderRepeat>::value;
  const bool large = c.rare(301, 5);
  const bool patch = !large && r.coin(0.12);   // a small patch seen from afar: neighbours a small fraction of the range away
  const int cols = patch ? r.pick({512, 1024, 2048}) : large ? r.pick({720, 1024}) : r.pick({1, 2, 5, 16, 21, 22, 64, 360}), rows = patch ? r.pick({256, 512}) : large ? r.pick({180, 128}) : r.pick({1, 2, 6, 11, 12, 32, 90});
  if (large) c.count("large_maps");
  const size_t n0 = large ? 66000 + r.u(70000) : r.pick({(int)r.range(0, 10), (int)r.range(10, 200), (int)r.range(200, 2000)});
  vf::Pts pts = vf::gen_cloud(r, n0, r.pick({(int)vf::UNIFORM, (int)vf::LIDAR, (int)vf::SPHERE, (int)vf::DUPLICATES, (int)vf::CLUSTERED, (int)vf::COINCIDENT, (int)vf::LATTICE}), r.pick({0.01, 1.0, 10.0}));
  if (r.coin(0.2)) for (auto& p : pts) if (r.coin(0.1)) p = vf::P(r.pick({Eigen::Vector3d(0, 0, 0), Eigen::Vector3d(0, 0, -1), Eigen::Vector3d(0, 1, 0), Eigen::Vector3d(0, -1, 0), Eigen::Vector3d(-1e-9, 0, -5), Eigen::Vector3d(1e-3, 0, 0)}));
  if (patch) {
    const Eigen::Vector3d ctr = Planar ? Eigen::Vector3d(r.real(-9, 9), r.real(-9, 9), 0) : Eigen::Vector3d(r.dir() * r.logreal(1, 100));
    const double spread = (Planar ? 10 : ctr.norm()) * r.pick({0.003, 0.01, 0.03});
    pts.clear(); for (size_t i = 0, m = r.pick({2, 5, 20, 100, 400}); i < m; i++) pts.push_back(vf::P(Eigen::Vector3d(ctr + spread * r.vec3(1))));
    c.count("patches");
  }
  const size_t n = pts.size();
  auto cloud = std::make_shared<PointCloud>(pts);
  typedef UnsafeProjectiveSearch<PointCloud, Projection, BH, BV> Search;
  ProjectiveSearch<PointCloud, Projection, BH, BV> safe(cols, rows, cloud);
  Search search(cols, rows, *cloud);
  const bool use_safe = r.coin(0.3);
  if (!use_safe && r.coin(0.8)) { search.search_window_h = r.pick({0, 1, 3, 10, 30}); search.search_window_v = r.pick({0, 1, 2, 5, 40}); }
  const Search& S = use_safe ? safe.search : search;
  const int wh = S.search_window_h, wv = S.search_window_v;
  c.describe("%s %dx%d n=%zu window=%dx%d", name, cols, rows, n, wh, wv); c.sig(c.idx);
  // 1. the index map: existing points, each once, each in its own cell; every cell that received a point keeps one
  std::vector<int> seen(n, 0);
  std::vector<std::pair<int, int>> at(n, {-1, -1});
  std::vector<size_t> retained;
  if (!c.check(S.index_map.rows() == rows && S.index_map.cols() == cols, "map-size", "map is %ldx%ld", (long)S.index_map.cols(), (long)S.index_map.rows())) return;
  for (int v = 0; v < rows; v++) for (int u = 0; u < cols; u++) {
    const auto i = S.index_map(v, u);
    if (i == Search::invalid_index) continue;
    if (!c.check(i < n, "map-index", "map holds index %u of %zu", i, n)) return;
    c.check(++seen[i] == 1, "map-duplicate", "point %u is retained twice", i);
    at[i] = {v, u}; retained.push_back(i);
    const Cell e = project<Projection>(cloud->point(i).template head<3>(), cols, rows);
    if (e.sure) c.check(e.u == u && e.v == v, "map-cell", "point %u projects to (%d,%d) but is kept in (%d,%d)", i, e.u, e.v, u, v);
  }
  c.count("retained_points", retained.size());
  for (size_t i = 0; i < n; i++) {
    const Cell e = project<Projection>(cloud->point(i).template head<3>(), cols, rows);
    if (!e.sure || e.u < 0 || e.u >= cols || e.v < 0 || e.v >= rows) continue;
    c.check(S.index_map(e.v, e.u) != Search::invalid_index, "map-lost", "cell (%d,%d) of point %zu holds no point", e.u, e.v, i);
  }
  // 2. queries
  for (int t = 0; t < 30; t++) {
    Eigen::Vector4d q = n && r.coin(0.7) ? vf::P(Eigen::Vector3d(cloud->point(r.u(n)).template head<3>() + (patch ? r.pick({0.0, 1e-3, 1e-2}) * cloud->point(0).template head<3>().norm() : r.pick({0.0, 0.0, 1e-6, 0.1, 1.0})) * r.vec3(1))) : vf::P(r.dir() * r.logreal(1e-3, 1e4));
    if (r.coin(0.05)) q = vf::P(Eigen::Vector3d::Zero());
    const Cell e = project<Projection>(q.template head<3>(), cols, rows);
    const int k = r.pick({1, 1, 2, 5, 20, 300});
    std::vector<size_t> idx(k + 2, 777777); std::vector<double> sq(k + 2, -7);
    KnnSetting ks; const double eps = r.coin(0.15) ? r.logreal(1e-6, 10) : 0; if (eps > 0) ks.epsilon = eps;
    size_t found; const char* form;
    if (k == 1 && r.coin()) { form = "nearest"; found = use_safe ? safe.nearest_neighbor_search(q, idx.data(), sq.data(), ks) : S.nearest_neighbor_search(q, idx.data(), sq.data(), ks); }
    else if (k == 5 && r.coin()) { form = "fixed-k"; found = S.template knn_search<5>(q, idx.data(), sq.data(), ks); }
    else if (!eps && r.coin(0.3)) { form = "traits"; found = use_safe ? traits::knn_search(safe, q, (size_t)k, idx.data(), sq.data()) : traits::knn_search(S, q, (size_t)k, idx.data(), sq.data()); }
    else { form = "run-time k"; found = use_safe ? safe.knn_search(q, k, idx.data(), sq.data(), ks) : S.knn_search(q, k, idx.data(), sq.data(), ks); }
    c.count("queries"); if (found) c.nontrivial();
    c.check(idx[k] == 777777 && sq[k] == -7, "overrun", "%s k=%d: wrote behind the k-th result", form, k);
    if (!c.check(found <= (size_t)k, "too-many", "%s k=%d: returned %zu", form, k, found)) continue;
    std::set<size_t> uniq;
    bool ok = true;
    for (size_t j = 0; j < found && ok; j++) {
      ok = c.check(idx[j] < n, "bad-index", "%s k=%d: index %zu of %zu points", form, k, idx[j], n) && c.check(at[idx[j]].first >= 0, "not-retained", "%s: returned point %zu, which is not in the map", form, idx[j]);
      if (!ok) break;
      c.check(uniq.insert(idx[j]).second, "duplicate", "%s k=%d window=%dx%d map=%dx%d: point %zu returned twice", form, k, wh, wv, cols, rows, idx[j]);
      const double d = (cloud->point(idx[j]) - q).squaredNorm();
      c.check(vf::close(d, sq[j], 1e-12, 1e-300), "distance", "%s: point %zu reported at %.17g, is at %.17g", form, idx[j], sq[j], d);
      if (j) c.check(sq[j] >= sq[j - 1], "order", "%s: distances not ascending", form);
    }
    if (!ok) continue;
    if (!e.sure) { c.count("queries_on_cell_borders"); continue; }
    const auto wu = window(e.u, wh, cols, RH), wr = window(e.v, wv, rows, RV);
    std::vector<double> d;
    for (size_t i : retained) if (wr[at[i].first] && wu[at[i].second]) d.push_back((cloud->point(i) - q).squaredNorm());
    std::sort(d.begin(), d.end());
    const size_t m = std::min<size_t>(k, d.size());
    for (size_t j = 0; j < found; j++) c.check(wr[at[idx[j]].first] && wu[at[idx[j]].second], "outside-window", "%s: returned point %zu in cell (%d,%d), window of %dx%d around (%d,%d)", form, idx[j], at[idx[j]].second, at[idx[j]].first, wh, wv, e.u, e.v);
    bool exact = c.check(found <= m, "too-many-found", "%s k=%d: %zu results, %zu points in the window", form, k, found, d.size());
    bool full = found == m; for (size_t j = 0; j < found && full; j++) full = vf::close(sq[j], d[j], 1e-12, 1e-300);
    if (eps > 0 && !full) {
      bool early = found == (size_t)k; for (size_t j = 0; j < found; j++) early = early && sq[j] < eps;
      c.check(early, "early-termination", "%s k=%d eps=%g: neither the exact answer nor k points below the threshold", form, k, eps);
      c.count("early_terminations");
    } else c.check(full && exact, "not-nearest", "%s k=%d window=%dx%d map=%dx%d cell=(%d,%d): returned %zu of %zu points in the window or not the nearest", form, k, wh, wv, cols, rows, e.u, e.v, found, d.size());
    c.count("windows_compared");
    if (RH && (e.u - wh < 0 || e.u + wh >= cols)) c.count("wrapped_windows");
    if (2 * wh + 1 > cols) c.count("windows_wider_than_map");
    if (!RV && (e.v - wv < 0 || e.v + wv >= rows)) c.count("clamped_windows");
  }
  // 3. every retained point finds itself
  for (int t = 0; t < 20 && retained.size(); t++) {
    const size_t i = r.pick(retained); size_t idx = 0; double sq = -1;
    const size_t f = S.nearest_neighbor_search(cloud->point(i), &idx, &sq);
    c.check(f == 1 && sq == 0.0, "self", "retained point %zu does not find itself (found=%zu dist=%g)", i, f, sq);
    c.count("self_queries");
  }
}
int main(int argc, char** argv) {
  return vf::main_loop(argc, argv, [](Case& c) {
    switch (c.idx % 4) {
      case 0: case 1: go<EquirectangularProjection, BorderRepeat, BorderClamp>(c, "equirectangular"); break;
      case 2: go<EquirectangularProjection, BorderClamp, BorderRepeat>(c, "equirectangular-clamped"); break;
      default: go<PlanarProjection, BorderClamp, BorderClamp>(c, "planar");
    }
  });
}
