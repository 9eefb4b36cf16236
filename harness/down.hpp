// Shared by C06/C07: clouds with known voxel occupancy, a census oracle.
#pragma once
#include "vf.hpp"
#include <unordered_map>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/points/eigen.hpp>

// A minimal user-defined point type with traits: exactly what downsampling needs, nothing else.
struct MyCloud { std::vector<std::array<double, 3>> xyz; };
struct MyOut { std::vector<Eigen::Vector4d> p; };
namespace small_gicp { namespace traits {
template <> struct Traits<MyCloud> {
  static size_t size(const MyCloud& c) { return c.xyz.size(); }
  static bool has_points(const MyCloud& c) { return !c.xyz.empty(); }
  static Eigen::Vector4d point(const MyCloud& c, size_t i) { const auto& a = c.xyz.at(i); return Eigen::Vector4d(a[0], a[1], a[2], 1.0); }
};
template <> struct Traits<MyOut> {
  static size_t size(const MyOut& c) { return c.p.size(); }
  static Eigen::Vector4d point(const MyOut& c, size_t i) { return c.p.at(i); }
  static void resize(MyOut& c, size_t n) { c.p.resize(n, Eigen::Vector4d::Constant(std::numeric_limits<double>::quiet_NaN())); }
  static void set_point(MyOut& c, size_t i, const Eigen::Vector4d& p) { c.p.at(i) = p; }
};
}}  // namespace small_gicp::traits

using Key = std::array<int64_t, 3>;
struct KeyHash { size_t operator()(const Key& k) const { return vf::mix64(k[0] * 73856093ull ^ vf::mix64(k[1]) ^ vf::mix64(vf::mix64(k[2]))); } };

struct Voxel { std::vector<uint32_t> ids; Eigen::Vector3d mean, lo, hi; std::vector<Eigen::Vector3d> out; };

struct DownCase {
  vf::Pts pts;
  double res = 1.0;
  std::unordered_map<Key, Voxel, KeyHash> vox;
  size_t n_invalid = 0;
  double maxabs = 0;

  static bool in_range(double f) { return f >= -1048576.0 && f <= 1048575.0; }

  void finish() {
    for (size_t i = 0; i < pts.size(); i++) {
      const Eigen::Vector4d& p = pts[i];
      double f[3];
      bool ok = true;
      for (int a = 0; a < 3; a++) { f[a] = std::floor(p[a] / res); ok = ok && std::isfinite(p[a]) && in_range(f[a]); }
      if (!ok) { n_invalid++; continue; }
      vox[Key{(int64_t)f[0], (int64_t)f[1], (int64_t)f[2]}].ids.push_back((uint32_t)i);
      maxabs = std::max(maxabs, p.head<3>().cwiseAbs().maxCoeff());
    }
    for (auto& kv : vox) {
      Eigen::Matrix<long double, 3, 1> s(0, 0, 0);
      kv.second.lo.setConstant(1e300); kv.second.hi.setConstant(-1e300);
      for (auto i : kv.second.ids) { s += pts[i].head<3>().cast<long double>(); kv.second.lo = kv.second.lo.cwiseMin(pts[i].head<3>()); kv.second.hi = kv.second.hi.cwiseMax(pts[i].head<3>()); }
      kv.second.mean = (s / (long double)kv.second.ids.size()).cast<double>();
    }
  }

  // tolerance on a mean of n values of size maxabs
  double tol(size_t n) const { return 4e-16 * (n + 4) * maxabs + 1e-300; }

  // Assign an output point to the voxel it can belong to.
  Voxel* locate(const Eigen::Vector3d& o, double t) {
    Voxel* best = nullptr;
    double bd = 1e300;
    double f[3];
    for (int a = 0; a < 3; a++) { f[a] = std::floor(o[a] / res); if (!std::isfinite(f[a]) || std::abs(f[a]) > 2e6) return nullptr; }
    for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) for (int dz = -1; dz <= 1; dz++) {
      auto it = vox.find(Key{(int64_t)f[0] + dx, (int64_t)f[1] + dy, (int64_t)f[2] + dz});
      if (it == vox.end()) continue;
      // distance to the bounding box of the voxel's points
      Eigen::Vector3d e = (it->second.lo - o).cwiseMax(o - it->second.hi).cwiseMax(Eigen::Vector3d::Zero());
      if (e.maxCoeff() > t) continue;
      double d = e.norm() + 1e-9 * (dx || dy || dz);
      if (d < bd) { bd = d; best = &it->second; }
    }
    return best;
  }
};

// Points kept a relative 1e-7 away from voxel faces unless the resolution is a power of two (then faces are exact).
inline void gen_down(vf::Case& c, DownCase& d, size_t n, bool many_per_voxel) {
  vf::Rng& r = c.rng;
  const bool pow2 = r.coin(0.5);
  d.res = pow2 ? std::ldexp(1.0, (int)r.range(-6, 6)) : r.logreal(1e-3, 50.0);
  if (r.coin(0.04)) d.res = pow2 ? std::ldexp(1.0, -22) : 3e-7;   // sub-micron voxels
  const int mode = r.u(6);   // how points spread over voxels
  const double extent = mode == 0 ? 1.0 : mode == 1 ? 4.0 : mode == 2 ? 30.0 : mode == 3 ? 1e4 : mode == 4 ? 6.0 : 300.0;
  const double p_bad = r.pick({0.0, 0.0, 0.0, 0.02, 0.3, 1.0});
  const bool face = pow2 && r.coin(0.4);
  const bool offset = r.coin(0.3);
  const Eigen::Vector3d off = offset ? Eigen::Vector3d(r.range(-500000, 500000), r.range(-500000, 500000), r.range(-500000, 500000)) : Eigen::Vector3d(0, 0, 0);
  const bool limits = r.coin(0.15);
  for (size_t i = 0; i < n; i++) {
    Eigen::Vector3d v;
    for (int a = 0; a < 3; a++) {
      double cell, frac;
      if (mode == 4) { cell = std::floor(r.normal() * 2); } else cell = std::floor(r.real(-extent, extent));
      cell += off[a];
      if (limits && r.coin(0.2)) cell = r.pick({-1048576.0, -1048575.0, 1048575.0, 1048574.0});
      frac = face && r.coin(0.5) ? 0.0 : r.real(0.001, 0.999);
      v[a] = (cell + frac) * d.res;
      if (!pow2) {  // stay inside the cell after rounding
        double f = std::floor(v[a] / d.res);
        if (f != cell) v[a] = (cell + 0.5) * d.res;
      }
    }
    if (p_bad > 0 && n < 3000 && r.coin(p_bad)) {
      int a = r.u(3);
      v[a] = r.pick({std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 1e300, -1e300, 1048576.5 * d.res, -1048576.5 * d.res, 1e10 * d.res, -1e10 * d.res, 4294967296.5 * d.res, 2147483648.25 * d.res, -2147483649.5 * d.res, 2147483647.25 * d.res - 0.5 * d.res});
      if (r.coin(0.2)) v.setConstant(v[a]);
    }
    d.pts.push_back(vf::P(v));
  }
  if (many_per_voxel && n) {  // a few heavily populated voxels spanning several blocks
    const size_t k = 1 + r.u(3);
    for (size_t j = 0; j < k; j++) {
      Eigen::Vector3d cell(std::floor(r.real(-3, 3)), std::floor(r.real(-3, 3)), std::floor(r.real(-3, 3)));
      const size_t m = r.u(2600);
      for (size_t i = 0; i < m; i++) d.pts.push_back(vf::P((cell + Eigen::Vector3d(r.real(0.01, 0.99), r.real(0.01, 0.99), r.real(0.01, 0.99))) * d.res));
    }
    for (size_t a = d.pts.size(); a > 1; a--) std::swap(d.pts[a - 1], d.pts[r.u(a)]);
  }
  d.finish();
  c.describe("n=%zu res=%.6g extent=%g voxels=%zu invalid=%zu face=%d", d.pts.size(), d.res, extent, d.vox.size(), d.n_invalid, face);
  for (size_t i = 0; i < d.pts.size(); i += 37) c.sigd(d.pts[i][1]);
  c.count("input_points", d.pts.size());
  c.count("invalid_points", d.n_invalid);
  c.count("occupied_voxels", d.vox.size());
  if (!d.pts.empty() && d.vox.empty()) c.count("all_invalid_clouds");
  if (!d.vox.empty()) c.nontrivial();
}

// Check an output cloud.  max_extra = 0: exactly one centroid per voxel.
template <typename Out>
void judge_down(vf::Case& c, DownCase& d, const Out& out, const char* name, size_t max_extra) {
  const size_t m = small_gicp::traits::size(out);
  for (auto& kv : d.vox) kv.second.out.clear();
  for (size_t i = 0; i < m; i++) {
    const Eigen::Vector4d o = small_gicp::traits::point(out, i);
    if (!c.check(std::isfinite(o[0]) && std::isfinite(o[1]) && std::isfinite(o[2]) && std::abs(o[3] - 1.0) < 1e-12, "invalid-output", "%s: output %zu of %zu is (%g %g %g %g)", name, i, m, o[0], o[1], o[2], o[3])) return;
    Voxel* v = d.locate(o.head<3>(), d.tol(d.pts.size()));
    if (!c.check(v != nullptr, "output-from-nowhere", "%s: output %zu of %zu (%.12g %.12g %.12g) lies in no occupied voxel (res %.6g)", name, i, m, o[0], o[1], o[2], d.res)) return;
    v->out.push_back(o.head<3>());
  }
  size_t extra = 0;
  for (auto& kv : d.vox) {
    Voxel& v = kv.second;
    const size_t n = v.ids.size(), g = v.out.size();
    const double t = d.tol(n);
    if (!c.check(g >= 1, "voxel-missing", "%s: voxel (%lld %lld %lld) with %zu points has no output", name, (long long)kv.first[0], (long long)kv.first[1], (long long)kv.first[2], n)) return;
    extra += g - 1;
    if (!c.check(g <= n, "more-outputs-than-points", "%s: voxel with %zu points has %zu outputs", name, n, g)) return;
    if (g == 1) {
      if (!c.check((v.out[0] - v.mean).cwiseAbs().maxCoeff() <= t, "not-the-mean", "%s: voxel of %zu points: output (%.17g %.17g %.17g) mean (%.17g %.17g %.17g)", name, n, v.out[0][0], v.out[0][1], v.out[0][2], v.mean[0], v.mean[1], v.mean[2])) return;
      c.count("voxels_single");
      continue;
    }
    c.count("voxels_split");
    if (max_extra == 0) { c.fail("voxel-duplicated", "%s: voxel of %zu points has %zu outputs", name, n, g); return; }
    if (g <= 4) {
      // n_1..n_g integers >= 1, sum n, sum n_i o_i = n * mean: solve for the affine weights when they are determined
      Eigen::MatrixXd A(3, g - 1);
      for (size_t j = 1; j < g; j++) A.col(j - 1) = v.out[j] - v.out[0];
      Eigen::JacobiSVD<Eigen::MatrixXd> svd(A, Eigen::ComputeThinU | Eigen::ComputeThinV);
      const double smin = svd.singularValues().size() ? svd.singularValues()(svd.singularValues().size() - 1) : 0;
      if (smin > 1e6 * t && svd.singularValues().size() == (long)(g - 1)) {
        Eigen::VectorXd w = svd.solve(Eigen::Vector3d(v.mean - v.out[0]));
        const double resid = (A * w - (v.mean - v.out[0])).norm();
        if (!c.check(resid <= 20 * t, "points-lost-or-doubled", "%s: voxel of %zu points in %zu groups: the group means cannot average to the voxel mean (residual %.3g)", name, n, g, resid)) return;
        double w0 = 1.0 - w.sum();
        std::vector<double> ws(w.data(), w.data() + w.size());
        ws.push_back(w0);
        for (double x : ws) {
          const double cnt = x * n, err = n * 40 * t / smin + 1e-9 * n;
          if (err > 0.2) continue;
          if (!c.check(std::abs(cnt - std::round(cnt)) <= err && std::round(cnt) >= 1, "points-lost-or-doubled", "%s: voxel of %zu points in %zu groups: implied group size %.9g is not a positive integer", name, n, g, cnt)) return;
        }
        c.count("splits_solved");
      }
    }
  }
  if (max_extra) c.check(extra <= max_extra, "too-many-groups", "%s: %zu extra groups for %zu points", name, extra, d.pts.size());
  c.maxi("max_extra_groups", (double)extra);
}
