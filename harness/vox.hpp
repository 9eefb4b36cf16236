// Shared by C03/C04/C05: insertion-history generator and an independent replay model of an incremental voxel map.
#pragma once
#include "vf.hpp"
#include <array>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>

namespace vox {
using namespace small_gicp;
using Key = std::array<int, 3>;
using LD = long double;
using Mat3L = Eigen::Matrix<LD, 3, 3>;
using Vec3L = Eigen::Matrix<LD, 3, 1>;

struct Ent { Eigen::Vector4d p, n; Eigen::Matrix4d C; };
struct MVox {
  size_t last = 0;             // index of the last insertion that touched the voxel
  std::vector<Ent> ents;       // flat containers
  Vec3L sum = Vec3L::Zero();   // gaussian voxels
  Mat3L csum = Mat3L::Zero();
  size_t n = 0;
};

struct Model {
  double leaf = 1;
  bool exact = false, gaussian = false;
  size_t horizon = 100, cycle = 10, steps = 0;
  double min_sq = 0.01;
  size_t cap = 10;
  std::map<Key, MVox> vox;
  // statistics
  size_t rej_full = 0, rej_close = 0, evicted = 0, kept = 0, recreated = 0;
  std::set<Key> ever_evicted;

  // Voxel of a point; false if the point is too close to a face to be decided without rounding (inexact mode only).
  bool key(const Eigen::Vector3d& p, Key& k) const {
    for (int i = 0; i < 3; i++) {
      const LD v = (LD)p[i] / (LD)leaf;
      const LD f = std::floor(v);
      if (!exact) {
        const LD tol = 1e-9L + 1e-14L * std::abs(v);
        if (v - f < tol || f + 1 - v < tol) return false;
      }
      k[i] = (int)f;
    }
    return true;
  }
  // Would this point be decided unambiguously?
  bool decidable(const Eigen::Vector3d& p) const {
    Key k;
    if (!key(p, k)) return false;
    if (exact || gaussian) return true;
    auto it = vox.find(k);
    if (it == vox.end()) return true;
    for (auto& e : it->second.ents) {
      const double d = (e.p.head<3>() - p).squaredNorm();
      if (std::abs(d - min_sq) <= 1e-9 * (d + min_sq) + 1e-18) return false;
      if (d < 1e-18 && min_sq < 1e-15) return false;
    }
    return true;
  }
  void add(const Eigen::Isometry3d& T, const Eigen::Vector4d& q, const Eigen::Vector4d& n, const Eigen::Matrix4d& C) {
    const Eigen::Vector3d p = T * Eigen::Vector3d(q.head<3>());
    Key k;
    if (!key(p, k)) return;
    if (vox.find(k) == vox.end() && ever_evicted.count(k)) recreated++;
    MVox& v = vox[k];
    v.last = steps;
    if (gaussian) {
      const Mat3L R = T.linear().cast<LD>();
      v.sum += R * q.head<3>().cast<LD>() + T.translation().cast<LD>();
      v.csum += R * C.topLeftCorner<3, 3>().cast<LD>() * R.transpose();
      v.n++;
      kept++;
      return;
    }
    if (v.ents.size() >= cap) { rej_full++; return; }
    for (auto& e : v.ents)
      if ((e.p.head<3>() - p).squaredNorm() < min_sq) { rej_close++; return; }
    Ent e;
    e.p << p, 1.0;
    e.n.setZero();
    e.n.head<3>() = T.linear() * Eigen::Vector3d(n.head<3>());
    e.C.setZero();
    e.C.topLeftCorner<3, 3>() = T.linear() * C.topLeftCorner<3, 3>() * T.linear().transpose();
    v.ents.push_back(e);
    v.n++;
    kept++;
  }
  void end_insert() {
    steps++;
    if (steps % cycle == 0) {
      for (auto it = vox.begin(); it != vox.end();) {
        if (steps - it->second.last > horizon) { ever_evicted.insert(it->first); it = vox.erase(it); evicted++; }
        else ++it;
      }
    }
  }
  size_t entries() const { size_t n = 0; for (auto& kv : vox) n += gaussian ? 1 : kv.second.ents.size(); return n; }
};

// A random 90-degree rotation with exactly representable entries.
inline Eigen::Matrix3d rot90(vf::Rng& r) {
  for (;;) {
    int p[3] = {0, 1, 2};
    for (int i = 2; i > 0; i--) std::swap(p[i], p[r.u(i + 1)]);
    Eigen::Matrix3d R = Eigen::Matrix3d::Zero();
    for (int i = 0; i < 3; i++) R(i, p[i]) = r.coin() ? 1 : -1;
    if (R.determinant() > 0) return R;
  }
}

struct Gen {
  vf::Rng& r;
  Model& m;
  bool wild = false;                 // also normals that are not of unit length, covariances of any magnitude
  double scale;                      // size of one scan
  Eigen::Vector3d pos = Eigen::Vector3d::Zero();
  Eigen::Vector3d vel;
  std::vector<Eigen::Vector3d> trail;
  Gen(vf::Rng& r, Model& m) : r(r), m(m) {
    scale = m.leaf * r.pick({0.4, 1.0, 2.5, 6.0});
    vel = r.dir() * scale * r.pick({0.0, 0.3, 1.0, 4.0});
    if (r.coin(0.1)) pos = r.dir() * m.leaf * 1e6;
    if (m.exact) for (int i = 0; i < 3; i++) { vel[i] = std::round(vel[i] / m.leaf * 8) / 8 * m.leaf; pos[i] = std::round(pos[i] / m.leaf) * m.leaf; }
  }
  Eigen::Isometry3d pose() {
    Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
    pos += vel;
    if (!trail.empty() && r.coin(0.2)) pos = r.pick(trail);   // revisit
    trail.push_back(pos);
    if (m.exact) { T.linear() = rot90(r); T.translation() = pos; }
    else if (!r.coin(0.15)) { T.linear() = r.rot(); T.translation() = pos; }
    if (r.coin(0.1)) T.setIdentity();
    return T;
  }
  // Generates one insertion (points decided unambiguously by the model), applies it to the model, returns the input cloud.
  PointCloud scan(const Eigen::Isometry3d& T, size_t n) {
    PointCloud pc;
    std::vector<Eigen::Vector4d> P, N; std::vector<Eigen::Matrix4d> C;
    Eigen::Vector3d last = T.translation();
    for (size_t i = 0; i < n; i++) {
      Eigen::Vector3d w;
      const double mode = r.real();
      if (mode < 0.15 && i) w = last + r.dir() * std::sqrt(m.min_sq) * r.pick({0.2, 0.9, 1.1});
      else if (mode < 0.2 && i) w = last;
      else w = T.translation() + r.vec3(scale);
      Eigen::Vector3d q = T.inverse() * w;
      if (m.exact) {
        for (int k = 0; k < 3; k++) w[k] = std::round(w[k] / m.leaf * 8) / 8 * m.leaf;
        q = T.linear().transpose() * (w - T.translation());
      }
      const Eigen::Vector3d wr = T * q;
      if (!m.decidable(wr)) continue;
      last = wr;
      Eigen::Vector4d q4, n4 = Eigen::Vector4d::Zero();
      q4 << q, 1.0;
      n4.head<3>() = r.dir();
      if (wild && r.coin(0.3)) n4 *= r.pick({0.0, 0.5, 2.0, r.logreal(1e-6, 1e6)});
      Eigen::Matrix3d A = Eigen::Matrix3d::NullaryExpr([&]() { return r.normal(); });
      Eigen::Matrix4d C4 = Eigen::Matrix4d::Zero();
      C4.topLeftCorner<3, 3>() = A * A.transpose() * (r.coin(0.1) ? 0.0 : 1.0);
      if (wild && r.coin(0.3)) C4 *= r.logreal(1e-9, 1e6);
      P.push_back(q4); N.push_back(n4); C.push_back(C4);
      m.add(T, q4, n4, C4);
    }
    m.end_insert();
    pc.resize(P.size());
    for (size_t i = 0; i < P.size(); i++) { pc.point(i) = P[i]; pc.normal(i) = N[i]; pc.cov(i) = C[i]; }
    return pc;
  }
};

inline void random_model(vf::Case& c, Model& m, bool gaussian) {
  vf::Rng& r = c.rng;
  m.gaussian = gaussian;
  m.exact = r.coin(0.35);
  m.leaf = m.exact ? r.pick({0.125, 0.25, 0.5, 1.0, 2.0, 4.0}) : r.logreal(0.03, 20.0);
  m.horizon = r.pick({(size_t)1, (size_t)2, (size_t)3, (size_t)5, (size_t)8, (size_t)20, (size_t)100});
  if (r.coin(0.05)) m.horizon = std::numeric_limits<size_t>::max() - r.u(3);
  m.cycle = r.pick({(size_t)1, (size_t)2, (size_t)3, (size_t)7, (size_t)10});
  m.min_sq = m.exact ? std::pow(m.leaf * r.pick({0.0, 0.125, 0.25, 0.5}), 2) : std::pow(m.leaf * r.pick({0.0, 0.05, 0.2, 0.6}), 2);
  m.cap = r.pick({(size_t)1, (size_t)2, (size_t)5, (size_t)10, (size_t)20, (size_t)1000});
}
inline std::string kstr(const Key& k) { char b[64]; snprintf(b, sizeof b, "(%d,%d,%d)", k[0], k[1], k[2]); return b; }
}  // namespace vox
