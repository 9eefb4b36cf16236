// Monitoring framework shared by all harnesses: seeded cases, violation reports, evidence counters,
// hostile cloud generators.  A harness is one executable that runs cases [begin, end) of one property;
// every case is a pure function of (property seed, case index), so "replay" is just re-running one index.
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <numeric>
#include <functional>
#include <memory>
#include <limits>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/Eigen>

// Chaos runtime controls (defined when the chaos OpenMP/TBB runtime is linked in; otherwise absent).
extern "C" {
void chaos_seed(uint64_t seed) __attribute__((weak));
uint64_t chaos_take_schedule_hash() __attribute__((weak));
uint64_t chaos_take_events() __attribute__((weak));
uint64_t chaos_take_steals() __attribute__((weak));
uint64_t chaos_take_max_team() __attribute__((weak));
}

namespace vf {

inline uint64_t mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix64(seed ^ 0x5851f42d4c957f2dull)) {}
  using result_type = uint64_t;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ull; }
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t x = s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
  uint64_t operator()() { return next(); }
  uint64_t u(uint64_t n) { return n ? next() % n : 0; }                       // [0, n)
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)u((uint64_t)(b - a + 1)); }  // [a, b]
  double real() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double a, double b) { return a + (b - a) * real(); }
  double logreal(double a, double b) { return std::exp(real(std::log(a), std::log(b))); }
  bool coin(double p = 0.5) { return real() < p; }
  double normal() { double u1 = real(), u2 = real(); if (u1 < 1e-300) u1 = 1e-300; return std::sqrt(-2 * std::log(u1)) * std::cos(2 * M_PI * u2); }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[u(v.size())]; }
  template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + u(v.size())); }
  Eigen::Vector3d dir() { Eigen::Vector3d d; do { d = Eigen::Vector3d(normal(), normal(), normal()); } while (d.norm() < 1e-6); return d.normalized(); }
  Eigen::Vector3d vec3(double s) { return Eigen::Vector3d(real(-s, s), real(-s, s), real(-s, s)); }
  Eigen::Matrix3d rot() { return Eigen::AngleAxisd(real(-M_PI, M_PI), dir()).toRotationMatrix(); }
  Eigen::Isometry3d iso(double ang, double trans) {
    Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
    T.linear() = Eigen::AngleAxisd(real(-ang, ang), dir()).toRotationMatrix();
    T.translation() = dir() * real(0, trans);
    return T;
  }
};

struct Stop {};  // thrown to abandon a case

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

struct Global {
  uint64_t seed = 1;
  bool thorough = false;
  bool verbose = false;
  std::string tmpdir = "/tmp";
  std::map<std::string, uint64_t> counters;
  std::map<std::string, double> maxima;
  std::unordered_set<uint64_t> distinct, schedules;
  std::vector<std::string> samples;
  uint64_t evaluations = 0, violations = 0;
};
inline Global& G() { static Global g; return g; }

struct Case {
  uint64_t idx;
  Rng rng;
  bool thorough;
  std::string desc;   // written into samples and violation reports
  uint64_t h = 0;
  bool nontriv = false;
  std::set<std::string> reported;
  Case(uint64_t i) : idx(i), rng(mix64(G().seed * 0x1000003ull + 77) ^ mix64(i * 2654435761ull + 13)), thorough(G().thorough) {}

  void describe(const char* f, ...) __attribute__((format(printf, 2, 3))) {
    char b[1024]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    if (!desc.empty()) desc += " ";
    desc += b;
    sig(b, strlen(b));
    if (G().verbose) fprintf(stderr, "case %llu: %s\n", (unsigned long long)idx, b);
  }
  void sig(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull + 0x9e37; }
  void sig(uint64_t x) { sig(&x, sizeof x); }
  void sigd(double x) { sig(&x, sizeof x); }
  void count(const std::string& k, uint64_t n = 1) { G().counters[k] += n; }
  void maxi(const std::string& k, double v) { auto& m = G().maxima; auto it = m.find(k); if (it == m.end()) m[k] = v; else it->second = std::max(it->second, v); }
  void nontrivial() { nontriv = true; }
  // Every m-th case (not under ThreadSanitizer, which is too slow for the sizes this is meant for).
  bool rare(uint64_t m, uint64_t k) const {
#ifdef __SANITIZE_THREAD__
    return false;
#else
    return idx % m == k;
#endif
  }

  // A comparison between two computations that round differently (another order of summation, say) can differ by a whole
  // outcome when the data leave a decision to the last bit.  While a second look is set, a difference is reported only if the
  // look confirms that many slightly disturbed repetitions agree with each other; it runs once per scope, only on a difference.
  std::function<bool()> second_look;
  int looked = -1;
  bool dropped_on_second_look() {
    if (!second_look) return false;
    if (looked < 0) { auto f = second_look; second_look = nullptr; looked = f() ? 1 : 0; second_look = f; }
    if (!looked) count("differences_decided_by_rounding");
    return !looked;
  }
  // Report a violation.  One report per key per case.
  void fail(const std::string& key, const char* f, ...) __attribute__((format(printf, 3, 4))) {
    if (reported.count(key) || dropped_on_second_look()) return;
    reported.insert(key);
    char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    G().violations++;
    printf("@@V {\"key\":\"%s\",\"case\":%llu,\"desc\":\"%s\",\"msg\":\"%s\"}\n", jesc(key).c_str(), (unsigned long long)idx, jesc(desc).c_str(), jesc(b).c_str());
    fflush(stdout);
  }
  bool check(bool ok, const std::string& key, const char* f, ...) __attribute__((format(printf, 4, 5))) {
    if (ok) return true;
    if (reported.count(key) || dropped_on_second_look()) return false;
    reported.insert(key);
    char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    G().violations++;
    printf("@@V {\"key\":\"%s\",\"case\":%llu,\"desc\":\"%s\",\"msg\":\"%s\"}\n", jesc(key).c_str(), (unsigned long long)idx, jesc(desc).c_str(), jesc(b).c_str());
    fflush(stdout);
    return false;
  }
};

struct SecondLook {
  Case& c; std::function<bool()> before; int looked; bool done = false;
  SecondLook(Case& c, std::function<bool()> f) : c(c), before(c.second_look), looked(c.looked) { c.second_look = std::move(f); c.looked = -1; }
  ~SecondLook() { end(); }
  void end() { if (!done) { done = true; c.second_look = before; c.looked = looked; } }
  SecondLook(const SecondLook&) = delete; SecondLook& operator=(const SecondLook&) = delete;
};

// Entry point used by every harness.
inline int main_loop(int argc, char** argv, const std::function<void(Case&)>& body) {
  uint64_t begin = 0, end = 0;
  std::string status, hashes;
  for (int i = 1; i < argc; i++) {
    auto eq = [&](const char* s) { return !strcmp(argv[i], s) && i + 1 < argc; };
    if (eq("--seed")) G().seed = strtoull(argv[++i], 0, 10);
    else if (eq("--begin")) begin = strtoull(argv[++i], 0, 10);
    else if (eq("--end")) end = strtoull(argv[++i], 0, 10);
    else if (eq("--tier")) G().thorough = !strcmp(argv[++i], "thorough");
    else if (eq("--status")) status = argv[++i];
    else if (eq("--hashes")) hashes = argv[++i];
    else if (eq("--tmp")) G().tmpdir = argv[++i];
    else if (!strcmp(argv[i], "--verbose")) G().verbose = true;
  }
  int sfd = status.empty() ? -1 : open(status.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
  for (uint64_t i = begin; i < end; i++) {
    if (sfd >= 0) { char b[32]; int n = snprintf(b, sizeof b, "%-20llu\n", (unsigned long long)i); if (pwrite(sfd, b, n, 0) < 0) {} }
    if (chaos_seed) chaos_seed(mix64(G().seed * 31 + i));
    Case c(i);
    try { body(c); } catch (const Stop&) {}
    catch (const std::exception& e) { c.fail("exception", "uncaught exception: %s", e.what()); }
    G().evaluations++;
    if (chaos_take_schedule_hash) {
      uint64_t e = chaos_take_events ? chaos_take_events() : 0;
      if (e) { c.count("schedule_events", e); G().schedules.insert(mix64(chaos_take_schedule_hash()) ^ mix64(i)); }
      if (chaos_take_steals) c.count("tasks_run_on_other_thread", chaos_take_steals());
    }
    if (c.nontriv) {
      G().distinct.insert(mix64(c.h));
      if (G().samples.size() < 3 && !c.desc.empty()) G().samples.push_back("case " + std::to_string(i) + ": " + c.desc);
    }
  }
  if (!hashes.empty()) {
    FILE* f = fopen(hashes.c_str(), "w");
    if (f) {
      for (auto x : G().distinct) fprintf(f, "D%016llx\n", (unsigned long long)x);
      for (auto x : G().schedules) fprintf(f, "S%016llx\n", (unsigned long long)x);
      fclose(f);
    }
  }
  printf("@@E {\"evaluations\":%llu,\"violations\":%llu,\"counters\":{", (unsigned long long)G().evaluations, (unsigned long long)G().violations);
  bool first = true;
  for (auto& kv : G().counters) { printf("%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
  printf("},\"maxima\":{"); first = true;
  for (auto& kv : G().maxima) { printf("%s\"%s\":%.17g", first ? "" : ",", jesc(kv.first).c_str(), std::isfinite(kv.second) ? kv.second : 1e308); first = false; }
  printf("},\"samples\":["); first = true;
  for (auto& s : G().samples) { printf("%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
  printf("]}\n@@DONE\n");
  fflush(stdout);
  return 0;
}

// ---------------------------------------------------------------------------------------------
// Hostile cloud generators
// ---------------------------------------------------------------------------------------------
using Pts = std::vector<Eigen::Vector4d>;
enum CloudKind { UNIFORM, PLANAR, COLLINEAR, COINCIDENT, DUPLICATES, CLUSTERED, LATTICE, FAR_AWAY, SMALLSCALE, SPHERE, LIDAR, AXISLINE, CLOUD_KINDS };
inline const char* kind_name(int k) {
  static const char* n[] = {"uniform", "planar", "collinear", "coincident", "duplicates", "clustered", "lattice", "far", "small", "sphere", "lidar", "axisline"};
  return n[k];
}
inline Eigen::Vector4d P(double x, double y, double z) { return Eigen::Vector4d(x, y, z, 1.0); }
inline Eigen::Vector4d P(const Eigen::Vector3d& v) { return Eigen::Vector4d(v[0], v[1], v[2], 1.0); }

inline Pts gen_cloud(Rng& r, size_t n, int kind, double scale = 10.0) {
  Pts p;
  p.reserve(n);
  Eigen::Matrix3d R = r.rot();
  Eigen::Vector3d t = r.vec3(scale);
  if (kind == LATTICE) { R = Eigen::Matrix3d::Identity(); }
  std::vector<Eigen::Vector3d> centers;
  for (int i = 0; i < 5; i++) centers.push_back(r.vec3(scale));
  const int side = std::max<int>(1, (int)std::round(std::cbrt((double)std::max<size_t>(n, 1))));
  const int axis = r.u(3);
  for (size_t i = 0; i < n; i++) {
    Eigen::Vector3d v;
    switch (kind) {
      default:
      case UNIFORM: v = r.vec3(scale); break;
      case PLANAR: v = R * Eigen::Vector3d(r.real(-scale, scale), r.real(-scale, scale), 0) + t; break;
      case COLLINEAR: v = R * Eigen::Vector3d(r.real(-scale, scale), 0, 0) + t; break;
      case COINCIDENT: v = t; break;
      case DUPLICATES: v = i && r.coin(0.7) ? Eigen::Vector3d(p[r.u(i)].head<3>()) : r.vec3(scale); break;
      case CLUSTERED: v = centers[r.u(5)] + scale * 0.01 * Eigen::Vector3d(r.normal(), r.normal(), r.normal()); break;
      case LATTICE: v = (scale / side) * Eigen::Vector3d(r.range(-side, side), r.range(-side, side), r.range(-side, side)); break;
      case FAR_AWAY: v = r.vec3(scale) + 1e5 * Eigen::Vector3d(1, -2, 0.5); break;
      case SMALLSCALE: v = r.vec3(scale * 1e-5); break;
      case SPHERE: v = r.dir() * scale; break;
      case LIDAR: { double az = r.real(-M_PI, M_PI), el = r.real(-0.4, 0.3), d = r.real(0.2, 1.0) * scale; v = d * Eigen::Vector3d(cos(az) * cos(el), sin(az) * cos(el), sin(el)); break; }
      case AXISLINE: v = Eigen::Vector3d::Zero(); v[axis] = r.real(-scale, scale); break;
    }
    p.push_back(P(v));
  }
  return p;
}

// A structured, well-constrained scene (floor, walls, boxes) for registration workloads.
inline Pts gen_scene(Rng& r, size_t n, double size = 10.0, double noise = 0.0) {
  Pts p;
  p.reserve(n);
  struct Box { Eigen::Vector3d c, h; Eigen::Matrix3d R; };
  std::vector<Box> boxes;
  for (int i = 0; i < 8; i++) boxes.push_back({Eigen::Vector3d(r.real(-size, size) * 0.8, r.real(-size, size) * 0.8, r.real(0.5, 2.0)), Eigen::Vector3d(r.real(0.4, 1.5), r.real(0.4, 1.5), r.real(0.5, 2.0)), Eigen::AngleAxisd(r.real(-M_PI, M_PI), Eigen::Vector3d::UnitZ()).toRotationMatrix()});
  for (size_t i = 0; i < n; i++) {
    Eigen::Vector3d v;
    double w = r.real();
    if (w < 0.3) v = Eigen::Vector3d(r.real(-size, size), r.real(-size, size), 0);
    else if (w < 0.45) v = Eigen::Vector3d(size, r.real(-size, size), r.real(0, 4));
    else if (w < 0.6) v = Eigen::Vector3d(r.real(-size, size), -size, r.real(0, 4));
    else {
      const Box& b = boxes[r.u(boxes.size())];
      Eigen::Vector3d l(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1));
      int ax = r.u(3); l[ax] = r.coin() ? 1 : -1;
      v = b.c + b.R * (l.cwiseProduct(b.h));
    }
    if (noise > 0) v += noise * Eigen::Vector3d(r.normal(), r.normal(), r.normal());
    p.push_back(P(v));
  }
  return p;
}

// Relative closeness with an absolute floor.
inline bool close(double a, double b, double rel, double abs_) { return a == b || std::abs(a - b) <= abs_ + rel * std::max(std::abs(a), std::abs(b)); }

inline double rot_angle(const Eigen::Matrix3d& R) { return 2.0 * std::asin(std::min(1.0, (R - Eigen::Matrix3d::Identity()).norm() / (2.0 * std::sqrt(2.0)))); }

}  // namespace vf
