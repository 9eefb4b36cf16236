// C21: point files round-trip, and malformed files are handled safely (all files live in the run's scratch directory).
#include "vf.hpp"
#include <fstream>
#include <array>
#include <sstream>
#include <sys/wait.h>
#include <sys/resource.h>
#include <small_gicp/benchmark/read_points.hpp>
using vf::Case;
using namespace small_gicp;
struct NullBuf : std::streambuf { int overflow(int ch) override { return ch == EOF ? 0 : ch; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
struct Quiet { NullBuf s; std::streambuf* a; Quiet() { a = std::cerr.rdbuf(&s); } ~Quiet() { std::cerr.rdbuf(a); } };

static float value(vf::Rng& r) {
  switch (r.u(10)) {
    case 0: return 0.0f; case 1: return -0.0f; case 2: return (float)r.real(-1e-40, 1e-40);
    case 3: return std::numeric_limits<float>::infinity(); case 4: return std::numeric_limits<float>::quiet_NaN();
    case 5: return (float)(r.real(-1, 1) * 3e38);
    case 6: { uint32_t b = (uint32_t)r.next(); float f; memcpy(&f, &b, 4); return f; }
    default: return (float)r.real(-100, 100);
  }
}
static uint32_t bits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static void put(const std::string& path, const std::string& data) { FILE* f = fopen(path.c_str(), "wb"); if (!f) return; fwrite(data.data(), 1, data.size(), f); fclose(f); }

// Every coordinate that came back must be a byte pattern of the file, or zero.
static void from_file(Case& c, const char* what, const std::vector<Eigen::Vector4f>& pts, const std::string& data) {
  std::unordered_set<uint32_t> in; for (size_t i = 0; i + 4 <= data.size(); i++) { uint32_t b; memcpy(&b, &data[i], 4); in.insert(b); }
  // finding: a coordinate cut by the end of the file comes back as its first bytes padded with zeros
  std::set<uint32_t> cut; for (size_t m = 1; m <= 3 && m <= data.size(); m++) { uint32_t b = 0; memcpy(&b, &data[data.size() - m], m); cut.insert(b); }
  size_t ncut = 0;
  for (size_t i = 0; i < pts.size(); i++) {
    bool ok = true;
    for (int k = 0; k < 3; k++) {
      const bool here = pts[i][k] == 0.0f || in.count(bits(pts[i][k]));
      if (!here && cut.count(bits(pts[i][k])) && ++ncut == 1) { c.fail("cut-coordinate", "a coordinate cut off by the end of the file (%s, %zu bytes) comes back as its first bytes padded with zeros", what, data.size()); continue; }
      ok = ok && here;
    }
    if (!c.check(ok, std::string("invented-") + what, "%s: point %zu of %zu = (%g %g %g) is not in the file of %zu bytes", what, i, pts.size(), pts[i][0], pts[i][1], pts[i][2], data.size())) break;
    if (!c.check(pts[i][3] == 1.0f, std::string("w-") + what, "%s: point %zu has w=%g", what, i, pts[i][3])) break;
  }
}

static std::string header(vf::Rng& r, size_t n, const std::vector<std::string>& props, bool comments) {
  std::string h = "ply\nformat binary_little_endian 1.0\n";
  if (comments) h += "comment made by a test\nobj_info x y z\n";
  h += "element vertex " + std::to_string(n) + "\n";
  for (size_t i = 0; i < props.size(); i++) { if (comments && i == 2) h += "comment in between\n"; h += "property float " + props[i] + "\n"; }
  return h + "end_header\n";
}
static std::vector<std::string> properties(vf::Rng& r, size_t n) {
  const bool up = r.coin(0.2);
  std::vector<std::string> p = {up ? "X" : "x", up ? "Y" : "y", up ? "Z" : "z"};
  static const char* extra[] = {"intensity", "nx", "ny", "nz", "scalar_intensity", "t", "curvature", "ring"};
  while (p.size() < n) p.push_back(extra[r.u(8)]);
  p.resize(n);
  return p;
}

#ifdef VF_ASAN
static const bool SANITIZED = true;
#else
static const bool SANITIZED = false;
#endif
// What the header claims, read the way a line-based reader does.
struct Claim { size_t props = 0; double n = 0; size_t body = 0; bool rejected = false; };
static Claim claim(const std::string& data) {
  Claim k; size_t at = 0;
  for (;;) {
    if (at >= data.size()) break;
    const size_t e = data.find('\n', at); const std::string l = data.substr(at, e == std::string::npos ? e : e - at);
    at = e == std::string::npos ? data.size() : e + 1;
    if (l.empty() || l == "end_header") break;
    std::stringstream ss(l); std::string a, b, v;
    if (l.find("element") == 0) { ss >> a >> b >> v; if (a != "element" || b != "vertex") { k.rejected = true; break; } try { const long x = std::stol(v); k.n = x < 0 ? 1e19 : (double)x; } catch (...) { k.rejected = true; break; } }
    else if (l.find("property") == 0) { ss >> a >> b >> v; if (b != "float") { k.rejected = true; break; } k.props++; }
  }
  k.body = data.size() - at;
  return k;
}
// Run read_ply where its memory errors reach nothing else.  Returns false if it did not survive.
static bool read_apart(const std::string& path, std::vector<Eigen::Vector4f>& out, std::string& why, bool& threw, size_t limit) {
  const std::string res = path + ".out", err = path + ".err";
  fflush(stdout); fflush(stderr);
  const pid_t pid = fork();
  if (pid == 0) {
    const int fd = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(fd, 2); dup2(fd, 1);
    if (limit) { struct rlimit l{limit, limit}; setrlimit(RLIMIT_AS, &l); }
    { struct rlimit l{0, 0}; setrlimit(RLIMIT_CORE, &l); }
    try { const auto p = read_ply(path); FILE* f = fopen(res.c_str(), "wb"); if (!p.empty()) fwrite(p.data(), 16, p.size(), f); fclose(f); _exit(0); } catch (const std::exception&) { _exit(3); }
  }
  int st = 0; waitpid(pid, &st, 0);
  std::ifstream e(err); std::string text((std::istreambuf_iterator<char>(e)), {});
  threw = WIFEXITED(st) && WEXITSTATUS(st) == 3;
  const bool ok = WIFEXITED(st) && (WEXITSTATUS(st) == 0 || threw);
  out.clear();
  if (ok && !threw) { std::ifstream i(res, std::ios::binary); std::string d((std::istreambuf_iterator<char>(i)), {}); out.resize(d.size() / 16); if (!d.empty()) memcpy((void*)out.data(), d.data(), out.size() * 16); }
  if (!ok) { why = "died"; for (const char* k : {"ERROR: AddressSanitizer", "Assertion", "runtime error"}) { const size_t a = text.find(k); if (a != std::string::npos) { why = text.substr(a, text.find('\n', a) - a); break; } } const size_t a = text.find("read_ply"); if (a != std::string::npos) why += " in read_ply"; }
  unlink(res.c_str()); unlink(err.c_str());
  return ok;
}
// Reads a PLY file, apart if the header is of a kind whose handling may go wrong in memory.  Returns false if there is nothing to judge.
static bool ply(Case& c, const std::string& path, const std::string& data, std::vector<Eigen::Vector4f>& out) {
  const Claim k = claim(data);
  const double bytes = k.n * 16 + k.n * k.props * 4;
  const bool few = k.props < 3, over3 = k.props == 3 && k.n > 0 && (double)k.body > 12 * k.n, huge = bytes > 4e8 && k.n < 9e17;
  std::string why; bool threw = false;
  if (k.rejected || !(few || over3 || huge)) { try { out = read_ply(path); return true; } catch (const std::exception&) { c.count("damaged_rejected_by_exception"); return false; } }
  if (huge) {  // impossible counts: in a process with little memory to ask for
    if (SANITIZED) { c.count("left_to_other_flavour"); return false; }
    if (few) return false;
    const bool ok = read_apart(path, out, why, threw, (size_t)2 << 30);
    c.check(ok, "ply-huge-count", "a header claiming %.4g vertices (%zu bytes follow): %s", k.n, k.body, why.c_str());
    c.count("huge_counts");
    if (threw) c.count("damaged_rejected_by_exception");
    return ok && !threw;
  }
  if (!SANITIZED || (few && !c.rng.coin(0.3))) { c.count("left_to_other_flavour"); return false; }
  const bool ok = read_apart(path, out, why, threw, 0);
  if (few) { c.count("few_property_headers"); c.check(ok, "ply-few-properties-memory", "a header with fewer than three properties (%zu properties, %.0f vertices): %s", k.props, k.n, why.c_str()); }
  else { c.count("three_properties_and_more_data"); c.check(ok, "ply-three-properties-memory", "a header with three properties, %.0f vertices and %zu bytes after the header (trailing data): %s", k.n, k.body, why.c_str()); }
  return ok && !threw;
}

static void run(Case& c) {
  vf::Rng& r = c.rng;
  Quiet quiet;
  const std::string path = vf::G().tmpdir + "/c21_" + std::to_string(getpid()) + ".bin";
  struct Rm { std::string p; ~Rm() { unlink(p.c_str()); } } rm{path};
  const int mode = c.idx % 6;
  const size_t n = r.pick({(int)r.range(0, 5), (int)r.range(5, 100), (int)r.range(100, 3000)});
  c.sig(c.idx);

  if (mode == 0) {  // write / read round trip, replacing whatever was there
    std::vector<Eigen::Vector4f> pts(n);
    for (auto& p : pts) p = Eigen::Vector4f(value(r), value(r), value(r), r.coin(0.5) ? 1.0f : value(r));
    if (r.coin(0.5)) put(path, std::string(r.range(0, 100000), 'x'));
    const auto copy = pts;
    write_points(path, pts);
    c.check(pts.size() == copy.size() && (n == 0 || !memcmp(pts.data(), copy.data(), n * 16)), "input-modified", "write_points changed its input");
    const auto back = read_points(path);
    c.describe("round trip n=%zu", n);
    if (c.check(back.size() == n, "roundtrip-size", "wrote %zu points, read %zu", n, back.size()))
      for (size_t i = 0; i < n; i++) {
        bool ok = back[i][3] == 1.0f; for (int k = 0; k < 3; k++) ok = ok && bits(back[i][k]) == bits(pts[i][k]);
        if (!c.check(ok, "roundtrip-value", "point %zu of %zu: wrote (%.9g %.9g %.9g), read (%.9g %.9g %.9g %.9g)", i, n, pts[i][0], pts[i][1], pts[i][2], back[i][0], back[i][1], back[i][2], back[i][3])) break;
        c.count("points_round_tripped");
      }
    if (n) c.nontrivial(); else c.count("empty_round_trips");
    return;
  }
  if (mode == 1) {  // read_points on arbitrary bytes; missing files; unwritable targets
    std::string data; const size_t bytes = r.pick({(int)r.range(0, 40), (int)r.range(40, 5000)});
    for (size_t i = 0; i < bytes; i++) data += (char)r.u(256);
    put(path, data);
    const auto p = read_points(path);
    c.describe("raw bytes=%zu", bytes);
    c.check(p.size() <= (bytes + 15) / 16 && p.size() >= bytes / 16, "raw-size", "%zu bytes gave %zu points", bytes, p.size());
    for (size_t i = 0; i < bytes / 16 && i < p.size(); i++) { c.check(!memcmp(&p[i], &data[i * 16], 12), "raw-value", "point %zu differs from the bytes in the file", i); c.count("raw_points"); }
    from_file(c, "raw", p, data);
    c.check(read_points(path + ".missing").empty() && read_ply(path + ".missing").empty(), "missing-file", "a missing file yields points");
    write_points(vf::G().tmpdir + "/no/such/dir/file", p);
    c.count("raw_files"); c.count("missing_files"); c.nontrivial();
    return;
  }
  // PLY: 2, 3 = well-formed; 4, 5 = damaged
  const size_t np = r.pick({3, 3, 4, 4, 5, 6, 7, 12});
  auto props = properties(r, np);
  std::string body; std::vector<std::array<float, 3>> want(n);
  for (size_t i = 0; i < n; i++) for (size_t k = 0; k < np; k++) { float f = value(r); if (k < 3) want[i][k] = f; body.append((const char*)&f, 4); }
  if (mode <= 3) {
    std::string trailing; if (r.coin(0.4)) for (size_t i = r.range(1, 3000); i; i--) trailing += (char)r.u(256);
    if (np == 3 && !SANITIZED) trailing.clear();   // (left to the sanitizer flavour)
    const std::string data = header(r, n, props, r.coin(0.4)) + body + trailing;
    put(path, data);
    std::vector<Eigen::Vector4f> p;
    c.describe("ply properties=%zu n=%zu trailing=%zu", np, n, trailing.size());
    if (n) c.nontrivial();
    if (np == 3) c.count("ply_three_properties"); else if (np == 4) c.count("ply_four_properties"); else c.count("ply_many_properties");
    if (trailing.size()) c.count("ply_trailing_data");
    if (!ply(c, path, data, p)) { c.check(np == 3 && trailing.size(), "ply-rejected", "a well-formed file of %zu vertices with %zu properties was rejected", n, np); return; }
    if (np > 4 && p.size() == n) {
      // finding: only the first 16 bytes per vertex are read; the coordinates behind them come back as zeros
      bool lost = false, only = true;
      for (size_t i = 0; i < n; i++) for (int k = 0; k < 3; k++) if (bits(p[i][k]) != bits(want[i][k])) { lost = true; only = only && (i * np + k) * 4 >= 16 * n && bits(p[i][k]) == 0; }
      if (lost && only) { c.fail("ply-many-properties-lost", "more than four properties (%zu) per vertex: the vertices beyond the first %zu bytes of the body read as zeros", np, 16 * n); return; }
    }
    if (c.check(p.size() == n, "ply-size", "%zu vertices of %zu properties: read %zu points", n, np, p.size()))
      for (size_t i = 0; i < n; i++) {
        bool ok = p[i][3] == 1.0f; for (int k = 0; k < 3; k++) ok = ok && bits(p[i][k]) == bits(want[i][k]);
        if (!c.check(ok, "ply-value", "vertex %zu of %zu (%zu properties): (%.9g %.9g %.9g) read as (%.9g %.9g %.9g %.9g)", i, n, np, want[i][0], want[i][1], want[i][2], p[i][0], p[i][1], p[i][2], p[i][3])) break;
        c.count("ply_points");
      }
    return;
  }
  // damaged files
  std::string data; const char* how;
  switch (r.u(9)) {
    case 0: how = "truncated"; data = header(r, n, props, r.coin()) + body; data.resize(r.u(data.size() + 1)); break;
    case 1: how = "truncated-body"; { auto h = header(r, n, props, r.coin()); data = h + body.substr(0, r.u(body.size() + 1)); } break;
    case 2: how = "truncated-header"; { auto h = header(r, n, props, r.coin()); data = h.substr(0, r.u(h.size() + 1)); } break;
    case 3: how = "few-properties"; data = header(r, n, properties(r, r.u(3)), r.coin()) + body; break;
    case 4: how = "oversized-count"; data = header(r, r.pick({(uint64_t)n + 1 + r.u(100), (uint64_t)100000, (uint64_t)3000000000ull, (uint64_t)100000000000000ull, (uint64_t)500000000000000000ull, (uint64_t)9000000000000000000ull}), props, false) + body; break;
    case 5: how = "bad-count"; { std::string h = header(r, n, props, false); auto at = h.find("vertex ") + 7; auto e = h.find('\n', at); h.replace(at, e - at, r.pick({std::string("-1"), std::string("-1000000"), std::string("abc"), std::string(""), std::string("99999999999999999999999"), std::string("1e9"), std::string("0"), std::string("-9223372036854775808")})); data = h + body; } break;
    case 6: how = "flipped-bytes"; data = header(r, n, props, r.coin()) + body; for (int i = r.range(1, 20); i; i--) data[r.u(std::min<size_t>(data.size(), 400))] = (char)r.u(256); break;
    case 7: how = "header-lines"; { // shuffled, duplicated or dropped header lines
      std::string h = header(r, n, props, true); std::vector<std::string> l; std::stringstream ss(h); for (std::string s; std::getline(ss, s);) l.push_back(s);
      for (int i = r.range(1, 4); i; i--) { size_t a = r.u(l.size()), b = r.u(l.size()); switch (r.u(3)) { case 0: std::swap(l[a], l[b]); break; case 1: l.insert(l.begin() + a, l[b]); break; default: if (l.size() > 1) l.erase(l.begin() + a); } }
      for (auto& s : l) data += s + "\n"; data += body; } break;
    default: how = "garbage"; data = r.coin() ? "ply\n" : ""; for (size_t i = r.range(0, 3000); i; i--) data += (char)(r.coin(0.1) ? '\n' : r.u(256));
  }
  put(path, data);
  c.describe("damaged ply: %s properties=%zu n=%zu bytes=%zu", how, np, n, data.size());
  std::vector<Eigen::Vector4f> p;
  if (ply(c, path, data, p)) {
    // claims of more points than there are bytes are only bounded by the header; their contents must still come from the file
    from_file(c, how, p, data);
    c.count("damaged_returned");
  }
  c.count(std::string("damaged_") + how); c.nontrivial();
}
int main(int argc, char** argv) { return vf::main_loop(argc, argv, run); }
