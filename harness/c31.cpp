// C31: calls depend on their arguments only and leave process-wide state alone.
// The main process never calls the library: it stays a clean, single-threaded template.  A history (a sequence of calls
// with contexts around them) runs in one forked child, each reference result in another one that makes that call only.
#include "ops.hpp"
#include <thread>
#include <csignal>
#include <cfenv>
#include <clocale>
#include <locale>
#include <iomanip>
#include <malloc.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#if defined(__SSE__)
#include <xmmintrin.h>
#endif
#include <omp.h>
#include <small_gicp/util/sort_omp.hpp>
#include <small_gicp/util/sort_tbb.hpp>
#include <small_gicp/benchmark/read_points.hpp>
extern char** environ;

static std::string g_dir;

// ---- further operations, not over a shared world ------------------------------------------------------------------------------
static Out of_tree_search(const PointCloud& c, int leaf, uint64_t s, int k, int builder) {
  vf::Rng r(s);
  std::vector<Eigen::Vector4d> near(c.points.begin(), c.points.end());
  if (builder == 1) { KdTreeBuilderOMP b(2); b.max_leaf_size = leaf; UnsafeKdTree<PointCloud> t(c, b); return searches(t, s, near, 12, k); }
  if (builder == 2) { KdTreeBuilderTBB b; b.max_leaf_size = leaf; UnsafeKdTree<PointCloud> t(c, b); return searches(t, s, near, 12, k); }
  KdTreeBuilder b; b.max_leaf_size = leaf; UnsafeKdTree<PointCloud> t(c, b); return searches(t, s, near, 12, k);
}

static void more_ops(std::vector<Op>& ops, const World& w, vf::Rng& r) {
  auto add = [&](const char* n, Mode m, std::function<Out()> f) { ops.push_back({n, m, std::move(f)}); };
  const uint64_t s = r.next();
  const int k = r.pick({3, 5, 10, 33, 64, 100}), leaf = r.pick({1, 2, 5, 20, 100}), nt = r.pick({1, 2, 4, 8});
  const int bld = r.u(3);
  add("tree-leaf-sizes", EXACT, [&w, s, k, leaf, bld] { return of_tree_search(*w.target, leaf, s, k, bld); });
  add("features-k", EXACT, [&w, k] { PointCloud c(*w.target); estimate_normals_covariances(c, k); return of_features(c); });
  add("features-k-omp", CLOSE, [&w, k, nt] { PointCloud c(*w.source); estimate_normals_covariances_omp(c, k, nt); return of_features(c); });
  add("features-k-tbb", CLOSE, [&w, k] { PointCloud c(*w.source); estimate_covariances_tbb(c, k); return of_features(c); });
  const size_t n = r.pick({0, 5, 100, 1023, 1024, 3000, 9000});
  const int range = r.pick({3, 100, 1 << 30});
  auto data = [s, n, range] { vf::Rng g(s); std::vector<std::pair<uint32_t, uint32_t>> v(n); for (size_t i = 0; i < n; i++) v[i] = {(uint32_t)g.u(range), (uint32_t)i}; return v; };
  auto keys = [](const std::vector<std::pair<uint32_t, uint32_t>>& v) { Out o; uint64_t sum = 0; for (auto& p : v) { o.v.push_back(p.first); sum += p.second * 2654435761u ^ p.first; } o.v.push_back(sum % 1000003); return o; };
  const auto less = [](const std::pair<uint32_t, uint32_t>& a, const std::pair<uint32_t, uint32_t>& b) { return a.first < b.first; };
  add("quick-sort", EXACT, [=] { auto v = data(); quick_sort_omp(v.begin(), v.end(), less, nt); return keys(v); });
  add("merge-sort", EXACT, [=] { auto v = data(); merge_sort_omp(v.begin(), v.end(), less, nt); return keys(v); });
  add("radix-sort", EXACT, [=] { auto v = data(); radix_sort_tbb(v.data(), v.data() + v.size(), [](const std::pair<uint32_t, uint32_t>& p) { return p.first; }); return keys(v); });
  const size_t hz = r.pick({0, 1, 3, 10}), cy = r.pick({1, 2, 5});
  const double vl = r.pick({0.3, 1.0, 3.0});
  add("map-history", EXACT, [&w, s, hz, cy, vl] {
    vf::Rng g(s);
    IncrementalVoxelMap<FlatContainerNormalCov> m(vl); m.lru_horizon = hz; m.lru_clear_cycle = cy; m.set_search_offsets(g.pick({1, 7, 27}));
    for (int i = 0; i < 8; i++) m.insert(i % 2 ? *w.target : *w.source, g.iso(0.3, 4.0));
    Out o = searches(m, s, w.raw_t, 10, 5); o.v.push_back(m.size());
    for (auto& p : traits::voxel_normals(m)) o.v.push_back(p[1]);
    return o;
  });
  add("gaussian-map-history", EXACT, [&w, s, hz, cy, vl] {
    vf::Rng g(s);
    GaussianVoxelMap m(vl); m.lru_horizon = hz; m.lru_clear_cycle = cy;
    for (int i = 0; i < 8; i++) m.insert(i % 2 ? *w.target : *w.source, g.iso(0.3, 4.0));
    Out o; o.v.push_back(m.size()); for (auto& p : traits::voxel_points(m)) for (int q = 0; q < 3; q++) o.v.push_back(p[q]);
    for (auto& p : traits::voxel_covs(m)) o.v.push_back(p(0, 2));
    return o;
  });
  add("lie", EXACT, [s] { vf::Rng g(s); Out o; for (int i = 0; i < 20; i++) { V6 a; for (int j = 0; j < 6; j++) a[j] = g.real(-1, 1) * g.logreal(1e-9, 10); put(o, se3_exp(a)); } return o; });
  add("degenerate", EXACT, [s, k] {  // calls that end early or find nothing
    vf::Rng g(s); Out o;
    PointCloud e, one; one.resize(1); one.point(0) = vf::P(1, 2, 3);
    UnsafeKdTree<PointCloud> t(e), t1(one);
    std::vector<size_t> i(k, 77); std::vector<double> d(k, 7.0);
    o.v.push_back(t.knn_search(vf::P(0, 0, 0), k, i.data(), d.data())); o.v.push_back(t1.knn_search(vf::P(0, 0, 0), k, i.data(), d.data())); o.v.push_back(d[0]);
    o.v.push_back(voxelgrid_sampling(e, 0.5)->size()); o.v.push_back(voxelgrid_sampling(one, 0.5)->size());
    one.normal(0).setZero(); one.cov(0).setIdentity(); estimate_normals_covariances(one, 5); o.v.push_back(one.normal(0).norm());
    Registration<ICPFactor, SerialReduction> rg; auto x = rg.align(e, one, t); o.v.push_back(x.num_inliers); put(o, x.T_target_source);
    return o;
  });
  auto reg_verbose = [&w](bool gn) {  // the last value: how far the verbose result is from the silent one
    Out o[2];
    for (int v = 0; v < 2; v++) {
      if (gn) { Registration<ICPFactor, SerialReduction, NullFactor, DistanceRejector, GaussNewtonOptimizer> g; g.optimizer.verbose = v == 0; o[v] = of_result(g.align(*w.target, *w.source, *w.tree, w.init)); }
      else { Registration<GICPFactor, SerialReduction> g; g.optimizer.verbose = v == 0; o[v] = of_result(g.align(*w.target, *w.source, *w.tree, w.init)); }
    }
    o[0].v.push_back(apart(EXACT, o[0], o[1])); return o[0];
  };
  add("verbose-align", EXACT, [=] { return reg_verbose(false); });
  add("verbose-align-gn", EXACT, [=] { return reg_verbose(true); });
  const size_t np = r.pick({0, 1, 100, 4096});
  add("points-file", EXACT, [s, np] {
    vf::Rng g(s); const std::string f = g_dir + "/p" + std::to_string(getpid()) + ".bin";
    std::vector<Eigen::Vector4f> v(np); for (auto& p : v) p << (float)g.real(-9, 9), (float)g.real(), 3, 1;
    write_points(f, v); auto b = read_points(f); unlink(f.c_str());
    Out o; for (auto& p : b) for (int q = 0; q < 4; q++) o.v.push_back(p[q]); return o;
  });
  add("ply-file", EXACT, [s, np] {
    vf::Rng g(s); const std::string f = g_dir + "/p" + std::to_string(getpid()) + ".ply";
    FILE* h = fopen(f.c_str(), "wb"); if (!h) return Out();
    fprintf(h, "ply\nformat binary_little_endian 1.0\nelement vertex %zu\nproperty float x\nproperty float y\nproperty float z\nproperty float intensity\nend_header\n", np);
    for (size_t i = 0; i < np * 4; i++) { float x = (float)g.real(-5, 5); fwrite(&x, 4, 1, h); }
    fclose(h); auto b = read_ply(f); unlink(f.c_str());
    Out o; for (auto& p : b) for (int q = 0; q < 4; q++) o.v.push_back(p[q]); return o;
  });
}

// ---- calls ------------------------------------------------------------------------------------------------------------------
struct Call { uint64_t ws, os; size_t n; size_t op; };

struct Holder {  // keeps the world at one address; the clouds of successive worlds may be put into the same buffers
  alignas(64) unsigned char mem[sizeof(World)];
  World* w = nullptr; uint64_t ws = 0; size_t n = 0;
  std::vector<Op> ops; uint64_t os = ~0ull;
  void need(const Call& c) {
    if (!w || ws != c.ws || n != c.n) { ops.clear(); if (w) w->~World(); w = new (mem) World; build(*w, vf::Rng(c.ws), c.n); ws = c.ws; n = c.n; os = ~0ull; }
    if (os != c.os || ops.empty()) { vf::Rng r(c.os); ops = make_ops(*w, r); vf::Rng r2(c.os ^ 0x55); more_ops(ops, *w, r2); os = c.os; }
  }
};

// ---- process-wide state -----------------------------------------------------------------------------------------------------
struct Custom : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '\''; } std::string do_grouping() const override { return "\3"; } };
struct State {
  int omp_max, omp_dyn, omp_levels, omp_chunk, omp_limit; omp_sched_t omp_kind; int eig; int round, traps; unsigned csr;
  std::ios_base::fmtflags of, ef; std::streamsize op, ep; char ofill; std::ios_base::iostate ox, ex; std::streambuf *ob, *eb;
  std::string cl; std::locale gl, cloc; std::string cwd; mode_t um; void (*sig[6])(int); std::terminate_handler term; std::new_handler nh; uint64_t env;
  static State now() {
    State s; s.omp_max = omp_get_max_threads(); s.omp_dyn = omp_get_dynamic(); s.omp_levels = omp_get_max_active_levels(); omp_get_schedule(&s.omp_kind, &s.omp_chunk); s.omp_limit = omp_get_thread_limit();
    s.eig = Eigen::nbThreads(); s.round = fegetround(); s.traps = fegetexcept(); s.csr = 0;
#if defined(__SSE__)
    s.csr = _mm_getcsr() & ~0x3fu;
#endif
    s.of = std::cout.flags(); s.ef = std::cerr.flags(); s.op = std::cout.precision(); s.ep = std::cerr.precision(); s.ofill = std::cout.fill(); s.ox = std::cout.exceptions(); s.ex = std::cerr.exceptions(); s.ob = std::cout.rdbuf(); s.eb = std::cerr.rdbuf();
    s.cl = setlocale(LC_ALL, nullptr); s.gl = std::locale(); s.cloc = std::cout.getloc(); char b[4096]; s.cwd = getcwd(b, sizeof b) ? b : ""; s.um = umask(0); umask(s.um);
    const int sg[6] = {SIGINT, SIGSEGV, SIGFPE, SIGTERM, SIGABRT, SIGPIPE}; for (int i = 0; i < 6; i++) { struct sigaction a; sigaction(sg[i], nullptr, &a); s.sig[i] = a.sa_handler; }
    s.term = std::get_terminate(); s.nh = std::get_new_handler(); s.env = 7; for (char** e = environ; *e; e++) s.env = vf::mix64(s.env ^ std::hash<std::string>()(*e));
    return s;
  }
  std::string diff(const State& o) const {
    std::string d; auto t = [&](bool same, const char* n) { if (!same) d += std::string(d.empty() ? "" : ", ") + n; };
    t(omp_max == o.omp_max, "OpenMP default number of threads"); t(omp_dyn == o.omp_dyn, "OpenMP dynamic teams"); t(omp_levels == o.omp_levels, "OpenMP active levels"); t(omp_kind == o.omp_kind && omp_chunk == o.omp_chunk, "OpenMP run-time schedule");
    t(eig == o.eig, "Eigen thread count"); t(round == o.round, "rounding mode"); t(traps == o.traps, "floating-point traps"); t(csr == o.csr, "SSE control register");
    t(of == o.of && op == o.op && ofill == o.ofill && ox == o.ox, "std::cout formatting"); t(ef == o.ef && ep == o.ep && ex == o.ex, "std::cerr formatting"); t(ob == o.ob && eb == o.eb, "stream buffers");
    t(cl == o.cl, "C locale"); t(gl == o.gl, "global C++ locale"); t(cloc == o.cloc, "locale of std::cout"); t(cwd == o.cwd, "working directory"); t(um == o.um, "umask");
    for (int i = 0; i < 6; i++) t(sig[i] == o.sig[i], "signal handler"); t(term == o.term, "terminate handler"); t(nh == o.nh, "new handler"); t(env == o.env, "environment");
    return d;
  }
};

static void __attribute__((noinline)) stain_stack(unsigned char b) { volatile unsigned char m[48 << 10]; for (size_t i = 0; i < sizeof m; i++) m[i] = b; }

// ---- messages from a child --------------------------------------------------------------------------------------------------
static void wr(int fd, const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = write(fd, c, n); if (k <= 0) _exit(90); c += k; n -= k; } }
static void wr_out(int fd, char kind, uint64_t tag, const Out& o) { wr(fd, &kind, 1); wr(fd, &tag, 8); uint64_t n = o.v.size(); wr(fd, &n, 8); wr(fd, o.v.data(), n * 8); }
static void wr_str(int fd, char kind, uint64_t tag, const std::string& s) { Out o; for (unsigned char c : s) o.v.push_back(c); wr_out(fd, kind, tag, o); }
struct Msg { char kind; uint64_t tag; Out o; std::string str() const { std::string s; for (double d : o.v) s += (char)d; return s; } };

struct Child { pid_t pid = -1; int fd = -1; };
template <typename F> static Child spawn(F&& f) {
  int p[2]; if (pipe(p)) abort();
  fflush(stdout); fflush(stderr);
  Child c; c.pid = fork();
  if (c.pid < 0) abort();
  if (c.pid == 0) { close(p[0]); f(p[1]); close(p[1]); _exit(0); }
  close(p[1]); c.fd = p[0]; return c;
}
static std::vector<Msg> collect(Child& c, int& status) {
  std::vector<unsigned char> b; unsigned char t[65536]; ssize_t k;
  while ((k = read(c.fd, t, sizeof t)) > 0) b.insert(b.end(), t, t + k);
  close(c.fd); waitpid(c.pid, &status, 0);
  std::vector<Msg> m; size_t i = 0;
  while (i + 17 <= b.size()) { Msg x; x.kind = b[i]; memcpy(&x.tag, &b[i + 1], 8); uint64_t n; memcpy(&n, &b[i + 9], 8); i += 17; if (i + 8 * n > b.size()) break; x.o.v.resize(n); if (n) memcpy(x.o.v.data(), &b[i], 8 * n); i += 8 * n; m.push_back(std::move(x)); }
  return m;
}

static const char* const CTX[] = {"plain", "new-thread", "omp-defaults", "c-random", "stream-format", "locale", "dirty-heap", "dirty-stack", "errno-and-flags", "eigen-threads"};
enum { NCTX = 10 };

static void history(int fd, const std::vector<Call>& calls, uint64_t seed) {
  vf::Rng r(seed);
  const int out = memfd_create("out", 0), err = open("/dev/null", O_WRONLY);
  dup2(out, 1); dup2(err, 2);
  Holder h; std::unique_ptr<std::thread> keep;
  for (size_t i = 0; i < calls.size(); i++) {
    const Call& c = calls[i];
    h.need(c);
    const Op& op = h.ops[c.op];
    const int ctx = r.u(NCTX);
    if (ctx == 2) { omp_set_num_threads(1 + r.u(6)); omp_set_dynamic(r.u(2)); omp_set_schedule(r.coin() ? omp_sched_static : omp_sched_dynamic, 1 + r.u(9)); }
    if (ctx == 4) { std::cout << std::hex << std::fixed << std::setprecision(1 + r.u(12)) << std::setfill('*'); std::cerr << std::scientific; }
    if (ctx == 5) { std::locale::global(r.coin() ? std::locale(std::locale(), new Custom) : std::locale::classic()); if (r.coin()) std::cout.imbue(std::locale()); }
#ifndef __SANITIZE_ADDRESS__
    if (ctx == 6) mallopt(M_PERTURB, 1 + r.u(255));
#endif
    if (ctx == 8) { errno = r.u(40); feraiseexcept(FE_ALL_EXCEPT); }
    if (ctx == 9) Eigen::setNbThreads(1 + r.u(4));
    const unsigned rs = r.u(1000000); srand(rs); const int r1 = rand(), r2 = rand(); srand(rs); (void)!rand();
    srandom(rs); 
    srand(rs); (void)!rand();
    (void)r1;
    const State before = State::now();
    const off_t o0 = lseek(1, 0, SEEK_END);
    Out o;
    const unsigned char stain = r.u(256);
    auto go = [&] { if (ctx == 7 || ctx == 6) stain_stack(stain); o = op.f(); };
    if (ctx == 1) { std::thread t(go); t.join(); } else go();
    const bool rnd = rand() == r2;
    const State after = State::now();
    std::cout.flush(); fflush(stdout);
    const off_t o1 = lseek(1, 0, SEEK_END);
    const std::string d = before.diff(after);
    if (!d.empty()) wr_str(fd, 'S', i, d);
    if (!rnd) wr_str(fd, 'S', i, "C random number generator");
    Out meta; meta.v = {(double)ctx, (double)(o1 - o0)};
    wr_out(fd, 'M', i, meta);
    wr_out(fd, 'R', i, o);
    if (r.coin(0.15)) wr_out(fd, 'A', i, op.f());  // again at once
  }
}
static void reference(int fd, const Call& c, int times = 2) {
  const int err = open("/dev/null", O_WRONLY); dup2(err, 1); dup2(err, 2);
  Holder h; h.need(c); const Op& op = h.ops[c.op];
  Out a = op.f(); bool st = true;
  if (op.mode != EXACT) for (int k = 0; k < times && st; k++) st = apart(op.mode, a, op.f()) <= tol(op.mode) * 0.01;
  wr_out(fd, st ? 'R' : 'U', 0, a);
}

static std::vector<const char*> NAMES; static std::vector<Mode> MODES;
static void load_names() {  // in a child as well: listing the operations constructs library objects
  Child ch = spawn([](int fd) { World w; build(w, vf::Rng(1), 60); vf::Rng r(1); auto o = make_ops(w, r); more_ops(o, w, r); for (auto& x : o) { wr_str(fd, 'N', (uint64_t)x.mode, x.name); } });
  int st; for (auto& m : collect(ch, st)) { NAMES.push_back(strdup(m.str().c_str())); MODES.push_back((Mode)m.tag); }
}

static void run(Case& c) {
  vf::Rng& r = c.rng;
  if (NAMES.empty()) load_names();
  const size_t nops = NAMES.size();
  // worlds of the history: some of the same size (data of one are put where data of another were), some larger
  const size_t n0 = r.pick({60, 120, 250});
  std::vector<std::pair<uint64_t, size_t>> worlds;
  for (size_t i = 0, m = r.range(1, 4); i < m; i++) worlds.push_back({r.next(), r.coin(0.6) ? n0 : r.pick({60, 120, 250, 500})});
  std::vector<Call> calls;
  const size_t len = r.range(6, 24);
  size_t wi = 0; uint64_t os = r.next();
  for (size_t i = 0; i < len; i++) {
    if (r.coin(0.35)) wi = r.u(worlds.size());
    if (r.coin(0.5)) os = r.next();
    Call k{worlds[wi].first, os, worlds[wi].second, r.u(nops)};
    if (i && r.coin(0.3)) { k.op = calls[r.u(i)].op; }   // an operation made before, other data or settings
    calls.push_back(k);
  }
  const uint64_t hs = r.next();
  c.describe("history of %zu calls over %zu worlds", len, worlds.size());
  c.sig(hs);
  Child h = spawn([&](int fd) { history(fd, calls, hs); });
  int st; std::vector<Msg> got = collect(h, st);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) {
    size_t done = 0; for (auto& m : got) if (m.kind == 'R') done++;
    c.fail("died", "the history ended with status %d in call %zu (%s)", st, done, done < len ? NAMES[calls[done].op] : "?");
    return;
  }
  // references for a sample of the calls, most of them late in the history
  std::vector<size_t> pick; for (size_t i = 0; i < len; i++) if (r.coin(0.25 + 0.5 * i / len)) pick.push_back(i);
  std::map<size_t, Out> ref; std::map<size_t, bool> stable;
  for (size_t b = 0; b < pick.size(); b += 2) {
    std::vector<Child> ch; const size_t e = std::min(b + 2, pick.size());
    for (size_t j = b; j < e; j++) ch.push_back(spawn([&](int fd) { reference(fd, calls[pick[j]]); }));
    for (size_t j = b; j < e; j++) {
      int s2; auto m = collect(ch[j - b], s2);
      if (!WIFEXITED(s2) || WEXITSTATUS(s2) || m.empty()) { c.fail(std::string("died-alone-") + NAMES[calls[pick[j]].op], "%s alone in a new process ended with status %d", NAMES[calls[pick[j]].op], s2); continue; }
      ref[pick[j]] = m[0].o; stable[pick[j]] = m[0].kind == 'R';
    }
  }
  std::map<size_t, const Msg*> meta, res;
  for (auto& m : got) { if (m.kind == 'M') meta[m.tag] = &m; if (m.kind == 'R') res[m.tag] = &m; }
  for (auto& m : got) {
    const size_t i = m.tag; const char* nm = NAMES[calls[i].op]; const Mode md = MODES[calls[i].op];
    if (m.kind == 'S') c.fail(std::string("state-") + nm, "%s (call %zu) changed process-wide state: %s", nm, i, m.str().c_str());
    if (m.kind == 'M') {
      c.count("calls"); c.count(std::string("op_") + nm); c.count(std::string("context_") + CTX[(int)m.o.v[0]]); c.count("state_comparisons");
      const bool verbose = !strncmp(nm, "verbose", 7);
      if (verbose) { c.count("verbose_calls"); c.check(m.o.v[1] > 0, "verbose-silent", "%s (call %zu) printed nothing although verbose", nm, i); }
      else c.check(m.o.v[1] == 0, std::string("printed-") + nm, "%s (call %zu) wrote %g bytes to standard output", nm, i, m.o.v[1]);
    }
    if (m.kind == 'R' && !strncmp(nm, "verbose", 7) && !m.o.v.empty()) c.check(m.o.v.back() == 0, "verbose-differs", "%s (call %zu): the verbose result differs from the silent one by %g", nm, i, m.o.v.back());
    if (m.kind == 'A' && (md == EXACT)) { c.count("repeated_at_once"); c.check(apart(md, res[i]->o, m.o) == 0, std::string("repeat-") + nm, "%s (call %zu, %s) returned something else when repeated at once", nm, i, CTX[(int)meta[i]->o.v[0]]); }
    if (m.kind == 'R' && ref.count(i)) {
      if (!stable[i]) { c.count("unstable_alone"); continue; }
      c.nontrivial(); c.count("compared_with_new_process");
      const double d = apart(md, ref[i], m.o);
      if (md != EXACT && d < 1e200) c.maxi(std::string("max_deviation_mode") + std::to_string(md), d);
      vf::SecondLook look(c, nullptr);
      if (md != EXACT) c.second_look = [&] {
        for (int k = 0; k < 3; k++) {
          Child ch = spawn([&](int fd) { reference(fd, calls[i], 40); });
          int s2; const auto again = collect(ch, s2);
          if (again.empty() || again[0].kind != 'R' || !(apart(md, ref[i], again[0].o) <= tol(md) * 0.01)) return false;
        }
        return true;
      };
      c.check(d <= tol(md), std::string("history-") + nm, "%s as call %zu of the history (%s) returned something else than in a new process (by %.6g, %zu and %zu values)", nm, i, CTX[(int)meta[i]->o.v[0]], d, m.o.v.size(), ref[i].v.size());
    }
  }
}
int main(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tmp")) g_dir = argv[i + 1];
  if (g_dir.empty()) g_dir = "/tmp";
  return vf::main_loop(argc, argv, run);
}
