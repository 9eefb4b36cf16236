// C35: user-supplied components are called as promised.  Point types, searches, rejectors, factors, kernels, general factors,
// optimizers, reductions, projections, border modes, voxel contents and feature setters that log how they are called; the
// logs are checked against the order, the arguments and the number of calls the interface promises.
#include "reg.hpp"
#include <mutex>
#include <thread>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/ann/projective_search.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
using namespace reg;
using vf::Case;

// ---- the log ----------------------------------------------------------------------------------------------------------
enum What { SEARCH, REJECT, LINEARIZE, ERROR, GENERAL_LINEARIZE, GENERAL_ERROR, WEIGHT, OPTIMIZE };
struct Event { What what; Eigen::Isometry3d T; size_t si, ti; const void* who; bool yes; double v; Eigen::Vector4d q; M6 H; V6 b; std::thread::id thread; int inside; };
static std::mutex g_mutex;
static std::vector<Event> g_log;
static std::atomic<int> g_inside{0};            // calls of factors and searches in progress
static std::atomic<int> g_same_factor{0};       // two calls of one factor at a time
struct Addresses { const void *target, *source, *tree, *rejector; };
static Addresses g_want; static std::atomic<int> g_wrong_address{0};
static void expect(const void* got, const void* want) { if (got != want) g_wrong_address++; }
static void put(Event e) { e.thread = std::this_thread::get_id(); e.inside = g_inside; std::lock_guard<std::mutex> l(g_mutex); g_log.push_back(std::move(e)); }
static Event ev(What w, const Eigen::Isometry3d& T, size_t si = 0) { Event e; e.what = w; e.T = T; e.si = si; e.ti = 0; e.who = nullptr; e.yes = false; e.v = 0; e.q.setZero(); e.H.setZero(); e.b.setZero(); return e; }
struct Inside { Inside() { g_inside++; } ~Inside() { g_inside--; } };

// ---- the components ---------------------------------------------------------------------------------------------------
// A target that is no point cloud of the library, and a search over it that only knows k nearest points (or only the nearest)
struct Ground { PointCloud pc; };
struct SearchBase { const Ground* g; uint64_t salt; int lost; };
struct NearestOnly : SearchBase {};
struct KnnOnly : SearchBase {};
static size_t search_ground(const SearchBase& s, const Eigen::Vector4d& q, size_t* i, double* d) {
  Inside in;
  Event e = ev(SEARCH, Eigen::Isometry3d::Identity()); e.q = q; e.who = &s;
  uint64_t h = s.salt; for (int k = 0; k < 3; k++) { uint64_t b; memcpy(&b, &q[k], 8); h = vf::mix64(h ^ b); }
  const bool lost = (int)(h % 100) < s.lost;
  NN n{0, 1e300, 1e300};
  if (!lost) n = brute_nn(s.g->pc, q.head<3>());
  e.yes = !lost && s.g->pc.size(); e.ti = n.i; e.v = n.d2;
  put(e);
  if (!e.yes) { *i = ~0ull - 7; *d = std::numeric_limits<double>::quiet_NaN(); return 0; }   // (must not be looked at)
  *i = n.i; *d = n.d2; return 1;
}
namespace small_gicp { namespace traits {
template <> struct Traits<Ground> {
  static size_t size(const Ground& g) { return g.pc.size(); }
  static bool has_points(const Ground&) { return true; }
  static bool has_normals(const Ground&) { return true; }
  static bool has_covs(const Ground&) { return true; }
  static Eigen::Vector4d point(const Ground& g, size_t i) { return g.pc.points.at(i); }
  static Eigen::Vector4d normal(const Ground& g, size_t i) { return g.pc.normals.at(i); }
  static Eigen::Matrix4d cov(const Ground& g, size_t i) { return g.pc.covs.at(i); }
};
template <> struct Traits<NearestOnly> { static size_t nearest_neighbor_search(const NearestOnly& s, const Eigen::Vector4d& q, size_t* i, double* d) { return search_ground(s, q, i, d); } };
template <> struct Traits<KnnOnly> { static size_t knn_search(const KnnOnly& s, const Eigen::Vector4d& q, size_t k, size_t* i, double* d) { if (k != 1) g_wrong_address++; return search_ground(s, q, i, d); } };
} }
struct LogRejector {
  uint64_t salt = 0; int percent = 0;
  template <typename T, typename S> bool operator()(const T& t, const S& s, const Eigen::Isometry3d& X, size_t ti, size_t si, double d) const {
    Inside in;
    expect(&t, g_want.target); expect(&s, g_want.source); expect(this, g_want.rejector);
    Event e = ev(REJECT, X, si); e.ti = ti; e.v = d; e.yes = (int)(vf::mix64(salt ^ vf::mix64(ti * 100003ull + si)) % 100) < percent; put(e);
    return e.yes;
  }
};
template <typename Base> struct LogFactor : Base {
  struct Setting : Base::Setting { int tag = 0; };
  int tag; mutable int busy = 0;
  LogFactor(const Setting& s = Setting()) : Base(s), tag(s.tag) {}
  struct Busy { int& b; Busy(int& x) : b(x) { if (__atomic_fetch_add(&b, 1, __ATOMIC_RELAXED)) g_same_factor++; } ~Busy() { __atomic_fetch_sub(&b, 1, __ATOMIC_RELAXED); } };
  template <typename T, typename S, typename TT, typename R>
  bool linearize(const T& t, const S& s, const TT& tree, const Eigen::Isometry3d& X, size_t si, const R& rj, M6* H, V6* b, double* e) {
    Inside in; Busy bz(busy);
    expect(&t, g_want.target); expect(&s, g_want.source); expect(&tree, g_want.tree); expect(&rj, g_want.rejector);
    const bool ok = Base::linearize(t, s, tree, X, si, rj, H, b, e);
    if (!ok) { H->setConstant(std::numeric_limits<double>::quiet_NaN()); b->setConstant(std::numeric_limits<double>::quiet_NaN()); *e = std::numeric_limits<double>::quiet_NaN(); }   // (must not be looked at)
    Event l = ev(LINEARIZE, X, si); l.who = this; l.yes = ok; l.ti = tag; if (ok) { l.H = *H; l.b = *b; l.v = *e; } put(l);
    return ok;
  }
  template <typename T, typename S> double error(const T& t, const S& s, const Eigen::Isometry3d& X) const {
    Inside in; Busy bz(busy);
    expect(&t, g_want.target); expect(&s, g_want.source);
    const double v = Base::error(t, s, X);
    Event l = ev(ERROR, X); l.who = this; l.v = v; l.yes = Base::inlier(); put(l);
    return v;
  }
};
struct LogKernel {
  struct Setting { double share = 1; };
  double share; LogKernel(const Setting& s) : share(s.share) {}
  double weight(double e) const { Event l = ev(WEIGHT, Eigen::Isometry3d::Identity()); l.v = e; l.who = this; put(l); return share; }
};
struct LogGeneral {
  double push = 0, cost = 0;
  template <typename T, typename S, typename TT> void update_linearized_system(const T& t, const S& s, const TT& tree, const Eigen::Isometry3d& X, M6* H, V6* b, double* e) const {
    expect(&t, g_want.target); expect(&s, g_want.source); expect(&tree, g_want.tree);
    Event l = ev(GENERAL_LINEARIZE, X); l.H = *H; l.b = *b; l.v = *e; put(l);
    *H += push * M6::Identity(); *e += cost * X.translation().squaredNorm();
  }
  template <typename T, typename S> void update_error(const T& t, const S& s, const Eigen::Isometry3d& X, double* e) const {
    expect(&t, g_want.target); expect(&s, g_want.source);
    Event l = ev(GENERAL_ERROR, X); l.v = *e; put(l);
    *e += cost * X.translation().squaredNorm();
  }
};

static bool pose_is(const Eigen::Isometry3d& a, const Eigen::Isometry3d& b) { return (a.matrix() - b.matrix()).cwiseAbs().maxCoeff() <= 1e-12; }

template <typename F> struct SetUp;
template <typename B> struct SetUp<LogFactor<B>> { template <typename S> static void tag(S& s, int t) { s.tag = t; } };
template <typename K, typename B> struct SetUp<RobustFactor<K, LogFactor<B>>> { template <typename S> static void tag(S& s, int t) { s.factor.tag = t; } };

template <typename F, typename Opt, typename Red, typename Search>
static void alignment(Case& c, Red red, const char* what, bool robust) {
  constexpr bool LM = std::is_same<Opt, LevenbergMarquardtOptimizer>::value;
  vf::Rng& r = c.rng;
  Ground ground; ground.pc = *make_cloud(r, vf::gen_scene(r, r.pick({1, 30, 150, 300}), 5.0, 0.03));
  auto source = make_cloud(r, vf::gen_scene(r, r.pick({1, 7, 8, 9, 40, 150, 250}), 5.0, 0.03));
  if (r.coin()) { source = transform(ground.pc, r.iso(0.1, 0.3)); }
  Registration<F, Red, LogGeneral, LogRejector, Opt> rg;
  rg.reduction = red; rg.optimizer.max_iterations = r.pick({1, 2, 5, 12});
  rg.rejector.salt = r.next(); rg.rejector.percent = r.pick({0, 10, 50, 100});
  const int tag = 1 + r.u(1000); SetUp<F>::tag(rg.point_factor, tag);
  const double share = r.pick({1.0, 0.25}); if constexpr (!std::is_same<F, LogFactor<GICPFactor>>::value && !std::is_same<F, LogFactor<ICPFactor>>::value && !std::is_same<F, LogFactor<PointToPlaneICPFactor>>::value) rg.point_factor.robust_kernel.share = share;
  rg.general_factor.push = r.pick({0.0, 10.0}); rg.general_factor.cost = r.pick({0.0, 1.0, 100.0});
  Search search; search.g = &ground; search.salt = r.next(); search.lost = r.pick({0, 0, 20, 100});
  const Eigen::Isometry3d init = r.coin(0.3) ? Eigen::Isometry3d::Identity() : r.iso(0.1, 0.3);
  const size_t N = source->size();
  c.describe("%s, %zu source points, %zu target points, rejecting %d%%, losing %d%%", what, N, ground.pc.size(), rg.rejector.percent, search.lost); c.sig(c.idx);
  g_want = {&ground, source.get(), &search, &rg.rejector};
  g_log.clear(); g_wrong_address = 0; g_same_factor = 0; g_inside = 0;
  RegistrationResult res;
  { Quiet q; res = rg.align(ground, *source, search, init); }
  const auto log = std::move(g_log); g_log.clear();
  const auto me = std::this_thread::get_id();
  c.check(g_wrong_address == 0, "addresses", "a component was handed another object than the one passed to align (%d calls)", (int)g_wrong_address);
  c.check(g_same_factor == 0, "factor-shared", "a factor was called from two threads at once");
  c.count("events", log.size());

  // cut at the calls of the general factor: everything before such a call belongs to the sum it completes
  std::map<const void*, size_t> point_of;   // factor -> source point
  size_t at = 0; int lins = 0, errs = 0; bool have_T = false; Eigen::Isometry3d lin_T = init, last_T = init;
  std::vector<const void*> inliers;
  std::set<std::thread::id> threads;
  for (size_t end = 0; end <= log.size(); end++) {
    if (end < log.size() && log[end].what != GENERAL_LINEARIZE && log[end].what != GENERAL_ERROR) continue;
    if (end == log.size()) { c.check(at == end, "trailing-calls", "%zu calls after the last one of the general factor", end - at); break; }
    const Event& g = log[end];
    c.check(g.thread == me, "general-thread", "the general factor is called from another thread");
    c.check(g.inside == 0, "general-overlap", "the general factor is called while %d calls of factors are in progress", g.inside);
    if (g.what == GENERAL_LINEARIZE) {
      lins++;
      if (!have_T) { if (!c.check(pose_is(g.T, init), "first-pose", "the first linearization is not at the initial guess")) return; }
      have_T = true; lin_T = g.T;
      std::vector<int> done(N, 0), searched(N, 0); std::vector<size_t> found(N, ~0ull); std::vector<double> fd(N, 0); std::vector<int> judged(N, 0); std::vector<char> rejected(N, 0);
      M6 H = M6::Zero(); V6 b = V6::Zero(); double e = 0; size_t ok = 0, weights = 0, searches = 0;
      std::vector<Eigen::Vector4d> at_q(N); for (size_t i = 0; i < N; i++) at_q[i] = vf::P(Eigen::Vector3d(g.T * Eigen::Vector3d(source->point(i).template head<3>())));
      std::map<std::thread::id, const Event*> pending;   // the search a thread has just made
      std::map<std::thread::id, const Event*> judging;
      inliers.clear();
      for (size_t k = at; k < end; k++) {
        const Event& x = log[k]; threads.insert(x.thread);
        if (x.what == SEARCH) { searches++; pending[x.thread] = &x; judging[x.thread] = nullptr; }
        else if (x.what == REJECT) {
          if (!c.check(x.si < N, "rejector-source-index", "the rejector is called with source index %zu of %zu", x.si, N)) return;
          const Event* s = pending[x.thread];
          c.check(pose_is(x.T, g.T), "rejector-pose", "the rejector is called with another pose than the linearization point");
          if (!c.check(s && s->yes, "rejector-unfound", "the rejector is called for a point whose search found nothing")) return;
          c.check(x.ti == s->ti, "rejector-target-index", "the rejector is called with target index %zu, the search returned %zu", x.ti, s->ti);
          c.check(x.v == s->v, "rejector-distance", "the rejector is called with squared distance %.17g, the search returned %.17g", x.v, s->v);
          judging[x.thread] = &x; c.count("rejector_calls");
          judged[x.si]++;
        } else if (x.what == WEIGHT) weights++;
        else if (x.what == LINEARIZE) {
          if (!c.check(x.si < N, "factor-index", "a factor is linearized with source index %zu of %zu", x.si, N)) return;
          c.check((int)x.ti == tag, "factor-setting", "a factor was constructed without the setting");
          c.check(pose_is(x.T, g.T), "linearize-pose", "a factor is linearized at another pose than the general factor");
          done[x.si]++;
          auto f = point_of.emplace(x.who, x.si);
          c.check(f.first->second == x.si, "factor-identity", "one factor is linearized for source points %zu and %zu", f.first->second, x.si);
          const Event* s = pending[x.thread]; const Event* j = judging[x.thread];
          if (!c.check(s != nullptr, "no-search", "source point %zu is linearized without a search", x.si)) return;
          c.check((s->q - at_q[x.si]).head<3>().norm() <= 1e-9 * (1 + at_q[x.si].norm()) && s->q[3] == 1.0, "query", "the query for source point %zu is (%.9g %.9g %.9g %.9g) instead of (%.9g %.9g %.9g 1)", x.si, s->q[0], s->q[1], s->q[2], s->q[3], at_q[x.si][0], at_q[x.si][1], at_q[x.si][2]);
          if (s->yes) { if (!c.check(j && j->si == x.si, "not-judged", "source point %zu is linearized without asking the rejector about it", x.si)) return; }
          c.check(x.yes == (s->yes && !(j && j->yes)), "verdict", "source point %zu: found=%d rejected=%d, and linearize returns %d", x.si, (int)s->yes, (int)(j && j->yes), (int)x.yes);
          if (x.yes) { H += x.H; b += x.b; e += x.v; ok++; inliers.push_back(x.who); }
          pending[x.thread] = nullptr; judging[x.thread] = nullptr;
        } else c.check(false, "error-while-linearizing", "an error is evaluated in the middle of a linearization");
      }
      for (size_t i = 0; i < N; i++) if (!c.check(done[i] == 1, "linearized-once", "source point %zu of %zu is linearized %d times in one linearization", i, N, done[i])) return;
      c.check(searches == N, "searches", "%zu searches for %zu source points", searches, N);
      if (robust) { c.check(weights == ok, "weights", "the kernel is asked %zu times for %zu inliers", weights, ok); H *= share; b *= share; e *= share; }
      const double tol = 1e-9;
      c.check((g.H - H).norm() <= tol * (1 + H.norm()) && (g.b - b).norm() <= tol * (1 + H.norm()) && std::abs(g.v - e) <= tol * (1 + e), "sum", "the general factor is handed another sum than that of the %zu factors that returned true (H by %.3g of %.3g, e %.9g instead of %.9g)", ok, (g.H - H).norm(), H.norm(), g.v, e);
      c.count("linearizations");
      if (ok) c.nontrivial();
    } else {
      errs++; last_T = g.T;
      if (!c.check(have_T, "error-first", "an error is evaluated before any linearization")) return;
      std::map<const void*, int> times; double e = 0; 
      for (size_t k = at; k < end; k++) {
        const Event& x = log[k]; threads.insert(x.thread);
        if (x.what == WEIGHT) continue;
        if (!c.check(x.what == ERROR, "other-while-evaluating", "something else than errors is asked for during an evaluation")) return;
        c.check(pose_is(x.T, g.T), "error-pose", "a factor's error is evaluated at another pose than the general factor's");
        c.check(point_of.count(x.who), "unknown-factor", "an error is asked of a factor that was never linearized");
        times[x.who]++; e += robust ? share * x.v : x.v;
      }
      for (auto& t : times) c.check(t.second == 1, "evaluated-once", "a factor's error is asked for %d times in one evaluation", t.second);
      for (auto f : inliers) if (!c.check(times.count(f), "not-evaluated", "the error of an inlier is not asked for")) return;
      c.check(std::abs(g.v - e) <= 1e-9 * (1 + e), "error-sum", "the general factor is handed the error %.12g, the factors returned %.12g", g.v, e);
      c.count("evaluations");
    }
    at = end + 1;
  }
  c.check(lins >= 1 && lins <= rg.optimizer.max_iterations, "linearizations", "%d linearizations with at most %d iterations", lins, rg.optimizer.max_iterations);
  if (LM) c.check(errs >= lins, "evaluations", "%d evaluations in %d iterations", errs, lins);
  c.check(res.num_inliers == inliers.size(), "num-inliers", "%zu inliers, %zu factors returned true in the last linearization", (size_t)res.num_inliers, inliers.size());
  c.maxi("threads_seen", threads.size());
}

// A user's optimizer and reduction
struct LogReduction {
  int id = 0;
  template <typename T, typename S, typename TT, typename R, typename F> std::tuple<M6, V6, double> linearize(const T& t, const S& s, const TT& tree, const R& rj, const Eigen::Isometry3d& X, std::vector<F>& f) const {
    expect(&t, g_want.target); expect(&s, g_want.source); expect(&tree, g_want.tree); expect(&rj, g_want.rejector);
    Event e = ev(LINEARIZE, X, f.size()); e.ti = id; put(e);
    return SerialReduction().linearize(t, s, tree, rj, X, f);
  }
  template <typename T, typename S, typename F> double error(const T& t, const S& s, const Eigen::Isometry3d& X, std::vector<F>& f) const {
    expect(&t, g_want.target); expect(&s, g_want.source);
    Event e = ev(ERROR, X, f.size()); e.ti = id; put(e); return SerialReduction().error(t, s, X, f);
  }
};
static double g_eps[2]; static int g_reduction_id;
struct LogOptimizer {
  RegistrationResult answer{Eigen::Isometry3d::Identity()};
  template <typename T, typename S, typename TT, typename R, typename C, typename Red, typename F, typename G>
  RegistrationResult optimize(const T& t, const S& s, const TT& tree, const R& rj, const C& crit, Red& red, const Eigen::Isometry3d& init, std::vector<F>& factors, G& general) const {
    expect(&t, g_want.target); expect(&s, g_want.source); expect(&tree, g_want.tree); expect(&rj, g_want.rejector);
    if (crit.translation_eps != g_eps[0] || crit.rotation_eps != g_eps[1] || red.id != g_reduction_id) g_wrong_address++;
    Event e = ev(OPTIMIZE, init, factors.size()); put(e);
    auto [H, b, err] = red.linearize(t, s, tree, rj, init, factors);
    general.update_linearized_system(t, s, tree, init, &H, &b, &err);
    for (auto& f : factors) if (f.tag != 77) g_wrong_address++;
    return answer;
  }
};
static void user_optimizer(Case& c) {
  vf::Rng& r = c.rng;
  Ground ground; ground.pc = *make_cloud(r, vf::gen_scene(r, r.pick({1, 100}), 5.0, 0.03));
  auto source = make_cloud(r, vf::gen_scene(r, r.pick({1, 9, 60}), 5.0, 0.03));
  c.describe("user optimizer, %zu source points", source->size()); c.sig(c.idx);
  Registration<LogFactor<GICPFactor>, LogReduction, LogGeneral, LogRejector, LogOptimizer> rg;
  rg.reduction.id = g_reduction_id = 1 + r.u(100); rg.point_factor.tag = 77;
  rg.criteria.translation_eps = g_eps[0] = r.real(); rg.criteria.rotation_eps = g_eps[1] = r.real();
  auto& a = rg.optimizer.answer; a.T_target_source = r.iso(1, 5); a.converged = r.coin(); a.iterations = r.u(99); a.num_inliers = r.u(9999); a.H = M6::Random(); a.b = V6::Random(); a.error = r.real();
  NearestOnly search; search.g = &ground; search.salt = 1; search.lost = 0;
  g_want = {&ground, source.get(), &search, &rg.rejector}; g_log.clear(); g_wrong_address = 0;
  const Eigen::Isometry3d init = r.iso(0.2, 0.5);
  RegistrationResult res; { Quiet q; res = rg.align(ground, *source, search, init); }
  const auto log = std::move(g_log); g_log.clear();
  size_t calls = 0, lin = 0;
  for (auto& e : log) { if (e.what == OPTIMIZE) { calls++; c.check(pose_is(e.T, init) && e.si == source->size(), "optimizer-arguments", "the optimizer is called with %zu factors for %zu points, or another initial guess", e.si, source->size()); } if (e.what == LINEARIZE && e.who == nullptr) lin++; }
  c.check(calls == 1, "optimizer-once", "the optimizer is called %zu times", calls); c.check(lin == 1, "reduction-calls", "%zu calls of the reduction", lin);
  c.check(g_wrong_address == 0, "addresses", "a component was handed another object than the one passed to align");
  c.check(res.T_target_source.matrix() == a.T_target_source.matrix() && res.converged == a.converged && res.iterations == a.iterations && res.num_inliers == a.num_inliers && res.H == a.H && res.b == a.b && res.error == a.error, "optimizer-result", "align does not return what the optimizer returned");
  c.count("user_optimizations"); c.nontrivial();
}

// ---- voxel contents ---------------------------------------------------------------------------------------------------
struct Add { size_t voxel, i; Eigen::Vector4d pt; };
static const void* g_points = nullptr; static Eigen::Isometry3d g_T; static int g_tag = 0; static long g_added = 0, g_finalized_early = 0, g_bad_add = 0; static size_t g_next_point = 0, g_out_of_order = 0;
static std::vector<Add> g_adds; static bool g_searching = false; static std::vector<const void*> g_searched;
struct Bag {
  struct Setting { int tag = 0; };
  std::vector<Eigen::Vector4d> pts; std::vector<std::pair<const void*, size_t>> from; bool dirty = false;
  size_t size() const { return pts.size(); }
  template <typename PC> void add(const Setting& s, const Eigen::Vector4d& pt, const PC& points, size_t i, const Eigen::Isometry3d& T) {
    if (s.tag != g_tag || (const void*)&points != g_points || !pose_is(T, g_T)) g_bad_add++;
    if (i < g_next_point) g_out_of_order++;
    g_next_point = i + 1; g_adds.push_back({0, i, pt}); pts.push_back(pt); dirty = true;
  }
  void finalize() { dirty = false; }
};
namespace small_gicp { namespace traits {
template <> struct Traits<Bag> {
  static size_t size(const Bag& b) { return b.pts.size(); }
  static bool has_points(const Bag&) { return true; }
  static bool has_normals(const Bag&) { return true; }
  static bool has_covs(const Bag&) { return true; }
  static Eigen::Vector4d point(const Bag& b, size_t i) { return b.pts.at(i); }
  static Eigen::Vector4d normal(const Bag& b, size_t i) { return Eigen::Vector4d(b.pts.at(i)[0], i, 0, 0); }
  static Eigen::Matrix4d cov(const Bag& b, size_t i) { return b.pts.at(i)[1] * Eigen::Matrix4d::Identity(); }
  template <typename Result> static void knn_search(const Bag& b, const Eigen::Vector4d& q, Result& result) {
    if (b.dirty) g_finalized_early++;
    g_searched.push_back(&b);
    for (size_t i = 0; i < b.pts.size(); i++) result.push(i, (b.pts[i] - q).squaredNorm());
  }
};
} }
static void voxel_contents(Case& c) {
  vf::Rng& r = c.rng;
  const double leaf = r.pick({0.5, 1.0, 4.0}), inv = 1.0 / leaf;
  IncrementalVoxelMap<Bag> m(leaf);
  m.lru_horizon = 1000000; const int off = r.pick({1, 7, 27}); m.set_search_offsets(off);
  g_tag = m.voxel_setting.tag = 1 + r.u(1000);
  auto face = [&](const Eigen::Vector4d& p) { for (int d = 0; d < 3; d++) { const double f = p[d] * inv; if (std::abs(f - std::round(f)) < 1e-9) return true; } return false; };
  std::map<std::array<long, 3>, std::vector<Eigen::Vector4d>> want;
  c.describe("user voxel contents, leaf %g, %d offsets", leaf, off); c.sig(c.idx);
  for (int s = 0; s < 4; s++) {
    g_T = r.coin(0.3) ? Eigen::Isometry3d::Identity() : r.iso(1, 4);
    vf::Pts p; for (auto& x : vf::gen_scene(r, r.pick({0, 1, 50, 400}), 5.0, 0.05)) if (!face(Eigen::Vector4d(g_T * x))) p.push_back(x);
    PointCloud pc(p); g_points = &pc; g_adds.clear(); g_next_point = 0; g_bad_add = g_out_of_order = 0;
    if (g_T.matrix() == Eigen::Isometry3d::Identity().matrix()) m.insert(pc); else m.insert(pc, g_T);
    c.check(g_bad_add == 0, "add-arguments", "add() is called with another setting, cloud or transformation than those of the insertion");
    c.check(g_out_of_order == 0, "add-order", "points are not added in their order");
    if (!c.check(g_adds.size() == pc.size(), "add-once", "%zu points inserted, add() called %zu times", pc.size(), g_adds.size())) return;
    for (auto& a : g_adds) {
      const Eigen::Vector4d x = g_T * pc.point(a.i);
      c.check((a.pt - x).norm() <= 1e-9, "add-point", "add() is handed another transformed point");
      want[{(long)std::floor(a.pt[0] * inv), (long)std::floor(a.pt[1] * inv), (long)std::floor(a.pt[2] * inv)}].push_back(a.pt);
      c.count("adds");
    }
    // every voxel holds its own points in their order, and is finalized
    const auto idx = traits::point_indices(m); size_t total = 0; for (auto& w : want) total += w.second.size();
    if (!c.check(idx.size() == total, "stored", "%zu points in voxels, %zu were added", idx.size(), total)) return;
    for (auto i : idx) {
      const Eigen::Vector4d x = traits::point(m, i); const auto& w = want[{(long)std::floor(x[0] * inv), (long)std::floor(x[1] * inv), (long)std::floor(x[2] * inv)}];
      const size_t k = m.point_id(i);
      if (!c.check(k < w.size() && w[k] == x, "stored-point", "point %zu of a voxel is not the one that was added as such", k)) return;
      c.check(Eigen::Vector4d(traits::normal(m, i)) == Eigen::Vector4d(x[0], k, 0, 0) && Eigen::Matrix4d(traits::cov(m, i))(0, 0) == x[1], "attributes", "normals or covariances of voxel contents are taken from another point");
    }
    // searches
    for (int t = 0; t < 20 && !idx.empty(); t++) {
      const Eigen::Vector4d q = vf::P(Eigen::Vector3d(Eigen::Vector4d(traits::point(m, idx[r.u(idx.size())])).head<3>() + r.pick({0.2, 1.0}) * leaf * r.vec3(1)));
      if (face(q)) continue;
      const int k = r.pick({1, 2, 8}); std::vector<size_t> ki(k); std::vector<double> kd(k); g_searched.clear(); g_finalized_early = 0;
      const size_t n = k == 1 ? traits::nearest_neighbor_search(m, q, ki.data(), kd.data()) : traits::knn_search(m, q, k, ki.data(), kd.data());
      c.check(g_finalized_early == 0, "not-finalized", "a voxel is searched that was not finalized after its last point");
      std::set<const void*> once(g_searched.begin(), g_searched.end());
      c.check(once.size() == g_searched.size(), "searched-twice", "a voxel is searched more than once for a query");
      std::vector<double> all; size_t present = 0;
      const long cx = std::floor(q[0] * inv), cy = std::floor(q[1] * inv), cz = std::floor(q[2] * inv);
      for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) for (int dz = -1; dz <= 1; dz++) {
        if (std::abs(dx) + std::abs(dy) + std::abs(dz) > (off == 1 ? 0 : off == 7 ? 1 : 3)) continue;
        auto w = want.find({cx + dx, cy + dy, cz + dz}); if (w == want.end()) continue;
        present++; for (auto& x : w->second) all.push_back((x - q).squaredNorm());
      }
      std::sort(all.begin(), all.end());
      c.check(g_searched.size() <= present, "searched-voxels", "%zu voxels searched, %zu lie in the neighbourhood", g_searched.size(), present);
      if (!c.check(n == std::min<size_t>(k, all.size()), "search-count", "%zu found of %zu", n, all.size())) return;
      for (size_t j = 0; j < n; j++) c.check(kd[j] == all[j] && (Eigen::Vector4d(traits::point(m, ki[j])) - q).squaredNorm() == kd[j], "search-result", "neighbour %zu is not what the voxels pushed", j);
      c.count("voxel_searches"); c.nontrivial();
    }
  }
}

// ---- projections and border modes -------------------------------------------------------------------------------------
static std::atomic<long> g_axis_calls{0}, g_bad_axis{0}; static int g_scan = 0; static size_t g_npoints = 0;
struct LogProjection {
  double v[3];
  double operator()(const Eigen::Vector4d& p) const { return v[0] * p[0] + v[1] * p[1] + v[2] * p[2]; }
  template <typename PC, typename It> static LogProjection find_axis(const PC& points, It first, It last, const ProjectionSetting& s) {
    const long n = std::distance(first, last); uint64_t h = n;
    if (n <= 0 || (int)s.max_scan_count != g_scan) g_bad_axis++;
    for (auto i = first; i != last; ++i) { if ((size_t)*i >= g_npoints) g_bad_axis++; h ^= vf::mix64(*i + 1); }
    g_axis_calls++;
    Eigen::Vector3d d((double)(vf::mix64(h) % 2001) - 1000, (double)(vf::mix64(h + 1) % 2001) - 1000, (double)(vf::mix64(h + 2) % 2001) - 1000); if (d.norm() < 1) d[0] = 1; d.normalize();
    return LogProjection{{d[0], d[1], d[2]}};
  }
};
static void tree_projection(Case& c) {
  vf::Rng& r = c.rng;
  auto pc = std::make_shared<PointCloud>(vf::gen_scene(r, r.pick({1, 20, 21, 300, 3000}), 5.0, 0.05));
  g_axis_calls = g_bad_axis = 0; g_npoints = pc->size();
  KdTreeBuilder b; b.max_leaf_size = r.pick({1, 5, 20}); KdTreeBuilderOMP bo(r.pick({1, 4})); KdTreeBuilderTBB bt; bo.max_leaf_size = bt.max_leaf_size = b.max_leaf_size;
  g_scan = b.projection_setting.max_scan_count = bo.projection_setting.max_scan_count = bt.projection_setting.max_scan_count = r.pick({5, 128, 1000});
  const int how = r.u(3);
  c.describe("user projection, %zu points, leaf size %d, builder %d", pc->size(), b.max_leaf_size, how); c.sig(c.idx);
  typedef KdTree<PointCloud, LogProjection> Tree;
  std::unique_ptr<Tree> t(how == 0 ? new Tree(pc, b) : how == 1 ? new Tree(pc, bo) : new Tree(pc, bt));
  c.check(g_bad_axis == 0, "axis-arguments", "find_axis is called with an empty range, indices out of range or another setting");
  c.check(pc->size() <= (size_t)b.max_leaf_size ? g_axis_calls == 0 : g_axis_calls >= 1, "axis-calls", "find_axis is called %ld times for %zu points", (long)g_axis_calls, pc->size());
  c.check(g_axis_calls < (long)std::max<size_t>(pc->size(), 1), "axis-many", "find_axis is called %ld times for %zu points", (long)g_axis_calls, pc->size());
  for (int k = 0; k < 40; k++) {
    const Eigen::Vector4d q = vf::P(Eigen::Vector3d(6 * r.vec3(1))); const int n = r.pick({1, 7});
    std::vector<size_t> i(n); std::vector<double> d(n), all; for (auto& p : pc->points) all.push_back((p - q).squaredNorm());
    std::sort(all.begin(), all.end());
    const size_t f = n == 1 ? t->nearest_neighbor_search(q, i.data(), d.data()) : t->knn_search(q, n, i.data(), d.data());
    if (!c.check(f == std::min<size_t>(n, all.size()), "projection-count", "%zu found of %zu", f, all.size())) return;
    for (size_t j = 0; j < f; j++) c.check(vf::close(d[j], all[j], 1e-12, 0), "projection-search", "with a user's projection neighbour %zu is at %.12g instead of %.12g", j, d[j], all[j]);
    c.count("tree_searches"); c.nontrivial();
  }
}
static std::atomic<long> g_projected{0};
struct Floor { Eigen::Vector2d operator()(const Eigen::Vector3d& p) const { g_projected++; return Eigen::Vector2d(p[0] / 12 + 0.5, p[1] / 12 + 0.5); } };
struct HalfRepeat { int operator()(int x, int w) const { return x >= w ? x - w : x; } };   // (off the left: discarded)
template <typename BH, typename BV>
static void image(Case& c, const char* name) {
  vf::Rng& r = c.rng;
  auto pc = std::make_shared<PointCloud>(vf::gen_scene(r, r.pick({0, 1, 50, 800}), 5.0, 0.05));
  const int w = r.pick({30, 64, 101}), h = r.pick({16, 40, 77});
  ProjectiveSearch<PointCloud, Floor, BH, BV> s(w, h, pc);
  c.describe("user projection, border %s, %dx%d, %zu points", name, w, h, pc->size()); c.sig(c.idx);
  std::map<std::pair<int, int>, size_t> px;
  auto pixel = [&](const Eigen::Vector4d& p, int& u, int& v) { u = (int)((p[0] / 12 + 0.5) * w); v = (int)((p[1] / 12 + 0.5) * h); const double a = (p[0] / 12 + 0.5) * w, b = (p[1] / 12 + 0.5) * h; return std::abs(a - std::round(a)) > 1e-9 && std::abs(b - std::round(b)) > 1e-9; };
  for (size_t i = 0; i < pc->size(); i++) { int u, v; if (!pixel(pc->point(i), u, v)) return; if ((pc->point(i)[0] / 12 + 0.5) * w <= -1 || (pc->point(i)[1] / 12 + 0.5) * h <= -1) continue; if (u < 0 || v < 0 || u >= w || v >= h) continue; px[{u, v}] = i; }
  const int wh = 10, wv = 5;
  (void)wh; (void)wv;
  BH bh; BV bv;
  for (int t = 0; t < 40; t++) {
    const Eigen::Vector4d q = vf::P(Eigen::Vector3d(5.9 * r.vec3(1))); int u, v; if (!pixel(q, u, v)) continue;
    std::set<size_t> seen;
    for (int dv = -wv; dv <= wv; dv++) for (int du = -wh; du <= wh; du++) { const int x = bh(u + du, w), y = bv(v + dv, h); auto f = px.find({x, y}); if (f != px.end()) seen.insert(f->second); }
    std::vector<double> all; for (auto i : seen) all.push_back((pc->point(i) - q).squaredNorm()); std::sort(all.begin(), all.end());
    const int k = r.pick({1, 4}); std::vector<size_t> ki(k); std::vector<double> kd(k);
    const size_t n = k == 1 ? s.nearest_neighbor_search(q, ki.data(), kd.data()) : s.knn_search(q, k, ki.data(), kd.data());
    if (!c.check(n == std::min<size_t>(k, all.size()), "image-count", "%zu found, %zu in the window", n, all.size())) return;
    for (size_t j = 0; j < n; j++) c.check(vf::close(kd[j], all[j], 1e-12, 0), "image-search", "with a user's projection and border neighbour %zu is at %.12g instead of %.12g", j, kd[j], all[j]);
    c.count("image_searches"); if (n) c.nontrivial();
  }
}

// ---- feature setters and point types ----------------------------------------------------------------------------------
static std::vector<std::atomic<int>>*g_set = nullptr, *g_invalid = nullptr; static std::atomic<int> g_bad_set{0};
template <typename PC> struct CountSetter {
  static void set_invalid(PC& cloud, size_t i) { if (i >= g_invalid->size()) { g_bad_set++; return; } (*g_invalid)[i]++; }
  static void set(PC& cloud, size_t i, const Eigen::Matrix3d& v) { if (i >= g_set->size() || (v.transpose() * v - Eigen::Matrix3d::Identity()).norm() > 1e-6) { g_bad_set++; return; } (*g_set)[i]++; }
};
static void setters(Case& c) {
  vf::Rng& r = c.rng;
  PointCloud pc(vf::gen_scene(r, r.pick({1, 4, 5, 40, 300}), 5.0, 0.05)); const size_t n = pc.size();
  const int k = r.pick({3, 5, 12}), nt = r.pick({1, 3, 8}), how = r.u(6);
  c.describe("feature setter, %zu points, k=%d, way %d, %d threads", n, k, how, nt); c.sig(c.idx);
  std::vector<std::atomic<int>> a(n), b(n); for (auto& x : a) x = 0; for (auto& x : b) x = 0;
  g_set = &a; g_invalid = &b; g_bad_set = 0;
  UnsafeKdTree<PointCloud> tree(pc); typedef CountSetter<PointCloud> S;
  switch (how) {
    case 0: estimate_local_features<S>(pc, k); break;
    case 1: estimate_local_features<S>(pc, tree, k); break;
    case 2: estimate_local_features_omp<S>(pc, k, nt); break;
    case 3: estimate_local_features_omp<S>(pc, tree, k, nt); break;
    case 4: estimate_local_features_tbb<S>(pc, k); break;
    default: estimate_local_features_tbb<S>(pc, tree, k);
  }
  c.check(g_bad_set == 0, "setter-arguments", "a setter is called with an index out of range or eigenvectors that are no rotation");
  const bool enough = std::min<size_t>(k, n) >= 5;
  for (size_t i = 0; i < n; i++) { if (!c.check(a[i] == (enough ? 1 : 0) && b[i] == (enough ? 0 : 1), "setter-once", "point %zu with %zu neighbours: set() is called %d times, set_invalid() %d times", i, std::min<size_t>(k, n), (int)a[i], (int)b[i])) return; c.count("features_set"); }
  c.nontrivial();
}
static std::atomic<int> g_bad_cloud{0};
struct Strict {   // every access is checked
  std::vector<Eigen::Vector4d> p; std::vector<int> set;
};
namespace small_gicp { namespace traits {
template <> struct Traits<Strict> {
  static size_t size(const Strict& s) { return s.p.size(); }
  static bool has_points(const Strict&) { return true; }
  static Eigen::Vector4d point(const Strict& s, size_t i) { if (i >= s.p.size()) { g_bad_cloud++; return Eigen::Vector4d::UnitW(); } return s.p[i]; }
  static void resize(Strict& s, size_t n) { s.p.resize(n, Eigen::Vector4d::Constant(std::numeric_limits<double>::quiet_NaN())); s.set.resize(n, 0); }
  static void set_point(Strict& s, size_t i, const Eigen::Vector4d& x) { if (i >= s.p.size()) { g_bad_cloud++; return; } s.p[i] = x; __atomic_fetch_add(&s.set[i], 1, __ATOMIC_RELAXED); }
};
} }
static void point_types(Case& c) {
  vf::Rng& r = c.rng;
  Strict in; in.p = vf::gen_scene(r, r.pick({0, 1, 100, 1025, 5000}), 5.0, 0.05); in.set.resize(in.p.size());
  const double leaf = r.pick({0.05, 0.5, 3.0}); const int how = r.u(4), nt = r.pick({1, 3, 8});
  c.describe("point type, %zu points, leaf %g, way %d", in.p.size(), leaf, how); c.sig(c.idx);
  g_bad_cloud = 0; std::mt19937 gen((unsigned)r.next());
  std::shared_ptr<Strict> o = how == 0 ? voxelgrid_sampling<Strict, Strict>(in, leaf) : how == 1 ? voxelgrid_sampling_omp<Strict, Strict>(in, leaf, nt) : how == 2 ? voxelgrid_sampling_tbb<Strict, Strict>(in, leaf) : random_sampling<Strict, Strict>(in, in.p.size() / 2, gen);
  c.check(g_bad_cloud == 0, "cloud-index", "a point type is asked for an index out of range (%d times)", (int)g_bad_cloud);
  for (size_t i = 0; i < o->p.size(); i++) { if (!c.check(o->set[i] >= 1 && o->p[i].allFinite() && std::abs(o->p[i][3] - 1) < 1e-12, "set", "output point %zu of %zu is set %d times, w=%g", i, o->p.size(), o->set[i], o->p[i][3])) return; c.count("points_set"); }
  if (o->p.size()) c.nontrivial();
}

int main(int argc, char** argv) {
  return vf::main_loop(argc, argv, [](Case& c) {
    typedef GaussNewtonOptimizer GN; typedef LevenbergMarquardtOptimizer LM;
    ParallelReductionOMP omp; omp.num_threads = c.rng.pick({1, 2, 4, 7});
    switch (c.idx % 20) {
      case 0: alignment<LogFactor<GICPFactor>, LM, SerialReduction, NearestOnly>(c, {}, "GICP LM serial", false); break;
      case 1: alignment<LogFactor<ICPFactor>, GN, SerialReduction, KnnOnly>(c, {}, "ICP GN serial", false); break;
      case 2: alignment<LogFactor<PointToPlaneICPFactor>, LM, SerialReduction, KnnOnly>(c, {}, "plane LM serial", false); break;
      case 3: alignment<LogFactor<GICPFactor>, LM, ParallelReductionOMP, NearestOnly>(c, omp, "GICP LM OpenMP", false); break;
      case 4: alignment<LogFactor<PointToPlaneICPFactor>, GN, ParallelReductionOMP, KnnOnly>(c, omp, "plane GN OpenMP", false); break;
      case 5: alignment<LogFactor<GICPFactor>, LM, ParallelReductionTBB, KnnOnly>(c, {}, "GICP LM TBB", false); break;
      case 6: alignment<LogFactor<ICPFactor>, GN, ParallelReductionTBB, NearestOnly>(c, {}, "ICP GN TBB", false); break;
      case 7: alignment<RobustFactor<LogKernel, LogFactor<GICPFactor>>, LM, SerialReduction, NearestOnly>(c, {}, "robust GICP LM serial", true); break;
      case 8: alignment<RobustFactor<LogKernel, LogFactor<ICPFactor>>, GN, ParallelReductionOMP, NearestOnly>(c, omp, "robust ICP GN OpenMP", true); break;
      case 9: alignment<LogFactor<ICPFactor>, LM, ParallelReductionOMP, NearestOnly>(c, omp, "ICP LM OpenMP", false); break;
      case 10: user_optimizer(c); break;
      case 11: case 12: voxel_contents(c); break;
      case 13: case 14: tree_projection(c); break;
      case 15: image<BorderRepeat, BorderClamp>(c, "repeat/clamp"); break;
      case 16: if (c.rng.coin()) image<BorderClamp, BorderRepeat>(c, "clamp/repeat"); else image<HalfRepeat, HalfRepeat>(c, "half repeat"); break;
      case 17: case 18: setters(c); break;
      default: point_types(c);
    }
  });
}
