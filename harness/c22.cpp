// C22: the Python interface against the native operations, driven through an embedded interpreter.
#include "reg.hpp"
#include <pybind11/embed.h>
#include <pybind11/stl.h>
#include <pybind11/numpy.h>
#include <pybind11/eigen.h>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/points/eigen.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/registration/registration_helper.hpp>
namespace py = pybind11;
using namespace reg;
using vf::Case;
extern "C" PyObject* PyInit_small_gicp();
using MatX = Eigen::MatrixXd;
using Tree = KdTree<PointCloud>;
static py::module_ sg, np, gc, bi;

// ---- arguments --------------------------------------------------------------------------------------------------
static bool single;  // whether this case's coordinates are representable in single precision
// An array in one of the layouts NumPy users produce.  w: fill of the fourth column (intensity in many datasets).
static py::object arr(Case& c, const vf::Pts& p, bool four_ok = true) {
  vf::Rng& r = c.rng;
  const int cols = four_ok && r.coin(0.4) ? 4 : 3;
  const int how = r.u(9);
  py::array_t<double> a({(py::ssize_t)p.size(), (py::ssize_t)cols});
  auto m = a.mutable_unchecked<2>();
  const bool inten = r.coin();
  if (cols == 4) c.count(inten ? "arrays_n4_intensity" : "arrays_n4");
  for (size_t i = 0; i < p.size(); i++) for (int k = 0; k < cols; k++) m(i, k) = k < 3 ? p[i][k] : inten ? 0.25 * (double)(i % 7) : 1.0;
  py::object o = a;
  py::object slice_all = py::slice(py::none(), py::none(), py::none());
  switch (how) {
    case 1: o = np.attr("asfortranarray")(a); c.count("arrays_fortran"); break;
    case 2: { py::object big = np.attr("zeros")(py::make_tuple(p.size(), 2 * cols + 1)); py::object key = py::make_tuple(slice_all, py::slice(1, 2 * cols + 1, 2)); big.attr("__setitem__")(key, a); o = big.attr("__getitem__")(key); c.count("arrays_strided_columns"); break; }
    case 3: { py::object big = np.attr("zeros")(py::make_tuple(3 * p.size(), cols)); py::object key = py::make_tuple(py::slice(py::none(), py::none(), py::int_(3)), slice_all); big.attr("__setitem__")(key, a); o = big.attr("__getitem__")(key); c.count("arrays_strided_rows"); break; }
    case 4: { py::object rev = np.attr("ascontiguousarray")(a.attr("__getitem__")(py::slice(py::none(), py::none(), py::int_(-1)))); o = rev.attr("__getitem__")(py::slice(py::none(), py::none(), py::int_(-1))); c.count("arrays_reversed"); break; }
    case 5: if (!single) break; o = a.attr("astype")("float32"); c.count("arrays_float32"); break;
    case 6: o = np.attr("ascontiguousarray")(a.attr("T")).attr("T"); c.count("arrays_transposed"); break;
    case 7: o = a.attr("astype")(">f8"); c.count("arrays_big_endian"); break;
    default: c.count("arrays_plain");
  }
  return o;
}
static vf::Pts f32(vf::Pts p) { if (single) for (auto& v : p) for (int k = 0; k < 3; k++) v[k] = (double)(float)v[k]; return p; }
static PointCloud::Ptr native(const vf::Pts& p) {
  auto pc = std::make_shared<PointCloud>(p);
  for (size_t i = 0; i < p.size(); i++) { pc->normal(i).setZero(); pc->cov(i).setZero(); }  // as read back only after estimation
  return pc;
}
// Calls f with every argument randomly by position or by name, leaving out those whose value is the documented default.
struct Arg { const char* name; py::object value; bool is_default; };
static py::object call(Case& c, const char* fn, std::vector<Arg> args, py::object self = py::object()) {
  vf::Rng& r = c.rng;
  py::list pos; py::dict kw;
  size_t npos = r.u(args.size() + 1);
  bool positional = true;
  std::vector<size_t> rest;
  for (size_t i = 0; i < args.size(); i++) {
    if (positional && i < npos) { pos.append(args[i].value); continue; }
    positional = false; rest.push_back(i);
  }
  for (size_t i = rest.size(); i > 1; i--) std::swap(rest[i - 1], rest[r.u(i)]);
  for (size_t i : rest) {
    if (args[i].is_default && r.coin(0.7)) { c.count("omitted_arguments"); continue; }
    kw[args[i].name] = args[i].value; c.count("keyword_arguments");
  }
  c.count("python_calls");
  Quiet q;
  return (self ? self.attr(fn) : sg.attr(fn))(*pos, **kw);
}
#define A(name, v, dflt) Arg{name, py::cast(v), (v) == (dflt)}
#define AR(name, v) Arg{name, v, false}

static MatX mat(const py::handle& o) { return py::cast<MatX>(o); }
template <typename V> static MatX rows(const V& v) { MatX m(v.size(), v.empty() ? 4 : v[0].size()); for (size_t i = 0; i < v.size(); i++) m.row(i) = Eigen::Map<const Eigen::RowVectorXd>(v[i].data(), v[i].size()); return m; }
static bool eq(const MatX& a, const MatX& b, double tol = 0) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (Eigen::Index i = 0; i < a.size(); i++) { const double x = a.data()[i], y = b.data()[i]; if (!(x == y || (std::isnan(x) && std::isnan(y)) || std::abs(x - y) <= tol * (1 + std::abs(y)))) return false; }
  return true;
}
static bool same(const py::object& a, const py::object& b) { return a.equal(b); }
static bool unfound(const py::handle& i) { return i.equal(py::int_(-1)) || i.equal(py::int_(std::numeric_limits<size_t>::max())); }

static void team(Case& c, const char* what, int nt, bool parallel) {
  if (!chaos_take_max_team) return;
  const int m = (int)chaos_take_max_team();
  if (!parallel) return;
  c.count("thread_counts_checked");
  c.check(m <= nt, std::string("too-many-threads-") + what, "%s: used a team of %d threads with num_threads=%d", what, m, nt);
  c.check(nt == 1 || m == nt, std::string("threads-ignored-") + what, "%s: largest team is %d threads with num_threads=%d", what, m, nt);
}
static void team_reset() { if (chaos_take_max_team) chaos_take_max_team(); }

static void same_cloud(Case& c, const char* what, const py::object& o, const PointCloud& n, bool normals, bool covs, double tol = 0) {
  if (!c.check(!o.is_none(), std::string(what) + "-none", "%s returned None", what)) return;
  if (!c.check(py::cast<size_t>(o.attr("size")()) == n.size() && py::len(o) == n.size() && py::cast<bool>(o.attr("empty")()) == n.empty(), std::string(what) + "-size", "%s: %zu points, native %zu", what, py::cast<size_t>(o.attr("size")()), n.size())) return;
  c.check(eq(mat(o.attr("points")()), n.empty() ? MatX(0, 4) : rows(n.points), tol), std::string(what) + "-points", "%s: points differ from the native result", what);
  if (normals) c.check(eq(mat(o.attr("normals")()), n.empty() ? MatX(0, 4) : rows(n.normals), tol), std::string(what) + "-normals", "%s: normals differ from the native result", what);
  const py::list cv = o.attr("covs")();
  c.check(py::len(cv) == n.size(), std::string(what) + "-covs-size", "%s: %zu covariances for %zu points", what, py::len(cv), n.size());
  for (int t = 0; t < 4 && n.size(); t++) {
    const size_t i = c.rng.u(n.size());
    c.check(eq(py::cast<Eigen::Vector4d>(o.attr("point")(i)), n.point(i), tol), std::string(what) + "-point(i)", "%s: point(%zu) differs", what, i);
    if (normals) c.check(eq(py::cast<Eigen::Vector4d>(o.attr("normal")(py::arg("i") = i)), n.normal(i), tol), std::string(what) + "-normal(i)", "%s: normal(%zu) differs", what, i);
    if (covs) { c.check(eq(py::cast<Eigen::Matrix4d>(o.attr("cov")(i)), n.cov(i), tol), std::string(what) + "-cov(i)", "%s: cov(%zu) differs", what, i); c.check(eq(py::cast<Eigen::Matrix4d>(cv[i]), n.cov(i), tol), std::string(what) + "-covs", "%s: covs()[%zu] differs", what, i); }
  }
  c.count("clouds_compared");
}
// A call with unusable arguments: raising, or returning None, is right; so is any value when the arguments turn out to be usable.
template <typename F> static bool raises(Case& c, F&& f) {
  Quiet q;
  try { f(); } catch (py::error_already_set& e) {
    c.count("calls_that_raised");
    return true;
  } catch (const py::builtin_exception&) { c.count("calls_that_raised"); return true; }
  return false;
}
template <typename F> static void must_raise(Case& c, const char* what, F&& f) { c.check(raises(c, f), std::string("no-error-") + what, "%s: accepted without an error", what); }

// ---- sections ---------------------------------------------------------------------------------------------------
static void clouds(Case& c, const vf::Pts& p) {
  vf::Rng& r = c.rng;
  py::object a = arr(c, p), o = call(c, "PointCloud", {AR("points", a)});
  const auto n = native(p);
  same_cloud(c, "PointCloud", o, *n, false, false);
  // arrays handed out do not depend on the cloud's lifetime, and changing them does not change the cloud
  py::object P = o.attr("points")();
  const MatX before = mat(P);
  if (p.size()) { py::object P2 = o.attr("points")(); raises(c, [&] { P2.attr("fill")(7.0); }); c.check(eq(mat(o.attr("points")()), before), "array-aliases-cloud", "writing to the array returned by points() changed the cloud"); }
  // changing the source array later does not change the cloud either
  raises(c, [&] { a.attr("fill")(9.0); });
  c.check(eq(mat(o.attr("points")()), before), "cloud-aliases-array", "writing to the array the cloud was constructed from changed the cloud");
  // indices
  const py::int_ far(r.pick({(int64_t)p.size(), (int64_t)p.size() + 1, (int64_t)1 << 20, (int64_t)1 << 40, (int64_t)-1, (int64_t)-5}));
  const char* acc = r.pick({"point", "normal", "cov"});
  must_raise(c, acc, [&] { o.attr(acc)(far); });
  c.count("bad_indices");
  py::object nn = o.attr("normals")(); o = py::object(); gc.attr("collect")();
  c.check(eq(mat(P), before), "array-after-free", "the array returned by points() changed when the cloud was released");
  (void)nn;
}

static void trees(Case& c, const vf::Pts& p) {
  vf::Rng& r = c.rng;
  const int nt = r.pick({1, 1, 2, 4});
  py::object o, cloud;
  if (r.coin()) { py::object a = arr(c, p); o = call(c, "KdTree", {AR("points", a), A("num_threads", nt, 1)}); c.count("trees_from_arrays"); }
  else { py::object a = arr(c, p); cloud = call(c, "PointCloud", {AR("points", a)}); o = call(c, "KdTree", {AR("points", cloud), A("num_threads", nt, 1)}); cloud = py::object(); gc.attr("collect")(); c.count("trees_from_clouds"); }
  const auto n = native(p);
  const int M = r.range(0, 25);
  vf::Pts q;
  for (int i = 0; i < M; i++) q.push_back(vf::P(Eigen::Vector3d(p.empty() || r.coin(0.2) ? r.vec3(20) : Eigen::Vector3d(p[r.u(p.size())].head<3>() + r.pick({0.0, 0.1, 1.0}) * r.vec3(1)))));
  q = f32(q);
  const int k = r.pick({1, 2, 3, 10, (int)p.size() + 1, (int)p.size() + 3, 40});
  const int bt = r.pick({1, 2, 3, 8});
  py::object qa = arr(c, q), qb = arr(c, q);
  py::tuple b1, bk;
  team_reset();
  b1 = call(c, "batch_nearest_neighbor_search", {AR("pts", qa), A("num_threads", bt, 1)}, o);
  team(c, "batch_nearest_neighbor_search", bt, M > 0);
  bk = call(c, "batch_knn_search", {AR("pts", qb), A("k", k, -1), A("num_threads", bt, 1)}, o);
  team(c, "batch_knn_search", bt, M > 0);
  py::list b1i(b1[0]), b1d(b1[1]);
  py::object bki = bk[0], bkd = bk[1];
  c.check(py::len(b1i) == (size_t)M && py::len(b1d) == (size_t)M, "batch-nn-size", "batch_nearest_neighbor_search returned %zu entries for %d queries", py::len(b1i), M);
  const auto shape = py::cast<std::vector<py::ssize_t>>(np.attr("shape")(bki)), shape2 = py::cast<std::vector<py::ssize_t>>(np.attr("shape")(bkd));
  if (!c.check(shape == shape2 && shape.size() == 2 && shape[0] == M && shape[1] == k, "batch-knn-shape", "batch_knn_search(k=%d) of %d queries returned another shape", k, M)) return;
  const py::list bkil = bki.attr("tolist")(), bkdl = bkd.attr("tolist")();
  for (int i = 0; i < M; i++) {
    std::vector<double> d; for (auto& x : p) d.push_back((x - q[i]).squaredNorm());
    const auto dist = d; std::sort(d.begin(), d.end());
    const Eigen::Vector3d q3 = q[i].head<3>();
    py::object qo = py::cast(q3);
    const py::tuple s1 = call(c, "nearest_neighbor_search", {AR("pt", qo)}, o), sk = call(c, "knn_search", {AR("pt", qo), A("k", k, -1)}, o);
    const bool found = py::cast<size_t>(s1[0]) != 0;
    c.check(found == !p.empty(), "nn-found", "nearest_neighbor_search found=%d for %zu points", (int)found, p.size());
    if (p.empty()) {
      c.check(unfound(s1[1]), "nn-unfound-mark", "nearest_neighbor_search: index not marked when nothing was found"); c.check(unfound(b1i[i]), "batch-nn-unfound-mark", "batch search: index not marked when nothing was found");
      c.count("unfound_marked");
    } else {
      c.check(vf::close(py::cast<double>(s1[2]), d[0], 1e-9, 1e-12), "nn-distance", "nearest_neighbor_search: %.12g, brute force %.12g", py::cast<double>(s1[2]), d[0]);
      const size_t idx = unfound(s1[1]) ? p.size() : py::cast<size_t>(s1[1]);
      if (c.check(idx < p.size(), "nn-index", "nearest_neighbor_search: no valid index (%s)", std::string(py::str((py::object)s1)).c_str())) c.check(vf::close(dist[idx], d[0], 1e-9, 1e-12), "nn-index", "nearest_neighbor_search: index is not the nearest point's");
    }
    c.check(same(b1i[i], s1[1]) && same(b1d[i], s1[2]), "batch-nn-differs", "batch_nearest_neighbor_search(num_threads=%d)[%d] differs from the single search", bt, i);
    const py::list ki(sk[0]), kd(sk[1]), bi_(bkil[i]), bd_(bkdl[i]);
    if (!c.check(py::len(ki) == (size_t)k && py::len(kd) == (size_t)k, "knn-size", "knn_search(k=%d) returned %zu entries", k, py::len(ki))) break;
    for (int j = 0; j < k; j++) {
      c.check(same(ki[j], bi_[j]) && same(kd[j], bd_[j]), "batch-knn-differs", "batch_knn_search(num_threads=%d)[%d,%d] differs from the single search", bt, i, j);
      if (j < (int)d.size()) {
        const size_t idx = unfound(ki[j]) ? p.size() : py::cast<size_t>(ki[j]);
        const double dj = py::cast<double>(kd[j]);
        if (c.check(idx < p.size(), "knn-index", "knn_search: entry %d of %d missing although there are %zu points", j, k, p.size())) c.check(vf::close(dj, d[j], 1e-9, 1e-12) && vf::close(dist[idx], dj, 1e-9, 1e-12), "knn-distance", "knn_search: entry %d is %.12g, brute force %.12g", j, dj, d[j]);
      } else { c.check(unfound(ki[j]), "knn-unfound-mark", "knn_search: entry %d not marked as unfound with %zu points", j, p.size()); c.count("unfound_marked"); }
    }
    c.count("searches_compared");
  }
}

static void downsample(Case& c, const vf::Pts& p) {
  vf::Rng& r = c.rng;
  const double leaf = r.pick({0.1, 0.25, 1.0, 4.0});
  const int nt = r.pick({1, 1, 2, 5});
  py::object a = arr(c, p);
  const bool from_array = r.coin();
  if (!from_array) a = call(c, "PointCloud", {AR("points", a)});
  team_reset();
  py::object o = call(c, "voxelgrid_sampling", {AR("points", a), A("downsampling_resolution", leaf, -1.0), A("num_threads", nt, 1)});
  team(c, "voxelgrid_sampling", nt, p.size() > 100);
  auto ref = voxelgrid_sampling(*native(p), leaf);
  if (nt == 1) { same_cloud(c, "voxelgrid_sampling", o, *ref, false, false, 1e-12); c.count(from_array ? "downsampled_arrays" : "downsampled_clouds"); return; }
  if (!c.check(!o.is_none(), "voxelgrid_sampling-none", "returned None")) return;
  const size_t m = py::cast<size_t>(o.attr("size")());
  c.check(m >= ref->size() && m <= ref->size() + p.size() / 100 + 1, "voxelgrid_sampling-mt-size", "voxelgrid_sampling(num_threads=%d): %zu points, native serial %zu", nt, m, ref->size());
  if (m != ref->size()) return;
  auto lex = [](const Eigen::VectorXd& x, const Eigen::VectorXd& y) { for (int k = 0; k < 3; k++) if (std::abs(x[k] - y[k]) > 1e-9) return x[k] < y[k]; return false; };
  std::vector<Eigen::VectorXd> x, y; const MatX got = mat(o.attr("points")());
  for (size_t i = 0; i < m; i++) { x.push_back(got.row(i)); y.push_back(ref->point(i)); }
  std::sort(x.begin(), x.end(), lex); std::sort(y.begin(), y.end(), lex);
  for (size_t i = 0; i < m; i++) if (!c.check((x[i] - y[i]).norm() <= 1e-9, "voxelgrid_sampling-mt", "voxelgrid_sampling(num_threads=%d) differs from the native result", nt)) break;
  c.count("downsampled_parallel");
}

static bool feature_close(const PointCloud& a, const PointCloud& b, size_t i, double tol) { return (a.cov(i) - b.cov(i)).norm() <= tol && (a.normal(i) - b.normal(i)).norm() <= tol; }

static void features(Case& c, const vf::Pts& p) {
  vf::Rng& r = c.rng;
  py::object a = arr(c, p);
  py::object o = call(c, "PointCloud", {AR("points", a)});
  auto n = native(p);
  auto t = std::make_shared<Tree>(n);
  // neighbourhoods and directions that rounding decides are not compared: the same on perturbed points tells
  auto w = std::make_shared<PointCloud>(*n); for (size_t i = 0; i < p.size(); i++) w->point(i).head<3>() += 1e-12 * r.vec3(1);
  auto wt = std::make_shared<Tree>(w);
  { Quiet q; sg.attr("estimate_normals_covariances")(o, py::none(), 7, 1); estimate_normals_covariances(*n, *t, 7); estimate_normals_covariances(*w, *wt, 7); }
  for (int step = 0; step < 3; step++) {
    const int k = r.pick({5, 8, 10, 20, 20, 3, (int)p.size() + 2}), nt = r.pick({1, 1, 2, 6});
    const int which = r.u(3);
    py::object tree = py::none(); const bool own = r.coin();
    if (own) { Quiet q; tree = sg.attr("KdTree")(o, 1); }
    team_reset();
    py::object ret = call(c, which == 0 ? "estimate_normals" : which == 1 ? "estimate_covariances" : "estimate_normals_covariances", {AR("points", o), Arg{"tree", tree, !own}, A("num_neighbors", k, 20), A("num_threads", nt, 1)});
    team(c, "estimate", nt, p.size() > 50);
    Quiet q;
    for (auto [x, y] : {std::make_pair(n, t), std::make_pair(w, wt)}) { if (which == 0) estimate_normals(*x, *y, k); else if (which == 1) estimate_covariances(*x, *y, k); else estimate_normals_covariances(*x, *y, k); }
    c.count(which == 0 ? "normals_estimated" : which == 1 ? "covariances_estimated" : "both_estimated");
    if (own) c.count("estimated_with_tree"); else c.count("estimated_without_tree");
    gc.attr("collect")();
  }
    const MatX N = mat(o.attr("normals")()); const py::list C = o.attr("covs")();
  if (!c.check((size_t)N.rows() == p.size() && py::len(C) == p.size(), "feature-size", "attribute counts")) return;
  size_t bad = 0; std::string first;
  for (size_t i = 0; i < p.size(); i++) {
    const Eigen::Matrix4d C1 = py::cast<Eigen::Matrix4d>(C[i]);
    if (std::min((N.row(i).transpose() - n->normal(i)).norm(), 10.0) <= 1e-6 && (C1 - n->cov(i)).norm() <= 1e-6) continue;
    if (!feature_close(*n, *w, i, 1e-7)) { c.count("rounding_sensitive_features"); continue; }
    bad++; if (first.empty()) first = "point " + std::to_string(i);
  }
  c.check(bad == 0, "features-differ", "%zu of %zu points have other normals/covariances than native (%s)", bad, p.size(), first.c_str());
  c.count("feature_clouds_compared");
}

static void preprocess(Case& c, const vf::Pts& p) {
  vf::Rng& r = c.rng;
  const double leaf = r.pick({0.05, 0.25, 0.25, 0.7});
  const int k = r.pick({5, 10, 10, 15}), nt = r.pick({1, 1, 2, 4});
  py::object a = arr(c, p);
  const bool from_cloud = r.coin();
  if (from_cloud) a = call(c, "PointCloud", {AR("points", a)});
  team_reset();
  py::tuple o = call(c, "preprocess_points", {AR("points", a), A("downsampling_resolution", leaf, 0.25), A("num_neighbors", k, 10), A("num_threads", nt, 1)});
  team(c, "preprocess_points", nt, p.size() > 100);
  a = py::object();
  if (p.empty()) { c.count("preprocessed_empty"); c.check(o[0].is_none() || py::len(o[0]) == 0, "preprocess-empty", "preprocess_points of an empty cloud returned points"); return; }
  if (!c.check(!o[0].is_none() && !o[1].is_none(), "preprocess-none", "preprocess_points returned None")) return;
  const MatX P = mat(o[0].attr("points")());
  auto ref = voxelgrid_sampling(*native(p), leaf);
  if (!c.check((size_t)P.rows() == ref->size() || (nt > 1 && (size_t)P.rows() > ref->size() && (size_t)P.rows() <= ref->size() + p.size() / 100 + 1) || (p.size() > 128 && (size_t)P.rows() > ref->size() && (size_t)P.rows() <= ref->size() + p.size() / 100 + 1), "preprocess-size", "preprocess_points: %zu points, native %zu", (size_t)P.rows(), ref->size())) return;
  if ((size_t)P.rows() != ref->size()) return;
  // each returned point and its features against a native estimation on the returned points
  auto n = std::make_shared<PointCloud>(); n->resize(P.rows());
  for (Eigen::Index i = 0; i < P.rows(); i++) n->point(i) = P.row(i);
  Tree t(n); { Quiet q; estimate_normals_covariances(*n, t, k); }
  auto n2 = std::make_shared<PointCloud>(*n); for (size_t i = 0; i < n2->size(); i++) n2->point(i).head<3>() += 1e-12 * r.vec3(1);
  Tree t2(n2); { Quiet q; estimate_normals_covariances(*n2, t2, k); }
  const MatX N = mat(o[0].attr("normals")()); const py::list C = o[0].attr("covs")();
  size_t bad = 0;
  for (size_t i = 0; i < n->size(); i++) if (feature_close(*n, *n2, i, 1e-7) && !((N.row(i).transpose() - n->normal(i)).norm() <= 1e-6 && (py::cast<Eigen::Matrix4d>(C[i]) - n->cov(i)).norm() <= 1e-6)) bad++;
  c.check(bad == 0, "preprocess-features", "preprocess_points(num_neighbors=%d): %zu of %zu features differ from native", k, bad, n->size());
  auto lex = [](const Eigen::VectorXd& x, const Eigen::VectorXd& y) { for (int k = 0; k < 3; k++) if (std::abs(x[k] - y[k]) > 1e-9) return x[k] < y[k]; return false; };
  std::vector<Eigen::VectorXd> x, y;
  for (size_t i = 0; i < ref->size(); i++) { x.push_back(P.row(i)); y.push_back(ref->point(i)); }
  std::sort(x.begin(), x.end(), lex); std::sort(y.begin(), y.end(), lex);
  for (size_t i = 0; i < x.size(); i++) if (!c.check((x[i] - y[i]).norm() <= 1e-9, "preprocess-points", "preprocess_points(downsampling_resolution=%g): points differ from native", leaf)) break;
  // the tree belongs to the returned cloud and outlives it
  py::object tree = o[1]; o = py::tuple(); gc.attr("collect")();
  for (int i = 0; i < 4 && n->size(); i++) {
    const size_t j = r.u(n->size());
    const py::tuple s = tree.attr("nearest_neighbor_search")(Eigen::Vector3d(n->point(j).head<3>()));
    c.check(py::cast<size_t>(s[0]) == 1 && py::cast<double>(s[2]) <= 1e-18, "preprocess-tree", "the returned tree does not find a point of the returned cloud");
  }
  c.count(from_cloud ? "preprocessed_clouds" : "preprocessed_arrays");
}

template <typename VM, bool NRM, bool COV>
static void voxelmap(Case& c, const char* cls, const vf::Pts& p) {
  vf::Rng& r = c.rng;
  const double leaf = r.pick({0.3, 1.0, 2.5});
  py::object o = call(c, cls, {A("leaf_size", leaf, -1.0)});
  VM n(leaf);
  Quiet q;
  c.check(eq(mat(o.attr("voxel_points")()), MatX(0, 4)), "empty-voxelmap", "voxel_points() of an empty map is not empty");
  const int steps = r.range(1, 6);
  for (int s = 0; s < steps; s++) {
    if (r.coin(0.3)) {
      const size_t h = r.pick({(size_t)1, (size_t)2, (size_t)100}), cy = r.pick({(size_t)1, (size_t)2, (size_t)10});
      call(c, "set_lru", {A("horizon", h, (size_t)100), A("clear_cycle", cy, (size_t)10)}, o);
      n.lru_horizon = h; n.lru_clear_cycle = cy; c.count("set_lru_calls");
    }
    vf::Pts part; const double keep = r.pick({0.0, 0.2, 1.0}); for (auto& x : p) if (r.coin(keep)) part.push_back(x);
    py::object a = sg.attr("PointCloud")(arr(c, part));
    auto pc = native(part);
    Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
    const bool hasT = r.coin(); if (hasT) { T = r.coin(0.3) ? r.iso(r.logreal(1e-9, 1e-2), r.logreal(1e-9, 1e-2)) : r.iso(M_PI, 10.0); }
    // covariances and normals estimated on both sides
    sg.attr("estimate_normals_covariances")(a, py::none(), 6, 1);
    { const MatX N = mat(a.attr("normals")()); const py::list C = a.attr("covs")(); for (size_t i = 0; i < part.size(); i++) { pc->normal(i) = N.row(i); pc->cov(i) = py::cast<Eigen::Matrix4d>(C[i]); } }
    const Eigen::Matrix4d M = T.matrix();
    call(c, "insert", {AR("points", a), Arg{"T", py::cast(M), !hasT}}, o);
    n.insert(*pc, Eigen::Isometry3d(M));
    c.check(py::cast<size_t>(o.attr("size")()) == traits::size(n) && py::len(o) == traits::size(n), "voxelmap-size", "%s: %zu voxels, native %zu", cls, py::cast<size_t>(o.attr("size")()), (size_t)traits::size(n));
    const auto vp = traits::voxel_points(n);
    c.check(eq(mat(o.attr("voxel_points")()), vp.empty() ? MatX(0, 4) : rows(vp), 1e-12), "voxel-points", "%s: voxel_points differ from the native map", cls);
    if constexpr (NRM) { const auto v = traits::voxel_normals(n); c.check(eq(mat(o.attr("voxel_normals")()), v.empty() ? MatX(0, 4) : rows(v), 1e-12), "voxel-normals", "%s: voxel_normals differ from the native map", cls); }
    if constexpr (COV) {
      const auto v = traits::voxel_covs(n);
      MatX got = mat(np.attr("asarray")(o.attr("voxel_covs")()).attr("reshape")(-1, 16)), want = v.empty() ? MatX(0, 16) : rows(v);
      // (row- or column-major flattening is the same for symmetric matrices up to rounding)
      c.check(eq(got, want, 1e-9), "voxel-covs", "%s: voxel_covs differ from the native map", cls);
    }
    c.count("voxelmap_insertions");
  }
  (void)py::repr(o); c.count(std::string("class_") + cls);
}

struct Routes { double corr, re, te; int iters, nt; Eigen::Matrix4d T; bool verbose; };
static Routes routes(vf::Rng& r) {
  Routes o; o.corr = r.pick({0.2, 0.5, 1.0, 1.0, 3.0}); o.re = r.pick({1e-5, 0.1 * M_PI / 180.0, 0.1 * M_PI / 180.0, 0.05, 5.0}); o.te = r.pick({1e-5, 1e-3, 1e-3, 0.1, 10.0}); o.iters = r.pick({1, 2, 3, 5, 20, 20, 40});
  o.nt = r.pick({1, 1, 2, 4}); o.T = r.coin(0.3) ? Eigen::Matrix4d::Identity() : Eigen::Matrix4d(r.iso(0.1, 0.3).matrix()); o.verbose = r.coin(0.1); return o;
}
static void add(std::vector<Arg>& v, const Routes& o) {
  v.push_back(A("max_correspondence_distance", o.corr, 1.0)); v.push_back(A("num_threads", o.nt, 1)); v.push_back(A("max_iterations", o.iters, 20));
  v.push_back(A("rotation_epsilon", o.re, 0.1 * M_PI / 180.0)); v.push_back(A("translation_epsilon", o.te, 1e-3)); v.push_back(A("verbose", o.verbose, false));
}
static RegistrationSetting setting(const Routes& o) { RegistrationSetting s; s.max_correspondence_distance = o.corr; s.num_threads = 1; s.max_iterations = o.iters; s.rotation_eps = o.re; s.translation_eps = o.te; return s; }

static void same_result(Case& c, const std::string& what, py::object o, const RegistrationResult& n, double tol) {
  const Eigen::Matrix4d T = py::cast<Eigen::Matrix4d>(o.attr("T_target_source"));
  c.check((T - n.T_target_source.matrix()).norm() <= tol, what + "-pose", "%s: pose differs from the native result by %.3g", what.c_str(), (T - n.T_target_source.matrix()).norm());
  c.check(py::cast<bool>(o.attr("converged")) == n.converged, what + "-converged", "%s: converged differs", what.c_str());
  c.check(py::cast<size_t>(o.attr("iterations")) == (size_t)n.iterations, what + "-iterations", "%s: %zu iterations, native %zu", what.c_str(), py::cast<size_t>(o.attr("iterations")), (size_t)n.iterations);
  c.check(py::cast<size_t>(o.attr("num_inliers")) == n.num_inliers, what + "-inliers", "%s: %zu inliers, native %zu", what.c_str(), py::cast<size_t>(o.attr("num_inliers")), (size_t)n.num_inliers);
  c.check(vf::close(py::cast<double>(o.attr("error")), n.error, 1e-6, 1e-9), what + "-error", "%s: error %.12g, native %.12g", what.c_str(), py::cast<double>(o.attr("error")), n.error);
  py::object H = o.attr("H"), b = o.attr("b");
  c.check((mat(H) - n.H).norm() <= 1e-6 * (n.H.norm() + 1e-6), what + "-H", "%s: H differs", what.c_str());
  c.check((py::cast<Eigen::VectorXd>(b) - n.b).norm() <= 1e-6 * (n.H.norm() + 1e-6), what + "-b", "%s: b differs", what.c_str());
  (void)py::repr(o);
  // each array handed out is valid on its own once the result is released (another one could keep it alive)
  const char* held_name = c.rng.pick({"H", "b", "T_target_source"});
  py::object held = o.attr(held_name);
  const MatX before = mat(held);
  H = py::object(); b = py::object(); o = py::object(); gc.attr("collect")();
  std::vector<std::vector<char>> junk; for (int i = 0; i < 16; i++) junk.emplace_back(sizeof(RegistrationResult), 0x5a);
  c.check(eq(mat(held), before), "result-view-lifetime", "%s changed when the result was released", held_name);
  c.count(std::string("results_released_before_") + held_name);
  c.count("results_compared_" + what);
}

static void alignment(Case& c, const vf::Pts& tp, const vf::Pts& sp) {
  vf::Rng& r = c.rng;
  const Routes rt = routes(r);
  const int over = r.u(3);
  // native reference with one thread; runs whose course is decided by rounding are not compared
  auto prep = [&](const vf::Pts& p, double leaf, double wob) { Quiet q; auto n = native(p); if (wob > 0) for (auto& x : n->points) x.head<3>() += wob * r.vec3(1); auto d = voxelgrid_sampling(*n, leaf); Tree t(d); estimate_normals_covariances(*d, t, 10); return d; };
  const double leaf = over ? 0.3 : r.pick({0.1, 0.25, 0.25, 0.6}), vox = over ? r.pick({0.5, 1.0, 2.0}) : r.pick({0.5, 1.0, 1.0, 2.0});
  const auto type = over == 2 ? RegistrationSetting::VGICP : r.pick({RegistrationSetting::ICP, RegistrationSetting::PLANE_ICP, RegistrationSetting::GICP, RegistrationSetting::VGICP});
  RegistrationSetting st = setting(rt); st.type = type; st.downsampling_resolution = leaf; st.voxel_resolution = vox;
  auto run = [&](PointCloud::Ptr t, PointCloud::Ptr s, const RegistrationSetting& st) {
    Quiet q;
    if (type == RegistrationSetting::VGICP) { auto vm = create_gaussian_voxelmap(*t, vox); return align(*vm, *s, Eigen::Isometry3d(rt.T), st); }
    Tree tree(t); return align(*t, *s, tree, Eigen::Isometry3d(rt.T), st);
  };
  auto t0 = prep(tp, leaf, 0), s0 = prep(sp, leaf, 0);
  const auto ref = run(t0, s0, st);
  bool steady = true; double sens = 0;
  for (int w = 0; w < 3; w++) {
    const auto x = run(prep(tp, leaf, 1e-12), prep(sp, leaf, 1e-12), st);
    sens = std::max(sens, (x.T_target_source.matrix() - ref.T_target_source.matrix()).norm());
    steady = steady && x.iterations == ref.iterations && x.num_inliers == ref.num_inliers && x.converged == ref.converged && sens <= 1e-8;
  }
  { RegistrationSetting s1 = st; s1.max_iterations = (int)ref.iterations; const auto before = run(t0, s0, s1); if (ref.num_inliers && (before.T_target_source.matrix() - ref.T_target_source.matrix()).norm() < 1e-7) steady = false; }
  const char* tn[] = {"ICP", "PLANE_ICP", "GICP", "VGICP"};
  const std::string type_s = type == RegistrationSetting::ICP ? tn[0] : type == RegistrationSetting::PLANE_ICP ? tn[1] : type == RegistrationSetting::GICP ? tn[2] : tn[3];
  const double tol = 1e-7 + 1e5 * sens;
  auto look_again = [&] { return settled(ref, [&](double amp) { auto t2 = std::make_shared<PointCloud>(*t0), s2 = std::make_shared<PointCloud>(*s0); disturb(r, *t2, amp); disturb(r, *s2, amp); return run(t2, s2, st); }); };
  if (over == 0) {
    py::object a = arr(c, tp), b = arr(c, sp);
    std::vector<Arg> v = {AR("target_points", a), AR("source_points", b), Arg{"init_T_target_source", py::cast(rt.T), rt.T.isIdentity(0)}, Arg{"registration_type", py::str(type_s), type_s == "GICP"}, A("voxel_resolution", vox, 1.0), A("downsampling_resolution", leaf, 0.25)};
    add(v, rt);
    team_reset();
    py::object o = call(c, "align", v);
    team(c, "align-arrays", rt.nt, tp.size() > 100 && sp.size() > 100);
    bool whole = true;  // where a block boundary of the parallel downsampling splits a voxel there are more points than staged (C07)
    if (rt.nt > 1) { Quiet q; whole = preprocess_points(*native(tp), leaf, 10, rt.nt).first->size() == t0->size() && preprocess_points(*native(sp), leaf, 10, rt.nt).first->size() == s0->size(); }
    if (steady && whole && tp.size() <= 1000 && sp.size() <= 1000) { vf::SecondLook look(c, look_again); same_result(c, "align-arrays", std::move(o), ref, tol); } else c.count(whole ? "rounding_sensitive_runs" : "voxels_split_by_blocks");
  } else {
    auto mk = [&](const PointCloud& n) {
      Quiet q; vf::Pts p; for (auto& x : n.points) p.push_back(x);
      py::array_t<double> a({(py::ssize_t)p.size(), (py::ssize_t)4}); auto m = a.mutable_unchecked<2>(); for (size_t i = 0; i < p.size(); i++) for (int k = 0; k < 4; k++) m(i, k) = p[i][k];
      py::object o = sg.attr("PointCloud")(a); sg.attr("estimate_normals_covariances")(o, py::none(), 10, 1); return o; };
    py::object t = mk(*t0), s = mk(*s0);
    if (over == 1) {
      py::object tree = py::none(); const bool own = r.coin(); if (own) { Quiet q; tree = sg.attr("KdTree")(t, r.pick({1, 2})); }
      std::vector<Arg> v = {AR("target", t), AR("source", s), Arg{"target_tree", tree, !own}, Arg{"init_T_target_source", py::cast(rt.T), rt.T.isIdentity(0)}, Arg{"registration_type", py::str(type_s), type_s == "GICP"}};
      add(v, rt);
      team_reset();
      if (type == RegistrationSetting::VGICP) {  // not available for point clouds
        py::object o; if (raises(c, [&] { o = call(c, "align", v); })) return;
        c.check(o.is_none() || py::cast<Eigen::Matrix4d>(o.attr("T_target_source")).isIdentity(1e-12), "vgicp-on-clouds", "align(PointCloud, registration_type='VGICP') neither raised nor returned the identity"); c.count("unavailable_types"); return;
      }
      py::object o = call(c, "align", v);
      team(c, "align-clouds", rt.nt, s0->size() > 0);
      if (steady) { vf::SecondLook look(c, look_again); same_result(c, "align-clouds", std::move(o), ref, tol); } else c.count("rounding_sensitive_runs");
    } else {
      py::object vm; { Quiet q; vm = sg.attr("GaussianVoxelMap")(vox); vm.attr("insert")(t); }
      std::vector<Arg> v = {AR("target_voxelmap", vm), AR("source", s), Arg{"init_T_target_source", py::cast(rt.T), rt.T.isIdentity(0)}};
      add(v, rt);
      team_reset();
      py::object o = call(c, "align", v);
      team(c, "align-voxelmap", rt.nt, s0->size() > 0);
      if (steady) { vf::SecondLook look(c, look_again); same_result(c, "align-voxelmap", std::move(o), ref, tol); } else c.count("rounding_sensitive_runs");
    }
  }
  if (ref.num_inliers > 5) c.nontrivial();
}

template <typename F> static void factor(Case& c, const char* cls, const vf::Pts& tp, const vf::Pts& sp) {
  vf::Rng& r = c.rng;
  Quiet q;
  py::object t = sg.attr("PointCloud")(arr(c, tp)), s = sg.attr("PointCloud")(arr(c, sp));
  sg.attr("estimate_normals_covariances")(t); sg.attr("estimate_normals_covariances")(s);
  auto back = [&](py::object o) { auto n = std::make_shared<PointCloud>(); const MatX P = mat(o.attr("points")()), N = mat(o.attr("normals")()); const py::list C = o.attr("covs")(); n->resize(P.rows()); for (Eigen::Index i = 0; i < P.rows(); i++) { n->point(i) = P.row(i); n->normal(i) = N.row(i); n->cov(i) = py::cast<Eigen::Matrix4d>(C[i]); } return n; };
  auto nt = back(t), ns = back(s);
  py::object tree = sg.attr("KdTree")(t), f = sg.attr(cls)(), rj = sg.attr("DistanceRejector")();
  Tree ntree(nt); DistanceRejector nrj;
  if (r.coin(0.7)) { const double d = r.pick({0.05, 0.3, 2.0, 100.0}); call(c, "set_max_distance", {A("dist", d, -1.0)}, rj); nrj.max_dist_sq = d * d; }
  F nf;
  for (int i = 0; i < 8; i++) {
    const Eigen::Matrix4d T = r.coin(0.3) ? Eigen::Matrix4d::Identity() : Eigen::Matrix4d(r.iso(0.2, 0.3).matrix());
    if (!ns->size() || r.coin(0.1)) {
      const py::int_ at(r.pick({(int64_t)ns->size(), (int64_t)ns->size() + 3, (int64_t)1 << 33, (int64_t)-1}));
      must_raise(c, "source_index", [&] { f.attr("linearize")(t, s, tree, T, at, rj); }); c.count("bad_indices"); continue;
    }
    const size_t k = r.u(ns->size());
    py::tuple o = call(c, "linearize", {AR("target", t), AR("source", s), AR("kdtree", tree), AR("T", py::cast(T)), A("source_index", k, (size_t)-1), AR("rejector", rj)}, f);
    M6 H = M6::Zero(); V6 b = V6::Zero(); double e = 0;
    // the rejection must not be decided by rounding
    size_t ni; double nd;
    if (!ntree.nearest_neighbor_search(Eigen::Isometry3d(T) * ns->point(k), &ni, &nd) || std::abs(nd - nrj.max_dist_sq) > 1e-9 * nrj.max_dist_sq) {
      const bool ok = nf.linearize(*nt, *ns, ntree, Eigen::Isometry3d(T), k, nrj, &H, &b, &e);
      c.check(py::cast<bool>(py::object(o[0])) == ok, std::string(cls) + "-success", "%s.linearize: success differs", cls);
      if (ok) { c.check(eq(mat(o[1]), H, 1e-9) && eq(py::cast<Eigen::VectorXd>(o[2]), b, 1e-9) && vf::close(py::cast<double>(o[3]), e, 1e-9, 1e-12), std::string(cls) + "-system", "%s.linearize: H, b or e differs from the native factor", cls); c.count("factors_linearized"); }
      else { c.check(mat(o[1]).isZero(0) && py::cast<Eigen::VectorXd>(o[2]).isZero(0) && py::cast<double>(o[3]) == 0.0, std::string(cls) + "-rejected", "%s.linearize: a rejected correspondence contributes", cls); c.count("factors_rejected"); }
    }
  }
}

// Well-typed but unusable arguments must not crash.
static void misuse(Case& c, const vf::Pts& p) {
  vf::Rng& r = c.rng;
  Quiet q;
  auto zeros = [&](py::tuple shape) { return np.attr("zeros")(shape); };
  const py::object bad = r.pick({zeros(py::make_tuple(5, 2)), zeros(py::make_tuple(5, 5)), zeros(py::make_tuple(5)), zeros(py::make_tuple(2, 3, 4)), zeros(py::make_tuple(0, 0)), zeros(py::make_tuple(3, 1)), py::object(py::none()), py::object(py::str("x"))});
  py::object small = sg.attr("PointCloud")(arr(c, p)), big = sg.attr("PointCloud")(np.attr("random").attr("rand")(p.size() + 1 + r.u(500), 3));
  sg.attr("estimate_normals_covariances")(small); sg.attr("estimate_normals_covariances")(big);
  py::object bigtree = sg.attr("KdTree")(big), tree = sg.attr("KdTree")(small);
  const int neg = r.pick({0, -1, -7, std::numeric_limits<int>::min()});
  auto rejected = [&](const char* what, const std::function<py::object()>& f) {  // raises, or returns nothing of value
    py::object o; if (raises(c, [&] { o = f(); })) { c.count("misuse_calls"); return; }
    c.count("misuse_calls");
    bool none = o.is_none() || (py::isinstance<py::tuple>(o) && py::len(o) == 2 && py::object(py::reinterpret_borrow<py::tuple>(o)[0]).is_none());
    if (!none && py::hasattr(o, "size") && py::hasattr(o, "covs")) none = py::cast<size_t>(o.attr("size")()) == 0;
    if (!none && py::hasattr(o, "T_target_source")) none = py::cast<Eigen::Matrix4d>(o.attr("T_target_source")).isIdentity(1e-12) && !py::cast<bool>(o.attr("converged"));
    c.check(none, std::string("misuse-accepted-") + what, "%s was accepted and returned a value", what);
  };
  const py::object good = arr(c, p.empty() ? vf::Pts(7, vf::P(1, 2, 3)) : p);
  for (int step = 0; step < 6; step++) switch (r.u(24)) {
    case 0: rejected("PointCloud(bad shape)", [&] { return sg.attr("PointCloud")(bad); }); break;
    case 1: rejected("KdTree(bad shape)", [&] { return sg.attr("KdTree")(bad); }); break;
    case 2: rejected("voxelgrid_sampling(bad shape)", [&] { return sg.attr("voxelgrid_sampling")(bad, 0.5); }); break;
    case 3: rejected("preprocess_points(bad shape)", [&] { return sg.attr("preprocess_points")(bad); }); break;
    case 4: rejected("align(bad target)", [&] { return sg.attr("align")(bad, good); }); break;
    case 5: rejected("align(bad source)", [&] { return sg.attr("align")(good, bad); }); break;
    case 6: rejected("batch search(bad shape)", [&] { return tree.attr("batch_nearest_neighbor_search")(bad); }); break;
    case 7: rejected("batch knn(bad shape)", [&] { return tree.attr("batch_knn_search")(bad, 3); }); break;
    case 8: rejected("knn_search(k<=0)", [&] { return tree.attr("knn_search")(Eigen::Vector3d(1, 2, 3), neg); }); break;
    case 9: rejected("batch_knn_search(k<=0)", [&] { return tree.attr("batch_knn_search")(good, neg); }); break;
    case 10: rejected("estimate(num_neighbors<=0)", [&] { return sg.attr(r.pick({"estimate_normals", "estimate_covariances", "estimate_normals_covariances"}))(small, tree, neg, r.pick({1, 2})); }); break;
    case 11: rejected("preprocess(num_neighbors<=0)", [&] { return sg.attr("preprocess_points")(r.coin() ? good : small, 0.25, neg); }); break;
    case 12: { const int nt = r.pick({-1, -3});  // zero might be taken as "choose for me"
      switch (r.u(7)) {
        case 0: rejected("KdTree(num_threads<0)", [&] { return sg.attr("KdTree")(r.coin() ? big : good, nt); }); break;
        case 1: rejected("batch search(num_threads<0)", [&] { return tree.attr("batch_nearest_neighbor_search")(good, nt); }); break;
        case 2: rejected("batch knn(num_threads<0)", [&] { return tree.attr("batch_knn_search")(good, 3, nt); }); break;
        case 3: rejected("voxelgrid_sampling(num_threads<0)", [&] { return sg.attr("voxelgrid_sampling")(r.coin() ? big : good, 0.5, nt); }); break;
        case 4: rejected("estimate(num_threads<0)", [&] { return sg.attr("estimate_covariances")(big, bigtree, 10, nt); }); break;
        case 5: rejected("preprocess(num_threads<0)", [&] { return sg.attr("preprocess_points")(r.coin() ? big : good, 0.25, 10, nt); }); break;
        default: rejected("align(num_threads<0)", [&] { return sg.attr("align")(big, big, py::arg("num_threads") = nt); }); break;
      } break; }
    case 13: { py::object o; raises(c, [&] { o = sg.attr("align")(big, big, py::arg("num_threads") = 0); }); c.count("misuse_calls"); break; }
    case 14: rejected("tree of a larger cloud (estimate)", [&] { return sg.attr(r.pick({"estimate_normals", "estimate_covariances", "estimate_normals_covariances"}))(small, bigtree, 10, r.pick({1, 2})); }); break;
    case 15: rejected("tree of a larger cloud (align)", [&] { return sg.attr("align")(small, big, bigtree); }); break;
    case 16: rejected("None as cloud", [&] { return sg.attr(r.pick({"KdTree", "estimate_normals", "estimate_covariances", "estimate_normals_covariances", "voxelgrid_sampling", "preprocess_points"}))(py::none()); }); break;
    case 17: rejected("None as cloud (align)", [&] { return r.coin() ? sg.attr("align")(py::none(), small) : sg.attr("align")(small, py::none()); }); break;
    case 18: { py::object vm = sg.attr(r.pick({"GaussianVoxelMap", "IncrementalVoxelMap", "IncrementalVoxelMapNormalCov"}))(1.0); rejected("set_lru(clear_cycle=0)", [&] { return vm.attr("set_lru")(10, 0); }); raises(c, [&] { vm.attr("insert")(small); }); raises(c, [&] { vm.attr("insert")(py::none()); }); break; }
    case 19: rejected("unknown registration type", [&] { const char* t = r.pick({"gicp", "", "NDT"}); return r.coin() ? sg.attr("align")(good, good, Eigen::Matrix4d::Identity(), t) : sg.attr("align")(small, big, py::none(), Eigen::Matrix4d::Identity(), t); }); break;
    case 20: rejected("wrong T shape", [&] { return sg.attr("align")(good, good, py::object(np.attr("eye")(3))); }); break;
    case 21: rejected("linearize with a tree of a larger cloud", [&] { return sg.attr(r.pick({"ICPFactor", "PointToPlaneICPFactor", "GICPFactor"}))().attr("linearize")(small, big, bigtree, Eigen::Matrix4d::Identity(), 0, sg.attr("DistanceRejector")()); }); break;
    case 22: { py::object vm = sg.attr("GaussianVoxelMap")(r.pick({0.0, -1.0, 1e-300, 1e300})); raises(c, [&] { vm.attr("insert")(big); py::object o = vm.attr("voxel_points")(); (void)o; sg.attr("align")(vm, big); }); c.count("misuse_calls"); break; }
    case 23: { py::object o; raises(c, [&] { o = sg.attr("voxelgrid_sampling")(r.coin() ? big : good, r.pick({0.0, -1.0, 1e-300, 1e300, std::nan("")}), r.pick({1, 2})); if (!o.is_none()) { py::object x = o.attr("points")(); (void)x; } }); c.count("misuse_calls"); break; }
  }
  // the objects are still usable
  c.check(py::len(small) == p.size() && py::len(big) > p.size(), "unusable-afterwards", "clouds changed their size");
}

static void ply(Case& c, vf::Pts p) {
  single = true; p = f32(p);
  const std::string fn = vf::G().tmpdir + "/c22.ply";
  FILE* f = fopen(fn.c_str(), "wb"); if (!f) throw vf::Stop();
  fprintf(f, "ply\nformat binary_little_endian 1.0\nelement vertex %zu\nproperty float x\nproperty float y\nproperty float z\nend_header\n", p.size());
  for (auto& v : p) { float x[3] = {(float)v[0], (float)v[1], (float)v[2]}; fwrite(x, 4, 3, f); }
  fclose(f);
  py::object o = call(c, "read_ply", {AR("filename", py::str(fn))});
  same_cloud(c, "read_ply", o, *native(p), false, false);
  c.count("files_read");
}

static void run_case(Case& c) {
  vf::Rng& r = c.rng;
  const int what = r.u(20);
  single = r.coin(0.3);
  const size_t n = r.pick({(int)r.u(3), (int)r.range(0, 12), (int)r.range(12, 200), (int)r.range(100, 900)});
  const bool exotic = r.coin(0.3) && (what < 7 || what == 19);
  vf::Pts p = f32(exotic ? vf::gen_cloud(r, n, r.u(vf::CLOUD_KINDS), 5.0) : vf::gen_scene(r, n, 5.0, 0.02));
  vf::Pts s;
  const Eigen::Isometry3d truth = r.iso(0.1, 0.4);
  for (auto& v : p) if (r.coin(0.8)) s.push_back(vf::P(Eigen::Vector3d(truth.inverse() * Eigen::Vector3d(v.head<3>()) + 0.01 * r.vec3(1))));
  s = f32(s);
  c.describe("section %d, %zu points", what, p.size());
  c.sig(c.idx);
  if (p.size() > 1) c.nontrivial();
  switch (what) {
    case 0: case 1: clouds(c, p); break;
    case 2: case 3: case 4: trees(c, p); break;
    case 5: case 6: downsample(c, p); break;
    case 7: features(c, p); break;
    case 8: case 9: preprocess(c, p); break;
    case 10: voxelmap<IncrementalVoxelMap<FlatContainerPoints>, false, false>(c, "IncrementalVoxelMap", p); if (r.coin()) voxelmap<IncrementalVoxelMap<FlatContainerNormal>, true, false>(c, "IncrementalVoxelMapNormal", p); else voxelmap<IncrementalVoxelMap<FlatContainerCov>, false, true>(c, "IncrementalVoxelMapCov", p); break;
    case 11: if (r.coin()) voxelmap<IncrementalVoxelMap<FlatContainerNormalCov>, true, true>(c, "IncrementalVoxelMapNormalCov", p); else voxelmap<GaussianVoxelMap, false, true>(c, "GaussianVoxelMap", p); break;
    case 12: switch (r.u(3)) { case 0: factor<ICPFactor>(c, "ICPFactor", p, s); break; case 1: factor<PointToPlaneICPFactor>(c, "PointToPlaneICPFactor", p, s); break; default: factor<GICPFactor>(c, "GICPFactor", p, s); } break;
    case 13: case 14: case 15: case 16: alignment(c, p, s); break;
    case 17: ply(c, p); break;
    default: misuse(c, p);
  }
}
static void run(Case& c) {
  try { run_case(c); } catch (py::error_already_set& e) { c.fail("unexpected-exception", "a valid call raised: %s", e.what()); } catch (const py::cast_error& e) { c.fail("unexpected-type", "a result has another type than documented: %s", e.what()); }
}
int main(int argc, char** argv) {
  setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("PYTHONMALLOC", "malloc", 1); setenv("PYTHONNOUSERSITE", "1", 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
  PyImport_AppendInittab("small_gicp", PyInit_small_gicp);
  py::scoped_interpreter guard(false);
  sg = py::module_::import("small_gicp"); np = py::module_::import("numpy"); gc = py::module_::import("gc");
  const int rc = vf::main_loop(argc, argv, run);
  fflush(nullptr);
  _exit(rc);
}
