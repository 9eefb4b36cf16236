// C29: objects keep alive what they refer to, and copies are independent of each other.
#include "reg.hpp"
#include "vox.hpp"
#include <thread>
#include <atomic>
#include <optional>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/ann/projective_search.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/registration_helper.hpp>
#include <small_gicp/factors/general_factor.hpp>
#include <small_gicp/factors/robust_kernel.hpp>
#ifndef VF_NOPCL
#include <pcl/point_types.h>
#include <pcl/point_cloud.h>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/pcl/pcl_registration.hpp>
#endif
using vf::Case;
using namespace small_gicp;

// Keeps the allocator busy, so that memory given back too early is soon used for something else.
static void churn(vf::Rng& r) {
  std::vector<std::vector<double>> junk;
  for (int i = 0; i < 12; i++) junk.emplace_back(1 + r.u(r.coin() ? 40 : 4000), 1e300);
  asm volatile("" ::"r"(junk.data()) : "memory");
}
struct Hash {
  uint64_t h = 1469598103934665603ull;
  void add(const void* d, size_t n) { const unsigned char* c = (const unsigned char*)d; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull; }
  void v(size_t x) { add(&x, sizeof x); }
  void d(double x) { if (x == 0) x = 0; add(&x, sizeof x); }
};
// Answers of a search structure to a fixed list of queries.
template <typename Tree> static uint64_t answers(const Tree& t, const vf::Pts& queries, size_t k) {
  Hash h;
  std::vector<size_t> idx(k); std::vector<double> sq(k);
  for (auto& q : queries) {
    size_t i1 = 0; double d1 = 0;
    const size_t f1 = traits::nearest_neighbor_search(t, q, &i1, &d1);
    h.v(f1); if (f1) { h.v(i1); h.d(d1); }
    const size_t f = traits::knn_search(t, q, k, idx.data(), sq.data());
    h.v(f);
    for (size_t j = 0; j < f; j++) { h.v(idx[j]); h.d(sq[j]); }
  }
  return h.h;
}
static uint64_t result_hash(const RegistrationResult& r) {
  Hash h;
  for (int i = 0; i < 16; i++) h.d(r.T_target_source.matrix().data()[i]);
  for (int i = 0; i < 36; i++) h.d(r.H.data()[i]);
  for (int i = 0; i < 6; i++) h.d(r.b.data()[i]);
  h.d(r.error); h.v(r.num_inliers); h.v(r.iterations); h.v(r.converged);
  return h.h;
}
static vf::Pts make_queries(vf::Rng& r, const vf::Pts& p, size_t n) {
  vf::Pts q;
  for (size_t i = 0; i < n; i++) q.push_back(p.empty() || r.coin(0.2) ? vf::P(r.vec3(20)) : vf::P(Eigen::Vector3d(p[r.u(p.size())].head<3>() + r.vec3(0.3))));
  return q;
}

// ---- A: search structures that own their cloud, and copies of search structures ------------------------------
template <typename Tree> static void copies_of(Case& c, std::shared_ptr<Tree> tree, const vf::Pts& queries, size_t k, uint64_t expect, const char* what) {
  vf::Rng& r = c.rng;
  churn(r);
  c.check(answers(*tree, queries, k) == expect, std::string("orphaned-") + what, "%s: answers changed after its inputs were released", what);
  std::vector<Tree> shelf;                                   // grows: copies or moves its elements
  for (int i = 0; i < 3; i++) shelf.push_back(*tree);
  auto copy = std::make_shared<Tree>(*tree);
  tree.reset();
  churn(r);
  c.check(answers(*copy, queries, k) == expect, std::string("copy-") + what, "%s: a copy answers differently once the original is gone", what);
  auto moved = std::make_shared<Tree>(std::move(*copy));
  copy.reset();
  churn(r);
  c.check(answers(*moved, queries, k) == expect, std::string("moved-") + what, "%s: a moved object answers differently", what);
  moved.reset();
  for (auto& t : shelf) c.check(answers(t, queries, k) == expect, std::string("shelf-") + what, "%s: an element of a vector answers differently", what);
  c.count("tree_copies");
  c.count(std::string("tree_copies_") + what);
}
static void trees(Case& c) {
  vf::Rng& r = c.rng;
  const size_t n = r.pick({(size_t)0, (size_t)1, (size_t)5 + r.u(40), (size_t)200 + r.u(800), (size_t)3000});
  vf::Pts pts = vf::gen_cloud(r, n, r.pick({(int)vf::UNIFORM, (int)vf::LIDAR, (int)vf::DUPLICATES, (int)vf::CLUSTERED}), 10);
  const vf::Pts queries = make_queries(r, pts, 12);
  const size_t k = 1 + r.u(20);
  c.describe("trees n=%zu k=%zu", n, k);
  if (n > 1) c.nontrivial();
  const auto keep = std::make_shared<PointCloud>(pts);   // reference copy, alive throughout
  auto fresh = [&] { return std::make_shared<PointCloud>(pts); };
  {
    const uint64_t e = answers(UnsafeKdTree<PointCloud>(*keep), queries, k);
    std::shared_ptr<KdTree<PointCloud>> t;
    { auto cloud = fresh(); t = std::make_shared<KdTree<PointCloud>>(cloud); if (r.coin()) t->points.use_count(); }
    copies_of(c, t, queries, k, e, "KdTree");
    t = std::make_shared<KdTree<PointCloud>>(fresh(), KdTreeBuilderOMP(2));
    copies_of(c, t, queries, k, e, "KdTree-omp");
    t = std::make_shared<KdTree<PointCloud>>(fresh(), KdTreeBuilderTBB());
    copies_of(c, t, queries, k, e, "KdTree-tbb");
    // An unsafe tree refers to a cloud the caller keeps; its copies must not refer to the tree they were copied from.
    copies_of(c, std::make_shared<UnsafeKdTree<PointCloud>>(*keep), queries, k, e, "UnsafeKdTree");
  }
  {
    const uint64_t e = answers(UnsafeKdTree<PointCloud, NormalProjection>(*keep), queries, k);
    copies_of(c, std::make_shared<KdTree<PointCloud, NormalProjection>>(fresh()), queries, k, e, "KdTree-normal-projection");
  }
  {
    const int w = r.pick({8, 64, 256}), h = r.pick({4, 32});
    const uint64_t e = answers(UnsafeProjectiveSearch<PointCloud>(w, h, *keep), queries, k);
    copies_of(c, std::make_shared<ProjectiveSearch<PointCloud>>(w, h, fresh()), queries, k, e, "ProjectiveSearch");
    copies_of(c, std::make_shared<UnsafeProjectiveSearch<PointCloud>>(w, h, *keep), queries, k, e, "UnsafeProjectiveSearch");
  }
  c.check(reg::hash_cloud(*keep) == reg::hash_cloud(*std::make_shared<PointCloud>(*keep)), "cloud-copy", "a copied cloud differs");
}

// ---- B: voxel maps ---------------------------------------------------------------------------------------------
struct Step { std::shared_ptr<const PointCloud> cloud; Eigen::Isometry3d T; int offsets; size_t horizon, cycle; };   // offsets < 0: none; cloud null: settings only
template <typename Map> static void apply(Map& m, const Step& s) {
  if (s.cloud) { m.insert(*s.cloud, s.T); return; }
  if (s.offsets >= 0) m.set_search_offsets(s.offsets); else { m.lru_horizon = s.horizon; m.lru_clear_cycle = s.cycle; }
}
template <typename Map> struct Contents;
template <typename VC> struct Contents<IncrementalVoxelMap<VC>> { typedef VC type; };
template <typename Map> static uint64_t print_of(const Map& m, const vf::Pts& queries, size_t k) {
  typedef typename Contents<Map>::type VC;
  Hash h;
  h.v(m.size());
  for (size_t i : traits::point_indices(m)) {
    h.v(i);
    const Eigen::Vector4d p = traits::point(m, i);
    for (int j = 0; j < 4; j++) h.d(p[j]);
    if constexpr (std::is_same<VC, GaussianVoxel>::value || std::is_same<VC, FlatContainerCov>::value || std::is_same<VC, FlatContainerNormalCov>::value) { const Eigen::Matrix4d C = traits::cov(m, i); for (int j = 0; j < 16; j++) h.d(C.data()[j]); }
    if constexpr (std::is_same<VC, FlatContainerNormal>::value || std::is_same<VC, FlatContainerNormalCov>::value) { const Eigen::Vector4d N = traits::normal(m, i); for (int j = 0; j < 4; j++) h.d(N[j]); }
  }
  h.v(answers(m, queries, k));
  return h.h;
}

template <typename Map> static void maps(Case& c, const char* name) {
  vf::Rng& r = c.rng;
  const double leaf = r.logreal(0.3, 4.0);
  struct Branch { std::unique_ptr<Map> map; std::vector<Step> hist; uint64_t print; };
  std::vector<Branch> br;
  const size_t cap = r.pick({1, 3, 10}); const double msq = r.pick({0.0, 0.01, 0.2});
  auto blank = [&] {
    auto m = std::make_unique<Map>(leaf);
    if constexpr (!std::is_same<Map, GaussianVoxelMap>::value) { m->voxel_setting.max_num_points_in_cell = cap; m->voxel_setting.min_sq_dist_in_cell = msq; }
    return m;
  };
  vf::Pts queries;
  for (int i = 0; i < 6; i++) queries.push_back(vf::P(r.vec3(6)));
  const size_t k = 1 + r.u(8);
  auto step = [&](Branch& b) {
    Step s; s.offsets = -1;
    const double w = r.real();
    if (w < 0.75) {
      const size_t n = r.pick({(size_t)0, (size_t)3, (size_t)20, (size_t)60});
      vf::Pts p; const Eigen::Vector3d centre = r.vec3(3);
      for (size_t i = 0; i < n; i++) p.push_back(vf::P(Eigen::Vector3d(centre + r.vec3(3))));
      s.cloud = reg::make_cloud(r, p);
      s.T = Eigen::Isometry3d::Identity();
      if (r.coin()) { s.T.linear() = r.rot(); s.T.translation() = r.vec3(2); }
    } else if (w < 0.85) { s.offsets = r.pick({1, 7, 27}); }
    else { s.horizon = 1 + r.u(5); s.cycle = 1 + r.u(4); }
    apply(*b.map, s);
    b.hist.push_back(s);
    b.print = print_of(*b.map, queries, k);
  };
  br.push_back({blank(), {}, 0});
  br[0].print = print_of(*br[0].map, queries, k);
  const int ops = 6 + r.u(20);
  size_t copies = 0;
  std::string trail;
  auto verify = [&](const char* after) {
    for (size_t i = 0; i < br.size(); i++)
      c.check(print_of(*br[i].map, queries, k) == br[i].print, "map-changed", "%s: map %zu of %zu changed by %s (operations:%s)", name, i, br.size(), after, trail.c_str());
  };
  for (int o = 0; o < ops; o++) {
    const size_t i = r.u(br.size());
    const double w = r.real();
    char t[64];
    if (w < 0.25 && br.size() < 5) {
      snprintf(t, sizeof t, " copy%zu", i); trail += t;
      Branch b{std::make_unique<Map>(*br[i].map), br[i].hist, br[i].print};
      br.push_back(std::move(b)); copies++;
      verify("copying");
    } else if (w < 0.33) {
      snprintf(t, sizeof t, " move%zu", i); trail += t;
      auto m = std::make_unique<Map>(std::move(*br[i].map));
      br[i].map = std::move(m);
      verify("moving");
    } else if (w < 0.43 && br.size() > 1) {
      snprintf(t, sizeof t, " drop%zu", i); trail += t;
      br.erase(br.begin() + i);
      churn(r);
      verify("destroying another map");
    } else {
      snprintf(t, sizeof t, " step%zu", i); trail += t;
      step(br[i]);
      verify("operating on another map");
    }
  }
  c.describe("%s leaf=%.3g:%s", name, leaf, trail.c_str());
  if (copies) c.nontrivial();
  // A copy continues exactly as the original would have.
  for (size_t i = 0; i < br.size(); i++) {
    auto ref = blank();
    for (auto& s : br[i].hist) apply(*ref, s);
    c.check(print_of(*ref, queries, k) == br[i].print, "map-replay", "%s: map %zu differs from one map that went through its %zu operations", name, i, br[i].hist.size());
    c.count("maps_replayed");
  }
  c.count("map_copies", copies);
  // A snapshot is used by other threads while the original is extended (and the other way round).
  if (br[0].map->size() && r.coin(0.6)) {
    Branch& b = br[0];
    const Map snapshot(*b.map);
    const uint64_t p0 = b.print;
    std::vector<Step> todo;
    for (int j = 0; j < 3; j++) {
      Step s; s.offsets = -1; vf::Pts p;
      for (int q = 0; q < 30; q++) p.push_back(vf::P(r.vec3(4)));
      s.cloud = reg::make_cloud(r, p); s.T = Eigen::Isometry3d::Identity();
      todo.push_back(s);
    }
    Map grown(*b.map);
    const bool swap = r.coin();
    Map& writer = swap ? grown : *b.map;
    const Map& reader = swap ? *b.map : snapshot;
    std::atomic<bool> bad{false}, go{false};
    std::atomic<int> reads{0};
    std::thread rd([&] { go = true; for (int j = 0; j < 6; j++) { if (print_of(reader, queries, k) != p0) bad = true; reads++; } });
    while (!go) std::this_thread::yield();
    for (auto& s : todo) apply(writer, s);
    rd.join();
    c.check(!bad, "snapshot-changed", "%s: a snapshot changed while the map it was copied %s was extended by another thread", name, swap ? "to" : "from");
    c.count("snapshots_read_concurrently", reads);
    auto ref = blank();
    for (auto& s : b.hist) apply(*ref, s);
    for (auto& s : todo) apply(*ref, s);
    c.check(print_of(*ref, queries, k) == print_of(writer, queries, k), "writer-changed", "%s: a map extended while its copy was read differs", name);
  }
}

// ---- C: registration objects -------------------------------------------------------------------------------------
template <typename Reg> static void copies_of_registration(Case& c, const char* name, const std::function<void(Reg&)>& prepare) {
  vf::Rng& r = c.rng;
  auto scene = vf::gen_scene(r, 150 + r.u(200), 8, 0.01);
  auto target = reg::make_cloud(r, scene);
  Eigen::Isometry3d D = Eigen::Isometry3d::Identity(); D.linear() = Eigen::AngleAxisd(r.real(-0.05, 0.05), r.dir()).toRotationMatrix(); D.translation() = r.vec3(0.1);
  auto source = reg::transform(*target, D);
  const UnsafeKdTree<PointCloud> tree(*target);
  auto a = std::make_unique<Reg>();
  a->rejector.max_dist_sq = r.pick({0.3, 1.0, 4.0});
  a->criteria.translation_eps = r.pick({1e-3, 1e-8});
  a->criteria.rotation_eps = r.pick({1e-2, 1e-8});
  a->optimizer.max_iterations = (int)r.u(12);
  prepare(*a);
  const uint64_t e = result_hash(a->align(*target, *source, tree, Eigen::Isometry3d::Identity()));
  auto b = std::make_unique<Reg>(*a);
  Reg assigned; assigned = *a;
  std::vector<Reg> shelf(3, *a);
  c.check(result_hash(b->align(*target, *source, tree, Eigen::Isometry3d::Identity())) == e, "registration-copy", "%s: a copy aligns differently", name);
  b->rejector.max_dist_sq = 1e-3; b->optimizer.max_iterations = 1; b->criteria.translation_eps = 10; b->criteria.rotation_eps = 10;
  b->align(*target, *source, tree, D);
  c.check(result_hash(a->align(*target, *source, tree, Eigen::Isometry3d::Identity())) == e, "registration-changed", "%s: the original aligns differently after its copy was reconfigured", name);
  a.reset(); b.reset(); churn(r);
  c.check(result_hash(assigned.align(*target, *source, tree, Eigen::Isometry3d::Identity())) == e, "registration-assigned", "%s: an assigned copy aligns differently", name);
  shelf.emplace_back(); shelf.erase(shelf.begin() + 1);
  c.check(result_hash(shelf[1].align(*target, *source, tree, Eigen::Isometry3d::Identity())) == e, "registration-shelf", "%s: an element of a vector aligns differently", name);
  // the result outlives everything it was computed from
  auto res = std::make_unique<RegistrationResult>(shelf[0].align(*target, *source, tree, Eigen::Isometry3d::Identity()));
  target.reset(); source.reset(); churn(r);
  c.check(result_hash(*res) == e, "result-changed", "%s: the result changed", name);
  c.count("registration_copies"); c.count(std::string("registration_copies_") + name); c.nontrivial();
}
static void registrations(Case& c) {
  c.describe("registration objects");
  #ifdef VF_CHAOS
  const int forms = 4;   // the adversarial runtime may sum in any order
#else
  const int forms = 5;
#endif
  switch (c.rng.u(forms)) {
    case 0: copies_of_registration<Registration<ICPFactor, SerialReduction>>(c, "icp", [](auto&) {}); break;
    case 1: copies_of_registration<Registration<PointToPlaneICPFactor, SerialReduction, RestrictDoFFactor>>(c, "plane-restricted", [&](auto& g) { g.general_factor.set_translation_mask(Eigen::Array3d(1, 1, c.rng.coin())); }); break;
    case 2: copies_of_registration<Registration<GICPFactor, SerialReduction, NullFactor, DistanceRejector, GaussNewtonOptimizer>>(c, "gicp-gn", [](auto&) {}); break;
    case 3: copies_of_registration<Registration<RobustFactor<Huber, GICPFactor>, SerialReduction>>(c, "gicp-huber", [&](auto& g) { g.point_factor.robust_kernel.c = c.rng.pick({0.1, 1.0}); }); break;
    default: copies_of_registration<Registration<ICPFactor, ParallelReductionOMP>>(c, "icp-omp", [&](auto& g) { g.reduction.num_threads = 1; });
  }
}

// ---- D: results of the library's functions do not depend on their inputs' lifetime --------------------------------
static void products(Case& c) {
  vf::Rng& r = c.rng;
  const size_t n = r.pick({(size_t)0, (size_t)1, (size_t)30, (size_t)300 + r.u(500)});
  const vf::Pts pts = vf::gen_scene(r, n, 6, 0.01);
  const vf::Pts queries = make_queries(r, pts, 8);
  c.describe("products n=%zu", n);
  if (n > 1) c.nontrivial();
  const double leaf = r.pick({0.2, 0.6});
  const int nn = 5 + r.u(10);
  const int threads = r.pick({1, 1, 2, 3});
  auto make = [&](int form) {
    if (form == 0) { auto in = std::make_unique<PointCloud>(pts); auto out = preprocess_points(*in, leaf, nn, threads); in.reset(); return out; }
    if (form == 1) { auto in = std::make_unique<std::vector<Eigen::Vector4d>>(pts); auto out = preprocess_points(*in, leaf, nn, threads); in.reset(); return out; }
    if (form == 2) { std::vector<Eigen::Vector3d> in; for (auto& p : pts) in.push_back(p.head<3>()); return preprocess_points(in, leaf, nn, threads); }
    std::vector<Eigen::Vector4f> in; for (auto& p : pts) in.push_back(p.cast<float>()); return preprocess_points(in, leaf, nn, threads);
  };
  for (int form = 0; form < 4; form++) {
    auto [cloud, tree] = make(form);
    const auto before = reg::hash_cloud(*cloud);
    const auto ans = answers(*tree, queries, 5);
    c.check(tree->points.get() == cloud.get(), "tree-of-other-cloud", "form %d: the tree is not built over the returned cloud", form);
    if (r.coin()) {
      cloud.reset(); churn(r);
      c.check(answers(*tree, queries, 5) == ans && reg::hash_cloud(*tree->points) == before, "tree-orphaned", "form %d: the tree changed after the cloud was released", form);
    } else {
      tree.reset(); churn(r);
      c.check(reg::hash_cloud(*cloud) == before, "cloud-orphaned", "form %d: the cloud changed after the tree was released", form);
    }
    c.count("preprocessed_pairs");
  }
  {
    auto in = std::make_unique<PointCloud>(pts);
    auto copy = std::make_unique<PointCloud>(*in);
    auto d1 = voxelgrid_sampling(*in, leaf); auto d2 = voxelgrid_sampling_tbb(*in, leaf); auto d3 = random_sampling(*in, in->size() / 2, r); auto d4 = voxelgrid_sampling_omp(*in, leaf, 2);
    const uint64_t h[] = {reg::hash_cloud(*d1), reg::hash_cloud(*d2), reg::hash_cloud(*d3), reg::hash_cloud(*d4)};
    for (auto* d : {&d1, &d2, &d3, &d4}) if ((*d)->size()) c.check((*d)->points.data() != in->points.data(), "shared-output", "a downsampled cloud shares its points with the input");
    // changing a copy does not change the original
    for (auto& p : copy->points) p.setConstant(7);
    if (in->size()) c.check(in->points[0] == pts[0], "cloud-shared", "changing a copied cloud changes the original");
    for (auto& p : in->points) p.setConstant(9);
    in.reset(); churn(r);
    c.check(reg::hash_cloud(*d1) == h[0] && reg::hash_cloud(*d2) == h[1] && reg::hash_cloud(*d3) == h[2] && reg::hash_cloud(*d4) == h[3], "downsampled-orphaned", "a downsampled cloud changed after its input was released");
    c.count("downsampled_products", 4);
  }
  if (n) {
    auto in = reg::make_cloud(r, pts);
    auto m = create_gaussian_voxelmap(*in, 1.0);
    const auto p = print_of(*m, queries, 3);
    for (auto& q : in->points) q.setConstant(3);
    in.reset(); churn(r);
    c.check(print_of(*m, queries, 3) == p, "map-orphaned", "a Gaussian voxel map changed after its input was released");
    c.count("map_products");
  }
}

// ---- E: PCL interface ------------------------------------------------------------------------------------------------
#ifndef VF_NOPCL
static void pcl_inputs(Case& c) {
  vf::Rng& r = c.rng;
  typedef pcl::PointCloud<pcl::PointXYZ> Cloud;
  const vf::Pts pts = vf::gen_scene(r, 150 + r.u(100), 6, 0.01);
  const Eigen::Vector3d off = r.vec3(0.1);
  auto make = [&](bool shift) {
    auto cl = pcl::make_shared<Cloud>();
    for (auto& p : pts) { const Eigen::Vector3d q = p.head<3>() + (shift ? off : Eigen::Vector3d::Zero()); cl->push_back(pcl::PointXYZ(q[0], q[1], q[2])); }
    return cl;
  };
  auto t = make(false), s = make(true);
  const bool vg = r.coin(), swap = r.coin();
  c.describe("pcl vgicp=%d swap=%d", vg, swap); c.nontrivial();
  Cloud out1, out2;
  RegistrationPCL<pcl::PointXYZ, pcl::PointXYZ> a, b;
  for (auto* g : {&a, &b}) { g->setNumThreads(1); g->setRegistrationType(vg ? "VGICP" : "GICP"); g->setMaxCorrespondenceDistance(1.0); g->setCorrespondenceRandomness(8); }
  a.setInputTarget(t); a.setInputSource(s); if (swap) a.swapSourceAndTarget();
  a.align(out1);
  b.setInputTarget(make(false)); b.setInputSource(make(true)); if (swap) b.swapSourceAndTarget();
  churn(r);
  b.align(out2);
  const auto sc = b.getSourceCovariances(), tc = b.getTargetCovariances();
  c.check(result_hash(a.getRegistrationResult()) == result_hash(b.getRegistrationResult()), "pcl-inputs", "the result depends on whether the caller keeps the clouds");
  bool same = out1.size() == out2.size();
  for (size_t i = 0; i < out1.size() && same; i++) same = out1[i].getVector3fMap() == out2[i].getVector3fMap();
  c.check(same, "pcl-output", "the output depends on whether the caller keeps the clouds");
  c.check(sc == a.getSourceCovariances() && tc == a.getTargetCovariances(), "pcl-covariances", "the covariances depend on whether the caller keeps the clouds");
  c.count("pcl_alignments");
}
#endif

int main(int argc, char** argv) {
  reg::Quiet quiet;
  return vf::main_loop(argc, argv, [](Case& c) {
    switch (c.idx % 10) {
      case 0: case 1: trees(c); break;
      case 2: maps<IncrementalVoxelMap<FlatContainerPoints>>(c, "points"); break;
      case 3: maps<IncrementalVoxelMap<FlatContainerNormal>>(c, "normals"); break;
      case 4: maps<IncrementalVoxelMap<FlatContainerCov>>(c, "covs"); break;
      case 5: maps<IncrementalVoxelMap<FlatContainerNormalCov>>(c, "normals-covs"); break;
      case 6: case 7: maps<GaussianVoxelMap>(c, "gaussian"); break;
      case 8: registrations(c); break;
      default:
#ifndef VF_NOPCL
        if (c.rng.coin(0.3)) pcl_inputs(c); else
#endif
        products(c);
    }
  });
}
