// C18: histories of operations on the PCL interface; after every alignment the long-lived object is compared with a
// freshly created one given the same current clouds, covariances and settings, and with the core components.
#include "reg.hpp"
#include <pcl/point_types.h>
#include <pcl/point_cloud.h>
#include <pcl/console/print.h>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/pcl/pcl_registration.hpp>
#include <small_gicp/util/normal_estimation.hpp>
using namespace reg;
using vf::Case;
typedef std::vector<Eigen::Matrix4d> Covs;

struct Settings {
  int threads = 4, k = 20, iters = 10; double voxel = 1.0, rot = 2e-3, trans = 5e-4, dist = 1000.0; std::string type = "GICP";
};

template <typename P> struct H {
  typedef pcl::PointCloud<P> Cloud; typedef typename Cloud::Ptr Ptr; typedef RegistrationPCL<P, P> R;

  static Ptr make(vf::Rng& r, const vf::Pts& pts) {
    auto c = pcl::make_shared<Cloud>();
    for (auto& v : pts) { P p; p.x = (float)v[0]; p.y = (float)v[1]; p.z = (float)v[2]; tag(p, (float)r.real(0, 100)); c->push_back(p); }
    return c;
  }
  static void tag(pcl::PointXYZ&, float) {}
  static void tag(pcl::PointXYZI& p, float v) { p.intensity = v; }
  static bool same_tag(const pcl::PointXYZ&, const pcl::PointXYZ&) { return true; }
  static bool same_tag(const pcl::PointXYZI& a, const pcl::PointXYZI& b) { return a.intensity == b.intensity; }

  static void apply(R& g, const Settings& s) {
    g.setNumThreads(s.threads); g.setNumNeighborsForCovariance(s.k); g.setVoxelResolution(s.voxel); g.setRotationEpsilon(s.rot); g.setTransformationEpsilon(s.trans);
    g.setMaxCorrespondenceDistance(s.dist); g.setMaximumIterations(s.iters); g.setRegistrationType(s.type);
  }
  static std::shared_ptr<PointCloud> native(const Cloud& c, const Covs& covs) {
    auto o = std::make_shared<PointCloud>(); o->resize(c.size());
    for (size_t i = 0; i < c.size(); i++) { o->point(i) = Eigen::Vector4d(c[i].x, c[i].y, c[i].z, 1.0); o->normal(i).setZero(); o->cov(i) = covs[i]; }
    return o;
  }
  static double cov_diff(const Covs& a, const Covs& b) { if (a.size() != b.size()) return 1e300; double d = 0; for (size_t i = 0; i < a.size(); i++) d = std::max(d, (a[i] - b[i]).norm()); return d; }

  static void run(Case& c, const char* name) {
    vf::Rng& r = c.rng;
    Quiet q;
    // a pool of clouds: views of one scene under small motions, plus unrelated and tiny ones
    std::vector<Ptr> pool;
    auto scene = vf::gen_scene(r, r.range(60, 260), 5.0, 0.02);
    const int npool = r.range(3, 5);
    for (int i = 0; i < npool; i++) {
      vf::Pts p; const Eigen::Isometry3d T = r.iso(0.1, 0.3);
      if (i == 0 || r.coin(0.8)) { for (auto& v : scene) if (r.coin(0.85)) p.push_back(vf::P(Eigen::Vector3d(T * Eigen::Vector3d(v.head<3>()) + 0.01 * r.vec3(1)))); }
      else p = vf::gen_cloud(r, r.pick({6, 30, 100}), vf::UNIFORM, 4.0);
      if (p.size() < 6) p = vf::gen_cloud(r, 20, vf::UNIFORM, 4.0);
      pool.push_back(make(r, p));
    }
    auto covs_for = [&](const Cloud& cl) { Covs v; for (size_t i = 0; i < cl.size(); i++) { const Eigen::Matrix3d M = r.rot(); v.push_back(cov4(M * Eigen::Vector3d(r.pick({1e-3, 0.1}), 1, r.pick({1.0, 0.3})).asDiagonal() * M.transpose())); } return v; };

    R g; Settings s; if (r.coin()) s.type = "VGICP";
    apply(g, s);
    Ptr src, tgt; Covs scov, tcov;   // model: empty covariances = to be estimated by the next alignment
    std::string hist; int aligns = 0;
    if (r.coin(0.85)) { src = r.pick(pool); tgt = r.pick(pool); g.setInputSource(src); g.setInputTarget(tgt); hist = " S T"; }
    const int steps = r.range(6, 26);
    bool serial = r.coin(0.7);
    for (int step = 0; step < steps; step++) {
      const int op = r.u(26); char b[96];
      switch (op) {
        case 0: case 1: { Ptr p = r.pick(pool); if (p != src) { src = p; scov.clear(); } g.setInputSource(p); hist += " S"; c.count("set_source"); break; }
        case 2: case 3: { Ptr p = r.pick(pool); if (p != tgt) { tgt = p; tcov.clear(); } g.setInputTarget(p); hist += " T"; c.count("set_target"); break; }
        case 4: if (src) { Covs v = covs_for(*src); if (r.coin(0.2)) { v.push_back(v[0]); g.setSourceCovariances(v); c.count("rejected_covariances"); hist += " sc!"; } else { g.setSourceCovariances(v); scov = v; c.count("set_covariances"); hist += " sc"; } } else if (r.coin(0.3)) { g.setSourceCovariances(Covs(3, Eigen::Matrix4d::Identity())); c.count("rejected_covariances"); } break;
        case 5: if (tgt) { Covs v = covs_for(*tgt); if (r.coin(0.2)) { v.pop_back(); g.setTargetCovariances(v); c.count("rejected_covariances"); hist += " tc!"; } else { g.setTargetCovariances(v); tcov = v; c.count("set_covariances"); hist += " tc"; } } else if (r.coin(0.3)) { g.setTargetCovariances(Covs(3, Eigen::Matrix4d::Identity())); c.count("rejected_covariances"); } break;
        case 6: case 7: g.swapSourceAndTarget(); std::swap(src, tgt); scov.swap(tcov); hist += " swap"; c.count("swaps"); break;
        case 8: if (r.coin(0.6)) { g.clearSource(); src.reset(); scov.clear(); hist += " cS"; } else { g.clearTarget(); tgt.reset(); tcov.clear(); hist += " cT"; } c.count("clears"); break;
        case 9: { const int n = serial ? r.pick({1, 1, 0, -3}) : r.pick({1, 2, 3, 4, 0, -1}); g.setNumThreads(n); s.threads = n <= 0 ? 1 : n; if (n <= 0) c.count("invalid_settings"); hist += " n"; break; }
        case 10: { const int k = r.pick({5, 8, 10, 20, 30, 4, 0, -7}); if (r.coin()) g.setCorrespondenceRandomness(k); else g.setNumNeighborsForCovariance(k); s.k = std::max(k, 5); if (k < 5) c.count("invalid_settings"); hist += " k"; break; }
        case 11: { const double v = r.pick({0.3, 0.7, 1.0, 2.0, 4.0, 0.0, -1.0}); g.setVoxelResolution(v); s.voxel = v <= 0 ? 1.0 : v; if (v <= 0) c.count("invalid_settings"); snprintf(b, sizeof b, " v%g", v); hist += b; break; }
        case 12: s.rot = r.pick({1e-4, 2e-3, 0.05}); g.setRotationEpsilon(s.rot); s.trans = r.pick({1e-4, 5e-4, 0.05}); g.setTransformationEpsilon(s.trans); break;
        case 13: s.dist = r.pick({0.3, 1.0, 5.0, 1000.0}); g.setMaxCorrespondenceDistance(s.dist); hist += " d"; break;
        case 14: s.iters = r.pick({1, 2, 5, 10, 30}); g.setMaximumIterations(s.iters); hist += " i"; break;
        case 15: { const std::string t = r.pick({std::string("GICP"), std::string("VGICP"), std::string("NDT"), std::string(""), std::string("gicp")}); g.setRegistrationType(t); if (t == "GICP" || t == "VGICP") s.type = t; else c.count("invalid_settings"); hist += " " + t; break; }
        case 16: { auto e = pcl::make_shared<Cloud>(); if (r.coin()) { g.setInputSource(e); if (src) {} } else g.setInputTarget(e); c.count("rejected_empty_clouds"); hist += " empty!";
            // the rejected cloud leaves the current one in place; whether its covariances survive shows in the getters
            scov = g.getSourceCovariances(); tcov = g.getTargetCovariances();
            break; }
        default: {
          if (!src || !tgt) { if (r.coin(0.2)) { Cloud out; g.align(out); c.count("aligns_without_cloud"); } break; }
          compare(c, g, s, src, tgt, scov, tcov, hist, serial, ++aligns, name);
          hist += " A";
        }
      }
      if (src) c.check(g.getInputSource() == src, "source-cloud", "history%s: the source cloud is not the one last set", hist.c_str());
      if (tgt) c.check(g.getInputTarget() == tgt, "target-cloud", "history%s: the target cloud is not the one last set", hist.c_str());
      c.check(!src || cov_diff(g.getSourceCovariances(), scov) <= 1e-9, "source-covs", "history%s: source covariances differ from those supplied or estimated", hist.c_str());
      c.check(!tgt || cov_diff(g.getTargetCovariances(), tcov) <= 1e-9, "target-covs", "history%s: target covariances differ from those supplied or estimated", hist.c_str());
    }
    c.describe("%s steps=%d aligns=%d history:%s", name, steps, aligns, hist.c_str());
    c.sig(c.idx);
    if (aligns > 1) c.nontrivial();
  }

  static void compare(Case& c, R& g, const Settings& s, Ptr src, Ptr tgt, Covs& scov, Covs& tcov, const std::string& hist, bool serial, int nth, const char* name) {
    vf::Rng& r = c.rng;
    const char* h = hist.c_str();
    Eigen::Isometry3f guess = Eigen::Isometry3f::Identity();
    if (r.coin(0.6)) guess = Eigen::Isometry3f(r.iso(0.1, 0.3).matrix().cast<float>());
    Cloud out, fout;
    if (r.coin(0.3)) out.resize(r.range(0, 500));
    const uint64_t before = vf::mix64(src->size() * 31 + tgt->size());
    std::vector<float> xs; for (auto& p : *src) xs.push_back(p.x + p.y + p.z); for (auto& p : *tgt) xs.push_back(p.x + p.y + p.z);
    g.align(out, guess.matrix());
    size_t at = 0; bool same_in = true; for (auto& p : *src) same_in = same_in && xs[at++] == p.x + p.y + p.z; for (auto& p : *tgt) same_in = same_in && xs[at++] == p.x + p.y + p.z;
    c.check(same_in, "inputs-modified", "history%s: align changed an input cloud", h); (void)before;
    // fresh object
    R f; apply(f, s);
    f.setInputTarget(tgt); f.setInputSource(src);
    if (scov.size()) f.setSourceCovariances(scov);
    if (tcov.size()) f.setTargetCovariances(tcov);
    f.align(fout, guess.matrix());
    const auto &A = g.getRegistrationResult(), &B = f.getRegistrationResult();
    // covariances: supplied ones untouched, others estimated on the current cloud with the current k
    c.check(!scov.size() || cov_diff(f.getSourceCovariances(), scov) == 0, "supplied-source-covs", "supplied covariances were changed");
    c.check(!tcov.size() || cov_diff(f.getTargetCovariances(), tcov) == 0, "supplied-target-covs", "supplied covariances were changed");
    c.check(cov_diff(g.getSourceCovariances(), f.getSourceCovariances()) <= 1e-9, "aligned-source-covs", "history%s A: source covariances differ from a fresh object's by %.3g", h, cov_diff(g.getSourceCovariances(), f.getSourceCovariances()));
    c.check(cov_diff(g.getTargetCovariances(), f.getTargetCovariances()) <= 1e-9, "aligned-target-covs", "history%s A: target covariances differ from a fresh object's by %.3g", h, cov_diff(g.getTargetCovariances(), f.getTargetCovariances()));
    auto est = [&](const Cloud& cl) { Covs dummy(cl.size(), Eigen::Matrix4d::Zero()); auto n = native(cl, dummy); KdTree<PointCloud> t(n); estimate_covariances(*n, t, s.k); return n->covs; };
    if (!scov.size()) { c.count("estimated_covariances"); c.check(cov_diff(est(*src), f.getSourceCovariances()) <= 1e-6, "estimated-source-covs", "estimated covariances differ from estimate_covariances by %.3g", cov_diff(est(*src), f.getSourceCovariances())); }
    if (!tcov.size()) c.check(cov_diff(est(*tgt), f.getTargetCovariances()) <= 1e-6, "estimated-target-covs", "estimated covariances differ from estimate_covariances by %.3g", cov_diff(est(*tgt), f.getTargetCovariances()));
    scov = f.getSourceCovariances(); tcov = f.getTargetCovariances();
    // core pipeline on the same data
    auto nt = native(*tgt, tcov), ns = native(*src, scov);
    auto core = [&](int iters, double wobble) {
      Registration<GICPFactor, SerialReduction> rg; rg.criteria.rotation_eps = s.rot; rg.criteria.translation_eps = s.trans; rg.rejector.max_dist_sq = s.dist * s.dist; rg.optimizer.max_iterations = iters;
      auto t = nt; if (wobble > 0) { t = std::make_shared<PointCloud>(*nt); for (size_t i = 0; i < t->size(); i++) t->point(i).template head<3>() += wobble * r.vec3(1); }
      const Eigen::Isometry3d i0(guess.matrix().cast<double>());
      if (s.type == "VGICP") { GaussianVoxelMap vm(s.voxel); vm.insert(*t); return rg.align(vm, *ns, vm, i0); }
      KdTree<PointCloud> tree(t); return rg.align(*t, *ns, tree, i0);
    };
    const auto K = core(s.iters, 0);
    double sens = 0; bool steady = true;
    for (int w = 0; w < 3; w++) { const auto W = core(s.iters, 1e-13); sens = std::max(sens, (W.T_target_source.matrix() - K.T_target_source.matrix()).norm()); steady = steady && W.iterations == K.iterations && W.num_inliers == K.num_inliers && W.converged == K.converged && sens < 1e-9; }
    if (steady && K.num_inliers && (core((int)K.iterations, 0).T_target_source.matrix() - K.T_target_source.matrix()).norm() < 1e-7) steady = false;
    c.count("alignments"); c.count("type_" + s.type); if (nth > 1) c.count("later_alignments");
    auto cmp = [&](const char* what, const RegistrationResult& X, const RegistrationResult& Y, double tol) {
      const double d = (X.T_target_source.matrix() - Y.T_target_source.matrix()).norm();
      c.maxi(std::string("max_pose_difference_") + what, d);
      c.check(d <= tol, std::string("pose-") + what, "history%s A(%s): pose differs from %s by %.3g", h, s.type.c_str(), what, d);
      c.check((X.H - Y.H).norm() <= 1e-6 * (1e-9 + Y.H.norm()), std::string("hessian-") + what, "history%s A: Hessian differs from %s by %.3g of %.3g", h, what, (X.H - Y.H).norm(), Y.H.norm());
      c.check(X.converged == Y.converged && X.iterations == Y.iterations && X.num_inliers == Y.num_inliers, std::string("outcome-") + what, "history%s A: converged/iterations/inliers %d/%zu/%zu, %s %d/%zu/%zu", h, (int)X.converged, (size_t)X.iterations, (size_t)X.num_inliers, what, (int)Y.converged, (size_t)Y.iterations, (size_t)Y.num_inliers);
      c.count(std::string("compared_with_") + what);
    };
    // (the object sums in parallel)
    vf::SecondLook look(c, [&] {
      for (int i = 0; i < 15; i++) {
        R x; apply(x, s); x.setNumThreads(1 + i % 5); x.setInputTarget(tgt); x.setInputSource(src); x.setSourceCovariances(scov); x.setTargetCovariances(tcov); Cloud o; x.align(o, guess.matrix());
        const auto& X = x.getRegistrationResult();
        if (X.iterations != B.iterations || X.num_inliers != B.num_inliers || X.converged != B.converged || (X.T_target_source.matrix() - B.T_target_source.matrix()).norm() > 1e-8) return false;
      }
      return settled(K, [&](double amp) { return core(s.iters, amp); });
    });
    if (steady) {
      cmp("fresh", A, B, 1e-8 + 1e3 * sens);
      cmp("core", A, K, 1e-8 + 1e3 * sens);
      c.check(g.hasConverged() == f.hasConverged() && g.hasConverged() == A.converged, "has-converged", "history%s A: hasConverged()=%d, result %d, fresh %d", h, (int)g.hasConverged(), (int)A.converged, (int)f.hasConverged());
      c.check((g.getFinalHessian() - A.H).norm() == 0, "final-hessian", "getFinalHessian() is not the result's");
      const double fa = g.getFitnessScore(), fb = f.getFitnessScore();
      c.check(vf::close(fa, fb, 1e-3, 1e-6), "fitness", "history%s A: fitness score %.9g, fresh object %.9g", h, fa, fb);
      c.count("fitness_scores");
    } else c.count("rounding_sensitive_alignments");
    look.end();
    // pose and output cloud
    const Eigen::Matrix4f F = g.getFinalTransformation();
    c.check((F - A.T_target_source.matrix().template cast<float>()).norm() == 0, "final-transformation", "getFinalTransformation() is not the reported pose");
    if (c.check(out.size() == src->size(), "output-size", "history%s A: output has %zu points, source %zu", h, out.size(), src->size())) {
      for (size_t i = 0; i < out.size(); i++) {
        const Eigen::Vector3d p = A.T_target_source * Eigen::Vector3d((*src)[i].x, (*src)[i].y, (*src)[i].z), o(out[i].x, out[i].y, out[i].z);
        if (!c.check((p - o).norm() <= 1e-5 * (1 + p.norm()) && same_tag(out[i], (*src)[i]), "output-point", "history%s A: output point %zu is off by %.3g", h, i, (p - o).norm())) break;
        c.count("output_points");
      }
      // independent fitness score: mean squared distance of the output to the target
      double sum = 0; for (auto& p : out) { double best = 1e300; for (auto& t : *tgt) best = std::min(best, (double)(p.getVector3fMap() - t.getVector3fMap()).squaredNorm()); sum += best; }
      const double fit = g.getFitnessScore();
      c.check(vf::close(fit, sum / out.size(), 1e-2, 1e-6), "fitness-value", "history%s A: fitness score %.9g, mean squared distance to the current target %.9g", h, fit, sum / out.size());
    }
  }
};

int main(int argc, char** argv) {
  pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS);
  return vf::main_loop(argc, argv, [](Case& c) {
    if (c.idx % 3) H<pcl::PointXYZ>::run(c, "PointXYZ"); else H<pcl::PointXYZI>::run(c, "PointXYZI");
  });
}
