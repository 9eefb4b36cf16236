// C06: sequential voxel-grid downsampling gives one exact centroid per occupied voxel.
#include "down.hpp"
#include <small_gicp/util/downsampling.hpp>
using namespace small_gicp;
static void run_case(vf::Case& c) {
  vf::Rng& r = c.rng;
  size_t n = r.pick<size_t>({0, 1, 2, 3, r.u(20), r.u(200), r.u(1000), r.u(3000)});
  if (c.rare(401, 5)) { n = 66000 + r.u(70000); c.count("large_clouds"); }
  DownCase d;
  gen_down(c, d, n, r.coin(0.1));
  const int type = r.u(4);
  c.describe("type=%d", type);
  if (type == 0) { PointCloud in(d.pts); for (size_t i = 0; i < d.pts.size(); i++) in.point(i) = d.pts[i]; judge_down(c, d, *voxelgrid_sampling(in, d.res), "PointCloud", 0); }
  else if (type == 1) {
    Eigen::MatrixXd in(d.pts.size(), 3 + r.u(2));
    for (size_t i = 0; i < d.pts.size(); i++) for (int a = 0; a < in.cols(); a++) in(i, a) = d.pts[i][a];
    judge_down(c, d, *voxelgrid_sampling<Eigen::MatrixXd, PointCloud>(in, d.res), "MatrixXd", 0);
  } else if (type == 2) {
    MyCloud in; for (auto& p : d.pts) in.xyz.push_back({p[0], p[1], p[2]});
    judge_down(c, d, *voxelgrid_sampling<MyCloud, MyOut>(in, d.res), "user type", 0);
  } else {
    // same result for any order of the points
    PointCloud in(d.pts);
    for (size_t a = in.size(); a > 1; a--) std::swap(in.points[a - 1], in.points[r.u(a)]);
    auto out = voxelgrid_sampling(in, d.res);
    judge_down(c, d, *out, "PointCloud shuffled", 0);
    c.check(out->points.size() == out->normals.size() && out->points.size() == out->covs.size(), "attribute-size", "points %zu normals %zu covs %zu", out->points.size(), out->normals.size(), out->covs.size());
  }
}
int main(int argc, char** argv) { return vf::main_loop(argc, argv, run_case); }
