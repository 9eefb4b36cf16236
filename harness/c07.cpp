// C07: parallel downsampling conserves points under every schedule.
#include "down.hpp"
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
using namespace small_gicp;
static void run_case(vf::Case& c) {
  vf::Rng& r = c.rng;
  size_t n = r.pick<size_t>({0, 1, 2, r.u(60), 1020 + r.u(10), r.u(2000), 2040 + r.u(20), 1000 + r.u(4000), 2000 + r.u(8000)});
  if (c.rare(151, 5)) { n = 66000 + r.u(70000); c.count("large_clouds"); }
  DownCase d;
  gen_down(c, d, n, r.coin(0.4));
  const size_t max_extra = d.pts.size() / 512 + 1;
  const int type = r.u(4), threads = r.coin(0.03) ? r.pick({17, 33, 70}) : r.pick({1, 2, 3, 4, 4, 8});
  c.describe("type=%d threads=%d", type, threads);
  if (type < 2) {
    PointCloud in(d.pts);
    if (type == 0) { auto o = voxelgrid_sampling_omp(in, d.res, threads); judge_down(c, d, *o, "omp", max_extra); c.count("omp_calls"); c.check(o->points.size() == o->covs.size(), "attribute-size", "attributes differ in length"); }
    else { auto o = voxelgrid_sampling_tbb(in, d.res); judge_down(c, d, *o, "tbb", max_extra); c.count("tbb_calls"); }
  } else {
    MyCloud in; for (auto& p : d.pts) in.xyz.push_back({p[0], p[1], p[2]});
    if (type == 2) { judge_down(c, d, *voxelgrid_sampling_omp<MyCloud, MyOut>(in, d.res, threads), "omp user type", max_extra); c.count("omp_calls"); }
    else { judge_down(c, d, *voxelgrid_sampling_tbb<MyCloud, MyOut>(in, d.res), "tbb user type", max_extra); c.count("tbb_calls"); }
  }
}
int main(int argc, char** argv) { return vf::main_loop(argc, argv, run_case); }
