// C08: random downsampling is a uniform sample without replacement.
#include "down.hpp"
#include <random>
#include <small_gicp/util/downsampling.hpp>
using namespace small_gicp;

template <typename RNG>
static void exactness(vf::Case& c, const vf::Pts& pts, size_t k, const char* name) {
  PointCloud in(pts);
  const uint32_t s = (uint32_t)c.rng.next();
  RNG a(s), b(s);
  auto o1 = random_sampling<PointCloud, PointCloud, RNG>(in, k, a);
  auto o2 = random_sampling<PointCloud, PointCloud, RNG>(in, k, b);
  const size_t want = std::min(k, pts.size());
  c.count("samples_drawn");
  if (!c.check(o1->size() == want && o1->normals.size() == want && o1->covs.size() == want, "wrong-size", "%s: %zu (normals %zu) instead of %zu", name, o1->size(), o1->normals.size(), want)) return;
  std::map<std::array<double, 3>, int> left;
  for (auto& p : pts) left[{p[0], p[1], p[2]}]++;
  for (size_t i = 0; i < want; i++) {
    auto& p = o1->points[i];
    int& l = left[{p[0], p[1], p[2]}];
    c.check(l > 0, "not-a-sample", "%s: output %zu is not an input point or is used more than once", name, i);
    l--;
    c.check(p[3] == 1.0, "w", "%s: w=%g", name, p[3]);
  }
  c.check(o2->size() == want, "nondeterministic", "%s: sizes differ for equal generator states", name);
  for (size_t i = 0; i < std::min(want, o2->size()); i++) c.check((o1->points[i] - o2->points[i]).norm() == 0, "nondeterministic", "%s: equal generator states gave different samples at %zu", name, i);
  c.check(a == b, "nondeterministic", "%s: generator states diverged", name);
}

// Inclusion frequencies of single points and of whole subsets against the uniform distribution.
template <typename RNG>
static void uniformity(vf::Case& c, size_t n, size_t k, int trials, const char* name) {
  vf::Pts pts;
  for (size_t i = 0; i < n; i++) pts.push_back(vf::P(i, 0.5, -1));
  PointCloud in(pts);
  RNG rng((uint32_t)c.rng.next());
  std::vector<double> cnt(n, 0);
  std::map<uint64_t, double> sub;
  for (int t = 0; t < trials; t++) {
    auto o = random_sampling<PointCloud, PointCloud, RNG>(in, k, rng);
    uint64_t m = 0;
    for (auto& p : o->points) { size_t i = (size_t)p[0]; if (i >= n) { c.fail("not-a-sample", "foreign point"); return; } cnt[i]++; if (n < 64) m |= 1ull << i; }
    sub[m]++;
  }
  const double p = double(k) / n, e = trials * p, sd = std::sqrt(trials * p * (1 - p));
  for (size_t i = 0; i < n; i++) {
    c.check(std::abs(cnt[i] - e) <= 7.5 * sd + 1e-9, "not-uniform", "%s: point %zu of %zu drawn %g times in %d trials of %zu, expected %g +- %g", name, i, n, cnt[i], trials, k, e, sd);
    if (sd > 0) c.maxi("max_inclusion_z", std::abs(cnt[i] - e) / sd);
  }
  if (n <= 8) {
    double nsub = 1;
    for (size_t i = 0; i < k; i++) nsub = nsub * (n - i) / (i + 1);
    const double es = trials / nsub;
    if (es > 50) {
      c.check(sub.size() == (size_t)std::llround(nsub), "not-uniform", "%s: %zu of %g subsets of %zu out of %zu seen in %d trials", name, sub.size(), nsub, k, n, trials);
      for (auto& kv : sub) c.check(std::abs(kv.second - es) <= 7.5 * std::sqrt(es), "not-uniform", "%s: a subset of %zu out of %zu was drawn %g times, expected %g", name, k, n, kv.second, es);
    }
  }
  c.count("uniformity_trials", trials);
}

// Large clouds: how often each section of the cloud, each residue class, adjacent points and the points of the sample before are drawn.
template <typename RNG>
static void uniformity_large(vf::Case& c, size_t n, size_t k, int trials, const char* name) {
  PointCloud in; in.points.resize(n);
  for (size_t i = 0; i < n; i++) in.point(i) = vf::P(i, 0.5, -1);
  RNG rng((uint32_t)c.rng.next());
  const int B = 16, M = c.rng.pick({2, 3, 7, 10, 16, 64});
  std::vector<double> bin(B, 0), res(M, 0);
  double adj = 0, adj2 = 0, over = 0; std::vector<char> last(n, 0), now(n, 0);
  for (int t = 0; t < trials; t++) {
    auto o = random_sampling<PointCloud, PointCloud, RNG>(in, k, rng);
    std::fill(now.begin(), now.end(), 0);
    for (auto& p : o->points) { const size_t i = (size_t)p[0]; if (i >= n || now[i]) { c.fail("not-a-sample", "%s: foreign or repeated point", name); return; } now[i] = 1; bin[i * B / n]++; res[i % M]++; over += last[i]; }
    double a = 0; for (size_t i = 0; i + 1 < n; i++) a += now[i] && now[i + 1];
    adj += a; adj2 += a * a; std::swap(last, now);
  }
  const double N = n, K = k, T = trials;
  auto z = [&](double got, double m, double draws, const char* what, int i) {  // hypergeometric: m of N points are marked
    const double e = draws * K * m / N, sd = std::sqrt(draws * K * (m / N) * (1 - m / N) * (N - K) / (N - 1));
    const double x = std::abs(got - e) / (sd + 1e-9); if (sd > 3) c.maxi("max_section_z", x);
    c.check(std::abs(got - e) <= 7.5 * sd + 3, "not-uniform", "%s: %s %d of %zu points drawn %g times in %d trials of %zu, expected %g +- %g", name, what, i, n, got, trials, k, e, sd);
  };
  for (int i = 0; i < B; i++) { size_t m = 0; m = ((size_t)(i + 1) * n + B - 1) / B - ((size_t)i * n + B - 1) / B; z(bin[i], m, T, "section", i); }
  for (int i = 0; i < M; i++) z(res[i], n / M + (i < (int)(n % M)), T, "residue", i);
  z(over, K, T - 1, "points of the sample before, trial", trials);
  const double ea = K * (K - 1) / N, sd1 = std::sqrt(std::max(adj2 / T - adj / T * adj / T, ea * 0.2)) + 0.1;
  c.check(std::abs(adj / T - ea) <= 8 * sd1 / std::sqrt(T) + 0.2, "not-uniform", "%s: %g pairs of adjacent points per sample of %zu out of %zu, expected %g", name, adj / T, k, n, ea);
  c.count("large_uniformity_trials", trials);
}

static void run_case(vf::Case& c) {
  vf::Rng& r = c.rng;
  if (c.idx % 10 == 0) {
    size_t n = r.pick<size_t>({2, 3, 5, 6, 7, 8, 20, 50}), k = 1 + r.u(n);
    int trials = c.thorough ? 40000 : 6000;
    c.describe("uniformity n=%zu k=%zu", n, k);
    c.nontrivial();
    switch (r.u(3)) {
      case 0: uniformity<std::mt19937>(c, n, k, trials, "mt19937"); break;
      case 1: uniformity<std::mt19937_64>(c, n, k, trials, "mt19937_64"); break;
      default: uniformity<std::minstd_rand>(c, n, k, trials, "minstd_rand"); break;
    }
    return;
  }
  if (c.idx % 40 == 5) {
    size_t n = (size_t)r.logreal(600, c.idx % 80 == 5 ? 120000 : 5000), k = r.coin() ? (size_t)r.logreal(2, n) : n - (size_t)r.logreal(1, n / 2);
    int trials = std::max<int>(30, std::min<size_t>(400, 4000000 / n));
    c.describe("uniformity of large samples n=%zu k=%zu", n, k); c.nontrivial();
    switch (r.u(3)) {
      case 0: uniformity_large<std::mt19937>(c, n, k, trials, "mt19937"); break;
      case 1: uniformity_large<std::mt19937_64>(c, n, k, trials, "mt19937_64"); break;
      default: uniformity_large<std::minstd_rand>(c, n, k, trials, "minstd_rand"); break;
    }
    return;
  }
  size_t n = r.pick<size_t>({0, 1, 2, r.u(20), r.u(500), r.u(3000)});
  int kind = r.u(vf::CLOUD_KINDS);
  vf::Pts pts = vf::gen_cloud(r, n, kind);
  size_t k = r.pick<size_t>({0, 1, n, n + 1, n + 100, n ? n - 1 : 0, r.u(n + 1), r.u(n + 1)});
  c.describe("%s n=%zu k=%zu", vf::kind_name(kind), n, k);
  if (n) c.nontrivial(); else c.count("empty_inputs");
  switch (r.u(4)) {
    case 0: exactness<std::mt19937>(c, pts, k, "mt19937"); break;
    case 1: exactness<std::mt19937_64>(c, pts, k, "mt19937_64"); break;
    case 2: exactness<std::minstd_rand>(c, pts, k, "minstd_rand"); break;
    default: exactness<std::ranlux24_base>(c, pts, k, "ranlux24_base"); break;
  }
}
int main(int argc, char** argv) { return vf::main_loop(argc, argv, run_case); }
