// C09: parallel sorts return a sorted permutation under every schedule.  Guard elements around the range catch
// out-of-range accesses in the flavours without ASan; payload ids make the multiset check exact.
#include "vf.hpp"
#include <tbb/tbb.h>
#include <small_gicp/util/sort_omp.hpp>
#include <small_gicp/util/sort_tbb.hpp>
using vf::Case;

static std::vector<uint64_t> gen_keys(vf::Rng& r, size_t n, std::string& name, uint64_t mask) {
  std::vector<uint64_t> k(n);
  const int kind = r.u(10);
  static const char* names[] = {"random", "few", "sorted", "reversed", "organ", "constant", "runs", "almost", "twovals", "extremes"};
  name = names[kind];
  for (size_t i = 0; i < n; i++) {
    switch (kind) {
      case 0: k[i] = r.next(); break;
      case 1: k[i] = r.u(5); break;
      case 2: k[i] = i; break;
      case 3: k[i] = n - i; break;
      case 4: k[i] = i < n / 2 ? i : n - i; break;
      case 5: k[i] = 42; break;
      case 6: k[i] = i % (1 + n / 7); break;
      case 7: k[i] = r.coin(0.02) ? r.next() : i; break;
      case 8: k[i] = r.coin() ? 1 : 1000000; break;
      case 9: k[i] = r.coin(0.3) ? 0 : r.coin(0.5) ? ~0ull : r.next(); break;
    }
    k[i] &= mask;
  }
  return k;
}

template <typename T> static uint64_t key_of(const T& t);
struct Big { uint64_t key; uint32_t id; std::string s; };
template <> uint64_t key_of(const std::pair<uint64_t, size_t>& t) { return t.first; }
template <> uint64_t key_of(const Big& t) { return t.key; }
template <typename T> static T make(uint64_t k, size_t id);
template <> std::pair<uint64_t, size_t> make(uint64_t k, size_t id) { return {k, id}; }
template <> Big make(uint64_t k, size_t id) { return {k, (uint32_t)id, "element-with-heap-storage-" + std::to_string(id)}; }
static size_t id_of(const std::pair<uint64_t, size_t>& t) { return t.second; }
static size_t id_of(const Big& t) { return t.s == "element-with-heap-storage-" + std::to_string(t.id) ? t.id : ~0ull; }

template <typename T>
static void omp_case(Case& c, size_t n) {
  vf::Rng& r = c.rng;
  std::string kn;
  auto keys = gen_keys(r, n, kn, ~0ull);
  const int threads = r.pick({1, 2, 3, 4, 4, 8}), which = r.u(2), order = r.u(3);
  c.describe("%s n=%zu keys=%s threads=%d order=%d", which ? "quick_sort_omp" : "merge_sort_omp", n, kn.c_str(), threads, order);
  const size_t G = 3;
  std::vector<T> v;
  for (size_t i = 0; i < G; i++) v.push_back(make<T>(0x1234567800 + i, 9000000 + i));
  for (size_t i = 0; i < n; i++) v.push_back(make<T>(keys[i], i));
  for (size_t i = 0; i < G; i++) v.push_back(make<T>(0x77 + i, 9100000 + i));
  auto run = [&](auto comp) {
    if (which) small_gicp::quick_sort_omp(v.begin() + G, v.begin() + G + n, comp, threads);
    else small_gicp::merge_sort_omp(v.begin() + G, v.begin() + G + n, comp, threads);
    for (size_t i = G + 1; i < G + n; i++) c.check(!comp(v[i], v[i - 1]), "not-sorted", "position %zu of %zu", i - G, n);
  };
  if (order == 0) run([](const T& a, const T& b) { return key_of(a) < key_of(b); });
  else if (order == 1) run([](const T& a, const T& b) { return key_of(a) > key_of(b); });
  else run([](const T& a, const T& b) { return (key_of(a) >> 3) < (key_of(b) >> 3); });
  std::vector<char> seen(n, 0);
  for (size_t i = G; i < G + n; i++) {
    size_t id = id_of(v[i]);
    if (!c.check(id < n, "corrupt-element", "position %zu holds id %zu", i - G, id)) return;
    c.check(!seen[id], "duplicated-element", "element %zu appears twice (another is lost)", id);
    seen[id] = 1;
    c.check(key_of(v[i]) == keys[id], "key-payload-mismatch", "element %zu has key %llu, expected %llu", id, (unsigned long long)key_of(v[i]), (unsigned long long)keys[id]);
  }
  for (size_t i = 0; i < G; i++) c.check(id_of(v[i]) == 9000000 + i && id_of(v[G + n + i]) == 9100000 + i, "out-of-range", "guard element %zu modified", i);
  c.count(which ? "quick_sorted_elements" : "merge_sorted_elements", n);
}

template <typename K, int BITS, int TILE>
static void radix_one(Case& c, size_t n, small_gicp::RadixSortBuffers<std::pair<uint64_t, size_t>>& buf, bool use_buf) {
  vf::Rng& r = c.rng;
  std::string kn;
  const uint64_t mask = sizeof(K) == 8 ? ~0ull : ((1ull << (8 * sizeof(K))) - 1);
  auto keys = gen_keys(r, n, kn, mask);
  c.describe("radix%zu/%d/%d n=%zu keys=%s buf=%d", sizeof(K) * 8, BITS, TILE, n, kn.c_str(), use_buf);
  const size_t G = 3;
  using T = std::pair<uint64_t, size_t>;
  std::vector<T> v(n + 2 * G, T(0x55, 9000000));
  for (size_t i = 0; i < n; i++) v[G + i] = {keys[i], i};
  const auto kf = [](const T& t) { return (K)t.first; };
  if (use_buf) small_gicp::radix_sort_tbb<T, decltype(kf), BITS, TILE>(v.data() + G, v.data() + G + n, kf, buf);
  else small_gicp::radix_sort_tbb(v.data() + G, v.data() + G + n, kf);
  std::vector<char> seen(n, 0);
  for (size_t i = 0; i < n; i++) {
    const T& t = v[G + i];
    if (!c.check(t.second < n, "corrupt-element", "position %zu holds id %zu", i, t.second)) return;
    c.check(!seen[t.second], "duplicated-element", "element %zu twice", t.second);
    seen[t.second] = 1;
    c.check(t.first == keys[t.second], "key-payload-mismatch", "element %zu", t.second);
    if (i) {
      c.check(v[G + i - 1].first <= t.first, "not-sorted", "position %zu of %zu: %llx after %llx", i, n, (unsigned long long)t.first, (unsigned long long)v[G + i - 1].first);
      if (v[G + i - 1].first == t.first) c.check(v[G + i - 1].second < t.second, "not-stable", "equal keys reordered at position %zu of %zu", i, n);
    }
  }
  for (size_t i = 0; i < G; i++) c.check(v[i] == T(0x55, 9000000) && v[G + n + i] == T(0x55, 9000000), "out-of-range", "guard modified");
  c.count("radix_sorted_elements", n);
}

static size_t gen_n(vf::Rng& r) {
  return r.pick<size_t>({0, 1, 2, r.u(20), 255 + r.u(3), r.u(300), 510 + r.u(4), 1022 + r.u(4), 1024, 1025, 1024 + r.u(100), 2047 + r.u(3), r.u(3000), 3000 + r.u(6000)});
}
static void run_case(Case& c) {
  vf::Rng& r = c.rng;
  const int what = r.u(10);
  size_t n = gen_n(r);
  if (c.rare(151, 5)) { n = 66000 + r.u(70000); c.count("large_ranges"); }
  if (n > 1) c.nontrivial();
  if (what < 5) omp_case<std::pair<uint64_t, size_t>>(c, n);
  else if (what == 5) omp_case<Big>(c, std::min<size_t>(n, 4000));
  else {
    small_gicp::RadixSortBuffers<std::pair<uint64_t, size_t>> buf;
    const int reps = r.pick({1, 2, 3});   // buffers reused with growing and shrinking sizes
    for (int i = 0; i < reps; i++, n = gen_n(r)) {
      switch (r.u(8)) {
        case 0: radix_one<uint8_t, 8, 256>(c, n, buf, true); break;
        case 1: radix_one<uint16_t, 8, 256>(c, n, buf, true); break;
        case 2: radix_one<uint32_t, 8, 256>(c, n, buf, true); break;
        case 3: radix_one<uint64_t, 8, 256>(c, n, buf, true); break;
        case 4: radix_one<uint64_t, 4, 64>(c, n, buf, true); break;
        case 5: radix_one<uint16_t, 4, 256>(c, n, buf, r.coin()); break;
        case 6: radix_one<uint32_t, 12, 100>(c, n, buf, true); break;   // an odd number of passes
        default: radix_one<uint64_t, 8, 256>(c, n, buf, false); break;
      }
    }
  }
}
int main(int argc, char** argv) { return vf::main_loop(argc, argv, run_case); }
