// Drives the real shufflers and prints records.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "DPPIR/shuffle/local_shuffle.h"
#include "DPPIR/shuffle/parallel_shuffle.h"

using namespace DPPIR;
using shuffle::LocalShuffler;
using shuffle::ParallelShuffler;

static uint64_t st;
static uint64_t Next() {
  uint64_t z = (st += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static int Seed() {
  switch (Next() % 8) {
    case 0: return static_cast<int>(Next() % 20);
    case 1: return static_cast<int>(1000 + Next() % 20);
    default: return static_cast<int>(Next() >> 33);
  }
}
static int FreqSeed() { return static_cast<int>(Next() >> 33); }

template <typename V>
static void Arr(const char* name, const V& v, bool last = false) {
  printf("\"%s\":[", name);
  for (size_t i = 0; i < v.size(); i++) printf("%s%ld", i ? "," : "", static_cast<long>(v[i]));
  printf("]%s", last ? "" : ",");
}
template <typename V>
static void Arr2(const char* name, const V& v, bool last = false) {
  printf("\"%s\":[", name);
  for (size_t i = 0; i < v.size(); i++) {
    printf("%s[", i ? "," : "");
    for (size_t j = 0; j < v[i].size(); j++) printf("%s%ld", j ? "," : "", static_cast<long>(v[i][j]));
    printf("]");
  }
  printf("]%s", last ? "" : ",");
}

static void Local(index_t n, int seed) {
  LocalShuffler s(seed);
  std::vector<long> f, b, f2, b2;
  s.Initialize(n);
  for (index_t i = 0; i < n; i++) f.push_back(s.Shuffle(i));
  s.FinishForward();
  for (index_t i = 0; i < n; i++) b.push_back(s.Deshuffle(i));
  s.FinishBackward();
  // The maps of the next stage, of a different size, and then the same again.
  s.Initialize(n / 2 + 3);
  for (index_t i = 0; i < n / 2 + 3; i++) f2.push_back(s.Shuffle(i));
  for (index_t i = 0; i < n / 2 + 3; i++) b2.push_back(s.Deshuffle(i));
  printf("{\"t\":\"local\",\"n\":%u,\"seed\":%d,", n, seed);
  Arr("f", f); Arr("b", b);
  printf("\"again\":["); 
  printf("{"); Arr("f", f2); Arr("b", b2, true); printf("}]}\n");
}

static void LocalBig(index_t n, int seed) {
  LocalShuffler s(seed);
  s.Initialize(n);
  std::vector<unsigned char> seen(n, 0);
  long range = 0, dup = 0, rev = 0, fixed = 0;
  for (index_t i = 0; i < n; i++) {
    index_t j = s.Shuffle(i);
    if (j >= n) { range++; continue; }
    if (seen[j]++) dup++;
    if (j == i) fixed++;
    if (s.Deshuffle(j) != i) rev++;
  }
  printf("{\"t\":\"big\",\"what\":\"local\",\"n\":%u,\"seed\":%d,\"range\":%ld,\"dup\":%ld,\"rev\":%ld,\"other\":0}\n", n, seed, range, dup, rev);
}

struct Side {
  std::vector<long> fwd, to, noise, from, pre, src, fwd2, to2;
  std::vector<std::vector<long>> back;
  long slice;
};
static Side One(server_id_t id, server_id_t S, int seed, const std::vector<index_t>& counts, index_t noise, bool again) {
  Side r;
  ParallelShuffler p(id, S, seed);
  if (again) {  // an earlier stage with another load
    std::vector<index_t> other(S, 2);
    other[S - 1] = 0;
    p.Initialize(other.data(), 1);
    for (index_t i = 0; i < other[id]; i++) p.ShuffleOne();
    p.FinishForward();
  }
  p.Initialize(counts.data(), noise);
  r.slice = p.GetServerSliceSize();
  for (server_id_t t = 0; t < S; t++) {
    r.to.push_back(p.CountToServer(t));
    r.noise.push_back(p.CountNoiseToServer(t));
    r.from.push_back(p.CountFromServer(t));
    r.pre.push_back(p.PrefixSumCountFromServer(t));
  }
  for (index_t i = 0; i < counts[id]; i++) r.fwd.push_back(p.ShuffleOne());
  p.FinishForward();
  for (long i = 0; i < r.slice; i++) r.src.push_back(p.FindSourceOf(i));
  // Take the reverse positions in an interleaved order.
  r.back.resize(S);
  std::vector<long> left(r.to.begin(), r.to.end());
  for (bool more = true; more;) {
    more = false;
    for (server_id_t t = 0; t < S; t++) {
      if (left[t] <= 0) continue;
      r.back[t].push_back(p.DeshuffleOne(t));
      if (--left[t] > 0) more = true;
    }
    for (server_id_t t = 0; t < S; t++) if (left[t] > 0) more = true;
  }
  p.FinishBackward();
  return r;
}

static void Par(const std::vector<index_t>& counts, const std::vector<index_t>& noise, int seed, bool again) {
  server_id_t S = counts.size();
  printf("{\"t\":\"par\",\"S\":%d,\"seed\":%d,", S, seed);
  Arr("counts", counts); Arr("noise", noise);
  printf("\"side\":[");
  for (server_id_t id = 0; id < S; id++) {
    Side r = One(id, S, seed, counts, noise[id], again);
    printf("%s{\"slice\":%ld,", id ? "," : "", r.slice);
    Arr("fwd", r.fwd); Arr("to", r.to); Arr("noise", r.noise); Arr("from", r.from); Arr("pre", r.pre); Arr("src", r.src);
    Arr2("back", r.back, true);
    printf("}");
  }
  printf("]}\n");
}

static void ParBig(const std::vector<index_t>& counts, const std::vector<index_t>& noise, int seed) {
  server_id_t S = counts.size();
  long total = 0, bad_slice = 0, dup = 0, rev = 0, other = 0;
  for (index_t c : counts) total += c;
  std::vector<Side> sides;
  for (server_id_t id = 0; id < S; id++) sides.push_back(One(id, S, seed, counts, noise[id], false));
  for (server_id_t a = 0; a < S; a++) {
    long want = a + 1 < S ? total / S : total - (S - 1) * (total / S);
    if (sides[a].slice != want) bad_slice++;
    std::vector<std::vector<long>> sent(S);
    std::vector<long> nz(S, 0);
    for (size_t i = 0; i < sides[a].fwd.size(); i++) {
      long t = sides[a].fwd[i];
      if (t < 0 || t >= S) { other++; continue; }
      sent[t].push_back(i);
      if (i < noise[a]) nz[t]++;
    }
    long sum = 0;
    for (server_id_t b = 0; b < S; b++) {
      if (sides[a].to[b] != static_cast<long>(sent[b].size()) || sides[b].from[a] != sides[a].to[b]) other++;
      if (sides[a].noise[b] != nz[b]) other++;
      if (sides[a].back[b] != sent[b]) rev++;
      if (sides[a].pre[b] != sum) other++;
      for (long i = sum; i < sum + sides[a].from[b] && i < sides[a].slice; i++)
        if (sides[a].src[i] != b) { other++; break; }
      sum += sides[a].from[b];
    }
    if (sum != want) dup++;
  }
  printf("{\"t\":\"big\",\"what\":\"parallel\",\"n\":%ld,\"seed\":%d,\"range\":%ld,\"dup\":%ld,\"rev\":%ld,\"other\":%ld}\n", total, seed, bad_slice, dup, rev, other);
}

int main(int argc, char** argv) {
  std::string mode = argv[1];
  st = strtoull(argv[2], nullptr, 10) * 7919 + 17;
  long n = atol(argv[3]);
  if (mode == "local") {
    for (index_t k = 0; k <= 40; k++) Local(k, Seed());
    for (long i = 0; i < n; i++) Local(Next() % 60, Seed());
    for (long i = 0; i < 1 + n / 200; i++) Local(300 + Next() % 500, Seed());
  } else if (mode == "big") {
    for (index_t k : {65534u, 65535u, 65536u, 65537u, 131073u, 1000003u}) LocalBig(k, Seed());
    for (long i = 0; i < n; i++) LocalBig(1000 + Next() % 300000, Seed());
    for (long i = 0; i < 4 + n; i++) {
      server_id_t S = i == 0 ? 2 : 1 + Next() % 9;
      std::vector<index_t> c, z;
      for (server_id_t s = 0; s < S; s++) {
        c.push_back(Next() % 4 ? Next() % 70000 : (Next() % 2 ? 0 : 65536 + Next() % 3));
        z.push_back(Next() % (c.back() + 1));
      }
      ParBig(c, z, Seed());
    }
    std::vector<index_t> c(254, 3), z(254, 1);
    c[0] = 0; z[0] = 0; c[253] = 500;
    ParBig(c, z, Seed());
  } else if (mode == "par") {
    // Every load vector of small parties.
    for (int S = 1; S <= 4; S++) {
      int m = S <= 2 ? 5 : 3, lim = 1;
      for (int i = 0; i < S; i++) lim *= m + 1;
      for (int v = 0; v < lim; v++) {
        std::vector<index_t> c, z;
        for (int i = 0, x = v; i < S; i++, x /= m + 1) {
          c.push_back(x % (m + 1));
          z.push_back(Next() % (c.back() + 1));
        }
        Par(c, z, Seed(), Next() % 3 == 0);
      }
    }
    for (long i = 0; i < n; i++) {
      int S = 1 + Next() % 12;
      std::vector<index_t> c, z;
      for (int s = 0; s < S; s++) {
        c.push_back(Next() % 4 ? Next() % 20 : 0);
        z.push_back(Next() % (c.back() + 1));
      }
      Par(c, z, Seed(), Next() % 3 == 0);
    }
  } else if (mode == "freq") {
    for (int k = 2; k <= 5; k++) {  // all orders
      std::vector<int> p(k);
      for (int i = 0; i < k; i++) p[i] = i;
      std::map<std::vector<int>, long> h;
      do { h[p] = 0; } while (std::next_permutation(p.begin(), p.end()));
      for (long i = 0; i < n; i++) {
        LocalShuffler s(FreqSeed());
        s.Initialize(k);
        std::vector<int> q;
        for (int j = 0; j < k; j++) q.push_back(s.Shuffle(j));
        h[q]++;
      }
      std::vector<long> c;
      for (auto& e : h) c.push_back(e.second);
      printf("{\"t\":\"freq\",\"what\":\"orders of %d messages\",\"n\":%ld,", k, n);
      Arr("c", c, true); printf("}\n");
    }
    for (int k : {7, 16, 33, 100}) {  // where each input position goes
      long m = std::max<long>(n / 4, 60L * k);
      std::vector<std::vector<long>> c(k, std::vector<long>(k, 0));
      for (long i = 0; i < m; i++) {
        LocalShuffler s(FreqSeed());
        s.Initialize(k);
        for (int j = 0; j < k; j++) { index_t x = s.Shuffle(j); if (x < (index_t)k) c[j][x]++; }
      }
      printf("{\"t\":\"matrix\",\"what\":\"positions of %d messages\",\"n\":%ld,", k, m);
      Arr2("c", c, true); printf("}\n");
    }
    // Assignments to siblings: every way to respect the slice sizes.
    std::vector<std::vector<index_t>> loads = {{2, 2}, {4, 0}, {1, 4}, {2, 1, 0}, {2, 2, 2}, {0, 1, 4}, {1, 1, 1, 2}};
    for (auto& load : loads) {
      int S = load.size(), total = 0;
      for (index_t x : load) total += x;
      std::vector<int> a;
      for (int i = 0; i < total; i++) a.push_back(std::min(total / S ? i / (total / S) : S - 1, S - 1));
      std::map<std::vector<int>, long> h;
      do { h[a] = 0; } while (std::next_permutation(a.begin(), a.end()));
      for (long i = 0; i < n; i++) {
        int seed = FreqSeed();
        std::vector<int> q;
        for (int id = 0; id < S; id++) {
          ParallelShuffler p(id, S, seed);
          p.Initialize(load.data(), 0);
          for (index_t j = 0; j < load[id]; j++) q.push_back(p.ShuffleOne());
        }
        h[q]++;
      }
      std::vector<long> c;
      for (auto& e : h) c.push_back(e.second);
      printf("{\"t\":\"freq\",\"what\":\"assignments of %d messages to %d siblings\",\"n\":%ld,", total, S, n);
      Arr("c", c, true); printf("}\n");
    }
    // Larger: which server each input position is assigned to.
    for (auto& load : std::vector<std::vector<index_t>>{{20, 12}, {0, 30, 9}, {25, 25, 25, 25}}) {
      int S = load.size(), total = 0;
      for (index_t x : load) total += x;
      long m = std::max<long>(n / 4, 4000);
      std::vector<std::vector<long>> c(total, std::vector<long>(S, 0));
      for (long i = 0; i < m; i++) {
        int seed = FreqSeed(), pos = 0;
        for (int id = 0; id < S; id++) {
          ParallelShuffler p(id, S, seed);
          p.Initialize(load.data(), 0);
          for (index_t j = 0; j < load[id]; j++) { int t = p.ShuffleOne(); if (t < S) c[pos][t]++; pos++; }
        }
      }
      std::vector<long> w;
      for (int t = 0; t < S; t++) w.push_back(t + 1 < S ? total / S : total - (S - 1) * (total / S));
      printf("{\"t\":\"wmatrix\",\"what\":\"assignment per position\",\"n\":%ld,\"total\":%d,", m, total);
      Arr("w", w); Arr2("c", c, true); printf("}\n");
    }
  }
  return 0;
}
