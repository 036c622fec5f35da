// Drives the real sharing code (incremental and additive) and prints records.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <algorithm>
#include <string>
#include <utility>
#include <vector>

#include "DPPIR/sharing/additive.h"
#include "DPPIR/sharing/incremental.h"
#include "sodium.h"

using namespace DPPIR;

static uint64_t st;
static uint64_t Next() {
  uint64_t z = (st += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

// A generator whose bounded draws hit the ends of their range most of the time.
static uint64_t ucalls = 0, upper_min = ~0ull;
static const char* EName() { return "edge"; }
static uint32_t ERandom() { return Next() >> 16; }
static void EBuf(void* const b, const size_t n) {
  unsigned char* p = static_cast<unsigned char*>(b);
  for (size_t i = 0; i < n; i++) p[i] = Next() >> 24;
}
static int EClose() { return 0; }
static void EStir() {}
static uint32_t EUniform(const uint32_t upper) {
  ucalls++;
  if (upper < 2) return 0;
  switch (Next() % 5) {
    case 0: return 0;
    case 1: return upper - 1;
    case 2: return 1;
    case 3: return upper - 2;
    default: return Next() % upper;
  }
}
static randombytes_implementation edge = {EName, ERandom, EStir, EUniform, EBuf, EClose};

static void Shares(const std::vector<incremental_share_t>& v) {
  printf("\"shares\":[");
  for (size_t i = 0; i < v.size(); i++) printf("%s{\"x\":%u,\"y\":%u}", i ? "," : "", v[i].x, v[i].y);
  printf("]");
}
static void Words(const void* p, size_t n) {
  const unsigned char* b = static_cast<const unsigned char*>(p);
  printf("[");
  for (size_t i = 0; i + 1 < n; i += 2) printf("%s%u", i ? "," : "", b[i] | (b[i + 1] << 8));
  printf("]");
}

static void Incremental(uint32_t key, const std::vector<incremental_share_t>& v, int gen) {
  uint32_t tally = sharing::GenerateIncrementalTally(key, v);
  printf("{\"t\":\"inc\",\"gen\":%d,\"key\":%u,\"tally\":%u,", gen, key, tally);
  Shares(v);
  printf(",\"steps\":[");
  for (size_t i = 0; i < v.size(); i++) {
    tally = sharing::IncrementalReconstruct(tally, v[i]);
    printf("%s%u", i ? "," : "", tally);
  }
  printf("]}\n");
}

int main(int argc, char** argv) {
  const char* mode = argv[1];
  st = strtoull(argv[2], nullptr, 10) * 7919 + 1;
  int count = atoi(argv[3]);
  const uint32_t P = INCREMENTAL_PRIME;
  if (sodium_init() < 0) return 3;
  if (strcmp(mode, "inc") == 0) {
    // boundary keys and shares
    uint32_t ks[] = {0, 1, 2, P - 1, P - 2, P / 2, 65535, 65536};
    uint32_t xs[] = {0, 1, P - 1, P - 2, 1 << 30};
    uint32_t ys[] = {1, 2, P - 1, P - 2, (1u << 30) + 1};
    for (int i = 0; i < count; i++) {
      size_t n = i % 20 == 18 ? 6 + Next() % 40 : i % 200 == 111 ? 255 : 1 + Next() % 5;
      uint32_t key = Next() % 2 ? ks[Next() % 8] : Next() % P;
      if (i % 2) {
        std::vector<incremental_share_t> v;
        for (size_t j = 0; j < n; j++)
          v.push_back({Next() % 3 ? xs[Next() % 5] : static_cast<uint32_t>(Next() % P), Next() % 3 ? ys[Next() % 5] : static_cast<uint32_t>(1 + Next() % (P - 1))});
        Incremental(key, v, 0);
      } else {
        Incremental(key, sharing::PreIncrementalSecretShares(n), 1);
      }
    }
  } else if (strcmp(mode, "edge") == 0) {
    randombytes_set_implementation(&edge);
    uint32_t lox = ~0u, hix = 0, loy = ~0u, hiy = 0;
    for (int i = 0; i < count; i++) {
      auto v = sharing::PreIncrementalSecretShares(3);
      for (auto& s : v) {
        lox = std::min(lox, +s.x); hix = std::max(hix, +s.x);
        loy = std::min(loy, +s.y); hiy = std::max(hiy, +s.y);
      }
      if (i < 300) Incremental(i % 2 ? P - 1 : 0, v, 1);
    }
    printf("{\"t\":\"range\",\"calls\":%d,\"lox\":%u,\"hix\":%d,\"loy\":%u,\"hiy\":%d}\n", ucalls > 0 ? 1 : 0, lox,
           hix < (1u << 31) ? (int)hix : -1, loy, hiy < (1u << 31) ? (int)hiy : -1);
  } else if (strcmp(mode, "dist") == 0) {
    // Bucket counts: [which][high bucket of 32], [which][low 5 bits]
    const int B = 32;
    auto hb = [&](uint32_t v) { return (uint64_t)v * B / P % B; };
    std::vector<std::vector<int>> h;
    std::vector<const char*> names;
    auto add = [&](const char* n) { names.push_back(n); h.emplace_back(B * 1, 0); return h.size() - 1; };
    size_t xh = add("x-high"), xl = add("x-low"), yh = add("y-high"), yl = add("y-low"), xh2 = add("x-high-last"), yh2 = add("y-high-last");
    size_t p1a = add("tally1-key0"), p1b = add("tally1-keymax"), p2a = add("tally2-key0"), p2b = add("tally2-keymax"), p0a = add("tally0-key0"), p0b = add("tally0-key1");
    size_t p0l = add("tally0-low"), p1l = add("tally1-low");
    size_t j1 = add("x1^x2"), j2 = add("x1^y1"), j3 = add("y1^y2"), j4 = add("x3^next");
    uint32_t lastx = 0;
    for (int i = 0; i < count; i++) {
      auto v = sharing::PreIncrementalSecretShares(3);
      h[xh][hb(v[0].x)]++; h[xl][v[0].x % B]++; h[yh][hb(v[0].y)]++; h[yl][v[0].y % B]++;
      h[xh2][hb(v[2].x)]++; h[yh2][hb(v[2].y)]++;
      h[j1][hb(v[0].x) ^ hb(v[1].x)]++; h[j2][hb(v[1].x) ^ hb(v[1].y)]++; h[j3][hb(v[0].y) ^ hb(v[1].y)]++; h[j4][hb(lastx) ^ hb(v[2].x)]++;
      lastx = v[2].x;
      if (i % 2 == 0) {
        uint32_t a = sharing::GenerateIncrementalTally(0, v), b = sharing::GenerateIncrementalTally(P - 1, v);
        h[p0a][hb(a)]++; h[p0l][a % B]++;
        uint32_t c = sharing::GenerateIncrementalTally(1, v);
        h[p0b][hb(c)]++;
        a = sharing::IncrementalReconstruct(a, v[0]); b = sharing::IncrementalReconstruct(b, v[0]);
        h[p1a][hb(a)]++; h[p1b][hb(b)]++; h[p1l][a % B]++;
        a = sharing::IncrementalReconstruct(a, v[1]); b = sharing::IncrementalReconstruct(b, v[1]);
        h[p2a][hb(a)]++; h[p2b][hb(b)]++;
      }
    }
    for (size_t k = 0; k < h.size(); k++) {
      int tot = 0;
      printf("{\"t\":\"hist\",\"what\":\"%s\",\"c\":[", names[k]);
      for (int b = 0; b < B; b++) { printf("%s%d", b ? "," : "", h[k][b]); tot += h[k][b]; }
      printf("],\"n\":%d}\n", tot);
    }
  } else if (strcmp(mode, "many") == 0) {
    // Many parties: every position's share and mask; and nothing is repeated, within a call or across calls.
    const int N = 16, B = 16;
    std::vector<std::vector<int>> xh(N, std::vector<int>(B, 0)), yh = xh, xl = xh, yl = xh;
    const size_t bits = sizeof(preshare_t) * 8;
    std::vector<std::vector<int>> ones(N, std::vector<int>(bits, 0));
    auto hb = [&](uint32_t v) { return (uint64_t)v * B / P % B; };
    for (int i = 0; i < count; i++) {
      auto v = sharing::PreIncrementalSecretShares(N);
      auto w = sharing::GenerateAdditiveSecretShares(N);
      for (int j = 0; j < N; j++) {
        xh[j][hb(+v.at(j).x)]++; yh[j][hb(v.at(j).y)]++; xl[j][v.at(j).x % B]++; yl[j][v.at(j).y % B]++;
        for (size_t b = 0; b < bits; b++) ones[j][b] += (w.at(j)[b / 8] >> (b % 8)) & 1;
      }
    }
    auto hist = [&](const char* what, int j, const std::vector<int>& c) {
      printf("{\"t\":\"hist\",\"prop\":\"C12\",\"what\":\"%s of share %d\",\"c\":[", what, j + 1);
      for (int b = 0; b < B; b++) printf("%s%d", b ? "," : "", c[b]);
      printf("],\"n\":%d}\n", count);
    };
    for (int j = 0; j < N; j++) {
      hist("x-high", j, xh[j]); hist("y-high", j, yh[j]); hist("x-low", j, xl[j]); hist("y-low", j, yl[j]);
      printf("{\"t\":\"ones\",\"subset\":%d,\"n\":%d,\"c\":[", j + 1, count);
      for (size_t b = 0; b < bits; b++) printf("%s%d", b ? "," : "", ones[j][b]);
      printf("]}\n");
    }
    auto fresh = [&](const char* prop, const char* what, auto& seen, int allowed) {
      size_t n = seen.size();
      std::sort(seen.begin(), seen.end());
      seen.erase(std::unique(seen.begin(), seen.end()), seen.end());
      printf("{\"t\":\"fresh\",\"prop\":\"%s\",\"what\":\"%s\",\"n\":%zu,\"repeated\":%zu,\"allowed\":%d}\n", prop, what, n, n - seen.size(), allowed);
    };
    for (size_t n : {2, 3, 5, 17, 64, 255}) {
      std::vector<std::pair<uint32_t, uint32_t>> sh;
      std::vector<uint32_t> x, y;
      std::vector<preshare_t> m;
      size_t calls = n <= 3 ? 70000 : n == 5 ? 20000 : 60000 / n;
      for (size_t i = 0; i < calls; i++) {
        auto v = sharing::PreIncrementalSecretShares(n);
        for (auto& s : v) {
          sh.emplace_back(+s.x, +s.y);
          if (x.size() < 20000) { x.push_back(+s.x); y.push_back(+s.y); }
        }
        auto w = sharing::GenerateAdditiveSecretShares(n);
        if (n == 2) w.pop_back();  // equal to the first
        for (auto& s : w) m.push_back(s);
      }
      std::string k = " of " + std::to_string(n) + " parties";
      fresh("C12", ("shares" + k).c_str(), sh, 0);
      // 20000 of 2^31 values: 0.1 repetitions expected
      fresh("C12", ("additive components" + k).c_str(), x, 7);
      fresh("C12", ("multiplicative components" + k).c_str(), y, 7);
      fresh("C13", ("masks" + k).c_str(), m, 0);
    }
  } else if (strcmp(mode, "raw") == 0) {  // for reproducibility with a given generator
    for (int i = 0; i < count; i++) {
      printf("{\"t\":\"raw\",");
      Shares(sharing::PreIncrementalSecretShares(3));
      printf("}\n");
    }
  } else if (strcmp(mode, "rawmask") == 0) {
    for (int i = 0; i < count; i++) {
      auto v = sharing::GenerateAdditiveSecretShares(3);
      printf("{\"t\":\"rawmask\",\"m\":[");
      for (size_t j = 0; j < v.size(); j++) { if (j) printf(","); Words(v[j].data(), v[j].size()); }
      printf("]}\n");
    }
  } else if (strcmp(mode, "mask") == 0) {
    for (int i = 0; i < count; i++) {
      size_t n = i % 30 == 18 ? 7 + Next() % 40 : i % 400 == 111 ? 255 : 1 + Next() % 6;
      auto v = sharing::GenerateAdditiveSecretShares(n);
      Response r, t;
      EBuf(&r, sizeof(r));
      if (i % 5 == 0) memset(&r, i % 10 ? 0xff : 0, sizeof(r));
      printf("{\"t\":\"mask\",\"n\":%zu,\"resp\":", n);
      Words(&r, sizeof(r));
      printf(",\"m\":[");
      for (size_t j = 0; j < v.size(); j++) { if (j) printf(","); Words(v[j].data(), v[j].size()); }
      std::vector<size_t> ord(v.size());
      for (size_t j = 0; j < ord.size(); j++) ord[j] = j;
      for (size_t j = ord.size(); j > 1; j--) std::swap(ord[j - 1], ord[Next() % j]);
      printf("],\"ord\":[");
      for (size_t j = 0; j < ord.size(); j++) printf("%s%zu", j ? "," : "", ord[j] + 1);
      printf("],\"steps\":[");
      for (size_t j = 0; j < ord.size(); j++) {
        if (i % 2) {
          sharing::AdditiveReconstruct(r, v[ord[j]], &r);  // in place
        } else {
          memset(&t, 0xa5, sizeof(t));
          sharing::AdditiveReconstruct(r, v[ord[j]], &t);
          r = t;
        }
        if (j) printf(",");
        Words(&r, sizeof(r));
      }
      printf("]}\n");
    }
  } else if (strcmp(mode, "maskdist") == 0) {
    // ones per bit for every proper non-empty subset of 3 masks, and byte buckets
    const size_t bits = sizeof(preshare_t) * 8;
    std::vector<std::vector<int>> ones(8, std::vector<int>(bits, 0));
    std::vector<int> bytes(256, 0);
    long total = 0;
    for (int i = 0; i < count; i++) {
      auto v = sharing::GenerateAdditiveSecretShares(3);
      for (int s = 1; s < 7; s++)
        for (size_t b = 0; b < bits; b++) {
          int bit = 0;
          for (int j = 0; j < 3; j++)
            if (s >> j & 1) bit ^= (v[j][b / 8] >> (b % 8)) & 1;
          ones[s][b] += bit;
        }
      for (char c : v[i % 3]) { bytes[(unsigned char)c]++; total++; }
    }
    for (int s = 1; s < 7; s++) {
      printf("{\"t\":\"ones\",\"subset\":%d,\"n\":%d,\"c\":[", s, count);
      for (size_t b = 0; b < bits; b++) printf("%s%d", b ? "," : "", ones[s][b]);
      printf("]}\n");
    }
    printf("{\"t\":\"hist\",\"what\":\"mask bytes\",\"c\":[");
    for (int b = 0; b < 256; b++) printf("%s%d", b ? "," : "", bytes[b]);
    printf("],\"n\":%ld}\n", total);
  }
  return 0;
}
