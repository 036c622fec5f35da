// Drives the real onion encryption and prints records.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <functional>
#include <map>
#include <string>
#include <vector>

#include "DPPIR/onion/onion.h"
#include "sodium.h"

using namespace DPPIR;

static uint64_t st;
static uint64_t Next() {
  uint64_t z = (st += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static std::map<std::string, int> ids;
static int Id(const std::string& s) { return ids.emplace(s, ids.size() + 1).first->second; }

struct Opened { bool ok; std::string secret, next; };
// One layer, in a child process: a refused cipher stops the process.
static Opened Open(const std::string& c, int layers, const pkey_t& p, const skey_t& s) {
  int fd[2];
  fflush(stdout);
  if (pipe(fd) != 0) exit(9);
  pid_t pid = fork();
  if (pid == 0) {
    freopen("/dev/null", "w", stderr);
    freopen("/dev/null", "w", stdout);
    auto l = onion::OnionDecrypt(c.data(), layers, p, s);
    std::string out(reinterpret_cast<const char*>(&l.Msg()), sizeof(OfflineSecret));
    if (layers > 1) out += std::string(l.NextLayer(), onion::CipherSize(layers - 1));
    for (size_t o = 0; o < out.size();) { ssize_t w = write(fd[1], out.data() + o, out.size() - o); if (w <= 0) _exit(8); o += w; }
    _exit(0);
  }
  close(fd[1]);
  std::string got;
  char buf[4096];
  for (ssize_t r; (r = read(fd[0], buf, sizeof(buf))) > 0;) got.append(buf, r);
  close(fd[0]);
  int status;
  waitpid(pid, &status, 0);
  Opened o{WIFEXITED(status) && WEXITSTATUS(status) == 0 && got.size() >= sizeof(OfflineSecret), "", ""};
  if (o.ok) { o.secret = got.substr(0, sizeof(OfflineSecret)); o.next = got.substr(sizeof(OfflineSecret)); }
  return o;
}

int main(int argc, char** argv) {
  if (sodium_init() < 0) return 9;
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  std::string mode = argv[1];
  st = strtoull(argv[2], nullptr, 10) * 7919 + 3;
  long n = atol(argv[3]);
  auto secrets = [&](int k) {
    std::vector<OfflineSecret> v(k);
    for (auto& s : v) {
      unsigned char* b = reinterpret_cast<unsigned char*>(&s);
      int m = Next() % 6;
      for (size_t i = 0; i < sizeof(s); i++) b[i] = m == 0 ? 0 : m == 1 ? 255 : Next() >> 24;
    }
    return v;
  };
  auto str = [](const OfflineSecret& s) { return std::string(reinterpret_cast<const char*>(&s), sizeof(s)); };
  for (long it = 0; it < n; it++) {
    int P = it < 8 ? 1 + it : 1 + Next() % 6, first = mode == "open" ? Next() % P : 0, k = P - first;
    std::vector<pkey_t> pk(P);
    std::vector<skey_t> sk(P);
    for (int i = 0; i < P; i++) onion::GenerateKeyPair(&pk[i], &sk[i]);
    pkey_t opk; skey_t osk;
    onion::GenerateKeyPair(&opk, &osk);
    auto sec = secrets(k);
    auto enc = [&](std::vector<OfflineSecret>& s) {
      auto c = onion::OnionEncrypt(s.data(), first, P, pk);
      return std::string(c.get(), onion::CipherSize(k));
    };
    if (mode == "open") {
      // A chain of openings, with every wrong key tried at each hop.
      std::string c = enc(sec), cur = c;
      ids.clear();
      printf("{\"t\":\"chain\",\"P\":%d,\"first\":%d,\"want\":[", P, first);
      for (int j = 0; j < k; j++) printf("%s%d", j ? "," : "", Id(str(sec[j])));
      printf("],\"got\":[");
      std::string wrong, lens;
      bool ok = true;
      for (int j = 0; j < k; j++) {
        lens += (j ? "," : "") + std::to_string(cur.size());
        std::string w;
        for (int o = 0; o <= P; o++) {
          if (o == first + j) continue;
          // another party's (or a stranger's) pair, and mixed pairs
          bool acc = Open(cur, k - j, o < P ? pk[o] : opk, o < P ? sk[o] : osk).ok ||
                     Open(cur, k - j, pk[first + j], o < P ? sk[o] : osk).ok;
          if (acc) w += (w.empty() ? "" : ",") + std::to_string(o);
        }
        wrong += (j ? ",[" : "[") + w + "]";
        if (ok) {
          Opened o = Open(cur, k - j, pk[first + j], sk[first + j]);
          ok = o.ok;
          printf("%s%d", j ? "," : "", ok ? Id(o.secret) : 0);
          cur = o.next;
        } else printf("%s0", j ? "," : "");
      }
      printf("],\"wrong\":[%s],\"lens\":[%s],\"sizes\":[", wrong.c_str(), lens.c_str());
      for (int j = 0; j < k; j++) printf("%s%zu", j ? "," : "", onion::CipherSize(k - j));
      printf("],\"secret\":%zu}\n", sizeof(OfflineSecret));
    } else if (mode == "alter") {
      P = 1 + it % 3; k = P;
      std::string c = enc(sec = secrets(k));
      for (int j = 0; j < k; j++) {  // at every hop, every byte
        std::string acc;
        long tried = 0;
        for (size_t i = 0; i < c.size(); i++) {
          for (int rep = 0; rep < (i % 8 == 0 ? 2 : 1); rep++) {
            std::string d = c;
            d[i] ^= rep ? 128 : 1 << (Next() % 8);
            tried++;
            // The first 32 bytes are a curve point whose top bit is ignored by X25519
            // itself but not by the seal's nonce; any change must be refused.
            if (Open(d, k - j, pk[j], sk[j]).ok) acc += (acc.empty() ? "" : ",") + std::to_string(i);
          }
        }
        // also: two bytes swapped, a block moved
        for (int r = 0; r < 10; r++) {
          std::string d = c;
          size_t a = Next() % c.size(), b = Next() % c.size();
          std::swap(d[a], d[b]);
          if (d == c) continue;
          tried++;
          if (Open(d, k - j, pk[j], sk[j]).ok) acc += (acc.empty() ? "" : ",") + std::to_string(a);
        }
        printf("{\"t\":\"alter\",\"P\":%d,\"hop\":%d,\"len\":%zu,\"tried\":%ld,\"accepted\":[%s]}\n", P, j, c.size(), tried, acc.c_str());
        Opened o = Open(c, k - j, pk[j], sk[j]);
        if (!o.ok) break;
        c = o.next;
      }
    } else {  // fresh: many encryptions of the same secrets
      const int R = 40;
      std::vector<std::string> cs;
      for (int r = 0; r < R; r++) cs.push_back(enc(sec));
      for (int j = 0; j < k; j++) {
        std::map<std::string, int> seen;
        std::map<size_t, int> len;
        long maxsame = 0;  // bytes that are equal in all of them
        for (auto& c : cs) { seen[c]++; len[c.size()]++; }
        for (size_t i = 0; i < cs[0].size(); i++) {
          bool same = true;
          for (auto& c : cs) same = same && c[i] == cs[0][i];
          maxsame += same;
        }
        printf("{\"t\":\"fresh\",\"P\":%d,\"hop\":%d,\"made\":%d,\"distinct\":%zu,\"lens\":%zu,\"same\":%ld}\n", P, j, R, seen.size(), len.size(), maxsame);
        bool ok = true;
        for (auto& c : cs) { Opened o = Open(c, k - j, pk[j], sk[j]); ok = ok && o.ok; c = o.next; }
        if (!ok || j + 1 == k) break;
      }
    }
    fflush(stdout);
  }
  return 0;
}
