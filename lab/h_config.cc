// Drives the real configuration code.
//   rt SEED N DIR     round trips through memory and a file
//   dump FILE         reads a file with the real reader and prints its content
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <string>
#include <vector>

#include "DPPIR/config/config.h"
#include "sodium.h"

using namespace DPPIR;
using config::Config;

static uint64_t st;
static uint64_t Next() {
  uint64_t z = (st += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static std::string Hex(const void* p, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string s = "\"";
  for (size_t i = 0; i < n; i++) {
    unsigned char c = static_cast<const unsigned char*>(p)[i];
    s += d[c >> 4];
    s += d[c & 15];
  }
  return s + "\"";
}
static std::string Str(const std::string& s) { return Hex(s.data(), s.size()); }
static std::string D(double v) { return Hex(&v, sizeof(v)); }
static std::string Json(const Config& c) {
  std::string s = "{\"db\":\"" + std::to_string(c.db_size) + "\",\"eps\":" + D(c.epsilon) + ",\"delta\":" + D(c.delta) + ",\"P\":" + std::to_string(int(c.party_count)) +
                  ",\"S\":" + std::to_string(int(c.server_count)) + ",\"parties\":[";
  for (size_t i = 0; i < c.parties.size(); i++) {
    auto& p = c.parties[i];
    s += std::string(i ? "," : "") + "{\"seed\":" + "\"" + std::to_string(p.shared_seed) + "\",\"pk\":" + Hex(p.onion_pkey.data(), p.onion_pkey.size()) + ",\"sk\":" +
         Hex(p.onion_skey.data(), p.onion_skey.size()) + ",\"servers\":[";
    for (size_t j = 0; j < p.servers.size(); j++) {
      auto& x = p.servers[j];
      s += std::string(j ? "," : "") + "{\"seed\":\"" + std::to_string(x.local_seed) + "\",\"port\":" + std::to_string(x.port) + ",\"pport\":" + std::to_string(x.parallel_port) +
           ",\"ip\":" + Str(x.ip) + "}";
    }
    s += "]}";
  }
  return s + "]}";
}
static bool Match(const config::PartyConfig& p) {  // does the key pair work?
  unsigned char m[32], c[32 + crypto_box_SEALBYTES], o[32];
  randombytes_buf(m, sizeof(m));
  return crypto_box_seal(c, m, sizeof(m), p.onion_pkey.data()) == 0 &&
         crypto_box_seal_open(o, c, sizeof(c), p.onion_pkey.data(), p.onion_skey.data()) == 0 && memcmp(m, o, sizeof(m)) == 0;
}
static int Int() {
  static const int32_t B[] = {0, 1, -1, 2, 255, 256, 32767, 32768, 65535, 65536, 0x0a0d0a0d, INT32_MAX, INT32_MIN, 0x20202020, 10, 13, 26};
  return Next() % 3 == 0 ? static_cast<int>(Next()) : B[Next() % (sizeof(B) / sizeof(B[0]))];
}
static double Dbl() {
  static const double B[] = {0, 0.1, 0.000001, 1e-300, 5e-324, 1e308, 1, -1, 3.0000000000000004, 1.0 / 3, 2e-16, 1e16, 123456.789012345};
  if (Next() % 3 == 0) {
    uint64_t x = Next();
    double v;
    memcpy(&v, &x, 8);
    return v;
  }
  return B[Next() % (sizeof(B) / sizeof(B[0]))];
}
static std::string Ip() {
  static const char* B[] = {"127.0.0.1", "255.255.255.255", "0.0.0.0", "10.0.0.1", "1.2.3.4", "ec2-3-15-201-99.us-east-2.compute.amazonaws.com", "fe80::1", "a", "", " 1.1.1.1 ", "x\ny"};
  return B[Next() % (sizeof(B) / sizeof(B[0]))];
}
template <size_t N>
static void Key(std::array<unsigned char, N>* k) {
  int how = Next() % 4;
  static const unsigned char W[] = {0, 10, 13, 32, 9, 26, 255, 11};
  for (size_t i = 0; i < N; i++) (*k)[i] = how == 0 ? W[Next() % 8] : how == 1 ? 0 : static_cast<unsigned char>(Next());
}

int main(int argc, char** argv) {
  if (sodium_init() < 0) return 9;
  std::string mode = argv[1];
  if (mode == "dump") {
    Config c = config::ReadFile(argv[2]);
    printf("{\"t\":\"gen\",\"got\":%s,\"match\":[", Json(c).c_str());
    for (size_t i = 0; i < c.parties.size(); i++) printf("%s%s", i ? "," : "", Match(c.parties[i]) ? "1" : "0");
    printf("]}\n");
    return 0;
  }
  if (mode == "mk") {  // stdin: numbers and hex strings in the order of the fields
    Config c;
    char w[4096];
    auto word = [&]() { if (scanf("%4000s", w) != 1) exit(9); return std::string(w); };
    auto bytes = [&](const std::string& h) { std::string r; for (size_t i = 1; i + 1 < h.size(); i += 2) r += static_cast<char>(strtol(h.substr(i, 2).c_str(), nullptr, 16)); return r; };
    c.db_size = strtoul(word().c_str(), nullptr, 10);
    c.epsilon = strtod(word().c_str(), nullptr);
    c.delta = strtod(word().c_str(), nullptr);
    c.party_count = atoi(word().c_str());
    c.server_count = atoi(word().c_str());
    for (int i = 0; i < c.party_count; i++) {
      config::PartyConfig p;
      p.shared_seed = atoi(word().c_str());
      std::string a = bytes(word()), b = bytes(word());
      for (size_t j = 0; j < p.onion_pkey.size(); j++) p.onion_pkey[j] = a.at(j);
      for (size_t j = 0; j < p.onion_skey.size(); j++) p.onion_skey[j] = b.at(j);
      for (int j = 0; j < c.server_count; j++) {
        config::ServerConfig s;
        s.local_seed = atoi(word().c_str());
        s.port = atoi(word().c_str());
        s.parallel_port = atoi(word().c_str());
        s.ip = "127.0.0.1";
        p.servers.push_back(s);
      }
      c.parties.push_back(p);
    }
    config::WriteToFile(c, argv[2]);
    return 0;
  }
  st = strtoull(argv[2], nullptr, 10);
  int n = atoi(argv[3]);
  std::string file = std::string(argv[4]) + "/cfg";
  for (int r = 0; r < n; r++) {
    Config c;
    c.db_size = Next() % 2 ? static_cast<uint32_t>(Int()) : Next() % 1000000;
    c.epsilon = Dbl();
    c.delta = Dbl();
    bool big = r % 25 == 24;
    c.party_count = big ? 255 : Next() % 6;
    c.server_count = big ? 3 : Next() % 5;
    if (r % 25 == 23) { c.party_count = 2; c.server_count = 255; }
    if (r == 7) { c.party_count = 255; c.server_count = 40; }
    for (int i = 0; i < c.party_count; i++) {
      config::PartyConfig p;
      p.shared_seed = Int();
      Key(&p.onion_pkey);
      Key(&p.onion_skey);
      for (int j = 0; j < c.server_count; j++) {
        config::ServerConfig s;
        s.local_seed = Int();
        s.port = Int();
        s.parallel_port = Int();
        s.ip = Ip();
        p.servers.push_back(s);
      }
      c.parties.push_back(p);
    }
    std::string ser = config::Serialize(c);
    Config m = config::Deserialize(ser.data(), ser.size());
    printf("{\"t\":\"rt\",\"how\":\"memory\",\"a\":%s,\"b\":%s}\n", Json(c).c_str(), Json(m).c_str());
    config::WriteToFile(c, file);
    Config f = config::ReadFile(file);
    printf("{\"t\":\"rt\",\"how\":\"file\",\"a\":%s,\"b\":%s}\n", Json(c).c_str(), Json(f).c_str());
    if (r % 3 == 0) {  // overwriting a longer file
      Config s = c;
      s.party_count = c.party_count / 2;
      s.parties.resize(s.party_count);
      config::WriteToFile(s, file);
      printf("{\"t\":\"rt\",\"how\":\"overwrite\",\"a\":%s,\"b\":%s}\n", Json(s).c_str(), Json(config::ReadFile(file)).c_str());
    }
  }
  return 0;
}
