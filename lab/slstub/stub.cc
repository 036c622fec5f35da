// LAB_LOG: one JSON object per line. LAB_DUR: lines "what ms us" (durations of each call of that kind in turn).
#include "pir_client.hpp"
#include "pir_server.hpp"
#include <mutex>
#include <algorithm>
namespace {
int64_t now_ns = 1700000000000000000LL;
struct State {
  FILE *log = nullptr;
  map<string, vector<pair<int64_t, int64_t>>> dur;
  map<string, size_t> used;
  PirParams params;
  vector<uint8_t> db;
  uint64_t ids = 0;
  map<uint64_t, uint64_t> query, reply;  // id -> fv index
  bool prepared = false;
  State() {
    const char *l = getenv("LAB_LOG"), *d = getenv("LAB_DUR");
    if (l) log = fopen(l, "a");
    if (d) {
      ifstream f(d);
      string w;
      int64_t ms, us;
      while (f >> w >> ms >> us) dur[w].push_back({ms, us});
    }
  }
};
State &S() { static State *s = new State; return *s; }
string N(uint64_t x) { return to_string(x > 2000000000ULL ? 2000000000ULL : x); }
}  // namespace
// The clocks of the C++ library, as the runner sees them.
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(chrono::duration_cast<duration>(chrono::nanoseconds(now_ns))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(chrono::nanoseconds(now_ns)); }
} } }
namespace lab {
void Log(const string &j) { if (S().log) { fprintf(S().log, "%s\n", j.c_str()); fflush(S().log); } }
// Time passes; returns what is logged about it.
string Pass(const char *what) {
  auto &v = S().dur[what];
  pair<int64_t, int64_t> d = {0, 0};
  if (!v.empty()) d = v[S().used[what]++ % v.size()];
  now_ns += d.first * 1000000 + d.second * 1000;
  return ", \"ms\": " + to_string(d.first) + ", \"us\": " + to_string(d.second);
}
}  // namespace lab
using lab::Log;
using lab::Pass;
static string Ev(const char *e, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0, const string &t = ", \"ms\": 0, \"us\": 0") {
  return string("{\"e\": \"") + e + "\", \"a\": " + N(a) + ", \"b\": " + N(b) + ", \"c\": " + N(c) + t + "}";
}
void gen_encryption_params(uint32_t n, uint32_t logt, seal::EncryptionParameters &) { Log(Ev("enc", n, logt, 0, Pass("other"))); }
void verify_encryption_params(const seal::EncryptionParameters &) { Pass("other"); }
void gen_pir_params(uint64_t n, uint64_t size, uint32_t d, const seal::EncryptionParameters &, PirParams &p, bool, bool batching, bool) {
  p.ele_num = n; p.ele_size = size; p.d = d; p.enable_batching = batching;
  // Rows that share a plaintext, as in SealPIR.
  p.elements_per_plaintext = batching && size ? 4096 * 20 / 8 / size : 1;
  if (p.elements_per_plaintext == 0) p.elements_per_plaintext = 1;
  if (getenv("LAB_PACK")) p.elements_per_plaintext = atoi(getenv("LAB_PACK"));
  p.num_of_plaintexts = (n + p.elements_per_plaintext - 1) / p.elements_per_plaintext;
  S().params = p;
  Log(Ev("params", n, size, p.elements_per_plaintext, Pass("other")));
}
void print_pir_params(const PirParams &) {}
void print_seal_params(const seal::EncryptionParameters &) {}
PIRClient::PIRClient(const seal::EncryptionParameters &, const PirParams &p) : p_(p) { Log(Ev("client", p.ele_num, p.ele_size, 0, Pass("other"))); }
PIRServer::PIRServer(const seal::EncryptionParameters &, const PirParams &p) : p_(p) { Log(Ev("server", p.ele_num, p.ele_size, 0, Pass("other"))); }
seal::GaloisKeys PIRClient::generate_galois_keys() { seal::GaloisKeys k; k.id = ++S().ids; Log(Ev("keys", k.id, 0, 0, Pass("other"))); return k; }
void PIRServer::set_galois_key(uint32_t client, seal::GaloisKeys k) { Log(Ev("setkeys", k.id, client, 0, Pass("other"))); }
void PIRServer::set_database(const unique_ptr<const uint8_t[]> &bytes, uint64_t n, uint64_t size) {
  S().db.assign(bytes.get(), bytes.get() + n * size);  // an undersized table is caught by ASan
  uint64_t zero = 0;
  vector<uint64_t> rows(n, 0);
  for (uint64_t i = 0; i < n; i++) {
    for (uint64_t j = 0; j < size; j++) rows[i] = rows[i] << 8 | S().db[i * size + j];
    zero += rows[i] == 0;
  }
  sort(rows.begin(), rows.end());
  uint64_t distinct = unique(rows.begin(), rows.end()) - rows.begin();
  uint64_t fixed = 0;  // columns that are the same in all rows
  for (uint64_t j = 0; j < size; j++) {
    bool same = true;
    for (uint64_t i = 1; same && i < n; i++) same = S().db[i * size + j] == S().db[j];
    fixed += same;
  }
  Log(Ev("db", n, size, zero, Pass("db") + ", \"d\": " + N(distinct) + ", \"k\": " + N(fixed)));
}
void PIRServer::preprocess_database() { S().prepared = true; Log(Ev("prep", 0, 0, 0, Pass("prep"))); }
uint64_t PIRClient::get_fv_index(uint64_t e) { Log(Ev("index", e, e / p_.elements_per_plaintext)); return e / p_.elements_per_plaintext; }
uint64_t PIRClient::get_fv_offset(uint64_t e) { Log(Ev("offset", e, e % p_.elements_per_plaintext)); return e % p_.elements_per_plaintext; }
PirQuery PIRClient::generate_query(uint64_t index) {
  seal::Ciphertext c;
  c.id = ++S().ids;
  S().query[c.id] = index;
  Log(Ev("query", c.id, index, 0, Pass("query")));
  return PirQuery(1, vector<seal::Ciphertext>(1, c));
}
PirReply PIRServer::generate_reply(PirQuery &q, uint32_t client) {
  uint64_t qid = q.empty() || q[0].empty() ? 0 : q[0][0].id;
  seal::Ciphertext c;
  c.id = ++S().ids;
  S().reply[c.id] = S().query.count(qid) ? S().query[qid] : 0;
  Log(Ev("reply", qid, c.id, client, Pass("server")));
  return PirReply(1, c);
}
vector<uint8_t> PIRClient::decode_reply(PirReply &r, uint64_t offset) {
  uint64_t rid = r.empty() ? 0 : r[0].id;
  Log(Ev("decode", rid, offset, 0, Pass("response")));
  vector<uint8_t> res(p_.ele_size, 0);
  uint64_t row = S().reply[rid] * p_.elements_per_plaintext + offset;
  for (uint64_t i = 0; i < p_.ele_size && row * p_.ele_size + i < S().db.size(); i++) res[i] = S().db[row * p_.ele_size + i];
  return res;
}
