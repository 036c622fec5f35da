// Drives the real sockets between siblings with raw peers: this is server 1 of 3.
#include <memory>
#include "DPPIR/config/config.h"
#include "DPPIR/sockets/parallel_socket.h"
#include "DPPIR/types/types.h"
#include "framing.h"

using namespace DPPIR;
using sockets::ParallelSocket;

static size_t Unit(const std::string& k, size_t cs) {
  if (k == "cph") return cs;
  if (k == "sec") return sizeof(OfflineSecret);
  if (k == "qry") return sizeof(Query);
  if (k == "rsp") return sizeof(Response);
  if (k == "cnt") return sizeof(index_t);
  return 1;
}

int main(int argc, char** argv) {
  alarm(argc > 2 ? atoi(argv[2]) : 100);
  signal(SIGPIPE, SIG_IGN);
  std::string mode = argv[1];
  fr::Run run;
  bool good = true;
  while (good && fr::NextRun(&run, Unit)) {
    config::PartyConfig pc;
    pc.servers.resize(3);
    int port2, raw[2];
    int lfd = fr::Listen(&port2);
    for (auto& s : pc.servers) { s.ip = "127.0.0.1"; s.parallel_port = fr::FreePort(); s.port = 1; s.local_seed = 1; }
    pc.servers[2].parallel_port = port2;
    auto sock = std::make_unique<ParallelSocket>(1, 3, run.csize);
    std::thread t([&]() {
      raw[0] = fr::Dial(pc.servers[1].parallel_port);
      server_id_t me = 0;
      if (syscall(SYS_write, raw[0], &me, sizeof(me)) != sizeof(me)) exit(9);
    });
    std::thread t2([&]() {
      raw[1] = accept(lfd, nullptr, nullptr);
      int y = 1;
      setsockopt(raw[1], IPPROTO_TCP, TCP_NODELAY, &y, sizeof(y));
      server_id_t who = 99;
      size_t got = 0;
      while (got < sizeof(who)) { ssize_t r = syscall(SYS_read, raw[1], reinterpret_cast<char*>(&who) + got, sizeof(who) - got); if (r <= 0) exit(9); got += r; }
      if (who != 1) { fprintf(stderr, "wrong identity %d\n", who); exit(3); }
    });
    sock->Initialize(pc);
    t.join();
    t2.join();
    close(lfd);
    const server_id_t ID[2] = {0, 2};
    if (mode == "read") {
      std::vector<fr::Feed> feeds(2);
      for (int i = 0; i < 2; i++) { feeds[i].fd = raw[i]; feeds[i].other = fr::OtherEnd(raw[i]); }
      good = fr::RunReads("sibling", feeds, run.phases, run.steps, [&](int s, const std::string& k, uint32_t n, const std::function<void(const void*)>& sink) {
        if (k == "cnt") { index_t c = sock->ReadCount(ID[s]); sink(&c); }
        if (k == "cph") { auto& b = sock->ReadCiphers(ID[s], n); for (char* c : b) sink(c); b.Clear(); }
        if (k == "sec") { auto& b = sock->ReadSecrets(ID[s], n); for (auto& c : b) sink(&c); b.Clear(); }
        if (k == "qry") { auto& b = sock->ReadQueries(ID[s], n); for (auto& c : b) sink(&c); b.Clear(); }
        if (k == "rsp") { auto& b = sock->ReadResponses(ID[s], n); for (auto& c : b) sink(&c); b.Clear(); }
      });
    } else {
      std::vector<fr::Sink> sinks(2);
      for (int i = 0; i < 2; i++) sinks[i].fd = raw[i];
      good = fr::RunWrites("sibling", sinks, run.phases, run.steps, true, [&](int s, const std::string& k, const std::string& m) {
        if (k == "cnt") { index_t c; memcpy(&c, m.data(), sizeof(c)); sock->SendCount(ID[s], c); }
        if (k == "rdy") sock->BroadcastReady();
        if (k == "cph") sock->SendCipher(ID[s], m.data());
        if (k == "sec") { OfflineSecret q; memcpy(&q, m.data(), sizeof(q)); sock->BroadcastSecret(q); }
        if (k == "qry") { Query q; memcpy(&q, m.data(), sizeof(q)); sock->SendQuery(ID[s], q); }
        if (k == "rsp") { Response q; memcpy(&q, m.data(), sizeof(q)); sock->SendResponse(ID[s], q); }
      }, [&](const std::string& k, int s) {
        if (k == "cph") s < 0 ? sock->FlushCiphers() : sock->FlushCiphers(ID[s]);
        if (k == "sec") s < 0 ? sock->FlushSecrets() : sock->FlushSecrets(ID[s]);
        if (k == "qry") s < 0 ? sock->FlushQueries() : sock->FlushQueries(ID[s]);
        if (k == "rsp") s < 0 ? sock->FlushResponses() : sock->FlushResponses(ID[s]);
      });
    }
    for (int i = 0; i < 2; i++) { close(fr::OtherEnd(raw[i])); close(raw[i]); }
    fflush(stdout);
  }
  return 0;
}
