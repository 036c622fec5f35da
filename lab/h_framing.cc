// Drives the real sockets towards predecessor and successor with a raw peer.
#include <memory>
#include "DPPIR/sockets/client_socket.h"
#include "DPPIR/sockets/server_socket.h"
#include "DPPIR/types/types.h"
#include "framing.h"

using namespace DPPIR;
using sockets::ClientSocket;
using sockets::ServerSocket;

static size_t Unit(const std::string& k, size_t cs) {
  if (k == "cph") return cs;
  if (k == "qry") return sizeof(Query);
  if (k == "rsp") return sizeof(Response);
  if (k == "cnt") return sizeof(index_t);
  return 1;
}

int main(int argc, char** argv) {
  alarm(argc > 2 ? atoi(argv[2]) : 100);
  signal(SIGPIPE, SIG_IGN);
  std::string mode = argv[1];
  fr::Run run;
  bool good = true;
  while (good && fr::NextRun(&run, Unit)) {
    if (mode == "sread" || mode == "swrite") {
      int port = fr::FreePort(), raw = -1;
      auto sock = std::make_unique<ServerSocket>(run.csize);
      std::thread t([&]() { raw = fr::Dial(port); });
      sock->Initialize(port);
      t.join();
      if (mode == "sread") {
        std::vector<fr::Feed> feeds(1);
        feeds[0].fd = raw;
        feeds[0].other = fr::OtherEnd(raw);
        good = fr::RunReads("server", feeds, run.phases, run.steps, [&](int, const std::string& k, uint32_t n, const std::function<void(const void*)>& sink) {
          if (k == "cnt") { index_t c = sock->ReadCount(); sink(&c); }
          if (k == "cph") { auto& b = sock->ReadCiphers(n); for (char* c : b) sink(c); b.Clear(); }
          if (k == "qry") { auto& b = sock->ReadQueries(n); for (Query& q : b) sink(&q); b.Clear(); }
        });
      } else {
        std::vector<fr::Sink> sinks(1);
        sinks[0].fd = raw;
        good = fr::RunWrites("server", sinks, run.phases, run.steps, false, [&](int, const std::string& k, const std::string& m) {
          if (k == "rdy") sock->SendReady();
          if (k == "rsp") { Response r; memcpy(&r, m.data(), sizeof(r)); sock->SendResponse(r); }
        }, [&](const std::string& k, int) { if (k == "rsp") sock->FlushResponses(); });
      }
      close(fr::OtherEnd(raw));
      close(raw);
    } else {
      int port;
      int lfd = fr::Listen(&port);
      auto sock = std::make_unique<ClientSocket>(run.csize);
      sock->Initialize("127.0.0.1", port);
      int raw = accept(lfd, nullptr, nullptr), y = 1;
      setsockopt(raw, IPPROTO_TCP, TCP_NODELAY, &y, sizeof(y));
      close(lfd);
      if (mode == "cread") {
        std::vector<fr::Feed> feeds(1);
        feeds[0].fd = raw;
        feeds[0].other = fr::OtherEnd(raw);
        good = fr::RunReads("client", feeds, run.phases, run.steps, [&](int, const std::string& k, uint32_t n, const std::function<void(const void*)>& sink) {
          if (k == "rdy") { sock->WaitForReady(); char one = 1; sink(&one); }
          if (k == "rsp") { auto& b = sock->ReadResponses(n); for (Response& q : b) sink(&q); b.Clear(); }
        });
      } else {
        std::vector<fr::Sink> sinks(1);
        sinks[0].fd = raw;
        good = fr::RunWrites("client", sinks, run.phases, run.steps, false, [&](int, const std::string& k, const std::string& m) {
          if (k == "cnt") { index_t c; memcpy(&c, m.data(), sizeof(c)); sock->SendCount(c); }
          if (k == "cph") sock->SendCipher(m.data());
          if (k == "qry") { Query q; memcpy(&q, m.data(), sizeof(q)); sock->SendQuery(q); }
        }, [&](const std::string& k, int) { if (k == "cph") sock->FlushCiphers(); if (k == "qry") sock->FlushQueries(); });
      }
      close(fr::OtherEnd(raw));
      close(raw);
    }
    fflush(stdout);
  }
  return 0;
}
