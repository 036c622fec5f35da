// Common part of the framing harnesses: a raw peer for a real socket object, message payloads
// and the records that spec/Framing.tla judges.
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <linux/sockios.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <functional>
#include <iostream>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

namespace fr {

inline double Now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline void Nap(long us) { timespec t = {us / 1000000, (us % 1000000) * 1000}; syscall(SYS_nanosleep, &t, nullptr); }

inline int Listen(int* port) {
  int fd = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a = {};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof(a)) != 0 || listen(fd, 4) != 0) exit(9);
  socklen_t n = sizeof(a);
  getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n);
  *port = ntohs(a.sin_port);
  return fd;
}
inline int FreePort() { int p; int fd = Listen(&p); close(fd); return p; }
inline int Dial(int port) {
  for (double t0 = Now(); Now() - t0 < 10;) {
    int fd = socket(AF_INET, SOCK_STREAM, 0), y = 1;
    sockaddr_in a = {};
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof(a)) == 0) {
      setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &y, sizeof(y));
      return fd;
    }
    close(fd);
    Nap(3000);
  }
  exit(9);
}
// The descriptor of this process at the other end of fd.
inline int OtherEnd(int fd) {
  sockaddr_in me = {}, p = {};
  socklen_t n = sizeof(me);
  getsockname(fd, reinterpret_cast<sockaddr*>(&me), &n);
  for (int i = 3; i < 300; i++) {
    n = sizeof(p);
    if (i != fd && getpeername(i, reinterpret_cast<sockaddr*>(&p), &n) == 0 && p.sin_port == me.sin_port) return i;
  }
  exit(9);
}

// Message i (1, 2, ...) of a kind; the content depends on everything.
inline void Payload(const std::string& kind, int phase, uint32_t i, size_t unit, unsigned char* out) {
  uint64_t z = 0x9e3779b97f4a7c15ull * (phase + 1) + i * 0x94d049bb133111ebull + kind[0] * 77 + kind[1];
  for (size_t b = 0; b < unit; b++) {
    z ^= z << 13; z ^= z >> 7; z ^= z << 17;
    out[b] = static_cast<unsigned char>(z >> 24);
  }
  if (unit >= 4 && kind != "cnt") memcpy(out, &i, 4);
  if (kind == "rdy") out[0] = 1;
}

struct Phase { std::string kind; uint32_t count; size_t unit; };
struct Step { int src; size_t chunk; uint32_t n; };

// The bytes of all phases, fed piece by piece into a real socket object.
struct Feed {
  int fd = -1, other = -1;
  std::string data;
  size_t written = 0;
  void Add(size_t c) {
    if (c > data.size() - written) c = data.size() - written;
    for (size_t o = 0; o < c;) {
      ssize_t w = syscall(SYS_write, fd, data.data() + written + o, c - o);
      if (w <= 0) exit(9);
      o += w;
    }
    written += c;
  }
  size_t Unread() { int n = 0; ioctl(other, FIONREAD, &n); return n; }
  size_t Queued() { int n = 0; ioctl(fd, SIOCOUTQ, &n); return n; }
  // Bytes read at the other end so far (never too many: bytes in transit may count twice).
  size_t Taken() {
    size_t q = Queued(), u = Unread();
    return q + u > written ? 0 : written - q - u;
  }
  // Waits until what was written has arrived at the other end, as far as it has room for it.
  void Settle(size_t taken) {
    size_t last = Unread();
    for (double t0 = Now(); last + taken < written && Now() - t0 < 0.004;) {
      Nap(50);
      size_t u = Unread();
      if (u != last) { last = u; t0 = Now(); }
    }
  }
};

struct Got { uint32_t n = 0, first = 0, count = 0; bool ok = true; size_t consumed = 0; };
// read(src, kind, n, sink): calls sink(pointer) for each message of one bounded read.
using Reader = std::function<void(int, const std::string&, uint32_t, const std::function<void(const void*)>&)>;

inline bool RunReads(const char* sock, std::vector<Feed>& feeds, const std::vector<Phase>& phases, const std::vector<Step>& steps, const Reader& reader) {
  for (auto& f : feeds) {
    f.data.clear();
    for (size_t p = 0; p < phases.size(); p++) {
      for (uint32_t i = 1; i <= phases[p].count; i++) {
        std::string b(phases[p].unit, 0);
        Payload(phases[p].kind, p, i, b.size(), reinterpret_cast<unsigned char*>(&b[0]));
        f.data += b;
      }
    }
  }
  std::mutex mu;
  std::atomic<double> since(-1), wait(0.3);
  std::atomic<int> src_now(0);
  std::atomic<bool> stop(false), helped(false);
  size_t sp = 0;
  std::thread helper([&]() {  // a read that needs more bytes than are there gets them
    while (!stop) {
      Nap(1000);
      double s = since;
      if (s >= 0 && Now() - s > wait) {
        std::lock_guard<std::mutex> g(mu);
        helped = true;
        feeds[src_now].Add(1 + steps[sp++ % steps.size()].chunk);
        since = Now();
      }
    }
  });
  std::vector<size_t> base(feeds.size(), 0);
  bool good = true;
  for (size_t p = 0; p < phases.size(); p++) {
    const Phase& ph = phases[p];
    std::vector<uint32_t> done(feeds.size(), 0);
    std::vector<std::vector<Got>> reads(feeds.size());
    wait = ph.kind == "cnt" || ph.kind == "rdy" ? 0.004 : 0.3;
    size_t idle = 0;
    while (true) {
      bool all = true;
      for (size_t s = 0; s < feeds.size(); s++) all = all && done[s] == ph.count;
      if (all) break;
      Step st;
      { std::lock_guard<std::mutex> g(mu); st = steps[sp++ % steps.size()]; }
      int src = st.src % feeds.size();
      if (done[src] == ph.count) {
        for (size_t s = 0; s < feeds.size(); s++) if (done[s] < ph.count) src = s;
      }
      Feed& f = feeds[src];
      size_t before = f.Taken();
      { std::lock_guard<std::mutex> g(mu); f.Add(st.chunk); }
      f.Settle(before);
      // everything was delivered and taken, yet messages are missing
      if (f.written == f.data.size() && f.Unread() == 0) {
        if (f.Queued() > 0) { Nap(500); if (++idle < 4000) continue; }
        if (++idle > 3) break;
        continue;
      }
      if (f.Unread() == 0) continue;
      idle = 0;
      Got g;
      g.n = st.n < 1 ? 1 : st.n;
      if (g.n > ph.count - done[src]) g.n = ph.count - done[src];
      std::string want(ph.unit, 0);
      src_now = src;
      since = Now();
      reader(src, ph.kind, g.n, [&](const void* m) {
        uint32_t id = done[src] + 1;
        Payload(ph.kind, p, id, ph.unit, reinterpret_cast<unsigned char*>(&want[0]));
        if (g.count == 0) g.first = id;
        g.count++;
        done[src]++;
        if (done[src] > ph.count || memcmp(m, want.data(), ph.unit) != 0) g.ok = false;
      });
      since = -1;
      std::lock_guard<std::mutex> lk(mu);
      if (helped.exchange(false)) Nap(20000);
      g.consumed = f.Taken();
      g.consumed -= g.consumed < base[src] ? g.consumed : base[src];
      reads[src].push_back(g);
      if (!g.ok || reads[src].size() > 20000) break;
    }
    bool ok = true;
    for (size_t s = 0; s < feeds.size(); s++) {
      printf("{\"t\":\"rd\",\"sock\":\"%s\",\"kind\":\"%s\",\"src\":%zu,\"unit\":%zu,\"total\":%u,\"left\":%zu,\"reads\":[", sock, ph.kind.c_str(), s, ph.unit, ph.count,
             p + 1 == phases.size() ? feeds[s].data.size() - feeds[s].written + feeds[s].Unread() : 0);
      for (size_t i = 0; i < reads[s].size(); i++) {
        const Got& g = reads[s][i];
        printf("%s[%u,%u,%u,%zu]", i ? "," : "", g.n, g.count, g.ok ? 1 : 0, g.consumed);
        ok = ok && g.ok;
      }
      printf("]}\n");
      base[s] += ph.count * ph.unit;
      ok = ok && done[s] == ph.count;
    }
    if (!ok) { good = false; break; }
  }
  stop = true;
  helper.join();
  return good;
}

// What arrives at the raw end while a real socket object sends.
struct Sink {
  int fd = -1;
  std::string got;
  void Take(size_t want, double secs) {
    char buf[65536];
    for (double t0 = Now(); got.size() < want && Now() - t0 < secs;) {
      ssize_t r = syscall(SYS_recvfrom, fd, buf, sizeof(buf), MSG_DONTWAIT, nullptr, nullptr);
      if (r > 0) got.append(buf, r); else Nap(100);
    }
  }
};
// send(target, kind, bytes); flush(kind, target or -1). Targets: all sinks for broadcasts.
inline bool RunWrites(const char* sock, std::vector<Sink>& sinks, const std::vector<Phase>& phases, const std::vector<Step>& steps, bool broadcast_secrets,
                      const std::function<void(int, const std::string&, const std::string&)>& send,
                      const std::function<void(const std::string&, int)>& flush) {
  size_t sp = 0;
  std::vector<std::string> expect(sinks.size());
  // FRAMING_SLOW: small socket buffers and a reader that drains them slowly, so that sending meets full sockets.
  std::mutex mu;
  std::atomic<bool> stop(false);
  std::thread drain;
  if (getenv("FRAMING_SLOW") != nullptr) {
    for (auto& s : sinks) {
      int small = 4096, medium = 65536;
      setsockopt(s.fd, SOL_SOCKET, SO_RCVBUF, &medium, sizeof(medium));
      setsockopt(OtherEnd(s.fd), SOL_SOCKET, SO_SNDBUF, &small, sizeof(small));
    }
    drain = std::thread([&]() {
      while (!stop) {
        Nap(3000);
        std::lock_guard<std::mutex> g(mu);
        for (auto& s : sinks) s.Take(s.got.size() + 1, 0.00001);
      }
    });
  }
  struct Join { std::atomic<bool>& stop; std::thread& t; ~Join() { stop = true; if (t.joinable()) t.join(); } } join{stop, drain};
  for (size_t p = 0; p < phases.size(); p++) {
    const Phase& ph = phases[p];
    bool bc = broadcast_secrets && (ph.kind == "sec" || ph.kind == "rdy");
    std::vector<uint32_t> pushed(sinks.size(), 0);
    std::vector<std::vector<std::vector<size_t>>> obs(sinks.size());
    std::vector<size_t> base;
    for (auto& e : expect) base.push_back(e.size());
    auto look = [&](size_t s, bool flushed) {
      std::lock_guard<std::mutex> g(mu);
      // after a flush everything pushed must arrive; otherwise just look what is there
      if (flushed) sinks[s].Take(expect[s].size(), 3);
      sinks[s].Take(expect[s].size() + 1, flushed ? 0.002 : 0.0005);
      size_t n = sinks[s].got.size();
      bool ok = n <= expect[s].size() && memcmp(sinks[s].got.data(), expect[s].data(), n) == 0;
      obs[s].push_back({pushed[s], flushed ? 1u : 0u, ok ? 1u : 0u, n < base[s] ? 0 : n - base[s]});
      return ok && !(flushed && n < expect[s].size());
    };
    bool ok = true;
    while (ok) {
      bool all = true;
      for (auto d : pushed) all = all && d == ph.count;
      if (all) break;
      Step st = steps[sp++ % steps.size()];
      size_t t = st.src % sinks.size();
      if (pushed[t] == ph.count) for (size_t s = 0; s < sinks.size(); s++) if (pushed[s] < ph.count) t = s;
      for (uint32_t i = 0; i < st.n && pushed[t] < ph.count; i++) {
        std::string b(ph.unit, 0);
        for (size_t s = 0; s < sinks.size(); s++) {
          if (!bc && s != t) continue;
          Payload(ph.kind, p, ++pushed[s], ph.unit, reinterpret_cast<unsigned char*>(&b[0]));
          expect[s] += b;
        }
        send(t, ph.kind, b);
      }
      bool unbuffered = ph.kind == "cnt" || ph.kind == "rdy";
      if (st.chunk % 3 == 0 && !unbuffered) {
        bool allt = st.chunk % 2 == 0;
        flush(ph.kind, allt ? -1 : static_cast<int>(t));
        for (size_t s = 0; s < sinks.size(); s++) ok = look(s, allt || s == t) && ok;
      } else {
        for (size_t s = 0; s < sinks.size(); s++) ok = look(s, unbuffered) && ok;
      }
    }
    if (ok) {
      if (ph.kind != "cnt" && ph.kind != "rdy") { flush(ph.kind, -1); flush(ph.kind, -1); }
      for (size_t s = 0; s < sinks.size(); s++) ok = look(s, true) && ok;
    }
    for (size_t s = 0; s < sinks.size(); s++) {
      printf("{\"t\":\"wr\",\"sock\":\"%s\",\"kind\":\"%s\",\"src\":%zu,\"unit\":%zu,\"total\":%u,\"obs\":[", sock, ph.kind.c_str(), s, ph.unit, ph.count);
      for (size_t i = 0; i < obs[s].size(); i++) {
        auto& o = obs[s][i];
        printf("%s[%zu,%zu,%zu,%zu]", i ? "," : "", o[0], o[1], o[2], o[3]);
      }
      printf("]}\n");
    }
    if (!ok) return false;
  }
  return true;
}

// stdin: runs, each "run <cipher size>" / "phase <kind> <count>"* / "step <src> <chunk> <n>"* / "end".
struct Run { size_t csize = 100; std::vector<Phase> phases; std::vector<Step> steps; };
inline bool NextRun(Run* r, const std::function<size_t(const std::string&, size_t)>& unit) {
  char line[256];
  *r = Run();
  while (fgets(line, sizeof(line), stdin)) {
    char w[64];
    unsigned a = 0, b = 0, c = 0;
    if (strncmp(line, "end", 3) == 0) return true;
    if (sscanf(line, "run %u", &a) == 1) r->csize = a;
    if (sscanf(line, "phase %60s %u", w, &a) == 2) r->phases.push_back({w, a, unit(w, r->csize)});
    if (sscanf(line, "step %u %u %u", &a, &b, &c) == 3) r->steps.push_back({static_cast<int>(a), b, c});
  }
  return false;
}

}  // namespace fr
