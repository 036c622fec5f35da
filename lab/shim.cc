// Test double for the operating system side of the real program: forces short
// reads/writes on sockets, small socket buffers, fast connect retries, and a
// reproducible random generator. Controlled by environment variables; without
// them everything behaves as usual.
#include <arpa/inet.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <string>
#include <vector>

#include "sodium.h"

namespace {

struct Sizes {  // how many bytes the next call may transfer
  enum Mode { FULL, ONE, RAND, LIST } mode = FULL;
  uint64_t state = 1;
  std::vector<size_t> list;
  size_t pos = 0;
  explicit Sizes(const char* var) {
    const char* v = getenv(var);
    if (v == nullptr || strcmp(v, "full") == 0) return;
    if (strcmp(v, "one") == 0) { mode = ONE; return; }
    if (strncmp(v, "rand:", 5) == 0) {
      mode = RAND;
      state = strtoull(v + 5, nullptr, 10) * 2654435761u + 88172645463325252ull;
      return;
    }
    if (strncmp(v, "list:", 5) == 0) {
      mode = LIST;
      std::string s(v + 5);
      size_t i = 0;
      while (i < s.size()) {
        list.push_back(strtoull(s.c_str() + i, nullptr, 10));
        size_t j = s.find(',', i);
        if (j == std::string::npos) break;
        i = j + 1;
      }
    }
  }
  size_t Cap(size_t want) {
    if (want == 0) return 0;
    size_t c = want;
    if (mode == ONE) c = 1;
    if (mode == RAND) {
      state ^= state << 13; state ^= state >> 7; state ^= state << 17;
      uint64_t r = state >> 20;
      switch (r % 4) {
        case 0: c = 1 + (r >> 8) % 7; break;
        case 1: c = 1 + (r >> 8) % 64; break;
        case 2: c = 1 + (r >> 8) % 700; break;
        default: c = want;
      }
    }
    if (mode == LIST && pos < list.size()) c = list[pos++];
    if (c > want) c = want;
    if (c == 0) c = 1;
    return c;
  }
};

bool IsSock(int fd) {
  struct stat st;
  return fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode);
}
Sizes& R() { static Sizes s("LAB_READ"); return s; }
Sizes& W() { static Sizes s("LAB_WRITE"); return s; }

uint64_t rng_state;
uint64_t Next() {
  uint64_t z = (rng_state += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
const char* LName() { return "lab"; }
bool rng_bound;  // LAB_RNGMODE=bound: values at the ends of their range are frequent
uint32_t LRandom() { return static_cast<uint32_t>(Next() >> 16); }
uint32_t LUniform(const uint32_t upper) {
  if (upper < 2) return 0;
  uint64_t r = Next() >> 8;
  if (rng_bound && r % 3 != 0) {
    const uint32_t ends[] = {0, 1, upper - 1, upper - 2, upper / 2};
    return ends[(r >> 8) % 5];
  }
  uint32_t v, min = (1u + ~upper) % upper;
  do v = LRandom(); while (v < min);
  return v % upper;
}
void LBuf(void* const b, const size_t n) {
  unsigned char* p = static_cast<unsigned char*>(b);
  if (rng_bound && n > 40) {
    uint64_t r = Next() >> 8;
    if (r % 4 != 0) {
      memset(b, r % 4 == 3 ? 0xff : 0, n);
      return;
    }
  }
  for (size_t i = 0; i < n; i++) p[i] = static_cast<unsigned char>(Next() >> 24);
}
int LClose() { return 0; }
void LStir() {}
randombytes_implementation impl = {LName, LRandom, LStir, LUniform, LBuf, LClose};

struct Init {
  Init() {
    const char* v = getenv("LAB_RNG");
    const char* m = getenv("LAB_RNGMODE");
    rng_bound = m != nullptr && strcmp(m, "bound") == 0;
    if (v != nullptr) {
      rng_state = strtoull(v, nullptr, 10) * 0x2545F4914F6CDD1Dull + 12345;
      randombytes_set_implementation(&impl);
    }
  }
} init_;

// LAB_NET=<file>: nothing is really contacted. Connections appear to succeed and every attempt is
// recorded; the process ends with status 77 when it first waits for input.
int net_fd = -2;
bool Net() {
  if (net_fd == -2) {
    const char* v = getenv("LAB_NET");
    net_fd = v == nullptr ? -1 : open(v, O_WRONLY | O_CREAT | O_APPEND, 0600);
  }
  return net_fd >= 0;
}
void NetLog(const char* what, const void* data, size_t n) {
  char line[200];
  int k = snprintf(line, sizeof(line), "%s ", what);
  for (size_t i = 0; i < n && i < 64; i++) k += snprintf(line + k, sizeof(line) - k, "%02x", static_cast<const unsigned char*>(data)[i]);
  line[k++] = '\n';
  syscall(SYS_write, net_fd, line, k);
}
void NetAddr(const char* what, const struct sockaddr* a) {
  char line[200];
  const struct sockaddr_in* i = reinterpret_cast<const struct sockaddr_in*>(a);
  int k = snprintf(line, sizeof(line), "%s %d\n", what, ntohs(i->sin_port));
  syscall(SYS_write, net_fd, line, k);
}
int FakePeer() {
  int sp[2];
  if (syscall(SYS_socketpair, AF_UNIX, SOCK_STREAM, 0, sp) != 0) return -1;
  return sp[0];
}
void NetWait() {
  NetLog("wait", nullptr, 0);
  syscall(SYS_exit_group, 77);
}

// LAB_CLOCK=<file>: the time of day and the time since boot are what the file says (nanoseconds
// are 1e6 times its 64-bit number); it stands still while the controller does not change it.
const volatile int64_t* Clock() {
  static const volatile int64_t* c = nullptr;
  static bool tried = false;
  if (!tried) {
    tried = true;
    const char* v = getenv("LAB_CLOCK");
    int fd = v == nullptr ? -1 : open(v, O_RDONLY);
    if (fd >= 0) {
      void* p = mmap(nullptr, 8, PROT_READ, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) c = static_cast<const volatile int64_t*>(p);
      close(fd);
    }
  }
  return c;
}
constexpr int64_t EPOCH_MS = 1700000000123;

}  // namespace

extern "C" {

int clock_gettime(clockid_t id, struct timespec* t) noexcept {
  bool cpu = id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID || id < 0;
  const volatile int64_t* c = cpu ? nullptr : Clock();
  if (c == nullptr) return syscall(SYS_clock_gettime, id, t);
  int64_t ms = *c + EPOCH_MS;
  t->tv_sec = ms / 1000;
  t->tv_nsec = ms % 1000 * 1000000;
  return 0;
}
int gettimeofday(struct timeval* t, void*) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  t->tv_sec = ts.tv_sec;
  t->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* out) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (out != nullptr) *out = ts.tv_sec;
  return ts.tv_sec;
}

int connect(int fd, const struct sockaddr* a, socklen_t n) {
  if (!Net()) return syscall(SYS_connect, fd, a, n);
  NetAddr("connect", a);
  int p = FakePeer();
  dup2(p, fd);
  return 0;
}
int bind(int fd, const struct sockaddr* a, socklen_t n) {
  if (!Net()) return syscall(SYS_bind, fd, a, n);
  NetAddr("listen", a);
  return 0;
}
int listen(int fd, int n) {
  if (!Net()) return syscall(SYS_listen, fd, n);
  return 0;
}
int accept(int fd, struct sockaddr* a, socklen_t* n) {
  if (!Net()) return syscall(SYS_accept4, fd, a, n, 0);
  return FakePeer();
}
int poll(struct pollfd* p, nfds_t n, int t) {
  // the others may take any time: a limit on waiting may pass at any moment
  if (!Net()) return syscall(SYS_poll, p, n, t > 20 ? 20 : t);
  NetWait();
  return 0;
}

ssize_t read(int fd, void* buf, size_t n) {
  if (IsSock(fd)) {
    if (Net()) NetWait();
    n = R().Cap(n);
  }
  return syscall(SYS_read, fd, buf, n);
}
ssize_t recv(int fd, void* buf, size_t n, int flags) {
  if (IsSock(fd)) {
    if (Net()) NetWait();
    n = R().Cap(n);
  }
  return syscall(SYS_recvfrom, fd, buf, n, flags, nullptr, nullptr);
}
ssize_t write(int fd, const void* buf, size_t n) {
  if (IsSock(fd)) {
    if (Net()) NetLog("send", buf, n);
    n = W().Cap(n);
  }
  return syscall(SYS_write, fd, buf, n);
}
ssize_t send(int fd, const void* buf, size_t n, int flags) {
  if (Net()) NetLog("send", buf, n);
  n = W().Cap(n);
  return syscall(SYS_sendto, fd, buf, n, flags, nullptr, 0);
}
int setsockopt(int fd, int level, int name, const void* val, socklen_t len) {
  if (Net() && level != SOL_SOCKET) return 0;
  const char* v = getenv("LAB_SOCKBUF");
  if (v != nullptr && level == SOL_SOCKET && (name == SO_RCVBUF || name == SO_SNDBUF)) {
    int n = atoi(v);
    return syscall(SYS_setsockopt, fd, level, name, &n, sizeof(n));
  }
  if (level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO) && len == sizeof(struct timeval)) {
    struct timeval t;
    memcpy(&t, val, sizeof(t));
    if (t.tv_sec > 0 || t.tv_usec > 20000) t = {0, 20000};
    return syscall(SYS_setsockopt, fd, level, name, &t, sizeof(t));
  }
  return syscall(SYS_setsockopt, fd, level, name, val, len);
}
// Waiting (connect retries) passes early.
static int Nap(const struct timespec* t) {
  struct timespec ts = *t;
  if (ts.tv_sec > 0 || ts.tv_nsec > 5 * 1000 * 1000) ts = {0, 5 * 1000 * 1000};
  syscall(SYS_nanosleep, &ts, nullptr);
  return 0;
}
unsigned int sleep(unsigned int n) {
  struct timespec ts = {static_cast<time_t>(n), 0};
  Nap(&ts);
  return 0;
}
int usleep(unsigned int n) {
  struct timespec ts = {static_cast<time_t>(n / 1000000), static_cast<long>(n % 1000000) * 1000};
  return Nap(&ts);
}
int nanosleep(const struct timespec* t, struct timespec*) { return Nap(t); }
int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* r) {
  if (flags & TIMER_ABSTIME) return -syscall(SYS_clock_nanosleep, c, flags, t, r);
  return Nap(t);
}

}  // extern "C"
