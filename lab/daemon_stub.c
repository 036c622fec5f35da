// Stand-in for curl, bazel, the experiment programs, sleep, ps, pkill, pgrep, killall and kill:
// reports the call to the controller and does what it says.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
static int fd;
static void put(const void* p, size_t n) { while (n > 0) { ssize_t k = send(fd, p, n, MSG_NOSIGNAL); if (k <= 0) _exit(1); p = (const char*)p + k; n -= k; } }
static void str(const char* s, size_t n) { unsigned l = n; put(&l, 4); put(s, n); }
static int get(void* p, size_t n) { while (n > 0) { ssize_t k = read(fd, p, n); if (k <= 0) return 0; p = (char*)p + k; n -= k; } return 1; }
int main(int argc, char** argv) {
  struct sockaddr_un a = {.sun_family = AF_UNIX};
  const char* path = getenv("LAB_SOCK");
  if (!path) return 1;
  strncpy(a.sun_path, path, sizeof(a.sun_path) - 1);
  fd = socket(AF_UNIX, SOCK_STREAM, 0);
  if (connect(fd, (struct sockaddr*)&a, sizeof(a)) < 0) return 1;
  unsigned pid = getpid(), n = argc;
  char cwd[4096] = "";
  if (!getcwd(cwd, sizeof(cwd))) return 1;
  const char* name = strrchr(argv[0], '/');
  name = name ? name + 1 : argv[0];
  put(&pid, 4);
  str(cwd, strlen(cwd));
  put(&n, 4);
  str(name, strlen(name));
  int in = 0;
  for (int i = 1; i < argc; i++) { str(argv[i], strlen(argv[i])); in |= !strcmp(argv[i], "@-") || !strcmp(argv[i], "-"); }
  static char buf[1 << 20];
  size_t got = 0;
  if (in) for (ssize_t k; got < sizeof(buf) && (k = read(0, buf + got, sizeof(buf) - got)) > 0; got += k);
  str(buf, got);
  for (;;) {
    unsigned h[2];
    if (!get(h, 8)) return 1;
    if (h[0] == 0) _exit(h[1]);
    if (h[1] > sizeof(buf) || !get(buf, h[1])) return 1;
    for (size_t w = 0; w < h[1];) { ssize_t k = write(h[0], buf + w, h[1] - w); if (k <= 0) break; w += k; }
    put("k", 1);
  }
}
