// Drives the real noise distribution. Reads lines "<eps> <delta> <draws>" (hexadecimal floats), each
// handled in a child process because refused parameters stop the process.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <map>
#include <vector>

#include "DPPIR/noise/noise.h"

static int edge = 0;
static uint64_t st;
static uint64_t Next() {
  uint64_t z = (st += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
// The C generator, replaced by a better one, or by one that favours its extreme values.
extern "C" int rand() {
  if (edge) {
    switch (Next() % 6) {
      case 0: return 0;
      case 1: return RAND_MAX;
      case 2: return 1;
      case 3: return RAND_MAX / 2;
      case 4: return RAND_MAX - 1;
    }
  }
  return static_cast<int>(Next() >> 33);
}

int main(int argc, char** argv) {
  st = strtoull(argv[1], nullptr, 10) * 7919 + 3;
  edge = atoi(argv[2]);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  char line[400];
  long idx = 0;
  while (fgets(line, sizeof(line), stdin)) {
    char a[100], b[100];
    long draws;
    if (sscanf(line, "%99s %99s %ld", a, b, &draws) != 3) continue;
    double eps = strtod(a, nullptr), delta = strtod(b, nullptr);
    fflush(stdout);
    int p[2];
    if (pipe(p) != 0) return 9;
    st = st * 3 + 1;
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]);
      freopen("/dev/null", "w", stdout);
      freopen("/dev/null", "w", stderr);
      DPPIR::noise::NoiseDistribution d(eps, delta);
      std::map<unsigned long, long> h;
      for (long i = 0; i < draws; i++) h[d.Sample()]++;
      FILE* f = fdopen(p[1], "w");
      for (auto& e : h) fprintf(f, "%lu %ld\n", e.first, e.second);
      fclose(f);
      _exit(0);
    }
    close(p[1]);
    FILE* f = fdopen(p[0], "r");
    unsigned long v;
    long c;
    printf("{\"t\":\"noise\",\"idx\":%ld,\"h\":[", idx++);
    bool first = true;
    while (fscanf(f, "%lu %ld", &v, &c) == 2) {
      printf("%s[%lu,%ld]", first ? "" : ",", v, c);
      first = false;
    }
    fclose(f);
    int status;
    waitpid(pid, &status, 0);
    printf("],\"ok\":%d}\n", WIFEXITED(status) && WEXITSTATUS(status) == 0);
  }
  return 0;
}
