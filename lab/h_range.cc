// Prints the row ranges of all servers for lines "<db size> <servers>".
#include <stdio.h>
#include <sys/wait.h>
#include <unistd.h>
#include "DPPIR/noise/noise.h"
int main() {
  unsigned long db;
  int s;
  while (scanf("%lu %d", &db, &s) == 2) {
    fflush(stdout);
    printf("{\"t\":\"range\",\"db\":%lu,\"S\":%d,\"r\":[", db, s);
    for (int i = 0; i < s; i++) {
      auto r = DPPIR::noise::FindRange(i, s, db);
      printf("%s[%lu,%lu]", i ? "," : "", (unsigned long)r.first, (unsigned long)r.second);
    }
    printf("]}\n");
  }
  return 0;
}
