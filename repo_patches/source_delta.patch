From 20b97b5eb065daf2bafa138f7a72e97eeaedb309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:45 +0000
Subject: [PATCH 01/14] fix: shuffle picks from the whole range, so that every
 permutation is reachable

rand() returns 31 random bits; scaling by 2^32 made random_bounded(n) return
only values in [0, n/2]. Most permutations could never occur.
---
 DPPIR/shuffle/util.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/DPPIR/shuffle/util.cc b/DPPIR/shuffle/util.cc
index ebb97a8..42d8f2e 100644
--- a/DPPIR/shuffle/util.cc
+++ b/DPPIR/shuffle/util.cc
@@ -8,10 +8,12 @@ void seed(int s) { srand(s); }
 
 // https://lemire.me/blog/2016/06/30/fast-random-shuffling/
 uint32_t random_bounded(uint32_t range) {
+  // rand() has 31 random bits, not 32.
+  static_assert(RAND_MAX == 2147483647, "random_bounded() assumes 31 bits");
   // NOLINTNEXTLINE
-  uint64_t random32bit = static_cast<uint32_t>(rand());  // 32-bit random number
-  uint64_t multiresult = random32bit * range;
-  return multiresult >> 32;
+  uint64_t random31bit = static_cast<uint32_t>(rand());  // 31-bit random number
+  uint64_t multiresult = random31bit * range;
+  return multiresult >> 31;
 }
 
 }  // namespace util
-- 
2.43.0


From d1d4b85892e40ff2b1194d62c3753ae7eec4e01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:45 +0000
Subject: [PATCH 02/14] fix: noise row ranges stay inside the database

With e.g. 5 rows and 4 servers, server 2 got rows [4, 6) and server 3 the
ill-formed range [6, 5).
---
 DPPIR/noise/noise.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/DPPIR/noise/noise.cc b/DPPIR/noise/noise.cc
index 08bf1d3..76fee02 100644
--- a/DPPIR/noise/noise.cc
+++ b/DPPIR/noise/noise.cc
@@ -1,5 +1,6 @@
 #include "DPPIR/noise/noise.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <cstdlib>
@@ -34,11 +35,9 @@ std::pair<key_t, key_t> FindRange(server_id_t server_id,
                                   server_id_t servers_count, index_t db_size) {
   assert(db_size >= servers_count);
   index_t range_size = std::ceil(1.0 * db_size / servers_count);
-  key_t range_start = server_id * range_size;
-  key_t range_end = range_start + range_size;
-  if (server_id == servers_count - 1) {
-    range_end = db_size;
-  }
+  // Rounding up may use up all rows before the last servers.
+  key_t range_start = std::min<index_t>(server_id * range_size, db_size);
+  key_t range_end = std::min<index_t>(range_start + range_size, db_size);
   return std::make_pair(range_start, range_end);
 }
 
-- 
2.43.0


From 2e221432bbea2591ecaa905b1bccde7975259360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:45 +0000
Subject: [PATCH 03/14] fix: client tags do not collide when clients make
 different numbers of queries

---
 DPPIR/protocol/client/client_handlers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DPPIR/protocol/client/client_handlers.cc b/DPPIR/protocol/client/client_handlers.cc
index 7e8d03d..2b1f3e4 100644
--- a/DPPIR/protocol/client/client_handlers.cc
+++ b/DPPIR/protocol/client/client_handlers.cc
@@ -14,7 +14,7 @@ tag_t Client::SampleTag(index_t id) {
   // The below leaks information but is helpful for debugging as it allows us
   // to determine the source of a message via its tag.
   // TODO(babman): sample this tag uniformly at random.
-  return this->server_id_ * this->queries_count_ + id;
+  return (static_cast<tag_t>(this->server_id_) << 32) | id;
 }
 
 // Samples an offline secret, stores it in state, and returns it for
-- 
2.43.0


From da41747916ad40f91e319fc6eb4de9ebf27b9968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:45 +0000
Subject: [PATCH 04/14] fix: noise tags of sibling servers do not collide when
 noise is sampled

The offset assumed that every row gets the same amount of noise, which does
not hold with DPPIR_SAMPLE.
---
 .../parallel_party/parallel_party_handlers.cc         | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/DPPIR/protocol/parallel_party/parallel_party_handlers.cc b/DPPIR/protocol/parallel_party/parallel_party_handlers.cc
index dc40fe6..21ba353 100644
--- a/DPPIR/protocol/parallel_party/parallel_party_handlers.cc
+++ b/DPPIR/protocol/parallel_party/parallel_party_handlers.cc
@@ -7,20 +7,13 @@
 namespace DPPIR {
 namespace protocol {
 
-static int64_t NOISE_OFFSET = -1;
-
 // Randomly sample a tag. Must be from a large enough domain to avoid colisions.
 tag_t ParallelParty::SampleTag(index_t id) {
   // The below leaks information but is helpful for debugging as it allows us
   // to determine the source of a message via its tag.
-  if (NOISE_OFFSET == -1) {
-    index_t range = this->noise_end_ - this->noise_start_;
-    index_t noise_per_row = this->noise_count_ / range;
-    index_t total_noise = noise_per_row * this->db_.Size();
-    NOISE_OFFSET = total_noise - (this->noise_start_ * noise_per_row);
-  }
   // TODO(babman): sample the tag uniformly at random.
-  return this->total_batch_size_ - NOISE_OFFSET + id;
+  return (static_cast<tag_t>(this->party_id_ + 1) << 40) |
+         (static_cast<tag_t>(this->server_id_) << 32) | id;
 }
 
 // Samples an offline secret, stores it in state, and returns it for
-- 
2.43.0


From 9d30b2b08060c8aa9910a2fd6ad9b462887e8e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:45 +0000
Subject: [PATCH 05/14] fix: killing an experiment does not kill its former
 workers' other jobs

---
 experiments/orchestrator/experiment.js   |  4 +++-
 experiments/orchestrator/orchestrator.js | 10 +++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/experiments/orchestrator/experiment.js b/experiments/orchestrator/experiment.js
index 5d44453..3eb948c 100644
--- a/experiments/orchestrator/experiment.js
+++ b/experiments/orchestrator/experiment.js
@@ -55,7 +55,9 @@ AbstractExperiment.prototype.finished = function (worker) {
         this.status = Status.EXPERIMENT_CLEANUP;
         console.log("Experiment " + this.id + " is cleaning up!");
         for (const server of this.servers) {
-          server.kill();
+          if (server.experiment == this) {
+            server.kill();
+          }
         }
       }
       if (this.serversNum == 0 || this.finishedServers == this.serversNum) {
diff --git a/experiments/orchestrator/orchestrator.js b/experiments/orchestrator/orchestrator.js
index 26a7b9f..3ca0d71 100644
--- a/experiments/orchestrator/orchestrator.js
+++ b/experiments/orchestrator/orchestrator.js
@@ -76,11 +76,11 @@ Orchestrator.prototype.experimentInfo = function (experimentId) {
 Orchestrator.prototype.kill = function (experimentId) {
   for (const experiment of this.experiments) {
     if (experiment.id == experimentId) {
-      for (const worker of experiment.clients) {
-        worker.kill();
-      }
-      for (const worker of experiment.servers) {
-        worker.kill();
+      // Workers that are done may be working on another experiment by now.
+      for (const worker of experiment.clients.concat(experiment.servers)) {
+        if (worker.experiment == experiment) {
+          worker.kill();
+        }
       }
       return;
     }
-- 
2.43.0


From d6935d3c13646796e827901a55bac774ea73f283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:20 +0000
Subject: [PATCH 06/14] fix: noise cut-off is right for very small delta and
 refused when it does not fit

For delta below about 1e-16 the cut-off was computed as infinite and no noise
was added at all; a cut-off beyond sample_t was reduced modulo 2^32 because the
check compared two values of the same type.
---
 DPPIR/noise/noise.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/DPPIR/noise/noise.cc b/DPPIR/noise/noise.cc
index 76fee02..9486a24 100644
--- a/DPPIR/noise/noise.cc
+++ b/DPPIR/noise/noise.cc
@@ -5,6 +5,7 @@
 #include <cmath>
 #include <cstdlib>
 #include <iostream>
+#include <limits>
 #include <random>
 
 namespace DPPIR {
@@ -22,7 +23,8 @@ double Laplace(double mean, double span) {
 // Returns the x such that Prob[lap(mean, span) <= x] = prob.
 double InvCDF(double mean, double span, double prob) {
   int sign = (prob > 0.5) ? -1 : 1;
-  return mean - sign * span * std::log(1 - 2 * std::abs(prob - 0.5));
+  // Equal to 1 - 2 * abs(prob - 0.5), but exact for very small probabilities.
+  return mean - sign * span * std::log(2 * std::fmin(prob, 1 - prob));
 }
 
 }  // namespace
@@ -55,8 +57,8 @@ NoiseDistribution::NoiseDistribution(double epsilon, double delta) {
     std::cout << "Noise cutoff: " << this->cutoff_ << std::endl;
   }
   // Noise domain must fit inside sample_t.
-  index_t max = std::floor(2 * this->cutoff_);
-  if (max != static_cast<sample_t>(max)) {
+  double max = std::floor(2 * this->cutoff_);
+  if (!(max >= 0 && max <= std::numeric_limits<sample_t>::max())) {
     std::cout << "sample_t too small to fit noise, max = " << max << std::endl;
     assert(false);
   }
-- 
2.43.0


From 4935f645162e339f7918bf872c55b74eed08c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:39 +0000
Subject: [PATCH 07/14] fix: sampled noise differs from run to run

rand() was never seeded before the noise is sampled, so that every party drew
the same, publicly known noise in every run when built with DPPIR_SAMPLE.
---
 DPPIR/main.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DPPIR/main.cc b/DPPIR/main.cc
index b62748d..24946f6 100644
--- a/DPPIR/main.cc
+++ b/DPPIR/main.cc
@@ -1,4 +1,5 @@
 #include <cassert>
+#include <cstdlib>
 #include <iostream>
 #include <string>
 
@@ -27,6 +28,9 @@ ABSL_FLAG(int64_t, queries, -1, "# of queries (required if role is client)");
 int main(int argc, char** argv) {
   assert(sodium_init() >= 0);
 
+  // The sampled noise must differ between runs, parties and servers.
+  srand(randombytes_random());
+
   // Command line flags.
   absl::SetProgramUsageMessage(USAGE_MESSAGE);
   absl::ParseCommandLine(argc, argv);
-- 
2.43.0


From f01a892b88dff93b89d75238a99b420af02d6156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:00 +0000
Subject: [PATCH 08/14] fix: gen_config refuses party and server counts it
 cannot represent

---
 DPPIR/config/gen_config.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/DPPIR/config/gen_config.cc b/DPPIR/config/gen_config.cc
index b2d648c..f7f33e2 100644
--- a/DPPIR/config/gen_config.cc
+++ b/DPPIR/config/gen_config.cc
@@ -67,8 +67,13 @@ Config FromArgs(int argc, char** argv) {
   config.epsilon = std::stod(argv[2]);
   config.delta = std::stod(argv[3]);
   // Parties and servers.
-  config.party_count = std::stoi(argv[4]);
-  config.server_count = std::stoi(argv[5]);
+  int party_count = std::stoi(argv[4]);
+  int server_count = std::stoi(argv[5]);
+  config.party_count = party_count;
+  config.server_count = server_count;
+  // Larger counts cannot be represented.
+  assert(config.party_count == party_count);
+  assert(config.server_count == server_count);
   config.parties = std::vector<PartyConfig>(config.party_count);
   // Party/server details.
   int args = 6 + (config.party_count * config.server_count);
-- 
2.43.0


From d949dec30bc1e2abbf6d15a4febadf8f0f354a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:07 +0000
Subject: [PATCH 09/14] fix: refuse query counts that would be silently
 truncated

---
 DPPIR/main.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DPPIR/main.cc b/DPPIR/main.cc
index 24946f6..4744fce 100644
--- a/DPPIR/main.cc
+++ b/DPPIR/main.cc
@@ -1,6 +1,7 @@
 #include <cassert>
 #include <cstdlib>
 #include <iostream>
+#include <limits>
 #include <string>
 
 #include "DPPIR/config/config.h"
@@ -70,6 +71,10 @@ int main(int argc, char** argv) {
     std::cout << "--queries is required for clients" << std::endl;
     return 1;
   }
+  if (queries > std::numeric_limits<DPPIR::index_t>::max()) {
+    std::cout << "--queries is too large" << std::endl;
+    return 1;
+  }
   if (server_id < 0) {
     std::cout << "--server_id is required" << std::endl;
     return 1;
-- 
2.43.0


From 968262a69dd04545a56dc33e305efebee7b3cfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:16 +0000
Subject: [PATCH 10/14] fix: plot Checklist times of an hour or more, and
 refuse reports without a time

---
 experiments/plots/plot.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/experiments/plots/plot.py b/experiments/plots/plot.py
index 87a53ab..641336b 100644
--- a/experiments/plots/plot.py
+++ b/experiments/plots/plot.py
@@ -29,7 +29,7 @@ MEAN_NOISE = 276
 
 DPPIR_ONLINE_REGEX = r'Online time: ([0-9]+)ms'
 DPPIR_OFFLINE_REGEX = r'Offline time: ([0-9]+)ms'
-CHECKLIST_REGEX = r'Server [0-9] time: ([0-9]+m)?([0-9.]+)([a-z]+) and '
+CHECKLIST_REGEX = r'Server [0-9] time: ([0-9]+h)?([0-9]+m)?([0-9.]+)([a-z]+) and '
 SEALPIR_REGEX = r'Server time: ([0-9]+)ms'
 
 class Table:
@@ -143,11 +143,13 @@ class Series:
 
     if self.protocol == 'Checklist':
       y = -100000
-      for m, t, u in re.findall(CHECKLIST_REGEX, data):
+      for h, m, t, u in re.findall(CHECKLIST_REGEX, data):
         if len(m) > 0:
           m = int(m[:-1]) * 60
         else:
           m = 0
+        if len(h) > 0:
+          m += int(h[:-1]) * 3600
 
         t = float(t)
         if u == 's':
@@ -156,6 +158,7 @@ class Series:
           y = max(y, m + (t / 1000.0))
         else:
           assert False, 'invalid unit'
+      assert y != -100000, 'Could not parse Checklist'
       return y
 
     if self.protocol == 'SealPIR':
@@ -267,11 +270,13 @@ class ExtrapolateData:
 
     if self.protocol == 'Checklist':
       y = -100000
-      for m, t, u in re.findall(CHECKLIST_REGEX, data):
+      for h, m, t, u in re.findall(CHECKLIST_REGEX, data):
         if len(m) > 0:
           m = int(m[:-1]) * 60
         else:
           m = 0
+        if len(h) > 0:
+          m += int(h[:-1]) * 3600
 
         t = float(t)
         if u == 's':
-- 
2.43.0


From 56cf4eac9892dfb64a461eacf7de093cc41e4de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:16 +0000
Subject: [PATCH 11/14] fix: plot results of experiments whose parameters are
 written with an exponent

---
 experiments/plots/plot.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/experiments/plots/plot.py b/experiments/plots/plot.py
index 641336b..885d2f4 100644
--- a/experiments/plots/plot.py
+++ b/experiments/plots/plot.py
@@ -32,6 +32,10 @@ DPPIR_OFFLINE_REGEX = r'Offline time: ([0-9]+)ms'
 CHECKLIST_REGEX = r'Server [0-9] time: ([0-9]+h)?([0-9]+m)?([0-9.]+)([a-z]+) and '
 SEALPIR_REGEX = r'Server time: ([0-9]+)ms'
 
+def count_dashes(dirname):
+  # Small numbers, e.g. a delta of 1e-7, have a dash of their own.
+  return re.sub(r'-([0-9.]+)e-', r'-\1e', dirname).count('-')
+
 class Table:
   def __init__(self, description):
     self.experiment_name = description['experiment-name']
@@ -65,7 +69,7 @@ class Table:
     if not dirname.startswith('{}-'.format(self.experiment_name)):
       return False
     # tables only supported for DP-PIR.
-    return len([c for c in dirname if c == '-']) == 6
+    return count_dashes(dirname) == 6
 
   def compatible_file(self, filename):
     return filename.startswith('party-0')
@@ -113,9 +117,9 @@ class Series:
       return False
 
     if self.protocol == 'DP-PIR':
-      return len([c for c in dirname if c == '-']) == 6
+      return count_dashes(dirname) == 6
     else:
-      return len([c for c in dirname if c == '-']) == 2
+      return count_dashes(dirname) == 2
 
   def compatible_file(self, filename):
     if self.protocol == 'DP-PIR': return filename.startswith('party-0')
@@ -237,9 +241,9 @@ class ExtrapolateData:
       return False
 
     if self.protocol == 'DP-PIR':
-      return len([c for c in dirname if c == '-']) == 6
+      return count_dashes(dirname) == 6
     else:
-      return len([c for c in dirname if c == '-']) == 2
+      return count_dashes(dirname) == 2
 
   def compatible_file(self, filename):
     if self.protocol == 'DP-PIR': return filename.startswith('party-0')
-- 
2.43.0


From cedc0317ec70e7b7a4fe4166a327ec550490eb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:32 +0000
Subject: [PATCH 12/14] fix: store the experiments of figure6 with 100 queries,
 which its description needs

---
 experiments/orchestrator/stored/figure6.json | 22 ++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/experiments/orchestrator/stored/figure6.json b/experiments/orchestrator/stored/figure6.json
index 7aee87f..31ef687 100644
--- a/experiments/orchestrator/stored/figure6.json
+++ b/experiments/orchestrator/stored/figure6.json
@@ -1,4 +1,17 @@
 [
+  {
+    "name_": "figure6-100000-2-1-100-0.1-0.000001",
+    "experimentType": "dppir",
+    "clientsNum": 1,
+    "serversNum": 2,
+    "mode": "online",
+    "parties": 2,
+    "parallelism": 1,
+    "epsilon": 0.1,
+    "delta": 0.000001,
+    "queries": 100,
+    "tableSize": 100000
+  },
   {
     "name_": "figure6-100000-2-1-1000-0.1-0.000001",
     "experimentType": "dppir",
@@ -77,6 +90,15 @@
     "queries": 100000000,
     "tableSize": 100000
   },
+  {
+    "name_": "figure6-100000-100",
+    "experimentType": "checklist",
+    "clientsNum": 1,
+    "serversNum": 2,
+    "pirtype": "DPF",
+    "queries": 100,
+    "tableSize": 100000
+  },
   {
     "name_": "figure6-100000-1000",
     "experimentType": "checklist",
-- 
2.43.0


From 7aa0bd5a0e2d2e12814987f8acf67168c0249ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:20 +0000
Subject: [PATCH 13/14] fix: report the total of the Checklist reads on a line
 of its own after a failed read

---
 experiments/checklist/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/checklist/main.go b/experiments/checklist/main.go
index 69e3d3e..d21207f 100644
--- a/experiments/checklist/main.go
+++ b/experiments/checklist/main.go
@@ -83,7 +83,7 @@ func main() {
 			start := time.Now()
 			_, err := client.Read(key)
 			if err != nil {
-				fmt.Printf("Failed to read key %d: %v", key, err)
+				fmt.Printf("Failed to read key %d: %v\n", key, err)
 				continue
 			}
 			latencies <- requestTime{start, time.Now()}
-- 
2.43.0


From 388c2d741f5e221b5f4125b3bdafb85267bd7b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:36 +0000
Subject: [PATCH 14/14] fix: do not lose a request to stop that reaches the
 Checklist client before it waits for one

---
 experiments/checklist/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/checklist/main.go b/experiments/checklist/main.go
index d21207f..38b0ff3 100644
--- a/experiments/checklist/main.go
+++ b/experiments/checklist/main.go
@@ -62,7 +62,7 @@ func main() {
 
 	inShutdown := false
 
-	c := make(chan os.Signal)
+	c := make(chan os.Signal, 1)
 	signal.Notify(c, os.Interrupt, syscall.SIGTERM)
 	go func() {
 		<-c
-- 
2.43.0

