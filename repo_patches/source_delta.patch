From 44e51aec5c289f570cd540a6b53dc3ecb708f2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 01/44] fix: register a new thread before it can look for its
 ordinal

---
 src/threads_intf.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/threads_intf.c b/src/threads_intf.c
index 24b43b1..01962fe 100644
--- a/src/threads_intf.c
+++ b/src/threads_intf.c
@@ -27,6 +27,7 @@
 
 static ThreadObj threads[NTHREADS_MAX];
 static int nthreads = 0;
+static int dispatcher_is_init = 0;
 DECLARE_MUTEX(thread_ord_mutex)
 
 
@@ -34,6 +35,7 @@ void init_thread_dispatcher(void)
 {
     INIT_MUTEX(thread_ord_mutex);
     nthreads = 0;
+    dispatcher_is_init = 1;
 }
 
 /**
@@ -47,6 +49,9 @@ ThreadObj ThreadObj_create(ThreadFuncPtr thr_func, void *udata, unsigned int ord
     ThreadObj obj;
     obj.ord = ord;
     obj.exists = 1;
+    // The mutex is kept until the thread is registered: the new thread must
+    // not look for its ordinal before that.
+    MUTEX_LOCK(thread_ord_mutex);
 #ifdef USE_PTHREADS
     pthread_create(&obj.id, NULL, thr_func, udata);
     // Get data from threads
@@ -57,7 +62,6 @@ ThreadObj ThreadObj_create(ThreadFuncPtr thr_func, void *udata, unsigned int ord
     thr_func(udata);
 #endif
 
-    MUTEX_LOCK(thread_ord_mutex);
     if (nthreads < NTHREADS_MAX) {
         threads[nthreads++] = obj;
     }
@@ -89,11 +93,13 @@ void ThreadObj_wait(ThreadObj *obj)
 #else
     (void) obj;
 #endif
+    MUTEX_LOCK(thread_ord_mutex);
     for (int i = 0; i < nthreads; i++) {
         if (ThreadObj_equal(obj, &threads[i]) && threads[i].exists) {
             threads[i].exists = 0;
         }
     }
+    MUTEX_UNLOCK(thread_ord_mutex);
 }
 
 /**
@@ -109,12 +115,19 @@ ThreadObj ThreadObj_current(void)
 #else
     obj.id = THREAD_ID_UNKNOWN;
 #endif
+    obj.ord = THREAD_ORD_UNKNOWN;
+    obj.exists = 0;
+    if (!dispatcher_is_init) {
+        return obj; // No threads were created yet
+    }
+    MUTEX_LOCK(thread_ord_mutex);
     for (int i = 0; i < nthreads; i++) {
         if (ThreadObj_equal(&obj, &threads[i]) && threads[i].exists) {
-            return threads[i];
+            obj = threads[i];
+            break;
         }
     }
-    obj.ord = THREAD_ORD_UNKNOWN;
+    MUTEX_UNLOCK(thread_ord_mutex);
     return obj;
 }
 
-- 
2.43.0


From e49363063a9f1b7e50797ffaed2051c32ed1a073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 02/44] fix: stop with an error when a thread cannot be created

---
 src/threads_intf.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/threads_intf.c b/src/threads_intf.c
index 01962fe..d87475a 100644
--- a/src/threads_intf.c
+++ b/src/threads_intf.c
@@ -53,15 +53,21 @@ ThreadObj ThreadObj_create(ThreadFuncPtr thr_func, void *udata, unsigned int ord
     // not look for its ordinal before that.
     MUTEX_LOCK(thread_ord_mutex);
 #ifdef USE_PTHREADS
-    pthread_create(&obj.id, NULL, thr_func, udata);
+    const int is_ok = (pthread_create(&obj.id, NULL, thr_func, udata) == 0);
     // Get data from threads
 #elif defined(USE_WINTHREADS)
     obj.handle = CreateThread(NULL, 0, thr_func, udata, 0, &obj.id);
+    const int is_ok = (obj.handle != NULL);
 #else
+    const int is_ok = 1;
     obj.id = ord;
     thr_func(udata);
 #endif
 
+    if (!is_ok) {
+        fprintf(stderr, "***** ThreadObj_create: cannot create thread %u *****\n", ord);
+        exit(EXIT_FAILURE);
+    }
     if (nthreads < NTHREADS_MAX) {
         threads[nthreads++] = obj;
     }
-- 
2.43.0


From 6a70fbebbe59e7fa71d02334a7784b88db12f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:41 +0000
Subject: [PATCH 03/44] fix: reject numbers of threads that do not fit into the
 thread table and the seed format

---
 apps/smokerand.c   | 11 ++++++++++-
 src/threads_intf.c |  9 ++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index f8bce30..14d2ded 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -102,6 +102,12 @@ typedef struct {
     ReportType report_type;
 } SmokeRandSettings;
 
+/**
+ * @brief Maximal number of threads: the `_NN_base64` seed format has only two
+ * hexadecimal digits for it.
+ */
+#define NTHREADS_LIMIT 255
+
 /**
  * @brief Returns a default number of threads suitable for the current
  * hardware configuration.
@@ -122,6 +128,9 @@ static unsigned int get_default_nthreads(unsigned int *ncores)
     }
     if (nthreads > 4)
         nthreads--;
+    if (nthreads > NTHREADS_LIMIT) {
+        nthreads = NTHREADS_LIMIT;
+    }
     return nthreads;
 }
 
@@ -166,7 +175,7 @@ static BatteryExitCode process_argument(SmokeRandSettings *obj,
 
 
 
-DEFINE_NUMARG_CALLBACK(nthreads, "nthreads", argval > 0)
+DEFINE_NUMARG_CALLBACK(nthreads, "nthreads", 0 < argval && argval <= NTHREADS_LIMIT)
 DEFINE_NUMARG_CALLBACK(testid, "testid", argval > 0)
 DEFINE_NUMARG_CALLBACK(maxlen_log2, "maxlen_log2", 12 <= argval || argval <= 63)
 
diff --git a/src/threads_intf.c b/src/threads_intf.c
index d87475a..cc78748 100644
--- a/src/threads_intf.c
+++ b/src/threads_intf.c
@@ -52,6 +52,11 @@ ThreadObj ThreadObj_create(ThreadFuncPtr thr_func, void *udata, unsigned int ord
     // The mutex is kept until the thread is registered: the new thread must
     // not look for its ordinal before that.
     MUTEX_LOCK(thread_ord_mutex);
+    if (nthreads >= NTHREADS_MAX) {
+        fprintf(stderr, "***** ThreadObj_create: too many threads (%d is the limit) *****\n",
+            NTHREADS_MAX);
+        exit(EXIT_FAILURE);
+    }
 #ifdef USE_PTHREADS
     const int is_ok = (pthread_create(&obj.id, NULL, thr_func, udata) == 0);
     // Get data from threads
@@ -68,9 +73,7 @@ ThreadObj ThreadObj_create(ThreadFuncPtr thr_func, void *udata, unsigned int ord
         fprintf(stderr, "***** ThreadObj_create: cannot create thread %u *****\n", ord);
         exit(EXIT_FAILURE);
     }
-    if (nthreads < NTHREADS_MAX) {
-        threads[nthreads++] = obj;
-    }
+    threads[nthreads++] = obj;
     MUTEX_UNLOCK(thread_ord_mutex);
     return obj;
 }
-- 
2.43.0


From 3f659723722f80fb35adc42e50e48bb26222efd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:40 +0000
Subject: [PATCH 04/44] fix: return the success status after dumping generator
 output

---
 apps/smokerand.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index 14d2ded..511397a 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -454,10 +454,13 @@ BatteryExitCode run_battery(const char *battery_name, GeneratorInfo *gi,
         ans = battery_shared_lib(filename, gi, intf, &bat_opts);
     } else if (!strcmp(battery_name, "stdout")) {
         GeneratorInfo_bits_to_file(gi, intf, opts->maxlen_log2);
+        ans = BATTERY_PASSED;
     } else if (!strcmp(battery_name, "stdoutfl")) {
         GeneratorInfo_floats_to_file(gi, intf, opts->maxlen_log2);
+        ans = BATTERY_PASSED;
     } else if (!strcmp(battery_name, "stdoutflx")) {
         GeneratorInfo_accurate_floats_to_file(gi, intf, opts->maxlen_log2);
+        ans = BATTERY_PASSED;
     } else {
         for (const BatteryEntry *entry = batteries; entry->name != NULL; entry++) {
             if (!strcmp(battery_name, entry->name)) {
-- 
2.43.0


From 269eca7ccdedbe6612c5da0a55a2799e50412387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:04 +0000
Subject: [PATCH 05/44] fix: stop and return the error status when writing to
 stdout fails

---
 apps/smokerand.c | 17 +++++++++++++++--
 src/core.c       | 20 +++++++++++++++-----
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index 511397a..01da8ff 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -553,6 +553,19 @@ static void print_ram_size(const CallerAPI *intf)
 }
 
 
+/**
+ * @brief Checks that everything printed to stdout was really written.
+ */
+static BatteryExitCode check_stdout(BatteryExitCode ans)
+{
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        fprintf(stderr, "Writing to stdout failed\n");
+        return BATTERY_ERROR;
+    }
+    return ans;
+}
+
+
 int main(int argc, char *argv[])
 {
     char *battery_name, *generator_lib;
@@ -610,7 +623,7 @@ int main(int argc, char *argv[])
         BatteryExitCode ans = run_battery(battery_name, &stdin_gi, &intf, &opts);
         StdinCollector_print_report();
         CallerAPI_free();
-        return ans;
+        return check_stdout(ans);
     } else {
         GeneratorInfo filter_gen;
         CallerAPI intf = (opts.nthreads == 1) ? CallerAPI_init() : CallerAPI_init_mthr();
@@ -632,6 +645,6 @@ int main(int argc, char *argv[])
         BatteryExitCode ans = run_battery(battery_name, gi, &intf, &opts);
         GeneratorModule_unload(&mod);
         CallerAPI_free();
-        return ans;
+        return check_stdout(ans);
     }
 }
diff --git a/src/core.c b/src/core.c
index 3d5d784..2741c09 100644
--- a/src/core.c
+++ b/src/core.c
@@ -1227,7 +1227,9 @@ void GeneratorInfo_bits_to_file(GeneratorInfo *gen,
             for (size_t j = 0; j < 256; j++) {
                 buf[j] = (uint32_t) gen->get_bits(state);
             }
-            fwrite(buf, sizeof(uint32_t), 256, stdout);
+            if (fwrite(buf, sizeof(uint32_t), 256, stdout) != 256) {
+                break; // The error will be reported by the caller
+            }
         }
     } else {
         uint64_t buf[256];
@@ -1236,7 +1238,9 @@ void GeneratorInfo_bits_to_file(GeneratorInfo *gen,
             for (size_t j = 0; j < 256; j++) {
                 buf[j] = gen->get_bits(state);
             }
-            fwrite(buf, sizeof(uint64_t), 256, stdout);
+            if (fwrite(buf, sizeof(uint64_t), 256, stdout) != 256) {
+                break; // The error will be reported by the caller
+            }
         }
     }
     gen->free(state, gen, intf);
@@ -1256,13 +1260,17 @@ void GeneratorInfo_floats_to_file(GeneratorInfo *gen,
         const double inv32 = pow(2.0, -32.0);
         for (unsigned long long i = 0; i < nfloats; i++) {
             const uint32_t u = (uint32_t) gen->get_bits(state);
-            fprintf(stdout, "%.20g\n", (double) u * inv32);
+            if (fprintf(stdout, "%.20g\n", (double) u * inv32) < 0) {
+                break; // The error will be reported by the caller
+            }
         }
     } else {
         const double inv64 = pow(2.0, -64.0);
         for (unsigned long long i = 0; i < nfloats; i++) {
             const uint64_t u = gen->get_bits(state);
-            fprintf(stdout, "%.20g\n", (double) u * inv64);
+            if (fprintf(stdout, "%.20g\n", (double) u * inv64) < 0) {
+                break; // The error will be reported by the caller
+            }
         }
     }
     gen->free(state, gen, intf);
@@ -1318,7 +1326,9 @@ void GeneratorInfo_accurate_floats_to_file(GeneratorInfo *gen,
     const unsigned long long nfloats = maxlen_log2_to_nfloats(maxlen_log2);
     for (unsigned long long i = 0; i < nfloats; i++) {
         const double f = make_accurate_float(gen, state);
-        fprintf(stdout, "%.20g\n", f);
+        if (fprintf(stdout, "%.20g\n", f) < 0) {
+            break; // The error will be reported by the caller
+        }
     }
     gen->free(state, gen, intf);
 }
-- 
2.43.0


From d55f73035c25f935a30a1337a521d3fbfba828ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:49 +0000
Subject: [PATCH 06/44] fix: do not count a test without p-value as passed

---
 include/smokerand/core.h |  3 ++-
 src/core.c               | 17 ++++++++++++++++-
 src/extratests.c         |  5 ++++-
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/smokerand/core.h b/include/smokerand/core.h
index cdcbfd3..09c2d4f 100644
--- a/include/smokerand/core.h
+++ b/include/smokerand/core.h
@@ -150,7 +150,8 @@ BatteryExitCode TestsBattery_run(const TestsBattery *bat,
 typedef enum {
     PVALUE_PASSED = 0,
     PVALUE_WARNING = 1,
-    PVALUE_FAILED = 2
+    PVALUE_FAILED = 2,
+    PVALUE_INVALID = 3 ///< Not a number: the test was not able to run
 } PValueCategory;
 
 const char *interpret_pvalue(double pvalue);
diff --git a/src/core.c b/src/core.c
index 2741c09..2bd2d95 100644
--- a/src/core.c
+++ b/src/core.c
@@ -220,7 +220,9 @@ PValueCategory get_pvalue_category(double pvalue)
 {
     const double pvalue_fail_val = 1.0e-10;
     const double pvalue_warn_val = 1.0e-3;
-    if (pvalue < pvalue_fail_val || pvalue > 1.0 - pvalue_fail_val) {
+    if (pvalue != pvalue) {
+        return PVALUE_INVALID;
+    } else if (pvalue < pvalue_fail_val || pvalue > 1.0 - pvalue_fail_val) {
         return PVALUE_FAILED;
     } else if (pvalue < pvalue_warn_val || pvalue > 1.0 - pvalue_warn_val) {
         return PVALUE_WARNING;
@@ -238,6 +240,7 @@ const char *interpret_pvalue(double pvalue)
         return "SUSPICIOUS";
     case PVALUE_PASSED:
         return "Ok";
+    case PVALUE_INVALID:
     default:
         return "???";
     }
@@ -833,6 +836,7 @@ typedef struct {
     unsigned int npassed;
     unsigned int nwarnings;
     unsigned int nfailed;
+    unsigned int ninvalid;
     double grade;
     const char *grade_text;
 } TestResultsSummary;
@@ -844,6 +848,7 @@ TestResultsSummary_fill(TestResultsSummary *obj, const TestResults *results, siz
     obj->npassed = 0;
     obj->nwarnings = 0;
     obj->nfailed = 0;
+    obj->ninvalid = 0;
     obj->grade = 4.0;
     for (size_t i = 0; i < ntests; i++) {
         PValueCategory pvalue_cat = get_pvalue_category(results[i].p);
@@ -856,6 +861,8 @@ TestResultsSummary_fill(TestResultsSummary *obj, const TestResults *results, siz
             obj->nfailed++;
             obj->grade -= results[i].penalty;
             break;
+        case PVALUE_INVALID:
+            obj->ninvalid++; break;
         }
     }
     if (obj->grade < 0.0) {
@@ -895,6 +902,9 @@ static TestResultsSummary TestResults_print_report(const TestResults *results,
     printf("Passed:        %u\n", summary.npassed);
     printf("Suspicious:    %u\n", summary.nwarnings);
     printf("Failed:        %u\n", summary.nfailed);
+    if (summary.ninvalid > 0) {
+        printf("No p-value:    %u\n", summary.ninvalid);
+    }
     if (ntests >= 5) {
         printf("Quality (0-4): %.2f (%s)\n", summary.grade, summary.grade_text);
     }
@@ -1024,6 +1034,11 @@ BatteryExitCode TestsBattery_run(const TestsBattery *bat,
     }
     free(seed_key_txt);
     free(results);
+    if (summary.nfailed == 0 && summary.ninvalid > 0) {
+        fprintf(stderr, "***** %u test(s) have not returned a valid p-value *****\n",
+            summary.ninvalid);
+        return BATTERY_ERROR;
+    }
     return (summary.nfailed == 0) ? BATTERY_PASSED : BATTERY_FAILED;
 }
 
diff --git a/src/extratests.c b/src/extratests.c
index 8c4cc19..e3aeb99 100644
--- a/src/extratests.c
+++ b/src/extratests.c
@@ -315,7 +315,10 @@ BatteryExitCode battery_birthday(const GeneratorInfo *gen, const CallerAPI *intf
         intf->printf("  x = %g (ndups); p = %g; 1-p=%g\n", ans.x, ans.p, ans.alpha);
     }
     GeneratorState_destruct(&obj);
-    if (ans.p < 1e-6 || ans.p > 1.0 - 1e-6) {
+    if (ans.p != ans.p) {
+        fprintf(stderr, "The birthday paradox test has not returned a valid p-value\n");
+        return BATTERY_ERROR;
+    } else if (ans.p < 1e-6 || ans.p > 1.0 - 1e-6) {
         return BATTERY_FAILED;
     } else {
         return BATTERY_PASSED;
-- 
2.43.0


From cf0b9f864432c34045e7dce58bd760f211d3dbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:20 +0000
Subject: [PATCH 07/44] fix: keep the report about standard input out of the
 dumped numbers

---
 apps/smokerand.c           | 2 +-
 include/smokerand/fileio.h | 2 +-
 src/fileio.c               | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index 01da8ff..b4d727a 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -621,7 +621,7 @@ int main(int argc, char *argv[])
         }
         GeneratorInfo_print(&stdin_gi, is_stdout);
         BatteryExitCode ans = run_battery(battery_name, &stdin_gi, &intf, &opts);
-        StdinCollector_print_report();
+        StdinCollector_print_report(&intf);
         CallerAPI_free();
         return check_stdout(ans);
     } else {
diff --git a/include/smokerand/fileio.h b/include/smokerand/fileio.h
index 07fc674..677a987 100644
--- a/include/smokerand/fileio.h
+++ b/include/smokerand/fileio.h
@@ -17,5 +17,5 @@ typedef enum {
 } StdinCollectorType;
 
 GeneratorInfo StdinCollector_get_info(StdinCollectorType type);
-void StdinCollector_print_report(void);
+void StdinCollector_print_report(const CallerAPI *intf);
 #endif // __SMOKERAND_FILEIO_H
diff --git a/src/fileio.c b/src/fileio.c
index 97df81d..a1d0c1f 100644
--- a/src/fileio.c
+++ b/src/fileio.c
@@ -116,9 +116,9 @@ static uint64_t get_bits64(void *state)
 ///// Interface /////
 /////////////////////
 
-void StdinCollector_print_report(void)
+void StdinCollector_print_report(const CallerAPI *intf)
 {
-    printf("  Bytes processed: %llu (2^%.2f, 10^%.2f)\n", nbytes_total,
+    intf->printf("  Bytes processed: %llu (2^%.2f, 10^%.2f)\n", nbytes_total,
         sr_log2((double) nbytes_total), log10((double) nbytes_total));
 }
 
-- 
2.43.0


From e4a57d684c998168d1180f6309af8913bf35bbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:41 +0000
Subject: [PATCH 08/44] fix: use the last incomplete block of standard input

---
 src/fileio.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/fileio.c b/src/fileio.c
index a1d0c1f..15f50e1 100644
--- a/src/fileio.c
+++ b/src/fileio.c
@@ -20,16 +20,22 @@ static unsigned long long nbytes_total = 0;
 typedef struct {
     uint8_t buffer[STDIN_COLLECTOR_BUFFER_SIZE];
     size_t pos;
+    size_t len; ///< Number of valid bytes in the buffer
 } StdinCollector;
 
 
-static void StdinCollector_fill_buffer(StdinCollector *obj)
+static void StdinCollector_fill_buffer(StdinCollector *obj, size_t word_size)
 {
-    size_t nbytes = fread(obj->buffer, 1, STDIN_COLLECTOR_BUFFER_SIZE, stdin);
+    size_t nbytes = 0;
+    if (!feof(stdin) && !ferror(stdin)) {
+        nbytes = fread(obj->buffer, 1, STDIN_COLLECTOR_BUFFER_SIZE, stdin);
+    }
     nbytes_total += nbytes;
     obj->pos = 0;
-    if (nbytes != STDIN_COLLECTOR_BUFFER_SIZE) {
-        fprintf(stderr, "Reading from stdin failed");
+    // The last block may be shorter but must contain at least one word
+    obj->len = nbytes - nbytes % word_size;
+    if (obj->len == 0) {
+        fprintf(stderr, "Reading from stdin failed\n");
         exit(EXIT_FAILURE);
     }
 }
@@ -38,7 +44,8 @@ static void *StdinCollector_create(const GeneratorInfo *gi, const CallerAPI *int
 {
     StdinCollector *obj = intf->malloc(sizeof(StdinCollector));
     (void) *gi;
-    obj->pos = STDIN_COLLECTOR_BUFFER_SIZE;
+    obj->pos = 0;
+    obj->len = 0;
     set_bin_stdin();
     return (void *) obj;
 }
@@ -56,8 +63,8 @@ static void StdinCollector_free(void *state, const GeneratorInfo *gi, const Call
 static inline uint64_t get_bits32_raw(void *state)
 {
     StdinCollector *obj = state;
-    if (obj->pos >= STDIN_COLLECTOR_BUFFER_SIZE) {
-        StdinCollector_fill_buffer(obj);
+    if (obj->pos >= obj->len) {
+        StdinCollector_fill_buffer(obj, sizeof(uint32_t));
         obj->pos = 0;
     }
     void *ptr = (void *) (obj->buffer + obj->pos);
@@ -87,8 +94,8 @@ static uint64_t get_bits32(void *state)
 static inline uint64_t get_bits64_raw(void *state)
 {
     StdinCollector *obj = state;
-    if (obj->pos >= STDIN_COLLECTOR_BUFFER_SIZE) {
-        StdinCollector_fill_buffer(obj);
+    if (obj->pos >= obj->len) {
+        StdinCollector_fill_buffer(obj, sizeof(uint64_t));
         obj->pos = 0;
     }
     void *ptr = (void *) (obj->buffer + obj->pos);
-- 
2.43.0


From b6eaf6ea460b65d2071a759a6694cf935eb6d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:10 +0000
Subject: [PATCH 09/44] fix: reject lengths of the dump outside of the
 documented range

---
 apps/smokerand.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index b4d727a..31cc534 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -177,7 +177,7 @@ static BatteryExitCode process_argument(SmokeRandSettings *obj,
 
 DEFINE_NUMARG_CALLBACK(nthreads, "nthreads", 0 < argval && argval <= NTHREADS_LIMIT)
 DEFINE_NUMARG_CALLBACK(testid, "testid", argval > 0)
-DEFINE_NUMARG_CALLBACK(maxlen_log2, "maxlen_log2", 12 <= argval || argval <= 63)
+DEFINE_NUMARG_CALLBACK(maxlen_log2, "maxlen_log2", 12 <= argval && argval <= 63)
 
 
 static BatteryExitCode SmokeRandSettings_numarg_load(SmokeRandSettings *obj,
-- 
2.43.0


From 5301d2e563d91f7f0e9d7b187e4c5a24240537a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:45 +0000
Subject: [PATCH 10/44] fix: report a generator that cannot be created in
 filters and output modes

The dump functions and the filters used the NULL state of a generator
whose creation had failed.
---
 src/core.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/core.c b/src/core.c
index 2bd2d95..7bc2be6 100644
--- a/src/core.c
+++ b/src/core.c
@@ -1070,8 +1070,15 @@ typedef struct {
 void *create_enveloped(const GeneratorInfo *gi, const CallerAPI *intf)
 {
     EnvelopedGeneratorState *obj = intf->malloc(sizeof(EnvelopedGeneratorState));
+    if (obj == NULL) {
+        return NULL;
+    }
     obj->parent_gi = gi->parent;
     obj->parent_state = gi->parent->create(gi->parent, intf);
+    if (obj->parent_state == NULL) {
+        intf->free(obj);
+        return NULL;
+    }
     obj->i32buf.pos = 2; // Invalidate buffer for interleaved output
     return obj;
 }
@@ -1233,7 +1240,8 @@ void GeneratorInfo_bits_to_file(GeneratorInfo *gen,
     const CallerAPI *intf, unsigned int maxlen_log2)
 {
     set_bin_stdout();
-    void *state = gen->create(gen, intf);
+    GeneratorState obj = GeneratorState_create(gen, intf);
+    void *state = obj.state;
     unsigned int shl = maxlen_log2_to_nblocks32_log2(maxlen_log2);
     if (gen->nbits == 32) {
         uint32_t buf[256];        
@@ -1258,7 +1266,7 @@ void GeneratorInfo_bits_to_file(GeneratorInfo *gen,
             }
         }
     }
-    gen->free(state, gen, intf);
+    GeneratorState_destruct(&obj);
 }
 
 /**
@@ -1269,7 +1277,8 @@ void GeneratorInfo_bits_to_file(GeneratorInfo *gen,
 void GeneratorInfo_floats_to_file(GeneratorInfo *gen,
     const CallerAPI *intf, unsigned int maxlen_log2)
 {
-    void *state = gen->create(gen, intf);
+    GeneratorState obj = GeneratorState_create(gen, intf);
+    void *state = obj.state;
     const unsigned long long nfloats = maxlen_log2_to_nfloats(maxlen_log2);
     if (gen->nbits == 32) {
         const double inv32 = pow(2.0, -32.0);
@@ -1288,7 +1297,7 @@ void GeneratorInfo_floats_to_file(GeneratorInfo *gen,
             }
         }
     }
-    gen->free(state, gen, intf);
+    GeneratorState_destruct(&obj);
 }
 
 /**
@@ -1337,7 +1346,8 @@ static double make_accurate_float(GeneratorInfo *gen, void *state)
 void GeneratorInfo_accurate_floats_to_file(GeneratorInfo *gen,
     const CallerAPI *intf, unsigned int maxlen_log2)
 {
-    void *state = gen->create(gen, intf);
+    GeneratorState obj = GeneratorState_create(gen, intf);
+    void *state = obj.state;
     const unsigned long long nfloats = maxlen_log2_to_nfloats(maxlen_log2);
     for (unsigned long long i = 0; i < nfloats; i++) {
         const double f = make_accurate_float(gen, state);
@@ -1345,5 +1355,5 @@ void GeneratorInfo_accurate_floats_to_file(GeneratorInfo *gen,
             break; // The error will be reported by the caller
         }
     }
-    gen->free(state, gen, intf);
+    GeneratorState_destruct(&obj);
 }
-- 
2.43.0


From ada0dfd38af34d68fdd2f7006f4ad38fceb1cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:37 +0000
Subject: [PATCH 11/44] fix: unload the right modules when sr_speed cannot load
 one of them

The failed module was closed once for each of the modules loaded before it.
---
 apps/sr_speed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/sr_speed.c b/apps/sr_speed.c
index 005a56f..223e4b7 100644
--- a/apps/sr_speed.c
+++ b/apps/sr_speed.c
@@ -100,7 +100,7 @@ int main(int argc, char *argv[])
         res[i].mod = GeneratorModule_load(argv[i + 1], &intf);
         if (!res[i].mod.valid) {
             for (size_t j = 0; j < i; j++) {
-                GeneratorModule_unload(&res[i].mod);
+                GeneratorModule_unload(&res[j].mod);
             }
             free(res);
             CallerAPI_free();
-- 
2.43.0


From 5d3bd985f1fb23bc3a6643efce6462fb7ff9d893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:03 +0000
Subject: [PATCH 12/44] fix: reject a battery file that cannot be read to its
 end

A read error was taken for the end of the file and the tests read so far
were run as if they were the whole battery.
---
 src/bat_file.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bat_file.c b/src/bat_file.c
index be0f240..2d2ccdf 100644
--- a/src/bat_file.c
+++ b/src/bat_file.c
@@ -350,6 +350,12 @@ static TestInfoArray load_tests(const char *filename)
             }
         } while ((token = strtok(NULL, " \t\r\n")) != NULL);
     }
+    if (ferror(fp)) {
+        fprintf(stderr, "File '%s' cannot be read\n", filename);
+        ParserState_destruct(&state);
+        fclose(fp);
+        return state.tests;
+    }
     // Check if the last entry is closed
     if (state.inside_entry) {
         fprintf(stderr, "Error in line %d: entry '%s' is not closed with 'end'\n",
-- 
2.43.0


From b95fa2fe8ce8e0924930d1508454ab20f1777a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:03 +0000
Subject: [PATCH 13/44] fix: reject too long tokens and lines in battery files

A name of 64 or more characters wrote behind the end of its buffer, longer
values were silently cut, and the rest of a long line (e.g. of a comment)
was taken for a new line.
---
 src/bat_file.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/bat_file.c b/src/bat_file.c
index 2d2ccdf..978f002 100644
--- a/src/bat_file.c
+++ b/src/bat_file.c
@@ -284,6 +284,11 @@ static int ParserState_process_token(ParserState *state, const char *token)
                 state->linenum);
             return 0;
         }
+        if (strlen(token) >= 64) {
+            fprintf(stderr, "Error in line %d. Entry name '%s' is too long\n",
+                state->linenum, token);
+            return 0;
+        }
         TestInfo_init(&state->testinfo, token);
         state->testinfo.linenum = state->linenum;
         state->inside_entry = 1;
@@ -312,7 +317,12 @@ static int ParserState_process_token(ParserState *state, const char *token)
                 state->linenum, token);
             return 0;
         }
-        for (i = 0; i < 64 && token[i] != '='; i++) {
+        if (eqpos - token >= 64 || strlen(eqpos + 1) >= 64) {
+            fprintf(stderr, "Error in line %d. Token '%s' is too long\n",
+                state->linenum, token);
+            return 0;
+        }
+        for (i = 0; token[i] != '='; i++) {
             name[i] = token[i];
         }
         name[i] = '\0';
@@ -333,9 +343,20 @@ static TestInfoArray load_tests(const char *filename)
         return state.tests;
     }
     while (fgets(state.linetxt, 512, fp)) {
+        state.linenum++;
+        // Reject lines that don't fit into the buffer
+        if (strlen(state.linetxt) == 511 && state.linetxt[510] != '\n') {
+            int c = fgetc(fp);
+            if (c != EOF) {
+                fprintf(stderr, "Error in line %d. The line is too long\n",
+                    state.linenum);
+                ParserState_destruct(&state);
+                fclose(fp);
+                return state.tests;
+            }
+        }
         // Erase comments, ignore empty strings
         erase_comments(state.linetxt, 512);
-        state.linenum++;
         char *token = strtok(state.linetxt, " \t\r\n");
         if (token == NULL) {
             continue;
-- 
2.43.0


From 225c7c8873a6bb55844bfc07a99ea509f1a2e467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:03 +0000
Subject: [PATCH 14/44] fix: report missing fields and tests in battery files

An entry without 'test' field and 'linearcomp' without 'bitpos' crashed
the program; a file without tests ended with the error status without any
message.
---
 src/bat_file.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/bat_file.c b/src/bat_file.c
index 978f002..8dcc25d 100644
--- a/src/bat_file.c
+++ b/src/bat_file.c
@@ -611,7 +611,10 @@ static int parse_linearcomp(TestDescription *out, const TestInfo *obj, char *err
     GET_LIMITED_INTVALUE(nbits, 8, 1ll << 30ll);
     const char *bitpos_descr = TestInfo_get_value(obj, "bitpos");
     long long bitpos;
-    if (!strcmp(bitpos_descr, "low")) {
+    if (bitpos_descr == NULL) {
+        snprintf(errmsg, ERRMSG_BUF_SIZE, "Argument 'bitpos' not found");
+        return 0;
+    } else if (!strcmp(bitpos_descr, "low")) {
         bitpos = LINEARCOMP_BITPOS_LOW;
     } else if (!strcmp(bitpos_descr, "mid")) {
         bitpos = LINEARCOMP_BITPOS_MID;
@@ -771,6 +774,7 @@ BatteryExitCode battery_file(const char *filename, const GeneratorInfo *gen,
     errmsg[0] = '\0';
     TestInfoArray tests_args = load_tests(filename);
     if (tests_args.ntests == 0) {
+        fprintf(stderr, "No tests were loaded from '%s'\n", filename);
         TestInfoArray_destruct(&tests_args);
         return BATTERY_ERROR;
     }
@@ -788,13 +792,20 @@ BatteryExitCode battery_file(const char *filename, const GeneratorInfo *gen,
         const char *name = TestInfo_get_value(&tests_args.tests[i], "test");
         const TestInfo *curtest = &tests_args.tests[i];
         int parsed = 0;
-        for (const TestFunc *parser = parsers; parser->name != NULL; parser++) {
+        for (const TestFunc *parser = parsers; name != NULL && parser->name != NULL; parser++) {
             if (!strcmp(name, parser->name)) {
                 is_ok = parser->func(&tests[i], curtest, errmsg);
                 parsed = 1;
             }
         }
         // Error messages
+        if (name == NULL) {
+            fprintf(stderr, "Error in line %d. '%s' entry must have 'test' field\n",
+                curtest->linenum, curtest->testname);
+            ans = BATTERY_ERROR;
+            goto battery_file_freemem;
+        }
+
         if (!parsed) {
             fprintf(stderr, "Error in line %d. Unknown test '%s'\n", curtest->linenum, name);
             is_ok = 0;
-- 
2.43.0


From dc7538494910e63d089ed5014bff7f5e3eb00484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:03 +0000
Subject: [PATCH 15/44] fix: reject malformed integers in battery files

Only the leading digits were used: nsamples=1e5 was run as nsamples=1, and
the result of an integer overflow was undefined.
---
 src/bat_file.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bat_file.c b/src/bat_file.c
index 8dcc25d..bce6605 100644
--- a/src/bat_file.c
+++ b/src/bat_file.c
@@ -17,6 +17,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <limits.h>
+#include <errno.h>
 
 #define ERRMSG_BUF_SIZE 128
 
@@ -105,7 +106,6 @@ const char *TestInfo_get_value(const TestInfo *obj, const char *name)
 
 static long long txtvalue_to_int(const char *txtvalue)
 {
-    long long value;
     if (txtvalue == NULL) {
         return LLONG_MAX;
     }
@@ -117,9 +117,12 @@ static long long txtvalue_to_int(const char *txtvalue)
         stripped[i] = stripped[j];
         if (stripped[j++] == '\0') break;
     }
-    int ans = sscanf(stripped, "%lld", &value);
+    char *endptr;
+    errno = 0;
+    const long long value = strtoll(stripped, &endptr, 10);
+    const int is_ok = (endptr != stripped && *endptr == '\0' && errno == 0);
     free(stripped);
-    return (ans == 1) ? value : LLONG_MAX;
+    return (is_ok) ? value : LLONG_MAX;
 }
 
 
-- 
2.43.0


From 7570907f01da0efff5811528aa1c8bff3e3b2548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:03 +0000
Subject: [PATCH 16/44] fix: reject shifts by 64 bits in battery files

bitpos=64 and gap with shl=64 shift 64-bit words by their whole width; the
outcome depends on the processor. The missing check of memory allocation
for the unit sphere test is added as well.
---
 src/bat_file.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bat_file.c b/src/bat_file.c
index bce6605..eee2db7 100644
--- a/src/bat_file.c
+++ b/src/bat_file.c
@@ -506,7 +506,7 @@ static int parse_bspace4_8d_decimated(TestDescription *out, const TestInfo *obj,
 
 static int parse_gap(TestDescription *out, const TestInfo *obj, char *errmsg)
 {
-    GET_LIMITED_INTVALUE(shl, 1, 64)
+    GET_LIMITED_INTVALUE(shl, 1, 63)
     GET_LIMITED_INTVALUE(ngaps, 10000, 1ll << 40ll)
     GapOptions *opts = calloc(1, sizeof(GapOptions));
     if (opts == NULL) {
@@ -624,7 +624,7 @@ static int parse_linearcomp(TestDescription *out, const TestInfo *obj, char *err
     } else if (!strcmp(bitpos_descr, "high")) {
         bitpos = LINEARCOMP_BITPOS_HIGH;
     } else {
-        bitpos = TestInfo_get_limited_intvalue(obj, "bitpos", 0, 64, errmsg);
+        bitpos = TestInfo_get_limited_intvalue(obj, "bitpos", 0, 63, errmsg);
         if (bitpos == LLONG_MAX) {
             return 0;
         }
@@ -727,6 +727,10 @@ static int parse_usphere(TestDescription *out, const TestInfo *obj, char *errmsg
     GET_LIMITED_INTVALUE(ndims, 2, 20);
     GET_LIMITED_INTVALUE(npoints, 1000, 1ull << 40ull);
     UnitSphereOptions *opts = calloc(1, sizeof(UnitSphereOptions));
+    if (opts == NULL) {
+        fprintf(stderr, "***** parse_usphere: not enough memory *****");
+        exit(EXIT_FAILURE);
+    }
     opts->ndims = (unsigned int) ndims;
     opts->npoints = (unsigned long long) npoints;
     out->name = obj->testname;
-- 
2.43.0


From 9f6c44be69844532a0f7f9fd518b45a4b95f3e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:06 +0000
Subject: [PATCH 17/44] fix: return the error status when the listed battery
 file is rejected

'smokerand f=file list' returned the success status for files that don't
exist or contain errors.
---
 apps/smokerand.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index 31cc534..858fefa 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -491,7 +491,7 @@ int print_battery_info(const char *battery_name)
         battery_full(NULL, NULL, &opts);
     } else if (strlen(battery_name) > 2 &&
         battery_name[0] == 'f' && battery_name[1] == '=') {
-        battery_file(battery_name + 2, NULL, NULL, &opts);
+        return (int) battery_file(battery_name + 2, NULL, NULL, &opts);
     } else {
         fprintf(stderr, "Information about battery %s is absent\n",
             battery_name);
-- 
2.43.0


From c907f44815f07d1a8cc40ed1b1570b9fe56238ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:06 +0000
Subject: [PATCH 18/44] fix: return the error status when the list of tests
 cannot be written

---
 apps/smokerand.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index 858fefa..c621de7 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -608,7 +608,8 @@ int main(int argc, char *argv[])
     }
 
     if (!strcmp(generator_lib, "list")) {
-        return print_battery_info(battery_name);
+        const int ans = print_battery_info(battery_name);
+        return (ans == 0) ? (int) check_stdout(BATTERY_PASSED) : ans;
     }
 
     if (is_stdin32 || is_stdin64) {
-- 
2.43.0


From 9536603fab9ac49729b5911be5a8bcf69238473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:44 +0000
Subject: [PATCH 19/44] fix: stop with an error when a generator cannot get
 memory

Generators don't check the pointer returned by the 'malloc' function from
the API and crashed.
---
 src/core.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/core.c b/src/core.c
index 7bc2be6..ceafe29 100644
--- a/src/core.c
+++ b/src/core.c
@@ -47,6 +47,21 @@ void set_use_stderr_for_printf(int val)
     use_stderr_for_printf = val;
 }
 
+/**
+ * @brief A version of `malloc` for generators: most of them don't check
+ * the returned pointer.
+ */
+static void *malloc_or_exit(size_t len)
+{
+    void *ptr = malloc(len);
+    if (ptr == NULL && len > 0) {
+        fprintf(stderr, "***** Not enough memory for the generator (%llu bytes) *****\n",
+            (unsigned long long) len);
+        exit(EXIT_FAILURE);
+    }
+    return ptr;
+}
+
 void set_entropy_textseed(const char *seed)
 {
     Entropy_init_from_textseed(&entropy, seed);
@@ -93,7 +108,7 @@ CallerAPI CallerAPI_init(void)
     intf.get_seed32 = get_seed32;
     intf.get_seed64 = get_seed64;
     intf.get_param = get_cmd_param;
-    intf.malloc = malloc;
+    intf.malloc = malloc_or_exit;
     intf.free = free;
     intf.printf = printf_ser;
     intf.snprintf = snprintf;
@@ -169,7 +184,7 @@ CallerAPI CallerAPI_init_mthr(void)
     intf.get_seed32 = get_seed32_mt;
     intf.get_seed64 = get_seed64_mt;
     intf.get_param = get_cmd_param;
-    intf.malloc = malloc;
+    intf.malloc = malloc_or_exit;
     intf.free = free;
     intf.printf = printf_mt;
     intf.snprintf = snprintf;
-- 
2.43.0


From 364f4685b231489c5709da892a28a8db165ca029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:13 +0000
Subject: [PATCH 20/44] fix: stop with an error when there is no memory for
 seeds

The seeds generator, its log and the text form of its key were used without
checks of memory allocation.
---
 src/base64.c  |  8 ++++++++
 src/entropy.c | 12 ++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/base64.c b/src/base64.c
index f7cff8f..8cad73d 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -42,6 +42,10 @@ char *sr_u32_bigendian_to_base64(const uint32_t *in, size_t len)
     const size_t base64_len = calc_base64_len(len * 4);
     size_t pos = 0;
     char *base64_txt = calloc(base64_len + 1, sizeof(char));
+    if (base64_txt == NULL) {
+        fprintf(stderr, "***** sr_u32_bigendian_to_base64: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     // Encode to base64
     for (size_t i = 0; i < len; i++) {
         queue |= ((uint64_t) in[i]) << (32 - queue_nbits);
@@ -123,6 +127,10 @@ uint32_t *sr_base64_to_u32_bigendian(const char *in, size_t *u32_len)
         return NULL;
     }
     uint32_t *u32_out = calloc(*u32_len, sizeof(uint32_t));    
+    if (u32_out == NULL) {
+        fprintf(stderr, "***** sr_base64_to_u32_bigendian: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     uint64_t queue = 0;
     int queue_nbits = 0;
     for (size_t i = 0; i < len; i++) {
diff --git a/src/entropy.c b/src/entropy.c
index f8b52f7..2a63fe5 100644
--- a/src/entropy.c
+++ b/src/entropy.c
@@ -425,6 +425,10 @@ void Entropy_init_from_key(Entropy *obj, const uint32_t *key, uint64_t nonce)
     obj->slog_len = 1 << 8;
     obj->slog_maxlen = 1 << 20;
     obj->slog = calloc(obj->slog_len, sizeof(SeedLogEntry));
+    if (obj->slog == NULL) {
+        fprintf(stderr, "***** Entropy_init_from_key: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     obj->slog_pos = 0;
     fprintf(stderr, "Entropy pool (seed generator) initialized\n");
     fprintf(stderr, "ChaCha20 initial state\n");
@@ -501,6 +505,10 @@ int Entropy_init_from_base64_seed(Entropy *obj, const char *seed)
 void Entropy_init(Entropy *obj)
 {
     EntropyBuffer *ent_buf = calloc(1, sizeof(EntropyBuffer));
+    if (ent_buf == NULL) {
+        fprintf(stderr, "***** Entropy_init: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     uint32_t key[8] = {0, 0, 0, 0,  0, 0, 0, 0};
     // 256 bits of entropy from system CSPRNG
     int csprng_present = fill_from_random_device(&ent_buf->u8[0], 8 * sizeof(uint32_t));
@@ -593,6 +601,10 @@ uint64_t Entropy_seed64(Entropy *obj, uint64_t thread_id)
             if (newlen > obj->slog_maxlen) newlen = obj->slog_maxlen;
             obj->slog_len = newlen;
             obj->slog = realloc(obj->slog, newlen * sizeof(SeedLogEntry));
+            if (obj->slog == NULL) {
+                fprintf(stderr, "***** Entropy_seed64: not enough memory *****\n");
+                exit(EXIT_FAILURE);
+            }
         }
         // Save seed to the log
         SeedLogEntry log_entry;
-- 
2.43.0


From 72c0315870cef36ff24d59da4eb4d60cd251bee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:13 +0000
Subject: [PATCH 21/44] fix: stop with an error when there is no memory for
 threads

The lists of threads and of tests assigned to them were used without checks
of memory allocation.
---
 src/core.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/core.c b/src/core.c
index ceafe29..00f4f8b 100644
--- a/src/core.c
+++ b/src/core.c
@@ -590,6 +590,10 @@ void ThreadQueue_init(ThreadQueue *obj, const GeneratorInfo *gi,
     obj->front = 0;
     obj->thread_ord = thread_ord;
     obj->tests_inds = calloc(1, sizeof(TestIndex));
+    if (obj->tests_inds == NULL) {
+        fprintf(stderr, "***** ThreadQueue_init: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     obj->gen = GeneratorState_create(gi, intf);
 }
 
@@ -598,6 +602,10 @@ void ThreadQueue_push_back(ThreadQueue *obj, TestIndex index)
 {
     obj->ntests++;
     obj->tests_inds = realloc(obj->tests_inds, obj->ntests * sizeof(TestIndex));
+    if (obj->tests_inds == NULL) {
+        fprintf(stderr, "***** ThreadQueue_push_back: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     obj->tests_inds[obj->ntests - 1] = index;
 }
 
@@ -651,6 +659,10 @@ void TestsDispatcher_init(TestsDispatcher *obj, const TestsBattery *bat,
     obj->intf = intf;
     obj->nthreads = nthreads;
     obj->queues = calloc(nthreads, sizeof(ThreadQueue));
+    if (obj->res_thrd_ord == NULL || obj->queues == NULL) {
+        fprintf(stderr, "***** TestsDispatcher_init: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
 
     // They should be initialized BEFORE shuffling: shuffling
     // uses get_seed64 from entropy generator.
@@ -662,6 +674,10 @@ void TestsDispatcher_init(TestsDispatcher *obj, const TestsBattery *bat,
     seed64_mt_current_thread_ord = 0;
     // Prepare an unshuffled array of indexes
     TestIndex *inds = calloc(ntests, sizeof(TestIndex));
+    if (inds == NULL) {
+        fprintf(stderr, "***** TestsDispatcher_init: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     for (size_t i = 0; i < ntests; i++) {
         inds[i].ind = i;
         inds[i].ord = i + THREAD_ORD_OFFSET;
@@ -790,6 +806,10 @@ static void TestsBattery_run_threads(const TestsBattery *bat,
     // Run threads
     init_thread_dispatcher();
     ThreadObj *thrd = calloc(opts->nthreads, sizeof(ThreadObj));
+    if (thrd == NULL) {
+        fprintf(stderr, "***** TestsBattery_run_threads: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     for (unsigned int i = 0; i < opts->nthreads; i++) {
         const unsigned int ord = tdisp.queues[i].thread_ord;
         thrd[i] = ThreadObj_create(battery_thread, &tdisp, ord);
-- 
2.43.0


From 68346c66a509059fefaaf4d40494043902915c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:13 +0000
Subject: [PATCH 22/44] fix: check memory allocation in all tests

Several tests used the allocated memory without checks; the mod3 test ended
the program with the success status when there was not enough memory.
---
 src/coretests.c  |  6 +++++-
 src/extratests.c |  4 ++++
 src/hwtests.c    | 12 ++++++++++++
 src/lineardep.c  |  8 ++++++++
 4 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/coretests.c b/src/coretests.c
index be73692..f2a2773 100644
--- a/src/coretests.c
+++ b/src/coretests.c
@@ -1093,7 +1093,7 @@ TestResults mod3_test(GeneratorState *obj, const Mod3Options *opts)
     unsigned long long *Oi = calloc(ntuples, sizeof(unsigned long long));
     if (Oi == NULL) {
         fprintf(stderr, "***** mod3_test: not enough memory *****\n");
-        exit(EXIT_SUCCESS);
+        exit(EXIT_FAILURE);
     }
     uint32_t tuple = 0;
     obj->intf->printf("mod3 test\n");
@@ -1191,6 +1191,10 @@ TestResults nbit_words_freq_test(GeneratorState *obj,
     const uint64_t mask = nbins - 1;
     double *chi2 = calloc(opts->nblocks, sizeof(double));
     size_t *wfreq = calloc(nbins, sizeof(size_t));
+    if (chi2 == NULL || wfreq == NULL) {
+        fprintf(stderr, "***** nbit_words_freq_test: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
 
     TestResults ans;
     if (opts->bits_per_word == 8) {
diff --git a/src/extratests.c b/src/extratests.c
index e3aeb99..cc061d5 100644
--- a/src/extratests.c
+++ b/src/extratests.c
@@ -340,6 +340,10 @@ void BlockFrequency_init(BlockFrequency *obj)
 {
     obj->bytefreq = calloc(256, sizeof(unsigned long long));
     obj->w16freq = calloc(65536, sizeof(unsigned long long));
+    if (obj->bytefreq == NULL || obj->w16freq == NULL) {
+        fprintf(stderr, "***** BlockFrequency_init: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     obj->nbytes = 0;
     obj->nw16 = 0;
 }
diff --git a/src/hwtests.c b/src/hwtests.c
index da224b4..5fa0d0d 100644
--- a/src/hwtests.c
+++ b/src/hwtests.c
@@ -640,6 +640,10 @@ double hamming_distr_calc_zemp(const unsigned long long *o, size_t nbits)
         npoints += o[i];
     }
     double *p = calloc(nbits + 1, sizeof(double));
+    if (p == NULL) {
+        fprintf(stderr, "***** hamming_distr_calc_zemp: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     sr_binomial_pdf_all(p, (unsigned long) nbits, 0.5);
     for (size_t i = 0; i < nbits; i++) {
         double e_i = (double) npoints * p[i];
@@ -677,6 +681,10 @@ static void HammingDistrHist_init(HammingDistrHist *obj, size_t nbits)
 {
     obj->o     = calloc(nbits + 1, sizeof(unsigned long long));
     obj->o_xor = calloc(nbits + 1, sizeof(unsigned long long));
+    if (obj->o == NULL || obj->o_xor == NULL) {
+        fprintf(stderr, "***** HammingDistrHist_init: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     obj->nbits = nbits;
     obj->z = NAN;     obj->p = NAN;
     obj->z_xor = NAN; obj->p_xor = NAN;
@@ -764,6 +772,10 @@ TestResults hamming_distr_test(GeneratorState *obj, const HammingDistrOptions *o
     HammingDistrHist *h = calloc((size_t) opts->nlevels, sizeof(HammingDistrHist));
     uint64_t *x = calloc(block_len, sizeof(uint64_t));
     int *hw = calloc(block_len, sizeof(int));
+    if (h == NULL || x == NULL || hw == NULL) {
+        fprintf(stderr, "***** hamming_distr_test: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     for (int i = 0; i < opts->nlevels; i++) {
         HammingDistrHist_init(&h[i], nbits << i);
     }
diff --git a/src/lineardep.c b/src/lineardep.c
index c92c602..cd65b2e 100644
--- a/src/lineardep.c
+++ b/src/lineardep.c
@@ -56,6 +56,10 @@ static inline void swap_rows(uint32_t **row_ptr, size_t i, size_t j)
 static size_t calc_bin_matrix_rank(uint32_t *a, size_t n)
 {
     uint32_t **row_ptr = calloc(n, sizeof(uint32_t *));
+    if (row_ptr == NULL) {
+        fprintf(stderr, "***** calc_bin_matrix_rank: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     // Initialize some intermediate buffers
     for (size_t i = 0; i < n; i++) {
         row_ptr[i] = a + i * n / 32;
@@ -112,6 +116,10 @@ TestResults matrixrank_test(GeneratorState *obj, const MatrixRankOptions *opts)
     const size_t mat_len = n * n / 32;
     size_t min_rank = n + 1;
     uint32_t *a = calloc(mat_len, sizeof(uint32_t));
+    if (a == NULL) {
+        fprintf(stderr, "***** matrixrank_test: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     obj->intf->printf("Matrix rank test\n");
     obj->intf->printf("  n = %d. Number of matrices: %d; max_nbits: %u\n",
         (int) n, nmat, opts->max_nbits);
-- 
2.43.0


From 2d96efde68d5c705d65728258f2e15ac6b41fb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:13 +0000
Subject: [PATCH 23/44] fix: check memory allocation in the parser of battery
 files

---
 src/bat_file.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/bat_file.c b/src/bat_file.c
index eee2db7..8b573bf 100644
--- a/src/bat_file.c
+++ b/src/bat_file.c
@@ -67,6 +67,10 @@ static void erase_comments(char *linetxt, size_t len)
 void TestInfo_init(TestInfo *obj, const char *testname)
 {
     obj->args = malloc(sizeof(TestArgument));
+    if (obj->args == NULL) {
+        fprintf(stderr, "***** TestInfo_init: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     obj->nargs = 0;
     xstrcpy_s(obj->testname, 64, testname);
 }
@@ -111,6 +115,10 @@ static long long txtvalue_to_int(const char *txtvalue)
     }
     size_t buflen = strlen(txtvalue) + 1;
     char *stripped = malloc(buflen);
+    if (stripped == NULL) {
+        fprintf(stderr, "***** txtvalue_to_int: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     xstrcpy_s(stripped, buflen, txtvalue);
     for (size_t i = 0, j = 0; i < buflen - 1; i++) {
         while (stripped[j] == '_') j++;
@@ -196,6 +204,10 @@ void TestInfo_print(const TestInfo *obj)
 void TestInfoArray_init(TestInfoArray *obj)
 {
     obj->tests = malloc(sizeof(TestInfo));
+    if (obj->tests == NULL) {
+        fprintf(stderr, "***** TestInfoArray_init: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     obj->ntests = 0;
     xstrcpy_s(obj->battery_name, 64, "CUSTOM");
 }
-- 
2.43.0


From 6fc2d004fe1aaba693828ae31f3348a978e36ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:13 +0000
Subject: [PATCH 24/44] fix: check memory allocation in sr_speed

---
 apps/sr_speed.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/sr_speed.c b/apps/sr_speed.c
index 223e4b7..3825b6d 100644
--- a/apps/sr_speed.c
+++ b/apps/sr_speed.c
@@ -96,6 +96,10 @@ int main(int argc, char *argv[])
     // Load modules
     size_t nmodules_total = (size_t) (argc - 1);
     GeneratorModuleResults *res = calloc(nmodules_total, sizeof(GeneratorModuleResults));
+    if (res == NULL) {
+        fprintf(stderr, "***** sr_speed: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     for (size_t i = 0; i < nmodules_total; i++) {
         res[i].mod = GeneratorModule_load(argv[i + 1], &intf);
         if (!res[i].mod.valid) {
-- 
2.43.0


From 1dab950e78731403e55816efb3b746c5adec8a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:23 +0000
Subject: [PATCH 25/44] fix: keep the birthday paradox test independent of the
 clock

The speed estimate threw away an amount of generator output that depended on
the clock; the number of progress steps was computed by a division by zero when
the estimated time was short.
---
 src/extratests.c | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/extratests.c b/src/extratests.c
index cc061d5..9bd340e 100644
--- a/src/extratests.c
+++ b/src/extratests.c
@@ -95,27 +95,37 @@ static inline uint64_t birthday_gen_trvalue(GeneratorState *obj, uint64_t mask,
 /**
  * @brief Estimate the generator speed in the 64-bit birthday paradox test.
  * It is needed for correct interactive progress information output.
+ * @details The generated values are the first elements of the sample: the amount
+ * of values consumed here depends on the clock and results of the test must not.
+ * @param[out] x       Buffer for the sample.
+ * @param[out] nready  Number of values saved to the buffer.
+ * @param[out] is_ok   0 if the generator cannot return a truncated value.
+ * @return Estimated speed or 0 if it is not known.
  */
 static double
-birthday_get_bytes_per_sec(GeneratorState *obj, const BirthdayOptions *opts, uint64_t mask)
+birthday_get_bytes_per_sec(GeneratorState *obj, const BirthdayOptions *opts, uint64_t mask,
+    uint64_t *x, unsigned long long *nready, int *is_ok)
 {
     const clock_t cl_tic_init = clock();
     clock_t cl_tic, cl_toc;
-    long ncalls = 0;
+    unsigned long long ncalls = 0;
+    *nready = 0;
     do {
         cl_tic = clock();
     } while (cl_tic == cl_tic_init);
     clock_t cl_toc_init = cl_tic;
     do {
-        int is_ok;
-        (void) birthday_gen_trvalue(obj, mask, &is_ok);
-        (void) birthday_gen_trvalue(obj, mask, &is_ok);
-        if (!is_ok) {
-            return 1.0;
+        x[ncalls] = birthday_gen_trvalue(obj, mask, is_ok);
+        if (!*is_ok) {
+            break;
         }
-        ncalls += 2;
+        ncalls++;
         cl_toc = clock();
-    } while (cl_toc == cl_toc_init);
+    } while (cl_toc == cl_toc_init && ncalls < opts->n);
+    *nready = ncalls;
+    if (!*is_ok || cl_toc <= cl_tic) {
+        return 0.0;
+    }
     const double nbytes = (double) ncalls * pow(2.0, opts->e) * 8.0;
     return nbytes * (double) CLOCKS_PER_SEC / (double) (cl_toc - cl_tic);
 }
@@ -173,17 +183,23 @@ TestResults birthday_test(GeneratorState *obj, const BirthdayOptions *opts)
         return ans;
     }
 
-    const double bytes_per_sec = birthday_get_bytes_per_sec(obj, opts, mask);
-    const double time_elapsed = 8.0 * (double) nvalues_raw / bytes_per_sec;
-    unsigned long long chunk_size = opts->n / (unsigned long long) (time_elapsed * 5.0);
-    if (chunk_size < 1) {
+    int is_ok = 1;
+    unsigned long long nready = 0;
+    const double bytes_per_sec = birthday_get_bytes_per_sec(obj, opts, mask, x, &nready, &is_ok);
+    const double nchunks = (bytes_per_sec > 0.0) ?
+        (5.0 * 8.0 * (double) nvalues_raw / bytes_per_sec) : 100.0;
+    unsigned long long chunk_size = opts->n;
+    if (nchunks >= (double) opts->n) {
         chunk_size = 1;
+    } else if (nchunks >= 1.0) {
+        chunk_size = opts->n / (unsigned long long) nchunks;
     }
 
     const unsigned long long bytes_per_trvalue = 1ull << (opts->e + 3);
     for (unsigned long long i = 0; i < opts->n; i++) {
-        int is_ok;
-        x[i] = birthday_gen_trvalue(obj, mask, &is_ok);
+        if (is_ok && i >= nready) {
+            x[i] = birthday_gen_trvalue(obj, mask, &is_ok);
+        }
         if (!is_ok) {
             obj->intf->printf("  The generator is too flawed to return a truncated value\n");
             ans.x = 0;
-- 
2.43.0


From 1f2e2aa5b1f2d5a672adb505955f47dbdb913e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:22 +0000
Subject: [PATCH 26/44] fix: check headers and sections in the PE32 loader

---
 src/pe32loader.c | 84 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 58 insertions(+), 26 deletions(-)

diff --git a/src/pe32loader.c b/src/pe32loader.c
index f13ed87..4dd3c4f 100644
--- a/src/pe32loader.c
+++ b/src/pe32loader.c
@@ -7,6 +7,9 @@
 #define ERRMSG_MAXLEN 256
 static char errmsg[ERRMSG_MAXLEN] = "";
 
+#define PE32_SECTION_HEADER_SIZE 0x28
+#define METAINFO_MAXLEN 128
+
 
 #if defined(_WIN32) || defined(_WIN64) || defined(WIN32) || defined(WIN64) || defined(__MINGW32__) || defined(__MINGW64__)
 #include <windows.h>
@@ -39,8 +42,8 @@ void execbuffer_free(void *buf)
 static inline uint32_t read_u32(FILE *fp, uint32_t offset)
 {
     uint32_t tmp;
-    fseek(fp, (long) offset, SEEK_SET);
-    if (fread(&tmp, sizeof(tmp), 1, fp) != 1) {
+    if (fseek(fp, (long) offset, SEEK_SET) ||
+        fread(&tmp, sizeof(tmp), 1, fp) != 1) {
         return 0;
     }
     return tmp;
@@ -49,8 +52,8 @@ static inline uint32_t read_u32(FILE *fp, uint32_t offset)
 static inline uint16_t read_u16(FILE *fp, uint32_t offset)
 {
     uint16_t tmp;
-    fseek(fp, (long) offset, SEEK_SET);
-    if (fread(&tmp, sizeof(tmp), 1, fp) != 1) {
+    if (fseek(fp, (long) offset, SEEK_SET) ||
+        fread(&tmp, sizeof(tmp), 1, fp) != 1) {
         return 0;
     }
     return tmp;
@@ -114,12 +117,24 @@ uint32_t get_pe386_offset(FILE *fp)
  */
 int PE32BasicInfo_init(PE32BasicInfo *peinfo, FILE *fp, uint32_t pe_offset)
 {
-    peinfo->nsections = read_u16(fp, pe_offset + 0x06);
-    peinfo->entrypoint_rva = read_u32(fp, pe_offset + 0x28);
-    peinfo->imagebase = read_u32(fp, pe_offset + 0x34);
-    peinfo->export_dir = read_u32(fp, pe_offset + 0x78);
-    peinfo->import_dir = read_u32(fp, pe_offset + 0x80);
-    peinfo->reloc_dir  = read_u32(fp, pe_offset + 0xA0);
+    uint8_t header[0xA4];
+    peinfo->nsections = 0;
+    peinfo->sections = NULL;
+    if (fseek(fp, (long) pe_offset, SEEK_SET) ||
+        fread(header, sizeof(header), 1, fp) != 1) {
+        snprintf(errmsg, ERRMSG_MAXLEN, "Cannot read PE header");
+        return 0;
+    }
+    peinfo->entrypoint_rva = get_u32_le_from_u8(header + 0x28);
+    peinfo->imagebase = get_u32_le_from_u8(header + 0x34);
+    peinfo->export_dir = get_u32_le_from_u8(header + 0x78);
+    peinfo->import_dir = get_u32_le_from_u8(header + 0x80);
+    peinfo->reloc_dir  = get_u32_le_from_u8(header + 0xA0);
+    peinfo->nsections = get_u16_le_from_u8(header + 0x06);
+    if (peinfo->nsections == 0) {
+        snprintf(errmsg, ERRMSG_MAXLEN, "No sections are found");
+        return 0;
+    }
     peinfo->sections = calloc(peinfo->nsections, sizeof(PE32SectionInfo));
     if (peinfo->sections == NULL) {
         snprintf(errmsg, ERRMSG_MAXLEN, "PE32BasicInfo_init: not enough memory");
@@ -129,15 +144,18 @@ int PE32BasicInfo_init(PE32BasicInfo *peinfo, FILE *fp, uint32_t pe_offset)
     uint32_t offset = pe_offset + 0xF8;
     for (unsigned int i = 0; i < peinfo->nsections; i++) {
         PE32SectionInfo *sect = &peinfo->sections[i];
-        fseek(fp, (long) offset, SEEK_SET);
-        if (fread(sect->name, 8, 1, fp) != 1) {
+        uint8_t sect_header[PE32_SECTION_HEADER_SIZE];
+        if (fseek(fp, (long) offset, SEEK_SET) ||
+            fread(sect_header, sizeof(sect_header), 1, fp) != 1) {
+            snprintf(errmsg, ERRMSG_MAXLEN, "Cannot read the header of section %u", i + 1);
             return 0;
         }
-        sect->virtual_size = read_u32(fp, offset + 0x08);
-        sect->virtual_addr = read_u32(fp, offset + 0x0C);
-        sect->physical_size = read_u32(fp, offset + 0x10);
-        sect->physical_addr = read_u32(fp, offset + 0x14);
-        offset += 0x28; // To the next section
+        memcpy(sect->name, sect_header, 8);
+        sect->virtual_size = get_u32_le_from_u8(sect_header + 0x08);
+        sect->virtual_addr = get_u32_le_from_u8(sect_header + 0x0C);
+        sect->physical_size = get_u32_le_from_u8(sect_header + 0x10);
+        sect->physical_addr = get_u32_le_from_u8(sect_header + 0x14);
+        offset += PE32_SECTION_HEADER_SIZE; // To the next section
     }
     return 1;
 }
@@ -169,15 +187,21 @@ void PE32BasicInfo_destruct(PE32BasicInfo *peinfo)
 
 /**
  * @brief Return the size of memory buffer required for the file loading.
+ * It is enough for all sections, 0 means that their addresses are damaged.
  */
 uint32_t PE32BasicInfo_get_membuf_size(PE32BasicInfo *info)
 {
-    PE32SectionInfo *lastsect = &info->sections[info->nsections - 1];
-    uint32_t bufsize = lastsect->virtual_addr;
-    if (lastsect->physical_size > lastsect->virtual_size) {
-        bufsize += lastsect->physical_size;
-    } else {
-        bufsize += lastsect->virtual_size;
+    uint32_t bufsize = 0;
+    for (unsigned int i = 0; i < info->nsections; i++) {
+        const PE32SectionInfo *sect = &info->sections[i];
+        const uint32_t len = (sect->physical_size > sect->virtual_size) ?
+            sect->physical_size : sect->virtual_size;
+        if (len > UINT32_MAX - sect->virtual_addr) {
+            return 0;
+        }
+        if (sect->virtual_addr + len > bufsize) {
+            bufsize = sect->virtual_addr + len;
+        }
     }
     return bufsize;
 }
@@ -349,10 +373,14 @@ PE32MemoryImage *PE32BasicInfo_load(PE32BasicInfo *info, FILE *fp)
         return NULL;
     }
     img->imgsize = PE32BasicInfo_get_membuf_size(info);
+    if (img->imgsize < METAINFO_MAXLEN) {
+        snprintf(errmsg, ERRMSG_MAXLEN, "Sections table is corrupted");
+        free(img);
+        return NULL;
+    }
     img->img = execbuffer_alloc(img->imgsize);
     if (img->img == NULL) {
         snprintf(errmsg, ERRMSG_MAXLEN, "PE32BasicInfo_load: not enough memory");
-        return NULL;
         free(img);
         return NULL;
     }
@@ -362,7 +390,7 @@ PE32MemoryImage *PE32BasicInfo_load(PE32BasicInfo *info, FILE *fp)
         if (fseek(fp, (long) sect->physical_addr, SEEK_SET) ||
             fread(buf + sect->virtual_addr, sect->physical_size, 1, fp) != 1) {
             snprintf(errmsg, ERRMSG_MAXLEN, "Cannot read section %d\n", i + 1);
-            free(img->img); free(img);
+            execbuffer_free(img->img); free(img);
             return NULL;
         }
     }
@@ -428,7 +456,11 @@ void *dlopen_pe32dos(const char *libname, int flag)
         return NULL;
     }
     PE32BasicInfo peinfo;
-    PE32BasicInfo_init(&peinfo, fp, pe_offset);
+    if (!PE32BasicInfo_init(&peinfo, fp, pe_offset)) {
+        fclose(fp);
+        PE32BasicInfo_destruct(&peinfo);
+        return NULL;
+    }
     PE32BasicInfo_print(&peinfo);
     PE32MemoryImage *img = PE32BasicInfo_load(&peinfo, fp);
     fclose(fp);
-- 
2.43.0


From d9f5c4ad2a6f0080cafbe59fd6778af6a30749f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:10 +0000
Subject: [PATCH 27/44] fix: check relocations, exports and imports in the PE32
 loader

---
 src/pe32loader.c | 75 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 65 insertions(+), 10 deletions(-)

diff --git a/src/pe32loader.c b/src/pe32loader.c
index 4dd3c4f..57ecb54 100644
--- a/src/pe32loader.c
+++ b/src/pe32loader.c
@@ -235,6 +235,17 @@ static inline void PE32MemoryImage_put_u32(PE32MemoryImage *obj, uint32_t rva, u
 }
 
 
+/**
+ * @brief Checks if the array is completely inside the image.
+ * @memberof PE32MemoryImage
+ */
+static inline int PE32MemoryImage_has_array(const PE32MemoryImage *obj,
+    uint32_t rva, uint32_t nelem, uint32_t elem_size)
+{
+    return rva <= obj->imgsize && nelem <= (obj->imgsize - rva) / elem_size;
+}
+
+
 /**
  * @brief Return the function address from the PE32 executable file export table.
  * @param obj       Preloaded PE32 file image.
@@ -274,10 +285,21 @@ int PE32MemoryImage_apply_relocs(PE32MemoryImage *img, PE32BasicInfo *info)
     uint8_t *buf = img->img;
     const uint32_t imagebase_real = (uint32_t) ((size_t) buf);
     const uint32_t offset = imagebase_real - info->imagebase;
+    if (info->reloc_dir == 0) {
+        return 1; // No relocations
+    }
+    if (info->reloc_dir > img->imgsize) {
+        snprintf(errmsg, ERRMSG_MAXLEN, "Relocations table is corrupted");
+        return 0;
+    }
     uint32_t rva;
     for (uint32_t r = info->reloc_dir;
-        (rva = PE32MemoryImage_get_u32(img, r)) != 0; ) {
+        img->imgsize - r >= 8 && (rva = PE32MemoryImage_get_u32(img, r)) != 0; ) {
         const uint32_t nbytes = PE32MemoryImage_get_u32(img, r + 4);
+        if (nbytes < 8 || nbytes > img->imgsize - r) {
+            snprintf(errmsg, ERRMSG_MAXLEN, "Relocations table is corrupted");
+            return 0;
+        }
         const uint32_t nrelocs = (nbytes - 8) / 2;
         printf("Reloc. chunk: rva=%" PRIX32 ", nbytes=%" PRIX32 ", nrelocs=%" PRIX32 "\n",
             rva, nbytes, nrelocs);
@@ -286,6 +308,10 @@ int PE32MemoryImage_apply_relocs(PE32MemoryImage *img, PE32BasicInfo *info)
             const uint16_t re_val = PE32MemoryImage_get_u16(img, re + 2*i);
             if (re_val >> 12 == 3) {
                 uint32_t reloc_rva = rva + (re_val & 0x0FFF);
+                if (!PE32MemoryImage_has_array(img, reloc_rva, 1, sizeof(uint32_t))) {
+                    snprintf(errmsg, ERRMSG_MAXLEN, "Relocations table is corrupted");
+                    return 0;
+                }
                 uint32_t reloc_val = PE32MemoryImage_get_u32(img, reloc_rva);
                 printf("  Reloc: rva=%" PRIX32 ", before=%" PRIX32 ", ",
                     reloc_rva, reloc_val);
@@ -306,10 +332,25 @@ int PE32MemoryImage_apply_relocs(PE32MemoryImage *img, PE32BasicInfo *info)
  */
 int PE32MemoryImage_apply_exports(PE32MemoryImage *img, PE32BasicInfo *info)
 {
+    img->nexports = 0;
+    if (info->export_dir == 0) {
+        return 1; // No exports
+    }
+    if (!PE32MemoryImage_has_array(img, info->export_dir, 10, sizeof(uint32_t))) {
+        snprintf(errmsg, ERRMSG_MAXLEN, "Exports table is corrupted");
+        return 0;
+    }
+    const uint32_t nfuncs = PE32MemoryImage_get_u32(img, info->export_dir + 20);
     img->nexports = PE32MemoryImage_get_u32(img, info->export_dir + 24);
     uint32_t func_addrs_array_rva = PE32MemoryImage_get_u32(img, info->export_dir + 28);
     uint32_t func_names_array_rva = PE32MemoryImage_get_u32(img, info->export_dir + 32);
     uint32_t ord_array_rva = PE32MemoryImage_get_u32(img, info->export_dir + 36);
+    if (!PE32MemoryImage_has_array(img, func_addrs_array_rva, nfuncs, sizeof(uint32_t)) ||
+        !PE32MemoryImage_has_array(img, func_names_array_rva, img->nexports, sizeof(uint32_t)) ||
+        !PE32MemoryImage_has_array(img, ord_array_rva, img->nexports, sizeof(uint16_t))) {
+        snprintf(errmsg, ERRMSG_MAXLEN, "Exports table is corrupted");
+        return 0;
+    }
     uint32_t *func_names_rva = (uint32_t *) (void *) &img->img[func_names_array_rva];
     uint32_t *func_addrs_rva = (uint32_t *) (void *) &img->img[func_addrs_array_rva];
     img->exports_ords = (uint16_t *) (void *) &img->img[ord_array_rva];
@@ -321,13 +362,22 @@ int PE32MemoryImage_apply_exports(PE32MemoryImage *img, PE32BasicInfo *info)
     uint32_t imagebase_real = (uint32_t) ((size_t) img->img);
     for (unsigned int i = 0; i < img->nexports; i++) {
         func_names_rva[i] += imagebase_real;
+    }
+    for (uint32_t i = 0; i < nfuncs; i++) {
         func_addrs_rva[i] += imagebase_real;
     }
     img->exports_names = (void *) func_names_rva;
     img->exports_addrs = (void *) func_addrs_rva;
 
     for (unsigned int i = 0; i < img->nexports; i++) {
-        const int ord = img->exports_ords[i];
+        const uint16_t ord = img->exports_ords[i];
+        const uint32_t name_rva = func_names_rva[i] - imagebase_real;
+        if (ord >= nfuncs || name_rva >= img->imgsize ||
+            memchr(&img->img[name_rva], 0, img->imgsize - name_rva) == NULL ||
+            func_addrs_rva[ord] - imagebase_real >= img->imgsize) {
+            snprintf(errmsg, ERRMSG_MAXLEN, "Exports table is corrupted");
+            return 0;
+        }
         const unsigned long long addr = (size_t) img->exports_addrs[ord];
         const unsigned long long base = (size_t) img->img;
         printf("  func=%s, addr=%llX, rva=%llX, ord=%d\n",
@@ -348,6 +398,10 @@ int PE32MemoryImage_apply_imports(PE32MemoryImage *img, PE32BasicInfo *info)
     if (info->import_dir == 0) {
         return 1;
     }
+    if (!PE32MemoryImage_has_array(img, info->import_dir, 1, sizeof(uint32_t))) {
+        snprintf(errmsg, ERRMSG_MAXLEN, "Imports table is corrupted");
+        return 0;
+    }
     const uint32_t lookup_rva = PE32MemoryImage_get_u32(img, info->import_dir);
     if (lookup_rva != 0) {
         snprintf(errmsg, ERRMSG_MAXLEN, "DLL imports are not supported");
@@ -394,19 +448,20 @@ PE32MemoryImage *PE32BasicInfo_load(PE32BasicInfo *info, FILE *fp)
             return NULL;
         }
     }
-    // Export table: get size and RVAs
-    if (!PE32MemoryImage_apply_imports(img, info) ||
-        !PE32MemoryImage_apply_exports(img, info) ||
-        !PE32MemoryImage_apply_relocs(img, info)) {
-        free(img->img); free(img);
-        return NULL;
-    }
     // Write metainformation to the image
-    snprintf((char *) buf, 128,
+    snprintf((char *) buf, METAINFO_MAXLEN,
         "Image base from PE: %llX\n"
         "Image base (real):  %llX\n",
         (unsigned long long) info->imagebase,
         (unsigned long long) ( (size_t) buf ) );
+    // Export table: get size and RVAs. It is processed after any other changes
+    // of the image: the checked tables must be kept intact.
+    if (!PE32MemoryImage_apply_imports(img, info) ||
+        !PE32MemoryImage_apply_relocs(img, info) ||
+        !PE32MemoryImage_apply_exports(img, info)) {
+        execbuffer_free(img->img); free(img);
+        return NULL;
+    }
     return img;
 }
 
-- 
2.43.0


From 22089fc215576a162f607e8f93434b9dee893548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:46 +0000
Subject: [PATCH 28/44] fix: check memory allocation for generators in sr_tiny

---
 apps/sr_tiny.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/apps/sr_tiny.c b/apps/sr_tiny.c
index 7307d58..e647f9c 100644
--- a/apps/sr_tiny.c
+++ b/apps/sr_tiny.c
@@ -820,6 +820,20 @@ void print_help()
         "  speed - an optional argument, enables speed measurement mode.\n");
 }
 
+/**
+ * @brief Allocates memory for the generator state, exits if it is not
+ * available.
+ */
+static void *alloc_state(size_t len)
+{
+    void *state = malloc(len);
+    if (state == NULL) {
+        fprintf(stderr, "***** create_generator: not enough memory *****\n");
+        exit(1);
+    }
+    return state;
+}
+
 /**
  * @brief Creates a pseudorandom number generator (PRNG).
  * @param name Generator name, may be `alfib`, `lcg32`, `lcg64`, `mwc1616`,
@@ -830,17 +844,17 @@ Generator32State create_generator(const char *name)
     static Generator32State gen = {0, 0};
     u32 x = (u32) time(NULL);
     if (!strcmp("alfib", name)) {
-        gen.state = malloc(sizeof(ALFibState));
+        gen.state = alloc_state(sizeof(ALFibState));
         gen.get_bits32 = alfib_func;
         ALFibState_init(gen.state, x);
     } else if (!strcmp("lcg32", name)) {
-        gen.state = malloc(sizeof(u32));
+        gen.state = alloc_state(sizeof(u32));
         gen.get_bits32 = lcg69069func;
         *((u32 *) gen.state) = x;
     } else if (!strcmp("lcg64", name)) {
         int i;
         u32 u, u_ref = 3675123773ul;
-        gen.state = malloc(sizeof(Lcg64x16State));
+        gen.state = alloc_state(sizeof(Lcg64x16State));
         gen.get_bits32 = lcg64x16_func;
         Lcg64x16State_init(gen.state, 12345678);
         for (i = 0; i < 10000; i++) {
@@ -855,19 +869,19 @@ Generator32State create_generator(const char *name)
         }
         Lcg64x16State_init(gen.state, x);
     } else if (!strcmp("mwc1616", name)) {
-        gen.state = malloc(sizeof(Mwc1616State));
+        gen.state = alloc_state(sizeof(Mwc1616State));
         gen.get_bits32 = mwc1616_func;
         Mwc1616State_init(gen.state, x);
     } else if (!strcmp("mwc1616x", name)) {
-        gen.state = malloc(sizeof(Mwc1616xState));
+        gen.state = alloc_state(sizeof(Mwc1616xState));
         gen.get_bits32 = mwc1616x_func;
         Mwc1616xState_init(gen.state, x);
     } else if (!strcmp("xorshift32", name)) {
-        gen.state = malloc(sizeof(u32));
+        gen.state = alloc_state(sizeof(u32));
         gen.get_bits32 = xorshift32_func;
         *((u32 *) gen.state) = x | 0x1; /* Cannot be initialized with 0 */
     } else if (!strcmp("xorwow", name)) {
-        gen.state = malloc(sizeof(XorWowState));
+        gen.state = alloc_state(sizeof(XorWowState));
         XorWowState_init(gen.state, x);
         gen.get_bits32 = xorwow_func;
     }
-- 
2.43.0


From e78fff5158881b00776e3817e3ac8d52e2429902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 29/44] fix: time each series of blocks on its own in sr_tiny

---
 apps/sr_tiny.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/apps/sr_tiny.c b/apps/sr_tiny.c
index e647f9c..b1dfa4c 100644
--- a/apps/sr_tiny.c
+++ b/apps/sr_tiny.c
@@ -895,26 +895,25 @@ Generator32State create_generator(const char *name)
 void measure_speed(Generator32State *gen)
 {
     double nsec, kib_sec;
-    long nblocks = 2, nblocks_total = 0;
+    long nblocks = 1;
     clock_t tic, toc;
     printf("Generator speed measurement\n");
-    tic = clock();
-    do {
+    do { /* Each series of blocks is timed on its own */
         long i;
         int j;
         u32 sum = 0;
+        nblocks *= 2;
+        tic = clock();
         for (i = 0; i < nblocks; i++) {
             for (j = 0; j < 16384; j++) { /* 64K block */
                 sum += gen->get_bits32(gen->state);
             }
         }
         (void) sum;
-        nblocks_total += nblocks;
-        nblocks *= 2;
         toc = clock();
     } while (toc - tic < 2*CLOCKS_PER_SEC);
     nsec = ((double) (toc - tic) / CLOCKS_PER_SEC);
-    kib_sec = (double) nblocks_total * 64.0 / nsec;
+    kib_sec = (double) nblocks * 64.0 / nsec;
     if (kib_sec < 1000.0) {
         printf("  Generator speed: %g KiB/sec", kib_sec);
     } else {
-- 
2.43.0


From 45ad4a501db9b4dbb3ce3d700511546cdee836cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:18 +0000
Subject: [PATCH 30/44] fix: report no speed of sums for generators without
 them in sr_speed

---
 src/bat_special.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bat_special.c b/src/bat_special.c
index e35167c..164aeaf 100644
--- a/src/bat_special.c
+++ b/src/bat_special.c
@@ -177,6 +177,11 @@ SpeedBatteryResults SpeedBatteryResults_get(const GeneratorInfo *gen, const Call
     res.uint = battery_speed_test(gen, intf, SPEED_UINT);
     printf("----- Speed test for uint sum generation -----\n");
     if (gen->get_sum == NULL) {
+        const SpeedResults none = {.ns_per_call = NAN, .ticks_per_call = NAN,
+            .cpb = NAN, .bytes_per_sec = NAN, .cpu_freq_meas = NAN};
+        res.sum.full = none;
+        res.sum.baseline = none;
+        res.sum.corr = none;
         res.mean = res.uint;
         printf("  Not implemented\n");
     } else {
-- 
2.43.0


From d05567539e476faf351ac296f5e73084854ce6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:22 +0000
Subject: [PATCH 31/44] fix: free the arguments of a 'battery' entry of a
 battery file

---
 src/bat_file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bat_file.c b/src/bat_file.c
index 8b573bf..b692cfe 100644
--- a/src/bat_file.c
+++ b/src/bat_file.c
@@ -319,6 +319,7 @@ static int ParserState_process_token(ParserState *state, const char *token)
                 return 0;
             }
             xstrcpy_s(state->tests.battery_name, 64, battery_name);
+            TestInfo_destruct(&state->testinfo);
         } else {
             TestInfoArray_addtest(&state->tests, &state->testinfo);
         }
-- 
2.43.0


From 61fc1b83ccf979e7c56d602044111c2a0ec14cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:22 +0000
Subject: [PATCH 32/44] fix: close the library of a generator that cannot be
 used

---
 src/core.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core.c b/src/core.c
index 00f4f8b..a77fb18 100644
--- a/src/core.c
+++ b/src/core.c
@@ -364,6 +364,10 @@ GeneratorModule GeneratorModule_load(const char *libname, const CallerAPI *intf)
             mod.valid = 0;
         }
     }
+    if (!mod.valid) {
+        dlclose_wrap(mod.lib);
+        mod.lib = NULL;
+    }
     return mod;
 }
 
-- 
2.43.0


From 3a8fa2ed0820223c169b682098699566209f7877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:22 +0000
Subject: [PATCH 33/44] fix: unload the generator when the filter does not suit
 it

---
 apps/smokerand.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index c621de7..714a261 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -637,6 +637,7 @@ int main(int argc, char *argv[])
         if (gi->nbits != 64 && (opts.filter == FILTER_INTERLEAVED32 ||
             opts.filter == FILTER_HIGH32 || opts.filter == FILTER_LOW32)) {
             fprintf(stderr, "This filter is supported only for 64-bit generators\n");
+            GeneratorModule_unload(&mod);
             CallerAPI_free();
             return BATTERY_ERROR;
         }
-- 
2.43.0


From ddc11ae3498d1af0313f6c491e239718b7b1fee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:09 +0000
Subject: [PATCH 34/44] fix: free the state in the self-tests of DES and MELG
 generators

---
 generators/des.c       | 1 +
 generators/melg19937.c | 1 +
 generators/melg44497.c | 1 +
 generators/melg607.c   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/generators/des.c b/generators/des.c
index f20dbc5..0d7ed13 100644
--- a/generators/des.c
+++ b/generators/des.c
@@ -407,6 +407,7 @@ static int run_self_test(const CallerAPI *intf)
             is_ok = 0;
         }
     }
+    intf->free(obj);
     return is_ok;
 }
 
diff --git a/generators/melg19937.c b/generators/melg19937.c
index f76492b..814f69b 100644
--- a/generators/melg19937.c
+++ b/generators/melg19937.c
@@ -145,6 +145,7 @@ static int run_self_test(const CallerAPI *intf)
             is_ok = 0;
         }
     }
+    intf->free(obj);
     return is_ok;
 }
 
diff --git a/generators/melg44497.c b/generators/melg44497.c
index d032617..145d623 100644
--- a/generators/melg44497.c
+++ b/generators/melg44497.c
@@ -145,6 +145,7 @@ static int run_self_test(const CallerAPI *intf)
             is_ok = 0;
         }
     }
+    intf->free(obj);
     return is_ok;
 }
 
diff --git a/generators/melg607.c b/generators/melg607.c
index 780c642..269a316 100644
--- a/generators/melg607.c
+++ b/generators/melg607.c
@@ -146,6 +146,7 @@ static int run_self_test(const CallerAPI *intf)
             is_ok = 0;
         }
     }
+    intf->free(obj);
     return is_ok;
 }
 
-- 
2.43.0


From 89cb848c2f62f569a4506066d3af567340364eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:58 +0000
Subject: [PATCH 35/44] fix: free the seeds log when the program ends before a
 battery is run

---
 apps/smokerand.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index 714a261..de3ec31 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -587,6 +587,7 @@ int main(int argc, char *argv[])
 
     SmokeRandSettings opts;
     if (SmokeRandSettings_load(&opts, argc, argv)) {
+        CallerAPI_free(); // The `--seed` option may have created the seeds log
         return BATTERY_ERROR;
     }
     const int is_stdin32 = !strcmp(generator_lib, "stdin32");
@@ -599,16 +600,19 @@ int main(int argc, char *argv[])
 
     if (opts.nthreads > 1 && (is_stdin32 || is_stdin64)) {
         fprintf(stderr, "Multithreading is not supported for stdin32/stdin64\n");
+        CallerAPI_free();
         return BATTERY_ERROR;
     }
 
     if (!entfuncs_test()) {
         fprintf(stderr, "Seed generator self-test failed\n");
+        CallerAPI_free();
         return BATTERY_ERROR;
     }
 
     if (!strcmp(generator_lib, "list")) {
         const int ans = print_battery_info(battery_name);
+        CallerAPI_free();
         return (ans == 0) ? (int) check_stdout(BATTERY_PASSED) : ans;
     }
 
-- 
2.43.0


From cc4b3b433993469143a5017f639e9c7db0c1941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:44 +0000
Subject: [PATCH 36/44] fix: numeric options of smokerand accept only numbers
 in range

---
 apps/smokerand.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index de3ec31..2785c14 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -17,6 +17,8 @@
 #include <math.h>
 #include <string.h>
 #include <float.h>
+#include <errno.h>
+#include <limits.h>
 
 void print_help(void)
 {
@@ -141,8 +143,11 @@ typedef BatteryExitCode (*ArgValueCallback) (SmokeRandSettings *obj, const char
 #define DEFINE_NUMARG_CALLBACK(field, argname, condition) \
 static BatteryExitCode field##_callback(SmokeRandSettings *obj, const char *argvalue) \
 { \
-    int argval = atoi(argvalue); \
-    if (condition) { \
+    char *argend; \
+    errno = 0; \
+    const long argval = strtol(argvalue, &argend, 10); \
+    if (argend != argvalue && *argend == '\0' && errno == 0 && \
+        argval <= INT_MAX && (condition)) { \
         obj->field = (unsigned int) argval; \
         return BATTERY_PASSED; \
     } else { \
-- 
2.43.0


From 34f036e5eac6db5a87cbacdb03189e58a4693bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:50 +0000
Subject: [PATCH 37/44] fix: refuse a too long --param value instead of cutting
 it

---
 apps/smokerand.c         |  5 ++++-
 include/smokerand/core.h |  2 +-
 src/core.c               | 14 +++++++++++---
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index 2785c14..6f46ef3 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -214,7 +214,10 @@ static BatteryExitCode SmokeRandSettings_txtarg_load(SmokeRandSettings *obj,
     const char *argname, const char *argvalue)
 {
     if (!strcmp(argname, "param")) {
-        set_cmd_param(argvalue);
+        if (!set_cmd_param(argvalue)) {
+            fprintf(stderr, "Value of argument '%s' is too long\n", argname);
+            return BATTERY_ERROR;
+        }
         return BATTERY_PASSED;
     } else if (!strcmp(argname, "batparam")) {
         obj->bat_param = argvalue;
diff --git a/include/smokerand/core.h b/include/smokerand/core.h
index 09c2d4f..fb4c7bc 100644
--- a/include/smokerand/core.h
+++ b/include/smokerand/core.h
@@ -38,7 +38,7 @@ enum {
 CallerAPI CallerAPI_init(void);
 CallerAPI CallerAPI_init_mthr(void);
 void CallerAPI_free(void);
-void set_cmd_param(const char *param);
+int set_cmd_param(const char *param);
 void set_entropy_textseed(const char *seed);
 int set_entropy_base64_seed(const char *seed);
 void set_use_stderr_for_printf(int val);
diff --git a/src/core.c b/src/core.c
index a77fb18..4bb285d 100644
--- a/src/core.c
+++ b/src/core.c
@@ -36,10 +36,18 @@ static const char *get_cmd_param(void)
     return cmd_param;
 }
 
-void set_cmd_param(const char *param)
+/**
+ * @brief Set the command line parameter (`--param` key) for generators.
+ * @return 1 - success, 0 - the parameter is too long.
+ */
+int set_cmd_param(const char *param)
 {
-    strncpy(cmd_param, param, 128);
-    cmd_param[127] = 0;
+    const size_t len = strlen(param);
+    if (len >= sizeof(cmd_param)) {
+        return 0;
+    }
+    memcpy(cmd_param, param, len + 1);
+    return 1;
 }
 
 void set_use_stderr_for_printf(int val)
-- 
2.43.0


From 2852067770900639be6d2032cb93b8a683c071a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:50 +0000
Subject: [PATCH 38/44] fix: help and man page named the thread options the
 wrong way round

---
 apps/smokerand.c | 4 ++--
 smokerand.1      | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index 6f46ef3..4f295d7 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -60,8 +60,8 @@ void print_help(void)
     "  --seed=data Use the user supplied string (data) as a seed\n"
     "  --testid=id     Run only the test with the given numeric id\n"
     "  --testname=name Run only the test with the given name\n"
-    "  --nthreads  Run battery in multithreaded mode (default number of threads)\n"
-    "  --threads=n Run battery in multithreaded mode using n threads\n"
+    "  --threads   Run battery in multithreaded mode (default number of threads)\n"
+    "  --nthreads=n Run battery in multithreaded mode using n threads\n"
     "\n";
 
     printf(help_str);
diff --git a/smokerand.1 b/smokerand.1
index ee954d5..b260691 100644
--- a/smokerand.1
+++ b/smokerand.1
@@ -373,7 +373,7 @@ Seeds the internal seed generator using the \fIvalue\fR string supplied by the
 user. It is transformed by Blake2s hash function and is used as a 256-bit key
 for the ChaCha20 stream cipher based PRNG used as a seed generator. Test battery
 run results are completely determined by the seed \fIvalue\fR, the tested PRNG
-and the number of threads (see the \fBthreads\fR key).
+and the number of threads (see the \fBthreads\fR and \fBnthreads\fR keys).
 .sp
 Seed values beginning with the underlining symbol (\fI_\fR) have a special
 format \fI_XX_base64key\fR where \fIXX\fR is the number of threads in the
@@ -388,10 +388,10 @@ Run only the test with the given numeric \fIid\fR.
 .B \-\-testname=\fIname\fR
 Run only a test with the given \fIname\fR.
 .TP
-.B \-\-threads=\fIn\fR
+.B \-\-nthreads=\fIn\fR
 Run battery in multithreaded mode using \fIn\fR threads.
 .TP
-.B \-\-nthreads
+.B \-\-threads
 Run battery in multithreaded mode using a default number of threads estimated
 from the number of CPU cores, architecture etc.
 .TP
-- 
2.43.0


From b6f1630486d77ad7c06db2100960131079287fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:21 +0000
Subject: [PATCH 39/44] fix: apply the filter to stdin32 and stdin64 too

---
 apps/smokerand.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index 4f295d7..da355d1 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -509,6 +509,17 @@ int print_battery_info(const char *battery_name)
 }
 
 
+static int is_filter_supported(const GeneratorInfo *gi, GeneratorFilter filter)
+{
+    if (gi->nbits != 64 && (filter == FILTER_INTERLEAVED32 ||
+        filter == FILTER_HIGH32 || filter == FILTER_LOW32)) {
+        fprintf(stderr, "This filter is supported only for 64-bit generators\n");
+        return 0;
+    }
+    return 1;
+}
+
+
 static void apply_filter(GeneratorInfo **gi, GeneratorFilter filter, GeneratorInfo *filter_gen)
 {
     switch (filter) {
@@ -632,8 +643,14 @@ int main(int argc, char *argv[])
         } else {
             stdin_gi = StdinCollector_get_info(stdin_collector_64bit);
         }
-        GeneratorInfo_print(&stdin_gi, is_stdout);
-        BatteryExitCode ans = run_battery(battery_name, &stdin_gi, &intf, &opts);
+        GeneratorInfo filter_gen, *gi = &stdin_gi;
+        if (!is_filter_supported(gi, opts.filter)) {
+            CallerAPI_free();
+            return BATTERY_ERROR;
+        }
+        apply_filter(&gi, opts.filter, &filter_gen);
+        GeneratorInfo_print(gi, is_stdout);
+        BatteryExitCode ans = run_battery(battery_name, gi, &intf, &opts);
         StdinCollector_print_report(&intf);
         CallerAPI_free();
         return check_stdout(ans);
@@ -646,9 +663,7 @@ int main(int argc, char *argv[])
             return BATTERY_ERROR;
         }
         GeneratorInfo *gi = &mod.gen;
-        if (gi->nbits != 64 && (opts.filter == FILTER_INTERLEAVED32 ||
-            opts.filter == FILTER_HIGH32 || opts.filter == FILTER_LOW32)) {
-            fprintf(stderr, "This filter is supported only for 64-bit generators\n");
+        if (!is_filter_supported(gi, opts.filter)) {
             GeneratorModule_unload(&mod);
             CallerAPI_free();
             return BATTERY_ERROR;
-- 
2.43.0


From 097299ac336ff00a1d9d2753e10ae7e779951dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:35 +0000
Subject: [PATCH 40/44] fix: test_syscrypto tested unfilled and stale buffers
 instead of the output of the device

---
 apps/test_syscrypto.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/apps/test_syscrypto.c b/apps/test_syscrypto.c
index 6543b3c..98c8794 100644
--- a/apps/test_syscrypto.c
+++ b/apps/test_syscrypto.c
@@ -31,10 +31,13 @@ static uint64_t get_bits(void *state)
 {
     SysCryptoState *obj = state;
     if (obj->pos >= SYS_CRYPTO_BUF_SIZE) {
-        fill_from_random_device(
+        if (!fill_from_random_device(
             (unsigned char *) obj->buf,
             sizeof(uint64_t) * SYS_CRYPTO_BUF_SIZE
-        );
+        )) {
+            fprintf(stderr, "***** OS-level CSPRNG is not accessible *****\n");
+            exit(EXIT_FAILURE);
+        }
         obj->pos = 0;
     }
     return obj->buf[obj->pos++];
@@ -45,7 +48,7 @@ static void *gen_create(const GeneratorInfo *gi, const CallerAPI *intf)
 {
     (void) gi;
     SysCryptoState *obj = intf->malloc(sizeof(SysCryptoState));    
-    obj->pos = 0;
+    obj->pos = SYS_CRYPTO_BUF_SIZE; // The buffer is empty
     return obj;
 }
 
-- 
2.43.0


From 3371b7cd7d65301c96c941e388326779b0eb51af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:56 +0000
Subject: [PATCH 41/44] fix: test_syscrypto returned 0 whatever the battery
 found

---
 apps/test_syscrypto.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/apps/test_syscrypto.c b/apps/test_syscrypto.c
index 98c8794..54a521c 100644
--- a/apps/test_syscrypto.c
+++ b/apps/test_syscrypto.c
@@ -94,20 +94,21 @@ int main(int argc, char *argv[])
         return 0;
     }
 
+    BatteryExitCode ans = BATTERY_ERROR;
     CallerAPI intf = CallerAPI_init();
     if (!strcmp(argv[1], "speed")) {
-        battery_speed(&gen, &intf);
+        ans = battery_speed(&gen, &intf);
     } else if (!strcmp(argv[1], "express")) {
-        battery_express(&gen, &intf, &opts);
+        ans = battery_express(&gen, &intf, &opts);
     } else if (!strcmp(argv[1], "brief")) {
-        battery_brief(&gen, &intf, &opts);
+        ans = battery_brief(&gen, &intf, &opts);
     } else if (!strcmp(argv[1], "default")) {
-        battery_default(&gen, &intf, &opts);
+        ans = battery_default(&gen, &intf, &opts);
     } else if (!strcmp(argv[1], "full")) {
-        battery_full(&gen, &intf, &opts);
+        ans = battery_full(&gen, &intf, &opts);
     } else {
         fprintf(stderr, "Unknown battery '%s'\n", argv[1]);
     }
     CallerAPI_free();
-    return 0;
+    return (int) ans;
 }
-- 
2.43.0


From b5b6e3764d637162ee0392de10710f0de4b74f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:08 +0000
Subject: [PATCH 42/44] fix: the tests of the ising script had other names and
 numbers than in the ising battery

---
 batscripts/ising.cfg | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/batscripts/ising.cfg b/batscripts/ising.cfg
index c8f54d2..90c2df8 100644
--- a/batscripts/ising.cfg
+++ b/batscripts/ising.cfg
@@ -3,15 +3,15 @@
 #
 battery name=ising.cfg end
 
-ising2d_wolff
+ising16_metropolis
     test=ising2d
-    algorithm=wolff
-    sample_len=5_000_000
-    nsamples=20
+    algorithm=metropolis
+    sample_len=5_000_000 nsamples=20
 end
 
-ising2d_metropolis
+ising16_wolff
     test=ising2d
-    algorithm=metropolis
-    sample_len=5_000_000 nsamples=20
+    algorithm=wolff
+    sample_len=5_000_000
+    nsamples=20
 end
-- 
2.43.0


From 551085684d5f334c7db32098ae58cd9663753963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:25 +0000
Subject: [PATCH 43/44] Revert "fix: test_syscrypto returned 0 whatever the
 battery found"

This reverts commit 3371b7cd7d65301c96c941e388326779b0eb51af.
---
 apps/test_syscrypto.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/apps/test_syscrypto.c b/apps/test_syscrypto.c
index 54a521c..98c8794 100644
--- a/apps/test_syscrypto.c
+++ b/apps/test_syscrypto.c
@@ -94,21 +94,20 @@ int main(int argc, char *argv[])
         return 0;
     }
 
-    BatteryExitCode ans = BATTERY_ERROR;
     CallerAPI intf = CallerAPI_init();
     if (!strcmp(argv[1], "speed")) {
-        ans = battery_speed(&gen, &intf);
+        battery_speed(&gen, &intf);
     } else if (!strcmp(argv[1], "express")) {
-        ans = battery_express(&gen, &intf, &opts);
+        battery_express(&gen, &intf, &opts);
     } else if (!strcmp(argv[1], "brief")) {
-        ans = battery_brief(&gen, &intf, &opts);
+        battery_brief(&gen, &intf, &opts);
     } else if (!strcmp(argv[1], "default")) {
-        ans = battery_default(&gen, &intf, &opts);
+        battery_default(&gen, &intf, &opts);
     } else if (!strcmp(argv[1], "full")) {
-        ans = battery_full(&gen, &intf, &opts);
+        battery_full(&gen, &intf, &opts);
     } else {
         fprintf(stderr, "Unknown battery '%s'\n", argv[1]);
     }
     CallerAPI_free();
-    return (int) ans;
+    return 0;
 }
-- 
2.43.0


From d096e9d4a37afbb27e565b93c9b3a55912238471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:25 +0000
Subject: [PATCH 44/44] Revert "fix: test_syscrypto tested unfilled and stale
 buffers instead of the output of the device"

This reverts commit 097299ac336ff00a1d9d2753e10ae7e779951dd2.
---
 apps/test_syscrypto.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/apps/test_syscrypto.c b/apps/test_syscrypto.c
index 98c8794..6543b3c 100644
--- a/apps/test_syscrypto.c
+++ b/apps/test_syscrypto.c
@@ -31,13 +31,10 @@ static uint64_t get_bits(void *state)
 {
     SysCryptoState *obj = state;
     if (obj->pos >= SYS_CRYPTO_BUF_SIZE) {
-        if (!fill_from_random_device(
+        fill_from_random_device(
             (unsigned char *) obj->buf,
             sizeof(uint64_t) * SYS_CRYPTO_BUF_SIZE
-        )) {
-            fprintf(stderr, "***** OS-level CSPRNG is not accessible *****\n");
-            exit(EXIT_FAILURE);
-        }
+        );
         obj->pos = 0;
     }
     return obj->buf[obj->pos++];
@@ -48,7 +45,7 @@ static void *gen_create(const GeneratorInfo *gi, const CallerAPI *intf)
 {
     (void) gi;
     SysCryptoState *obj = intf->malloc(sizeof(SysCryptoState));    
-    obj->pos = SYS_CRYPTO_BUF_SIZE; // The buffer is empty
+    obj->pos = 0;
     return obj;
 }
 
-- 
2.43.0

