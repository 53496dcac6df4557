From 59abe273ccf1dc3820f49cf10559081ecadecfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 01/49] fix: take the results file's busy flag atomically

---
 simulators/sim_bg.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index e5d82a1..b0b0321 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -27,6 +27,7 @@
 //-----------------------------------------------------------------------------
 // Includes.
 
+#include <errno.h>
 #include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -558,24 +559,21 @@ sim_save_res(
 
   sim = (sim_bg_inst *)inst;
 
-  // Check if the file is busy.
+  // Wait until the file is not busy and create the busy flag.
   strcpy(bsyfn, sim->rf_name);
   strcat(bsyfn, ".bsy");
   n = 0;
-  while ((fp = fopen(bsyfn, "r")) != NULL) {
-    fclose(fp);
+  while ((fp = fopen(bsyfn, "wx")) == NULL) { // Fails if the flag exists.
+    if (errno != EEXIST) {
+      err_msg("sim_bg saving error: cannot create busy flag file.");
+      return RC_ERROR;
+    }
     if (n++ > 30) {
       err_msg("sim_bg saving error: output file is busy too long.");
       return RC_ERROR;
     }
     sleep(1000);
   }
-
-  // Create the busy flag.
-  if ((fp = fopen(bsyfn, "w")) == NULL) {
-    err_msg("sim_bg saving error: cannot create busy flag file.");
-    return RC_ERROR;
-  }
   fprintf(fp, "Busy");
   fclose(fp);
 
-- 
2.43.0


From 7dc3692b15ea518dbf40ab69a8050db39279b52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 02/49] fix: give the busy flag back on every path, and only
 after the results are written

---
 simulators/sim_bg.c | 69 +++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 28 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index b0b0321..a48c6fb 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -536,14 +536,12 @@ sim_cur_res_str(
   }
 }
 
-// Save simulation results.
-int
-sim_save_res(
-  void *inst // Simulation instance.
+// Update the results file. The caller holds the busy flag.
+static int
+update_res_file(
+  sim_bg_inst *sim // Simulation instance.
 ) {
-  sim_bg_inst *sim;
   FILE *fp;
-  char bsyfn[FN_LEN_MAX]; // Busy flag file name.
   char *str1, *token; // For old res file parsing.
   int snr_num = 0;
   double snr_db[SNR_NUM_MAX];
@@ -557,26 +555,6 @@ sim_save_res(
   char err_reading_str[] = "sim_bg saving error: error reading old res file.";
   int i, j, n, snrs_to_save;
 
-  sim = (sim_bg_inst *)inst;
-
-  // Wait until the file is not busy and create the busy flag.
-  strcpy(bsyfn, sim->rf_name);
-  strcat(bsyfn, ".bsy");
-  n = 0;
-  while ((fp = fopen(bsyfn, "wx")) == NULL) { // Fails if the flag exists.
-    if (errno != EEXIST) {
-      err_msg("sim_bg saving error: cannot create busy flag file.");
-      return RC_ERROR;
-    }
-    if (n++ > 30) {
-      err_msg("sim_bg saving error: output file is busy too long.");
-      return RC_ERROR;
-    }
-    sleep(1000);
-  }
-  fprintf(fp, "Busy");
-  fclose(fp);
-
   // Try to read and preparse old res file.
   if (spf_tryread_preparse(sim->rf_name, &str1) == 0) {
 
@@ -727,11 +705,46 @@ sim_save_res(
     );
   }
 
+  fclose(fp);
+  return RC_OK;
+}
+
+// Save simulation results.
+int
+sim_save_res(
+  void *inst // Simulation instance.
+) {
+  sim_bg_inst *sim;
+  FILE *fp;
+  char bsyfn[FN_LEN_MAX]; // Busy flag file name.
+  int n, rc;
+
+  sim = (sim_bg_inst *)inst;
+
+  // Wait until the file is not busy and create the busy flag.
+  strcpy(bsyfn, sim->rf_name);
+  strcat(bsyfn, ".bsy");
+  n = 0;
+  while ((fp = fopen(bsyfn, "wx")) == NULL) { // Fails if the flag exists.
+    if (errno != EEXIST) {
+      err_msg("sim_bg saving error: cannot create busy flag file.");
+      return RC_ERROR;
+    }
+    if (n++ > 30) {
+      err_msg("sim_bg saving error: output file is busy too long.");
+      return RC_ERROR;
+    }
+    sleep(1000);
+  }
+  fprintf(fp, "Busy");
+  fclose(fp);
+
+  rc = update_res_file(sim);
+
   // Delete busy flag file.
   remove(bsyfn);
 
-  fclose(fp);
-  return RC_OK;
+  return rc;
 }
 
 // Control simulation parameters "on the fly".
-- 
2.43.0


From c207635cff3b468786f6b64d05ba420c7a266539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 03/49] fix: regard counters as saved only after the results
 file is written

---
 simulators/sim_bg.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index a48c6fb..7fd269b 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -638,9 +638,6 @@ update_res_file(
       copy_sim_point(&pt_file[n], &sim->pt[n]);
     }
   }
-  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
-    copy_sim_point(&sim->pt_saved[i], &sim->pt[i]);
-  }
 
   // Save updated data.
 
@@ -706,6 +703,12 @@ update_res_file(
   }
 
   fclose(fp);
+
+  // Now the current counters are in the file.
+  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
+    copy_sim_point(&sim->pt_saved[i], &sim->pt[i]);
+  }
+
   return RC_OK;
 }
 
-- 
2.43.0


From 01b7d50c8113d142953dde311b5546c8e854a8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 04/49] fix: replace the results file atomically and only when
 it is completely written

---
 simulators/sim_bg.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 7fd269b..611e92f 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -542,6 +542,7 @@ update_res_file(
   sim_bg_inst *sim // Simulation instance.
 ) {
   FILE *fp;
+  char tmpfn[FN_LEN_MAX + 8]; // Temporary file name.
   char *str1, *token; // For old res file parsing.
   int snr_num = 0;
   double snr_db[SNR_NUM_MAX];
@@ -641,7 +642,10 @@ update_res_file(
 
   // Save updated data.
 
-  fp = fopen(sim->rf_name, "wt");
+  // Write to a temporary file so the old results survive any failure.
+  strcpy(tmpfn, sim->rf_name);
+  strcat(tmpfn, ".tmp");
+  fp = fopen(tmpfn, "wt");
   if (fp == NULL) {
     err_msg("sim_bg saving error: cannot open file to save results.");
     return RC_ERROR;
@@ -702,7 +706,21 @@ update_res_file(
     );
   }
 
-  fclose(fp);
+  i = ferror(fp);
+  if (fclose(fp) != 0) i = 1;
+  if (i) {
+    err_msg("sim_bg saving error: cannot write results.");
+    remove(tmpfn);
+    return RC_ERROR;
+  }
+#ifdef WIN32
+  remove(sim->rf_name); // There rename() does not replace an existing file.
+#endif // if WIN32
+  if (rename(tmpfn, sim->rf_name) != 0) {
+    err_msg("sim_bg saving error: cannot replace the results file.");
+    remove(tmpfn);
+    return RC_ERROR;
+  }
 
   // Now the current counters are in the file.
   for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
-- 
2.43.0


From 187dbf062e37e8c4bec5af1eee3f141e988002cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 05/49] fix: do not take an old results file that cannot be
 read for a missing one

---
 common/spf_par.c    | 16 ++++++++++++----
 common/spf_par.h    |  3 ++-
 simulators/sim_bg.c |  4 +++-
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index a05f989..7b36aa4 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -21,6 +21,7 @@
 //-----------------------------------------------------------------------------
 // Includes.
 
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -89,12 +90,12 @@ strcpy_strip_comments(
 }
 
 // Open, read and preparse simulation parameters file to sp_str.
-// Return: RC_OK/RC_ERROR.
+// Return: RC_OK/RC_ERROR (RC_SPF_NO_FILE if try_flag is 1 and there is no file or it is empty).
 int
 spf_read_preparse_ext(
    char spf_name[], // Simulation parameters file name.
    char **out_str, // Simulation parameters string.
-   int try_flag // If 1 don't give error message when can't open file.
+   int try_flag // If 1 don't give error message when there is no file.
 )
 {
    FILE *sp_file; // Simulation parameters file.
@@ -103,7 +104,8 @@ spf_read_preparse_ext(
 
    // Read simulation parameters file to str1.
    if ((sp_file = fopen(spf_name, "rb")) == NULL) {
-      if (try_flag != 1) err_msg("spf_read_preparse(): can't open file.");
+      if (try_flag == 1 && errno == ENOENT) return RC_SPF_NO_FILE;
+      err_msg("spf_read_preparse(): can't open file.");
       return RC_ERROR;
    }
    str1 = (char *)malloc(SP_STR_MAX * 3);
@@ -113,7 +115,13 @@ spf_read_preparse_ext(
       return RC_ERROR;
    }
    str2 = str1 + SP_STR_MAX;
-   if ((i1 = fread(str1, 1, SP_STR_MAX, sp_file)) == 0) {
+   i1 = fread(str1, 1, SP_STR_MAX, sp_file);
+   if (try_flag == 1 && i1 == 0 && !ferror(sp_file)) {
+      free(str1);
+      fclose(sp_file);
+      return RC_SPF_NO_FILE;
+   }
+   if (i1 == 0 || ferror(sp_file)) {
       err_msg("spf_read_preparse(): can't read file.");
       free(str1);
       fclose(sp_file);
diff --git a/common/spf_par.h b/common/spf_par.h
index ce2e6a5..f778e3d 100644
--- a/common/spf_par.h
+++ b/common/spf_par.h
@@ -40,6 +40,7 @@
 #define TOKEN_SEP_CHAR     '\1'
 
 #define RC_SPF_UNKNOWN (RC_CUSTOM + 1)
+#define RC_SPF_NO_FILE (RC_CUSTOM + 2)
 
 #define TRYGET_INT_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
@@ -182,7 +183,7 @@ int spf_read_preparse(
  * Try to open, read and preparse simulation parameters file to sp_str.
  * @param spf_name
  * @param out_str
- * @return RC_OK / RC_ERROR
+ * @return RC_OK / RC_SPF_NO_FILE (no file or it is empty) / RC_ERROR
  */
 int spf_tryread_preparse(
    char spf_name[], // Simulation parameters file name.
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 611e92f..f895aa2 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -557,7 +557,9 @@ update_res_file(
   int i, j, n, snrs_to_save;
 
   // Try to read and preparse old res file.
-  if (spf_tryread_preparse(sim->rf_name, &str1) == 0) {
+  n = spf_tryread_preparse(sim->rf_name, &str1);
+  if (n == RC_ERROR) return RC_ERROR; // It is there but cannot be read.
+  if (n == RC_OK) {
 
     // Get old data.
     token = strtok(str1, tk_seps_prepared);
-- 
2.43.0


From a734f26550ec34618615d422d4c2a04d8dc72fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 06/49] fix: refuse a file with a parameter without value or an
 unclosed group instead of crashing

---
 common/spf_par.c | 28 ++++++++++++++++++++++++++++
 common/spf_par.h |  4 ++--
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index 7b36aa4..b2438ac 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -89,6 +89,27 @@ strcpy_strip_comments(
    return dstr_len;
 }
 
+// Check that each parameter has a value and each group is closed.
+static int
+spf_is_complete(
+   char sp_str[] // Simulation parameters string.
+)
+{
+   int value_expected = 0, in_group = 0;
+   char *token;
+
+   for (token = sp_str; *token != 0; token = strchr(token, TOKEN_SEP_CHAR) + 1) {
+      if (*token == TOKEN_SEP_CHAR) continue;
+      if (in_group) in_group = (*token != GROUP_CHAR_END);
+      else {
+         in_group = (value_expected && *token == GROUP_CHAR_BEGIN);
+         value_expected = !value_expected;
+      }
+   }
+
+   return !in_group && !value_expected;
+}
+
 // Open, read and preparse simulation parameters file to sp_str.
 // Return: RC_OK/RC_ERROR (RC_SPF_NO_FILE if try_flag is 1 and there is no file or it is empty).
 int
@@ -229,6 +250,13 @@ spf_read_preparse_ext(
    }
 
    free(str1);
+
+   if (!spf_is_complete(sp_str)) {
+      err_msg("spf_read_preparse(): a parameter has no value or a group is not closed.");
+      free(sp_str);
+      return RC_ERROR;
+   }
+
    (*out_str) = sp_str;
 
    return RC_OK;
diff --git a/common/spf_par.h b/common/spf_par.h
index f778e3d..e0bd92a 100644
--- a/common/spf_par.h
+++ b/common/spf_par.h
@@ -115,9 +115,9 @@
 
 #define SPF_SKIP_UNKNOWN_PARAMETER(tk) { \
    (tk) = strtok(NULL, tk_seps_prepared); \
-   if ((tk)[0] == GROUP_CHAR_BEGIN) { \
+   if (((tk) != NULL) && ((tk)[0] == GROUP_CHAR_BEGIN)) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      while (((tk)[strlen(tk) - 1] != GROUP_CHAR_END) && ((tk) != NULL)) \
+      while (((tk) != NULL) && ((tk)[strlen(tk) - 1] != GROUP_CHAR_END)) \
          (tk) = strtok(NULL, tk_seps_prepared); \
    } \
    (tk) = strtok(NULL, tk_seps_prepared); \
-- 
2.43.0


From 7f525db8c4f028988dc22395d14222c6e2a5b0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 07/49] fix: refuse lists longer than the program can hold
 instead of misreading or overrunning

---
 common/spf_par.c    |  2 +-
 common/spf_par.h    |  8 ++++++--
 simulators/sim_bg.c | 14 +++++++++++---
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index b2438ac..94ed262 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -299,7 +299,7 @@ int tryread_group_int_param(
         i++;
       }
     }
-    else {
+    if (tk[0] != GROUP_CHAR_END) {
       err_msg(erstr);
       return RC_ERROR;
     }
diff --git a/common/spf_par.h b/common/spf_par.h
index e0bd92a..4e90c6f 100644
--- a/common/spf_par.h
+++ b/common/spf_par.h
@@ -80,7 +80,7 @@
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
       } \
-      else { \
+      if ((tk)[0] != GROUP_CHAR_END) { \
          err_msg(erstr); \
          return 1; \
       } \
@@ -99,11 +99,15 @@
          while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
             (x)[i] = atoi(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
+            if ((tk)[0] == GROUP_CHAR_END) { \
+               err_msg(erstr); \
+               return 1; \
+            } \
             (y)[i++] = atof(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
       } \
-      else { \
+      if ((tk)[0] != GROUP_CHAR_END) { \
          err_msg(erstr); \
          return 1; \
       } \
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index f895aa2..6c2ea07 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -237,11 +237,15 @@ int sim_init(
           while ((token[0] != GROUP_CHAR_END) && (i < SNR_NUM_MAX)) {
             sim->snr_db[i] = atof(token);
             token = strtok(NULL, tk_seps_prepared);
+            if (token[0] == GROUP_CHAR_END) {
+              err_msg("sim_bg init error: SNR_val_trn: no trials number after the last SNR value.");
+              return RC_ERROR;
+            }
             sim->trn_req[i++] = atoi(token);
             token = strtok(NULL, tk_seps_prepared);
           }
         }
-        else {
+        if (token[0] != GROUP_CHAR_END) {
           err_msg("sim_bg init error: cannot read SNR_val_trn.");
           return RC_ERROR;
         }
@@ -613,8 +617,12 @@ update_res_file(
     for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
       if (sim->pt[i].trn == sim->pt_saved[i].trn) continue;
       n = 0;
-      while ((snr_db[n] < sim->snr_db[i]) && (n < snr_num)) n++;
-      if ((snr_db[n] > sim->snr_db[i]) || (n >= snr_num)) {
+      while ((n < snr_num) && (snr_db[n] < sim->snr_db[i])) n++;
+      if ((n >= snr_num) || (snr_db[n] > sim->snr_db[i])) {
+        if (snr_num >= SNR_NUM_MAX) {
+          err_msg("sim_bg saving error: too many SNR values in the results file.");
+          return RC_ERROR;
+        }
         // Make room for the new at n if required.
         for (j = snr_num; j > n; j--) {
           snr_db[j] = snr_db[j - 1];
-- 
2.43.0


From 2cf2d0b0a51d34f2f4d15d42903ed131765d0c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 08/49] fix: order the first save like the following ones and
 leave out points without trials

---
 simulators/sim_bg.c | 59 +++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 32 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 6c2ea07..4fd23b0 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -612,43 +612,38 @@ update_res_file(
       err_msg("sim_bg saving error: invalid old res file.");
       return RC_ERROR;
     }
-
-    // Update the data.
-    for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
-      if (sim->pt[i].trn == sim->pt_saved[i].trn) continue;
-      n = 0;
-      while ((n < snr_num) && (snr_db[n] < sim->snr_db[i])) n++;
-      if ((n >= snr_num) || (snr_db[n] > sim->snr_db[i])) {
-        if (snr_num >= SNR_NUM_MAX) {
-          err_msg("sim_bg saving error: too many SNR values in the results file.");
-          return RC_ERROR;
-        }
-        // Make room for the new at n if required.
-        for (j = snr_num; j > n; j--) {
-          snr_db[j] = snr_db[j - 1];
-          copy_sim_point(&pt_file[j], &pt_file[j - 1]);
-        }
-        snr_num++;
-        // Add new at n.
-        snr_db[n] = sim->snr_db[i];
-        init_sim_point(&pt_file[n]);
-      }
-      // Update at n.
-      sim_point tmppt;
-      sub_sim_points(&tmppt, &sim->pt[i], &sim->pt_saved[i]);
-      add_sim_points(&pt_file[n], &pt_file[n], &tmppt);
-    }
-    snrs_to_save = snr_num;
   }
   else {
+    // There was no old res file, so nothing is saved yet.
+    memset(sim->pt_saved, 0, sizeof(sim->pt_saved));
+  }
 
-    // Assume there was no old res file.
-    snrs_to_save = (sim->csnrn < sim->snr_num) ? sim->csnrn + 1 : sim->snr_num;
-    for (n = 0; n < snrs_to_save; n++) {
-      snr_db[n] = sim->snr_db[n];
-      copy_sim_point(&pt_file[n], &sim->pt[n]);
+  // Update the data.
+  for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
+    if (sim->pt[i].trn == sim->pt_saved[i].trn) continue;
+    n = 0;
+    while ((n < snr_num) && (snr_db[n] < sim->snr_db[i])) n++;
+    if ((n >= snr_num) || (snr_db[n] > sim->snr_db[i])) {
+      if (snr_num >= SNR_NUM_MAX) {
+        err_msg("sim_bg saving error: too many SNR values in the results file.");
+        return RC_ERROR;
+      }
+      // Make room for the new at n if required.
+      for (j = snr_num; j > n; j--) {
+        snr_db[j] = snr_db[j - 1];
+        copy_sim_point(&pt_file[j], &pt_file[j - 1]);
+      }
+      snr_num++;
+      // Add new at n.
+      snr_db[n] = sim->snr_db[i];
+      init_sim_point(&pt_file[n]);
     }
+    // Update at n.
+    sim_point tmppt;
+    sub_sim_points(&tmppt, &sim->pt[i], &sim->pt_saved[i]);
+    add_sim_points(&pt_file[n], &pt_file[n], &tmppt);
   }
+  snrs_to_save = snr_num;
 
   // Save updated data.
 
-- 
2.43.0


From ca7c149e4fc87a26aa4d83ae47a015c162dd0e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 09/49] fix: wait for the busy flag in milliseconds, whatever
 the clock's resolution

---
 simulators/sim_bg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 4fd23b0..9346df9 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -130,7 +130,7 @@ static void set_rnd_seed(long s) {
 /* Pauses for a specified number of milliseconds. */
 static void sleep(clock_t wait) {
   clock_t goal;
-  goal = wait + clock();
+  goal = wait * (CLOCKS_PER_SEC / 1000) + clock();
   while (goal > clock());
 }
 
-- 
2.43.0


From da16b9b357f2284a5493aac3f167cfbead14517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 10/49] fix: report a failed simulation or a failed final save
 in the exit code

---
 simulators/main_txt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simulators/main_txt.c b/simulators/main_txt.c
index 29387d7..aa132ff 100644
--- a/simulators/main_txt.c
+++ b/simulators/main_txt.c
@@ -123,13 +123,13 @@ int main(int argc, char **argv) {
    }
    msg_printf("\n");
 
-   show_msg("Simulation is over.");
+   show_msg((rc == RC_OK) ? "Simulation is over." : "Simulation failed.");
    sim_cur_res_str(sim_inst, msg_str);
    show_msg(msg_str);
 
-   sim_save_res(sim_inst);
+   if (sim_save_res(sim_inst) != RC_OK) rc = RC_ERROR;
 
    sim_close(sim_inst);
 
-   return RC_OK;
+   return rc;
 }
\ No newline at end of file
-- 
2.43.0


From f10f2e194f7170a128cac964eba6dd2749e61419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 11/49] fix: stop on an encoder failure and count a trial only
 after it is decoded

---
 common/srm_utils.c            |  7 ++++---
 polar_scl/ca_polar_scl_main.c |  5 +++--
 simulators/sim_bg.c           | 16 +++++++++++-----
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/common/srm_utils.c b/common/srm_utils.c
index fac66a3..640ccff 100644
--- a/common/srm_utils.c
+++ b/common/srm_utils.c
@@ -25,6 +25,7 @@
 // Includes.
 
 #include <stdlib.h>
+#include "std_defs.h"
 #include "srm_utils.h"
 #include "../interfaces/ui_utils.h"
 
@@ -127,7 +128,7 @@ int mrm_enc_bpsk(
    c = (int *)malloc(n * sizeof(int));
    if (c == NULL) {
       err_msg("mrm_enc_bpsk(): short of memory.");
-      return 1;
+      return RC_ERROR;
    }
    mrm_enc_bsc(m, r, x, c);
    for (i = 0; i < n; i++) y[i] = (double)((c[i] << 1) - 1);
@@ -231,7 +232,7 @@ int smrm_enc_bpsk(
    c = (int *)malloc(n * sizeof(int));
    if (c == NULL) {
       err_msg("smrm_enc_bpsk(): short of memory.");
-      return 1;
+      return RC_ERROR;
    }
    smrm_enc_bsc(m, r, node_table, x, c);
    for (i = 0; i < n; i++) y[i] = (double)((c[i] << 1) - 1);
@@ -322,7 +323,7 @@ int smrm_par0_enc_bpsk(
    c = (int *)malloc(n * sizeof(int));
    if (c == NULL) {
       err_msg("smrm_par0_enc_bpsk(): short of memory.");
-      return 1;
+      return RC_ERROR;
    }
    smrm_par0_enc_bsc(m, r, node_table, x, c);
    for (i = 0; i < n; i++) y[i] = (double)((c[i] << 1) - 1);
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index d507819..8d4a501 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -409,6 +409,7 @@ enc_bpsk(
 {
    cdc_inst_type *dd;
    int *x_crc;
+   int rc;
 
    dd = (cdc_inst_type *)cdc;
 
@@ -420,9 +421,9 @@ enc_bpsk(
       }
       calc_crc(x, dd->eff_k, dd->crc, dd->crc_len, x_crc + dd->crc_len);
       memcpy(x_crc, x, dd->eff_k * sizeof(int));
-      smrm_par0_enc_bpsk(dd->c_m, dd->c_m, dd->dc.node_table, x_crc, y);
+      rc = smrm_par0_enc_bpsk(dd->c_m, dd->c_m, dd->dc.node_table, x_crc, y);
       free(x_crc);
-      return dd->eff_k;
+      return (rc == RC_ERROR) ? RC_ERROR : dd->eff_k;
    }
    else {
       return smrm_par0_enc_bpsk(dd->c_m, dd->c_m, dd->dc.node_table, x, y);
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 9346df9..189e05b 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -397,12 +397,13 @@ int sim_run(
 
     while (sim->pt[csnrn].trn < sim->trn_req[csnrn]) {
 
-      sim->pt[csnrn].trn++;
-
       // Generate random or zero code word.
       if (sim->use_rndcw) {
         for (i = 0; i < c_k; i++) x[i] = (RND > 0.5) ? 1 : 0;
-        enc_bpsk(sim->dc_inst, x, c_in);
+        if (enc_bpsk(sim->dc_inst, x, c_in) == RC_ERROR) {
+          err_msg("sim_bg run error: error while encoding.");
+          return RC_ERROR;
+        }
       }
       else {
         for (i = 0; i < c_k; i++) x[i] = 0;
@@ -421,6 +422,8 @@ int sim_run(
         return RC_ERROR;
       }
 
+      sim->pt[csnrn].trn++;
+
       // Count the number of incorrect information bits.
       en = 0;
       for (i = 0; i < c_k; i++) if (x_dec[i] != x[i]) en++;
@@ -437,14 +440,17 @@ int sim_run(
 
       // Check if the ML decoding would fail too.
       if (sim->do_ml && rc != RC_DEC_ERASURE) {
-        sim->pt[csnrn].trn_ml++;
         double d1 = 0.0, d2 = 0.0;
         if (sim->do_ml_hd)
           for (i = 0; i < c_n; i++) c_out[i] = (c_out[i] > 0.0) ? 1.0 : -1.0;
         // d1 <-- dist(c_in, c_out).
         for (i = 0; i < c_n; i++) d1 += (c_in[i] - c_out[i]) * (c_in[i] - c_out[i]);
         // d2 <-- dist[encode(x_dec), c_out].
-        enc_bpsk(sim->dc_inst, x_dec, c_in);
+        if (enc_bpsk(sim->dc_inst, x_dec, c_in) == RC_ERROR) {
+          err_msg("sim_bg run error: error while encoding.");
+          return RC_ERROR;
+        }
+        sim->pt[csnrn].trn_ml++;
         for (i = 0; i < c_n; i++) d2 += (c_in[i] - c_out[i]) * (c_in[i] - c_out[i]);
         if (d1 > d2) sim->pt[csnrn].enml_bl++;
       }
-- 
2.43.0


From dffc623cc3910ad9ece48195c2cb5b20e8acebc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 12/49] fix: check each allocation in codec initialisation and
 release all of it on failure

---
 dtrm_glp/dtrm_glp_main.c      | 2 +-
 polar_scl/ca_polar_scl_main.c | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index ae9bf34..4794d3b 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -219,7 +219,7 @@ cdc_init(
    if (p_num > 0) {
       dd->dc.pxarr = (int *)malloc(p_num * c_k * sizeof(int));
       dd->dc.pyarr = (int *)malloc(p_num * c_n * sizeof(int));
-      if ((dd->dc.pxarr == NULL) || (dd->dc.pxarr == NULL)) {
+      if ((dd->dc.pxarr == NULL) || (dd->dc.pyarr == NULL)) {
          err_msg("cdc_init: Short of memory.");
          goto ret_err;
       }
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 8d4a501..649a3a4 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -341,6 +341,7 @@ ret_err:
    if (str1 != NULL) free(str1);
    if (dd != NULL) {
       if (dd->dc.mem_buf != NULL) free(dd->dc.mem_buf);
+      if (dd->crc != NULL) free(dd->crc);
       if (dd->dc.pxarr != NULL) free(dd->dc.pxarr);
       if (dd->dc.pyarr != NULL) free(dd->dc.pyarr);
       if (dd->dc.node_table != NULL) free(dd->dc.node_table);
-- 
2.43.0


From 1b8f621c6be8d8fabf63498fbbdcc132fa5e8294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 13/49] fix: report a decoder that is short of memory instead
 of returning garbage as decoded

---
 dtrm/dtrm1.c                  | 15 ++++++++++-----
 dtrm_glp/dtrm_glp_main.c      |  5 ++++-
 polar_scl/ca_polar_scl_main.c |  7 ++++++-
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index 44577ea..010b123 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -123,10 +123,10 @@ tri1_dec(
    // Decode u1.
    // [x_dec1, y_dec1] = dtrm01_she(r - 1, m - 1, y1 .* y2);
    for (i = 0; i < n2; i++) aux_buf[i] = y1[i] * y2[i];
-   tri1_dec(
+   if (tri1_dec(
       aux_buf, r - 1, m - 1, n2,
       y_dec1, x_dec, &cur_x_dec_len, aux_buf + n2
-   );
+   )) return 1;
    (*x_dec_len) = cur_x_dec_len;
 
    // Decode u2.
@@ -134,10 +134,10 @@ tri1_dec(
    for (i = 0; i < n2; i++) y1[i] *= y_dec1[i];
    VADD_EST(y1, y2, aux_buf, n2);
    // ADD_EST_EPS(y1, y2, aux_buf, n2);
-   tri1_dec(
+   if (tri1_dec(
       aux_buf, r, m - 1, n2,
       y_dec2, x_dec + cur_x_dec_len, &cur_x_dec_len, aux_buf + n2
-   );
+   )) return 1;
    (*x_dec_len) += cur_x_dec_len;
 
    // y_dec = [y_dec1 .* y_dec2, y_dec2];
@@ -307,9 +307,14 @@ dec_bpsk(
    for (i = 0; i < dd->c_n; i++) dec_input[i] = c_out[i] * dd->sg22;
    VY_TO_FORMAT(dec_input, dec_input, dd->c_n);
 
-   tri1_dec(dec_input, dd->c_r, dd->c_m, dd->c_n, y_dec, x_dec, &i, aux_buf);
+   i = tri1_dec(dec_input, dd->c_r, dd->c_m, dd->c_n, y_dec, x_dec, &i, aux_buf);
 
    free(mem_buf);
 
+   if (i != 0) {
+      err_msg("dec_bpsk: Short of memory.");
+      return -1;
+   }
+
    return 0;
 }
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 4794d3b..e3a7037 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -406,7 +406,10 @@ dec_bpsk(
          for (j = 0; j < dd->dc.node_table_len; j++)
             dd->dc.node_table[j] = (dd->dc.node_table[j] == 0) ? 0 : dd->lsiz[i];
          rm_dec(&(dd->dc), dec_input, x_dec, NULL);
-         enc_bpsk(cdc, x_dec, y_dec);
+         if (enc_bpsk(cdc, x_dec, y_dec)) {
+            free(mem_buf);
+            return -1;
+         }
          d1 = 0.0;
          // d1 <-- dist(dec_input, y_dec).
          for (j = 0; j < dd->c_n; j++)
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 649a3a4..152169f 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -108,7 +108,7 @@ int get_best_in_list(
     int i;
     int *tmp = (int *)malloc(x_len * sizeof(int));
     if (tmp == NULL) {
-      return 0;
+      return -2; // cannot check
     }
     for (i = 0; i < lsiz; i++) {
       if (is_valid_crc(x + i * sum_len, x_len, crc, crc_len, tmp)) {
@@ -476,6 +476,11 @@ dec_bpsk(
 #ifdef DBG
       printf("best_ind: %d\n", best_ind);
 #endif
+      if (best_ind < -1) {
+        err_msg("dec_bpsk: Short of memory.");
+        free(mem_buf);
+        return RC_ERROR;
+      }
       if (best_ind < 0) {
         is_erasure = 1;
         best_ind = 0;
-- 
2.43.0


From d45cc097f102b6f82bd8fe854154e7955fa40385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 14/49] fix: decode strong channel outputs instead of turning
 them into NaN

---
 formats/formats.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/formats/formats.h b/formats/formats.h
index bb90a32..5679fd7 100644
--- a/formats/formats.h
+++ b/formats/formats.h
@@ -69,6 +69,9 @@
 //-----------------------------------------------------------------------------
 // Defines
 
+// exp() is infinite for somewhat bigger arguments.
+#define MAX_EXP_ARG 700.0
+
 #ifdef FORMAT_EPS
 // Convert from y to the epsilon format.
 
@@ -85,7 +88,7 @@
 #define VY_TO_FORMAT(y, e, n) { \
    int i; \
    for (i = 0; i < n; i++) { \
-      e[i] = exp(y[i]); \
+      e[i] = exp((y[i] > MAX_EXP_ARG) ? MAX_EXP_ARG : y[i]); \
       e[i] = (1.0 - e[i]) / (1.0 + e[i]); \
       FORMAT_CLIP(e[i]); \
    } \
@@ -96,7 +99,7 @@
 #define VY_TO_FORMAT(y, e, n) { \
    int i; \
    for (i = 0; i < n; i++) { \
-      e[i] = exp(y[i]); \
+      e[i] = exp((y[i] > MAX_EXP_ARG) ? MAX_EXP_ARG : y[i]); \
       e[i] = (1.0 - e[i]) / (1.0 + e[i]); \
    } \
 }
-- 
2.43.0


From a0f1ab1ff80f0e8d0f588826633358d4071a9f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 15/49] fix: read includes completely and wherever they stand,
 or refuse them

---
 common/spf_par.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index 94ed262..694cffd 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -168,6 +168,8 @@ spf_read_preparse_ext(
 
    // Remove comments from str1 and copy the result to str2.
    str2_len = strcpy_strip_comments(str1, i1, 1, str2);
+   str2[str2_len++] = ' '; // So there is a separator after the last token.
+   str2[str2_len] = 0;
 
    // ----- Preparse parameters.
 
@@ -177,13 +179,14 @@ spf_read_preparse_ext(
       // Includes.
       if (strcmp(token, include_token) == 0) {
          token = strtok(NULL, token_seps);
-         if ((sp_file = fopen(token, "rb")) == NULL) {
+         if (token == NULL || (sp_file = fopen(token, "rb")) == NULL) {
             err_msg("spf_read_preparse(): can't open include file.");
             free(sp_str);
             free(str1);
             return RC_ERROR;
          }
-         if ((i1 = fread(str1, 1, SP_STR_MAX - 1, sp_file)) == 0) {
+         i1 = fread(str1, 1, SP_STR_MAX, sp_file);
+         if (i1 == 0 || ferror(sp_file)) {
             err_msg("spf_read_preparse(): can't read include file.");
             fclose(sp_file);
             free(sp_str);
@@ -191,9 +194,10 @@ spf_read_preparse_ext(
             return RC_ERROR;
          }
          fclose(sp_file);
-         str1[i1++] = ' ';
-         str1[i1] = 0;
-         i1 = strcpy_strip_comments(str1, i1, 1, str1);
+         if (i1 < SP_STR_MAX) {
+            i1 = strcpy_strip_comments(str1, i1, 0, str1);
+            str1[i1++] = ' ';
+         }
          if (i1 + str2_len >= SP_STR_MAX) {
             err_msg("spf_read_preparse(): file is too huge.");
             free(sp_str);
-- 
2.43.0


From 17d46bfdc54015ec9c99fc28e71dfe61da6b254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 16/49] fix: accept a group of one value written without spaces

---
 common/spf_par.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index 694cffd..b951dcd 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -218,14 +218,11 @@ spf_read_preparse_ext(
          sp_str[sp_str_len++] = GROUP_CHAR_BEGIN;
          sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
          sp_str[sp_str_len] = 0;
-         if (strlen(token) > 1) {
-            strcat(sp_str, token + 1);
-            sp_str_len += strlen(token) - 1;
-            sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
-            sp_str[sp_str_len] = 0;
+         // The rest of the token may also end the group.
+         if (*++token == 0) {
+            token = strtok(NULL, token_seps);
+            continue;
          }
-         token = strtok(NULL, token_seps);
-         continue;
       }
 
       // Group ends.
-- 
2.43.0


From bdc32d3bbfac2ed18196454bfb205b9df96293e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 17/49] fix: refuse files that do not fit when preparsed and
 files that are not text

---
 common/spf_par.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/common/spf_par.c b/common/spf_par.c
index b951dcd..71c016d 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -155,6 +155,11 @@ spf_read_preparse_ext(
       return RC_ERROR;
    }
    str1[i1] = 0;
+   if (memchr(str1, 0, i1) != NULL) {
+      err_msg("spf_read_preparse(): not a text file.");
+      free(str1);
+      return RC_ERROR;
+   }
 
    // Allocate future sp_str.
    sp_str = (char *)malloc(SP_STR_MAX);
@@ -194,6 +199,12 @@ spf_read_preparse_ext(
             return RC_ERROR;
          }
          fclose(sp_file);
+         if (memchr(str1, 0, i1) != NULL) {
+            err_msg("spf_read_preparse(): include file is not a text file.");
+            free(sp_str);
+            free(str1);
+            return RC_ERROR;
+         }
          if (i1 < SP_STR_MAX) {
             i1 = strcpy_strip_comments(str1, i1, 0, str1);
             str1[i1++] = ' ';
@@ -213,6 +224,14 @@ spf_read_preparse_ext(
          continue;
       }
       
+      // At most two separate group characters and three separators are added.
+      if (sp_str_len + strlen(token) + 5 >= SP_STR_MAX) {
+         err_msg("spf_read_preparse(): file is too huge.");
+         free(sp_str);
+         free(str1);
+         return RC_ERROR;
+      }
+
       // Group begins.
       if (token[0] == GROUP_CHAR_BEGIN) {
          sp_str[sp_str_len++] = GROUP_CHAR_BEGIN;
-- 
2.43.0


From 72cbff7fbefdd855ab188b1443307c9dc723f210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 18/49] fix: refuse parameters without a results file and do
 not overrun the busy flag's name

---
 simulators/sim_bg.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 189e05b..9a1114e 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -278,6 +278,10 @@ int sim_init(
   sim->code_k = cdc_get_k(sim->dc_inst);
 
   // Check if all necessary parameters are specified.
+  if (sim->rf_name[0] == 0) {
+    err_msg("sim_bg init error: no results file is specified.");
+    return RC_ERROR;
+  }
   if (sim->snr_num < 1) {
     err_msg("sim_bg init error: no SNR values are specified.");
     return RC_ERROR;
@@ -748,7 +752,7 @@ sim_save_res(
 ) {
   sim_bg_inst *sim;
   FILE *fp;
-  char bsyfn[FN_LEN_MAX]; // Busy flag file name.
+  char bsyfn[FN_LEN_MAX + 8]; // Busy flag file name.
   int n, rc;
 
   sim = (sim_bg_inst *)inst;
-- 
2.43.0


From e390638a58572f6f331022602bc25a48853cd883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 19/49] fix: compute bit error rates of long simulations
 without integer overflow

---
 Octave/loadsrf.c    | 2 +-
 simulators/sim_bg.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Octave/loadsrf.c b/Octave/loadsrf.c
index 40a1736..455ec79 100644
--- a/Octave/loadsrf.c
+++ b/Octave/loadsrf.c
@@ -130,7 +130,7 @@ mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
   mxArr = mxCreateDoubleMatrix(1, snr_num, mxREAL);
   d = mxGetPr(mxArr);
   for (n = 0; n < snr_num; n++) {
-    d[n] = (trn[n] > 0) ? (double)(en_bit[n]) / (trn[n] * c_k) : 0.0;
+    d[n] = (trn[n] > 0) ? (double)(en_bit[n]) / ((double)trn[n] * c_k) : 0.0;
   }
   mxSetFieldByNumber(res, 0, 3, mxArr);
 
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 9a1114e..357b0b0 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -529,7 +529,7 @@ sim_cur_res_str(
       sprintf(str1,
         "\n%3.2f\t %.3e\t %.3e\t %.3e",
         sim->snr_db[n],
-        (double)(sim->pt[n].en_bit) / (sim->pt[n].trn * sim->code_k),
+        (double)(sim->pt[n].en_bit) / ((double)sim->pt[n].trn * sim->code_k),
         (double)(sim->pt[n].en_bl) / sim->pt[n].trn,
         sim->pt[n].trn_ml ? (double)(sim->pt[n].enml_bl) / sim->pt[n].trn_ml : 0
       );
@@ -542,7 +542,7 @@ sim_cur_res_str(
       sprintf(str1,
         "\n%3.2f\t %.3e\t %.3e",
         sim->snr_db[n],
-        (double)(sim->pt[n].en_bit) / (sim->pt[n].trn * sim->code_k),
+        (double)(sim->pt[n].en_bit) / ((double)sim->pt[n].trn * sim->code_k),
         (double)(sim->pt[n].en_bl) / sim->pt[n].trn
       );
       strcat(ds, str1);
-- 
2.43.0


From 77233f9a58fe6421a8e8c53fe58649ab5772f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 20/49] fix: write SNR values with enough digits to find their
 entries again

---
 simulators/sim_bg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 357b0b0..e195700 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -669,7 +669,7 @@ update_res_file(
   fprintf(fp, "code_n %d\ncode_k %d\n\n", sim->code_n, sim->code_k);
 
   fprintf(fp, "SNR { ");
-  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%g ", snr_db[n]);
+  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%.15g ", snr_db[n]);
   fprintf(fp, "}\n");
 
   fprintf(fp, "%s { ", tr_num_token);
-- 
2.43.0


From ac37aff71883a4bb3a59d7993f644d86878ccfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 21/49] fix: simulate at least the number of trials listed in
 SNR_val_trn

---
 simulators/sim_bg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index e195700..c8200b8 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -92,6 +92,7 @@ typedef struct {
   int min_trn;
   int min_en_bl;
   int trn_req[SNR_NUM_MAX];
+  int trn_min[SNR_NUM_MAX]; // Initially required number of trials.
   int do_ml; // If 1 evaluate ML LB.
   int do_ml_hd; // If 1 evaluate ML LB for hard dec. decoder.
   sim_point pt[SNR_NUM_MAX];
@@ -302,6 +303,7 @@ int sim_init(
     if (sim->trn_req[i] < 1) {
       sim->trn_req[i] = sim->min_trn;
     }
+    sim->trn_min[i] = sim->trn_req[i];
   }
   sim->csnrn = 0;
   sim->ret_int = sp->ret_int;
@@ -335,7 +337,7 @@ static void update_trn_req(
     double estimate;
     if (sim->pt[csnrn].en_bl > MIN_EN_FOR_TRN_ESTIMATION) {
       estimate = (double)sim->pt[csnrn].trn * sim->min_en_bl / sim->pt[csnrn].en_bl;
-      sim->trn_req[csnrn] = (int)MAX(sim->min_trn, MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
+      sim->trn_req[csnrn] = (int)MAX(sim->trn_min[csnrn], MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
       return;
     }
     if (sim->pt[csnrn].trn > sim->trn_req[csnrn] / 2) {
-- 
2.43.0


From 35ecd0df9f4ddc2eb52d714f224344961d1eab92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 22/49] fix: glp list decoder: keep the best entries also when
 the list is one too long

qpartition() returned at once for k == len - 1, so the entry dropped from a
list one longer than allowed was the last one, not the least likely one.
---
 dtrm_glp/dtrm_glp_inner.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_inner.c b/dtrm_glp/dtrm_glp_inner.c
index 2637f02..3e89407 100644
--- a/dtrm_glp/dtrm_glp_inner.c
+++ b/dtrm_glp/dtrm_glp_inner.c
@@ -188,8 +188,6 @@ void print_list(char rem[]) {
 static void qpartition(int *v, int len, int k) {
   int i, st, tmp;
 
-  if (k == len - 1) return;
-
   if (len == 2) {
     if (slist[v[0]] < slist[v[1]]) SWAP(0, 1)
     return;
-- 
2.43.0


From d461b79261af1a62259452f6432ea4dc1caacd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:16 +0000
Subject: [PATCH 23/49] fix: seed the random sequence with a usable value at
 every clock setting

With the clock at 0 or from 2038-01-19 on the seed was outside of the
generator's range and the program hung generating noise.
---
 simulators/sim_bg.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index c8200b8..c91df0e 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -124,7 +124,8 @@ static void set_rnd_seed(long s) {
 #ifdef USE_STDLIB_RND
   srand((unsigned)s);
 #else
-  rnd_seed = (double) s;
+  // Must be in 1 ... rnd_M - 1: the generator never leaves 0.
+  rnd_seed = 1.0 + fmod(fabs((double)s), rnd_M - 1.0);
 #endif
 }
 
@@ -307,7 +308,7 @@ int sim_init(
   }
   sim->csnrn = 0;
   sim->ret_int = sp->ret_int;
-  if (sp->dont_randomize == 0) set_rnd_seed((int)time(NULL));
+  if (sp->dont_randomize == 0) set_rnd_seed((long)time(NULL));
   if (sim->do_ml_hd) sim->do_ml = 1;
 
   free(sp_str);
-- 
2.43.0


From d42c0a233b61e068cf6cdbc7ac153ffe04283ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 24/49] fix: never lower the requested trials while errors are
 still missing

---
 simulators/sim_bg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index c91df0e..997114b 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -343,7 +343,7 @@ static void update_trn_req(
     }
     if (sim->pt[csnrn].trn > sim->trn_req[csnrn] / 2) {
       estimate = sim->pt[csnrn].trn * 1.5;
-      sim->trn_req[csnrn] = (int)MIN(estimate + 0.5, MAX_TRIALS_PER_SNR);
+      sim->trn_req[csnrn] = (int)MAX(sim->trn_req[csnrn], MIN(estimate + 0.5, MAX_TRIALS_PER_SNR));
     }
   }
 }
-- 
2.43.0


From 0c4187e894f13e47bab5d26027921b815625b0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 25/49] fix: parameter files with a group instead of a single
 value crashed the programs

---
 common/spf_par.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/common/spf_par.c b/common/spf_par.c
index 71c016d..4cf561e 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -224,8 +224,9 @@ spf_read_preparse_ext(
          continue;
       }
       
-      // At most two separate group characters and three separators are added.
-      if (sp_str_len + strlen(token) + 5 >= SP_STR_MAX) {
+      // At most two separate group characters and three separators are added,
+      // and the guard at the end.
+      if (sp_str_len + strlen(token) + 9 >= SP_STR_MAX) {
          err_msg("spf_read_preparse(): file is too huge.");
          free(sp_str);
          free(str1);
@@ -277,6 +278,14 @@ spf_read_preparse_ext(
       return RC_ERROR;
    }
 
+   // Add a guard (an unknown parameter) so nobody runs off the end when there is
+   // a group instead of a single value or vice versa.
+   for (i1 = 0; i1 < 2; i1++) {
+      sp_str[sp_str_len++] = GROUP_CHAR_END;
+      sp_str[sp_str_len++] = TOKEN_SEP_CHAR;
+   }
+   sp_str[sp_str_len] = 0;
+
    (*out_str) = sp_str;
 
    return RC_OK;
-- 
2.43.0


From 7553e58e9e97ed777569282574be8ede2cfc990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 26/49] fix: refuse code parameters out of range instead of
 crashing

---
 dtrm/dtrm0.c                  | 6 +++++-
 dtrm/dtrm1.c                  | 6 +++++-
 dtrm_glp/dtrm_glp_main.c      | 7 ++++++-
 polar_scl/ca_polar_scl_main.c | 4 ++++
 rm1_ml/rm1_ml.c               | 2 +-
 5 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/dtrm/dtrm0.c b/dtrm/dtrm0.c
index 8f832d3..8f071a3 100644
--- a/dtrm/dtrm0.c
+++ b/dtrm/dtrm0.c
@@ -188,6 +188,10 @@ cdc_init(
       err_msg("cdc_init: RM_m or RM_r are not specified.");
       goto ret_err;
    }
+   if ((c_m < 1) || (c_m > 30) || (c_r < 1) || (c_r > c_m)) {
+      err_msg("cdc_init: RM_m or RM_r is out of range.");
+      goto ret_err;
+   }
 
    // Complete settings.
    dd->c_n = c_n = 1 << c_m;
@@ -287,7 +291,7 @@ dec_bpsk(
 
    dd = (cdc_inst_type *)cdc;
 
-   mem_buf = (double *)malloc(dd->c_n * 3 * sizeof(double));
+   mem_buf = (double *)malloc((size_t)dd->c_n * 3 * sizeof(double));
    if (mem_buf == NULL) {
       err_msg("dec_bpsk: Short of memory.");
       return -1;
diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index 010b123..6e01777 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -195,6 +195,10 @@ cdc_init(
       err_msg("cdc_init: RM_m or RM_r are not specified.");
       goto ret_err;
    }
+   if ((c_m < 1) || (c_m > 30) || (c_r < 1) || (c_r > c_m)) {
+      err_msg("cdc_init: RM_m or RM_r is out of range.");
+      goto ret_err;
+   }
 
    // Complete settings.
    dd->c_n = c_n = 1 << c_m;
@@ -294,7 +298,7 @@ dec_bpsk(
 
    dd = (cdc_inst_type *)cdc;
 
-   mem_buf = (double *)malloc(dd->c_n * 3 * sizeof(double));
+   mem_buf = (double *)malloc((size_t)dd->c_n * 3 * sizeof(double));
    if (mem_buf == NULL) {
       err_msg("dec_bpsk: Short of memory.");
       return -1;
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index e3a7037..9b9aa38 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -189,6 +189,11 @@ cdc_init(
       err_msg("cdc_init: RM_m or RM_r are not specified.");
       goto ret_err;
    }
+   // The decoder starts with a reduction to (1 .. m - 1, m - 1) codes.
+   if ((c_m > 30) || (c_r < 2) || (c_r >= c_m)) {
+      err_msg("cdc_init: RM_m or RM_r is out of range.");
+      goto ret_err;
+   }
    if (dd->dc.node_table_len == 0) {
       err_msg("cdc_init: No border nodes map.");
       goto ret_err;
@@ -386,7 +391,7 @@ dec_bpsk(
 
    dd = (cdc_inst_type *)cdc;
 
-   mem_buf = (double *)malloc(dd->c_n * 2 * sizeof(double));
+   mem_buf = (double *)malloc((size_t)dd->c_n * 2 * sizeof(double));
    if (mem_buf == NULL) {
       err_msg("dec_bpsk: Short of memory.");
       return -1;
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 152169f..46a4c65 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -247,6 +247,10 @@ cdc_init(
       err_msg("cdc_init: c_m is not specified.");
       goto ret_err;
    }
+   if ((c_m < 1) || (c_m > 30)) {
+      err_msg("cdc_init: c_m is out of range.");
+      goto ret_err;
+   }
    if (dd->dc.node_table_len == 0) {
       err_msg("cdc_init: No info_bits_mask.");
       goto ret_err;
diff --git a/rm1_ml/rm1_ml.c b/rm1_ml/rm1_ml.c
index 0b53c69..fad2f43 100644
--- a/rm1_ml/rm1_ml.c
+++ b/rm1_ml/rm1_ml.c
@@ -268,7 +268,7 @@ int rm1_dec_sh_finp(
    uint8 *mem_buf;
 
    // Allocate memory.
-   mem_buf = (uint8 *)malloc(c_n * (c_m + 1) * sizeof(ylitem) + c_n * 2 * sizeof(slitem));
+   mem_buf = (uint8 *)malloc((size_t)c_n * (c_m + 1) * sizeof(ylitem) + c_n * 2 * sizeof(slitem));
    if (mem_buf == NULL) return 1;
    slist = (slitem *)mem_buf;
    ylist = (ylitem *)(mem_buf + c_n * 2 * sizeof(slitem));
-- 
2.43.0


From ca46b5ee491608a98c94397c0c06c4299e5e70a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 27/49] fix: decode long full and first order codes without
 overrunning a fixed buffer

---
 dtrm/dtrm0.c | 2 +-
 dtrm/dtrm1.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dtrm/dtrm0.c b/dtrm/dtrm0.c
index 8f071a3..820c189 100644
--- a/dtrm/dtrm0.c
+++ b/dtrm/dtrm0.c
@@ -92,7 +92,7 @@ tri0_dec(
 
    // RM(m, m) case.
    if (r == m) {
-      int tmp[1024];
+      int *tmp = (int *)aux_buf; // There is room for n items.
       (*x_dec_len) = n; // n information bits.
       for (i = 0; i < n; i++) {
          if (CHECK_EST0(y_in[i])) {
diff --git a/dtrm/dtrm1.c b/dtrm/dtrm1.c
index 6e01777..db20ec0 100644
--- a/dtrm/dtrm1.c
+++ b/dtrm/dtrm1.c
@@ -75,7 +75,7 @@ tri1_dec(
 )
 {
    int i, n2, cur_x_dec_len;
-   int tmp[4096];
+   int *tmp = (int *)aux_buf; // There is room for n items.
    double *y1, *y2, *y_dec1, *y_dec2;
 
    // RM(m, m) case.
-- 
2.43.0


From c3d1c51cae5ab336cbd0f8ed018f5cfa48cbef17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 28/49] fix: refuse a mask too short for the code instead of
 reading past its end

---
 dtrm_glp/dtrm_glp_main.c      | 9 +++++++++
 polar_scl/ca_polar_scl_main.c | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 9b9aa38..1304cdf 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -81,6 +81,11 @@ int get_membuf_size(decoder_type *dd) {
    return mem_buf_size;
 }
 
+// Number of border nodes of tr0(r, m).
+static int get_border_nodes_num(int m, int r) {
+   if ((r == 0) || (r == m)) return 1;
+   return get_border_nodes_num(m - 1, r - 1) + get_border_nodes_num(m - 1, r);
+}
 
 //-----------------------------------------------------------------------------
 // codec interface functions.
@@ -209,6 +214,10 @@ cdc_init(
 
    // Complete settings.
    dd->c_n = dd->dc.c_n = c_n = 1 << c_m;
+   if (dd->dc.node_table_len < get_border_nodes_num(c_m, c_r)) {
+      err_msg("cdc_init: border_node_mask is too short.");
+      goto ret_err;
+   }
    for (i = 0; i < dd->dc.node_table_len; i++)
       dd->dc.node_table[i] = (dd->dc.node_table[i] == 0) ? 0 : dd->dc.peak_lsiz;
    dd->c_k = dd->dc.c_k = c_k = calc_srm_k(c_m, c_r, dd->dc.node_table);
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 46a4c65..b8b8005 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -262,6 +262,10 @@ cdc_init(
 
    // Complete settings.
    dd->c_n = dd->dc.c_n = c_n = 1 << c_m;
+   if (dd->dc.node_table_len < c_n) {
+      err_msg("cdc_init: info_bits_mask is too short.");
+      goto ret_err;
+   }
    dd->c_k = dd->dc.c_k = c_k = get_k_from_node_table(c_n, dd->dc.node_table);
    dd->eff_k = c_k - dd->crc_len;
    dd->dc.ret_list = (dd->crc_len > 0) ? 1 : 0;
-- 
2.43.0


From 81a3b154998f68acafb2f3a63f2085ea7ee2fea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 29/49] fix: release everything when codec parameters are given
 twice or distance_threshold is wrong

---
 common/spf_par.h              | 5 +++--
 dtrm_glp/dtrm_glp_main.c      | 1 +
 polar_scl/ca_polar_scl_main.c | 2 ++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/spf_par.h b/common/spf_par.h
index 4e90c6f..a27678f 100644
--- a/common/spf_par.h
+++ b/common/spf_par.h
@@ -90,6 +90,7 @@
    } \
 }
 
+// Goes to ret_err on error.
 #define TRYGET_GRINTDOUBLE_TOKEN(tk, tk_samp, x, y, n, nmax, erstr) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       int i = 0; \
@@ -101,7 +102,7 @@
             (tk) = strtok(NULL, tk_seps_prepared); \
             if ((tk)[0] == GROUP_CHAR_END) { \
                err_msg(erstr); \
-               return 1; \
+               goto ret_err; \
             } \
             (y)[i++] = atof(tk); \
             (tk) = strtok(NULL, tk_seps_prepared); \
@@ -109,7 +110,7 @@
       } \
       if ((tk)[0] != GROUP_CHAR_END) { \
          err_msg(erstr); \
-         return 1; \
+         goto ret_err; \
       } \
       (n) = i; \
       (tk) = strtok(NULL, tk_seps_prepared); \
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 1304cdf..397412b 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -130,6 +130,7 @@ cdc_init(
       TRYGET_INT_TOKEN(token, "RM_r", c_r);
       if (strcmp(token, "border_node_mask") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (dd->dc.node_table != NULL) free(dd->dc.node_table);
          dd->dc.node_table_len = strlen(token);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index b8b8005..771e376 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -174,6 +174,7 @@ cdc_init(
       TRYGET_INT_TOKEN(token, "c_m", c_m);
       if (strcmp(token, "info_bits_mask") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (dd->dc.node_table != NULL) free(dd->dc.node_table);
          dd->dc.node_table_len = strlen(token);
          dd->dc.node_table = (uint32 *)malloc(dd->dc.node_table_len * 4);
          if (dd->dc.node_table == NULL) {
@@ -187,6 +188,7 @@ cdc_init(
       }
       if (strcmp(token, "ca_polar_crc") == 0) {
          token = strtok(NULL, tk_seps_prepared);
+         if (dd->crc != NULL) free(dd->crc);
          dd->crc_len = strlen(token);
          dd->crc = (int *)malloc(dd->crc_len * sizeof(int));
          if (dd->crc == NULL) {
-- 
2.43.0


From c018f00f8280b2277509a4456eb4020603e4bb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 30/49] fix: refuse list sizes that are not positive or exceed
 border_node_lsize

---
 dtrm_glp/dtrm_glp_main.c      | 9 ++++++++-
 polar_scl/ca_polar_scl_main.c | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 397412b..819e36b 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -204,7 +204,7 @@ cdc_init(
       err_msg("cdc_init: No border nodes map.");
       goto ret_err;
    }
-   if (dd->dc.peak_lsiz == 0) {
+   if (dd->dc.peak_lsiz <= 0) {
       err_msg("cdc_init: No list size.");
       goto ret_err;
    }
@@ -212,6 +212,13 @@ cdc_init(
       err_msg("cdc_init: No distance_threshold.");
       goto ret_err;
    }
+   // The buffers are allocated for border_node_lsize.
+   for (i = 0; i < dd->dist_t_n; i++) {
+      if ((dd->lsiz[i] < 1) || (dd->lsiz[i] > dd->dc.peak_lsiz)) {
+         err_msg("cdc_init: distance_threshold: list size is out of range.");
+         goto ret_err;
+      }
+   }
 
    // Complete settings.
    dd->c_n = dd->dc.c_n = c_n = 1 << c_m;
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 771e376..de92864 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -257,7 +257,7 @@ cdc_init(
       err_msg("cdc_init: No info_bits_mask.");
       goto ret_err;
    }
-   if (dd->dc.peak_lsiz == 0) {
+   if (dd->dc.peak_lsiz <= 0) {
       err_msg("cdc_init: No list size.");
       goto ret_err;
    }
-- 
2.43.0


From f77ae6e10a8c265ac974aeae353104bbd777ed90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 31/49] fix: initialise codes longer than 2048 without
 overrunning a fixed array

---
 dtrm_glp/dtrm_glp_main.c      | 10 +++++++++-
 polar_scl/ca_polar_scl_main.c | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 819e36b..6b64526 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -101,7 +101,8 @@ cdc_init(
    int c_n = 0, c_k = 0, c_m = 0, c_r = 0;
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
-   int p_info[10000], inf_coeff[2048];
+   int p_info[10000];
+   int *inf_coeff = NULL;
    int p_num = 0;
 
    // Allocate decoder instance.
@@ -251,6 +252,11 @@ cdc_init(
    }
    // Calculate inf_coeff[]. It contains all integers with weight <= c_r
    // in reverse lexicographic order.
+   inf_coeff = (int *)malloc(c_n * sizeof(int));
+   if (inf_coeff == NULL) {
+      err_msg("cdc_init: Short of memory.");
+      goto ret_err;
+   }
    i1 = 0;
    for (i = c_n - 1; i >= 0; i--) {
       // i2 <-- weight(i);
@@ -282,6 +288,7 @@ cdc_init(
       px += c_k;
       p1 += c_m;
    }
+   free(inf_coeff); inf_coeff = NULL;
 
 #ifdef FORMAT_Q
    if (dec_tables_init()) {
@@ -304,6 +311,7 @@ cdc_init(
 ret_err:
 
    if (str1 != NULL) free(str1);
+   if (inf_coeff != NULL) free(inf_coeff);
    if (dd != NULL) {
       if (dd->dc.mem_buf != NULL) free(dd->dc.mem_buf);
       if (dd->dc.pxarr != NULL) free(dd->dc.pxarr);
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index de92864..9c7a0ab 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -146,7 +146,8 @@ cdc_init(
    int c_n = 0, c_k = 0, c_m = 0;
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
-   int p_info[10000], inf_coeff[2048];
+   int p_info[10000];
+   int *inf_coeff = NULL;
    int p_num = 0;
 
    // Allocate decoder instance.
@@ -296,6 +297,11 @@ cdc_init(
    }
    // Calculate inf_coeff[]. It contains all integers with weight <= c_r
    // in reverse lexicographic order.
+   inf_coeff = (int *)malloc(c_n * sizeof(int));
+   if (inf_coeff == NULL) {
+      err_msg("cdc_init: Short of memory.");
+      goto ret_err;
+   }
    i1 = 0;
    for (i = c_n - 1; i >= 0; i--) {
       // i2 <-- weight(i);
@@ -327,6 +333,7 @@ cdc_init(
       px += c_k;
       p1 += c_m;
    }
+   free(inf_coeff); inf_coeff = NULL;
 
 #ifdef FORMAT_Q
    if (dec_tables_init()) {
@@ -349,6 +356,7 @@ cdc_init(
 ret_err:
 
    if (str1 != NULL) free(str1);
+   if (inf_coeff != NULL) free(inf_coeff);
    if (dd != NULL) {
       if (dd->dc.mem_buf != NULL) free(dd->dc.mem_buf);
       if (dd->crc != NULL) free(dd->crc);
-- 
2.43.0


From e13ea7a0f0a3bdb50107d3794fe0f7c4aeeb90c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 32/49] fix: refuse permutations that are not ones of the code
 instead of writing outside of buffers

---
 dtrm_glp/dtrm_glp_main.c      | 37 ++++++++++++++++++++++++++++++++---
 polar_scl/ca_polar_scl_main.c | 37 ++++++++++++++++++++++++++++++++---
 2 files changed, 68 insertions(+), 6 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 6b64526..c6d6f78 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -37,6 +37,9 @@
 // Max # of SNR values.
 #define VARL_NUM_MAX        50
 
+// Max # of numbers in permutations.
+#define P_INFO_MAX          10000
+
 //-----------------------------------------------------------------------------
 // Internal typedefs.
 
@@ -101,9 +104,9 @@ cdc_init(
    int c_n = 0, c_k = 0, c_m = 0, c_r = 0;
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
-   int p_info[10000];
+   int p_info[P_INFO_MAX];
    int *inf_coeff = NULL;
-   int p_num = 0;
+   int p_num = 0, p_info_len = 0;
 
    // Allocate decoder instance.
    dd = (cdc_inst_type *)malloc(sizeof(cdc_inst_type));
@@ -150,7 +153,7 @@ cdc_init(
          continue;
       }
       if (strcmp(token, "permutations") == 0) {
-         if (c_m == 0) {
+         if (c_m <= 0) {
             err_msg("cdc_init(): parameters file: RM_m must be specified before permutations.");
             goto ret_err;
          }
@@ -161,6 +164,14 @@ cdc_init(
             p_num = 0;
             while (token[0] != GROUP_CHAR_END) {
                for (i = 0; i < c_m; i++) {
+                  if (i1 >= P_INFO_MAX) {
+                     err_msg("cdc_init(): parameters file: too many permutations.");
+                     goto ret_err;
+                  }
+                  if (token[0] == GROUP_CHAR_END) {
+                     err_msg("cdc_init(): parameters file: incomplete permutation.");
+                     goto ret_err;
+                  }
                   p_info[i1++] = atoi(token);
                   token = strtok(NULL, tk_seps_prepared);
                   if (token == NULL) {
@@ -170,6 +181,7 @@ cdc_init(
                }
                p_num++;
             }
+            p_info_len = i1;
          }
          else {
             err_msg("cdc_init(): parameters file: permutations.");
@@ -237,8 +249,27 @@ cdc_init(
       // (0 1 ... m-1) (no permutation).
       for (i = 0; i < c_m; i++) p_info[i] = i;
       p_num = 1;
+      p_info_len = c_m;
    }
    dd->dc.p_num = p_num;
+   if (p_info_len != p_num * c_m) {
+      err_msg("cdc_init: permutations do not match the code.");
+      goto ret_err;
+   }
+   // Each one must contain all of 0 .. m - 1. They permute the information bits
+   // of the full code only, so a subcode can be decoded only without permutations.
+   for (pn = 0; pn < p_num; pn++) {
+      p1 = p_info + pn * c_m;
+      i1 = 0;
+      for (i = 0; i < c_m; i++) {
+         if ((p1[i] < 0) || (p1[i] >= c_m) || ((p1[i] != i) && (c_k != calc_rm_k(c_m, c_r)))) break;
+         i1 |= 1 << p1[i];
+      }
+      if ((i < c_m) || (i1 != (1 << c_m) - 1)) {
+         err_msg("cdc_init: wrong permutations.");
+         goto ret_err;
+      }
+   }
    if (p_num > 0) {
       dd->dc.pxarr = (int *)malloc(p_num * c_k * sizeof(int));
       dd->dc.pyarr = (int *)malloc(p_num * c_n * sizeof(int));
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 9c7a0ab..c54ba5c 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -40,6 +40,9 @@
 // Max # of SNR values.
 #define VARL_NUM_MAX        50
 
+// Max # of numbers in permutations.
+#define P_INFO_MAX          10000
+
 //-----------------------------------------------------------------------------
 // Internal typedefs.
 
@@ -146,9 +149,9 @@ cdc_init(
    int c_n = 0, c_k = 0, c_m = 0;
    int i, j, i1, i2, pn;
    int *p1, *px, *py;
-   int p_info[10000];
+   int p_info[P_INFO_MAX];
    int *inf_coeff = NULL;
-   int p_num = 0;
+   int p_num = 0, p_info_len = 0;
 
    // Allocate decoder instance.
    dd = (cdc_inst_type *)malloc(sizeof(cdc_inst_type));
@@ -209,7 +212,7 @@ cdc_init(
       }
       if (strcmp(token, "permutations") == 0) {
          // TODO: Permutations that were used for RM codes are not usable with Polar, but let's leave it here for now.
-         if (c_m == 0) {
+         if (c_m <= 0) {
             err_msg("cdc_init(): parameters file: c_m must be specified before permutations.");
             goto ret_err;
          }
@@ -220,6 +223,14 @@ cdc_init(
             p_num = 0;
             while (token[0] != GROUP_CHAR_END) {
                for (i = 0; i < c_m; i++) {
+                  if (i1 >= P_INFO_MAX) {
+                     err_msg("cdc_init(): parameters file: too many permutations.");
+                     goto ret_err;
+                  }
+                  if (token[0] == GROUP_CHAR_END) {
+                     err_msg("cdc_init(): parameters file: incomplete permutation.");
+                     goto ret_err;
+                  }
                   p_info[i1++] = atoi(token);
                   token = strtok(NULL, tk_seps_prepared);
                   if (token == NULL) {
@@ -229,6 +240,7 @@ cdc_init(
                }
                p_num++;
             }
+            p_info_len = i1;
          }
          else {
             err_msg("cdc_init(): parameters file: permutations.");
@@ -282,8 +294,27 @@ cdc_init(
       // (0 1 ... m-1) (no permutation).
       for (i = 0; i < c_m; i++) p_info[i] = i;
       p_num = 1;
+      p_info_len = c_m;
    }
    dd->dc.p_num = p_num;
+   if (p_info_len != p_num * c_m) {
+      err_msg("cdc_init: permutations do not match the code.");
+      goto ret_err;
+   }
+   // Each one must contain all of 0 .. m - 1. They permute the information bits
+   // of the full code only, so a subcode can be decoded only without permutations.
+   for (pn = 0; pn < p_num; pn++) {
+      p1 = p_info + pn * c_m;
+      i1 = 0;
+      for (i = 0; i < c_m; i++) {
+         if ((p1[i] < 0) || (p1[i] >= c_m) || ((p1[i] != i) && (c_k != c_n))) break;
+         i1 |= 1 << p1[i];
+      }
+      if ((i < c_m) || (i1 != (1 << c_m) - 1)) {
+         err_msg("cdc_init: wrong permutations.");
+         goto ret_err;
+      }
+   }
    if (p_num > 0) {
       dd->dc.pxarr = (int *)malloc(p_num * c_k * sizeof(int));
       dd->dc.pyarr = (int *)malloc(p_num * c_n * sizeof(int));
-- 
2.43.0


From 2906e128db5f4a44d03a61d70b3db355009ca70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 33/49] fix: refuse a CRC that leaves no information bits

---
 polar_scl/ca_polar_scl_main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index c54ba5c..76457b2 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -283,6 +283,10 @@ cdc_init(
    }
    dd->c_k = dd->dc.c_k = c_k = get_k_from_node_table(c_n, dd->dc.node_table);
    dd->eff_k = c_k - dd->crc_len;
+   if (dd->eff_k <= 0) {
+      err_msg("cdc_init: No information bits are left by info_bits_mask and ca_polar_crc.");
+      goto ret_err;
+   }
    dd->dc.ret_list = (dd->crc_len > 0) ? 1 : 0;
    for (i = 0; i < dd->dc.node_table_len; i++)
       dd->dc.node_table[i] = (dd->dc.node_table[i] == 0) ? 0 : dd->dc.peak_lsiz;
-- 
2.43.0


From ad984a68216a06d4eb02aca43b8a3b4fb92a2700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 34/49] fix: define the check bits of a CRC longer than the
 information word

---
 polar_scl/ca_polar_scl_main.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 76457b2..5213c41 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -109,12 +109,13 @@ int get_best_in_list(
   else {
     int sum_len = x_len + crc_len;
     int i;
-    int *tmp = (int *)malloc(x_len * sizeof(int));
+    // The check bits start before x when there are more of them (as zeros).
+    int *tmp = (int *)calloc(sum_len, sizeof(int));
     if (tmp == NULL) {
       return -2; // cannot check
     }
     for (i = 0; i < lsiz; i++) {
-      if (is_valid_crc(x + i * sum_len, x_len, crc, crc_len, tmp)) {
+      if (is_valid_crc(x + i * sum_len, x_len, crc, crc_len, tmp + crc_len)) {
         free(tmp);
         return i;
       }
@@ -468,7 +469,7 @@ enc_bpsk(
    dd = (cdc_inst_type *)cdc;
 
    if (dd->crc_len > 0) {
-      x_crc = (int *)malloc(dd->c_k * sizeof(int));
+      x_crc = (int *)calloc(dd->c_k, sizeof(int));
       if (x_crc == NULL) {
          err_msg("enc_bpsk: Short of memory.");
          return RC_ERROR;
-- 
2.43.0


From 81aab518de9384457a61c9a637825d1c8e139c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 35/49] fix: refuse list sizes whose buffers overflow int
 instead of overrunning smaller ones

---
 dtrm_glp/dtrm_glp_main.c      | 14 ++++++++++----
 polar_scl/ca_polar_scl_main.c | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index c6d6f78..57c70e8 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -22,6 +22,7 @@
 // Includes.
 
 #include <stdlib.h>
+#include <limits.h>
 #include <string.h>
 #include "../common/typedefs.h"
 #include "../common/std_defs.h"
@@ -64,9 +65,9 @@ typedef struct {
 //-----------------------------------------------------------------------------
 // Internal functions.
 
-int get_membuf_size(decoder_type *dd) {
-   int flsiz = MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
-   int mem_buf_size = 0;
+size_t get_membuf_size(decoder_type *dd) {
+   size_t flsiz = (size_t)MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
+   size_t mem_buf_size = 0;
 
    mem_buf_size += dd->c_n * sizeof(ylitem); // y_in
    mem_buf_size += flsiz * sizeof(int); // frind
@@ -74,7 +75,7 @@ int get_membuf_size(decoder_type *dd) {
    mem_buf_size += (dd->c_k * flsiz + 1) * sizeof(xlist_item); // xlist
    mem_buf_size += flsiz * sizeof(xlist_item *); // lind2xl
    mem_buf_size += dd->c_m * flsiz * sizeof(ylitem *); // ylist
-   mem_buf_size += dd->c_m * sizeof(ylitem *) + (dd->c_n - 1) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem); // yitems
+   mem_buf_size += dd->c_m * sizeof(ylitem *) + (size_t)(dd->c_n - 1) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem); // yitems
    mem_buf_size += flsiz * sizeof(slitem); // slist
    mem_buf_size += flsiz * sizeof(int); // plist.
    mem_buf_size += dd->c_n * sizeof(xlitem); // xtmp.
@@ -270,6 +271,11 @@ cdc_init(
          goto ret_err;
       }
    }
+   // The decoder uses int for sizes.
+   if (get_membuf_size(&(dd->dc)) > INT_MAX) {
+      err_msg("cdc_init: the list size or the number of permutations is too large.");
+      goto ret_err;
+   }
    if (p_num > 0) {
       dd->dc.pxarr = (int *)malloc(p_num * c_k * sizeof(int));
       dd->dc.pyarr = (int *)malloc(p_num * c_n * sizeof(int));
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index 5213c41..f7bf2a1 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -22,6 +22,7 @@
 // Includes.
 
 #include <stdlib.h>
+#include <limits.h>
 #include <string.h>
 #include "../common/typedefs.h"
 #include "../common/std_defs.h"
@@ -66,9 +67,9 @@ typedef struct {
 //-----------------------------------------------------------------------------
 // Internal functions.
 
-int get_membuf_size(decoder_type *dd) {
-   int flsiz = MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
-   int mem_buf_size = 0;
+size_t get_membuf_size(decoder_type *dd) {
+   size_t flsiz = (size_t)MAX(dd->peak_lsiz, dd->p_num) * FLSIZ_MULT;
+   size_t mem_buf_size = 0;
 
    mem_buf_size += dd->c_n * sizeof(ylitem); // y_in
    mem_buf_size += flsiz * sizeof(int); // frind
@@ -76,7 +77,7 @@ int get_membuf_size(decoder_type *dd) {
    mem_buf_size += (dd->c_k * flsiz + 1) * sizeof(xlist_item); // xlist
    mem_buf_size += flsiz * sizeof(xlist_item *); // lind2xl
    mem_buf_size += dd->c_m * flsiz * sizeof(ylitem *); // ylist
-   mem_buf_size += dd->c_m * sizeof(ylitem *) + (dd->c_n - 1) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem); // yitems
+   mem_buf_size += dd->c_m * sizeof(ylitem *) + (size_t)(dd->c_n - 1) * MAX(dd->peak_lsiz, dd->p_num) * 4 * sizeof(ylitem); // yitems
    mem_buf_size += flsiz * sizeof(slitem); // slist
    mem_buf_size += flsiz * sizeof(int); // plist.
    mem_buf_size += dd->c_n * sizeof(xlitem); // xtmp.
@@ -320,6 +321,11 @@ cdc_init(
          goto ret_err;
       }
    }
+   // The decoder uses int for sizes.
+   if (get_membuf_size(&(dd->dc)) > INT_MAX) {
+      err_msg("cdc_init: the list size or the number of permutations is too large.");
+      goto ret_err;
+   }
    if (p_num > 0) {
       dd->dc.pxarr = (int *)malloc(p_num * c_k * sizeof(int));
       dd->dc.pyarr = (int *)malloc(p_num * c_n * sizeof(int));
-- 
2.43.0


From f4286b72c874e4cbabf6b6380d5fb71a4f38d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 36/49] fix: release the old results file's text when saving
 refuses it

---
 simulators/sim_bg.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 997114b..8dcb315 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -556,7 +556,8 @@ sim_cur_res_str(
 // Update the results file. The caller holds the busy flag.
 static int
 update_res_file(
-  sim_bg_inst *sim // Simulation instance.
+  sim_bg_inst *sim, // Simulation instance.
+  char **old_res // String with the old res file, to be released by the caller (unchanged if there is none).
 ) {
   FILE *fp;
   char tmpfn[FN_LEN_MAX + 8]; // Temporary file name.
@@ -577,6 +578,7 @@ update_res_file(
   n = spf_tryread_preparse(sim->rf_name, &str1);
   if (n == RC_ERROR) return RC_ERROR; // It is there but cannot be read.
   if (n == RC_OK) {
+    (*old_res) = str1;
 
     // Get old data.
     token = strtok(str1, tk_seps_prepared);
@@ -617,7 +619,6 @@ update_res_file(
       if (rc == RC_ERROR) return RC_ERROR;
       SPF_SKIP_UNKNOWN_PARAMETER(token);
     }
-    free(str1);
 
     // Check validity of the data.
     if ((snr_num != trn_n) || (en_bit_n != trn_n) || (en_bl_n != trn_n) || (er_n_n != trn_n)
@@ -756,6 +757,7 @@ sim_save_res(
   sim_bg_inst *sim;
   FILE *fp;
   char bsyfn[FN_LEN_MAX + 8]; // Busy flag file name.
+  char *old_res = NULL;
   int n, rc;
 
   sim = (sim_bg_inst *)inst;
@@ -778,7 +780,8 @@ sim_save_res(
   fprintf(fp, "Busy");
   fclose(fp);
 
-  rc = update_res_file(sim);
+  rc = update_res_file(sim, &old_res);
+  free(old_res);
 
   // Delete busy flag file.
   remove(bsyfn);
-- 
2.43.0


From e8b54e3c7872dea7f0c8a0ab7e4dec6222f9452b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 37/49] fix: loadsrf: refuse more SNR values than it can hold
 instead of dropping them

---
 Octave/loadsrf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Octave/loadsrf.c b/Octave/loadsrf.c
index 455ec79..2cc1470 100644
--- a/Octave/loadsrf.c
+++ b/Octave/loadsrf.c
@@ -43,7 +43,7 @@
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
       } \
-      else { \
+      if ((tk)[0] != GROUP_CHAR_END) { \
          err_msg(erstr); \
       } \
       (n) = i; \
-- 
2.43.0


From 5fcde39c8d67d38c5f65c0b38fb4402dae26d131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 38/49] fix: rho1: no infinite exponents with strong signals

---
 formats/format_rho1.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/formats/format_rho1.h b/formats/format_rho1.h
index 00d1223..19c83cf 100644
--- a/formats/format_rho1.h
+++ b/formats/format_rho1.h
@@ -31,8 +31,9 @@
 #define YLDEC0 1.0
 #define YLDEC1 (-1.0)
 
-#define RHO1LOGP0(e) (-log(1.0 + exp(-(e))))
-#define RHO1LOGP1(e) (-log(1.0 + exp(e)))
+// exp() of a positive argument could be infinite.
+#define RHO1LOGP0(e) (((e) > 0.0) ? -log(1.0 + exp(-(e))) : (e) - log(1.0 + exp(e)))
+#define RHO1LOGP1(e) RHO1LOGP0(-(e))
 
 // True if estimate votes for 0.
 #define CHECK_EST0(y) ((y) > 0.0)
@@ -65,7 +66,9 @@
 // Convert estimate to log likelihood ratio.
 #define EST2LLR(e) (e)
 
-#define XOR_EST(y1, y2) log((1.0 + exp((y1) + (y2))) / (exp(y1) + exp(y2)))
+// log((1.0 + exp(y1 + y2)) / (exp(y1) + exp(y2))) without infinite exp().
+#define XOR_EST(y1, y2) (((fabs(y1) < fabs(y2)) ? (((y2) > 0.0) ? (y1) : -(y1)) : (((y1) > 0.0) ? (y2) : -(y2))) + \
+   log((1.0 + exp(-fabs((y1) + (y2)))) / (1.0 + exp(-fabs((y1) - (y2))))))
 //#define XOR_EST_ZZ(y1, y2) log((1.0 + exp((y1) + (y2))) / (exp(y1) + exp(y2)))
 //#define XOR_EST_PP(y1, y2) ((y1) + (y2))
 //#define XOR_EST_MM(y1, y2) ((y1) + (y2))
-- 
2.43.0


From ff4d154f2becd78465f65d1d1a7dfd17924bf9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 39/49] fix: rho5: no infinite exponents with strong signals

---
 formats/format_rho5.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/formats/format_rho5.h b/formats/format_rho5.h
index a95f835..b61d252 100644
--- a/formats/format_rho5.h
+++ b/formats/format_rho5.h
@@ -38,8 +38,9 @@
 #define YLDEC0 1.0
 #define YLDEC1 (-1.0)
 
-#define RHO2LOGP0(e) (-log(1.0 + exp(-(e))))
-#define RHO2LOGP1(e) (-log(1.0 + exp(e)))
+// exp() of a positive argument could be infinite.
+#define RHO2LOGP0(e) (((e) > 0.0) ? -log(1.0 + exp(-(e))) : (e) - log(1.0 + exp(e)))
+#define RHO2LOGP1(e) RHO2LOGP0(-(e))
 
 // True if estimate votes for 0.
 #define CHECK_EST0(y) ((y) > 0.0)
-- 
2.43.0


From 2afe114ab2905545eaa69032603d990fa36b7ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 40/49] fix: refuse a command line ending in -si or -ri instead
 of crashing

---
 simulators/main_txt.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simulators/main_txt.c b/simulators/main_txt.c
index aa132ff..c165756 100644
--- a/simulators/main_txt.c
+++ b/simulators/main_txt.c
@@ -69,8 +69,13 @@ int main(int argc, char **argv) {
 
    for (i = 2; i < argc; i++) {
       if (strcmp(argv[i], "-nr") == 0) sp.dont_randomize = 1;
+      if ((strcmp(argv[i], "-si") != 0) && (strcmp(argv[i], "-ri") != 0)) continue;
+      if (i + 1 >= argc) {
+         err_msg("No value is given to the last option.");
+         return RC_ERROR;
+      }
       if (strcmp(argv[i], "-si") == 0) save_int = atoi(argv[++i]);
-      if (strcmp(argv[i], "-ri") == 0) sp.ret_int = atoi(argv[++i]);
+      else sp.ret_int = atoi(argv[++i]);
    }
 
 #ifdef WIN32
-- 
2.43.0


From 2f59ed406ca51901b4d7bae605419d67ffb09da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 41/49] fix: README: comments start with %

---
 README.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/README.md b/README.md
index d12850e..f1584cd 100644
--- a/README.md
+++ b/README.md
@@ -46,7 +46,7 @@ Common options are:
 
 These are plain text with the following structure:
 * Empty lines are skipped.
-* Lines starting with `#` are considered to be comments and ignored.
+* Everything from `%` to the end of the line is considered to be a comment and ignored.
 * Each parameter is a key/value pair separated by one or more spaces.
 * Parameter may have a group value surrounded by curly brackets (`{}`).
 * Any parameter with unknown key is ignored. 
-- 
2.43.0


From db45401b8c611c7166034c5dc8efdaba79f4f36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:14 +0000
Subject: [PATCH 42/49] fix: on Windows keep the old results when the new ones
 cannot replace them

---
 simulators/sim_bg.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 8dcb315..756fbfd 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -561,6 +561,9 @@ update_res_file(
 ) {
   FILE *fp;
   char tmpfn[FN_LEN_MAX + 8]; // Temporary file name.
+#ifdef WIN32
+  char oldfn[FN_LEN_MAX + 8]; // Name of the old results file while it is replaced.
+#endif // if WIN32
   char *str1, *token; // For old res file parsing.
   int snr_num = 0;
   double snr_db[SNR_NUM_MAX];
@@ -733,13 +736,23 @@ update_res_file(
     return RC_ERROR;
   }
 #ifdef WIN32
-  remove(sim->rf_name); // There rename() does not replace an existing file.
+  // There rename() does not replace an existing file, so move it away first.
+  strcpy(oldfn, sim->rf_name);
+  strcat(oldfn, ".old");
+  remove(oldfn);
+  rename(sim->rf_name, oldfn);
 #endif // if WIN32
   if (rename(tmpfn, sim->rf_name) != 0) {
     err_msg("sim_bg saving error: cannot replace the results file.");
+#ifdef WIN32
+    rename(oldfn, sim->rf_name); // The old results are still the valid ones.
+#endif // if WIN32
     remove(tmpfn);
     return RC_ERROR;
   }
+#ifdef WIN32
+  remove(oldfn);
+#endif // if WIN32
 
   // Now the current counters are in the file.
   for (i = 0; (i <= sim->csnrn) && (i < sim->snr_num); i++) {
-- 
2.43.0


From f05241a5489877c500021f7444643863438d4f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:45 +0000
Subject: [PATCH 43/49] fix: estimates of the required trials beyond the int
 range do not end an SNR value early

---
 simulators/sim_bg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 756fbfd..b9f8628 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -45,7 +45,7 @@
 // Max # of SNR values.
 #define SNR_NUM_MAX        50
 
-#define MAX_TRIALS_PER_SNR 1e10
+#define MAX_TRIALS_PER_SNR 2e9 // Must fit in int.
 
 // Minimum number of observed block errors to estimate required number of trials.
 #define MIN_EN_FOR_TRN_ESTIMATION 20
-- 
2.43.0


From 0d866da8c8ee1dcadac088816067c54a3c230beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:59 +0000
Subject: [PATCH 44/49] fix: asking for more trials again and again does not
 overflow the request

---
 simulators/sim_bg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index b9f8628..a7c0aeb 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -815,6 +815,7 @@ void sim_control(
 
   switch (ctrl_code) {
     case SIM_CTRL_CUR_MORE :
+      if (sim->trn_req[csnrn] >= MAX_TRIALS_PER_SNR / 1.5) break; // Would not fit in int.
       sim->trn_req[csnrn] += sim->trn_req[csnrn] / 2;
       break;
     case SIM_CTRL_CUR_LESS :
-- 
2.43.0


From 02a18975c6a4158ca3314c92d8dea40189ed5ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:55 +0000
Subject: [PATCH 45/49] fix: parameter and result values that are no numbers or
 switches are refused, not read as 0

---
 Octave/loadsrf.c              |  7 ++++-
 common/spf_par.c              | 53 ++++++++++++++++++++++++++++++++++-
 common/spf_par.h              | 46 ++++++++++++++++++++++++++----
 dtrm_glp/dtrm_glp_main.c      |  4 +--
 polar_scl/ca_polar_scl_main.c |  4 +--
 simulators/sim_bg.c           |  8 ++++--
 6 files changed, 108 insertions(+), 14 deletions(-)

diff --git a/Octave/loadsrf.c b/Octave/loadsrf.c
index 2cc1470..19ea957 100644
--- a/Octave/loadsrf.c
+++ b/Octave/loadsrf.c
@@ -39,7 +39,7 @@
       if ((tk)[0] == GROUP_CHAR_BEGIN) { \
          (tk) = strtok(NULL, tk_seps_prepared); \
          while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
-            (x)[i++] = atof(tk); \
+            if (spf_get_double((tk), (x) + i++) != RC_OK) err_msg(erstr); \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
       } \
@@ -158,4 +158,9 @@ mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
   if (nlhs > 0) {
     plhs[0] = res;
   }
+  return;
+
+ret_err:
+  free(str1);
+  err_msg(err_reading_msg);
 }
\ No newline at end of file
diff --git a/common/spf_par.c b/common/spf_par.c
index 4cf561e..c5bceed 100644
--- a/common/spf_par.c
+++ b/common/spf_par.c
@@ -22,6 +22,8 @@
 // Includes.
 
 #include <errno.h>
+#include <limits.h>
+#include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -37,6 +39,7 @@ char tk_seps_prepared[] = {TOKEN_SEP_CHAR, 0};
 
 char include_token[] = "include";
 char switch_on_token[] = "on";
+char switch_off_token[] = "off";
 
 char code_n_token[] = "code_n";
 char code_k_token[] = "code_k";
@@ -307,6 +310,51 @@ spf_tryread_preparse(
    return spf_read_preparse_ext(spf_name, out_str, 1);
 }
 
+int
+spf_get_double(
+   char tk[], // Token.
+   double *x
+) {
+   char *end;
+   double v = strtod(tk, &end);
+
+   if (end == tk || *end != 0 || strpbrk(tk, "xX") != NULL || !isfinite(v)) {
+      err_msg("A number is expected.");
+      return RC_ERROR;
+   }
+   *x = v;
+   return RC_OK;
+}
+
+int
+spf_get_int(
+   char tk[], // Token.
+   int *x
+) {
+   double v;
+
+   if (spf_get_double(tk, &v) != RC_OK) return RC_ERROR;
+   if (v < INT_MIN || v > INT_MAX || v != (int)v) {
+      err_msg("An integer number is expected.");
+      return RC_ERROR;
+   }
+   *x = (int)v;
+   return RC_OK;
+}
+
+int
+spf_get_onoff(
+   char tk[], // Token.
+   int *x
+) {
+   *x = (!strcmp(tk, switch_on_token)) ? 1 : 0;
+   if (!*x && strcmp(tk, switch_off_token)) {
+      err_msg("\"on\" or \"off\" is expected.");
+      return RC_ERROR;
+   }
+   return RC_OK;
+}
+
 int tryread_group_int_param(
   char **inout_tk,
   char *param_key,
@@ -322,7 +370,10 @@ int tryread_group_int_param(
     if (tk[0] == GROUP_CHAR_BEGIN) {
       tk = strtok(NULL, tk_seps_prepared);
       while ((tk[0] != GROUP_CHAR_END) && (i < max_n)) {
-        *x = atoi(tk);
+        if (spf_get_int(tk, x) != RC_OK) {
+          err_msg(erstr);
+          return RC_ERROR;
+        }
         x = (int *)((unsigned char *)x + step_size);
         tk = strtok(NULL, tk_seps_prepared);
         i++;
diff --git a/common/spf_par.h b/common/spf_par.h
index a27678f..d6eb6e3 100644
--- a/common/spf_par.h
+++ b/common/spf_par.h
@@ -42,28 +42,31 @@
 #define RC_SPF_UNKNOWN (RC_CUSTOM + 1)
 #define RC_SPF_NO_FILE (RC_CUSTOM + 2)
 
+// Goes to ret_err on error.
 #define TRYGET_INT_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      (x) = atoi(tk); \
+      if (spf_get_int((tk), &(x)) != 0) goto ret_err; \
       (tk) = strtok(NULL, tk_seps_prepared); \
       continue; \
    } \
 }
 
+// Goes to ret_err on error.
 #define TRYGET_FLOAT_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      (x) = atof(tk); \
+      if (spf_get_double((tk), &(x)) != 0) goto ret_err; \
       (tk) = strtok(NULL, tk_seps_prepared); \
       continue; \
    } \
 }
 
+// Goes to ret_err on error.
 #define TRYGET_ONOFF_TOKEN(tk, tk_samp, x) { \
    if (strcmp((tk), (tk_samp)) == 0) { \
       (tk) = strtok(NULL, tk_seps_prepared); \
-      (x) = (!strcmp(tk, switch_on_token)) ? 1 : 0; \
+      if (spf_get_onoff((tk), &(x)) != 0) goto ret_err; \
       (tk) = strtok(NULL, tk_seps_prepared); \
       continue; \
    } \
@@ -76,7 +79,10 @@
       if ((tk)[0] == GROUP_CHAR_BEGIN) { \
          (tk) = strtok(NULL, tk_seps_prepared); \
          while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
-            (x)[i++] = atof(tk); \
+            if (spf_get_double((tk), (x) + i++) != 0) { \
+               err_msg(erstr); \
+               return 1; \
+            } \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
       } \
@@ -98,13 +104,13 @@
       if ((tk)[0] == GROUP_CHAR_BEGIN) { \
          (tk) = strtok(NULL, tk_seps_prepared); \
          while (((tk)[0] != GROUP_CHAR_END) && (i < (nmax))) { \
-            (x)[i] = atoi(tk); \
+            if (spf_get_int((tk), (x) + i) != 0) goto ret_err; \
             (tk) = strtok(NULL, tk_seps_prepared); \
             if ((tk)[0] == GROUP_CHAR_END) { \
                err_msg(erstr); \
                goto ret_err; \
             } \
-            (y)[i++] = atof(tk); \
+            if (spf_get_double((tk), (y) + i++) != 0) goto ret_err; \
             (tk) = strtok(NULL, tk_seps_prepared); \
          } \
       } \
@@ -142,6 +148,7 @@ extern char tk_seps_prepared[];
 
 extern char include_token[];
 extern char switch_on_token[];
+extern char switch_off_token[];
 
 extern char code_n_token[];
 extern char code_k_token[];
@@ -195,6 +202,33 @@ int spf_tryread_preparse(
    char **out_str // Simulation parameters string.
 );
 
+/**
+ * Get an integer value. Gives an error message if there is something else.
+ * @return RC_OK / RC_ERROR
+ */
+int spf_get_int(
+   char tk[], // Token.
+   int *x
+);
+
+/**
+ * Get a floating point value. Gives an error message if there is something else.
+ * @return RC_OK / RC_ERROR
+ */
+int spf_get_double(
+   char tk[], // Token.
+   double *x
+);
+
+/**
+ * Get a boolean value. Gives an error message if there is something else.
+ * @return RC_OK / RC_ERROR
+ */
+int spf_get_onoff(
+   char tk[], // Token.
+   int *x
+);
+
 /**
  * Try to read a group int parameter.
  * @return RC_OK / RC_SPF_UNKNOWN / RC_ERROR
diff --git a/dtrm_glp/dtrm_glp_main.c b/dtrm_glp/dtrm_glp_main.c
index 57c70e8..456bf81 100644
--- a/dtrm_glp/dtrm_glp_main.c
+++ b/dtrm_glp/dtrm_glp_main.c
@@ -149,7 +149,7 @@ cdc_init(
       }
       if (strcmp(token, "border_node_lsize") == 0) {
          token = strtok(NULL, tk_seps_prepared);
-         dd->dc.peak_lsiz = atoi(token);
+         if (spf_get_int(token, &dd->dc.peak_lsiz) != RC_OK) goto ret_err;
          token = strtok(NULL, tk_seps_prepared);
          continue;
       }
@@ -173,7 +173,7 @@ cdc_init(
                      err_msg("cdc_init(): parameters file: incomplete permutation.");
                      goto ret_err;
                   }
-                  p_info[i1++] = atoi(token);
+                  if (spf_get_int(token, &p_info[i1++]) != RC_OK) goto ret_err;
                   token = strtok(NULL, tk_seps_prepared);
                   if (token == NULL) {
                      err_msg("cdc_init(): parameters file: permutations.");
diff --git a/polar_scl/ca_polar_scl_main.c b/polar_scl/ca_polar_scl_main.c
index f7bf2a1..c39d5dc 100644
--- a/polar_scl/ca_polar_scl_main.c
+++ b/polar_scl/ca_polar_scl_main.c
@@ -208,7 +208,7 @@ cdc_init(
       }
       if (strcmp(token, "list_size") == 0) {
          token = strtok(NULL, tk_seps_prepared);
-         dd->dc.peak_lsiz = atoi(token);
+         if (spf_get_int(token, &dd->dc.peak_lsiz) != RC_OK) goto ret_err;
          token = strtok(NULL, tk_seps_prepared);
          continue;
       }
@@ -233,7 +233,7 @@ cdc_init(
                      err_msg("cdc_init(): parameters file: incomplete permutation.");
                      goto ret_err;
                   }
-                  p_info[i1++] = atoi(token);
+                  if (spf_get_int(token, &p_info[i1++]) != RC_OK) goto ret_err;
                   token = strtok(NULL, tk_seps_prepared);
                   if (token == NULL) {
                      err_msg("cdc_init(): parameters file: permutations.");
diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index a7c0aeb..067d6c7 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -237,13 +237,13 @@ int sim_init(
         if (token[0] == GROUP_CHAR_BEGIN) {
           token = strtok(NULL, tk_seps_prepared);
           while ((token[0] != GROUP_CHAR_END) && (i < SNR_NUM_MAX)) {
-            sim->snr_db[i] = atof(token);
+            if (spf_get_double(token, &sim->snr_db[i]) != RC_OK) goto ret_err;
             token = strtok(NULL, tk_seps_prepared);
             if (token[0] == GROUP_CHAR_END) {
               err_msg("sim_bg init error: SNR_val_trn: no trials number after the last SNR value.");
               return RC_ERROR;
             }
-            sim->trn_req[i++] = atoi(token);
+            if (spf_get_int(token, &sim->trn_req[i++]) != RC_OK) goto ret_err;
             token = strtok(NULL, tk_seps_prepared);
           }
         }
@@ -317,6 +317,10 @@ int sim_init(
   (*inst) = sim;
 
   return RC_OK;
+
+ret_err:
+  err_msg("sim_bg init error: invalid parameter value.");
+  return RC_ERROR;
 }
 
 // Delete simulation instance.
-- 
2.43.0


From a5f481724a8e44103717692f75d7a0a72f7ffeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:16 +0000
Subject: [PATCH 46/49] fix: SNR values and rates for which there is no noise
 level are refused

---
 simulators/sim_bg.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 067d6c7..cd83fc3 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -299,6 +299,16 @@ int sim_init(
     return RC_ERROR;
   }
 
+  // Check that there is a noise level for each SNR.
+  for (int i = 0; i < sim->snr_num; i++) {
+    double R = sim->fixedR ? sim->fixedR : (double)sim->code_k / sim->code_n;
+    double sg = 1 / sqrt(2 * R * db2val(sim->snr_db[i]));
+    if (!(sg > 0.0) || !isfinite(sg)) {
+      err_msg("sim_bg init error: there is no noise level for an SNR value or fixed_R.");
+      return RC_ERROR;
+    }
+  }
+
   // Assign other settings and init counters in the simulation instance.
   for (int i = 0; i < sim->snr_num; i++) {
     if (sim->trn_req[i] < 1) {
-- 
2.43.0


From 4ee4f7c3a3a9f03289fab5b2aa94e3b921d061a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:17 +0000
Subject: [PATCH 47/49] fix: save and return intervals that are no integers are
 refused

---
 simulators/main_txt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simulators/main_txt.c b/simulators/main_txt.c
index c165756..bba2105 100644
--- a/simulators/main_txt.c
+++ b/simulators/main_txt.c
@@ -29,6 +29,7 @@
 #include <string.h>
 #include <time.h>
 #include "../common/std_defs.h"
+#include "../common/spf_par.h"
 #include "../interfaces/ui_utils.h"
 #include "../interfaces/simul.h"
 
@@ -74,8 +75,8 @@ int main(int argc, char **argv) {
          err_msg("No value is given to the last option.");
          return RC_ERROR;
       }
-      if (strcmp(argv[i], "-si") == 0) save_int = atoi(argv[++i]);
-      else sp.ret_int = atoi(argv[++i]);
+      if (spf_get_int(argv[i + 1], (strcmp(argv[i], "-si") == 0) ? &save_int : &sp.ret_int) != RC_OK) return RC_ERROR;
+      i++;
    }
 
 #ifdef WIN32
-- 
2.43.0


From 33fb6702597eae876e473f3fbe78802089ad25fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:13 +0000
Subject: [PATCH 48/49] fix: a save whose totals do not fit in the counters is
 refused, not wrapped around

---
 simulators/sim_bg.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index cd83fc3..16bc874 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -28,6 +28,7 @@
 // Includes.
 
 #include <errno.h>
+#include <limits.h>
 #include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -168,13 +169,20 @@ void copy_sim_point(sim_point *dst, sim_point *src) {
   memcpy(dst, src, sizeof(sim_point));
 }
 
-void add_sim_points(sim_point *dst, sim_point *src1, sim_point *src2) {
-  dst->trn = src1->trn + src2->trn;
-  dst->en_bit = src1->en_bit + src2->en_bit;
-  dst->en_bl = src1->en_bl + src2->en_bl;
-  dst->er_n = src1->er_n + src2->er_n;
-  dst->trn_ml = src1->trn_ml + src2->trn_ml;
-  dst->enml_bl = src1->enml_bl + src2->enml_bl;
+static int add_counters(int *dst, int src1, int src2) {
+  if ((src2 > 0) && (src1 > INT_MAX - src2)) return RC_ERROR;
+  (*dst) = src1 + src2;
+  return RC_OK;
+}
+
+// Return: RC_OK, RC_ERROR - a counter would be too big.
+int add_sim_points(sim_point *dst, sim_point *src1, sim_point *src2) {
+  if (add_counters(&dst->trn, src1->trn, src2->trn) != RC_OK) return RC_ERROR;
+  if (add_counters(&dst->en_bit, src1->en_bit, src2->en_bit) != RC_OK) return RC_ERROR;
+  if (add_counters(&dst->en_bl, src1->en_bl, src2->en_bl) != RC_OK) return RC_ERROR;
+  if (add_counters(&dst->er_n, src1->er_n, src2->er_n) != RC_OK) return RC_ERROR;
+  if (add_counters(&dst->trn_ml, src1->trn_ml, src2->trn_ml) != RC_OK) return RC_ERROR;
+  return add_counters(&dst->enml_bl, src1->enml_bl, src2->enml_bl);
 }
 
 void sub_sim_points(sim_point *dst, sim_point *src1, sim_point *src2) {
@@ -672,7 +680,10 @@ update_res_file(
     // Update at n.
     sim_point tmppt;
     sub_sim_points(&tmppt, &sim->pt[i], &sim->pt_saved[i]);
-    add_sim_points(&pt_file[n], &pt_file[n], &tmppt);
+    if (add_sim_points(&pt_file[n], &pt_file[n], &tmppt) != RC_OK) {
+      err_msg("sim_bg saving error: a counter in the results file would be too big.");
+      return RC_ERROR;
+    }
   }
   snrs_to_save = snr_num;
 
-- 
2.43.0


From 3bcc493e32a787ee2950adc95a8128758dd2665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:24 +0000
Subject: [PATCH 49/49] fix: SNR values of more than 15 digits do not get a new
 entry at every save

---
 simulators/sim_bg.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/simulators/sim_bg.c b/simulators/sim_bg.c
index 16bc874..2d17ca4 100644
--- a/simulators/sim_bg.c
+++ b/simulators/sim_bg.c
@@ -701,7 +701,13 @@ update_res_file(
   fprintf(fp, "code_n %d\ncode_k %d\n\n", sim->code_n, sim->code_k);
 
   fprintf(fp, "SNR { ");
-  for (n = 0; n < snrs_to_save; n++) fprintf(fp, "%.15g ", snr_db[n]);
+  for (n = 0; n < snrs_to_save; n++) {
+    // The value must be the same when it is read back.
+    char snr_str[32];
+    sprintf(snr_str, "%.15g", snr_db[n]);
+    if (strtod(snr_str, NULL) != snr_db[n]) sprintf(snr_str, "%.17g", snr_db[n]);
+    fprintf(fp, "%s ", snr_str);
+  }
   fprintf(fp, "}\n");
 
   fprintf(fp, "%s { ", tr_num_token);
-- 
2.43.0

