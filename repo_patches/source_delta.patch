From 8e2da8db6f852fc3af98171fb9860aa759cffcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 001/116] fix: check field bounds before testing schedule bits

---
 database.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/database.c b/database.c
index 1762e61..9205535 100644
--- a/database.c
+++ b/database.c
@@ -946,8 +946,8 @@ move_time_to(int where, cl_t *line, struct tm *ftime)
         else {
             do
                 ftime->tm_min++;
-            while (bit_test(line->cl_mins, ftime->tm_min)
-                   && (ftime->tm_min < 60));
+            while ((ftime->tm_min < 60)
+                   && bit_test(line->cl_mins, ftime->tm_min));
         }
         if (ftime->tm_min >= 60) {
             ftime->tm_min = 0;
@@ -1092,7 +1092,7 @@ set_next_exe(cl_t *line, char option, int info_fd)
             move_time_to(BEGIN_NEXT_PERIOD, line, &ftime);
 
  setMonth:
-        for (i = ftime.tm_mon; (bit_test(line->cl_mons, i) == 0) && (i < 12);
+        for (i = ftime.tm_mon; (i < 12) && (bit_test(line->cl_mons, i) == 0);
              i++) ;
         if (i >= 12) {
             ftime.tm_year++;
@@ -1130,7 +1130,7 @@ set_next_exe(cl_t *line, char option, int info_fd)
  setDay:
         if (is_dayand(line->cl_option)) {
             for (i = ftime.tm_mday;
-                 (bit_test(line->cl_days, i) == 0) && (i <= max); i++) ;
+                 (i <= max) && (bit_test(line->cl_days, i) == 0); i++) ;
             if (i > max) {
                 ftime.tm_mon++;
                 if (has_changed < 2) {
@@ -1199,7 +1199,7 @@ set_next_exe(cl_t *line, char option, int info_fd)
         }
 
  setHour:
-        for (i = ftime.tm_hour; (bit_test(line->cl_hrs, i) == 0) && (i < 24);
+        for (i = ftime.tm_hour; (i < 24) && (bit_test(line->cl_hrs, i) == 0);
              i++) ;
         if (i >= 24) {
             ftime.tm_mday++;
@@ -1218,7 +1218,7 @@ set_next_exe(cl_t *line, char option, int info_fd)
         }
 
 
-        for (i = ftime.tm_min; (bit_test(line->cl_mins, i) == 0) && (i < 60);
+        for (i = ftime.tm_min; (i < 60) && (bit_test(line->cl_mins, i) == 0);
              i++) ;
         if (i >= 60) {
             ftime.tm_hour++;
-- 
2.43.0


From 408aca177c405be854237f263c9f1480b29884f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 002/116] fix: do not use the job's SHELL value after it has
 been freed

---
 job.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/job.c b/job.c
index ef8b653..8cb89dc 100644
--- a/job.c
+++ b/job.c
@@ -225,9 +225,12 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
 
             myshell = shell;
         }
+        /* take a copy: myshell may point into the entry that we overwrite */
+        myshell = strdup2(myshell);
         env_list_setenv(env_list, "SHELL", myshell, 1);
         if (curshell != NULL)
             *curshell = strdup2(myshell);
+        Free_safe(myshell);
 
         *jobenv = env_list_export_envp(env_list);
 
-- 
2.43.0


From f7df08230b27dde2724239bb06fbeabcf3632f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 003/116] fix: dayor lines must not be scheduled on days the
 month does not have

---
 database.c | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/database.c b/database.c
index 9205535..2272e7e 100644
--- a/database.c
+++ b/database.c
@@ -1169,24 +1169,23 @@ set_next_exe(cl_t *line, char option, int info_fd)
 
             j = ftime.tm_wday;
             i = ftime.tm_mday;
-            while ((bit_test(line->cl_days, i) == 0) &&
+            while ((i <= max) && (bit_test(line->cl_days, i) == 0) &&
                    (bit_test(line->cl_dow, j) == 0)) {
-                if (i > max) {
-                    ftime.tm_mon++;
-                    if (has_changed < 2) {
-                        has_changed = 2;
-                        ftime.tm_mday = 1;
-                        ftime.tm_hour = 0;
-                        ftime.tm_min = 0;
-                    }
-                    else
-                        ftime.tm_mday = 1;
-                    goto setMonth;
-                }
-                if (j >= 7)
-                    j -= 7;
                 i++;
-                j++;
+                if (++j >= 7)
+                    j = 0;
+            }
+            if (i > max) {
+                ftime.tm_mon++;
+                if (has_changed < 2) {
+                    has_changed = 2;
+                    ftime.tm_mday = 1;
+                    ftime.tm_hour = 0;
+                    ftime.tm_min = 0;
+                }
+                else
+                    ftime.tm_mday = 1;
+                goto setMonth;
             }
             if (ftime.tm_mday != i) {
                 ftime.tm_mday = i;
-- 
2.43.0


From 51a7e3d7a24a0ab1d4b7ef165d507d865dda6a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 004/116] fix: month names were off by one (jan was outside the
 field)

---
 fileconf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index f6855a3..7d902ab 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1833,7 +1833,8 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
 
         for (i = 0; names[i]; ++i)
             if (strncmp(ptr, names[i], strlen(names[i])) == 0) {
-                *num = i;
+                /* months are numbered from 1, days of week from 0 */
+                *num = (names == mons_ary) ? i + 1 : i;
                 ptr += strlen(names[i]);
                 return ptr;
                 break;
-- 
2.43.0


From 06ac539709b95644779536071aa1befa3c096dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 005/116] fix: reject empty, malformed and too big numbers in
 fcrontabs

---
 fileconf.c | 48 +++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 7d902ab..45758f5 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1847,35 +1847,45 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
     }
     else {
 
-        while (isdigit((int)*ptr) || *ptr == '.') {
+        /* there must be a number */
+        if (!isdigit((int)*ptr)) {
+            need_correction = 1;
+            return NULL;
+        }
+
+        while (isdigit((int)*ptr) && *num <= max) {
+            *num *= 10;
+            *num += *ptr - 48;
+            ptr++;
+        }
 
-            if (*ptr == '.' && ptr++ && i++ > 0)
+        if (*ptr == '.') {
+            ptr++;
+            if (!isdigit((int)*ptr)) {
+                need_correction = 1;
                 return NULL;
-            if (i > 0 && --decimal < 0) {
-                /* the decimal number is exceeded : we round off,
-                 * skip the other decimals and return */
-                if (*ptr >= '5')
-                    *num += 1;
-                while (isdigit((int)*(++ptr))) ;
-                ptr--;
             }
-            else {
+            for (; decimal > 0 && isdigit((int)*ptr) && *num <= max; decimal--) {
                 *num *= 10;
                 *num += *ptr - 48;
+                ptr++;
             }
+            /* the decimal number is exceeded : we round off,
+             * and skip the other decimals */
+            if (isdigit((int)*ptr) && *ptr >= '5')
+                *num += 1;
+            while (isdigit((int)*ptr))
+                ptr++;
+        }
 
-            if (*num > max) {
-                need_correction = 1;
-                return NULL;
-            }
-
-            ptr++;
+        for (; decimal > 0 && *num <= max; decimal--)
+            *num *= 10;
 
+        if (*num > max) {
+            need_correction = 1;
+            return NULL;
         }
 
-        if (decimal > 0)
-            *num *= 10 * decimal;
-
     }
 
     return ptr;
-- 
2.43.0


From 66dee27ebdbb218e7e56f994eca9ab3b444ea71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 006/116] fix: refuse month 0, which was written before the
 field

---
 fileconf.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 45758f5..9183e96 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1927,7 +1927,10 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
                 /* this number is part of the month field.
                  * user set it from 1 to 12, but we manage it internally
                  * as a number from 0 to 11 : we remove 1 to start */
-                start -= 1;
+                if (--start < 0) {
+                    need_correction = 1;
+                    return NULL;
+                }
 
             if (*ptr == ',' || *ptr == ' ' || *ptr == '\t') {
                 /* this is a single number : set up array and continue */
@@ -1948,7 +1951,10 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
                     /* this number is part of the month field.
                      * user set it from 1 to 12, but we manage it internally
                      * as a number from 0 to 11 : we remove 1 to stop */
-                    stop -= 1;
+                    if (--stop < 0) {
+                        need_correction = 1;
+                        return NULL;
+                    }
             }
             else {
                 /* syntax error */
@@ -1994,7 +2000,10 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
                 /* this number is part of the month field.
                  * user set it from 1 to 12, but we manage it internally
                  * as a number from 0 to 11 : we remove 1 to rm */
-                rm -= 1;
+                if (--rm < 0) {
+                    need_correction = 1;
+                    return NULL;
+                }
 
             if (debug_opt)
                 fprintf(stderr, " ~%d", rm);
-- 
2.43.0


From 68327ad3c135c515a74b694db0d75b4f237cdaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 007/116] fix: a range of one value (5-5) is that value, not
 the whole field

---
 fileconf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 9183e96..76d769a 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1977,7 +1977,7 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
         if (debug_opt)
             fprintf(stderr, " %d-%d/%d", start, stop, step);
 
-        if (start < stop)
+        if (start <= stop)
             for (i = start; i <= stop; i += step)
                 bit_set(ary, i);
         else {
-- 
2.43.0


From daf7582db76cd9908b9a05b8d4db619c38ac632d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 008/116] fix: report a correction is needed for every invalid
 field

---
 fileconf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fileconf.c b/fileconf.c
index 76d769a..c988138 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1570,6 +1570,7 @@ read_freq(char *ptr, cf_t *cf)
           fprintf(stderr, "\n"); \
       fprintf(stderr, "%s:%d: Error while reading " DESCRP " field: " \
              "skipping line.\n", file_name, line); \
+      need_correction = 1; \
       Free_safe(cl); \
       return; \
   }
-- 
2.43.0


From d572f4a6ed5dc216fa76dcf7af306f3bf78b59c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 009/116] fix: a valid runas() was ignored after any earlier
 error in the file

---
 fileconf.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index c988138..3ce19d8 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1032,6 +1032,7 @@ read_opt(char *ptr, cl_t *cl)
         else if (strcmp(opt_name, "runas") == 0) {
             int len = -1;
             char *runas = NULL;
+            char runas_error = 0;
             struct passwd *pas;
 
             if (!in_brackets) {
@@ -1049,20 +1050,21 @@ read_opt(char *ptr, cl_t *cl)
             if (getuid() != rootuid) {
                 fprintf(stderr, "must be privileged to use option runas: "
                         "skipping option\n");
-                need_correction = 1;
+                runas_error = 1;
             }
             else if (len > USER_NAME_LEN) {
                 fprintf(stderr, "runas: user name \"%s\" longer than %d"
                         "characters: skipping option\n", runas, USER_NAME_LEN);
-                need_correction = 1;
+                runas_error = 1;
             }
             else if ((pas = getpwnam(runas)) == NULL) {
                 fprintf(stderr, "runas: \"%s\" is not in passwd file : "
                         "ignored", runas);
-                need_correction = 1;
+                runas_error = 1;
             }
 
-            if (need_correction) {
+            if (runas_error) {
+                need_correction = 1;
                 Free_safe(runas);
             }
             else {
-- 
2.43.0


From bbaad97bafb352b4f2ea4e6ffd7c699a22096bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 010/116] fix: terminate long option and shortcut names

---
 fileconf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 3ce19d8..dc69dd1 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -533,7 +533,7 @@ read_opt(char *ptr, cl_t *cl)
         i = 0;
         bzero(opt_name, sizeof(opt_name));
 
-        while (isalnum((int)*ptr) && i < sizeof(opt_name))
+        while (isalnum((int)*ptr) && i < sizeof(opt_name) - 1)
             opt_name[i++] = *ptr++;
 
         i = 1;
@@ -1321,7 +1321,7 @@ read_word(char *ptr, char *buf, size_t buf_size)
 
     bzero(buf, buf_size);
 
-    while (isalnum((int)*ptr) && i < buf_size)
+    while (isalnum((int)*ptr) && i < buf_size - 1)
         buf[i++] = *ptr++;
 
     return ptr;
-- 
2.43.0


From 5f6c74844234f6d24fcd787ca2d678768b889873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 011/116] fix: report unknown options of %-lines

---
 fileconf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index dc69dd1..350db4a 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1197,6 +1197,11 @@ read_opt(char *ptr, cl_t *cl)
                 if (debug_opt)
                     fprintf(stderr, "  Opt : \"%s\"\n", opt_name);
             }
+            else {
+                fprintf(stderr, "%s:%d: Option \"%s\" unknown: "
+                        "skipping option.\n", file_name, line, opt_name);
+                need_correction = 1;
+            }
         }
 
         else {
-- 
2.43.0


From 20ecd463fd3851b9c3d728229eccead28996a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 012/116] fix: honour a global first(), and let reset keep the
 kind of line

---
 fileconf.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 350db4a..84c78db 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -164,6 +164,7 @@ init_default_line(cl_t *cl, cf_t *cf)
 /* clear all context/options from cl */
 {
     bzero(cl, sizeof(cl_t));
+    cl->cl_first = -1;          /* 0 is a valid value, so we have to use -1 to detect unset */
     Set(cl->cl_runas, runas);
     Set(cl->cl_mailto, runas);
     Free_safe(cl->cl_tz);
@@ -702,7 +703,11 @@ read_opt(char *ptr, cl_t *cl)
             if (in_brackets && (ptr = get_bool(ptr, &i)) == NULL)
                 Handle_err;
             if (i == 1) {
+                /* a %-line remains a %-line */
+                unsigned short runfreq = (cl->cl_runfreq == 1) ? 1 : 0;
+
                 init_default_line(cl, cl->cl_file);
+                cl->cl_runfreq = runfreq;
             }
             if (debug_opt)
                 fprintf(stderr, "  Opt : \"%s\"\n", opt_name);
@@ -1491,8 +1496,6 @@ read_freq(char *ptr, cf_t *cf)
 
     cl = dups_cl(&default_line);
 
-    cl->cl_first = -1;          /* 0 is a valid value, so we have to use -1 to detect unset */
-
     /* skip the @ */
     ptr++;
 
-- 
2.43.0


From db65cb1310d348b5d80941245255beafa99ce4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 013/116] fix: refuse time values which overflow

---
 fileconf.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 84c78db..1a6d243 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1234,14 +1234,22 @@ get_time(char *ptr, time_t *time, int zero_allowed)
     /* convert time read in string in time_t format */
 {
     time_t sum;
+    time_t mult;
+    /* stay far from overflows: such values are added to the current time */
+    const time_t max = TIME_T_MAX / 4;
 
     *time = 0;
 
     while ((*ptr != ' ') && (*ptr != '\t') && (*ptr != '\0') && (*ptr != ')')) {
 
         sum = 0;
+        mult = 1;
 
         while (isdigit((int)*ptr)) {
+            if (sum > max / 10) {
+                need_correction = 1;
+                return NULL;
+            }
             sum *= 10;
             sum += *ptr - 48;
             ptr++;
@@ -1250,27 +1258,32 @@ get_time(char *ptr, time_t *time, int zero_allowed)
         /* interpret multipliers */
         switch (*ptr) {
         case 'm':              /* months */
-            sum *= 4;
+            mult *= 4;
         case 'w':              /* weeks */
-            sum *= 7;
+            mult *= 7;
         case 'd':              /* days */
-            sum *= 24;
+            mult *= 24;
         case 'h':              /* hours */
-            sum *= 3600;
+            mult *= 3600;
         case 's':              /* seconds */
             ptr++;
             break;
         case ' ':
         case '\t':
         case ')':
-            sum *= 60;          /* minutes */
+            mult *= 60;         /* minutes */
             break;
         default:
             need_correction = 1;
             return NULL;
         }
 
-        *time += sum;
+        if (sum > (max - *time) / mult) {
+            need_correction = 1;
+            return NULL;
+        }
+
+        *time += sum * mult;
 
     }
 
-- 
2.43.0


From a1d3ac934f8d51cf2e7513a17e0809ee9d48817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 014/116] fix: keep the order of the serial queue when it grows

---
 database.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database.c b/database.c
index 2272e7e..6b86799 100644
--- a/database.c
+++ b/database.c
@@ -417,9 +417,9 @@ add_serial_job(cl_t *line, int info_fd)
                 alloc_safe(serial_array_size * sizeof(cl_t *), "serial_array");
 
             /* copy lines in order to have the first line at the index 0 */
-            memcpy(ptr + serial_array_index, serial_array,
+            memcpy(ptr, serial_array + serial_array_index,
                    (sizeof(cl_t *) * (old_size - serial_array_index)));
-            memcpy(ptr, serial_array + (old_size - serial_array_index),
+            memcpy(ptr + (old_size - serial_array_index), serial_array,
                    (sizeof(cl_t *) * serial_array_index));
             serial_array_index = 0;
             Free_safe(serial_array);
-- 
2.43.0


From eabbc8bf7dfe1522c95585bdf3252d72f19c739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 015/116] fix: apply the maximum length of the serial queue at
 any length

It was only looked at when the array was full, so a queuelen which is not
a multiple of the array's growth was not honoured.
---
 database.c | 54 ++++++++++++++++++++++++++----------------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/database.c b/database.c
index 6b86799..4d2a677 100644
--- a/database.c
+++ b/database.c
@@ -396,35 +396,33 @@ add_serial_job(cl_t *line, int info_fd)
     send_msg_fd_debug(info_fd, "inserting in serial queue '%s'",
                       line->cl_shell);
 
+    if (serial_num >= serial_queue_max) {
+        error_fd(info_fd, "Could not add job : serial queue is full "
+                 "(%d jobs). Consider using option serialonce, fcron's "
+                 "option -m and/or -q : '%s'", serial_queue_max,
+                 line->cl_shell);
+        if (is_notice_notrun(line->cl_option))
+            mail_notrun(line, QUEUE_FULL, NULL);
+        return;
+    }
+
     if (serial_num >= serial_array_size) {
-        if (serial_num >= serial_queue_max) {
-            error_fd(info_fd, "Could not add job : serial queue is full "
-                     "(%d jobs). Consider using option serialonce, fcron's "
-                     "option -m and/or -q : '%s'", serial_queue_max,
-                     line->cl_shell);
-            if (is_notice_notrun(line->cl_option))
-                mail_notrun(line, QUEUE_FULL, NULL);
-            return;
-        }
-        else {
-            cl_t **ptr = NULL;
-            short int old_size = serial_array_size;
-
-            debug("Resizing serial_array");
-            serial_array_size = (serial_array_size + SERIAL_GROW_SIZE);
-
-            ptr =
-                alloc_safe(serial_array_size * sizeof(cl_t *), "serial_array");
-
-            /* copy lines in order to have the first line at the index 0 */
-            memcpy(ptr, serial_array + serial_array_index,
-                   (sizeof(cl_t *) * (old_size - serial_array_index)));
-            memcpy(ptr + (old_size - serial_array_index), serial_array,
-                   (sizeof(cl_t *) * serial_array_index));
-            serial_array_index = 0;
-            Free_safe(serial_array);
-            serial_array = ptr;
-        }
+        cl_t **ptr = NULL;
+        short int old_size = serial_array_size;
+
+        debug("Resizing serial_array");
+        serial_array_size = (serial_array_size + SERIAL_GROW_SIZE);
+
+        ptr = alloc_safe(serial_array_size * sizeof(cl_t *), "serial_array");
+
+        /* copy lines in order to have the first line at the index 0 */
+        memcpy(ptr, serial_array + serial_array_index,
+               (sizeof(cl_t *) * (old_size - serial_array_index)));
+        memcpy(ptr + (old_size - serial_array_index), serial_array,
+               (sizeof(cl_t *) * serial_array_index));
+        serial_array_index = 0;
+        Free_safe(serial_array);
+        serial_array = ptr;
     }
 
     if ((i = serial_array_index + serial_num) >= serial_array_size)
-- 
2.43.0


From 9f8ef7493fb66168abac5e681023f55b0e9a76f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 016/116] fix: never hold more entries in a list than its
 maximum

A maximum lower than the initial size of the array was ignored (fcron -q).
---
 u_list.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/u_list.c b/u_list.c
index 4f991ea..bcf3db0 100644
--- a/u_list.c
+++ b/u_list.c
@@ -151,6 +151,9 @@ u_list_add(u_list_t *l, u_list_entry_t *e)
     if (l == NULL || e == NULL)
         die("Invalid arguments for u_list_add(): list=%d, entry=%d", l, e);
 
+    if (l->max_entries > 0 && l->num_entries >= l->max_entries)
+        return NULL;
+
     /* Check there is some space left, or resize the array */
     if (l->num_entries >= l->array_size) {
         /* no more space: attempt to grow (the following function dies on error: */
-- 
2.43.0


From a5894282bb47366c946b0215931400fd830d225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 017/116] fix: count each run of a serial job once, from its
 start to its end

The slots of serial and lavg-serial jobs were released according to the
options of the line when a job ended. Slots were lost, or released too
early, when a fork failed, on a reload of all files, when a bootrun job was
queued twice, and when the file of a running job was replaced.
---
 conf.c     | 11 ++-----
 database.c | 87 ++++++++++++++++++++++++++++--------------------------
 exe_list.c |  2 +-
 exe_list.h |  2 ++
 4 files changed, 50 insertions(+), 52 deletions(-)

diff --git a/conf.c b/conf.c
index 4b09624..1fd9a9f 100644
--- a/conf.c
+++ b/conf.c
@@ -916,15 +916,8 @@ delete_file(const char *user_name)
             if (e->e_line != NULL && e->e_line->cl_file == file) {
                 /* we set the e_line to NULL, as so we know in wait_chld()
                  * and wait_all() the corresponding file has been removed.
-                 * Plus, we decrement serial_running and lavg_serial_running
-                 * as we won't be able to do it at the end of the job */
-                if ((is_serial(e->e_line->cl_option) ||
-                     is_serial_once(e->e_line->cl_option)) &&
-                    !is_lavg(e->e_line->cl_option))
-                    serial_running--;
-                else if (is_serial(e->e_line->cl_option) &&
-                         is_lavg(e->e_line->cl_option))
-                    lavg_serial_running--;
+                 * (the job goes on and keeps its place in serial_running or
+                 * lavg_serial_running until it ends) */
                 e->e_line = NULL;
             }
 
diff --git a/database.c b/database.c
index 4d2a677..a038b42 100644
--- a/database.c
+++ b/database.c
@@ -38,7 +38,8 @@ void move_time_to(int where, cl_t * line, struct tm *ftime);
 #define END_OF_INTERVAL 12      /* move_time_to()'s where possible value */
 void run_serial_job(void);
 void run_lavg_job(lavg_t * l);
-void run_queue_job(cl_t * line);
+void run_queue_job(cl_t * line, short int *running);
+void end_of_run(exe_t * e);
 int is_loop_in_queue(void);
 
 
@@ -181,7 +182,7 @@ run_normal_job(cl_t *line, int info_fd)
     if (line->cl_numexe <= 0 ||
         (is_exe_sev(line->cl_option) && line->cl_numexe < UCHAR_MAX)) {
         line->cl_numexe += 1;
-        run_queue_job(line);
+        run_queue_job(line, NULL);
         send_msg_fd(info_fd, "Job '%s' started.", line->cl_shell);
     }
     else {
@@ -196,10 +197,8 @@ void
 run_lavg_job(lavg_t *l)
 {
 
-    run_queue_job(l->l_line);
-
-    if (is_serial(l->l_line->cl_option))
-        lavg_serial_running++;
+    run_queue_job(l->l_line, is_serial(l->l_line->cl_option) ?
+                  &lavg_serial_running : NULL);
 
 }
 
@@ -215,24 +214,25 @@ run_serial_job(void)
     debug("num: %d running:%d  index:%d", serial_num, serial_running,
           serial_array_index);
     if (serial_num != 0) {
-        run_queue_job(serial_array[serial_array_index]);
-        serial_array[serial_array_index] = NULL;
+        cl_t *line = serial_array[serial_array_index];
 
-        serial_running++;
+        serial_array[serial_array_index] = NULL;
         if (++serial_array_index >= serial_array_size)
             serial_array_index -= serial_array_size;
         serial_num--;
 
+        run_queue_job(line, &serial_running);
+
     }
 }
 
 
 void
-run_queue_job(cl_t *line)
-    /* run a job */
+run_queue_job(cl_t *line, short int *running)
+    /* run a job, and count it in running if not NULL until it ends */
 {
 
-    exe_t e = { NULL, 0, 0 };
+    exe_t e = { NULL, 0, 0, NULL };
 
 /*      // */
 /*      debug("run_queue_job"); */
@@ -243,12 +243,35 @@ run_queue_job(cl_t *line)
     /* run the job */
     if (run_job(&e) == OK) {
         /* append job to the list of executed job */
+        if (running != NULL) {
+            e.e_running = running;
+            *running += 1;
+        }
         exe_list_add(exe_list, &e);
         line->cl_file->cf_running += 1;
     }
+    else {
+        /* the job does not run: nobody will tell us that it ended */
+        line->cl_numexe -= 1;
+        clear_serial_once(line->cl_option);
+    }
 
 }
 
+void
+end_of_run(exe_t *e)
+    /* update the counters when a run has ended */
+{
+    if (e->e_line != NULL) {
+        e->e_line->cl_numexe -= 1;
+        e->e_line->cl_file->cf_running -= 1;
+        clear_serial_once(e->e_line->cl_option);
+    }
+    /* (the file of the line may have been removed from memory meanwhile) */
+    if (e->e_running != NULL)
+        *(e->e_running) -= 1;
+}
+
 int
 is_loop_in_queue(void)
     /* Check that we don't have a loop in the queue_base list.
@@ -382,7 +405,7 @@ void
 add_serial_job(cl_t *line, int info_fd)
     /* add the next queued job in serial queue */
 {
-    short int i;
+    int i;
 
     /* check if the line is already in the serial queue 
      * (we consider serial jobs currently running as in the queue) */
@@ -549,7 +572,6 @@ wait_chld(void)
   /* wait_chld() - check for job completion */
 {
     int pid;
-    cl_t *line = NULL;
     exe_t *e = NULL;
 
 /*      // */
@@ -566,27 +588,11 @@ wait_chld(void)
                     /* the corresponding file has been removed from memory */
                     debug("Child exited: pid %d", pid);
                 }
-                else {
-
-                    line = e->e_line;
-                    debug("Child exited (pid %d): %s", pid, line->cl_shell);
-                    line->cl_numexe -= 1;
-                    line->cl_file->cf_running -= 1;
+                else
+                    debug("Child exited (pid %d): %s", pid,
+                          e->e_line->cl_shell);
 
-                    if (is_serial_once(line->cl_option)) {
-                        clear_serial_once(line->cl_option);
-                        if (--serial_running < serial_max_running)
-                            run_serial_job();
-                    }
-                    else if (is_serial(line->cl_option)
-                             && !is_lavg(line->cl_option)) {
-                        if (--serial_running < serial_max_running)
-                            run_serial_job();
-                    }
-                    else if (is_lavg(line->cl_option)
-                             && is_serial(line->cl_option))
-                        lavg_serial_running--;
-                }
+                end_of_run(e);
 
                 exe_list_remove_cur(exe_list);
                 exe_list_end_iteration(exe_list);
@@ -596,6 +602,9 @@ wait_chld(void)
 
     }
 
+    while (serial_num > 0 && serial_running < serial_max_running)
+        run_serial_job();
+
 }
 
 
@@ -616,16 +625,10 @@ wait_all(int *counter)
                     /* the corresponding file has been removed from memory */
                     debug("Job finished: pid %d", pid);
                 }
-                else {
-
+                else
                     debug("Job finished: '%s'", e->e_line->cl_shell);
-                    e->e_line->cl_numexe -= 1;
-                    e->e_line->cl_file->cf_running -= 1;
-
-                    if (is_serial_once(e->e_line->cl_option))
-                        clear_serial_once(e->e_line->cl_option);
 
-                }
+                end_of_run(e);
 
                 exe_list_remove_cur(exe_list);
                 exe_list_end_iteration(exe_list);
diff --git a/exe_list.c b/exe_list.c
index 9e4ce53..a711fac 100644
--- a/exe_list.c
+++ b/exe_list.c
@@ -41,7 +41,7 @@ exe_list_init(void)
 exe_t *
 exe_list_add_line(exe_list_t *list, struct cl_t *line)
 {
-    exe_t e = { NULL, 0, 0 };
+    exe_t e = { NULL, 0, 0, NULL };
     e.e_line = line;            /* ANSI C does not allow us to directly replace NULL by line above */
 
     return (exe_t *) u_list_add((u_list_t *) list, (u_list_entry_t *) & e);
diff --git a/exe_list.h b/exe_list.h
index 6356bbb..953402a 100644
--- a/exe_list.h
+++ b/exe_list.h
@@ -37,6 +37,8 @@ typedef struct exe_t {
     struct cl_t *e_line;
     pid_t e_ctrl_pid;           /* pid of the fcron process controling the job */
     pid_t e_job_pid;            /* pid of the job itself */
+    short int *e_running;       /* counter of running (lavg-)serial jobs in which
+                                 * this run is counted, or NULL */
 } exe_t;
 
 typedef struct u_list_t exe_list_t;
-- 
2.43.0


From 34d1564de3b703d07592f9738d18c348c58cb6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 018/116] fix: close the pipe when a job cannot be forked

---
 job.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/job.c b/job.c
index 8cb89dc..0a71258 100644
--- a/job.c
+++ b/job.c
@@ -559,6 +559,10 @@ run_job(struct exe_t *exeent)
     switch (pid = fork()) {
     case -1:
         error_e("Fork error : could not exec '%s'", line->cl_shell);
+        if (pipe_pid_fd[0] != -1) {
+            xclose_check(&(pipe_pid_fd[0]), "pipe_pid_fd[0]");
+            xclose_check(&(pipe_pid_fd[1]), "pipe_pid_fd[1]");
+        }
         return ERR;
         break;
 
-- 
2.43.0


From 981dc574028dccb99f3e50597b36752f0ba3bfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:36 +0000
Subject: [PATCH 019/116] fix: record the pid of the mailer so that its entry
 is removed when it ends

---
 database.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index a038b42..dab836b 100644
--- a/database.c
+++ b/database.c
@@ -1685,7 +1685,12 @@ mail_notrun(cl_t *line, char context, struct tm *since)
 
         /* create an entry in exe_list */
         /* set line to NULL as this is not a line ... */
-        exe_list_add_line(exe_list, NULL);
+        {
+            exe_t e = { NULL, 0, 0, NULL };
+
+            e.e_ctrl_pid = pid;
+            exe_list_add(exe_list, &e);
+        }
         return;
     }
 
-- 
2.43.0


From 2383fc4f1629f9cbbb87a7b7c89eb04af17f9442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:36 +0000
Subject: [PATCH 020/116] fix: a lavg %-line with strict(false) and no until()
 must wait for the load

---
 database.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/database.c b/database.c
index dab836b..deb9940 100644
--- a/database.c
+++ b/database.c
@@ -1791,8 +1791,7 @@ check_lavg(time_t lim)
     /* first, check if some lines must be executed because of until */
     for (l = lavg_list_first(lavg_list); l != NULL;
          l = lavg_list_next(lavg_list))
-        if ((l->l_line->cl_until > 0 || l->l_line->cl_runfreq == 1)
-            && l->l_until < now) {
+        if (l->l_until > 0 && l->l_until < now) {
             if (!is_run_if_late(l->l_line->cl_option)) {
                 if (!is_nolog(l->l_line->cl_option))
                     explain("Interval of execution exceeded : '%s' (not run)",
-- 
2.43.0


From 3b817f19b58a47ea876bd3cded24f9e7027f1f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 021/116] fix: do not lose a signal which comes while the
 previous one is handled

---
 fcron.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fcron.c b/fcron.c
index 0be2604..5993e2c 100644
--- a/fcron.c
+++ b/fcron.c
@@ -779,8 +779,9 @@ check_signal()
     /* Action any received signals. */
 {
     if (sig_chld == true) {
-        wait_chld();
+        /* reset the flag first: a signal may come while we handle this one */
         sig_chld = false;
+        wait_chld();
         reinstall_signal_handler(SIGCHLD, sigchld_handler);
     }
 
@@ -793,22 +794,22 @@ check_signal()
 
     if (sig_hup == true) {
         /* update configuration */
-        synchronize_dir(".", 0);
         sig_hup = false;
+        synchronize_dir(".", 0);
         reinstall_signal_handler(SIGHUP, sighup_handler);
     }
     if (sig_usr1 == true) {
         /* reload all configuration */
-        reload_all(".");
         sig_usr1 = false;
+        reload_all(".");
         reinstall_signal_handler(SIGUSR1, sigusr1_handler);
     }
 
     if (sig_usr2 == true) {
+        sig_usr2 = false;
         print_schedule();
         debug_opt = (debug_opt > 0) ? 0 : 1;
         explain("debug_opt = %d", debug_opt);
-        sig_usr2 = false;
         reinstall_signal_handler(SIGUSR2, sigusr2_handler);
     }
 
-- 
2.43.0


From 720b1b42f460c60c4fe4a9a26f2aa9891adfe78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:57 +0000
Subject: [PATCH 022/116] fix: act at once on a signal which comes just before
 the daemon sleeps

Such a signal was only looked at when the daemon woke up for another reason,
up to half an hour later; and the wake-up time was not recomputed after a
signal which came during the work of the main loop.
---
 fcron.c  | 23 ++++++++++++++++++++---
 select.c | 12 +++++++++---
 select.h |  5 ++++-
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/fcron.c b/fcron.c
index 5993e2c..a893fa0 100644
--- a/fcron.c
+++ b/fcron.c
@@ -850,6 +850,16 @@ main_loop()
     struct select_instance main_select;
     struct timeval now_tv;      /* we use usec field to get more precision */
     struct timeval sleep_tv;    /* we use usec field to get more precision */
+    sigset_t blocked_mask, orig_mask;
+
+    /* signals which must end our sleep */
+    sigemptyset(&blocked_mask);
+    sigaddset(&blocked_mask, SIGTERM);
+    sigaddset(&blocked_mask, SIGHUP);
+    sigaddset(&blocked_mask, SIGCHLD);
+    sigaddset(&blocked_mask, SIGUSR1);
+    sigaddset(&blocked_mask, SIGUSR2);
+    sigaddset(&blocked_mask, SIGCONT);
 #endif
 
     debug("Entering main loop");
@@ -915,7 +925,16 @@ main_loop()
         }
         debug("nwt=%s, sleep sec=%ld, usec=%ld", ctime(&nwt), sleep_tv.tv_sec,
               sleep_tv.tv_usec);
-        select_call(&main_select, &sleep_tv);
+
+        /* a signal received after we last looked must not wait until we wake
+         * up: only let them in once we are really sleeping */
+        sigprocmask(SIG_BLOCK, &blocked_mask, &orig_mask);
+        if (sig_chld || sig_term || sig_hup || sig_usr1 || sig_usr2) {
+            sleep_tv.tv_sec = 0;
+            sleep_tv.tv_usec = 0;
+        }
+        select_call(&main_select, &sleep_tv, &orig_mask);
+        sigprocmask(SIG_SETMASK, &orig_mask, NULL);
 #else                           /* HAVE_GETTIMEOFDAY */
         if (nwt - now > 0) {
             sleep(nwt - now);
@@ -959,8 +978,6 @@ main_loop()
         debug_print_tstamp("    after check_lavg");
         debug("next wake time : %s", ctime(&nwt));
 
-        check_signal();
-
     }
 
 }
diff --git a/select.c b/select.c
index e62fef0..52434b1 100644
--- a/select.c
+++ b/select.c
@@ -68,13 +68,19 @@ select_rm_read(select_instance *si, int fd)
 }
 
 void
-select_call(struct select_instance *si, struct timeval *timeout)
-    /* call select for instance 'si' */
+select_call(struct select_instance *si, struct timeval *timeout,
+            const sigset_t *sigmask)
+    /* call select for instance 'si', with the signal mask sigmask while we wait */
 {
+    struct timespec ts;
+
     /* re-initialize readfds -- select() will change it */
     si->readfds = si->__readfds_master;
 
-    si->retcode = select(si->__fd_max + 1, &si->readfds, NULL, NULL, timeout);
+    ts.tv_sec = timeout->tv_sec;
+    ts.tv_nsec = timeout->tv_usec * 1000;
+    si->retcode =
+        pselect(si->__fd_max + 1, &si->readfds, NULL, NULL, &ts, sigmask);
     if (si->retcode < 0 && errno != EINTR) {
         die_e("select returned %d", errno);
     }
diff --git a/select.h b/select.h
index ace522c..66d6ae3 100644
--- a/select.h
+++ b/select.h
@@ -28,6 +28,8 @@
 
 #include "config.h"
 
+#include <signal.h>
+
 #ifdef HAVE_SYS_SELECT_H
 #include <sys/select.h>
 #endif
@@ -49,6 +51,7 @@ typedef struct select_instance {
 extern void select_init(struct select_instance *si);
 extern void select_add_read(select_instance * si, int fd);
 extern void select_rm_read(select_instance * si, int fd);
-extern void select_call(struct select_instance *si, struct timeval *timeout);
+extern void select_call(struct select_instance *si, struct timeval *timeout,
+                        const sigset_t * sigmask);
 
 #endif                          /* __SELECT_H__ */
-- 
2.43.0


From 9185ef210171e2b892a582cd4c81fd7563d9919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:57 +0000
Subject: [PATCH 023/116] fix: keep listening to all descriptors when the
 highest one is removed

---
 select.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/select.c b/select.c
index 52434b1..59313be 100644
--- a/select.c
+++ b/select.c
@@ -58,11 +58,10 @@ select_rm_read(select_instance *si, int fd)
     if (fd >= si->__fd_max) {
         /* fds in the fd_set may not be continuous, so we need
          * to check them all to find the new max */
-        int i;
-        for (i = fd; i >= 0; i--) {
-            if (FD_ISSET(i, &si->__readfds_master))
-                si->__fd_max = i;
-        }
+        int i = fd;
+        while (i >= 0 && !FD_ISSET(i, &si->__readfds_master))
+            i--;
+        si->__fd_max = i;
     }
     debug("select: removed fd %d (fd_max=%d)", fd, si->__fd_max);
 }
-- 
2.43.0


From a783769f0267f8807a3b8cebb117bc89453092cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:57 +0000
Subject: [PATCH 024/116] fix: report since when a job has not run, not when it
 will run next

---
 database.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/database.c b/database.c
index deb9940..247f692 100644
--- a/database.c
+++ b/database.c
@@ -1647,12 +1647,12 @@ mail_notrun_time_t(cl_t *line, char context, time_t since_time_t)
     struct tm since;
     int tz_changed = 0;
 
-    since2 = localtime(&line->cl_nextexe);
-    memcpy(&since, since2, sizeof(since));
-
     tz_changed = switch_timezone(orig_tz_envvar, line->cl_tz);
 
-    mail_notrun(line, SYSDOWN, &since);
+    since2 = localtime(&since_time_t);
+    memcpy(&since, since2, sizeof(since));
+
+    mail_notrun(line, context, &since);
 
     if (tz_changed > 0)
         switch_back_timezone(orig_tz_envvar);
-- 
2.43.0


From e10500593df73ae518137a5ac1126d676a281584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 025/116] fix: a change of tzdiff shifts the schedule by hours,
 not seconds

---
 conf.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/conf.c b/conf.c
index 1fd9a9f..1196e9c 100644
--- a/conf.c
+++ b/conf.c
@@ -279,14 +279,18 @@ synchronize_file(char *file_name, int is_system_startup)
 
                         if (new_l->cl_runfreq == old_l->cl_runfreq)
                             new_l->cl_remain = old_l->cl_remain;
-                        /* check if there is a change about the tz diff */
-                        if ((new_l->cl_file->cf_tzdiff !=
-                             old_l->cl_file->cf_tzdiff) &&
-                            (old_l->cl_nextexe - old_l->cl_file->cf_tzdiff
-                             + new_l->cl_file->cf_tzdiff > now))
-                            new_l->cl_nextexe = old_l->cl_nextexe
-                                - old_l->cl_file->cf_tzdiff +
-                                new_l->cl_file->cf_tzdiff;
+                        /* check if there is a change about the tz diff
+                         * (which does not matter for lines based on up time) */
+                        if (is_td(new_l->cl_option) &&
+                            new_l->cl_file->cf_tzdiff !=
+                            old_l->cl_file->cf_tzdiff) {
+                            time_t shifted = old_l->cl_nextexe +
+                                (new_l->cl_file->cf_tzdiff -
+                                 old_l->cl_file->cf_tzdiff) * 3600;
+
+                            if (shifted > now)
+                                new_l->cl_nextexe = shifted;
+                        }
                         else
                             new_l->cl_nextexe = old_l->cl_nextexe;
 
-- 
2.43.0


From 9b297a769b1d3837991cc5d60488e72d2a96159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 026/116] fix: keep the next execution of a replaced line only
 if its schedule is the same

---
 conf.c | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/conf.c b/conf.c
index 1196e9c..1968dac 100644
--- a/conf.c
+++ b/conf.c
@@ -202,6 +202,37 @@ synchronize_dir(const char *dir_name, int is_system_startup)
 }
 
 
+static int
+is_same_period(struct cl_t *a, struct cl_t *b)
+    /* return 1 if two time and date lines are of the same kind: two &-lines,
+     * or two %-lines which are to run once in the same kind of period */
+{
+    if (a->cl_runfreq != 1 && b->cl_runfreq != 1)
+        return 1;
+
+    return (a->cl_runfreq == b->cl_runfreq
+            && !is_freq_mins(a->cl_option) == !is_freq_mins(b->cl_option)
+            && !is_freq_hrs(a->cl_option) == !is_freq_hrs(b->cl_option)
+            && !is_freq_days(a->cl_option) == !is_freq_days(b->cl_option)
+            && !is_freq_mons(a->cl_option) == !is_freq_mons(b->cl_option)
+            && !is_freq_dow(a->cl_option) == !is_freq_dow(b->cl_option)
+            && !is_freq_periodically(a->cl_option) ==
+            !is_freq_periodically(b->cl_option)
+            && !is_freq_mid(a->cl_option) == !is_freq_mid(b->cl_option));
+}
+
+
+static int
+is_same_tz(struct cl_t *a, struct cl_t *b)
+    /* return 1 if two lines are defined in the same time zone */
+{
+    if (a->cl_tz == NULL || b->cl_tz == NULL)
+        return (a->cl_tz == b->cl_tz);
+
+    return (strcmp(a->cl_tz, b->cl_tz) == 0);
+}
+
+
 void
 synchronize_file(char *file_name, int is_system_startup)
 {
@@ -274,7 +305,9 @@ synchronize_file(char *file_name, int is_system_startup)
                                 && memcmp(&(new_l->cl_mins), &(old_l->cl_mins),
                                           size) == 0
                                 && is_dayor(new_l->cl_option) ==
-                                is_dayor(old_l->cl_option))
+                                is_dayor(old_l->cl_option)
+                                && is_same_period(new_l, old_l)
+                                && is_same_tz(new_l, old_l))
                         )) {
 
                         if (new_l->cl_runfreq == old_l->cl_runfreq)
-- 
2.43.0


From 8b115b90b840e68c7c4eeafab32cf29f3f55e22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 027/116] fix: do not run again jobs which ended while the
 daemon was stopping

---
 fcron.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fcron.c b/fcron.c
index a893fa0..27ec011 100644
--- a/fcron.c
+++ b/fcron.c
@@ -219,8 +219,10 @@ xexit(int exit_value)
             debug("waiting jobs for %s ...", f->cf_user);
             /* */
             wait_all(&f->cf_running);
-            save_file(f);
         }
+        /* (the jobs of this file may also have ended while we were waiting for
+         * the ones of another file) */
+        save_file(f);
         delete_file(f->cf_user);
 
         /* delete_file remove the f file from the list :
-- 
2.43.0


From 11f00a650b5584efdeaa9c655efe5396bfcb48b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 028/116] fix: lavg jobs left in the queue when the daemon
 stopped were lost by default

---
 database.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 247f692..5e430eb 100644
--- a/database.c
+++ b/database.c
@@ -1455,8 +1455,12 @@ set_next_exe_startup(struct cl_t *cl, const int context,
 
         cl->cl_numexe = 0;
         if (is_lavg(cl->cl_option)) {
-            if (!is_strict(cl->cl_option))
+            if (cl->cl_runfreq != 1 || !is_strict(cl->cl_option))
                 add_lavg_job(cl, -1);
+            else
+                /* strict %-line: queue it again if we are still in its interval
+                 * of execution */
+                cl->cl_nextexe = 0;
         }
         else if (is_serial(cl->cl_option)
                  || is_serial_once(cl->cl_option))
-- 
2.43.0


From 0785ca90e5bd993e7a96d81195b6a80054daeca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 029/116] fix: check the load for the jobs left in the queue
 soon after the start

---
 fcron.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcron.c b/fcron.c
index 27ec011..2c606f6 100644
--- a/fcron.c
+++ b/fcron.c
@@ -881,7 +881,7 @@ main_loop()
     /* synchronize save with jobs execution */
     save = now + save_time;
 
-    if (serial_num > 0 || once) {
+    if (serial_num > 0 || lavg_list->num_entries > 0 || once) {
         nwt = now + first_sleep;
     }
     else {
-- 
2.43.0


From 24887ee159f509a19ca024a1434878bdaa8fcbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 030/116] fix: take the length of February from the right year

---
 database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 5e430eb..d953d27 100644
--- a/database.c
+++ b/database.c
@@ -726,7 +726,7 @@ goto_beginning_next_period_periodical(cl_t *line, struct tm *ftime)
 
 
     /* number of days in ftime's month */
-    max = get_nb_mdays(ftime->tm_year, ftime->tm_mon);
+    max = get_nb_mdays((ftime->tm_year + 1900), ftime->tm_mon);
 
     /* STEP 1: find the beginning of the next period without ensuring
      * there is no overflow (min>=60, hour>=24, etc) */
-- 
2.43.0


From f370195e36b9211acb5fed8e2abddc6c08a5d6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:02 +0000
Subject: [PATCH 031/116] fix: do not look for bits beyond the end of a bit
 string

---
 bitstring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitstring.h b/bitstring.h
index 24007bc..8f374f4 100644
--- a/bitstring.h
+++ b/bitstring.h
@@ -97,7 +97,7 @@ typedef unsigned char bitstr_t;
 #define	bit_ffc(name, nbits, value) { \
 	register bitstr_t *_name = name; \
 	register int _byte, _nbits = nbits; \
-	register int _stopbyte = _bit_byte(_nbits), _value = -1; \
+	register int _stopbyte = _bit_byte(_nbits - 1), _value = -1; \
 	for (_byte = 0; _byte <= _stopbyte; ++_byte) \
 		if (_name[_byte] != 0xff) { \
 			_value = _byte << 3; \
@@ -112,7 +112,7 @@ typedef unsigned char bitstr_t;
 #define	bit_ffs(name, nbits, value) { \
 	register bitstr_t *_name = name; \
 	register int _byte, _nbits = nbits; \
-	register int _stopbyte = _bit_byte(_nbits), _value = -1; \
+	register int _stopbyte = _bit_byte(_nbits - 1), _value = -1; \
 	for (_byte = 0; _byte <= _stopbyte; ++_byte) \
 		if (_name[_byte]) { \
 			_value = _byte << 3; \
-- 
2.43.0


From 6a3b020edc4c7b6703391032e13722716bd2b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:02 +0000
Subject: [PATCH 032/116] fix: refuse %-lines without intervals also when the
 days are 1-31

---
 fileconf.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 1a6d243..47d0ef8 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1787,8 +1787,9 @@ read_period(char *ptr, cf_t *cf)
                 goto ok;
         }
         if (!is_freq_days(cl->cl_option)) {
-            bit_ffc(cl->cl_days, s_days, &j);
-            if (j != -1 && j < s_days) {
+            /* the first day of a month is 1: bit 0 is meaningless */
+            for (j = 1; j < s_days && bit_test(cl->cl_days, j); j++) ;
+            if (j < s_days) {
                 if (is_dayand(cl->cl_option))
                     goto ok;
                 else {
-- 
2.43.0


From 5ec2d7b23abef8d0311881133c02af9a1c26250f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:02 +0000
Subject: [PATCH 033/116] fix: a %-line run in the last minute of its period
 skipped the next period

---
 database.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/database.c b/database.c
index d953d27..fc11b2c 100644
--- a/database.c
+++ b/database.c
@@ -1083,15 +1083,17 @@ set_next_exe(cl_t *line, char option, int info_fd)
 
         /* to prevent multiple execution of &-jobs in the same minute
          * (but not if the user has explicitely asked to run jobs immediately) */
-        if (first_sleep > 0 || option == STD || line->cl_runfreq != 1) {
+        if (line->cl_runfreq == 1 && option != NO_GOTO && option != NO_GOTO_LOG) {
+            /* %-line: go to next period (from the current minute, as the next
+             * one may already be in the next period) */
+            ftime.tm_sec = 0;
+            move_time_to(BEGIN_NEXT_PERIOD, line, &ftime);
+        }
+        else if (first_sleep > 0 || option == STD || line->cl_runfreq != 1) {
             ftime.tm_min += 1;
             ftime.tm_sec = 0;
         }
 
-        if (line->cl_runfreq == 1 && option != NO_GOTO && option != NO_GOTO_LOG)
-            /* %-line: go to next period */
-            move_time_to(BEGIN_NEXT_PERIOD, line, &ftime);
-
  setMonth:
         for (i = ftime.tm_mon; (i < 12) && (bit_test(line->cl_mons, i) == 0);
              i++) ;
-- 
2.43.0


From 0075822964c4ce927f51043180ee1f50d4b8e640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:07 +0000
Subject: [PATCH 034/116] fix: there is no day 32 in the bit string of the days

---
 fileconf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 47d0ef8..a75e77c 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1738,7 +1738,7 @@ read_period(char *ptr, cf_t *cf)
     if (remain-- > 0) {
     R_field(ptr, cl->cl_days, 31, NULL, "days")}
     else
-        bit_nset(cl->cl_days, 1, 32);
+        bit_nset(cl->cl_days, 1, 31);
     /* month are defined by user from 1 to 12 : max is 12 */
     if (remain-- > 0) {
     R_field(ptr, cl->cl_mons, 12, mons_ary, "months")}
-- 
2.43.0


From 838cf744a2836eab295097c1c2ead09b7ca8fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 035/116] fix: run an @-line which was overdue when the daemon
 stopped, do not delay it once more

---
 database.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/database.c b/database.c
index fc11b2c..31d80ea 100644
--- a/database.c
+++ b/database.c
@@ -1604,12 +1604,16 @@ set_next_exe_startup(struct cl_t *cl, const int context,
             }
         }
         else {
-            if (cl->cl_nextexe != LONG_MAX) {
+            if (cl->cl_nextexe < TIME_T_MAX) {
                 cl->cl_nextexe += sleep_duration;
 
-                if (cl->cl_nextexe < now && context == CONTEXT_RESUME) {
+                if (cl->cl_nextexe < now
+                    && (context == CONTEXT_RESUME
+                        || cl->cl_nextexe >= now - cl->cl_timefreq)) {
                     /* userland processes including fcron may not run for a short
-                     * time before suspend, or after resume, so we can end up in this situation.
+                     * time before suspend, or after resume, and fcron may stop
+                     * before it has run the jobs due at its start,
+                     * so we can end up in this situation.
                      * it's not really an error though, and it's best to simply run that job now */
                     cl->cl_nextexe = now;
                 }
-- 
2.43.0


From 73701428bf67f40e822a1eb05e76cd044dd7cf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 036/116] fix: @reboot and @resume lines ran when they were
 installed

---
 database.c | 3 ++-
 fileconf.c | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/database.c b/database.c
index 31d80ea..012038e 100644
--- a/database.c
+++ b/database.c
@@ -1627,7 +1627,8 @@ set_next_exe_startup(struct cl_t *cl, const int context,
                          cl->cl_shell, now, cl->cl_timefreq, cl->cl_nextexe);
                     error
                         ("Setting cl_nextexe to now+cl_timefreq to prevent an infinite loop.");
-                    cl->cl_nextexe = now + cl->cl_timefreq;
+                    cl->cl_nextexe = (cl->cl_timefreq < TIME_T_MAX - now) ?
+                        now + cl->cl_timefreq : TIME_T_MAX;
                     error("next execution will now be at %ld.", cl->cl_nextexe);
                 }
             }
diff --git a/fileconf.c b/fileconf.c
index a75e77c..4a0cb88 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1377,7 +1377,8 @@ read_shortcut(char *ptr, cf_t *cf)
         set_runonce(cl->cl_option);
         clear_volatile(cl->cl_option);
         cl->cl_runfreq = 0;
-        cl->cl_first = 0;
+        /* do not run when the fcrontab is installed */
+        cl->cl_first = LONG_MAX;
         /* the job will not be rescheduled after the first execution (flag is_hasrun),
          * we set timefreq to LONG_MAX just in case */
         cl->cl_timefreq = LONG_MAX;
@@ -1391,7 +1392,8 @@ read_shortcut(char *ptr, cf_t *cf)
         set_runonce(cl->cl_option);
         clear_volatile(cl->cl_option);
         cl->cl_runfreq = 0;
-        cl->cl_first = 0;
+        /* do not run when the fcrontab is installed */
+        cl->cl_first = LONG_MAX;
         /* the job will not be rescheduled after the first execution (flag is_hasrun),
          * we set timefreq to LONG_MAX just in case */
         cl->cl_timefreq = LONG_MAX;
-- 
2.43.0


From 0fa5c5c397d1c489619fd3a7ae830128df4c23c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 037/116] fix: a runatreboot line which ran when the daemon was
 killed never ran again

---
 database.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/database.c b/database.c
index 012038e..ac87423 100644
--- a/database.c
+++ b/database.c
@@ -1452,11 +1452,12 @@ set_next_exe_startup(struct cl_t *cl, const int context,
      * - runatreboot has higher priority than jobs that were still running
      *   when fcron stopped, because the former will get run quicker as they are not
      *   put into the serial queue. runatreboot jobs will be handled later on. */
-    if (context != CONTEXT_RESUME && cl->cl_numexe > 0
-        && !is_runatreboot(cl->cl_option)) {
+    if (context != CONTEXT_RESUME && cl->cl_numexe > 0) {
 
         cl->cl_numexe = 0;
-        if (is_lavg(cl->cl_option)) {
+        if (context == CONTEXT_BOOT && is_runatreboot(cl->cl_option))
+            /* will be run below */ ;
+        else if (is_lavg(cl->cl_option)) {
             if (cl->cl_runfreq != 1 || !is_strict(cl->cl_option))
                 add_lavg_job(cl, -1);
             else
-- 
2.43.0


From bdac85b5e6d69877208b860b00b60ba629f7420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 038/116] fix: runatreboot lines with noticenotrun reported
 runs which were not missed

---
 database.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index ac87423..9b2fb48 100644
--- a/database.c
+++ b/database.c
@@ -1495,7 +1495,9 @@ set_next_exe_startup(struct cl_t *cl, const int context,
         if ((context == CONTEXT_BOOT && is_runatreboot(cl->cl_option))
             || (context == CONTEXT_RESUME && is_runatresume(cl->cl_option))) {
 
-            if (is_notice_notrun(cl->cl_option)) {
+            if (is_notice_notrun(cl->cl_option) && cl->cl_nextexe != 0
+                && cl->cl_nextexe <= now) {
+                /* an execution has been missed (this is not a new line) */
 
                 if (cl->cl_runfreq == 1) {
                     /* %-line */
-- 
2.43.0


From 1e6a48488322f85ba784140dd35016550946fc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 039/116] fix: jobs whose mail header is longer than 32 kB were
 mailed though they wrote nothing

---
 job.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/job.c b/job.c
index 0a71258..2e095fe 100644
--- a/job.c
+++ b/job.c
@@ -30,7 +30,7 @@
 
 
 void sig_dfl(void);
-void end_job(cl_t * line, int status, FILE * mailf, short mailpos,
+void end_job(cl_t * line, int status, FILE * mailf, long mailpos,
              char **sendmailenv);
 void end_mailer(cl_t * line, int status);
 #ifdef HAVE_LIBPAM
@@ -580,7 +580,7 @@ run_job(struct exe_t *exeent)
             int status = 0;
             int to_stdout = foreground && is_stdout(line->cl_option);
             int pipe_fd[2];
-            short int mailpos = 0;      /* 'empty mail file' size */
+            long mailpos = 0;   /* 'empty mail file' size */
 #ifdef WITH_SELINUX
             int flask_enabled = is_selinux_enabled();
 #endif
@@ -792,7 +792,7 @@ run_job(struct exe_t *exeent)
 }
 
 void
-end_job(cl_t *line, int status, FILE *mailf, short mailpos, char **sendmailenv)
+end_job(cl_t *line, int status, FILE *mailf, long mailpos, char **sendmailenv)
     /* if task have made some output, mail it to user */
 {
 
-- 
2.43.0


From 521dd8c5d0b6e4327f431ec2fb5b8febc4641180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 040/116] fix: the output of a job was mailed without what
 follows a NUL byte on a line

---
 job.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/job.c b/job.c
index 2e095fe..886cb77 100644
--- a/job.c
+++ b/job.c
@@ -718,15 +718,17 @@ run_job(struct exe_t *exeent)
                 if (!to_stdout && is_mail(line->cl_option)) {
                     /* user wants a mail : we use the pipe */
                     char mailbuf[TERM_LEN];
+                    size_t len = 0;
                     FILE *pipef = fdopen(pipe_fd[0], "r");
 
                     if (pipef == NULL)
                         die_e("Could not fdopen() pipe_fd[0]");
 
-                    mailbuf[sizeof(mailbuf) - 1] = '\0';
-                    while (fgets(mailbuf, sizeof(mailbuf), pipef) != NULL)
-                        if (fputs(mailbuf, mailf) < 0)
-                            warn("fputs() failed to write to mail file for job '%s' (pid %d)", line->cl_shell, pid);
+                    /* (the output may contain any byte, including '\0') */
+                    while ((len = fread(mailbuf, 1, sizeof(mailbuf), pipef)) >
+                           0)
+                        if (fwrite(mailbuf, 1, len, mailf) != len)
+                            warn("fwrite() failed to write to mail file for job '%s' (pid %d)", line->cl_shell, pid);
                     /* (closes also pipe_fd[0]): */
                     xfclose_check(&pipef, "child's pipef");
                 }
-- 
2.43.0


From 8d8ee89f1c25bcf1ae654932917fed22723daa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 041/116] fix: the timer descriptor of the daemon was left open
 in the jobs and mailers

---
 suspend.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/suspend.c b/suspend.c
index 6ec3858..9c9834a 100644
--- a/suspend.c
+++ b/suspend.c
@@ -225,7 +225,7 @@ init_suspend(select_instance *si)
         };
 
 
-        timer_cancel_on_set_fd = timerfd_create(CLOCK_REALTIME, 0);
+        timer_cancel_on_set_fd = timerfd_create(CLOCK_REALTIME, TFD_CLOEXEC);
         if (timer_cancel_on_set_fd == -1) {
             die_e("timerfd_create");
         }
-- 
2.43.0


From fb68769fb8ee8cdff23488af9a1b6dfa7e46a8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 042/116] fix: a display name of the maximum length was left
 without its terminating NUL

---
 mail.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mail.c b/mail.c
index 1d4e423..f1c33fc 100644
--- a/mail.c
+++ b/mail.c
@@ -45,7 +45,10 @@ format_maildisplayname(char *displayname_conf)
         return strdup2("");
     }
 
-    output = (char *)alloc_safe(buf_len * sizeof(char), "output buffer");
+    /* an escape may be written just before we notice the overflow,
+     * and we need room for the '\0' */
+    output =
+        (char *)alloc_safe((buf_len + 2) * sizeof(char), "output buffer");
 
     /* walk the conf_value and rebuild it in buf1 */
     for (ipos = displayname_conf; *ipos; ipos++) {
-- 
2.43.0


From 8b61236593759fa89113b4eef606104877402ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 043/116] fix: leave the mail charset NUL-terminated whatever
 its length

---
 fcron.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fcron.c b/fcron.c
index 2c606f6..3db6b5e 100644
--- a/fcron.c
+++ b/fcron.c
@@ -651,7 +651,8 @@ main(int argc, char **argv)
      * even though "ANSI_x3.4-1968" is the official charset name. */
     if ((codeset = nl_langinfo(CODESET)) != 0L &&
         strcmp(codeset, "ANSI_x3.4-1968") != 0)
-        strncpy(default_mail_charset, codeset, sizeof(default_mail_charset));
+        strncpy(default_mail_charset, codeset,
+                sizeof(default_mail_charset) - 1);
     else
         strcpy(default_mail_charset, "US-ASCII");
 
-- 
2.43.0


From 1acf4c82db2d2848f86d06093f0ede0b36a7c1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 044/116] fix: read_write_pipe() went beyond its buffer after a
 partial read or write

---
 job.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/job.c b/job.c
index 886cb77..2be03a6 100644
--- a/job.c
+++ b/job.c
@@ -420,10 +420,12 @@ read_write_pipe(int fd, void *buf, size_t size, int action)
     while (size_processed < size) {
         errno = 0;
         if (action == PIPE_READ) {
-            ret = read(fd, (char *)buf + size_processed, size);
+            ret =
+                read(fd, (char *)buf + size_processed, size - size_processed);
         }
         else if (action == PIPE_WRITE) {
-            ret = write(fd, (char *)buf + size_processed, size);
+            ret =
+                write(fd, (char *)buf + size_processed, size - size_processed);
         }
         else {
             error("Invalid action parameter for function read_write_pipe():"
-- 
2.43.0


From 502024fffab6c2a0f9e658416f8aa795f028cea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 045/116] fix: an invalid SHELL fell back to no shell at all
 when fcron.conf sets an empty one

---
 job.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/job.c b/job.c
index 2be03a6..b841b98 100644
--- a/job.c
+++ b/job.c
@@ -125,6 +125,7 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
     env_t *e = NULL;
     char *path = NULL;
     char *myshell = NULL;
+    char *defshell = NULL;
 #ifdef HAVE_LIBPAM
     int retcode = 0;
     char **env;
@@ -211,19 +212,20 @@ setup_user_and_env(struct cl_t *cl, struct passwd *pas,
         }
 
         /* check that SHELL is valid */
+        defshell = (shell != NULL && shell[0] != '\0') ? shell : pas->pw_shell;
         myshell = env_list_getenv(env_list, "SHELL");
         if (myshell == NULL || myshell[0] == '\0') {
-            myshell = shell;
+            myshell = defshell;
         }
         else if (access(myshell, X_OK) != 0) {
             if (errno == ENOENT)
                 error("shell \"%s\" : no file or directory. SHELL set to %s",
-                      myshell, shell);
+                      myshell, defshell);
             else
                 error_e("shell \"%s\" not valid : SHELL set to %s", myshell,
-                        shell);
+                        defshell);
 
-            myshell = shell;
+            myshell = defshell;
         }
         /* take a copy: myshell may point into the entry that we overwrite */
         myshell = strdup2(myshell);
-- 
2.43.0


From 6cd5a968f25515b55c98289f43218a601c6ab1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 046/116] fix: a refused mailto or mailfrom option left the
 following lines without recipient

---
 fileconf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 4a0cb88..8a4bca3 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -448,11 +448,10 @@ assign_option_string(char **var, char *value)
     char end = '\0';
     size_t len = 0;
 
-    Free_safe(*var);
-
     len = option_strlen(value);
 
     if (len <= 0) {
+        Free_safe(*var);
         return len;
     }
 
@@ -464,6 +463,7 @@ assign_option_string(char **var, char *value)
         return -1;
     }
 
+    Free_safe(*var);
     *var = strndup2(value, len);
 
     return len;
-- 
2.43.0


From 690f74f719298fa306216bd7483945cad70c0cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 047/116] fix: refuse fields of a compiled fcrontab which are
 longer than what holds them

---
 conf.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/conf.c b/conf.c
index 1968dac..f64f139 100644
--- a/conf.c
+++ b/conf.c
@@ -423,6 +423,11 @@ int
 read_strn(int fd, char **str, short int size)
 /* read a "size"-length string in a binary fcrontab file */
 {
+    *str = NULL;
+
+    if (size < 0)
+        goto err;
+
     if ((*str = calloc(size + 1, sizeof(char))) == NULL)
         goto err;
 
@@ -455,10 +460,13 @@ read_type(int fd, short int *type, short int *size)
 
 
 /* macros for read_file() */
-/* read "size" bytes from file "ff", put them in "to", and check for errors */
+/* read "size" bytes from file "ff", put them in "to", and check for errors
+ * (including a field which is longer than "to") */
 #define Read(TO, SIZE, ERR_STR) \
         { \
-          if ( read(fileno(ff), &(TO), SIZE) < SIZE ) { \
+          memset(&(TO), 0, sizeof(TO)); \
+          if ( SIZE < 0 || (size_t) SIZE > sizeof(TO) \
+               || read(fileno(ff), &(TO), SIZE) < SIZE ) { \
             error_e(ERR_STR); \
 	    goto err; \
 	  } \
@@ -615,6 +623,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
      * a file using a depreciated format generated by an old fcrontab,
      * if the syntax has changed */
     if (read_type(fileno(ff), &type, &size) != OK || type != S_HEADER_T ||
+        size < 0 || (size_t) size > sizeof(bufi) ||
         read(fileno(ff), &bufi, size) < size || bufi != S_FILEVERSION) {
         error("File %s is not valid: ignored.", file_name);
         error("This file may have been generated by an old version of fcron.");
@@ -645,6 +654,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     /* get the time & date of the saving */
     /* a new file generated by fcrontab has t_save set to 0 */
     if (read_type(fileno(ff), &type, &size) != OK || type != S_TIMEDATE_T
+        || size < 0 || (size_t) size > sizeof(t_save)
         || read(fileno(ff), &t_save, size) < size) {
         error("could not get time and date of saving");
         goto err;
@@ -728,7 +738,11 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
             if (size < OPTION_SIZE)
                 /* set the options not defined in the savefile to default */
                 set_default_opt(cl->cl_option);
-            Read(cl->cl_option, size, "Error while reading option field");
+            if (size < 0 || (size_t) size > sizeof(cl->cl_option)
+                || read(fileno(ff), &(cl->cl_option), size) < size) {
+                error_e("Error while reading option field");
+                goto err;
+            }
             break;
 
         case S_NUMEXE_T:
-- 
2.43.0


From 31eec710840085ffb1c4d2008675302d41c6a9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:28 +0000
Subject: [PATCH 048/116] fix: the lines of a damaged fcrontab ran on without
 their file after an error

---
 conf.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/conf.c b/conf.c
index f64f139..10184ba 100644
--- a/conf.c
+++ b/conf.c
@@ -833,7 +833,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     }
 
     /* free last cl Alloc : unused */
-    Free_safe(cl);
+    free_line(cl);
 
     /* check for an error */
     if (ferror(ff) != 0)
@@ -848,19 +848,16 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     if (ff != NULL)
         xfclose_check(&ff, file_name);
 
-    if (cl != NULL && cl->cl_next == NULL) {
-        /* line is not yet in the line list of the file : free it */
-        Free_safe(cl->cl_shell);
-        Free_safe(cl->cl_runas);
-        Free_safe(cl->cl_mailfrom);
-        Free_safe(cl->cl_mailto);
-        Free_safe(cl);
-    }
+    /* this line is not yet in the line list of the file : free it */
+    free_line(cl);
+
+    if (runas_str != NULL && runas_str != cf->cf_user)
+        Free_safe(runas_str);
 
     /* check if we have started to read the lines and env var */
-    if (cl != NULL) {
-        /* insert the line in the file list in order to be able to free
-         * the memory using delete_file() */
+    if (cf->cf_env_list != NULL) {
+        /* insert the file in the file list in order to be able to free
+         * the memory (and unschedule its lines) using delete_file() */
 
         cf->cf_next = file_base;
         file_base = cf;
@@ -870,6 +867,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
     }
     else {
         Free_safe(cf->cf_user);
+        Free_safe(cf);
     }
 
     return ERR;
-- 
2.43.0


From 3314d4b5bd014b8f6e98ee98ae74dd1e95dab46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:28 +0000
Subject: [PATCH 049/116] fix: an unknown field made the daemon ignore the rest
 of the fcrontab

---
 conf.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/conf.c b/conf.c
index 10184ba..ac31625 100644
--- a/conf.c
+++ b/conf.c
@@ -818,16 +818,13 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
         default:
             error("Error while loading %s : unknown field type %d (ignored)",
                   file_name, type);
-            free_line(cl);
-            Alloc(cl, cl_t);
             /* skip the data corresponding to the unknown field */
             {
-                /* we avoid using fseek(), as it seems not to work correctly
-                 * on some systems when we use read() on the FILE stream */
-                int i;
-                for (i = 0; i < size; i++)
-                    if (getc(ff) == EOF)
-                        goto err;
+                /* use read() as for all other fields: getc() would take
+                 * much more than the field out of the file */
+                char *unknown = NULL;
+                Read_strn(unknown, size, "Error while skipping unknown field");
+                Free_safe(unknown);
             }
         }
     }
-- 
2.43.0


From 11c9e973d15d9103899f4f7ca7c230958f8ab48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 050/116] fix: a long command or variable overflowed the buffer
 when a fcrontab is saved

---
 save.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/save.c b/save.c
index 36a082e..9baa86d 100644
--- a/save.c
+++ b/save.c
@@ -62,8 +62,15 @@ int
 save_str(int fd, short int type, char *str, char *write_buf, int *buf_used)
 /* save a string of type "type" in a binary fcrontab file */
 {
-    short int size = (str != NULL) ? strlen(str) : 0;
-    int write_len = sizeof(type) + sizeof(size) + size;
+    size_t len = (str != NULL) ? strlen(str) : 0;
+    short int size = len;
+    int write_len = sizeof(type) + sizeof(size);
+    size_t done = 0;
+
+    if (len > SHRT_MAX) {
+        error("string too long to be saved (%ld bytes)", (long int)len);
+        return ERR;
+    }
 
     if (write_len > WRITE_BUF_LEN - *buf_used)
         if (write_buf_to_disk(fd, write_buf, buf_used) == ERR)
@@ -73,8 +80,20 @@ save_str(int fd, short int type, char *str, char *write_buf, int *buf_used)
     *buf_used += sizeof(type);
     memcpy((write_buf + *buf_used), &size, sizeof(size));
     *buf_used += sizeof(size);
-    memcpy((write_buf + *buf_used), str, size);
-    *buf_used += size;
+
+    /* the string may be longer than the buffer */
+    while (done < len) {
+        size_t part = len - done;
+
+        if (*buf_used >= WRITE_BUF_LEN)
+            if (write_buf_to_disk(fd, write_buf, buf_used) == ERR)
+                return ERR;
+        if (part > (size_t) (WRITE_BUF_LEN - *buf_used))
+            part = WRITE_BUF_LEN - *buf_used;
+        memcpy((write_buf + *buf_used), str + done, part);
+        *buf_used += part;
+        done += part;
+    }
 
     return OK;
 }
-- 
2.43.0


From 362de54f05f13d76acc8794818f31f396a07793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 051/116] fix: limit the times read from a compiled fcrontab to
 those which can be handled

---
 conf.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/conf.c b/conf.c
index ac31625..405d676 100644
--- a/conf.c
+++ b/conf.c
@@ -660,6 +660,11 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
         goto err;
     }
     else {
+        if (t_save < 0 || t_save > TIME_T_MAX) {
+            error("File %s has an invalid date of saving: using now.",
+                  file_name);
+            t_save = now;
+        }
         debug("file saved at %lu.", t_save);
     }
 
@@ -812,6 +817,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
                 (cl, cf, runas, runas_str, t_save, is_system_startup) != 0)
                 free_line(cl);
             Alloc(cl, cl_t);
+            has_read_cl_first = 0;
             break;
 
             /* default case in "switch(type)" */
@@ -914,6 +920,18 @@ add_line_to_file(cl_t *cl, cf_t *cf, uid_t runas, char *runas_str,
         Set(cl->cl_mailto, cl->cl_file->cf_user);
     }
 
+    /* make sure the times are in a range in which they can be added up and
+     * converted to a date (LONG_MAX has a special meaning) */
+    if (cl->cl_nextexe < 0 || cl->cl_nextexe > TIME_T_MAX)
+        cl->cl_nextexe = (cl->cl_nextexe < 0) ? 0 : TIME_T_MAX;
+    if (cl->cl_first != LONG_MAX
+        && (cl->cl_first < 0 || cl->cl_first > TIME_T_MAX))
+        cl->cl_first = (cl->cl_first < 0) ? 0 : TIME_T_MAX;
+    if (cl->cl_timefreq != LONG_MAX && cl->cl_timefreq > TIME_T_MAX)
+        cl->cl_timefreq = TIME_T_MAX;
+    if (cl->cl_until < 0 || cl->cl_until > TIME_T_MAX)
+        cl->cl_until = (cl->cl_until < 0) ? 0 : TIME_T_MAX;
+
     /* make sure the timefreq is valid on @-lines or we could end up with
      * infinite loops */
     if (!is_td(cl->cl_option) && cl->cl_timefreq < 1) {
-- 
2.43.0


From c22281d1853eb930dc3b56a3613c0a98fe34bc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 052/116] fix: a message was given one argument less than its
 format needs

---
 database.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index 9b2fb48..747ff1f 100644
--- a/database.c
+++ b/database.c
@@ -1298,7 +1298,8 @@ set_next_exe(cl_t *line, char option, int info_fd)
         if (line->cl_nextexe <= now) {
             error("BUG ??? Fcron thinks the next exe time of '%s' is %ld, "
                   "hence before now (%ld). To avoid infinite loop, nextexe"
-                  " will be set at now+5s.", line->cl_shell, line->cl_nextexe);
+                  " will be set at now+5s.", line->cl_shell, line->cl_nextexe,
+                  now);
             line->cl_nextexe = now + 5;
         }
 
-- 
2.43.0


From 0717977f83f53d75f783768ce318d2fda33ef572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 053/116] fix: a fcrontab in the spool which names another user
 was taken for that user's

---
 conf.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/conf.c b/conf.c
index 405d676..06e1411 100644
--- a/conf.c
+++ b/conf.c
@@ -532,8 +532,11 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
             /* this is a standard user's new fcrontab : set the runas field to
              * the owner of the file */
             runas = file_stat.st_uid;
-            if ((pass = getpwuid(file_stat.st_uid)) == NULL) {
-                error_e("Could not getpwuid(%d)", file_stat.st_uid);
+            errno = 0;
+            if ((pass = getpwnam(file_name + 4)) == NULL
+                || pass->pw_uid != file_stat.st_uid) {
+                error("File %s is owned by uid %d, which is not %s: ignored.",
+                      file_name, file_stat.st_uid, file_name + 4);
                 goto err;
             }
             runas_str = strdup2(pass->pw_name);
@@ -650,6 +653,13 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
         Free_safe(cf->cf_user);
         cf->cf_user = runas_str;
     }
+    else if (strcmp(cf->cf_user, (strncmp(file_name, "new.", 4) == 0) ?
+                    file_name + 4 : file_name) != 0) {
+        /* we would take it for (and save it as) someone else's fcrontab */
+        error("File %s is not valid: it is the fcrontab of %s.", file_name,
+              cf->cf_user);
+        goto err;
+    }
 
     /* get the time & date of the saving */
     /* a new file generated by fcrontab has t_save set to 0 */
-- 
2.43.0


From 71d28f5cb6328cf687de70131884e227961bf78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 054/116] fix: the daemon slept 3 seconds for each job which
 could not be started

---
 job.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/job.c b/job.c
index b841b98..ff8f8d0 100644
--- a/job.c
+++ b/job.c
@@ -448,8 +448,9 @@ read_write_pipe(int fd, void *buf, size_t size, int action)
              * - is it really an error when writing ? should we simply 'continue'
              *   in this case ?
              * - read() on a pipe returning 0 means the pipe was closed at the other end.
-             *   We shouldn't need to retry multiple times (but it should never happen) */
-            if (num_retry < 3) {
+             *   There is nothing more to come: retrying would only delay all
+             *   other jobs each time a job can't be started. */
+            if (action == PIPE_WRITE && num_retry < 3) {
                 num_retry++;
                 error_e
                     ("read_write_pipe(): read/write returned 0: retrying... "
-- 
2.43.0


From 99e328a6f264764e6ea11bc60e7cf0ab7f905b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:28 +0000
Subject: [PATCH 055/116] fix: keep the previous version of a fcrontab when the
 new one cannot be renamed

---
 save.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/save.c b/save.c
index 9baa86d..4ff4219 100644
--- a/save.c
+++ b/save.c
@@ -411,14 +411,13 @@ save_file_safe(cf_t *file, char *final_path, char *prog_name, uid_t own_uid,
     if (save_one_file(file, temp_path, own_uid, own_gid, save_date) == OK) {
         if (rename_as_user(temp_path, final_path, own_uid, own_gid) != 0) {
             error_e("Cannot rename %s to %s", temp_path, final_path);
-            error("%s will try to save the name to its definitive filename "
-                  "directly.", prog_name);
-            error
-                ("If there is an error, root may consider to replace %s (which is "
-                 "a valid copy) by %s manually.", final_path, temp_path);
-            if (save_one_file(file, final_path, own_uid, own_gid, save_date) ==
-                ERR)
-                return ERR;
+            /* do not write to final_path directly: should that fail too,
+             * the previous version would be lost */
+            error("Since %s has not been able to save %s's file, it will keep "
+                  "the previous version (if any) of %s.", prog_name, final_path,
+                  final_path);
+            remove_as_user(temp_path, own_uid, own_gid);
+            return ERR;
         }
     }
     else {
-- 
2.43.0


From b515464f669374268d28092737ca60a801858c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:28 +0000
Subject: [PATCH 056/116] fix: a new fcrontab was deleted though the daemon
 could not save it

---
 conf.c | 28 +++++++++++++++-------------
 conf.h |  2 +-
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/conf.c b/conf.c
index 06e1411..bd25194 100644
--- a/conf.c
+++ b/conf.c
@@ -366,11 +366,9 @@ synchronize_file(char *file_name, int is_system_startup)
             cur_f->cf_next = file_base;
             file_base = cur_f;
 
-            /* save final file */
-            save_file(cur_f);
-
-            /* delete new.user file */
-            if (remove(file_name) != 0)
+            /* save final file, and then delete new.user file (if it could not
+             * be saved, that is the only copy on disk) */
+            if (save_file(cur_f) == OK && remove(file_name) != 0)
                 error_e("could not remove %s", file_name);
 
         }
@@ -390,11 +388,9 @@ synchronize_file(char *file_name, int is_system_startup)
             cur_f->cf_next = file_base;
             file_base = cur_f;
 
-            /* save as a normal file */
-            save_file(cur_f);
-
-            /* delete new.user file */
-            if (remove(file_name) != 0)
+            /* save as a normal file, and then delete new.user file (if it
+             * could not be saved, that is the only copy on disk) */
+            if (save_file(cur_f) == OK && remove(file_name) != 0)
                 error_e("could not remove %s", file_name);
         }
 
@@ -1076,11 +1072,13 @@ delete_file(const char *user_name)
 }
 
 
-void
+int
 save_file(cf_t *arg_file)
 /* Store the informations relatives to the executions
- * of tasks at a defined frequency of system's running time */
+ * of tasks at a defined frequency of system's running time.
+ * Returns OK, or ERR if a file could not be saved. */
 {
+    int return_val = OK;
     cf_t *file = NULL;
     cf_t *start_file = NULL;
 
@@ -1097,10 +1095,14 @@ save_file(cf_t *arg_file)
         /* save the file safely : save it to a temporary name, then rename() it */
         /* chown the file to root:root : this file should only be read and
          * modified by fcron (not fcrontab) */
-        save_file_safe(file, file->cf_user, "fcron", rootuid, rootgid, now);
+        if (save_file_safe(file, file->cf_user, "fcron", rootuid, rootgid, now)
+            != OK)
+            return_val = ERR;
 
         if (arg_file != NULL)
             /* we have to save only a single file */
             break;
     }
+
+    return return_val;
 }
diff --git a/conf.h b/conf.h
index 6036ff3..011c4c6 100644
--- a/conf.h
+++ b/conf.h
@@ -29,6 +29,6 @@
 extern void reload_all(const char *dir_name);
 extern void synchronize_dir(const char *dir_name, int is_system_startup);
 extern void delete_file(const char *user_name);
-extern void save_file(struct cf_t *file_name);
+extern int save_file(struct cf_t *file_name);
 
 #endif                          /* __CONF_H__ */
-- 
2.43.0


From 3585c63c23453f7bcc6996867e0052c3139f430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:28 +0000
Subject: [PATCH 057/116] fix: a removed fcrontab which could not be deleted
 came back at the next start

---
 conf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conf.c b/conf.c
index bd25194..36ce74e 100644
--- a/conf.c
+++ b/conf.c
@@ -133,8 +133,10 @@ synchronize_dir(const char *dir_name, int is_system_startup)
         explain("removing file %s", list_cur->str + 3);
         delete_file(list_cur->str + 3); /* len("rm.") = 3 */
         if (remove(list_cur->str + 3) != 0 && errno != ENOENT)
+            /* keep the rm.user file: the fcrontab would come back when the
+             * daemon is restarted */
             error_e("Could not remove %s", list_cur->str + 3);
-        if (remove(list_cur->str) != 0 && errno != ENOENT)
+        else if (remove(list_cur->str) != 0 && errno != ENOENT)
             error_e("Could not remove %s", list_cur->str);
     }
 
-- 
2.43.0


From cf41957df244b5a89f720a6595ea92c4504685b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 058/116] fix: a read error while copying a fcrontab left a
 truncated copy

---
 fcrontab.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fcrontab.c b/fcrontab.c
index 042584e..157ead3 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -245,6 +245,11 @@ copy_src(int from, const char *dest)
                     " Aborting : old source file kept");
             goto exiterr;
         }
+    if (nb == -1) {
+        error_e("Could not read the file to copy."
+                " Aborting : old source file kept");
+        goto exiterr;
+    }
 
     xclose_check(&to_fd, dest);
 
-- 
2.43.0


From 1f1b8b9189cbf4ceec632f056778426c804f3eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 059/116] fix: an error while preparing the file to edit was
 not reported, or crashed

---
 fcrontab.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index 157ead3..5c92ec3 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -471,15 +471,23 @@ edit_file(const char *fcron_orig)
                 goto exiterr;
             }
         }
+        if (ferror(f)) {
+            error_e("could not read file %s", fcron_orig);
+            goto exiterr;
+        }
         xfclose_check(&f, fcron_orig);
 
-        if (ferror(fi))
-            error_e("Error while writing new fcrontab to %s");
+        if (ferror(fi)) {
+            error_e("Error while writing new fcrontab to %s", tmp_str);
+            goto exiterr;
+        }
     }
 
     /* Don't close fi, because we still need the file descriptor 'file' */
-    if (fflush(fi) != 0)
-        die_e("Could not fflush(%s)", fi);
+    if (fflush(fi) != 0) {
+        error_e("Could not fflush(%s)", tmp_str);
+        goto exiterr;
+    }
     fi = NULL;
 
     do {
-- 
2.43.0


From eac896de3da4ebdd953eae7d47330916b9b0665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 060/116] fix: an error while reading or copying stdin
 installed a truncated fcrontab

---
 fcrontab.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index 5c92ec3..5e6eadb 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -663,13 +663,20 @@ install_stdin(void)
         die_e("Could not fdopen file %s", tmp_str);
 
     while ((c = getc(stdin)) != EOF)
-        putc(c, tmp_file);
+        if (putc(c, tmp_file) == EOF)
+            break;
+    if (ferror(stdin) || ferror(tmp_file)) {
+        error_e("Could not copy stdin to file %s", tmp_str);
+        goto exiterr;
+    }
     /* // */
     debug("Copied stdin to %s, about to parse file %s...", tmp_str, tmp_str);
 
     /* don't closes tmp_fd as it will be used for make_file(): */
-    if (fflush(tmp_file) != 0)
-        die_e("Could not fflush(%s)", tmp_file);
+    if (fflush(tmp_file) != 0) {
+        error_e("Could not fflush(%s)", tmp_str);
+        goto exiterr;
+    }
 
     if (make_file(tmp_str, tmp_fd) == ERR)
         goto exiterr;
-- 
2.43.0


From 098fdfae164ad127e62094c33f7bb87ae552ab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 061/116] fix: fcrontab -e looped for ever when its standard
 input was closed

---
 fcrontab.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index 5e6eadb..b7aa35a 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -587,10 +587,18 @@ edit_file(const char *fcron_orig)
                 fprintf(stderr, "\nFile contains some errors. "
                         "Ignore [i] or Correct [c] ? ");
                 while ((c = getchar())) {
+                    int rest = c;
+
                     /* consume the rest of the line, e.g. the newline char (\n) */
-                    while (c != '\n' && (getchar() != '\n')) ;
+                    while (rest != '\n' && rest != EOF)
+                        rest = getchar();
 
-                    if (c == 'i') {
+                    if (c == EOF) {
+                        fprintf(stderr, "\nNo answer:"
+                                " fcrontab is unchanged.\n");
+                        goto exiterr;
+                    }
+                    else if (c == 'i') {
                         break;
                     }
                     else if (c == 'c') {
-- 
2.43.0


From b981773031d29f2df015312b3546d7cebae8470a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 062/116] fix: an edition which took less than a second was
 ignored

---
 fcrontab.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index b7aa35a..45d2593 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -421,7 +421,7 @@ edit_file(const char *fcron_orig)
     pid_t pid;
     int status;
     struct stat st;
-    time_t mtime = 0;
+    struct stat st_before;
     char *tmp_str = NULL;
     FILE *f = NULL, *fi = NULL;
     int file = -1, origfd = -1;
@@ -492,9 +492,7 @@ edit_file(const char *fcron_orig)
 
     do {
 
-        if (fstat(file, &st) == 0)
-            mtime = st.st_mtime;
-        else {
+        if (fstat(file, &st_before) != 0) {
             error_e("could not stat \"%s\"", tmp_str);
             goto exiterr;
         }
@@ -576,7 +574,13 @@ edit_file(const char *fcron_orig)
             goto exiterr;
         }
 
-        else if (st.st_mtime > mtime || correction == 1) {
+        /* (the edition may have taken less than one second) */
+        else if (st.st_mtime != st_before.st_mtime
+#ifdef st_mtime
+                 /* it is defined as the seconds of st_mtim */
+                 || st.st_mtim.tv_nsec != st_before.st_mtim.tv_nsec
+#endif
+                 || st.st_size != st_before.st_size || correction == 1) {
 
             correction = 0;
 
-- 
2.43.0


From 4de4023a3904ae45a035a8596181ec6e3be1151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 063/116] fix: a failed installation or removal left the
 fcrontab half changed, or was not reported

---
 fcrontab.c | 163 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 95 insertions(+), 68 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index 45d2593..ecf439c 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -187,20 +187,14 @@ xexit(int exit_val)
 }
 
 int
-copy_src(int from, const char *dest)
-    /* copy src file orig (already opened) to dest */
-    /* we first copy the file to a temp file name, and then we rename it,
-     * so as to avoid data loss if the filesystem is full. */
+copy_src(int from, const char *tmp_filename_str)
+    /* copy src file orig (already opened) to a temp file name, which is then
+     * to be renamed so as to avoid data loss if the filesystem is full. */
 {
     int to_fd = -1;
     int nb;
     char *copy_buf[LINE_LEN];
 
-    char tmp_filename_str[PATH_LEN + 4];
-    int dest_path_len, tmp_filename_index;
-    char *tmp_suffix_str = ".tmp";
-    int max_dest_len = sizeof(tmp_filename_str) - sizeof(tmp_suffix_str);
-
     if (from < 0) {
         die("copy_src() called with an invalid 'from' argument");
     }
@@ -208,13 +202,6 @@ copy_src(int from, const char *dest)
     /* just in case the file was read in the past... */
     lseek(from, 0, SEEK_SET);
 
-    /* the temp file must be in the same directory as the dest file */
-    dest_path_len = strlen(dest);
-    strncpy(tmp_filename_str, dest, max_dest_len);
-    tmp_filename_index = (dest_path_len > max_dest_len) ?
-        max_dest_len : dest_path_len;
-    strcpy(&tmp_filename_str[tmp_filename_index], tmp_suffix_str);
-
     /* create it as fcrontab_uid (to avoid problem if user's uid changed)
      * except for root. Root requires filesystem uid root for security
      * reasons */
@@ -251,60 +238,80 @@ copy_src(int from, const char *dest)
         goto exiterr;
     }
 
-    xclose_check(&to_fd, dest);
-
-    if (rename_as_user(tmp_filename_str, dest, useruid, fcrontab_gid) < 0) {
-        error_e("Unable to rename %s to %s : old source file kept",
-                tmp_filename_str, dest);
-        goto exiterr;
-    }
+    xclose_check(&to_fd, tmp_filename_str);
 
     return OK;
 
  exiterr:
-    if (to_fd != -1)
-        xclose_check(&to_fd, dest);
+    if (to_fd != -1) {
+        xclose_check(&to_fd, tmp_filename_str);
+        remove_as_user(tmp_filename_str, fcrontab_uid, fcrontab_gid);
+    }
     return ERR;
 }
 
 
+int
+create_rm_file(void)
+    /* create a file in order to tell the daemon a file was removed.
+     * Returns OK, EEXIST if it is already there, or ERR */
+{
+    int fd;
+
+    snprintf(buf, sizeof(buf), "rm.%s", user);
+    fd = open_as_user(buf, fcrontab_uid, fcrontab_gid,
+                      O_CREAT | O_TRUNC | O_EXCL, S_IRUSR | S_IWUSR);
+
+    if (fd == -1) {
+        if (errno != EEXIST) {
+            error_e("Can't create file %s", buf);
+            return ERR;
+        }
+        return EEXIST;
+    }
+    else if (asuid == rootuid && fchown(fd, rootuid, fcrontab_gid) != 0)
+        error_e("Could not fchown %s to root", buf);
+    xclose_check(&fd, buf);
+
+    return OK;
+}
+
+
 int
 remove_fcrontab(char rm_orig)
     /* remove user's fcrontab and tell daemon to update his conf */
     /* note : the binary fcrontab is removed by fcron */
 {
     int return_val = OK;
-    int fd;
 
     if (rm_orig)
         explain("removing %s's fcrontab", user);
 
-    /* remove source and formated file */
-    if ((rm_orig && remove_as_user(buf, fcrontab_uid, fcrontab_gid)) != 0) {
-        if (errno == ENOENT)
-            return_val = ENOENT;
-        else
-            error_e("could not remove %s", buf);
-    }
-
     /* try to remove the temp file in case he has not
      * been read by fcron daemon */
     snprintf(buf, sizeof(buf), "new.%s", user);
-    remove_as_user(buf, useruid, fcrontab_gid);
+    if (remove_as_user(buf, useruid, fcrontab_gid) != 0 && errno != ENOENT) {
+        error_e("could not remove %s", buf);
+        return ERR;
+    }
 
-    /* finally create a file in order to tell the daemon
-     * a file was removed, and launch a signal to daemon */
-    snprintf(buf, sizeof(buf), "rm.%s", user);
-    fd = open_as_user(buf, fcrontab_uid, fcrontab_gid,
-                      O_CREAT | O_TRUNC | O_EXCL, S_IRUSR | S_IWUSR);
+    /* create a file in order to tell the daemon a file was removed,
+     * and launch a signal to daemon */
+    if (create_rm_file() == ERR)
+        return ERR;
 
-    if (fd == -1) {
-        if (errno != EEXIST)
-            error_e("Can't create file %s", buf);
+    /* finally remove the source file */
+    if (rm_orig) {
+        snprintf(buf, sizeof(buf), "%s.orig", user);
+        if (remove_as_user(buf, fcrontab_uid, fcrontab_gid) != 0) {
+            if (errno == ENOENT)
+                return_val = ENOENT;
+            else {
+                error_e("could not remove %s", buf);
+                return_val = ERR;
+            }
+        }
     }
-    else if (asuid == rootuid && fchown(fd, rootuid, fcrontab_gid) != 0)
-        error_e("Could not fchown %s to root", buf);
-    xclose_check(&fd, buf);
 
     need_sig = 1;
 
@@ -315,34 +322,52 @@ remove_fcrontab(char rm_orig)
 
 int
 write_file(int fd)
+    /* install the source file (fd) and what it has been compiled to.
+     * If something fails, what was installed before is left as it was. */
 {
+    char tmp_orig[PATH_LEN];
     int return_val = OK;
-
-    if (ignore_prev == 1)
-        /* if user wants to ignore previous version, we remove it *
-         * ( fcron daemon remove files no longer wanted before
-         *   adding new ones ) */
-        remove_fcrontab(0);
+    int rm_created = ERR;
 
     /* copy original file to fcrontabs dir */
-    snprintf(buf, sizeof(buf), "%s.orig", user);
-    if (copy_src(fd, buf) == ERR) {
-        return_val = ERR;
+    snprintf(tmp_orig, sizeof(tmp_orig), "%s.orig.tmp", user);
+    if (copy_src(fd, tmp_orig) == ERR)
+        return ERR;
+
+    if (file_base->cf_line_base == NULL) {
+        /* no entries */
+        explain("%s's fcrontab contains no entries : removed.", user);
+        return_val = remove_fcrontab(0);
     }
     else {
-
-        if (file_base->cf_line_base == NULL) {
-            /* no entries */
-            explain("%s's fcrontab contains no entries : removed.", user);
-            remove_fcrontab(0);
-        }
-        else {
-            /* write the binary fcrontab on disk */
-            snprintf(buf, sizeof(buf), "new.%s", user);
-            if (save_file(buf) != OK)
+        if (ignore_prev == 1)
+            /* if user wants to ignore previous version, we remove it *
+             * ( fcron daemon remove files no longer wanted before
+             *   adding new ones ) */
+            if ((rm_created = create_rm_file()) == ERR)
                 return_val = ERR;
-        }
 
+        /* write the binary fcrontab on disk */
+        snprintf(buf, sizeof(buf), "new.%s", user);
+        if (return_val == OK && save_file(buf) != OK)
+            return_val = ERR;
+    }
+
+    snprintf(buf, sizeof(buf), "%s.orig", user);
+    if (return_val == OK
+        && rename_as_user(tmp_orig, buf, useruid, fcrontab_gid) < 0) {
+        error_e("Unable to rename %s to %s : old source file kept",
+                tmp_orig, buf);
+        return_val = ERR;
+        snprintf(buf, sizeof(buf), "new.%s", user);
+        remove_as_user(buf, useruid, fcrontab_gid);
+    }
+    if (return_val != OK) {
+        remove_as_user(tmp_orig, fcrontab_uid, fcrontab_gid);
+        if (rm_created == OK) {
+            snprintf(buf, sizeof(buf), "rm.%s", user);
+            remove_as_user(buf, fcrontab_uid, fcrontab_gid);
+        }
     }
 
     return return_val;
@@ -1168,9 +1193,11 @@ main(int argc, char **argv)
 
     /* remove user's entries */
     if (rm_opt == 1) {
-        if (remove_fcrontab(1) == ENOENT)
+        int rm_result = remove_fcrontab(1);
+
+        if (rm_result == ENOENT)
             fprintf(stderr, "no fcrontab for %s\n", user);
-        xexit(EXIT_OK);
+        xexit((rm_result == ERR) ? EXIT_ERR : EXIT_OK);
     }
 
     /* list user's entries */
-- 
2.43.0


From eb5aef5a08da7103a9f56a79c8e223b25a286e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:37 +0000
Subject: [PATCH 064/116] fix: the fcrontab of a user with a dot in the name
 was lost at the next start

---
 conf.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/conf.c b/conf.c
index 36ce74e..971d02c 100644
--- a/conf.c
+++ b/conf.c
@@ -69,6 +69,20 @@ reload_all(const char *dir_name)
 }
 
 
+static int
+is_not_fcrontab(const char *name)
+    /* return 1 if a file of the spool directory is neither a compiled fcrontab
+     * nor a file to add or remove, but a source or temporary file
+     * (there may be dots in the name of a user) */
+{
+    const char *ext = strrchr(name, '.');
+
+    return (name[0] == '.'
+            || (ext != NULL
+                && (strcmp(ext, ".orig") == 0 || strcmp(ext, ".tmp") == 0)));
+}
+
+
 void
 synchronize_dir(const char *dir_name, int is_system_startup)
     /* read dir_name and create three list of files to remove,
@@ -92,7 +106,9 @@ synchronize_dir(const char *dir_name, int is_system_startup)
     if ((dir = opendir("."))) {
         while ((den = readdir(dir))) {
 
-            if (strncmp(den->d_name, "rm.", 3) == 0) {
+            if (is_not_fcrontab(den->d_name))
+                continue;
+            else if (strncmp(den->d_name, "rm.", 3) == 0) {
                 /* this is a file to remove from database */
                 Alloc(list_cur, list_t);
                 list_cur->str = strdup2(den->d_name);
@@ -106,8 +122,6 @@ synchronize_dir(const char *dir_name, int is_system_startup)
                 list_cur->next = new_list;
                 new_list = list_cur;
             }
-            else if (strchr(den->d_name, '.') != NULL)
-                continue;
             else
                 /* this is a normal file : if file_base is not null,
                  * so if a database has already been created, we
@@ -242,7 +256,7 @@ synchronize_file(char *file_name, int is_system_startup)
     cf_t *cur_f = NULL;
     char *user = NULL;
 
-    if (strchr(file_name, '.') != NULL) {
+    if (strncmp(file_name, "new.", 4) == 0) {
         /* this is a new file : we have to check if there is an old
          * version in database in order to keep a maximum of fields
          * (cl_nextexe) to their current value */
-- 
2.43.0


From 3d30173625d51e2256c8c6ee2360f53c10f61020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:47 +0000
Subject: [PATCH 065/116] fix: an error while reading a compiled fcrontab made
 the daemon forget the lines not read yet

---
 conf.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/conf.c b/conf.c
index 971d02c..98b5715 100644
--- a/conf.c
+++ b/conf.c
@@ -456,11 +456,17 @@ read_strn(int fd, char **str, short int size)
 
 int
 read_type(int fd, short int *type, short int *size)
-/* read the type and size of the next field in a binary fcrontab file */
+/* read the type and size of the next field in a binary fcrontab file.
+ * Return OK, 1 at the end of the file, ERR on error */
 {
-    if (read(fd, type, sizeof(short int)) < sizeof(short int))
+    ssize_t n;
+
+    errno = 0;
+    if ((n = read(fd, type, sizeof(short int))) == 0)
+        return 1;
+    if (n != (ssize_t) sizeof(short int))
         goto err;
-    if (read(fd, size, sizeof(short int)) < sizeof(short int))
+    if (read(fd, size, sizeof(short int)) != (ssize_t) sizeof(short int))
         goto err;
 
     return OK;
@@ -695,7 +701,7 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
 
     Alloc(cl, cl_t);
     /* main loop : read env variables, and lines */
-    while (read_type(fileno(ff), &type, &size) == OK) {
+    while ((rc = read_type(fileno(ff), &type, &size)) == OK) {
         /* action is determined by the type of the field */
         switch (type) {
 
@@ -857,11 +863,18 @@ read_file(const char *file_name, cf_t *cf, int is_system_startup)
         }
     }
 
+    if (rc == ERR && errno != 0) {
+        /* we do not know all its lines: if we went on, we would save it
+         * without the others */
+        error_e("Error while reading file %s: ignored", file_name);
+        goto err;
+    }
+
     /* free last cl Alloc : unused */
     free_line(cl);
 
     /* check for an error */
-    if (ferror(ff) != 0)
+    if (rc == ERR)
         error("file %s is truncated : you should reinstall it with fcrontab",
               file_name);
 
-- 
2.43.0


From 01b9ef755d41f289b9dd8dea84eefe279dcdadb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:20 +0000
Subject: [PATCH 066/116] fix: a failed installation removed the previous
 fcrontab if the daemon had not read it yet

---
 fcrontab.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index ecf439c..8129afd 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -328,6 +328,8 @@ write_file(int fd)
     char tmp_orig[PATH_LEN];
     int return_val = OK;
     int rm_created = ERR;
+    int prev_fd = -1;
+    int not_read_yet = 0;       /* the daemon has not read the previous one */
 
     /* copy original file to fcrontabs dir */
     snprintf(tmp_orig, sizeof(tmp_orig), "%s.orig.tmp", user);
@@ -349,6 +351,10 @@ write_file(int fd)
 
         /* write the binary fcrontab on disk */
         snprintf(buf, sizeof(buf), "new.%s", user);
+        prev_fd = open_as_user(buf, useruid, fcrontab_gid, O_RDONLY, 0);
+        not_read_yet = (prev_fd != -1 || errno != ENOENT);
+        if (prev_fd != -1)
+            xclose_check(&prev_fd, buf);
         if (return_val == OK && save_file(buf) != OK)
             return_val = ERR;
     }
@@ -359,8 +365,11 @@ write_file(int fd)
         error_e("Unable to rename %s to %s : old source file kept",
                 tmp_orig, buf);
         return_val = ERR;
-        snprintf(buf, sizeof(buf), "new.%s", user);
-        remove_as_user(buf, useruid, fcrontab_gid);
+        if (file_base->cf_line_base != NULL && !not_read_yet) {
+            /* the daemon goes on with the one it has */
+            snprintf(buf, sizeof(buf), "new.%s", user);
+            remove_as_user(buf, useruid, fcrontab_gid);
+        }
     }
     if (return_val != OK) {
         remove_as_user(tmp_orig, fcrontab_uid, fcrontab_gid);
-- 
2.43.0


From a118980908225d06650dda89502929465053d7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 067/116] fix: lavg(.5) was refused, and decimals of an integer
 were ignored

---
 fileconf.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 8a4bca3..a63e4dd 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1874,8 +1874,8 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
     }
     else {
 
-        /* there must be a number */
-        if (!isdigit((int)*ptr)) {
+        /* there must be a number: ".5" is valid if decimals are */
+        if (!isdigit((int)*ptr) && (*ptr != '.' || decimal <= 0)) {
             need_correction = 1;
             return NULL;
         }
@@ -1888,7 +1888,8 @@ get_num(char *ptr, int *num, int max, short int decimal, const char **names)
 
         if (*ptr == '.') {
             ptr++;
-            if (!isdigit((int)*ptr)) {
+            /* do not round off a number which must be an integer */
+            if (decimal <= 0 || !isdigit((int)*ptr)) {
                 need_correction = 1;
                 return NULL;
             }
-- 
2.43.0


From fd1c44b67fa736d9f0bf39f61b4bc0eb27968b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 068/116] fix: until(0), which removes the limit, was refused

---
 fileconf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index a63e4dd..d292af9 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -869,7 +869,7 @@ read_opt(char *ptr, cl_t *cl)
 
         else if (strcmp(opt_name, "u") == 0 || strcmp(opt_name, "until") == 0) {
             if (!in_brackets
-                || (ptr = get_time(ptr, &(cl->cl_until), 0)) == NULL)
+                || (ptr = get_time(ptr, &(cl->cl_until), 1)) == NULL)
                 Handle_err;
             if (debug_opt)
                 fprintf(stderr, "  Opt : \"%s\" %ld\n", opt_name,
-- 
2.43.0


From d00524dcb959839db067f25938e28e405b8751f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 069/116] fix: a time value without a number (as in "1hm") was
 accepted

---
 fileconf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index d292af9..22f4e67 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1245,6 +1245,12 @@ get_time(char *ptr, time_t *time, int zero_allowed)
         sum = 0;
         mult = 1;
 
+        /* there must be a number before the multiplier */
+        if (!isdigit((int)*ptr)) {
+            need_correction = 1;
+            return NULL;
+        }
+
         while (isdigit((int)*ptr)) {
             if (sum > max / 10) {
                 need_correction = 1;
-- 
2.43.0


From 89627a3c8eba54b0844c3418596e2e46b6b79881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 070/116] fix: nice(20), which is out of range, was accepted

---
 fileconf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 22f4e67..c6de627 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -404,7 +404,8 @@ get_nice(char *ptr, int *nice)
         ptr++;
     }
 
-    if ((ptr = get_num(ptr, nice, 20, 0, NULL)) == NULL)
+    /* from -20 to 19 */
+    if ((ptr = get_num(ptr, nice, negative ? 20 : 19, 0, NULL)) == NULL)
         return NULL;
 
     if (negative == 1) {
-- 
2.43.0


From d9dc1c4c23d5da25a0e91130f36f8cf93265d680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 071/116] fix: a lone quote was accepted as the value of a
 variable

---
 fileconf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index c6de627..01c8d1f 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -84,7 +84,7 @@ get_string(char *ptr)
     length = remove_blanks(ptr);
 
     if (quote != 0) {
-        if (*(ptr + length - 1) == quote)
+        if (length > 0 && *(ptr + length - 1) == quote)
             *(ptr + length - 1) = '\0';
         else {
             /* mismatched quotes */
-- 
2.43.0


From 6755734d79a2cd34deda78245b6ebe8f59296d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 072/116] fix: malformed lists in a field (as ",5" or "*5")
 were accepted

---
 fileconf.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 01c8d1f..e67c032 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1936,14 +1936,21 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
     int step = 0;
     int rm = 0;
     int i = 0;
+    short int is_first = 1;
 
     while ((*ptr != ' ') && (*ptr != '\t') && (*ptr != '\0')) {
 
         start = stop = step = 0;
 
-        /* there may be a "," */
-        if (*ptr == ',')
+        /* elements are separated by a "," */
+        if (!is_first) {
+            if (*ptr != ',') {
+                need_correction = 1;
+                return NULL;
+            }
             ptr++;
+        }
+        is_first = 0;
 
         if (*ptr == '*') {
             /* we have to fill everything (may be modified by a step ) */
@@ -2001,7 +2008,8 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
         /* check for step size */
         if (*ptr == '/') {
             ptr++;
-            if ((ptr = get_num(ptr, &step, max, 0, names)) == NULL || step == 0)
+            /* (a name is no number of steps) */
+            if ((ptr = get_num(ptr, &step, max, 0, NULL)) == NULL || step == 0)
                 return NULL;
         }
         else
-- 
2.43.0


From b29097fe89054854dc7558b071a28eb55314d686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 073/116] fix: day of month 0, which never comes, was accepted

---
 fileconf.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/fileconf.c b/fileconf.c
index e67c032..44342bd 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1974,6 +1974,12 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
                     return NULL;
                 }
 
+            if (max == 31 && start == 0) {
+                /* there is no day 0 in a month */
+                need_correction = 1;
+                return NULL;
+            }
+
             if (*ptr == ',' || *ptr == ' ' || *ptr == '\t') {
                 /* this is a single number : set up array and continue */
                 if (debug_opt)
@@ -1997,6 +2003,10 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
                         need_correction = 1;
                         return NULL;
                     }
+                if (max == 31 && stop == 0) {
+                    need_correction = 1;
+                    return NULL;
+                }
             }
             else {
                 /* syntax error */
@@ -2047,6 +2057,10 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
                     need_correction = 1;
                     return NULL;
                 }
+            if (max == 31 && rm == 0) {
+                need_correction = 1;
+                return NULL;
+            }
 
             if (debug_opt)
                 fprintf(stderr, " ~%d", rm);
-- 
2.43.0


From 49fa831e9c6cf1fb52de4e8807db31a68053fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 074/116] fix: a range of days with a step was off by one after
 its wrap-around

---
 fileconf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fileconf.c b/fileconf.c
index 44342bd..a514bb3 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -2039,7 +2039,10 @@ read_field(char *ptr, bitstr_t *ary, int max, const char **names)
              * we should set from 22 to 3 (not from 3 to 22 or nothing :)) ) */
             for (i = start; i <= field_max; i += step)
                 bit_set(ary, i);
-            for (i -= (field_max + 1); i <= stop; i += step)
+            /* the field has one value less than field_max + 1 if there is no
+             * day 0, or if 0 and 7 are the same day */
+            i -= (max == 31 || max == 7) ? field_max : field_max + 1;
+            for (; i <= stop; i += step)
                 bit_set(ary, i);
         }
 
-- 
2.43.0


From 3ae05dd9eedb7910006965897d98dd6a72b93160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 075/116] fix: the start of a command was taken for a user name

---
 fileconf.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index a514bb3..1d2f51d 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1322,14 +1322,17 @@ check_username(char *ptr, cf_t *cf, cl_t *cl)
     strncpy(username, ptr, indx);
     username[indx] = '\0';
 
-    if ((userpwent = getpwnam(username)) != NULL) {
+    /* it must be a whole word, and there must be a command after it ("mail/x",
+     * or "sync" alone, are commands although mail and sync may be users) */
+    if ((ptr[indx] == ' ' || ptr[indx] == '\t')
+        && (userpwent = getpwnam(username)) != NULL) {
         /* found the user */
         ptr = ptr + indx;       /* move ptr to the next word */
         Skip_blanks(ptr);
 
         if (getuid() != rootuid) {
-            fprintf(stderr, "must be privileged to run as another user : "
-                    "ignoring\n");
+            fprintf(stderr, "%s:%d: must be privileged to run as another user : "
+                    "ignoring\n", file_name, line);
         }
         else {
             Set(cl->cl_runas, username);
-- 
2.43.0


From 87bcf12a441e5e992326a607d4d02e8829cf6da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 076/116] fix: some errors in a fcrontab were reported without
 the line

---
 fileconf.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 1d2f51d..e63be64 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -410,8 +410,8 @@ get_nice(char *ptr, int *nice)
 
     if (negative == 1) {
         if (getuid() != rootuid) {
-            fprintf(stderr, "must be privileged to use a negative argument "
-                    "with nice: set to 0\n");
+            fprintf(stderr, "%s:%d: must be privileged to use a negative "
+                    "argument with nice: set to 0\n", file_name, line);
             need_correction = 1;
             *nice = 0;
         }
@@ -725,7 +725,7 @@ read_opt(char *ptr, cl_t *cl)
 
         else if (strcmp(opt_name, "r") == 0 || strcmp(opt_name, "runfreq") == 0) {
             if (cl->cl_runfreq == 1) {
-                fprintf(stderr, "cannot change runfreq value in a %%-line");
+                fprintf(stderr, "cannot change runfreq value in a %%-line\n");
                 Handle_err;
             }
             if (!in_brackets
@@ -1054,18 +1054,19 @@ read_opt(char *ptr, cl_t *cl)
             }
 
             if (getuid() != rootuid) {
-                fprintf(stderr, "must be privileged to use option runas: "
-                        "skipping option\n");
+                fprintf(stderr, "%s:%d: must be privileged to use option runas: "
+                        "skipping option\n", file_name, line);
                 runas_error = 1;
             }
             else if (len > USER_NAME_LEN) {
-                fprintf(stderr, "runas: user name \"%s\" longer than %d"
-                        "characters: skipping option\n", runas, USER_NAME_LEN);
+                fprintf(stderr, "%s:%d: runas: user name \"%s\" longer than %d "
+                        "characters: skipping option\n", file_name, line, runas,
+                        USER_NAME_LEN);
                 runas_error = 1;
             }
             else if ((pas = getpwnam(runas)) == NULL) {
-                fprintf(stderr, "runas: \"%s\" is not in passwd file : "
-                        "ignored", runas);
+                fprintf(stderr, "%s:%d: runas: \"%s\" is not in passwd file : "
+                        "ignored\n", file_name, line, runas);
                 runas_error = 1;
             }
 
-- 
2.43.0


From 9715e371808b8adf7883980bce7b6d14a501a5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 077/116] fix: the end of a too long line could be taken for
 another line

---
 fileconf.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index e63be64..39727b9 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -151,9 +151,24 @@ get_line(char *str, size_t size, FILE *file)
 
     }
 
-    /* line is too long : goto next line and return ERR */
-    while (((c = getc(file)) != EOF) && (c != '\n')) ;
-    line++;
+    /* line is too long : goto next (logical) line and return ERR */
+    {
+        int last = (i > 0) ? *(str + i - 1) : 0;
+        int next_line = line + 1;
+
+        while ((c = getc(file)) != EOF) {
+            if (c == '\n') {
+                if (last != '\\')
+                    break;
+                next_line++;
+            }
+            last = c;
+        }
+        fprintf(stderr,
+                "%s:%d: Line is too long (more than %d): skipping line.\n",
+                file_name, line, (int)size);
+        line = next_line;
+    }
     need_correction = 1;
     return ERR;
 
@@ -220,12 +235,8 @@ read_file(char *filename, int fd)
 
         ret = get_line(buf, sizeof(buf), file);
 
-        if (ret == ERR) {
-            fprintf(stderr,
-                    "%s:%d: Line is too long (more than %d): skipping line.\n",
-                    file_name, line, (int)sizeof(buf));
+        if (ret == ERR)
             continue;
-        }
 
         ptr = buf;
         Skip_blanks(ptr);
-- 
2.43.0


From 121ec79fa2b9ef2324ee8e05cfe471647ef15663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 078/116] fix: too many entries or lines in a fcrontab crashed
 fcrontab, or were ignored silently

---
 fileconf.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 39727b9..ed6b9b1 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -199,7 +199,7 @@ read_file(char *filename, int fd)
     int max_entries = MAXENTRIES;
     int entries = 0;
     char *ptr = NULL;
-    int ret;
+    int ret = GET_LINE_EOF;
 
     bzero(buf, sizeof(buf));
     need_correction = 0;
@@ -289,14 +289,17 @@ read_file(char *filename, int fd)
 
     }
 
-    if (entries == max_entries) {
-        error("%s:%d: maximum number of entries (%d) has been reached by %s",
-              file_name, line, user);
+    if (ret != GET_LINE_EOF && getc(file) != EOF) {
+        /* there is something left */
+        need_correction = 1;
+        if (entries >= max_entries)
+            error("%s:%d: maximum number of entries (%d) has been reached by %s",
+                  file_name, line, max_entries, user);
+        else
+            error("%s:%d: maximum number of lines (%d) has been reached by %s",
+                  file_name, line, max_lines, user);
         fprintf(stderr, "Anything after this line will be ignored\n");
     }
-    else if (line == max_lines)
-        error("%s:%d: maximum number of lines (%d) has been reached by %s",
-              file_name, line, user);
 
     cf->cf_next = file_base;
     file_base = cf;
-- 
2.43.0


From e9a7ff7097b2790ea633a93b51e02930464b3f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:15 +0000
Subject: [PATCH 079/116] fix: the part of a command after a NUL character was
 dropped silently

---
 fileconf.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index ed6b9b1..e614be1 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -117,6 +117,7 @@ get_line(char *str, size_t size, FILE *file)
     size_t size_max = size - 1;
     int i = 0;
     int c;
+    short int has_nul = 0;
 
     while (i < size_max) {
 
@@ -132,17 +133,26 @@ get_line(char *str, size_t size, FILE *file)
                 continue;
             }
             else {
-                *(str + i) = (char)'\0';
+                *(str + (has_nul ? 0 : i)) = (char)'\0';
                 return OK;
             }
             break;
 
         case EOF:
-            *(str + i) = (char)'\0';
+            *(str + (has_nul ? 0 : i)) = (char)'\0';
             /* we couldn't return EOF ( equal to ERR by default )
              * nor ERR, which is used for another error */
             return GET_LINE_EOF;
 
+        case '\0':
+            /* what follows would be ignored: ignore the whole line */
+            if (!has_nul)
+                fprintf(stderr, "%s:%d: Invalid NUL character: skipping line.\n",
+                        file_name, line);
+            has_nul = 1;
+            need_correction = 1;
+            /* no break */
+
         default:
             *(str + i) = (char)c;
             i++;
-- 
2.43.0


From fc4afc3d5b7cc8eecdf08beddc7f207ceb1997f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 080/116] fix: an invalid first() or until() set these options
 to another value

---
 fileconf.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index e614be1..67f7c4d 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -1263,8 +1263,14 @@ get_time(char *ptr, time_t *time, int zero_allowed)
     time_t mult;
     /* stay far from overflows: such values are added to the current time */
     const time_t max = TIME_T_MAX / 4;
+    /* set *time only if all is well: it may be a default value */
+    time_t total = 0;
 
-    *time = 0;
+    /* there must be something */
+    if (*ptr == '\0' || *ptr == ')') {
+        need_correction = 1;
+        return NULL;
+    }
 
     while ((*ptr != ' ') && (*ptr != '\t') && (*ptr != '\0') && (*ptr != ')')) {
 
@@ -1310,22 +1316,23 @@ get_time(char *ptr, time_t *time, int zero_allowed)
             return NULL;
         }
 
-        if (sum > (max - *time) / mult) {
+        if (sum > (max - total) / mult) {
             need_correction = 1;
             return NULL;
         }
 
-        *time += sum * mult;
+        total += sum * mult;
 
     }
 
     Skip_blanks(ptr);
-    if (*time == 0 && !zero_allowed) {
+    if (total == 0 && !zero_allowed) {
         need_correction = 1;
         return NULL;
     }
-    else
-        return ptr;
+
+    *time = total;
+    return ptr;
 }
 
 
-- 
2.43.0


From 9fe3c3eed6187b1f82c542df6d926aba9dbdfdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 081/116] fix: an invalid lavg() changed some of the values

---
 fileconf.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/fileconf.c b/fileconf.c
index 67f7c4d..1eb98ad 100644
--- a/fileconf.c
+++ b/fileconf.c
@@ -787,10 +787,13 @@ read_opt(char *ptr, cl_t *cl)
         }
 
         else if (strcmp(opt_name, "lavg") == 0) {
+            unsigned char lavg[LAVG_SIZE];
+
             if (!in_brackets
                 || (ptr = get_num(ptr, &i, UCHAR_MAX, 1, NULL)) == NULL)
                 Handle_err;
-            cl->cl_lavg[0] = i;
+            /* set the values only if all are valid */
+            lavg[0] = i;
             if (debug_opt)
                 fprintf(stderr, "  Opt : 'lavg1' %d\n", i);
             if (*ptr++ != ',')
@@ -798,15 +801,17 @@ read_opt(char *ptr, cl_t *cl)
             if (!in_brackets
                 || (ptr = get_num(ptr, &i, UCHAR_MAX, 1, NULL)) == NULL)
                 Handle_err;
-            cl->cl_lavg[1] = i;
+            lavg[1] = i;
             if (debug_opt)
                 fprintf(stderr, "  Opt : 'lavg5' %d\n", i);
             if (*ptr++ != ',')
                 Handle_err;
             if (!in_brackets
-                || (ptr = get_num(ptr, &i, UCHAR_MAX, 1, NULL)) == NULL)
+                || (ptr = get_num(ptr, &i, UCHAR_MAX, 1, NULL)) == NULL
+                || *ptr != ')')
                 Handle_err;
-            cl->cl_lavg[2] = i;
+            lavg[2] = i;
+            memcpy(cl->cl_lavg, lavg, sizeof(lavg));
             if (debug_opt)
                 fprintf(stderr, "  Opt : 'lavg15' %d\n", i);
             if (cl->cl_lavg[0] || cl->cl_lavg[1] || cl->cl_lavg[2])
-- 
2.43.0


From ed616d6bc3cbfcebbead329fd6e2bac97d589b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 082/116] fix: a fatal error without an error number (as an
 unknown user) was reported as a success

---
 log.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/log.c b/log.c
index f8ab322..48d88dc 100644
--- a/log.c
+++ b/log.c
@@ -466,7 +466,8 @@ die_e(char *fmt, ...)
     }
 
 
-    exit(err_no);
+    /* no error number (as with an unknown user) is no success */
+    exit((err_no == 0) ? EXIT_ERR : err_no);
 
 }
 
-- 
2.43.0


From 966c21f69e7ac4909ba7ab624fd5b82233cc26a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 083/116] fix: fcrontab -e installed what a killed or failed
 editor left

---
 fcrontab.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fcrontab.c b/fcrontab.c
index 8129afd..cd19e91 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -580,7 +580,8 @@ edit_file(const char *fcron_orig)
 
         /* only reached by parent */
         waitpid(pid, &status, 0);
-        if (!WIFEXITED(status)) {
+        /* (if the editor gets killed, the shell may tell it by its exit status) */
+        if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
             fprintf(stderr,
                     "Editor exited abnormally:" " fcrontab is unchanged.\n");
             goto exiterr;
-- 
2.43.0


From 7db849d4fa0b9178f68bf8f433ecabd6d57dae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 084/116] fix: fcrontab -l did not report that it could not
 list everything

---
 fcrontab.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fcrontab.c b/fcrontab.c
index cd19e91..ff6a223 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -438,7 +438,10 @@ list_file(const char *file)
     }
 
     while ((c = getc(f)) != EOF)
-        putchar(c);
+        if (putchar(c) == EOF)
+            break;
+    if (ferror(f) || ferror(stdout) || fflush(stdout) != 0)
+        die_e("Could not list file \"%s\"", file);
 
     /* also closes the underlying file descriptor fd: */
     xfclose_check(&f, file);
-- 
2.43.0


From eeddc00a72dbdcc4e0ce56835769b44dd209e524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:35 +0000
Subject: [PATCH 085/116] fix: a removal which failed half-way left a fcrontab
 listed but not scheduled any more

---
 fcrontab.c | 65 ++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 16 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index ff6a223..50c27ae 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -278,32 +278,47 @@ create_rm_file(void)
 
 
 int
-remove_fcrontab(char rm_orig)
-    /* remove user's fcrontab and tell daemon to update his conf */
+remove_fcrontab(const char *new_orig)
+    /* remove user's fcrontab and tell daemon to update his conf.
+     * The source file is removed, or replaced by new_orig if it is not NULL.
+     * If something fails, what was installed before is left as it was. */
     /* note : the binary fcrontab is removed by fcron */
 {
+    char tmp_new[PATH_LEN];
     int return_val = OK;
+    int rm_created = ERR;
+    int new_moved = 0;
 
-    if (rm_orig)
+    if (new_orig == NULL)
         explain("removing %s's fcrontab", user);
 
+    /* create a file in order to tell the daemon a file was removed,
+     * and launch a signal to daemon */
+    if ((rm_created = create_rm_file()) == ERR)
+        return ERR;
+
     /* try to remove the temp file in case he has not
-     * been read by fcron daemon */
+     * been read by fcron daemon (the daemon ignores tmp_new) */
     snprintf(buf, sizeof(buf), "new.%s", user);
-    if (remove_as_user(buf, useruid, fcrontab_gid) != 0 && errno != ENOENT) {
+    snprintf(tmp_new, sizeof(tmp_new), "new.%s.tmp", user);
+    if (rename_as_user(buf, tmp_new, useruid, fcrontab_gid) == 0)
+        new_moved = 1;
+    else if (errno != ENOENT) {
         error_e("could not remove %s", buf);
-        return ERR;
+        return_val = ERR;
     }
 
-    /* create a file in order to tell the daemon a file was removed,
-     * and launch a signal to daemon */
-    if (create_rm_file() == ERR)
-        return ERR;
-
     /* finally remove the source file */
-    if (rm_orig) {
+    if (return_val == OK) {
         snprintf(buf, sizeof(buf), "%s.orig", user);
-        if (remove_as_user(buf, fcrontab_uid, fcrontab_gid) != 0) {
+        if (new_orig != NULL) {
+            if (rename_as_user(new_orig, buf, useruid, fcrontab_gid) != 0) {
+                error_e("Unable to rename %s to %s : old source file kept",
+                        new_orig, buf);
+                return_val = ERR;
+            }
+        }
+        else if (remove_as_user(buf, fcrontab_uid, fcrontab_gid) != 0) {
             if (errno == ENOENT)
                 return_val = ENOENT;
             else {
@@ -313,6 +328,21 @@ remove_fcrontab(char rm_orig)
         }
     }
 
+    if (return_val == ERR) {
+        /* go back to what was installed */
+        snprintf(buf, sizeof(buf), "new.%s", user);
+        if (new_moved
+            && rename_as_user(tmp_new, buf, useruid, fcrontab_gid) != 0)
+            error_e("Unable to rename %s back to %s", tmp_new, buf);
+        snprintf(buf, sizeof(buf), "rm.%s", user);
+        if (rm_created == OK)
+            remove_as_user(buf, fcrontab_uid, fcrontab_gid);
+        return ERR;
+    }
+
+    if (new_moved && remove_as_user(tmp_new, useruid, fcrontab_gid) != 0)
+        error_e("could not remove %s", tmp_new);
+
     need_sig = 1;
 
     return return_val;
@@ -339,7 +369,10 @@ write_file(int fd)
     if (file_base->cf_line_base == NULL) {
         /* no entries */
         explain("%s's fcrontab contains no entries : removed.", user);
-        return_val = remove_fcrontab(0);
+        return_val = remove_fcrontab(tmp_orig);
+        if (return_val != OK)
+            remove_as_user(tmp_orig, fcrontab_uid, fcrontab_gid);
+        return return_val;
     }
     else {
         if (ignore_prev == 1)
@@ -365,7 +398,7 @@ write_file(int fd)
         error_e("Unable to rename %s to %s : old source file kept",
                 tmp_orig, buf);
         return_val = ERR;
-        if (file_base->cf_line_base != NULL && !not_read_yet) {
+        if (!not_read_yet) {
             /* the daemon goes on with the one it has */
             snprintf(buf, sizeof(buf), "new.%s", user);
             remove_as_user(buf, useruid, fcrontab_gid);
@@ -1206,7 +1239,7 @@ main(int argc, char **argv)
 
     /* remove user's entries */
     if (rm_opt == 1) {
-        int rm_result = remove_fcrontab(1);
+        int rm_result = remove_fcrontab(NULL);
 
         if (rm_result == ENOENT)
             fprintf(stderr, "no fcrontab for %s\n", user);
-- 
2.43.0


From 9cea52933329c10c7cc7c9b17adaa30c172d617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:57 +0000
Subject: [PATCH 086/116] fix: a failed installation put lines in force which
 were not listed if the daemon had not read the previous ones yet

---
 fcrontab.c | 26 ++++++++++++++++++--------
 subs.c     | 25 +++++++++++++++++++++++++
 subs.h     |  2 ++
 3 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/fcrontab.c b/fcrontab.c
index 50c27ae..599a40f 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -356,9 +356,9 @@ write_file(int fd)
      * If something fails, what was installed before is left as it was. */
 {
     char tmp_orig[PATH_LEN];
+    char prev_new[PATH_LEN];
     int return_val = OK;
     int rm_created = ERR;
-    int prev_fd = -1;
     int not_read_yet = 0;       /* the daemon has not read the previous one */
 
     /* copy original file to fcrontabs dir */
@@ -384,10 +384,15 @@ write_file(int fd)
 
         /* write the binary fcrontab on disk */
         snprintf(buf, sizeof(buf), "new.%s", user);
-        prev_fd = open_as_user(buf, useruid, fcrontab_gid, O_RDONLY, 0);
-        not_read_yet = (prev_fd != -1 || errno != ENOENT);
-        if (prev_fd != -1)
-            xclose_check(&prev_fd, buf);
+        /* (keep the previous one: the daemon ignores prev_new) */
+        snprintf(prev_new, sizeof(prev_new), "new.%s.prev.tmp", user);
+        remove_as_user(prev_new, useruid, fcrontab_gid);
+        if (link_as_user(buf, prev_new, useruid, fcrontab_gid) == 0)
+            not_read_yet = 1;
+        else if (errno != ENOENT) {
+            error_e("Unable to link %s to %s", buf, prev_new);
+            return_val = ERR;
+        }
         if (return_val == OK && save_file(buf) != OK)
             return_val = ERR;
     }
@@ -398,12 +403,17 @@ write_file(int fd)
         error_e("Unable to rename %s to %s : old source file kept",
                 tmp_orig, buf);
         return_val = ERR;
-        if (!not_read_yet) {
+        snprintf(buf, sizeof(buf), "new.%s", user);
+        if (not_read_yet) {
+            if (rename_as_user(prev_new, buf, useruid, fcrontab_gid) != 0)
+                error_e("Unable to rename %s back to %s", prev_new, buf);
+        }
+        else
             /* the daemon goes on with the one it has */
-            snprintf(buf, sizeof(buf), "new.%s", user);
             remove_as_user(buf, useruid, fcrontab_gid);
-        }
     }
+    if (not_read_yet)
+        remove_as_user(prev_new, useruid, fcrontab_gid);
     if (return_val != OK) {
         remove_as_user(tmp_orig, fcrontab_uid, fcrontab_gid);
         if (rm_created == OK) {
diff --git a/subs.c b/subs.c
index 9a0a00b..de95a6e 100644
--- a/subs.c
+++ b/subs.c
@@ -286,6 +286,31 @@ remove_as_user(const char *pathname, uid_t removeuid, gid_t removegid)
     return rval;
 }
 
+int
+link_as_user(const char *oldpath, const char *newpath, uid_t linkuid,
+             gid_t linkgid)
+/* Become user and call link(), then revert back to who we were */
+{
+    int rval = -1;
+#ifdef USE_SETE_ID
+    uid_t orig_euid = geteuid();
+    gid_t orig_egid = getegid();
+
+    seteuid_safe(linkuid);
+    setegid_safe(linkgid);
+#endif                          /* def USE_SETE_ID */
+
+    rval = link(oldpath, newpath);
+
+#ifdef USE_SETE_ID
+    seteuid_safe(orig_euid);
+    setegid_safe(orig_egid);
+#endif                          /* def USE_SETE_ID */
+
+    return rval;
+
+}
+
 int
 rename_as_user(const char *oldpath, const char *newpath, uid_t renameuid,
                gid_t renamegid)
diff --git a/subs.h b/subs.h
index 688c142..c777f06 100644
--- a/subs.h
+++ b/subs.h
@@ -35,6 +35,8 @@ extern int remove_as_user(const char *pathname, uid_t removeuid,
                           gid_t removegid);
 extern int open_as_user(const char *pathname, uid_t openuid, gid_t opengid,
                         int flags, ...);
+extern int link_as_user(const char *oldpath, const char *newpath,
+                        uid_t linkuid, gid_t linkgid);
 extern int rename_as_user(const char *oldpath, const char *newpath,
                           uid_t renameuid, gid_t renamegid);
 
-- 
2.43.0


From 30650d1c64d46ce7858f53ccbf8fd397c2852c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:47 +0000
Subject: [PATCH 087/116] fix: the string before an empty one was read, and
 could be changed, when removing blanks

---
 subs.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/subs.c b/subs.c
index de95a6e..c14da65 100644
--- a/subs.c
+++ b/subs.c
@@ -349,18 +349,10 @@ remove_blanks(char *str)
         c++;
 
     /* scan backward to the first character that is not a space */
-    do {
+    while (c > str && isspace((unsigned char)*(c - 1)))
         c--;
-    }
-    while (c >= str && isspace((int)*c));
 
-    /* if last char is a '\n', we remove it */
-    if (*c == '\n')
-        *c = '\0';
-    else
-        /* one character beyond where we stopped above is where the null
-         * goes. */
-        *++c = '\0';
+    *c = '\0';
 
     /* return the new length */
     return (c - str);
-- 
2.43.0


From 845d8757a071f41d0eaf7effcd9927116c804683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:47 +0000
Subject: [PATCH 088/116] fix: allow and deny files: the end of a long line or
 the order of lines could change who is allowed, and a read error allowed
 everyone

---
 allow.c | 20 ++++++++++++++------
 subs.c  | 25 +++++++++++++++++++++++++
 subs.h  |  1 +
 3 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/allow.c b/allow.c
index dfe6853..776f436 100644
--- a/allow.c
+++ b/allow.c
@@ -37,6 +37,8 @@ in_file(char *str, char *file)
     char buf[LINE_LEN];
     FILE *f = NULL;
     char *start = NULL;
+    int has_all = 0;
+    int ret = 0;
 
     if ((f = fopen(file, "r")) == NULL) {
         if (errno == ENOENT)
@@ -46,7 +48,11 @@ in_file(char *str, char *file)
             die_e("could not open %s", file);
     }
 
-    while (fgets(buf, sizeof(buf), f) != NULL) {
+    while ((ret = read_line(f, buf, sizeof(buf))) != 0) {
+
+        /* no user has such a name */
+        if (ret == -1)
+            continue;
 
         /* skip leading and trailing blanks, comments */
         start = buf;
@@ -59,15 +65,17 @@ in_file(char *str, char *file)
             xfclose_check(&f, file);
             return 1;
         }
-        if (strcmp(start, "all") == 0) {
-            xfclose_check(&f, file);
-            return 2;
-        }
+        /* (the name of the user may come after "all") */
+        if (strcmp(start, "all") == 0)
+            has_all = 1;
     }
 
+    if (ferror(f))
+        die_e("could not read %s", file);
+
     xfclose_check(&f, file);
     /* if execution gets here, string is not in file */
-    return 0;
+    return has_all ? 2 : 0;
 
 
 }
diff --git a/subs.c b/subs.c
index c14da65..ecdcc04 100644
--- a/subs.c
+++ b/subs.c
@@ -359,6 +359,31 @@ remove_blanks(char *str)
 
 }
 
+int
+read_line(FILE *f, char *buf, size_t size)
+/* Read a line, without its newline character, into buf.
+ * Return 1, 0 at the end of the file, or -1 if the line cannot be used, because
+ * it is too long or contains a NUL character (it is then skipped as a whole). */
+{
+    size_t len = 0;
+    int valid = 1;
+    int c = EOF;
+    int something = 0;
+
+    while ((c = getc(f)) != EOF && c != '\n') {
+        something = 1;
+        if (c == '\0' || len >= size - 1)
+            valid = 0;
+        else
+            buf[len++] = c;
+    }
+    buf[len] = '\0';
+
+    if (c == EOF && (!something || ferror(f)))
+        return 0;
+    return valid ? 1 : -1;
+}
+
 int
 strcmp_until(const char *left, const char *right, char until)
 /* compare two strings up to a given char (copied from Vixie cron) */
diff --git a/subs.h b/subs.h
index c777f06..78e092d 100644
--- a/subs.h
+++ b/subs.h
@@ -41,6 +41,7 @@ extern int rename_as_user(const char *oldpath, const char *newpath,
                           uid_t renameuid, gid_t renamegid);
 
 extern int remove_blanks(char *str);
+extern int read_line(FILE * f, char *buf, size_t size);
 extern int strcmp_until(const char *left, const char *right, char until);
 extern int get_word(char **str);
 extern void my_unsetenv(const char *name);
-- 
2.43.0


From ef833cbf02066cf6f619cd5cc1d31b0b6deee953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:47 +0000
Subject: [PATCH 089/116] fix: fcron.conf: abbreviated, empty or too long lines
 changed values, and lines the user may not read were shown

---
 fcronconf.c | 64 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 17 deletions(-)

diff --git a/fcronconf.c b/fcronconf.c
index 346d36d..20bfcdd 100644
--- a/fcronconf.c
+++ b/fcronconf.c
@@ -96,7 +96,10 @@ read_conf(void)
     struct stat st;
     char buf[LINE_LEN];
     char *ptr1 = NULL, *ptr2 = NULL;
-    short namesize = 0;
+    int namesize = 0;
+    int line_num = 0;
+    int ret = 0;
+    int has_equal = 0;
     char err_on_enoent = 0;
     struct group *gr = NULL;
     gid_t fcrongid = -1;
@@ -139,69 +142,96 @@ read_conf(void)
         return;
     }
 
-    while ((ptr1 = fgets(buf, sizeof(buf), f)) != NULL) {
+    while ((ret = read_line(f, buf, sizeof(buf))) != 0) {
 
+        /* (the content of a line is not given in the messages, as the user may
+         * not be allowed to read that file) */
+        line_num++;
+        if (ret == -1) {
+            error("%s:%d: line too long or not valid : line ignored",
+                  fcronconf, line_num);
+            continue;
+        }
+
+        ptr1 = buf;
         Skip_blanks(ptr1);      /* at the beginning of the line */
 
         /* ignore comments and blank lines */
-        if (*ptr1 == '#' || *ptr1 == '\n' || *ptr1 == '\0')
+        if (*ptr1 == '#' || *ptr1 == '\0')
             continue;
 
         remove_blanks(ptr1);    /* at the end of the line */
 
         /* get the name of the var */
-        if ((namesize = get_word(&ptr1)) == 0)
+        if ((namesize = get_word(&ptr1)) == 0) {
             /* name is zero-length */
-            error("Zero-length var name at line %s : line ignored", buf);
+            error("%s:%d: Zero-length var name : line ignored", fcronconf,
+                  line_num);
+            continue;
+        }
 
         ptr2 = ptr1 + namesize;
 
         /* skip the blanks and the "=" and go to the value */
+        has_equal = 0;
         while (isspace((int)*ptr2))
             ptr2++;
-        if (*ptr2 == '=')
+        if (*ptr2 == '=') {
+            has_equal = 1;
             ptr2++;
+        }
+        if (!has_equal && (*ptr2 == '\0' || ptr2 == ptr1 + namesize)) {
+            error("%s:%d: Missing value : line ignored", fcronconf, line_num);
+            continue;
+        }
         while (isspace((int)*ptr2))
             ptr2++;
 
         /* find which var the line refers to and update it */
-        if (strncmp(ptr1, "fcrontabs", namesize) == 0) {
+#define Is_var(NAME) \
+        (namesize == strlen(NAME) && strncmp(ptr1, NAME, namesize) == 0)
+
+        if (Is_var("fcrontabs")) {
             Set(fcrontabs, ptr2);
         }
-        else if (strncmp(ptr1, "pidfile", namesize) == 0) {
+        else if (Is_var("pidfile")) {
             Set(pidfile, ptr2);
         }
-        else if (strncmp(ptr1, "suspendfile", namesize) == 0) {
+        else if (Is_var("suspendfile")) {
             Set(suspendfile, ptr2);
         }
-        else if (strncmp(ptr1, "fifofile", namesize) == 0) {
+        else if (Is_var("fifofile")) {
             Set(fifofile, ptr2);
         }
-        else if (strncmp(ptr1, "fcronallow", namesize) == 0) {
+        else if (Is_var("fcronallow")) {
             Set(fcronallow, ptr2);
         }
-        else if (strncmp(ptr1, "fcrondeny", namesize) == 0) {
+        else if (Is_var("fcrondeny")) {
             Set(fcrondeny, ptr2);
         }
-        else if (strncmp(ptr1, "shell", namesize) == 0) {
+        else if (Is_var("shell")) {
             Set(shell, ptr2);
         }
-        else if (strncmp(ptr1, "sendmail", namesize) == 0) {
+        else if (Is_var("sendmail")) {
             Set(sendmail, ptr2);
         }
-        else if (strncmp(ptr1, "editor", namesize) == 0) {
+        else if (Is_var("editor")) {
             Set(editor, ptr2);
         }
-        else if (strncmp(ptr1, "maildisplayname", namesize) == 0) {
+        else if (Is_var("maildisplayname")) {
             char *output = format_maildisplayname(ptr2);
             Set(maildisplayname, output ? output : "");
             Free_safe(output);
         }
         else
-            error("Unknown var name at line %s : line ignored", buf);
+            error("%s:%d: Unknown var name : line ignored", fcronconf,
+                  line_num);
 
     }
 
+    if (ferror(f))
+        error_e("Could not read all of %s", fcronconf);
+
     if (debug_opt) {
         debug("  fcronconf=%s", fcronconf);
 /*  	debug("  fcronallow=%s", fcronallow); */
-- 
2.43.0


From f0905df7dc411961281b7708aa9ddcd655b7ff15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:47 +0000
Subject: [PATCH 090/116] fix: the files of users with names as rm.USER,
 new.USER or USER.orig were those of other users

---
 fcrontab.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/fcrontab.c b/fcrontab.c
index 599a40f..2761858 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -910,6 +910,19 @@ conv_pam(int num_msg, const struct pam_message **msgm,
 #endif                          /* HAVE_LIBPAM */
 
 
+static int
+is_valid_user_name(const char *name)
+    /* return 0 if the names of the files of that user could be
+     * those of the files of another user or directory */
+{
+    const char *ext = strrchr(name, '.');
+
+    return (name[0] != '.' && name[0] != '\0' && strchr(name, '/') == NULL
+            && strncmp(name, "new.", 4) != 0 && strncmp(name, "rm.", 3) != 0
+            && (ext == NULL
+                || (strcmp(ext, ".orig") != 0 && strcmp(ext, ".tmp") != 0)));
+}
+
 void
 parseopt(int argc, char *argv[])
   /* set options */
@@ -1080,6 +1093,14 @@ parseopt(int argc, char *argv[])
         }
     }
 
+    if (!is_valid_user_name(user)
+#ifdef SYSFCRONTAB
+        || (strcmp(user, SYSFCRONTAB) == 0 && !is_sysfcrontab)
+#endif
+        )
+        die("User \"%s\" cannot have a fcrontab, because the name of its files "
+            "would be those of others. Aborting.", user);
+
     if (
 #ifdef SYSFCRONTAB
            !is_sysfcrontab &&
-- 
2.43.0


From e868e2074752905aea1da2980fbf334b7b09d55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:46 +0000
Subject: [PATCH 091/116] fix: fcrontab -e did not work without a shell in
 fcron.conf

---
 fcrontab.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fcrontab.c b/fcrontab.c
index 2761858..f7fef79 100644
--- a/fcrontab.c
+++ b/fcrontab.c
@@ -611,6 +611,9 @@ edit_file(const char *fcron_orig)
             snprintf(editorcmd, sizeof(editorcmd), "%s %s", cureditor, tmp_str);
             if (chdir(tmp_path) != 0)
                 error_e("Could not chdir to %s", tmp_path);
+            /* (no shell is set if there is none in fcron.conf) */
+            if (shell[0] == '\0')
+                Set(shell, FCRON_SHELL);
             execlp(shell, shell, "-c", editorcmd, tmp_str, NULL);
             error_e("Error while running \"%s\"", cureditor);
             goto exiterr;
-- 
2.43.0


From 7a3e7b61bac18d9b6afb8769dbba3e41c9c1ffc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:45 +0000
Subject: [PATCH 092/116] fix: allow and deny files: names after many blanks
 were not seen

---
 subs.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/subs.c b/subs.c
index ecdcc04..3d90c82 100644
--- a/subs.c
+++ b/subs.c
@@ -361,7 +361,7 @@ remove_blanks(char *str)
 
 int
 read_line(FILE *f, char *buf, size_t size)
-/* Read a line, without its newline character, into buf.
+/* Read a line, without its newline character and leading blanks, into buf.
  * Return 1, 0 at the end of the file, or -1 if the line cannot be used, because
  * it is too long or contains a NUL character (it is then skipped as a whole). */
 {
@@ -372,7 +372,12 @@ read_line(FILE *f, char *buf, size_t size)
 
     while ((c = getc(f)) != EOF && c != '\n') {
         something = 1;
-        if (c == '\0' || len >= size - 1)
+        if (c == '\0')
+            valid = 0;
+        else if (isspace(c) && (len == 0 || len >= size - 1))
+            /* only matters if something follows */
+            continue;
+        else if (len >= size - 1)
             valid = 0;
         else
             buf[len++] = c;
-- 
2.43.0


From f2e0afab4800b1864e162be15dc017397a916bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:13 +0000
Subject: [PATCH 093/116] fix: subs.h could not be included by itself

---
 subs.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subs.h b/subs.h
index 78e092d..94a3431 100644
--- a/subs.h
+++ b/subs.h
@@ -25,6 +25,9 @@
 #ifndef __SUBS_H__
 #define __SUBS_H__
 
+#include <stdio.h>
+#include <sys/types.h>
+
 
 /* functions prototypes */
 extern uid_t get_user_uid_safe(char *username);
-- 
2.43.0


From 617e5dfe5cfbd80930932f4bcfaab2fc57c33803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:48 +0000
Subject: [PATCH 094/116] fix: a config file which is not trusted gave the
 default values with -c

A user could get the default access files, etc. instead of those of the
system's config file by giving any file of his own to fcrontab or fcrondyn.
And fcronsighup (which is always given a config file by fcrontab) did not
work without fcron.conf.
---
 fcronconf.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/fcronconf.c b/fcronconf.c
index 20bfcdd..a08dec3 100644
--- a/fcronconf.c
+++ b/fcronconf.c
@@ -100,24 +100,28 @@ read_conf(void)
     int line_num = 0;
     int ret = 0;
     int has_equal = 0;
-    char err_on_enoent = 0;
+    char is_explicit = 0;
     struct group *gr = NULL;
     gid_t fcrongid = -1;
 
-    if (fcronconf != NULL)
-        /* fcronconf has been set by -c option : file must exist */
-        err_on_enoent = 1;
+    if (fcronconf != NULL && strcmp(fcronconf, ETC "/" FCRON_CONF) != 0)
+        /* fcronconf has been set by -c option : file must exist and be usable,
+         * otherwise a user could get the default values instead of the ones
+         * of the system's config file */
+        is_explicit = 1;
 
     init_conf();
 
     if ((f = fopen(fcronconf, "r")) == NULL) {
         if (errno == ENOENT) {
-            if (err_on_enoent)
+            if (is_explicit)
                 die_e("Could not read %s", fcronconf);
             else
                 /* file does not exist, it is not an error  */
                 return;
         }
+        else if (is_explicit)
+            die_e("Could not read %s", fcronconf);
         else {
             error_e("Could not read %s : config file ignored", fcronconf);
             return;
@@ -136,8 +140,11 @@ read_conf(void)
     if (fstat(fileno(f), &st) != 0
         || st.st_uid != rootuid || st.st_gid != fcrongid
         || st.st_mode & S_IWGRP || st.st_mode & S_IWOTH) {
+        if (is_explicit)
+            die("Conf file (%s) must be owned by root:" GROUPNAME
+                " and (no more than) 644", fcronconf);
         error("Conf file (%s) must be owned by root:" GROUPNAME
-              " and (no more than) 644 : ignored", fcronconf, GROUPNAME);
+              " and (no more than) 644 : ignored", fcronconf);
         xfclose_check(&f, fcronconf);
         return;
     }
-- 
2.43.0


From 3aab68a1a111ac2a03081c8d74ddb5f5423b3a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 095/116] fix: fcronsighup could signal other processes than
 fcron

A pid file which holds -1, 0, an overflowed value or the beginning of something
else was given to kill().  Also give remove()'s error message its argument.
---
 fcronsighup.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/fcronsighup.c b/fcronsighup.c
index dc14df3..2f9df44 100644
--- a/fcronsighup.c
+++ b/fcronsighup.c
@@ -69,12 +69,29 @@ read_pid(void)
 {
     FILE *fp = NULL;
     pid_t pid = 0;
+    char buf[TERM_LEN];
+    char *end = NULL;
+    long long int val = 0;
 
     if ((fp = fopen(pidfile, "r")) != NULL) {
-        if (fscanf(fp, "%" ATTR_SIZE_PIDT "d", CAST_PIDT_PTR & pid) < 1)
-            error("Unable to read fcron daemon's pid (fscanf(fp,...))");
+
+        /* a number which is not the pid of a single process must never be
+         * given to kill(2) */
+        if (read_line(fp, buf, sizeof(buf)) == 1) {
+            errno = 0;
+            val = strtoll(buf, &end, 10);
+            remove_blanks(end);
+            pid = (pid_t) val;
+        }
+        if (end == NULL || end == buf || *end != '\0' || errno != 0
+            || pid != val || pid <= 1) {
+            error("Unable to read fcron daemon's pid from %s", pidfile);
+            pid = 0;
+        }
         xfclose_check(&fp, pidfile);
     }
+    else if (errno != ENOENT)
+        error_e("Could not open %s", pidfile);
 
     return pid;
 }
@@ -184,7 +201,7 @@ sig_daemon(void)
         fd = -1;
 
         if (remove(sigfile) < 0)
-            error_e("Could not remove %s");
+            error_e("Could not remove %s", sigfile);
     }
     else
         /* we are root, or config MAX_FCRONTAB_RELOAD_DELAY_SECONDS=0 is set */
-- 
2.43.0


From 5e9c932961fc7ca5a0c26e3ae88471fb49a40fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 096/116] fix: the daemon was not signaled if fcrontab.sig
 could not be opened or locked

and the user was told that the modifications would be taken into account.
---
 fcronsighup.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/fcronsighup.c b/fcronsighup.c
index 2f9df44..84e692c 100644
--- a/fcronsighup.c
+++ b/fcronsighup.c
@@ -172,21 +172,18 @@ sig_daemon(void)
               getgid(), getegid());
         /* // */
         fd = open(sigfile, O_RDWR | O_CREAT, 0644);
-        if (fd == -1)
-            die_e("can't open or create %s", sigfile);
-        fp = fdopen(fd, "r+");
-        if (fp == NULL)
-            die_e("can't fdopen %s", sigfile);
-
-
+        if (fd == -1 || (fp = fdopen(fd, "r+")) == NULL)
+            /* the lock only avoids useless signals : do without it */
+            error_e("can't open or create %s", sigfile);
 #ifdef HAVE_FLOCK
-        if (flock(fd, LOCK_EX | LOCK_NB) != 0) {
+        else if (flock(fd, LOCK_EX | LOCK_NB) != 0 && errno == EWOULDBLOCK) {
             debug("fcrontab is already waiting for signalling the daemon :"
                   " exiting.");
             return;
         }
 #else                           /* HAVE_FLOCK */
-        if (lockf(fd, F_TLOCK, 0) != 0) {
+        else if (lockf(fd, F_TLOCK, 0) != 0
+                 && (errno == EACCES || errno == EAGAIN)) {
             debug("fcrontab is already waiting for signalling the daemon :"
                   " exiting.");
             return;
@@ -196,11 +193,14 @@ sig_daemon(void)
         sleep(delay_s);
 
         /* also closes the underlying file descriptor fd: */
-        xfclose_check(&fp, sigfile);
+        if (fp != NULL)
+            xfclose_check(&fp, sigfile);
+        else if (fd != -1)
+            xclose(&fd);
         /* also reset fd, now closed by xfclose_check(), to make it clear it is closed */
         fd = -1;
 
-        if (remove(sigfile) < 0)
+        if (remove(sigfile) < 0 && errno != ENOENT)
             error_e("Could not remove %s", sigfile);
     }
     else
-- 
2.43.0


From c219ea16ed43c16ac27032c2dfe8be3f3971dfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 097/116] fix: a user could keep the changes of others from
 being taken into account

by killing or stopping the fcronsighup process which waits to signal the daemon
on behalf of everyone (and ^C or the end of a session did it by accident).
---
 fcronsighup.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/fcronsighup.c b/fcronsighup.c
index 84e692c..9b503aa 100644
--- a/fcronsighup.c
+++ b/fcronsighup.c
@@ -166,6 +166,20 @@ sig_daemon(void)
 
         foreground = 0;
 
+        /* other users' modifications may rely on our signal too, so make sure
+         * that our user or terminal cannot kill or stop us until it is sent */
+        setsid();
+#ifdef USE_SETE_ID
+        if (seteuid(rootuid) != 0)
+            error_e("seteuid(rootuid)");
+#endif                          /* USE_SETE_ID */
+        if (setuid(rootuid) != 0)
+            error_e("setuid(rootuid)");
+#ifdef USE_SETE_ID
+        if (seteuid(fcrontab_uid) != 0)
+            die_e("Could not change euid to " USERNAME "[%d]", fcrontab_uid);
+#endif                          /* USE_SETE_ID */
+
         /* try to create a lock file */
         /* // */
         debug("uid: %d, euid: %d, gid: %d, egid: %d", getuid(), geteuid(),
-- 
2.43.0


From e2945590525de490f19c39731917e6f5202976e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:58 +0000
Subject: [PATCH 098/116] fix: a daemon started while another one was ending
 could run without pid file

and a third one could then run besides it.
---
 fcron.c | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/fcron.c b/fcron.c
index 3db6b5e..48cb571 100644
--- a/fcron.c
+++ b/fcron.c
@@ -252,23 +252,39 @@ get_lock()
     int otherpid = 0;
     FILE *daemon_lockfp = NULL;
     int fd;
+    struct stat locked, current;
 
-    if (((fd = open(pidfile, O_RDWR | O_CREAT, 0644)) == -1)
-        || ((daemon_lockfp = fdopen(fd, "r+"))) == NULL)
-        die_e("can't open or create %s", pidfile);
+    while (1) {
+        if (((fd = open(pidfile, O_RDWR | O_CREAT, 0644)) == -1)
+            || ((daemon_lockfp = fdopen(fd, "r+"))) == NULL)
+            die_e("can't open or create %s", pidfile);
 
 #ifdef HAVE_FLOCK
-    if (flock(fd, LOCK_EX | LOCK_NB) != 0)
+        if (flock(fd, LOCK_EX | LOCK_NB) != 0)
 #else                           /* HAVE_FLOCK */
-    if (lockf(fileno(daemon_lockfp), F_TLOCK, 0) != 0)
+        if (lockf(fileno(daemon_lockfp), F_TLOCK, 0) != 0)
 #endif                          /* ! HAVE_FLOCK */
-    {
-        if (fscanf(daemon_lockfp, "%d", &otherpid) >= 1)
-            die_e("can't lock %s, running daemon's pid may be %d", pidfile,
-                  otherpid);
-        else
-            die_e("can't lock %s, and unable to read running"
-                  " daemon's pid", pidfile);
+        {
+            if (fscanf(daemon_lockfp, "%d", &otherpid) >= 1)
+                die_e("can't lock %s, running daemon's pid may be %d", pidfile,
+                      otherpid);
+            else
+                die_e("can't lock %s, and unable to read running"
+                      " daemon's pid", pidfile);
+        }
+
+        /* a daemon which was ending may have removed the file after we opened
+         * it : in this case nobody else would see our lock and our pid */
+        if (fstat(fd, &locked) != 0)
+            die_e("could not fstat() %s", pidfile);
+        if (stat(pidfile, &current) == 0) {
+            if (locked.st_dev == current.st_dev
+                && locked.st_ino == current.st_ino)
+                break;
+        }
+        else if (errno != ENOENT)
+            die_e("could not stat() %s", pidfile);
+        xfclose_check(&daemon_lockfp, pidfile);
     }
 
     fcntl(fd, F_SETFD, 1);
-- 
2.43.0


From 8609c4a1a52e2c5ec5ddf21507f8ceb902a053d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:58 +0000
Subject: [PATCH 099/116] fix: errors while writing the pid file were ignored

---
 fcron.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fcron.c b/fcron.c
index 48cb571..e7f1826 100644
--- a/fcron.c
+++ b/fcron.c
@@ -290,8 +290,9 @@ get_lock()
     fcntl(fd, F_SETFD, 1);
 
     rewind(daemon_lockfp);
-    fprintf(daemon_lockfp, "%d\n", (int)daemon_pid);
-    fflush(daemon_lockfp);
+    if (fprintf(daemon_lockfp, "%d\n", (int)daemon_pid) < 0
+        || fflush(daemon_lockfp) != 0)
+        die_e("can't write our pid to %s", pidfile);
     if (ftruncate(fileno(daemon_lockfp), ftell(daemon_lockfp)) < 0)
         error_e
             ("Unable to ftruncate(fileno(daemon_lockfp), ftell(daemon_lockfp))");
-- 
2.43.0


From 25ff737e7669834f89b4f2c3c8fb86d8d9e6f9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:20 +0000
Subject: [PATCH 100/116] fix: running jobs kept the pid file locked after a
 crash

so a new daemon could not be started until they ended.
---
 database.c | 4 ++++
 fcron.c    | 2 ++
 fcron.h    | 1 +
 job.c      | 4 ++++
 4 files changed, 11 insertions(+)

diff --git a/database.c b/database.c
index 747ff1f..bcda060 100644
--- a/database.c
+++ b/database.c
@@ -1709,6 +1709,10 @@ mail_notrun(cl_t *line, char context, struct tm *since)
         return;
     }
 
+    /* the pid file must not stay locked if the daemon ends before us */
+    if (lock_fd != -1)
+        xclose_check(&lock_fd, pidfile);
+
     /* If line should be scheduled in a different time zone
      * (ie. cl_tz != NULL),
      * switch to that timezone now, before we do the calculations. */
diff --git a/fcron.c b/fcron.c
index e7f1826..3184599 100644
--- a/fcron.c
+++ b/fcron.c
@@ -79,6 +79,7 @@ char *tmp_path = "";
 
 /* process identity */
 pid_t daemon_pid;
+int lock_fd = -1;               /* fd of the (locked) pid file */
 mode_t saved_umask;             /* default root umask */
 char *prog_name = NULL;
 char *orig_tz_envvar = NULL;
@@ -288,6 +289,7 @@ get_lock()
     }
 
     fcntl(fd, F_SETFD, 1);
+    lock_fd = fd;
 
     rewind(daemon_lockfp);
     if (fprintf(daemon_lockfp, "%d\n", (int)daemon_pid) < 0
diff --git a/fcron.h b/fcron.h
index 6f06c53..6957b64 100644
--- a/fcron.h
+++ b/fcron.h
@@ -68,6 +68,7 @@ extern char default_mail_charset[TERM_LEN];
 extern time_t first_sleep;
 extern char *cdir;
 extern pid_t daemon_pid;
+extern int lock_fd;
 extern char *orig_tz_envvar;
 extern mode_t saved_umask;
 extern char *prog_name;
diff --git a/job.c b/job.c
index ff8f8d0..d2f8caf 100644
--- a/job.c
+++ b/job.c
@@ -590,6 +590,10 @@ run_job(struct exe_t *exeent)
             int flask_enabled = is_selinux_enabled();
 #endif
 
+            /* the pid file must not stay locked if the daemon ends before us */
+            if (lock_fd != -1)
+                xclose_check(&lock_fd, pidfile);
+
             /* // */
             debug("run_job(): child: %s, output to %s, %s, %s\n",
                   is_mail(line->cl_option) ? "mail" : "no mail",
-- 
2.43.0


From 5993cf93efcddc75f8f10277e1b6c7d949fc9f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:10 +0000
Subject: [PATCH 101/116] fix: a suspend could stay unnoticed, or be noticed
 after jobs were started too early

---
 suspend.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/suspend.c b/suspend.c
index 9c9834a..fde512e 100644
--- a/suspend.c
+++ b/suspend.c
@@ -250,9 +250,9 @@ check_suspend(time_t slept_from, time_t nwt, bool *sig_cont,
      * reschedule jobs accordingly */
 {
     long int suspend_duration = 0;      /* amount of time the system was suspended */
+#if !defined(CLOCK_BOOTTIME) || !defined(CLOCK_MONOTONIC)
     long int time_diff;         /* estimate of suspend_duration (as fallback) */
-
-    time_diff = now - nwt;
+#endif
 
 #ifdef TFD_TIMER_CANCEL_ON_SET
     if (si->retcode > 0 && FD_ISSET(timer_cancel_on_set_fd, &si->readfds)) {
@@ -292,13 +292,16 @@ check_suspend(time_t slept_from, time_t nwt, bool *sig_cont,
      * NOTE: the +5 second is arbitrary -- just a way to make sure
      * we don't get any false positive.  If the suspend or hibernate
      * is very short it seems fine to simply ignore it anyway */
-    if (suspend_duration <= 0 && time_diff > 5) {
 #if defined(CLOCK_BOOTTIME) && defined(CLOCK_MONOTONIC)
+    /* (the clocks know about any suspend, even if we were woken up by something
+     * else before we were notified, and even if it ends before our timer) */
+    if (suspend_duration <= 0)
         suspend_duration = linux_get_suspend_time(&linux_suspend_ref);
 #else                           /* defined(CLOCK_BOOTTIME) && defined(CLOCK_MONOTONIC) */
+    time_diff = now - nwt;
+    if (suspend_duration <= 0 && time_diff > 5)
         suspend_duration = time_diff;
 #endif                          /* defined(CLOCK_BOOTTIME) && defined(CLOCK_MONOTONIC) */
-    }
 
     if (suspend_duration > 0) {
         long int actual_sleep = now - slept_from;
-- 
2.43.0


From b611839665499e36ea29158a6ec3a22dd67e1ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:42 +0000
Subject: [PATCH 102/116] fix: a signal received at resume made jobs forget or
 repeat the time suspended

---
 fcron.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/fcron.c b/fcron.c
index 3184599..be568f5 100644
--- a/fcron.c
+++ b/fcron.c
@@ -37,6 +37,7 @@
 
 
 void main_loop(void);
+void check_sigchld(void);
 void check_signal(void);
 void reset_sig_cont(void);
 void info(void);
@@ -797,8 +798,8 @@ main(int argc, char **argv)
 
 
 void
-check_signal()
-    /* Action any received signals. */
+check_sigchld()
+    /* Take care of the jobs which have ended. */
 {
     if (sig_chld == true) {
         /* reset the flag first: a signal may come while we handle this one */
@@ -806,6 +807,13 @@ check_signal()
         wait_chld();
         reinstall_signal_handler(SIGCHLD, sigchld_handler);
     }
+}
+
+void
+check_signal()
+    /* Action any received signals. */
+{
+    check_sigchld();
 
     if (sig_term == true) {
         sig_term = false;
@@ -967,9 +975,12 @@ main_loop()
         now = my_time();
         debug_print_tstamp("just woke up");
 
-        check_signal();
+        /* a suspend must be taken into account before the signals which may
+         * save, load or reload files */
+        check_sigchld();
         check_suspend(slept_from, nwt, &sig_cont, &main_select);
         reset_sig_cont();
+        check_signal();
         debug_print_tstamp("    after check_signal and suspend");
 
         test_jobs();
-- 
2.43.0


From cb2ca51fe0d9b076513da088b96189cfbf5648d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:42 +0000
Subject: [PATCH 103/116] fix: volatile jobs started counting again at each
 resume

---
 database.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database.c b/database.c
index bcda060..c75a5ac 100644
--- a/database.c
+++ b/database.c
@@ -1586,7 +1586,8 @@ set_next_exe_startup(struct cl_t *cl, const int context,
             || (context == CONTEXT_RESUME && is_runatresume(cl->cl_option))) {
             cl->cl_nextexe = now;
         }
-        else if (is_new_file || is_volatile(cl->cl_option)
+        else if (is_new_file
+                 || (is_volatile(cl->cl_option) && context != CONTEXT_RESUME)
                  || (context == CONTEXT_BOOT && (is_rebootreset(cl->cl_option)
                                                  || is_runonce(cl->cl_option)))) {
             /* cl_first is always saved to disk for a volatile line */
-- 
2.43.0


From 06424386fe386f728444c3e86f5f6ea490315796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:22 +0000
Subject: [PATCH 104/116] fix: any user could list the jobs of the system
 fcrontab with fcrondyn

---
 fcrondyn_svr.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 2599254..752ca8b 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -564,8 +564,15 @@ cmd_ls(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
             struct passwd *pass;
 
 #ifdef SYSFCRONTAB
-            if (cmd[1] == SYSFCRONTAB_UID)
+            if (cmd[1] == SYSFCRONTAB_UID) {
+                if (!is_root) {
+                    warn("%s is not allowed to see %s's jobs.",
+                         client->fcl_user, SYSFCRONTAB);
+                    Send_err_msg_end(fd, err_others_nallowed_str);
+                    return;
+                }
                 user = SYSFCRONTAB;
+            }
             else {
 #endif
                 if ((pass = getpwuid((uid_t) cmd[1])) == NULL) {
@@ -574,8 +581,8 @@ cmd_ls(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
                     return;
                 }
                 if (!is_root && strcmp(pass->pw_name, client->fcl_user) != 0) {
-                    warn_e("%s is not allowed to see %s's jobs. %ld",
-                           client->fcl_user, pass->pw_name);
+                    warn("%s is not allowed to see %s's jobs.",
+                         client->fcl_user, pass->pw_name);
                     Send_err_msg_end(fd, err_others_nallowed_str);
                     return;
                 }
-- 
2.43.0


From 3609cfc72c3f6899a3a863edb6154634600efa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:22 +0000
Subject: [PATCH 105/116] fix: a failed kill or renice command of fcrondyn was
 answered several times

---
 fcrondyn_svr.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 752ca8b..fa6cbc8 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -675,8 +675,11 @@ cmd_on_exeq(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
                         "%ld for %s : not allowed.";
 
                 warn(err_str, client->fcl_user, cmd[1], cmd[2],
-                     client->fcl_user);
-                Send_err_msg_end(fd, err_job_nfound_str);
+                     e->e_line->cl_file->cf_user);
+                Send_err_msg(fd, err_rjob_nfound_str);
+                /* one answer is enough, even if this job runs several times */
+                exe_list_end_iteration(exe_list);
+                break;
             }
             else {
                 /* request is valid : do it */
@@ -686,9 +689,9 @@ cmd_on_exeq(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
                 else if (cmd[0] == CMD_RENICE)
                     cmd_renice(client, cmd, fd, e, is_root);
                 else {
-                    Send_err_msg_end(fd, err_cmd_unknown_str);
+                    Send_err_msg(fd, err_cmd_unknown_str);
                     exe_list_end_iteration(exe_list);
-                    return;
+                    break;
                 }
             }
         }
@@ -707,12 +710,13 @@ cmd_on_exeq(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
                 " no corresponding running job.";
 
         warn(err_str, cmd[2], client->fcl_user);
-        Send_err_msg_end(fd, err_rjob_nfound_str);
-    }
-    else {
-        Tell_no_more_data(fd);
+        Send_err_msg(fd, err_rjob_nfound_str);
     }
 
+    /* (exactly one end of answer, otherwise fcrondyn would take the second one
+     * for the answer to its next command) */
+    Tell_no_more_data(fd);
+
 }
 
 
@@ -728,7 +732,7 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
         || (int)cmd[1] > 20 || (int)cmd[1] < -20) {
         warn("renice: invalid args : pid: %d nice_value: %d user: %s.",
              e->e_job_pid, (int)cmd[1], client->fcl_user);
-        Send_err_msg_end(fd, err_invalid_args_str);
+        Send_err_msg(fd, err_invalid_args_str);
         return;
     }
 
@@ -736,7 +740,7 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
     if (setpriority(PRIO_PROCESS, e->e_job_pid, (int)cmd[1]) != 0) {
         error_e("could not setpriority(PRIO_PROCESS, %d, %d)",
                 e->e_job_pid, (int)cmd[1]);
-        Send_err_msg_end(fd, err_unknown_str);
+        Send_err_msg(fd, err_unknown_str);
         return;
     }
     else {
@@ -747,7 +751,7 @@ cmd_renice(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e,
 
 #else                           /* HAVE_SETPRIORITY */
     warn("System has no setpriority() : cannot renice. pid: %d nice_value: %d user: %s.", e->e_job_pid, (int)cmd[1], client->fcl_user);
-    Send_err_msg_end(fd, err_cmd_unknown_str);
+    Send_err_msg(fd, err_cmd_unknown_str);
 
 #endif                          /* HAVE_SETPRIORITY */
 }
@@ -760,14 +764,14 @@ cmd_send_signal(struct fcrondyn_cl *client, long int *cmd, int fd, exe_t *e)
     if (e->e_job_pid <= 0 || (int)cmd[1] <= 0) {
         warn("send_signal: invalid args : pid: %d signal: %d user: %s",
              e->e_job_pid, (int)cmd[1], client->fcl_user);
-        Send_err_msg_end(fd, err_invalid_args_str);
+        Send_err_msg(fd, err_invalid_args_str);
         return;
     }
 
     /* ok, now kill() the job */
     if (kill(e->e_job_pid, (int)cmd[1]) != 0) {
         error_e("could not kill(%d, %d)", e->e_job_pid, (int)cmd[1]);
-        Send_err_msg_end(fd, err_unknown_str);
+        Send_err_msg(fd, err_unknown_str);
         return;
     }
     else {
-- 
2.43.0


From 838d33e62593d1c9a0a5265b948d90b04df5a0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:22 +0000
Subject: [PATCH 106/116] fix: fcron could read past a truncated password
 message

---
 fcrondyn_svr.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index fa6cbc8..0f58bd3 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -286,6 +286,19 @@ auth_client_password(struct fcrondyn_cl *client)
     char *pass_cry = NULL;
     char *pass_sys = NULL;
     char *pass_str = NULL;
+    char *msg_end = (char *)client->fcl_cmd + client->fcl_cmd_len;
+
+    /* the message must contain a user name and a password, both null-terminated
+     * (the password is stored after the user name) */
+    pass_str = memchr(client->fcl_cmd, '\0', client->fcl_cmd_len);
+    if (pass_str == NULL
+        || memchr(pass_str + 1, '\0', msg_end - (pass_str + 1)) == NULL) {
+        error("Invalid authentication message from socket %d",
+              client->fcl_sock_fd);
+        send(client->fcl_sock_fd, "0", sizeof("0"), 0);
+        return;
+    }
+    pass_str++;
 
 #ifdef HAVE_GETSPNAM
     struct spwd *pass_sp = NULL;
@@ -322,8 +335,6 @@ auth_client_password(struct fcrondyn_cl *client)
         return;
     }
 
-    /* the password is stored after the user name */
-    pass_str = &((char *)client->fcl_cmd)[strlen((char *)client->fcl_cmd) + 1];
     if ((pass_cry = crypt(pass_str, pass_sys)) == NULL) {
         error_e("could not crypt()");
         send(client->fcl_sock_fd, "0", sizeof("0"), 0);
-- 
2.43.0


From a0a97202508f0a52106645b5d9ad5af5638e9dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:22 +0000
Subject: [PATCH 107/116] fix: passwords were checked again at once after too
 many failures

---
 fcrondyn_svr.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 0f58bd3..dd23408 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -331,7 +331,6 @@ auth_client_password(struct fcrondyn_cl *client)
     if (auth_fail >= MAX_AUTH_FAIL) {
         error("Too many authentication failures : try to connect later.");
         send(client->fcl_sock_fd, "0", sizeof("0"), 0);
-        auth_fail = auth_nofail_since = 0;
         return;
     }
 
-- 
2.43.0


From 75c3c64016143a38250c7e06faafc597fc208741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:22 +0000
Subject: [PATCH 108/116] fix: fcron used stale data as the arguments of a
 truncated fcrondyn command

---
 fcrondyn_svr.c | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index dd23408..7e11001 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -827,6 +827,27 @@ cmd_run(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
 
 }
 
+static int
+cmd_num_fields(long int code)
+    /* return the number of fields (i.e. code and arguments) of a command */
+{
+    switch (code) {
+    case CMD_SEND_SIGNAL:
+    case CMD_RENICE:
+        return 3;
+    case CMD_DETAILS:
+    case CMD_LIST_JOBS:
+    case CMD_LIST_LAVGQ:
+    case CMD_LIST_SERIALQ:
+    case CMD_LIST_EXEQ:
+    case CMD_RUN:
+    case CMD_RUNNOW:
+        return 2;
+    default:
+        return 1;
+    }
+}
+
 void
 exe_cmd(struct fcrondyn_cl *client)
     /* read command, and call corresponding function */
@@ -841,9 +862,17 @@ exe_cmd(struct fcrondyn_cl *client)
     cmd = client->fcl_cmd;
     fd = client->fcl_sock_fd;
 
-    /* */
-    debug("exe_cmd [0,1,2] : %d %d %d", cmd[0], cmd[1], cmd[2]);
-    /* */
+    /* what is after the end of the message must not be taken for arguments */
+    if (client->fcl_cmd_len < (int)sizeof(long int)
+        || client->fcl_cmd_len <
+        cmd_num_fields(cmd[0]) * (int)sizeof(long int)) {
+        warn("Invalid command (%d bytes) from user %s.", client->fcl_cmd_len,
+             client->fcl_user);
+        Send_err_msg_end(fd, err_invalid_args_str);
+        return;
+    }
+
+    debug("exe_cmd %ld", cmd[0]);
 
     switch (cmd[0]) {
 
-- 
2.43.0


From d764193ac4a2c2c4442027569fcb1ec8ab868b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:22 +0000
Subject: [PATCH 109/116] fix: fcron accepted any number of fcrondyn
 connections and could overflow its fd_set

---
 fcrondyn_svr.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 7e11001..b1ea606 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -951,8 +951,14 @@ fcrondyn_socket_check(select_instance *si)
         }
         else {
             fcntl(fd, F_SETFD, 1);
+            if (fcrondyn_cl_num >= MAX_CONNECTION || fd >= FD_SETSIZE) {
+                warn("Too many connections (%d) : connection rejected.",
+                     fcrondyn_cl_num);
+                shutdown(fd, SHUT_RDWR);
+                xclose_check(&fd, "client fd");
+            }
             /* set fd to O_NONBLOCK : we do not want fcron to be stopped on error, etc */
-            if (fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK) == -1) {
+            else if (fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK) == -1) {
                 error_e
                     ("Could not set fd attribute O_NONBLOCK : connection rejected.");
                 shutdown(fd, SHUT_RDWR);
-- 
2.43.0


From 7a48a046189f97a73a5cb9cb4b3627f395163be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:40 +0000
Subject: [PATCH 110/116] fix: idle and unauthenticated fcrondyn connections
 could stay open past their limits

---
 fcrondyn_svr.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index b1ea606..41bc5dd 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -935,13 +935,15 @@ fcrondyn_socket_check(select_instance *si)
     int read_len = 0;
     struct fcrondyn_cl *client = NULL, *prev_client = NULL;
 
-    if (si->retcode <= 0)
-        /* no socket to check : go directly to the end of that function */
+    if (si->retcode < 0)
+        /* interrupted : readfds is not valid */
         return;
 
+    /* (even if nothing was received, some connections may have been idle for
+     * too long) */
     debug("Checking socket ...");
 
-    if (FD_ISSET(listen_fd, &si->readfds)) {
+    if (listen_fd >= 0 && FD_ISSET(listen_fd, &si->readfds)) {
         debug("got new connection ...");
         fd = accept(listen_fd, (struct sockaddr *)&client_addr, &addr_len);
         if (fd == -1) {
@@ -996,7 +998,9 @@ fcrondyn_socket_check(select_instance *si)
     client = fcrondyn_cl_base;
     while (client != NULL) {
         if (!FD_ISSET(client->fcl_sock_fd, &si->readfds)
-            || client->fcl_sock_fd == avoid_fd) {
+            || client->fcl_sock_fd == avoid_fd
+            || (client->fcl_user == NULL
+                && now - client->fcl_idle_since > MAX_AUTH_TIME)) {
             /* check if the connection has not been idle for too long ... */
             if (client->fcl_user == NULL
                 && now - client->fcl_idle_since > MAX_AUTH_TIME) {
@@ -1055,7 +1059,7 @@ fcrondyn_socket_close(select_instance *si)
 {
     struct fcrondyn_cl *client, *client_buf = NULL;
 
-    if (listen_fd) {
+    if (listen_fd >= 0) {
         shutdown(listen_fd, SHUT_RDWR);
         xclose_check(&listen_fd, "listening fd");
         unlink(fifofile);
-- 
2.43.0


From ad5f2abcedfa21bb843f59a5de14cd5ad5f9e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:18 +0000
Subject: [PATCH 111/116] fix: fcron dropped the end of an answer which
 fcrondyn had no time to read

---
 fcrondyn_svr.c | 100 ++++++++++++++++++++++++++++++++++++++++++++-----
 fcrondyn_svr.h |   2 +
 select.c       |  44 ++++++++++++++++++----
 select.h       |   4 ++
 4 files changed, 133 insertions(+), 17 deletions(-)

diff --git a/fcrondyn_svr.c b/fcrondyn_svr.c
index 41bc5dd..1915df3 100644
--- a/fcrondyn_svr.c
+++ b/fcrondyn_svr.c
@@ -57,6 +57,9 @@ void cmd_run(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root);
 fcrondyn_cl *fcrondyn_cl_base;  /* list of connected fcrondyn clients */
 int fcrondyn_cl_num = 0;        /* number of fcrondyn clients currently connected */
 int listen_fd = -1;             /* fd which catches incoming connection */
+/* the client whose command is being executed, and the select to use for it */
+static struct fcrondyn_cl *answer_client = NULL;
+static select_instance *answer_select = NULL;
 int auth_fail = 0;              /* number of auth failure */
 time_t auth_nofail_since = 0;   /* we refuse auth since x due to too many failures */
 static char truncated[] = " (truncated)\n";
@@ -77,21 +80,79 @@ char err_all_nallowed_str[] = "You are not allowed to list all jobs.\n";
 char err_others_nallowed_str[] =
     "You are not allowed to list other users' jobs.\n";
 
+static ssize_t send_answer(int fd, const void *data, size_t len);
+
 /* Send an error message to fcrondyn */
 #define Send_err_msg(FD, MSG) \
-          send(FD, MSG, sizeof(MSG), 0);
+          send_answer(FD, MSG, sizeof(MSG));
 
 /* to tell fcrondyn there's no more data to wait */
 #define Tell_no_more_data(FD) \
-	    send(FD, END_STR, sizeof(END_STR), 0);
+	    send_answer(FD, END_STR, sizeof(END_STR));
 
 /* Send an error message to fcrondyn and return */
 #define Send_err_msg_end(FD, MSG) \
         { \
-          send(FD, MSG, sizeof(MSG), 0); \
+          send_answer(FD, MSG, sizeof(MSG)); \
           Tell_no_more_data(FD); \
         }
 
+static ssize_t
+send_answer(int fd, const void *data, size_t len)
+    /* send data to fd, or keep what cannot be sent at once (we must not wait)
+     * to send it when the client has read what we already sent */
+{
+    struct fcrondyn_cl *client = answer_client;
+    ssize_t sent = 0;
+    char *out = NULL;
+
+    if (client == NULL || client->fcl_sock_fd != fd)
+        return send(fd, data, len, 0);
+
+    if (client->fcl_out == NULL) {
+        sent = send(fd, data, len, 0);
+        if (sent < 0 && errno != EAGAIN && errno != EWOULDBLOCK
+            && errno != EINTR)
+            return sent;
+        if (sent < 0)
+            sent = 0;
+        if ((size_t) sent >= len)
+            return sent;
+        /* don't read any other command until this one is answered */
+        select_rm_read(answer_select, fd);
+        select_add_write(answer_select, fd);
+    }
+
+    out = realloc_safe(client->fcl_out, client->fcl_out_len + len - sent,
+                       "fcrondyn answer");
+    memcpy(out + client->fcl_out_len, (const char *)data + sent, len - sent);
+    client->fcl_out = out;
+    client->fcl_out_len += len - sent;
+    return len;
+}
+
+static int
+send_pending(struct fcrondyn_cl *client, select_instance *si)
+    /* send what we kept in send_answer(). Returns ERR if it is impossible */
+{
+    ssize_t sent = send(client->fcl_sock_fd, client->fcl_out,
+                        client->fcl_out_len, 0);
+
+    if (sent < 0)
+        return (errno == EAGAIN || errno == EWOULDBLOCK
+                || errno == EINTR) ? OK : ERR;
+
+    client->fcl_out_len -= sent;
+    if (client->fcl_out_len > 0)
+        memmove(client->fcl_out, client->fcl_out + sent, client->fcl_out_len);
+    else {
+        Free_safe(client->fcl_out);
+        select_rm_write(si, client->fcl_sock_fd);
+        select_add_read(si, client->fcl_sock_fd);
+    }
+    return OK;
+}
+
 void
 fcrondyn_socket_init(select_instance *si)
     /* do everything needed to get a working listening socket */
@@ -403,8 +464,8 @@ print_fields(int fd, unsigned char *details)
     fields[sizeof(fields) - 1] = '\0';
 
     /* add +1 to include the final end-of-string "\0" */
-    if (send(fd, fields, (len + 1 < sizeof(fields)) ? len + 1 : sizeof(fields),
-             0) < 0)
+    if (send_answer
+        (fd, fields, (len + 1 < sizeof(fields)) ? len + 1 : sizeof(fields)) < 0)
         error_e("error in send()");
 
 }
@@ -488,7 +549,8 @@ print_line(int fd, struct cl_t *line, unsigned char *details, pid_t pid,
     buf[sizeof(buf) - 1] = '\0';
 
     /* add +1 to include the final end-of-string "\0" */
-    if (send(fd, buf, (len + 1 < sizeof(buf)) ? len + 1 : sizeof(buf), 0) < 0) {
+    if (send_answer(fd, buf, (len + 1 < sizeof(buf)) ? len + 1 : sizeof(buf)) <
+        0) {
         error_e("error in send()");
     }
 }
@@ -547,8 +609,8 @@ cmd_ls(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
             getloadavg(lavg, 3);
             i = snprintf(lavg_str, sizeof(lavg_str), "Current load average : "
                          "%.1f, %.1f, %.1f\n", lavg[0], lavg[1], lavg[2]);
-            send(fd, lavg_str,
-                 (i + 1 < sizeof(lavg_str)) ? i + 1 : sizeof(lavg_str), 0);
+            send_answer(fd, lavg_str,
+                        (i + 1 < sizeof(lavg_str)) ? i + 1 : sizeof(lavg_str));
 
             bit_set(fields, FIELD_LAVG);
         }
@@ -614,8 +676,10 @@ cmd_ls(struct fcrondyn_cl *client, long int *cmd, int fd, int is_root)
                  e = exe_list_next(exe_list)) {
                 if (e->e_line == NULL) {
                     if (is_root) {
-                        send_msg_fd(fd, "Job no more in an fcrontab: pid %d",
-                                    e->e_job_pid);
+                        char msg[TERM_LEN];
+                        i = snprintf(msg, sizeof(msg), "Job no more in an "
+                                     "fcrontab: pid %d\n", (int)e->e_job_pid);
+                        send_answer(fd, msg, i);
                         found = 1;
                     }
                 }
@@ -908,6 +972,8 @@ and make client points to the next entry */
     debug("closing connection : fd : %d", (*client)->fcl_sock_fd);
     shutdown((*client)->fcl_sock_fd, SHUT_RDWR);
     select_rm_read(si, (*client)->fcl_sock_fd);
+    select_rm_write(si, (*client)->fcl_sock_fd);
+    Free_safe((*client)->fcl_out);
     xclose_check(&((*client)->fcl_sock_fd), "client fd");
     if (prev_client == NULL) {
         fcrondyn_cl_base = (*client)->fcl_next;
@@ -972,6 +1038,8 @@ fcrondyn_socket_check(select_instance *si)
                 /* means : not authenticated yet : */
                 client->fcl_user = NULL;
                 client->fcl_cmd = NULL;
+                client->fcl_out = NULL;
+                client->fcl_out_len = 0;
 
                 /* include new entry in client list */
                 client->fcl_next = fcrondyn_cl_base;
@@ -997,6 +1065,15 @@ fcrondyn_socket_check(select_instance *si)
 
     client = fcrondyn_cl_base;
     while (client != NULL) {
+        if (client->fcl_out != NULL
+            && FD_ISSET(client->fcl_sock_fd, &si->writefds)) {
+            if (send_pending(client, si) == OK)
+                client->fcl_idle_since = now;
+            else {
+                remove_connection(&client, prev_client, si);
+                continue;
+            }
+        }
         if (!FD_ISSET(client->fcl_sock_fd, &si->readfds)
             || client->fcl_sock_fd == avoid_fd
             || (client->fcl_user == NULL
@@ -1042,7 +1119,10 @@ fcrondyn_socket_check(select_instance *si)
             else {
                 /* we've just read a command ... */
                 client->fcl_idle_since = now;
+                answer_client = client;
+                answer_select = si;
                 exe_cmd(client);
+                answer_client = NULL;
             }
             prev_client = client;
             client = client->fcl_next;
diff --git a/fcrondyn_svr.h b/fcrondyn_svr.h
index 5d2e1dc..f2e0ebb 100644
--- a/fcrondyn_svr.h
+++ b/fcrondyn_svr.h
@@ -47,6 +47,8 @@ typedef struct fcrondyn_cl {
     time_t fcl_idle_since;
     int fcl_cmd_len;
     long int *fcl_cmd;
+    char *fcl_out;              /* what could not be sent yet */
+    size_t fcl_out_len;
 } fcrondyn_cl;
 
 
diff --git a/select.c b/select.c
index 59313be..323e225 100644
--- a/select.c
+++ b/select.c
@@ -33,7 +33,9 @@ select_init(struct select_instance *si)
     /* Initialize the structure (zero it) */
 {
     FD_ZERO(&si->readfds);
+    FD_ZERO(&si->writefds);
     FD_ZERO(&si->__readfds_master);
+    FD_ZERO(&si->__writefds_master);
     si->retcode = 0;
     si->__fd_max = -1;
 }
@@ -50,22 +52,48 @@ select_add_read(select_instance *si, int fd)
 
 }
 
-void
-select_rm_read(select_instance *si, int fd)
-    /* remove a fd to the read set */
+static void
+update_fd_max(select_instance *si, int fd)
+    /* update fd_max after fd has been removed from a set */
 {
-    FD_CLR(fd, &si->__readfds_master);
     if (fd >= si->__fd_max) {
         /* fds in the fd_set may not be continuous, so we need
          * to check them all to find the new max */
         int i = fd;
-        while (i >= 0 && !FD_ISSET(i, &si->__readfds_master))
+        while (i >= 0 && !FD_ISSET(i, &si->__readfds_master)
+               && !FD_ISSET(i, &si->__writefds_master))
             i--;
         si->__fd_max = i;
     }
     debug("select: removed fd %d (fd_max=%d)", fd, si->__fd_max);
 }
 
+void
+select_rm_read(select_instance *si, int fd)
+    /* remove a fd to the read set */
+{
+    FD_CLR(fd, &si->__readfds_master);
+    update_fd_max(si, fd);
+}
+
+void
+select_add_write(select_instance *si, int fd)
+    /* Add a fd to the write set */
+{
+    FD_SET(fd, &si->__writefds_master);
+    if (fd > si->__fd_max) {
+        si->__fd_max = fd;
+    }
+}
+
+void
+select_rm_write(select_instance *si, int fd)
+    /* remove a fd from the write set */
+{
+    FD_CLR(fd, &si->__writefds_master);
+    update_fd_max(si, fd);
+}
+
 void
 select_call(struct select_instance *si, struct timeval *timeout,
             const sigset_t *sigmask)
@@ -73,13 +101,15 @@ select_call(struct select_instance *si, struct timeval *timeout,
 {
     struct timespec ts;
 
-    /* re-initialize readfds -- select() will change it */
+    /* re-initialize readfds and writefds -- select() will change them */
     si->readfds = si->__readfds_master;
+    si->writefds = si->__writefds_master;
 
     ts.tv_sec = timeout->tv_sec;
     ts.tv_nsec = timeout->tv_usec * 1000;
     si->retcode =
-        pselect(si->__fd_max + 1, &si->readfds, NULL, NULL, &ts, sigmask);
+        pselect(si->__fd_max + 1, &si->readfds, &si->writefds, NULL, &ts,
+                sigmask);
     if (si->retcode < 0 && errno != EINTR) {
         die_e("select returned %d", errno);
     }
diff --git a/select.h b/select.h
index 66d6ae3..ff5a9a3 100644
--- a/select.h
+++ b/select.h
@@ -42,8 +42,10 @@ typedef struct select_instance {
     /* public (read-only) */
     int retcode;                /* return value of the last call of select() */
     fd_set readfds;             /* to check the status of fds after select_call */
+    fd_set writefds;            /* same for the fds we want to write to */
     /* private */
     fd_set __readfds_master;    /* select() modifies readfds, so we maintain a list in parallel */
+    fd_set __writefds_master;
     int __fd_max;
 } select_instance;
 
@@ -51,6 +53,8 @@ typedef struct select_instance {
 extern void select_init(struct select_instance *si);
 extern void select_add_read(select_instance * si, int fd);
 extern void select_rm_read(select_instance * si, int fd);
+extern void select_add_write(select_instance * si, int fd);
+extern void select_rm_write(select_instance * si, int fd);
 extern void select_call(struct select_instance *si, struct timeval *timeout,
                         const sigset_t * sigmask);
 
-- 
2.43.0


From 7d1236b52d63b66509e29b1ac5319cbbb02afdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:30 +0000
Subject: [PATCH 112/116] fix: a serial job run with fcrondyn waited for the
 next unrelated event

---
 fcron.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fcron.c b/fcron.c
index be568f5..4a1b15b 100644
--- a/fcron.c
+++ b/fcron.c
@@ -1005,6 +1005,11 @@ main_loop()
         /* check if there's a new connection, a new command to answer, etc ... */
         /* we do that *after* other checks, to avoid Denial Of Service attacks */
         fcrondyn_socket_check(&main_select);
+
+        /* a serial job fcrondyn asked for must not wait until we next wake up */
+        while (serial_num > 0 && serial_running < serial_max_running) {
+            run_serial_job();
+        }
 #endif
 
         nwt = check_lavg(save);
-- 
2.43.0


From 5c554b65e2ff956866d1763d8d94112c99a26a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:30 +0000
Subject: [PATCH 113/116] fix: fcrondyn sent a part of the passwd entry along
 with the user id

---
 fcrondyn.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fcrondyn.c b/fcrondyn.c
index e4c712a..911b097 100644
--- a/fcrondyn.c
+++ b/fcrondyn.c
@@ -187,6 +187,7 @@ parse_cmd(char *cmd_str, long int **cmd, int *cmd_len)
     int word_size = 0;
     int i = 0, j = 0, rank = -1;
     long int int_buf = 0;
+    long int user_arg = 0;
     struct passwd *pass = NULL;
 #ifdef SYSFCRONTAB
     long int sysfcrontab_uid = SYSFCRONTAB_UID;
@@ -281,7 +282,8 @@ parse_cmd(char *cmd_str, long int **cmd, int *cmd_len)
                                 cmd_str);
                         return INVALID_ARG;
                     }
-                    Write_cmd(pass->pw_uid);
+                    user_arg = (long int)pass->pw_uid;
+                    Write_cmd(user_arg);
 #ifdef SYSFCRONTAB
                 }
 #endif
-- 
2.43.0


From 1bcbd1be1609314eaae5cafbdf426b0f0ac9bed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:52 +0000
Subject: [PATCH 114/116] fix: fcrondyn broke lines, or waited forever, when an
 answer came in pieces

---
 fcrondyn.c | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/fcrondyn.c b/fcrondyn.c
index 911b097..33a3a2b 100644
--- a/fcrondyn.c
+++ b/fcrondyn.c
@@ -486,6 +486,9 @@ talk_fcron(char *cmd_str, int fd)
     int cmd_len = 0;
     char buf[LINE_LEN];
     ssize_t read_len = 0;
+    ssize_t i = 0;
+    char last_char = '\n';
+    size_t num_nul = 0;         /* number of '\0' just received */
     char existing_connection = (fd < 0) ? 0 : 1;
     fd_set read_set;            /* needed to use select to check if some data is waiting */
     struct timeval tv;
@@ -603,25 +606,25 @@ talk_fcron(char *cmd_str, int fd)
             return ERR;
         }
         else {
-            /* ensure the string is terminated by a '\0' for when we'll printf() it */
-            buf[read_len] = '\0';
-
-            int printed_len = 0;
-            while (printed_len < read_len) {
-                int str_len = strlen(buf + printed_len);
-                printf("%s", buf + printed_len);
-                if (str_len > 0 && buf[printed_len + str_len - 1] != '\n') {
-                    printf("\n");
+            /* an answer may be received in several pieces: a line, or the end of
+             * output marker, may be split between two of them */
+            for (i = 0; i < read_len; i++) {
+                if (buf[i] != '\0') {
+                    putchar(buf[i]);
+                    num_nul = 0;
+                    last_char = buf[i];
+                }
+                else {
+                    num_nul++;
+                    if (last_char != '\n')
+                        putchar('\n');
+                    last_char = '\n';
                 }
-                printed_len += str_len + 1;     /* +1 to account for the end-of-string '\0' marker */
             }
 
             /* check for the end of command output marker */
-            if (read_len >= sizeof(END_STR) &&
-                memcmp(&buf[read_len - sizeof(END_STR)], END_STR,
-                       sizeof(END_STR)) == 0) {
+            if (num_nul >= sizeof(END_STR))
                 break;
-            }
         }
     }
     if (read_len < 0) {
-- 
2.43.0


From 07f6b8fcdd7a758de84361b4db7ed31de62c2476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:01 +0000
Subject: [PATCH 115/116] fix: a long log message about an error was written
 past the end of its buffer

---
 log.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/log.c b/log.c
index 48d88dc..54091ce 100644
--- a/log.c
+++ b/log.c
@@ -146,9 +146,8 @@ make_msg(const char *append, char *fmt, va_list args)
      * returns when the buffer overflows.  Hmmm... */
     len = vsnprintf(msg, MAX_MSG + 1, fmt, args);
     if (append != NULL) {
-        size_t size_to_cat = ((MAX_MSG - len) > 0) ? (MAX_MSG - len) : 0;
-        strncat(msg, ": ", size_to_cat);
-        strncat(msg, append, size_to_cat);
+        if (len >= 0 && len < MAX_MSG)
+            snprintf(msg + len, MAX_MSG + 1 - len, ": %s", append);
         len += 2 + strlen(append);
     }
     if (len >= MAX_MSG)
-- 
2.43.0


From f8a742f7da81f514f9d40aac365ebd1f15167056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:24 +0000
Subject: [PATCH 116/116] fix: memory was lost when a damaged fcrontab had the
 same field twice in a line

---
 conf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conf.c b/conf.c
index 98b5715..fb5c426 100644
--- a/conf.c
+++ b/conf.c
@@ -492,6 +492,7 @@ read_type(int fd, short int *type, short int *size)
 
 #define Read_strn(TO, SIZE, ERR_STR) \
         { \
+          Free_safe(TO); /* a damaged file may have several such fields */ \
           if ( read_strn(fileno(ff), &(TO), SIZE) != OK ) { \
             error_e(ERR_STR); \
 	    goto err; \
-- 
2.43.0

