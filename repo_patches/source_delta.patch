From ae7711f500f792f03452256a1596b97a42b7b826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 01/23] fix: make room for U+10FFFF in arrays indexed by code
 point

---
 src/text.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text.h b/src/text.h
index a82179b..3e5bdfe 100644
--- a/src/text.h
+++ b/src/text.h
@@ -53,7 +53,7 @@ typedef uint32_t Charvalue;
 /* Technically, there are far less *scalar values* (what you and I call
  * "characters") in Unicode, but using the max number of *code points* here
  * makes the implementation simpler. See: http://www.unicode.org/glossary/ */
-#define NUM_CHARVALUES  0x10FFFF
+#define NUM_CHARVALUES  0x110000
 
 /* Maximum char size of a single char_to_string() operation, including the
  * null-terminator. It's either the largetst size of an encoded non-graphic
-- 
2.43.0


From d4a31faaa48cd9f9e3f4ccc0093174ab1bf6dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 02/23] fix: STRING_SIZE must hold a suspect marker before
 <10FFFF>

---
 src/text.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/text.h b/src/text.h
index 3e5bdfe..4da3288 100644
--- a/src/text.h
+++ b/src/text.h
@@ -58,9 +58,9 @@ typedef uint32_t Charvalue;
 /* Maximum char size of a single char_to_string() operation, including the
  * null-terminator. It's either the largetst size of an encoded non-graphic
  * character (this happens to be U+10FFFF) OR the size of an astral (non-BMP)
- * combining character, that combines on top of U+25CC DOTTED CIRCLE
- * WITH a suspect marker! */
-#define STRING_SIZE (max(sizeof("^◌𐇽"), sizeof("<10FFFF>")))
+ * combining character, that combines on top of U+25CC DOTTED CIRCLE, either
+ * of them WITH a suspect marker! */
+#define STRING_SIZE (max(sizeof("^◌𐇽"), sizeof("^<10FFFF>")))
 
 BEGIN_ITEM(Char)
     Boolean suspect;
-- 
2.43.0


From d93111814db918abeb07e828fdb59be589dfdfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 03/23] fix: wordacc word lengths are in characters and bounded
 by MAX_WORDLENGTH

---
 src/wordacc.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/wordacc.c b/src/wordacc.c
index 2eb744e..200a47f 100644
--- a/src/wordacc.c
+++ b/src/wordacc.c
@@ -208,6 +208,19 @@ void obtain_matches()
 }
 /**********************************************************************/
 
+long word_length(string)
+char *string;
+{
+    /* in characters, i.e. not counting the continuation bytes of UTF-8; longer
+       words are counted as words of the maximum length */
+    long length = 0;
+    for (; *string; string++)
+	if ((*string & 0xC0) != 0x80)
+	    length++;
+    return(min(length, MAX_WORDLENGTH));
+}
+/**********************************************************************/
+
 void process_terms(termtable, length, occurs)
 Termtable *termtable;
 Wac length[], occurs[];
@@ -220,7 +233,8 @@ Wac length[], occurs[];
 	missed = termtable->array[i]->wac.missed;
 	increment_wac(&wacdata.total, count, missed);
 	increment_wac(&length[0], count, missed);
-	increment_wac(&length[strlen(termtable->array[i]->key)], count, missed);
+	increment_wac(&length[word_length(termtable->array[i]->key)], count,
+	missed);
 	if (occurs)
 	{
 	    increment_wac(&occurs[0], 1, (count == missed ? 1 : 0));
-- 
2.43.0


From 666d983f5341aa5868541076936baa41ec1991a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 04/23] fix: wordacc report reader must not split lines of long
 words

---
 src/wacrpt.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/wacrpt.c b/src/wacrpt.c
index c28d5cd..b261642 100644
--- a/src/wacrpt.c
+++ b/src/wacrpt.c
@@ -32,7 +32,8 @@
 #define TOTAL    " Total\n"
 #define OFFSET   29
 
-static char line[100];
+static char *line;		/* grows as needed to hold a line of any length */
+static size_t line_size;
 
 /**********************************************************************/
 
@@ -62,10 +63,34 @@ long count, missed;
 }
 /**********************************************************************/
 
+static void enlarge_line()
+{
+    char *larger;
+    larger = NEW_ARRAY(2 * line_size + 100, char);
+    if (line)
+    {
+	memcpy(larger, line, line_size);
+	free(line);
+    }
+    line = larger;
+    line_size = 2 * line_size + 100;
+}
+/**********************************************************************/
+
 static Boolean read_line(f)
 FILE *f;
 {
-    return(fgets(line, sizeof(line) - 1, f) ? True : False);
+    size_t length = 0;
+    do
+    {
+	if (line_size < length + 2)
+	    enlarge_line();
+	if (!fgets(&line[length], line_size - length, f))
+	    return(length > 0 ? True : False);
+	length += strlen(&line[length]);
+    }
+    while (length == line_size - 1 && line[length - 1] != NEWLINE);
+    return(True);
 }
 /**********************************************************************/
 
-- 
2.43.0


From 758d7d716a8038debd9813225722ff4fe19924d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 05/23] fix: report readers must cope with columns widened by
 large counts

---
 src/accrpt.c | 21 ++++++++++++++++-----
 src/wacrpt.c | 21 +++++++++++++++++----
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index 9146f66..2e1dd26 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -37,9 +37,7 @@
 #define TITLE    "ocreval Accuracy Report Version " OCREVAL_VERSION "\n"
 #define DIVIDER  "-----------------------------------\n"
 
-#define CLASS_OFFSET  29
-#define CONF_OFFSET   20
-#define LINE_LENGTH   100
+#define LINE_LENGTH   200
 
 static char line[LINE_LENGTH];
 
@@ -137,6 +135,19 @@ long *value1, *value2;
 }
 /**********************************************************************/
 
+/* returns what follows the given columns of the line, or an empty string; the
+   columns are wider than usual if the numbers in them are large */
+static char *skip_columns(columns)
+char *columns;
+{
+    int offset = 0;
+    sscanf(line, columns, &offset);
+    if (offset == 0 || strncmp(&line[offset], "   ", 3) != 0)
+        return("");
+    return(&line[offset + 3]);
+}
+/**********************************************************************/
+
 static Charvalue read_char(line)
 char *line;
 {
@@ -237,11 +248,11 @@ char *filename;
             while (read_two(f, &value1, &value2)) {
                 /* TODO: bug here: does not handle UTF-8 or <bracket>
                  * <escaped> or {<} properly... */
-                add_conf(accdata, &line[CONF_OFFSET], value1, value2);
+                add_conf(accdata, skip_columns("%*d %*d%n"), value1, value2);
             }
         if (characters > 0 && read_line(f))
             while (read_two(f, &value1, &value2)) {
-                value3 = read_char(line + CLASS_OFFSET);
+                value3 = read_char(skip_columns("%*d %*d %*s%n"));
                 if (value3 == INVALID_CHARVALUE) {
                     error_string("invalid character in", (filename ? filename : "stdin"));
                 }
diff --git a/src/wacrpt.c b/src/wacrpt.c
index b261642..4f8ebfe 100644
--- a/src/wacrpt.c
+++ b/src/wacrpt.c
@@ -30,7 +30,6 @@
 #define DIVIDER  "----------------------------------------\n"
 
 #define TOTAL    " Total\n"
-#define OFFSET   29
 
 static char *line;		/* grows as needed to hold a line of any length */
 static size_t line_size;
@@ -111,17 +110,31 @@ long *value1, *value2;
 }
 /**********************************************************************/
 
+/* returns what follows the count, missed, and percentage columns of the line;
+   these are wider than usual if the numbers are large */
+static char *third_column_end()
+{
+    int offset = 0;
+    sscanf(line, "%*d %*d %*s%n", &offset);
+    if (offset == 0 || strncmp(&line[offset], "   ", 3) != 0)
+	error("invalid line in word accuracy report");
+    return(&line[offset + 3]);
+}
+/**********************************************************************/
+
 static long read_numbers(f, wac)
 FILE *f;
 Wac wac[];
 {
     long count, missed, index, total_count = 0;
+    char *string;
     if (read_line(f) && read_line(f))
 	while (read_two(f, &count, &missed))
 	{
-	    index = atoi(&line[OFFSET]);
+	    string = third_column_end();
+	    index = atoi(string);
 	    if (index == 0) {
-		if (strcmp(&line[OFFSET], TOTAL) == 0)
+		if (strcmp(string, TOTAL) == 0)
 		    total_count = count;
 		else /* excess */
 		    index = MAX_OCCURRENCES + 1;
@@ -141,7 +154,7 @@ Termtable *termtable;
 	while (read_two(f, &count, &missed))
 	{
 	    line[strlen(line) - 1] = '\0';
-	    add_term(termtable, &line[OFFSET], count, missed);
+	    add_term(termtable, third_column_end(), count, missed);
 	}
 }
 /**********************************************************************/
-- 
2.43.0


From 54a8642601adca9a7d5db8c3b55d2928a21887aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 06/23] fix: reject lengths and occurrences outside the tables
 of a word accuracy report

---
 src/wacrpt.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/wacrpt.c b/src/wacrpt.c
index 4f8ebfe..33a407a 100644
--- a/src/wacrpt.c
+++ b/src/wacrpt.c
@@ -122,9 +122,11 @@ static char *third_column_end()
 }
 /**********************************************************************/
 
-static long read_numbers(f, wac)
+static long read_numbers(f, wac, limit, excess)
 FILE *f;
 Wac wac[];
+long limit;
+Boolean excess;
 {
     long count, missed, index, total_count = 0;
     char *string;
@@ -136,9 +138,13 @@ Wac wac[];
 	    if (index == 0) {
 		if (strcmp(string, TOTAL) == 0)
 		    total_count = count;
-		else /* excess */
-		    index = MAX_OCCURRENCES + 1;
+		else if (excess)
+		    index = limit + 1;
+		else
+		    error("invalid line in word accuracy report");
 	    }
+	    else if (index < 0 || index > limit)
+		error("invalid line in word accuracy report");
 	    increment_wac(&wac[index], count, missed);
 	}
     return(total_count);
@@ -172,12 +178,15 @@ char *filename;
     read_line(f) && read_line(f))
     {
 	increment_wac(&wacdata->total, words, missed);
-	stopwords = read_numbers(f, wacdata->stopword);
-	non_stopwords = read_numbers(f, wacdata->non_stopword);
-	read_numbers(f, wacdata->distinct_non_stopword);
+	stopwords = read_numbers(f, wacdata->stopword, (long) MAX_WORDLENGTH,
+	False);
+	non_stopwords = read_numbers(f, wacdata->non_stopword,
+	(long) MAX_WORDLENGTH, False);
+	read_numbers(f, wacdata->distinct_non_stopword, (long) MAX_OCCURRENCES,
+	True);
 	if (words > 0)
 	{
-	    read_numbers(f, wacdata->phrase);
+	    read_numbers(f, wacdata->phrase, (long) MAX_PHRASELENGTH, False);
 	    if (stopwords > 0)
 		read_terms(f, &wacdata->stopword_table);
 	    if (non_stopwords > 0)
-- 
2.43.0


From 1f2ca872e868aacf66ec083f77e49a05ff2f16d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 07/23] fix: reject character values beyond U+10FFFF in
 accuracy reports

---
 src/accrpt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/accrpt.c b/src/accrpt.c
index 2e1dd26..77d3b19 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -179,6 +179,9 @@ char *line;
                 if (ret != 1) {
                     return INVALID_CHARVALUE;
                 }
+                if (value >= NUM_CHARVALUES) {
+                    return INVALID_CHARVALUE;
+                }
                 next_byte += offset;
             }
 
-- 
2.43.0


From dac22f5bf6fe40e1090f496606462e4f23afeed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 08/23] fix: reject move lengths outside 1..100 in edit
 operation reports

---
 src/edorpt.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edorpt.c b/src/edorpt.c
index d967684..674fb34 100644
--- a/src/edorpt.c
+++ b/src/edorpt.c
@@ -78,7 +78,12 @@ char *filename;
     {
 	if (moves > 0 && read_line(f) && read_line(f) && read_line(f))
 	    while (read_two(f, &value1, &value2))
+	    {
+		if (value2 < 1 || value2 > MAX_MOVE_LENGTH)
+		    error_string("invalid move length in",
+		    (filename ? filename : "stdin"));
 		edodata->moves[value2] += value1;
+	    }
     }
     else
 	error_string("invalid format in", (filename ? filename : "stdin"));
-- 
2.43.0


From e94e4476af9f20e7e144be57d92716969fd84a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 09/23] fix: keep update_dist within the distribution for
 accuracies over 100

---
 src/dist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dist.c b/src/dist.c
index 0a83028..bd2c2e4 100644
--- a/src/dist.c
+++ b/src/dist.c
@@ -36,7 +36,7 @@ long count, missed;
     if (count == 0)
 	return;
     accuracy = 100.0 * (count - missed) / count;
-    for (i = 0; accuracy >= i; i++)
+    for (i = 0; i <= 100 && accuracy >= i; i++)
 	dist->count[i] += count;
     dist->total_count += count;
 }
-- 
2.43.0


From f1a800c05c4d6017385ead56ec3b77506daf63cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 10/23] fix: sort must not take quadratic time and linear stack
 on sorted arrays

---
 src/sort.c | 46 +++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/sort.c b/src/sort.c
index f558dee..721df9f 100644
--- a/src/sort.c
+++ b/src/sort.c
@@ -32,25 +32,37 @@ long left, right;
 {
     long i, j;
     void *ref;
-    i = left;
-    j = right;
-    ref = a[i];
-    while (i < j)
+    while (left < right)
     {
-	while (i < j && (*cmp)(ref, a[j]) < 0)
-	    j--;
-	if (i != j)
-	    a[i++] = a[j];
-	while (i < j && (*cmp)(ref, a[i]) > 0)
-	    i++;
-	if (i != j)
-	    a[j--] = a[i];
+	i = left;
+	j = right;
+	/* use the middle element, so that sorted input is not the worst case */
+	ref = a[left + (right - left) / 2];
+	a[left + (right - left) / 2] = a[left];
+	while (i < j)
+	{
+	    while (i < j && (*cmp)(ref, a[j]) < 0)
+		j--;
+	    if (i != j)
+		a[i++] = a[j];
+	    while (i < j && (*cmp)(ref, a[i]) > 0)
+		i++;
+	    if (i != j)
+		a[j--] = a[i];
+	}
+	a[j] = ref;
+	/* recurse into the smaller part only, to bound the stack depth */
+	if (j - left < right - j)
+	{
+	    quicksort(left, j - 1);
+	    left = j + 1;
+	}
+	else
+	{
+	    quicksort(j + 1, right);
+	    right = j - 1;
+	}
     }
-    a[j] = ref;
-    if (left < --j)
-	quicksort(left, j);
-    if (++i < right)
-	quicksort(i, right);
 }
 /**********************************************************************/
 
-- 
2.43.0


From 239596940bd2a8bf18909116192b18342717e01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 11/23] fix: argument and path indices must not overflow short

---
 src/util.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util.c b/src/util.c
index b946bc2..d11aca3 100644
--- a/src/util.c
+++ b/src/util.c
@@ -146,8 +146,8 @@ char *pathname;
 #else
     char delimiter = '\\';
 #endif
-    short i;
-    for (i = strlen(pathname) - 1; i >= 0 && pathname[i] != delimiter; i--);
+    long i;
+    for (i = (long) strlen(pathname) - 1; i >= 0 && pathname[i] != delimiter; i--);
     return(&pathname[i + 1]);
 }
 /**********************************************************************/
@@ -217,7 +217,7 @@ int *argc;
 char *argv[], *usage;
 Option option[];
 {
-    short i, j = 0;
+    int i, j = 0;
     if (*argc == 1 && usage_when_no_args)
 	show_usage(usage);
     for (i = 1; i < *argc; i++)
-- 
2.43.0


From edf37a0c8b9b676f2c0714695a1b55a63c53af5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:53 +0000
Subject: [PATCH 12/23] fix: synchronize must not take 65,536 + n streams for n

---
 src/sync.c | 2 +-
 src/sync.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sync.c b/src/sync.c
index 84495d3..64995fe 100644
--- a/src/sync.c
+++ b/src/sync.c
@@ -224,7 +224,7 @@ Sync *sync;
 
 void synchronize(synclist, num_text, text)
 Synclist *synclist;
-short num_text;
+int num_text;
 Text *text;
 {
     if (num_text < MIN_STREAMS || num_text > MAX_STREAMS)
diff --git a/src/sync.h b/src/sync.h
index 93833cc..0912382 100644
--- a/src/sync.h
+++ b/src/sync.h
@@ -56,7 +56,7 @@ END_ITEM(Sync);
 BEGIN_LIST_OF(Sync)
 END_LIST(Synclist);	/* list of matched and unmatched substrings */
 
-void synchronize(/* Synclist *synclist, short num_text, Text *text */);
+void synchronize(/* Synclist *synclist, int num_text, Text *text */);
 			/* given "num_text" streams of text, synchronizes the
 			   streams and stores the results in "synclist"; each
 			   item in the list points to an array of "num_text"
-- 
2.43.0


From f230d65ed28144bc1df72a703061b9c90c07b80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 13/23] fix: report read and write failures instead of exiting
 with status 0

---
 src/util.c | 10 ++++++++--
 src/util.h |  6 ++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/util.c b/src/util.c
index d11aca3..a6c5ef0 100644
--- a/src/util.c
+++ b/src/util.c
@@ -90,8 +90,12 @@ char *filename, *mode;
 void close_file(f)
 FILE *f;
 {
-    if (f != stdin && f != stdout)
-	fclose(f);
+    Boolean failed;
+    failed = (ferror(f) ? True : False);
+    if (f != stdin && f != stdout && fclose(f) != 0)
+	failed = True;
+    if (failed)
+	error("unable to read or write file");
 }
 /**********************************************************************/
 
@@ -258,6 +262,8 @@ int status;
 
 void terminate()
 {
+    if (fflush(stdout) != 0 || ferror(stdout))
+	error("unable to write standard output");
     quit(0);
 }
 /**********************************************************************/
diff --git a/src/util.h b/src/util.h
index 9172619..aafeb28 100644
--- a/src/util.h
+++ b/src/util.h
@@ -69,7 +69,8 @@ FILE *open_file(/* char *filename, char *mode */);
 			   depending on the mode */
 
 void close_file(/* FILE *f */);
-			/* closes the specified file */
+			/* closes the specified file; reports an error and
+			   quits if it could not be read or written */
 
 Boolean file_exists(/* char *filename */);
 			/* returns True if the named file exists */
@@ -121,7 +122,8 @@ void initialize(/* int *argc, char *argv[], char *usage, Option option[] */);
 			   has been set; "option" may be NULL if there are no
 			   options */
 
-void terminate()	/* terminates the program with exit status 0 */
+void terminate()	/* terminates the program with exit status 0, or reports
+			   an error if standard output could not be written */
     __attribute__ ((noreturn));
 
 extern int errstatus;	/* status returned when exiting due to an error; this is
-- 
2.43.0


From 08d05b060a603cfefaa511b315318eb20bd43a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:07 +0000
Subject: [PATCH 14/23] fix: look for a header without rewinding, so that input
 can be a pipe

---
 src/text.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/text.c b/src/text.c
index 1837d88..8ef3c7e 100644
--- a/src/text.c
+++ b/src/text.c
@@ -57,20 +57,31 @@ void append_char(text, suspect, value)
 }
 /**********************************************************************/
 
-static Boolean read_header(f)
+/**
+ * Skips the header, if there is one. Characters that turn out not to begin a
+ * header are appended to the text; the input may be a pipe, which cannot be
+ * rewound.
+ */
+static Boolean read_header(f, text)
 	FILE *f;
+	Text *text;
 {
 	char line[100];
 	short divider_count = 0;
-	if (fgets(line, sizeof(line) - 1, f) &&
-			strncmp(line, TITLE, sizeof(TITLE) - 5) == 0)
+	int byte, i, length = 0;
+	while (length < sizeof(TITLE) - 5 && (byte = getc(f)) == TITLE[length])
+		length++;
+	if (length == sizeof(TITLE) - 5)
 	{
+		fgets(line, sizeof(line) - 1, f);
 		while (divider_count < 2 && fgets(line, sizeof(line) - 1, f))
 			if (strcmp(line, DIVIDER) == 0)
 				divider_count++;
 		return(True);
 	}
-	rewind(f);
+	for (i = 0; i < length; i++)
+		append_char(text, False, (Charvalue) TITLE[i]);
+	ungetc(byte, f);
 	return(False);
 }
 /**********************************************************************/
@@ -225,7 +236,7 @@ void read_text(text, filename, textopt)
 	last = text->last;
 	f = open_file(filename, "r");
 	if (textopt->find_header)
-		textopt->found_header = read_header(f);
+		textopt->found_header = read_header(f, text);
 	read_contents(f, text, textopt->find_markers,
 			(textopt->suspect_marker ? textopt->suspect_marker : SUSPECT_MARKER));
 	close_file(f);
-- 
2.43.0


From 932b173f2f8882af0d9f1bc441af6c1454d0548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:23 +0000
Subject: [PATCH 15/23] fix: Extend and Format characters do not attach to
 newlines or the start of text

---
 src/word.c | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/word.c b/src/word.c
index a229bbe..2597c95 100644
--- a/src/word.c
+++ b/src/word.c
@@ -87,8 +87,18 @@ static wb_property char_property(node)
     return property(node->value);
 }
 
+/* Is this character one of those that Extend and Format characters do not
+ * attach to? See WB3a and WB4. */
+__attribute__ ((pure))
+static Boolean is_newline(node)
+    const Char *node;
+{
+    wb_property prop = char_property(node);
+    return prop == Newline || prop == CR || prop == LF;
+}
+
 /* Returns the next character, skipping Extend and Format characters.
- * WB4: Skip over Extend and Format characters.  */
+ * WB4: Skip over Extend and Format characters, except after newlines.  */
 __attribute__ ((pure))
 static Char* skip_to_next(from)
     Char *from;
@@ -97,6 +107,10 @@ static Char* skip_to_next(from)
         return NULL;
     }
 
+    if (is_newline(from)) {
+        return from->next;
+    }
+
     do {
         from = from->next;
     } while (from != NULL && ExtendOrFormat(char_property(from)));
@@ -115,8 +129,8 @@ static Char* skip_twice(from)
 static Char* skip_to_end_of_extend(from)
     Char *from;
 {
-    if (from == NULL) {
-        return NULL;
+    if (from == NULL || is_newline(from)) {
+        return from;
     }
 
     /* Skip until the LAST extend or format character. */
@@ -137,11 +151,7 @@ static Char* skip_to_end_of_extend(from)
 static Char* find_next_boundary(start)
     Char *start;
 {
-    /* The first thing the loop does is advance, so we need a dummy "start of
-     * loop" character that does not participate in the search. */
-    Char dummy;
-    dummy.next = start;
-    Char *current = &dummy;
+    Char *current = NULL;
     wb_property left = sot, right, lookahead, lookbehind;
 
     /* WB1: Break at the start and end of text. */
@@ -152,9 +162,11 @@ static Char* find_next_boundary(start)
     /* Loop to find the next word break. */
 
     /* WB2: Break at the start and end of text. */
-    while (current->next != NULL) {
-        /* Advance all the pointers. */
-        current = skip_to_next(current);
+    while (current == NULL || current->next != NULL) {
+        /* Advance all the pointers. The first character is not skipped even
+         * if it is an Extend or Format character (there is nothing before it
+         * that it could attach to). */
+        current = (current == NULL ? start : skip_to_next(current));
         lookbehind = left;
         left = char_property(current);
         right = char_property(skip_to_next(current));
-- 
2.43.0


From 6a3906e6510a459ab7eff4c0200e8f799398a2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 16/23] fix: nonstopacc must not subtract a repeated stopword
 twice

---
 src/nonstopacc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nonstopacc.c b/src/nonstopacc.c
index 43efa0c..8aee0d2 100644
--- a/src/nonstopacc.c
+++ b/src/nonstopacc.c
@@ -46,6 +46,7 @@ char *string;
     {
 	count  -= term->wac.count;
 	missed -= term->wac.missed;
+	term->wac.count = term->wac.missed = 0;	/* removed only once */
     }
 }
 /**********************************************************************/
-- 
2.43.0


From 199e3ade75821a43c5bfdfda5ad071dcf3b566fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 17/23] fix: order confusions correctly when counts differ by
 more than an int

---
 src/accrpt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index 77d3b19..c39553d 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -329,9 +329,9 @@ static int compare_conf(conf1, conf2)
 Conf *conf1, *conf2;
 {
     if (conf1->errors != conf2->errors)
-        return(conf2->errors - conf1->errors);
+        return(conf2->errors < conf1->errors ? -1 : 1);
     if (conf1->marked != conf2->marked)
-        return(conf2->marked - conf1->marked);
+        return(conf2->marked < conf1->marked ? -1 : 1);
     return(ustrcmp(conf1->key, conf2->key));
 }
 /**********************************************************************/
-- 
2.43.0


From d2ea8c077a9d5f7bb7cce1090de2c07c7421abc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 18/23] fix: check all memory allocations

---
 src/accrpt.c | 2 +-
 src/ngram.c  | 2 +-
 src/util.c   | 9 ++++++++-
 src/util.h   | 4 ++++
 src/vote.c   | 2 +-
 src/wacrpt.c | 2 +-
 src/word.c   | 5 ++++-
 7 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index c39553d..77d64fb 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -78,7 +78,7 @@ long errors, marked;
     else
     {
         conf = NEW(Conf);
-        conf->key = strdup(key);
+        conf->key = copy_string(key);
         conf->errors = errors;
         conf->marked = marked;
         table_insert(&accdata->conftable, conf);
diff --git a/src/ngram.c b/src/ngram.c
index 72ddbdf..fb275d0 100644
--- a/src/ngram.c
+++ b/src/ngram.c
@@ -75,7 +75,7 @@ Boolean suspect;
     if (!sequence)
     {
 	sequence = NEW(Sequence);
-	sequence->key = strdup(key);
+	sequence->key = copy_string(key);
 	for (i = 0; i < n; i++)
 	    sequence->value[i] = value[i];
 	table_insert(&seqtable, sequence);
diff --git a/src/util.c b/src/util.c
index a6c5ef0..37c7c11 100644
--- a/src/util.c
+++ b/src/util.c
@@ -59,6 +59,13 @@ size_t number, size;
 }
 /**********************************************************************/
 
+char *copy_string(string)
+char *string;
+{
+    return(strcpy(NEW_ARRAY(strlen(string) + 1, char), string));
+}
+/**********************************************************************/
+
 int ustrcmp(s1, s2)
 unsigned char *s1, *s2;
 {
@@ -116,7 +123,7 @@ short id;
 #else
     sprintf(name, "c:\\temp\\tempfile.%d", id);
 #endif
-    return(strdup(name));
+    return(copy_string(name));
 }
 /**********************************************************************/
 
diff --git a/src/util.h b/src/util.h
index aafeb28..b3924a8 100644
--- a/src/util.h
+++ b/src/util.h
@@ -58,6 +58,10 @@ typedef char Boolean;
 			/* allocate an array of "type" */
 void *allocate(/* size_t number, size_t size */);
 
+char *copy_string(/* char *string */);
+			/* returns a newly allocated copy of the string; reports
+			   an error and quits if there is no memory */
+
 int ustrcmp(/* unsigned char *s1, unsigned char *s2 */);
 			/* compares strings like "strcmp" but treats characters
 			   as unsigned */
diff --git a/src/vote.c b/src/vote.c
index f8d2838..b348f49 100644
--- a/src/vote.c
+++ b/src/vote.c
@@ -137,7 +137,7 @@ short index;
     if (!sequence)
     {
 	sequence = NEW(Sequence);
-	sequence->key = strdup(key);
+	sequence->key = copy_string(key);
 	if (!reject)
 	    sequence->median = 1;
 	table_insert(&seqtable, sequence);
diff --git a/src/wacrpt.c b/src/wacrpt.c
index 33a407a..10f47c1 100644
--- a/src/wacrpt.c
+++ b/src/wacrpt.c
@@ -55,7 +55,7 @@ long count, missed;
     if (!term)
     {
 	term = NEW(Term);
-	term->key = strdup(key);
+	term->key = copy_string(key);
 	table_insert(termtable, term);
     }
     increment_wac(&term->wac, count, missed);
diff --git a/src/word.c b/src/word.c
index 2597c95..9709e73 100644
--- a/src/word.c
+++ b/src/word.c
@@ -296,12 +296,15 @@ static void append_word(wordlist, start, end)
     Word *word;
     Char *after = end->next;
     size_t len = find_utf8_length(start, after);
-    char *buffer = malloc(len + 1);
+    char *buffer = NEW_ARRAY(len + 1, char);
     copy_into_buffer(buffer, start, after);
 
     word = NEW(Word);
     /* Convert the null-terminated string to NFC. */
     word->string = (char *) utf8proc_NFC((const utf8proc_uint8_t *) buffer);
+    if (word->string == NULL) {
+        error("unable to allocate memory");
+    }
     list_insert_last(wordlist, word);
     free(buffer);
 }
-- 
2.43.0


From 895f1f55db2948fb1afe3e6e8b5089e659a87dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 19/23] fix: recognise header dividers by whole lines, however
 long the lines are

---
 src/text.c | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/text.c b/src/text.c
index 8ef3c7e..d4b18bf 100644
--- a/src/text.c
+++ b/src/text.c
@@ -57,6 +57,27 @@ void append_char(text, suspect, value)
 }
 /**********************************************************************/
 
+/**
+ * Skips a line of any length; tells whether it is a divider, or EOF.
+ */
+static int skip_line(f)
+	FILE *f;
+{
+	int byte;
+	size_t length = 0;
+	Boolean divider = True;
+	while ((byte = getc(f)) != EOF)
+	{
+		if (length >= sizeof(DIVIDER) - 1 || byte != DIVIDER[length])
+			divider = False;
+		length++;
+		if (byte == NEWLINE)
+			return(divider);
+	}
+	return(EOF);
+}
+/**********************************************************************/
+
 /**
  * Skips the header, if there is one. Characters that turn out not to begin a
  * header are appended to the text; the input may be a pipe, which cannot be
@@ -66,17 +87,19 @@ static Boolean read_header(f, text)
 	FILE *f;
 	Text *text;
 {
-	char line[100];
 	short divider_count = 0;
-	int byte, i, length = 0;
+	int byte, i, length = 0, line;
 	while (length < sizeof(TITLE) - 5 && (byte = getc(f)) == TITLE[length])
 		length++;
 	if (length == sizeof(TITLE) - 5)
 	{
-		fgets(line, sizeof(line) - 1, f);
-		while (divider_count < 2 && fgets(line, sizeof(line) - 1, f))
-			if (strcmp(line, DIVIDER) == 0)
+		line = skip_line(f);
+		while (divider_count < 2 && line != EOF)
+		{
+			line = skip_line(f);
+			if (line == True)
 				divider_count++;
+		}
 		return(True);
 	}
 	for (i = 0; i < length; i++)
-- 
2.43.0


From cc7b5da3ae9b206cb38f4887c3adf6eb3f4bfac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:08 +0000
Subject: [PATCH 20/23] fix: end at once when interrupted, though the output is
 not read

---
 src/util.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/util.c b/src/util.c
index 37c7c11..2380abf 100644
--- a/src/util.c
+++ b/src/util.c
@@ -27,6 +27,7 @@
 #if defined(__unix__) || defined(__MACH__)
 #include <sys/types.h>
 #include <sys/stat.h>
+#include <unistd.h>
 #else
 #include <sys\types.h>
 #include <sys\stat.h>
@@ -44,6 +45,9 @@ void (*cleanup_routine)();
 int errstatus = 1;
 
 static short tempfile_id;
+
+static Boolean handling_interrupt = False;
+
 static void quit(/* int status */) __attribute__ ((noreturn));
 
 /**********************************************************************/
@@ -166,7 +170,6 @@ char *pathname;
 static void handle_interrupt(signal)
 int signal;
 {
-    static Boolean handling_interrupt = False;
     if (handling_interrupt)
 	return;
     handling_interrupt = True;
@@ -263,6 +266,9 @@ int status;
     if (cleanup_routine)
 	(*cleanup_routine)();
     delete_tempfiles();
+    /* exit() would wait until the output is read, which may never happen */
+    if (handling_interrupt)
+	_exit(status);
     exit(status);
 }
 /**********************************************************************/
-- 
2.43.0


From 69b21e492283ccc984c9569916fe5ada151a5d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:54 +0000
Subject: [PATCH 21/23] fix: write the characters of a text, not their display
 forms

---
 src/text.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/text.c b/src/text.c
index d4b18bf..928fea4 100644
--- a/src/text.c
+++ b/src/text.c
@@ -385,7 +385,7 @@ void write_text(text, filename, write_header)
 {
 	FILE *f;
 	Char *c;
-	char string[STRING_SIZE];
+	utf8proc_uint8_t buffer[4];
 	f = open_file(filename, "w");
 	if (write_header)
 	{
@@ -396,8 +396,10 @@ void write_text(text, filename, write_header)
 	}
 	for (c = text->first; c; c = c->next)
 	{
-		char_to_string(c->suspect, c->value, string, False);
-		fputs(string, f);
+		/* A text holds its characters themselves, unlike a report. */
+		if (c->suspect)
+			putc(SUSPECT_MARKER, f);
+		fwrite(buffer, 1, encode_or_die(c->value, buffer), f);
 	}
 	close_file(f);
 }
-- 
2.43.0


From b33f455c8f6d961305c6ec25864f082d2fa70238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:54 +0000
Subject: [PATCH 22/23] build: compile as C90 with line comments (-std=gnu90
 instead of -ansi)

The object files are identical; strict C90 stops at any // comment, in these
sources or in a header of utf8proc.
---
 use-libocreval-internal.mk | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/use-libocreval-internal.mk b/use-libocreval-internal.mk
index 92d237d..fd70107 100644
--- a/use-libocreval-internal.mk
+++ b/use-libocreval-internal.mk
@@ -7,8 +7,8 @@ LOCAL_LINK_DIR := $(abspath $(TOP)lib)
 
 LIBOCREVAL = $(LOCAL_LINK_DIR)/libocreval.a
 
-# Compilation flags for all files.
-override CFLAGS += -ansi
+# Compilation flags for all files. (C90, but line comments are accepted.)
+override CFLAGS += -std=gnu90
 # X/Open 6.0 standardizes features used in this K&R C source...
 CPPDEFINES = -D_XOPEN_SOURCE=600
 # Create dependency files.
-- 
2.43.0


From 969beb515c23d3940a5f3789161f6f5b29ff4152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 23/23] fix: keep the medians of vote -O exact beyond 2^23
 occurrences

A float has 24 bits, so that a voter other than the closest was selected.
---
 src/vote.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vote.c b/src/vote.c
index b348f49..96dc406 100644
--- a/src/vote.c
+++ b/src/vote.c
@@ -64,7 +64,7 @@ short suspect_weight = 1, unmarked_weight = 1;
 
 BEGIN_ENTRY(Sequence)
     long count[MAX_VOTERS];
-    float median;
+    double median;
 END_ENTRY(Sequence);
 
 BEGIN_TABLE_OF(Sequence, Seqlist)
-- 
2.43.0

