From c0b4beb91b8d3e05989f93dd93dfe1b39c19d546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:29 +0000
Subject: [PATCH 01/54] fix: score a transcript on the last line of a trn file
 without a trailing newline

---
 src/sclite/align.c | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 08c5de3..2bd7b03 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -18,6 +18,10 @@ void set_word_opt_del(ARC *arc, void *ptr);
 
 
 #define LOAD_BUFF_LEN 1000
+/* true if an input line holds no transcript; a transcript on the last line is
+   used even if no newline follows it */
+#define NO_TRANSCRIPT(_b) (TEXT_is_comment(_b) || TEXT_is_comment_info(_b) || \
+			   TEXT_is_empty(_b))
 
 void remove_id(TEXT *utt, TEXT **id, int *id_len){
     TEXT *L_paren, *R_paren;
@@ -110,13 +114,13 @@ void load_refs(SCORES *sc, char *hyp_file, char *ref_file, TEXT ***rset, TEXT **
     while (!feof(fp)){
         *in_buf  = *(in_buf+1) = COMMENT_CHAR; 
         *(in_buf+2) = NULL_TEXT;
-        while (!feof(fp) && (parse_input_comment_line(sc,in_buf) ||
-			     TEXT_is_comment_info(in_buf) ||
-			     TEXT_is_empty(in_buf))){
+        while ((parse_input_comment_line(sc,in_buf) ||
+		TEXT_is_comment_info(in_buf) ||
+		TEXT_is_empty(in_buf)) && !feof(fp)){
             if (TEXT_ensure_fgets(&in_buf,&in_buf_len,fp) == NULL)
                *in_buf = NULL_TEXT;
 	}
-	if (!feof(fp)){
+	if (!(feof(fp) && NO_TRANSCRIPT(in_buf))){
 	    if (!case_sense)
 		TEXT_str_case_change_with_mem_expand(&in_buf, &in_buf_len, 1);
 	    remove_id(in_buf,&id_buf,&id_buf_len);
@@ -151,13 +155,13 @@ void load_refs(SCORES *sc, char *hyp_file, char *ref_file, TEXT ***rset, TEXT **
 
         *in_buf  = *(in_buf+1) = COMMENT_CHAR; 
         *(in_buf+2) = NULL_TEXT;
-        while (!feof(fp) && (parse_input_comment_line(sc,in_buf) ||
-			     TEXT_is_comment_info(in_buf) ||
-			     TEXT_is_empty(in_buf))){
+        while ((parse_input_comment_line(sc,in_buf) ||
+		TEXT_is_comment_info(in_buf) ||
+		TEXT_is_empty(in_buf)) && !feof(fp)){
             if (TEXT_ensure_fgets(&in_buf,&in_buf_len,fp) == NULL)
                *in_buf = '\0';
 	}
-        if (feof(fp))
+        if (feof(fp) && NO_TRANSCRIPT(in_buf))
             break;
 
 	if (!case_sense)
@@ -550,12 +554,12 @@ SCORES *align_trans_mode_dp(char *ref_file, char *hyp_file, char *set_title, int
     while (!feof(fp_hyp)){
         *hyp_buff  = *(hyp_buff+1) = COMMENT_CHAR;
         *(hyp_buff+2) = NULL_TEXT;
-        while (!feof(fp_hyp) && (parse_input_comment_line(scor,hyp_buff) ||
-                                 TEXT_is_comment_info(hyp_buff) ||
-                                 TEXT_is_empty(hyp_buff)))
+        while ((parse_input_comment_line(scor,hyp_buff) ||
+                TEXT_is_comment_info(hyp_buff) ||
+                TEXT_is_empty(hyp_buff)) && !feof(fp_hyp))
             if (TEXT_ensure_fgets(&hyp_buff,&hyp_buff_len,fp_hyp) == NULL)
                *hyp_buff = '\0';
-        if (feof(fp_hyp))
+        if (feof(fp_hyp) && NO_TRANSCRIPT(hyp_buff))
             break;
 
 	remove_id(hyp_buff,&hyp_id,&hyp_id_len);
@@ -820,13 +824,13 @@ void create_word_lists(SCORES *sc, TEXT **reftran, TEXT **refid, int refcnt, cha
         *hyp_buff  = *(hyp_buff+1) = COMMENT_CHAR;
         *(hyp_buff+2) = NULL_TEXT;
  
-        while (!feof(fp_hyp) && (parse_input_comment_line(sc,hyp_buff) ||
-                                 TEXT_is_comment_info(hyp_buff) ||
-                                 TEXT_is_empty(hyp_buff)))
+        while ((parse_input_comment_line(sc,hyp_buff) ||
+                TEXT_is_comment_info(hyp_buff) ||
+                TEXT_is_empty(hyp_buff)) && !feof(fp_hyp))
             if (TEXT_ensure_fgets(&hyp_buff,&hyp_buff_len,fp_hyp) == NULL)
                *hyp_buff = '\0';
 
-        if (feof(fp_hyp))
+        if (feof(fp_hyp) && NO_TRANSCRIPT(hyp_buff))
             break;
 
 	(*num_hyp) ++;
@@ -1000,13 +1004,13 @@ SCORES *align_trans_mode_diff(char *ref_file, char *hyp_file, char *set_title, i
         *hyp_buff  = *(hyp_buff+1) = COMMENT_CHAR;
         *(hyp_buff+2) = NULL_TEXT;
  
-        while (!feof(fp_hyp) && (parse_input_comment_line(scor,hyp_buff) ||
-                                 TEXT_is_comment_info(hyp_buff) ||
-                                 TEXT_is_empty(hyp_buff)))
+        while ((parse_input_comment_line(scor,hyp_buff) ||
+                TEXT_is_comment_info(hyp_buff) ||
+                TEXT_is_empty(hyp_buff)) && !feof(fp_hyp))
             if (TEXT_ensure_fgets(&hyp_buff,&hyp_buff_len,fp_hyp) == NULL)
                *hyp_buff = '\0';
 
-        if (feof(fp_hyp))  break;
+        if (feof(fp_hyp) && NO_TRANSCRIPT(hyp_buff))  break;
 	if (!case_sense)    TEXT_str_case_change_with_mem_expand(&hyp_buff, &hyp_buff_len, 1);
 	remove_id(hyp_buff,&hyp_id,&hyp_id_len);
 	extract_speaker(hyp_id,spkr_id,idt);
-- 
2.43.0


From e9d98837970cb0378e8d6c469c40e6a3329f4a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:59 +0000
Subject: [PATCH 02/54] fix: write piped alignments (-p) in the form that piped
 input reads

---
 src/sclite/sclite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/sclite.c b/src/sclite/sclite.c
index 076a22b..fb74845 100644
--- a/src/sclite/sclite.c
+++ b/src/sclite/sclite.c
@@ -372,7 +372,7 @@ int main(int argc, char **argv){
 
     if (pipeout)
 	for (nsc=0; nsc < num_hyps + num_piped; nsc++)
-	    dump_SCORES_sgml(scor[nsc],stdout,(TEXT *)"\n",(TEXT *)"\n");
+	    dump_SCORES_sgml(scor[nsc],stdout,(TEXT *)":",(TEXT *)",");
 
     /* clean up the score structures */
     for (nsc=0; nsc < num_hyps + num_piped; nsc++)
-- 
2.43.0


From c10aa279017fdd85f70fad88100bd7b3a830523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:59 +0000
Subject: [PATCH 03/54] fix: keep systems loaded with -P when hypotheses are
 scored in the same run

---
 src/sclite/sclite.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sclite/sclite.c b/src/sclite/sclite.c
index fb74845..34410dd 100644
--- a/src/sclite/sclite.c
+++ b/src/sclite/sclite.c
@@ -202,19 +202,19 @@ int main(int argc, char **argv){
 	    }
 	    if (strcmp(reffmt,"trn") == 0 && strcmp(hypfmt[nh],"trn") == 0)
 		if (!use_diff)
-		    scor[nh]=align_trans_mode_dp(refname,hypname[nh],title[nh],
+		    scor[nsc]=align_trans_mode_dp(refname,hypname[nh],title[nh],
 						 1,case_sense,feedback,
 						 char_align,id_type,
 						 infered_wordseg, lexicon,
 						 frag_correct, opt_del, 
 						 inf_flags, wwl, lm_file);
 		else
-		    scor[nh]=align_trans_mode_diff(refname,hypname[nh],
+		    scor[nsc]=align_trans_mode_diff(refname,hypname[nh],
 						   title[nh],1,case_sense,
 						   feedback,id_type);
 	    else if (strcmp(reffmt,"stm")== 0 && strcmp(hypfmt[nh],"ctm") == 0)
 		if (!use_diff)
-		    scor[nh]=align_ctm_to_stm_dp(refname,hypname[nh],title[nh],
+		    scor[nsc]=align_ctm_to_stm_dp(refname,hypname[nh],title[nh],
 						 1, case_sense,feedback,
 						 char_align,id_type,
 						 infered_wordseg, lexicon,
@@ -225,7 +225,7 @@ int main(int argc, char **argv){
 						 left_to_right, wwl, lm_file);
 		else {
 		  if (left_to_right)
-		    scor[nh]=align_ctm_to_stm_diff(refname, hypname[nh],
+		    scor[nsc]=align_ctm_to_stm_diff(refname, hypname[nh],
 						   title[nh],1,case_sense,
 						   feedback,id_type);
 		  else {
@@ -235,14 +235,14 @@ int main(int argc, char **argv){
 		  }
 		}
 	    else if (strcmp(reffmt,"ctm")== 0 && strcmp(hypfmt[nh],"ctm") == 0)
-	      scor[nh]=align_ctm_to_ctm(hypname[nh], refname, title[nh],
+	      scor[nsc]=align_ctm_to_ctm(hypname[nh], refname, title[nh],
 					feedback, frag_correct, opt_del,
 					case_sense, time_align, left_to_right, wwl,
 					lm_file);
 	    else if (strcmp(reffmt,"stm")== 0 && strcmp(hypfmt[nh],"txt") ==0){
 #if DIFF_ENABLED
 	      if (left_to_right)
-		scor[nh] =align_text_to_stm(refname, hypname[nh],title[nh],
+		scor[nsc] =align_text_to_stm(refname, hypname[nh],title[nh],
 					    1,case_sense,feedback,id_type);
 	      else {
 		fprintf(scfp,"Error: can't perform diff alignments on "
@@ -258,7 +258,7 @@ int main(int argc, char **argv){
 		exit(1);
 	    }
 	    
-	    if (scor[nh] == (SCORES *)0){
+	    if (scor[nsc] == (SCORES *)0){
 		fprintf(stderr,"%s: Alignment failed.  Exiting.\n",prog);
 		exit(1);
 	    }
-- 
2.43.0


From 144d2874a009bf418b40811132f5a1654cbdf15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:01 +0000
Subject: [PATCH 04/54] fix: leave every speaker without reference words out of
 the per-speaker statistics

---
 src/sclite/scores.c | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 01e194c..4cd0a9b 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -1382,22 +1382,18 @@ void print_system_summary(SCORES *sc, char *sys_root_name, int do_sm, int do_raw
     /* added by Brett to compute mean, variance, and standard dev */
     if (Zero_spkr > 0) {
       /* remove any speakers data if word_num_arr[spkr] is 0 */
-      for (spkr=0; spkr<sc->num_grp; spkr++){
-	if (word_num_arr[spkr] == 0) {
-	  int s2;
-	  /* shift up the speakers data to fill this one */
-	  for (s2=spkr; s2 < sc->num_grp-1; s2++){
-	    corr_arr[s2] = corr_arr[s2+1];
-	    sub_arr[s2]  = sub_arr[s2+1];
-	    ins_arr[s2]  = ins_arr[s2+1];
-	    del_arr[s2]  = del_arr[s2+1];
-	    err_arr[s2]  = err_arr[s2+1];
-	  }
-	  corr_arr[sc->num_grp-1] =  -1000.0;
-	  sub_arr[sc->num_grp-1]  =  -1000.0;
-	  ins_arr[sc->num_grp-1]  =  -1000.0;
-	  del_arr[sc->num_grp-1]  =  -1000.0;
-	  err_arr[sc->num_grp-1]  =  -1000.0;
+      int s2;
+      for (spkr=0, s2=0; spkr<sc->num_grp; spkr++){
+	if (word_num_arr[spkr] != 0) {
+	  /* shift up the speaker's data to fill the removed ones */
+	  corr_arr[s2] = corr_arr[spkr];
+	  sub_arr[s2]  = sub_arr[spkr];
+	  ins_arr[s2]  = ins_arr[spkr];
+	  del_arr[s2]  = del_arr[spkr];
+	  spl_arr[s2]  = spl_arr[spkr];
+	  mrg_arr[s2]  = mrg_arr[spkr];
+	  err_arr[s2]  = err_arr[spkr];
+	  s2++;
 	}
       }
     }
-- 
2.43.0


From 42041c3406325e1096e70c401f0f6375f5c237d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:01 +0000
Subject: [PATCH 05/54] fix: do not read before the filler string for words
 longer than it in alignment printouts

---
 src/sclite/path.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sclite/path.c b/src/sclite/path.c
index 13fab30..869d6c5 100644
--- a/src/sclite/path.c
+++ b/src/sclite/path.c
@@ -201,7 +201,7 @@ void PATH_n_print(PATH *path, FILE *fp, int from, int to, int max){
 		  case 0: {
 		      sprintf(fmt,"%%-%ds ",wmax);
 		      if (astr == aster) 
-			  astr = aster + (alen - lenb);
+			  astr = aster + ((lenb < alen) ? alen - lenb : 0);
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR) {
@@ -238,7 +238,7 @@ void PATH_n_print(PATH *path, FILE *fp, int from, int to, int max){
 		  case 4: {	
 		      sprintf(fmt,"%%-%ds ",wmax);
 		      if (bstr == aster) 
-			  bstr = aster + (alen - lena);
+			  bstr = aster + ((lena < alen) ? alen - lena : 0);
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR){
@@ -468,7 +468,7 @@ void PATH_n_print_html(PATH *path, FILE *fp, int from, int to, int max, int head
 		  case 0: {
 		      sprintf(fmt,"<TD>%%-%ds</TD>",wmax);
 		      if (astr == aster) 
-			  astr = aster + (alen - lenb);
+			  astr = aster + ((lenb < alen) ? alen - lenb : 0);
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR) {
@@ -501,7 +501,7 @@ void PATH_n_print_html(PATH *path, FILE *fp, int from, int to, int max, int head
 		  case 4: {	
 		      sprintf(fmt,"<TD>%%s</TD>");
 		      if (bstr == aster) 
-			  bstr = aster + (alen - lena);
+			  bstr = aster + ((lena < alen) ? alen - lena : 0);
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR){
-- 
2.43.0


From d72376ea98acb48afd52e1db62eb177f962a46d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:01 +0000
Subject: [PATCH 06/54] fix: print an alignment with a word wider than the line
 width instead of looping

---
 src/sclite/path.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sclite/path.c b/src/sclite/path.c
index 869d6c5..3ae68b4 100644
--- a/src/sclite/path.c
+++ b/src/sclite/path.c
@@ -134,6 +134,7 @@ void PATH_n_print(PATH *path, FILE *fp, int from, int to, int max){
 	}
 	if (used > 0) fprintf(fp,"\n");
 	endpass = i - ((i < to) ? 1 : 0);
+	if (endpass == used) endpass ++; /* a word wider than the line */
 
 	for (line=0; line<11; line++){
 	    switch(line) {
@@ -387,6 +388,7 @@ void PATH_n_print_html(PATH *path, FILE *fp, int from, int to, int max, int head
 	}
 	if (used > 0) fprintf(fp,"\n");
 	endpass = i - ((i < to) ? 1 : 0);
+	if (endpass == used) endpass ++; /* a word wider than the line */
 
 	fprintf(fp,"<TABLE CELLSPACING=0 CELLPADDING=1>\n");
 
-- 
2.43.0


From 3f58690e2f72cf635d4256236c22d47dac9a73fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:28 +0000
Subject: [PATCH 07/54] fix: report two different reference texts for one id
 even when one begins with the other

---
 src/sclite/align.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 2bd7b03..fa396e6 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -173,7 +173,7 @@ void load_refs(SCORES *sc, char *hyp_file, char *ref_file, TEXT ***rset, TEXT **
 				    bsearch_TEXT_strcmp)) != NULL){
 	    rind = ind - idset;
 	    if (refset[rind] != (TEXT *)0){
-		if (TEXT_strBcmp(in_buf,refset[rind],TEXT_strlen(in_buf))!= 0){
+		if (TEXT_strcmp(in_buf,refset[rind])!= 0){
 		    fprintf(stderr,"Error: double reference text for id '%s'\n",
 			    id_buf);
 		    failure=1;
-- 
2.43.0


From 89978db3dfe505eeb8cf1fb46fc967e81ce26b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:28 +0000
Subject: [PATCH 08/54] fix: list every hypothesis id that lacks a reference

---
 src/sclite/align.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index fa396e6..20e4128 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -189,7 +189,7 @@ void load_refs(SCORES *sc, char *hyp_file, char *ref_file, TEXT ***rset, TEXT **
     if (num_ref != num_ids){
 	failure=1;
 	fprintf(stderr,"Error: Not enough Reference files loaded\nMissing:\n");
-	for (i=0; i<num_ref; i++)
+	for (i=0; i<num_ids; i++)
 	    if (refset[i] == (TEXT *)0)
 	      fprintf(stderr,"    %s\n",idset[i]);
     }
-- 
2.43.0


From 00441efeaeac2651ba378959005ea1eba8b66a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:24 +0000
Subject: [PATCH 09/54] fix: write alignment records with words of any length

---
 src/sclite/scores.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 4cd0a9b..2a2eb8f 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -136,7 +136,17 @@ void dump_SCORES_alignments(SCORES *sc, FILE *fp, int lw, int full){
     fprintf(fp,"\n");
 }
 
-TEXT *formatWordForSGML(WORD *word, TEXT *buffer){
+/* buf_ptr is expanded when the word does not fit in its len bytes */
+TEXT *formatWordForSGML(WORD *word, TEXT **buf_ptr, int *len){
+  TEXT *buffer;
+  int need = 2 * TEXT_strlen(word->value) + 3;
+
+  /* every character may need an escape */
+  if (word->tag1 != (TEXT *)0) need += 2 * TEXT_strlen(word->tag1);
+  if (word->tag2 != (TEXT *)0) need += 2 * TEXT_strlen(word->tag2);
+  if (need > *len)
+    expand_singarr_to_size(*buf_ptr,0,*len,need,TEXT);
+  buffer = *buf_ptr;
   TEXT_strcpy_escaped(buffer, word->value, WORD_SGML_SUB_WORD_SEP_CHR);
 
   if (word->tag1 == (TEXT *)0 && word->tag2 == (TEXT *)0)
@@ -153,8 +163,11 @@ TEXT *formatWordForSGML(WORD *word, TEXT *buffer){
 
 void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_attribute_separator){
     int i, p, w;
-    TEXT bufA[1000];
-    TEXT bufB[1000];
+    int lenA=1000, lenB=1000;
+    TEXT *bufA, *bufB;
+
+    alloc_singarr(bufA,lenA,TEXT);
+    alloc_singarr(bufB,lenB,TEXT);
 
     fprintf(fp,"<SYSTEM title=\"%s\"",sc->title);
     fprintf(fp," ref_fname=\"%s\"",sc->ref_fname);
@@ -256,26 +269,26 @@ void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_a
 	    for (w=0; w<path->num; w++) {
 		if (path->pset[w].eval == P_INS)
 		  fprintf(fp,"I%s%s\"%s\"", token_attribute_separator, token_attribute_separator, 
-			  formatWordForSGML((WORD *)path->pset[w].b_ptr, bufB));
+			  formatWordForSGML((WORD *)path->pset[w].b_ptr, &bufB, &lenB));
 		else if (path->pset[w].eval == P_DEL)
 		    fprintf(fp,"D%s\"%s\"%s",token_attribute_separator, 
-			    formatWordForSGML((WORD *)path->pset[w].a_ptr, bufA),
+			    formatWordForSGML((WORD *)path->pset[w].a_ptr, &bufA, &lenA),
 			    token_attribute_separator);
 		else if (path->pset[w].eval == P_CORR)
 		    fprintf(fp,"C%s\"%s\"%s\"%s\"",
 			    token_attribute_separator, 
-			    formatWordForSGML((WORD *)path->pset[w].a_ptr, bufA),
+			    formatWordForSGML((WORD *)path->pset[w].a_ptr, &bufA, &lenA),
 			    token_attribute_separator, 
-			    formatWordForSGML((WORD *)path->pset[w].b_ptr, bufB));
+			    formatWordForSGML((WORD *)path->pset[w].b_ptr, &bufB, &lenB));
 		else {
 		    fprintf(fp,"%c%s\"%s\"%s\"%s\"",			    
 			    ((path->pset[w].eval == P_SUB) ? 'S' :
 			     ((path->pset[w].eval == P_MRG) ? 'M' : 
 			      ((path->pset[w].eval == P_SPL) ? 'T' : 'U'))),
 			    token_attribute_separator, 
-			    formatWordForSGML((WORD *)path->pset[w].a_ptr, bufA),
+			    formatWordForSGML((WORD *)path->pset[w].a_ptr, &bufA, &lenA),
 			    token_attribute_separator, 
-		            formatWordForSGML((WORD *)path->pset[w].b_ptr, bufB));
+		            formatWordForSGML((WORD *)path->pset[w].b_ptr, &bufB, &lenB));
 		}
 		/* Extra attributes */
 		if (BF_isSET(path->attrib,PA_REF_WTIMES)){
@@ -336,6 +349,8 @@ void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_a
     }
 
     fprintf(fp,"</SYSTEM>\n");
+    free_singarr(bufA,TEXT);
+    free_singarr(bufB,TEXT);
 }
  
 int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
-- 
2.43.0


From 6655b61662f8125a0b7d8d5a9ff87cfede418f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:03 +0000
Subject: [PATCH 10/54] fix: score a one-word second channel and refuse a
 one-word extra file in ctm to ctm alignment

---
 src/sclite/ctm2ctm.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sclite/ctm2ctm.c b/src/sclite/ctm2ctm.c
index 2fe74b6..0ff43e9 100644
--- a/src/sclite/ctm2ctm.c
+++ b/src/sclite/ctm2ctm.c
@@ -64,13 +64,13 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 	fill_WTOKE_structure(hyp, fp_hyp, hyp_file, &hyp_eof, case_sense);
 	fill_WTOKE_structure(ref, fp_ref, ref_file, &ref_eof, case_sense);
 	
-	if ((hyp->n < hyp->s) && (ref->n > ref->s)) {
+	if ((hyp->n < hyp->s) && (ref->n >= ref->s)) {
 	  fprintf(stderr,"Error: premature EOF in hyp file '%s' at conv"
 		  "ersation '%s' of ref file '%s'\n",hyp_file,
 		  ref->word[ref->s].conv,ref_file);
 	  exit(1);
 	}
-	if ((hyp->n > hyp->s) && (ref->n < ref->s)) {
+	if ((hyp->n >= hyp->s) && (ref->n < ref->s)) {
 	  fprintf(stderr,"Error: premature EOF in ref file '%s' at conv"
 		  "ersation '%s' of hyp file '%s'\n",ref_file,
 		  hyp->word[hyp->s].conv,hyp_file);
@@ -96,12 +96,12 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 
 	number_of_channels = 1;
 	hyp_end_chan2 = ref_end_chan2 = -1;
-	if (ref_end_chan1+1 < ref->n &&
+	if (ref_end_chan1+1 <= ref->n &&
 	    strcmp(ref->word[ref->s].conv,ref->word[ref_end_chan1+1].conv)==0){
 	    locate_boundary(ref, ref_end_chan1+1, TRUE, TRUE, &ref_end_chan2);
 	    number_of_channels = 2;
 	}
-	if (hyp_end_chan1+1 < hyp->n &&
+	if (hyp_end_chan1+1 <= hyp->n &&
 	    strcmp(hyp->word[hyp->s].conv,hyp->word[hyp_end_chan1+1].conv)==0){
 	    locate_boundary(hyp, hyp_end_chan1+1, TRUE, TRUE, &hyp_end_chan2);
 	    number_of_channels = 2;
-- 
2.43.0


From c7be89d38dbc7558a9026d76eacd3d53ff16600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:28 +0000
Subject: [PATCH 11/54] fix: write weighted alignment records that can be read
 back

---
 src/sclite/scores.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 2a2eb8f..9214fdc 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -177,7 +177,14 @@ void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_a
     fprintf(fp," frag_corr=\"%s\"", sc->frag_corr ? "TRUE" : "FALSE");
     fprintf(fp," opt_del=\"%s\"", sc->opt_del ? "TRUE" : "FALSE");
     fprintf(fp," weight_ali=\"%s\"", sc->weight_ali ? "TRUE" : "FALSE");
-    fprintf(fp," weight_filename=\"%s\"", sc->weight_ali ? sc->weight_file : "");
+    /* the description quotes the column name, which would end the attribute */
+    fprintf(fp," weight_filename=\"");
+    if (sc->weight_ali){
+	char *wf;
+	for (wf = sc->weight_file; *wf != '\0'; wf++)
+	    fputc((*wf == '"') ? '\'' : *wf,fp);
+    }
+    fprintf(fp,"\"");
     fprintf(fp,">\n");
 
     for (i=0; i<sc->aset.num_plab; i++)
-- 
2.43.0


From e78551eef625d1ccab68c06e409722eb2239e3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:38 +0000
Subject: [PATCH 12/54] fix: keep NCE and DET curves defined for all-correct,
 all-wrong and several systems' words

---
 src/sclite/det.c    | 12 +++++++-----
 src/sclite/scores.c |  7 +++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/sclite/det.c b/src/sclite/det.c
index d31515c..cadf730 100644
--- a/src/sclite/det.c
+++ b/src/sclite/det.c
@@ -69,6 +69,7 @@ int make_SCORES_DET_curve(SCORES *scor[], int nscor, char *outroot, int feedback
 
     /* biuld the target and non-target arrays */
     for (s=0; s<nscor; s++){
+      n_targ = n_non_targ = 0;
       alloc_singZ(targ,max_targ,double,0.0);
       alloc_singZ(non_targ,max_non_targ,double,0.0);
 
@@ -79,12 +80,12 @@ int make_SCORES_DET_curve(SCORES *scor[], int nscor, char *outroot, int feedback
 	    for (w=0; w<pp->num; w++) {
 	        if (pp->pset[w].eval == P_CORR &&
 		    *(((WORD*)pp->pset[w].b_ptr)->value) != (TEXT)'\0'){
-		    if (n_targ >= max_targ) 
+		    if (n_targ + 1 >= max_targ) 
 		        expand_singarr(targ,n_targ,max_targ,2,double);
 		    targ[n_targ++] = ((WORD *)(pp->pset[w].b_ptr))->conf;
 		} else if (pp->pset[w].eval == P_SUB || 
 			   pp->pset[w].eval == P_INS){
-		    if (n_non_targ >= max_non_targ) 
+		    if (n_non_targ + 1 >= max_non_targ) 
 		        expand_singarr(non_targ,n_non_targ,
 				       max_non_targ,2,double);
 		    non_targ[n_non_targ++] =
@@ -96,8 +97,9 @@ int make_SCORES_DET_curve(SCORES *scor[], int nscor, char *outroot, int feedback
       
       /* allocate the DET table */
       alloc_2dimZ(det,(n_targ+n_non_targ),2,double,0.0);
-      /* calculate the DET Curve */
-      Compute_ROC (targ, n_targ, non_targ, n_non_targ, det);
+      /* calculate the DET Curve, there isn't one without both kinds of words */
+      if (n_targ > 0 && n_non_targ > 0)
+        Compute_ROC (targ, n_targ, non_targ, n_non_targ, det);
 
       /* output the DET Curve data points */
       if ((fp = fopen(rsprintf("%s.det.dat.%02d",outroot,s),"w"))== (FILE *)0){
@@ -105,7 +107,7 @@ int make_SCORES_DET_curve(SCORES *scor[], int nscor, char *outroot, int feedback
 		" writing.",rsprintf("%s.det.dat.%02d",outroot,s));
 	goto ERROR;
       }
-      for (w=0; w<n_targ+n_non_targ-1; w++)
+      for (w=0; n_targ > 0 && n_non_targ > 0 && w<n_targ+n_non_targ-1; w++)
         fprintf(fp,"%f %f\n",det[w][0],det[w][1]);
       fclose(fp);
 
diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 9214fdc..e27a1d5 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -1917,8 +1917,10 @@ void compute_SCORE_nce(SCORES *sc, double *nce_system, double *nce_arr){
 	    H_of_C = - ( (sc->grp[spkr].corr * log(phyp_corr) * M_LOG2E) + 
 			 ( (sc->grp[spkr].sub + sc->grp[spkr].ins )
 			   * log(1.0 - phyp_corr) * M_LOG2E) );
+	    /* the entropy is 0 when all words are correct, or all incorrect */
 	    if (nce_arr != (double *)0)
-	      nce_arr[spkr] = (H_of_C + sum_c_spk + sum_i_spk) / H_of_C;
+	      nce_arr[spkr] = (phyp_corr > 0.0 && phyp_corr < 1.0) ?
+		  (H_of_C + sum_c_spk + sum_i_spk) / H_of_C : 0.0;
 	    sum_c_sys += sum_c_spk;
 	    sum_i_sys += sum_i_spk;
 	} else {
@@ -1930,7 +1932,8 @@ void compute_SCORE_nce(SCORES *sc, double *nce_system, double *nce_arr){
 	(double)(tot_sub + tot_ins + tot_corr);
     H_of_C = - ( tot_corr * log(phyp_corr) * M_LOG2E + 
 		 ((tot_sub + tot_ins) * log(1.0 - phyp_corr) * M_LOG2E )); 
-    *nce_system = (H_of_C + sum_c_sys + sum_i_sys) / H_of_C; 
+    *nce_system = (phyp_corr > 0.0 && phyp_corr < 1.0) ?
+	(H_of_C + sum_c_sys + sum_i_sys) / H_of_C : 0.0;
     if (conf_not_in_range > 0)
 	fprintf(stderr,"Warning: %d of %d confidence scores were"
 		" not in the range (0.0,1.0)\n",conf_not_in_range,
-- 
2.43.0


From 2a54e109c0fdebb983714ae98a7f31b9b879ab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:44 +0000
Subject: [PATCH 13/54] fix: use the continuity corrected count in the normal
 approximation of the binomial test

---
 src/sclite/statdist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/statdist.c b/src/sclite/statdist.c
index 3a34163..291d0a9 100644
--- a/src/sclite/statdist.c
+++ b/src/sclite/statdist.c
@@ -786,7 +786,7 @@ double compute_acc_binomial(int R, int n, double p)
       double mean, stdev, zstat, flip;
       mean = n*p;
       stdev = sqrt(n*p*(1.0-p));
-      flip = (double)R * 0.5;
+      flip = (double)R + 0.5;
       zstat = (flip - mean) / stdev;
       sum = normprob((double)fabs(zstat));
       if (zstat < 0.0)  sum = 1.0 - sum;
-- 
2.43.0


From 95580640498f6affd1ca3e778f6dcaf121e79451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:44 +0000
Subject: [PATCH 14/54] fix: matched pairs test of two error-free systems

---
 src/sclite/statdist.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sclite/statdist.c b/src/sclite/statdist.c
index 291d0a9..e10cab3 100644
--- a/src/sclite/statdist.c
+++ b/src/sclite/statdist.c
@@ -596,6 +596,11 @@ void calc_mean_var_std_dev_Zstat(int *Z_list, int num_Z, double *mean, double *v
     int i;
     double tmp = 0.0;
 
+    if (num_Z == 0){
+	*mean = *median = *variance = *std_dev = *Z_stat = 0.0;
+	return;
+    }
+
     for (i=0;i<num_Z;i++){
        tmp+=Z_list[i];
     }
-- 
2.43.0


From 01941c06307aa2500bfbfe0d48e482a0a4ec4d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:29 +0000
Subject: [PATCH 15/54] fix: name the system with fewer losses (larger rank
 sums) as the better one in the sign and Wilcoxon tests

---
 src/sclite/signtest.c | 4 ++--
 src/sclite/wilcoxon.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sclite/signtest.c b/src/sclite/signtest.c
index 7d01e07..fbe11a6 100644
--- a/src/sclite/signtest.c
+++ b/src/sclite/signtest.c
@@ -287,7 +287,7 @@ int sign_test_analysis(int num_a, int num_b, int num_z, char *str_a, char *str_b
         if (test_stat < alpha){            
             fprintf(fp,"is REJECTED\n");
             fprintf(fp,"        in favor of the Alternate Hypothesis.  Further, %s is the\n",
-                   (zero_is_best) ? treat2_str : treat1_str);
+                   ((num_a > num_b) == (zero_is_best != 0)) ? treat2_str : treat1_str);
             fprintf(fp,"        better System.\n");
         } else{
             fprintf(fp,"is ACCEPTED\n");
@@ -297,7 +297,7 @@ int sign_test_analysis(int num_a, int num_b, int num_z, char *str_a, char *str_b
     }
     if (test_stat < alpha){
         if (0) fprintf(fp,"Returning Result %d\n",TEST_DIFF * ((zero_is_best) ? 1 : -1));
-        return(TEST_DIFF * ((zero_is_best) ? 1 : -1));
+        return(TEST_DIFF * (((num_a > num_b) == (zero_is_best != 0)) ? 1 : -1));
       }
     return(NO_DIFF);
 }
diff --git a/src/sclite/wilcoxon.c b/src/sclite/wilcoxon.c
index ba552d0..6e42080 100644
--- a/src/sclite/wilcoxon.c
+++ b/src/sclite/wilcoxon.c
@@ -260,12 +260,12 @@ static int wilcoxon_test_analysis(int num_a, int num_b, double sum_a, double sum
     { double W, E;
       double var;
       int n;
-      if (num_a < num_b)
+      if (sum_a < sum_b)
           W = sum_a; 
       else
           W = sum_b; 
       n = num_a + num_b;
-      better = (num_a < num_b) ? 'b' : 'a';
+      better = (sum_a < sum_b) ? 'b' : 'a';
       if (zero_is_best)  /* make an adjustment for direction of PCTS*/
           better = (better == 'a') ? 'b' : 'a';
       E = ((double)n * (double)(n+1) / 4.0);
-- 
2.43.0


From b2645878151f367d72ddbf505ff1f6c955a8c04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:11 +0000
Subject: [PATCH 16/54] fix: sign test report overran its line buffer for short
 system names

---
 src/sclite/signtest.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sclite/signtest.c b/src/sclite/signtest.c
index fbe11a6..551e687 100644
--- a/src/sclite/signtest.c
+++ b/src/sclite/signtest.c
@@ -189,12 +189,12 @@ int compute_signtest_for_treatment(RANK *rank, int treat1, int treat2, char *blo
         fprintf(fp,pct_format,sum_trt2 /rank->n_blk );
         fprintf(fp,"\n\n");
 
-        sprintf((char *)title_line,"No. Speakers with Positive %s Differences = N(+) = %2d",formula_str,sum_plus);
-        fprintf(fp,"%s\n",center((char *)title_line,paper_width));
-        sprintf((char *)title_line,"No. Speakers with Negative %s Differences = N(-) = %2d",formula_str,sum_minus);
-        fprintf(fp,"%s\n",center((char *)title_line,paper_width));
-        sprintf((char *)title_line,"No. Speakers with No %s Differences = N(0) = %2d",formula_str,sum_equal);
-        fprintf(fp,"%s\n",center((char *)title_line,paper_width));
+        fprintf(fp,"%s\n",center(rsprintf("No. Speakers with Positive %s Differences = N(+) = %2d",formula_str,sum_plus),
+				 paper_width));
+        fprintf(fp,"%s\n",center(rsprintf("No. Speakers with Negative %s Differences = N(-) = %2d",formula_str,sum_minus),
+				 paper_width));
+        fprintf(fp,"%s\n",center(rsprintf("No. Speakers with No %s Differences = N(0) = %2d",formula_str,sum_equal),
+				 paper_width));
         fprintf(fp,"\n\n");
     }
 
-- 
2.43.0


From 0d57ee93fe0bd17b1b067a538d7dc90fba60bc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:16 +0000
Subject: [PATCH 17/54] fix: compare systems speaker by speaker by name,
 whatever order the systems list them in

---
 src/sclite/rank.c | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/sclite/rank.c b/src/sclite/rank.c
index 9773ee0..d4a994c 100644
--- a/src/sclite/rank.c
+++ b/src/sclite/rank.c
@@ -12,19 +12,38 @@
 
 #include "sctk.h"
 
+/* the index of a system's speaker with the given name, -1 if none */
+static int find_grp_by_name(SCORES *sc, char *name)
+{
+    int g;
+
+    for (g=0; g<sc->num_grp; g++)
+	if (strcmp(sc->grp[g].name,name) == 0)
+	    return(g);
+    return(-1);
+}
+
 /**********************************************************************/
 /*   initialize and allocate memory for the RANK structure from the   */
 /*   SYS_ALIGN_LIST                                                   */
 /**********************************************************************/
 void init_RANK_struct_from_SCORES(RANK *rank, SCORES *scor[], int nscor, char *calc_formula)
 {
-    int blk=0,trt,i,n,mlen=0,msclen=0,g;
+    int blk=0,trt,i,n,mlen=0,msclen=0,g,b;
     int c,s,d;
-
-    /* set it to the max number of speakers for all systems */
+    int *blk_grp, n_spkr;
+
+    /* the blocks are the speakers of the first system all systems have */
+    n_spkr = (nscor > 0) ? scor[0]->num_grp : 0;
+    alloc_singZ(blk_grp,n_spkr,int,0);
+    for (g=0; g<n_spkr; g++){
+	for (n=1; n<nscor; n++)
+	    if (find_grp_by_name(scor[n],scor[0]->grp[g].name) < 0)
+		break;
+	if (n >= nscor)
+	    blk_grp[blk++] = g;
+    }
     for (n=0; n<nscor; n++){
-	if (blk < scor[n]->num_grp)
-	    blk = scor[n]->num_grp;
 	if (msclen < strlen(scor[n]->title))
 		msclen = strlen(scor[n]->title);
 	for (g=0; g<scor[n]->num_grp; g++)
@@ -36,10 +55,9 @@ void init_RANK_struct_from_SCORES(RANK *rank, SCORES *scor[], int nscor, char *c
     rank->n_blk  = blk;
     rank->n_trt  = trt;
     alloc_2dimarr(rank->blk_name,blk,mlen+1,char);
-    /* copy in only what's available from the first system */
     for (i=0; i<blk; i++)
-	if (i < scor[0]->num_grp)
-	    strcpy(rank->blk_name[i] ,scor[0]->grp[i].name);
+	strcpy(rank->blk_name[i] ,scor[0]->grp[blk_grp[i]].name);
+    free_singarr(blk_grp,int);
     alloc_2dimarr(rank->trt_name,trt,msclen+1,char);
     for (i=0; i<trt; i++){
         strcpy(rank->trt_name[i],scor[i]->title);
@@ -53,20 +71,21 @@ void init_RANK_struct_from_SCORES(RANK *rank, SCORES *scor[], int nscor, char *c
     alloc_singarr(rank->trt_srt_ind ,blk,int);
 
     for (n=0; n<nscor; n++)
-	for (g=0; g<scor[n]->num_grp; g++){
+	for (b=0; b<blk; b++){
+	    g = find_grp_by_name(scor[n],rank->blk_name[b]);
 	    c = scor[n]->grp[g].corr;
 	    s = scor[n]->grp[g].sub; 
 	    d = scor[n]->grp[g].del;
 	    i = scor[n]->grp[g].ins;
             switch (*calc_formula) {
 	      case 'R':
-		rank->pcts[g][n] = pct(c, (c + s + d));
+		rank->pcts[b][n] = pct(c, (c + s + d));
 		break;
 	      case 'E':
-		rank->pcts [g][n] = pct((i + s + d),(c + d + s));
+		rank->pcts [b][n] = pct((i + s + d),(c + d + s));
 		break;
 	      case 'W':
-		rank->pcts[g][n] = 100.0000 - 
+		rank->pcts[b][n] = 100.0000 - 
 		    pct((i + s + d),(c + d + s));
 		break;
 	      default:
-- 
2.43.0


From 5d06549db5acfe03fb9849585b4c7249303b4db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:19 +0000
Subject: [PATCH 18/54] fix: analysis of variance compares systems only when
 they differ, with the documented critical difference

---
 src/sclite/anovar.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sclite/anovar.c b/src/sclite/anovar.c
index f7f384d..e874dbf 100644
--- a/src/sclite/anovar.c
+++ b/src/sclite/anovar.c
@@ -87,12 +87,13 @@ void compute_anovar(RANK *rank, int verbose, int report, int ***out_sys_winner,
     /* if at least one difference, do multiple comparison */
     if (analyze_rank_sum(rank,rnk_trt(rank),rnk_blks(rank),
 			 sum_trt_rank,
-                         FOR_TREATMENTS,verbose,fp) == TEST_DIFF)
+                         FOR_TREATMENTS,verbose,fp) == TEST_DIFF){
 	clear_2dim(trt_winner,rank->n_trt,rank->n_trt,NO_DIFF);
         do_multi_comp_for_anovar(rnk_trt(rank),rnk_blks(rank),
                                  rnk_t_name(rank),sum_trt_rank,
                                  ovr_t_rank(rank),RANK_TITLEA,
                                  srt_t_rank(rank),trt_winner,verbose,fp);
+    }
     if (verbose) form_feed(fp);
 
     if (verbose){
@@ -105,12 +106,13 @@ void compute_anovar(RANK *rank, int verbose, int report, int ***out_sys_winner,
     }
     /* if at least one difference, do multiple comparison */
     if (analyze_rank_sum(rank,rnk_blks(rank),rnk_trt(rank),sum_blk_rank,
-                         FOR_BLOCKS,verbose,fp) == TEST_DIFF)
+                         FOR_BLOCKS,verbose,fp) == TEST_DIFF){
 	clear_2dim(blk_winner,rank->n_blk,rank->n_blk,NO_DIFF);
         do_multi_comp_for_anovar(rnk_blks(rank),rnk_trt(rank),
                                  rnk_b_name(rank),sum_blk_rank,
                                  ovr_b_rank(rank),RANK_TITLEB,
                                  srt_b_rank(rank),blk_winner, verbose,fp);
+    }
     if (verbose && (fp == stdout)) form_feed(fp);
     free_2dimarr(blk_winner,rank->n_blk,int); 
     free_singarr(sum_trt_rank,double);
@@ -379,7 +381,7 @@ static void calc_stat_ranks(int trt_num, int blk_num, int **stat_sum, double *su
 
     /* calculate the comparison value for the confidence interval */
     Zcomp_value = calc_comp_value(trt_num,blk_num);
-    sqr_root = sqrt(blk_num * trt_num * (trt_num - 1) / 6.000000);
+    sqr_root = sqrt(blk_num * trt_num * (trt_num + 1) / 6.000000);
     compare_value = (double)Zcomp_value * (double)sqr_root;
 
     /* go through the comparison and build an array to rank */
-- 
2.43.0


From ee6f59f68f6e13708d433c238f7da0af2fe65266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:46 +0000
Subject: [PATCH 19/54] fix: analysis of variance report with system or speaker
 names over 17 characters

---
 src/sclite/anovar.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sclite/anovar.c b/src/sclite/anovar.c
index e874dbf..208c091 100644
--- a/src/sclite/anovar.c
+++ b/src/sclite/anovar.c
@@ -423,10 +423,9 @@ static double calc_comp_value(int trt_num, int blk_num)
 
 static void print_ANOVAR_comp_matrix(int trt_num, int **stat_sum, char **trt_names, char *title, int *srt_ptr, FILE *fp)
 {
-    char pad[FULL_SCREEN],name_format[50],*hyphens="--------------------";
-    char *spaces="                    ";
+    char pad[FULL_SCREEN],name_format[50],*hyphens,*spaces;
     int t, t2;
-    int max_trt_name_len=4, hy_l=20;
+    int max_trt_name_len=4, hy_l;
 
     set_pad(pad,title, FULL_SCREEN);
     fprintf(fp,"\n\n%s%s\n",pad,title);
@@ -436,6 +435,10 @@ static void print_ANOVAR_comp_matrix(int trt_num, int **stat_sum, char **trt_nam
     for (t=0; t<trt_num; t++)
         if (max_trt_name_len < strlen(trt_names[t]))
             max_trt_name_len = strlen(trt_names[t]);
+    hy_l = max_trt_name_len + 3;
+    alloc_singZ(hyphens,hy_l+1,char,'-');
+    alloc_singZ(spaces,hy_l+1,char,' ');
+    hyphens[hy_l] = spaces[hy_l] = '\0';
     set_pad_cent_n(pad,(trt_num+1) * (max_trt_name_len+2+1), FULL_SCREEN);
     sprintf(name_format,"| %%-%ds ",max_trt_name_len);
 
@@ -482,6 +485,8 @@ static void print_ANOVAR_comp_matrix(int trt_num, int **stat_sum, char **trt_nam
     for (t=0; t<trt_num; t++)
        fprintf(fp,"%s",(hyphens+(hy_l-(max_trt_name_len+3))));
     fprintf(fp,"|\n");
+    free_singarr(hyphens,char);
+    free_singarr(spaces,char);
 }
 
 
-- 
2.43.0


From 37a7d3f56078b80090e81826409a7486e39ffa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:50 +0000
Subject: [PATCH 20/54] fix: rover leaves a system without words in a section
 out instead of taking its next section's word

---
 src/sclite/mfa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/mfa.c b/src/sclite/mfa.c
index 13b3dec..2e6bbf9 100644
--- a/src/sclite/mfa.c
+++ b/src/sclite/mfa.c
@@ -277,7 +277,7 @@ int gap_at_times(WTOKE_STR1 *ctm, int end, double *mgap_beg, double *mgap_end, i
     
     /* if there is no more data in this ctm, that answer is YES */
     if (ctm->s > end) {
-	*mgap_s = ctm->s;
+	*mgap_s = end;
 	return(1);
     }
 
-- 
2.43.0


From b87e42e08745713c3e195e4f55dca408a1289f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:50 +0000
Subject: [PATCH 21/54] fix: rover with systems that have no words in a file, a
 channel or at all

---
 src/sclite/mfa.c    | 43 +++++++++++++++++++++++++++----------------
 src/sclite/net_dp.c |  1 +
 src/sclite/rover.c  |  7 +++++--
 3 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/sclite/mfa.c b/src/sclite/mfa.c
index 2e6bbf9..0176348 100644
--- a/src/sclite/mfa.c
+++ b/src/sclite/mfa.c
@@ -45,8 +45,11 @@ void mfalign_ctm_files(char **hypname, int nhyps, int time_align, int case_sense
         locate_next_file_channel(ctms, nhyps, files, hypname, eofs, conv_end,
 				 case_sense, feedback);
 	
-	file = ctms[0]->word[ctms[0]->s].conv;
-	chan = ctms[0]->word[ctms[0]->s].turn;
+	/* the first ctm with words left names the file and channel */
+	for (in=0; in < nhyps && ctms[in]->s > ctms[in]->n; in++) ;
+	if (in == nhyps) break;
+	file = ctms[in]->word[ctms[in]->s].conv;
+	chan = ctms[in]->word[ctms[in]->s].turn;
 
 	/* loop though the file/channel section, looking for time breaks */
 	while(find_common_silence(ctms, nhyps, conv_end,
@@ -144,27 +147,35 @@ NETWORK *perform_mfalign(WTOKE_STR1 **ctms, int nctm, int *end, int time_align){
 
     
 void locate_next_file_channel(WTOKE_STR1 **ctms, int nctm, FILE **files, char **hypname, int *eofs, int *conv_end, int case_sense, int feedback){
-    int in;
+    int in, first=-1;
 
-    /* locate the file boundaries */
+    /* locate the file boundaries, first is the first ctm with data left */
     for (in=0; in < nctm; in++){ 
 	fill_WTOKE_structure(ctms[in], files[in], hypname[in],
 			     &(eofs[in]), case_sense);
 	locate_boundary(ctms[in], ctms[in]->s, TRUE,TRUE,&(conv_end[in]));
-	if (in >= 1 && ctms[in]->s <= ctms[in]->n)
-	    if (strcmp(ctms[0]->word[ctms[0]->s].conv,
-		       ctms[in]->word[ctms[in]->s].conv) != 0){
-		fprintf(scfp,"Error: Conversation mismatches in %s and %s, "
-			"%s and %s respectively",hypname[0],hypname[in],
-			ctms[0]->word[ctms[0]->s].conv,
-			ctms[in]->word[ctms[in]->s].conv);
-		exit(1);
-	    }
+	if (ctms[in]->s > ctms[in]->n)
+	    continue;
+	if (first < 0)
+	    first = in;
+	else if (strcmp(ctms[first]->word[ctms[first]->s].conv,
+			ctms[in]->word[ctms[in]->s].conv) != 0 ||
+		 strcmp(ctms[first]->word[ctms[first]->s].turn,
+			ctms[in]->word[ctms[in]->s].turn) != 0){
+	    fprintf(scfp,"Error: Conversation mismatches in %s and %s, "
+		    "%s %s and %s %s respectively\n",
+		    hypname[first],hypname[in],
+		    ctms[first]->word[ctms[first]->s].conv,
+		    ctms[first]->word[ctms[first]->s].turn,
+		    ctms[in]->word[ctms[in]->s].conv,
+		    ctms[in]->word[ctms[in]->s].turn);
+	    exit(1);
+	}
     }
-    if (feedback >= 1) {
+    if (feedback >= 1 && first >= 0) {
 	printf("Working on conversation: %s channel: %s\n",	
-	       ctms[0]->word[ctms[0]->s].conv,
-	       ctms[0]->word[ctms[0]->s].turn);
+	       ctms[first]->word[ctms[first]->s].conv,
+	       ctms[first]->word[ctms[first]->s].turn);
 	for (in=0; in < nctm; in++)
 	    printf("   File: %s  range %d-%d\n",hypname[in],ctms[in]->s,
 		   conv_end[in]);
diff --git a/src/sclite/net_dp.c b/src/sclite/net_dp.c
index 09cf40f..dba24f2 100644
--- a/src/sclite/net_dp.c
+++ b/src/sclite/net_dp.c
@@ -282,6 +282,7 @@ void cleanup_NET_ALIGN(void){
     char *proc="cleanup_NET_ALIGN";
 
     if (db >= 1) printf("Entering %s:\n",proc);
+    if (net_ali == (NET_ALIGN *)0) return;
     Network_dpalign((NETWORK *)0,(NETWORK *)0, 0, (PATH **)0, 0);
 }
 
diff --git a/src/sclite/rover.c b/src/sclite/rover.c
index 3bd15f4..87fcc0d 100644
--- a/src/sclite/rover.c
+++ b/src/sclite/rover.c
@@ -150,8 +150,11 @@ void mfalign_ctm_files_v1(char **hypname, int nhyps, int time_align, int case_se
         locate_next_file_channel(ctms, nhyps, files, hypname, eofs, conv_end,
 				 case_sense, feedback);
 
-	mf_sel_str.file = ctms[0]->word[ctms[0]->s].conv;	
-	mf_sel_str.chan = ctms[0]->word[ctms[0]->s].turn;	/* channel */
+	/* the first ctm with words left names the file and channel */
+	for (in=0; in < nhyps && ctms[in]->s > ctms[in]->n; in++) ;
+	if (in == nhyps) break;
+	mf_sel_str.file = ctms[in]->word[ctms[in]->s].conv;	
+	mf_sel_str.chan = ctms[in]->word[ctms[in]->s].turn;	/* channel */
 	
 	/* loop though the file/channel section, looking for time breaks */
 	while(find_common_silence(ctms, nhyps, conv_end, sil_end, 1.0) == 1){
-- 
2.43.0


From 4cb0d7ea9f9fc67956634413e4f51dac247d74be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:50 +0000
Subject: [PATCH 22/54] fix: rover keeps a last section of one word

---
 src/sclite/mfa.c   | 2 +-
 src/sclite/rover.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sclite/mfa.c b/src/sclite/mfa.c
index 0176348..a2e2937 100644
--- a/src/sclite/mfa.c
+++ b/src/sclite/mfa.c
@@ -83,7 +83,7 @@ void mfalign_ctm_files(char **hypname, int nhyps, int time_align, int case_sense
 	    for (in=0; in < nhyps; in++){
 		ctms[in]->s = sil_end[in] + 
 		    ((sil_end[in] <= conv_end[in]) ? 1 : 0);
-		if (!eofs[in] || (ctms[in]->s < ctms[in]->n)) done = 0;
+		if (!eofs[in] || (ctms[in]->s <= ctms[in]->n)) done = 0;
 	    }
 	}
     }
diff --git a/src/sclite/rover.c b/src/sclite/rover.c
index 87fcc0d..d0e0b16 100644
--- a/src/sclite/rover.c
+++ b/src/sclite/rover.c
@@ -186,7 +186,7 @@ void mfalign_ctm_files_v1(char **hypname, int nhyps, int time_align, int case_se
 	    for (in=0; in < nhyps; in++){
 		ctms[in]->s = sil_end[in] + 
 		    ((sil_end[in] <= conv_end[in]) ? 1 : 0);
-		if (!eofs[in] || (ctms[in]->s < ctms[in]->n)) done = 0;
+		if (!eofs[in] || (ctms[in]->s <= ctms[in]->n)) done = 0;
 	    }
 	}
     }
-- 
2.43.0


From 3b1c16094edafae37fa970c4f79738c02edf53e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:50 +0000
Subject: [PATCH 23/54] fix: rover selects a word when all confidences are zero
 or all scores at most -1

---
 src/sclite/rover.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sclite/rover.c b/src/sclite/rover.c
index d0e0b16..aa1c042 100644
--- a/src/sclite/rover.c
+++ b/src/sclite/rover.c
@@ -431,8 +431,9 @@ void print_linear(NODE *node, void *p){
 				   word_max_conf[i]));
 	    else if (mf_sel_str->method == METH_AVGCONF){
 		word_score[i] = ( mf_sel_str->alpha * ((double)word_occ[i]/(double)Narc) +
-				  ((1.0-mf_sel_str->alpha) * 
-				   word_conf_sum[i] / total_conf));
+				  ((total_conf == 0.0) ? 0.0 :
+				   ((1.0-mf_sel_str->alpha) * 
+				    word_conf_sum[i] / total_conf)));
 		if (mfdb > 5) {
 		    printf("avgconf word_score[%d] = %f\n",i,word_score[i]);
 		    printf("      %.3f * (%.3f / %.3f) + (1 - %.3f) * (%.3f / %.3f)\n",
@@ -444,7 +445,7 @@ void print_linear(NODE *node, void *p){
 		fprintf(scfp,"Error: undefined method PL2 %d\n",mf_sel_str->method);
 		exit(1);
 	    }
-	    if (word_score[i] > max_score){
+	    if (best_w < 0 || word_score[i] > max_score){
 		max_score = word_score[i];
 		best_w = i;
 		ties = 1;
-- 
2.43.0


From c4aad0376b0b02343363b90a71d7bec4626db91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:50 +0000
Subject: [PATCH 24/54] fix: rfilter1 does not read left context from before
 the start of the line

---
 src/rfilter1/include/aprules2.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rfilter1/include/aprules2.c b/src/rfilter1/include/aprules2.c
index ce78a7e..dce96fa 100644
--- a/src/rfilter1/include/aprules2.c
+++ b/src/rfilter1/include/aprules2.c
@@ -43,7 +43,8 @@ if (db_level > 1) printf("%s key_char = %d (%c)\n",pdb,key_char,key_char);
        {irule = rset->rule_index[jrule];
 if (db_level > 1) printf("%s jrule=%d, irule=%d\n",pdb,jrule,irule);
  if (streq((char *)rset->format,"NIST1"))
-          {if ( ((rset->case_sensitive)&&
+          {if ( ((pi - pa) >= rset->rule[irule].lcontextl) && /* room for left context */
+               (((rset->case_sensitive)&&
                  (strncmp((char *)pi,(char *)(rset->rule[irule].sin),rset->rule[irule].sinl)==0)&&
                  (strncmp((char *)(pi-rset->rule[irule].lcontextl),
                           (char *)rset->rule[irule].lcontext,
@@ -58,7 +59,7 @@ if (db_level > 1) printf("%s jrule=%d, irule=%d\n",pdb,jrule,irule);
                           rset->rule[irule].lcontextl)==0)&&
                  (strncasecmp((char *)(pi+rset->rule[irule].sinl),
 			      (char *)rset->rule[irule].rcontext,
-                          rset->rule[irule].rcontextl)==0))
+                          rset->rule[irule].rcontextl)==0)))
 	      )
              {hit = T;
 	       pb = (Char *)strcat((char *)pb,(char *)rset->rule[irule].sout);
-- 
2.43.0


From 48a1ed69c06a7089d7ebdcb679e933b67cf33e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:50 +0000
Subject: [PATCH 25/54] fix: rfilter1 finds the context of a rule whose strings
 contain slashes

---
 src/rfilter1/include/grules2.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/rfilter1/include/grules2.c b/src/rfilter1/include/grules2.c
index a4a4833..d35d370 100644
--- a/src/rfilter1/include/grules2.c
+++ b/src/rfilter1/include/grules2.c
@@ -64,7 +64,7 @@
   /************************************************************/
   static void r_process_data_line(RULESET2 *rset, Char *pline, int *perr)
   {Char *proc = (Char *)"r_process_data_line";
-    Char *ieq, *icontext, *islot, *ilmark, *irmark;
+    Char *ieq, *icontext, *islot, *islash, *imark;
     Char sx_data[LINE_LENGTH], *sx = &sx_data[0];
     RULE2 x, *rx = &x;
     SUBSTRING ssx_data, *ssx = &ssx_data;
@@ -90,18 +90,14 @@ if (db_level > 1) printf("%s processing as format NIST1\n",pdb);
          {fprintf(stderr,"*ERR:%s: no arrow, line='%s'\n",proc,pline);
           *perr = 32; goto RETURN;
 	 }
-/* context marker is last slash IFF not enclosed in [] */
-       icontext = (Char *)strrchr((char *)pline,'/');
-       if (icontext != NULL)
-         {irmark = (Char *)strchr((char *)icontext,']');
-	   ilmark = (Char *)strchr((char *)icontext,'[');
-          if (irmark < ilmark) /* enclosed in [] */
-            {icontext = NULL;
-	    }
-          else
-            {islot = (Char *)strstr((char *)icontext,"_");
-	    }
+/* context marker is last slash after the arrow that is not enclosed in [] */
+       icontext = NULL; islot = NULL;
+       for (islash = (Char *)strchr((char *)ieq,'/'); islash != NULL;
+            islash = (Char *)strchr((char *)islash+1,'/'))
+         {imark = (Char *)strpbrk((char *)islash,"[]");
+          if ((imark == NULL) || (*imark == '[')) icontext = islash;
 	 }
+       if (icontext != NULL) islot = (Char *)strstr((char *)icontext,"_");
      /* initialize rule */
        rx->sin = strdup_safe((Char  *)"",proc);
        rx->sinl = 0;
-- 
2.43.0


From 20bdf21a48926dd5601c26295c014b44e24242db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:50 +0000
Subject: [PATCH 26/54] fix: rfilter1 rule table holds MAX_NRULES rules, and
 may be empty

---
 src/rfilter1/include/grules2.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rfilter1/include/grules2.c b/src/rfilter1/include/grules2.c
index d35d370..a6b120e 100644
--- a/src/rfilter1/include/grules2.c
+++ b/src/rfilter1/include/grules2.c
@@ -292,7 +292,7 @@ if (db_level > 2) printf("%s line:'%s'\n",pdb,pline);
 	    }
           else
             {if (n_data_lines_processed == 0)
-               rset->rule = (RULE2*) calloc_safe((size_t)rset->max_nrules,sizeof(RULE2),proc);
+               rset->rule = (RULE2*) calloc_safe((size_t)rset->max_nrules+1,sizeof(RULE2),proc);
              remove_comments(pline,comment_flag);
              r_process_data_line(rset,pline,perr);
              if (*perr > 0) goto RETURN;
@@ -306,6 +306,9 @@ if (db_level > 2) printf("%s line:'%s'\n",pdb,pline);
   /* close file & adjust some variables  */
     if (fclose(fp) != 0)
       fprintf(stderr,"%s: error return from fclose\n",proc);
+  /* no rules at all? */
+    if (n_data_lines_processed == 0)
+      rset->rule = (RULE2*) calloc_safe((size_t)1,sizeof(RULE2),proc);
   /* zero out value for each rule */
     for (i=0; i <= rset->nrules; i++) rset->rule[i].val1 = 0;
   /* make rule indexing tables */
-- 
2.43.0


From e793836469ffb1a444fe3e8cd7943b77c5eef63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:50 +0000
Subject: [PATCH 27/54] fix: rfilter1 ignores comments that are indented or
 longer than the line buffer

---
 src/rfilter1/include/grules2.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rfilter1/include/grules2.c b/src/rfilter1/include/grules2.c
index a6b120e..cfd5ace 100644
--- a/src/rfilter1/include/grules2.c
+++ b/src/rfilter1/include/grules2.c
@@ -282,7 +282,11 @@ if (db_level > 1) printf("*DB: trying to open '%s'\n",full_fname);
       }
   /* process file contents */
     while (fgets((char *)pline,LINE_LENGTH,fp) != NULL) /* get next line */
-      {pline = prtrim2(del_eol(pline));
+      {if ((strchr((char *)pline,'\n') == NULL)&&(strlen((char *)comment_flag) > 0)&&
+           (strstr((char *)pline,(char *)comment_flag) != NULL))
+         /* skip the rest of a comment that does not fit in the line buffer */
+         while (((i = getc(fp)) != EOF)&&(i != '\n'));
+       pline = prtrim2(del_eol(pline));
 if (db_level > 2) printf("%s line:'%s'\n",pdb,pline);
        if (valid_data_line(pline,comment_flag))
          {  /* process a non-blank, non-comment line in s */
@@ -291,9 +295,10 @@ if (db_level > 2) printf("%s line:'%s'\n",pdb,pline);
              if (*perr > 0) goto RETURN;
 	    }
           else
-            {if (n_data_lines_processed == 0)
+            {remove_comments(pline,comment_flag);
+             if (textlen(pline) < 1) continue; /* nothing but a comment */
+             if (n_data_lines_processed == 0)
                rset->rule = (RULE2*) calloc_safe((size_t)rset->max_nrules+1,sizeof(RULE2),proc);
-             remove_comments(pline,comment_flag);
              r_process_data_line(rset,pline,perr);
              if (*perr > 0) goto RETURN;
              n_data_lines_processed += 1;
-- 
2.43.0


From 3073f29353aa9eac8828cf760bbdb63cdde3dbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:20 +0000
Subject: [PATCH 28/54] fix: asclite scores several hypothesis systems
 separately

---
 src/asclite/core/ctmstmrttm_segmentor.cpp   | 23 ++++++++----------
 src/asclite/core/rawsys_reportgenerator.cpp |  7 ++++++
 src/asclite/core/recording.cpp              | 26 ++++++++++++++-------
 src/asclite/core/recording.h                |  2 +-
 4 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/asclite/core/ctmstmrttm_segmentor.cpp b/src/asclite/core/ctmstmrttm_segmentor.cpp
index 0c67c79..10fb9d2 100644
--- a/src/asclite/core/ctmstmrttm_segmentor.cpp
+++ b/src/asclite/core/ctmstmrttm_segmentor.cpp
@@ -46,21 +46,18 @@ CTMSTMRTTMSegmentor::~CTMSTMRTTMSegmentor()
 
 void CTMSTMRTTMSegmentor::Reset(SpeechSet* references, SpeechSet* hypothesis)
 {
-    if (references != refs)
-    {
-        refs = references;
-        //init the source and Channel list
-        sourceList.clear();
-        channelList.clear();
+    refs = references;
+    //init the source and Channel list, which are emptied as the segments are retrieved
+    sourceList.clear();
+    channelList.clear();
     
-        for (size_t i=0 ; i < references->GetNumberOfSpeech(); ++i)
+    for (size_t i=0 ; i < references->GetNumberOfSpeech(); ++i)
+    {
+        for (size_t j=0 ; j < references->GetSpeech(i)->NbOfSegments() ; ++j)
         {
-            for (size_t j=0 ; j < references->GetSpeech(i)->NbOfSegments() ; ++j)
-            {
-                Segment* seg = references->GetSpeech(i)->GetSegment(j);
-                sourceList.insert(seg->GetSource());
-                channelList[seg->GetSource()].insert(seg->GetChannel());
-            }
+            Segment* seg = references->GetSpeech(i)->GetSegment(j);
+            sourceList.insert(seg->GetSource());
+            channelList[seg->GetSource()].insert(seg->GetChannel());
         }
     }
 	
diff --git a/src/asclite/core/rawsys_reportgenerator.cpp b/src/asclite/core/rawsys_reportgenerator.cpp
index 5ee7873..85f7d69 100644
--- a/src/asclite/core/rawsys_reportgenerator.cpp
+++ b/src/asclite/core/rawsys_reportgenerator.cpp
@@ -225,6 +225,13 @@ void RAWSYSReportGenerator::GenerateSystem(Alignment* alignment, const string& s
 	vector<double> VecPctCorrectWordsNotNull, VecPctSubstitutionsNotNull, VecPctSpeakerErrorsNotNull, VecPctDeletionsNotNull, VecPctInsertionsNotNull, VecPctErrorsNotNull, VecPctSegmentsErrors;
 	vector<double> VecNCENotNull;
 	
+	/* The counts of a previous system are not part of this one */
+	for(i = m_MapDatas.begin(); i != m_MapDatas.end(); ++i)
+		delete i->second;
+	
+	m_MapDatas.clear();
+	m_SumTotConfidenceCorrect = m_SumTotConfidenceIncorrect = 0.0;
+	
 	/* TODO catch datas */
 	AlignedSpeechIterator* aAlignedSpeechs;
 	AlignedSpeech* aAlignedSpeechCurrent;
diff --git a/src/asclite/core/recording.cpp b/src/asclite/core/recording.cpp
index c0940a8..3b0d828 100644
--- a/src/asclite/core/recording.cpp
+++ b/src/asclite/core/recording.cpp
@@ -54,9 +54,6 @@ Recording::Recording()
 	filters["filter.spkrautooverlap"] = new SpkrAutoOverlap();
 	filters["filter.uem"] = new UEMFilter();
   
-	//init the Alignment result
-	alignments = new Alignment();
-	
 	//Init SpeakerMatch
 	m_pSpeakerMatch = new SpeakerMatch();
 }
@@ -170,7 +167,11 @@ Recording::~Recording()
 	}
 	
 	filters.clear();
-	delete alignments;
+	
+	for(size_t al=0; al<alignments.size(); ++al)
+		delete alignments[al];
+	
+	alignments.clear();
 	delete references;
 	
 	map<string, SpeechSet* >::iterator ssi, sse;
@@ -239,7 +240,11 @@ void Recording::Load(const string& _references, const string& _refType, const ve
 		hyps_loaded->SetTitle(title_temp);
 		
 		hypothesis[title_temp] = hyps_loaded;
-		alignments->AddSystem(_hypothesis_files[i], title_temp);
+		
+		//each system has its own Alignment result
+		Alignment* alignment = new Alignment();
+		alignment->AddSystem(_hypothesis_files[i], title_temp);
+		alignments.push_back(alignment);
     }    
 }
 
@@ -813,7 +818,9 @@ void Recording::AlignHypRef()
                 sprintf(buffer, "Store %li GAS for hyp: '%s' cost: (%d)", gas->GetNbOfGraphAlignedToken(), hyp_name.c_str(), (dynamic_cast<Levenshtein*>(aligner_instance))->GetCost());
                 LOG_DEBUG(logger, buffer);
 				
-				alignments->AddGraphAlignedSegment(gas, hyp_name, segmentsGroup);
+				for(size_t al=0; al<alignments.size(); ++al)
+					if(alignments[al]->GetSystem(0) == hyp_name)
+						alignments[al]->AddGraphAlignedSegment(gas, hyp_name, segmentsGroup);
 								
 				delete gas;
 			}
@@ -844,7 +851,9 @@ void Recording::Score()
 	if(!m_bGenericAlignment)
 	{
 		Scorer* scorer_instance = scorer["stt"];
-    	scorer_instance->Score(alignments, m_pSpeakerMatch);
+		
+		for(size_t al=0; al<alignments.size(); ++al)
+			scorer_instance->Score(alignments[al], m_pSpeakerMatch);
     }
 }
 
@@ -863,7 +872,8 @@ void Recording::GenerateReport(const vector<string> & reportsType)
 	{	
 		for (size_t i=0 ; i < reportsType.size() ; ++i)
 			if(reportsType[i] != "stdout")
-				reportGenerators[reportsType[i]]->Generate(alignments, outputint);
+				for(size_t al=0; al<alignments.size(); ++al)
+					reportGenerators[reportsType[i]]->Generate(alignments[al], outputint);
 	}
 	else
 	{
diff --git a/src/asclite/core/recording.h b/src/asclite/core/recording.h
index e19f2e2..149da87 100644
--- a/src/asclite/core/recording.h
+++ b/src/asclite/core/recording.h
@@ -158,7 +158,7 @@ class Recording
 		/**
 		 * Alignment object
 		 */
-		Alignment* alignments;
+		vector<Alignment*> alignments;
 		
 		bool m_bGenericAlignment;
 };
-- 
2.43.0


From cdf0a8d4a67f3e6a5c2043172cc938b3a99a9989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:20 +0000
Subject: [PATCH 29/54] fix: asclite -D both honours optional words of both
 sides

---
 src/asclite/core/levenshtein.cpp | 9 +++++++--
 src/asclite/core/stt_scorer.cpp  | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/asclite/core/levenshtein.cpp b/src/asclite/core/levenshtein.cpp
index a3e9459..0acadd8 100644
--- a/src/asclite/core/levenshtein.cpp
+++ b/src/asclite/core/levenshtein.cpp
@@ -49,11 +49,16 @@ void Levenshtein::SetSegments(SegmentsGroup* segmentsGroup, SpeakerMatch* pSpeak
     bool opt_ref = false;
     bool opt_hyp = false;
 
-    if (string("both").compare(opt_case) == 0 || string("ref").compare(opt_case) == 0)
+    if (string("both").compare(opt_case) == 0)
+    {
+        opt_ref = true;
+        opt_hyp = true;
+    }
+    else if (string("ref").compare(opt_case) == 0)
     {
         opt_ref = true;
     }
-    else if (string("both").compare(opt_case) == 0 || string("hyp").compare(opt_case) == 0)
+    else if (string("hyp").compare(opt_case) == 0)
     {
         opt_hyp = true;
     }
diff --git a/src/asclite/core/stt_scorer.cpp b/src/asclite/core/stt_scorer.cpp
index 5a7bacd..b4ade26 100644
--- a/src/asclite/core/stt_scorer.cpp
+++ b/src/asclite/core/stt_scorer.cpp
@@ -44,11 +44,16 @@ void STTScorer::Score(Alignment* alignment, SpeakerMatch* speakerMatch)
     bool opt_ref = false;
     bool opt_hyp = false;
   
-    if ("both" == opt_case  || "ref" == opt_case)
+    if ("both" == opt_case)
+    {
+        opt_ref = true;
+        opt_hyp = true;
+    }
+    else if ("ref" == opt_case)
     {
         opt_ref = true;
     }
-    else if ("both" == opt_case || "hyp" == opt_case)
+    else if ("hyp" == opt_case)
     {
         opt_hyp = true;
     }
-- 
2.43.0


From 8dd67e13de9b34a569320fa713205c25c23cab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:20 +0000
Subject: [PATCH 30/54] fix: asclite garbage collection stops when a block does
 not compress

---
 src/asclite/core/compressedlevenshteinmatrix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/asclite/core/compressedlevenshteinmatrix.cpp b/src/asclite/core/compressedlevenshteinmatrix.cpp
index d81b9a8..e13b55b 100644
--- a/src/asclite/core/compressedlevenshteinmatrix.cpp
+++ b/src/asclite/core/compressedlevenshteinmatrix.cpp
@@ -315,7 +315,8 @@ bool CompressedLevenshteinMatrix::ForcedGarbageCollection()
 	if(found)
 		CompressBlock(min_index);
 	
-	return found;
+	// An incompressible block does not free any memory
+	return found && m_TabbIsCompressed[min_index];
 }
 
 string CompressedLevenshteinMatrix::ToString()
-- 
2.43.0


From 8d88afbe0119c5ba3e88ba9fd36448b2e0e8f054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:20 +0000
Subject: [PATCH 31/54] fix: asclite trn scoring with several systems or an
 utterance without hypothesis

---
 src/asclite/core/trntrn_segmentor.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/asclite/core/trntrn_segmentor.cpp b/src/asclite/core/trntrn_segmentor.cpp
index 0991331..df9eb01 100644
--- a/src/asclite/core/trntrn_segmentor.cpp
+++ b/src/asclite/core/trntrn_segmentor.cpp
@@ -25,19 +25,16 @@ Logger* TRNTRNSegmentor::logger = Logger::getLogger();
 
 void TRNTRNSegmentor::Reset(SpeechSet* references, SpeechSet* hypothesis)
 {
-    if (references != refs)
-    {
-        refs = references;
-        //init the uterance id list
-        uteranceList.clear();
+    refs = references;
+    //init the uterance id list, which is emptied as the segments are retrieved
+    uteranceList.clear();
     
-        for (size_t i=0 ; i < references->GetNumberOfSpeech() ; ++i)
+    for (size_t i=0 ; i < references->GetNumberOfSpeech() ; ++i)
+    {
+        for (size_t j=0 ; j < references->GetSpeech(i)->NbOfSegments() ; ++j)
         {
-            for (size_t j=0 ; j < references->GetSpeech(i)->NbOfSegments() ; ++j)
-            {
-                Segment* seg = references->GetSpeech(i)->GetSegment(j);
-                uteranceList.insert(seg->GetId());
-            }
+            Segment* seg = references->GetSpeech(i)->GetSegment(j);
+            uteranceList.insert(seg->GetId());
         }
     }
   
@@ -52,7 +49,7 @@ SegmentsGroup* TRNTRNSegmentor::Next()
     SegmentsGroup* segGroup = new SegmentsGroup();
     bool foundIt = false;
   
-    for (size_t j=0 ; refs->GetNumberOfSpeech() ; ++j)
+    for (size_t j=0 ; j < refs->GetNumberOfSpeech() ; ++j)
     {
         for (size_t i=0 ; i < refs->GetSpeech(j)->NbOfSegments() ; ++i)
         {
@@ -74,7 +71,7 @@ SegmentsGroup* TRNTRNSegmentor::Next()
         }
     }
     
-    for (size_t j=0 ; hyps->GetNumberOfSpeech(); ++j)
+    for (size_t j=0 ; j < hyps->GetNumberOfSpeech() ; ++j)
     {
         for (size_t i=0 ; i < hyps->GetSpeech(j)->NbOfSegments() ; ++i)
         {
-- 
2.43.0


From 4385ba1805e567c319019a73a2f2825a8fe67f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:20 +0000
Subject: [PATCH 32/54] fix: asclite input parsers skip blank and malformed
 lines

---
 src/asclite/core/ctm_inputparser.cpp | 8 +++++++-
 src/asclite/core/trn_inputparser.cpp | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/asclite/core/ctm_inputparser.cpp b/src/asclite/core/ctm_inputparser.cpp
index 63292a4..5abec4f 100644
--- a/src/asclite/core/ctm_inputparser.cpp
+++ b/src/asclite/core/ctm_inputparser.cpp
@@ -69,7 +69,11 @@ SpeechSet* CTMInputParser::loadFile(const string& name)
 	
 	while (getline(file,line,'\n'))
 	{
-		if(line.find_first_of(";;") != 0)
+		if(line.find_first_not_of(" \t\r") == string::npos)
+		{
+			// blank line so skip
+		}
+		else if(line.find_first_of(";;") != 0)
         // Not a comment
 		{
             int nbArgParsed = 0;
@@ -86,6 +90,8 @@ SpeechSet* CTMInputParser::loadFile(const string& name)
                     char buffer[BUFFER_SIZE];
                     sprintf(buffer, "Error parsing the line %li in file %s", line_nb, name.c_str());
                     LOG_ERR(logger, buffer);
+                    ++line_nb;
+                    continue;
                 }
             }
 			
diff --git a/src/asclite/core/trn_inputparser.cpp b/src/asclite/core/trn_inputparser.cpp
index 133fffe..ec9e0c1 100644
--- a/src/asclite/core/trn_inputparser.cpp
+++ b/src/asclite/core/trn_inputparser.cpp
@@ -48,7 +48,11 @@ SpeechSet* TRNInputParser::loadFile(const string& name)
 	{
 		++lineNum;
 		//cout << "prec:"<< prec_seg->isEmpty() << endl;
-		if (line.find_first_of(";;") == 0)
+		if (line.find_first_not_of(" \t\r") == string::npos)
+		{
+			// blank line so skip
+		}
+		else if (line.find_first_of(";;") == 0)
 		{
 			//comment so skip (for now)
 		}
-- 
2.43.0


From b8bb67105777d587daa53b4cf556d7e03df48b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:20 +0000
Subject: [PATCH 33/54] fix: asclite stm lines blank, malformed or with the
 time in their file name

---
 src/asclite/core/stm_inputparser.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/asclite/core/stm_inputparser.cpp b/src/asclite/core/stm_inputparser.cpp
index 2faab04..890ed20 100644
--- a/src/asclite/core/stm_inputparser.cpp
+++ b/src/asclite/core/stm_inputparser.cpp
@@ -82,7 +82,11 @@ SpeechSet* STMInputParser::loadFile(const string& name)
         //cout << lineNum << endl;
 		//cout << "prec:"<< prec_seg->isEmpty() << endl;
         
-		if (line.find_first_of(";;") == 0)
+		if (line.find_first_not_of(" \t\r") == string::npos)
+		{
+			// blank line so skip
+		}
+		else if (line.find_first_of(";;") == 0)
 		{
 			string line_catlab = string("");
 			string line_id = string("");
@@ -174,19 +178,17 @@ SpeechSet* STMInputParser::loadFile(const string& name)
 			            
 			if (nbArgParsed < 6 || lur[0] != '<')
             {
-                nbArgParsed = sscanf(line.c_str(), "%s %s %s %s %s", (char*) &f_file, (char*) &channel, (char*) &spkr, (char*) &start_char, (char*) &end_char);
+                nbArgParsed = sscanf(line.c_str(), "%s %s %s %s %s%n", (char*) &f_file, (char*) &channel, (char*) &spkr, (char*) &start_char, (char*) &end_char, &wordsBegin);
 				
 				start = ParseString(string(start_char));
 				end = ParseString(string(end_char));
 				
-                wordsBegin = line.find(start_char)+1;
-                wordsBegin = line.find(end_char, wordsBegin)+string(end_char).size();
-                
                 if (nbArgParsed < 5)
                 {
                     char buffer[BUFFER_SIZE];
                     sprintf(buffer, "Error parsing the line %li in file %s", lineNum, name.c_str());
                     LOG_ERR(logger, buffer);
+                    continue;
                 }
             }
             
-- 
2.43.0


From 5146ac17476ebd5bdd5d726cf55ac394e8d4feee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:57 +0000
Subject: [PATCH 34/54] fix: asclite terminates the speaker name it compares
 with inter_segment_gap

---
 src/asclite/core/stm_inputparser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/asclite/core/stm_inputparser.cpp b/src/asclite/core/stm_inputparser.cpp
index 890ed20..a5e093c 100644
--- a/src/asclite/core/stm_inputparser.cpp
+++ b/src/asclite/core/stm_inputparser.cpp
@@ -37,6 +37,7 @@ bool STMInputParser::CompareToISGCaseInsensitive(char str[])
 		i++;
 	}
 	
+	tmp[i] = '\0';
 	string tmpstr(tmp);
 	
 	return(tmpstr.compare(string("inter_segment_gap")) == 0);
-- 
2.43.0


From 26ca6cb256c65697264dcd2fc8c5630d8cc5728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:00 +0000
Subject: [PATCH 35/54] fix: asclite sgml report when nothing has been aligned

---
 src/asclite/core/sgml_reportgenerator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/asclite/core/sgml_reportgenerator.cpp b/src/asclite/core/sgml_reportgenerator.cpp
index bedd4f7..7baf2d4 100644
--- a/src/asclite/core/sgml_reportgenerator.cpp
+++ b/src/asclite/core/sgml_reportgenerator.cpp
@@ -166,7 +166,8 @@ void SGMLReportGenerator::GenerateSystem(Alignment* alignment, const string& sys
 	output << " weight_filename=" << "\"" << weight_filename << "\"";
 	output << ">" << endl;
 	
-	GenerateCategoryLabel(parentSpeechSet, output);
+	if(parentSpeechSet)
+		GenerateCategoryLabel(parentSpeechSet, output);
 	
 	m_bRefHasTimes = m_bRefHasConf = m_bHypHasConf = m_bHypHasTimes = false;
 	Speakers::iterator current = speakers.begin();
-- 
2.43.0


From 23c55f19048937d888898b1d0b05b7599b9e6950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:13 +0000
Subject: [PATCH 36/54] fix: asclite standard deviation of a single speaker

---
 src/asclite/core/statistics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asclite/core/statistics.cpp b/src/asclite/core/statistics.cpp
index 53ec683..f4111a9 100644
--- a/src/asclite/core/statistics.cpp
+++ b/src/asclite/core/statistics.cpp
@@ -51,7 +51,7 @@ void Statistics::Compute()
 		}
 		
 		m_Mean = m_Sum/((double) m_VecValues.size());
-		m_SD = sqrt((n * sumSqr - m_Sum*m_Sum) / ( n * (n-1)));
+		m_SD = (n > 1.0) ? sqrt(max(0.0, (n * sumSqr - m_Sum*m_Sum) / ( n * (n-1)))) : 0.0;
 		
 		if(m_VecValues.size()%2 == 0)
 			m_Median = (m_VecValues[m_VecValues.size()/2]+m_VecValues[m_VecValues.size()/2-1])/2.0;
-- 
2.43.0


From 02d8df01dc3749796a60061e38e5cc8a924e0965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:14 +0000
Subject: [PATCH 37/54] fix: asclite total normalized cross entropy out of
 range is shown as for the speakers

---
 src/asclite/core/rawsys_reportgenerator.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/asclite/core/rawsys_reportgenerator.cpp b/src/asclite/core/rawsys_reportgenerator.cpp
index 85f7d69..6944038 100644
--- a/src/asclite/core/rawsys_reportgenerator.cpp
+++ b/src/asclite/core/rawsys_reportgenerator.cpp
@@ -642,7 +642,14 @@ void RAWSYSReportGenerator::GenerateSystem(Alignment* alignment, const string& s
 		AddStringText(output, 100.0*StatisticsSegmentsErrors.GetSum()/StatisticsSegments.GetSum(1), 1, "right", sizeofSegmentsErrors);
 	
 	output << " | ";
-	AddStringText(output, GetTotalNCE(StatisticsCorrectWords.GetSum(), StatisticsInsertions.GetSum(), StatisticsSubstitutions.GetSum(), StatisticsSpeakerErrors.GetSum()), 3, "middle", sizeofNCE);
+	double totalNCE = GetTotalNCE(StatisticsCorrectWords.GetSum(), StatisticsInsertions.GetSum(), StatisticsSubstitutions.GetSum(), StatisticsSpeakerErrors.GetSum());
+	
+	if(totalNCE <= -1000.0)
+		AddStringText(output, "-inf", "middle", sizeofNCE);
+	else if(totalNCE >= 1000.0)
+		AddStringText(output, "+inf", "middle", sizeofNCE);
+	else
+		AddStringText(output, totalNCE, 3, "middle", sizeofNCE);
 	
 	output << " |" << endl;
 	
-- 
2.43.0


From 401cdb2503bb95df8c77a5b93edfbfa59c948928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:39 +0000
Subject: [PATCH 38/54] fix: asclite lists a token once when it follows an
 optional first token

---
 src/asclite/core/segment.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/asclite/core/segment.cpp b/src/asclite/core/segment.cpp
index f533389..95e5a18 100644
--- a/src/asclite/core/segment.cpp
+++ b/src/asclite/core/segment.cpp
@@ -227,8 +227,13 @@ vector<Token*> Segment::ToTopologicalOrderedStruct()
 	for(size_t i = 0 ; i < f_token->GetNbOfNextTokens() ; ++i)
     {
         Token* token = f_token->GetNextToken(i);
-        res.push_back(token);
-        ToTopologicalOrderedStruct(token, &res);
+        
+        // A first token can also follow another one, when that one is optional
+        if (find(res.begin(), res.end(), token) == res.end())
+        {
+            res.push_back(token);
+            ToTopologicalOrderedStruct(token, &res);
+        }
     }
 	
     return res;
-- 
2.43.0


From dedec421f39a1c0e2f3a391c55c0fb31a44051ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:21 +0000
Subject: [PATCH 39/54] fix: asclite lists the optional tokens that end a
 segment

---
 src/asclite/core/segment.cpp | 19 +++++++++++++++++++
 src/asclite/core/segment.h   |  4 ++++
 2 files changed, 23 insertions(+)

diff --git a/src/asclite/core/segment.cpp b/src/asclite/core/segment.cpp
index 95e5a18..944108a 100644
--- a/src/asclite/core/segment.cpp
+++ b/src/asclite/core/segment.cpp
@@ -236,9 +236,28 @@ vector<Token*> Segment::ToTopologicalOrderedStruct()
         }
     }
 	
+    // A last token can itself be followed by optional tokens of the segment: these are found from the end
+    for(size_t i = 0 ; i < l_token->GetNbOfNextTokens() ; ++i)
+        AddMissingTokens(l_token->GetNextToken(i), &res);
+	
     return res;
 }
 
+/**
+ * Recurs methods to add the tokens leading to the given one, then itself, when they are not listed yet
+ */
+void Segment::AddMissingTokens(Token* end, vector<Token*>* doneNode)
+{
+    if (find(doneNode->begin(), doneNode->end(), end) != doneNode->end())
+        return;
+    
+    if (!isFirstToken(end))
+        for(size_t i = 0 ; i < end->GetNbOfPrecTokens() ; ++i)
+            AddMissingTokens(end->GetPrecToken(i), doneNode);
+    
+    doneNode->push_back(end);
+}
+
 /**
  * Recurs methods to compute a topological order of a graph
  */
diff --git a/src/asclite/core/segment.h b/src/asclite/core/segment.h
index fc43bf7..b290a27 100644
--- a/src/asclite/core/segment.h
+++ b/src/asclite/core/segment.h
@@ -238,6 +238,10 @@ class Segment : public TimedObject
          * Recurs methods to compute a topological order of a graph
          */
         void ToTopologicalOrderedStruct(Token* start, vector<Token*> *doneNode);
+		/**
+         * Recurs methods to add the tokens leading to the given one, then itself, when they are not listed yet
+         */
+        void AddMissingTokens(Token* end, vector<Token*> *doneNode);
 		
 		static Logger* logger;
 };
-- 
2.43.0


From 548646502b09252874d54b70388dc5ddc7fe9b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:13 +0000
Subject: [PATCH 40/54] fix: sclite -c DH with a word of hyphens only

---
 src/sclite/align.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 20e4128..0d6d702 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -680,7 +680,8 @@ void expand_words_to_chars(ARC *arc, void *ptr){
 
     if (chars == (TEXT *)0) alloc_singZ(chars,chars_len,TEXT,'\0');
     /* it the string is already a single letter, return */
-    if (TEXT_strlen(tw->value) <= 1)
+    if (TEXT_strlen(tw->value) <= 1 &&
+	! (BF_isSET(*((int *)ptr),CALI_DELHYPHEN) && *(tw->value) == '-'))
 	return;
 
     if (db >= 5) {
@@ -696,7 +697,11 @@ void expand_words_to_chars(ARC *arc, void *ptr){
     
     // Escape the semicolon
     alloc_singZ(charsEsc, chars_len*2+1, TEXT, NULL_TEXT);
-    TEXT_strcpy_escaped(charsEsc, chars, ';');
+    // Nothing is left of a word of hyphens only, it becomes the null word
+    if (*chars == NULL_TEXT)
+        TEXT_strcpy(charsEsc, (TEXT *)"@");
+    else
+        TEXT_strcpy_escaped(charsEsc, chars, ';');
 //    printf("   and escaped /%s/\n", charsEsc);
     
     /* Fix, it wasn't enough check to see if the there were any spaces */
@@ -718,7 +723,7 @@ void expand_words_to_chars(ARC *arc, void *ptr){
 	/* durations based on the original word */
 	{  
 	  double dur = tw->T_dur/subnet->arc_count, t1 = tw->T1, conf = tw->conf;
-	  int od = tw->opt_del;
+	  int od = tw->opt_del && *chars != NULL_TEXT;
 	  Network_traverse(subnet,NULL,0,set_word_duration,&dur,0);
 	  Network_traverse(subnet,NULL,0,set_word_start,&t1,0);
 	  Network_traverse(subnet,NULL,0,set_word_conf,&conf,0);
-- 
2.43.0


From 12cb3ac4eff8e62a271007327301d9ca3b2c97f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:13 +0000
Subject: [PATCH 41/54] fix: sclite -S algo2 folded case only for
 case-sensitive scoring, and scored the unfolded text

---
 src/sclite/align.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 0d6d702..fe82529 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -240,8 +240,8 @@ PATH *infer_word_seg_algo2(TEXT *ref, TEXT *hyp, NETWORK *hnet, int case_sense,c
     }
 
     {
-        TEXT *refCC = (case_sense ? TEXT_strdup(TEXT_str_to_master(ref, 1)) : ref);
-        if ((refnet = Network_create_from_TEXT(ref, "Reference Net",
+        TEXT *refCC = (! case_sense ? TEXT_strdup(TEXT_str_to_master(ref, 1)) : ref);
+        if ((refnet = Network_create_from_TEXT(refCC, "Reference Net",
 					   print_WORD,
 					   equal_WORD2,
 					   release_WORD, null_alt_WORD,
@@ -252,14 +252,14 @@ PATH *infer_word_seg_algo2(TEXT *ref, TEXT *hyp, NETWORK *hnet, int case_sense,c
             fprintf(stderr,"Network_create_from_TEXT failed\n");
 	    exit(1);
         }
-        if (case_sense){
+        if (! case_sense){
             free_singarr(refCC, TEXT);
         }
     }
     
     if (hyp != (TEXT *)0){
-	TEXT *hypCC = (case_sense ? TEXT_strdup(TEXT_str_to_master(hyp, 1)) : hyp);
-	if ((hypnet = Network_create_from_TEXT(hyp,"Hypothesis Net",
+	TEXT *hypCC = (! case_sense ? TEXT_strdup(TEXT_str_to_master(hyp, 1)) : hyp);
+	if ((hypnet = Network_create_from_TEXT(hypCC,"Hypothesis Net",
 					       print_WORD,
 					       equal_WORD2,
 					       release_WORD, null_alt_WORD,
@@ -270,7 +270,7 @@ PATH *infer_word_seg_algo2(TEXT *ref, TEXT *hyp, NETWORK *hnet, int case_sense,c
     fprintf(stderr,"Network_create_from_TEXT failed\n");
 	    exit(1);
 	}
-        if (case_sense){
+        if (! case_sense){
            free_singarr(hypCC, TEXT);
         }
     } else 
-- 
2.43.0


From 4868d21035472158e92e23799c092a516f4b7e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:24 +0000
Subject: [PATCH 42/54] fix: no stray line on stdout when a record defines more
 than ten categories

---
 src/sclite/scores.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index e27a1d5..5a96d3d 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -962,7 +962,6 @@ int parse_input_comment_line(SCORES *sc, TEXT *buf){
 
 	/* parse the category line */
 	if (sc->aset.num_cat == sc->aset.max_cat){
-	    printf("Expanding\n");
 	    expand_singarr(sc->aset.cat,sc->aset.num_cat,
 			   sc->aset.max_cat,2,CATEGORY_ITEM);
 	}
-- 
2.43.0


From 6f67d74010f1fcbf25e10c39f079e9bb111c6a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:59 +0000
Subject: [PATCH 43/54] fix: asclite RAWSYS percentage columns wide enough for
 any value

---
 src/asclite/core/rawsys_reportgenerator.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/asclite/core/rawsys_reportgenerator.cpp b/src/asclite/core/rawsys_reportgenerator.cpp
index 6944038..a0babc7 100644
--- a/src/asclite/core/rawsys_reportgenerator.cpp
+++ b/src/asclite/core/rawsys_reportgenerator.cpp
@@ -199,6 +199,18 @@ void RAWSYSReportGenerator::AddSeparator(ostream& outpt, const string& str, cons
 	outpt << "|" << endl;
 }
 
+/** Width of the widest percentage among those of the speakers and of the total */
+static int PercentWidth(const vector<double>& percents, const double& total, const double& totalref)
+{
+	char tempstr[BUFFER_SIZE];
+	double widest = (totalref == 0) ? 0.0 : 100.0*total/totalref;
+	
+	for(size_t i=0; i<percents.size(); ++i)
+		widest = max(widest, percents[i]);
+	
+	return sprintf(tempstr, "%.1f", F_ROUND(widest, 1));
+}
+
 /** Generate the SYSRAW report by system */
 void RAWSYSReportGenerator::GenerateSystem(Alignment* alignment, const string& systm, ostream& output)
 {
@@ -408,6 +420,13 @@ void RAWSYSReportGenerator::GenerateSystem(Alignment* alignment, const string& s
 	sizeofSegmentsErrors = max(sizeofSegmentsErrors, StatisticsSegmentsErrors.GetMaxSizeString());
 	sizeofSegmentsErrors = max(sizeofSegmentsErrors, StatisticsPctSegmentsErrors.GetMaxSizeString());
 	
+	if(m_RawSys != 1)
+	{
+		/* Insertions are not bounded by the reference words: their percentages may need wider columns */
+		sizeofInsertions = max(sizeofInsertions, PercentWidth(VecPctInsertionsNotNull, StatisticsInsertions.GetSum(), StatisticsRefWords.GetSum()));
+		sizeofErrors = max(sizeofErrors, PercentWidth(VecPctErrorsNotNull, StatisticsErrors.GetSum(), StatisticsRefWords.GetSum()));
+	}
+	
 	if(isStarDiezePlus)
 	{
 		++sizeofCorrectWords;
-- 
2.43.0


From cf55627e806787cde75307e052eb5f4042a623f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:59 +0000
Subject: [PATCH 44/54] fix: asclite refuses a segment partly outside the UEM
 even when they share a border

---
 src/asclite/core/uemfilter.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/asclite/core/uemfilter.cpp b/src/asclite/core/uemfilter.cpp
index cd15ae5..6748736 100644
--- a/src/asclite/core/uemfilter.cpp
+++ b/src/asclite/core/uemfilter.cpp
@@ -164,6 +164,7 @@ unsigned long int UEMFilter::ProcessSingleSpeech(Speech* speech)
 										
 					if(!keep)
 					{
+						// Fatal as soon as a part of the segment is inside and another outside:
 						// 1
 						// {     [      }     ]
 						// ss    us     se    ue
@@ -176,9 +177,7 @@ unsigned long int UEMFilter::ProcessSingleSpeech(Speech* speech)
 						// [     {      ]     }
 						// us    ss     ue    se
 						
-						if( /*1*/( (segStartTime < uemStartTime) && (uemStartTime < segEndTime) && (segEndTime < uemEndTime) ) ||
-							/*2*/( (segStartTime < uemStartTime) && (uemStartTime < uemEndTime) && (uemEndTime < segEndTime) ) ||
-							/*3*/( (uemStartTime < segStartTime) && (segStartTime < uemEndTime) && (uemEndTime < segEndTime) ) )
+						if( (segStartTime < uemEndTime) && (uemStartTime < segEndTime) )
 						{
 							++nbrerr;
 							char bufferUEM1[BUFFER_SIZE];
-- 
2.43.0


From f43c9a94c2f941aca982d01c45c8c1e944db9578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:06 +0000
Subject: [PATCH 45/54] fix: asclite UEM applies to the named file only, not to
 every file whose name it begins

---
 src/asclite/core/uemfilter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asclite/core/uemfilter.cpp b/src/asclite/core/uemfilter.cpp
index 6748736..b84e625 100644
--- a/src/asclite/core/uemfilter.cpp
+++ b/src/asclite/core/uemfilter.cpp
@@ -44,7 +44,7 @@ void UEMFilter::FindElement(const string& file, const string& channel, list<UEME
 
 	for(size_t i=0; i<m_VectUEMElements.size(); ++i)
 		if(m_VectUEMElements[i])
-			if( (file.find(m_VectUEMElements[i]->GetFile(), 0) == 0) && (channel.compare(m_VectUEMElements[i]->GetChannel()) == 0) )
+			if( (file.compare(m_VectUEMElements[i]->GetFile()) == 0) && (channel.compare(m_VectUEMElements[i]->GetChannel()) == 0) )
 				pList->push_back(m_VectUEMElements[i]);
 }
 
-- 
2.43.0


From 28c628f1069a3f339f0c7b1d42a0ee9abdbd5aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:49 +0000
Subject: [PATCH 46/54] fix: sc_stats sum and rsum match speakers by name, and
 hold any number of systems and speakers

---
 src/sclite/scores.c | 60 +++++++++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 5a96d3d..d725455 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -1566,14 +1566,25 @@ void print_system_summary(SCORES *sc, char *sys_root_name, int do_sm, int do_raw
 
  
 
+/* return the index of the speaker 'name' in a system, -1 if there is none */
+static int find_speaker(SCORES *sc, char *name)
+{
+    int g;
+
+    for (g=0; g<sc->num_grp; g++)
+	if (strcmp(sc->grp[g].name,name) == 0)
+	    return(g);
+    return(-1);
+}
+
 /************************************************************************/
 /*   print the report for the entire system.                            */
 /************************************************************************/
 void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *test_name, int do_raw, int feedback)
 {
-    int s, g;
+    int s, g, o, max_grp = 0;
     FILE *fp;
-    char *fname, lfmt[50], dfmt[50], *tot_pct_fmt, *pct_fmt;
+    char *fname, *lfmt, *dfmt, *tot_pct_fmt, *pct_fmt;
     int prec, tprec, l;
     int **wcount;
     double **errs;
@@ -1598,8 +1609,12 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
 
     /* allocate memory, make enough room to contain the mean, variance, stddev,
        median and Z_stat */
-    alloc_2dimZ(errs,nsc,sc[0]->num_grp + 5,double,0.0);
+    for (s=0; s<nsc; s++)
+	max_grp = MAX(max_grp,sc[s]->num_grp);
+    alloc_2dimZ(errs,nsc,max_grp + 5,double,0.0);
     alloc_2dimZ(wcount,nsc,2,int,0);
+    alloc_singZ(lfmt,2*nsc+2,char,'\0');
+    alloc_singZ(dfmt,2*nsc+2,char,'\0');
 
     /* calculate the percentages */
     for (s=0; s<nsc; s++)
@@ -1622,12 +1637,12 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
     /* calculate the statistics.  The errs array has enough room in it */
     /* to containg the mean, variancs, std_dev, median, std_dev and Z_STAT*/
     for (s=0; s<nsc; s++)
-	calc_mean_var_std_dev_Zstat_double(errs[s],sc[0]->num_grp,
-					   &(errs[s][sc[0]->num_grp]),
-					   &(errs[s][sc[0]->num_grp+1]),
-					   &(errs[s][sc[0]->num_grp+2]),
-					   &(errs[s][sc[0]->num_grp+3]),
-					   &(errs[s][sc[0]->num_grp+4]));
+	calc_mean_var_std_dev_Zstat_double(errs[s],sc[s]->num_grp,
+					   &(errs[s][max_grp]),
+					   &(errs[s][max_grp+1]),
+					   &(errs[s][max_grp+2]),
+					   &(errs[s][max_grp+3]),
+					   &(errs[s][max_grp+4]));
 
     /* build the format statements */
     sprintf(lfmt,"c");    sprintf(dfmt,"l");
@@ -1661,16 +1676,27 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
 	Desc_set_iterated_value(sc[s]->title);
     Desc_flush_iterated_row();
 
-    /* Set the data rows */	
-    for (g=0; g<sc[0]->num_grp; g++){
+    /* Set the data rows: one for each speaker of any system */
+    for (o=0; o<nsc; o++)
+      for (l=0; l<sc[o]->num_grp; l++){
+	char *name = sc[o]->grp[l].name;
+
+	/* skip the speaker if an earlier system has it */
+	for (s=0; s<o && find_speaker(sc[s],name) < 0; s++)
+	    ;
+	if (s < o)
+	    continue;
 	Desc_add_row_separation('-',BEFORE_ROW);
 	Desc_set_iterated_format(dfmt); 
-	Desc_set_iterated_value(rsprintf(" %s ",sc[0]->grp[g].name));
+	Desc_set_iterated_value(rsprintf(" %s ",name));
 	for (s=0; s<nsc; s++)
-	    Desc_set_iterated_value(rsprintf(pct_fmt,
-					     F_ROUND(errs[s][g],prec)));
+	    if ((g = find_speaker(sc[s],name)) >= 0)
+		Desc_set_iterated_value(rsprintf(pct_fmt,
+						 F_ROUND(errs[s][g],prec)));
+	    else
+		Desc_set_iterated_value("");
 	Desc_flush_iterated_row();
-    }
+      }
 
     /* set the overall summation rows */
     Desc_add_row_separation('=',BEFORE_ROW); 
@@ -1690,7 +1716,7 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
     Desc_flush_iterated_row();
     Desc_add_row_separation('-',BEFORE_ROW);
 
-    for (l=0, g=sc[0]->num_grp; g<sc[0]->num_grp+5; l++, g++){
+    for (l=0, g=max_grp; g<max_grp+5; l++, g++){
 	if (l == 1 || l == 4)
 	    continue;
 	Desc_set_iterated_format(lfmt); 
@@ -1713,6 +1739,8 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
 
     free_2dimarr(errs,nsc,double);
     free_2dimarr(wcount,nsc,int);
+    free_singarr(lfmt,char);
+    free_singarr(dfmt,char);
 }
 
 
-- 
2.43.0


From 4c14d111a67749cec88087298ba59f805b779e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:49 +0000
Subject: [PATCH 47/54] fix: sc_stats prn keeps the speakers after one that is
 not common, with their own utterances

---
 src/sclite/corresp.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/sclite/corresp.c b/src/sclite/corresp.c
index e004b54..5e748a7 100644
--- a/src/sclite/corresp.c
+++ b/src/sclite/corresp.c
@@ -153,10 +153,8 @@ void find_matched_grp(SC_CORRESPONDENCE *corresp){
       if (gr == corresp->scor[sc]->num_grp)
 	break;
     }
-    if (sc < corresp->nscor)
-      break;
-
-    corresp->num_grp++;
+    if (sc == corresp->nscor)
+      corresp->num_grp++;
     
   }
 
@@ -192,7 +190,7 @@ void find_matched_paths(SC_CORRESPONDENCE *corresp){
 	 mpa < corresp->scor[0]->grp[corresp->grp[gr]->grp_ptr[0]].num_path;
 	 mpa++){
       /* set the next path to mpa */
-      corresp->grp[corresp->grp[gr]->grp_ptr[0]]->path_ptr[*np][0] = mpa;
+      corresp->grp[gr]->path_ptr[*np][0] = mpa;
       
       /* search all the other scor strucs for a matching id */
       for (sc=1; sc<corresp->nscor; sc++){
-- 
2.43.0


From 888d131d702a2efd714c25a946a45029d3627748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:49 +0000
Subject: [PATCH 48/54] fix: sc_stats prn compares references of different
 length, and counts only merged utterances

---
 src/sclite/corresp.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sclite/corresp.c b/src/sclite/corresp.c
index 5e748a7..1c21d15 100644
--- a/src/sclite/corresp.c
+++ b/src/sclite/corresp.c
@@ -91,6 +91,7 @@ void dump_paths_of_SC_CORRESPONDENCE(SC_CORRESPONDENCE *corresp, int maxlen, FIL
 	path_set[sc] = corresp->scor[sc]->grp[gnum].path[pnum];
       }
 
+      refWord = errRefWord = 0;
       if (score_diff && ! scores_are_diff(path_set,corresp->nscor))
 	to_print = 0;
       if (to_print)
@@ -283,7 +284,7 @@ static int identical_refs(int npaths,PATH **paths){
 
   for (p=1; p<npaths; p++){
     w=0; wp=0;
-    while (w < paths[0]->num && wp < paths[p]->num){
+    while (w < paths[0]->num || wp < paths[p]->num){
       /* skip insertions */
       while (w < paths[0]->num && (paths[0]->pset[w].eval == P_INS))
 	w++;
@@ -292,7 +293,7 @@ static int identical_refs(int npaths,PATH **paths){
       if (w >= paths[0]->num && wp >= paths[p]->num)
 	;
       else {
-	if (w > paths[0]->num || wp > paths[p]->num)
+	if (w >= paths[0]->num || wp >= paths[p]->num)
 	  return 0;
 	if (TEXT_strcmp(((WORD *)(paths[0]->pset[w].a_ptr))->value,
 			((WORD *)(paths[p]->pset[wp].a_ptr))->value) != 0)
@@ -333,7 +334,7 @@ static void lattice_error(int npaths,PATH **paths, int *refWord, int *refErrRefW
       if (w >= paths[0]->num && wp >= paths[p]->num)
 	;
       else {
-	if (w > paths[0]->num || wp > paths[p]->num){
+	if (w >= paths[0]->num || wp >= paths[p]->num){
 	  fprintf(stderr,"Error: these paths are not compatible");
 	  exit(1);
 	}
-- 
2.43.0


From 904c93a934a3f702dae79bce1ea934bddf0d1ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:49 +0000
Subject: [PATCH 49/54] fix: sc_stats prn no longer joins words at the end of a
 line or overruns it with a long word

---
 src/sclite/corresp.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/sclite/corresp.c b/src/sclite/corresp.c
index 1c21d15..76d906b 100644
--- a/src/sclite/corresp.c
+++ b/src/sclite/corresp.c
@@ -456,7 +456,7 @@ static void process_inserts(SCORES **scor, PATH **path_set, int npath, int *pset
 
   *outlen += max;
 
-  if (1 + *outlen < maxlen-1){
+  if (1 + *outlen <= maxlen-1){
     for (p=0; p<=npath; p++)
       TEXT_strcat(outbuf[p],(TEXT *)" ");
     *outlen += 1;
@@ -510,7 +510,7 @@ static void process_rest(SCORES **scor, PATH **path_set, int npath, int *psets,
   }
   *outlen += max;
 
-  if (1 + *outlen < maxlen-1){
+  if (1 + *outlen <= maxlen-1){
     for (p=0; p<=npath; p++)
       TEXT_strcat(outbuf[p],(TEXT *)" ");
     *outlen += 1;
@@ -532,7 +532,7 @@ void PATH_multi_print(SCORES **scor, PATH **path_set, int npath, int maxlen, FIL
       PATH_print(path_set[p],fp,maxlen);
     }
   } else {
-    int outlen, *psets;
+    int outlen, *psets, w, wlen = 0;
     TEXT **outbuf;
 
     lattice_error(npath, path_set, refWord, errRefWord, alex);
@@ -569,8 +569,17 @@ void PATH_multi_print(SCORES **scor, PATH **path_set, int npath, int maxlen, FIL
 #endif
     fprintf(fp,"\n\n");
     
+    /* a line holds at least one word, however long it is */
+    for (p=0; p<npath; p++)
+      for (w=0; w<path_set[p]->num; w++){
+	if ((path_set[p]->pset[w].eval & P_INS) == 0)
+	  wlen = MAX(wlen,(int)TEXT_strlen(((WORD *)path_set[p]->pset[w].a_ptr)->value));
+	if ((path_set[p]->pset[w].eval & P_DEL) == 0)
+	  wlen = MAX(wlen,(int)TEXT_strlen(((WORD *)path_set[p]->pset[w].b_ptr)->value));
+      }
+
     /* output[npath] is the reference string */
-    alloc_2dimZ(outbuf,npath + 1,maxlen+1+40,TEXT,(TEXT)'\0');
+    alloc_2dimZ(outbuf,npath + 1,maxlen+1+40+wlen,TEXT,(TEXT)'\0');
     alloc_1dimZ(psets,npath,int,0);   /* initialized to zero */
     add_header_data(scor, path_set, npath, outbuf, &outlen, maxlen, 0);
     while (more_data(path_set, npath, psets) > 0){
-- 
2.43.0


From 06fb5fb360888480ea2d17f923d5bd932beabafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:49 +0000
Subject: [PATCH 50/54] fix: sc_stats lur allows systems with more speakers,
 and skips speakers without reference words in the means

---
 src/sclite/lur.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/sclite/lur.c b/src/sclite/lur.c
index 840c25e..a9358be 100644
--- a/src/sclite/lur.c
+++ b/src/sclite/lur.c
@@ -19,24 +19,24 @@ typedef struct label_struct{
 }
 #endif
 
-static LABEL *alloc_LABEL_SCORES(int nscor, SCORES *sc);
+static LABEL *alloc_LABEL_SCORES(int nscor, SCORES *sc, int num_grp);
 static void compute_label_scores(SCORES *sc,int scnum, LABEL *lab);
 static void create_report(LABEL *label, SCORES *sc, FILE *fp);
 static void create_N_lur_report(LABEL *label, SCORES *sc[], int nsc, char *tname, FILE *fp);
 static void free_LABEL_SCORES(LABEL *tlab, SCORES *sc, int nscor);
 
-static LABEL *alloc_LABEL_SCORES(int nscor, SCORES *sc)
+static LABEL *alloc_LABEL_SCORES(int nscor, SCORES *sc, int num_grp)
 {
     LABEL *tlab;
 
     int i,j,k;
     alloc_singarr(tlab,1,LABEL);
     alloc_3dimarr(tlab->lsc,nscor,sc->aset.num_plab,
-		  sc->num_grp,LABEL_SCORES);
+		  num_grp,LABEL_SCORES);
     alloc_singZ(tlab->location,sc->aset.num_plab,int,(-1));
     for (i=0; i<nscor; i++)
 	for (j=0; j<sc->aset.num_plab; j++)
-	    for (k=0; k<sc->num_grp; k++)
+	    for (k=0; k<num_grp; k++)
 		tlab->lsc[i][j][k].nref = tlab->lsc[i][j][k].nerr = 0;
     return(tlab);
 }
@@ -281,13 +281,15 @@ static void create_report(LABEL *labels, SCORES *sc, FILE *fp)
 
 static void create_N_lur_report(LABEL *labels, SCORES *sc[], int nsc, char *test_name, FILE *fp)
 { 
-    int j, k, npres, sumr, sume, i, s;
+    int j, k, npres, sumr, sume, i, s, max_grp = 0;
     char titlefmt[50],fmt[50],categfmt[50],statfmt[50];
     double *ref_words, *err_words;
     double ***ref_sts, ***err_sts;
     
-    alloc_singarr(ref_words,sc[0]->num_grp,double);
-    alloc_singarr(err_words,sc[0]->num_grp,double);
+    for (s=0; s<nsc; s++)
+	max_grp = MAX(max_grp,sc[s]->num_grp);
+    alloc_singarr(ref_words,max_grp,double);
+    alloc_singarr(err_words,max_grp,double);
     alloc_3dimarr(ref_sts,nsc,sc[0]->aset.num_plab,6,double);
     alloc_3dimarr(err_sts,nsc,sc[0]->aset.num_plab,6,double);
     
@@ -363,15 +365,17 @@ static void create_N_lur_report(LABEL *labels, SCORES *sc[], int nsc, char *test
     for (j=0; j<sc[0]->aset.num_plab; j++){
 	for (s=0; s<nsc; s++){
 	    npres = sumr = sume = 0;
-	    for (k=0; k<sc[s]->num_grp; k++)
-		if (labels->lsc[s][j][k].nref + labels->lsc[s][j][k].nerr != 0){
+	    for (k=0; k<sc[s]->num_grp; k++){
+		/* speakers with no reference words have no error rate */
+		if (labels->lsc[s][j][k].nref > 0){
 		    ref_words[npres] = labels->lsc[s][j][k].nref;
 		    err_words[npres] = pct(labels->lsc[s][j][k].nerr,
 					   labels->lsc[s][j][k].nref);
-		    sumr += labels->lsc[s][j][k].nref;
-		    sume += labels->lsc[s][j][k].nerr;
 		    npres++;
 		}
+		sumr += labels->lsc[s][j][k].nref;
+		sume += labels->lsc[s][j][k].nerr;
+	    }
 	    /* calc and store statistics */
 	    calc_mean_var_std_dev_Zstat_double(ref_words,npres,&(ref_sts[s][j][1]),
 					       &(ref_sts[s][j][4]),&(ref_sts[s][j][2]),
@@ -455,7 +459,7 @@ void print_lur(SCORES *sc, char *sys_root_name, int feedback)
 	if (feedback >= 1)
 	    printf("    Writing LUR scoring report to '%s'\n",fname);
 
-    labels = alloc_LABEL_SCORES(1, sc);
+    labels = alloc_LABEL_SCORES(1, sc, sc->num_grp);
 
     compute_label_scores(sc, 0, labels);
 
@@ -474,7 +478,7 @@ void print_N_lur(SCORES *sc[], int nsc, char *out_root_name, char *test_name, in
 {
     FILE *fp;
     char *fname;
-    int i;
+    int i, max_grp = 0;
     LABEL *labels = (LABEL *)0;
 
     if (strcmp(out_root_name,"-") == 0 ||
@@ -484,7 +488,9 @@ void print_N_lur(SCORES *sc[], int nsc, char *out_root_name, char *test_name, in
 	if (feedback >= 1)
 	    printf("    Writing LUR scoring report to '%s'\n",fname);
 
-    labels = alloc_LABEL_SCORES(nsc, sc[0]);
+    for (i=0; i<nsc; i++)
+	max_grp = MAX(max_grp,sc[i]->num_grp);
+    labels = alloc_LABEL_SCORES(nsc, sc[0], max_grp);
 
     for (i=0; i<nsc; i++)
 	compute_label_scores(sc[i], i, labels);
-- 
2.43.0


From cfea2df5bdf464f6736ab8f638a0a4cfc02d6d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:49 +0000
Subject: [PATCH 51/54] fix: sc_stats -u claimed p<0.001 for every pair of the
 analysis of variance, which gives no level

---
 src/sclite/anovar.c | 3 ++-
 src/sclite/rank.c   | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sclite/anovar.c b/src/sclite/anovar.c
index 208c091..2f29c4c 100644
--- a/src/sclite/anovar.c
+++ b/src/sclite/anovar.c
@@ -60,7 +60,8 @@ void compute_anovar(RANK *rank, int verbose, int report, int ***out_sys_winner,
 	    if (feedback >= 1) printf("        Output written to '%s'\n",f);
     }
 
-    alloc_2dimZ(conf,rank->n_trt,rank->n_trt,double,0.0);
+    /* the multiple comparison gives no significance level for a pair */
+    alloc_2dimZ(conf,rank->n_trt,rank->n_trt,double,-1.0);
     alloc_2dimZ(trt_winner,rank->n_trt,rank->n_trt,int,NO_DIFF);
     alloc_2dimZ(blk_winner,rank->n_blk,rank->n_blk,int,NO_DIFF);
     *out_sys_winner = trt_winner;
diff --git a/src/sclite/rank.c b/src/sclite/rank.c
index d4a994c..d440363 100644
--- a/src/sclite/rank.c
+++ b/src/sclite/rank.c
@@ -560,11 +560,15 @@ void print_composite_significance2(RANK *rank, int pr_width, int num_win, int **
 			    Desc_set_iterated_value(rank->trt_name[trt1]);
 			else
 			    Desc_set_iterated_value(rank->trt_name[trt2]);
-			if (conf[wid][trt1][trt2] < 0.001) 
+			if (conf[wid][trt1][trt2] < 0.0) /* not known */
+			    Desc_set_iterated_value("");
+			else if (conf[wid][trt1][trt2] < 0.001) 
 			    Desc_set_iterated_value("<0.001");
 			else 
 			    Desc_set_iterated_value(rsprintf("%.3f",conf[wid][trt1][trt2]));
-			if (conf[wid][trt1][trt2] <= 0.001 )
+			if (conf[wid][trt1][trt2] < 0.0)
+			    Desc_set_iterated_value("");
+			else if (conf[wid][trt1][trt2] <= 0.001 )
 			    Desc_set_iterated_value("***");
 			else if (conf[wid][trt1][trt2] <= 0.01)
 			    Desc_set_iterated_value("**");
-- 
2.43.0


From 3d910a028c195219b326aa2d59a7b4b0ba92b04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:24 +0000
Subject: [PATCH 52/54] fix: sclite -m ref lost the segments of a channel that
 begins or ends with an alternation

---
 src/sclite/stm2ctm.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sclite/stm2ctm.c b/src/sclite/stm2ctm.c
index 1ca29ef..ed39d5a 100644
--- a/src/sclite/stm2ctm.c
+++ b/src/sclite/stm2ctm.c
@@ -37,10 +37,18 @@ static int align_one_channel(SCORES *scor, int chan, WTOKE_STR1 *hyp_segs, STM *
 	/* search the stm structure, marking the segments that end */
 	/* before the first hyp words, or begin after the last hyp */
 	/* word by setting the segments "flag1" variable */
+	/* The alternation markers are not words and have no times */
+	int h_first = h_st, h_last = h_end;
+	while (h_first < h_end &&
+	       TEXT_strCcasecmp((TEXT *)"<ALT",hyp_segs->word[h_first].sp,4) == 0)
+	    h_first++;
+	while (h_last > h_first &&
+	       TEXT_strCcasecmp((TEXT *)"<ALT",hyp_segs->word[h_last].sp,4) == 0)
+	    h_last--;
 	for (rs=r_st; rs<stm->num && rs<=r_end; rs++){
 	    if (h_end >= h_st)
-		if ((hyp_segs->word[h_st].t1 >= stm->seg[rs].t2) ||
-		    (hyp_segs->word[h_end].t1+hyp_segs->word[h_end].dur <=
+		if ((hyp_segs->word[h_first].t1 >= stm->seg[rs].t2) ||
+		    (hyp_segs->word[h_last].t1+hyp_segs->word[h_last].dur <=
 		     stm->seg[rs].t1))
 		    stm->seg[rs].flag1 = 0;
 	    if (feedback >= 10){
-- 
2.43.0


From f93f1fcbf7baefd9e76bdd00a26d82f7600f756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:24 +0000
Subject: [PATCH 53/54] fix: sclite -m hyp left the end of an ignored
 alternation in the alignment

---
 src/sclite/stm2ctm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sclite/stm2ctm.c b/src/sclite/stm2ctm.c
index ed39d5a..45d00ac 100644
--- a/src/sclite/stm2ctm.c
+++ b/src/sclite/stm2ctm.c
@@ -106,6 +106,9 @@ static int align_one_channel(SCORES *scor, int chan, WTOKE_STR1 *hyp_segs, STM *
 		      TEXT_strcasecmp((TEXT *)"<ALT_END>",
 				      hyp_segs->word[yy].sp) != 0); yy++)
 		    hyp_segs->word[yy].ignore= (usable > 0) ? FALSE : TRUE;
+		/* the <ALT_END> goes with the rest */
+		if (yy <= h_end)
+		    hyp_segs->word[yy].ignore= (usable > 0) ? FALSE : TRUE;
 	    }
 	}
 	for (xx = h_st; xx <= h_end; xx++)
-- 
2.43.0


From a85968b8ae245a670e85c3fb10da23c0ef99bff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:24 +0000
Subject: [PATCH 54/54] fix: asclite -generic-cost deleted references that were
 never loaded

---
 src/asclite/core/recording.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/asclite/core/recording.cpp b/src/asclite/core/recording.cpp
index 3b0d828..79f0df3 100644
--- a/src/asclite/core/recording.cpp
+++ b/src/asclite/core/recording.cpp
@@ -56,6 +56,9 @@ Recording::Recording()
   
 	//Init SpeakerMatch
 	m_pSpeakerMatch = new SpeakerMatch();
+	
+	//No references are loaded by the generic alignment
+	references = NULL;
 }
 
 // class destructor
-- 
2.43.0

