From d6e65bb23516f749ed85a76a6af39afb9d26fab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:13 +0000
Subject: [PATCH 001/122] fix: score the last utterance or segment when its
 line has no newline

A trn hypothesis (or reference, or stm in diff mode) whose last line is not
terminated lost that utterance silently; an unterminated comment at the end of
an stm file was taken for a segment.
---
 src/sclite/align.c | 13 +++++++------
 src/sclite/stm.c   |  5 ++++-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 08c5de3..23a00c8 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -116,7 +116,8 @@ void load_refs(SCORES *sc, char *hyp_file, char *ref_file, TEXT ***rset, TEXT **
             if (TEXT_ensure_fgets(&in_buf,&in_buf_len,fp) == NULL)
                *in_buf = NULL_TEXT;
 	}
-	if (!feof(fp)){
+	/* at EOF, the buffer still holds an utterance if the last line has no newline */
+	if (!feof(fp) || !(TEXT_is_empty(in_buf) || TEXT_is_comment(in_buf) || TEXT_is_comment_info(in_buf))){
 	    if (!case_sense)
 		TEXT_str_case_change_with_mem_expand(&in_buf, &in_buf_len, 1);
 	    remove_id(in_buf,&id_buf,&id_buf_len);
@@ -157,7 +158,7 @@ void load_refs(SCORES *sc, char *hyp_file, char *ref_file, TEXT ***rset, TEXT **
             if (TEXT_ensure_fgets(&in_buf,&in_buf_len,fp) == NULL)
                *in_buf = '\0';
 	}
-        if (feof(fp))
+        if (feof(fp) && (TEXT_is_empty(in_buf) || TEXT_is_comment(in_buf) || TEXT_is_comment_info(in_buf)))
             break;
 
 	if (!case_sense)
@@ -555,7 +556,7 @@ SCORES *align_trans_mode_dp(char *ref_file, char *hyp_file, char *set_title, int
                                  TEXT_is_empty(hyp_buff)))
             if (TEXT_ensure_fgets(&hyp_buff,&hyp_buff_len,fp_hyp) == NULL)
                *hyp_buff = '\0';
-        if (feof(fp_hyp))
+        if (feof(fp_hyp) && (TEXT_is_empty(hyp_buff) || TEXT_is_comment(hyp_buff) || TEXT_is_comment_info(hyp_buff)))
             break;
 
 	remove_id(hyp_buff,&hyp_id,&hyp_id_len);
@@ -826,7 +827,7 @@ void create_word_lists(SCORES *sc, TEXT **reftran, TEXT **refid, int refcnt, cha
             if (TEXT_ensure_fgets(&hyp_buff,&hyp_buff_len,fp_hyp) == NULL)
                *hyp_buff = '\0';
 
-        if (feof(fp_hyp))
+        if (feof(fp_hyp) && (TEXT_is_empty(hyp_buff) || TEXT_is_comment(hyp_buff) || TEXT_is_comment_info(hyp_buff)))
             break;
 
 	(*num_hyp) ++;
@@ -1006,7 +1007,7 @@ SCORES *align_trans_mode_diff(char *ref_file, char *hyp_file, char *set_title, i
             if (TEXT_ensure_fgets(&hyp_buff,&hyp_buff_len,fp_hyp) == NULL)
                *hyp_buff = '\0';
 
-        if (feof(fp_hyp))  break;
+        if (feof(fp_hyp) && (TEXT_is_empty(hyp_buff) || TEXT_is_comment(hyp_buff) || TEXT_is_comment_info(hyp_buff)))  break;
 	if (!case_sense)    TEXT_str_case_change_with_mem_expand(&hyp_buff, &hyp_buff_len, 1);
 	remove_id(hyp_buff,&hyp_id,&hyp_id_len);
 	extract_speaker(hyp_id,spkr_id,idt);
@@ -1390,7 +1391,7 @@ SCORES *align_text_to_stm(char *ref_file, char *hyp_file, char *set_title, int k
     while (!feof(fp_ref)){
 	/* read the next ref line */
 	read_stm_line(&ref_buf,&ref_buf_len,fp_ref);
-	if (feof(fp_ref)) break;
+	if (*ref_buf == NULL_TEXT) break;
 
 	/* parse the reference transcript */
 	parse_stm_line(&ref_seg, &ref_buf, &ref_buf_len, case_sense, 0);
diff --git a/src/sclite/stm.c b/src/sclite/stm.c
index c96de43..d6532ec 100644
--- a/src/sclite/stm.c
+++ b/src/sclite/stm.c
@@ -40,6 +40,9 @@ void read_stm_line(TEXT **buf, int *len, FILE *fp){
 	if (TEXT_ensure_fgets(buf, len, fp) == NULL)
 	    **buf = '\0';
     }
+    /* an unterminated last line may be a comment, or blank: it is no segment */
+    if (TEXT_is_comment(*buf) || TEXT_is_comment_info(*buf) || TEXT_is_empty(*buf))
+	**buf = '\0';
 }
 
 
@@ -232,7 +235,7 @@ void convert_stm_to_word_list(char *file, char *words, int case_sense, int *num_
     while (!feof(fp)){
 	/* read the next ref line */
 	read_stm_line(&buf,&buf_len,fp);
-	if (feof(fp)) break;
+	if (*buf == NULL_TEXT) break;
 
 	/* parse the reference transcript */
 	parse_stm_line(&seg,&buf,&buf_len,case_sense,0);
-- 
2.43.0


From 5dd504a8342809666f4d20e40eb80c2bc2c60992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:13 +0000
Subject: [PATCH 002/122] fix: keep every word when aligning with -d (truncated
 long words, lost trailing insertions, buffer overruns)

---
 src/sclite/align.c | 35 +++++++++++++++++++++++++----------
 src/sclite/stm.c   |  2 +-
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 23a00c8..7f0e4e6 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -786,6 +786,10 @@ void decode_fragment(ARC *arc, void *ptr){
 /**********************************************************************/
 
 void create_word_lists(SCORES *sc, TEXT **reftran, TEXT **refid, int refcnt, char *hyp_file, char *out_ref, char *out_hyp, int *num_hyp, int case_sense);
+/* Each column of the side-by-side 'diff' must be wide enough for a whole word */
+#define DIFF_WIDTH   "8192"
+#define DIFF_COL_LEN 4096
+
 void process_diff_line(TEXT *diff_out, PATH *path, TEXT **firsttoken);
 void set_temp_files(char *refwords, char *hypwords);
 
@@ -845,7 +849,7 @@ void create_word_lists(SCORES *sc, TEXT **reftran, TEXT **refid, int refcnt, cha
 	rind = ind - refid;
 
 	/* Write each individual word to a file */
-	if (TEXT_strlen(reftran[rind]) > tbuf_len+1){
+	if (TEXT_strlen(reftran[rind]) + 1 > tbuf_len){
 	    free_singarr(tbuf,TEXT);
 	    tbuf = TEXT_strdup(reftran[rind]);
 	    tbuf_len = TEXT_strlen(tbuf);
@@ -874,14 +878,14 @@ void create_word_lists(SCORES *sc, TEXT **reftran, TEXT **refid, int refcnt, cha
 }
 
 void process_diff_line(TEXT *diff_out, PATH *path, TEXT **firsttoken){
-    static TEXT s1[100],s2[100],s3[100];
+    static TEXT s1[DIFF_COL_LEN+1],s2[DIFF_COL_LEN+1],s3[DIFF_COL_LEN+1];
     int iret;
     WORD *rwd, *hwd;
 
     check_space_in_PATH(path);
     *s1 = *s2 = *s3 = '\0';
     iret = sscanf((char *)diff_out,
-		  "%s %s %s",(char *)s1,(char *)s2,(char *)s3);
+		  "%4096s %4096s %4096s",(char *)s1,(char *)s2,(char *)s3);
     *firsttoken = s1;
 
     if (iret == 2 && TEXT_strcmp(s1,s2) == 0)
@@ -987,7 +991,7 @@ SCORES *align_trans_mode_diff(char *ref_file, char *hyp_file, char *set_title, i
 
     /* use readpipe to open a process without creating a temporary file */
     if (feedback >= 1)	printf("    Executing diff\n");
-    if ((fp_diff = readpipe (DIFF_PROGRAM, "-y",refwords,
+    if ((fp_diff = readpipe (DIFF_PROGRAM, "-y", "-W", DIFF_WIDTH, refwords,
 			     hypwords, NULL)) ==NULL){
 	fprintf(stderr,"Error: Execution of 'diff' failed\n");
 	exit(1);
@@ -1037,9 +1041,13 @@ SCORES *align_trans_mode_diff(char *ref_file, char *hyp_file, char *set_title, i
 		if (feof(fp_diff)) break;
 		process_diff_line(diff_out,path,&firsttoken);
 	    } while (!feof(fp_diff) && 
-		     ((TEXT_strcmp(firsttoken,ctext) != 0) || num_hyp==0));
+		     (TEXT_strcmp(firsttoken,ctext) != 0));
 	    ctext = tokenize_TEXT_first_alt(NULL,(TEXT *)" \t\n");
 	}
+	/* the last transcript takes whatever insertions are left over */
+	while (num_hyp == 0 &&
+	       TEXT_ensure_fgets(&diff_out,&diff_out_len,fp_diff) != NULL)
+	    process_diff_line(diff_out,path,&firsttoken);
 
 	PATH_add_utt_id(path,(char *)hyp_id);
 	PATH_set_sequence(path);
@@ -1239,7 +1247,7 @@ SCORES *align_ctm_to_stm_diff(char *ref_file, char *hyp_file, char *set_title, i
 	    dump_STM_words(stm,r_st,r_end+((r_end==stm->num)?-1:0),refwords);
 	    dump_WTOKE_words(hyp_segs, h_st, h_end, hypwords);
 
-	    if ((fp_diff = readpipe (DIFF_PROGRAM, "-y",refwords, hypwords, NULL)) == NULL){
+	    if ((fp_diff = readpipe (DIFF_PROGRAM, "-y", "-W", DIFF_WIDTH, refwords, hypwords, NULL)) == NULL){
 		fprintf(stderr,"Error: Execution of 'diff' failed\n");
 		exit(1);
 	    }
@@ -1259,10 +1267,13 @@ SCORES *align_ctm_to_stm_diff(char *ref_file, char *hyp_file, char *set_title, i
 			if (feof(fp_diff)) break;
 			process_diff_line(diff_out,path,&firsttoken);
 		    } while (!feof(fp_diff) && 
-			     ((TEXT_strcmp(firsttoken,ctext) != 0) ||
-			      r== r_end + (r_end==stm->num)?-1:0));
+			     (TEXT_strcmp(firsttoken,ctext) != 0));
 		    ctext = tokenize_TEXT_first_alt(NULL,(TEXT *)" \t\n");
 		}
+		/* the last segment takes whatever insertions are left over */
+		while (r == r_end + ((r_end==stm->num)?-1:0) &&
+		       TEXT_ensure_fgets(&diff_out,&diff_out_len,fp_diff) != NULL)
+		    process_diff_line(diff_out,path,&firsttoken);
 		spkr = SCORES_get_grp(scor,(char *)stm->seg[r].spkr);
 		PATH_add_utt_id(path,rsprintf("(%s-%03d)",stm->seg[r].spkr,
 					      scor->grp[spkr].nsent));
@@ -1375,7 +1386,7 @@ SCORES *align_text_to_stm(char *ref_file, char *hyp_file, char *set_title, int k
     convert_text_to_word_list(hyp_file,hypwords,case_sense);
 
     /* start up diff */
-    if ((fp_diff = readpipe (DIFF_PROGRAM,"-y",refwords, hypwords, NULL)) ==
+    if ((fp_diff = readpipe (DIFF_PROGRAM, "-y", "-W", DIFF_WIDTH, refwords, hypwords, NULL)) ==
 	NULL){
 	fprintf(stderr,"Error: Execution of 'diff' failed\n");
 	exit(1);
@@ -1409,9 +1420,13 @@ SCORES *align_text_to_stm(char *ref_file, char *hyp_file, char *set_title, int k
 		if (feof(fp_diff)) break;
 		process_diff_line(diff_out,path,&firsttoken);
 	    } while (!feof(fp_diff) && 
-		     ((TEXT_strcmp(firsttoken,ctext) != 0) || num_ref==0));
+		     (TEXT_strcmp(firsttoken,ctext) != 0));
 	    ctext = tokenize_TEXT_first_alt(NULL,(TEXT *)" \t\n");
 	}
+	/* the last segment takes whatever insertions are left over */
+	while (num_ref == 0 &&
+	       TEXT_ensure_fgets(&diff_out,&diff_out_len,fp_diff) != NULL)
+	    process_diff_line(diff_out,path,&firsttoken);
 
 	spkr = SCORES_get_grp(scor,(char *)ref_seg.spkr);
 	PATH_add_utt_id(path,rsprintf("(%s-%03d)",ref_seg.spkr,
diff --git a/src/sclite/stm.c b/src/sclite/stm.c
index d6532ec..40aaf5c 100644
--- a/src/sclite/stm.c
+++ b/src/sclite/stm.c
@@ -183,7 +183,7 @@ void dump_STM_words(STM *stm,int s, int e, char *file){
 
     for (i=s; i<=e; i++){
 	/* Write each individual word to a file */
-	if (TEXT_strlen(stm->seg[i].text) > tbuf_len+1){
+	if (TEXT_strlen(stm->seg[i].text) + 1 > tbuf_len){
 	    free_singarr(tbuf,TEXT);
 	    tbuf = TEXT_strdup(stm->seg[i].text);
 	    tbuf_len = TEXT_strlen(tbuf);
-- 
2.43.0


From 813a67a9e6ba5fe5ffc7081e615f24d40d7a764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:45 +0000
Subject: [PATCH 003/122] fix: recognise an optionally deletable word that
 begins with a fragment mark

---
 src/sclite/align.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 7f0e4e6..a9feca1 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -756,6 +756,7 @@ void decode_opt_del(ARC *arc, void *ptr){
 
     if (tw->value == (TEXT *)0) return;
     len = TEXT_strlen(tw->value);
+    if (len == 0) return;
 
     if ((*(tw->value + len - 1) == WORD_OPT_DEL_POST_CHAR) &&
 	(*(tw->value) == WORD_OPT_DEL_PRE_CHAR)){
@@ -771,10 +772,12 @@ void decode_fragment(ARC *arc, void *ptr){
 
     if (tw->value == (TEXT *)0) return;
     len = TEXT_strlen(tw->value);
+    if (len == 0) return;
     if (((*(tw->value + len - 1) == WORD_FRAG_CHAR) || 
 	 (*(tw->value          ) == WORD_FRAG_CHAR))    ||
 	(tw->opt_del && 
-	 (*(tw->value + len - 2) == WORD_FRAG_CHAR)))
+	 ((*(tw->value + len - 2) == WORD_FRAG_CHAR) ||
+	  (*(tw->value + 1      ) == WORD_FRAG_CHAR))))
       tw->frag_corr = TRUE;
 
     return;
-- 
2.43.0


From c93359698ebb6f6c1a95c6cfd124617ebdcf95f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:21 +0000
Subject: [PATCH 004/122] fix: name every hypothesis utterance that has no
 reference

---
 src/sclite/align.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index a9feca1..f947aee 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -186,7 +186,7 @@ void load_refs(SCORES *sc, char *hyp_file, char *ref_file, TEXT ***rset, TEXT **
     if (num_ref != num_ids){
 	failure=1;
 	fprintf(stderr,"Error: Not enough Reference files loaded\nMissing:\n");
-	for (i=0; i<num_ref; i++)
+	for (i=0; i<num_ids; i++)
 	    if (refset[i] == (TEXT *)0)
 	      fprintf(stderr,"    %s\n",idset[i]);
     }
-- 
2.43.0


From 7d06da4e9d60a54f316217e180fc66313ab3db83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:54 +0000
Subject: [PATCH 005/122] fix: do not print progress text into the report
 stream when feedback is off

---
 src/sclite/stm2ctm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/stm2ctm.c b/src/sclite/stm2ctm.c
index 1ca29ef..3a63c45 100644
--- a/src/sclite/stm2ctm.c
+++ b/src/sclite/stm2ctm.c
@@ -127,7 +127,7 @@ static int align_one_channel(SCORES *scor, int chan, WTOKE_STR1 *hyp_segs, STM *
 		printf(") For Channel %d. ", chan+1);
 	    }
 	    if (!stm->seg[rs].flag1){
-	        if (ignored_refseg > 0){
+	        if (feedback >= 1 && ignored_refseg > 0){
 		    printf(" (%d Ignored Segments, %d Ignored Hyp Words.)    ",
 			   ignored_refseg,ignored_hypword);
 		}
-- 
2.43.0


From 6130142c797a7c25a9d6aa782bcafdadc4e6d8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:06 +0000
Subject: [PATCH 006/122] fix: never score the null word when aligning by time

---
 src/sclite/align.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index f947aee..ed68b30 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -402,6 +402,13 @@ PATH *infer_word_seg_algo1(TEXT *ref, TEXT *hyp, NETWORK *hnet, int case_sense,c
     return(path);
 }
 
+/* Time-mediated word distance in which a null '@' is dropped, never scored as a word */
+static float wwd_time_or_null_WORD(void *p1, void *p2, int (*cmp)(void *p1, void *p2)){
+    if (p1 != NULL_WORD && p2 != NULL_WORD && (null_alt_WORD(p1) || null_alt_WORD(p2)))
+	return(0.001 + wwd_time_WORD(p1, NULL_WORD, cmp) + wwd_time_WORD(NULL_WORD, p2, cmp));
+    return(wwd_time_WORD(p1, p2, cmp));
+}
+
 PATH *network_dp_align_texts(TEXT *ref, NETWORK *rnet, TEXT *hyp, NETWORK *hnet, int char_align, int case_sense, char *id, int fcorr, int opt_del, int time_align, WWL *wwl, char *lm_file)
 {
     char *proc="network_dp_align_texts";
@@ -489,7 +496,7 @@ PATH *network_dp_align_texts(TEXT *ref, NETWORK *rnet, TEXT *hyp, NETWORK *hnet,
 //        Network_traverse(hypnet,NULL,0,print_arc,0,NT_CA_For+NT_Verbose);
 //        Network_traverse(refnet,NULL,0,print_arc,0,NT_CA_For+NT_Verbose);  
     Network_dpalign(refnet,hypnet,
-		    ( (time_align) ? wwd_time_WORD : 
+		    ( (time_align) ? wwd_time_or_null_WORD : 
 		      ( ((wwl != (WWL *)0) || (lm_file != (char *)0)) ?
 			 wwd_weight_WORD : wwd_WORD) ),
 		    &path,FALSE);
-- 
2.43.0


From 0c245df66c1c1e71276d6a2067689cd7d071d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:06 +0000
Subject: [PATCH 007/122] fix: score one-word second channels and trailing
 words of a ctm channel under the right channel

---
 src/sclite/ctm2ctm.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/sclite/ctm2ctm.c b/src/sclite/ctm2ctm.c
index 2fe74b6..31a5f29 100644
--- a/src/sclite/ctm2ctm.c
+++ b/src/sclite/ctm2ctm.c
@@ -19,7 +19,7 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
     int ref_opp_end, hyp_opp_end, ref_opp_begin, hyp_opp_begin;
     int dbg = TRUE;
     int chunk;
-    char uttid[100];
+    char uttid[2*LINE_LENGTH+20];
     int spkr;
     int number_of_channels;
     SCORES *scor;
@@ -96,12 +96,12 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 
 	number_of_channels = 1;
 	hyp_end_chan2 = ref_end_chan2 = -1;
-	if (ref_end_chan1+1 < ref->n &&
+	if (ref_end_chan1+1 <= ref->n &&
 	    strcmp(ref->word[ref->s].conv,ref->word[ref_end_chan1+1].conv)==0){
 	    locate_boundary(ref, ref_end_chan1+1, TRUE, TRUE, &ref_end_chan2);
 	    number_of_channels = 2;
 	}
-	if (hyp_end_chan1+1 < hyp->n &&
+	if (hyp_end_chan1+1 <= hyp->n &&
 	    strcmp(hyp->word[hyp->s].conv,hyp->word[hyp_end_chan1+1].conv)==0){
 	    locate_boundary(hyp, hyp_end_chan1+1, TRUE, TRUE, &hyp_end_chan2);
 	    number_of_channels = 2;
@@ -160,6 +160,7 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 	/* Side A */
 	for (i=0; i<number_of_channels; i++){
 	    int base_len;
+	    char *chan_conv, *chan_turn;
 	    chunk = 0;	    
 	    if (i==0){
 		ref_end = ref_end_chan1;
@@ -187,6 +188,9 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 		printf("Ref Range: %d - %d\n",ref_begin,ref_end);
 		printf("Hyp Range: %d - %d\n",hyp_begin,hyp_end);
 	    }
+	    /* chunks after the last reference word still belong to this channel */
+	    chan_conv = ref->word[ref_begin].conv;
+	    chan_turn = ref->word[ref_begin].turn;
 	    while (ref_begin<=ref_end || hyp_begin<=hyp_end){
 		int removals;
 
@@ -202,13 +206,10 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 		removals = 0;
 
 		/* create the utterance ID */
-		sprintf(uttid,"(%s-%s-%04d)",ref->word[ref_begin].conv,
-			ref->word[ref_begin].turn,chunk);
+		sprintf(uttid,"(%s-%s-%04d)",chan_conv,chan_turn,chunk);
 
 		spkr = SCORES_get_grp(scor,
-				      rsprintf("%s-%s",
-					       ref->word[ref_begin].conv,
-					       ref->word[ref_begin].turn));
+				      rsprintf("%s-%s",chan_conv,chan_turn));
 
 		if (dbg > 5){
 		    printf("Chunk %d: Starting for channel %d  id=%s",
@@ -266,8 +267,8 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 		}
 
 		add_PATH_score(scor,path,spkr, keep_path);
-		PATH_add_file(path,ref->word[ref_begin].conv);
-		PATH_add_channel(path,ref->word[ref_begin].turn);
+		PATH_add_file(path,chan_conv);
+		PATH_add_channel(path,chan_turn);
 		/* PATH_add_label(path,(char *)stm->seg[rs].labels); */
 	
 		ref_begin = ref_chop_end+1;
-- 
2.43.0


From c378e6903b276931f6807182f2f3d755ce96fa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:34 +0000
Subject: [PATCH 008/122] fix: leave every speaker without reference words out
 of the mean, S.D. and median

Removing one such speaker moved the others up without moving the word counts
used to find the next one, so with two or more of them wrong speakers were
dropped (and splits/merges were never adjusted).
---
 src/sclite/scores.c | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 01e194c..bc5f1c6 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -1382,22 +1382,17 @@ void print_system_summary(SCORES *sc, char *sys_root_name, int do_sm, int do_raw
     /* added by Brett to compute mean, variance, and standard dev */
     if (Zero_spkr > 0) {
       /* remove any speakers data if word_num_arr[spkr] is 0 */
+      int kept = 0;
       for (spkr=0; spkr<sc->num_grp; spkr++){
-	if (word_num_arr[spkr] == 0) {
-	  int s2;
-	  /* shift up the speakers data to fill this one */
-	  for (s2=spkr; s2 < sc->num_grp-1; s2++){
-	    corr_arr[s2] = corr_arr[s2+1];
-	    sub_arr[s2]  = sub_arr[s2+1];
-	    ins_arr[s2]  = ins_arr[s2+1];
-	    del_arr[s2]  = del_arr[s2+1];
-	    err_arr[s2]  = err_arr[s2+1];
-	  }
-	  corr_arr[sc->num_grp-1] =  -1000.0;
-	  sub_arr[sc->num_grp-1]  =  -1000.0;
-	  ins_arr[sc->num_grp-1]  =  -1000.0;
-	  del_arr[sc->num_grp-1]  =  -1000.0;
-	  err_arr[sc->num_grp-1]  =  -1000.0;
+	if (word_num_arr[spkr] != 0) {
+	  corr_arr[kept] = corr_arr[spkr];
+	  sub_arr[kept]  = sub_arr[spkr];
+	  ins_arr[kept]  = ins_arr[spkr];
+	  del_arr[kept]  = del_arr[spkr];
+	  spl_arr[kept]  = spl_arr[spkr];
+	  mrg_arr[kept]  = mrg_arr[spkr];
+	  err_arr[kept]  = err_arr[spkr];
+	  kept++;
 	}
       }
     }
-- 
2.43.0


From 39d3e544fc0c526100691b66a0aa993d40fd8f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:52 +0000
Subject: [PATCH 009/122] fix: refuse a second reference for an utterance that
 is only a beginning of the first

---
 src/sclite/align.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index ed68b30..2a25c24 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -170,7 +170,7 @@ void load_refs(SCORES *sc, char *hyp_file, char *ref_file, TEXT ***rset, TEXT **
 				    bsearch_TEXT_strcmp)) != NULL){
 	    rind = ind - idset;
 	    if (refset[rind] != (TEXT *)0){
-		if (TEXT_strBcmp(in_buf,refset[rind],TEXT_strlen(in_buf))!= 0){
+		if (TEXT_strcmp(in_buf,refset[rind]) != 0){
 		    fprintf(stderr,"Error: double reference text for id '%s'\n",
 			    id_buf);
 		    failure=1;
-- 
2.43.0


From 5ce07564b8ef9d7623f84005afe86cd98ed3de22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:00 +0000
Subject: [PATCH 010/122] fix: -d scores a one-word second channel and no
 longer drops reference files absent at the end of the hypothesis

---
 src/sclite/align.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 2a25c24..b57c3d8 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -1173,7 +1173,7 @@ SCORES *align_ctm_to_stm_diff(char *ref_file, char *hyp_file, char *set_title, i
 
 	/* find the end of the second channel for the hyp file */
 	locate_WTOKE_boundary(hyp_segs, hyp_segs->s, 1, 1, &hyp_end_chan1);
-	if (hyp_end_chan1+1 < hyp_segs->n &&
+	if (hyp_end_chan1+1 <= hyp_segs->n &&
             strcmp(hyp_segs->word[hyp_segs->s].conv,
 		   hyp_segs->word[hyp_end_chan1+1].conv)==0){
             locate_WTOKE_boundary(hyp_segs,hyp_end_chan1+1,1,1,&hyp_end_chan2);
@@ -1312,6 +1312,12 @@ SCORES *align_ctm_to_stm_diff(char *ref_file, char *hyp_file, char *set_title, i
 	stm->s = ref_end_chan2+1;
     } while (hyp_segs->s <= hyp_segs->n);
 
+    if (stm->s < stm->num){
+	fprintf(stderr,"%s: ref file '%s' is not in the hyp file\n",proc,
+		stm->seg[stm->s].file);
+	return((SCORES *)0);
+    }
+
     fclose(fp_hyp);
     fclose(fp_ref);
 
-- 
2.43.0


From 593a842ab79a539f8177e726435cdcf5824e4b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:40 +0000
Subject: [PATCH 011/122] fix: align every channel of a ctm pair with its own
 counterpart, or say they do not match

Third and later channels were skipped silently, channels were paired by
position whatever their names, and a one-word file at the end of only one
side read past the words.
---
 src/sclite/ctm2ctm.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/sclite/ctm2ctm.c b/src/sclite/ctm2ctm.c
index 31a5f29..3db2095 100644
--- a/src/sclite/ctm2ctm.c
+++ b/src/sclite/ctm2ctm.c
@@ -64,13 +64,13 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 	fill_WTOKE_structure(hyp, fp_hyp, hyp_file, &hyp_eof, case_sense);
 	fill_WTOKE_structure(ref, fp_ref, ref_file, &ref_eof, case_sense);
 	
-	if ((hyp->n < hyp->s) && (ref->n > ref->s)) {
+	if ((hyp->n < hyp->s) && (ref->n >= ref->s)) {
 	  fprintf(stderr,"Error: premature EOF in hyp file '%s' at conv"
 		  "ersation '%s' of ref file '%s'\n",hyp_file,
 		  ref->word[ref->s].conv,ref_file);
 	  exit(1);
 	}
-	if ((hyp->n > hyp->s) && (ref->n < ref->s)) {
+	if ((hyp->n >= hyp->s) && (ref->n < ref->s)) {
 	  fprintf(stderr,"Error: premature EOF in ref file '%s' at conv"
 		  "ersation '%s' of hyp file '%s'\n",ref_file,
 		  hyp->word[hyp->s].conv,hyp_file);
@@ -188,6 +188,15 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 		printf("Ref Range: %d - %d\n",ref_begin,ref_end);
 		printf("Hyp Range: %d - %d\n",hyp_begin,hyp_end);
 	    }
+	    if (strcmp(ref->word[ref_begin].turn,hyp->word[hyp_begin].turn)!=0){
+		fprintf(stderr,"Error: in ref file '%s' and hyp file '%s'\n",
+			ref_file, hyp_file);
+		fprintf(stderr,"       channels of file '%s' out of synchronization"
+			": ref-channel='%s'  hyp-channel='%s'\n",
+			ref->word[ref_begin].conv,ref->word[ref_begin].turn,
+			hyp->word[hyp_begin].turn);
+		exit(1);
+	    }
 	    /* chunks after the last reference word still belong to this channel */
 	    chan_conv = ref->word[ref_begin].conv;
 	    chan_turn = ref->word[ref_begin].turn;
@@ -279,8 +288,9 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 	}
 
 
-	hyp->s = hyp_conv_end+1;
-	ref->s = ref_conv_end+1;
+	/* any further channel of this file is aligned in the next round */
+	hyp->s = hyp_end_chan2+1;
+	ref->s = ref_end_chan2+1;
 
     } while (hyp->s <= hyp->n || ref->s <= ref->n);
 
-- 
2.43.0


From e3b3305cb61e1628d11f9a212c839dc2f6288b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:08 +0000
Subject: [PATCH 012/122] fix: size the label report's buffers by the labels,
 not by fixed arrays

---
 src/sclite/lur.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/sclite/lur.c b/src/sclite/lur.c
index 840c25e..99184ab 100644
--- a/src/sclite/lur.c
+++ b/src/sclite/lur.c
@@ -50,7 +50,7 @@ static void free_LABEL_SCORES(LABEL *tlab, SCORES *sc, int nscor)
 
 static void compute_label_scores(SCORES *sc,int scnum, LABEL *lab){
     int i,p,ind,ms=0,sets,id;
-    char *cp,hs[30];
+    char *cp,*hs=(char *)0;
     PATH *path=(PATH *)0;
 
     for (i=0; i<sc->num_grp; i++){
@@ -70,7 +70,8 @@ static void compute_label_scores(SCORES *sc,int scnum, LABEL *lab){
 		    } else
 			ind=0;
 		    if (ind != 0){
-			strncpy(hs,cp,ind);   hs[ind] = '\0';
+			if (hs != (char *)0) TEXT_free((TEXT *)hs);
+			hs = (char *)TEXT_strBdup((TEXT *)cp,ind);
 			/* printf("    set %s\n",hs);*/
 			/* Lookup the set in the label structure */
                         if ((id = find_PATHLABEL_id(sc,hs)) == -1){
@@ -101,6 +102,7 @@ static void compute_label_scores(SCORES *sc,int scnum, LABEL *lab){
 	    }
 	}
     }
+    if (hs != (char *)0) TEXT_free((TEXT *)hs);
 
     return;
 
@@ -131,7 +133,7 @@ static void create_report(LABEL *labels, SCORES *sc, FILE *fp)
 { 
     int j, k, npres, sumr, sume, i;
     int null_spkr_ref=0;
-    char titlefmt[50],fmt[50],categfmt[50];
+    char *titlefmt,*fmt,*categfmt;
     double *ref_words, *err_words;
     double **ref_sts, **err_sts;
     
@@ -140,7 +142,10 @@ static void create_report(LABEL *labels, SCORES *sc, FILE *fp)
     alloc_2dimarr(ref_sts,sc->aset.num_plab,6,double);
     alloc_2dimarr(err_sts,sc->aset.num_plab,6,double);
     
-    /* create the format statements */
+    /* create the format statements, 3 characters per label */
+    alloc_singarr(titlefmt,sc->aset.num_plab*3+3,char);
+    alloc_singarr(fmt,sc->aset.num_plab*3+3,char);
+    alloc_singarr(categfmt,sc->aset.num_plab*3+3,char);
     strcpy(titlefmt,"c");
     strcpy(fmt,"c");
     strcpy(categfmt,"c");
@@ -273,6 +278,9 @@ static void create_report(LABEL *labels, SCORES *sc, FILE *fp)
     }
 	
     Desc_dump_report(1,fp);
+    free_singarr(titlefmt,char);
+    free_singarr(fmt,char);
+    free_singarr(categfmt,char);
     free_singarr(ref_words,double);
     free_singarr(err_words,double);
     free_2dimarr(ref_sts,sc->aset.num_plab,double);
@@ -282,7 +290,7 @@ static void create_report(LABEL *labels, SCORES *sc, FILE *fp)
 static void create_N_lur_report(LABEL *labels, SCORES *sc[], int nsc, char *test_name, FILE *fp)
 { 
     int j, k, npres, sumr, sume, i, s;
-    char titlefmt[50],fmt[50],categfmt[50],statfmt[50];
+    char *titlefmt,*fmt,*categfmt,*statfmt;
     double *ref_words, *err_words;
     double ***ref_sts, ***err_sts;
     
@@ -291,7 +299,11 @@ static void create_N_lur_report(LABEL *labels, SCORES *sc[], int nsc, char *test
     alloc_3dimarr(ref_sts,nsc,sc[0]->aset.num_plab,6,double);
     alloc_3dimarr(err_sts,nsc,sc[0]->aset.num_plab,6,double);
     
-    /* create the format statements */
+    /* create the format statements, 3 characters per label */
+    alloc_singarr(titlefmt,sc[0]->aset.num_plab*3+3,char);
+    alloc_singarr(fmt,sc[0]->aset.num_plab*3+3,char);
+    alloc_singarr(categfmt,sc[0]->aset.num_plab*3+3,char);
+    alloc_singarr(statfmt,sc[0]->aset.num_plab*3+3,char);
     strcpy(titlefmt,"c");
     strcpy(fmt,"c");
     strcpy(categfmt,"c");
@@ -431,6 +443,10 @@ static void create_N_lur_report(LABEL *labels, SCORES *sc[], int nsc, char *test
 #endif
     
     Desc_dump_report(1,fp);
+    free_singarr(titlefmt,char);
+    free_singarr(fmt,char);
+    free_singarr(categfmt,char);
+    free_singarr(statfmt,char);
     free_singarr(ref_words,double);
     free_singarr(err_words,double);
     free_3dimarr(ref_sts,nsc,sc[0]->aset.num_plab,double);
-- 
2.43.0


From 172ae31930da24f950c0a172c95514bff997a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:53 +0000
Subject: [PATCH 013/122] fix: weighted alignment never scores the null word,
 and compound words of any length are weighed

---
 src/sclite/align.c   | 9 ++++++++-
 src/sclite/wwscr_f.c | 5 +++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index b57c3d8..716a8e5 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -409,6 +409,13 @@ static float wwd_time_or_null_WORD(void *p1, void *p2, int (*cmp)(void *p1, void
     return(wwd_time_WORD(p1, p2, cmp));
 }
 
+/* Word-weight-mediated distance in which a null '@' is dropped, never scored as a word */
+static float wwd_weight_or_null_WORD(void *p1, void *p2, int (*cmp)(void *p1, void *p2)){
+    if (p1 != NULL_WORD && p2 != NULL_WORD && (null_alt_WORD(p1) || null_alt_WORD(p2)))
+	return(0.001 + wwd_weight_WORD(p1, NULL_WORD, cmp) + wwd_weight_WORD(NULL_WORD, p2, cmp));
+    return(wwd_weight_WORD(p1, p2, cmp));
+}
+
 PATH *network_dp_align_texts(TEXT *ref, NETWORK *rnet, TEXT *hyp, NETWORK *hnet, int char_align, int case_sense, char *id, int fcorr, int opt_del, int time_align, WWL *wwl, char *lm_file)
 {
     char *proc="network_dp_align_texts";
@@ -498,7 +505,7 @@ PATH *network_dp_align_texts(TEXT *ref, NETWORK *rnet, TEXT *hyp, NETWORK *hnet,
     Network_dpalign(refnet,hypnet,
 		    ( (time_align) ? wwd_time_or_null_WORD : 
 		      ( ((wwl != (WWL *)0) || (lm_file != (char *)0)) ?
-			 wwd_weight_WORD : wwd_WORD) ),
+			 wwd_weight_or_null_WORD : wwd_WORD) ),
 		    &path,FALSE);
     PATH_add_utt_id(path,(char *)id);
     PATH_set_sequence(path);
diff --git a/src/sclite/wwscr_f.c b/src/sclite/wwscr_f.c
index 78d2b2e..eadaf32 100644
--- a/src/sclite/wwscr_f.c
+++ b/src/sclite/wwscr_f.c
@@ -255,12 +255,12 @@ static void make_speaker_summary(WWL_SCORE *wwlscore, FILE *fp)
 double Weight_wwl(TEXT *str, WWL *wwl)
 {
     double sum=0.0;
-    TEXT buffer[100], *p;
+    TEXT *buffer, *p;
 
     if (TEXT_strchr(str, '=') == (TEXT *)0)
       return (get_weight_from_WW(wwl, str));
 
-    TEXT_strcpy(buffer,str);
+    buffer = TEXT_strdup(str);
     /* Loop through each sub-word and compute the weight */
     /* printf("LOOK AT %s\n",buffer); */
     p = TEXT_strtok(buffer,(TEXT *)"=");
@@ -272,6 +272,7 @@ double Weight_wwl(TEXT *str, WWL *wwl)
 
 	p = TEXT_strtok(NULL,(TEXT *)"=");
     }
+    TEXT_free(buffer);
     return(sum);
 }
 
-- 
2.43.0


From ac0c12ae73595031007b69ee2d4e332a4b486bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:18 +0000
Subject: [PATCH 014/122] fix: sclite -p writes the alignment format that -P
 and sc_stats read

---
 src/sclite/sclite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/sclite.c b/src/sclite/sclite.c
index 076a22b..fb74845 100644
--- a/src/sclite/sclite.c
+++ b/src/sclite/sclite.c
@@ -372,7 +372,7 @@ int main(int argc, char **argv){
 
     if (pipeout)
 	for (nsc=0; nsc < num_hyps + num_piped; nsc++)
-	    dump_SCORES_sgml(scor[nsc],stdout,(TEXT *)"\n",(TEXT *)"\n");
+	    dump_SCORES_sgml(scor[nsc],stdout,(TEXT *)":",(TEXT *)",");
 
     /* clean up the score structures */
     for (nsc=0; nsc < num_hyps + num_piped; nsc++)
-- 
2.43.0


From ebfc629efef144e9ceb74ce9ab8c7ad453bd142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:18 +0000
Subject: [PATCH 015/122] fix: read back SGML attribute values that contain
 quotes

---
 src/sclite/sgml.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sclite/sgml.c b/src/sclite/sgml.c
index c750163..c998858 100644
--- a/src/sclite/sgml.c
+++ b/src/sclite/sgml.c
@@ -75,6 +75,10 @@ int add_SGML_tag(SGML *sg, TEXT *str)
 	b += l+1;
 	if (*(b++) != '"') return(0);
 	if ((l = TEXT_strcspn(b,(TEXT *)"\"")) == 0 && (*b != '"')) return (0);
+	/* the value ends at a quote that is followed by space or the end of the tag */
+	while (b[l] == '"' && b[l+1] != '\0' && TEXT_strchr((TEXT *)" \t\n>",b[l+1]) == NULL)
+	    l += 1 + TEXT_strcspn(b+l+1,(TEXT *)"\"");
+	if (b[l] != '"') return (0);
 	sg->tags[sg->num_tags].attrib_value[*ac] = TEXT_strBdup(b,l);
 	b += l+1;
 	b += TEXT_strspn(b,(TEXT *)" \t\n>");
-- 
2.43.0


From 400302d35c81354cd8c5f7c0a68c364059cd63c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:18 +0000
Subject: [PATCH 016/122] fix: long words overflowed the buffers of the SGML
 alignment writer

---
 src/sclite/scores.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index bc5f1c6..711db2a 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -151,10 +151,27 @@ TEXT *formatWordForSGML(WORD *word, TEXT *buffer){
   return buffer;
 }
 
+/* an upper bound of the size of a word written by formatWordForSGML */
+static int sgml_size_WORD(WORD *word){
+  if (word == NULL_WORD || word->value == (TEXT *)0) return(3);
+  return(2 * (TEXT_strlen(word->value) + 
+	      ((word->tag1 != (TEXT *)0) ? TEXT_strlen(word->tag1) : 0) +
+	      ((word->tag2 != (TEXT *)0) ? TEXT_strlen(word->tag2) : 0)) + 3);
+}
+
 void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_attribute_separator){
-    int i, p, w;
-    TEXT bufA[1000];
-    TEXT bufB[1000];
+    int i, p, w, blen=0;
+    TEXT *bufA, *bufB;
+
+    /* a word may need two bytes for each of its own, and its tags */
+    for (i=0; i<sc->num_grp; i++)
+	for (p=0; p<sc->grp[i].num_path; p++)
+	    for (w=0; w<sc->grp[i].path[p]->num; w++){
+		blen = MAX(blen,sgml_size_WORD((WORD *)sc->grp[i].path[p]->pset[w].a_ptr));
+		blen = MAX(blen,sgml_size_WORD((WORD *)sc->grp[i].path[p]->pset[w].b_ptr));
+	    }
+    alloc_singZ(bufA,blen+1,TEXT,'\0');
+    alloc_singZ(bufB,blen+1,TEXT,'\0');
 
     fprintf(fp,"<SYSTEM title=\"%s\"",sc->title);
     fprintf(fp," ref_fname=\"%s\"",sc->ref_fname);
@@ -336,6 +353,8 @@ void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_a
     }
 
     fprintf(fp,"</SYSTEM>\n");
+    free_singarr(bufA,TEXT);
+    free_singarr(bufB,TEXT);
 }
  
 int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
-- 
2.43.0


From d8b0dc4bdf10fc18ae69bb8a627ae6f268a1cccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:18 +0000
Subject: [PATCH 017/122] fix: alignment printing looped for ever on a word
 wider than the line, and read before its asterisks

---
 src/sclite/path.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sclite/path.c b/src/sclite/path.c
index 13fab30..d4336ba 100644
--- a/src/sclite/path.c
+++ b/src/sclite/path.c
@@ -133,7 +133,7 @@ void PATH_n_print(PATH *path, FILE *fp, int from, int to, int max){
 
 	}
 	if (used > 0) fprintf(fp,"\n");
-	endpass = i - ((i < to) ? 1 : 0);
+	endpass = i - ((i < to && i > used+1) ? 1 : 0);
 
 	for (line=0; line<11; line++){
 	    switch(line) {
@@ -201,7 +201,7 @@ void PATH_n_print(PATH *path, FILE *fp, int from, int to, int max){
 		  case 0: {
 		      sprintf(fmt,"%%-%ds ",wmax);
 		      if (astr == aster) 
-			  astr = aster + (alen - lenb);
+			  astr = aster + (alen - MIN(alen,lenb));
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR) {
@@ -238,7 +238,7 @@ void PATH_n_print(PATH *path, FILE *fp, int from, int to, int max){
 		  case 4: {	
 		      sprintf(fmt,"%%-%ds ",wmax);
 		      if (bstr == aster) 
-			  bstr = aster + (alen - lena);
+			  bstr = aster + (alen - MIN(alen,lena));
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR){
@@ -386,7 +386,7 @@ void PATH_n_print_html(PATH *path, FILE *fp, int from, int to, int max, int head
 
 	}
 	if (used > 0) fprintf(fp,"\n");
-	endpass = i - ((i < to) ? 1 : 0);
+	endpass = i - ((i < to && i > used+1) ? 1 : 0);
 
 	fprintf(fp,"<TABLE CELLSPACING=0 CELLPADDING=1>\n");
 
@@ -468,7 +468,7 @@ void PATH_n_print_html(PATH *path, FILE *fp, int from, int to, int max, int head
 		  case 0: {
 		      sprintf(fmt,"<TD>%%-%ds</TD>",wmax);
 		      if (astr == aster) 
-			  astr = aster + (alen - lenb);
+			  astr = aster + (alen - MIN(alen,lenb));
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR) {
@@ -501,7 +501,7 @@ void PATH_n_print_html(PATH *path, FILE *fp, int from, int to, int max, int head
 		  case 4: {	
 		      sprintf(fmt,"<TD>%%s</TD>");
 		      if (bstr == aster) 
-			  bstr = aster + (alen - lena);
+			  bstr = aster + (alen - MIN(alen,lena));
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR){
-- 
2.43.0


From a56b6d2cd33606565c1eebd7749f0d8fde782239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:58 +0000
Subject: [PATCH 018/122] fix: rover dropped a last word, mixed recordings and
 channels, and failed on zero confidences

---
 src/sclite/mfa.c   | 23 +++++++++++++++++------
 src/sclite/rover.c |  4 ++--
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/sclite/mfa.c b/src/sclite/mfa.c
index 13b3dec..dc82873 100644
--- a/src/sclite/mfa.c
+++ b/src/sclite/mfa.c
@@ -80,7 +80,7 @@ void mfalign_ctm_files(char **hypname, int nhyps, int time_align, int case_sense
 	    for (in=0; in < nhyps; in++){
 		ctms[in]->s = sil_end[in] + 
 		    ((sil_end[in] <= conv_end[in]) ? 1 : 0);
-		if (!eofs[in] || (ctms[in]->s < ctms[in]->n)) done = 0;
+		if (!eofs[in] || (ctms[in]->s <= ctms[in]->n)) done = 0;
 	    }
 	}
     }
@@ -151,15 +151,26 @@ void locate_next_file_channel(WTOKE_STR1 **ctms, int nctm, FILE **files, char **
 	fill_WTOKE_structure(ctms[in], files[in], hypname[in],
 			     &(eofs[in]), case_sense);
 	locate_boundary(ctms[in], ctms[in]->s, TRUE,TRUE,&(conv_end[in]));
-	if (in >= 1 && ctms[in]->s <= ctms[in]->n)
+	if (in >= 1 && ctms[in]->s <= ctms[in]->n){
+	    if (ctms[0]->s > ctms[0]->n){
+		fprintf(scfp,"Error: Conversation %s channel %s of %s is not in %s\n",
+			ctms[in]->word[ctms[in]->s].conv,
+			ctms[in]->word[ctms[in]->s].turn,hypname[in],hypname[0]);
+		exit(1);
+	    }
 	    if (strcmp(ctms[0]->word[ctms[0]->s].conv,
-		       ctms[in]->word[ctms[in]->s].conv) != 0){
+		       ctms[in]->word[ctms[in]->s].conv) != 0 ||
+		strcmp(ctms[0]->word[ctms[0]->s].turn,
+		       ctms[in]->word[ctms[in]->s].turn) != 0){
 		fprintf(scfp,"Error: Conversation mismatches in %s and %s, "
-			"%s and %s respectively",hypname[0],hypname[in],
+			"%s %s and %s %s respectively\n",hypname[0],hypname[in],
 			ctms[0]->word[ctms[0]->s].conv,
-			ctms[in]->word[ctms[in]->s].conv);
+			ctms[0]->word[ctms[0]->s].turn,
+			ctms[in]->word[ctms[in]->s].conv,
+			ctms[in]->word[ctms[in]->s].turn);
 		exit(1);
 	    }
+	}
     }
     if (feedback >= 1) {
 	printf("Working on conversation: %s channel: %s\n",	
@@ -277,7 +288,7 @@ int gap_at_times(WTOKE_STR1 *ctm, int end, double *mgap_beg, double *mgap_end, i
     
     /* if there is no more data in this ctm, that answer is YES */
     if (ctm->s > end) {
-	*mgap_s = ctm->s;
+	*mgap_s = end;
 	return(1);
     }
 
diff --git a/src/sclite/rover.c b/src/sclite/rover.c
index 3bd15f4..b6045b9 100644
--- a/src/sclite/rover.c
+++ b/src/sclite/rover.c
@@ -183,7 +183,7 @@ void mfalign_ctm_files_v1(char **hypname, int nhyps, int time_align, int case_se
 	    for (in=0; in < nhyps; in++){
 		ctms[in]->s = sil_end[in] + 
 		    ((sil_end[in] <= conv_end[in]) ? 1 : 0);
-		if (!eofs[in] || (ctms[in]->s < ctms[in]->n)) done = 0;
+		if (!eofs[in] || (ctms[in]->s <= ctms[in]->n)) done = 0;
 	    }
 	}
     }
@@ -429,7 +429,7 @@ void print_linear(NODE *node, void *p){
 	    else if (mf_sel_str->method == METH_AVGCONF){
 		word_score[i] = ( mf_sel_str->alpha * ((double)word_occ[i]/(double)Narc) +
 				  ((1.0-mf_sel_str->alpha) * 
-				   word_conf_sum[i] / total_conf));
+				   ((total_conf != 0.0) ? word_conf_sum[i] / total_conf : 0.0)));
 		if (mfdb > 5) {
 		    printf("avgconf word_score[%d] = %f\n",i,word_score[i]);
 		    printf("      %.3f * (%.3f / %.3f) + (1 - %.3f) * (%.3f / %.3f)\n",
-- 
2.43.0


From bbd119d0b7e211d11f0266e03a8734b691b2feee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:29 +0000
Subject: [PATCH 019/122] fix: asclite -D both applies to the hypothesis as
 well as to the reference

---
 src/asclite/core/levenshtein.cpp | 19 +++----------------
 src/asclite/core/stt_scorer.cpp  | 20 ++++----------------
 2 files changed, 7 insertions(+), 32 deletions(-)

diff --git a/src/asclite/core/levenshtein.cpp b/src/asclite/core/levenshtein.cpp
index a3e9459..547d19a 100644
--- a/src/asclite/core/levenshtein.cpp
+++ b/src/asclite/core/levenshtein.cpp
@@ -46,23 +46,10 @@ void Levenshtein::SetSegments(SegmentsGroup* segmentsGroup, SpeakerMatch* pSpeak
         delete graph;
 
     string opt_case = Properties::GetProperty("align.optionally");
-    bool opt_ref = false;
-    bool opt_hyp = false;
+    bool opt_ref = ("both" == opt_case || "ref" == opt_case);
+    bool opt_hyp = ("both" == opt_case || "hyp" == opt_case);
 
-    if (string("both").compare(opt_case) == 0 || string("ref").compare(opt_case) == 0)
-    {
-        opt_ref = true;
-    }
-    else if (string("both").compare(opt_case) == 0 || string("hyp").compare(opt_case) == 0)
-    {
-        opt_hyp = true;
-    }
-    else if (string("none").compare(opt_case) == 0)
-    {
-        opt_ref = false;
-        opt_hyp = false;
-    }
-    else
+    if (!opt_ref && !opt_hyp && "none" != opt_case)
     {
         LOG_WARN(logger, "The <align.optionally> property has an unrecognized value: '"+opt_case+"'");
     }
diff --git a/src/asclite/core/stt_scorer.cpp b/src/asclite/core/stt_scorer.cpp
index 5a7bacd..71d9b41 100644
--- a/src/asclite/core/stt_scorer.cpp
+++ b/src/asclite/core/stt_scorer.cpp
@@ -41,22 +41,10 @@ void STTScorer::Score(Alignment* alignment, SpeakerMatch* speakerMatch)
 	TokenAlignment* tokenAlign;
 	
 	string opt_case = Properties::GetProperty("align.optionally");
-    bool opt_ref = false;
-    bool opt_hyp = false;
-  
-    if ("both" == opt_case  || "ref" == opt_case)
-    {
-        opt_ref = true;
-    }
-    else if ("both" == opt_case || "hyp" == opt_case)
-    {
-        opt_hyp = true;
-    }
-    else if ("none" == opt_case)
-    {
-        // do nothing
-    }
-    else
+    bool opt_ref = ("both" == opt_case || "ref" == opt_case);
+    bool opt_hyp = ("both" == opt_case || "hyp" == opt_case);
+
+    if (!opt_ref && !opt_hyp && "none" != opt_case)
     {
         LOG_WARN(logger, "The <align.optionally> property has an unrecognized value: '"+opt_case+"'");
     }
-- 
2.43.0


From b2187bd8f6ac15ab27fe144d5379f5d1fa795c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:29 +0000
Subject: [PATCH 020/122] fix: asclite keeps every word of a leading or
 trailing optional alternation

---
 src/asclite/core/ctm_inputparser.cpp |  2 +-
 src/asclite/core/segment.cpp         | 26 +++++++++++++++-----------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/asclite/core/ctm_inputparser.cpp b/src/asclite/core/ctm_inputparser.cpp
index 63292a4..0f88ec8 100644
--- a/src/asclite/core/ctm_inputparser.cpp
+++ b/src/asclite/core/ctm_inputparser.cpp
@@ -224,7 +224,7 @@ SpeechSet* CTMInputParser::loadFile(const string& name)
                     Segment* seg = Segment::CreateWithDuration(start_ms, dur_ms, speech);
                     seg->SetSource(string(f_file));
                     seg->SetChannel(string(channel));
-                    Token* tok = BuildToken(start_ms, dur_ms, string(text), alt_seg);
+                    Token* tok = BuildToken(start_ms, dur_ms, string(text), seg);
                     seg->AddFirstToken(tok);
                     seg->AddLastToken(tok);
                     alt_seg->AddLastToken(prec_alt_tok);
diff --git a/src/asclite/core/segment.cpp b/src/asclite/core/segment.cpp
index f533389..e0caa0c 100644
--- a/src/asclite/core/segment.cpp
+++ b/src/asclite/core/segment.cpp
@@ -227,8 +227,12 @@ vector<Token*> Segment::ToTopologicalOrderedStruct()
 	for(size_t i = 0 ; i < f_token->GetNbOfNextTokens() ; ++i)
     {
         Token* token = f_token->GetNextToken(i);
-        res.push_back(token);
-        ToTopologicalOrderedStruct(token, &res);
+        
+        if (find(res.begin(), res.end(), token) == res.end())
+        {
+            res.push_back(token);
+            ToTopologicalOrderedStruct(token, &res);
+        }
     }
 	
     return res;
@@ -239,17 +243,17 @@ vector<Token*> Segment::ToTopologicalOrderedStruct()
  */
 void Segment::ToTopologicalOrderedStruct(Token* start, vector<Token*>* doneNode)
 {
-    if (!isLastToken(start))
+    // A last token may be followed by tokens of this segment (optional ones) and of the next segments
+    bool isLast = isLastToken(start);
+    
+    for(size_t i = 0 ; i < start->GetNbOfNextTokens() ; ++i)
     {
-        for(size_t i = 0 ; i < start->GetNbOfNextTokens() ; ++i)
+        Token* token = start->GetNextToken(i);
+        
+        if( (!isLast || token->GetParentSegment() == this) && (find(doneNode->begin(), doneNode->end(), token) == doneNode->end()) )
         {
-            Token* token = start->GetNextToken(i);
-            
-            if (find(doneNode->begin(), doneNode->end(), token) == doneNode->end())
-            {
-                doneNode->push_back(token);
-                ToTopologicalOrderedStruct(token, doneNode);
-            }
+            doneNode->push_back(token);
+            ToTopologicalOrderedStruct(token, doneNode);
         }
     }
 }
-- 
2.43.0


From 6d1a071893b7a74405e2d8c91632aa85271138b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:29 +0000
Subject: [PATCH 021/122] fix: asclite -F compares two beginnings of words as
 beginnings

---
 src/asclite/core/token.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/asclite/core/token.cpp b/src/asclite/core/token.cpp
index 5ad10e7..f8293d9 100644
--- a/src/asclite/core/token.cpp
+++ b/src/asclite/core/token.cpp
@@ -116,6 +116,8 @@ void Token::UpdateCleanedUpTextIfNeeded(const bool& force)
     }
 
     //cout << "Start " << start << endl;
+    fragment = Token::NOT_FRAGMENT;
+    
     if(segment->AreFragmentsCorrect())
     {
         if (sourceText[start] == FRAGMENT_MARKER) 
@@ -131,10 +133,6 @@ void Token::UpdateCleanedUpTextIfNeeded(const bool& force)
             --size;
         }
     }
-    else 
-    {
-        fragment = Token::NOT_FRAGMENT;
-    }	
     //cout << " Start " << start << " size " << size << " str " << sourceText.substr(start, size) << " frag? " << fragment <<  endl;
 }
 
@@ -292,7 +290,7 @@ bool Token::IsEquivalentTo(Token* token)
 			} 
             else if (otherFrag == BEGIN_FRAGMENT) 
             {
-				 return ((tok1.find(tok2, 0) != string::npos) || (tok2.find(tok1, 0) != string::npos));
+				 return ((tok1.find(tok2, 0) == 0) || (tok2.find(tok1, 0) == 0));
 			}
             else 
             {
-- 
2.43.0


From 304f3681db6918e361d2f64ebeb749b4a5d5a54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:29 +0000
Subject: [PATCH 022/122] fix: asclite lets an alternative made of several
 optional parts be skipped

---
 src/asclite/core/linestyle_inputparser.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/asclite/core/linestyle_inputparser.cpp b/src/asclite/core/linestyle_inputparser.cpp
index 9d621bd..3fd2d37 100644
--- a/src/asclite/core/linestyle_inputparser.cpp
+++ b/src/asclite/core/linestyle_inputparser.cpp
@@ -151,6 +151,7 @@ LineStyleInputParser::VirtualSegment* LineStyleInputParser::ParseWords(Segment*
     {
         vector<string> t_words = TokeniseWords(orStatements[0]);
         bool isFirstWord = true;
+        bool isTraversable = true;
 		LineStyleInputParser::VirtualSegment* prec_token = NULL;
 		
 		for (size_t i=0; i < t_words.size(); ++i)
@@ -162,12 +163,8 @@ LineStyleInputParser::VirtualSegment* LineStyleInputParser::ParseWords(Segment*
             {
                 toks = ParseWords(seg, t_words[i], bOptionallyDeletable);
 				
-                if (toks->IsTraversable())
-                {
-                    //only set the containing structur as traversable if it contain one token
-                    if (t_words.size() == 1)
-                        out_struct->SetTraversable(true);
-                }
+                if (!toks->IsTraversable())
+                    isTraversable = false;
             }
             else
             {
@@ -175,6 +172,8 @@ LineStyleInputParser::VirtualSegment* LineStyleInputParser::ParseWords(Segment*
         
 				if (t_words[i].compare("") != 0 && (t_words[i].compare("@") != 0))
                 {
+                    isTraversable = false;
+                    
                     if(!m_bUseExtended)
                     {
 						Token* tok = BuildToken(-1, -1, t_words[i], seg);
@@ -217,11 +216,8 @@ LineStyleInputParser::VirtualSegment* LineStyleInputParser::ParseWords(Segment*
                 }
                 else
                 {
-                    //if the empty token is alone then the virtual segment is traversable
-                    //else just skip it
-                    if (t_words.size() == 1)
-                        out_struct->SetTraversable(true);
-                    else
+                    //an empty token is skipped, unless it is alone
+                    if (t_words.size() != 1)
                         skipToken = true;
                 }
             }
@@ -282,6 +278,10 @@ LineStyleInputParser::VirtualSegment* LineStyleInputParser::ParseWords(Segment*
 		if(prec_token && (prec_token != out_struct))
             delete prec_token;
 		
+		//the containing structure is traversable if all that it contains is
+		if(isTraversable)
+			out_struct->SetTraversable(true);
+		
 		t_words.clear();
     }
 	
-- 
2.43.0


From 3c8751efca94c10870452c483d61857679b83da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:29 +0000
Subject: [PATCH 023/122] fix: asclite counts a reference utterance without
 hypothesis as deletions instead of crashing

---
 src/asclite/core/trntrn_segmentor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asclite/core/trntrn_segmentor.cpp b/src/asclite/core/trntrn_segmentor.cpp
index 0991331..2fe6ada 100644
--- a/src/asclite/core/trntrn_segmentor.cpp
+++ b/src/asclite/core/trntrn_segmentor.cpp
@@ -52,7 +52,7 @@ SegmentsGroup* TRNTRNSegmentor::Next()
     SegmentsGroup* segGroup = new SegmentsGroup();
     bool foundIt = false;
   
-    for (size_t j=0 ; refs->GetNumberOfSpeech() ; ++j)
+    for (size_t j=0 ; j < refs->GetNumberOfSpeech() ; ++j)
     {
         for (size_t i=0 ; i < refs->GetSpeech(j)->NbOfSegments() ; ++i)
         {
@@ -74,7 +74,7 @@ SegmentsGroup* TRNTRNSegmentor::Next()
         }
     }
     
-    for (size_t j=0 ; hyps->GetNumberOfSpeech(); ++j)
+    for (size_t j=0 ; j < hyps->GetNumberOfSpeech() ; ++j)
     {
         for (size_t i=0 ; i < hyps->GetSpeech(j)->NbOfSegments() ; ++i)
         {
-- 
2.43.0


From bcc1fa04e3dbbc6e43589b6bd1ea0bb4a4b1f6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:29 +0000
Subject: [PATCH 024/122] fix: asclite reports a standard deviation of 0 for a
 single speaker

---
 src/asclite/core/statistics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asclite/core/statistics.cpp b/src/asclite/core/statistics.cpp
index 53ec683..40b495e 100644
--- a/src/asclite/core/statistics.cpp
+++ b/src/asclite/core/statistics.cpp
@@ -51,7 +51,7 @@ void Statistics::Compute()
 		}
 		
 		m_Mean = m_Sum/((double) m_VecValues.size());
-		m_SD = sqrt((n * sumSqr - m_Sum*m_Sum) / ( n * (n-1)));
+		m_SD = (n > 1) ? sqrt(max(0.0, (n * sumSqr - m_Sum*m_Sum) / ( n * (n-1)))) : 0.0;
 		
 		if(m_VecValues.size()%2 == 0)
 			m_Median = (m_VecValues[m_VecValues.size()/2]+m_VecValues[m_VecValues.size()/2-1])/2.0;
-- 
2.43.0


From db924cc067da72b4d551cc3a9ac363db3b181f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:13 +0000
Subject: [PATCH 025/122] fix: asclite keeps the confidences that follow a word
 without one in an RTTM file

---
 src/asclite/core/rttm_inputparser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/asclite/core/rttm_inputparser.cpp b/src/asclite/core/rttm_inputparser.cpp
index 2948841..a4cad23 100644
--- a/src/asclite/core/rttm_inputparser.cpp
+++ b/src/asclite/core/rttm_inputparser.cpp
@@ -129,9 +129,9 @@ SpeechSet* RTTMInputParser::loadFileLexeme(const string& name)
                 int duration = ParseString(string(l_duration));
                 float confscr = 0;
                 
-                if(string(l_conf).compare("<NA>") == 0)
-                    use_confidence = false;
-                else
+                use_confidence = (string(l_conf).compare("<NA>") != 0);
+                
+                if(use_confidence)
                     confscr = atof(l_conf);
 				
 				string str_word = string(l_word);
-- 
2.43.0


From 64684dbbb8c1a4561b76bdec1a017d232e898b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:13 +0000
Subject: [PATCH 026/122] fix: asclite refuses a segment cut by a UEM region
 that shares an edge with it

---
 src/asclite/core/uemfilter.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/asclite/core/uemfilter.cpp b/src/asclite/core/uemfilter.cpp
index cd15ae5..8298730 100644
--- a/src/asclite/core/uemfilter.cpp
+++ b/src/asclite/core/uemfilter.cpp
@@ -176,9 +176,7 @@ unsigned long int UEMFilter::ProcessSingleSpeech(Speech* speech)
 						// [     {      ]     }
 						// us    ss     ue    se
 						
-						if( /*1*/( (segStartTime < uemStartTime) && (uemStartTime < segEndTime) && (segEndTime < uemEndTime) ) ||
-							/*2*/( (segStartTime < uemStartTime) && (uemStartTime < uemEndTime) && (uemEndTime < segEndTime) ) ||
-							/*3*/( (uemStartTime < segStartTime) && (segStartTime < uemEndTime) && (uemEndTime < segEndTime) ) )
+						if( (segStartTime < uemEndTime) && (uemStartTime < segEndTime) )
 						{
 							++nbrerr;
 							char bufferUEM1[BUFFER_SIZE];
-- 
2.43.0


From df0fde6516930655ae9a48cb230d4278bf501871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:13 +0000
Subject: [PATCH 027/122] fix: asclite removes a segment outside the UEM
 regions without using freed tokens

---
 src/asclite/core/speech.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/asclite/core/speech.cpp b/src/asclite/core/speech.cpp
index 008bfc6..c96acaa 100644
--- a/src/asclite/core/speech.cpp
+++ b/src/asclite/core/speech.cpp
@@ -154,7 +154,14 @@ void Speech::RemoveSegment(Segment* currentSegment)
 			for(size_t p=0; p<firstToken->GetNbOfPrecTokens(); ++p)
 			{
 				Token* previousTokenofFirstToken = firstToken->GetPrecToken(p);
-				listPreviousTokenofFirstToken.push_back(previousTokenofFirstToken);
+				
+				// A token of the segment itself (after an optional one) goes with the segment
+				if(previousTokenofFirstToken->GetParentSegment() == currentSegment)
+					continue;
+				
+				if(find(listPreviousTokenofFirstToken.begin(), listPreviousTokenofFirstToken.end(), previousTokenofFirstToken) == listPreviousTokenofFirstToken.end())
+					listPreviousTokenofFirstToken.push_back(previousTokenofFirstToken);
+				
 				previousTokenofFirstToken->UnlinkNextToken(firstToken);
 			}
 		}
@@ -170,7 +177,13 @@ void Speech::RemoveSegment(Segment* currentSegment)
 			for(size_t n=0; n<lastToken->GetNbOfNextTokens(); ++n)
 			{
 				Token* nextTokenofLastToken = lastToken->GetNextToken(n);
-				listNextTokenofLastToken.push_back(nextTokenofLastToken);
+				
+				if(nextTokenofLastToken->GetParentSegment() == currentSegment)
+					continue;
+				
+				if(find(listNextTokenofLastToken.begin(), listNextTokenofLastToken.end(), nextTokenofLastToken) == listNextTokenofLastToken.end())
+					listNextTokenofLastToken.push_back(nextTokenofLastToken);
+				
 				nextTokenofLastToken->UnlinkPrevToken(lastToken);
 			}
 		}
@@ -179,11 +192,12 @@ void Speech::RemoveSegment(Segment* currentSegment)
 	// Re-attach the tokens
 	list<Token*>::iterator prev  = listPreviousTokenofFirstToken.begin();
 	list<Token*>::iterator eprev = listPreviousTokenofFirstToken.end();
-	list<Token*>::iterator next  = listNextTokenofLastToken.begin();
-	list<Token*>::iterator enext = listNextTokenofLastToken.end();
 	
 	while(prev != eprev)
 	{
+		list<Token*>::iterator next  = listNextTokenofLastToken.begin();
+		list<Token*>::iterator enext = listNextTokenofLastToken.end();
+		
 		while(next != enext)
 		{
 			(*prev)->AddNextToken(*next);
-- 
2.43.0


From d6ee2d67a74e94a9a48b8fb4d754853365178b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:13 +0000
Subject: [PATCH 028/122] fix: asclite writes an empty sgml report when nothing
 is scored instead of crashing

---
 src/asclite/core/sgml_reportgenerator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/asclite/core/sgml_reportgenerator.cpp b/src/asclite/core/sgml_reportgenerator.cpp
index bedd4f7..7baf2d4 100644
--- a/src/asclite/core/sgml_reportgenerator.cpp
+++ b/src/asclite/core/sgml_reportgenerator.cpp
@@ -166,7 +166,8 @@ void SGMLReportGenerator::GenerateSystem(Alignment* alignment, const string& sys
 	output << " weight_filename=" << "\"" << weight_filename << "\"";
 	output << ">" << endl;
 	
-	GenerateCategoryLabel(parentSpeechSet, output);
+	if(parentSpeechSet)
+		GenerateCategoryLabel(parentSpeechSet, output);
 	
 	m_bRefHasTimes = m_bRefHasConf = m_bHypHasConf = m_bHypHasTimes = false;
 	Speakers::iterator current = speakers.begin();
-- 
2.43.0


From 00783a2d84600cf86cc7191b13f5df7705d2f08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:57 +0000
Subject: [PATCH 029/122] fix: asclite does not loop forever on an
 incompressible block of the compressed matrix

---
 src/asclite/core/compressedlevenshteinmatrix.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/asclite/core/compressedlevenshteinmatrix.cpp b/src/asclite/core/compressedlevenshteinmatrix.cpp
index d81b9a8..b907bda 100644
--- a/src/asclite/core/compressedlevenshteinmatrix.cpp
+++ b/src/asclite/core/compressedlevenshteinmatrix.cpp
@@ -313,7 +313,16 @@ bool CompressedLevenshteinMatrix::ForcedGarbageCollection()
 	}
 	
 	if(found)
+	{
 		CompressBlock(min_index);
+		
+		if(!m_TabbIsCompressed[min_index])
+		{
+			// Incompressible block: stop here, and look at the other blocks first the next time
+			TouchBlock(min_index);
+			found = false;
+		}
+	}
 	
 	return found;
 }
-- 
2.43.0


From 3ee447823a1259bc126833c37c501aee8b424e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:30 +0000
Subject: [PATCH 030/122] fix: md-eval does not evaluate a no-score zone that
 starts where an evaluated region starts

---
 src/md-eval/md-eval.pl | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/md-eval/md-eval.pl b/src/md-eval/md-eval.pl
index c5609eb..77ec1b2 100755
--- a/src/md-eval/md-eval.pl
+++ b/src/md-eval/md-eval.pl
@@ -2113,9 +2113,8 @@ sub exclude_overlapping_speech_from_uem {
 	$evl_cnt += $event->{EVENT} eq "BEG" ? 1 : -1 if $event->{TYPE} eq "UEM";
 	$nsz_cnt += $event->{EVENT} eq "BEG" ? 1 : -1 if $event->{TYPE} eq "NSZ";
 	if ($evaluating and
-	    ($evl_cnt == 0 or $nsz_cnt > 0) and
-	    $event->{TIME} > $tbeg) {
-	    push @$uem_ex, {TBEG => $tbeg, TEND => $event->{TIME}};
+	    ($evl_cnt == 0 or $nsz_cnt > 0)) {
+	    push @$uem_ex, {TBEG => $tbeg, TEND => $event->{TIME}} if $event->{TIME} > $tbeg;
 	    $evaluating = 0;
 	}
 	elsif ($evl_cnt > 0 and $nsz_cnt == 0) {
@@ -2226,9 +2225,8 @@ sub add_exclusion_zones_to_uem {
 	$evl_cnt += $event->{EVENT} eq "BEG" ? 1 : -1 if $event->{TYPE} eq "UEM";
 	$nsz_cnt += $event->{EVENT} eq "BEG" ? 1 : -1 if $event->{TYPE} eq "NSZ";
 	if ($evaluating and
-	    ($evl_cnt == 0 or $nsz_cnt > 0) and
-	    $event->{TIME} > $tbeg) {
-	    push @$uem_ex, {TBEG => $tbeg, TEND => $event->{TIME}};
+	    ($evl_cnt == 0 or $nsz_cnt > 0)) {
+	    push @$uem_ex, {TBEG => $tbeg, TEND => $event->{TIME}} if $event->{TIME} > $tbeg;
 	    $evaluating = 0;
 	}
 	elsif ($evl_cnt > 0 and $nsz_cnt == 0) {
-- 
2.43.0


From 299c789980e01dfc546a605b134d3c022a77584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:30 +0000
Subject: [PATCH 031/122] fix: md-eval closes a no-score zone that no later
 speaker segment or lexeme follows

---
 src/md-eval/md-eval.pl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/md-eval/md-eval.pl b/src/md-eval/md-eval.pl
index 77ec1b2..401ee6e 100755
--- a/src/md-eval/md-eval.pl
+++ b/src/md-eval/md-eval.pl
@@ -2211,6 +2211,8 @@ sub add_exclusion_zones_to_uem {
 	}
     }
 
+    push @events, {TYPE => "NSZ", EVENT => "END", TIME => $tend_nsz+$max_extend} unless $evaluating;
+
 #merge noscore zones with UEM data
     foreach $uem (@$uem_score) {
 	next unless $uem->{TEND}-$uem->{TBEG} > 0;
-- 
2.43.0


From 8fc752234f43d0fb1d1cda5c38d25c72dc3739b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:51 +0000
Subject: [PATCH 032/122] fix: a ctm record with missing fields is reported,
 and fields of LINE_LENGTH bytes do not overflow

---
 src/sclite/fillmrks.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/sclite/fillmrks.c b/src/sclite/fillmrks.c
index f006d64..5436be1 100644
--- a/src/sclite/fillmrks.c
+++ b/src/sclite/fillmrks.c
@@ -56,6 +56,12 @@ void fill_WTOKE_structure(WTOKE_STR1 *ctm_segs, FILE *fp_ctm, char *ctm_file, in
  /*    in the word array, expand the array and continue reading until  */
  /*    eof or the the word is not the same.                            */
  /**********************************************************************/
+/* copy a field of a ctm record, nothing if the record ends before it */
+static void copy_field(char *to, TEXT *from){
+   if (from != (TEXT *)0)
+      TEXT_strBcpy((TEXT *)to, from, LINE_LENGTH-1);
+}
+
  void fill_mark_struct(FILE *fp, WTOKE_STR1 *word_tokens, char *fname, boolean *end_of_file, int *perr, int case_sense)
   {
 /* data: */
@@ -119,11 +125,11 @@ db_enter_msg(proc,0); /* debug only */
 	   if (!case_sense)
 	       TEXT_str_case_change_with_mem_expand(&in_buf, &in_buf_len, 1);
 	   n += 1;
-	   *s2 = *s3 = *xconv = *xsp = *xconf = *xcorr = '\0';
+	   *s2 = *s3 = *side = *xconv = *xsp = *xconf = *xcorr = '\0';
 
 	   /* printf("WTOKE: %s  %d  %d\n",
 	      in_buf,TEXT_strlen(in_buf),strlen(in_buf)); */
-	   if (in_buf[(j = TEXT_strlen(in_buf)) - 1] == '\n')
+	   if ((j = TEXT_strlen(in_buf)) > 0 && in_buf[j - 1] == '\n')
 	       in_buf[j-1] = '\0';
 
 	   if (*in_buf != '\0'){
@@ -131,19 +137,19 @@ db_enter_msg(proc,0); /* debug only */
 	     rp = TEXT_strtok((TEXT *)in_buf + TEXT_strspn(in_buf,
 							   (TEXT*)" \t"),
 			      (TEXT *)" \t\n");
-	       TEXT_strBcpy((TEXT *)xconv,rp,LINE_LENGTH);
+	       copy_field(xconv,rp);
 	       rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");
-	       TEXT_strBcpy((TEXT *)side,rp,LINE_LENGTH);
+	       copy_field(side,rp);
 	       rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");
-	       TEXT_strBcpy((TEXT *)s2,rp,LINE_LENGTH);
+	       copy_field(s2,rp);
 	       rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n"); 
-	       TEXT_strBcpy((TEXT *)s3,rp,LINE_LENGTH);
+	       copy_field(s3,rp);
 	       rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");
-	       TEXT_strBcpy((TEXT *)xsp,rp,LINE_LENGTH);
+	       copy_field(xsp,rp);
 	       if ((rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n")) != NULL){
-		 TEXT_strBcpy((TEXT *)xconf,rp,LINE_LENGTH);
+		 copy_field(xconf,rp);
 		 if ((rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n")) != NULL){
-		   TEXT_strBcpy((TEXT *)xcorr,rp,LINE_LENGTH);
+		   copy_field(xcorr,rp);
 		 }
 	       }
 	   }	    
-- 
2.43.0


From 96ad7dce47e559361b7db03b7f8cbeca46d9ff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:51 +0000
Subject: [PATCH 033/122] fix: an stm record with missing fields is reported

---
 src/sclite/stm.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/sclite/stm.c b/src/sclite/stm.c
index 40aaf5c..d2e224b 100644
--- a/src/sclite/stm.c
+++ b/src/sclite/stm.c
@@ -46,6 +46,17 @@ void read_stm_line(TEXT **buf, int *len, FILE *fp){
 }
 
 
+/* the next of the five mandatory fields of an stm record */
+static TEXT *next_field(TEXT *buf){
+    TEXT *rp = TEXT_strtok(buf,(TEXT *)" \t\n");
+
+    if (rp == (TEXT *)0){
+	fprintf(stderr,"Error: STM record with missing fields\n");
+	exit(1);
+    }
+    return(rp);
+}
+
 void parse_stm_line(STM_SEG *seg, TEXT **buf_ptr, int *buf_len, int case_sense, int dbg){
     TEXT *rp, *buf;
     int i, len;
@@ -61,11 +72,11 @@ void parse_stm_line(STM_SEG *seg, TEXT **buf_ptr, int *buf_len, int case_sense,
     len = TEXT_strlen(buf);
 
     /* parse stm string */
-    rp = TEXT_strtok(buf,(TEXT *)" \t\n");     	seg->file = TEXT_strdup(rp);
-    rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");  seg->chan = TEXT_strdup(rp);
-    rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");  seg->spkr = TEXT_strdup(rp);
-    rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");  seg->t1   = TEXT_atof(rp);
-    rp = TEXT_strtok((TEXT *)0,(TEXT *)" \t\n");  seg->t2   = TEXT_atof(rp);
+    rp = next_field(buf);     	seg->file = TEXT_strdup(rp);
+    rp = next_field((TEXT *)0);  seg->chan = TEXT_strdup(rp);
+    rp = next_field((TEXT *)0);  seg->spkr = TEXT_strdup(rp);
+    rp = next_field((TEXT *)0);  seg->t1   = TEXT_atof(rp);
+    rp = next_field((TEXT *)0);  seg->t2   = TEXT_atof(rp);
     seg->flag1 = 0;
     seg->labels = (TEXT *)0;
     if (rp != (TEXT *)0){
-- 
2.43.0


From 9d8f60e01c71e2a75a2b174522f62c10db16ec60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:51 +0000
Subject: [PATCH 034/122] fix: a trn id whose parentheses are reversed is
 reported

---
 src/sclite/align.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 716a8e5..d18e452 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -30,7 +30,7 @@ void remove_id(TEXT *utt, TEXT **id, int *id_len){
     if (R_paren == NULL && L_paren == NULL)	
 	return;
 
-    if (R_paren == NULL || L_paren == NULL){
+    if (R_paren == NULL || L_paren == NULL || R_paren < L_paren){
 	fprintf(stderr,"Error: Unparsable utterance id %s\n",utt);
 	exit(1);
     }
-- 
2.43.0


From 2a63dd13249f19dd0e11e9e78986eb023b8e051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:51 +0000
Subject: [PATCH 035/122] fix: statistics of no values at all are zero, as for
 doubles

---
 src/sclite/statdist.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sclite/statdist.c b/src/sclite/statdist.c
index 3a34163..a780315 100644
--- a/src/sclite/statdist.c
+++ b/src/sclite/statdist.c
@@ -596,6 +596,11 @@ void calc_mean_var_std_dev_Zstat(int *Z_list, int num_Z, double *mean, double *v
     int i;
     double tmp = 0.0;
 
+    if (num_Z == 0){
+	*mean = *median = *variance = *std_dev = *Z_stat = 0.0;
+	return;
+    }
+
     for (i=0;i<num_Z;i++){
        tmp+=Z_list[i];
     }
-- 
2.43.0


From 42490fcfa4143624e62c4563e43afac150d71854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:51 +0000
Subject: [PATCH 036/122] fix: no read before the start of a word that begins
 with the sub-word separator

---
 src/sclite/word.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/word.c b/src/sclite/word.c
index f4aadf8..74bc104 100644
--- a/src/sclite/word.c
+++ b/src/sclite/word.c
@@ -245,7 +245,7 @@ TEXT *nextColon(TEXT *t){
     if (nextColon == (TEXT *)NULL){
        endFound = 1;
        extentPos = TEXT_strlen(t);
-    } else if (*(nextColon - 1) == WORD_SGML_ESCAPE) {
+    } else if (nextColon > t && *(nextColon - 1) == WORD_SGML_ESCAPE) {
        extentPos = nextColon - t + 1;
     } else {
        endFound = 1;
-- 
2.43.0


From 1ca47c1d5289729d586dae6741b45d61d6160267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:51 +0000
Subject: [PATCH 037/122] fix: a hyp file that continues after the last ref
 segment is reported, as intended

---
 src/sclite/stm2ctm.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sclite/stm2ctm.c b/src/sclite/stm2ctm.c
index 3a63c45..fcf9c3a 100644
--- a/src/sclite/stm2ctm.c
+++ b/src/sclite/stm2ctm.c
@@ -404,6 +404,13 @@ SCORES *align_ctm_to_stm_dp(char *ref_file, char *hyp_file, char *set_title, int
         locate_WTOKE_boundary(hyp_segs, hyp_segs->s, 1, 1, &hend);
         locate_STM_boundary(stm, stm->s, 1, 1, &rend);
         
+        if (stm->s >= stm->num){
+           if (hyp_segs->s > hyp_segs->n)
+              break;    // neither file has data
+           fprintf(stderr,"%s: Error: Hyp file has more data than ref file, beginning at ",proc);
+	   fprintf(stderr,"hyp file/channel '%s' '%s'.\n",hyp_segs->word[hyp_segs->s].conv,hyp_segs->word[hyp_segs->s].turn);           
+           return((SCORES *)0);
+        }
         if (feedback >= 1)
     	    printf("    Performing alignments for file '%s'.\n",
 	       stm->seg[stm->s].file);
@@ -415,10 +422,6 @@ SCORES *align_ctm_to_stm_dp(char *ref_file, char *hyp_file, char *set_title, int
         if (hyp_segs->s > hyp_segs->n){
            fprintf(stderr,"%s: Hyp files ends before ref but continuing for ",proc);
 	   fprintf(stderr,"ref file/channel '%s' '%s'.\n",stm->seg[stm->s].file,stm->seg[stm->s].chan);           
-        } else if (hyp_segs->s <= hyp_segs->n && stm->s > stm->num){
-           fprintf(stderr,"%s: Error: Hyp file has more data than ref file, beginning at ",proc);
-	   fprintf(stderr,"hyp file/channel '%s' '%s'.\n",hyp_segs->word[hyp_segs->s].conv,hyp_segs->word[hyp_segs->s].turn);           
-           return((SCORES *)0);
         } else if ( TEXT_strcmp((TEXT*)hyp_segs->word[hyp_segs->s].conv,stm->seg[stm->s].file) == 0 &&
              TEXT_strcmp((TEXT*)hyp_segs->word[hyp_segs->s].turn,stm->seg[stm->s].chan) == 0){
            // Align this channel as is
-- 
2.43.0


From b3802cb13e7b8e018dfdc3f29d427d52b0c67d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:51 +0000
Subject: [PATCH 038/122] fix: an alternation without alternatives, or with an
 empty one, is reported

---
 src/sclite/net_adt.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sclite/net_adt.c b/src/sclite/net_adt.c
index 9cb76ac..b2586f9 100644
--- a/src/sclite/net_adt.c
+++ b/src/sclite/net_adt.c
@@ -987,6 +987,10 @@ static void expand_alternates(ARC *arc, void *ptr){
 						  arc->net->arc_func.make_empty,
 						  arc->net->arc_func.use_count);
 		alt ++;
+		if (subnet == NULL_NETWORK || subnet->stop_node == NULL){
+		    fprintf(stderr,"Error: empty alternative in '%s'\n",tw->value);
+		    exit(1);
+		}
 		if (first)
 		    subnet2 = subnet;
 		else {
@@ -1013,6 +1017,10 @@ static void expand_alternates(ARC *arc, void *ptr){
 	}
 	TEXT_free(ctext);
 
+	if (subnet2 == NULL_NETWORK){
+	    fprintf(stderr,"Error: no alternatives in '%s'\n",tw->value);
+	    exit(1);
+	}
 	if (db >= 10){
 	    printf("Network After Merge\n");
 	    Network_traverse(subnet2,print_node,0,print_arc,0,0);
-- 
2.43.0


From 7601b944eae39f2c5ea5d38a56c7a23404ea823e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:51 +0000
Subject: [PATCH 039/122] fix: malformed sgml alignments are reported instead
 of read out of bounds

---
 src/sclite/scores.c | 27 +++++++++++++++++++++------
 src/sclite/sgml.c   |  1 +
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 711db2a..abdc3af 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -592,6 +592,10 @@ int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
 		spk = (-1);
 		path = (PATH *)0;
 	    } else if (TEXT_strcmp(endtag,(TEXT *)"PATH") == 0) {
+		if (path == (PATH *)0 || spk == (-1)){
+		    msg = rsprintf("PATH end tag outside of SPEAKER tag");
+		    goto FAIL;
+		}
 		add_PATH_score(tscor,path,spk,1);
 		path = (PATH *)0;
 	    }
@@ -604,6 +608,7 @@ int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
 	    while (token != (TEXT *)NULL){
 		if (dbg) fprintf(scfp,"%s:     token %s\n",proc,token);
 		
+		check_space_in_PATH(path);
 		/* pick of the evaluation flag */
 		switch (*token){
 		  case 'I': { path->pset[path->num].eval = P_INS;  break; }
@@ -638,19 +643,23 @@ int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
 		/* extract the first word */
 		if (path->pset[path->num].eval == P_INS){
 		    /* skip the the first element */
-		    if (*(p1+1) != ','){
+		    if (*p1 == '\0' || *(p1+1) != ','){
 			msg = rsprintf("Word parse error, at %s of %s",
 				       p1,token);
 			goto FAIL;
 		    }
 		    p1++;
 		} else {
-		    if (*(p1+1) != '"') {
+		    if (*p1 == '\0' || *(p1+1) != '"') {
+			msg = rsprintf("Word parse error, at %s of %s",
+				       p1,token);
+			goto FAIL;
+		    }
+		    if ((p2 = TEXT_strchr(p1+2,'"')) == NULL) {
 			msg = rsprintf("Word parse error, at %s of %s",
 				       p1,token);
 			goto FAIL;
 		    }
-		    p2 = TEXT_strchr(p1+2,'"');
 		    wd1->value = TEXT_strBdup(p1+2,p2 - (p1+2));
 		    p1 = p2+1;
 		    if (dbg)
@@ -660,16 +669,19 @@ int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
 		/* extract the second word */
 		if (path->pset[path->num].eval == P_DEL){
 		    /* skip the the second element */
-		    if (*(++p1) != ',' && *p1 != '\0'){
+		    if (*p1 == '\0' || (*(++p1) != ',' && *p1 != '\0')){
 			msg = rsprintf("Word parse error, at %s",token);
 			goto FAIL;
 		    }
 		} else {
-		    if (*(p1+1) != '"') {
+		    if (*p1 == '\0' || *(p1+1) != '"') {
+			msg = rsprintf("Word parse error, at %s",token);
+			goto FAIL;
+		    }
+		    if ((p2 = TEXT_strchr(p1+2,'"')) == NULL) {
 			msg = rsprintf("Word parse error, at %s",token);
 			goto FAIL;
 		    }
-		    p2 = TEXT_strchr(p1+2,'"');
 		    wd2->value = TEXT_strBdup(p1+2,p2 - (p1+2));
 		    p1 = p2+1;
 		    if (dbg) fprintf(scfp,"%s: second word '%s'\n",
@@ -686,6 +698,7 @@ int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
 			if (aux_val == num_word_aux){
 			    fprintf(scfp,"Warning: More auxiliary word values "
 				    "than defined\n");
+			    break;
 			}
 			/* handle the auxilliary values */
 			if ((p2 = TEXT_strchr(p1+1,',')) == NULL)
@@ -701,6 +714,7 @@ int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
 				    if ((p3 = TEXT_strchr(p1,'+'))==NULL){
 					msg = rsprintf("Illegal auxiliary time"
 						   " format '%s'",p1);
+					goto FAIL;
 				    }
 				    *p3 = '\0';
 				    ((WORD *)path->pset[path->num].a_ptr)->T1 =
@@ -715,6 +729,7 @@ int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
 				    if ((p3 = TEXT_strchr(p1,'+'))==NULL){
 					msg = rsprintf("Illegal auxiliary time"
 						   " format '%s'",p1);
+					goto FAIL;
 				    }
 				    *p3 = '\0';
 				    ((WORD *)path->pset[path->num].b_ptr)->T1 =
diff --git a/src/sclite/sgml.c b/src/sclite/sgml.c
index c998858..981c216 100644
--- a/src/sclite/sgml.c
+++ b/src/sclite/sgml.c
@@ -71,6 +71,7 @@ int add_SGML_tag(SGML *sg, TEXT *str)
     while (*b != '\0'){
 	b += TEXT_strspn(b,(TEXT *)" \t\n");
 	if ((l = TEXT_strcspn(b,(TEXT *)"=\n")) == 0) return (0);
+	if (b[l] == '\0' || *ac >= MAX_ATTRIB) return (0);
 	sg->tags[sg->num_tags].attrib_name[*ac] = TEXT_strBdup(b,l);
 	b += l+1;
 	if (*(b++) != '"') return(0);
-- 
2.43.0


From f18f1d901c479847eaaba9d04bd666ae9280d93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:32 +0000
Subject: [PATCH 040/122] fix: an unterminated ctm alternation does not read
 beyond the words of its channel

---
 src/sclite/stm2ctm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sclite/stm2ctm.c b/src/sclite/stm2ctm.c
index fcf9c3a..30be7cc 100644
--- a/src/sclite/stm2ctm.c
+++ b/src/sclite/stm2ctm.c
@@ -329,11 +329,11 @@ void segment_hyp_for_utt(WTOKE_STR1 *hyp_segs, STM *stm, int *curhyp, int *curhe
 		if (! hyp_segs->word[*curhend+1].alternate) 
 		    (*curhend)++;
 		else {
-		    while (*curhend <= h_end &&
+		    while (*curhend+1 <= h_end &&
 			   TEXT_strcasecmp((TEXT *)"<ALT_END>",
 					   hyp_segs->word[*curhend+1].sp) != 0)
 			(*curhend)++;
-		    if (*curhend <= h_end) (*curhend)++;
+		    if (*curhend+1 <= h_end) (*curhend)++;
 		}
 	    }
 	}
-- 
2.43.0


From 748212f084adc2fb4852fe40cf1ca8d4ada21ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:32 +0000
Subject: [PATCH 041/122] fix: diff alignment reports a hyp or ref file that
 ends before the other one

---
 src/sclite/align.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index d18e452..c55f5b7 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -1244,6 +1244,11 @@ SCORES *align_ctm_to_stm_diff(char *ref_file, char *hyp_file, char *set_title, i
 		r_st = ref_end_chan1+1;   r_end = ref_end_chan2;
 	    }
 
+	    if (h_st > hyp_segs->n || r_st >= stm->num){
+		fprintf(stderr,"%s: %s file ends before the other one\n",proc,
+			(h_st > hyp_segs->n) ? "hyp" : "ref");
+		return((SCORES *)0);
+	    }
 	    if (strcmp(hyp_segs->word[h_st].conv,
 		       (char *)stm->seg[r_st].file) != 0){
 		fprintf(stderr,"%s: File identifiers do not match,\nhyp ",proc);
-- 
2.43.0


From 5a40273edab9db88bd61c0a6311abff5c0f64393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:25 +0000
Subject: [PATCH 042/122] fix: reports with columns wider than 300 characters
 do not overrun the formatting buffers

---
 src/sclite/rpg.c | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/sclite/rpg.c b/src/sclite/rpg.c
index e987703..39d136b 100644
--- a/src/sclite/rpg.c
+++ b/src/sclite/rpg.c
@@ -311,9 +311,18 @@ int Desc_set_justification(char *just_str)
     return(j);       
 }
 
+static void copy_value(char *to, char *from)
+{
+    if (strlen(from) >= MAX_VALUE_LEN){
+	fprintf(stderr,"Error: report value longer than %d characters\n",MAX_VALUE_LEN-1);
+	exit(1);
+    }
+    strcpy(to,from);
+}
+
 char *get_next_string_value(char **str, int width)
 {
-    static char buf[300];
+    static char buf[MAX_VALUE_LEN];
     char *p;
     int x=0;
 
@@ -344,14 +353,12 @@ void print_spaces(int n, FILE *fp)
 	fprintf(fp," ");
 }
 
-#define SPACES_LEN   300
 void Desc_dump_report(int space_pad, FILE *fp)
 {
     int c, r, x, text_width, c2, j;
     int *hit, column_width;
     char *p;
-    char fmt_str1[1000]; 
-    char *spaces="                                                                                                                                                                                                                                                                                                            ";
+    int left_pad, right_pad;
     char **desc_column_ptr;
     int *desc_column_size;
     int *desc_column_text_size;
@@ -657,33 +664,28 @@ void Desc_dump_report(int space_pad, FILE *fp)
 	    for (c=0 ; c< current_num_col; c++){
 		column_width=desc_column_size[c];
 		text_width=desc_column_text_size[c];
+		left_pad=(column_width-text_width)/2;
+		right_pad=column_width-text_width-left_pad;
 		if (rpgstr->col_defs[current_just].col_just[c] != 'a'){
 		    switch (rpgstr->col_defs[current_just].col_just[c]){
 		      case 'c':
 		      case 'C':
-			*fmt_str1='\0';
-			sprintf(fmt_str1,"%s%%%ds%s", spaces+SPACES_LEN-((column_width-text_width)/2),text_width,
-				spaces+SPACES_LEN-(column_width-text_width - ((column_width-text_width)/2)));
-			fprintf(fp,fmt_str1,
-				center(get_next_string_value(&(desc_column_ptr[c]),text_width),text_width));
+			fprintf(fp,"%*s%*s%*s",left_pad,"",text_width,
+				center(get_next_string_value(&(desc_column_ptr[c]),text_width),text_width),right_pad,"");
 			if (*desc_column_ptr[c] != '\0')
 			    row_not_done = 1;
 			break;
 		      case 'r':
 		      case 'R':
-			*fmt_str1='\0';
-			sprintf(fmt_str1,"%s%%%ds%s",spaces+SPACES_LEN-((column_width-text_width)/2),text_width,
-				spaces+SPACES_LEN-(column_width-text_width - ((column_width-text_width)/2)));
-			fprintf(fp,fmt_str1,get_next_string_value(&(desc_column_ptr[c]),text_width));
+			fprintf(fp,"%*s%*s%*s",left_pad,"",text_width,
+				get_next_string_value(&(desc_column_ptr[c]),text_width),right_pad,"");
 			if (*desc_column_ptr[c] != '\0')
 			    row_not_done = 1;
 			break;
 		      case 'l':
 		      case 'L':
-			*fmt_str1='\0';
-			sprintf(fmt_str1,"%s%%-%ds%s",spaces+SPACES_LEN-((column_width-text_width)/2),text_width,
-				spaces+SPACES_LEN-(column_width-text_width - ((column_width-text_width)/2)));
-			fprintf(fp,fmt_str1,get_next_string_value(&(desc_column_ptr[c]),text_width));
+			fprintf(fp,"%*s%-*s%*s",left_pad,"",text_width,
+				get_next_string_value(&(desc_column_ptr[c]),text_width),right_pad,"");
 			if (*desc_column_ptr[c] != '\0')
 			    row_not_done = 1;
 			break;
@@ -910,7 +912,7 @@ void Desc_set_iterated_value(char *str)
       exit(1);
     }
    
-    strcpy(ival[iter_num_val++],str);
+    copy_value(ival[iter_num_val++],str);
 }
 
 void Desc_flush_iterated_row(void)
@@ -976,7 +978,7 @@ va_dcl
     for (col=0; col<rpgstr->col_defs[rpgstr->row_just[rpgstr->tot_num_row]].num_col; col++){
 	if (rpgstr->col_defs[rpgstr->row_just[rpgstr->tot_num_row]].col_just[col] != 'a'){
 	    str = va_arg(args, char *);
-	    strcpy(rpgstr->cell_values[col][rpgstr->tot_num_row],str);
+	    copy_value(rpgstr->cell_values[col][rpgstr->tot_num_row],str);
 	    if (static_parse_dbg) printf("    value %d %s\n",col,str);
 	}
     }
-- 
2.43.0


From bbabb0a133a1e95de3a58d02b62e84277584d2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:25 +0000
Subject: [PATCH 043/122] fix: an unbalanced quote in the headings of a
 word-weight file ends the headings

---
 src/sclite/wwscr_f.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sclite/wwscr_f.c b/src/sclite/wwscr_f.c
index eadaf32..3bb2174 100644
--- a/src/sclite/wwscr_f.c
+++ b/src/sclite/wwscr_f.c
@@ -420,7 +420,8 @@ int load_WWL(WWL **wwl, TEXT *filename)
 			  e-p +1,TEXT,'\0');
 	      TEXT_strBcpy(twwl->weight_desc[twwl->num_w],p+1,e-p-1);
 	      twwl->num_w ++;
-	    }
+	    } else
+	      break;
 	    p = e + 1;
 	  }
 	} else if ((p = TEXT_strstr(buff,(TEXT *)"Default missing weight"))!=(TEXT *)NULL){
-- 
2.43.0


From 83e3363ee3727256a65c5191b6588a87e81e6213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:25 +0000
Subject: [PATCH 044/122] fix: no read before the buffer for a line that starts
 with a NUL byte

---
 src/sclite/text.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/text.c b/src/sclite/text.c
index af34db0..d2387d1 100644
--- a/src/sclite/text.c
+++ b/src/sclite/text.c
@@ -1239,7 +1239,7 @@ TEXT *TEXT_ensure_fgets(TEXT **arr, int *len, FILE *fp){
 	return(NULL);
     tc = *arr;
     tc = TEXT_strlen(*arr) + *arr;
-    while (*(tc-1) != '\n'){
+    while (tc == *arr || *(tc-1) != '\n'){
 	if ((tc - *arr) < *len-1)
 	    return(*arr);
 	/* Alloc some data, and re-read */
-- 
2.43.0


From 70b28fa84418bc92f7ab41db9ec05cda0b2a0f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:01 +0000
Subject: [PATCH 045/122] fix: rsprintf reports a message that does not fit its
 buffer instead of overrunning it

---
 src/sclite/rsprintf.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sclite/rsprintf.c b/src/sclite/rsprintf.c
index b13bca9..6402c03 100644
--- a/src/sclite/rsprintf.c
+++ b/src/sclite/rsprintf.c
@@ -27,8 +27,7 @@ va_dcl
     format = va_arg(args,char *);
 #endif
     /*    printf("rsprintf:  format: %s\n",format); */
-    vsprintf(static_message_buffer,format,args);
-    if (strlen(static_message_buffer) > 10000){
+    if (vsnprintf(static_message_buffer,sizeof(static_message_buffer),format,args) >= (int)sizeof(static_message_buffer)){
       fprintf(stderr,"Error: rsprintf's internal buffer is too small.  increase the size\n");
       exit (1);
     }
-- 
2.43.0


From 6db1415feadea77a220bd25d89882eec47d12527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:01 +0000
Subject: [PATCH 046/122] fix: headings of a word-weight file beyond the
 supported number are ignored

---
 src/sclite/wwscr_f.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/wwscr_f.c b/src/sclite/wwscr_f.c
index 3bb2174..5d433f0 100644
--- a/src/sclite/wwscr_f.c
+++ b/src/sclite/wwscr_f.c
@@ -414,7 +414,7 @@ int load_WWL(WWL **wwl, TEXT *filename)
 	  }
 	  p += strlen("'Word Spelling'");
 	  /* parse out the description field */
-	  while ((p = TEXT_strchr(p,'\'')) != NULL){
+	  while (twwl->num_w < MAX_W && (p = TEXT_strchr(p,'\'')) != NULL){
 	    if ((e = TEXT_strchr(p+1,'\'')) != NULL){
 	      alloc_singZ(twwl->weight_desc[twwl->num_w],
 			  e-p +1,TEXT,'\0');
-- 
2.43.0


From 4cd1b28a349b74c3b4bd03bd344fefab7134d3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:01 +0000
Subject: [PATCH 047/122] fix: node names of deeply nested alternations do not
 overrun a fixed buffer

---
 src/sclite/net_adt.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sclite/net_adt.c b/src/sclite/net_adt.c
index b2586f9..edae1a6 100644
--- a/src/sclite/net_adt.c
+++ b/src/sclite/net_adt.c
@@ -944,11 +944,10 @@ int NETWORK_insert_arc_between_node(NETWORK *net, NODE *from_node, NODE *to_node
 }
 
 static void change_node_name(NODE *node, void *ptr){
-    char *t, buff[40];
+    char *t;
     if (node != NULL){
 	t = node->name;
-	sprintf(buff,"%s%s",(char *)ptr,t);
-	node->name = (char *)TEXT_strdup((TEXT *)buff);
+	node->name = (char *)TEXT_add((TEXT *)ptr,(TEXT *)t);
 	free(t);
     }    
 }
-- 
2.43.0


From 8f4649008e81f6969d139682bbd11fd966b5455b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:01 +0000
Subject: [PATCH 048/122] fix: an unterminated or empty ctm alternation is
 reported

---
 src/sclite/net_adt.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/sclite/net_adt.c b/src/sclite/net_adt.c
index edae1a6..6da037f 100644
--- a/src/sclite/net_adt.c
+++ b/src/sclite/net_adt.c
@@ -676,6 +676,17 @@ NETWORK *Network_create_from_WTOKE(WTOKE_STR1 *wt,int start,int end, char *name,
 	    NETWORK *alt_net, *alt_net_out=NULL_NETWORK;
 	    int first_alt=1, acnt;
 
+	    /* the alternation must be complete */
+	    for (acnt=i; (acnt<=wt->n) && (acnt<=end) &&
+		 (TEXT_strcasecmp((TEXT*)"<ALT_END>",wt->word[acnt].sp) != 0);
+		 acnt++)
+		;
+	    if ((acnt > wt->n) || (acnt > end) || (acnt == i) ||
+		(TEXT_strcasecmp((TEXT*)"<ALT_BEGIN>",wt->word[acnt-1].sp) == 0)){
+		fprintf(stderr,"Error: unterminated or empty alternation in the ctm data\n");
+		return(NULL_NETWORK);
+	    }
+
 	    /* skip the ALT_BEGIN */
 	    for (; (i<=wt->n) && (i<=end) &&
 		 (TEXT_strcasecmp((TEXT*)"<ALT_BEGIN>",wt->word[i].sp) == 0);
-- 
2.43.0


From f1d0f57ef1ad0dd69ab1e67b49519e9fbf7fc51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:56 +0000
Subject: [PATCH 049/122] fix: labels without the closing bracket are not read
 beyond their end

---
 src/sclite/lur.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sclite/lur.c b/src/sclite/lur.c
index 99184ab..11c7cbb 100644
--- a/src/sclite/lur.c
+++ b/src/sclite/lur.c
@@ -94,7 +94,8 @@ static void compute_label_scores(SCORES *sc,int scnum, LABEL *lab){
 			  lab->lsc[scnum][id][i].nref += c + d + s;
 			  lab->lsc[scnum][id][i].nerr += n + d + s;
 		        }
-		        cp += ind+1;
+		        cp += ind;
+			if (*cp != '\0') cp++;
 		    } else
 		        cp ++;
 		    sets ++;
-- 
2.43.0


From f8bda9f90abad62f918944633ae2001c42a4177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:35 +0000
Subject: [PATCH 050/122] fix: fragment comparison of an empty word reads
 nothing before it

---
 src/sclite/word.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sclite/word.c b/src/sclite/word.c
index 74bc104..06545cc 100644
--- a/src/sclite/word.c
+++ b/src/sclite/word.c
@@ -392,7 +392,7 @@ int equal_WORD2(void *p1, void *p2){
 	  return(1);
 	else
 	  return(TEXT_strBcmp(it1 + 1,it2 + (l2 - (l1-1)),l1-1));
-      else if (*(it1 + l1 - 1) == '-'  && l1 > 1)
+      else if (l1 > 1 && *(it1 + l1 - 1) == '-')
 	return(TEXT_strBcmp(it1,it2,l1-1));
       
       if (*(it2) == '-' && l2 > 1) 
@@ -400,7 +400,7 @@ int equal_WORD2(void *p1, void *p2){
 	  return(-1);
 	else
 	  return(TEXT_strBcmp(it1 + (l1 - (l2-1)),it2 + 1,l2-1));
-      else if (*(it2 + l2 - 1) == '-' && l2 > 1)
+      else if (l2 > 1 && *(it2 + l2 - 1) == '-')
 	return(TEXT_strBcmp(it1,it2,l2-1));
     }
     return(TEXT_strcmp(it1,it2));
-- 
2.43.0


From 220a50e0dd0d6cbaf1186e27ca024b13beb942e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:35 +0000
Subject: [PATCH 051/122] fix: the case conversion buffer grows until the next
 character fits

---
 src/sclite/text.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/text.c b/src/sclite/text.c
index d2387d1..2eda1ff 100644
--- a/src/sclite/text.c
+++ b/src/sclite/text.c
@@ -1160,7 +1160,7 @@ TEXT *TEXT_str_to_master(TEXT *bufTEXT, int toLow){
 
         // hptr is the converted char
         c2 = TEXT_nbytes_of_char(hptr);
-        if (TEXT_strlen(STATIC_CASECONVTEXT) + c2 + 1> STATIC_CASECONVTEXT_SIZE){
+        while (TEXT_strlen(STATIC_CASECONVTEXT) + c2 + 1> STATIC_CASECONVTEXT_SIZE){
           expand_singarr(STATIC_CASECONVTEXT, STATIC_CASECONVTEXT_SIZE, STATIC_CASECONVTEXT_SIZE, 1.5, TEXT);
           //printf("Expanded Now %d with %s\n",STATIC_CASECONVTEXT_SIZE, STATIC_CASECONVTEXT);
           outP = (TEXT *)STATIC_CASECONVTEXT + TEXT_strlen(STATIC_CASECONVTEXT);
-- 
2.43.0


From 237d7f769e3c543c49a7e4d8220a8a98c6b8322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:35 +0000
Subject: [PATCH 052/122] fix: a multi-byte character cut by the end of the
 text is reported

---
 src/sclite/text.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sclite/text.c b/src/sclite/text.c
index 2eda1ff..e530a66 100644
--- a/src/sclite/text.c
+++ b/src/sclite/text.c
@@ -459,7 +459,7 @@ int TEXT_set_compare_normalization(char *normalization){
 
 // tested
 // Return the number of bytes consumed be the first char at the pointer
-int TEXT_nbytes_of_char(TEXT *p){
+static int TEXT_lead_nbytes(TEXT *p){
     if (STATIC_ENCODING == ASCII || STATIC_ENCODING == EXTASCII){
         return 1;
     } else {
@@ -489,6 +489,16 @@ int TEXT_nbytes_of_char(TEXT *p){
     fprintf(stderr, "Error: Internal Error for TEXT_nbytes_of_char\n");
     exit(1);    
 }
+
+int TEXT_nbytes_of_char(TEXT *p){
+    int i, n = TEXT_lead_nbytes(p);
+    for (i=1; i<n; i++)
+        if (end_of_TEXT(p[i])){
+            fprintf(stderr, "Error: multi-byte character cut by the end of the text '%s'\n", p);
+            exit(1);
+        }
+    return n;
+}
    
 // tested                                                                                     
 void TEXT_delete_chars(TEXT *arr, TEXT *set){ 
-- 
2.43.0


From 5d98a06c1e502ad4b15266503acc8797e26cee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:35 +0000
Subject: [PATCH 053/122] fix: aligning two ctm files without words is reported
 instead of reading a missing word

---
 src/sclite/ctm2ctm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sclite/ctm2ctm.c b/src/sclite/ctm2ctm.c
index 3db2095..162129a 100644
--- a/src/sclite/ctm2ctm.c
+++ b/src/sclite/ctm2ctm.c
@@ -77,6 +77,12 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 	  exit(1);
 	}
 	
+	if ((hyp->n < hyp->s) && (ref->n < ref->s)) {
+	  fprintf(stderr,"Error: no words in hyp file '%s' and ref file '%s'\n",
+		  hyp_file,ref_file);
+	  exit(1);
+	}
+	
 	locate_boundary(ref, ref->s, TRUE, FALSE, &ref_conv_end);
 	locate_boundary(hyp, hyp->s, TRUE, FALSE, &hyp_conv_end);
 
-- 
2.43.0


From 849d394dbb7c1b4db4488b5f53213eb87eb5f2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:35 +0000
Subject: [PATCH 054/122] fix: a word without characters to align is kept as a
 word

---
 src/sclite/align.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index c55f5b7..4d27da6 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -711,7 +711,8 @@ void expand_words_to_chars(ARC *arc, void *ptr){
 //    printf("   and escaped /%s/\n", charsEsc);
     
     /* Fix, it wasn't enough check to see if the there were any spaces */
-    if (TEXT_strcmp(chars,tw->value) != 0){
+    /* A word without any character left is aligned as it is */
+    if (*chars != NULL_TEXT && TEXT_strcmp(chars,tw->value) != 0){
 	subnet = Network_create_from_TEXT(charsEsc, buf, arc->net->arc_func.print,
 					  arc->net->arc_func.equal,
 					  arc->net->arc_func.destroy,
-- 
2.43.0


From 0be7235fa9185ea1b94d86faacc333435d91eb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:35 +0000
Subject: [PATCH 055/122] fix: the DET curve of each system is made of its own
 words, and of few, none or 10000 words without overrun

---
 src/sclite/det.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sclite/det.c b/src/sclite/det.c
index d31515c..d9b5eeb 100644
--- a/src/sclite/det.c
+++ b/src/sclite/det.c
@@ -69,6 +69,7 @@ int make_SCORES_DET_curve(SCORES *scor[], int nscor, char *outroot, int feedback
 
     /* biuld the target and non-target arrays */
     for (s=0; s<nscor; s++){
+      n_targ = n_non_targ = 0;
       alloc_singZ(targ,max_targ,double,0.0);
       alloc_singZ(non_targ,max_non_targ,double,0.0);
 
@@ -79,12 +80,12 @@ int make_SCORES_DET_curve(SCORES *scor[], int nscor, char *outroot, int feedback
 	    for (w=0; w<pp->num; w++) {
 	        if (pp->pset[w].eval == P_CORR &&
 		    *(((WORD*)pp->pset[w].b_ptr)->value) != (TEXT)'\0'){
-		    if (n_targ >= max_targ) 
+		    if (n_targ + 1 >= max_targ) 
 		        expand_singarr(targ,n_targ,max_targ,2,double);
 		    targ[n_targ++] = ((WORD *)(pp->pset[w].b_ptr))->conf;
 		} else if (pp->pset[w].eval == P_SUB || 
 			   pp->pset[w].eval == P_INS){
-		    if (n_non_targ >= max_non_targ) 
+		    if (n_non_targ + 1 >= max_non_targ) 
 		        expand_singarr(non_targ,n_non_targ,
 				       max_non_targ,2,double);
 		    non_targ[n_non_targ++] =
@@ -95,7 +96,7 @@ int make_SCORES_DET_curve(SCORES *scor[], int nscor, char *outroot, int feedback
       }
       
       /* allocate the DET table */
-      alloc_2dimZ(det,(n_targ+n_non_targ),2,double,0.0);
+      alloc_2dimZ(det,(n_targ+n_non_targ+1),2,double,0.0);
       /* calculate the DET Curve */
       Compute_ROC (targ, n_targ, non_targ, n_non_targ, det);
 
@@ -115,7 +116,7 @@ int make_SCORES_DET_curve(SCORES *scor[], int nscor, char *outroot, int feedback
       if (s < nscor-1) fprintf(fpd,", \\");
       fprintf(fpd,"\n");
 
-      if (det != (double**)0) free_2dimarr(det,(n_targ+n_non_targ),double);
+      if (det != (double**)0) free_2dimarr(det,(n_targ+n_non_targ+1),double);
       if (targ != (double *)0)     free_singarr(targ,double);
       if (non_targ != (double *)0) free_singarr(non_targ,double);
     }
@@ -135,7 +136,7 @@ int make_SCORES_DET_curve(SCORES *scor[], int nscor, char *outroot, int feedback
   END:
     if (targ != (double *)0)     free_singarr(targ,double);
     if (non_targ != (double *)0) free_singarr(non_targ,double);
-    if (det != (double**)0)      free_2dimarr(det,(n_targ+n_non_targ),double);
+    if (det != (double**)0)      free_2dimarr(det,(n_targ+n_non_targ+1),double);
     return(rtn);
 }
 
-- 
2.43.0


From ee3535a7a8d6d1ba8f1769b2e44d4d47789bdecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:54 +0000
Subject: [PATCH 056/122] fix: rover and alignments of ctm files without any
 words end

---
 src/sclite/mfa.c   | 8 ++++----
 src/sclite/rover.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sclite/mfa.c b/src/sclite/mfa.c
index dc82873..056b202 100644
--- a/src/sclite/mfa.c
+++ b/src/sclite/mfa.c
@@ -76,13 +76,13 @@ void mfalign_ctm_files(char **hypname, int nhyps, int time_align, int case_sense
 	    Network_destroy(mfnet);
 
 	    /* skip over this chunk because we're done with it. */
-	    done = 1;
-	    for (in=0; in < nhyps; in++){
+	    for (in=0; in < nhyps; in++)
 		ctms[in]->s = sil_end[in] + 
 		    ((sil_end[in] <= conv_end[in]) ? 1 : 0);
-		if (!eofs[in] || (ctms[in]->s <= ctms[in]->n)) done = 0;
-	    }
 	}
+	done = 1;
+	for (in=0; in < nhyps; in++)
+	    if (!eofs[in] || (ctms[in]->s <= ctms[in]->n)) done = 0;
     }
     if (glob_ties > 0)
 	fprintf(stderr,"Warning: %d ties were arbitrarily broken\n",glob_ties);
diff --git a/src/sclite/rover.c b/src/sclite/rover.c
index b6045b9..6873ecb 100644
--- a/src/sclite/rover.c
+++ b/src/sclite/rover.c
@@ -179,13 +179,13 @@ void mfalign_ctm_files_v1(char **hypname, int nhyps, int time_align, int case_se
 	    Network_destroy(mfnet);
 
 	    /* skip over this chunk because we're done with it. */
-	    done = 1;
-	    for (in=0; in < nhyps; in++){
+	    for (in=0; in < nhyps; in++)
 		ctms[in]->s = sil_end[in] + 
 		    ((sil_end[in] <= conv_end[in]) ? 1 : 0);
-		if (!eofs[in] || (ctms[in]->s <= ctms[in]->n)) done = 0;
-	    }
 	}
+	done = 1;
+	for (in=0; in < nhyps; in++)
+	    if (!eofs[in] || (ctms[in]->s <= ctms[in]->n)) done = 0;
     }
 #ifdef mmm
     if (glob_ties > 0)
-- 
2.43.0


From 4c9f9f24c3b6810eaaa221d8f11af72ea19e8036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:58 +0000
Subject: [PATCH 057/122] fix: diff alignment checks that segments are left
 before naming their file

---
 src/sclite/align.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 4d27da6..1a4fe1d 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -1179,6 +1179,12 @@ SCORES *align_ctm_to_stm_diff(char *ref_file, char *hyp_file, char *set_title, i
 		just_read = 0;
         } while (just_read);
 
+	if (hyp_segs->s > hyp_segs->n || stm->s >= stm->num){
+	    fprintf(stderr,"%s: %s file ends before the other one\n",proc,
+		    (hyp_segs->s > hyp_segs->n) ? "hyp" : "ref");
+	    return((SCORES *)0);
+	}
+
 	/* find the end of the second channel for the hyp file */
 	locate_WTOKE_boundary(hyp_segs, hyp_segs->s, 1, 1, &hyp_end_chan1);
 	if (hyp_end_chan1+1 <= hyp_segs->n &&
-- 
2.43.0


From 66d9c4c4df5a5dff0304fe5eb09c783ae28902dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:26 +0000
Subject: [PATCH 058/122] fix: the alignment workspace is released only when
 there is one

---
 src/sclite/net_dp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sclite/net_dp.c b/src/sclite/net_dp.c
index 09cf40f..b8328ec 100644
--- a/src/sclite/net_dp.c
+++ b/src/sclite/net_dp.c
@@ -800,6 +800,9 @@ static void destroy_NET_ALIGN(NET_ALIGN **net_ali){
 
     if (db >= 1) printf("Entering %s:\n",proc);
 
+    /* nothing was aligned */
+    if (*net_ali == (NET_ALIGN *)0) return;
+
     /* free the cell array */
     free_2dimarr((*net_ali)->cell,(*net_ali)->arcset_a.max,CELL);
 
-- 
2.43.0


From 29e49d89ddc83363246924679542af06fe816973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:42 +0000
Subject: [PATCH 059/122] fix: the normal approximation of the binomial uses
 the number of events, with continuity correction

---
 src/sclite/statdist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/statdist.c b/src/sclite/statdist.c
index a780315..e10cab3 100644
--- a/src/sclite/statdist.c
+++ b/src/sclite/statdist.c
@@ -791,7 +791,7 @@ double compute_acc_binomial(int R, int n, double p)
       double mean, stdev, zstat, flip;
       mean = n*p;
       stdev = sqrt(n*p*(1.0-p));
-      flip = (double)R * 0.5;
+      flip = (double)R + 0.5;
       zstat = (flip - mean) / stdev;
       sum = normprob((double)fabs(zstat));
       if (zstat < 0.0)  sum = 1.0 - sum;
-- 
2.43.0


From 8077a8aa420dfdcf059c2cc3acaa576dd1e45801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:02 +0000
Subject: [PATCH 060/122] fix: the ties adjustment of the analysis of variance
 counts the ties of all speakers

---
 src/sclite/anovar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/anovar.c b/src/sclite/anovar.c
index f7f384d..18244bb 100644
--- a/src/sclite/anovar.c
+++ b/src/sclite/anovar.c
@@ -329,7 +329,7 @@ static double calc_adjust_for_blks(RANK *rank)
             sort_arr[sort_num] = Vrnk_b_rank(rank,j,i);
             sort_count[sort_num]++;
 	}
-        for (j=0;j<rnk_trt(rank); j++)
+        for (j=0;j<rnk_blks(rank); j++)
             if (sort_count[j] > 0)
                 sum_T += (sort_count[j] * sort_count[j] * sort_count[j])
                            - sort_count[j];
-- 
2.43.0


From a7e1350f37daa0bd32c797d6f0c9d11bbb3aeefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:23 +0000
Subject: [PATCH 061/122] fix: detailed sign and Wilcoxon test reports do not
 overrun their title buffer

---
 src/sclite/signtest.c |  9 +++------
 src/sclite/wilcoxon.c | 10 ++++------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/sclite/signtest.c b/src/sclite/signtest.c
index 7d01e07..00addf8 100644
--- a/src/sclite/signtest.c
+++ b/src/sclite/signtest.c
@@ -189,12 +189,9 @@ int compute_signtest_for_treatment(RANK *rank, int treat1, int treat2, char *blo
         fprintf(fp,pct_format,sum_trt2 /rank->n_blk );
         fprintf(fp,"\n\n");
 
-        sprintf((char *)title_line,"No. Speakers with Positive %s Differences = N(+) = %2d",formula_str,sum_plus);
-        fprintf(fp,"%s\n",center((char *)title_line,paper_width));
-        sprintf((char *)title_line,"No. Speakers with Negative %s Differences = N(-) = %2d",formula_str,sum_minus);
-        fprintf(fp,"%s\n",center((char *)title_line,paper_width));
-        sprintf((char *)title_line,"No. Speakers with No %s Differences = N(0) = %2d",formula_str,sum_equal);
-        fprintf(fp,"%s\n",center((char *)title_line,paper_width));
+        fprintf(fp,"%s\n",center(rsprintf("No. Speakers with Positive %s Differences = N(+) = %2d",formula_str,sum_plus),paper_width));
+        fprintf(fp,"%s\n",center(rsprintf("No. Speakers with Negative %s Differences = N(-) = %2d",formula_str,sum_minus),paper_width));
+        fprintf(fp,"%s\n",center(rsprintf("No. Speakers with No %s Differences = N(0) = %2d",formula_str,sum_equal),paper_width));
         fprintf(fp,"\n\n");
     }
 
diff --git a/src/sclite/wilcoxon.c b/src/sclite/wilcoxon.c
index ba552d0..504e296 100644
--- a/src/sclite/wilcoxon.c
+++ b/src/sclite/wilcoxon.c
@@ -211,12 +211,10 @@ int compute_wilcoxon_for_treatment(RANK *rank, int treat1, int treat2, char *blo
 	fprintf(fp,"%6.2f",sum_trt_diff /rank->n_blk );
         fprintf(fp,"\n\n");
 
-        sprintf((char *)title_line,"Sum of %2d positive ranks = %4.1f",
-		sum_plus,sum_plus_rank);
-        fprintf(fp,"%s\n",center((char *)title_line,paper_width));
-        sprintf((char *)title_line,"Sum of %2d negative ranks = %4.1f",
-		sum_minus,sum_minus_rank);
-        fprintf(fp,"%s\n",center((char *)title_line,paper_width));
+        fprintf(fp,"%s\n",center(rsprintf("Sum of %2d positive ranks = %4.1f",
+		sum_plus,sum_plus_rank),paper_width));
+        fprintf(fp,"%s\n",center(rsprintf("Sum of %2d negative ranks = %4.1f",
+		sum_minus,sum_minus_rank),paper_width));
         fprintf(fp,"\n\n");
     }
     
-- 
2.43.0


From 05f56603ec70ec63c360fd745dd90a408edddc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:23 +0000
Subject: [PATCH 062/122] fix: the sign and Wilcoxon tests name the system
 their own statistic favours

---
 src/sclite/signtest.c | 6 +++---
 src/sclite/wilcoxon.c | 7 ++-----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/sclite/signtest.c b/src/sclite/signtest.c
index 00addf8..d9aff55 100644
--- a/src/sclite/signtest.c
+++ b/src/sclite/signtest.c
@@ -284,7 +284,7 @@ int sign_test_analysis(int num_a, int num_b, int num_z, char *str_a, char *str_b
         if (test_stat < alpha){            
             fprintf(fp,"is REJECTED\n");
             fprintf(fp,"        in favor of the Alternate Hypothesis.  Further, %s is the\n",
-                   (zero_is_best) ? treat2_str : treat1_str);
+                   (zero_is_best == (num_a > num_b)) ? treat2_str : treat1_str);
             fprintf(fp,"        better System.\n");
         } else{
             fprintf(fp,"is ACCEPTED\n");
@@ -293,8 +293,8 @@ int sign_test_analysis(int num_a, int num_b, int num_z, char *str_a, char *str_b
         form_feed(fp);
     }
     if (test_stat < alpha){
-        if (0) fprintf(fp,"Returning Result %d\n",TEST_DIFF * ((zero_is_best) ? 1 : -1));
-        return(TEST_DIFF * ((zero_is_best) ? 1 : -1));
+        if (0) fprintf(fp,"Returning Result %d\n",TEST_DIFF * ((zero_is_best == (num_a > num_b)) ? 1 : -1));
+        return(TEST_DIFF * ((zero_is_best == (num_a > num_b)) ? 1 : -1));
       }
     return(NO_DIFF);
 }
diff --git a/src/sclite/wilcoxon.c b/src/sclite/wilcoxon.c
index 504e296..5c41a81 100644
--- a/src/sclite/wilcoxon.c
+++ b/src/sclite/wilcoxon.c
@@ -258,12 +258,9 @@ static int wilcoxon_test_analysis(int num_a, int num_b, double sum_a, double sum
     { double W, E;
       double var;
       int n;
-      if (num_a < num_b)
-          W = sum_a; 
-      else
-          W = sum_b; 
+      W = MIN(sum_a,sum_b);
       n = num_a + num_b;
-      better = (num_a < num_b) ? 'b' : 'a';
+      better = (sum_a < sum_b) ? 'b' : 'a';
       if (zero_is_best)  /* make an adjustment for direction of PCTS*/
           better = (better == 'a') ? 'b' : 'a';
       E = ((double)n * (double)(n+1) / 4.0);
-- 
2.43.0


From 96f2019bc04039790968432c502b19762e19e593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:54 +0000
Subject: [PATCH 063/122] fix: the rank-based tests pair the speakers of the
 systems by name, not by position

---
 src/sclite/rank.c | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/sclite/rank.c b/src/sclite/rank.c
index 9773ee0..331c882 100644
--- a/src/sclite/rank.c
+++ b/src/sclite/rank.c
@@ -12,19 +12,30 @@
 
 #include "sctk.h"
 
+/* the index of the block called 'name', the number of blocks if there is none */
+static int find_block(char **blk_name, int n_blk, char *name)
+{
+    int b;
+
+    for (b=0; b<n_blk; b++)
+	if (strcmp(blk_name[b],name) == 0)
+	    break;
+    return(b);
+}
+
 /**********************************************************************/
 /*   initialize and allocate memory for the RANK structure from the   */
 /*   SYS_ALIGN_LIST                                                   */
 /**********************************************************************/
 void init_RANK_struct_from_SCORES(RANK *rank, SCORES *scor[], int nscor, char *calc_formula)
 {
-    int blk=0,trt,i,n,mlen=0,msclen=0,g;
+    int blk=0,trt,i,n,mlen=0,msclen=0,g,b;
     int c,s,d;
+    char **spkr;
 
     /* set it to the max number of speakers for all systems */
     for (n=0; n<nscor; n++){
-	if (blk < scor[n]->num_grp)
-	    blk = scor[n]->num_grp;
+	blk += scor[n]->num_grp;
 	if (msclen < strlen(scor[n]->title))
 		msclen = strlen(scor[n]->title);
 	for (g=0; g<scor[n]->num_grp; g++)
@@ -33,20 +44,25 @@ void init_RANK_struct_from_SCORES(RANK *rank, SCORES *scor[], int nscor, char *c
     }
     trt = nscor;
 
-    rank->n_blk  = blk;
     rank->n_trt  = trt;
+    /* one block per speaker, whatever their order in each system */
+    alloc_singarr(spkr,blk,char *);
+    for (n=0, blk=0; n<nscor; n++)
+	for (g=0; g<scor[n]->num_grp; g++)
+	    if (find_block(spkr,blk,scor[n]->grp[g].name) == blk)
+		spkr[blk++] = scor[n]->grp[g].name;
+    rank->n_blk  = blk;
     alloc_2dimarr(rank->blk_name,blk,mlen+1,char);
-    /* copy in only what's available from the first system */
-    for (i=0; i<blk; i++)
-	if (i < scor[0]->num_grp)
-	    strcpy(rank->blk_name[i] ,scor[0]->grp[i].name);
+    for (b=0; b<blk; b++)
+	strcpy(rank->blk_name[b],spkr[b]);
+    free_singarr(spkr,char *);
     alloc_2dimarr(rank->trt_name,trt,msclen+1,char);
     for (i=0; i<trt; i++){
         strcpy(rank->trt_name[i],scor[i]->title);
     }
     alloc_2dimZ(rank->trt_ranks ,blk,trt,double,0.0);
     alloc_2dimZ(rank->blk_ranks ,blk,trt,double,0.0);
-    alloc_2dimarr(rank->pcts ,blk,trt,double);
+    alloc_2dimZ(rank->pcts ,blk,trt,double,0.0);
     alloc_singarr(rank->trt_Ovr_ranks ,trt,double);
     alloc_singarr(rank->blk_Ovr_ranks ,blk,double);
     alloc_singarr(rank->blk_srt_ind ,trt,int);
@@ -54,19 +70,20 @@ void init_RANK_struct_from_SCORES(RANK *rank, SCORES *scor[], int nscor, char *c
 
     for (n=0; n<nscor; n++)
 	for (g=0; g<scor[n]->num_grp; g++){
+	    b = find_block(rank->blk_name,blk,scor[n]->grp[g].name);
 	    c = scor[n]->grp[g].corr;
 	    s = scor[n]->grp[g].sub; 
 	    d = scor[n]->grp[g].del;
 	    i = scor[n]->grp[g].ins;
             switch (*calc_formula) {
 	      case 'R':
-		rank->pcts[g][n] = pct(c, (c + s + d));
+		rank->pcts[b][n] = pct(c, (c + s + d));
 		break;
 	      case 'E':
-		rank->pcts [g][n] = pct((i + s + d),(c + d + s));
+		rank->pcts [b][n] = pct((i + s + d),(c + d + s));
 		break;
 	      case 'W':
-		rank->pcts[g][n] = 100.0000 - 
+		rank->pcts[b][n] = 100.0000 - 
 		    pct((i + s + d),(c + d + s));
 		break;
 	      default:
-- 
2.43.0


From 10be51a5a640d1e55a7a89fcaabdd3aa74b58d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:50 +0000
Subject: [PATCH 064/122] fix: sc_stats -f E, R or W selects the percentage
 formula again

The letters were read as a feedback level, so the formula was always E.
---
 src/sclite/sc_stats.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sclite/sc_stats.c b/src/sclite/sc_stats.c
index 5c56dd4..1795a8c 100644
--- a/src/sclite/sc_stats.c
+++ b/src/sclite/sc_stats.c
@@ -324,7 +324,8 @@ void proc_arcs(int argc, char **argv, char *prog, char **pralign, int *npralign,
 		pralign[(*npralign)++] = argv[++opt];
 	} else if (strcmp(argv[opt],"-p") == 0){
 	    *pipein = 1;
-	} else if (strcmp(argv[opt],"-f") == 0){
+	} else if (strcmp(argv[opt],"-f") == 0 &&
+		   (argc <= opt+1 || isdigit((unsigned char)*argv[opt+1]))){
 	    if (argc <= opt+1) do_exit("Not enough Feedback arguments",prog,1);
 	    *feedback = atoi(argv[++opt]);
 	    fbset = 1;
-- 
2.43.0


From d50c532e9d5a7f721496e26bcb843c10217374ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:37 +0000
Subject: [PATCH 065/122] fix: confidences that are not numbers do not run the
 DET curve beyond its scores

---
 src/sclite/det.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sclite/det.c b/src/sclite/det.c
index d9b5eeb..8f0aecf 100644
--- a/src/sclite/det.c
+++ b/src/sclite/det.c
@@ -212,8 +212,9 @@ static void Compute_ROC (double *true_scores, int num_true, double *false_scores
 	
       /* bug fix JGF, the previous expression assumed an highest score would
 	 ALLWAYS be a TRUE score */
-	if ((true_scores[ntrue] <= false_scores[nfalse]) &&
-	    (ntrue < num_true))
+	if ((ntrue < num_true) &&
+	    (nfalse >= num_false ||
+	     true_scores[ntrue] <= false_scores[nfalse]))
 	    ntrue = ntrue+1;
 	else
 	    nfalse = nfalse+1;
-- 
2.43.0


From f2b8e4ab56fc64843ef85a36c38ffbbbbf81344c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:45 +0000
Subject: [PATCH 066/122] fix: rfilter1 takes a slash for the context marker
 only outside of brackets and after the arrow

A bracketed right hand side that no other bracket follows, and a slash in the
left hand side, were cut at the slash.
---
 src/rfilter1/include/grules2.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rfilter1/include/grules2.c b/src/rfilter1/include/grules2.c
index a4a4833..88fb4dd 100644
--- a/src/rfilter1/include/grules2.c
+++ b/src/rfilter1/include/grules2.c
@@ -91,11 +91,11 @@ if (db_level > 1) printf("%s processing as format NIST1\n",pdb);
           *perr = 32; goto RETURN;
 	 }
 /* context marker is last slash IFF not enclosed in [] */
-       icontext = (Char *)strrchr((char *)pline,'/');
+       icontext = (Char *)strrchr((char *)ieq,'/');
        if (icontext != NULL)
          {irmark = (Char *)strchr((char *)icontext,']');
 	   ilmark = (Char *)strchr((char *)icontext,'[');
-          if (irmark < ilmark) /* enclosed in [] */
+          if (irmark != NULL && (ilmark == NULL || irmark < ilmark)) /* enclosed in [] */
             {icontext = NULL;
 	    }
           else
-- 
2.43.0


From ff724f563c980d391f2dd209674f40722f7b84e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:45 +0000
Subject: [PATCH 067/122] fix: rfilter1 does not look for a left context before
 the start of the line

---
 src/rfilter1/include/aprules2.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rfilter1/include/aprules2.c b/src/rfilter1/include/aprules2.c
index ce78a7e..bc74d64 100644
--- a/src/rfilter1/include/aprules2.c
+++ b/src/rfilter1/include/aprules2.c
@@ -43,7 +43,8 @@ if (db_level > 1) printf("%s key_char = %d (%c)\n",pdb,key_char,key_char);
        {irule = rset->rule_index[jrule];
 if (db_level > 1) printf("%s jrule=%d, irule=%d\n",pdb,jrule,irule);
  if (streq((char *)rset->format,"NIST1"))
-          {if ( ((rset->case_sensitive)&&
+          {if (pi - (unsigned char *)pa < rset->rule[irule].lcontextl) continue;
+           if ( ((rset->case_sensitive)&&
                  (strncmp((char *)pi,(char *)(rset->rule[irule].sin),rset->rule[irule].sinl)==0)&&
                  (strncmp((char *)(pi-rset->rule[irule].lcontextl),
                           (char *)rset->rule[irule].lcontext,
-- 
2.43.0


From 2972b7cf0814671eb8928ae6a8571d7825a4f0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:45 +0000
Subject: [PATCH 068/122] fix: rfilter1 has room for as many rules as
 max_nrules allows, and for none

---
 src/rfilter1/include/grules2.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rfilter1/include/grules2.c b/src/rfilter1/include/grules2.c
index 88fb4dd..fba788c 100644
--- a/src/rfilter1/include/grules2.c
+++ b/src/rfilter1/include/grules2.c
@@ -198,6 +198,8 @@ if (db_level > 3) printf("%s rcontext='%s',len=%d\n",pdb,rx->rcontext,rx->rconte
 
     if (rset->nrules < rset->max_nrules)
       {rset->nrules += 1;
+       rset->rule = (RULE2*) realloc(rset->rule,((size_t)rset->nrules+1)*sizeof(RULE2));
+       if (rset->rule == NULL) fatal_error(proc,(Char *)"MEM ALLOC",-1);
        rset->rule[rset->nrules] = *rx;
       }
     else
@@ -265,6 +267,7 @@ RETURN:
     rset->indexed        = F;
     rset->nrules = 0;
     rset->max_nrules = 400;
+    rset->rule = (RULE2*) calloc_safe((size_t)1,sizeof(RULE2),proc); /* rules count from 1 */
   /* open rules file */
 if (db_level > 1) printf("*DB: trying to open '%s'\n",full_fname);
  if ( (fp = fopen((char *)full_fname,"r")) == NULL)
@@ -295,9 +298,7 @@ if (db_level > 2) printf("%s line:'%s'\n",pdb,pline);
              if (*perr > 0) goto RETURN;
 	    }
           else
-            {if (n_data_lines_processed == 0)
-               rset->rule = (RULE2*) calloc_safe((size_t)rset->max_nrules,sizeof(RULE2),proc);
-             remove_comments(pline,comment_flag);
+            {remove_comments(pline,comment_flag);
              r_process_data_line(rset,pline,perr);
              if (*perr > 0) goto RETURN;
              n_data_lines_processed += 1;
-- 
2.43.0


From 9b248f50bca4ae801719106e283420e7b4517843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:45 +0000
Subject: [PATCH 069/122] fix: rfilter1 makes room for the output of rules that
 lengthen a line

---
 src/rfilter1/rfilter1.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/rfilter1/rfilter1.c b/src/rfilter1/rfilter1.c
index 56129e6..4e78181 100644
--- a/src/rfilter1/rfilter1.c
+++ b/src/rfilter1/rfilter1.c
@@ -32,7 +32,9 @@ int main(int argc, char **argv)
   Char rxf[LONG_LINE], *fname_rules = &rxf[0];
 #define MAX_INPUT_REC 100000
   Char pax[MAX_INPUT_REC], *pa = &pax[0];
-  Char pbx[MAX_INPUT_REC], *pb = &pbx[0];
+  Char *pb = NULL;
+  size_t pb_size = 0, need;
+  int i, max_out;
   Char *path = (Char *)"";
   int err; int *perr = &err;
   RULESET2 rset_data, *rset = &rset_data;
@@ -58,9 +60,18 @@ if (db_level > 2)
    dump_rules2(rset);
   }
 
+  for (max_out = 1, i = 1; i <= rset->nrules; i++)
+    if (rset->rule[i].soutl > max_out) max_out = rset->rule[i].soutl;
+
 /* exercise the rules */
  while (fgets((char *)pa,MAX_INPUT_REC,stdin) != NULL)
-   {if (*(pa + strlen((char *)pa) - 1) != '\n')
+   {need = strlen((char *)pa) * max_out + 1;
+    if (need > pb_size)
+      {pb_size = need;
+       pb = (Char *)realloc(pb,pb_size);
+       if (pb == NULL) fatal_error((Char *)proc,(Char *)"MEM ALLOC",-1);
+      }
+    if (strlen((char *)pa) == 0 || *(pa + strlen((char *)pa) - 1) != '\n')
        {fprintf(stderr,"*WARNING:%s: rec w/o newline char,",proc);
         fprintf(stderr," probably truncated.\n  Line is:'%s'\n",pa);
        }
@@ -79,6 +90,7 @@ if (db_level > 0)
    dump_rules3(rset,stderr);
   }
   free_rules2(rset);
+  free(pb);
   return 0;
  } /* end main */
 
-- 
2.43.0


From fdd69380285cdcc031f17d811d7343dfda51720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:39 +0000
Subject: [PATCH 070/122] fix: csrfilt recognises ctm confidences in
 exponential notation

---
 src/csrfilt/csrfilt.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csrfilt/csrfilt.sh b/src/csrfilt/csrfilt.sh
index 9e36956..b27f484 100755
--- a/src/csrfilt/csrfilt.sh
+++ b/src/csrfilt/csrfilt.sh
@@ -294,7 +294,7 @@ cat > /tmp/hs_filt.ctm.$$ << EOF
 	@l = split;
 	if (\$#l == 4) {print}
 	else {
-	    if (\$l[\$#l] =~ /^[0-9\.-]*\$/) {\$limit=\$#l-1;\$conf=\$l[\$#l]} 
+	    if (\$l[\$#l] =~ /^[-+]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][-+]?[0-9]+)?\$/) {\$limit=\$#l-1;\$conf=\$l[\$#l]} 
 	    else {                         \$limit=\$#l;\$conf=""} ; 
 
 	    \$data = join(" ",splice(@l,4,\$limit - 4 + 1));
-- 
2.43.0


From 1616a2de703667d894b4d122a70baec9fa0c4bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:39 +0000
Subject: [PATCH 071/122] fix: csrfilt removes a ctm or rttm word that the
 rules delete instead of leaving a record without word

---
 src/csrfilt/csrfilt.sh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/csrfilt/csrfilt.sh b/src/csrfilt/csrfilt.sh
index b27f484..cbfcc43 100755
--- a/src/csrfilt/csrfilt.sh
+++ b/src/csrfilt/csrfilt.sh
@@ -489,6 +489,8 @@ if test "$inputtype" = "ctm" ; then
 				@a = split(/\s+/,$ext);
 				splice(@a, 5, 0, $text);
 				$ext = join(" ",@a)."\n";
+			} elsif ($ext !~ /^;;/){
+				next;
 			}
 			print $ext;
 		}
@@ -509,6 +511,8 @@ elif test "$inputtype" = "rttm" ; then
 				@a = split(/\s+/,$ext);
 				splice(@a, 6, 0, $text);
 				$ext = join(" ",@a)."\n";
+			} elsif ($ext =~ /^ LEXEME.* (lex|fp|un-lex|for-lex|alpha|acronym|interjection|propernoun|other) /){
+				next;
 			}
 			print $ext;
 		}
-- 
2.43.0


From 4a4066e8accfc35a93842de55dd871b6b20f5cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 072/122] fix: stm2rttm smooths every pair of neighbouring
 segments, not every other one

---
 src/stm2rttm/stm2rttm.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stm2rttm/stm2rttm.pl b/src/stm2rttm/stm2rttm.pl
index 2377d86..4a1ad3c 100755
--- a/src/stm2rttm/stm2rttm.pl
+++ b/src/stm2rttm/stm2rttm.pl
@@ -107,7 +107,7 @@ foreach $spkr (keys %STM) {
 						$prev_seg->[$END_TIME] = $seg->[$END_TIME];
 						$prev_seg->[$TEXT] = $prev_seg->[$TEXT] . " " . $seg->[$TEXT];
 						splice (@{ $STM{$spkr}{$file}{$chan} }, $i, 1);
-						$i++;
+						$i--;
 				    } else {
 						$prev_seg = $seg;
 			    	}
-- 
2.43.0


From 20db3079fa2848a42a8b94ed26feb5ea39b1bc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 073/122] fix: rttmSmooth does not join segments of different
 channels

---
 src/rttmSmooth/rttmSmooth.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rttmSmooth/rttmSmooth.pl b/src/rttmSmooth/rttmSmooth.pl
index ffa974a..0892adc 100755
--- a/src/rttmSmooth/rttmSmooth.pl
+++ b/src/rttmSmooth/rttmSmooth.pl
@@ -20,7 +20,7 @@ while (<STDIN>){
 	next;
     }
     my @a = split;
-    push @{ $data{$a[1]." ".$a[7]}{$a[0]} }, \@a;
+    push @{ $data{$a[1]." ".$a[2]." ".$a[7]}{$a[0]} }, \@a;
 }
 #print Dumper(\%data);
 #exit;
-- 
2.43.0


From 0836457a45ffe705679e28cff5aa0798e7bbc24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 074/122] fix: rttmSort keeps the order of records of equal
 time and type

---
 src/rttmSort/rttmSort.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rttmSort/rttmSort.pl b/src/rttmSort/rttmSort.pl
index d9f5394..5d438fc 100755
--- a/src/rttmSort/rttmSort.pl
+++ b/src/rttmSort/rttmSort.pl
@@ -69,7 +69,7 @@ foreach my $key_filename (sort keys %stm_file) {
     foreach my $key_channel (sort keys %{$stm_file{$key_filename}}) {
 	foreach my $key_begtime (sort cmp_float keys %{$stm_file{$key_filename}{$key_channel}}) {
 	    foreach my $line (sort {$sort_order{$stm_file{$key_filename}{$key_channel}{$key_begtime}{$a}{type}} <=>
-					$sort_order{$stm_file{$key_filename}{$key_channel}{$key_begtime}{$b}{type}}} 
+					$sort_order{$stm_file{$key_filename}{$key_channel}{$key_begtime}{$b}{type}} || $a <=> $b} 
 			      keys %{$stm_file{$key_filename}{$key_channel}{$key_begtime}}) {
 		print "$stm_file{$key_filename}{$key_channel}{$key_begtime}{$line}{type} ";
 		print "$key_filename $key_channel ";
-- 
2.43.0


From 1c51fa86047aa1aa19f92d57e10c07f085be4abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:19 +0000
Subject: [PATCH 075/122] fix: stmValidator wants optionally deletable
 contractions to be closed

---
 src/stmValidator/STMList.pm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stmValidator/STMList.pm b/src/stmValidator/STMList.pm
index 5465d34..7931b82 100644
--- a/src/stmValidator/STMList.pm
+++ b/src/stmValidator/STMList.pm
@@ -86,7 +86,7 @@ sub validateEnglishText{
 	    print "Token: /$token/ pass Rule 5\n" if ($dbg == 1);
 	} elsif ($token =~ /^([a-z]*-)*[a-z]+('(d|s|t|re|ll|m|ve|))*$/i){  ## contractions
 	    print "Token: /$token/ pass Rule 5a\n" if ($dbg == 1);
-	} elsif ($token =~ /^\(([a-z]*-)*[a-z]+('(d|s|t|re|ll|m|ve|))\)*$/i){  ## contractions
+	} elsif ($token =~ /^\(([a-z]*-)*[a-z]+('(d|s|t|re|ll|m|ve|))*\)$/i){  ## contractions
 	    print "Token: /$token/ pass Rule 6\n" if ($dbg == 1);
 	} elsif ($token =~ /^(o'\S+|d'etre)$/i){               ## Special contractions
 	    print "Token: /$token/ pass Rule 7\n" if ($dbg == 1);
-- 
2.43.0


From 8a53fe55f024a240d45b6509a47ba3857f752ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:50 +0000
Subject: [PATCH 076/122] fix: asclite does not crash when there is no
 reference segment

---
 src/asclite/core/ctmstmrttm_segmentor.cpp | 12 ++++++++++++
 src/asclite/core/trntrn_segmentor.cpp     |  7 +++++++
 2 files changed, 19 insertions(+)

diff --git a/src/asclite/core/ctmstmrttm_segmentor.cpp b/src/asclite/core/ctmstmrttm_segmentor.cpp
index 0c67c79..58ec388 100644
--- a/src/asclite/core/ctmstmrttm_segmentor.cpp
+++ b/src/asclite/core/ctmstmrttm_segmentor.cpp
@@ -66,6 +66,12 @@ void CTMSTMRTTMSegmentor::Reset(SpeechSet* references, SpeechSet* hypothesis)
 	
     hyps = hypothesis;
     
+    // no segment at all: nothing to iterate over
+    currentSegmentRef = NULL;
+    
+    if (sourceList.empty())
+        return;
+    
     //init the iterator
     currentSource = *(sourceList.begin());
     sourceList.erase(currentSource);
@@ -104,6 +110,12 @@ void CTMSTMRTTMSegmentor::ResetGeneric(map<string, SpeechSet*> &mapspeechSet)
 		++k;
 	}
 	
+	// no segment at all: nothing to iterate over
+    currentSegmentRef = NULL;
+    
+    if (sourceList.empty())
+        return;
+    
 	//init the iterator
     currentSource = *(sourceList.begin());
     sourceList.erase(currentSource);
diff --git a/src/asclite/core/trntrn_segmentor.cpp b/src/asclite/core/trntrn_segmentor.cpp
index 2fe6ada..dcae3d2 100644
--- a/src/asclite/core/trntrn_segmentor.cpp
+++ b/src/asclite/core/trntrn_segmentor.cpp
@@ -42,6 +42,13 @@ void TRNTRNSegmentor::Reset(SpeechSet* references, SpeechSet* hypothesis)
     }
   
     hyps = hypothesis;
+    
+    // no utterance at all: nothing to iterate over
+    currentUterance = "";
+    
+    if (uteranceList.empty())
+        return;
+    
     //init the iterator
     currentUterance = *(uteranceList.begin());
     uteranceList.erase(currentUterance);
-- 
2.43.0


From cbe40921367de119132cb559abb121a99fd26b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:32 +0000
Subject: [PATCH 077/122] fix: asclite messages with long names do not overrun
 their buffers

---
 src/asclite/core/ctm_inputparser.cpp  |  2 +-
 src/asclite/core/recording.cpp        | 18 +++++++++---------
 src/asclite/core/rttm_inputparser.cpp | 10 +++++-----
 src/asclite/core/segment.cpp          |  4 ++--
 src/asclite/core/speakermatch.cpp     |  4 ++--
 src/asclite/core/spkrautooverlap.cpp  |  2 +-
 src/asclite/core/stm_inputparser.cpp  |  4 ++--
 src/asclite/core/token.cpp            |  6 +++---
 src/asclite/core/uemfilter.cpp        | 20 ++++++++++----------
 9 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/src/asclite/core/ctm_inputparser.cpp b/src/asclite/core/ctm_inputparser.cpp
index 0f88ec8..85e510e 100644
--- a/src/asclite/core/ctm_inputparser.cpp
+++ b/src/asclite/core/ctm_inputparser.cpp
@@ -84,7 +84,7 @@ SpeechSet* CTMInputParser::loadFile(const string& name)
                 if (nbArgParsed < 5)
                 {
                     char buffer[BUFFER_SIZE];
-                    sprintf(buffer, "Error parsing the line %li in file %s", line_nb, name.c_str());
+                    snprintf(buffer, sizeof(buffer), "Error parsing the line %li in file %s", line_nb, name.c_str());
                     LOG_ERR(logger, buffer);
                 }
             }
diff --git a/src/asclite/core/recording.cpp b/src/asclite/core/recording.cpp
index c0940a8..0367319 100644
--- a/src/asclite/core/recording.cpp
+++ b/src/asclite/core/recording.cpp
@@ -443,7 +443,7 @@ void Recording::AlignGeneric()
   
 		char buffer[BUFFER_SIZE];
 
-		sprintf(buffer, "Align SG %lu [%s] %lu dimensions, Difficulty: %llu (%s) ---> bt=%.3f et=%.3f", 
+		snprintf(buffer, sizeof(buffer), "Align SG %lu [%s] %lu dimensions, Difficulty: %llu (%s) ---> bt=%.3f et=%.3f", 
 						static_cast<ulint>(segmentsGroup->GetsID()), 
 						segmentsGroup->GetDifficultyString().c_str(),
 						static_cast<ulint>(segmentsGroup->GetNumberOfHypothesis()),
@@ -506,7 +506,7 @@ void Recording::AlignGeneric()
 			if(cellnumber > difficulty_nb_gb)
 			{
 				ignoreSegs = true;
-				sprintf(buffer, "Skip this group of segments (%lu): the graph size will be too large (%llu [%s]) regarding the difficulty limit (%llu [%.2f GB])", 
+				snprintf(buffer, sizeof(buffer), "Skip this group of segments (%lu): the graph size will be too large (%llu [%s]) regarding the difficulty limit (%llu [%.2f GB])", 
 								static_cast<ulint>(segmentsGroup->GetsID()),
 								cellnumber,
 								buffer_size,
@@ -523,7 +523,7 @@ void Recording::AlignGeneric()
 			if(cellnumber < mindifficulty_nb_gb)
 			{
 				ignoreSegs = true;
-				sprintf(buffer, "Skip this group of segments (%lu): the graph size will be too small (%llu [%s]) regarding the min difficulty limit (%llu [%.2f GB])", 
+				snprintf(buffer, sizeof(buffer), "Skip this group of segments (%lu): the graph size will be too small (%llu [%s]) regarding the min difficulty limit (%llu [%.2f GB])", 
 								static_cast<ulint>(segmentsGroup->GetsID()),
 								cellnumber,
 								buffer_size,
@@ -540,7 +540,7 @@ void Recording::AlignGeneric()
 			if(!m_bUseCompression)
 			{
 				ignoreSegs = true;
-				sprintf(buffer, "Skip this group of segments (%lu): the graph size will be too large (%llu [%s]) regarding the memory limit (%llu [%.2f GB]) and no compression have been set", 
+				snprintf(buffer, sizeof(buffer), "Skip this group of segments (%lu): the graph size will be too large (%llu [%s]) regarding the memory limit (%llu [%.2f GB]) and no compression have been set", 
 								static_cast<ulint>(segmentsGroup->GetsID()),
 								cellnumber,
 								buffer_size,
@@ -677,7 +677,7 @@ void Recording::AlignHypRef()
       
             char buffer[BUFFER_SIZE];
 
-			sprintf(buffer, "Align SG %lu [%s] %lu dimensions, Difficulty: %llu (%s) ---> bt=%.3f et=%.3f", 
+			snprintf(buffer, sizeof(buffer), "Align SG %lu [%s] %lu dimensions, Difficulty: %llu (%s) ---> bt=%.3f et=%.3f", 
 							static_cast<ulint>(segmentsGroup->GetsID()), 
                             segmentsGroup->GetDifficultyString().c_str(),
                             static_cast<ulint>(segmentsGroup->GetNumberOfHypothesis()+segmentsGroup->GetNumberOfReferences()),
@@ -740,7 +740,7 @@ void Recording::AlignHypRef()
 				if(cellnumber > difficulty_nb_gb)
 				{
 					ignoreSegs = true;
-					sprintf(buffer, "Skip this group of segments (%lu): the graph size will be too large (%llu [%s]) regarding the difficulty limit (%llu [%.2f GB])", 
+					snprintf(buffer, sizeof(buffer), "Skip this group of segments (%lu): the graph size will be too large (%llu [%s]) regarding the difficulty limit (%llu [%.2f GB])", 
 									static_cast<ulint>( segmentsGroup->GetsID() ),
 									cellnumber,
 									buffer_size,
@@ -757,7 +757,7 @@ void Recording::AlignHypRef()
 				if(cellnumber < mindifficulty_nb_gb)
 				{
 					ignoreSegs = true;
-					sprintf(buffer, "Skip this group of segments (%lu): the graph size will be too small (%llu [%s]) regarding the min difficulty limit (%llu [%.2f GB])", 
+					snprintf(buffer, sizeof(buffer), "Skip this group of segments (%lu): the graph size will be too small (%llu [%s]) regarding the min difficulty limit (%llu [%.2f GB])", 
 									static_cast<ulint>( segmentsGroup->GetsID() ),
 									cellnumber,
 									buffer_size,
@@ -774,7 +774,7 @@ void Recording::AlignHypRef()
 				if(!m_bUseCompression)
 				{
 					ignoreSegs = true;
-					sprintf(buffer, "Skip this group of segments (%lu): the graph size will be too large (%llu [%s]) regarding the memory limit (%llu [%.2f GB]) and no compression have been set", 
+					snprintf(buffer, sizeof(buffer), "Skip this group of segments (%lu): the graph size will be too large (%llu [%s]) regarding the memory limit (%llu [%.2f GB]) and no compression have been set", 
 									static_cast<ulint>( segmentsGroup->GetsID() ),
 									cellnumber,
 									buffer_size,
@@ -810,7 +810,7 @@ void Recording::AlignHypRef()
 				
 				//cerr << gas->ToString() << endl;
 				
-                sprintf(buffer, "Store %li GAS for hyp: '%s' cost: (%d)", gas->GetNbOfGraphAlignedToken(), hyp_name.c_str(), (dynamic_cast<Levenshtein*>(aligner_instance))->GetCost());
+                snprintf(buffer, sizeof(buffer), "Store %li GAS for hyp: '%s' cost: (%d)", gas->GetNbOfGraphAlignedToken(), hyp_name.c_str(), (dynamic_cast<Levenshtein*>(aligner_instance))->GetCost());
                 LOG_DEBUG(logger, buffer);
 				
 				alignments->AddGraphAlignedSegment(gas, hyp_name, segmentsGroup);
diff --git a/src/asclite/core/rttm_inputparser.cpp b/src/asclite/core/rttm_inputparser.cpp
index a4cad23..95b5cd5 100644
--- a/src/asclite/core/rttm_inputparser.cpp
+++ b/src/asclite/core/rttm_inputparser.cpp
@@ -95,7 +95,7 @@ SpeechSet* RTTMInputParser::loadFileLexeme(const string& name)
             if( ! ( (nbArgParsed == 9) || (nbArgParsed == 10) ) )
             {
                 char buffer[BUFFER_SIZE];
-                sprintf(buffer, "Error parsing the line %li in file %s", lineNum, name.c_str());
+                snprintf(buffer, sizeof(buffer), "Error parsing the line %li in file %s", lineNum, name.c_str());
                 LOG_ERR(logger, buffer);
             }
             
@@ -139,7 +139,7 @@ SpeechSet* RTTMInputParser::loadFileLexeme(const string& name)
 				if (str_word.find('"', 0) != string::npos)
 				{
 					char buffer_err[BUFFER_SIZE];
-					sprintf(buffer_err, "Error parsing the line %li in file %s, forbidden character detected", lineNum, name.c_str());
+					snprintf(buffer_err, sizeof(buffer_err), "Error parsing the line %li in file %s, forbidden character detected", lineNum, name.c_str());
 					LOG_FATAL(logger, buffer_err);
 					exit(E_LOAD); 
 				}
@@ -261,7 +261,7 @@ SpeechSet* RTTMInputParser::loadFileSpeaker(const string& name)
 			if(nbArgParsed != 9)
             {
                 char buffer[BUFFER_SIZE];
-                sprintf(buffer, "Error parsing the line %li in file %s", lineNum, name.c_str());
+                snprintf(buffer, sizeof(buffer), "Error parsing the line %li in file %s", lineNum, name.c_str());
                 LOG_ERR(logger, buffer);
             }
 			
@@ -319,7 +319,7 @@ SpeechSet* RTTMInputParser::loadFileSpeaker(const string& name)
             if(nbArgParsed != 9)
             {
                 char buffer[BUFFER_SIZE];
-                sprintf(buffer, "Error parsing the line %li in file %s", lineNum, name.c_str());
+                snprintf(buffer, sizeof(buffer), "Error parsing the line %li in file %s", lineNum, name.c_str());
                 LOG_ERR(logger, buffer);
             }
             
@@ -345,7 +345,7 @@ SpeechSet* RTTMInputParser::loadFileSpeaker(const string& name)
 				{
 					//Not found
 					char buffer[BUFFER_SIZE];
-					sprintf(buffer, "No Segment found for speaker %s at line %li", l_spkr, lineNum);
+					snprintf(buffer, sizeof(buffer), "No Segment found for speaker %s at line %li", l_spkr, lineNum);
 					LOG_ERR(logger, buffer);
 				}
 				else
diff --git a/src/asclite/core/segment.cpp b/src/asclite/core/segment.cpp
index e0caa0c..c18d6d1 100644
--- a/src/asclite/core/segment.cpp
+++ b/src/asclite/core/segment.cpp
@@ -186,7 +186,7 @@ void Segment::AddFirstToken(Token* token)
 	if (token->GetStartTime() != -1 && (token->GetStartTime() < this->GetStartTime()))
 	{
 		char buffer[BUFFER_SIZE];
-		sprintf(buffer, "Segment: Tried to add a token with start time before begin of segment file ='%s' tkn='%s' src=%s chnl=%s st=%d et=%d seg: st=%d et=%d",
+		snprintf(buffer, sizeof(buffer), "Segment: Tried to add a token with start time before begin of segment file ='%s' tkn='%s' src=%s chnl=%s st=%d et=%d seg: st=%d et=%d",
 				GetParentSpeech()->GetParentSpeechSet()->GetSourceFileName().c_str(),
 				token->GetText().c_str(), GetSource().c_str(), GetChannel().c_str(), token->GetStartTime(), token->GetEndTime(), GetStartTime(), GetEndTime());
 		LOG_FATAL(logger, buffer);
@@ -204,7 +204,7 @@ void Segment::AddLastToken(Token* token)
     if (token->GetEndTime() != -1 && (token->GetEndTime() > this->GetEndTime()))
 	{
 		char buffer[BUFFER_SIZE];
-		sprintf(buffer, "Segment: Tried to add a token with start time before begin of segment file ='%s' tkn='%s' src=%s chnl=%s st=%d et=%d seg: st=%d et=%d",
+		snprintf(buffer, sizeof(buffer), "Segment: Tried to add a token with start time before begin of segment file ='%s' tkn='%s' src=%s chnl=%s st=%d et=%d seg: st=%d et=%d",
 				GetParentSpeech()->GetParentSpeechSet()->GetSourceFileName().c_str(),
 				token->GetText().c_str(), GetSource().c_str(), GetChannel().c_str(), token->GetStartTime(), token->GetEndTime(), GetStartTime(), GetEndTime());
 		LOG_FATAL(logger, buffer);
diff --git a/src/asclite/core/speakermatch.cpp b/src/asclite/core/speakermatch.cpp
index 7f405ab..4297468 100644
--- a/src/asclite/core/speakermatch.cpp
+++ b/src/asclite/core/speakermatch.cpp
@@ -80,7 +80,7 @@ void SpeakerMatch::LoadFile(const string& filename)
 				if(index == 6)
 				{
 					char buffer[BUFFER_SIZE];
-					sprintf(buffer, "Too much: Error parsing the line %li in file %s", lineNum, filename.c_str());
+					snprintf(buffer, sizeof(buffer), "Too much: Error parsing the line %li in file %s", lineNum, filename.c_str());
 					LOG_ERR(logger, buffer);
 				}
 				
@@ -94,7 +94,7 @@ void SpeakerMatch::LoadFile(const string& filename)
 			if(index != 6)
 			{
 				char buffer[BUFFER_SIZE];
-				sprintf(buffer, "Too few: Error parsing the line %li in file %s", lineNum, filename.c_str());
+				snprintf(buffer, sizeof(buffer), "Too few: Error parsing the line %li in file %s", lineNum, filename.c_str());
 				LOG_ERR(logger, buffer);
 			}
 			
diff --git a/src/asclite/core/spkrautooverlap.cpp b/src/asclite/core/spkrautooverlap.cpp
index a33935d..ac0d6fe 100644
--- a/src/asclite/core/spkrautooverlap.cpp
+++ b/src/asclite/core/spkrautooverlap.cpp
@@ -46,7 +46,7 @@ unsigned long int SpkrAutoOverlap::ProcessSingleSpeech(Speech* speech)
             {
                 ++nbErr;
                 char buffer[2*BUFFER_SIZE];
-                sprintf(buffer, "Error: The speaker %s for source: %s, channel: %s Overlap himself between: (%d, %d) ==> (%d, %d)", 
+                snprintf(buffer, sizeof(buffer), "Error: The speaker %s for source: %s, channel: %s Overlap himself between: (%d, %d) ==> (%d, %d)", 
                 segCurr->GetSpeakerId().c_str(), segCurr->GetSource().c_str(), segCurr->GetChannel().c_str(), segPrec->GetStartTime(), segPrec->GetEndTime(), segCurr->GetStartTime(), segCurr->GetEndTime());
                 LOG_ERR(logger, buffer);
             }
diff --git a/src/asclite/core/stm_inputparser.cpp b/src/asclite/core/stm_inputparser.cpp
index 2faab04..83d8a4f 100644
--- a/src/asclite/core/stm_inputparser.cpp
+++ b/src/asclite/core/stm_inputparser.cpp
@@ -185,7 +185,7 @@ SpeechSet* STMInputParser::loadFile(const string& name)
                 if (nbArgParsed < 5)
                 {
                     char buffer[BUFFER_SIZE];
-                    sprintf(buffer, "Error parsing the line %li in file %s", lineNum, name.c_str());
+                    snprintf(buffer, sizeof(buffer), "Error parsing the line %li in file %s", lineNum, name.c_str());
                     LOG_ERR(logger, buffer);
                 }
             }
@@ -195,7 +195,7 @@ SpeechSet* STMInputParser::loadFile(const string& name)
             if(CompareToISGCaseInsensitive(spkr))
             {
 				char buffer[BUFFER_SIZE];
-				sprintf(buffer, "ISG Detected at line %li '%s'", lineNum, spkr);
+				snprintf(buffer, sizeof(buffer), "ISG Detected at line %li '%s'", lineNum, spkr);
 				LOG_DEBUG(logger, buffer);
             	LowerCase(spkr);
 			}
diff --git a/src/asclite/core/token.cpp b/src/asclite/core/token.cpp
index f8293d9..8145a70 100644
--- a/src/asclite/core/token.cpp
+++ b/src/asclite/core/token.cpp
@@ -152,7 +152,7 @@ void Token::UnlinkNextToken(Token* nextToken)
 	if (tokNext == next.end())
 	{
 		char buffer[BUFFER_SIZE];
-		sprintf(buffer, "Can't unlink next token %s from %s", nextToken->ToString().c_str(), ToString().c_str());
+		snprintf(buffer, sizeof(buffer), "Can't unlink next token %s from %s", nextToken->ToString().c_str(), ToString().c_str());
 		LOG_FATAL(logger, buffer);
 		exit(E_INVALID);
 	}
@@ -170,7 +170,7 @@ void Token::UnlinkPrevToken(Token* prevToken)
 	if (tokPrec == prec.end())
 	{
 		char buffer[BUFFER_SIZE];
-		sprintf(buffer, "Can't unlink previous token %s from %s", prevToken->ToString().c_str(), ToString().c_str());
+		snprintf(buffer, sizeof(buffer), "Can't unlink previous token %s from %s", prevToken->ToString().c_str(), ToString().c_str());
 		LOG_FATAL(logger, buffer);
 		exit(E_INVALID);
 	}
@@ -190,7 +190,7 @@ void Token::UnlinkTokens(Token *next)
 
 	if (tokNext == this->next.end() || nextPrec == next->prec.end()){
 		char buffer[BUFFER_SIZE];
-		sprintf(buffer, "Can't unlink tokens %s and %s",this->ToString().c_str(), next->ToString().c_str());
+		snprintf(buffer, sizeof(buffer), "Can't unlink tokens %s and %s",this->ToString().c_str(), next->ToString().c_str());
 		LOG_FATAL(logger, buffer);
 		exit(E_INVALID);
 	}
diff --git a/src/asclite/core/uemfilter.cpp b/src/asclite/core/uemfilter.cpp
index 8298730..7001786 100644
--- a/src/asclite/core/uemfilter.cpp
+++ b/src/asclite/core/uemfilter.cpp
@@ -83,7 +83,7 @@ void UEMFilter::LoadFile(const string& filename)
 			if(nbArgParsed != 4)
 			{
 				char buffer[BUFFER_SIZE];
-				sprintf(buffer, "Error parsing the line %li in file %s", lineNum, filename.c_str());
+				snprintf(buffer, sizeof(buffer), "Error parsing the line %li in file %s", lineNum, filename.c_str());
 				LOG_ERR(m_pLogger, buffer);
 			}
 			else
@@ -99,7 +99,7 @@ void UEMFilter::LoadFile(const string& filename)
 				else
 				{
 					char buffer[BUFFER_SIZE];
-					sprintf(buffer, "The time is not proper at the line %li in file %s: begin time %s and endtime %s", lineNum, filename.c_str(), l_start, l_end);
+					snprintf(buffer, sizeof(buffer), "The time is not proper at the line %li in file %s: begin time %s and endtime %s", lineNum, filename.c_str(), l_start, l_end);
 					LOG_ERR(m_pLogger, buffer);
 				}
 			}
@@ -142,7 +142,7 @@ unsigned long int UEMFilter::ProcessSingleSpeech(Speech* speech)
 			if(pListUEMElement->empty())
 			{
 				char bufferUEM0[BUFFER_SIZE];
-				sprintf(bufferUEM0, "UEMFilter - Removing segment in '%s/%s' with times [%d, %d] because nothing has been defined for these file and channel in UEM file", segFile.c_str(), segChannel.c_str(), segStartTime, segEndTime);
+				snprintf(bufferUEM0, sizeof(bufferUEM0), "UEMFilter - Removing segment in '%s/%s' with times [%d, %d] because nothing has been defined for these file and channel in UEM file", segFile.c_str(), segChannel.c_str(), segStartTime, segEndTime);
 				LOG_INFO(m_pLogger, bufferUEM0);
 				listSegmentsToRemove.push_back(pSegment);
 			}
@@ -180,7 +180,7 @@ unsigned long int UEMFilter::ProcessSingleSpeech(Speech* speech)
 						{
 							++nbrerr;
 							char bufferUEM1[BUFFER_SIZE];
-							sprintf(bufferUEM1, "UEMFilter - Segment in '%s/%s' has an unproper time [%d, %d] regarding the UEM file with times: (%s/%s) [%d, %d]", segFile.c_str(), segChannel.c_str(), segStartTime, segEndTime,  pUEMElement->GetFile().c_str(), pUEMElement->GetChannel().c_str(), uemStartTime, uemEndTime);
+							snprintf(bufferUEM1, sizeof(bufferUEM1), "UEMFilter - Segment in '%s/%s' has an unproper time [%d, %d] regarding the UEM file with times: (%s/%s) [%d, %d]", segFile.c_str(), segChannel.c_str(), segStartTime, segEndTime,  pUEMElement->GetFile().c_str(), pUEMElement->GetChannel().c_str(), uemStartTime, uemEndTime);
 							LOG_ERR(m_pLogger, bufferUEM1);
 						}
 						
@@ -195,7 +195,7 @@ unsigned long int UEMFilter::ProcessSingleSpeech(Speech* speech)
 				if(!keep)
 				{
 					char bufferUEM2[BUFFER_SIZE];
-					sprintf(bufferUEM2, "UEMFilter - Removing segment in '%s/%s' with times [%d, %d] regarding the UEM file rules", segFile.c_str(), segChannel.c_str(), segStartTime, segEndTime);
+					snprintf(bufferUEM2, sizeof(bufferUEM2), "UEMFilter - Removing segment in '%s/%s' with times [%d, %d] regarding the UEM file rules", segFile.c_str(), segChannel.c_str(), segStartTime, segEndTime);
 					LOG_INFO(m_pLogger, bufferUEM2);
 					listSegmentsToRemove.push_back(pSegment);
 				}
@@ -221,7 +221,7 @@ unsigned long int UEMFilter::ProcessSingleSpeech(Speech* speech)
 			if(pListUEMElement->empty())
 			{
 				char bufferUEM0[BUFFER_SIZE];
-				sprintf(bufferUEM0, "UEMFilter - Removing segment in '%s/%s' with times [%d, %d] (mid: %d) because nothing has been defined for these file and channel in UEM file", segFile.c_str(), segChannel.c_str(), pSegment->GetStartTime(), pSegment->GetEndTime(), segMidPoint);
+				snprintf(bufferUEM0, sizeof(bufferUEM0), "UEMFilter - Removing segment in '%s/%s' with times [%d, %d] (mid: %d) because nothing has been defined for these file and channel in UEM file", segFile.c_str(), segChannel.c_str(), pSegment->GetStartTime(), pSegment->GetEndTime(), segMidPoint);
 				LOG_INFO(m_pLogger, bufferUEM0);
 				listSegmentsToRemove.push_back(pSegment);
 			}
@@ -247,7 +247,7 @@ unsigned long int UEMFilter::ProcessSingleSpeech(Speech* speech)
 				if(!keep)
 				{
 					char bufferUEM3[BUFFER_SIZE];
-					sprintf(bufferUEM3, "UEMFilter - Removing segment in '%s/%s' with times [%d, %d] (mid: %d) regarding the UEM file rules", segFile.c_str(), segChannel.c_str(), pSegment->GetStartTime(), pSegment->GetEndTime(), segMidPoint);
+					snprintf(bufferUEM3, sizeof(bufferUEM3), "UEMFilter - Removing segment in '%s/%s' with times [%d, %d] (mid: %d) regarding the UEM file rules", segFile.c_str(), segChannel.c_str(), pSegment->GetStartTime(), pSegment->GetEndTime(), segMidPoint);
 					LOG_INFO(m_pLogger, bufferUEM3);
 					listSegmentsToRemove.push_back(pSegment);
 				}
@@ -345,7 +345,7 @@ unsigned long int UEMFilter::ProcessSpeechSet(SpeechSet* references, map<string,
 		mapListSGborder[file][channel].push_back(minSG);
 		
 		char bufferSG[BUFFER_SIZE];
-		sprintf(bufferSG, "UEMFilter::ProcessSpeechSet() - SG %ld time for '%s/%s' with times: %d %d", pSG->GetsID(), file.c_str(), channel.c_str(), minSG, maxSG);
+		snprintf(bufferSG, sizeof(bufferSG), "UEMFilter::ProcessSpeechSet() - SG %ld time for '%s/%s' with times: %d %d", pSG->GetsID(), file.c_str(), channel.c_str(), minSG, maxSG);
 		LOG_DEBUG(m_pLogger, bufferSG);
 		
 		// Min and max used only when the UEM are defined
@@ -375,7 +375,7 @@ unsigned long int UEMFilter::ProcessSpeechSet(SpeechSet* references, map<string,
 		mapMaxHypTime[file][channel] = mapMaxRefTime[file][channel];
 		
 		char bufferISG[BUFFER_SIZE];
-		sprintf(bufferISG, "UEMFilter::ProcessSpeechSet() - Border SG time for '%s/%s' with times: %d %d", file.c_str(), channel.c_str(), mapMinRefTime[file][channel], mapMaxRefTime[file][channel]);
+		snprintf(bufferISG, sizeof(bufferISG), "UEMFilter::ProcessSpeechSet() - Border SG time for '%s/%s' with times: %d %d", file.c_str(), channel.c_str(), mapMinRefTime[file][channel], mapMaxRefTime[file][channel]);
 		LOG_DEBUG(m_pLogger, bufferISG);
 		
 		if(pSG)
@@ -542,7 +542,7 @@ unsigned long int UEMFilter::ProcessSpeechSet(SpeechSet* references, map<string,
 						ISGspeech->AddSegment(Inter_Segment_Gap);
 						
 						char bufferISG[BUFFER_SIZE];
-						sprintf(bufferISG, "UEMFilter::ProcessSpeechSet() - Adding ISG for '%s/%s' with times: %d %d", file.c_str(), channel.c_str(), begintime, endtime);
+						snprintf(bufferISG, sizeof(bufferISG), "UEMFilter::ProcessSpeechSet() - Adding ISG for '%s/%s' with times: %d %d", file.c_str(), channel.c_str(), begintime, endtime);
 						LOG_DEBUG(m_pLogger, bufferISG);
 					}
 				}
-- 
2.43.0


From f10bc0a7d5e433b4daf8d18af0d3579b2f91d939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:00 +0000
Subject: [PATCH 078/122] fix: asclite compares speaker names with
 inter_segment_gap to their end and no further

---
 src/asclite/core/stm_inputparser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asclite/core/stm_inputparser.cpp b/src/asclite/core/stm_inputparser.cpp
index 83d8a4f..ac3d9e4 100644
--- a/src/asclite/core/stm_inputparser.cpp
+++ b/src/asclite/core/stm_inputparser.cpp
@@ -37,6 +37,8 @@ bool STMInputParser::CompareToISGCaseInsensitive(char str[])
 		i++;
 	}
 	
+	tmp[i] = '\0';
+	
 	string tmpstr(tmp);
 	
 	return(tmpstr.compare(string("inter_segment_gap")) == 0);
-- 
2.43.0


From a54f6a04ba8ac115d16d18e357ef753151f9cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:09 +0000
Subject: [PATCH 079/122] fix: asclite refuses records it cannot parse, and
 those with overlong fields, instead of going on with garbage

---
 src/asclite/core/ctm_inputparser.cpp  | 15 +++++++++---
 src/asclite/core/inputparser.cpp      | 18 +++++++++++++++
 src/asclite/core/inputparser.h        |  4 ++++
 src/asclite/core/rttm_inputparser.cpp | 33 ++++++++++++++++++++++++---
 src/asclite/core/speakermatch.cpp     |  5 ++--
 src/asclite/core/stm_inputparser.cpp  | 32 ++++++++++++++++++--------
 src/asclite/core/trn_inputparser.cpp  | 13 ++++++++++-
 src/asclite/core/uemfilter.cpp        |  5 +++-
 8 files changed, 105 insertions(+), 20 deletions(-)

diff --git a/src/asclite/core/ctm_inputparser.cpp b/src/asclite/core/ctm_inputparser.cpp
index 85e510e..4913ec6 100644
--- a/src/asclite/core/ctm_inputparser.cpp
+++ b/src/asclite/core/ctm_inputparser.cpp
@@ -69,9 +69,17 @@ SpeechSet* CTMInputParser::loadFile(const string& name)
 	
 	while (getline(file,line,'\n'))
 	{
-		if(line.find_first_of(";;") != 0)
-        // Not a comment
+		if( (line.find_first_of(";;") != 0) && (line.find_first_not_of(" \t\r") != string::npos) )
+        // Neither a comment nor blank
 		{
+			if (!FieldsFit(line, 6))
+			{
+				char buffer[BUFFER_SIZE];
+				snprintf(buffer, sizeof(buffer), "Field too long in the line %li in file %s", (long int) line_nb, name.c_str());
+				LOG_FATAL(logger, buffer);
+				exit(E_LOAD);
+			}
+			
             int nbArgParsed = 0;
 			nbArgParsed = sscanf(line.c_str(), "%s %s %s %s %s %s", (char*) &f_file, (char*) &channel, (char*) &start, (char*) &dur, (char*) &text, (char*) &conf);
             
@@ -85,7 +93,8 @@ SpeechSet* CTMInputParser::loadFile(const string& name)
                 {
                     char buffer[BUFFER_SIZE];
                     snprintf(buffer, sizeof(buffer), "Error parsing the line %li in file %s", line_nb, name.c_str());
-                    LOG_ERR(logger, buffer);
+                    LOG_FATAL(logger, buffer);
+                    exit(E_LOAD);
                 }
             }
 			
diff --git a/src/asclite/core/inputparser.cpp b/src/asclite/core/inputparser.cpp
index c3efc5d..f7b6007 100644
--- a/src/asclite/core/inputparser.cpp
+++ b/src/asclite/core/inputparser.cpp
@@ -31,3 +31,21 @@ Token* InputParser::BuildToken(const int& start, const int& dur, const string& t
     token->SetSourceText(text);
     return token;
 }
+
+bool InputParser::FieldsFit(const string& line, size_t nbFields)
+{
+    const char* BLANKS = " \t\n\v\f\r";
+    size_t beg = line.find_first_not_of(BLANKS);
+    
+    for(size_t i=0; i<nbFields && beg != string::npos; ++i)
+    {
+        size_t end = line.find_first_of(BLANKS, beg);
+        
+        if( ((end == string::npos) ? line.size() : end) - beg >= BUFFER_SIZE )
+            return false;
+        
+        beg = line.find_first_not_of(BLANKS, end);
+    }
+    
+    return true;
+}
diff --git a/src/asclite/core/inputparser.h b/src/asclite/core/inputparser.h
index f9a49a2..38483ba 100644
--- a/src/asclite/core/inputparser.h
+++ b/src/asclite/core/inputparser.h
@@ -41,6 +41,10 @@ class InputParser
 		 */
 		virtual SpeechSet* loadFile(const string& name)=0;
 		
+		/**
+		 * Tell if the first fields of the line fit into buffers of BUFFER_SIZE characters
+		 */
+		static bool FieldsFit(const string& line, size_t nbFields);
 		int ParseString(const string& chaine)  { return static_cast<int>(floor( ( atof(chaine.c_str()) * 1000 ) + 0.5)); }
 		
 		void SetOneTokenPerSegment(const bool& _bool) { m_bOneTokenPerSegment = _bool; }
diff --git a/src/asclite/core/rttm_inputparser.cpp b/src/asclite/core/rttm_inputparser.cpp
index 95b5cd5..4209fda 100644
--- a/src/asclite/core/rttm_inputparser.cpp
+++ b/src/asclite/core/rttm_inputparser.cpp
@@ -81,6 +81,14 @@ SpeechSet* RTTMInputParser::loadFileLexeme(const string& name)
             char l_slat[BUFFER_SIZE];
 			int nbArgParsed = 0;
             
+			if (!FieldsFit(line, 10))
+			{
+				char buffer[BUFFER_SIZE];
+				snprintf(buffer, sizeof(buffer), "Field too long in the line %li in file %s", (long int) lineNum, name.c_str());
+				LOG_FATAL(logger, buffer);
+				exit(E_LOAD);
+			}
+            
             nbArgParsed = sscanf(line.c_str(), "%s %s %s %s %s %s %s %s %s %s", (char*) &l_type, 
                                                                                 (char*) &l_file, 
                                                                                 (char*) &l_channel, 
@@ -96,7 +104,8 @@ SpeechSet* RTTMInputParser::loadFileLexeme(const string& name)
             {
                 char buffer[BUFFER_SIZE];
                 snprintf(buffer, sizeof(buffer), "Error parsing the line %li in file %s", lineNum, name.c_str());
-                LOG_ERR(logger, buffer);
+                LOG_FATAL(logger, buffer);
+                exit(E_LOAD);
             }
             
             string lower_stype = string(l_stype);
@@ -248,6 +257,14 @@ SpeechSet* RTTMInputParser::loadFileSpeaker(const string& name)
             char l_duration[BUFFER_SIZE];
 			int nbArgParsed = 0;
             
+			if (!FieldsFit(line, 10))
+			{
+				char buffer[BUFFER_SIZE];
+				snprintf(buffer, sizeof(buffer), "Field too long in the line %li in file %s", (long int) lineNum, name.c_str());
+				LOG_FATAL(logger, buffer);
+				exit(E_LOAD);
+			}
+            
             nbArgParsed = sscanf(line.c_str(), "%s %s %s %s %s %s %s %s %s", (char*) &l_type, 
                                                                              (char*) &l_file, 
                                                                              (char*) &l_channel, 
@@ -262,7 +279,8 @@ SpeechSet* RTTMInputParser::loadFileSpeaker(const string& name)
             {
                 char buffer[BUFFER_SIZE];
                 snprintf(buffer, sizeof(buffer), "Error parsing the line %li in file %s", lineNum, name.c_str());
-                LOG_ERR(logger, buffer);
+                LOG_FATAL(logger, buffer);
+                exit(E_LOAD);
             }
 			
 			Speech* speech = res[l_spkr];
@@ -306,6 +324,14 @@ SpeechSet* RTTMInputParser::loadFileSpeaker(const string& name)
             char l_duration[BUFFER_SIZE];
 			int nbArgParsed = 0;
             
+			if (!FieldsFit(line, 10))
+			{
+				char buffer[BUFFER_SIZE];
+				snprintf(buffer, sizeof(buffer), "Field too long in the line %li in file %s", (long int) lineNum, name.c_str());
+				LOG_FATAL(logger, buffer);
+				exit(E_LOAD);
+			}
+            
             nbArgParsed = sscanf(line.c_str(), "%s %s %s %s %s %s %s %s %s", (char*) &l_type, 
                                                                              (char*) &l_file, 
                                                                              (char*) &l_channel, 
@@ -320,7 +346,8 @@ SpeechSet* RTTMInputParser::loadFileSpeaker(const string& name)
             {
                 char buffer[BUFFER_SIZE];
                 snprintf(buffer, sizeof(buffer), "Error parsing the line %li in file %s", lineNum, name.c_str());
-                LOG_ERR(logger, buffer);
+                LOG_FATAL(logger, buffer);
+                exit(E_LOAD);
             }
             
             string lower_stype = string(l_stype);
diff --git a/src/asclite/core/speakermatch.cpp b/src/asclite/core/speakermatch.cpp
index 4297468..1cd2b4f 100644
--- a/src/asclite/core/speakermatch.cpp
+++ b/src/asclite/core/speakermatch.cpp
@@ -77,11 +77,12 @@ void SpeakerMatch::LoadFile(const string& filename)
 						
 			do
 			{
-				if(index == 6)
+				if(index >= 6)
 				{
 					char buffer[BUFFER_SIZE];
 					snprintf(buffer, sizeof(buffer), "Too much: Error parsing the line %li in file %s", lineNum, filename.c_str());
-					LOG_ERR(logger, buffer);
+					LOG_FATAL(logger, buffer);
+					exit(E_LOAD);
 				}
 				
 				tokens[index] = line.substr(lpos, pos - lpos);
diff --git a/src/asclite/core/stm_inputparser.cpp b/src/asclite/core/stm_inputparser.cpp
index ac3d9e4..c2a6763 100644
--- a/src/asclite/core/stm_inputparser.cpp
+++ b/src/asclite/core/stm_inputparser.cpp
@@ -149,8 +149,16 @@ SpeechSet* STMInputParser::loadFile(const string& name)
 			if(line_id != "")
 				vec->AddLabelCategory(line_catlab, line_id, line_title, line_desc);
 		}
-		else
+		else if (line.find_first_not_of(" \t\r") != string::npos)
 		{
+			if (!FieldsFit(line, 6))
+			{
+				char buffer[BUFFER_SIZE];
+				snprintf(buffer, sizeof(buffer), "Field too long in the line %li in file %s", lineNum, name.c_str());
+				LOG_FATAL(logger, buffer);
+				exit(E_LOAD);
+			}
+			
 			char f_file[BUFFER_SIZE];
 			char channel[BUFFER_SIZE];
 			char spkr[BUFFER_SIZE];
@@ -171,25 +179,29 @@ SpeechSet* STMInputParser::loadFile(const string& name)
 				
 			int wordsBegin = lblepos + 1;
 			
-			start = ParseString(string(start_char));
-			end = ParseString(string(end_char));
+			if (nbArgParsed >= 5)
+			{
+				start = ParseString(string(start_char));
+				end = ParseString(string(end_char));
+			}
 			            
 			if (nbArgParsed < 6 || lur[0] != '<')
             {
                 nbArgParsed = sscanf(line.c_str(), "%s %s %s %s %s", (char*) &f_file, (char*) &channel, (char*) &spkr, (char*) &start_char, (char*) &end_char);
 				
-				start = ParseString(string(start_char));
-				end = ParseString(string(end_char));
-				
-                wordsBegin = line.find(start_char)+1;
-                wordsBegin = line.find(end_char, wordsBegin)+string(end_char).size();
-                
                 if (nbArgParsed < 5)
                 {
                     char buffer[BUFFER_SIZE];
                     snprintf(buffer, sizeof(buffer), "Error parsing the line %li in file %s", lineNum, name.c_str());
-                    LOG_ERR(logger, buffer);
+                    LOG_FATAL(logger, buffer);
+                    exit(E_LOAD);
                 }
+				
+				start = ParseString(string(start_char));
+				end = ParseString(string(end_char));
+				
+                wordsBegin = line.find(start_char)+1;
+                wordsBegin = line.find(end_char, wordsBegin)+string(end_char).size();
             }
             
             // Check if it's inter_segment_gap in case insensitive, and if it is
diff --git a/src/asclite/core/trn_inputparser.cpp b/src/asclite/core/trn_inputparser.cpp
index 133fffe..01b4b17 100644
--- a/src/asclite/core/trn_inputparser.cpp
+++ b/src/asclite/core/trn_inputparser.cpp
@@ -52,8 +52,19 @@ SpeechSet* TRNInputParser::loadFile(const string& name)
 		{
 			//comment so skip (for now)
 		}
-		else
+		else if (line.find_first_not_of(" \t\r") != string::npos)
 		{
+			size_t uidbeg = line.find_last_of("(");
+			size_t uidend = line.find_last_of(")");
+			
+			if ( (uidbeg == string::npos) || (uidend == string::npos) || (uidend < uidbeg) )
+			{
+				char buffer[BUFFER_SIZE];
+				snprintf(buffer, sizeof(buffer), "Error parsing the line %li in file %s, no utterance id", lineNum, name.c_str());
+				LOG_FATAL(logger, buffer);
+				exit(E_LOAD);
+			}
+			
 			size_t uidindex = line.find_last_of("(")+1;
 			size_t uidsize = line.find_last_of(")")-uidindex;
 			
diff --git a/src/asclite/core/uemfilter.cpp b/src/asclite/core/uemfilter.cpp
index 7001786..8dddf07 100644
--- a/src/asclite/core/uemfilter.cpp
+++ b/src/asclite/core/uemfilter.cpp
@@ -16,6 +16,7 @@
  */
 
 #include "uemfilter.h"
+#include "inputparser.h"
 #include <algorithm>
 
 Logger* UEMElement::m_pLogger = Logger::getLogger();
@@ -78,7 +79,9 @@ void UEMFilter::LoadFile(const string& filename)
 		else
 		{
 			int nbArgParsed = 0;
-			nbArgParsed = sscanf(line.c_str(), "%s %s %s %s", (char*) &l_file, (char*) &l_channel, (char*) &l_start, (char*) &l_end);
+			
+			if(InputParser::FieldsFit(line, 4))
+				nbArgParsed = sscanf(line.c_str(), "%s %s %s %s", (char*) &l_file, (char*) &l_channel, (char*) &l_start, (char*) &l_end);
 			 
 			if(nbArgParsed != 4)
 			{
-- 
2.43.0


From 9b491961d46eba0d78fb2e1a007aa4622d8b94ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:09 +0000
Subject: [PATCH 080/122] fix: asclite takes the text of an stm segment without
 label from behind its end time

---
 src/asclite/core/stm_inputparser.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/asclite/core/stm_inputparser.cpp b/src/asclite/core/stm_inputparser.cpp
index c2a6763..b6107c7 100644
--- a/src/asclite/core/stm_inputparser.cpp
+++ b/src/asclite/core/stm_inputparser.cpp
@@ -187,7 +187,8 @@ SpeechSet* STMInputParser::loadFile(const string& name)
 			            
 			if (nbArgParsed < 6 || lur[0] != '<')
             {
-                nbArgParsed = sscanf(line.c_str(), "%s %s %s %s %s", (char*) &f_file, (char*) &channel, (char*) &spkr, (char*) &start_char, (char*) &end_char);
+                nbArgParsed = sscanf(line.c_str(), "%s %s %s %s %s%n", (char*) &f_file, (char*) &channel, (char*) &spkr, (char*) &start_char, (char*) &end_char, &wordsBegin);
+				lbl = "";
 				
                 if (nbArgParsed < 5)
                 {
@@ -199,9 +200,6 @@ SpeechSet* STMInputParser::loadFile(const string& name)
 				
 				start = ParseString(string(start_char));
 				end = ParseString(string(end_char));
-				
-                wordsBegin = line.find(start_char)+1;
-                wordsBegin = line.find(end_char, wordsBegin)+string(end_char).size();
             }
             
             // Check if it's inter_segment_gap in case insensitive, and if it is
-- 
2.43.0


From 9c60d3549b26536b101675f97ae6fff62a19b28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:09 +0000
Subject: [PATCH 081/122] fix: rfilter1 refuses rules of an unknown format
 instead of storing an uninitialised rule

---
 src/rfilter1/include/grules2.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rfilter1/include/grules2.c b/src/rfilter1/include/grules2.c
index fba788c..41e94b7 100644
--- a/src/rfilter1/include/grules2.c
+++ b/src/rfilter1/include/grules2.c
@@ -60,6 +60,7 @@
   /*    error codes:   1: no valid information in pline       */
   /*                  31: memory ovf (too many rules)         */
   /*                  32: no arrow                            */
+  /*                  33: unknown format                      */
   /*   (Fatal error if memory allocation fails.)              */
   /************************************************************/
   static void r_process_data_line(RULESET2 *rset, Char *pline, int *perr)
@@ -195,6 +196,10 @@ if (db_level > 3) printf("%s getting right context\n",pdb);
                 rx->rcontext = strdup_safe(substr_to_str(ssx,sx,LINE_LENGTH),proc);
 if (db_level > 3) printf("%s rcontext='%s',len=%d\n",pdb,rx->rcontext,rx->rcontextl);
       }  }  }  }
+    else
+      {fprintf(stderr,"*ERR:%s: unknown rules format '%s'\n",proc,rset->format);
+       *perr = 33; goto RETURN;
+      }
 
     if (rset->nrules < rset->max_nrules)
       {rset->nrules += 1;
-- 
2.43.0


From 3058c45120c9232caa4a46de3ca2d7dd26f4eb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:42 +0000
Subject: [PATCH 082/122] fix: no signed shift into the sign bit when the lzma
 encoder checks its dictionary size

---
 src/asclite/core/lzma/LzmaEnc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asclite/core/lzma/LzmaEnc.c b/src/asclite/core/lzma/LzmaEnc.c
index 529fd98..c7be0b7 100755
--- a/src/asclite/core/lzma/LzmaEnc.c
+++ b/src/asclite/core/lzma/LzmaEnc.c
@@ -416,7 +416,7 @@ SRes LzmaEnc_SetProps(CLzmaEncHandle pp, const CLzmaEncProps *props2)
   LzmaEncProps_Normalize(&props);
 
   if (props.lc > LZMA_LC_MAX || props.lp > LZMA_LP_MAX || props.pb > LZMA_PB_MAX ||
-      props.dictSize > (1 << kDicLogSizeMaxCompress) || props.dictSize > (1 << 30))
+      props.dictSize > ((UInt32)1 << kDicLogSizeMaxCompress) || props.dictSize > (1 << 30))
     return SZ_ERROR_PARAM;
   p->dictSize = props.dictSize;
   p->matchFinderCycles = props.mc;
-- 
2.43.0


From b633d86591bc9f8ad855f4915f935f2b6ab732ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:07 +0000
Subject: [PATCH 083/122] fix: rfilter1 does not take a lone quotation mark in
 a rule for both boundary marks

---
 src/rfilter1/include/grules2.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rfilter1/include/grules2.c b/src/rfilter1/include/grules2.c
index 41e94b7..56b6f42 100644
--- a/src/rfilter1/include/grules2.c
+++ b/src/rfilter1/include/grules2.c
@@ -121,7 +121,7 @@ if (db_level > 3) printf("%s getting left hand side\n",pdb);
 	   while ((ssx->end > ssx->start)&&(isspace(*((unsigned char*)ssx->end)))) ssx->end -= 1;
       /* remove boundary characters, if any */
           if (((*ssx->start == '[')&&(*ssx->end == ']')) ||
-              ((*ssx->start == '"')&&(*ssx->end == '"')) )
+              ((ssx->start < ssx->end)&&(*ssx->start == '"')&&(*ssx->end == '"')) )
             {ssx->start += 1;
              ssx->end -= 1;
 	    }
@@ -143,7 +143,7 @@ if (db_level > 3) printf("%s getting right hand side\n",pdb);
          {while (isspace(*((unsigned char*)ssx->start))) ssx->start += 1;
       /* remove boundary characters, if any */
           if (((*ssx->start == '[')&&(*ssx->end == ']')) ||
-              ((*ssx->start == '"')&&(*ssx->end == '"')) )
+              ((ssx->start < ssx->end)&&(*ssx->start == '"')&&(*ssx->end == '"')) )
             {ssx->start += 1;
              ssx->end -= 1;
 	    }
@@ -165,7 +165,7 @@ if (db_level > 3) printf("%s getting left context\n",pdb);
             {while (isspace(*((unsigned char*)ssx->start))) ssx->start += 1;
             /* remove boundary characters, if any */
              if (((*ssx->start == '[')&&(*ssx->end == ']')) ||
-                 ((*ssx->start == '"')&&(*ssx->end == '"')) )
+                 ((ssx->start < ssx->end)&&(*ssx->start == '"')&&(*ssx->end == '"')) )
                {ssx->start += 1;
                 ssx->end -= 1;
 	       }
@@ -185,7 +185,7 @@ if (db_level > 3) printf("%s getting right context\n",pdb);
             {while (isspace(*((unsigned char*)ssx->start))) ssx->start += 1;
          /* remove boundary characters, if any */
              if (((*ssx->start == '[')&&(*ssx->end == ']')) ||
-                 ((*ssx->start == '"')&&(*ssx->end == '"')) )
+                 ((ssx->start < ssx->end)&&(*ssx->start == '"')&&(*ssx->end == '"')) )
                {ssx->start += 1;
                 ssx->end -= 1;
 	       }
-- 
2.43.0


From f05545a2a79279182482675ee3ad754172c1cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:14 +0000
Subject: [PATCH 084/122] fix: sc_stats -g grange2 copes with long file names
 and many systems or speakers

---
 src/sclite/range.c | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/sclite/range.c b/src/sclite/range.c
index 2d36a5b..def6afa 100644
--- a/src/sclite/range.c
+++ b/src/sclite/range.c
@@ -470,8 +470,8 @@ static void print_gnu_range_graph2(RANK *rank, char *percent_desc, char *testnam
     int b,t;
     FILE *fp_dat, *fp_mean, *fp_plt, *fp_median;
     double sum;
-    char mean_name[50], dat_name[50], plt_name[50], basename[50];
-    char median_name[50];
+    char *mean_name, *dat_name, *plt_name, *basename;
+    char *median_name;
     double *pctt, *rnkk;
     int *ind;
 
@@ -479,9 +479,9 @@ static void print_gnu_range_graph2(RANK *rank, char *percent_desc, char *testnam
     alloc_singarr(rnkk,MAX( rank->n_blk , rank->n_trt ),double);
     alloc_singarr(ind,MAX( rank->n_blk , rank->n_trt ),int);
 
-    sprintf(basename,"%s%s",(strcmp(base,"-")==0) ? "STATS" : base,
-	    (for_blks) ? ".spk" : ".sys");
-    sprintf(dat_name,"%s%s",basename,".dat");
+    basename = (char *)TEXT_strdup((TEXT *)rsprintf("%s%s",(strcmp(base,"-")==0) ? "STATS" : base,
+	    (for_blks) ? ".spk" : ".sys"));
+    dat_name = (char *)TEXT_strdup((TEXT *)rsprintf("%s%s",basename,".dat"));
     /* make the datafiles for the treatements */
     if ((fp_dat = fopen(dat_name,"w")) == (FILE *)0){
 	fprintf(stderr,"Error: unable to open GNUPLOT data file %s\n",
@@ -490,19 +490,19 @@ static void print_gnu_range_graph2(RANK *rank, char *percent_desc, char *testnam
     } else
 	if (feedback >= 1) printf("        Output written to '%s.*'\n",basename);
 
-    sprintf(mean_name,"%s%s",basename,".mean");
+    mean_name = (char *)TEXT_strdup((TEXT *)rsprintf("%s%s",basename,".mean"));
     if ((fp_mean = fopen(mean_name,"w")) == (FILE *)0){
 	fprintf(stderr,"Error: unable to open GNUPLOT data file %s\n",
 		mean_name);
 	exit(1);
     }
-    sprintf(median_name,"%s%s",basename,".median");
+    median_name = (char *)TEXT_strdup((TEXT *)rsprintf("%s%s",basename,".median"));
     if ((fp_median = fopen(median_name,"w")) == (FILE *)0){
 	fprintf(stderr,"Error: unable to open GNUPLOT data file %s\n",
 		median_name);
 	exit(1);
     }
-    sprintf(plt_name,"%s%s",basename,".plt");
+    plt_name = (char *)TEXT_strdup((TEXT *)rsprintf("%s%s",basename,".plt"));
     if ((fp_plt = fopen(plt_name,"w")) == (FILE *)0){
 	fprintf(stderr,"Error: unable to open GNUPLOT file %s\n",
 		plt_name);
@@ -555,13 +555,11 @@ static void print_gnu_range_graph2(RANK *rank, char *percent_desc, char *testnam
 	fprintf(fp_plt,"     \"%s\" using 2:1 title \"Median %s\" with lines",
 		median_name, percent_desc);
 	for (t=0;t< rank->n_trt ;t++){
-	    char fmt[100]; int x;
-	    strcpy(fmt,"%lf");
+	    int x;
+	    fprintf(fp_plt,",\\\n     \"%s\" using 2:1 \"%%lf",dat_name);
 	    for (x=0; x<t; x++)
-		strcat(fmt,"%*s");
-	    strcat(fmt,"%lf");
-	    fprintf(fp_plt,",\\\n     \"%s\" using 2:1 \"%s\" title \"%s\"",
-		    dat_name,fmt,rank->trt_name[t]);
+		fprintf(fp_plt,"%%*s");
+	    fprintf(fp_plt,"%%lf\" title \"%s\"",rank->trt_name[t]);
 	}
 	fprintf(fp_plt,"\n");
     } else {
@@ -602,13 +600,11 @@ static void print_gnu_range_graph2(RANK *rank, char *percent_desc, char *testnam
 	fprintf(fp_plt,"     \"%s\" using 2:1 title \"Median %s\" with lines",
 		median_name, percent_desc);
 	for (b=0;b< rank->n_blk ;b++){
-	    char fmt[100]; int x;
-	    strcpy(fmt,"%lf");
+	    int x;
+	    fprintf(fp_plt,",\\\n     \"%s\" using 2:1 \"%%lf",dat_name);
 	    for (x=0; x<b; x++)
-		strcat(fmt,"%*s");
-	    strcat(fmt,"%lf");
-	    fprintf(fp_plt,",\\\n     \"%s\" using 2:1 \"%s\" title \"%s\"",
-		    dat_name,fmt,rank->blk_name[b]);
+		fprintf(fp_plt,"%%*s");
+	    fprintf(fp_plt,"%%lf\" title \"%s\"",rank->blk_name[b]);
 	}
 	fprintf(fp_plt,"\n");
     }
@@ -618,6 +614,12 @@ static void print_gnu_range_graph2(RANK *rank, char *percent_desc, char *testnam
     fclose(fp_median);
     fclose(fp_plt);
 
+    free_singarr(mean_name,char);
+    free_singarr(dat_name,char);
+    free_singarr(plt_name,char);
+    free_singarr(basename,char);
+    free_singarr(median_name,char);
+
     free_singarr(pctt,double);
     free_singarr(rnkk,double);
     free_singarr(ind,int);
-- 
2.43.0


From a4334638faaa26c30831845c7d0e8988d8e3a204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:14 +0000
Subject: [PATCH 085/122] fix: sc_stats -r prn compares references to their end
 and makes room for long words

---
 src/sclite/corresp.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/sclite/corresp.c b/src/sclite/corresp.c
index e004b54..9b9ed09 100644
--- a/src/sclite/corresp.c
+++ b/src/sclite/corresp.c
@@ -294,7 +294,7 @@ static int identical_refs(int npaths,PATH **paths){
       if (w >= paths[0]->num && wp >= paths[p]->num)
 	;
       else {
-	if (w > paths[0]->num || wp > paths[p]->num)
+	if (w >= paths[0]->num || wp >= paths[p]->num)
 	  return 0;
 	if (TEXT_strcmp(((WORD *)(paths[0]->pset[w].a_ptr))->value,
 			((WORD *)(paths[p]->pset[wp].a_ptr))->value) != 0)
@@ -302,6 +302,13 @@ static int identical_refs(int npaths,PATH **paths){
 	w++; wp++;
       }
     }    
+    /* the words left over may only be insertions */
+    while (w < paths[0]->num && (paths[0]->pset[w].eval == P_INS))
+      w++;
+    while (wp < paths[p]->num && (paths[p]->pset[wp].eval == P_INS))
+      wp++;
+    if (w < paths[0]->num || wp < paths[p]->num)
+      return 0;
   }
   return 1;
 }
@@ -335,7 +342,7 @@ static void lattice_error(int npaths,PATH **paths, int *refWord, int *refErrRefW
       if (w >= paths[0]->num && wp >= paths[p]->num)
 	;
       else {
-	if (w > paths[0]->num || wp > paths[p]->num){
+	if (w >= paths[0]->num || wp >= paths[p]->num){
 	  fprintf(stderr,"Error: these paths are not compatible");
 	  exit(1);
 	}
@@ -535,6 +542,7 @@ void PATH_multi_print(SCORES **scor, PATH **path_set, int npath, int maxlen, FIL
   } else {
     int outlen, *psets;
     TEXT **outbuf;
+    int i, len, maxword = 0;
 
     lattice_error(npath, path_set, refWord, errRefWord, alex);
 
@@ -571,7 +579,19 @@ void PATH_multi_print(SCORES **scor, PATH **path_set, int npath, int maxlen, FIL
     fprintf(fp,"\n\n");
     
     /* output[npath] is the reference string */
-    alloc_2dimZ(outbuf,npath + 1,maxlen+1+40,TEXT,(TEXT)'\0');
+    /* a line holds at least one word, and a character may take four bytes */
+    for (p=0; p<npath; p++)
+      for (i=0; i<path_set[p]->num; i++){
+	if (path_set[p]->pset[i].a_ptr != (void *)0){
+	  len = strlen((char *)((WORD *)path_set[p]->pset[i].a_ptr)->value);
+	  maxword = MAX(maxword,len);
+	}
+	if (path_set[p]->pset[i].b_ptr != (void *)0){
+	  len = strlen((char *)((WORD *)path_set[p]->pset[i].b_ptr)->value);
+	  maxword = MAX(maxword,len);
+	}
+      }
+    alloc_2dimZ(outbuf,npath + 1,4 * (maxlen+1+40) + 2 * maxword,TEXT,(TEXT)'\0');
     alloc_1dimZ(psets,npath,int,0);   /* initialized to zero */
     add_header_data(scor, path_set, npath, outbuf, &outlen, maxlen, 0);
     while (more_data(path_set, npath, psets) > 0){
-- 
2.43.0


From c6707422537a62dfff8eeafe23ec28da8aaa3203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:14 +0000
Subject: [PATCH 086/122] fix: sc_stats -r sum matches the speakers of the
 systems by name and makes room for any number of systems

---
 src/sclite/scores.c | 47 +++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index abdc3af..99fec37 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -1583,9 +1583,10 @@ void print_system_summary(SCORES *sc, char *sys_root_name, int do_sm, int do_raw
 /************************************************************************/
 void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *test_name, int do_raw, int feedback)
 {
-    int s, g;
+    int s, g, b, nspk;
+    char **spkr;
     FILE *fp;
-    char *fname, lfmt[50], dfmt[50], *tot_pct_fmt, *pct_fmt;
+    char *fname, *lfmt, *dfmt, *tot_pct_fmt, *pct_fmt;
     int prec, tprec, l;
     int **wcount;
     double **errs;
@@ -1610,20 +1611,33 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
 
     /* allocate memory, make enough room to contain the mean, variance, stddev,
        median and Z_stat */
-    alloc_2dimZ(errs,nsc,sc[0]->num_grp + 5,double,0.0);
+    for (s=0, nspk=0; s<nsc; s++)
+	nspk += sc[s]->num_grp;
+    alloc_singarr(spkr,nspk + 1,char *);
+    /* one row per speaker, whatever their order in each system */
+    for (s=0, nspk=0; s<nsc; s++)
+	for (g=0; g<sc[s]->num_grp; g++){
+	    for (b=0; b<nspk && strcmp(spkr[b],sc[s]->grp[g].name) != 0; b++)
+		;
+	    if (b == nspk)
+		spkr[nspk++] = sc[s]->grp[g].name;
+	}
+    alloc_2dimZ(errs,nsc,nspk + 5,double,0.0);
     alloc_2dimZ(wcount,nsc,2,int,0);
 
     /* calculate the percentages */
     for (s=0; s<nsc; s++)
 	for (g=0; g<sc[s]->num_grp; g++){
 	    GRP *gr = &(sc[s]->grp[g]);
+	    for (b=0; strcmp(spkr[b],gr->name) != 0; b++)
+		;
 	    if (!do_raw)
-		errs[s][g] = pct((gr->ins + gr->sub + gr->del + 
+		errs[s][b] = pct((gr->ins + gr->sub + gr->del + 
 				  gr->splits + gr->merges),
 				 (gr->corr + gr->sub + gr->del +
 				  gr->splits + gr->merges));
 	    else
-		errs[s][g] = (gr->ins + gr->sub + gr->del + 
+		errs[s][b] = (gr->ins + gr->sub + gr->del + 
 			      gr->splits + gr->merges);
 	    wcount[s][0] += (gr->corr + gr->sub + gr->del + 
 			     gr->splits + gr->merges);
@@ -1634,14 +1648,16 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
     /* calculate the statistics.  The errs array has enough room in it */
     /* to containg the mean, variancs, std_dev, median, std_dev and Z_STAT*/
     for (s=0; s<nsc; s++)
-	calc_mean_var_std_dev_Zstat_double(errs[s],sc[0]->num_grp,
-					   &(errs[s][sc[0]->num_grp]),
-					   &(errs[s][sc[0]->num_grp+1]),
-					   &(errs[s][sc[0]->num_grp+2]),
-					   &(errs[s][sc[0]->num_grp+3]),
-					   &(errs[s][sc[0]->num_grp+4]));
+	calc_mean_var_std_dev_Zstat_double(errs[s],nspk,
+					   &(errs[s][nspk]),
+					   &(errs[s][nspk+1]),
+					   &(errs[s][nspk+2]),
+					   &(errs[s][nspk+3]),
+					   &(errs[s][nspk+4]));
 
     /* build the format statements */
+    alloc_singarr(lfmt,2 * nsc + 2,char);
+    alloc_singarr(dfmt,2 * nsc + 2,char);
     sprintf(lfmt,"c");    sprintf(dfmt,"l");
     for (s=0; s<nsc; s++){
 	strcat(lfmt,"|c");    strcat(dfmt,"|c");
@@ -1674,10 +1690,10 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
     Desc_flush_iterated_row();
 
     /* Set the data rows */	
-    for (g=0; g<sc[0]->num_grp; g++){
+    for (g=0; g<nspk; g++){
 	Desc_add_row_separation('-',BEFORE_ROW);
 	Desc_set_iterated_format(dfmt); 
-	Desc_set_iterated_value(rsprintf(" %s ",sc[0]->grp[g].name));
+	Desc_set_iterated_value(rsprintf(" %s ",spkr[g]));
 	for (s=0; s<nsc; s++)
 	    Desc_set_iterated_value(rsprintf(pct_fmt,
 					     F_ROUND(errs[s][g],prec)));
@@ -1702,7 +1718,7 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
     Desc_flush_iterated_row();
     Desc_add_row_separation('-',BEFORE_ROW);
 
-    for (l=0, g=sc[0]->num_grp; g<sc[0]->num_grp+5; l++, g++){
+    for (l=0, g=nspk; g<nspk+5; l++, g++){
 	if (l == 1 || l == 4)
 	    continue;
 	Desc_set_iterated_format(lfmt); 
@@ -1725,6 +1741,9 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
 
     free_2dimarr(errs,nsc,double);
     free_2dimarr(wcount,nsc,int);
+    free_singarr(spkr,char *);
+    free_singarr(lfmt,char);
+    free_singarr(dfmt,char);
 }
 
 
-- 
2.43.0


From de98652871652b8a0b2cf5900827613a28a39773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:14 +0000
Subject: [PATCH 087/122] fix: the tables of sc_stats make room for many
 systems and long names

---
 src/sclite/anovar.c   | 16 +++++++++++++---
 src/sclite/pad.c      |  5 +++++
 src/sclite/rank.c     | 31 +++++++++++++++++++++----------
 src/sclite/rpg.c      |  2 +-
 src/sclite/sc_stats.c | 11 +++++++++--
 5 files changed, 49 insertions(+), 16 deletions(-)

diff --git a/src/sclite/anovar.c b/src/sclite/anovar.c
index 18244bb..0ae74ae 100644
--- a/src/sclite/anovar.c
+++ b/src/sclite/anovar.c
@@ -421,10 +421,9 @@ static double calc_comp_value(int trt_num, int blk_num)
 
 static void print_ANOVAR_comp_matrix(int trt_num, int **stat_sum, char **trt_names, char *title, int *srt_ptr, FILE *fp)
 {
-    char pad[FULL_SCREEN],name_format[50],*hyphens="--------------------";
-    char *spaces="                    ";
+    char pad[FULL_SCREEN],name_format[50],*hyphens,*spaces;
     int t, t2;
-    int max_trt_name_len=4, hy_l=20;
+    int max_trt_name_len=4, hy_l;
 
     set_pad(pad,title, FULL_SCREEN);
     fprintf(fp,"\n\n%s%s\n",pad,title);
@@ -434,6 +433,14 @@ static void print_ANOVAR_comp_matrix(int trt_num, int **stat_sum, char **trt_nam
     for (t=0; t<trt_num; t++)
         if (max_trt_name_len < strlen(trt_names[t]))
             max_trt_name_len = strlen(trt_names[t]);
+    hy_l = max_trt_name_len+3;
+    alloc_singarr(hyphens,hy_l+1,char);
+    alloc_singarr(spaces,hy_l+1,char);
+    for (t=0; t<hy_l; t++){
+        hyphens[t] = '-';
+        spaces[t] = ' ';
+    }
+    hyphens[hy_l] = spaces[hy_l] = '\0';
     set_pad_cent_n(pad,(trt_num+1) * (max_trt_name_len+2+1), FULL_SCREEN);
     sprintf(name_format,"| %%-%ds ",max_trt_name_len);
 
@@ -480,6 +487,9 @@ static void print_ANOVAR_comp_matrix(int trt_num, int **stat_sum, char **trt_nam
     for (t=0; t<trt_num; t++)
        fprintf(fp,"%s",(hyphens+(hy_l-(max_trt_name_len+3))));
     fprintf(fp,"|\n");
+
+    free_singarr(hyphens,char);
+    free_singarr(spaces,char);
 }
 
 
diff --git a/src/sclite/pad.c b/src/sclite/pad.c
index ffdd3e6..25283b2 100644
--- a/src/sclite/pad.c
+++ b/src/sclite/pad.c
@@ -94,6 +94,11 @@ char *center(char *str, int len)
     }
 
     il = strlen(str);
+    if (il >= 2000){
+        fprintf(stderr,"Error: center utility in pad.c failed, buffer should be larger than %d\n",
+                       il);
+        exit(1);
+    }
     ft = (len - il) / 2;
     bk = len - (il+ft);
     ptr=desc;
diff --git a/src/sclite/rank.c b/src/sclite/rank.c
index 331c882..c28b738 100644
--- a/src/sclite/rank.c
+++ b/src/sclite/rank.c
@@ -193,13 +193,16 @@ void dump_full_RANK_struct(RANK *rank, char *t_name, char *b_name, char *blk_lab
     double sum_blk;
 
     int i,j, *ts, *bs;
-    char mfmt[50], tfmt[50], trfmt[50];
+    char *mfmt, *tfmt, *trfmt;
 
     /* use temporary pointers to point to the sorted indexes arrays */
     ts =  rank->blk_srt_ind ;
     bs =  rank->trt_srt_ind ;
 
 
+    alloc_singarr(mfmt,2 * rank->n_trt + 5,char);
+    alloc_singarr(tfmt,2 * rank->n_trt + 5,char);
+    alloc_singarr(trfmt,2 * rank->n_trt + 5,char);
     strcpy(mfmt,"ll");
     strcpy(tfmt,"la");
     strcpy(trfmt,"cc");
@@ -295,6 +298,9 @@ void dump_full_RANK_struct(RANK *rank, char *t_name, char *b_name, char *blk_lab
     Desc_flush_iterated_row();
 
     Desc_dump_report(0,stdout);
+    free_singarr(mfmt,char);
+    free_singarr(tfmt,char);
+    free_singarr(trfmt,char);
 
     form_feed(stdout);
 }
@@ -472,11 +478,13 @@ void print_composite_significance2(RANK *rank, int pr_width, int num_win, int **
     }
 
     if (matrix){
-	char title_fmt[100], row_fmt[100], header_fmt[100];
+	char *title_fmt, *row_fmt, *header_fmt;
 	int trt1, trt2;
 
 	/* build the titles format */
-	*title_fmt = *row_fmt = '\0';
+	alloc_singarr(title_fmt,4 * rank->n_trt + 6,char);
+	alloc_singarr(row_fmt,4 * rank->n_trt + 6,char);
+	alloc_singarr(header_fmt,3 * rank->n_trt + 4,char);
 	strcpy(title_fmt,"c=c");
 	strcpy(row_fmt,"c=c");
 	strcpy(header_fmt,"ca");
@@ -634,6 +642,9 @@ void print_composite_significance2(RANK *rank, int pr_width, int num_win, int **
 			    "extreme as that actually found, is no more than p.                        ");
 
 	Desc_dump_report(1,fp);
+	free_singarr(title_fmt,char);
+	free_singarr(row_fmt,char);
+	free_singarr(header_fmt,char);
 
         /* print_n_winner_comp_matrix(rank,wins,win_str,num_win,pr_width,fp); */
     }
@@ -649,7 +660,7 @@ void print_n_winner_comp_report(RANK *rank, int ***wins, char **win_ids, char **
 
     int max_name_len=0, trt1, trt2, trt, t1, t2, i, wid;
     int max_win_ids_len=0, max_str_len=7, max_desc_len=0, pr_width=79;
-    char sysname_fmt[40], title_line[200], fname[200], *trtfile;
+    char sysname_fmt[40], *title_line, *fname, *trtfile;
     FILE *fp;
 
     /* find the largest treat length */
@@ -668,27 +679,27 @@ void print_n_winner_comp_report(RANK *rank, int ***wins, char **win_ids, char **
     wid=0;
     sprintf(sysname_fmt," %%%ds ",max_name_len);
     pr_width = (max_name_len + 2) * (win_cnt + 1);
-    sprintf(title_line,"for the %s Test with other Systems:",testname);
+    title_line = rsprintf("for the %s Test with other Systems:",testname);
     pr_width = MAX(pr_width,strlen(title_line));
     pr_width = MAX(pr_width,max_desc_len+5+max_str_len);
 
     for (trt1=0; trt1< rank->n_trt ; trt1++){
 	if ((trtfile = strrchr(rank->trt_name[trt1],'/')) == NULL)
 	    trtfile = rank->trt_name[trt1];
-        sprintf(fname,"%s%s%s.sts", outdir,
+        fname = rsprintf("%s%s%s.sts", outdir,
 		(strcmp(outdir,"")==0) ? "" : "/",
 		(strcmp(outdir,"")==0) ? rank->trt_name[trt1] : trtfile);
         if ((fp=fopen(fname,"w")) == (FILE *)0){
             fprintf(stderr,"Warning: Unable to open output file %s, using stdout\n",fname);
             fp=stdout;
         }
-        sprintf(title_line,"Summary of Statistical Significance Tests:");
+        title_line = rsprintf("Summary of Statistical Significance Tests:");
         fprintf(fp,"%s\n",center(title_line,pr_width));
-        sprintf(title_line,"Comparing the System");
+        title_line = rsprintf("Comparing the System");
         fprintf(fp,"%s\n",center(title_line,pr_width));
-        sprintf(title_line,"%s",  rank->trt_name [ trt1 ] );
+        title_line = rsprintf("%s",  rank->trt_name [ trt1 ] );
         fprintf(fp,"%s\n",center(title_line,pr_width));
-        sprintf(title_line,"for the %s Test with other Systems:",testname);
+        title_line = rsprintf("for the %s Test with other Systems:",testname);
         fprintf(fp,"%s\n\n",center(title_line,pr_width));
        
         fprintf(fp,sysname_fmt,"");
diff --git a/src/sclite/rpg.c b/src/sclite/rpg.c
index 39d136b..5cc5944 100644
--- a/src/sclite/rpg.c
+++ b/src/sclite/rpg.c
@@ -21,7 +21,7 @@ static int static_rpt_dbg=0;
 static int static_parse_dbg=0;
 
 typedef struct column_definition_struct{
-    char format_str[100];
+    char format_str[MAX_VALUE_LEN];
     int min_just_width;
     int num_col;
     int num_col_chars;
diff --git a/src/sclite/sc_stats.c b/src/sclite/sc_stats.c
index 1795a8c..a49445d 100644
--- a/src/sclite/sc_stats.c
+++ b/src/sclite/sc_stats.c
@@ -120,12 +120,17 @@ void run_multi_sys(SCORES *scor[],int nscor,char *out_dir,int stats,int stats_ve
     int nwin=0, **winner[15];
     double **confidence[15];
     char *win_desc[15], *win_id[15], *stat_form_str=formula_str(stats_formula);
-    char outroot[200], *sign_str=(char *)0, *wilc_str=(char *)0;
-    char outname[200];
+    char *outroot, *sign_str=(char *)0, *wilc_str=(char *)0;
+    char *outname;
+    int outlen;
 
     if (feedback >= 1)
 	printf("Beginning Multi-System comparisons and reports\n");
 
+    /* room for the name, the directory and the extensions */
+    outlen = ((out_dir != (char *)0) ? strlen(out_dir) : 0) + strlen(stats_out_name) + 20;
+    alloc_singarr(outroot,outlen,char);
+    alloc_singarr(outname,outlen,char);
     if (strcmp(stats_out_name,"-") == 0)
 	strcpy(outroot,stats_out_name);
     else
@@ -293,6 +298,8 @@ void run_multi_sys(SCORES *scor[],int nscor,char *out_dir,int stats,int stats_ve
 	    free_2dimarr(winner[i],rank.n_trt,int);
 	free_RANK(&rank);
     }
+    free_singarr(outroot,char);
+    free_singarr(outname,char);
     if (sign_str != (char *)0) free(sign_str);
     if (wilc_str != (char *)0) free(wilc_str);
 
-- 
2.43.0


From 65dd1c7d43934207052bb1edcea5b70fa4507bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:49 +0000
Subject: [PATCH 088/122] fix: sc_stats refuses an input without any system,
 and range graphs without speakers are not made

---
 src/sclite/range.c    | 8 ++++++++
 src/sclite/sc_stats.c | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/sclite/range.c b/src/sclite/range.c
index def6afa..8604e67 100644
--- a/src/sclite/range.c
+++ b/src/sclite/range.c
@@ -343,6 +343,10 @@ static void print_gnu_range_graph(RANK *rank, char *percent_desc, char *testname
     double *pctt, *rnkk;
     int *ind;
 
+    if (rank->n_blk == 0 || rank->n_trt == 0){
+	fprintf(stderr,"Warning: no speakers, range graphs not made\n");
+	return;
+    }
     alloc_singarr(pctt,MAX( rank->n_blk , rank->n_trt ),double);
     alloc_singarr(rnkk,MAX( rank->n_blk , rank->n_trt ),double);
     alloc_singarr(ind,MAX( rank->n_blk , rank->n_trt ),int);
@@ -475,6 +479,10 @@ static void print_gnu_range_graph2(RANK *rank, char *percent_desc, char *testnam
     double *pctt, *rnkk;
     int *ind;
 
+    if (rank->n_blk == 0 || rank->n_trt == 0){
+	fprintf(stderr,"Warning: no speakers, range graphs not made\n");
+	return;
+    }
     alloc_singarr(pctt,MAX( rank->n_blk , rank->n_trt ),double);
     alloc_singarr(rnkk,MAX( rank->n_blk , rank->n_trt ),double);
     alloc_singarr(ind,MAX( rank->n_blk , rank->n_trt ),int);
diff --git a/src/sclite/sc_stats.c b/src/sclite/sc_stats.c
index a49445d..f0bb988 100644
--- a/src/sclite/sc_stats.c
+++ b/src/sclite/sc_stats.c
@@ -101,6 +101,10 @@ int main(int argc, char **argv){
 	}
     }
 
+    if (nscor == 0){
+	fprintf(scfp,"Error: no scored system in the input\n");
+	exit(1);
+    }
     if (stats > 0 || stats_graphs > 0 || reports > 0)
 	run_multi_sys(scor,nscor,out_dir,stats,stats_verbose,stats_unified,
 		      stats_graphs,stats_out_name,stats_formula,
-- 
2.43.0


From 39011b8214d5e8e419d4bfd33393d26370b9f106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:49 +0000
Subject: [PATCH 089/122] fix: sc_stats -r lur copes with systems of different
 speakers and refuses different labels

---
 src/sclite/lur.c | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/sclite/lur.c b/src/sclite/lur.c
index 11c7cbb..bd8a9d1 100644
--- a/src/sclite/lur.c
+++ b/src/sclite/lur.c
@@ -19,24 +19,24 @@ typedef struct label_struct{
 }
 #endif
 
-static LABEL *alloc_LABEL_SCORES(int nscor, SCORES *sc);
+static LABEL *alloc_LABEL_SCORES(int nscor, SCORES *sc, int nspkr);
 static void compute_label_scores(SCORES *sc,int scnum, LABEL *lab);
 static void create_report(LABEL *label, SCORES *sc, FILE *fp);
 static void create_N_lur_report(LABEL *label, SCORES *sc[], int nsc, char *tname, FILE *fp);
 static void free_LABEL_SCORES(LABEL *tlab, SCORES *sc, int nscor);
 
-static LABEL *alloc_LABEL_SCORES(int nscor, SCORES *sc)
+static LABEL *alloc_LABEL_SCORES(int nscor, SCORES *sc, int nspkr)
 {
     LABEL *tlab;
 
     int i,j,k;
     alloc_singarr(tlab,1,LABEL);
     alloc_3dimarr(tlab->lsc,nscor,sc->aset.num_plab,
-		  sc->num_grp,LABEL_SCORES);
+		  nspkr,LABEL_SCORES);
     alloc_singZ(tlab->location,sc->aset.num_plab,int,(-1));
     for (i=0; i<nscor; i++)
 	for (j=0; j<sc->aset.num_plab; j++)
-	    for (k=0; k<sc->num_grp; k++)
+	    for (k=0; k<nspkr; k++)
 		tlab->lsc[i][j][k].nref = tlab->lsc[i][j][k].nerr = 0;
     return(tlab);
 }
@@ -290,13 +290,15 @@ static void create_report(LABEL *labels, SCORES *sc, FILE *fp)
 
 static void create_N_lur_report(LABEL *labels, SCORES *sc[], int nsc, char *test_name, FILE *fp)
 { 
-    int j, k, npres, sumr, sume, i, s;
+    int j, k, npres, sumr, sume, i, s, nspkr = 0;
     char *titlefmt,*fmt,*categfmt,*statfmt;
     double *ref_words, *err_words;
     double ***ref_sts, ***err_sts;
     
-    alloc_singarr(ref_words,sc[0]->num_grp,double);
-    alloc_singarr(err_words,sc[0]->num_grp,double);
+    for (s=0; s<nsc; s++)
+	nspkr = MAX(nspkr,sc[s]->num_grp);
+    alloc_singarr(ref_words,nspkr,double);
+    alloc_singarr(err_words,nspkr,double);
     alloc_3dimarr(ref_sts,nsc,sc[0]->aset.num_plab,6,double);
     alloc_3dimarr(err_sts,nsc,sc[0]->aset.num_plab,6,double);
     
@@ -472,7 +474,7 @@ void print_lur(SCORES *sc, char *sys_root_name, int feedback)
 	if (feedback >= 1)
 	    printf("    Writing LUR scoring report to '%s'\n",fname);
 
-    labels = alloc_LABEL_SCORES(1, sc);
+    labels = alloc_LABEL_SCORES(1, sc, sc->num_grp);
 
     compute_label_scores(sc, 0, labels);
 
@@ -492,8 +494,22 @@ void print_N_lur(SCORES *sc[], int nsc, char *out_root_name, char *test_name, in
     FILE *fp;
     char *fname;
     int i;
+    int j, nspkr = 0;
     LABEL *labels = (LABEL *)0;
 
+    for (i=0; i<nsc; i++){
+	nspkr = MAX(nspkr,sc[i]->num_grp);
+	/* the table has one set of columns for all the systems */
+	for (j=0; j<sc[0]->aset.num_plab && j<sc[i]->aset.num_plab &&
+		 strcmp(sc[0]->aset.plab[j].id,sc[i]->aset.plab[j].id) == 0; j++)
+	    ;
+	if (j < sc[0]->aset.num_plab || j < sc[i]->aset.num_plab){
+	    fprintf(stderr,"Error: Systems '%s' and '%s' do not have the same labels,"
+		    " no LUR report possible\n",sc[0]->title,sc[i]->title);
+	    exit(1);
+	}
+    }
+
     if (strcmp(out_root_name,"-") == 0 ||
 	((fp = fopen(fname=rsprintf("%s.lur",out_root_name),"w")) == NULL))
 	fp = stdout;
@@ -501,7 +517,7 @@ void print_N_lur(SCORES *sc[], int nsc, char *out_root_name, char *test_name, in
 	if (feedback >= 1)
 	    printf("    Writing LUR scoring report to '%s'\n",fname);
 
-    labels = alloc_LABEL_SCORES(nsc, sc[0]);
+    labels = alloc_LABEL_SCORES(nsc, sc[0], nspkr);
 
     for (i=0; i<nsc; i++)
 	compute_label_scores(sc[i], i, labels);
-- 
2.43.0


From 3790053cb565c595905e71062f4c2c73c446d6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:49 +0000
Subject: [PATCH 090/122] fix: the McNemar matrix makes room for any number of
 systems

---
 src/sclite/sentmcn.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sclite/sentmcn.c b/src/sclite/sentmcn.c
index 4ab436f..a1864f7 100644
--- a/src/sclite/sentmcn.c
+++ b/src/sclite/sentmcn.c
@@ -271,7 +271,7 @@ static int perform_peregoy_method(int **table, int verbosely,FILE *fp, double *c
 /********************************************************************/
 static void print_compare_matrix_for_sent_M(SCORES *scor[], int nscor, int **winner, double **conf, char *tname, char *matrix_name,FILE *fp)
 {
-    char fmt[50];
+    char *fmt;
     int i,j,sys,spkr,snt, *corr_arr;
 
     alloc_singarr(corr_arr,nscor,int);
@@ -285,6 +285,7 @@ static void print_compare_matrix_for_sent_M(SCORES *scor[], int nscor, int **win
 		                 scor[sys]->grp[spkr].serr;
     }
 
+    alloc_singarr(fmt,2 * nscor + 2,char);
     strcpy(fmt,"c");
     for (i=0; i<nscor; i++) strcat(fmt,"|c");
 
@@ -329,6 +330,7 @@ static void print_compare_matrix_for_sent_M(SCORES *scor[], int nscor, int **win
 	Desc_flush_iterated_row();
     }
     Desc_dump_report(1,fp);
+    free_singarr(fmt,char);
     free_singarr(corr_arr,int);
 }
 
-- 
2.43.0


From 40e0a3c9fd6d688f0b9736618adfaba3c1744e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:51 +0000
Subject: [PATCH 091/122] fix: asclite refuses unbalanced alternations instead
 of recursing for ever or losing words

---
 src/asclite/core/linestyle_inputparser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/asclite/core/linestyle_inputparser.cpp b/src/asclite/core/linestyle_inputparser.cpp
index 3fd2d37..960006d 100644
--- a/src/asclite/core/linestyle_inputparser.cpp
+++ b/src/asclite/core/linestyle_inputparser.cpp
@@ -352,6 +352,9 @@ vector<string> LineStyleInputParser::TokeniseWords(const string& line)
         {
             --currentParenthesisOpen;
         }
+
+        if (currentParenthesisOpen < 0)
+            break;
     
         if (string(word).compare("{") == 0 && currentParenthesisOpen == 1)
         {
@@ -379,6 +382,12 @@ vector<string> LineStyleInputParser::TokeniseWords(const string& line)
         word = strtok(NULL, " \t\r\n");
     }
   
+    if (currentParenthesisOpen != 0)
+    {
+        LOG_FATAL(Logger::getLogger(), "Parsing Error: Unbalanced braces in an alternation, exiting!");
+        exit(E_LOAD);
+    }
+
     return res;
 }
 
-- 
2.43.0


From 111c2bbc128fa2019cb5beba5a7d7e7146e54987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:59 +0000
Subject: [PATCH 092/122] fix: asclite's matrix compression writes inside the
 block it allocates for the output

---
 src/asclite/core/compressedlevenshteinmatrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/asclite/core/compressedlevenshteinmatrix.cpp b/src/asclite/core/compressedlevenshteinmatrix.cpp
index b907bda..06901b0 100644
--- a/src/asclite/core/compressedlevenshteinmatrix.cpp
+++ b/src/asclite/core/compressedlevenshteinmatrix.cpp
@@ -65,8 +65,8 @@ CompressedLevenshteinMatrix::CompressedLevenshteinMatrix(const size_t& _NbrDimen
 	
 	/* To guarantee that the compressed data will fit in its buffer, allocate 
 	   an output buffer of size 2% larger than the uncompressed data, plus extra
-	   size for the compression properties. */
-	m_BaseLengthOut = m_BaseLengthIn + m_BaseLengthIn / 50 + m_lzmaPropertiesSize;
+	   size for what the encoder writes at least and for the compression properties. */
+	m_BaseLengthOut = m_BaseLengthIn + m_BaseLengthIn / 50 + 128 + m_lzmaPropertiesSize;
 	
 	m_MultiplicatorBlockDimension = new size_t[m_NbrDimensions];
 	m_MultiplicatorDivider = new size_t[m_NbrDimensions];
@@ -182,7 +182,7 @@ void CompressedLevenshteinMatrix::CompressBlock(const size_t& block_index)
 	{		
 		// Block is not compressed, then compress it;
 		size_t decomp_lengh = m_TabSizes[block_index];
-		size_t comp_lengh = m_BaseLengthOut;
+		size_t comp_lengh = m_BaseLengthOut - m_lzmaPropertiesSize;
 		m_TabStartByteCompressed[block_index] = (int*) malloc(m_BaseLengthOut);
 		
 		size_t outPropsize = m_lzmaPropertiesSize;
-- 
2.43.0


From be9b288a7218f9d04f46bb089b1a814d9244be1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:25 +0000
Subject: [PATCH 093/122] fix: asclite gives the words of an expanded
 alternation the confidence of the token they replace

---
 src/asclite/core/linestyle_inputparser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asclite/core/linestyle_inputparser.cpp b/src/asclite/core/linestyle_inputparser.cpp
index 960006d..3046602 100644
--- a/src/asclite/core/linestyle_inputparser.cpp
+++ b/src/asclite/core/linestyle_inputparser.cpp
@@ -105,6 +105,8 @@ SpeechSet *LineStyleInputParser::ExpandAlternationSpeechSet(SpeechSet *sset)
 					string tokens_prefiltered1 = ReplaceChar(tokens_prefiltered0, string("_"), string(" "));
 					string tokens_prefiltered2 = ReplaceChar(tokens_prefiltered1, string("#"), string(" ")); 
 					
+					m_bUseConfidence = token->IsConfidenceSet();
+					m_Confidence = token->GetConfidence();
 					m_bUseExtended = true;
 					m_starttime = token->GetStartTime();
 					m_endtime = token->GetEndTime();
-- 
2.43.0


From d6511715b1a2905937b0f6e885d1798ef47ea070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:33 +0000
Subject: [PATCH 094/122] fix: the NCE averages leave out the speakers without
 reference words, as the report says

---
 src/sclite/scores.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 99fec37..abe2632 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -1116,7 +1116,7 @@ void print_system_summary(SCORES *sc, char *sys_root_name, int do_sm, int do_raw
     char *pct_fmt, *tot_pct_fmt, *spkr_fmt=" %s ", *sent_fmt="%5d", *Zpct_fmt;
     char *tot_Zpct_fmt, *tpct_fmt;
     int prec, tprec;
-    int Zero_spkr = 0;
+    int Zero_spkr = 0, nce_spkr;
     char *Znce_fmt;
     char *nce_fmt; int nce_prec;
 
@@ -1430,6 +1430,10 @@ void print_system_summary(SCORES *sc, char *sys_root_name, int do_sm, int do_raw
 	}
       }
     }
+    /* the NCE is not computable without reference words */
+    for (nce_spkr=spkr=0; spkr<sc->num_grp; spkr++)
+	if (word_num_arr[spkr] != 0)
+	  nce_arr[nce_spkr++] = nce_arr[spkr];
     calc_mean_var_std_dev_Zstat(sent_num_arr,sc->num_grp,
 				&mean_sent_num,&var_sent_num,&sd_sent_num,
 				&median_sent_num, &Z_stat_fl);
@@ -1454,7 +1458,7 @@ void print_system_summary(SCORES *sc, char *sys_root_name, int do_sm, int do_raw
 			&mean_err,&var_err,&sd_err,&median_err,&Z_stat);
     calc_mean_var_std_dev_Zstat_double(serr_arr,sc->num_grp,
 		        &mean_serr,&var_serr,&sd_serr,&median_serr,&Z_stat);
-    calc_mean_var_std_dev_Zstat_double(nce_arr,sc->num_grp,
+    calc_mean_var_std_dev_Zstat_double(nce_arr,nce_spkr,
 		        &mean_nce,&var_nce,&sd_nce,&median_nce,&Z_stat);
 
     Desc_add_row_separation('=',BEFORE_ROW);
-- 
2.43.0


From 8c56ba0b6503cfda0aa052e8ea16aa23b43d7f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:33 +0000
Subject: [PATCH 095/122] fix: confidence graphs are skipped without
 confidences whatever the feedback level

---
 src/sclite/det.c | 50 ++++++++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/src/sclite/det.c b/src/sclite/det.c
index 8f0aecf..df744fa 100644
--- a/src/sclite/det.c
+++ b/src/sclite/det.c
@@ -31,14 +31,13 @@ int make_SCORES_DET_curve(SCORES *scor[], int nscor, char *outroot, int feedback
       "\"50\" 0.0, \"60\" 0.25, \"70\" 0.52, \"80\" 0.84, \"90\" 1.28, "
       "\"95\" 1.64, \"98\" 2.05, \"99.5\" 2.57, \"99.9\" 3.08)";
 
-    if (feedback >= 1){
-      if (hyp_confidences_available(scor[0])) {
-        printf("    Writing DET Curve to '%s.det.[plt,dat]'\n",outroot);
-      } else {
+    if (! hyp_confidences_available(scor[0])) {
+      if (feedback >= 1)
         printf("    Skipping DET Curve, no confidence scores supplied.\n");
-	return 0;
-      }
+      return 0;
     }
+    if (feedback >= 1)
+      printf("    Writing DET Curve to '%s.det.[plt,dat]'\n",outroot);
     
     /* output the DET Curve GNUPLUT command file */
     if ((fpd = fopen(rsprintf("%s.det.plt",outroot),"w")) == (FILE *)0){
@@ -325,15 +324,14 @@ int make_confidence_histogram(SCORES *scor, char *outroot, int feedback){
     FILE *fp_dat1, *fp_plt;
     int rtn, b, nbin = 100;
 
-    if (feedback >= 1){
-      if (hyp_confidences_available(scor)) {
-        printf("    Writing Confidence Histogram '%s.hist.[plt,dat]'\n",
-	       outroot);
-      } else {
+    if (! hyp_confidences_available(scor)) {
+      if (feedback >= 1)
         printf("    Skipping Confidence Histogram, no confidence scores supplied.\n");
-	return 0;
-      }
+      return 0;
     }
+    if (feedback >= 1)
+      printf("    Writing Confidence Histogram '%s.hist.[plt,dat]'\n",
+	       outroot);
     
     /* allocate memory */
     alloc_2dimZ(hist,nbin,NUM_H_ELEM,double,0.0);
@@ -398,15 +396,14 @@ int make_binned_confidence(SCORES *scor, char *outroot, int feedback){
     FILE *fp_dat1, *fp_plt;
     int rtn, b, nbin = 10;
 
-    if (feedback >= 1){
-      if (hyp_confidences_available(scor)) {
-        printf("    Writing Binned Histogram '%s.bhist.[plt,dat1]'\n",
-	       outroot);
-      } else {
+    if (! hyp_confidences_available(scor)) {
+      if (feedback >= 1)
         printf("    Skipping Binned Histogram, no confidence scores supplied.\n");
-	return 0;
-      }
+      return 0;
     }
+    if (feedback >= 1)
+      printf("    Writing Binned Histogram '%s.bhist.[plt,dat1]'\n",
+	       outroot);
     
     /* allocate memory */
     alloc_2dimZ(hist,nbin,NUM_H_ELEM,double,0.0);
@@ -466,15 +463,14 @@ int make_scaled_binned_confidence(SCORES *scor, char *outroot, int bins, int fee
   double *conf;
   FILE *fp_dat, *fp_plt;
 
-  if (feedback >= 1){
-    if (hyp_confidences_available(scor))
-      printf("    Writing Scaled Binned Histogram '%s.sbhist.[plt,dat]'\n",
-	     outroot);
-    else{
+  if (! hyp_confidences_available(scor)) {
+    if (feedback >= 1)
       printf("    Skipping Scaled Binned Histogram, no confidence scores supplied.\n");
-      return 0;
-    }
+    return 0;
   }
+  if (feedback >= 1)
+    printf("    Writing Scaled Binned Histogram '%s.sbhist.[plt,dat]'\n",
+	     outroot);
 
   /* algo, :
      1: make a list of all confidences, with either corr or incorr flags
-- 
2.43.0


From f5311458e2dcaf508a832d25790546ab49191c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:07 +0000
Subject: [PATCH 096/122] fix: the range tables show highs below 0% and lows
 above 100%

---
 src/sclite/range.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sclite/range.c b/src/sclite/range.c
index 8604e67..521948b 100644
--- a/src/sclite/range.c
+++ b/src/sclite/range.c
@@ -101,8 +101,8 @@ static void do_blk_ranges(RANK *rank, int scale, char *p_desc, char *tname, FILE
 
     /**** find the high, low, and the standard deviation for each block */
     for (i=0;i< rank->n_blk ;i++){
-        high[i] = 0.0;
-        low[i] = 100.0;
+        high[i] = (rank->n_trt > 0) ? rank->pcts [ i ][ 0 ] : 0.0;
+        low[i] = high[i];
         mean[i] = 0.0;
         for (j=0;j< rank->n_trt ;j++){
             if (rank->pcts [ i ][ j ]  > high[i])
@@ -153,8 +153,8 @@ static void do_trt_ranges(RANK *rank, int scale, char *p_desc, char *tname, FILE
 
     /**** find the high, low, and the standard deviation for each treatment*/
     for (i=0;i< rank->n_trt ;i++){
-        high[i] = 0.0;
-        low[i] = 100.0;
+        high[i] = (rank->n_blk > 0) ? rank->pcts [ 0 ][ i ] : 0.0;
+        low[i] = high[i];
         mean[i] = 0.0;
         for (j=0;j< rank->n_blk ;j++){
             if (rank->pcts [ j ][ i ]  > high[i])
-- 
2.43.0


From e36bc4a79c343be3d0282cf72dc477dadc2eaaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:07 +0000
Subject: [PATCH 097/122] fix: sc_stats -r prn parts the words at the end of a
 line

---
 src/sclite/corresp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sclite/corresp.c b/src/sclite/corresp.c
index 9b9ed09..250dd90 100644
--- a/src/sclite/corresp.c
+++ b/src/sclite/corresp.c
@@ -464,7 +464,7 @@ static void process_inserts(SCORES **scor, PATH **path_set, int npath, int *pset
 
   *outlen += max;
 
-  if (1 + *outlen < maxlen-1){
+  if (*outlen < maxlen-1){
     for (p=0; p<=npath; p++)
       TEXT_strcat(outbuf[p],(TEXT *)" ");
     *outlen += 1;
@@ -518,7 +518,7 @@ static void process_rest(SCORES **scor, PATH **path_set, int npath, int *psets,
   }
   *outlen += max;
 
-  if (1 + *outlen < maxlen-1){
+  if (*outlen < maxlen-1){
     for (p=0; p<=npath; p++)
       TEXT_strcat(outbuf[p],(TEXT *)" ");
     *outlen += 1;
-- 
2.43.0


From db13e5624c7dd81acebe96d2c11c47904a5a8d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:07 +0000
Subject: [PATCH 098/122] fix: sc_stats -r prn goes on to the common speakers
 behind one that is not common

---
 src/sclite/corresp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sclite/corresp.c b/src/sclite/corresp.c
index 250dd90..f48a9e3 100644
--- a/src/sclite/corresp.c
+++ b/src/sclite/corresp.c
@@ -154,7 +154,7 @@ void find_matched_grp(SC_CORRESPONDENCE *corresp){
 	break;
     }
     if (sc < corresp->nscor)
-      break;
+      continue;
 
     corresp->num_grp++;
     
@@ -192,7 +192,7 @@ void find_matched_paths(SC_CORRESPONDENCE *corresp){
 	 mpa < corresp->scor[0]->grp[corresp->grp[gr]->grp_ptr[0]].num_path;
 	 mpa++){
       /* set the next path to mpa */
-      corresp->grp[corresp->grp[gr]->grp_ptr[0]]->path_ptr[*np][0] = mpa;
+      corresp->grp[gr]->path_ptr[*np][0] = mpa;
       
       /* search all the other scor strucs for a matching id */
       for (sc=1; sc<corresp->nscor; sc++){
-- 
2.43.0


From 6c1fde53c55eaf3dca191f7ab9ad897a09fd9fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:07 +0000
Subject: [PATCH 099/122] fix: the lattice summary of sc_stats -r prn counts no
 utterance twice when references differ

---
 src/sclite/corresp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sclite/corresp.c b/src/sclite/corresp.c
index f48a9e3..0e08a85 100644
--- a/src/sclite/corresp.c
+++ b/src/sclite/corresp.c
@@ -530,6 +530,7 @@ void PATH_multi_print(SCORES **scor, PATH **path_set, int npath, int maxlen, FIL
   int p;
 
   if (maxlen < 80) maxlen = 80;
+  *refWord = *errRefWord = 0;
 
   if (npath == 1)
     PATH_print(path_set[0],fp,maxlen);
-- 
2.43.0


From ba33f34532098e7478c5360a74aa46f5cac68cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:07 +0000
Subject: [PATCH 100/122] fix: sc_stats -r prn has room for any number of
 systems

---
 src/sclite/corresp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sclite/corresp.c b/src/sclite/corresp.c
index 0e08a85..9e190ce 100644
--- a/src/sclite/corresp.c
+++ b/src/sclite/corresp.c
@@ -44,8 +44,10 @@ void dump_paths_of_SC_CORRESPONDENCE(SC_CORRESPONDENCE *corresp, int maxlen, FIL
   int totErrRefWord = 0, errRefWord = 0;
   int numPaths = 0, numIdentPaths = 0;
   AUTO_LEX alex; 
+  PATH **path_set;
 
   AUTO_LEX_init(&alex, 1000);
+  alloc_singarr(path_set,corresp->nscor,PATH *);
 
   fprintf(fp,"Common scoring speakers and segments\n");
   fprintf(fp,"Version 0.1\n");
@@ -80,7 +82,6 @@ void dump_paths_of_SC_CORRESPONDENCE(SC_CORRESPONDENCE *corresp, int maxlen, FIL
     int to_print = 1;
 
     for (pa=0; pa<corresp->grp[gr]->num_path; pa++){
-      PATH *path_set[100]; 
       fprintf(fp,"Speaker: %s\n",
 	      corresp->scor[0]->grp[corresp->grp[gr]->grp_ptr[0]].name);
       /* load an array with paths !!! */
@@ -104,6 +105,7 @@ void dump_paths_of_SC_CORRESPONDENCE(SC_CORRESPONDENCE *corresp, int maxlen, FIL
 	  ((float)(totRefWord - totErrRefWord)/(float)totRefWord)*100.0);
 
   AUTO_LEX_printout(&alex, fp, "\nList of not correct reference words", 1);
+  free_singarr(path_set,PATH *);
 }
 
 void dump_SC_CORRESPONDENCE(SC_CORRESPONDENCE *corresp, FILE *fp){
-- 
2.43.0


From ffd9ddae144721d12a8488f34d99c29720f48bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:07 +0000
Subject: [PATCH 101/122] fix: the averages of the multi-system label report
 leave out speakers without reference words, as the single report does

---
 src/sclite/lur.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sclite/lur.c b/src/sclite/lur.c
index bd8a9d1..7afa66a 100644
--- a/src/sclite/lur.c
+++ b/src/sclite/lur.c
@@ -378,15 +378,16 @@ static void create_N_lur_report(LABEL *labels, SCORES *sc[], int nsc, char *test
     for (j=0; j<sc[0]->aset.num_plab; j++){
 	for (s=0; s<nsc; s++){
 	    npres = sumr = sume = 0;
-	    for (k=0; k<sc[s]->num_grp; k++)
-		if (labels->lsc[s][j][k].nref + labels->lsc[s][j][k].nerr != 0){
+	    for (k=0; k<sc[s]->num_grp; k++){
+		if (labels->lsc[s][j][k].nref > 0){
 		    ref_words[npres] = labels->lsc[s][j][k].nref;
 		    err_words[npres] = pct(labels->lsc[s][j][k].nerr,
 					   labels->lsc[s][j][k].nref);
-		    sumr += labels->lsc[s][j][k].nref;
-		    sume += labels->lsc[s][j][k].nerr;
 		    npres++;
 		}
+		sumr += labels->lsc[s][j][k].nref;
+		sume += labels->lsc[s][j][k].nerr;
+	    }
 	    /* calc and store statistics */
 	    calc_mean_var_std_dev_Zstat_double(ref_words,npres,&(ref_sts[s][j][1]),
 					       &(ref_sts[s][j][4]),&(ref_sts[s][j][2]),
-- 
2.43.0


From 739d7c148569eac87aced5691f99d22f45e7d1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:34 +0000
Subject: [PATCH 102/122] fix: sc_stats -r prn counts the words that no system
 has right under their own spelling

---
 src/sclite/alex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/alex.c b/src/sclite/alex.c
index d763550..51a07e5 100644
--- a/src/sclite/alex.c
+++ b/src/sclite/alex.c
@@ -56,7 +56,7 @@ int AUTO_LEX_find(AUTO_LEX *alex, TEXT *str){
   int success = 0;
   int ind = index_search(alex,str,&success);
   if (success)
-    return(ind);
+    return(alex->sort[ind]);
   return(-1);
 }
 
-- 
2.43.0


From 5f3de2a7ec640a78833af7e16c9f716682e386cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:19 +0000
Subject: [PATCH 103/122] fix: sclite -d runs at the same time do not share
 temporary files

---
 src/sclite/align.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 1a4fe1d..c0461e7 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -954,22 +954,18 @@ void process_diff_line(TEXT *diff_out, PATH *path, TEXT **firsttoken){
 }
 
 void set_temp_files(char *refwords, char *hypwords){
-    int pid = getpid();
-    int max=30, n=0, fail;
-    struct stat fileinfo;
-
-    do {
-	sprintf(refwords,"/tmp/ref.%d",pid+n);
-	sprintf(hypwords,"/tmp/hyp.%d",pid+n);
-	n++;
-	fail = (stat(refwords,&fileinfo) == 0) ||
-	       (stat(hypwords,&fileinfo) == 0);
-    } while (fail && (n < max));
-    if (fail){
-	fprintf(stderr,"Can't locate temp file names. Searched /tmp/ref.[%d-%d]\n",
-		pid,pid+n);
+    int rfd, hfd;
+
+    /* create the files, so that no other process can take their names */
+    strcpy(refwords,"/tmp/ref.XXXXXX");
+    strcpy(hypwords,"/tmp/hyp.XXXXXX");
+    if ((rfd = mkstemp(refwords)) < 0 || (hfd = mkstemp(hypwords)) < 0){
+	fprintf(stderr,"Can't create temp files in /tmp\n");
+	if (rfd >= 0) unlink(refwords);
 	exit(1);
     }
+    close(rfd);
+    close(hfd);
 }
 
 SCORES *align_trans_mode_diff(char *ref_file, char *hyp_file, char *set_title, int keep_path, int case_sense, int feedback, enum id_types idt){
-- 
2.43.0


From 7cc107371a1588ccf73fc927aca057cb189c3aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:06 +0000
Subject: [PATCH 104/122] fix: stm2rttm writes its records in the same order in
 every run

---
 src/stm2rttm/stm2rttm.pl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/stm2rttm/stm2rttm.pl b/src/stm2rttm/stm2rttm.pl
index 4a1ad3c..21aa5e8 100755
--- a/src/stm2rttm/stm2rttm.pl
+++ b/src/stm2rttm/stm2rttm.pl
@@ -118,9 +118,9 @@ foreach $spkr (keys %STM) {
 }
 
 # Output speaker info metadata
-foreach $spkr(keys %STM){
-	for $file (keys %{ $STM{$spkr} }){
-		for $chan (keys %{ $STM{$spkr}{$file} }){
+foreach $spkr(sort keys %STM){
+	for $file (sort keys %{ $STM{$spkr} }){
+		for $chan (sort keys %{ $STM{$spkr}{$file} }){
 	    	if ($spkr !~ /excluded_region/i) {
 				print "SPKR-INFO $file $chan <NA> <NA> <NA> $spkrInfo{$spkr} $spkr <NA>\n";
 	    	}
@@ -129,9 +129,9 @@ foreach $spkr(keys %STM){
 }
 
 # Output speaker turns
-foreach $spkr(keys %STM){
-	for $file (keys %{ $STM{$spkr} }){
-		for $chan (keys %{ $STM{$spkr}{$file} }){
+foreach $spkr(sort keys %STM){
+	for $file (sort keys %{ $STM{$spkr} }){
+		for $chan (sort keys %{ $STM{$spkr}{$file} }){
 	    	for $seg (@{ $STM{$spkr}{$file}{$chan} }){
 				$beg = $seg->[$START_TIME];
 				$end = $seg->[$END_TIME];
-- 
2.43.0


From cb6fb0a51e42d0209a103b5432b3d28a250f75e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:06 +0000
Subject: [PATCH 105/122] fix: rttmSmooth writes its records in the same order
 in every run

---
 src/rttmSmooth/rttmSmooth.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rttmSmooth/rttmSmooth.pl b/src/rttmSmooth/rttmSmooth.pl
index 0892adc..874d59e 100755
--- a/src/rttmSmooth/rttmSmooth.pl
+++ b/src/rttmSmooth/rttmSmooth.pl
@@ -28,7 +28,7 @@ my $max;
 foreach my $file(sort (keys %data)){
 #    print "PRocess $file\n";
     my @d;
-    foreach my $key(keys %{ $data{$file} }){
+    foreach my $key(sort keys %{ $data{$file} }){
 	next if ($key eq "SPEAKER");
 	@d = @{ $data{$file}{$key} };
 	for (my $i=0; $i<@d; $i++){
-- 
2.43.0


From c034e8f059a026479c162d203513da3fcefc75dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:49 +0000
Subject: [PATCH 106/122] fix: the speaker type table of md-eval does not
 depend on the order of a hash

---
 src/md-eval/md-eval.pl | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/md-eval/md-eval.pl b/src/md-eval/md-eval.pl
index 401ee6e..7350b6b 100755
--- a/src/md-eval/md-eval.pl
+++ b/src/md-eval/md-eval.pl
@@ -1998,18 +1998,18 @@ sub score_speaker_segments {
 	    $num_types{SYS}{$sys_type}++;
 	}
 	foreach $ref_type (keys %{$num_types{REF}}) {
-	    $nref = $num_types{REF}{$ref_type};
-	    $type_stats{REF}{$ref_type} += $nref*$seg_dur;
+	    my $nref_type = $num_types{REF}{$ref_type};
+	    $type_stats{REF}{$ref_type} += $nref_type*$seg_dur;
 	    foreach $sys_type (keys %{$num_types{SYS}}) {
-		$nsys = $num_types{SYS}{$sys_type};
-		$type_stats{JOINT}{$ref_type}{$sys_type} += min($nref,$nsys)*$seg_dur;
+		my $nsys_type = $num_types{SYS}{$sys_type};
+		$type_stats{JOINT}{$ref_type}{$sys_type} += min($nref_type,$nsys_type)*$seg_dur;
 	    }
-	    $type_stats{JOINT}{$ref_type}{$miss_name} += max($nref-$nsys,0)*$seg_dur;
+	    $type_stats{JOINT}{$ref_type}{$miss_name} += max($nref_type-$nsys,0)*$seg_dur;
 	}
 	foreach $sys_type (keys %{$num_types{SYS}}) {
-	    $nsys = $num_types{SYS}{$sys_type};
-	    $type_stats{SYS}{$sys_type} += $nsys*$seg_dur;
-	    $type_stats{JOINT}{$fa_name}{$sys_type} += max($nsys-$nref,0)*$seg_dur;
+	    my $nsys_type = $num_types{SYS}{$sys_type};
+	    $type_stats{SYS}{$sys_type} += $nsys_type*$seg_dur;
+	    $type_stats{JOINT}{$fa_name}{$sys_type} += max($nsys_type-$nref,0)*$seg_dur;
 	}
     }
     $stats->{TYPE}{TIME} = {%type_stats};
-- 
2.43.0


From 5c96d8a2be09e662cf01c2eed825d6b367ec7975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:16 +0000
Subject: [PATCH 107/122] fix: md-eval gives the same figures and speaker map
 in every run

---
 src/md-eval/md-eval.pl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/md-eval/md-eval.pl b/src/md-eval/md-eval.pl
index 7350b6b..f0d5e3a 100755
--- a/src/md-eval/md-eval.pl
+++ b/src/md-eval/md-eval.pl
@@ -2269,14 +2269,14 @@ sub create_speaker_segs {
 	push @events, {TYPE => "UEM", EVENT => "BEG", TIME => $uem->{TBEG}};
 	push @events, {TYPE => "UEM", EVENT => "END", TIME => $uem->{TEND}};
     }
-    foreach $spkr (keys %$ref_data) {
+    foreach $spkr (sort keys %$ref_data) {
 	foreach $seg (@{$ref_data->{$spkr}}) {
 	    next unless $seg->{TDUR} > 0;
 	    push @events, {TYPE => "REF", SPKR => $spkr, EVENT => "BEG", TIME => $seg->{TBEG}};
 	    push @events, {TYPE => "REF", SPKR => $spkr, EVENT => "END", TIME => $seg->{TEND}};
 	}
     }
-    foreach $spkr (keys %$sys_data) {
+    foreach $spkr (sort keys %$sys_data) {
 	foreach $seg (@{$sys_data->{$spkr}}) {
 	    next unless $seg->{TDUR} > 0;
 	    push @events, {TYPE => "SYS", SPKR => $spkr, EVENT => "BEG", TIME => $seg->{RTBEG}};
@@ -2321,8 +2321,8 @@ sub sd_performance_analysis {
     my ($xscores, %cum_scores, $count);
 
 #accumulate statistics
-    foreach $file (keys %$scores) {
-	foreach $chnl (keys %{$scores->{$file}}) {
+    foreach $file (sort keys %$scores) {
+	foreach $chnl (sort keys %{$scores->{$file}}) {
 	    $xscores = $scores->{$file}{$chnl};
 	    foreach $ref_type (keys %$xscores) {
 		next if $ref_type eq "TYPE";
-- 
2.43.0


From 63d92104c187bf6b0b1cd5bf36977ce882420956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:24 +0000
Subject: [PATCH 108/122] fix: hubscr sorts records by their channel, not by
 the spacing before it

---
 src/hubscr/hubscr.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hubscr/hubscr.pl b/src/hubscr/hubscr.pl
index 9c1b8e2..ab6d9b3 100755
--- a/src/hubscr/hubscr.pl
+++ b/src/hubscr/hubscr.pl
@@ -357,7 +357,7 @@ sub sortCTM{
 	s/^\s+//;
 	next if ($_ =~ /^;;/ || $_ =~ /^$/);
 	my (@a) = split(/(\s+)/);
-	push @{ $data{$a[0]}{$a[1]} }, \@a;
+	push @{ $data{$a[0]}{$a[2]} }, \@a;
     }
 
     foreach my $file(sort (keys %data)){
@@ -387,7 +387,7 @@ sub sortSTM{
 	    next;
 	}
 	my (@a) = split(/(\s+)/);
-	push @{ $data{$a[0]}{$a[1]} }, \@a;
+	push @{ $data{$a[0]}{$a[2]} }, \@a;
     }
 
     foreach my $file(sort (keys %data)){
-- 
2.43.0


From c2eb7889cf7cb274b064e24e523690dfcdd8a33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:24 +0000
Subject: [PATCH 109/122] fix: hubscr keeps a last record without a newline
 apart from the others

---
 src/hubscr/hubscr.pl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hubscr/hubscr.pl b/src/hubscr/hubscr.pl
index ab6d9b3..88bfe90 100755
--- a/src/hubscr/hubscr.pl
+++ b/src/hubscr/hubscr.pl
@@ -354,6 +354,7 @@ sub ctmSort {
 sub sortCTM{
     my %data = ();
     while (<STDIN>){
+	$_ .= "\n" if ($_ !~ /\n$/);
 	s/^\s+//;
 	next if ($_ =~ /^;;/ || $_ =~ /^$/);
 	my (@a) = split(/(\s+)/);
@@ -381,6 +382,7 @@ sub stmSort {
 sub sortSTM{
     my %data = ();
     while (<STDIN>){
+	$_ .= "\n" if ($_ !~ /\n$/);
 	s/^\s+//;
 	if ($_ =~ /^;;/ || $_ =~ /^$/){
 	    print;
-- 
2.43.0


From fb2e2445f2cf434d7b830ca466ffd4e753781dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:28 +0000
Subject: [PATCH 110/122] fix: def_art without -i reads plain text, as its
 usage message says

---
 src/def_art/def_art.pl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/def_art/def_art.pl b/src/def_art/def_art.pl
index ee76ded..7db8f82 100755
--- a/src/def_art/def_art.pl
+++ b/src/def_art/def_art.pl
@@ -34,6 +34,7 @@ $Usage="Usage: def_art.sh [ -i fmt ] [ -s LDC_LEX ] -t Infile|- OutFile|-\n".
 $Format="Romanized";
 $Lexicon="";
 $Translate = 0;
+$InFmt = "txt";
 %DefArt_LUT = ();
 %Script_LUT = ();
 
-- 
2.43.0


From 7c679e374215e69b0d3ff44d4fe1f6ff1c6d6bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:28 +0000
Subject: [PATCH 111/122] fix: def_art keeps the last character of a file that
 does not end in a newline

---
 src/def_art/def_art.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/def_art/def_art.pl b/src/def_art/def_art.pl
index 7db8f82..4803cc6 100755
--- a/src/def_art/def_art.pl
+++ b/src/def_art/def_art.pl
@@ -77,7 +77,7 @@ open(IN, "$InFile") || die "Unable to open trans-file $InFile";
 open(OUT, ">$OutFile") || die "Unable to open new-trans-file $OutFile";
 
 while (<IN>){
-    chop;
+    chomp;
     if ($InFmt eq "txt"){
 	print OUT &String_LU($_)."\n";
     } elsif ($InFmt eq "ctm"){
-- 
2.43.0


From 282b7561d3d970a9fcc4bccb48da184617dc6776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:29 +0000
Subject: [PATCH 112/122] fix: hamzaNorm normalizes a word behind a tab like
 one behind a space

---
 src/hamzaNorm/hamzaNorm.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hamzaNorm/hamzaNorm.pl b/src/hamzaNorm/hamzaNorm.pl
index 5a0b4c1..61991d9 100755
--- a/src/hamzaNorm/hamzaNorm.pl
+++ b/src/hamzaNorm/hamzaNorm.pl
@@ -87,7 +87,7 @@ exit 0;
 sub normalize{
     my ($text) = @_;
     $text = " ".$text;    
-    $text =~ s/ (\330\242|\330\243|\330\245|\330\247)/ \330\247/g;
+    $text =~ s/([ \t])(\330\242|\330\243|\330\245|\330\247)/$1\330\247/g;
     $text =~ s/^ //;
     $text;
 }
-- 
2.43.0


From c1bf70c2a15fd6a563c1a1d4183cfbebe8bae512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:29 +0000
Subject: [PATCH 113/122] fix: tanweenFilt treats a tab behind a word like a
 space

---
 src/tanweenFilt/tanweenFilt.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tanweenFilt/tanweenFilt.pl b/src/tanweenFilt/tanweenFilt.pl
index 63fb9f0..60e8450 100755
--- a/src/tanweenFilt/tanweenFilt.pl
+++ b/src/tanweenFilt/tanweenFilt.pl
@@ -96,8 +96,8 @@ sub normalize{
     } else {
 	$text =~ s/(\331\215|\331\214|\331\213)$//g;
 	$text =~ s/(\331\215|\331\214|\331\213)\)$/\)/g;
-	$text =~ s/(\331\215|\331\214|\331\213)\) /\) /g;
-	$text =~ s/(\331\215|\331\214|\331\213) / /g;
+	$text =~ s/(\331\215|\331\214|\331\213)\)([ \t])/\)$2/g;
+	$text =~ s/(\331\215|\331\214|\331\213)([ \t])/$2/g;
     }
     $text =~ s/^ //;
     $text;
-- 
2.43.0


From d875f28b43bfe5a4c508d387bd71eb3340ca8f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:20 +0000
Subject: [PATCH 114/122] fix: spkr2sad writes the SPKR-INFO record of every
 channel

---
 src/spkr2sad/spkr2sad.pl | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/spkr2sad/spkr2sad.pl b/src/spkr2sad/spkr2sad.pl
index 85c427a..eb833a1 100755
--- a/src/spkr2sad/spkr2sad.pl
+++ b/src/spkr2sad/spkr2sad.pl
@@ -16,25 +16,17 @@ while (<>){
 #print Dumper(\%data);
 my $max;
 foreach my $file(sort (keys %data)){
-    if (exists($data{$file}{"SPKR-INFO"})){
-	my @d = @{ $data{$file}{"SPKR-INFO"} };
-	$d[0]->[7] = "speech";
-	$d[0]->[6] = "unknown";
-	print join(" ",@{ $d[0] })."\n";
-    } else {
-	die "Error: No SPKR-INFO and no SPEAKER Tags" if (! exists($data{$file}{"SPEAKER"}));
-	# Copy a SPEAKER line
-	my @a = ();
-	foreach my $e( @{ $data{$file}{"SPEAKER"}[0] }){
-	    push @a, $e;
+    # one SPKR-INFO per channel
+    die "Error: No SPKR-INFO and no SPEAKER Tags" if (! exists($data{$file}{"SPKR-INFO"}) && ! exists($data{$file}{"SPEAKER"}));
+    my %done = ();
+    foreach my $type("SPKR-INFO", "SPEAKER"){
+	next if (! exists($data{$file}{$type}));
+	foreach my $d(@{ $data{$file}{$type} }){
+	    next if ($done{$d->[2]}++);
+	    my @a = @$d;
+	    @a[0,3,4,5,6,7] = ("SPKR-INFO", "<NA>", "<NA>", "<NA>", "unknown", "speech");
+	    print join(" ",@a)."\n";
 	}
-	$a[0] = "SPKR-INFO";
-	$a[3] = "<NA>";
-	$a[4] = "<NA>";
-	$a[5] = "<NA>";
-	$a[6] = "unknown";
-	$a[7] = "speech";
-	print join(" ",@a)."\n";
     }
     if (exists($data{$file}{"SPEAKER"})){
 	my @d = sort {$a->[3] <=> $b->[3]} @{ $data{$file}{"SPEAKER"} };
-- 
2.43.0


From 92933ec8998bde9aa24d22f1d4598b94ce294424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:20 +0000
Subject: [PATCH 115/122] fix: mergectm2rttm keeps words and speakers that
 begin at the same time

---
 src/mergectm2rttm/mergectm2rttm.pl | 32 +++++++++++++++++-------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/mergectm2rttm/mergectm2rttm.pl b/src/mergectm2rttm/mergectm2rttm.pl
index 0e66b88..649e7c3 100755
--- a/src/mergectm2rttm/mergectm2rttm.pl
+++ b/src/mergectm2rttm/mergectm2rttm.pl
@@ -68,7 +68,7 @@ sub loadRTTMFile
 		
 		if(uc($type) eq "SPEAKER")
 		{
-			push( @{ $rttmhash->{DATA}{$file}{$chnl}{$tbeg} }, ($tbeg, $tdur, $ortho, $stype, $spkrname, $conf));
+			push( @{ $rttmhash->{DATA}{$file}{$chnl}{$tbeg} }, [ ($tbeg, $tdur, $ortho, $stype, $spkrname, $conf) ]);
 		}
 	}
 	
@@ -101,7 +101,7 @@ sub loadCTMFile
 		{
 			my $mid = sprintf("%.4f", $tbeg+$tdur/2);
 									
-		    push( @{ $ctmhash->{$file}{$chnl}{$tbeg} }, ($tbeg, $tdur, $ortho, $stype, $conf, $mid));
+		    push( @{ $ctmhash->{$file}{$chnl}{$tbeg} }, [ ($tbeg, $tdur, $ortho, $stype, $conf, $mid) ]);
 		}
 	}
 	
@@ -115,13 +115,14 @@ sub findSpeaker
 	
 	foreach my $tbeg(sort keys %{ $rttmhash->{DATA}{$file}{$chnl} })
 	{
-		my $bt = @{ $rttmhash->{DATA}{$file}{$chnl}{$tbeg} }[0];
-		my $dur = @{ $rttmhash->{DATA}{$file}{$chnl}{$tbeg} }[1];
-		my $spkrname = @{ $rttmhash->{DATA}{$file}{$chnl}{$tbeg} }[4];
-		
-		if( ($bt <= $mid) && ($mid <= sprintf("%.3f", $bt+$dur) ) )
+		foreach my $seg(@{ $rttmhash->{DATA}{$file}{$chnl}{$tbeg} })
 		{
-			push( @listspkr, [ ($spkrname, $tbeg) ] );
+			my ($bt, $dur, $spkrname) = @{ $seg }[0,1,4];
+			
+			if( ($bt <= $mid) && ($mid <= sprintf("%.3f", $bt+$dur) ) )
+			{
+				push( @listspkr, [ ($spkrname, $tbeg) ] );
+			}
 		}
 	}
 	
@@ -143,21 +144,24 @@ sub MergedData
 	{
 		foreach my $tbeg(sort {$a <=> $b} keys %{ $ctmhash->{$file}{$chnl} })
 		{
-			my $mid = $ctmhash->{$file}{$chnl}{$tbeg}[5];
+		    foreach my $word(@{ $ctmhash->{$file}{$chnl}{$tbeg} })
+		    {
+			my $mid = $word->[5];
 		    my $spkrtbeg = findSpeaker($rttmhash, $file, $chnl, $mid);
 		    
 		    if($spkrtbeg)
 		    {
-		    	my $ctmbeg = $ctmhash->{$file}{$chnl}{$tbeg}[0];
-		    	my $ctmdur = $ctmhash->{$file}{$chnl}{$tbeg}[1];
-		    	my $ctmortho = $ctmhash->{$file}{$chnl}{$tbeg}[2];
-		    	my $ctmstype = $ctmhash->{$file}{$chnl}{$tbeg}[3];
-		    	my $ctmconf = $ctmhash->{$file}{$chnl}{$tbeg}[4];
+		    	my $ctmbeg = $word->[0];
+		    	my $ctmdur = $word->[1];
+		    	my $ctmortho = $word->[2];
+		    	my $ctmstype = $word->[3];
+		    	my $ctmconf = $word->[4];
 		    	my $ctmspkr = $spkrtbeg->[0];
 		    	
 		    	print OUTPUT "SPEAKER $file $chnl $ctmbeg $ctmdur <NA> <NA> $ctmspkr <NA>\n";
 		    	print OUTPUT "LEXEME $file $chnl $ctmbeg $ctmdur $ctmortho $ctmstype $ctmspkr $ctmconf\n";
 		    }
+		    }
 		}
 	}
 }
-- 
2.43.0


From ecaa3acfc5cd68510fbf66cdfb87bd1ee0bfa9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:04 +0000
Subject: [PATCH 116/122] fix: a long ctm channel is not cut inside of an
 alternation when it is aligned to a ctm

---
 src/sclite/ctm2ctm.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/sclite/ctm2ctm.c b/src/sclite/ctm2ctm.c
index 162129a..c35f573 100644
--- a/src/sclite/ctm2ctm.c
+++ b/src/sclite/ctm2ctm.c
@@ -364,6 +364,15 @@ double overlap(double s1_t1, double s1_t2, double s2_t1, double s2_t2)
 }
 
 
+/* a segment that ends inside of an alternation is extended to its end */
+static int end_of_alternation(WTOKE_STR1 *wt, int start, int end, int endconv)
+{
+    while (end >= start && end < endconv && wt->word[end].alternate &&
+	   TEXT_strcasecmp(wt->word[end].sp,(TEXT *)"<ALT_END>") != 0)
+	end++;
+    return(end);
+}
+
 int chop_WTOKE_2(WTOKE_STR1 *ref, WTOKE_STR1 *hyp, int Rstart, int Hstart, int Rendconv, int Hendconv, int max_words, int *Rret_end, int *Hret_end)
 {
     int Rend, Hend, Rend_sync, Hend_sync;
@@ -514,8 +523,8 @@ int chop_WTOKE_2(WTOKE_STR1 *ref, WTOKE_STR1 *hyp, int Rstart, int Hstart, int R
 		}
 	    }
 	} else { /* Overlap exists !!!!!   Return the values */
-	    *Rret_end = Rend; 
-	    *Hret_end = Hend; 
+	    *Rret_end = end_of_alternation(ref,Rstart,Rend,Rendconv); 
+	    *Hret_end = end_of_alternation(hyp,Hstart,Hend,Hendconv); 
 	    if (dbg) printf("%s: R2 Success Chop Ref (%d-%d)  Hyp (%d-%d)\n",
 			    proc,Rstart,*Rret_end,Hstart,*Hret_end);
 	    return(1);
@@ -523,8 +532,8 @@ int chop_WTOKE_2(WTOKE_STR1 *ref, WTOKE_STR1 *hyp, int Rstart, int Hstart, int R
     }
 
     if (Rend > Rstart || Hend > Hstart){
-	*Rret_end = Rend; 
-	*Hret_end = Hend; 
+	*Rret_end = end_of_alternation(ref,Rstart,Rend,Rendconv); 
+	*Hret_end = end_of_alternation(hyp,Hstart,Hend,Hendconv); 
 	if (dbg) printf("%s: R3 Success Chop Ref (%d-%d)  Hyp (%d-%d)\n",
 			proc,Rstart,*Rret_end,Hstart,*Hret_end);
 	return(1);
-- 
2.43.0


From a803900299a875150358c6f14a7f1a0dd82b2a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:33 +0000
Subject: [PATCH 117/122] fix: -S algo2 aligns words regardless of their case
 unless -s is used

---
 src/sclite/align.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index c0461e7..c76cb5c 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -237,8 +237,8 @@ PATH *infer_word_seg_algo2(TEXT *ref, TEXT *hyp, NETWORK *hnet, int case_sense,c
     }
 
     {
-        TEXT *refCC = (case_sense ? TEXT_strdup(TEXT_str_to_master(ref, 1)) : ref);
-        if ((refnet = Network_create_from_TEXT(ref, "Reference Net",
+        TEXT *refCC = (! case_sense ? TEXT_strdup(TEXT_str_to_master(ref, 1)) : ref);
+        if ((refnet = Network_create_from_TEXT(refCC, "Reference Net",
 					   print_WORD,
 					   equal_WORD2,
 					   release_WORD, null_alt_WORD,
@@ -249,14 +249,14 @@ PATH *infer_word_seg_algo2(TEXT *ref, TEXT *hyp, NETWORK *hnet, int case_sense,c
             fprintf(stderr,"Network_create_from_TEXT failed\n");
 	    exit(1);
         }
-        if (case_sense){
+        if (! case_sense){
             free_singarr(refCC, TEXT);
         }
     }
     
     if (hyp != (TEXT *)0){
-	TEXT *hypCC = (case_sense ? TEXT_strdup(TEXT_str_to_master(hyp, 1)) : hyp);
-	if ((hypnet = Network_create_from_TEXT(hyp,"Hypothesis Net",
+	TEXT *hypCC = (! case_sense ? TEXT_strdup(TEXT_str_to_master(hyp, 1)) : hyp);
+	if ((hypnet = Network_create_from_TEXT(hypCC,"Hypothesis Net",
 					       print_WORD,
 					       equal_WORD2,
 					       release_WORD, null_alt_WORD,
@@ -267,7 +267,7 @@ PATH *infer_word_seg_algo2(TEXT *ref, TEXT *hyp, NETWORK *hnet, int case_sense,c
     fprintf(stderr,"Network_create_from_TEXT failed\n");
 	    exit(1);
 	}
-        if (case_sense){
+        if (! case_sense){
            free_singarr(hypCC, TEXT);
         }
     } else 
-- 
2.43.0


From fddf267b62f3ef1120ce16e2f545f4b0fa666941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:51 +0000
Subject: [PATCH 118/122] fix: acomp takes the last line without a newline
 whole

---
 src/acomp/acomp.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acomp/acomp.pl b/src/acomp/acomp.pl
index 5d84182..81e71ab 100755
--- a/src/acomp/acomp.pl
+++ b/src/acomp/acomp.pl
@@ -83,7 +83,7 @@ open(IN,"$InFile") || die("Error: Unable to open input file '$InFile'");
 open(OUT,">$OutFile") || die("Error: Unable to open output file '$OutFile'");
 
 while (<IN>){
-    chop;
+    chomp;
     if ($_ =~ /^;;/){
 	print OUT "$_\n";
     } elsif ($InFmt eq "txt"){
@@ -292,7 +292,7 @@ sub LoadLex{
 
     print "Reading Lexicon: '$Lex'\n   Each . is 10000 entries:   " if ($db);
     while (<LEX>){
-	chop;
+	chomp;
 	($word) = split;
 	$word =~ tr/a-z/A-Z/;
 	$word =~ tr/\340-\377/\300-\337/; 
-- 
2.43.0


From 4ff0d1bec113c4c2f2ec02173f2a1c490d5903dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:51 +0000
Subject: [PATCH 119/122] fix: acomp finds compounds of plain lexicon words
 whatever their length

---
 src/acomp/acomp.pl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/acomp/acomp.pl b/src/acomp/acomp.pl
index 81e71ab..b2de570 100755
--- a/src/acomp/acomp.pl
+++ b/src/acomp/acomp.pl
@@ -313,6 +313,8 @@ sub LoadLex{
 	} else {
 	    $LexHash{$word} = "1";
 	    $CompHash{$word} = $word;
+	    $len = length($word);
+	    $MaxLen = $len if ($MaxLen < $len);
 	}
 	if (($. + 1) % 10000 == 0){
 	    print "." if ($db);
-- 
2.43.0


From 2c3ff31c75ccc342e344b1880015d77917bc168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:51 +0000
Subject: [PATCH 120/122] fix: acomp passes the alternation records of a ctm
 file on

---
 src/acomp/acomp.pl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acomp/acomp.pl b/src/acomp/acomp.pl
index b2de570..84adfc5 100755
--- a/src/acomp/acomp.pl
+++ b/src/acomp/acomp.pl
@@ -99,6 +99,10 @@ while (<IN>){
 	@ctm = split(/\s+/,$_);
 	if ($#ctm <= 4) { $conf = "" ; } else { $conf = $ctm[5]; }
 
+	if ($#ctm >= 4 && $ctm[4] =~ /^<ALT(_BEGIN|_END)?>$/i){
+	    print OUT "$_\n";
+	    next;
+	}
 	$newt = &String_LU($ctm[4]);
 	@new_words = split(/\s+/,$newt);
 	for ($i=0; $i<=$#new_words; $i++){
-- 
2.43.0


From f5f3965ba1fd246fc4878a1bef13d74fbdf54b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:51 +0000
Subject: [PATCH 121/122] fix: acomp writes the rest of an optionally deletable
 fragment in parentheses

---
 src/acomp/acomp.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acomp/acomp.pl b/src/acomp/acomp.pl
index 84adfc5..e7d80b1 100755
--- a/src/acomp/acomp.pl
+++ b/src/acomp/acomp.pl
@@ -156,7 +156,7 @@ sub String_LU{
 		    $new .= "(".$ne.") ";
 		}
 	    } else {
-		$lookup =~ s/(\S+-)$/aq($1)/; 
+		$lookup =~ s/(\S+-)$/($1)/; 
 		$new .= "$lookup ";
 	    }
 	} else {
-- 
2.43.0


From 9f6fc0357d5afd3b62e2df633f6ab56a699a5616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:51 +0000
Subject: [PATCH 122/122] fix: acomp looks for triplet consonants and inserted
 s and en in the right letters

---
 src/acomp/acomp.pl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/acomp/acomp.pl b/src/acomp/acomp.pl
index e7d80b1..8b2e63d 100755
--- a/src/acomp/acomp.pl
+++ b/src/acomp/acomp.pl
@@ -256,7 +256,7 @@ sub is_Compound{
 		    print "$ind**** Residual length < MinCompLen $MinCompLen\n" if ($db);
 		}
 		#### handle the geminate constant conditional
-		if (! $stop_recur && $DoTriplet && $sval =~ /([bcdfghjklmnpqrstvwxyz])\1$/){
+		if (! $stop_recur && $DoTriplet && $sval =~ /([bcdfghjklmnpqrstvwxyz])\1$/i){
 		    $resid = substr($val,$i-1);
 		    print $ind."      Possible geminate consonate subword residual $resid\n" if ($db);
 		    if (length($resid) >= $MinCompLen){
@@ -269,10 +269,11 @@ sub is_Compound{
 		    }		    
 		}
 		#### handle the insertion of syllables
+		$resid = substr($val,$i);
 		if (! $stop_recur && $DoInserts && ( $resid =~ /^([sS]|[eE][nN])/ ) ){
 		    local($gen);
 		    if ($resid =~ /^[sS]/){  $resid = substr($val,$i+1); $gen = "s" } 
-		    if ($resid =~ /^[eE][nN]/){  $resid = substr($val,$i+2); $gen = "en" } 
+		    elsif ($resid =~ /^[eE][nN]/){  $resid = substr($val,$i+2); $gen = "en" } 
 		    print $ind."      Possible additional '$gen' on residual '$gen'$resid\n" if ($db);
 		    if (length($resid) >= $MinCompLen){
 			if (&is_Compound($hist." $sval",$resid, $ind."   |",*comps) == 1){
-- 
2.43.0

