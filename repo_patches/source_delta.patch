From 83e7ce43de284c97b98a76174365b73aaba0af41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 01/71] fix: keep the end node of a UNION query with a WHERE
 clause

When the last step before the operation of a UNION query is its true node,
that node is recorded as the end of the union and must not be removed with
the passive nodes: it was freed and then used.
---
 lib/fqlplan.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 87a1037..65f6ed6 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -575,7 +575,10 @@ int _union(plan* self, query* aquery, fqlhandle* fql)
 		try_(_build(*it, fql, NULL, true));
 		plan* union_plan = (*it)->plan;
 		vec_push_back(select_proc->union_end_nodes, &union_plan->current);
-		if (!union_plan->is_const) {
+		/* If the end node of the union is the true node, it is still
+		 * needed: its output feeds the select.
+		 */
+		if (!union_plan->is_const && union_plan->current != union_plan->op_true) {
 			process* union_true = union_plan->op_true->data;
 			union_true->is_passive = true;
 		}
-- 
2.43.0


From aa060076f58d8318c0450ee42977fe37fae376bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 02/71] fix: no group, no row, for an aggregate-only SELECT
 with GROUP BY

SELECT count(*) FROM t WHERE 1=0 GROUP BY k has no groups and must not be
forced to report one.
---
 lib/operation.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/operation.c b/lib/operation.c
index 818651e..aaefae5 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -411,6 +411,10 @@ int op_writer_init(struct query* query)
 				group_add_expression(query->distinct, *it);
 			}
 		}
+		/* No rows means no groups if there is something to group by */
+		if (query->groupby != NULL && !vec_empty(&query->groupby->_composite)) {
+			((fqlselect*)self)->must_run_once = false;
+		}
 		fqlselect_verify_must_run((fqlselect*)self);
 		return FQL_GOOD;
 	}
-- 
2.43.0


From 65bb5ecd2c24ad2dde3045366fe425306e0e2117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:48 +0000
Subject: [PATCH 03/71] fix: a UNION whose later query finds no rows must not
 repeat the aggregate row

must_run_once belongs to the first SELECT. Each query of the union has its
own flag.
---
 lib/fqlprocesses.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 1884d3d..ec85398 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -821,7 +821,7 @@ enum proc_return fql_select(process* proc)
 	}
 
 	if (!proc->wait_for_in0) {
-		if (select->must_run_once && select->rows_affected == 0) {
+		if (current_select->must_run_once && select->rows_affected == 0) {
 			try_(select->select__(select, NULL));
 			++select->rows_affected;
 			++proc->rows_affected;
-- 
2.43.0


From d382f5d7252e7b670994bb950a025369c8e6269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 04/71] fix: sources of a derived table do not take part in the
 outer query

The records of a derived table that joins keep their source index, so that
a LEFT JOIN of the outer query took the inner right side for its own.
---
 lib/fqlprocesses.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index ec85398..cc85ff9 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -271,6 +271,15 @@ enum proc_return fql_read(process* proc)
 		record* rec = (*rg_iter)->data;
 		rec->src_idx = table->idx;
 
+		/* If we just read from a subquery with more than one
+		 * source, the other records only hold the data. They
+		 * must not be mistaken for a source of this query.
+		 */
+		node* sub_node = (*rg_iter)->next;
+		for (; sub_node != NULL; sub_node = sub_node->next) {
+			((record*)sub_node->data)->src_idx = -1;
+		}
+
 		_fqlprocess_print_iter_states(proc, rec->node_idx);
 
 		fifo_add(out, rg_iter);
-- 
2.43.0


From 34343479ed478245dc9ec5e4b4e83727b781b08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:03 +0000
Subject: [PATCH 05/71] fix: keep the record a copy was made from until the
 copy is released

The reference count of a record was reset when a subquery read it, and the
source of a copy was released while copies of that copy were still around.
Both let a record be reused while rows of the result still pointed to it.
---
 lib/fqlprocesses.c | 60 ++++++++++++++++++++++++----------------------
 lib/subquery.c     |  1 -
 2 files changed, 31 insertions(+), 30 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index cc85ff9..8d5b6f9 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -118,38 +118,40 @@ int _fqlprocess_add_or_buffer(fifo* out, node* rg, vec* buf, unsigned limit)
 	return fifo_nadd_try(out, buf);
 }
 
+void _release_record(process* proc, node* rg_node)
+{
+	record* rec = rg_node->data;
+	if (--rec->ref_count != 0) {
+		return;
+	}
+	rec->ref_count = 1; /* reset for next run */
+
+	/* If this record was a copy, release the record it was
+	 * copied from. Note that this has to wait until nobody
+	 * references the copy: the fields of a copy of a copy
+	 * still point to the memory of the first record.
+	 */
+	if (rec->rec_copy_node != NULL) {
+		node* src_node = rec->rec_copy_node;
+		rec->rec_copy_node = NULL;
+		_release_record(proc, src_node);
+	}
+
+	fifo** root_fifo = vec_at(proc->rootvec_ref, rec->root_fifo_idx);
+	/////////
+	//_fqlprocess_add_or_buffer(*root_fifo,
+	//                          rg_node,
+	//                          proc->rebuf,
+	//                          proc->fifo_base_size);
+	/////////
+	fifo_add(*root_fifo, &rg_node);
+	/////////
+}
+
 void fqlprocess_recycle(process* proc, node** rg)
 {
 	while (*rg) {
-		node* rg_node = node_pop_export(rg);
-		record* rec = rg_node->data;
-		fifo** root_fifo = vec_at(proc->rootvec_ref, rec->root_fifo_idx);
-
-		/* If this record was a copy, decrement the ref_count.
-		 * If the ref_count hit 0, recycle the src record as
-		 * well.
-		 */
-		if (rec->rec_copy_node != NULL) {
-			record* rec_src = rec->rec_copy_node->data;
-			if (rec_src->ref_count - 1 == 0) {
-				fqlprocess_recycle(proc, &rec->rec_copy_node);
-			} else {
-				--rec_src->ref_count;
-			}
-			rec->rec_copy_node = NULL; /* redundant? */
-		}
-
-		if (--rec->ref_count == 0) {
-			rec->ref_count = 1; /* reset for next run */
-			/////////
-			//_fqlprocess_add_or_buffer(*root_fifo,
-			//                          rg_node,
-			//                          proc->rebuf,
-			//                          proc->fifo_base_size);
-			/////////
-			fifo_add(*root_fifo, &rg_node);
-			/////////
-		}
+		_release_record(proc, node_pop_export(rg));
 	}
 }
 
diff --git a/lib/subquery.c b/lib/subquery.c
index cfa7347..ec9b84c 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -36,7 +36,6 @@ int subquery_get_record(reader* reader, node* rg)
 	vec* expressions = self->select->current_select->schema->expressions;
 
 	record* rec = rg->data;
-	rec->ref_count = 1;
 	record_clear_strings(&self->copy_data, self->copy_data.subquery_strings);
 
 	vec_clear(&self->copy_data.fields);
-- 
2.43.0


From 75309b2231df0543a9c4aabb1eb3118dea370917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:01 +0000
Subject: [PATCH 06/71] fix: a hash join must not wait for records in a single
 threaded run

With two joins in a UNION, the second one runs ahead until it is out of
records and then waits forever: there is no other thread to return any.
---
 lib/fqlprocesses.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 8d5b6f9..2a25058 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -444,6 +444,16 @@ long _hash_join_left_side(process* proc, table* table, node* left_rg)
 	return *offset;
 }
 
+/* Is there a record for the right side and for a copy of each left record? */
+bool _has_records_for(fifo* root, node* left_rg)
+{
+	unsigned needed = 1;
+	for (; left_rg != NULL; left_rg = left_rg->next) {
+		++needed;
+	}
+	return fifo_available(root) >= needed;
+}
+
 enum proc_return fql_hash_join(process* proc)
 {
 	fifo* out_false = proc->fifo_out[0];
@@ -491,6 +501,14 @@ enum proc_return fql_hash_join(process* proc)
 
 	node** left_rg_iter = fifo_begin(in_left);
 	while (left_rg_iter != fifo_end(in_left)) {
+		/* Without threads, nobody gives records back while we wait
+		 * for them. If we run short, let the other processes run.
+		 */
+		if (!proc->fql_ref->props.threading
+		    && !_has_records_for(proc->fifo_aux_root, *left_rg_iter)) {
+			ret = PROC_RETURN_WAIT_ON_OUT1;
+			break;
+		}
 		long offset = try_(_hash_join_left_side(proc, table, *left_rg_iter));
 		if (offset == -1) {
 			if (table->join_type == JOIN_LEFT) {
-- 
2.43.0


From 280cd73430f4119a06a0c474fd86d687fff3bcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:34 +0000
Subject: [PATCH 07/71] fix: do not overrun a full pipe in a cartesian join

If the next process has to wait (for a subquery in its condition), the join
added one more record per pass to the full pipe and overwrote others.
---
 lib/fqlprocesses.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 2a25058..74e2398 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -314,6 +314,10 @@ enum proc_return fql_cartesian_join(process* proc)
 		return PROC_RETURN_WAIT_ON_IN0;
 	}
 
+	if (!fifo_receivable(out)) {
+		return PROC_RETURN_WAIT_ON_OUT0;
+	}
+
 	table* table = proc->proc_data;
 	reader* reader = table->reader;
 
-- 
2.43.0


From 36dbc37c9ade66cead961571c074376622f62a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 08/71] fix: a cartesian join over a derived table with a join
 takes as many records as it needs

---
 lib/fqlprocesses.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 74e2398..edba2a2 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -89,14 +89,19 @@ void _fqlprocess_print_iter_states(process* proc, int idx)
 }
 #endif
 
-int _fill_inbuf(process* proc, fifo* input)
+bool _inbuf_has(process* proc, unsigned count)
 {
-	if (proc->inbuf_iter != vec_end(proc->inbuf)) {
+	return (node**)vec_end(proc->inbuf) - proc->inbuf_iter >= count;
+}
+
+int _fill_inbuf(process* proc, fifo* input, unsigned count)
+{
+	if (_inbuf_has(proc, count)) {
 		return 1;
 	}
-	vec_clear(proc->inbuf);
-	int ret =
-	        fifo_nget(input, proc->inbuf, proc->out_src_count, proc->fifo_base_size);
+	/* too few are left to be of any use */
+	fqlprocess_recycle_buffer(proc, proc->inbuf, &proc->inbuf_iter);
+	int ret = fifo_nget(input, proc->inbuf, count, proc->fifo_base_size);
 	proc->inbuf_iter = vec_begin(proc->inbuf);
 	return ret;
 }
@@ -323,11 +328,20 @@ enum proc_return fql_cartesian_join(process* proc)
 
 	////
 
-	_fill_inbuf(proc, in_right);
-
 	//node** iter_left = fifo_begin(in_left);
 	node** iter_left = fifo_peek(in_left);
-	while (proc->inbuf_iter != vec_end(proc->inbuf)) {
+
+	/* One record for the right side and one for each record on the
+	 * left. A derived table that joins has more of them than sources.
+	 */
+	unsigned count = 1;
+	node* left_it = *iter_left;
+	for (; left_it != NULL; left_it = left_it->next) {
+		++count;
+	}
+	_fill_inbuf(proc, in_right, count);
+
+	while (_inbuf_has(proc, count)) {
 		record* rec = (*proc->inbuf_iter)->data;
 		rec->src_idx = table->idx;
 
-- 
2.43.0


From 6a6b5abb5b1fcca0ea08b9f29616eb2f646c50bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:58 +0000
Subject: [PATCH 09/71] fix: stepping through an ordered query with no rows

---
 lib/order.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/order.c b/lib/order.c
index 1830756..8eaa191 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -390,6 +390,7 @@ int order_sort(order* self)
 {
 	vec_sort_r(&self->entries, &_compare, self);
 	self->sorted = true;
+	self->entry_iter = vec_begin(&self->entries);
 
 	self->fd = open(string_c_str(&self->in_filename), O_RDONLY);
 	if (self->fd == -1) {
@@ -417,7 +418,5 @@ int order_sort(order* self)
 	}
 	madvise(self->mmap, sb.st_size, MADV_RANDOM);
 
-	self->entry_iter = vec_begin(&self->entries);
-
 	return FQL_GOOD;
 }
-- 
2.43.0


From 7c41591ae46d4e5cbc5cc5559db9dfc320b5d2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 10/71] fix: a subquery inside an ELSE statement is not the
 ELSE statement

---
 lib/query.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/query.c b/lib/query.c
index f8e515b..b7c7f2c 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -778,7 +778,7 @@ int query_init_op(query* self,
 	}
 
 	/** Entering ELSE block **/
-	if (self->fqlref->branch_state == BRANCH_EXPECT_ELSE) {
+	if (self->fqlref->branch_state == BRANCH_EXPECT_ELSE && self->query_id == 0) {
 		/* Top of stack will be the active query. If this is an
 		 * else block, then the "next" query will be the parent
 		 * branch structure. We must set false_idx there.
-- 
2.43.0


From f6d119ce16c9098088449fef8eb0c036855413e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 11/71] fix: statements of a script see what its UPDATEs and
 DELETEs wrote

---
 lib/schema.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/schema.c b/lib/schema.c
index d65dd62..2e7441e 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -234,6 +234,19 @@ fuzzy_file_match_return:
 	return ret;
 }
 
+/* UPDATE and DELETE replace the file they work on */
+bool _replaces_files(const struct fqlhandle* fql)
+{
+	query** it = vec_begin(fql->query_vec);
+	for (; it != vec_end(fql->query_vec); ++it) {
+		enum fql_operation* op = (*it)->op;
+		if (*op == FQL_UPDATE || *op == FQL_DELETE) {
+			return true;
+		}
+	}
+	return false;
+}
+
 int _resolve_file(struct fqlhandle* fql, query* query, table* table)
 {
 	if (table->is_stdin) {
@@ -252,6 +265,11 @@ int _resolve_file(struct fqlhandle* fql, query* query, table* table)
 	default:;
 	}
 
+	/* Other statements must not read what was there before */
+	if (_replaces_files(fql)) {
+		table->must_reopen = true;
+	}
+
 	char absolute_path[PATH_MAX];
 	if (!realpath(string_c_str(&table->reader->file_name), absolute_path)) {
 		perror(string_c_str(&table->reader->file_name));
-- 
2.43.0


From 53b5ac01319b1d81bd4dc70e1e6931fb6c7b6925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:29 +0000
Subject: [PATCH 12/71] fix: derived tables see what earlier statements of a
 script wrote

---
 lib/table.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lib/table.c b/lib/table.c
index d16a2c7..c7b5a99 100644
--- a/lib/table.c
+++ b/lib/table.c
@@ -72,8 +72,29 @@ void table_destroy(table* self)
 	delete_if_exists_(query, self->subquery);
 }
 
+/* files that a derived table reads */
+int _reopen_subquery(query* subquery)
+{
+	query** query_it = vec_begin(subquery->subquery_const_vec);
+	for (; query_it != vec_end(subquery->subquery_const_vec); ++query_it) {
+		try_(_reopen_subquery(*query_it));
+	}
+	query_it = vec_begin(subquery->unions);
+	for (; query_it != vec_end(subquery->unions); ++query_it) {
+		try_(_reopen_subquery(*query_it));
+	}
+	table* it = vec_begin(subquery->sources);
+	for (; it != vec_end(subquery->sources); ++it) {
+		try_(table_reset(it, false));
+	}
+	return FQL_GOOD;
+}
+
 int table_reset(table* self, bool has_executed)
 {
+	if (self->source_type == SOURCE_SUBQUERY && !has_executed) {
+		return _reopen_subquery(self->subquery);
+	}
 	if (self->must_reopen) {
 		try_(reader_reopen(self->reader));
 		try_(self->reader->reset__(self->reader));
-- 
2.43.0


From db6b4840b417e991d4047f3d8b1f29e4581247a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:59 +0000
Subject: [PATCH 13/71] fix: SELECT INTO with ORDER BY completes its file
 before the next statement

---
 lib/order.c | 76 ++++++++++++++++++++++++++++++++++++++++++++++++-----
 lib/order.h |  3 +++
 2 files changed, 72 insertions(+), 7 deletions(-)

diff --git a/lib/order.c b/lib/order.c
index 8eaa191..ccce7a2 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -2,7 +2,11 @@
 
 #include <assert.h>
 #include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
 #include <fcntl.h>
+#include <unistd.h>
+#include <libgen.h>
 #include <sys/mman.h>
 #include <sys/stat.h>
 
@@ -27,6 +31,8 @@ int _order_select_to_const(order* self, process*);
 
 void _order_unmap(order* self);
 void _order_reset_output(order* self);
+int _order_open_output(order* self, const char* out_name);
+int _order_close_output(order* self);
 
 order* order_construct(order* self)
 {
@@ -39,6 +45,8 @@ order* order_construct(order* self)
 	vec_construct_(&self->expressions, expression*);
 	vec_construct_(&self->entries, struct _entry);
 	string_construct(&self->in_filename);
+	string_construct(&self->out_filename);
+	string_construct(&self->out_tempname);
 	flex_construct(&self->order_data);
 
 	return self;
@@ -54,8 +62,10 @@ void order_destroy(order* self)
 	vec_destroy(&self->entries);
 	flex_destroy(&self->order_data);
 	_order_unmap(self);
-	string_destroy(&self->in_filename);
 	_order_reset_output(self);
+	string_destroy(&self->in_filename);
+	string_destroy(&self->out_filename);
+	string_destroy(&self->out_tempname);
 }
 
 void _order_unmap(order* self)
@@ -73,6 +83,62 @@ void _order_reset_output(order* self)
 	    && self->out_file != stderr) {
 		fclose(self->out_file);
 	}
+	self->out_file = NULL;
+	string_clear(&self->out_filename);
+}
+
+/* As with any other writer, records are written to a temp file
+ * which takes the place of the target once it is complete.
+ */
+int _order_open_output(order* self, const char* out_name)
+{
+	char* name_cp = strdup(out_name);
+	string_strcpy(&self->out_tempname, dirname(name_cp));
+	free_(name_cp);
+	string_strcat(&self->out_tempname, "/order_XXXXXX");
+
+	int fd = mkstemp(self->out_tempname.data);
+	if (fd == -1) {
+		perror(string_c_str(&self->out_tempname));
+		return FQL_FAIL;
+	}
+	self->out_temp_node = fqlsig_tmp_push(string_c_str(&self->out_tempname));
+
+	self->out_file = fdopen(fd, "w");
+	if (self->out_file == NULL) {
+		perror(string_c_str(&self->out_tempname));
+		close(fd);
+		return FQL_FAIL;
+	}
+	string_strcpy(&self->out_filename, out_name);
+	return FQL_GOOD;
+}
+
+int _order_close_output(order* self)
+{
+	if (string_empty(&self->out_filename)) {
+		return FQL_GOOD;
+	}
+
+	const char* file = string_c_str(&self->out_filename);
+	const char* tmp = string_c_str(&self->out_tempname);
+
+	bool failed = ferror(self->out_file);
+	failed = fclose(self->out_file) || failed;
+	self->out_file = NULL;
+
+	if (failed || chmod(tmp, 0666) || rename(tmp, file)) {
+		perror(file);
+		return FQL_FAIL;
+	}
+	fqlsig_tmp_remove_node(self->out_temp_node);
+	self->out_temp_node = NULL;
+
+	if (*file == '#') {
+		fqlsig_tmp_push(file);
+	}
+	string_clear(&self->out_filename);
+	return FQL_GOOD;
 }
 
 int order_init_io(order* self, const char* in_name, const char* out_name)
@@ -92,11 +158,7 @@ int order_init_io(order* self, const char* in_name, const char* out_name)
 
 	if (out_name != NULL) {
 		_order_reset_output(self);
-		self->out_file = fopen(out_name, "w");
-		if (self->out_file == NULL) {
-			perror(out_name);
-			return FQL_FAIL;
-		}
+		try_(_order_open_output(self, out_name));
 	}
 	return FQL_GOOD;
 }
@@ -303,7 +365,7 @@ int _order_select(order* self, process* proc)
 		++proc->rows_affected;
 	}
 
-	return 0;
+	return _order_close_output(self);
 }
 
 int _order_select_api(order* self, process* proc)
diff --git a/lib/order.h b/lib/order.h
index 9cdb6ff..6f56d73 100644
--- a/lib/order.h
+++ b/lib/order.h
@@ -19,6 +19,8 @@ struct order {
 	struct vec expressions;
 	struct vec entries;
 	string in_filename;
+	string out_filename;
+	string out_tempname;
 	struct flex order_data;
 	order_select_fn select__;
 	struct vec* api;
@@ -26,6 +28,7 @@ struct order {
 	FILE* out_file;
 	struct _entry* entry_iter;
 	struct node* temp_node;
+	struct node* out_temp_node;
 	char* mmap;
 	size_t file_size;
 	size_t top_count;
-- 
2.43.0


From 130c90a362df7e25e2209fbb59ac1124203791c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:34 +0000
Subject: [PATCH 14/71] fix: a hash join with a table that is empty while
 planning reads all of its columns

---
 lib/table.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/table.c b/lib/table.c
index c7b5a99..61a3690 100644
--- a/lib/table.c
+++ b/lib/table.c
@@ -195,14 +195,14 @@ size_t _guess_row_count(table* self)
 		}
 	}
 
-	if (i == 0) {
-		return HASH_JOIN_MIN_SIZE;
-	}
-
 	delete_(record, rg.data);
 
 	reader->max_idx = max_expr_store;
 
+	if (i == 0) {
+		return HASH_JOIN_MIN_SIZE;
+	}
+
 	double avg_len = total_length / (double)i - 1;
 	if (avg_len < 1)
 		avg_len = 1;
-- 
2.43.0


From d3181ddd87ac495311380245f6502c6b651438dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:41 +0000
Subject: [PATCH 15/71] fix: a joined standard input or derived table is read
 back complete

---
 lib/fixedread.c    |  2 +-
 lib/fqlprocesses.c |  4 ++--
 lib/libcsvread.c   |  3 ++-
 lib/reader.c       | 14 ++++++++++++--
 lib/subquery.c     |  7 ++++++-
 5 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/lib/fixedread.c b/lib/fixedread.c
index ecad6b4..59f3cf6 100644
--- a/lib/fixedread.c
+++ b/lib/fixedread.c
@@ -158,7 +158,7 @@ int fixedread_reset(reader* reader)
 
 int fixedread_reset_stdin(reader* reader)
 {
-	reader_stop_file_backed_input(reader);
+	try_(reader_stop_file_backed_input(reader));
 	reader->reset__ = &fixedread_reset;
 	reader->get_record__ = &fixedread_get_record;
 
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index edba2a2..cde4736 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -366,7 +366,7 @@ enum proc_return fql_cartesian_join(process* proc)
 			break;
 		}
 		default: { /* eof */
-			reader->reset__(reader);
+			try_(reader->reset__(reader));
 			fifo_consume(in_left);
 			fqlprocess_recycle(proc, iter_left);
 			iter_left = fifo_peek(in_left);
@@ -492,7 +492,7 @@ enum proc_return fql_hash_join(process* proc)
 		if (fifo_is_empty(in_right)) {
 			if (!in_right->is_open) {
 				hj->state = SIDE_LEFT;
-				table->reader->reset__(table->reader);
+				try_(table->reader->reset__(table->reader));
 				return PROC_RETURN_RUNNING;
 			}
 			return PROC_RETURN_WAIT_ON_IN1;
diff --git a/lib/libcsvread.c b/lib/libcsvread.c
index 0c66c9e..81ac302 100644
--- a/lib/libcsvread.c
+++ b/lib/libcsvread.c
@@ -108,8 +108,9 @@ int libcsv_reset(reader* self)
 
 int libcsv_reset_stdin(reader* self)
 {
-	reader_stop_file_backed_input(self);
+	try_(reader_stop_file_backed_input(self));
 	self->reset__ = libcsv_reset;
+	self->skip_rows = 0; /* the file has no header */
 	if (csv_reader_open_mmap(self->reader_data,
 	                         string_c_str(self->random_access_filename))) {
 		csv_perror();
diff --git a/lib/reader.c b/lib/reader.c
index 82372e9..d201b29 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -149,8 +149,18 @@ int reader_start_file_backed_input(reader* self)
 
 int reader_stop_file_backed_input(reader* self)
 {
-	// Should close on csv_writer_free
-	//fclose(self->random_access_file);
+	if (self->random_access_file == NULL) {
+		fputs("standard input can only be read once\n", stderr);
+		return FQL_FAIL;
+	}
+
+	/* The file is about to be read. Everything must be in there. */
+	bool failed = ferror(self->random_access_file);
+	failed = fclose(self->random_access_file) || failed;
 	self->random_access_file = NULL;
+	if (failed) {
+		perror(string_c_str(self->random_access_filename));
+		return FQL_FAIL;
+	}
 	return FQL_GOOD;
 }
diff --git a/lib/subquery.c b/lib/subquery.c
index ec9b84c..8241a39 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -120,7 +120,12 @@ int subquery_reset(reader* reader)
  */
 int subquery_reset_from_join(reader* reader)
 {
-	reader_stop_file_backed_input(reader);
+	/* The writer closes the file, but make sure it is complete */
+	if (fflush(reader->random_access_file) || ferror(reader->random_access_file)) {
+		perror(string_c_str(reader->random_access_filename));
+		return FQL_FAIL;
+	}
+	reader->random_access_file = NULL;
 	csv_writer_free(reader->subquery_writer);
 
 	subquery* self = reader->reader_data;
-- 
2.43.0


From 5b304c6e9e027e2dd22b1937d451f5ea7ac79cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:33 +0000
Subject: [PATCH 16/71] fix: a joined derived table is read again when its
 statement runs again

---
 lib/reader.h   |  1 +
 lib/subquery.c | 33 +++++++++++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/lib/reader.h b/lib/reader.h
index 3709584..e7c0971 100644
--- a/lib/reader.h
+++ b/lib/reader.h
@@ -25,6 +25,7 @@ struct reader {
 	string* random_access_filename;
 	struct node* random_access_tempnode;
 	struct csv_writer* subquery_writer;
+	struct query* subquery_query;
 	record* first_rec;
 	read_fn get_record__;
 	read_at_fn get_record_at__;
diff --git a/lib/subquery.c b/lib/subquery.c
index 8241a39..81f095a 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -3,6 +3,9 @@
 #include "reader.h"
 #include "fqlselect.h"
 #include "misc.h"
+#include "query.h"
+#include "fqlsig.h"
+#include "util/util.h"
 
 subquery* subquery_construct(subquery* self, query* query)
 {
@@ -114,6 +117,31 @@ int subquery_reset(reader* reader)
 	//return query_prepare(self->query);
 }
 
+int subquery_start_file_backed_input(reader* reader);
+
+/* The statement runs once more. What was saved
+ * is from the last run, go back to the subquery.
+ */
+int subquery_restart_from_join(reader* reader)
+{
+	query* query = reader->subquery_query;
+
+	reader->free__(reader->reader_data);
+	fqlsig_tmp_remove_node_and_file(reader->random_access_tempnode);
+	reader->random_access_tempnode = NULL;
+	delete_(string, reader->random_access_filename);
+
+	reader->reader_data = new_(subquery, query);
+	reader->free__ = &subquery_free;
+	reader->get_record__ = &subquery_get_record;
+	reader->get_record_at__ = &subquery_get_record_at;
+	reader->rec_id = 0;
+	reader->eof = false;
+	try_(subquery_start_file_backed_input(reader));
+
+	return query_preflight(query, true);
+}
+
 /* If we have been reset from a join, we will no longer
  * need to read from the subquery. We are now 100% backed
  * by a file, so convert reader to a libcsv reader.
@@ -136,7 +164,8 @@ int subquery_reset_from_join(reader* reader)
 	reader->free__ = &libcsv_free;
 	reader->get_record__ = &libcsv_get_record;
 	reader->get_record_at__ = &libcsv_get_record_at;
-	reader->reset__ = &libcsv_reset;
+	reader->reset__ = &subquery_restart_from_join;
+	reader->subquery_query = self->query;
 
 	if (csv_reader_open_mmap(csv, string_c_str(reader->random_access_filename))) {
 		csv_perror();
@@ -150,7 +179,7 @@ int subquery_reset_from_join(reader* reader)
 
 int subquery_start_file_backed_input(reader* reader)
 {
-	reader_start_file_backed_input(reader);
+	try_(reader_start_file_backed_input(reader));
 	reader->subquery_writer = csv_writer_new();
 	csv_writer_set_delim(reader->subquery_writer, "|");
 	reader->reset__ = &subquery_reset_from_join;
-- 
2.43.0


From e973b81b8e6ebc7a01b49740ed16d25d304ef984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:19 +0000
Subject: [PATCH 17/71] fix: a pipe that closes, fills up or has several inputs
 loses and overwrites nothing

---
 lib/fqlprocesses.c | 111 +++++++++++++++++++++++----------------------
 util/fifo.c        |  19 ++++----
 2 files changed, 67 insertions(+), 63 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index cde4736..448a322 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -89,6 +89,15 @@ void _fqlprocess_print_iter_states(process* proc, int idx)
 }
 #endif
 
+/* Is this the end of the input? A process closes its output pipe
+ * once everything is in there. So, the order is important: if it
+ * was closed before it was found empty, nothing else can show up.
+ */
+bool _is_done(const fifo* in)
+{
+	return !in->is_open && fifo_is_empty(in);
+}
+
 bool _inbuf_has(process* proc, unsigned count)
 {
 	return (node**)vec_end(proc->inbuf) - proc->inbuf_iter >= count;
@@ -245,10 +254,10 @@ enum proc_return fql_read(process* proc)
 
 	fifo* in = proc->fifo_in[0];
 	//if (fifo_is_empty(in) && (proc->root_fifo == 0 || vec_empty(proc->inbuf))) {
+	if (_is_done(in)) {
+		return PROC_RETURN_COMPLETE;
+	}
 	if (fifo_is_empty(in)) {
-		if (!in->is_open) {
-			return PROC_RETURN_COMPLETE;
-		}
 		return PROC_RETURN_WAIT_ON_IN0;
 	}
 
@@ -312,10 +321,10 @@ enum proc_return fql_cartesian_join(process* proc)
 	fifo* in_left = proc->fifo_in[0];
 	fifo* in_right = proc->fifo_in[1];
 
+	if (_is_done(in_left)) {
+		return PROC_RETURN_COMPLETE;
+	}
 	if (fifo_is_empty(in_left)) {
-		if (!in_left->is_open) {
-			return PROC_RETURN_COMPLETE;
-		}
 		return PROC_RETURN_WAIT_ON_IN0;
 	}
 
@@ -489,12 +498,12 @@ enum proc_return fql_hash_join(process* proc)
 	////
 
 	if (hj->state == SIDE_RIGHT) {
+		if (_is_done(in_right)) {
+			hj->state = SIDE_LEFT;
+			try_(table->reader->reset__(table->reader));
+			return PROC_RETURN_RUNNING;
+		}
 		if (fifo_is_empty(in_right)) {
-			if (!in_right->is_open) {
-				hj->state = SIDE_LEFT;
-				try_(table->reader->reset__(table->reader));
-				return PROC_RETURN_RUNNING;
-			}
 			return PROC_RETURN_WAIT_ON_IN1;
 		}
 		return _hash_join_right_side(proc, table, in_right);
@@ -508,10 +517,10 @@ enum proc_return fql_hash_join(process* proc)
 		return PROC_RETURN_WAIT_ON_OUT0;
 	}
 
+	if (_is_done(in_left)) {
+		return PROC_RETURN_COMPLETE;
+	}
 	if (fifo_is_empty(in_left)) {
-		if (!in_left->is_open) {
-			return PROC_RETURN_COMPLETE;
-		}
 		return PROC_RETURN_WAIT_ON_IN0;
 	}
 
@@ -603,10 +612,10 @@ enum proc_return fql_logic(process* proc)
 	}
 
 	fifo* in = proc->fifo_in[0];
+	if (_is_done(in)) {
+		return PROC_RETURN_COMPLETE;
+	}
 	if (fifo_is_empty(in)) {
-		if (!in->is_open) {
-			return PROC_RETURN_COMPLETE;
-		}
 		return PROC_RETURN_WAIT_ON_IN0;
 	}
 
@@ -662,19 +671,19 @@ enum proc_return fql_left_join_logic(process* proc)
 	// No out_false for left_join
 	//fifo* out_false = proc->fifo_out[0];
 	fifo* out_true = proc->fifo_out[1];
-	if (out_true && !out_true->is_open) {
+	if (!out_true->is_open) {
 		return PROC_RETURN_COMPLETE;
 	}
 
 	fifo* in = proc->fifo_in[0];
+	if (_is_done(in)) {
+		return PROC_RETURN_COMPLETE;
+	}
 	if (fifo_is_empty(in)) {
-		if (!in->is_open) {
-			return PROC_RETURN_COMPLETE;
-		}
 		return PROC_RETURN_WAIT_ON_IN0;
 	}
 
-	if (!out_true && !fifo_receivable(out_true)) {
+	if (!fifo_receivable(out_true)) {
 		return PROC_RETURN_WAIT_ON_OUT1;
 	}
 
@@ -704,7 +713,7 @@ enum proc_return fql_left_join_logic(process* proc)
 		fifo_add(out_true, rg_iter);
 
 		rg_iter = fifo_iter(in);
-		if (!out_true && !fifo_receivable(out_true)) {
+		if (!fifo_receivable(out_true)) {
 			ret = PROC_RETURN_WAIT_ON_OUT1;
 			break;
 		}
@@ -808,11 +817,11 @@ enum proc_return fql_distinct(process* proc)
 	}
 
 	fifo* in = proc->fifo_in[0];
+	// hmmm... this may be impossible...
+	if (proc->wait_for_in0 && _is_done(in)) {
+		return PROC_RETURN_COMPLETE;
+	}
 	if (fifo_is_empty(in)) {
-		// hmmm... this may be impossible...
-		if (proc->wait_for_in0 && !in->is_open) {
-			return PROC_RETURN_COMPLETE;
-		}
 		return PROC_RETURN_WAIT_ON_IN0;
 	}
 
@@ -895,11 +904,10 @@ enum proc_return fql_select(process* proc)
 		return PROC_RETURN_COMPLETE;
 	}
 
-	if (fifo_is_empty(in)) {
-		if (proc->wait_for_in0 && in->is_open) {
-			return PROC_RETURN_WAIT_ON_IN0;
-		}
+	if (_is_done(in)) {
 		proc->wait_for_in0 = false;
+	} else if (fifo_is_empty(in)) {
+		return PROC_RETURN_WAIT_ON_IN0;
 	}
 
 	if (out && !fifo_receivable(out)) {
@@ -958,11 +966,12 @@ enum proc_return fql_delete(process* proc)
 {
 	fifo* in = proc->fifo_in[0];
 
-	if (proc->wait_for_in0 && fifo_is_empty(in)) {
-		if (in->is_open) {
+	if (proc->wait_for_in0) {
+		if (_is_done(in)) {
+			proc->wait_for_in0 = false;
+		} else if (fifo_is_empty(in)) {
 			return PROC_RETURN_WAIT_ON_IN0;
 		}
-		proc->wait_for_in0 = false;
 	}
 
 	fqldelete* delete = proc->proc_data;
@@ -1111,9 +1120,9 @@ _del_open(process* proc, fqldelete* delete, fifo* in_false, fifo* in_true)
 	}
 	if (process_true) {
 		fifo_consume(in_true);
+		delete->delete_idx = true_rec->rec_idx;
 		fqlprocess_recycle(proc, true_node);
 		++proc->rows_affected;
-		delete->delete_idx = true_rec->rec_idx;
 		delete->state = FILTER_PASSTHROUGH;
 		return PROC_RETURN_RUNNING;
 	}
@@ -1127,12 +1136,10 @@ enum proc_return fql_delete_filter(process* proc)
 	fifo* in_false = proc->fifo_in[0];
 	fifo* in_true = proc->fifo_in[1];
 
-	if (fifo_is_empty(in_false) && fifo_is_empty(in_true)) {
-		if (in_true->is_open || in_false->is_open) {
-			return PROC_RETURN_WAIT_ON_IN_EITHER;
-		} else {
-			proc->wait_for_in0 = false;
-		}
+	if (_is_done(in_false) && _is_done(in_true)) {
+		proc->wait_for_in0 = false;
+	} else if (fifo_is_empty(in_false) && fifo_is_empty(in_true)) {
+		return PROC_RETURN_WAIT_ON_IN_EITHER;
 	}
 
 	fqldelete* delete = proc->proc_data;
@@ -1160,12 +1167,10 @@ enum proc_return fql_update(process* proc)
 
 	fifo* in_false = proc->fifo_in[0];
 	fifo* in_true = proc->fifo_in[1];
-	if (fifo_is_empty(in_false) && fifo_is_empty(in_true)) {
-		if (in_true->is_open || in_false->is_open) {
-			return PROC_RETURN_WAIT_ON_IN_EITHER;
-		} else {
-			proc->wait_for_in0 = false;
-		}
+	if (_is_done(in_false) && _is_done(in_true)) {
+		proc->wait_for_in0 = false;
+	} else if (fifo_is_empty(in_false) && fifo_is_empty(in_true)) {
+		return PROC_RETURN_WAIT_ON_IN_EITHER;
 	}
 
 	fqlupdate* update = proc->proc_data;
@@ -1330,9 +1335,9 @@ _update_open(process* proc, fqlupdate* update, fifo* in_false, fifo* in_true)
 	if (process_true) {
 		try_(update->update__(update, *true_node));
 		fifo_consume(in_true);
+		update->update_idx = true_rec->rec_idx;
 		fqlprocess_recycle(proc, true_node);
 		++proc->rows_affected;
-		update->update_idx = true_rec->rec_idx;
 		update->state = FILTER_PASSTHROUGH;
 		return PROC_RETURN_RUNNING;
 	}
@@ -1345,12 +1350,10 @@ enum proc_return fql_update_filter(process* proc)
 {
 	fifo* in_false = proc->fifo_in[0];
 	fifo* in_true = proc->fifo_in[1];
-	if (fifo_is_empty(in_false) && fifo_is_empty(in_true)) {
-		if (in_true->is_open || in_false->is_open) {
-			return PROC_RETURN_WAIT_ON_IN_EITHER;
-		} else {
-			proc->wait_for_in0 = false;
-		}
+	if (_is_done(in_false) && _is_done(in_true)) {
+		proc->wait_for_in0 = false;
+	} else if (fifo_is_empty(in_false) && fifo_is_empty(in_true)) {
+		return PROC_RETURN_WAIT_ON_IN_EITHER;
 	}
 
 	fqlupdate* update = proc->proc_data;
diff --git a/util/fifo.c b/util/fifo.c
index a4c5639..a10f1d7 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -110,8 +110,9 @@ bool fifo_is_full(const fifo* restrict self)
 
 unsigned fifo_receivable(fifo* restrict self)
 {
-	unsigned avail = fifo_available(self);
-	return self->buf->size - avail - self->input_count;
+	/* every other input may be about to add one as well */
+	unsigned used = fifo_available(self) + self->input_count;
+	return (used < self->buf->size) ? self->buf->size - used : 0;
 }
 
 void fifo_set_full(fifo* restrict self)
@@ -128,7 +129,7 @@ void* fifo_get_or_wait(fifo* restrict self)
 	}
 	void* data = fifo_peek(self);
 	_idx_adv_(self->tail);
-	pthread_cond_signal(&self->cond_get);
+	pthread_cond_broadcast(&self->cond_get);
 	pthread_mutex_unlock(&self->tail_mutex);
 	return data;
 }
@@ -138,7 +139,7 @@ void* fifo_get(fifo* restrict self)
 	pthread_mutex_lock(&self->tail_mutex);
 	void* data = fifo_peek(self);
 	_idx_adv_(self->tail);
-	pthread_cond_signal(&self->cond_get);
+	pthread_cond_broadcast(&self->cond_get);
 	pthread_mutex_unlock(&self->tail_mutex);
 	return data;
 }
@@ -170,7 +171,7 @@ int fifo_nget(fifo* restrict self,
 
 	self->tail = new_tail;
 
-	pthread_cond_signal(&self->cond_get);
+	pthread_cond_broadcast(&self->cond_get);
 	pthread_mutex_unlock(&self->tail_mutex);
 
 	/* Return what we *know* is available */
@@ -210,7 +211,7 @@ void fifo_consume(fifo* restrict self)
 {
 	pthread_mutex_lock(&self->tail_mutex);
 	_idx_adv_(self->tail);
-	pthread_cond_signal(&self->cond_get);
+	pthread_cond_broadcast(&self->cond_get);
 	pthread_mutex_unlock(&self->tail_mutex);
 }
 
@@ -346,7 +347,7 @@ void* fifo_end(const fifo* restrict self)
 void fifo_update(fifo* restrict self)
 {
 	pthread_mutex_lock(&self->tail_mutex);
-	pthread_cond_signal(&self->cond_get);
+	pthread_cond_broadcast(&self->cond_get);
 	pthread_mutex_unlock(&self->tail_mutex);
 }
 int fifo_update_try(fifo* restrict self)
@@ -355,7 +356,7 @@ int fifo_update_try(fifo* restrict self)
 	if (ret != 0) {
 		return ret;
 	}
-	pthread_cond_signal(&self->cond_get);
+	pthread_cond_broadcast(&self->cond_get);
 	pthread_mutex_unlock(&self->tail_mutex);
 	return 0;
 }
@@ -400,7 +401,7 @@ void fifo_wait_for_add_both(fifo* restrict f0, fifo* restrict f1)
 void fifo_wait_for_get(fifo* restrict self)
 {
 	pthread_mutex_lock(&self->tail_mutex);
-	while (!fifo_receivable(self)) {
+	while (self->is_open && !fifo_receivable(self)) {
 		pthread_cond_wait(&self->cond_get, &self->tail_mutex);
 	}
 	pthread_mutex_unlock(&self->tail_mutex);
-- 
2.43.0


From 04bd634d0a4ff97ddd0c1ee6b9606b9b98ae9fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:41 +0000
Subject: [PATCH 18/71] fix: SELECT and ORDER BY do not evaluate the same
 expression at the same time

---
 lib/fqlprocesses.c | 17 +++++++++++++++--
 lib/fqlselect.h    |  2 ++
 lib/order.c        | 18 +++++++++++++++++-
 lib/order.h        |  2 ++
 4 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 448a322..54ee947 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -859,6 +859,19 @@ enum proc_return fql_distinct(process* proc)
 	return ret;
 }
 
+/* ORDER BY may evaluate our expressions in another thread */
+int _select_record_group(fqlselect* select, node* rg)
+{
+	if (select->orderby == NULL) {
+		return select->select__(select, rg);
+	}
+
+	pthread_mutex_lock(&select->orderby->expr_mutex);
+	int ret = select->select__(select, rg);
+	pthread_mutex_unlock(&select->orderby->expr_mutex);
+	return ret;
+}
+
 enum proc_return fql_select(process* proc)
 {
 	fqlselect* select = proc->proc_data;
@@ -878,7 +891,7 @@ enum proc_return fql_select(process* proc)
 
 	if (!proc->wait_for_in0) {
 		if (current_select->must_run_once && select->rows_affected == 0) {
-			try_(select->select__(select, NULL));
+			try_(_select_record_group(select, NULL));
 			++select->rows_affected;
 			++proc->rows_affected;
 			return PROC_RETURN_RUNNING;
@@ -927,7 +940,7 @@ enum proc_return fql_select(process* proc)
 			break;
 		}
 
-		try_(select->select__(select, *rg_iter));
+		try_(_select_record_group(select, *rg_iter));
 		_fqlprocess_print_iter_states(proc,
 		                              ((record*)(*rg_iter)->data)->node_idx);
 
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index e810478..2ad0471 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -10,6 +10,7 @@
 struct record;
 struct fqlselect;
 struct inlist;
+struct order;
 typedef int (*select_fn)(struct fqlselect*, struct node*);
 
 struct fqlselect {
@@ -22,6 +23,7 @@ struct fqlselect {
 	struct node* union_selects;
 	struct node* _union_node;
 	struct fqlselect* current_select;
+	struct order* orderby;
 	//struct vec* _selection_exprs;
 	struct vec* header_as_exprs;
 	select_fn select__;
diff --git a/lib/order.c b/lib/order.c
index ccce7a2..155d867 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -48,6 +48,7 @@ order* order_construct(order* self)
 	string_construct(&self->out_filename);
 	string_construct(&self->out_tempname);
 	flex_construct(&self->order_data);
+	pthread_mutex_init(&self->expr_mutex, NULL);
 
 	return self;
 }
@@ -61,6 +62,7 @@ void order_destroy(order* self)
 	vec_destroy(&self->expressions);
 	vec_destroy(&self->entries);
 	flex_destroy(&self->order_data);
+	pthread_mutex_destroy(&self->expr_mutex);
 	_order_unmap(self);
 	_order_reset_output(self);
 	string_destroy(&self->in_filename);
@@ -185,6 +187,9 @@ int order_preresolve_expressions(order* self, fqlselect* select, const vec* sour
 	 * These were never mapped. Preflight does this.
 	 */
 
+	/* From here on, SELECT and ORDER BY share expressions. */
+	select->orderby = self;
+
 	vec* select_exprs = select->schema->expressions;
 	schema_preflight(select->schema);
 	multimap* select_map = select->schema->expr_map;
@@ -269,7 +274,7 @@ void order_cat_description(order* self, process* proc)
 	}
 }
 
-int order_add_record(order* self, node* rg)
+int _order_add_record(order* self, node* rg)
 {
 	record* top = rg->data;
 	struct _entry entry = {
@@ -313,6 +318,17 @@ int order_add_record(order* self, node* rg)
 	return FQL_GOOD;
 }
 
+/* An ORDER BY expression that names a SELECT expression evaluates
+ * that very expression. SELECT may be doing so for a later record.
+ */
+int order_add_record(order* self, node* rg)
+{
+	pthread_mutex_lock(&self->expr_mutex);
+	int ret = _order_add_record(self, rg);
+	pthread_mutex_unlock(&self->expr_mutex);
+	return ret;
+}
+
 int _compare(const void* a, const void* b, void* data)
 {
 	order* orderby = data;
diff --git a/lib/order.h b/lib/order.h
index 6f56d73..f6d6651 100644
--- a/lib/order.h
+++ b/lib/order.h
@@ -2,6 +2,7 @@
 #define ORDER_H
 
 #include <stdio.h>
+#include <pthread.h>
 #include "record.h"
 #include "util/vec.h"
 #include "util/flex.h"
@@ -32,6 +33,7 @@ struct order {
 	char* mmap;
 	size_t file_size;
 	size_t top_count;
+	pthread_mutex_t expr_mutex;
 	int fd;
 	bool sorted;
 };
-- 
2.43.0


From 53dafba8469a3de3c1d71f6db34ee7ed1648cf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:56 +0000
Subject: [PATCH 19/71] fix: waiting on either of two pipes neither deadlocks
 nor misses a record

---
 util/fifo.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/util/fifo.c b/util/fifo.c
index a10f1d7..5b93b2d 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -82,7 +82,6 @@ void fifo_set_open(fifo* restrict self, int is_open)
 		pthread_mutex_lock(&self->shared_mutex_fifo->head_mutex);
 		pthread_cond_broadcast(&self->shared_mutex_fifo->cond_add);
 		pthread_mutex_unlock(&self->shared_mutex_fifo->head_mutex);
-		self->shared_mutex_fifo = NULL;
 	}
 
 	pthread_mutex_unlock(&self->head_mutex);
@@ -322,6 +321,7 @@ void fifo_advance(fifo* restrict self)
 	pthread_mutex_lock(&self->head_mutex);
 	_idx_adv_(self->head);
 	pthread_cond_signal(&self->cond_add);
+	_fifo_signal_shared(self);
 	pthread_mutex_unlock(&self->head_mutex);
 }
 
@@ -371,23 +371,25 @@ void fifo_wait_for_add(fifo* restrict self)
 	pthread_mutex_unlock(&self->head_mutex);
 }
 
+/* While f0 has a shared_mutex_fifo, whoever adds to or closes f0
+ * also takes the head_mutex of f1 to signal it. A mutex of f0 is
+ * never taken while holding one of f1.
+ */
 void fifo_wait_for_add_either(fifo* restrict f0, fifo* restrict f1)
 {
-	//pthread_mutex_lock(&f0->head_mutex);
+	pthread_mutex_lock(&f0->head_mutex);
+	f0->shared_mutex_fifo = f1;
+	pthread_mutex_unlock(&f0->head_mutex);
+
 	pthread_mutex_lock(&f1->head_mutex);
-	while (f1->is_open && fifo_is_empty(f1)) {
-		pthread_mutex_lock(&f0->head_mutex);
-		if (!f0->is_open || !fifo_is_empty(f0)) {
-			pthread_mutex_unlock(&f0->head_mutex);
-			break;
-		}
-		f0->shared_mutex_fifo = f1;
-		pthread_mutex_unlock(&f0->head_mutex);
+	while (f0->is_open && f1->is_open && fifo_is_empty(f0) && fifo_is_empty(f1)) {
 		pthread_cond_wait(&f1->cond_add, &f1->head_mutex);
-		f0->shared_mutex_fifo = NULL;
 	}
 	pthread_mutex_unlock(&f1->head_mutex);
-	//pthread_mutex_unlock(&f0->head_mutex);
+
+	pthread_mutex_lock(&f0->head_mutex);
+	f0->shared_mutex_fifo = NULL;
+	pthread_mutex_unlock(&f0->head_mutex);
 }
 
 void fifo_wait_for_add_both(fifo* restrict f0, fifo* restrict f1)
@@ -416,7 +418,6 @@ bool _fifo_signal_shared(fifo* restrict self)
 	pthread_mutex_lock(&shared->head_mutex);
 	pthread_cond_signal(&shared->cond_add);
 	pthread_mutex_unlock(&shared->head_mutex);
-	self->shared_mutex_fifo = NULL;
 	return true;
 }
 
-- 
2.43.0


From e9c48b9da8ae6c14dd2467c7d950baff1b868af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:39 +0000
Subject: [PATCH 20/71] fix: taking a block of records from a pipe with less
 than a block in it

---
 util/fifo.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/fifo.c b/util/fifo.c
index 5b93b2d..9438f13 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -156,6 +156,10 @@ int fifo_nget(fifo* restrict self,
 	}
 	unsigned transfer_count = (available > max) ? max : available;
 	transfer_count -= transfer_count % block_size;
+	if (transfer_count == 0) { /* not even one block */
+		pthread_mutex_unlock(&self->tail_mutex);
+		return available;
+	}
 	unsigned new_tail = (self->tail + transfer_count) % self->buf->size;
 
 	if (new_tail == 0 || new_tail > self->tail) {
-- 
2.43.0


From 87f18f2b4ef86f1fb6442481af0b628988526a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:33 +0000
Subject: [PATCH 21/71] fix: a filtering UPDATE or DELETE keeps the order of
 the rows

---
 lib/fqlprocesses.c | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 54ee947..d151670 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -1064,6 +1064,9 @@ _del_passthrough(process* proc, fqldelete* delete, fifo* in_false, fifo* in_true
 enum proc_return
 _del_filtering(process* proc, fqldelete* delete, fifo* in_false, fifo* in_true)
 {
+	/* must be known before looking for what is left in there */
+	bool true_closed = !in_true->is_open;
+
 	if (fifo_available(in_true)) {
 		node** true_node = fifo_peek(in_true);
 		record* rec = record_at(*true_node, delete->table_idx);
@@ -1081,7 +1084,7 @@ _del_filtering(process* proc, fqldelete* delete, fifo* in_false, fifo* in_true)
 		return PROC_RETURN_RUNNING;
 	}
 
-	if (!in_true->is_open) {
+	if (true_closed) {
 		node** false_node = fifo_get(in_false);
 		try_(delete->undelete__(delete, *false_node));
 		fqlprocess_recycle(proc, false_node);
@@ -1099,7 +1102,10 @@ _del_filtering(process* proc, fqldelete* delete, fifo* in_false, fifo* in_true)
 		record* look_ahead_rec = record_at(*look_ahead, delete->table_idx);
 		if (look_ahead_rec->rec_idx > delete->delete_idx) {
 			try_(delete->undelete__(delete, *iter_false));
+			fqlprocess_recycle(proc, iter_false);
+			fifo_iter(in_false);
 			delete->state = FILTER_OPEN;
+			break;
 		}
 		_fqlprocess_print_iter_states(proc, look_ahead_rec->node_idx);
 		fqlprocess_recycle(proc, iter_false);
@@ -1118,15 +1124,21 @@ _del_open(process* proc, fqldelete* delete, fifo* in_false, fifo* in_true)
 	node** false_node = NULL;
 	record* false_rec = NULL;
 
+	/* A true record is looked for first: if it is there, then so
+	 * are the false records which come before it.
+	 */
+	if (fifo_available(in_true)) {
+		true_node = fifo_peek(in_true);
+		true_rec = record_at(*true_node, delete->table_idx);
+	}
+
 	if (fifo_available(in_false)) {
 		false_node = fifo_peek(in_false);
 		false_rec = record_at(*false_node, delete->table_idx);
 	}
 
 	/* If not stable, this can be skipped */
-	if (fifo_available(in_true)) {
-		true_node = fifo_peek(in_true);
-		true_rec = record_at(*true_node, delete->table_idx);
+	if (true_node != NULL) {
 		if (false_node == NULL || true_rec->rec_idx <= false_rec->rec_idx) {
 			process_true = true;
 		}
@@ -1277,6 +1289,9 @@ _update_passthrough(process* proc, fqlupdate* update, fifo* in_false, fifo* in_t
 enum proc_return
 _update_filtering(process* proc, fqlupdate* update, fifo* in_false, fifo* in_true)
 {
+	/* must be known before looking for what is left in there */
+	bool true_closed = !in_true->is_open;
+
 	if (fifo_available(in_true)) {
 		node** true_node = fifo_peek(in_true);
 		record* rec = record_at(*true_node, update->table_idx);
@@ -1295,7 +1310,7 @@ _update_filtering(process* proc, fqlupdate* update, fifo* in_false, fifo* in_tru
 		return PROC_RETURN_RUNNING;
 	}
 
-	if (!in_true->is_open) {
+	if (true_closed) {
 		node** false_node = fifo_get(in_false);
 		try_(update->noupdate__(update, *false_node));
 		fqlprocess_recycle(proc, false_node);
@@ -1313,7 +1328,10 @@ _update_filtering(process* proc, fqlupdate* update, fifo* in_false, fifo* in_tru
 		record* look_ahead_rec = record_at(*look_ahead, update->table_idx);
 		if (look_ahead_rec->rec_idx > update->update_idx) {
 			try_(update->noupdate__(update, *iter_false));
+			fqlprocess_recycle(proc, iter_false);
+			fifo_iter(in_false);
 			update->state = FILTER_OPEN;
+			break;
 		}
 		_fqlprocess_print_iter_states(proc, look_ahead_rec->node_idx);
 		fqlprocess_recycle(proc, iter_false);
@@ -1332,15 +1350,21 @@ _update_open(process* proc, fqlupdate* update, fifo* in_false, fifo* in_true)
 	node** false_node = NULL;
 	record* false_rec = NULL;
 
+	/* A true record is looked for first: if it is there, then so
+	 * are the false records which come before it.
+	 */
+	if (fifo_available(in_true)) {
+		true_node = fifo_peek(in_true);
+		true_rec = record_at(*true_node, update->table_idx);
+	}
+
 	if (fifo_available(in_false)) {
 		false_node = fifo_peek(in_false);
 		false_rec = record_at(*false_node, update->table_idx);
 	}
 
 	/* If not stable, this can be skipped */
-	if (fifo_available(in_true)) {
-		true_node = fifo_peek(in_true);
-		true_rec = record_at(*true_node, update->table_idx);
+	if (true_node != NULL) {
 		if (false_node == NULL || true_rec->rec_idx <= false_rec->rec_idx) {
 			process_true = true;
 		}
-- 
2.43.0


From 3dc89d452433c44012a9bafbacea94ddd98598c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:57 +0000
Subject: [PATCH 22/71] fix: ORDER BY into a file fails when its unsorted
 output cannot be completed

---
 lib/operation.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/operation.c b/lib/operation.c
index aaefae5..cd48860 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -385,9 +385,12 @@ int op_reset(query* query, bool has_executed)
 	if (!query->union_id && query->orderby != NULL) {
 		char* out_name = writer_take_filename(op_writer);
 		const char* in_name = writer_export_temp(op_writer);
-		try_(order_init_io(query->orderby, in_name, out_name));
+		int ret = (in_name == NULL)
+		                  ? FQL_FAIL
+		                  : order_init_io(query->orderby, in_name, out_name);
 		free_(in_name);
 		free_(out_name);
+		try_(ret);
 	}
 
 	return FQL_GOOD;
-- 
2.43.0


From c9fdeb7a977434fe525c464ed708d0d929d2b73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:57 +0000
Subject: [PATCH 23/71] fix: a statement fails when one of its tables cannot be
 opened again

---
 lib/query.c  | 2 +-
 lib/reader.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/query.c b/lib/query.c
index b7c7f2c..33eb2ce 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -160,7 +160,7 @@ int query_preflight(query* self, bool has_executed)
 	/* need to reset all readers */
 	table* table_iter = vec_begin(self->sources);
 	for (; table_iter != vec_end(self->sources); ++table_iter) {
-		table_reset(table_iter, has_executed);
+		try_(table_reset(table_iter, has_executed));
 	}
 
 	try_(group_reset(self->distinct));
diff --git a/lib/reader.c b/lib/reader.c
index d201b29..9637671 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -106,7 +106,7 @@ int reader_reopen(reader* self)
 		return FQL_FAIL;
 	}
 
-	self->reset__(self);
+	try_(self->reset__(self));
 
 	return FQL_GOOD;
 }
-- 
2.43.0


From 24d65098c37fd4ed07f1f08d1f299e693ac43900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:57 +0000
Subject: [PATCH 24/71] fix: a read error while looking at the header of a
 table is an error

---
 lib/fixedread.c | 2 ++
 lib/schema.c    | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/fixedread.c b/lib/fixedread.c
index 59f3cf6..4a43445 100644
--- a/lib/fixedread.c
+++ b/lib/fixedread.c
@@ -85,6 +85,8 @@ int fixedread_get_record_stdin(reader* reader, node* rg)
 			reader->eof = true;
 			return EOF;
 		}
+		perror("stdin");
+		return FQL_FAIL;
 	}
 
 	unsigned i = 0;
diff --git a/lib/schema.c b/lib/schema.c
index 2e7441e..a8c10de 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -576,8 +576,13 @@ int _resolve_source(struct fqlhandle* fql, query* query, table* table, int src_i
 	rg.data = rec;
 
 	table->reader->max_idx = INT_MAX;
-	table->reader->get_record__(table->reader, &rg);
+	int ret = table->reader->get_record__(table->reader, &rg);
 	table->reader->max_idx = 0;
+	if (ret == FQL_FAIL) {
+		perror(string_c_str(&table->reader->file_name));
+		delete_(record, rec);
+		return FQL_FAIL;
+	}
 
 	if (!table->is_stdin) {
 		table->reader->reset__(table->reader);
-- 
2.43.0


From fb82ac6dd52caff9baf5d786821807ef006637f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:52 +0000
Subject: [PATCH 25/71] fix: running out of memory while copying a string ends
 cleanly

---
 lib/antlr/listenerinterface.cpp |  6 +++---
 lib/fixedwrite.c                |  2 +-
 lib/fqlsig.c                    |  2 +-
 lib/libfql.c                    |  2 +-
 lib/operation.c                 |  2 +-
 lib/order.c                     |  2 +-
 lib/query.c                     |  2 +-
 util/util.c                     |  2 +-
 util/util.h                     | 13 +++++++++++++
 9 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 18cc1d3..ae2294e 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -291,7 +291,7 @@ void ListenerInterface::enterTable_source_item(TSqlParser::Table_source_itemCont
 		 * opposed to the passing a variable along with this token.
 		 */
 		_is_table_variable = true;
-		char* token_copy = strdup(ctx->LOCAL_ID()->getText().c_str());
+		char* token_copy = strdup_(ctx->LOCAL_ID()->getText().c_str());
 		node_push(&_source_stack, token_copy);
 	}
 }
@@ -491,7 +491,7 @@ void ListenerInterface::enterId_(TSqlParser::Id_Context* ctx)
 		_trim_end_chars(new_str, '[', ']');
 	}
 
-	char* token = strdup(new_str.c_str());
+	char* token = strdup_(new_str.c_str());
 
 	switch (_tok_type) {
 	case TOK_OP_TABLE:
@@ -767,7 +767,7 @@ void ListenerInterface::enterData_type(TSqlParser::Data_typeContext * ctx)
 {
 	_tok_type = TOK_DATA_TYPE;
 
-	const char* tok_str = strdup(ctx->getText().c_str());
+	const char* tok_str = strdup_(ctx->getText().c_str());
 	const char* it = tok_str;
 	char numstr[32];
 	char* num_iter = numstr;
diff --git a/lib/fixedwrite.c b/lib/fixedwrite.c
index 3ae26b6..0654359 100644
--- a/lib/fixedwrite.c
+++ b/lib/fixedwrite.c
@@ -41,7 +41,7 @@ int _mktmp(fixedwriter* self)
 	char* targetdir = ".";
 	char* filename_cp = NULL;
 	if (!string_empty(&self->filename)) {
-		filename_cp = strdup(string_c_str(&self->filename));
+		filename_cp = strdup_(string_c_str(&self->filename));
 		targetdir = dirname(filename_cp);
 	}
 	string_strcpy(&self->tempname, targetdir);
diff --git a/lib/fqlsig.c b/lib/fqlsig.c
index 1af6193..7cd619c 100644
--- a/lib/fqlsig.c
+++ b/lib/fqlsig.c
@@ -56,7 +56,7 @@ void fqlsig_cleanexit()
 
 node* fqlsig_tmp_push(const char* tmp_file)
 {
-	return node_enqueue(&_tmp_file_head, strdup(tmp_file));
+	return node_enqueue(&_tmp_file_head, strdup_(tmp_file));
 }
 
 void fqlsig_tmp_remove_node(node* node)
diff --git a/lib/libfql.c b/lib/libfql.c
index 1a10fa8..d227f48 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -607,7 +607,7 @@ int fql_make_plans(fqlhandle* fql, const char* query_str)
 	if (fql->query_str) {
 		free_(fql->query_str);
 	}
-	fql->query_str = strdup(query_str);
+	fql->query_str = strdup_(query_str);
 
 	if (analyze_query(fql)) {
 		fql_reset(fql);
diff --git a/lib/operation.c b/lib/operation.c
index cd48860..d25685c 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -360,7 +360,7 @@ int op_reset(query* query, bool has_executed)
 	if (op_table != NULL && query->into_table_name == NULL) {
 		/* query owns this so we dup it */
 		query->into_table_name =
-		        strdup(string_c_str(&op_table->reader->file_name));
+		        strdup_(string_c_str(&op_table->reader->file_name));
 	}
 
 	/* If our into_table_name is a variable, set it now. */
diff --git a/lib/order.c b/lib/order.c
index 155d867..307ce20 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -94,7 +94,7 @@ void _order_reset_output(order* self)
  */
 int _order_open_output(order* self, const char* out_name)
 {
-	char* name_cp = strdup(out_name);
+	char* name_cp = strdup_(out_name);
 	string_strcpy(&self->out_tempname, dirname(name_cp));
 	free_(name_cp);
 	string_strcat(&self->out_tempname, "/order_XXXXXX");
diff --git a/lib/query.c b/lib/query.c
index 33eb2ce..e185f32 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -877,7 +877,7 @@ void query_exit_non_select_op(query* self)
 	}
 
 	const char* op_table_name = op_get_table_name(self->op);
-	char* table_name_dup = strdup(op_table_name);
+	char* table_name_dup = strdup_(op_table_name);
 
 	node* fake_source_stack = NULL;
 	node_push(&fake_source_stack, table_name_dup);
diff --git a/util/util.c b/util/util.c
index 5a35710..5131e9f 100644
--- a/util/util.c
+++ b/util/util.c
@@ -196,7 +196,7 @@ node* dir_list_files(const char* restrict dir)
 	}
 
 	while ((en = readdir(dr)) != NULL) {
-		node_enqueue(&files, strdup(en->d_name));
+		node_enqueue(&files, strdup_(en->d_name));
 	}
 	closedir(dr);
 
diff --git a/util/util.h b/util/util.h
index aaac50a..4a14cbc 100644
--- a/util/util.h
+++ b/util/util.h
@@ -49,6 +49,19 @@ typedef int (*int_generic_data_fn)(void*);
 		new_dest_;                               \
 	})
 
+/**
+ * strdup wrapper that does error checking
+ */
+#define strdup_(str_)                          \
+	({                                     \
+		char* dup_ = strdup(str_);     \
+		if (!dup_) {                   \
+			perror("strdup");      \
+			exit(EXIT_FAILURE);    \
+		}                              \
+		dup_;                          \
+	})
+
 /**
  * strncpy but guaranteed to end with '\0'
  */
-- 
2.43.0


From c93d7a0e8b8d4ba37571794cfb7237c29dbf8439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:34 +0000
Subject: [PATCH 26/71] fix: a statement whose output cannot be written fails

---
 lib/libfql.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/libfql.c b/lib/libfql.c
index d227f48..bf2bee7 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -561,6 +561,12 @@ int fql_exec_plans(fqlhandle* fql, int plan_count)
 			ret = process_exec_plan(plan);
 		}
 
+		/* Results only count if they were really written */
+		if (ret != FQL_FAIL && (fflush(stdout) || ferror(stdout))) {
+			perror("stdout");
+			ret = FQL_FAIL;
+		}
+
 		fql->query_idx = (*query)->next_idx;
 
 		if (ret == FQL_FAIL) {
-- 
2.43.0


From d0ffd87482594d8625cf1c339c8f5f3ba5a2c2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:01 +0000
Subject: [PATCH 27/71] fix: temporary files do not outlive a failing
 statement, an exit or a signal

---
 lib/fqlsig.c | 121 ++++++++++++++++++++++++++++++++++++++++++++++++---
 lib/fqlsig.h |  11 +++++
 lib/order.c  |   7 +--
 lib/reader.c |  12 +++--
 lib/schema.c |   4 ++
 lib/writer.c |   7 ++-
 6 files changed, 144 insertions(+), 18 deletions(-)

diff --git a/lib/fqlsig.c b/lib/fqlsig.c
index 7cd619c..045e26f 100644
--- a/lib/fqlsig.c
+++ b/lib/fqlsig.c
@@ -1,6 +1,8 @@
 #include "fqlsig.h"
+#include <pthread.h>
 #include <string.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include "util/stringy.h"
 #include "util/util.h"
 #include "misc.h"
@@ -18,6 +20,57 @@ static node* _tmp_file_head = NULL;
 
 static sig_fn libcsv_action__ = NULL;
 
+/* The list is used by all threads and by the signal handler. The handler
+ * must not wait, so a signal that finds the list locked is handled by
+ * whoever holds the lock as soon as it is released.
+ */
+static pthread_mutex_t _tmp_mutex = PTHREAD_MUTEX_INITIALIZER;
+static volatile sig_atomic_t _is_signal_pending = false;
+
+static void _lock(void)
+{
+	pthread_mutex_lock(&_tmp_mutex);
+}
+
+static void _unlock(void)
+{
+	pthread_mutex_unlock(&_tmp_mutex);
+	if (_is_signal_pending) {
+		fqlsig_cleanexit();
+	}
+}
+
+static void _removeall(void)
+{
+	while (_tmp_file_head) {
+		char* tmp = node_dequeue(&_tmp_file_head);
+		fqlsig_tmp_remove_file(tmp);
+		free_(tmp);
+	}
+}
+
+static void _forget(const char* tmp_file)
+{
+	node* it = _tmp_file_head;
+	while (it != NULL) {
+		node* next = it->next;
+		if (string_eq(it->data, tmp_file)) {
+			char* filename = node_remove(&_tmp_file_head, it);
+			free_(filename);
+		}
+		it = next;
+	}
+}
+
+static void _tmp_remove_at_exit(void)
+{
+	/* libcsv has temporary files, too */
+	if (libcsv_action__ != NULL) {
+		libcsv_action__(-1);
+	}
+	fqlsig_tmp_removeall();
+}
+
 void fqlsig_init_sig()
 {
 	if (_signals_ready)
@@ -39,30 +92,73 @@ void fqlsig_init_sig()
 	sigaction(SIGTERM, &act, NULL);
 	sigaction(SIGHUP, &act, NULL);
 
+	/* Errors that end the process must not leave anything either */
+	atexit(_tmp_remove_at_exit);
+
 	_signals_ready = true;
 }
 
 void fqlsig_cleanexit()
 {
+	if (pthread_mutex_trylock(&_tmp_mutex)) {
+		_is_signal_pending = true;
+		if (pthread_mutex_trylock(&_tmp_mutex)) {
+			return;
+		}
+	}
+	_is_signal_pending = false;
+
 	/* The -1 here tells the libcsv sig handler not
 	 * to call exit(), so we can clean up here too.
 	 */
 	if (libcsv_action__ != NULL) {
 		libcsv_action__(-1);
 	}
-	fqlsig_tmp_removeall();
+	_removeall();
+	pthread_mutex_unlock(&_tmp_mutex);
 	exit(EXIT_FAILURE);
 }
 
+/* Running out of memory while the list is locked would never end. */
+static node* _new_node(const char* tmp_file)
+{
+	node* new_node = NULL;
+	return node_push(&new_node, strdup_(tmp_file));
+}
+
 node* fqlsig_tmp_push(const char* tmp_file)
 {
-	return node_enqueue(&_tmp_file_head, strdup_(tmp_file));
+	node* new_node = _new_node(tmp_file);
+	_lock();
+	node_enqueue_import(&_tmp_file_head, new_node);
+	_unlock();
+	return new_node;
+}
+
+int fqlsig_tmp_create(char* name, node** created)
+{
+	node* new_node = _new_node(name);
+	_lock();
+	int fd = mkstemp(new_node->data);
+	if (fd != -1) {
+		strcpy(name, new_node->data);
+		node_enqueue_import(&_tmp_file_head, new_node);
+		*created = new_node;
+	}
+	_unlock();
+
+	if (fd == -1) {
+		node_free_data(&new_node);
+	}
+	return fd;
 }
 
 void fqlsig_tmp_remove_node(node* node)
 {
+	_lock();
 	char* filename = node_remove(&_tmp_file_head, node);
 	free_(filename);
+	_unlock();
 }
 
 void fqlsig_tmp_remove_file(const char* tmp_file)
@@ -74,16 +170,27 @@ void fqlsig_tmp_remove_file(const char* tmp_file)
 
 void fqlsig_tmp_remove_node_and_file(node* node)
 {
+	_lock();
 	char* tmp = node_remove(&_tmp_file_head, node);
 	fqlsig_tmp_remove_file(tmp);
 	free_(tmp);
+	_unlock();
 }
 
-void fqlsig_tmp_removeall()
+void fqlsig_tmp_complete(const char* file)
 {
-	while (_tmp_file_head) {
-		char* tmp = node_dequeue(&_tmp_file_head);
-		fqlsig_tmp_remove_file(tmp);
-		free_(tmp);
+	node* new_node = (*file == '#') ? _new_node(file) : NULL;
+	_lock();
+	_forget(file);
+	if (new_node != NULL) {
+		node_enqueue_import(&_tmp_file_head, new_node);
 	}
+	_unlock();
+}
+
+void fqlsig_tmp_removeall()
+{
+	_lock();
+	_removeall();
+	_unlock();
 }
diff --git a/lib/fqlsig.h b/lib/fqlsig.h
index 5076aa1..9116701 100644
--- a/lib/fqlsig.h
+++ b/lib/fqlsig.h
@@ -21,6 +21,17 @@ void fqlsig_cleanexit();
  */
 struct node* fqlsig_tmp_push(const char* tmp_file);
 
+/**
+ * Create a temp file as mkstemp(3) does and add it
+ */
+int fqlsig_tmp_create(char* name, struct node** new_node);
+
+/**
+ * The file has its final content. From now
+ * on, it is only temporary if its name is.
+ */
+void fqlsig_tmp_complete(const char* file);
+
 /**
  * Remove temp node only
  */
diff --git a/lib/order.c b/lib/order.c
index 307ce20..3ac6b72 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -99,12 +99,11 @@ int _order_open_output(order* self, const char* out_name)
 	free_(name_cp);
 	string_strcat(&self->out_tempname, "/order_XXXXXX");
 
-	int fd = mkstemp(self->out_tempname.data);
+	int fd = fqlsig_tmp_create(self->out_tempname.data, &self->out_temp_node);
 	if (fd == -1) {
 		perror(string_c_str(&self->out_tempname));
 		return FQL_FAIL;
 	}
-	self->out_temp_node = fqlsig_tmp_push(string_c_str(&self->out_tempname));
 
 	self->out_file = fdopen(fd, "w");
 	if (self->out_file == NULL) {
@@ -136,9 +135,7 @@ int _order_close_output(order* self)
 	fqlsig_tmp_remove_node(self->out_temp_node);
 	self->out_temp_node = NULL;
 
-	if (*file == '#') {
-		fqlsig_tmp_push(file);
-	}
+	fqlsig_tmp_complete(file);
 	string_clear(&self->out_filename);
 	return FQL_GOOD;
 }
diff --git a/lib/reader.c b/lib/reader.c
index 9637671..9dbe8ce 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -128,15 +128,19 @@ int reader_mktmp(reader* self)
 {
 	string_strcpy(self->random_access_filename, "./read_XXXXXX");
 
-	int fd = mkstemp(self->random_access_filename->data);
+	int fd = fqlsig_tmp_create(self->random_access_filename->data,
+	                           &self->random_access_tempnode);
+	if (fd == -1) {
+		perror(string_c_str(self->random_access_filename));
+		return FQL_FAIL;
+	}
+
 	self->random_access_file = fdopen(fd, "w");
 	if (!self->random_access_file) {
 		perror(string_c_str(self->random_access_filename));
+		close(fd);
 		return FQL_FAIL;
 	}
-
-	self->random_access_tempnode =
-	        fqlsig_tmp_push(string_c_str(self->random_access_filename));
 	return FQL_GOOD;
 }
 
diff --git a/lib/schema.c b/lib/schema.c
index a8c10de..4acf85b 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -10,6 +10,7 @@
 #include "table.h"
 #include "group.h"
 #include "order.h"
+#include "fqlsig.h"
 #include "logic.h"
 #include "reader.h"
 #include "function.h"
@@ -1332,9 +1333,12 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 			 *       reasons other than "file doesn't exist." We
 			 *       rely on fopen errors to catch other errors.
 			 */
+			/* This is a temporary file until SELECT completes */
+			node* tmp = fqlsig_tmp_push(aquery->into_table_name);
 			FILE* place_holder = fopen(aquery->into_table_name, "w");
 			if (place_holder == NULL) {
 				perror(aquery->into_table_name);
+				fqlsig_tmp_remove_node(tmp);
 				return FQL_FAIL;
 			}
 
diff --git a/lib/writer.c b/lib/writer.c
index 2560bd6..bfd8dd9 100644
--- a/lib/writer.c
+++ b/lib/writer.c
@@ -101,8 +101,8 @@ int writer_close(writer* self)
 		return FQL_FAIL;
 	}
 
-	if (*string_c_str(&self->file_name) == '#') {
-		fqlsig_tmp_push(string_c_str(&self->file_name));
+	if (!string_empty(&self->file_name)) {
+		fqlsig_tmp_complete(string_c_str(&self->file_name));
 	}
 	string_clear(&self->file_name);
 
@@ -123,6 +123,9 @@ FILE* writer_get_file(writer* self)
 
 char* writer_take_filename(writer* self)
 {
+	/* somebody else completes the file */
+	string_clear(&self->file_name);
+
 	switch (self->type) {
 	case IO_LIBCSV:
 		return csv_writer_detach_filename(self->writer_data);
-- 
2.43.0


From 9366e358b8c57bc15b4c41367757b1e6c7dca1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:55 +0000
Subject: [PATCH 28/71] fix: ORDER BY does not leave a descriptor open

---
 lib/order.c | 19 ++++++++++++-------
 lib/order.h |  1 -
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib/order.c b/lib/order.c
index 3ac6b72..4c35447 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -74,7 +74,6 @@ void _order_unmap(order* self)
 {
 	if (self->mmap != NULL) {
 		munmap(self->mmap, self->file_size);
-		close(self->fd);
 		self->mmap = NULL;
 	}
 }
@@ -467,30 +466,36 @@ int order_sort(order* self)
 	self->sorted = true;
 	self->entry_iter = vec_begin(&self->entries);
 
-	self->fd = open(string_c_str(&self->in_filename), O_RDONLY);
-	if (self->fd == -1) {
+	int fd = open(string_c_str(&self->in_filename), O_RDONLY);
+	if (fd == -1) {
 		perror(string_c_str(&self->in_filename));
 		return FQL_FAIL;
 	}
 
 	struct stat sb;
-	if (fstat(self->fd, &sb) == -1) {
+	if (fstat(fd, &sb) == -1) {
 		perror(string_c_str(&self->in_filename));
+		close(fd);
 		return FQL_FAIL;
 	}
 
 	if (sb.st_size == 0) {
+		close(fd);
 		return FQL_GOOD;
 	}
 
 	self->file_size = sb.st_size;
 
-	self->mmap = mmap(NULL, sb.st_size, PROT_READ, MAP_PRIVATE, self->fd, 0);
-
-	if (self->mmap == MAP_FAILED) {
+	void* map = mmap(NULL, sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
+	if (map == MAP_FAILED) {
 		perror(string_c_str(&self->in_filename));
+		close(fd);
 		return FQL_FAIL;
 	}
+
+	/* the mapping does not need it */
+	close(fd);
+	self->mmap = map;
 	madvise(self->mmap, sb.st_size, MADV_RANDOM);
 
 	return FQL_GOOD;
diff --git a/lib/order.h b/lib/order.h
index f6d6651..8dd0128 100644
--- a/lib/order.h
+++ b/lib/order.h
@@ -34,7 +34,6 @@ struct order {
 	size_t file_size;
 	size_t top_count;
 	pthread_mutex_t expr_mutex;
-	int fd;
 	bool sorted;
 };
 typedef struct order order;
-- 
2.43.0


From 9ca02c1dac2a39635af9b39bdc9029b43f3a9d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:24 +0000
Subject: [PATCH 29/71] fix: a joined standard input or derived table leaves no
 stream open

---
 lib/reader.c   | 11 +++++++++--
 lib/subquery.c |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index 9dbe8ce..8c257aa 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -33,8 +33,15 @@ void reader_destroy(reader* self)
 		self->free__(self->reader_data);
 	}
 
-	/* TODO */
-	if (self->random_access_filename != NULL) { }
+	if (self->subquery_writer != NULL) {
+		csv_writer_free(self->subquery_writer); /* closes the file */
+	} else if (self->random_access_file != NULL) {
+		fclose(self->random_access_file);
+	}
+
+	if (self->random_access_filename != NULL) {
+		delete_(string, self->random_access_filename);
+	}
 }
 
 int reader_assign(reader* self, table* table, struct fqlhandle* fql)
diff --git a/lib/subquery.c b/lib/subquery.c
index 81f095a..141d1e2 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -155,6 +155,7 @@ int subquery_reset_from_join(reader* reader)
 	}
 	reader->random_access_file = NULL;
 	csv_writer_free(reader->subquery_writer);
+	reader->subquery_writer = NULL;
 
 	subquery* self = reader->reader_data;
 
-- 
2.43.0


From 8f9630ad3bf1f41422916cd31de782b9bf32243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 30/71] fix: standard input on the right of a join without
 equality is read for each left record

---
 lib/fqlplan.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 65f6ed6..228bfc8 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -430,6 +430,11 @@ int _from(plan* self, query* query, fqlhandle* fql)
 				      stderr);
 				return FQL_FAIL;
 			}
+			/* each record on the left reads all of it */
+			if (table_iter->is_stdin) {
+				try_(reader_start_file_backed_input(
+				        table_iter->reader));
+			}
 			join_proc =
 			        _new_join_proc(table_iter->join_type, "cartesian", self);
 			join_proc->action__ = &fql_cartesian_join;
-- 
2.43.0


From 9b8506eeae16e95b8518b9ae2ca73abf870c2183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 31/71] fix: standard input joined without equality is read
 again from its start

---
 lib/fixedread.c  | 4 ++++
 lib/libcsvread.c | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/lib/fixedread.c b/lib/fixedread.c
index 4a43445..c78c8f2 100644
--- a/lib/fixedread.c
+++ b/lib/fixedread.c
@@ -163,6 +163,10 @@ int fixedread_reset_stdin(reader* reader)
 	try_(reader_stop_file_backed_input(reader));
 	reader->reset__ = &fixedread_reset;
 	reader->get_record__ = &fixedread_get_record;
+	reader->skip_rows = 0; /* the file has no header */
+	reader->rec_id = 0;
+	reader->eof = false;
+	((fixedread*)reader->reader_data)->offset = 0;
 
 	return fixedread_open(reader, string_c_str(reader->random_access_filename));
 }
diff --git a/lib/libcsvread.c b/lib/libcsvread.c
index 81ac302..70a1df0 100644
--- a/lib/libcsvread.c
+++ b/lib/libcsvread.c
@@ -111,6 +111,8 @@ int libcsv_reset_stdin(reader* self)
 	try_(reader_stop_file_backed_input(self));
 	self->reset__ = libcsv_reset;
 	self->skip_rows = 0; /* the file has no header */
+	self->rec_id = 0;
+	self->eof = false;
 	if (csv_reader_open_mmap(self->reader_data,
 	                         string_c_str(self->random_access_filename))) {
 		csv_perror();
-- 
2.43.0


From 79e221106b72dca644d2d0117ee00267cf573037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 32/71] fix: IF and WHILE continue at the right statement when
 blocks are nested or have an ELSE

---
 lib/antlr/listenerinterface.cpp |  24 +++--
 lib/fqlbranch.c                 |   8 +-
 lib/fqlbranch.h                 |   3 -
 lib/fqlhandle.h                 |   6 --
 lib/libfql.c                    |   1 -
 lib/query.c                     | 169 ++++++++------------------------
 lib/query.h                     |   4 +-
 lib/scope.c                     |   1 -
 lib/scope.h                     |   1 -
 9 files changed, 58 insertions(+), 159 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index ae2294e..80cb96c 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -93,13 +93,16 @@ void ListenerInterface::exitWhile_statement(TSqlParser::While_statementContext *
 
 void ListenerInterface::enterBlock_statement(TSqlParser::Block_statementContext * ctx)
 {
+	if (ctx->sql_clauses().empty()) {
+		std::cerr << "BEGIN without statement before END\n";
+		_set_failure();
+		return;
+	}
 	_entering_block_stmt = true;
-	query_enter_block(_query);
 }
 void ListenerInterface::exitBlock_statement(TSqlParser::Block_statementContext * ctx)
 {
 	_exiting_block_stmt = true;
-	query_exit_block(_query);
 }
 
 void ListenerInterface::enterAnother_statement(TSqlParser::Another_statementContext * ctx) { }
@@ -195,17 +198,18 @@ void ListenerInterface::exitSql_clauses(TSqlParser::Sql_clausesContext* ctx)
 {
 	if (_exiting_block_stmt) {
 		_exiting_block_stmt = false;
-		return;
+	} else {
+		_query->query_total = _query_id + 1;
+		node_pop(&_query_stack);
+		_query = (_query_stack == NULL) ? NULL : (query*) _query_stack->data;
 	}
-	_query->query_total = _query_id + 1;
-	query* prev = (query*) node_pop(&_query_stack);
-	int last_idx = prev->idx;
-	_query = (_query_stack == NULL) ? NULL : (query*) _query_stack->data;
 
-	if (query_exit_query(_query, prev)) {
-		_set_failure();
+	/* This might have been what to do if a condition is met */
+	TSqlParser::If_statementContext* if_ctx
+		= dynamic_cast<TSqlParser::If_statementContext*>(ctx->parent);
+	if (if_ctx != NULL && if_ctx->sql_clauses(0) == ctx) {
+		query_exit_true_block(_query);
 	}
-
 }
 
 void ListenerInterface::enterSelect_statement_standalone(TSqlParser::Select_statement_standaloneContext* ctx) { }
diff --git a/lib/fqlbranch.c b/lib/fqlbranch.c
index 6154563..a25952f 100644
--- a/lib/fqlbranch.c
+++ b/lib/fqlbranch.c
@@ -21,12 +21,7 @@ fqlbranch* fqlbranch_construct(fqlbranch* self,
 	        .false_idx = -1,
 	};
 
-	if (fql->branch_state == BRANCH_EXPECT_ELSE) {
-		self->scope->parent_scope = fql->_scope->parent_scope;
-	} else {
-		fql->branch_state = BRANCH_EXPECT_EXPR;
-		self->scope->parent_scope = fql->_scope;
-	}
+	self->scope->parent_scope = fql->_scope;
 	fql->_scope = self->scope;
 
 	return self;
@@ -35,7 +30,6 @@ fqlbranch* fqlbranch_construct(fqlbranch* self,
 void fqlbranch_destroy(fqlbranch* self)
 {
 	delete_(scope, self->scope);
-	delete_if_exists_(scope, self->else_scope);
 	delete_if_exists_(logicgroup, self->condition);
 }
 
diff --git a/lib/fqlbranch.h b/lib/fqlbranch.h
index 78cac2a..18df752 100644
--- a/lib/fqlbranch.h
+++ b/lib/fqlbranch.h
@@ -11,13 +11,10 @@ struct fqlbranch {
 	enum fql_operation oper_type;
 	struct logicgroup* condition;
 	int* next_query_idx_ref;
-	struct query* last_true_block_query;
 	struct scope* scope;
-	struct scope* else_scope;
 	int true_idx;
 	int false_idx;
 	bool expect_else;
-	bool is_elseif;
 };
 typedef struct fqlbranch fqlbranch;
 
diff --git a/lib/fqlhandle.h b/lib/fqlhandle.h
index 0d647aa..23ce477 100644
--- a/lib/fqlhandle.h
+++ b/lib/fqlhandle.h
@@ -24,12 +24,6 @@ struct fqlhandle {
 	struct vec* schema_paths;
 	char* query_str;
 	unsigned query_idx;
-	enum {
-		BRANCH_NO_BRANCH,
-		BRANCH_EXPECT_EXPR,
-		BRANCH_EXPECT_ELSE,
-		BRANCH_EXPECT_EXIT,
-	} branch_state;
 	bool _out_delim_set;
 	struct {
 		struct vec* schema_path; /* actually string but extern "C" so.. */
diff --git a/lib/libfql.c b/lib/libfql.c
index bf2bee7..ae7fedc 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -42,7 +42,6 @@ fqlhandle* fql_construct(fqlhandle* fql)
 	        .query_vec = new_t_(vec, query*),
 	        .api_vec = new_t_(vec, struct fql_field),
 	        .variables = new_t_(vec, variable),
-	        .branch_state = BRANCH_EXPECT_EXPR,
 	        ._out_delim_set = false,
 	        {
 	                .schema_path = new_(string),
diff --git a/lib/query.c b/lib/query.c
index e185f32..29e06aa 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -1,7 +1,6 @@
 #include "query.h"
 
 #include <stdbool.h>
-#include <assert.h>
 #include <unistd.h>
 
 #include "fql.h"
@@ -183,27 +182,6 @@ int query_prepare(query* self)
 
 
 /** control flow **/
-void query_enter_block(query* self)
-{
-	self->fqlref->_scope->is_in_block = true;
-}
-
-void query_exit_block(query* self)
-{
-	self->fqlref->_scope->is_in_block = false;
-
-	/* the current active query can be assumed to be the branch */
-	fqlbranch* branch = self->op;
-	branch->false_idx = self->fqlref->query_vec->size;
-
-	if (branch->expect_else) {
-		self->fqlref->branch_state = BRANCH_EXPECT_ELSE;
-	} else {
-		self->fqlref->branch_state = BRANCH_EXPECT_EXIT;
-		branch->false_idx = self->fqlref->query_vec->size;
-	}
-}
-
 int query_enter_if(query* self,
                    node* query_stack,
                    enum fql_operation operation,
@@ -217,35 +195,53 @@ int query_enter_if(query* self,
 	return FQL_GOOD;
 }
 
-void query_exit_branch(query* self)
+/* All queries of the statement following the condition are known. */
+void query_exit_true_block(query* self)
 {
-	fqlbranch* ifstmt = self->op;
-	self->fqlref->branch_state = BRANCH_EXPECT_EXPR;
-	//self->fqlref->_scope = self->fqlref->_scope->parent_scope;
-	self->fqlref->_scope = ifstmt->scope->parent_scope;
-	if (self->fqlref->_scope == self->fqlref->global_scope) {
-		self->fqlref->branch_state = BRANCH_NO_BRANCH;
-	}
+	fqlbranch* branch = self->op;
+	branch->false_idx = self->fqlref->query_vec->size;
+}
 
-	if (ifstmt->oper_type != FQL_IF) {
-		return;
-	}
-	/* Now, we need to loop back through all queries
-	 * inside this if block. If they are if statements
-	 * and have the same parent_scope, then we can set
-	 * the next_idx of each last_true_block_query.
-	 * Above, we set fql->_scope to this ifbranch's
-	 * parent_scope. So we compare on that.
-	 */
-	query** it = vec_at(self->fqlref->query_vec, self->idx);
-	for (; it != vec_end(self->fqlref->query_vec); ++it) {
-		ifstmt = (*it)->op;
-		if (ifstmt->oper_type != FQL_IF
-		    || ifstmt->scope->parent_scope != self->fqlref->_scope) {
+/* Whichever query between start and end would go on with the query at end
+ * (conditions that do not hold included), goes on with the one at target.
+ */
+static void _redirect(vec* query_vec, int start, int end, int target)
+{
+	int i = start;
+	for (; i < end; ++i) {
+		query** it = vec_at(query_vec, i);
+		if ((*it)->next_idx == end) {
+			(*it)->next_idx = target;
+		}
+
+		enum fql_operation* op = (*it)->op;
+		if (*op != FQL_IF && *op != FQL_WHILE) {
 			continue;
 		}
+		fqlbranch* branch = (*it)->op;
+		if (branch->false_idx == end) {
+			branch->false_idx = target;
+		}
+	}
+}
+
+void query_exit_branch(query* self)
+{
+	fqlhandle* fql = self->fqlref;
+	fqlbranch* branch = self->op;
+
+	fql->_scope = branch->scope->parent_scope;
 
-		ifstmt->last_true_block_query->next_idx = self->fqlref->query_vec->size;
+	int start = self->idx + 1;
+	int end = fql->query_vec->size;
+
+	if (branch->oper_type == FQL_WHILE) {
+		/* the body leads back to the condition */
+		_redirect(fql->query_vec, start, end, self->idx);
+		branch->false_idx = end;
+	} else if (branch->expect_else) {
+		/* the end of the true block leads past the ELSE */
+		_redirect(fql->query_vec, start, branch->false_idx, end);
 	}
 }
 
@@ -287,58 +283,6 @@ query* query_enter_query(fqlhandle* fql, unsigned start, unsigned end)
 	return newquery;
 }
 
-int query_exit_query(query* self, query* prev_query)
-{
-	fqlhandle* fql = prev_query->fqlref;
-
-	/* If the previously active query was a branch operation */
-	enum fql_operation* prev_op = prev_query->op;
-	fqlbranch* prev_branch = NULL;
-
-	if (*prev_op == FQL_IF) {
-		prev_branch = prev_query->op;
-		prev_branch->last_true_block_query->next_idx = fql->query_vec->size;
-	}
-
-	if (*prev_op == FQL_WHILE) {
-		fqlbranch* prev_branch = prev_query->op;
-		prev_branch->last_true_block_query->next_idx = prev_query->idx;
-	}
-
-	/* If there is no parent query to return to */
-	if (self == NULL) {
-		fql->branch_state = BRANCH_NO_BRANCH;
-		return FQL_GOOD;
-	}
-
-	/* If you have reached this point, you have exited a query
-	 * that resided inside of a non-global scope.
-	 */
-	fqlbranch* branch = self->op;
-
-	switch (fql->branch_state) {
-	case BRANCH_EXPECT_EXPR:
-		if (prev_branch == NULL || !prev_branch->is_elseif) {
-			branch->last_true_block_query = prev_query;
-		}
-		if (fql->_scope->is_in_block) {
-			return FQL_GOOD;
-		}
-		if (branch->expect_else) {
-			fql->branch_state = BRANCH_EXPECT_ELSE;
-		} else {
-			fql->branch_state = BRANCH_EXPECT_EXIT;
-			branch->false_idx = fql->query_vec->size;
-		}
-		break;
-	case BRANCH_EXPECT_ELSE:
-	case BRANCH_EXPECT_EXIT:
-	case BRANCH_NO_BRANCH:;
-	}
-
-	return FQL_GOOD;
-}
-
 /** variables **/
 void query_set_variable_idx(query* self, int idx)
 {
@@ -777,35 +721,6 @@ int query_init_op(query* self,
 		return FQL_FAIL;
 	}
 
-	/** Entering ELSE block **/
-	if (self->fqlref->branch_state == BRANCH_EXPECT_ELSE && self->query_id == 0) {
-		/* Top of stack will be the active query. If this is an
-		 * else block, then the "next" query will be the parent
-		 * branch structure. We must set false_idx there.
-		 */
-		query* branch_query = query_stack->next->data;
-
-		/* May as well check it or this will be a bitch to fix */
-		fqlbranch* branch = branch_query->op;
-		assert(branch->oper_type == FQL_IF);
-
-		branch->false_idx = self->idx;
-		if (operation != FQL_IF) { /* if bare else */
-			branch->else_scope = new_(scope);
-			branch->else_scope->parent_scope = branch->scope->parent_scope;
-
-			self->fqlref->_scope = branch->else_scope;
-			return FQL_GOOD;
-		}
-
-		/* if we've made it this far, we have entered an "else if" */
-		self->fqlref->branch_state = BRANCH_EXPECT_EXPR;
-		query** elseifstmt = vec_back(self->fqlref->query_vec);
-		fqlbranch* elseif = (*elseifstmt)->op;
-		elseif->is_elseif = true;
-		//branch->last_true_block_query = *(elseifstmt - 1);
-	}
-
 	return FQL_GOOD;
 }
 
diff --git a/lib/query.h b/lib/query.h
index 282b590..46073dc 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -198,17 +198,15 @@ int query_enter_if(struct query*,
                    struct node* query_stack,
                    enum fql_operation,
                    bool expect_else);
+void query_exit_true_block(struct query*);
 void query_exit_branch(struct query*);
 int query_enter_set(struct query*,
                     struct node*,
                     enum fql_operation,
                     const char* varname);
-void query_enter_block(struct query*);
-void query_exit_block(struct query*);
 
 /* queries */
 struct query* query_enter_query(struct fqlhandle*, unsigned start, unsigned end);
-int query_exit_query(struct query*, struct query*);
 
 /* variables */
 void query_set_variable_idx(struct query*, int);
diff --git a/lib/scope.c b/lib/scope.c
index c75f6f3..b973d17 100644
--- a/lib/scope.c
+++ b/lib/scope.c
@@ -7,7 +7,6 @@ scope* scope_construct(scope* self)
 {
 	*self = (scope) {
 	        .parent_scope = NULL,
-	        .is_in_block = false,
 	};
 	hashmap_construct_(&self->variable_map, int, 16, HASHMAP_PROP_NOCASE);
 	return self;
diff --git a/lib/scope.h b/lib/scope.h
index d4bdb73..bfad758 100644
--- a/lib/scope.h
+++ b/lib/scope.h
@@ -7,7 +7,6 @@
 struct scope {
 	struct scope* parent_scope;
 	struct hashmap variable_map;
-	bool is_in_block;
 };
 typedef struct scope scope;
 
-- 
2.43.0


From 0266c6bd94187002dfe644f24d319a577986506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:22 +0000
Subject: [PATCH 33/71] fix: a joined UPDATE or DELETE keeps every record that
 does not match and writes each one once

---
 lib/fqldelete.c    |   2 -
 lib/fqldelete.h    |   1 -
 lib/fqlplan.c      |  31 +++-
 lib/fqlplan.h      |   3 +-
 lib/fqlprocesses.c | 425 ++++++++++++++++-----------------------------
 lib/fqlupdate.c    |   2 -
 lib/fqlupdate.h    |   1 -
 lib/operation.h    |   6 -
 lib/process.h      |   1 +
 lib/record.c       |   1 +
 lib/record.h       |   2 +
 11 files changed, 178 insertions(+), 297 deletions(-)

diff --git a/lib/fqldelete.c b/lib/fqldelete.c
index 912d5a8..a2c59ac 100644
--- a/lib/fqldelete.c
+++ b/lib/fqldelete.c
@@ -18,7 +18,6 @@ fqldelete* fqldelete_construct(fqldelete* self)
 	        .undelete__ = &_delete_writer,
 	        .top_count = -1,
 	        .table_idx = -1,
-	        .state = FILTER_OPEN,
 	};
 
 	expression* lol_expr = new_(expression, EXPR_ASTERISK, NULL, "");
@@ -39,7 +38,6 @@ void fqldelete_destroy(fqldelete* self)
 int fqldelete_reset(fqldelete* self)
 {
 	self->rows_affected = 0;
-	self->state = FILTER_OPEN;
 	self->delete_idx = 0;
 
 	return FQL_GOOD;
diff --git a/lib/fqldelete.h b/lib/fqldelete.h
index 24b7a6a..e61907f 100644
--- a/lib/fqldelete.h
+++ b/lib/fqldelete.h
@@ -21,7 +21,6 @@ struct fqldelete {
 	size_t rows_affected;
 	size_t top_count;
 	unsigned table_idx;
-	enum filter_state state;
 	bool has_matched_alias;
 };
 typedef struct fqldelete fqldelete;
diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 228bfc8..9b0381e 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -254,10 +254,21 @@ int plan_logic_to_process(plan* self, process* logic_proc, logicgroup* lg)
 	return FQL_GOOD;
 }
 
+/* An UPDATE or DELETE writes the records of the joined table that
+ * do not match as well. If they went straight to the writer from
+ * more than one process, they would get there out of order.
+ */
+bool _keeps_rejects(query* query)
+{
+	enum fql_operation oper = *(enum fql_operation*)query->op;
+	return query->sources->size > 1 && (oper == FQL_UPDATE || oper == FQL_DELETE);
+}
+
 int plan_logicgroup_to_process(plan* self,
                                logicgroup* lg,
                                process** ret,
-                               bool is_from_hash_join)
+                               bool is_from_hash_join,
+                               bool is_last)
 {
 	process* logic_proc = new_(process, "", self);
 	if (ret != NULL) {
@@ -286,7 +297,13 @@ int plan_logicgroup_to_process(plan* self,
 		self->current->out[0] = logic_node;
 	}
 
-	logic_node->out[0] = self->op_false;
+	/* If every record has to show up at the end, the
+	 * last logic process decides where each one goes.
+	 */
+	logic_proc->keeps_rejects = _keeps_rejects(self->query);
+	if (is_last || !logic_proc->keeps_rejects) {
+		logic_node->out[0] = self->op_false;
+	}
 
 	process* logic_true = new_(process, "logic true", self);
 	logic_true->is_passive = true;
@@ -443,15 +460,19 @@ int _from(plan* self, query* query, fqlhandle* fql)
 			join_node->is_root = true;
 		}
 		join_proc->proc_data = table_iter;
+		join_proc->keeps_rejects = _keeps_rejects(query);
 		self->current->out[0] = join_node;
 		self->current = join_node;
 
 		if (table_iter->condition != NULL) {
 			process* join_logic_proc = NULL;
+			bool is_last = query->where == NULL
+			               && table_iter + 1 == vec_end(query->sources);
 			try_(plan_logicgroup_to_process(self,
 			                                table_iter->condition,
 			                                &join_logic_proc,
-			                                is_hash_join));
+			                                is_hash_join,
+			                                is_last));
 			if (table_iter->join_type == JOIN_LEFT) {
 				join_logic_proc->action__ = &fql_left_join_logic;
 			}
@@ -469,7 +490,7 @@ int _where(plan* self, query* query)
 		return FQL_GOOD;
 	}
 
-	return plan_logicgroup_to_process(self, query->where, NULL, false);
+	return plan_logicgroup_to_process(self, query->where, NULL, false, true);
 }
 
 /* NOTE: If there is a grouping, the grouping becomes the
@@ -521,7 +542,7 @@ int _having(plan* self, query* query)
 		return FQL_GOOD;
 	}
 
-	return plan_logicgroup_to_process(self, query->having, NULL, false);
+	return plan_logicgroup_to_process(self, query->having, NULL, false, true);
 }
 
 int _operation(plan* self, query* query, fqlhandle* fql, dnode* entry, bool is_union)
diff --git a/lib/fqlplan.h b/lib/fqlplan.h
index 214e830..33e4137 100644
--- a/lib/fqlplan.h
+++ b/lib/fqlplan.h
@@ -41,7 +41,8 @@ int plan_logic_to_process(struct fqlplan*, struct process*, struct logicgroup*);
 int plan_logicgroup_to_process(struct fqlplan*,
                                struct logicgroup*,
                                struct process** ret,
-                               bool is_from_hash_join);
+                               bool is_from_hash_join,
+                               bool is_last);
 
 int plan_build(struct fqlhandle*);
 void plan_print(struct fqlhandle*);
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index d151670..4c114f8 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -89,6 +89,20 @@ void _fqlprocess_print_iter_states(process* proc, int idx)
 }
 #endif
 
+/* An UPDATE or DELETE with a join has to write the records that do
+ * not match. Such a record is marked and passed on to the end. This
+ * way, they get there in the order they were read.
+ */
+void _reject(node* rg)
+{
+	record_at(rg, 0)->is_rejected = true;
+}
+
+bool _is_rejected(process* proc, node* rg)
+{
+	return proc->keeps_rejects && record_at(rg, 0)->is_rejected;
+}
+
 /* Is this the end of the input? A process closes its output pipe
  * once everything is in there. So, the order is important: if it
  * was closed before it was found empty, nothing else can show up.
@@ -286,6 +300,7 @@ enum proc_return fql_read(process* proc)
 
 		record* rec = (*rg_iter)->data;
 		rec->src_idx = table->idx;
+		rec->is_rejected = false;
 
 		/* If we just read from a subquery with more than one
 		 * source, the other records only hold the data. They
@@ -340,6 +355,12 @@ enum proc_return fql_cartesian_join(process* proc)
 	//node** iter_left = fifo_begin(in_left);
 	node** iter_left = fifo_peek(in_left);
 
+	if (_is_rejected(proc, *iter_left)) {
+		fifo_add(out, iter_left);
+		fifo_consume(in_left);
+		return PROC_RETURN_RUNNING;
+	}
+
 	/* One record for the right side and one for each record on the
 	 * left. A derived table that joins has more of them than sources.
 	 */
@@ -376,8 +397,15 @@ enum proc_return fql_cartesian_join(process* proc)
 		}
 		default: { /* eof */
 			try_(reader->reset__(reader));
+			node* left_rg = *iter_left;
 			fifo_consume(in_left);
-			fqlprocess_recycle(proc, iter_left);
+			if (proc->keeps_rejects) {
+				/* whatever matched is ahead of this */
+				_reject(left_rg);
+				fifo_add(out, &left_rg);
+				return PROC_RETURN_RUNNING;
+			}
+			fqlprocess_recycle(proc, &left_rg);
 			iter_left = fifo_peek(in_left);
 			//iter_left = fifo_iter(in_left);
 			if (iter_left == fifo_end(in_left)) {
@@ -536,12 +564,19 @@ enum proc_return fql_hash_join(process* proc)
 			ret = PROC_RETURN_WAIT_ON_OUT1;
 			break;
 		}
-		long offset = try_(_hash_join_left_side(proc, table, *left_rg_iter));
+		long offset = -1;
+		bool is_rejected = _is_rejected(proc, *left_rg_iter);
+		if (!is_rejected) {
+			offset = try_(_hash_join_left_side(proc, table, *left_rg_iter));
+		}
 		if (offset == -1) {
-			if (table->join_type == JOIN_LEFT) {
+			if (!is_rejected && table->join_type == JOIN_LEFT) {
 				fifo_add(out_true, left_rg_iter);
 			} else if (out_false != NULL) {
 				fifo_add(out_false, left_rg_iter);
+			} else if (proc->keeps_rejects) {
+				_reject(*left_rg_iter);
+				fifo_add(out_true, left_rg_iter);
 			} else {
 				fqlprocess_recycle(proc, left_rg_iter);
 			}
@@ -634,13 +669,19 @@ enum proc_return fql_logic(process* proc)
 
 	node** rg_iter = fifo_begin(in);
 	while (rg_iter != fifo_end(in)) {
-		int result = try_(logicgroup_eval(lg, *rg_iter, lg->join_logic));
+		int result = !_is_rejected(proc, *rg_iter);
+		if (result) {
+			result = try_(logicgroup_eval(lg, *rg_iter, lg->join_logic));
+		}
 		_fqlprocess_print_iter_states(proc, -1);
 
 		if (result && out_true != NULL) {
 			fifo_add(out_true, rg_iter);
 		} else if (!result && out_false != NULL) {
 			fifo_add(out_false, rg_iter);
+		} else if (!result && proc->keeps_rejects) {
+			_reject(*rg_iter);
+			fifo_add(out_true, rg_iter);
 		} else {
 			fqlprocess_recycle(proc, rg_iter);
 		}
@@ -668,8 +709,10 @@ enum proc_return fql_logic(process* proc)
 
 enum proc_return fql_left_join_logic(process* proc)
 {
-	// No out_false for left_join
-	//fifo* out_false = proc->fifo_out[0];
+	/* There is nothing to write to out_false unless
+	 * records have already failed another join.
+	 */
+	fifo* out_false = proc->fifo_out[0];
 	fifo* out_true = proc->fifo_out[1];
 	if (!out_true->is_open) {
 		return PROC_RETURN_COMPLETE;
@@ -686,6 +729,9 @@ enum proc_return fql_left_join_logic(process* proc)
 	if (!fifo_receivable(out_true)) {
 		return PROC_RETURN_WAIT_ON_OUT1;
 	}
+	if (proc->keeps_rejects && out_false && !fifo_receivable(out_false)) {
+		return PROC_RETURN_WAIT_ON_OUT0;
+	}
 
 	logicgroup* lg = proc->proc_data;
 
@@ -698,7 +744,9 @@ enum proc_return fql_left_join_logic(process* proc)
 		/* If the right-most expected node is missing,
 		 * these records have already failed a hash join.
 		 */
-		if (record_at(*rg_iter, proc->out_src_count - 1) != NULL) {
+		bool is_rejected = _is_rejected(proc, *rg_iter);
+		if (!is_rejected
+		    && record_at(*rg_iter, proc->out_src_count - 1) != NULL) {
 			if (!try_(logicgroup_eval(lg, *rg_iter, lg->join_logic))) {
 				/* our condition failed, but we still want to pass
 				 * it on. Chop off right-most node and recycle it.
@@ -710,13 +758,21 @@ enum proc_return fql_left_join_logic(process* proc)
 		}
 
 		_fqlprocess_print_iter_states(proc, -1);
-		fifo_add(out_true, rg_iter);
+		if (is_rejected && out_false != NULL) {
+			fifo_add(out_false, rg_iter);
+		} else {
+			fifo_add(out_true, rg_iter);
+		}
 
 		rg_iter = fifo_iter(in);
 		if (!fifo_receivable(out_true)) {
 			ret = PROC_RETURN_WAIT_ON_OUT1;
 			break;
 		}
+		if (is_rejected && out_false && !fifo_receivable(out_false)) {
+			ret = PROC_RETURN_WAIT_ON_OUT0;
+			break;
+		}
 	}
 	fifo_update(in);
 
@@ -1020,140 +1076,76 @@ enum proc_return fql_delete(process* proc)
 	return ret;
 }
 
-enum proc_return
-_del_passthrough(process* proc, fqldelete* delete, fifo* in_false, fifo* in_true)
+/* A joined UPDATE or DELETE reads records that matched and records
+ * that did not from two pipes. One process puts them there, ordered
+ * by the record of the table. There may be any number of either for
+ * one record, but it is only written once.
+ */
+node** _filter_peek(process* proc, fifo* in, unsigned table_idx, size_t next_idx)
 {
-	enum proc_return ret = PROC_RETURN_WAIT_ON_IN_EITHER;
-
-	node** it = fifo_begin(in_false);
-	bool false_done = (it == fifo_end(in_false));
-	for (; it != fifo_end(in_false); it = fifo_iter(in_false)) {
-		record* rec = record_at(*it, delete->table_idx);
-		if (rec->rec_idx > delete->delete_idx) {
-			false_done = true;
-			break;
+	while (fifo_available(in)) {
+		node** rg = fifo_peek(in);
+		record* rec = record_at(*rg, table_idx);
+		if (rec->rec_idx >= next_idx) {
+			return rg;
 		}
+		/* already taken care of */
 		_fqlprocess_print_iter_states(proc, rec->node_idx);
-		fqlprocess_recycle(proc, it);
+		node* done = *rg;
+		fifo_consume(in);
+		fqlprocess_recycle(proc, &done);
 	}
-	fifo_update(in_false);
-
-	it = fifo_begin(in_true);
-	if (it == fifo_end(in_true)) {
-		delete->state = FILTER_OPEN;
-		return PROC_RETURN_RUNNING;
-	}
-
-	for (; it != fifo_end(in_true); it = fifo_iter(in_true)) {
-		record* rec = record_at(*it, delete->table_idx);
-		if (rec->rec_idx > delete->delete_idx) {
-			if (false_done) {
-				delete->state = FILTER_OPEN;
-				ret = PROC_RETURN_RUNNING;
-			}
-			break;
-		}
-		_fqlprocess_print_iter_states(proc, rec->node_idx);
-		fqlprocess_recycle(proc, it);
-	}
-	fifo_update(in_true);
-
-	return ret;
+	return NULL;
 }
 
-enum proc_return
-_del_filtering(process* proc, fqldelete* delete, fifo* in_false, fifo* in_true)
+/* Take what is to be written next, or NULL if we can't tell yet */
+node* _filter_next(process* proc, unsigned table_idx, size_t* next_idx, bool* is_true)
 {
-	/* must be known before looking for what is left in there */
-	bool true_closed = !in_true->is_open;
-
-	if (fifo_available(in_true)) {
-		node** true_node = fifo_peek(in_true);
-		record* rec = record_at(*true_node, delete->table_idx);
-		if (rec->rec_idx > delete->delete_idx) {
-			node** false_node = fifo_get(in_false);
-			try_(delete->undelete__(delete, *false_node));
-			fqlprocess_recycle(proc, false_node);
-		} else {
-			fifo_consume(in_true);
-			++proc->rows_affected;
-			fqlprocess_recycle(proc, true_node);
-		}
-		delete->state = FILTER_PASSTHROUGH;
-		_del_passthrough(proc, delete, in_false, in_true);
-		return PROC_RETURN_RUNNING;
-	}
-
-	if (true_closed) {
-		node** false_node = fifo_get(in_false);
-		try_(delete->undelete__(delete, *false_node));
-		fqlprocess_recycle(proc, false_node);
-		delete->state = FILTER_PASSTHROUGH;
-		_del_passthrough(proc, delete, in_false, in_true);
-		return PROC_RETURN_RUNNING;
-	}
+	fifo* in_false = proc->fifo_in[0];
+	fifo* in_true = proc->fifo_in[1];
 
-	node** iter_false = fifo_begin(in_false);
-	for (; iter_false != fifo_end(in_false); iter_false = fifo_iter(in_false)) {
+	/* If there is nothing else to be expected for a false record,
+	 * this must be known before looking for true ones.
+	 */
+	bool is_last = !in_true->is_open;
+	node** false_rg = _filter_peek(proc, in_false, table_idx, *next_idx);
+	while (false_rg != NULL) {
 		node** look_ahead = fifo_look_ahead(in_false);
 		if (look_ahead == NULL) {
 			break;
 		}
-		record* look_ahead_rec = record_at(*look_ahead, delete->table_idx);
-		if (look_ahead_rec->rec_idx > delete->delete_idx) {
-			try_(delete->undelete__(delete, *iter_false));
-			fqlprocess_recycle(proc, iter_false);
-			fifo_iter(in_false);
-			delete->state = FILTER_OPEN;
+		record* rec = record_at(*false_rg, table_idx);
+		if (record_at(*look_ahead, table_idx)->rec_idx > rec->rec_idx) {
+			is_last = true;
 			break;
 		}
-		_fqlprocess_print_iter_states(proc, look_ahead_rec->node_idx);
-		fqlprocess_recycle(proc, iter_false);
+		/* another one of the same record */
+		node* same = *false_rg;
+		fifo_consume(in_false);
+		fqlprocess_recycle(proc, &same);
+		false_rg = look_ahead;
 	}
-	fifo_update(in_false);
-	return PROC_RETURN_RUNNING;
-}
-
-enum proc_return
-_del_open(process* proc, fqldelete* delete, fifo* in_false, fifo* in_true)
-{
-	bool process_true = false;
 
-	node** true_node = NULL;
-	record* true_rec = NULL;
-	node** false_node = NULL;
-	record* false_rec = NULL;
-
-	/* A true record is looked for first: if it is there, then so
-	 * are the false records which come before it.
+	/* If a true record is there, then so are
+	 * the false records which come before it.
 	 */
-	if (fifo_available(in_true)) {
-		true_node = fifo_peek(in_true);
-		true_rec = record_at(*true_node, delete->table_idx);
-	}
-
-	if (fifo_available(in_false)) {
-		false_node = fifo_peek(in_false);
-		false_rec = record_at(*false_node, delete->table_idx);
-	}
-
-	/* If not stable, this can be skipped */
-	if (true_node != NULL) {
-		if (false_node == NULL || true_rec->rec_idx <= false_rec->rec_idx) {
-			process_true = true;
-		}
-	}
-	if (process_true) {
-		fifo_consume(in_true);
-		delete->delete_idx = true_rec->rec_idx;
-		fqlprocess_recycle(proc, true_node);
-		++proc->rows_affected;
-		delete->state = FILTER_PASSTHROUGH;
-		return PROC_RETURN_RUNNING;
-	}
-	delete->delete_idx = false_rec->rec_idx;
-	delete->state = FILTER_FILTERING;
-	return PROC_RETURN_RUNNING;
+	node** true_rg = _filter_peek(proc, in_true, table_idx, *next_idx);
+	if (true_rg != NULL) {
+		record* rec = record_at(*true_rg, table_idx);
+		false_rg = _filter_peek(proc, in_false, table_idx, *next_idx);
+		*is_true = (false_rg == NULL
+		            || rec->rec_idx <= record_at(*false_rg, table_idx)->rec_idx);
+	} else if (false_rg != NULL && is_last) {
+		*is_true = false;
+	} else {
+		return NULL;
+	}
+
+	fifo* in = *is_true ? in_true : in_false;
+	node* next = *(*is_true ? true_rg : false_rg);
+	*next_idx = (size_t)record_at(next, table_idx)->rec_idx + 1;
+	fifo_consume(in);
+	return next;
 }
 
 enum proc_return fql_delete_filter(process* proc)
@@ -1176,15 +1168,21 @@ enum proc_return fql_delete_filter(process* proc)
 		return PROC_RETURN_COMPLETE;
 	}
 
-	switch (delete->state) {
-	case FILTER_PASSTHROUGH:
-		return _del_passthrough(proc, delete, in_false, in_true);
-	case FILTER_FILTERING:
-		return _del_filtering(proc, delete, in_false, in_true);
-	case FILTER_OPEN:
-	default:
-		return _del_open(proc, delete, in_false, in_true);
+	bool is_true = false;
+	node* rg = _filter_next(proc, delete->table_idx, &delete->delete_idx, &is_true);
+	for (; rg != NULL;
+	     rg = _filter_next(proc, delete->table_idx, &delete->delete_idx, &is_true)) {
+		if (is_true) {
+			++proc->rows_affected;
+		} else {
+			try_(delete->undelete__(delete, rg));
+		}
+		fqlprocess_recycle(proc, &rg);
 	}
+
+	/* A record may have to wait for others */
+	return fifo_is_empty(in_false) ? PROC_RETURN_WAIT_ON_IN_EITHER
+	                               : PROC_RETURN_RUNNING;
 }
 
 enum proc_return fql_update(process* proc)
@@ -1245,144 +1243,6 @@ enum proc_return fql_update(process* proc)
 	return ret;
 }
 
-enum proc_return
-_update_passthrough(process* proc, fqlupdate* update, fifo* in_false, fifo* in_true)
-{
-	enum proc_return ret = PROC_RETURN_WAIT_ON_IN_EITHER;
-
-	node** it = fifo_begin(in_false);
-	bool false_done = (it == fifo_end(in_false));
-	for (; it != fifo_end(in_false); it = fifo_iter(in_false)) {
-		record* rec = record_at(*it, update->table_idx);
-		if (rec->rec_idx > update->update_idx) {
-			false_done = true;
-			break;
-		}
-		_fqlprocess_print_iter_states(proc, rec->node_idx);
-		fqlprocess_recycle(proc, it);
-	}
-	fifo_update(in_false);
-
-	it = fifo_begin(in_true);
-	if (it == fifo_end(in_true)) {
-		update->state = FILTER_OPEN;
-		return PROC_RETURN_RUNNING;
-	}
-
-	for (; it != fifo_end(in_true); it = fifo_iter(in_true)) {
-		record* rec = record_at(*it, update->table_idx);
-		if (rec->rec_idx > update->update_idx) {
-			if (false_done) {
-				update->state = FILTER_OPEN;
-				ret = PROC_RETURN_RUNNING;
-			}
-			break;
-		}
-		_fqlprocess_print_iter_states(proc, rec->node_idx);
-		fqlprocess_recycle(proc, it);
-	}
-	fifo_update(in_true);
-
-	return ret;
-}
-
-enum proc_return
-_update_filtering(process* proc, fqlupdate* update, fifo* in_false, fifo* in_true)
-{
-	/* must be known before looking for what is left in there */
-	bool true_closed = !in_true->is_open;
-
-	if (fifo_available(in_true)) {
-		node** true_node = fifo_peek(in_true);
-		record* rec = record_at(*true_node, update->table_idx);
-		if (rec->rec_idx > update->update_idx) {
-			node** false_node = fifo_get(in_false);
-			try_(update->noupdate__(update, *false_node));
-			fqlprocess_recycle(proc, false_node);
-		} else {
-			fifo_consume(in_true);
-			try_(update->update__(update, *true_node));
-			++proc->rows_affected;
-			fqlprocess_recycle(proc, true_node);
-		}
-		update->state = FILTER_PASSTHROUGH;
-		_update_passthrough(proc, update, in_false, in_true);
-		return PROC_RETURN_RUNNING;
-	}
-
-	if (true_closed) {
-		node** false_node = fifo_get(in_false);
-		try_(update->noupdate__(update, *false_node));
-		fqlprocess_recycle(proc, false_node);
-		update->state = FILTER_PASSTHROUGH;
-		_update_passthrough(proc, update, in_false, in_true);
-		return PROC_RETURN_RUNNING;
-	}
-
-	node** iter_false = fifo_begin(in_false);
-	for (; iter_false != fifo_end(in_false); iter_false = fifo_iter(in_false)) {
-		node** look_ahead = fifo_look_ahead(in_false);
-		if (look_ahead == NULL) {
-			break;
-		}
-		record* look_ahead_rec = record_at(*look_ahead, update->table_idx);
-		if (look_ahead_rec->rec_idx > update->update_idx) {
-			try_(update->noupdate__(update, *iter_false));
-			fqlprocess_recycle(proc, iter_false);
-			fifo_iter(in_false);
-			update->state = FILTER_OPEN;
-			break;
-		}
-		_fqlprocess_print_iter_states(proc, look_ahead_rec->node_idx);
-		fqlprocess_recycle(proc, iter_false);
-	}
-	fifo_update(in_false);
-	return PROC_RETURN_RUNNING;
-}
-
-enum proc_return
-_update_open(process* proc, fqlupdate* update, fifo* in_false, fifo* in_true)
-{
-	bool process_true = false;
-
-	node** true_node = NULL;
-	record* true_rec = NULL;
-	node** false_node = NULL;
-	record* false_rec = NULL;
-
-	/* A true record is looked for first: if it is there, then so
-	 * are the false records which come before it.
-	 */
-	if (fifo_available(in_true)) {
-		true_node = fifo_peek(in_true);
-		true_rec = record_at(*true_node, update->table_idx);
-	}
-
-	if (fifo_available(in_false)) {
-		false_node = fifo_peek(in_false);
-		false_rec = record_at(*false_node, update->table_idx);
-	}
-
-	/* If not stable, this can be skipped */
-	if (true_node != NULL) {
-		if (false_node == NULL || true_rec->rec_idx <= false_rec->rec_idx) {
-			process_true = true;
-		}
-	}
-	if (process_true) {
-		try_(update->update__(update, *true_node));
-		fifo_consume(in_true);
-		update->update_idx = true_rec->rec_idx;
-		fqlprocess_recycle(proc, true_node);
-		++proc->rows_affected;
-		update->state = FILTER_PASSTHROUGH;
-		return PROC_RETURN_RUNNING;
-	}
-	update->update_idx = false_rec->rec_idx;
-	update->state = FILTER_FILTERING;
-	return PROC_RETURN_RUNNING;
-}
-
 enum proc_return fql_update_filter(process* proc)
 {
 	fifo* in_false = proc->fifo_in[0];
@@ -1402,15 +1262,22 @@ enum proc_return fql_update_filter(process* proc)
 		return PROC_RETURN_COMPLETE;
 	}
 
-	switch (update->state) {
-	case FILTER_PASSTHROUGH:
-		return _update_passthrough(proc, update, in_false, in_true);
-	case FILTER_FILTERING:
-		return _update_filtering(proc, update, in_false, in_true);
-	case FILTER_OPEN:
-	default:
-		return _update_open(proc, update, in_false, in_true);
+	bool is_true = false;
+	node* rg = _filter_next(proc, update->table_idx, &update->update_idx, &is_true);
+	for (; rg != NULL;
+	     rg = _filter_next(proc, update->table_idx, &update->update_idx, &is_true)) {
+		if (is_true) {
+			try_(update->update__(update, rg));
+			++proc->rows_affected;
+		} else {
+			try_(update->noupdate__(update, rg));
+		}
+		fqlprocess_recycle(proc, &rg);
 	}
+
+	/* A record may have to wait for others */
+	return fifo_is_empty(in_false) ? PROC_RETURN_WAIT_ON_IN_EITHER
+	                               : PROC_RETURN_RUNNING;
 }
 
 enum proc_return fql_orderby(process* proc)
diff --git a/lib/fqlupdate.c b/lib/fqlupdate.c
index 86551c2..2a79b43 100644
--- a/lib/fqlupdate.c
+++ b/lib/fqlupdate.c
@@ -21,7 +21,6 @@ fqlupdate* fqlupdate_construct(fqlupdate* self)
 	        .noupdate__ = &_noupdate_writer,
 	        .top_count = -1,
 	        .table_idx = -1,
-	        .state = FILTER_OPEN,
 	};
 
 	expression* lol_expr = new_(expression, EXPR_ASTERISK, NULL, "");
@@ -66,7 +65,6 @@ int fqlupdate_reset(fqlupdate* self)
 {
 	self->rownum = 0;
 	self->rows_affected = 0;
-	self->state = FILTER_OPEN;
 	self->update_idx = 0;
 
 	return FQL_GOOD;
diff --git a/lib/fqlupdate.h b/lib/fqlupdate.h
index 82c5cf6..c2068ab 100644
--- a/lib/fqlupdate.h
+++ b/lib/fqlupdate.h
@@ -27,7 +27,6 @@ struct fqlupdate {
 	struct vec value_expressions;
 	unsigned table_idx;
 	unsigned rownum;
-	enum filter_state state;
 	bool has_matched_alias;
 };
 typedef struct fqlupdate fqlupdate;
diff --git a/lib/operation.h b/lib/operation.h
index 915c1a0..99af8a9 100644
--- a/lib/operation.h
+++ b/lib/operation.h
@@ -9,12 +9,6 @@ struct schema;
 struct writer;
 struct expression;
 
-enum filter_state {
-	FILTER_OPEN,
-	FILTER_PASSTHROUGH,
-	FILTER_FILTERING,
-};
-
 enum fql_operation;
 
 int op_preop(struct query*);
diff --git a/lib/process.h b/lib/process.h
index 8ef4e49..fdb6e86 100644
--- a/lib/process.h
+++ b/lib/process.h
@@ -52,6 +52,7 @@ struct process {
 	bool is_threading;            /* should be nearly identical to is_enabled */
 	bool has_second_input;        /* will activate fifo_in[1] */
 	bool wait_for_in0;            /* allow start before in0 populated */
+	bool keeps_rejects;           /* records that fail a join are passed on */
 	bool in0_always_dead;         /* wait_for_in0 will stay false on reset */
 };
 typedef struct process process;
diff --git a/lib/record.c b/lib/record.c
index d80e3cb..24e3a1f 100644
--- a/lib/record.c
+++ b/lib/record.c
@@ -74,6 +74,7 @@ void record_copy(record* self, node* src_node)
 	self->src_idx = src->src_idx;
 	self->rec_idx = src->rec_idx;
 	self->rec_ref = src->rec_ref;
+	self->is_rejected = src->is_rejected;
 }
 
 void record_resize(record* self, unsigned size)
diff --git a/lib/record.h b/lib/record.h
index fa2cafe..9a38f9d 100644
--- a/lib/record.h
+++ b/lib/record.h
@@ -3,6 +3,7 @@
 
 #include <inttypes.h>
 #include <csv.h>
+#include <stdbool.h>
 #include <stdint.h>
 #include <sys/types.h>
 #include "util/vec.h"
@@ -27,6 +28,7 @@ struct record {
 	unsigned max_subquery_count;
 	unsigned max_group_count;
 	unsigned root_fifo_idx;
+	bool is_rejected; /* failed a join, see process.keeps_rejects */
 };
 typedef struct record record;
 
-- 
2.43.0


From e6a7d2193cffc094e3584ea1f974a4f077597fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:46 +0000
Subject: [PATCH 34/71] fix: resetting a handle leaves the files of other
 handles alone and forgets the fields of a statement it was stepping through

---
 lib/fqlsig.c  | 67 +++++++++++++++++++++++++++++++++++++++------------
 lib/fqlsig.h  | 10 ++++++++
 lib/libfql.c  | 31 +++++++++++++++---------
 lib/process.c |  3 +++
 4 files changed, 85 insertions(+), 26 deletions(-)

diff --git a/lib/fqlsig.c b/lib/fqlsig.c
index 045e26f..59c9c50 100644
--- a/lib/fqlsig.c
+++ b/lib/fqlsig.c
@@ -40,23 +40,43 @@ static void _unlock(void)
 	}
 }
 
-static void _removeall(void)
+/* Whoever is done with its files must not remove those of others. */
+struct tmp_file {
+	const void* owner;
+	char name[];
+};
+
+static _Thread_local const void* _owner = NULL;
+
+static void _remove_owned_by(const void* owner, bool is_any)
 {
-	while (_tmp_file_head) {
-		char* tmp = node_dequeue(&_tmp_file_head);
-		fqlsig_tmp_remove_file(tmp);
-		free_(tmp);
+	node* it = _tmp_file_head;
+	while (it != NULL) {
+		node* next = it->next;
+		struct tmp_file* tmp = it->data;
+		if (is_any || tmp->owner == owner) {
+			node_remove(&_tmp_file_head, it);
+			fqlsig_tmp_remove_file(tmp->name);
+			free_(tmp);
+		}
+		it = next;
 	}
 }
 
+static void _removeall(void)
+{
+	_remove_owned_by(NULL, true);
+}
+
 static void _forget(const char* tmp_file)
 {
 	node* it = _tmp_file_head;
 	while (it != NULL) {
 		node* next = it->next;
-		if (string_eq(it->data, tmp_file)) {
-			char* filename = node_remove(&_tmp_file_head, it);
-			free_(filename);
+		struct tmp_file* tmp = it->data;
+		if (string_eq(tmp->name, tmp_file)) {
+			node_remove(&_tmp_file_head, it);
+			free_(tmp);
 		}
 		it = next;
 	}
@@ -122,8 +142,17 @@ void fqlsig_cleanexit()
 /* Running out of memory while the list is locked would never end. */
 static node* _new_node(const char* tmp_file)
 {
+	struct tmp_file* tmp = malloc_(sizeof(*tmp) + strlen(tmp_file) + 1);
+	tmp->owner = _owner;
+	strcpy(tmp->name, tmp_file);
+
 	node* new_node = NULL;
-	return node_push(&new_node, strdup_(tmp_file));
+	return node_push(&new_node, tmp);
+}
+
+void fqlsig_set_owner(const void* owner)
+{
+	_owner = owner;
 }
 
 node* fqlsig_tmp_push(const char* tmp_file)
@@ -139,9 +168,10 @@ int fqlsig_tmp_create(char* name, node** created)
 {
 	node* new_node = _new_node(name);
 	_lock();
-	int fd = mkstemp(new_node->data);
+	struct tmp_file* tmp = new_node->data;
+	int fd = mkstemp(tmp->name);
 	if (fd != -1) {
-		strcpy(name, new_node->data);
+		strcpy(name, tmp->name);
 		node_enqueue_import(&_tmp_file_head, new_node);
 		*created = new_node;
 	}
@@ -156,8 +186,8 @@ int fqlsig_tmp_create(char* name, node** created)
 void fqlsig_tmp_remove_node(node* node)
 {
 	_lock();
-	char* filename = node_remove(&_tmp_file_head, node);
-	free_(filename);
+	struct tmp_file* tmp = node_remove(&_tmp_file_head, node);
+	free_(tmp);
 	_unlock();
 }
 
@@ -171,8 +201,8 @@ void fqlsig_tmp_remove_file(const char* tmp_file)
 void fqlsig_tmp_remove_node_and_file(node* node)
 {
 	_lock();
-	char* tmp = node_remove(&_tmp_file_head, node);
-	fqlsig_tmp_remove_file(tmp);
+	struct tmp_file* tmp = node_remove(&_tmp_file_head, node);
+	fqlsig_tmp_remove_file(tmp->name);
 	free_(tmp);
 	_unlock();
 }
@@ -194,3 +224,10 @@ void fqlsig_tmp_removeall()
 	_removeall();
 	_unlock();
 }
+
+void fqlsig_tmp_remove_owned(const void* owner)
+{
+	_lock();
+	_remove_owned_by(owner, false);
+	_unlock();
+}
diff --git a/lib/fqlsig.h b/lib/fqlsig.h
index 9116701..5e4988f 100644
--- a/lib/fqlsig.h
+++ b/lib/fqlsig.h
@@ -47,6 +47,16 @@ void fqlsig_tmp_remove_file(const char* tmp_file);
  */
 void fqlsig_tmp_remove_node_and_file(struct node* node);
 
+/**
+ * Temp files that this thread adds from now on belong to owner
+ */
+void fqlsig_set_owner(const void* owner);
+
+/**
+ * Remove all temp files of owner
+ */
+void fqlsig_tmp_remove_owned(const void* owner);
+
 /**
  * Remove all temp files
  */
diff --git a/lib/libfql.c b/lib/libfql.c
index ae7fedc..f1e49b1 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -155,6 +155,16 @@ int libfql_set_variable_limit(fqlhandle* fql, const char* limit_str)
 	return FQL_GOOD;
 }
 
+void _free_api_strings(vec* api)
+{
+	struct fql_field* it = vec_begin(api);
+	for (; it != vec_end(api); ++it) {
+		if (it->type == FQL_STRING) {
+			delete_(string, it->_in);
+		}
+	}
+}
+
 int fql_reset(fqlhandle* fql)
 {
 	query** it = vec_begin(fql->query_vec);
@@ -164,7 +174,10 @@ int fql_reset(fqlhandle* fql)
 	vec_clear(fql->query_vec);
 	fql->query_idx = 0;
 
-	fqlsig_tmp_removeall();
+	fqlsig_tmp_remove_owned(fql);
+
+	_free_api_strings(fql->api_vec);
+	vec_clear(fql->api_vec);
 
 	hashmap_clear(fql->schema_map);
 	scope_reset(fql->global_scope);
@@ -533,6 +546,8 @@ void _exec_plans_print_footer(plan* plan, query* query)
  */
 int fql_exec_plans(fqlhandle* fql, int plan_count)
 {
+	fqlsig_set_owner(fql);
+
 	int i = 0;
 	int ret = 0;
 	for (; fql->query_idx < fql->query_vec->size && i < plan_count; ++i) {
@@ -605,6 +620,8 @@ int fql_exec(fqlhandle* fql, const char* query_str)
 
 int fql_make_plans(fqlhandle* fql, const char* query_str)
 {
+	fqlsig_set_owner(fql);
+
 	if (fql->props.verbosity > FQL_BASIC) {
 		fprintf(stderr, "\n[fql] Making Plan for:\n%s\n", query_str);
 	}
@@ -636,18 +653,10 @@ int fql_make_plans(fqlhandle* fql, const char* query_str)
 	return fql->query_vec->size;
 }
 
-void _free_api_strings(vec* api)
-{
-	struct fql_field* it = vec_begin(api);
-	for (; it != vec_end(api); ++it) {
-		if (it->type == FQL_STRING) {
-			delete_(string, it->_in);
-		}
-	}
-}
-
 int fql_step(fqlhandle* fql, struct fql_field** fields)
 {
+	fqlsig_set_owner(fql);
+
 	query** query = vec_at(fql->query_vec, fql->query_idx);
 	struct fqlplan* plan = (*query)->plan;
 	int ret = 0;
diff --git a/lib/process.c b/lib/process.c
index 933062f..18af145 100644
--- a/lib/process.c
+++ b/lib/process.c
@@ -5,6 +5,7 @@
 
 #include "fql.h"
 #include "misc.h"
+#include "fqlsig.h"
 #include "table.h"
 #include "group.h"
 #include "reader.h"
@@ -352,6 +353,8 @@ void* _thread_exec(void* data)
 	struct thread_data* tdata = data;
 	dnode* node = tdata->proc_node;
 	process* self = node->data;
+	fqlsig_set_owner(self->fql_ref);
+
 	//fifo* in0 = self->fifo_in[0];
 	fifo* in1 = self->fifo_in[1];
 	fifo* out0 = self->fifo_out[0];
-- 
2.43.0


From 99256a19dc7b7dbe42b4c662d7cf00c5f4cb5822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:46 +0000
Subject: [PATCH 35/71] fix: an invalid pipe factor is replaced as reported

---
 lib/libfql.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libfql.c b/lib/libfql.c
index f1e49b1..28efaee 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -371,7 +371,7 @@ void fql_set_pipe_factor(fqlhandle* fql, int pipe_factor)
 		applied_pipe_factor = PIPE_FACTOR_MAX;
 	}
 
-	fql->props.pipe_factor = pipe_factor;
+	fql->props.pipe_factor = applied_pipe_factor;
 	if (applied_pipe_factor != pipe_factor) {
 		fprintf(stderr,
 		        "Invalid pipe factor `%d'. Applied `%d'\n",
-- 
2.43.0


From 2e989efb0f3c587c5f3feb14ea8b1f6a4185e6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 36/71] fix: fields and functions in the condition of an IF or
 WHILE are resolved

---
 lib/schema.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/schema.c b/lib/schema.c
index 4acf85b..e0a2c1f 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -16,6 +16,7 @@
 #include "function.h"
 #include "aggregate.h"
 #include "fqlselect.h"
+#include "fqlbranch.h"
 #include "operation.h"
 #include "switchcase.h"
 #include "expression.h"
@@ -1232,6 +1233,15 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 		                         fql->props.strictness));
 	}
 
+	/* Validate the condition of an IF or WHILE */
+	enum fql_operation oper = *(enum fql_operation*)aquery->op;
+	if (oper == FQL_IF || oper == FQL_WHILE) {
+		fqlbranch* branch = aquery->op;
+		try_(_assign_expressions(branch->condition->expressions,
+		                         aquery->sources,
+		                         fql->props.strictness));
+	}
+
 	/* Validate the expressions from the operation.
 	 * (e.g. expressions listed in SELECT).
 	 */
-- 
2.43.0


From db116756a99a3b31b29bccd41c728b8ad5196323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 37/71] fix: SELECT INTO never truncates a file that appeared
 since it was checked

---
 lib/schema.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/schema.c b/lib/schema.c
index e0a2c1f..36e98b2 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1345,7 +1345,7 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 			 */
 			/* This is a temporary file until SELECT completes */
 			node* tmp = fqlsig_tmp_push(aquery->into_table_name);
-			FILE* place_holder = fopen(aquery->into_table_name, "w");
+			FILE* place_holder = fopen(aquery->into_table_name, "wx");
 			if (place_holder == NULL) {
 				perror(aquery->into_table_name);
 				fqlsig_tmp_remove_node(tmp);
-- 
2.43.0


From dfc96e241398df8527087337d805f8ddc9952610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 38/71] fix: functions that are not implemented are rejected
 before the script starts

---
 lib/function.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/function.c b/lib/function.c
index f06a734..5624fef 100644
--- a/lib/function.c
+++ b/lib/function.c
@@ -230,7 +230,10 @@ int function_op_resolve(function* self, enum field_type* type)
 	default:;
 	}
 
-	self->call__ = _scalar_ops[self->type][*type];
+	self->call__ = NULL;
+	if (*type >= 0 && *type < FIELD_TYPE_COUNT) {
+		self->call__ = _scalar_ops[self->type][*type];
+	}
 	if (self->call__ == NULL) {
 		fprintf(stderr,
 		        "invalid type for %s operation\n",
@@ -265,6 +268,10 @@ int function_validate(function* self, expression* parent)
 		}
 	}
 
+	if (self->call__ == &_not_implemented) {
+		return _not_implemented(self, NULL, NULL);
+	}
+
 	unsigned argc = self->args->size;
 	if (argc >= self->arg_min && argc <= self->arg_max) {
 		return FQL_GOOD;
-- 
2.43.0


From 31b86f0fe98073bf208bdc4e04efaf38ae9cfe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 39/71] fix: predicates that are not supported are rejected

---
 lib/antlr/listenerinterface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 80cb96c..62ea3b3 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -904,6 +904,10 @@ void ListenerInterface::exitSearch_condition(TSqlParser::Search_conditionContext
 
 void ListenerInterface::enterPredicate(TSqlParser::PredicateContext * ctx)
 {
+	if (ctx->BETWEEN() || ctx->ESCAPE() || ctx->ALL() || ctx->SOME() || ctx->ANY()) {
+		_no_impl(ctx->getText(), ctx->getRuleIndex());
+		return;
+	}
 	query_enter_predicate(_query, ctx->NOT().size(), (ctx->IN() != NULL));
 }
 
-- 
2.43.0


From f7db2127d5dbf543326491682f28071404a595f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 40/71] fix: invalid comparisons inside CASE and function
 arguments fail the plan

---
 lib/fqlplan.c | 83 +++++++++++++++++++++++++++------------------------
 lib/logic.c   |  5 +++-
 2 files changed, 48 insertions(+), 40 deletions(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 9b0381e..148ce83 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -90,7 +90,7 @@ void plan_destroy(void* generic_plan)
 	delete_(vec, self->_root_data);
 }
 
-void _check_all_for_special_expression(plan* self, process* proc, vec* expressions);
+int _check_all_for_special_expression(plan* self, process* proc, vec* expressions);
 int _build(query*, fqlhandle*, dnode* entry, bool is_union);
 void _print_plan(plan*);
 void _activate_procs(plan*, fqlhandle*);
@@ -137,10 +137,10 @@ void plan_pipeline_root_preempt(plan* self)
 	}
 }
 
-void _check_for_special_expression(plan* self, process* proc, expression* expr)
+int _check_for_special_expression(plan* self, process* proc, expression* expr)
 {
 	if (expr == NULL) {
-		return;
+		return FQL_GOOD;
 	}
 
 	switch (expr->expr) {
@@ -150,30 +150,29 @@ void _check_for_special_expression(plan* self, process* proc, expression* expr)
 	case EXPR_SWITCH_CASE: {
 		logicgroup** it = vec_begin(&expr->field.sc->tests);
 		for (; it != vec_end(&expr->field.sc->tests); ++it) {
-			plan_logic_to_process(self, proc, *it);
+			try_(plan_logic_to_process(self, proc, *it));
 		}
-		_check_all_for_special_expression(self, proc, &expr->field.sc->values);
-
-		break;
+		return _check_all_for_special_expression(self, proc, &expr->field.sc->values);
 	}
 	case EXPR_AGGREGATE:
-		_check_all_for_special_expression(self, proc, expr->field.agg->args);
-		break;
+		return _check_all_for_special_expression(self, proc, expr->field.agg->args);
 	case EXPR_FUNCTION:
-		_check_all_for_special_expression(self, proc, expr->field.fn->args);
-		break;
-	default:;
+		return _check_all_for_special_expression(self, proc, expr->field.fn->args);
+	default:
+		return FQL_GOOD;
 	}
+	return FQL_GOOD;
 }
-void _check_all_for_special_expression(plan* self, process* proc, vec* expressions)
+int _check_all_for_special_expression(plan* self, process* proc, vec* expressions)
 {
 	if (expressions == NULL) {
-		return;
+		return FQL_GOOD;
 	}
 	expression** it = vec_begin(expressions);
 	for (; it != vec_end(expressions); ++it) {
-		_check_for_special_expression(self, proc, *it);
+		try_(_check_for_special_expression(self, proc, *it));
 	}
+	return FQL_GOOD;
 }
 
 int _subquery_inlist(plan* self, process* logic_proc, logicgroup* lg)
@@ -228,12 +227,12 @@ int plan_logic_to_process(plan* self, process* logic_proc, logicgroup* lg)
 			if (lg->condition->in_data && lg->condition->in_data->subquery) {
 				try_(_subquery_inlist(self, logic_proc, lg));
 			}
-			_check_for_special_expression(self,
-			                              logic_proc,
-			                              lg->condition->expr[0]);
-			_check_for_special_expression(self,
-			                              logic_proc,
-			                              lg->condition->expr[1]);
+			try_(_check_for_special_expression(self,
+			                                   logic_proc,
+			                                   lg->condition->expr[0]));
+			try_(_check_for_special_expression(self,
+			                                   logic_proc,
+			                                   lg->condition->expr[1]));
 			try_(logic_assign_process(lg->condition, logic_proc));
 		}
 		break;
@@ -276,8 +275,8 @@ int plan_logicgroup_to_process(plan* self,
 	}
 	logic_proc->action__ = &fql_logic;
 	logic_proc->proc_data = lg;
-	try_(plan_logic_to_process(self, logic_proc, lg));
 	dnode* logic_node = dgraph_add_data(self->processes, logic_proc);
+	try_(plan_logic_to_process(self, logic_proc, lg));
 
 	/* If we are dealing with join logic that
 	 * has been optimized to a hash join, the
@@ -496,7 +495,7 @@ int _where(plan* self, query* query)
 /* NOTE: If there is a grouping, the grouping becomes the
  *       one and only source. hence source_count = 1...
  */
-void _group(plan* self, query* query)
+int _group(plan* self, query* query)
 {
 	if (query->groupby != NULL && self->loose_groups) {
 		delete_if_exists_(distinct, query->distinct);
@@ -505,9 +504,10 @@ void _group(plan* self, query* query)
 	}
 	if (query->groupby != NULL) {
 		process* group_proc = new_(process, "GROUP BY ", self);
-		_check_all_for_special_expression(self,
-		                                  group_proc,
-		                                  &query->groupby->expressions);
+		dnode* group_node = dgraph_add_data(self->processes, group_proc);
+		try_(_check_all_for_special_expression(self,
+		                                       group_proc,
+		                                       &query->groupby->expressions));
 		self->source_count = 1;
 		group_proc->out_src_count = 1;
 		process* true_proc = self->op_true->data;
@@ -518,7 +518,6 @@ void _group(plan* self, query* query)
 		group_proc->proc_data = query->groupby;
 		group_proc->root_fifo = 1;
 		group_cat_description(query->groupby, group_proc);
-		dnode* group_node = dgraph_add_data(self->processes, group_proc);
 		//vec_push_back(&query->groupby->_roots, &group_node);
 		group_node->is_root = true;
 		self->current->out[0] = group_node;
@@ -534,6 +533,8 @@ void _group(plan* self, query* query)
 		self->current->out[0] = group_node;
 		self->current = group_node;
 	}
+
+	return FQL_GOOD;
 }
 
 int _having(plan* self, query* query)
@@ -568,15 +569,15 @@ int _operation(plan* self, query* query, fqlhandle* fql, dnode* entry, bool is_u
 
 	try_(op_apply_process(query, self, (is_union || entry != NULL)));
 
-	_check_all_for_special_expression(self,
-	                                  self->op_true->data,
-	                                  op_get_expressions(query->op));
+	try_(_check_all_for_special_expression(self,
+	                                       self->op_true->data,
+	                                       op_get_expressions(query->op)));
 
 	vec* op_add_exprs = op_get_additional_exprs(query->op);
 	if (op_add_exprs != NULL) {
-		_check_all_for_special_expression(self,
-		                                  self->op_true->data,
-		                                  op_add_exprs);
+		try_(_check_all_for_special_expression(self,
+		                                       self->op_true->data,
+		                                       op_add_exprs));
 	}
 
 	if (entry == NULL) {
@@ -614,20 +615,24 @@ int _union(plan* self, query* aquery, fqlhandle* fql)
 	return FQL_GOOD;
 }
 
-void _order(plan* self, query* query)
+int _order(plan* self, query* query)
 {
 	if (query->orderby == NULL) {
-		return;
+		return FQL_GOOD;
 	}
 	process* order_proc = new_(process, "ORDER BY ", self);
-	_check_all_for_special_expression(self, order_proc, &query->orderby->expressions);
+	dnode* order_node = dgraph_add_data(self->processes, order_proc);
+	try_(_check_all_for_special_expression(self,
+	                                       order_proc,
+	                                       &query->orderby->expressions));
 	order_proc->action__ = &fql_orderby;
 	order_proc->proc_data = query->orderby;
 	order_cat_description(query->orderby, order_proc);
-	dnode* order_node = dgraph_add_data(self->processes, order_proc);
 	self->current->out[0] = order_node;
 	self->current = order_node;
 	self->op_true = order_node;
+
+	return FQL_GOOD;
 }
 
 /* In an effort to make building of the process graph easier
@@ -835,7 +840,7 @@ int _build(query* aquery, fqlhandle* fql, dnode* entry, bool is_union)
 	/* aquery */
 	try_(_from(self, aquery, fql));
 	try_(_where(self, aquery));
-	_group(self, aquery);
+	try_(_group(self, aquery));
 	try_(_having(self, aquery));
 	try_(_operation(self, aquery, fql, entry, is_union));
 
@@ -845,7 +850,7 @@ int _build(query* aquery, fqlhandle* fql, dnode* entry, bool is_union)
 	_clear_passive(self);
 	dgraph_get_roots(self->processes);
 	try_(_union(self, aquery, fql));
-	_order(self, aquery);
+	try_(_order(self, aquery));
 
 	_clear_passive(self);
 	dgraph_get_roots(self->processes);
diff --git a/lib/logic.c b/lib/logic.c
index 24844e8..c519485 100644
--- a/lib/logic.c
+++ b/lib/logic.c
@@ -79,7 +79,10 @@ int logic_assign_process(logic* self, process* proc)
 	} else {
 		self->data_type = FIELD_STRING;
 	}
-	self->logic__ = _logic_matrix[self->comp_type][self->data_type];
+	self->logic__ = NULL;
+	if (self->data_type != FIELD_UNDEFINED) {
+		self->logic__ = _logic_matrix[self->comp_type][self->data_type];
+	}
 	if (self->logic__ == NULL) {
 		fprintf(stderr,
 		        "cannot apply comparison `%s' to type `%s'\n",
-- 
2.43.0


From 1c69b6a0e975cf7efd70c7eb2f9b1bfe6f37cfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 41/71] fix: a directory that cannot be listed is an error of
 the statement, not the end of the process

---
 util/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/util.c b/util/util.c
index 5131e9f..db5ab21 100644
--- a/util/util.c
+++ b/util/util.c
@@ -192,7 +192,7 @@ node* dir_list_files(const char* restrict dir)
 	dr = opendir(dir); //open all or present directory
 	if (!dr) {
 		perror(dir);
-		exit(EXIT_FAILURE);
+		return NULL;
 	}
 
 	while ((en = readdir(dr)) != NULL) {
-- 
2.43.0


From bba84d75dbab5bd20b82aa837901a98e1a207b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:10 +0000
Subject: [PATCH 42/71] fix: fifo_get_or_wait keeps no lock while waiting and
 ends when the fifo is closed

---
 util/fifo.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/util/fifo.c b/util/fifo.c
index 9438f13..91344f2 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -120,17 +120,17 @@ void fifo_set_full(fifo* restrict self)
 	self->head = self->buf->size - 1;
 }
 
+/* returns NULL once nothing more can show up */
 void* fifo_get_or_wait(fifo* restrict self)
 {
-	pthread_mutex_lock(&self->tail_mutex);
-	while (!fifo_available(self)) {
-		fifo_wait_for_add(self);
+	/* Holding the tail_mutex while waiting would keep
+	 * whoever closes or fills this fifo from going on.
+	 */
+	fifo_wait_for_add(self);
+	if (fifo_is_empty(self)) {
+		return NULL;
 	}
-	void* data = fifo_peek(self);
-	_idx_adv_(self->tail);
-	pthread_cond_broadcast(&self->cond_get);
-	pthread_mutex_unlock(&self->tail_mutex);
-	return data;
+	return fifo_get(self);
 }
 
 void* fifo_get(fifo* restrict self)
-- 
2.43.0


From 25bfd288554f20e06dc6116f500fbf23fb4c357b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 43/71] fix: string_strncpy does not read past the limit it is
 given

---
 util/stringy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/stringy.c b/util/stringy.c
index 2f27d2e..11a0ed7 100644
--- a/util/stringy.c
+++ b/util/stringy.c
@@ -141,7 +141,7 @@ size_t string_strncpy(string* restrict dest, const char* restrict src, size_t li
 {
 	string_resize(dest, limit);
 	size_t i = 0;
-	for (; src[i] != '\0' && i < limit; ++i) {
+	for (; i < limit && src[i] != '\0'; ++i) {
 		((char*)dest->data)[i] = src[i];
 	}
 	string_resize(dest, i);
-- 
2.43.0


From a41ce02b46c475061b3808d82b7ebef754aea529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 44/71] fix: an empty file without header still has a delimiter
 for output

---
 lib/table.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/table.c b/lib/table.c
index 61a3690..e9b69a3 100644
--- a/lib/table.c
+++ b/lib/table.c
@@ -117,6 +117,9 @@ int table_resolve_schema(table* self, struct fqlhandle* fql)
 	switch (reader->type) {
 	case IO_LIBCSV:
 		delim = csv_reader_get_delim(reader->reader_data);
+		if (delim == NULL || delim[0] == '\0') {
+			delim = ","; /* nothing to tell it by in an empty file */
+		}
 		self->schema->write_io_type = IO_LIBCSV;
 		break;
 	case IO_SUBQUERY: {
-- 
2.43.0


From 63f118c48e2c76e9a3b4c1f5fc0565815f38f0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 45/71] fix: reopening a fixed-width file drops the old mapping
 and descriptor

---
 lib/fixedread.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/lib/fixedread.c b/lib/fixedread.c
index c78c8f2..e2e2226 100644
--- a/lib/fixedread.c
+++ b/lib/fixedread.c
@@ -15,13 +15,23 @@ fixedread* fixedread_construct(fixedread* self, vec* expressions)
 	return self;
 }
 
-void fixedread_free(void* generic_data)
+void _fixedread_close(fixedread* self)
 {
-	fixedread* self = generic_data;
-	if (self->fd != -1) {
+	if (self->mmap != NULL) {
 		munmap(self->mmap, self->file_size);
+		self->mmap = NULL;
+	}
+	if (self->fd != -1) {
 		close(self->fd);
+		self->fd = -1;
 	}
+	self->file_size = 0;
+}
+
+void fixedread_free(void* generic_data)
+{
+	fixedread* self = generic_data;
+	_fixedread_close(self);
 	free_(self);
 }
 
@@ -40,7 +50,7 @@ int fixedread_open(reader* reader, const char* file_name)
 		return FQL_FAIL;
 	}
 
-	/* TODO test this */
+	self->offset = 0;
 	if (sb.st_size == 0) {
 		return FQL_GOOD;
 	}
@@ -49,21 +59,18 @@ int fixedread_open(reader* reader, const char* file_name)
 	self->mmap = mmap(NULL, sb.st_size, PROT_READ, MAP_PRIVATE, self->fd, 0);
 
 	if (self->mmap == MAP_FAILED) {
+		self->mmap = NULL;
 		perror(file_name);
 		return FQL_FAIL;
 	}
 	madvise(self->mmap, sb.st_size, MADV_SEQUENTIAL);
-	self->offset = 0;
 	return FQL_GOOD;
 }
 
 int fixedread_reopen(reader* reader)
 {
 	fixedread* self = reader->reader_data;
-	if (self->mmap != NULL) {
-		munmap(self->mmap, self->file_size);
-		close(self->fd);
-	}
+	_fixedread_close(self);
 	return fixedread_open(reader, string_c_str(&reader->file_name));
 }
 
@@ -144,7 +151,7 @@ int fixedread_get_record_at(reader* reader, node* rg, size_t offset)
 	rec->rec_ref.data = begin;
 	rec->rec_ref.len = reader->reclen; /* redundant */
 	rec->rec_idx = reader->rec_id++;
-	rec->offset = self->offset;
+	rec->offset = offset;
 
 	return FQL_GOOD;
 }
-- 
2.43.0


From ce478b1951f4ac8e54c74245141aed00b6200f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 46/71] fix: fixed-width output reports failed writes and
 leaves no temp files, ORDER BY included

---
 lib/fixedwrite.c | 116 +++++++++++++++++++++++++++--------------------
 lib/fqlsig.c     |  10 ++++
 lib/fqlsig.h     |   5 ++
 lib/order.c      |   2 +-
 4 files changed, 84 insertions(+), 49 deletions(-)

diff --git a/lib/fixedwrite.c b/lib/fixedwrite.c
index 0654359..f627850 100644
--- a/lib/fixedwrite.c
+++ b/lib/fixedwrite.c
@@ -26,6 +26,9 @@ fixedwriter* fixedwriter_construct(fixedwriter* self)
 
 void fixedwriter_destroy(fixedwriter* self)
 {
+	if (self->file != NULL && self->file != stdout) {
+		fclose(self->file);
+	}
 	string_destroy(&self->tempname);
 	string_destroy(&self->filename);
 	string_destroy(&self->buffer);
@@ -51,14 +54,17 @@ int _mktmp(fixedwriter* self)
 		free_(filename_cp);
 	}
 
-	int fd = mkstemp(self->tempname.data);
+	int fd = fqlsig_tmp_create(self->tempname.data, &self->tempnode);
+	if (fd == -1) {
+		perror(string_c_str(&self->tempname));
+		return FQL_FAIL;
+	}
 	self->file = fdopen(fd, "w");
 	if (!self->file) {
 		perror(string_c_str(&self->tempname));
+		close(fd);
 		return FQL_FAIL;
 	}
-
-	self->tempnode = fqlsig_tmp_push(string_c_str(&self->tempname));
 	return FQL_GOOD;
 }
 bool _isopen(fixedwriter* self)
@@ -80,8 +86,18 @@ int fixedwriter_close(fixedwriter* self)
 	if (self->file == stdout)
 		return FQL_GOOD;
 
-	fclose(self->file);
+	if (self->file == NULL) {
+		fputs("fixedwriter not open\n", stderr);
+		return FQL_FAIL;
+	}
+
+	bool failed = ferror(self->file);
+	failed = fclose(self->file) || failed;
 	self->file = NULL;
+	if (failed) {
+		perror(string_c_str(&self->tempname));
+		return FQL_FAIL;
+	}
 
 	if (self->is_detached) {
 		self->is_detached = false;
@@ -95,11 +111,7 @@ int fixedwriter_close(fixedwriter* self)
 		fputs("file name empty\n", stderr);
 		return FQL_FAIL;
 	}
-	if (rename(tmp, file)) {
-		perror(tmp);
-		return FQL_FAIL;
-	}
-	if (chmod(file, 0666)) {
+	if (chmod(tmp, 0666) || rename(tmp, file)) {
 		perror(file);
 		return FQL_FAIL;
 	}
@@ -122,10 +134,11 @@ char* fixedwriter_take_filename(fixedwriter* self)
 	return string_export(&self->filename);
 }
 
-const char* _get_filename(fixedwriter* self)
+char* _get_filename(fixedwriter* self)
 {
 	string* filename = NULL;
 	if (self->is_detached) {
+		/* whoever takes this name adopts the temp node */
 		filename = &self->tempname;
 		self->tempnode = NULL;
 	} else {
@@ -135,7 +148,7 @@ const char* _get_filename(fixedwriter* self)
 	if (string_empty(filename)) {
 		return NULL;
 	}
-	return string_c_str(filename);
+	return strdup_(string_c_str(filename));
 }
 
 const char* fixedwriter_export_temp(fixedwriter* self)
@@ -149,15 +162,49 @@ const char* fixedwriter_export_temp(fixedwriter* self)
 	return _get_filename(self);
 }
 
+int _write_expression(fixedwriter* self, expression* expr, node* rg, int strict)
+{
+	stringview sv = {NULL, 0};
+	if (expr->expr == EXPR_ASTERISK) {
+		record* rec = node_data_at(rg, expr->src_idx);
+		sv = rec->rec_ref;
+	} else {
+		if (strict && expr->field_type != FIELD_STRING) {
+			try_(expression_type_check(expr, rg));
+		}
+		if (try_(expression_get_stringview(&sv, expr, rg)) == FQL_NULL) {
+			sv.len = 0;
+		}
+	}
+
+	unsigned width = sv.len;
+	if (expr->width != 0) {
+		width = expr->width;
+		if (width < sv.len) {
+			fprintf(stderr,
+			        "Truncation error: `%.*s' to `%.*s'\n",
+			        sv.len,
+			        sv.data,
+			        width,
+			        sv.data);
+			return FQL_FAIL;
+		}
+	}
+
+	fwrite(sv.data, 1, sv.len, self->file);
+	unsigned i = sv.len;
+	for (; i < width; ++i) {
+		fputc(' ', self->file);
+	}
+	return width;
+}
+
 int fixedwriter_write_record(writer* writer, vec* expr_vec, node* rg, FILE* outstream)
 {
 	fixedwriter* self = writer->writer_data;
 
-	FILE* store_stream = NULL;
-	if (outstream == NULL) {
-		outstream = fixedwriter_get_file(self);
-	} else {
-		store_stream = fixedwriter_get_file(self);
+	FILE* store_stream = fixedwriter_get_file(self);
+	if (outstream != NULL) {
 		self->file = outstream;
 	}
 
@@ -165,42 +212,15 @@ int fixedwriter_write_record(writer* writer, vec* expr_vec, node* rg, FILE* outs
 
 	expression** it = vec_begin(expr_vec);
 	for (; it != vec_end(expr_vec); ++it) {
-		stringview sv = {NULL, 0};
-		if ((*it)->expr == EXPR_ASTERISK) {
-			record* rec = node_data_at(rg, (*it)->src_idx);
-			sv = rec->rec_ref;
-		} else {
-			if (writer->strict && (*it)->field_type != FIELD_STRING) {
-				try_(expression_type_check(*it, rg));
-			}
-			try_(expression_get_stringview(&sv, *it, rg));
-		}
-
-		unsigned width = sv.len;
-		if ((*it)->width != 0) {
-			width = (*it)->width;
-			if (width < sv.len) {
-				fprintf(stderr,
-				        "Truncation error: `%.*s' to `%.*s'\n",
-				        sv.len,
-				        sv.data,
-				        width,
-				        sv.data);
-				return FQL_FAIL;
-			}
-		}
-
-		fwrite(sv.data, 1, sv.len, self->file);
-		unsigned i = sv.len;
-		for (; i < width; ++i) {
-			fputc(' ', self->file);
+		int width = _write_expression(self, *it, rg, writer->strict);
+		if (width == FQL_FAIL) {
+			len = FQL_FAIL;
+			break;
 		}
 		len += width;
 	}
 
-	if (store_stream) {
-		self->file = store_stream;
-	}
+	self->file = store_stream;
 
 	return len;
 }
diff --git a/lib/fqlsig.c b/lib/fqlsig.c
index 59c9c50..f564c3b 100644
--- a/lib/fqlsig.c
+++ b/lib/fqlsig.c
@@ -164,6 +164,16 @@ node* fqlsig_tmp_push(const char* tmp_file)
 	return new_node;
 }
 
+node* fqlsig_tmp_adopt(const char* tmp_file)
+{
+	node* new_node = _new_node(tmp_file);
+	_lock();
+	_forget(tmp_file);
+	node_enqueue_import(&_tmp_file_head, new_node);
+	_unlock();
+	return new_node;
+}
+
 int fqlsig_tmp_create(char* name, node** created)
 {
 	node* new_node = _new_node(name);
diff --git a/lib/fqlsig.h b/lib/fqlsig.h
index 5e4988f..1ecd62b 100644
--- a/lib/fqlsig.h
+++ b/lib/fqlsig.h
@@ -21,6 +21,11 @@ void fqlsig_cleanexit();
  */
 struct node* fqlsig_tmp_push(const char* tmp_file);
 
+/**
+ * Take over a temp file that somebody else may have pushed
+ */
+struct node* fqlsig_tmp_adopt(const char* tmp_file);
+
 /**
  * Create a temp file as mkstemp(3) does and add it
  */
diff --git a/lib/order.c b/lib/order.c
index 4c35447..334be66 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -152,7 +152,7 @@ int order_init_io(order* self, const char* in_name, const char* out_name)
 	}
 
 	string_strcpy(&self->in_filename, in_name);
-	self->temp_node = fqlsig_tmp_push(string_c_str(&self->in_filename));
+	self->temp_node = fqlsig_tmp_adopt(string_c_str(&self->in_filename));
 
 	if (out_name != NULL) {
 		_order_reset_output(self);
-- 
2.43.0


From 661eedd2c76589e12510ed90168cf69710ce2e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 47/71] fix: the first record of a headerless standard input is
 not given back to the pool twice

---
 lib/libcsvread.c | 8 ++++----
 lib/schema.c     | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/libcsvread.c b/lib/libcsvread.c
index 70a1df0..34daaa7 100644
--- a/lib/libcsvread.c
+++ b/lib/libcsvread.c
@@ -29,10 +29,10 @@ int libcsv_get_record(reader* self, node* rg)
 	int ret = 0;
 	/* This comes from delimiter discovery in schema.c:_resolve_source */
 	if (self->first_rec != NULL) {
-		delete_(record, rec);
-		rec = self->first_rec;
-		self->first_rec = NULL;
-		rg->data = rec;
+		struct csv_record* first = self->first_rec->libcsv_rec;
+		self->first_rec->libcsv_rec = rec->libcsv_rec;
+		rec->libcsv_rec = first;
+		delete_(record, self->first_rec);
 		ret = CSV_GOOD;
 	} else {
 		ret = csv_get_record_to(csv, rec->libcsv_rec, self->max_idx + 1);
diff --git a/lib/schema.c b/lib/schema.c
index 36e98b2..fd8b0dc 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -612,7 +612,7 @@ int _resolve_source(struct fqlhandle* fql, query* query, table* table, int src_i
 
 	schema_preflight(self);
 
-	if (self->is_default || !table->is_stdin) {
+	if (self->is_default || !table->is_stdin || ret == EOF) {
 		delete_(record, rec);
 	} else {
 		table->reader->first_rec = rec;
-- 
2.43.0


From 5ee25e170e386912ab218d3674e697931aea7d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 48/71] fix: tables written without header are read back by
 later statements, empty ones keep their columns

---
 lib/schema.c | 26 ++++++++++++++++++++++++--
 lib/schema.h |  1 +
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/lib/schema.c b/lib/schema.c
index fd8b0dc..bc29631 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -285,14 +285,29 @@ int _resolve_file(struct fqlhandle* fql, query* query, table* table)
 
 	vec* src_vec = (*match)->expressions;
 
+	/* where the columns are in what the query writes */
+	size_t offset = 0;
+
 	expression** it = vec_begin(src_vec);
 	for (; it != vec_end(src_vec); ++it) {
 		expression* new_expr =
 		        new_(expression, EXPR_COLUMN_NAME, (*it)->alias.data, "");
 		new_expr->field_type = (*it)->field_type;
-		new_expr->location = (*it)->location;
+		new_expr->location = offset;
 		new_expr->width = (*it)->width;
+		offset += (*it)->width;
 		schema_add_expression(table->schema, new_expr, table->idx);
+
+		if ((*match)->write_io_type == IO_FIXED && (*it)->width == 0) {
+			fprintf(stderr,
+			        "width of column `%s' is unknown\n",
+			        string_c_str(&(*it)->alias));
+			return FQL_FAIL;
+		}
+	}
+	table->reader->reclen = offset;
+	if ((*match)->no_header) {
+		table->reader->skip_rows = 0;
 	}
 
 	table->must_reopen = true;
@@ -599,7 +614,7 @@ int _resolve_source(struct fqlhandle* fql, query* query, table* table, int src_i
 		if (!self->is_preresolved) {
 			schema_assign_header(table, rec, src_idx);
 		}
-	} else {
+	} else if (!self->is_preresolved && ret != EOF) {
 		unsigned newsize = (rec->fields.size) ? rec->fields.size : 1;
 		if (newsize < self->expressions->size) {
 			expression** it = vec_at(self->expressions, newsize);
@@ -1379,6 +1394,13 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 			return FQL_FAIL;
 		}
 
+		op_schema->no_header = !op_schema->is_default;
+		if (*(enum fql_operation*)aquery->op == FQL_SELECT) {
+			op_schema->no_header =
+			        op_schema->write_io_type != IO_LIBCSV
+			        || !(op_schema->is_default ? fql->props.print_header
+			                                   : fql->props.add_header);
+		}
 		hashmap_set(fql->schema_map, absolute_path, &op_schema);
 	}
 
diff --git a/lib/schema.h b/lib/schema.h
index 74f61a1..4ed4436 100644
--- a/lib/schema.h
+++ b/lib/schema.h
@@ -20,6 +20,7 @@ struct schema {
 	bool is_default;
 	bool delim_is_set;
 	bool is_preresolved;
+	bool no_header; /* of the file an operation writes */
 };
 typedef struct schema schema;
 
-- 
2.43.0


From ca4b77685de389bf58377117608324646ea974c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 49/71] fix: -R/--rec-term of the help text is accepted

---
 src/fql.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fql.c b/src/fql.c
index dfeec78..bed7eab 100644
--- a/src/fql.c
+++ b/src/fql.c
@@ -114,6 +114,7 @@ int main(int argc, char** argv)
 	        {"print", no_argument, 0, 'p'},
 	        {"pipe-factor", required_argument, 0, 'P'},
 	        {"quiet", no_argument, 0, 'q'},
+	        {"rec-term", required_argument, 0, 'R'},
 	        {"in-delim", required_argument, 0, 's'},
 	        {"out-delim", required_argument, 0, 'S'},
 	        {"thread", no_argument, 0, 't'},
@@ -133,7 +134,7 @@ int main(int argc, char** argv)
 	/* getopt_long stores the option index here. */
 	int option_index = 0;
 
-	char opt_string[64] = "Abc:CdD:hHLoOpP:qs:S:tvW";
+	char opt_string[64] = "Abc:CdD:hHLoOpP:qR:s:S:tvW";
 	char* opt_iter = opt_string + strlen(opt_string) - 1;
 	*++opt_iter = HELP_ARG;
 	*++opt_iter = DEBUG_ARG;
@@ -320,6 +321,9 @@ void _parse_args(struct fqlhandle* handle, int c)
 	case 'v':
 		fql_set_verbose(handle, FQL_NOISY);
 		break;
+	case 'R':
+		fql_set_record_terminator(handle, optarg);
+		break;
 	case 'W':
 		fql_set_crlf_output(handle, 1);
 		break;
-- 
2.43.0


From 30da8250ee3ff52abbfb0a56b417970208b28510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 50/71] fix: a table written earlier in the script is read with
 the delimiter it was written with

---
 lib/reader.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/reader.c b/lib/reader.c
index 8c257aa..4c4942d 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -50,7 +50,10 @@ int reader_assign(reader* self, table* table, struct fqlhandle* fql)
 	case IO_LIBCSV: {
 		csv_reader* csv = csv_reader_new();
 		csv->quotes = fql->props.in_std;
-		if (fql->props.in_delim[0]) {
+		if (table->schema->is_preresolved && !table->is_stdin) {
+			/* written earlier in this script */
+			csv_reader_set_delim(csv, table->schema->delimiter);
+		} else if (fql->props.in_delim[0]) {
 			csv_reader_set_delim(csv, fql->props.in_delim);
 		}
 		self->reader_data = csv;
-- 
2.43.0


From a2414e3c5773938a08006e30f7a581c0aa3f6158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 51/71] fix: UPDATE and DELETE add no header to a table written
 without

---
 lib/fqldelete.c | 2 +-
 lib/fqlupdate.c | 2 +-
 lib/schema.c    | 7 +++++++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/fqldelete.c b/lib/fqldelete.c
index a2c59ac..da9fb28 100644
--- a/lib/fqldelete.c
+++ b/lib/fqldelete.c
@@ -104,7 +104,7 @@ int fqldelete_apply_process(query* query, plan* plan)
 
 void fqldelete_preop(fqldelete* self, query* query)
 {
-	if (!self->schema->is_default) {
+	if (!self->schema->is_default || self->schema->no_header) {
 		return;
 	}
 
diff --git a/lib/fqlupdate.c b/lib/fqlupdate.c
index 2a79b43..16f1b21 100644
--- a/lib/fqlupdate.c
+++ b/lib/fqlupdate.c
@@ -147,7 +147,7 @@ int fqlupdate_apply_process(query* query, plan* plan)
 
 void fqlupdate_preop(fqlupdate* self, query* query)
 {
-	if (!self->schema->is_default) {
+	if (!self->schema->is_default || self->schema->no_header) {
 		return;
 	}
 
diff --git a/lib/schema.c b/lib/schema.c
index bc29631..3e37f3c 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1344,6 +1344,13 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 
 	schema_preflight(op_schema);
 
+	enum fql_operation op_type = *(enum fql_operation*)aquery->op;
+	if (op_type == FQL_UPDATE || op_type == FQL_DELETE) {
+		/* a changed table has a header only if it had one */
+		table* target = vec_begin(aquery->sources);
+		op_schema->no_header = (target->reader->skip_rows == 0);
+	}
+
 	/* If this query will be writing changes to the file system,
 	 * we need to be aware of this when parsing future queries.
 	 * These are mapped as absolute paths. First check that the
-- 
2.43.0


From 51a5c335748463a339dfc2c23358970e4515bd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 52/71] fix: the output delimiter is for SELECT, changed tables
 keep theirs

---
 lib/schema.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/schema.c b/lib/schema.c
index 3e37f3c..e96036e 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1502,7 +1502,8 @@ int schema_resolve(struct fqlhandle* fql)
 			(*it)->next_idx_ref = NULL;
 		}
 
-		if (fql->_out_delim_set) {
+		/* tables that are changed keep their delimiter */
+		if (fql->_out_delim_set && *(enum fql_operation*)(*it)->op == FQL_SELECT) {
 			op_set_delim((*it)->op, fql->props.out_delim);
 		}
 
-- 
2.43.0


From c5f7ce3fc5715bcd1e0f00dc278ced1787b0757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:23 +0000
Subject: [PATCH 53/71] fix: a numeric group key of a derived table on the
 right of a join is found

---
 lib/expression.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 5454a27..2f0486e 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -407,7 +407,8 @@ int expression_get_int(long* ret, expression* self, node* rg)
 	case EXPR_COLUMN_NAME: {
 		expression* src_expr = self->data_source;
 		record* rec = NULL;
-		if (self->subquery_src_idx == -1) {
+		if (self->expr != EXPR_COLUMN_NAME
+		    || self->subquery_src_idx == -1) {
 			rec = record_at(rg, src_expr->src_idx);
 		} else {
 			rec = record_at(rg, self->subquery_src_idx);
@@ -476,7 +477,8 @@ int expression_get_float(double* ret, expression* self, node* rg)
 	case EXPR_COLUMN_NAME: {
 		expression* src_expr = self->data_source;
 		record* rec = NULL;
-		if (self->subquery_src_idx == -1) {
+		if (self->expr != EXPR_COLUMN_NAME
+		    || self->subquery_src_idx == -1) {
 			rec = record_at(rg, src_expr->src_idx);
 		} else {
 			rec = record_at(rg, self->subquery_src_idx);
-- 
2.43.0


From 5566df3553d08a9620d4ad1a1feef773ba975d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 54/71] fix: DISTINCT, SELECT and readers of derived tables do
 not evaluate the same expression at the same time

---
 lib/fqlprocesses.c | 13 ++++++-------
 lib/fqlselect.c    |  2 ++
 lib/fqlselect.h    |  4 ++--
 lib/group.c        | 17 ++++++++++++++++-
 lib/group.h        |  2 ++
 lib/operation.c    |  1 +
 lib/order.c        |  8 +++-----
 lib/order.h        |  2 +-
 lib/subquery.c     | 13 ++++++++++++-
 9 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 4c114f8..9c7fb76 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -915,16 +915,15 @@ enum proc_return fql_distinct(process* proc)
 	return ret;
 }
 
-/* ORDER BY may evaluate our expressions in another thread */
+/* DISTINCT, ORDER BY or the reader of a derived table
+ * may evaluate our expressions in another thread.
+ */
 int _select_record_group(fqlselect* select, node* rg)
 {
-	if (select->orderby == NULL) {
-		return select->select__(select, rg);
-	}
-
-	pthread_mutex_lock(&select->orderby->expr_mutex);
+	pthread_mutex_t* expr_mutex = &select->current_select->expr_mutex;
+	pthread_mutex_lock(expr_mutex);
 	int ret = select->select__(select, rg);
-	pthread_mutex_unlock(&select->orderby->expr_mutex);
+	pthread_mutex_unlock(expr_mutex);
 	return ret;
 }
 
diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 9b190ec..cc7ba71 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -35,6 +35,7 @@ fqlselect* fqlselect_construct(fqlselect* self)
 	};
 
 	self->current_select = self;
+	pthread_mutex_init(&self->expr_mutex, NULL);
 
 	return self;
 }
@@ -47,6 +48,7 @@ void fqlselect_destroy(fqlselect* self)
 
 	delete_if_exists_(writer, self->writer);
 	delete_(schema, self->schema);
+	pthread_mutex_destroy(&self->expr_mutex);
 	if (self->header_as_exprs == NULL) {
 		return;
 	}
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index 2ad0471..4f004cc 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -1,6 +1,7 @@
 #ifndef SELECT_H
 #define SELECT_H
 
+#include <pthread.h>
 #include "query.h"
 #include "writer.h"
 #include "schema.h"
@@ -10,7 +11,6 @@
 struct record;
 struct fqlselect;
 struct inlist;
-struct order;
 typedef int (*select_fn)(struct fqlselect*, struct node*);
 
 struct fqlselect {
@@ -23,7 +23,6 @@ struct fqlselect {
 	struct node* union_selects;
 	struct node* _union_node;
 	struct fqlselect* current_select;
-	struct order* orderby;
 	//struct vec* _selection_exprs;
 	struct vec* header_as_exprs;
 	select_fn select__;
@@ -31,6 +30,7 @@ struct fqlselect {
 	size_t rows_affected;
 	size_t top_count;
 	unsigned rownum;
+	pthread_mutex_t expr_mutex;
 	bool is_const;
 	bool must_run_once;
 };
diff --git a/lib/group.c b/lib/group.c
index 6051fdb..878004b 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -111,7 +111,7 @@ int _update_agg_result(group* self, node* rg, unsigned idx)
 	return FQL_GOOD;
 }
 
-int group_record(group* self, node* rg)
+int _group_record(group* self, node* rg)
 {
 	size_t org_size = flex_size(&self->group_data);
 
@@ -162,6 +162,21 @@ int group_record(group* self, node* rg)
 	return ret;
 }
 
+/* DISTINCT evaluates the expressions of SELECT itself.
+ * SELECT may be doing so for an earlier record.
+ */
+int group_record(group* self, node* rg)
+{
+	if (self->expr_mutex == NULL) {
+		return _group_record(self, rg);
+	}
+
+	pthread_mutex_lock(self->expr_mutex);
+	int ret = _group_record(self, rg);
+	pthread_mutex_unlock(self->expr_mutex);
+	return ret;
+}
+
 /* TODO: eliminate switch with a function pointer to
  *       a function that dumps the aggregate results.
  */
diff --git a/lib/group.h b/lib/group.h
index 11ae6e3..5b714c7 100644
--- a/lib/group.h
+++ b/lib/group.h
@@ -1,6 +1,7 @@
 #ifndef GROUP_H
 #define GROUP_H
 
+#include <pthread.h>
 #include "query.h"
 #include "expression.h"
 #include "process.h"
@@ -18,6 +19,7 @@ struct group {
 	struct flex group_data;
 	struct vec _composite; /* temporary */
 	//struct vec _roots;
+	pthread_mutex_t* expr_mutex; /* DISTINCT only */
 	size_t _dump_idx;
 };
 typedef struct group group;
diff --git a/lib/operation.c b/lib/operation.c
index d25685c..48dbd35 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -409,6 +409,7 @@ int op_writer_init(struct query* query)
 	if (*self == FQL_SELECT) {
 		op_expand_asterisks(query, (!query->groupby || !query->distinct));
 		if (query->distinct != NULL) {
+			query->distinct->expr_mutex = &((fqlselect*)self)->expr_mutex;
 			expression** it = vec_begin(op_schema->expressions);
 			for (; it != vec_end(op_schema->expressions); ++it) {
 				group_add_expression(query->distinct, *it);
diff --git a/lib/order.c b/lib/order.c
index 334be66..705b2c5 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -48,7 +48,6 @@ order* order_construct(order* self)
 	string_construct(&self->out_filename);
 	string_construct(&self->out_tempname);
 	flex_construct(&self->order_data);
-	pthread_mutex_init(&self->expr_mutex, NULL);
 
 	return self;
 }
@@ -62,7 +61,6 @@ void order_destroy(order* self)
 	vec_destroy(&self->expressions);
 	vec_destroy(&self->entries);
 	flex_destroy(&self->order_data);
-	pthread_mutex_destroy(&self->expr_mutex);
 	_order_unmap(self);
 	_order_reset_output(self);
 	string_destroy(&self->in_filename);
@@ -184,7 +182,7 @@ int order_preresolve_expressions(order* self, fqlselect* select, const vec* sour
 	 */
 
 	/* From here on, SELECT and ORDER BY share expressions. */
-	select->orderby = self;
+	self->expr_mutex = &select->expr_mutex;
 
 	vec* select_exprs = select->schema->expressions;
 	schema_preflight(select->schema);
@@ -319,9 +317,9 @@ int _order_add_record(order* self, node* rg)
  */
 int order_add_record(order* self, node* rg)
 {
-	pthread_mutex_lock(&self->expr_mutex);
+	pthread_mutex_lock(self->expr_mutex);
 	int ret = _order_add_record(self, rg);
-	pthread_mutex_unlock(&self->expr_mutex);
+	pthread_mutex_unlock(self->expr_mutex);
 	return ret;
 }
 
diff --git a/lib/order.h b/lib/order.h
index 8dd0128..a080913 100644
--- a/lib/order.h
+++ b/lib/order.h
@@ -33,7 +33,7 @@ struct order {
 	char* mmap;
 	size_t file_size;
 	size_t top_count;
-	pthread_mutex_t expr_mutex;
+	pthread_mutex_t* expr_mutex;
 	bool sorted;
 };
 typedef struct order order;
diff --git a/lib/subquery.c b/lib/subquery.c
index 141d1e2..13887df 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -33,7 +33,7 @@ void subquery_free(void* generic)
  *       until we've copied all stringviews to copy_data.
  *       Then, move that shit into dest afterward.
  */
-int subquery_get_record(reader* reader, node* rg)
+int _subquery_get_record(reader* reader, node* rg)
 {
 	subquery* self = reader->reader_data;
 	vec* expressions = self->select->current_select->schema->expressions;
@@ -104,6 +104,17 @@ int subquery_get_record(reader* reader, node* rg)
 	return FQL_GOOD;
 }
 
+/* DISTINCT may be evaluating these expressions for a later record. */
+int subquery_get_record(reader* reader, node* rg)
+{
+	subquery* self = reader->reader_data;
+	pthread_mutex_t* expr_mutex = &self->select->current_select->expr_mutex;
+	pthread_mutex_lock(expr_mutex);
+	int ret = _subquery_get_record(reader, rg);
+	pthread_mutex_unlock(expr_mutex);
+	return ret;
+}
+
 int subquery_get_record_at(reader* unused_self, node* unused_rg, size_t unused_offset)
 {
 	fputs("cannot seek through subquery\n", stderr);
-- 
2.43.0


From 859641650ff872ad47f2c045165674dc4d1912db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:39 +0000
Subject: [PATCH 55/71] fix: % by zero and integer division overflow are errors

---
 lib/scalarfn.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index a18502c..aa4c7b3 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -485,6 +485,11 @@ int fql_op_divi_i(function* fn, union field* ret, node* rg)
 		return FQL_FAIL;
 	}
 
+	if (n0 == LONG_MIN && n1 == -1) {
+		fputs("arithmetic overflow detected\n", stderr);
+		return FQL_FAIL;
+	}
+
 	ret->i = n0 / n1;
 
 	return FQL_GOOD;
@@ -516,7 +521,13 @@ int fql_op_mod_i(function* fn, union field* ret, node* rg)
 	try_deref_(expression_get_int(&n0, args[0], rg));
 	try_deref_(expression_get_int(&n1, args[1], rg));
 
-	ret->i = n0 % n1;
+	if (n1 == 0) {
+		fputs("division by zero\n", stderr);
+		return FQL_FAIL;
+	}
+
+	/* LONG_MIN % -1 traps */
+	ret->i = (n1 == -1) ? 0 : n0 % n1;
 
 	return FQL_GOOD;
 }
-- 
2.43.0


From 4fd21ee4e031e2347b8872f08c8b79c3bc3879ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:39 +0000
Subject: [PATCH 56/71] fix: RIGHT and SUBSTRING do not read past the value
 they are given

---
 lib/scalarfn.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index aa4c7b3..bb34fd5 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -231,7 +231,7 @@ int fql_right(function* fn, union field* ret, node* rg)
 	}
 
 	if (n > sv.len) {
-		string_strncpy(ret->s, sv.data, n);
+		string_strncpy(ret->s, sv.data, sv.len);
 		return FQL_GOOD;
 	}
 
@@ -285,6 +285,9 @@ int fql_substring(function* fn, union field* ret, node* rg)
 
 	if (start < 0) {
 		n += start;
+		if (n < 0) {
+			n = 0;
+		}
 	}
 
 	if (idx + n > sv.len) {
-- 
2.43.0


From ca5a99d2611deca4a7678587c713746ca17a39c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:39 +0000
Subject: [PATCH 57/71] fix: the value of a CASE of a derived table outlives
 the next record

---
 lib/subquery.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/subquery.c b/lib/subquery.c
index 13887df..6fbf456 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -61,6 +61,8 @@ int _subquery_get_record(reader* reader, node* rg)
 
 		switch ((*it)->expr) {
 		case EXPR_GROUPING:
+		case EXPR_SWITCH_CASE:
+		case EXPR_ROW_NUMBER:
 		case EXPR_FUNCTION: {
 			/* NOTE: we actually need to copy some data here
 			 *       functions own their buffers because they
-- 
2.43.0


From 10ecedb9e01c425550a9335535fad90d819dfa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:27 +0000
Subject: [PATCH 58/71] fix: an aggregate may be the argument of an operator or
 function

---
 lib/aggregate.h |  1 +
 lib/query.c     |  6 ++++++
 lib/schema.c    | 11 +++++++++++
 3 files changed, 18 insertions(+)

diff --git a/lib/aggregate.h b/lib/aggregate.h
index 1807d5b..5470a50 100644
--- a/lib/aggregate.h
+++ b/lib/aggregate.h
@@ -34,6 +34,7 @@ struct aggregate {
 	enum aggregate_function agg_type;
 	enum field_type data_type;
 	enum mode return_mode;
+	struct node* return_function_stack;
 };
 typedef struct aggregate aggregate;
 
diff --git a/lib/query.c b/lib/query.c
index 29e06aa..925309a 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -638,8 +638,13 @@ int query_enter_aggregate(query* self, enum aggregate_function agg_type)
 	agg->linked_expression = linked_expr;
 	try_(_distribute_expression(self, linked_expr));
 
+	/* The aggregate may be the argument of a function,
+	 * its own arguments are not.
+	 */
 	agg->return_mode = self->mode;
+	agg->return_function_stack = self->function_stack;
 	self->mode = MODE_AGGREGATE;
+	self->function_stack = NULL;
 
 	return FQL_GOOD;
 }
@@ -648,6 +653,7 @@ int query_exit_aggregate(query* self)
 {
 	aggregate** agg = vec_back(&self->groupby->aggregates);
 	self->mode = (*agg)->return_mode;
+	self->function_stack = (*agg)->return_function_stack;
 	return FQL_GOOD;
 }
 
diff --git a/lib/schema.c b/lib/schema.c
index e96036e..599c53a 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1257,6 +1257,17 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 		                         fql->props.strictness));
 	}
 
+	/* Aggregates may be arguments, their types come first */
+	if (aquery->groupby != NULL) {
+		aggregate** it = vec_begin(&aquery->groupby->aggregates);
+		for (; it != vec_end(&aquery->groupby->aggregates); ++it) {
+			try_(_assign_expressions((*it)->args,
+			                         sources,
+			                         fql->props.strictness));
+			try_(aggregate_resolve(*it, (*it)->linked_expression));
+		}
+	}
+
 	/* Validate the expressions from the operation.
 	 * (e.g. expressions listed in SELECT).
 	 */
-- 
2.43.0


From c976e9501b241c8326b32d67381f4a2a05a556b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 59/71] fix: NOT in front of a predicate or condition is
 applied

---
 lib/antlr/listenerinterface.cpp | 21 ++++++++++++++++++---
 lib/query.c                     |  5 +++--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 62ea3b3..ccb6db3 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -868,6 +868,18 @@ void ListenerInterface::exitSubquery(TSqlParser::SubqueryContext * ctx)
 	}
 }
 
+/* NOT applies to everything down to the predicates */
+static bool _is_negated(antlr4::tree::ParseTree * tree)
+{
+	size_t count = 0;
+	auto* ctx = dynamic_cast<TSqlParser::Search_conditionContext*>(tree);
+	while (ctx != NULL) {
+		count += ctx->NOT().size();
+		ctx = dynamic_cast<TSqlParser::Search_conditionContext*>(ctx->parent);
+	}
+	return count % 2;
+}
+
 void ListenerInterface::enterSearch_condition(TSqlParser::Search_conditionContext * ctx)
 {
 	if (ctx->LR_BRACKET() && ctx->RR_BRACKET()) {
@@ -889,9 +901,11 @@ void ListenerInterface::enterSearch_condition(TSqlParser::Search_conditionContex
 			}
 		}
 	}
-	if (ctx->AND()) {
+	/* NOT (a AND b) is (NOT a) OR (NOT b) */
+	bool negated = _is_negated(ctx);
+	if (negated ? ctx->OR() : ctx->AND()) {
 		query_enter_search_and(_query);
-	} else if (ctx->OR()) {
+	} else if (negated ? ctx->AND() : ctx->OR()) {
 		query_enter_search_or(_query);
 	}
 }
@@ -908,7 +922,8 @@ void ListenerInterface::enterPredicate(TSqlParser::PredicateContext * ctx)
 		_no_impl(ctx->getText(), ctx->getRuleIndex());
 		return;
 	}
-	query_enter_predicate(_query, ctx->NOT().size(), (ctx->IN() != NULL));
+	unsigned negation = ctx->NOT().size() + _is_negated(ctx->parent);
+	query_enter_predicate(_query, negation, (ctx->IN() != NULL));
 }
 
 void ListenerInterface::exitPredicate(TSqlParser::PredicateContext * ctx)
diff --git a/lib/query.c b/lib/query.c
index 925309a..556e3bd 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -910,7 +910,8 @@ void query_set_logic_comparison(query* self, const char* op)
 void query_set_logic_isnull(query* self, bool negation)
 {
 	logicgroup* lg = self->logic_stack->data;
-	lg->negation = negation;
+	/* a NOT in front of the predicate is already here */
+	lg->negation = (lg->negation != negation);
 	logic* logic = lg->condition;
 	logic_set_comparison(logic, "NULL");
 }
@@ -986,7 +987,7 @@ void query_exit_predicate(query* self, bool in, bool like)
 	 * until all logic expressions have been resolved
 	 * to a source.
 	 */
-	if (self->logic_mode != LOGIC_HAVING && lg->condition != NULL
+	if (self->logic_mode != LOGIC_HAVING && lg->condition != NULL && !lg->negation
 	    && lg->condition->comp_type == COMP_EQ
 	    && lg->condition->expr[0]->expr != EXPR_CONST
 	    && lg->condition->expr[1]->expr != EXPR_CONST) {
-- 
2.43.0


From c6dc45c8cb05d9acb1cdb8596e71d83a9b608520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 60/71] fix: LIKE knows negated ranges and values of several
 lines

---
 lib/like.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/like.c b/lib/like.c
index 3d16bd0..c3af80c 100644
--- a/lib/like.c
+++ b/lib/like.c
@@ -61,6 +61,11 @@ void _extract_character_ranges(vec* ranges, string* likebuf)
 		char* b_end = vec_back(&bracketed);
 		vec_erase_one(&bracketed, b_end);
 
+		/* A leading ^ negates the range */
+		if (bracketed.size > 2 && strncmp(string_c_str(&bracketed), "\\^", 2) == 0) {
+			vec_erase_at(&bracketed, 0, 1);
+		}
+
 		/* Escaple all brackets left */
 		string_find_replace(&bracketed, "[", "\\[");
 		string_find_replace(&bracketed, "]", "\\]");
@@ -144,7 +149,7 @@ int like_to_regex(like* self, const stringview sql_like)
 	PCRE2_SIZE pcre_error_offset = 0;
 	self->regex = pcre2_compile((PCRE2_SPTR)string_c_str(&self->regex_buffer),
 	                            self->regex_buffer.size,
-	                            PCRE2_CASELESS,
+	                            PCRE2_CASELESS | PCRE2_DOTALL | PCRE2_DOLLAR_ENDONLY,
 	                            &pcre_error,
 	                            &pcre_error_offset,
 	                            NULL);
-- 
2.43.0


From 9c0e60862f4fa2b859372b202108c6d492246152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 61/71] fix: __rownum of a derived table counts its rows

---
 lib/fqlselect.c | 3 ++-
 lib/subquery.c  | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index cc7ba71..433b568 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -573,9 +573,10 @@ int _select_record_to_const(fqlselect* self, node* rg)
 /* This is correct.  The only reason this exists is
  * to take advantage of the fact that fql_select will
  * move through all unions via fqlselect_next_union.
+ * Whoever reads from us evaluates the expressions, it
+ * counts the rows as well.
  */
 int _select_subquery(fqlselect* self, node* rg)
 {
-	++self->rownum;
 	return FQL_GOOD;
 }
diff --git a/lib/subquery.c b/lib/subquery.c
index 6fbf456..8badce1 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -46,6 +46,8 @@ int _subquery_get_record(reader* reader, node* rg)
 	if (reader->random_access_file) {
 		rec->offset = ftello(reader->random_access_file);
 	}
+	++self->select->rownum;
+
 	expression** it = vec_begin(expressions);
 	for (; it != vec_end(expressions); ++it) {
 		stringview* copy_sv = vec_add_one(&self->copy_data.fields);
-- 
2.43.0


From 95c5b3395ec9009a14014077539bb18496bd379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 62/71] fix: a join condition on CASE or with its constant
 first is applied

CASE expressions had no side in a join condition, a second operand
mixing both sides was taken for the right side, and a constant compared
to the left side became the hash join's right key.
---
 lib/schema.c | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/lib/schema.c b/lib/schema.c
index 599c53a..4d27eb9 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -795,6 +795,24 @@ int _resolve_asterisk(vec* expressions, vec* sources)
 	return FQL_GOOD;
 }
 
+enum join_side _get_join_side(expression*, int right_idx);
+
+enum join_side _get_join_side_of_all(vec* exprs, enum join_side side0, int right_idx)
+{
+	expression** it = vec_begin(exprs);
+	for (; it != vec_end(exprs); ++it) {
+		enum join_side side1 = _get_join_side(*it, right_idx);
+		if (side0 == SIDE_UNDEF) {
+			side0 = side1;
+		} else if (side1 == SIDE_UNDEF) {
+			continue;
+		} else if (side0 != side1) {
+			return SIDE_MIXED;
+		}
+	}
+	return side0;
+}
+
 enum join_side _get_join_side(expression* expr, int right_idx)
 {
 	switch (expr->expr) {
@@ -808,21 +826,16 @@ enum join_side _get_join_side(expression* expr, int right_idx)
 			return (expr->subquery_src_idx < right_idx) ? SIDE_LEFT
 			                                            : SIDE_RIGHT;
 		}
-	case EXPR_FUNCTION: {
-		function* func = expr->field.fn;
-		expression** it = vec_begin(func->args);
-		enum join_side side0 = SIDE_UNDEF;
-		for (; it != vec_end(func->args); ++it) {
-			enum join_side side1 = _get_join_side(*it, right_idx);
-			if (side0 == SIDE_UNDEF) {
-				side0 = side1;
-			} else if (side1 == SIDE_UNDEF) {
-				continue;
-			} else if (side0 != side1) {
-				return SIDE_MIXED;
-			}
+	case EXPR_FUNCTION:
+		return _get_join_side_of_all(expr->field.fn->args, SIDE_UNDEF, right_idx);
+	case EXPR_SWITCH_CASE: {
+		switchcase* sc = expr->field.sc;
+		enum join_side side = _get_join_side_of_all(&sc->values, SIDE_UNDEF, right_idx);
+		logicgroup** it = vec_begin(&sc->tests);
+		for (; it != vec_end(&sc->tests); ++it) {
+			side = _get_join_side_of_all((*it)->expressions, side, right_idx);
 		}
-		return side0;
+		return side;
 	}
 	default:
 		return SIDE_UNDEF;
@@ -844,11 +857,14 @@ void _resolve_join_conditions(table* right_table, int right_idx)
 			continue;
 		}
 		enum join_side side1 = _get_join_side((*it)->expr[1], right_idx);
+		if (side1 == SIDE_MIXED) {
+			continue;
+		}
 		if (side0 != side1) {
 			if (!logic_can_be_false(right_table->condition, *it)) {
 				right_table->condition->join_logic = *it;
 				hashjoin* hj = new_(hashjoin);
-				if (side0 == SIDE_RIGHT) {
+				if (side0 == SIDE_RIGHT || side1 == SIDE_LEFT) {
 					hj->right_expr = (*it)->expr[0];
 					hj->left_expr = (*it)->expr[1];
 				} else {
-- 
2.43.0


From 179b91d0434de53649631f74c06d9302f7e5bc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 63/71] fix: ORDER BY an expression which is constant orders by
 it

The key was linked to the constant as if it were a column: reading it
took an ordinal for a string or some field of the record for the value.
---
 lib/order.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lib/order.c b/lib/order.c
index 705b2c5..87b5ebb 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -227,11 +227,6 @@ int order_preresolve_expressions(order* self, fqlselect* select, const vec* sour
 		if (result == NULL) {
 			continue;
 		}
-		if ((*result)->expr == EXPR_CONST) {
-			table* result_table = vec_at(sources, (*result)->src_idx);
-			expression_link(*it, *result, result_table);
-			continue;
-		}
 		(*it)->index = (*result)->index;
 		(*it)->expr = EXPR_REFERENCE;
 	}
-- 
2.43.0


From 2dc9a10d37ee0c5beb4647d34dbf09fabafba268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 64/71] fix: each WHEN of a simple CASE compares its own copy
 of the input

The copies shared their function (freed more than once), were not known
as variables, lost their __rownum and their side of a join.
---
 lib/antlr/listenerinterface.cpp |  8 +++--
 lib/expression.c                |  6 ++++
 lib/query.c                     | 55 ++++++++++++++++++++++++++++++++-
 3 files changed, 66 insertions(+), 3 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index ccb6db3..360d85b 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -1025,7 +1025,9 @@ void ListenerInterface::exitTop_count(TSqlParser::Top_countContext * ctx) { }
 
 void ListenerInterface::enterCase_expression(TSqlParser::Case_expressionContext* ctx)
 {
-	query_enter_case_expression(_query);
+	if (query_enter_case_expression(_query)) {
+		_set_failure();
+	}
 }
 void ListenerInterface::exitCase_expression(TSqlParser::Case_expressionContext* ctx)
 {
@@ -1034,7 +1036,9 @@ void ListenerInterface::exitCase_expression(TSqlParser::Case_expressionContext*
 
 void ListenerInterface::enterSwitch_section(TSqlParser::Switch_sectionContext* ctx)
 {
-	query_enter_switch_section(_query);
+	if (query_enter_switch_section(_query)) {
+		_set_failure();
+	}
 }
 void ListenerInterface::exitSwitch_section(TSqlParser::Switch_sectionContext* ctx)
 {
diff --git a/lib/expression.c b/lib/expression.c
index 2f0486e..6c6df3e 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -104,6 +104,12 @@ expression* expression_copy(const struct expression* src)
 	dest->expr = src->expr;
 	dest->field = src->field;
 	dest->field_type = src->field_type;
+	dest->rownum_ref = src->rownum_ref;
+	dest->location = src->location;
+	dest->subquery_src_idx = src->subquery_src_idx;
+	if (src->expr == EXPR_CONST && src->field_type == FIELD_STRING) {
+		dest->field.s = &dest->buf;
+	}
 
 	return dest;
 }
diff --git a/lib/query.c b/lib/query.c
index 556e3bd..040f6f6 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -861,6 +861,56 @@ int query_exit_case_expression(query* self)
 	return FQL_GOOD;
 }
 
+/* What a CASE compares is evaluated for each WHEN, so each needs its own */
+expression* _copy_static_expression(query* self, expression* src)
+{
+	if (src->expr == EXPR_SWITCH_CASE || src->expr == EXPR_SUBQUERY
+	    || src->expr == EXPR_AGGREGATE) {
+		fputs("unsupported expression as input of a CASE expression\n", stderr);
+		return NULL;
+	}
+
+	expression* dest = expression_copy(src);
+
+	if (src->expr == EXPR_VARIABLE) {
+		unsigned i = 0;
+		for (; i < self->variable_expressions->size; ++i) {
+			expression** var_expr = vec_at(self->variable_expressions, i);
+			if (*var_expr == src) {
+				int* idx = vec_at(self->variable_expr_indicies, i);
+				int var_idx = *idx;
+				vec_push_back(self->variable_expr_indicies, &var_idx);
+				vec_push_back(self->variable_expressions, &dest);
+				break;
+			}
+		}
+	}
+
+	if (src->expr != EXPR_FUNCTION) {
+		return dest;
+	}
+
+	function* src_fn = src->field.fn;
+	dest->field.fn = new_(function,
+	                      src_fn->type,
+	                      &dest->field_type,
+	                      src_fn->char_as_byte);
+	dest->field.fn->call__ = src_fn->call__; /* a cast's type */
+	dest->field_type = src->field_type;
+
+	expression** it = vec_begin(src_fn->args);
+	for (; it != vec_end(src_fn->args); ++it) {
+		expression* arg = _copy_static_expression(self, *it);
+		if (arg == NULL) {
+			delete_(expression, dest);
+			return NULL;
+		}
+		function_add_expression(dest->field.fn, arg);
+	}
+
+	return dest;
+}
+
 int query_enter_switch_section(query* self)
 {
 	switchcase* sc = self->switchcase_stack->data;
@@ -871,7 +921,10 @@ int query_enter_switch_section(query* self)
 		return FQL_FAIL;
 	}
 
-	expression* static_expr_copy = expression_copy(sc->static_expr);
+	expression* static_expr_copy = _copy_static_expression(self, sc->static_expr);
+	if (static_expr_copy == NULL) {
+		return FQL_FAIL;
+	}
 	//query_enter_search(self);
 	//query_enter_search_and(self);
 	query_enter_predicate(self, 0, false);
-- 
2.43.0


From a76086e02707d04b821dc0f11f2b0a939c70f0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:09 +0000
Subject: [PATCH 65/71] fix: GROUP BY tells expressions apart by all of their
 parts

Expressions were matched to groups without case or the conditions of
CASE, constants and variables were no valid parts, and the parts of a
matched expression were freed although the query refers to them.
---
 lib/expression.c |  4 +++
 lib/expression.h |  5 +++
 lib/query.c      |  1 +
 lib/schema.c     | 84 ++++++++++++++++++++++++++++++++++++++++++++++--
 4 files changed, 91 insertions(+), 3 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 6c6df3e..4ca9ea0 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -81,6 +81,10 @@ void expression_destroy(void* generic_expr)
 	case EXPR_SWITCH_CASE:
 		delete_(switchcase, self->field.sc);
 		break;
+	case EXPR_GROUPING:
+		delete_if_exists_(function, self->grouped_fn);
+		delete_if_exists_(switchcase, self->grouped_sc);
+		break;
 	default:;
 	}
 
diff --git a/lib/expression.h b/lib/expression.h
index 50eb0c2..42d30b4 100644
--- a/lib/expression.h
+++ b/lib/expression.h
@@ -34,6 +34,11 @@ struct expression {
 	//struct table* table;
 	struct expression* data_source;
 	struct query* subquery;
+	/* set once matched to a group (EXPR_GROUPING): the group's
+	 * value is used, but the query may still refer to its parts
+	 */
+	struct function* grouped_fn;
+	struct switchcase* grouped_sc;
 	unsigned* rownum_ref;
 	string name;
 	string alias;
diff --git a/lib/query.c b/lib/query.c
index 040f6f6..a520326 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -1065,6 +1065,7 @@ int _add_variable_expression_by_index(query* self, int idx)
 	variable* var = vec_at(self->fqlref->variables, idx);
 
 	expression* expr = new_(expression, EXPR_VARIABLE, NULL, "");
+	expr->location = idx;
 	switch (var->type) {
 	case SQL_INT:
 	case SQL_BIT:
diff --git a/lib/schema.c b/lib/schema.c
index 4d27eb9..dc8a65d 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -893,8 +893,59 @@ enum _expr_type {
 	MAP_FUNCTION_END,
 	MAP_SWITCHCASE,
 	MAP_SWITCHCASE_END,
+	MAP_VARIABLE,
+	MAP_NULL,
 };
 
+int _map_expression(vec* key, expression* expr);
+
+/* CASE expressions are only the same if their conditions are */
+int _map_logicgroup(vec* key, logicgroup* lg)
+{
+	stringview sv = {NULL, 0};
+	stringview_nset(&sv, &lg->type, sizeof(lg->type));
+	vec_push_back(key, &sv);
+	stringview_nset(&sv, &lg->negation, sizeof(lg->negation));
+	vec_push_back(key, &sv);
+
+	if (lg->condition != NULL) {
+		logic* condition = lg->condition;
+		stringview_nset(&sv, &condition->comp_type, sizeof(condition->comp_type));
+		vec_push_back(key, &sv);
+
+		int i = 0;
+		for (; i < 2; ++i) {
+			if (condition->expr[i] != NULL) {
+				try_(_map_expression(key, condition->expr[i]));
+			}
+		}
+
+		inlist* list = condition->in_data;
+		if (list != NULL && list->subquery != NULL) {
+			stringview_nset(&sv, &list->subquery, sizeof(list->subquery));
+			vec_push_back(key, &sv);
+		} else if (list != NULL) {
+			expression** it = vec_begin(list->expressions);
+			for (; it != vec_end(list->expressions); ++it) {
+				try_(_map_expression(key, *it));
+			}
+		}
+	}
+
+	int i = 0;
+	for (; i < 2; ++i) {
+		if (lg->items[i] != NULL) {
+			try_(_map_logicgroup(key, lg->items[i]));
+		}
+	}
+
+	static const int _logic_end = -2;
+	stringview_nset(&sv, &_logic_end, sizeof(_logic_end));
+	vec_push_back(key, &sv); /* SIGNIFY LOGIC END */
+
+	return FQL_GOOD;
+}
+
 int _map_expression(vec* key, expression* expr)
 {
 	static const enum _expr_type _c_int = MAP_CONST_INT;
@@ -908,6 +959,8 @@ int _map_expression(vec* key, expression* expr)
 	static const enum _expr_type _func_end = MAP_FUNCTION_END;
 	static const enum _expr_type _switchcase = MAP_SWITCHCASE;
 	static const enum _expr_type _switchcase_end = MAP_SWITCHCASE_END;
+	static const enum _expr_type _variable = MAP_VARIABLE;
+	static const enum _expr_type _null = MAP_NULL;
 
 	stringview type_sv = {NULL, sizeof(enum _expr_type)};
 	stringview val_sv;
@@ -950,6 +1003,13 @@ int _map_expression(vec* key, expression* expr)
 		                &expr->field.fn->type,
 		                sizeof(enum scalar_function));
 		vec_push_back(key, &val_sv);
+		if (expr->field.fn->type == SCALAR_CAST) {
+			/* this is where casts to different types differ */
+			stringview_nset(&val_sv,
+			                &expr->field.fn->call__,
+			                sizeof(expr->field.fn->call__));
+			vec_push_back(key, &val_sv);
+		}
 
 		expression** it = vec_begin(expr->field.fn->args);
 		for (; it != vec_end(expr->field.fn->args); ++it) {
@@ -977,6 +1037,11 @@ int _map_expression(vec* key, expression* expr)
 			try_(_map_expression(key, *it));
 		}
 
+		logicgroup** lg_iter = vec_begin(&expr->field.sc->tests);
+		for (; lg_iter != vec_end(&expr->field.sc->tests); ++lg_iter) {
+			try_(_map_logicgroup(key, *lg_iter));
+		}
+
 		type_sv.data = (void*)&_switchcase_end;
 		vec_push_back(key, &type_sv); /* SIGNIFY CASE EXPRESSION END */
 		break;
@@ -988,6 +1053,16 @@ int _map_expression(vec* key, expression* expr)
 		stringview_nset(&val_sv, &expr->subquery, sizeof(void*));
 		vec_push_back(key, &val_sv);
 		break;
+	case EXPR_VARIABLE:
+		type_sv.data = (void*)&_variable;
+		vec_push_back(key, &type_sv);
+		stringview_nset(&val_sv, &expr->location, sizeof(expr->location));
+		vec_push_back(key, &val_sv);
+		break;
+	case EXPR_NULL:
+		type_sv.data = (void*)&_null;
+		vec_push_back(key, &type_sv);
+		break;
 	case EXPR_ASTERISK:
 		type_sv.data = (void*)&_expr_aster;
 		vec_push_back(key, &type_sv);
@@ -1004,7 +1079,8 @@ int _map_expression(vec* key, expression* expr)
 
 int _op_find_group(compositemap* expr_map, expression* expr, vec* key, bool loose_groups)
 {
-	if (expr->expr == EXPR_CONST || expr->expr == EXPR_SUBQUERY) {
+	if (expr->expr == EXPR_CONST || expr->expr == EXPR_SUBQUERY
+	    || expr->expr == EXPR_VARIABLE || expr->expr == EXPR_NULL) {
 		return FQL_GOOD;
 	}
 
@@ -1023,7 +1099,9 @@ int _op_find_group(compositemap* expr_map, expression* expr, vec* key, bool loos
 			return FQL_GOOD;
 		}
 		if (expr->expr == EXPR_FUNCTION) {
-			delete_(function, expr->field.fn);
+			expr->grouped_fn = expr->field.fn;
+		} else if (expr->expr == EXPR_SWITCH_CASE) {
+			expr->grouped_sc = expr->field.sc;
 		}
 		expr->src_idx = 0;
 		expr->data_source = *result;
@@ -1080,7 +1158,7 @@ int _map_groups(struct fqlhandle* fql, query* query)
 	compositemap* expr_map = new_t_(compositemap,
 	                                expression*,
 	                                group_exprs->size * 2,
-	                                HASHMAP_PROP_NOCASE | HASHMAP_PROP_RTRIM);
+	                                HASHMAP_PROP_DEFAULT);
 	query->groupby->expr_map = expr_map;
 	vec key;
 	vec_construct_(&key, stringview);
-- 
2.43.0


From a669d47c462e3ac02711c66411e1ca74f5280d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:10 +0000
Subject: [PATCH 66/71] fix: the value of a CASE without a match is NULL to
 what uses it

It was the empty text or zero for operators, functions and IS NULL.
---
 lib/expression.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 4ca9ea0..113afc1 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -394,8 +394,7 @@ int expression_get_int(long* ret, expression* self, node* rg)
 		*ret = 0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
-		try_(switchcase_eval_to_int(self->field.sc, ret, rg));
-		return FQL_GOOD;
+		return switchcase_eval_to_int(self->field.sc, ret, rg);
 	case EXPR_ROW_NUMBER:
 		*ret = *self->rownum_ref;
 		return FQL_GOOD;
@@ -464,8 +463,7 @@ int expression_get_float(double* ret, expression* self, node* rg)
 		*ret = -0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
-		try_(switchcase_eval_to_float(self->field.sc, ret, rg));
-		return FQL_GOOD;
+		return switchcase_eval_to_float(self->field.sc, ret, rg);
 	case EXPR_ROW_NUMBER:
 		*ret = (double)*self->rownum_ref;
 		return FQL_GOOD;
@@ -534,8 +532,7 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 		ret->len = 0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
-		try_(switchcase_eval_to_stringview(self->field.sc, ret, rg));
-		return FQL_GOOD;
+		return switchcase_eval_to_stringview(self->field.sc, ret, rg);
 	case EXPR_FULL_RECORD: {
 		record* rec = record_at(rg, self->src_idx);
 		if (rec == NULL) {
-- 
2.43.0


From d49149e5498b2c7dd981ef9d9f386f6bfd095dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:37 +0000
Subject: [PATCH 67/71] fix: keys of nothing but spaces are equal, and any
 space is trimmed

A key without any other character kept its spaces, and only blanks were
trimmed where comparisons ignore any trailing space.
---
 util/hashmap.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/hashmap.c b/util/hashmap.c
index 9a4b2af..81a9a49 100644
--- a/util/hashmap.c
+++ b/util/hashmap.c
@@ -412,7 +412,7 @@ _hash_nocase(const hashmap* restrict self, const char* restrict key, unsigned* r
 uint64_t
 _hash_rtrim(const hashmap* restrict self, const char* restrict key, unsigned* restrict n)
 {
-	unsigned last_not_space_n = *n;
+	unsigned last_not_space_n = 0;
 	uint64_t hash = _FNV1_INIT;
 	uint64_t last_not_space_hash = hash;
 	char* keyptr = &self->_keybuf[self->_keybuf_head];
@@ -422,7 +422,7 @@ _hash_rtrim(const hashmap* restrict self, const char* restrict key, unsigned* re
 		*keyptr = key[i];
 		hash *= _PRIME;
 		hash ^= (uint64_t)*keyptr;
-		if (*keyptr != ' ') {
+		if (!isspace((unsigned char)*keyptr)) {
 			last_not_space_hash = hash;
 			last_not_space_n = i + 1;
 		}
@@ -436,7 +436,7 @@ uint64_t _hash_nocase_rtrim(const hashmap* restrict self,
                             const char* restrict key,
                             unsigned* restrict n)
 {
-	unsigned last_not_space_n = *n;
+	unsigned last_not_space_n = 0;
 	uint64_t hash = _FNV1_INIT;
 	uint64_t last_not_space_hash = hash;
 	char* keyptr = &self->_keybuf[self->_keybuf_head];
@@ -446,7 +446,7 @@ uint64_t _hash_nocase_rtrim(const hashmap* restrict self,
 		*keyptr = tolower(key[i]);
 		hash *= _PRIME;
 		hash ^= (uint64_t)*keyptr;
-		if (*keyptr != ' ') {
+		if (!isspace((unsigned char)*keyptr)) {
 			last_not_space_hash = hash;
 			last_not_space_n = i + 1;
 		}
-- 
2.43.0


From 5a4bfa40051e00e531768de589f6e1a385046682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:29 +0000
Subject: [PATCH 68/71] fix: columns of a fixed-width union are as wide in
 every row

---
 lib/fqlselect.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 433b568..cb46ffb 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -149,6 +149,11 @@ int fqlselect_resolve_final_types(fqlselect* self)
 			if (new_type != type2) {
 				try_(expression_cast(*expr2, new_type));
 			}
+			/* fixed-width columns are as wide in every row */
+			if (self->schema->write_io_type == IO_FIXED
+			    && (*expr1)->width != 0) {
+				(*expr2)->width = (*expr1)->width;
+			}
 		}
 	}
 
-- 
2.43.0


From 2976c3931e634c18456b62409d995d3e8e5ff11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:29 +0000
Subject: [PATCH 69/71] fix: IN with a subquery compares numbers as numbers and
 ignores NULL

---
 lib/fqlplan.c   |  5 ++++-
 lib/fqlselect.c | 23 +++++++++++++++++------
 lib/fqlselect.h |  3 ++-
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 148ce83..264f4e7 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -178,8 +178,11 @@ int _check_all_for_special_expression(plan* self, process* proc, vec* expression
 int _subquery_inlist(plan* self, process* logic_proc, logicgroup* lg)
 {
 	query* subquery = lg->condition->in_data->subquery;
+	/* The list holds values of the type they are compared as */
+	enum field_type type = inlist_determine_type(lg->condition->in_data,
+	                                             lg->condition->expr[0]);
 	/* We can assume select because subquery */
-	try_(fqlselect_set_as_inlist(subquery->op, lg->condition->in_data));
+	try_(fqlselect_set_as_inlist(subquery->op, lg->condition->in_data, type));
 	lg->condition->comp_type = COMP_SUBIN;
 	process_add_to_wait_list(logic_proc, subquery->plan->op_true->data);
 	return FQL_GOOD;
diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index cb46ffb..99a99d4 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -245,7 +245,7 @@ void fqlselect_apply_expression_alias(fqlselect* self, const char* alias)
 	schema_apply_expression_alias(self->schema, alias);
 }
 
-int fqlselect_set_as_inlist(fqlselect* self, inlist* inlist)
+int fqlselect_set_as_inlist(fqlselect* self, inlist* inlist, enum field_type type)
 {
 	if (self->schema->expressions->size == 1) {
 		expression** expr = vec_begin(self->schema->expressions);
@@ -257,7 +257,12 @@ int fqlselect_set_as_inlist(fqlselect* self, inlist* inlist)
 		fputs("Only one expression can be specified in subquery\n", stderr);
 		return FQL_FAIL;
 	}
-	inlist->list_data = new_(set, 16, HASHMAP_PROP_NOCASE | HASHMAP_PROP_RTRIM);
+	unsigned props = HASHMAP_PROP_DEFAULT; /* numbers are stored in binary */
+	if (type == FIELD_STRING) {
+		props = HASHMAP_PROP_NOCASE | HASHMAP_PROP_RTRIM;
+	}
+	inlist->list_data = new_(set, 16, props);
+	self->list_type = type;
 	self->list_data = inlist->list_data;
 	self->select__ = &_select_record_to_list;
 	return FQL_GOOD;
@@ -504,22 +509,28 @@ int _select_record_to_list(fqlselect* self, node* rg)
 	expression* expr =
 	        *(expression**)vec_begin(self->current_select->schema->expressions);
 
-	switch (expr->field_type) {
+	switch (self->list_type) {
 	case FIELD_INT: {
 		long num = 0;
-		try_(expression_get_int(&num, expr, rg));
+		if (try_(expression_get_int(&num, expr, rg)) == FQL_NULL) {
+			return 1; /* NULL equals nothing */
+		}
 		set_nadd(list, (char*)&num, sizeof(num));
 		return 1;
 	}
 	case FIELD_FLOAT: {
 		double num = 0;
-		try_(expression_get_float(&num, expr, rg));
+		if (try_(expression_get_float(&num, expr, rg)) == FQL_NULL) {
+			return 1;
+		}
 		set_nadd(list, (char*)&num, sizeof(num));
 		return 1;
 	}
 	case FIELD_STRING: {
 		stringview sv;
-		try_(expression_get_stringview(&sv, expr, rg));
+		if (try_(expression_get_stringview(&sv, expr, rg)) == FQL_NULL) {
+			return 1;
+		}
 		set_nadd(list, sv.data, sv.len);
 		return 1;
 	}
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index 4f004cc..eab4034 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -19,6 +19,7 @@ struct fqlselect {
 	struct schema* schema;
 	struct writer* writer;
 	set* list_data;
+	enum field_type list_type;
 	struct expression* const_dest;
 	struct node* union_selects;
 	struct node* _union_node;
@@ -44,7 +45,7 @@ void fqlselect_add_expression(struct fqlselect*, struct expression*);
 int fqlselect_connect_api(struct query*, struct vec*);
 void fqlselect_apply_process(struct query*, struct fqlplan*, bool);
 void fqlselect_apply_expression_alias(struct fqlselect*, const char* alias);
-int fqlselect_set_as_inlist(struct fqlselect*, struct inlist*);
+int fqlselect_set_as_inlist(struct fqlselect*, struct inlist*, enum field_type);
 int fqlselect_resolve_type_from_subquery(struct expression*);
 int fqlselect_resolve_final_types(struct fqlselect*);
 void fqlselect_verify_must_run(struct fqlselect*);
-- 
2.43.0


From e9e55979c886a2cd16c29969836c86149f6821ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 70/71] fix: the list of an IN subquery starts out empty every
 time

---
 lib/fqlselect.c | 3 +++
 util/hashmap.c  | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 99a99d4..3adb1d2 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -325,6 +325,9 @@ int fqlselect_reset(fqlselect* self)
 	if (self->const_dest != NULL) {
 		self->const_dest->expr = EXPR_SUBQUERY;
 	}
+	if (self->list_data != NULL) {
+		set_clear(self->list_data);
+	}
 
 	if (self->union_selects != NULL) {
 		self->_union_node = self->union_selects;
diff --git a/util/hashmap.c b/util/hashmap.c
index 81a9a49..3f5691e 100644
--- a/util/hashmap.c
+++ b/util/hashmap.c
@@ -74,6 +74,8 @@ void set_destroy(set* restrict self)
 void set_clear(set* restrict self)
 {
 	self->_keybuf_head = 0;
+	uintptr_t* size = (uintptr_t*)&self->values;
+	*size = 0;
 	memset(self->_entries, -1, sizeof(struct hm_entry) * self->_limit);
 }
 
-- 
2.43.0


From 81dc170fcdb14aa62f72754eccbb436a821cee43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:58 +0000
Subject: [PATCH 71/71] fix: a hash join does not match NULL keys

---
 lib/fqlprocesses.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 9c7fb76..d38cfd6 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -430,27 +430,30 @@ enum proc_return _hash_join_right_side(process* proc, table* table, fifo* in_rig
 	long int_hold = 0;
 	double float_hold = 0;
 	stringview sv;
+	int ret = FQL_GOOD;
 
 	node** rg_iter = fifo_begin(in_right);
 	for (; rg_iter != fifo_end(in_right); rg_iter = fifo_iter(in_right)) {
 		switch (hj->comp_type) {
 		case FIELD_INT:
-			try_(expression_get_int(&int_hold, hj->right_expr, *rg_iter));
+			ret = try_(expression_get_int(&int_hold, hj->right_expr, *rg_iter));
 			stringview_nset(&sv, &int_hold, sizeof(int_hold));
 			break;
 		case FIELD_FLOAT:
-			try_(expression_get_float(&float_hold, hj->right_expr, *rg_iter));
+			ret = try_(expression_get_float(&float_hold, hj->right_expr, *rg_iter));
 			stringview_nset(&sv, &float_hold, sizeof(float_hold));
 			break;
 		case FIELD_STRING:
-			try_(expression_get_stringview(&sv, hj->right_expr, *rg_iter));
+			ret = try_(expression_get_stringview(&sv, hj->right_expr, *rg_iter));
 			break;
 		default:
 			return PROC_RETURN_FAIL;
 		}
 
 		record* rec = (*rg_iter)->data;
-		multimap_nset(hj->hash_data, sv.data, &rec->offset, sv.len);
+		if (ret != FQL_NULL) { /* NULL never equals anything */
+			multimap_nset(hj->hash_data, sv.data, &rec->offset, sv.len);
+		}
 
 		fqlprocess_recycle(proc, rg_iter);
 		_fqlprocess_print_iter_states(proc, rec->node_idx);
@@ -468,22 +471,27 @@ long _hash_join_left_side(process* proc, table* table, node* left_rg)
 		long int_hold = 0;
 		double float_hold = 0;
 		stringview sv;
+		int ret = FQL_GOOD;
 		switch (hj->comp_type) {
 		case FIELD_INT:
-			try_(expression_get_int(&int_hold, hj->left_expr, left_rg));
+			ret = try_(expression_get_int(&int_hold, hj->left_expr, left_rg));
 			stringview_nset(&sv, &int_hold, sizeof(int_hold));
 			break;
 		case FIELD_FLOAT:
-			try_(expression_get_float(&float_hold, hj->left_expr, left_rg));
+			ret = try_(expression_get_float(&float_hold, hj->left_expr, left_rg));
 			stringview_nset(&sv, &float_hold, sizeof(float_hold));
 			break;
 		case FIELD_STRING:
-			try_(expression_get_stringview(&sv, hj->left_expr, left_rg));
+			ret = try_(expression_get_stringview(&sv, hj->left_expr, left_rg));
 			break;
 		default:
 			return FQL_FAIL;
 		}
 
+		if (ret == FQL_NULL) {
+			return -1;
+		}
+
 		hj->recs = multimap_nget(hj->hash_data, sv.data, sv.len);
 		if (hj->recs == NULL) {
 			return -1;
-- 
2.43.0

