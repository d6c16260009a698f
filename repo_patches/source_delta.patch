From 51cbe8a71d4e2dfa078341812a1a1b0dbf4034b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:39 +0000
Subject: [PATCH 01/93] fix: report a failure to add a row to a where result

---
 libmsi/where.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmsi/where.c b/libmsi/where.c
index f0a3082..dff9ee3 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -617,7 +617,9 @@ static unsigned check_condition( LibmsiWhereView *wv, LibmsiRecord *record, JOIN
             {
                 if (r != LIBMSI_RESULT_SUCCESS)
                     break;
-                add_row (wv, table_rows);
+                r = add_row(wv, table_rows);
+                if (r != LIBMSI_RESULT_SUCCESS)
+                    break;
             }
         }
     }
-- 
2.43.0


From 0d24edb147dea24049d92b005e8358f9ff9dc3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:39 +0000
Subject: [PATCH 02/93] fix: where view execution keeps the failures of its
 tables and condition

---
 libmsi/where.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmsi/where.c b/libmsi/where.c
index dff9ee3..2c4b292 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -777,7 +777,9 @@ static unsigned where_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     do
     {
-        table->view->ops->execute(table->view, NULL);
+        r = table->view->ops->execute(table->view, NULL);
+        if (r != LIBMSI_RESULT_SUCCESS)
+            return r;
 
         r = table->view->ops->get_dimensions(table->view, &table->row_count, NULL);
         if (r != LIBMSI_RESULT_SUCCESS)
@@ -805,7 +807,7 @@ static unsigned where_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     qsort(wv->reorder, wv->row_count, sizeof(LibmsiRowEntry *), compare_entry);
 
-    if (wv->order_info)
+    if (wv->order_info && r == LIBMSI_RESULT_SUCCESS)
         r = wv->order_info->error;
 
     msi_free( rows );
-- 
2.43.0


From b5f5de8de737b66b1de322f794cad65db682bfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:39 +0000
Subject: [PATCH 03/93] fix: updating a joined row stops at the first table
 that fails

---
 libmsi/where.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmsi/where.c b/libmsi/where.c
index 2c4b292..1d221f1 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -332,6 +332,9 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
             r = table->view->ops->set_row(table->view, rows[table->table_index], reduced, reduced_mask);
 
         g_object_unref(reduced);
+
+        if (r != LIBMSI_RESULT_SUCCESS)
+            break;
     }
     while ((table = table->next));
     return r;
-- 
2.43.0


From 4a913e19c48cf5559e9afadeb1bbfefaf82e1466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:39 +0000
Subject: [PATCH 04/93] fix: string comparison reports a failure to read its
 operands

---
 libmsi/where.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmsi/where.c b/libmsi/where.c
index 1d221f1..6931495 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -519,10 +519,10 @@ static unsigned expr_eval_strcmp( LibmsiWhereView *wv, const unsigned rows[], co
 
     *val = true;
     r = expr_eval_string(wv, rows, expr->left, record, &l_str);
-    if (r == LIBMSI_RESULT_CONTINUE)
+    if (r != LIBMSI_RESULT_SUCCESS)
         return r;
     r = expr_eval_string(wv, rows, expr->right, record, &r_str);
-    if (r == LIBMSI_RESULT_CONTINUE)
+    if (r != LIBMSI_RESULT_SUCCESS)
         return r;
 
     if( l_str == r_str ||
-- 
2.43.0


From 61e21386cb731f12d149c5c8d06d1c719e263720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 05/93] fix: DELETE removes the rows that match instead of
 every other one

---
 libmsi/delete.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libmsi/delete.c b/libmsi/delete.c
index 3a3623c..478ba63 100644
--- a/libmsi/delete.c
+++ b/libmsi/delete.c
@@ -85,9 +85,10 @@ static unsigned delete_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     TRACE("deleting %d rows\n", rows);
 
-    /* blank out all the rows that match */
-    for ( i=0; i<rows; i++ )
-        dv->table->ops->delete_row( dv->table, i );
+    /* blank out all the rows that match, last one first: deleting a row
+     * moves the ones that follow it */
+    for ( i=rows; i>0; i-- )
+        dv->table->ops->delete_row( dv->table, i - 1 );
 
     return LIBMSI_RESULT_SUCCESS;
 }
-- 
2.43.0


From 0cd04d4c7573dcac8065433cffa1c194b23d8289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 06/93] fix: DELETE reports a row that could not be deleted

---
 libmsi/delete.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmsi/delete.c b/libmsi/delete.c
index 478ba63..94c4204 100644
--- a/libmsi/delete.c
+++ b/libmsi/delete.c
@@ -88,7 +88,11 @@ static unsigned delete_view_execute( LibmsiView *view, LibmsiRecord *record )
     /* blank out all the rows that match, last one first: deleting a row
      * moves the ones that follow it */
     for ( i=rows; i>0; i-- )
-        dv->table->ops->delete_row( dv->table, i - 1 );
+    {
+        r = dv->table->ops->delete_row( dv->table, i - 1 );
+        if( r != LIBMSI_RESULT_SUCCESS )
+            return r;
+    }
 
     return LIBMSI_RESULT_SUCCESS;
 }
-- 
2.43.0


From 8d5753ea36ae748e15c400e68c7173f9fab839c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:56 +0000
Subject: [PATCH 07/93] fix: UPDATE checks the copy of the where markers

---
 libmsi/update.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libmsi/update.c b/libmsi/update.c
index 95effb4..70681d6 100644
--- a/libmsi/update.c
+++ b/libmsi/update.c
@@ -68,15 +68,21 @@ static unsigned update_view_execute( LibmsiView *view, LibmsiRecord *record )
             i++;
 
         cols_count = i;
-        where_count = r - i;
+        where_count = r > i ? r - i : 0;
 
         if (where_count > 0)
         {
             where = libmsi_record_new(where_count);
 
             if (where)
+            {
                 for (i = 1; i <= where_count; i++)
-                    _libmsi_record_copy_field(record, cols_count + i, where, i);
+                {
+                    r = _libmsi_record_copy_field(record, cols_count + i, where, i);
+                    if (r != LIBMSI_RESULT_SUCCESS)
+                        goto done;
+                }
+            }
         }
     }
 
-- 
2.43.0


From ed7bac8cefd9f5ea0a38e6d181babb25f9a4a18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:56 +0000
Subject: [PATCH 08/93] fix: a delete view can be asked for its columns only

---
 libmsi/delete.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmsi/delete.c b/libmsi/delete.c
index 94c4204..70f50ee 100644
--- a/libmsi/delete.c
+++ b/libmsi/delete.c
@@ -118,7 +118,8 @@ static unsigned delete_view_get_dimensions( LibmsiView *view, unsigned *rows, un
     if( !dv->table )
          return LIBMSI_RESULT_FUNCTION_FAILED;
 
-    *rows = 0;
+    if( rows )
+        *rows = 0;
 
     return dv->table->ops->get_dimensions( dv->table, NULL, cols );
 }
-- 
2.43.0


From 014d646a8ff7a29d13197bcc3035b956759a8c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:56 +0000
Subject: [PATCH 09/93] fix: INSERT and UPDATE fail when the values cannot be
 put together

---
 libmsi/insert.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libmsi/insert.c b/libmsi/insert.c
index 11edffe..fc64c41 100644
--- a/libmsi/insert.c
+++ b/libmsi/insert.c
@@ -80,7 +80,8 @@ LibmsiRecord *msi_query_merge_record( unsigned fields, const column_info *vl, Li
         case EXPR_WILDCARD:
             if( !rec )
                 goto err;
-            _libmsi_record_copy_field( rec, wildcard_count, merged, i );
+            if( _libmsi_record_copy_field( rec, wildcard_count, merged, i ) != LIBMSI_RESULT_SUCCESS )
+                goto err;
             wildcard_count++;
             break;
         default:
@@ -156,7 +157,9 @@ static unsigned msi_arrange_record(LibmsiInsertView *iv, LibmsiRecord **values)
 
             if (!strcmp( a, b ))
             {
-                _libmsi_record_copy_field(*values, colidx, padded, i);
+                r = _libmsi_record_copy_field(*values, colidx, padded, i);
+                if (r != LIBMSI_RESULT_SUCCESS)
+                    goto err;
                 break;
             }
         }
@@ -223,7 +226,10 @@ static unsigned insert_view_execute( LibmsiView *view, LibmsiRecord *record )
      */
     values = msi_query_merge_record( col_count, iv->vals, record );
     if( !values )
+    {
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
         goto err;
+    }
 
     r = msi_arrange_record( iv, &values );
     if( r != LIBMSI_RESULT_SUCCESS )
-- 
2.43.0


From 7be117b2d37a207f52f39c2f008bc5e45526b927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 10/93] fix: dropping a database opened for direct editing does
 not delete it

---
 libmsi/libmsi-database.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index e0c68cc..fdcdd40 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -630,7 +630,8 @@ LibmsiResult _libmsi_database_start_transaction(LibmsiDatabase *db)
     if( !db->outpath )
     {
         strcpy( path, db->path );
-        if (db->flags & LIBMSI_DB_FLAGS_TRANSACT)
+        /* an existing file is only replaced by a commit */
+        if (!(db->flags & LIBMSI_DB_FLAGS_CREATE))
 	{
             strcat( path, ".tmp" );
             db->rename_outpath = true;
-- 
2.43.0


From eebd8dd1619cbd1539b6e2b3caf25be289c4eb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 11/93] fix: opening a database with a very long path does not
 overflow the stack

---
 libmsi/libmsi-database.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index fdcdd40..fded56e 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -621,7 +621,6 @@ LibmsiResult _libmsi_database_start_transaction(LibmsiDatabase *db)
     GsfOutput *out;
     GsfOutfile *stg = NULL;
     char *tmpfile = NULL;
-    char path[PATH_MAX];
 
     if (db->flags & LIBMSI_DB_FLAGS_READONLY)
         return LIBMSI_RESULT_SUCCESS;
@@ -629,14 +628,15 @@ LibmsiResult _libmsi_database_start_transaction(LibmsiDatabase *db)
     db->rename_outpath = false;
     if( !db->outpath )
     {
-        strcpy( path, db->path );
+        const char *suffix = "";
+
         /* an existing file is only replaced by a commit */
         if (!(db->flags & LIBMSI_DB_FLAGS_CREATE))
 	{
-            strcat( path, ".tmp" );
+            suffix = ".tmp";
             db->rename_outpath = true;
 	}
-        db->outpath = strdup(path);
+        db->outpath = g_strconcat(db->path, suffix, NULL);
     }
 
     TRACE("%p %s\n", db, db->outpath);
-- 
2.43.0


From 863a9cf1542664d6dfadd5408f4177f0296b5f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:58 +0000
Subject: [PATCH 12/93] fix: commit reports a file that cannot be completed,
 replaced or reopened

---
 libmsi/libmsi-database.c | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index fded56e..9bf51f3 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -23,6 +23,7 @@
 #include <unistd.h>
 #include <fcntl.h>
 #include <sys/stat.h>
+#include <glib/gstdio.h>
 
 #include "libmsi-enums.h"
 #include "libmsi-database.h"
@@ -575,6 +576,8 @@ void append_storage_to_db( LibmsiDatabase *db, GsfInfile *stg )
 
 LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed)
 {
+    LibmsiResult ret = LIBMSI_RESULT_SUCCESS;
+
     TRACE("%p %d\n", db, committed);
 
     if ( db->strings )
@@ -591,7 +594,12 @@ LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed)
 
     if ( db->outfile )
     {
-        gsf_output_close(GSF_OUTPUT(db->outfile));
+        /* an incomplete file must not replace the original */
+        if (!gsf_output_close(GSF_OUTPUT(db->outfile)) && committed)
+        {
+            ret = LIBMSI_RESULT_FUNCTION_FAILED;
+            committed = false;
+        }
         g_object_unref(G_OBJECT(db->outfile));
         db->outfile = NULL;
     }
@@ -603,8 +611,8 @@ LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed)
             unlink( db->outpath );
             msi_free( db->outpath );
         } else if (db->rename_outpath) {
-            unlink(db->path);
-            rename(db->outpath, db->path);
+            if (g_rename(db->outpath, db->path) != 0)
+                ret = LIBMSI_RESULT_FUNCTION_FAILED;
             msi_free( db->outpath );
         } else {
             msi_free( db->path );
@@ -612,7 +620,7 @@ LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed)
         }
     }
     db->outpath = NULL;
-    return LIBMSI_RESULT_SUCCESS;
+    return ret;
 }
 
 LibmsiResult _libmsi_database_start_transaction(LibmsiDatabase *db)
@@ -2420,11 +2428,21 @@ libmsi_database_commit (LibmsiDatabase *db, GError **error)
 
     /* FIXME: unlock the database */
 
-    _libmsi_database_close(db, true);
+    r = _libmsi_database_close(db, true);
+    if (r != LIBMSI_RESULT_SUCCESS) {
+        g_set_error (error, LIBMSI_RESULT_ERROR, r,
+                     "failed to write database r=%08x\n", r);
+        goto end;
+    }
+
     db->flags &= ~LIBMSI_DB_FLAGS_CREATE;
     db->flags |= LIBMSI_DB_FLAGS_TRANSACT;
-    _libmsi_database_open(db);
-    _libmsi_database_start_transaction(db);
+    r = _libmsi_database_open(db);
+    if (r == LIBMSI_RESULT_SUCCESS)
+        r = _libmsi_database_start_transaction(db);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        g_set_error (error, LIBMSI_RESULT_ERROR, r,
+                     "failed to reopen database r=%08x\n", r);
 
 end:
     g_object_unref(db);
-- 
2.43.0


From 0a72beb6c9e0a2aa7a09ad10f958ce4bdf84eb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 13/93] fix: a table stream that cannot be named or closed
 fails the commit

---
 libmsi/table.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 5e0a6f8..60f34c0 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -326,6 +326,8 @@ unsigned write_stream_data( LibmsiDatabase *db, const char *stname,
         return ret;
 
     encname = encode_streamname(true, stname );
+    if( !encname )
+        return ret;
 
     stm = gsf_outfile_new_child( db->outfile, encname, false );
     msi_free( encname );
@@ -344,7 +346,8 @@ unsigned write_stream_data( LibmsiDatabase *db, const char *stname,
     ret = LIBMSI_RESULT_SUCCESS;
 
 end:
-    gsf_output_close(GSF_OUTPUT(stm));
+    if (! gsf_output_close(GSF_OUTPUT(stm)) )
+        ret = LIBMSI_RESULT_FUNCTION_FAILED;
     g_object_unref(G_OBJECT(stm));
     return ret;
 }
-- 
2.43.0


From 09264ccd98818419b065b1f0291717ecd63887a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 14/93] fix: reading a table stream does not leak its name or
 use a missing one

---
 libmsi/table.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 60f34c0..26a1044 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -261,13 +261,15 @@ unsigned read_stream_data( GsfInfile *stg, const char *stname,
     GsfInput *stm = NULL;
     char *encname;
 
+    if ( !stg )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
     encname = encode_streamname(true, stname);
+    if ( !encname )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
 
     TRACE("%s -> %s\n",debugstr_a(stname),debugstr_a(encname));
 
-    if ( !stg )
-        return LIBMSI_RESULT_FUNCTION_FAILED;
-
     stm = gsf_infile_child_by_name(stg, encname );
     msi_free(encname);
     if( !stm )
-- 
2.43.0


From a56bf24f2afe28628a693c73d94b9a42d2446343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 15/93] fix: creating a table reports every failure

---
 libmsi/table.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 26a1044..de0370a 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -802,9 +802,11 @@ unsigned msi_create_table( LibmsiDatabase *db, const char *name, column_info *co
     if( !rec )
         goto err;
 
-    r = libmsi_record_set_string( rec, 1, name );
-    if (!r)
+    if (!libmsi_record_set_string( rec, 1, name ))
+    {
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
         goto err;
+    }
 
     r = tv->ops->insert_row( tv, rec, -1, persistent == LIBMSI_CONDITION_FALSE );
     TRACE("insert_row returned %x\n", r);
@@ -822,7 +824,7 @@ unsigned msi_create_table( LibmsiDatabase *db, const char *name, column_info *co
         /* add each column to the _Columns table */
         r = table_view_create( db, szColumns, &tv );
         if( r )
-            return r;
+            goto err;
 
         r = tv->ops->execute( tv, 0 );
         TRACE("tv execute returned %x\n", r);
@@ -834,7 +836,10 @@ unsigned msi_create_table( LibmsiDatabase *db, const char *name, column_info *co
             goto err;
 
         if (!libmsi_record_set_string( rec, 1, name ))
+        {
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
             goto err;
+        }
 
         /*
          * need to set the table, column number, col name and type
@@ -846,7 +851,10 @@ unsigned msi_create_table( LibmsiDatabase *db, const char *name, column_info *co
             if (!libmsi_record_set_int (rec, 2, nField) ||
                 !libmsi_record_set_string (rec, 3, col->column) ||
                 !libmsi_record_set_int(rec, 4, col->type))
+            {
+                r = LIBMSI_RESULT_FUNCTION_FAILED;
                 goto err;
+            }
 
             r = tv->ops->insert_row( tv, rec, -1, false );
             if( r )
-- 
2.43.0


From 39a2ac0bd806a6f74d625ada7978595af22e2f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 16/93] fix: saving a table with temporary rows does not
 overflow its buffer

---
 libmsi/table.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index de0370a..c56c697 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -906,12 +906,12 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
     {
         if (!t->data_persistent[i])
         {
-            row_count = 1; /* yes, this is bizarre */
+            row_count = i; /* only the rows before it are saved */
             break;
         }
     }
     rawsize = row_count * row_size;
-    rawdata = msi_alloc_zero( rawsize );
+    rawdata = msi_alloc_zero( rawsize ? rawsize : 1 );
     if( !rawdata )
     {
         r = LIBMSI_RESULT_NOT_ENOUGH_MEMORY;
-- 
2.43.0


From 08cc1b2843e96c4f8347f57185a60a62031a0b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 17/93] fix: a row whose values are refused is not left in the
 table

---
 libmsi/table.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index c56c697..acca350 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1639,6 +1639,8 @@ static int find_insert_index( LibmsiTableView *tv, LibmsiRecord *rec )
     return high + 1;
 }
 
+static unsigned table_view_delete_row( LibmsiView *view, unsigned row );
+
 static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsigned row, bool temporary )
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
@@ -1669,7 +1671,11 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
 
     /* Re-set the persistence flag */
     tv->table->data_persistent[row] = !temporary;
-    return table_view_set_row( view, row, rec, (1<<tv->num_cols) - 1 );
+    r = table_view_set_row( view, row, rec, (1<<tv->num_cols) - 1 );
+    if( r != LIBMSI_RESULT_SUCCESS )
+        table_view_delete_row( view, row );
+
+    return r;
 }
 
 static unsigned table_view_delete_row( LibmsiView *view, unsigned row )
-- 
2.43.0


From 0e62f19800bf59d1e330add36ac04591c6f51efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 18/93] fix: fetching a missing stream does not touch an unset
 pointer

---
 libmsi/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index acca350..797498b 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1186,7 +1186,7 @@ static unsigned table_view_fetch_stream( LibmsiView *view, unsigned row, unsigne
     if( r )
         g_critical("fetching stream %s, error = %d\n",debugstr_a(full_name), r);
 
-    if (*stm)
+    if (r == LIBMSI_RESULT_SUCCESS)
         g_object_set_data_full (G_OBJECT (*stm), "stname", full_name, g_free);
     else
         msi_free( full_name );
-- 
2.43.0


From ea5f190c5f71d939e56cf18b85f9a2b064ddca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 19/93] fix: adding a stream reports a query that cannot be
 opened

---
 libmsi/table.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 797498b..eed4b8e 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1257,21 +1257,28 @@ static unsigned _libmsi_add_stream( LibmsiDatabase *db, const char *name, GsfInp
         return LIBMSI_RESULT_OUTOFMEMORY;
 
     if (!libmsi_record_set_string(rec, 1, name))
+    {
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
         goto err;
+    }
 
     r = _libmsi_record_set_gsf_input( rec, 2, data );
     if ( r != LIBMSI_RESULT_SUCCESS )
        goto err;
 
     query = libmsi_query_new (db, insert, &err);
-    if (err)
+    if (!query)
+    {
         r = err->code;
-    g_clear_error (&err);
+        g_clear_error (&err);
+        goto err;
+    }
 
     r = _libmsi_query_execute( query, rec );
 
 err:
-    g_object_unref(query);
+    if (query)
+        g_object_unref(query);
     g_object_unref(rec);
     return r;
 }
-- 
2.43.0


From 3289268d8fd54807e8854fa6843013a81f3600db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 20/93] fix: committing needs the table of tables

---
 libmsi/table.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index eed4b8e..cc6fcae 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2067,15 +2067,17 @@ unsigned _libmsi_database_commit_tables( LibmsiDatabase *db, unsigned bytes_per_
     TRACE("%p\n",db);
 
     /* Ensure the Tables stream is written.  */
-    get_table( db, szTables, &t );
+    r = get_table( db, szTables, &t );
+    if( r != LIBMSI_RESULT_SUCCESS )
+        return r;
 
     LIST_FOR_EACH_ENTRY_SAFE( table, table2, &db->tables, LibmsiTable, entry )
     {
         r = get_table( db, table->name, &t );
         if( r != LIBMSI_RESULT_SUCCESS )
         {
-            g_warning("failed to load table %s (r=%08x)\n",
-                  debugstr_a(table->name), r);
+            /* the table has been freed */
+            g_warning("failed to load table (r=%08x)\n", r);
             return r;
         }
         r = save_table( db, table, bytes_per_strref );
-- 
2.43.0


From 827f1f63b663442f7e804caa66a3a29212ff27cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 21/93] fix: strings longer than 64k are loaded as they were
 saved

---
 libmsi/string.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index 0b20c0b..328b9bd 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -533,7 +533,13 @@ string_table *msi_load_string_table( GsfInfile *stg, unsigned *bytes_per_strref
          */
         if (GUINT16_FROM_LE(pool[i*2]) == 0)
         {
-            len = (GUINT16_FROM_LE(pool[i*2+3]) << 16) + GUINT16_FROM_LE(pool[i*2+2]);
+            if (i + 1 >= count)
+            {
+                g_critical("string table corrupt?\n");
+                break;
+            }
+            len = (refs << 16) + GUINT16_FROM_LE(pool[i*2+2]);
+            refs = GUINT16_FROM_LE(pool[i*2+3]);
             i += 2;
         }
         else
-- 
2.43.0


From d0d04438584fef413be138b61330fcc63a967398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 22/93] fix: a string the code page cannot hold fails the
 commit instead of being dropped

---
 libmsi/string.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index 328b9bd..5fe4998 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -387,9 +387,12 @@ static unsigned _libmsi_string_id( const string_table *st, unsigned id, char *bu
     cpconv = gsf_msole_iconv_open_codepage_for_export(codepage);
     str = g_convert_with_iconv(str_utf8, -1, cpconv, NULL, &len, NULL);
     g_iconv_close(cpconv);
+    if( !str )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
     if( *sz < len )
     {
         *sz = len;
+        msi_free(str);
         return LIBMSI_RESULT_MORE_DATA;
     }
     *sz = len;
@@ -457,7 +460,9 @@ static void string_totalsize( const string_table *st, unsigned *datasize, unsign
             cpconv = gsf_msole_iconv_open_codepage_for_export(codepage);
             str = g_convert_with_iconv( st->strings[i].str, -1, cpconv, NULL, &len, NULL);
             g_iconv_close(cpconv);
-	    msi_free(str);
+            if( !str )
+                len = 0; /* reported when the string is saved */
+            msi_free(str);
             (*datasize) += len;
             if (len>0xffff)
                 (*poolsize) += 4;
@@ -631,8 +636,8 @@ unsigned msi_save_string_table( const string_table *st, LibmsiDatabase *db, unsi
         r = _libmsi_string_id( st, n, data+used, &sz );
         if( r != LIBMSI_RESULT_SUCCESS )
         {
-            g_critical("failed to fetch string\n");
-            sz = 0;
+            g_warning("failed to save string %u\n", n);
+            goto err;
         }
 
         if (sz == 0) {
-- 
2.43.0


From 043a162dfdd15fde62217977de5a88d1b4fad63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 23/93] fix: storing a string or comparing it reports failures

---
 libmsi/table.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index cc6fcae..eb4130b 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1391,10 +1391,14 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
                     const char *sval = _libmsi_record_get_string_raw( rec, i + 1 );
                     val = _libmsi_add_string( tv->db->strings, sval, -1, 1,
                       persistent ? StringPersistent : StringNonPersistent );
+                    if ( (int)val < 0 )
+                        return LIBMSI_RESULT_FUNCTION_FAILED;
                 }
                 else
                 {
-                    table_view_fetch_int(&tv->view, row, i + 1, &x);
+                    r = table_view_fetch_int(&tv->view, row, i + 1, &x);
+                    if ( r != LIBMSI_RESULT_SUCCESS )
+                        return r;
                     if (val == x)
                         continue;
                 }
-- 
2.43.0


From 82a00c618b5b457e2136691eaee6a25b4298a446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:48 +0000
Subject: [PATCH 24/93] fix: rows of _Streams and _Storages are checked against
 the number of rows

---
 libmsi/storages.c | 4 ++--
 libmsi/streams.c  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmsi/storages.c b/libmsi/storages.c
index 3914305..d0d51ec 100644
--- a/libmsi/storages.c
+++ b/libmsi/storages.c
@@ -119,7 +119,7 @@ static unsigned storages_view_set_row(LibmsiView *view, unsigned row, LibmsiReco
 
     TRACE("(%p, %p)\n", view, rec);
 
-    if (row > sv->num_rows)
+    if (row >= sv->num_rows)
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     r = _libmsi_record_get_gsf_input(rec, 2, &stm);
@@ -178,7 +178,7 @@ static unsigned storages_view_delete_row(LibmsiView *view, unsigned row)
     const char *name;
     unsigned i;
 
-    if (row > sv->num_rows)
+    if (row >= sv->num_rows)
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     name = msi_string_lookup_id(sv->db->strings, sv->storages[row]->str_index);
diff --git a/libmsi/streams.c b/libmsi/streams.c
index 025e53c..4e9fb9a 100644
--- a/libmsi/streams.c
+++ b/libmsi/streams.c
@@ -134,7 +134,7 @@ static unsigned streams_view_set_row(LibmsiView *view, unsigned row, LibmsiRecor
 
     TRACE("(%p, %d, %p, %08x)\n", view, row, rec, mask);
 
-    if (row > sv->num_rows)
+    if (row >= sv->num_rows)
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     r = _libmsi_record_get_gsf_input(rec, 2, &stm);
@@ -211,7 +211,7 @@ static unsigned streams_view_delete_row(LibmsiView *view, unsigned row)
     char *encname;
     unsigned i;
 
-    if (row > sv->num_rows)
+    if (row >= sv->num_rows)
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     name = msi_string_lookup_id(sv->db->strings, sv->streams[row]->str_index);
-- 
2.43.0


From b02b996bff4464bcbf1da3b49e8cc8be0f0f1631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:48 +0000
Subject: [PATCH 25/93] fix: storing a stream or storage that fails is reported

---
 libmsi/storages.c | 16 +++++++++++-----
 libmsi/streams.c  | 11 +++++++++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/libmsi/storages.c b/libmsi/storages.c
index d0d51ec..486bc9e 100644
--- a/libmsi/storages.c
+++ b/libmsi/storages.c
@@ -143,12 +143,18 @@ static unsigned storages_view_set_row(LibmsiView *view, unsigned row, LibmsiReco
         goto done;
     }
 
-    msi_create_storage(sv->db, name, stm);
-    storage = create_storage(sv, name);
-    if (!storage)
-        r = LIBMSI_RESULT_FUNCTION_FAILED;
+    r = msi_create_storage(sv->db, name, stm);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        goto done;
 
-    sv->storages[row] = storage;
+    if (!sv->storages[row])
+    {
+        storage = create_storage(sv, name);
+        if (!storage)
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
+
+        sv->storages[row] = storage;
+    }
 
 done:
     msi_free(name);
diff --git a/libmsi/streams.c b/libmsi/streams.c
index 4e9fb9a..fd11015 100644
--- a/libmsi/streams.c
+++ b/libmsi/streams.c
@@ -154,6 +154,7 @@ static unsigned streams_view_set_row(LibmsiView *view, unsigned row, LibmsiRecor
         if (!name)
         {
             g_warning("failed to retrieve stream name\n");
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
             goto done;
         }
 
@@ -161,14 +162,20 @@ static unsigned streams_view_set_row(LibmsiView *view, unsigned row, LibmsiRecor
     }
 
     if (!stream)
+    {
+        r = LIBMSI_RESULT_OUTOFMEMORY;
         goto done;
+    }
 
     r = msi_create_stream(sv->db, name, stm);
     if (r != LIBMSI_RESULT_SUCCESS)
     {
         g_warning("failed to create stream: %08x\n", r);
-        g_object_unref(G_OBJECT(stream->stream));
-        msi_free(stream);
+        if (!sv->streams[row])
+        {
+            g_object_unref(G_OBJECT(stream->stream));
+            msi_free(stream);
+        }
         goto done;
     }
 
-- 
2.43.0


From 60b3ee5af6eedb20def64e76279418aa7b5fd422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:48 +0000
Subject: [PATCH 26/93] fix: a new _Storages row does not start from
 uninitialised memory

---
 libmsi/storages.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmsi/storages.c b/libmsi/storages.c
index 486bc9e..dc3c21e 100644
--- a/libmsi/storages.c
+++ b/libmsi/storages.c
@@ -49,8 +49,9 @@ static bool storages_set_table_size(LibmsiStorageView *sv, unsigned size)
 {
     if (size >= sv->max_storages)
     {
+        sv->storages = msi_realloc_zero(sv->storages, sv->max_storages * sizeof(STORAGE *),
+                                        sv->max_storages * 2 * sizeof(STORAGE *));
         sv->max_storages *= 2;
-        sv->storages = msi_realloc(sv->storages, sv->max_storages * sizeof(STORAGE *));
         if (!sv->storages)
             return false;
     }
-- 
2.43.0


From e31797d9f3f5ff6004cb69cbf0a448f936bd3793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:48 +0000
Subject: [PATCH 27/93] fix: the last matching row of _Storages is found

---
 libmsi/storages.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/storages.c b/libmsi/storages.c
index dc3c21e..d5a8f37 100644
--- a/libmsi/storages.c
+++ b/libmsi/storages.c
@@ -300,7 +300,7 @@ static unsigned storages_view_find_matching_rows(LibmsiView *view, unsigned col,
     }
 
     *handle = (MSIITERHANDLE)(uintptr_t)++index;
-    if (index >= sv->num_rows)
+    if (index > sv->num_rows)
         return NO_MORE_ITEMS;
 
     return LIBMSI_RESULT_SUCCESS;
-- 
2.43.0


From d744a6170ad2a98749c7189ca59cd9f432864d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:48 +0000
Subject: [PATCH 28/93] fix: deleting a stream or storage releases what it held

---
 libmsi/libmsi-database.c | 2 ++
 libmsi/storages.c        | 3 ++-
 libmsi/streams.c         | 8 +++++++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 9bf51f3..e3c846f 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -316,6 +316,7 @@ void msi_destroy_storage( LibmsiDatabase *db, const char *stname )
 
             list_remove( &storage->entry );
             g_object_unref(G_OBJECT(storage->stg));
+            msi_free( storage->name );
             msi_free( storage );
             break;
         }
@@ -526,6 +527,7 @@ void msi_destroy_stream( LibmsiDatabase *db, const char *stname )
 
             list_remove( &stream->entry );
             g_object_unref(G_OBJECT(stream->stm));
+            msi_free( stream->name );
             msi_free( stream );
             break;
         }
diff --git a/libmsi/storages.c b/libmsi/storages.c
index d5a8f37..50aa031 100644
--- a/libmsi/storages.c
+++ b/libmsi/storages.c
@@ -196,13 +196,14 @@ static unsigned storages_view_delete_row(LibmsiView *view, unsigned row)
     }
 
     msi_destroy_storage(sv->db, name);
+    msi_free(sv->storages[row]);
 
     /* shift the remaining rows */
     for (i = row + 1; i < sv->num_rows; i++)
     {
         sv->storages[i - 1] = sv->storages[i];
     }
-    sv->num_rows--;
+    sv->storages[--sv->num_rows] = NULL;
 
     return LIBMSI_RESULT_SUCCESS;
 }
diff --git a/libmsi/streams.c b/libmsi/streams.c
index fd11015..01ed206 100644
--- a/libmsi/streams.c
+++ b/libmsi/streams.c
@@ -229,14 +229,20 @@ static unsigned streams_view_delete_row(LibmsiView *view, unsigned row)
     }
 
     encname = encode_streamname(false, name);
+    if (!encname)
+        return LIBMSI_RESULT_OUTOFMEMORY;
     msi_destroy_stream(sv->db, encname);
+    msi_free(encname);
+
+    g_object_unref(G_OBJECT(sv->streams[row]->stream));
+    msi_free(sv->streams[row]);
 
     /* shift the remaining rows */
     for (i = row + 1; i < sv->num_rows; i++)
     {
         sv->streams[i - 1] = sv->streams[i];
     }
-    sv->num_rows--;
+    sv->streams[--sv->num_rows] = NULL;
 
     return LIBMSI_RESULT_SUCCESS;
 }
-- 
2.43.0


From c9ac6329ecb90197aa99af952ad2803f7e8372ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 29/93] fix: a storage that cannot be read is an error

---
 libmsi/libmsi-database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index e3c846f..708d8c7 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -249,7 +249,7 @@ unsigned msi_create_storage( LibmsiDatabase *db, const char *stname, GsfInput *s
     LibmsiStorage *storage;
     GsfInfile *origstg = NULL;
     bool found = false;
-    unsigned r;
+    unsigned r = LIBMSI_RESULT_FUNCTION_FAILED;
 
     if (db->flags & LIBMSI_DB_FLAGS_READONLY)
         return LIBMSI_RESULT_ACCESS_DENIED;
-- 
2.43.0


From a3bfee2a76cf93007e57951f4a4c38cdaa41e7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 30/93] fix: a stream that cannot be rewound is not handed out

---
 libmsi/libmsi-database.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 708d8c7..235c403 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -482,7 +482,11 @@ unsigned clone_infile_stream( LibmsiDatabase *db, const char *name, GsfInput **s
             return LIBMSI_RESULT_FUNCTION_FAILED;
         }
 
-        gsf_input_seek( stream, 0, G_SEEK_SET );
+        if( gsf_input_seek( stream, 0, G_SEEK_SET ) )
+        {
+            g_object_unref(G_OBJECT(stream));
+            return LIBMSI_RESULT_FUNCTION_FAILED;
+        }
         *stm = stream;
         return LIBMSI_RESULT_SUCCESS;
     }
-- 
2.43.0


From 48d07dbcc87bb7b59c589711d608438562626b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 31/93] fix: commit reports streams and storages that cannot be
 completed

---
 libmsi/libmsi-database.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 235c403..e0b5d3c 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2346,7 +2346,8 @@ static unsigned commit_storage( const char *name, GsfInfile *stg, void *opaque)
     ret = LIBMSI_RESULT_SUCCESS;
 
 end:
-    gsf_output_close(GSF_OUTPUT(outstg));
+    if ( !gsf_output_close(GSF_OUTPUT(outstg)) )
+        ret = LIBMSI_RESULT_FUNCTION_FAILED;
     g_object_unref(G_OBJECT(outstg));
     return ret;
 }
@@ -2365,15 +2366,17 @@ static unsigned commit_stream( const char *name, GsfInput *stm, void *opaque)
     if ( !outstm )
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
-    gsf_input_seek (stm, 0, G_SEEK_SET);
-    gsf_output_seek (outstm, 0, G_SEEK_SET);
+    if ( gsf_input_seek (stm, 0, G_SEEK_SET) ||
+         !gsf_output_seek (outstm, 0, G_SEEK_SET) )
+        goto end;
     if ( !gsf_input_copy( stm, outstm ))
         goto end;
 
     ret = LIBMSI_RESULT_SUCCESS;
 
 end:
-    gsf_output_close(GSF_OUTPUT(outstm));
+    if ( !gsf_output_close(GSF_OUTPUT(outstm)) )
+        ret = LIBMSI_RESULT_FUNCTION_FAILED;
     g_object_unref(G_OBJECT(outstm));
     return ret;
 }
-- 
2.43.0


From f6afda34993fdfe744e5363fb636f9183c8b2178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 32/93] fix: copying a storage fails when one of its children
 is missing

---
 libmsi/libmsi-database.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index e0b5d3c..7b28e9b 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2315,13 +2315,21 @@ static int gsf_infile_copy(GsfInfile *inf, GsfOutfile *outf)
         GsfOutput *dest = gsf_outfile_new_child(outf, name, is_dir);
         gboolean ok;
 
-        if (is_dir)
+        if (!child || !dest)
+            ok = FALSE;
+        else if (is_dir)
             ok = gsf_infile_copy(childf, GSF_OUTFILE(dest));
         else
             ok = gsf_input_copy(child, dest);
 
-        g_object_unref(G_OBJECT(child));
-        g_object_unref(G_OBJECT(dest));
+        if (child)
+            g_object_unref(G_OBJECT(child));
+        if (dest)
+        {
+            if (!gsf_output_close(dest))
+                ok = FALSE;
+            g_object_unref(G_OBJECT(dest));
+        }
         if (!ok)
             return false;
     }
-- 
2.43.0


From 6e956f62bb06bc83d93a3d371cb42d01ba522aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 33/93] fix: a transform that is not a structured storage is
 refused

---
 libmsi/libmsi-database.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 7b28e9b..4d12725 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2250,6 +2250,11 @@ unsigned _libmsi_database_apply_transform( LibmsiDatabase *db,
     }
     stg = gsf_infile_msole_new( in, NULL );
     g_object_unref(G_OBJECT(in));
+    if( !stg )
+    {
+        g_warning("open failed for transform %s\n", debugstr_a(szTransformFile));
+        return LIBMSI_RESULT_OPEN_FAILED;
+    }
 
     if( !gsf_infile_msole_get_class_id (GSF_INFILE_MSOLE(stg), uuid))
     {
-- 
2.43.0


From 93a968555752906c05831db6452ed5bc01d730c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 34/93] fix: failing to get primary keys returns NULL

---
 libmsi/libmsi-database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 4d12725..e256016 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2556,7 +2556,7 @@ libmsi_database_get_primary_keys (LibmsiDatabase *db,
                                   const char *table,
                                   GError **error)
 {
-    LibmsiRecord *rec;
+    LibmsiRecord *rec = NULL;
     unsigned r;
 
     TRACE("%p %s\n", db, debugstr_a(table));
-- 
2.43.0


From cd9721fecbce5da91df4ea89ad280e3675adf2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 35/93] fix: failing to open a database sets the error

---
 libmsi/libmsi-database.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index e256016..c742885 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2618,8 +2618,12 @@ init (LibmsiDatabase *self, GError **error)
     if (self->flags & LIBMSI_DB_FLAGS_CREATE) {
         self->strings = msi_init_string_table (&self->bytes_per_strref);
     } else {
-        if (_libmsi_database_open(self))
+        ret = _libmsi_database_open (self);
+        if (ret) {
+            g_set_error (error, LIBMSI_RESULT_ERROR, ret,
+                         "failed to open database %s", self->path);
             return FALSE;
+        }
     }
 
     self->media_transform_offset = MSI_INITIAL_MEDIA_TRANSFORM_OFFSET;
@@ -2629,6 +2633,9 @@ init (LibmsiDatabase *self, GError **error)
         enum_stream_names (self->infile);
 
     ret = _libmsi_database_start_transaction (self);
+    if (ret)
+        g_set_error (error, LIBMSI_RESULT_ERROR, ret,
+                     "failed to open %s for writing", self->outpath);
 
     return !ret;
 }
-- 
2.43.0


From 91968fff070f995a9ad0398c95c7a68a0e5f785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 36/93] fix: importing rejects archives it cannot store and
 bounds its buffers

---
 libmsi/libmsi-database.c | 41 +++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index c742885..024085b 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -701,7 +701,7 @@ static char *msi_read_text_archive(const char *path, unsigned *len)
     if (!g_file_get_contents(path, &data, &nread, NULL))
         return NULL;
 
-    while (!data[nread - 1]) nread--;
+    while (nread && !data[nread - 1]) nread--;
     *len = nread;
     return data;
 }
@@ -798,8 +798,8 @@ static char *msi_build_createsql_columns(char **columns_data, char **types, unsi
     char *p;
     const char *type;
     unsigned sql_size = 1, i, len;
-    char expanded[128], *ptr;
-    char size[10], comma[2], extra[30];
+    char *expanded, *ptr;
+    char *size, comma[2], extra[30];
 
     static const char column_fmt[] = "`%s` %s%s%s%s ";
     static const char size_fmt[] = "(%s)";
@@ -817,7 +817,8 @@ static char *msi_build_createsql_columns(char **columns_data, char **types, unsi
     for (i = 0; i < num_columns; i++)
     {
         type = NULL;
-        comma[1] = size[0] = extra[0] = '\0';
+        size = NULL;
+        comma[1] = extra[0] = '\0';
 
         if (i == num_columns - 1)
             comma[0] = '\0';
@@ -836,14 +837,14 @@ static char *msi_build_createsql_columns(char **columns_data, char **types, unsi
             case 'L':
                 strcat(extra, localizable);
                 type = type_char;
-                sprintf(size, size_fmt, ptr);
+                size = g_strdup_printf(size_fmt, ptr);
                 break;
             case 's':
                 strcpy(extra, type_notnull);
                 /* fall through */
             case 'S':
                 type = type_char;
-                sprintf(size, size_fmt, ptr);
+                size = g_strdup_printf(size_fmt, ptr);
                 break;
             case 'i':
                 strcpy(extra, type_notnull);
@@ -872,18 +873,21 @@ static char *msi_build_createsql_columns(char **columns_data, char **types, unsi
                 return NULL;
         }
 
-        sprintf(expanded, column_fmt, columns_data[i], type, size, extra, comma);
+        expanded = g_strdup_printf(column_fmt, columns_data[i], type, size ? size : "", extra, comma);
+        g_free(size);
         sql_size += strlen(expanded);
 
         p = msi_realloc(columns, sql_size * sizeof(char));
         if (!p)
         {
+            g_free(expanded);
             msi_free(columns);
             return NULL;
         }
         columns = p;
 
         strcat(columns, expanded);
+        g_free(expanded);
     }
 
     return columns;
@@ -899,6 +903,9 @@ static char *msi_build_createsql_postlude(char **primary_keys, unsigned num_keys
     static const char key_fmt[] = "`%s`, ";
     static const char postlude_fmt[] = "PRIMARY KEY %s)";
 
+    if (!num_keys)
+        return NULL;
+
     for (i = 0, size = 1; i < num_keys; i++)
         size += strlen(key_fmt) + strlen(primary_keys[i]) - 2;
 
@@ -1004,7 +1011,10 @@ static unsigned construct_record(unsigned num_columns, char **types,
                     r = _libmsi_record_load_stream_from_file(*rec, i + 1, file);
                     g_free (file);
                     if (r != LIBMSI_RESULT_SUCCESS)
+                    {
+                        g_object_unref(*rec);
                         return LIBMSI_RESULT_FUNCTION_FAILED;
+                    }
                 }
                 break;
             default:
@@ -1032,7 +1042,13 @@ static unsigned msi_add_records_to_table(LibmsiDatabase *db, char **columns, cha
 
     r = view->ops->get_dimensions( view, &num_rows, &num_cols );
     if (r != LIBMSI_RESULT_SUCCESS)
-        return r;
+        goto done;
+
+    if (num_columns > num_cols)
+    {
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
+        goto done;
+    }
 
     while (num_rows > 0)
     {
@@ -1070,6 +1086,7 @@ static unsigned _libmsi_database_import(LibmsiDatabase *db, const char *path)
     unsigned num_types = 0;
     unsigned num_columns = 0;
     unsigned num_records = 0;
+    unsigned num_fields = 0;
     char **columns = NULL;
     char **types = NULL;
     char **labels = NULL;
@@ -1115,9 +1132,15 @@ static unsigned _libmsi_database_import(LibmsiDatabase *db, const char *path)
     /* read in the table records */
     while (len)
     {
-        msi_parse_line( &ptr, &records[num_records], NULL, &len );
+        msi_parse_line( &ptr, &records[num_records], &num_fields, &len );
 
         num_records++;
+        if (num_fields < num_columns)
+        {
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
+            goto done;
+        }
+
         temp_records = msi_realloc(records, (num_records + 1) * sizeof(char **));
         if (!temp_records)
         {
-- 
2.43.0


From eebbb79b53548a47df045cf06770ebeb594e1139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 37/93] fix: exporting reports headers and streams that could
 not be written

---
 libmsi/libmsi-database.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 024085b..ba2719e 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1237,14 +1237,19 @@ msi_export_stream (GsfInput *gsfin, GFile *table_dir, gchar **str,
     if (!g_file_make_directory_with_parents (table_dir, NULL, &err) &&
         !g_error_matches (err, G_IO_ERROR, G_IO_ERROR_EXISTS)) {
         g_propagate_error (error, err);
+        err = NULL;
         goto end;
     }
 
     *str = g_strdup (g_object_get_data (G_OBJECT (gsfin), "stname"));
     file = g_file_get_child (table_dir, *str);
-    out = G_OUTPUT_STREAM (g_file_replace (file, NULL, FALSE, 0, NULL, error));
-    in = G_INPUT_STREAM (libmsi_istream_new (gsfin));
-    spliced = g_output_stream_splice (out, in, 0, NULL, NULL);
+    out = (GOutputStream *) g_file_replace (file, NULL, FALSE, 0, NULL, error);
+    if (!out)
+        goto end;
+    in = (GInputStream *) libmsi_istream_new (gsfin);
+    if (!in)
+        goto end;
+    spliced = g_output_stream_splice (out, in, G_OUTPUT_STREAM_SPLICE_CLOSE_TARGET, NULL, error);
 
 end:
     g_clear_error (&err);
@@ -1268,12 +1273,14 @@ static unsigned msi_export_record(int fd, LibmsiRecord *row,
 
     count = libmsi_record_get_field_count (row);
     for (i = start; i <= count; i++) {
-        char *str;
+        char *str = NULL;
 
         _libmsi_record_get_gsf_input (row, i, &in);
         if (in) {
-            if (!msi_export_stream (in, table_dir, &str, error))
+            if (!msi_export_stream (in, table_dir, &str, error)) {
+                g_free (str);
                 goto end;
+            }
             g_object_unref (in);
             in = NULL;
         } else {
@@ -1396,26 +1403,32 @@ static LibmsiResult _libmsi_database_export(LibmsiDatabase *db, const char *tabl
         r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_NAMES, &rec);
         if (r == LIBMSI_RESULT_SUCCESS)
         {
-            msi_export_record( fd, rec, 1, NULL, error);
+            r = msi_export_record( fd, rec, 1, NULL, error);
             g_object_unref(rec);
         }
+        if (r != LIBMSI_RESULT_SUCCESS)
+            goto done;
 
         /* write out row 2, the column types */
         r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_TYPES, &rec);
         if (r == LIBMSI_RESULT_SUCCESS)
         {
-            msi_export_record( fd, rec, 1, NULL, error);
+            r = msi_export_record( fd, rec, 1, NULL, error);
             g_object_unref(rec);
         }
+        if (r != LIBMSI_RESULT_SUCCESS)
+            goto done;
 
         /* write out row 3, the table name + keys */
         r = _libmsi_database_get_primary_keys( db, table, &rec );
         if (r == LIBMSI_RESULT_SUCCESS)
         {
             libmsi_record_set_string( rec, 0, table );
-            msi_export_record( fd, rec, 0, NULL, error);
+            r = msi_export_record( fd, rec, 0, NULL, error);
             g_object_unref(rec);
         }
+        if (r != LIBMSI_RESULT_SUCCESS)
+            goto done;
 
         /* write out row 4 onwards, the data */
         ExportRow export = {
@@ -1426,6 +1439,7 @@ static LibmsiResult _libmsi_database_export(LibmsiDatabase *db, const char *tabl
         r = _libmsi_query_iterate_records( view, 0, msi_export_row, &export);
 
         g_object_unref (export.table_dir);
+done:
         g_object_unref (view);
     }
 
-- 
2.43.0


From 5d8b192a54139721173989f874d00ccbae389dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 38/93] fix: merging reports every failure and releases only
 what it holds

---
 libmsi/libmsi-database.c | 58 +++++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index ba2719e..da0d58c 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1544,7 +1544,10 @@ static unsigned merge_verify_colnames(LibmsiQuery *dbview, LibmsiQuery *mergevie
 
     r = _libmsi_query_get_column_info(mergeview, LIBMSI_COL_INFO_NAMES, &mergerec);
     if (r != LIBMSI_RESULT_SUCCESS)
+    {
+        g_object_unref(dbrec);
         return r;
+    }
 
     count = libmsi_record_get_field_count(dbrec);
     for (i = 1; i <= count; i++)
@@ -1569,7 +1572,10 @@ static unsigned merge_verify_colnames(LibmsiQuery *dbview, LibmsiQuery *mergevie
 
     r = _libmsi_query_get_column_info(mergeview, LIBMSI_COL_INFO_TYPES, &mergerec);
     if (r != LIBMSI_RESULT_SUCCESS)
+    {
+        g_object_unref(dbrec);
         return r;
+    }
 
     count = libmsi_record_get_field_count(dbrec);
     for (i = 1; i <= count; i++)
@@ -1624,7 +1630,8 @@ static unsigned merge_verify_primary_keys(LibmsiDatabase *db, LibmsiDatabase *me
 
 done:
     g_object_unref(dbrec);
-    g_object_unref(mergerec);
+    if (mergerec)
+        g_object_unref(mergerec);
 
     return r;
 }
@@ -1633,21 +1640,24 @@ static char *get_key_value(LibmsiQuery *view, const char *key, LibmsiRecord *rec
 {
     LibmsiRecord *colnames;
     char *str;
-    unsigned r, i = 0;
-    int cmp;
+    unsigned r, i = 0, count;
+    int cmp = 1;
 
     r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_NAMES, &colnames);
     if (r != LIBMSI_RESULT_SUCCESS)
         return NULL;
 
-    do
+    count = libmsi_record_get_field_count(colnames);
+    while (cmp && i < count)
     {
         str = msi_dup_record_field(colnames, ++i);
-        cmp = strcmp( key, str );
+        cmp = !str || strcmp( key, str );
         msi_free(str);
-    } while (cmp);
+    }
 
     g_object_unref(colnames);
+    if (cmp)
+        return NULL;
 
     if (_libmsi_record_get_string_raw(rec, i))  /* check record field is a string */
         /* quote string record fields */
@@ -1678,11 +1688,18 @@ static char *create_diff_row_query(LibmsiDatabase *merge, LibmsiQuery *view,
     {
         key = _libmsi_record_get_string_raw(keys, i);
         val = get_key_value(view, key, rec);
+        if (!val)
+        {
+            g_object_unref(keys);
+            g_string_free (query, TRUE);
+            return NULL;
+        }
 
         if (i == count)
             g_string_append_printf (query, "`%s` = %s", key, val);
         else
             g_string_append_printf (query, "`%s` = %s AND ", key, val);
+        g_free (val);
     }
 
     g_object_unref(keys);
@@ -1707,8 +1724,11 @@ static unsigned merge_diff_row(LibmsiRecord *rec, void *param)
             return LIBMSI_RESULT_OUTOFMEMORY;
 
         dbview = libmsi_query_new(data->db, query, &err);
-        if (err)
+        if (!dbview)
+        {
+            r = LIBMSI_RESULT_BAD_QUERY_SYNTAX;
             goto done;
+        }
 
         r = _libmsi_query_execute(dbview, NULL);
         if (r != LIBMSI_RESULT_SUCCESS)
@@ -1748,8 +1768,10 @@ done:
         g_critical("%s", err->message);
     g_clear_error(&err);
     msi_free(query);
-    g_object_unref(row);
-    g_object_unref(dbview);
+    if (row)
+        g_object_unref(row);
+    if (dbview)
+        g_object_unref(dbview);
     return r;
 }
 
@@ -1848,7 +1870,7 @@ static void merge_free_rows(MERGETABLE *table)
         MERGEROW *row = LIST_ENTRY(item, MERGEROW, entry);
 
         list_remove(&row->entry);
-        g_object_unref(row);
+        g_object_unref(row->data);
         msi_free(row);
     }
 }
@@ -1901,6 +1923,7 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
        *ptable = NULL;
        return LIBMSI_RESULT_OUTOFMEMORY;
     }
+    list_init(&table->rows);
 
     r = msi_get_table_labels(db, name, &table->labels, &table->numlabels);
     if (r != LIBMSI_RESULT_SUCCESS)
@@ -1918,8 +1941,6 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
     if (r != LIBMSI_RESULT_SUCCESS)
         goto err;
 
-    list_init(&table->rows);
-
     table->name = strdup(name);
     table->numconflicts = 0;
 
@@ -1928,7 +1949,8 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
     return LIBMSI_RESULT_SUCCESS;
 
 err:
-    g_object_unref(mergeview);
+    if (mergeview)
+        g_object_unref(mergeview);
     free_merge_table(table);
     *ptable = NULL;
     return r;
@@ -1982,8 +2004,10 @@ static unsigned merge_diff_tables(LibmsiRecord *rec, void *param)
     list_add_tail(data->tabledata, &table->entry);
 
 done:
-    g_object_unref(dbview);
-    g_object_unref(mergeview);
+    if (dbview)
+        g_object_unref(dbview);
+    if (mergeview)
+        g_object_unref(mergeview);
     return r;
 }
 
@@ -2112,6 +2136,10 @@ libmsi_database_merge (LibmsiDatabase *db,
         {
             conflicts = true;
 
+            /* there may be no table to report the conflicts in */
+            if (!tablename)
+                continue;
+
             r = update_merge_errors(db, tablename, table->name,
                                     table->numconflicts);
             if (r != LIBMSI_RESULT_SUCCESS)
-- 
2.43.0


From 162575bbcaedbe39744dca4590be620264c09e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 39/93] fix: query functions report the failures of their steps

---
 libmsi/alter.c        | 10 +++++-----
 libmsi/libmsi-query.c | 39 ++++++++++++++++++++++++---------------
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/libmsi/alter.c b/libmsi/alter.c
index 0c7a21c..e5e57d9 100644
--- a/libmsi/alter.c
+++ b/libmsi/alter.c
@@ -120,11 +120,11 @@ static unsigned alter_add_column(LibmsiAlterView *av)
     {
         r = _libmsi_query_iterate_records(view, NULL, count_iter, &colnum);
         g_object_unref(view);
-        if (r != LIBMSI_RESULT_SUCCESS)
-        {
-            columns->ops->delete(columns);
-            return r;
-        }
+    }
+    if (r != LIBMSI_RESULT_SUCCESS)
+    {
+        columns->ops->delete(columns);
+        return r;
     }
     r = columns->ops->add_column(columns, av->colinfo->table,
                                  colnum, av->colinfo->column,
diff --git a/libmsi/libmsi-query.c b/libmsi/libmsi-query.c
index 759613c..dff2a95 100644
--- a/libmsi/libmsi-query.c
+++ b/libmsi/libmsi-query.c
@@ -270,8 +270,11 @@ LibmsiRecord *_libmsi_query_get_record( LibmsiDatabase *db, const char *fmt, ...
 
     if( r == LIBMSI_RESULT_SUCCESS )
     {
-        _libmsi_query_execute( view, NULL );
-        _libmsi_query_fetch( view, &rec );
+        r = _libmsi_query_execute( view, NULL );
+        if( r == LIBMSI_RESULT_SUCCESS )
+            r = _libmsi_query_fetch( view, &rec );
+        if( r != LIBMSI_RESULT_SUCCESS )
+            rec = NULL;
         libmsi_query_close( view, &error );
         if (error) {
             g_critical ("%s", error->message);
@@ -308,7 +311,7 @@ unsigned msi_view_get_row(LibmsiDatabase *db, LibmsiView *view, unsigned row, Li
         if (ret)
         {
             g_critical("Error getting column type for %d\n", i);
-            continue;
+            goto fail;
         }
 
         if (MSITYPE_IS_BINARY(type))
@@ -318,8 +321,10 @@ unsigned msi_view_get_row(LibmsiDatabase *db, LibmsiView *view, unsigned row, Li
             ret = view->ops->fetch_stream(view, row, i, &stm);
             if ((ret == LIBMSI_RESULT_SUCCESS) && stm)
             {
-                _libmsi_record_set_gsf_input(*rec, i, stm);
+                ret = _libmsi_record_set_gsf_input(*rec, i, stm);
                 g_object_unref(G_OBJECT(stm));
+                if (ret)
+                    goto fail;
             }
             else
                 g_warning("failed to get stream\n");
@@ -331,7 +336,7 @@ unsigned msi_view_get_row(LibmsiDatabase *db, LibmsiView *view, unsigned row, Li
         if (ret)
         {
             g_critical("Error fetching data for %d\n", i);
-            continue;
+            goto fail;
         }
 
         if (! (type & MSITYPE_VALID))
@@ -358,6 +363,11 @@ unsigned msi_view_get_row(LibmsiDatabase *db, LibmsiView *view, unsigned row, Li
     }
 
     return LIBMSI_RESULT_SUCCESS;
+
+fail:
+    g_object_unref(*rec);
+    *rec = NULL;
+    return ret;
 }
 
 LibmsiResult _libmsi_query_fetch(LibmsiQuery *query, LibmsiRecord **prec)
@@ -434,12 +444,10 @@ libmsi_query_close (LibmsiQuery *query, GError **error)
 
     g_object_ref(query);
     view = query->view;
-    if( !view )
-        return LIBMSI_RESULT_FUNCTION_FAILED;
-    if( !view->ops->close )
-        return LIBMSI_RESULT_FUNCTION_FAILED;
-
-    ret = view->ops->close( view );
+    if( view && view->ops->close )
+        ret = view->ops->close( view );
+    else
+        ret = LIBMSI_RESULT_FUNCTION_FAILED;
     g_object_unref(query);
 
     /* FIXME: raise error when it happens */
@@ -487,8 +495,6 @@ libmsi_query_execute (LibmsiQuery *query, LibmsiRecord *rec, GError **error)
     g_return_val_if_fail (!rec || LIBMSI_IS_RECORD (rec), FALSE);
     g_return_val_if_fail (!error || *error == NULL, FALSE);
 
-    if( !query )
-        return LIBMSI_RESULT_INVALID_HANDLE;
     g_object_ref(query);
 
     if( rec )
@@ -573,7 +579,10 @@ LibmsiResult _libmsi_query_get_column_info( LibmsiQuery *query, LibmsiColInfo in
         name = NULL;
         r = view->ops->get_column_info( view, i+1, &name, &type, &temporary, NULL );
         if( r != LIBMSI_RESULT_SUCCESS )
-            continue;
+        {
+            g_object_unref( rec );
+            return r;
+        }
         if (info == LIBMSI_COL_INFO_NAMES)
             libmsi_record_set_string( rec, i+1, name );
         else
@@ -597,7 +606,7 @@ LibmsiResult _libmsi_query_get_column_info( LibmsiQuery *query, LibmsiColInfo in
 LibmsiRecord *
 libmsi_query_get_column_info (LibmsiQuery *query, LibmsiColInfo info, GError **error)
 {
-    LibmsiRecord *rec;
+    LibmsiRecord *rec = NULL;
     unsigned r;
 
     TRACE("%p %d\n", query, info);
-- 
2.43.0


From 5279fc787fa9bfcaf068ba41d21838d53e57012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:30 +0000
Subject: [PATCH 40/93] fix: record and stream functions report failures and
 set their error

---
 libmsi/libmsi-istream.c | 15 ++++++++++++---
 libmsi/libmsi-record.c  | 30 ++++++++++++++++++++++++++----
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/libmsi/libmsi-istream.c b/libmsi/libmsi-istream.c
index e74e8fb..bc79407 100644
--- a/libmsi/libmsi-istream.c
+++ b/libmsi/libmsi-istream.c
@@ -51,7 +51,12 @@ libmsi_seek (GSeekable *seekable, goffset offset,
 {
     g_return_val_if_fail (LIBMSI_IS_ISTREAM(seekable), FALSE);
 
-    return !gsf_input_seek (LIBMSI_ISTREAM(seekable)->input, offset, type);
+    if (gsf_input_seek (LIBMSI_ISTREAM(seekable)->input, offset, type)) {
+        g_set_error_literal (error, G_IO_ERROR, G_IO_ERROR_INVALID_ARGUMENT, G_STRFUNC);
+        return FALSE;
+    }
+
+    return TRUE;
 }
 
 static gboolean
@@ -99,8 +104,10 @@ input_stream_read (GInputStream  *stream,
         return 0;
 
     count = MIN(count, remaining);
-    if (!gsf_input_read (self->input, count, buffer))
+    if (!gsf_input_read (self->input, count, buffer)) {
+        g_set_error_literal (error, G_IO_ERROR, G_IO_ERROR_FAILED, G_STRFUNC);
         return -1;
+    }
 
     return count;
 }
@@ -114,8 +121,10 @@ input_stream_skip (GInputStream *stream,
     LibmsiIStream *self = LIBMSI_ISTREAM (stream);
 
     count = MIN (count, gsf_input_remaining (self->input));
-    if (!gsf_input_seek (self->input, count, G_SEEK_CUR))
+    if (gsf_input_seek (self->input, count, G_SEEK_CUR)) {
+        g_set_error_literal (error, G_IO_ERROR, G_IO_ERROR_FAILED, G_STRFUNC);
         return -1;
+    }
 
     return count;
 }
diff --git a/libmsi/libmsi-record.c b/libmsi/libmsi-record.c
index 6339338..6231cef 100644
--- a/libmsi/libmsi-record.c
+++ b/libmsi/libmsi-record.c
@@ -198,8 +198,10 @@ unsigned _libmsi_record_copy_field( LibmsiRecord *in_rec, unsigned in_n,
         switch ( in->type )
         {
         case LIBMSI_FIELD_TYPE_NULL:
+            _libmsi_free_field( out );
             break;
         case LIBMSI_FIELD_TYPE_INT:
+            _libmsi_free_field( out );
             out->u.iVal = in->u.iVal;
             break;
         case LIBMSI_FIELD_TYPE_STR:
@@ -207,10 +209,14 @@ unsigned _libmsi_record_copy_field( LibmsiRecord *in_rec, unsigned in_n,
             if ( !str )
                 r = LIBMSI_RESULT_OUTOFMEMORY;
             else
+            {
+                _libmsi_free_field( out );
                 out->u.szVal = str;
+            }
             break;
         case LIBMSI_FIELD_TYPE_STREAM:
             g_object_ref(G_OBJECT(in->u.stream));
+            _libmsi_free_field( out );
             out->u.stream = in->u.stream;
             break;
         default:
@@ -495,10 +501,14 @@ static unsigned _libmsi_addstream_from_file(const char *szFile, GsfInput **pstm)
     {
         data = g_try_malloc(sz);
         if (!data)
+        {
+            g_object_unref(G_OBJECT(stm));
             return LIBMSI_RESULT_NOT_ENOUGH_MEMORY;
+        }
 
         if (!gsf_input_read(stm, sz, data))
         {
+            g_free(data);
             g_object_unref(G_OBJECT(stm));
             return LIBMSI_RESULT_FUNCTION_FAILED;
         }
@@ -542,7 +552,8 @@ unsigned _libmsi_record_load_stream_from_file(LibmsiRecord *rec, unsigned field,
         if( !stm )
             return LIBMSI_RESULT_INVALID_FIELD;
 
-        gsf_input_seek( stm, 0, G_SEEK_SET );
+        if( gsf_input_seek( stm, 0, G_SEEK_SET ) )
+            return LIBMSI_RESULT_FUNCTION_FAILED;
     }
     else
     {
@@ -552,7 +563,12 @@ unsigned _libmsi_record_load_stream_from_file(LibmsiRecord *rec, unsigned field,
             return r;
 
         /* if all's good, store it in the record */
-        _libmsi_record_load_stream(rec, field, stm);
+        r = _libmsi_record_load_stream(rec, field, stm);
+        if( r != LIBMSI_RESULT_SUCCESS )
+        {
+            g_object_unref(G_OBJECT(stm));
+            return r;
+        }
     }
 
     return LIBMSI_RESULT_SUCCESS;
@@ -614,14 +630,20 @@ libmsi_record_set_stream (LibmsiRecord *rec, guint field,
     guint8 *data = g_malloc (count);
 
     if (!g_input_stream_read_all (input, data, count, &bytes_read,
-                                  cancellable, error) ||
-        bytes_read != count) {
+                                  cancellable, error)) {
+        g_free (data);
+        return FALSE;
+    }
+
+    if (bytes_read != count) {
+        g_set_error (error, LIBMSI_RESULT_ERROR, LIBMSI_RESULT_INVALID_DATA, G_STRFUNC);
         g_free (data);
         return FALSE;
     }
 
     stm = gsf_input_memory_new (data, count, TRUE);
     if (_libmsi_record_load_stream (rec, field, stm) != LIBMSI_RESULT_SUCCESS) {
+        g_set_error (error, LIBMSI_RESULT_ERROR, LIBMSI_RESULT_INVALID_FIELD, G_STRFUNC);
         g_object_unref (stm);
         return FALSE;
     }
-- 
2.43.0


From 0ff03da83bb0f46a1fd10779c096ee09b75e22e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:54 +0000
Subject: [PATCH 41/93] fix: summary information is read within its bounds

---
 libmsi/libmsi-summary-info.c | 60 +++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index 2e7f513..25a4abf 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -322,9 +322,11 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
     for( i = 0; i < cProperties; i++ )
     {
         valid = TRUE;
-        int propid = read_dword(data, &idofs);
+        unsigned propid = read_dword(data, &idofs);
         unsigned dwOffset = read_dword(data, &idofs);
         int proptype;
+        int intval = 0;
+        guint64 filetime = 0;
 
         if( propid >= MSI_MAX_PROPS )
         {
@@ -341,44 +343,41 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
 
         property = &prop[ propid ];
 
-        if( dwOffset + 4 > sz )
+        if( dwOffset > sz || sz - dwOffset < 8 )
         {
             g_critical("not enough data for type %d %d \n", dwOffset, sz);
             break;
         }
 
         proptype = read_dword(data, &dwOffset);
-        if( dwOffset + 4 > sz )
-        {
-            g_critical("not enough data for type %d %d \n", dwOffset, sz);
-            break;
-        }
 
         switch(proptype)
         {
         case OLEVT_I2:
         case OLEVT_I4:
-            property->intval = read_dword(data, &dwOffset);
+            intval = read_dword(data, &dwOffset);
             break;
         case OLEVT_FILETIME:
-            if( dwOffset + 8 > sz )
+            if( sz - dwOffset < 8 )
             {
                 g_critical("not enough data for type %d %d \n", dwOffset, sz);
                 valid = FALSE;
                 break;
             }
-            property->filetime = read_dword(data, &dwOffset);
-            property->filetime |= (guint64)read_dword(data, &dwOffset) << 32;
+            filetime = read_dword(data, &dwOffset);
+            filetime |= (guint64)read_dword(data, &dwOffset) << 32;
             break;
         case OLEVT_LPSTR:
             len = read_dword(data, &dwOffset);
-            if(len == 0 || dwOffset + len > sz )
+            if(len == 0 || len > sz - dwOffset )
             {
                 g_critical("not enough data for type %d %d %d \n", dwOffset, len, sz);
                 valid = FALSE;
                 break;
             }
             str = msi_alloc( len );
+            if( !str )
+                return;
             memcpy( str, &data[dwOffset], len-1 );
             str[ len - 1 ] = 0;
             break;
@@ -391,20 +390,13 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
         }
 
         /* check the type is the same as we expect */
-        if( type == OLEVT_LPSTR && proptype == OLEVT_LPSTR)
-           property->strval = str;
-        else if (type == proptype)
+        if (type == proptype)
            ;
         else if( proptype == OLEVT_LPSTR) {
-            g_return_if_fail(str != NULL);
             if( type == OLEVT_I2 || type == OLEVT_I4) {
-                property->intval = atoi( str );
-            } else if( type == OLEVT_FILETIME) {
-                parse_filetime( str, &property->filetime );
+                intval = atoi( str );
             } else {
-                g_critical("invalid type, it can't be converted\n");
-                msi_free(str);
-                break;
+                parse_filetime( str, &filetime );
             }
             proptype = type;
             msi_free (str);
@@ -416,6 +408,13 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
         }
 
         /* Now we now the type is valid, store it */
+        free_prop( property );
+        if( type == OLEVT_LPSTR )
+            property->strval = str;
+        else if( type == OLEVT_FILETIME )
+            property->filetime = filetime;
+        else
+            property->intval = intval;
         property->vt = proptype;
     }
 }
@@ -431,9 +430,9 @@ static unsigned load_summary_info( LibmsiSummaryInfo *si, GsfInput *stm )
     TRACE("%p %p\n", si, stm);
 
     sz = gsf_input_size(stm);
-    if (!sz)
+    if (sz < 28 + 20 || sz > G_MAXINT)
         return ret;
-    data = g_try_malloc(gsf_input_size(stm));
+    data = g_try_malloc(sz);
     if (!data)
         return LIBMSI_RESULT_NOT_ENOUGH_MEMORY;
 
@@ -458,6 +457,11 @@ static unsigned load_summary_info( LibmsiSummaryInfo *si, GsfInput *stm )
     /* seek to the location of the section */
     ofs += 16;
     ofs = dwOffset = read_dword(data, &ofs);
+    if( dwOffset > sz || sz - dwOffset < 8 )
+    {
+        g_critical("no room for the section\n");
+        goto done;
+    }
 
     /* read the section itself */
     cbSection = read_dword( data, &ofs );
@@ -469,6 +473,14 @@ static unsigned load_summary_info( LibmsiSummaryInfo *si, GsfInput *stm )
         goto done;
     }
 
+    if( cbSection > sz - dwOffset )
+        cbSection = sz - dwOffset;
+    if( cbSection < 8 + cProperties * 8 )
+    {
+        g_critical("no room for %d properties\n", cProperties);
+        goto done;
+    }
+
     /* read all the data in one go */
     read_properties_from_data( si->property,
                                &data[dwOffset],
-- 
2.43.0


From fa773718ff521a81cf0715f304c68eca69642fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:54 +0000
Subject: [PATCH 42/93] fix: summary information getters and setters report
 what they could not do

---
 libmsi/libmsi-database.c     |  5 ++++
 libmsi/libmsi-summary-info.c | 49 +++++++++++++++++++-----------------
 2 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index da0d58c..1c4d432 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -382,6 +382,11 @@ unsigned write_raw_stream_data( LibmsiDatabase *db, const char *stname,
 
     stm = gsf_input_memory_new(mem, sz, true);
     ret = msi_alloc_stream( db, stname, stm);
+    if (ret != LIBMSI_RESULT_SUCCESS)
+    {
+        g_object_unref(G_OBJECT(stm));
+        return ret;
+    }
     *outstm = stm;
     return ret;
 }
diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index 25a4abf..dbcfe7f 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -257,11 +257,13 @@ static gchar* filetime_to_string (guint64 ft)
     ft -= 134774ULL * 86400ULL;
 
     dt = g_date_time_new_from_unix_local(ft);
+    if (!dt)
+        return NULL;
 
     return g_date_time_format(dt, "%Y/%m/%d %H:%M:%S");
 }
 
-static void parse_filetime( const char *str, guint64 *ft )
+static gboolean parse_filetime( const char *str, guint64 *ft )
 {
     /* set to 0, tm_isdst can make the result vary: */
     struct tm tm = { 0, };
@@ -275,25 +277,25 @@ static void parse_filetime( const char *str, guint64 *ft )
     while ( *p == ' ' || *p == '\t' ) p++;
 
     tm.tm_year = strtol( p, &end, 10 ) - 1900;
-    if (*end != '/') return;
+    if (*end != '/') return FALSE;
     p = end + 1;
 
     tm.tm_mon = strtol( p, &end, 10 ) - 1;
-    if (*end != '/') return;
+    if (*end != '/') return FALSE;
     p = end + 1;
 
     tm.tm_mday = strtol( p, &end, 10 );
-    if (*end != ' ') return;
+    if (*end != ' ') return FALSE;
     p = end + 1;
 
     while ( *p == ' ' || *p == '\t' ) p++;
 
     tm.tm_hour = strtol( p, &end, 10 );
-    if (*end != ':') return;
+    if (*end != ':') return FALSE;
     p = end + 1;
 
     tm.tm_min = strtol( p, &end, 10 );
-    if (*end != ':') return;
+    if (*end != ':') return FALSE;
     p = end + 1;
 
     tm.tm_sec = strtol( p, &end, 10 );
@@ -304,6 +306,7 @@ static void parse_filetime( const char *str, guint64 *ft )
      * then convert to 100 ns units.
      */
     *ft = (t + 134774ULL * 86400ULL) * 10000000ULL;
+    return TRUE;
 }
 
 /* FIXME: doesn't deal with endian conversion */
@@ -682,7 +685,7 @@ summary_info_as_string (LibmsiSummaryInfo *si, unsigned uiProperty)
 }
 
 static void _summary_info_get_property (LibmsiSummaryInfo *si, unsigned uiProperty,
-                                        unsigned *puiDataType, int *pintvalue,
+                                        unsigned wanted, unsigned *puiDataType, int *pintvalue,
                                         guint64 *pftValue, char *szValueBuf,
                                         unsigned *pcchValueBuf, const gchar **str,
                                         GError **error)
@@ -716,7 +719,7 @@ static void _summary_info_get_property (LibmsiSummaryInfo *si, unsigned uiProper
             len = strlen (prop->strval);
             if (szValueBuf)
                 strcpyn (szValueBuf, prop->strval, *pcchValueBuf);
-            if (len >= *pcchValueBuf)
+            if (len >= *pcchValueBuf && type == wanted)
                 g_set_error (error, LIBMSI_RESULT_ERROR, LIBMSI_RESULT_MORE_DATA,
                              "The given string is too small");
             *pcchValueBuf = len;
@@ -736,6 +739,9 @@ static void _summary_info_get_property (LibmsiSummaryInfo *si, unsigned uiProper
         g_return_if_reached ();
     }
 
+    if (type != LIBMSI_PROPERTY_TYPE_EMPTY && type != wanted)
+        g_set_error (error, LIBMSI_RESULT_ERROR, LIBMSI_RESULT_DATATYPE_MISMATCH, G_STRFUNC);
+
     if (puiDataType)
         *puiDataType = type;
 
@@ -755,13 +761,12 @@ libmsi_summary_info_get_int (LibmsiSummaryInfo *self, LibmsiProperty prop,
                              GError **error)
 {
     LibmsiPropertyType type;
-    gint val;
+    gint val = -1;
 
     g_return_val_if_fail (LIBMSI_SUMMARY_INFO (self), -1);
     g_return_val_if_fail (!error || *error == NULL, -1);
 
-    type = LIBMSI_PROPERTY_TYPE_INT;
-    _summary_info_get_property (self, prop, &type, &val,
+    _summary_info_get_property (self, prop, LIBMSI_PROPERTY_TYPE_INT, &type, &val,
                                 NULL, NULL, NULL, NULL, error);
 
     return val;
@@ -780,13 +785,12 @@ libmsi_summary_info_get_filetime (LibmsiSummaryInfo *self, LibmsiProperty prop,
                                   GError **error)
 {
     LibmsiPropertyType type;
-    guint64 val;
+    guint64 val = 0;
 
     g_return_val_if_fail (LIBMSI_SUMMARY_INFO (self), 0);
     g_return_val_if_fail (!error || *error == NULL, 0);
 
-    type = LIBMSI_PROPERTY_TYPE_FILETIME;
-    _summary_info_get_property (self, prop, &type, NULL,
+    _summary_info_get_property (self, prop, LIBMSI_PROPERTY_TYPE_FILETIME, &type, NULL,
                                 &val, NULL, NULL, NULL, error);
 
     return val;
@@ -805,13 +809,12 @@ libmsi_summary_info_get_string (LibmsiSummaryInfo *self, LibmsiProperty prop,
                                 GError **error)
 {
     LibmsiPropertyType type;
-    const gchar *str;
+    const gchar *str = NULL;
 
     g_return_val_if_fail (LIBMSI_SUMMARY_INFO (self), FALSE);
     g_return_val_if_fail (!error || *error == NULL, FALSE);
 
-    type = LIBMSI_PROPERTY_TYPE_STRING;
-    _summary_info_get_property (self, prop, &type, NULL,
+    _summary_info_get_property (self, prop, LIBMSI_PROPERTY_TYPE_STRING, &type, NULL,
                                 NULL, NULL, NULL, &str, error);
 
     return str;
@@ -844,7 +847,7 @@ static LibmsiResult _libmsi_summary_info_set_property( LibmsiSummaryInfo *si, un
     }
     else if( prop->vt != type )
     {
-        ret = LIBMSI_RESULT_SUCCESS;
+        ret = LIBMSI_RESULT_DATATYPE_MISMATCH;
         goto end;
     }
 
@@ -998,7 +1001,8 @@ static unsigned parse_prop( const char *prop, const char *value, unsigned *pid,
     case LIBMSI_PROPERTY_LASTPRINTED:
     case LIBMSI_PROPERTY_CREATED_TM:
     case LIBMSI_PROPERTY_LASTSAVED_TM:
-        parse_filetime( value, ft_value );
+        if (!parse_filetime( value, ft_value ))
+            return LIBMSI_RESULT_FUNCTION_FAILED;
         break;
 
     case LIBMSI_PROPERTY_SUBJECT:
@@ -1036,11 +1040,11 @@ unsigned msi_add_suminfo( LibmsiDatabase *db, char ***records, int num_records,
 
     for (i = 0; i < num_records; i++)
     {
-        for (j = 0; j < num_columns; j += 2)
+        for (j = 0; j + 1 < num_columns; j += 2)
         {
             unsigned pid;
             int int_value = 0;
-            guint64 ft_value;
+            guint64 ft_value = 0;
             char *str_value = NULL;
 
             r = parse_prop( records[i][j], records[i][j + 1], &pid, &int_value, &ft_value, &str_value );
@@ -1049,10 +1053,9 @@ unsigned msi_add_suminfo( LibmsiDatabase *db, char ***records, int num_records,
 
             assert( get_type(pid) != OLEVT_EMPTY );
             r = _libmsi_summary_info_set_property( si, pid, get_type(pid), int_value, &ft_value, str_value );
+            msi_free(str_value);
             if (r != LIBMSI_RESULT_SUCCESS)
                 goto end;
-
-            msi_free(str_value);
         }
     }
 
-- 
2.43.0


From e91cbade2b49554c90e8b239922f554a146bbebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:23 +0000
Subject: [PATCH 43/93] fix: keep a reference for each pooled string stored by
 a row update

---
 libmsi/string.c | 19 +++++++++++--------
 libmsi/table.c  |  8 ++++++++
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index 5fe4998..cd6e383 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -249,6 +249,15 @@ static unsigned _libmsi_id_from_string( const string_table *st, const char *buff
     return r;
 }
 
+/* the counts are stored as 16 bit quantities; do not let them wrap to zero */
+static void add_string_refs( struct msistring *str, uint16_t refcount, enum StringPersistence persistence )
+{
+    uint16_t *count = persistence == StringPersistent ? &str->persistent_refcount
+                                                      : &str->nonpersistent_refcount;
+
+    *count = refcount > 0xffff - *count ? 0xffff : *count + refcount;
+}
+
 static int msi_addstring( string_table *st, unsigned n, const char *data, int len, uint16_t refcount, enum StringPersistence persistence )
 {
     char *str;
@@ -271,10 +280,7 @@ static int msi_addstring( string_table *st, unsigned n, const char *data, int le
     {
         if( LIBMSI_RESULT_SUCCESS == _libmsi_id_from_string( st, data, &n ) )
         {
-            if (persistence == StringPersistent)
-                st->strings[n].persistent_refcount += refcount;
-            else
-                st->strings[n].nonpersistent_refcount += refcount;
+            add_string_refs( &st->strings[n], refcount, persistence );
             return n;
         }
         n = st_find_free_entry( st );
@@ -315,10 +321,7 @@ int _libmsi_add_string( string_table *st, const char *data, int len, uint16_t re
 
     if( _libmsi_id_from_string_utf8( st, data, &n ) == LIBMSI_RESULT_SUCCESS )
     {
-        if (persistence == StringPersistent)
-            st->strings[n].persistent_refcount += refcount;
-        else
-            st->strings[n].nonpersistent_refcount += refcount;
+        add_string_refs( &st->strings[n], refcount, persistence );
         return n;
     }
 
diff --git a/libmsi/table.c b/libmsi/table.c
index eb4130b..1c777c8 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1401,6 +1401,14 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
                         return r;
                     if (val == x)
                         continue;
+
+                    /* the cell needs a reference of its own, or the string
+                     * may not be saved along with the row */
+                    val = _libmsi_add_string( tv->db->strings,
+                      _libmsi_record_get_string_raw( rec, i + 1 ), -1, 1,
+                      persistent ? StringPersistent : StringNonPersistent );
+                    if ( (int)val < 0 )
+                        return LIBMSI_RESULT_FUNCTION_FAILED;
                 }
             }
             else
-- 
2.43.0


From 61edd7f16c4e766d338f76909f2a02416e5d914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 44/93] fix: a refused _Streams or _Storages row is not left in
 the view

---
 libmsi/storages.c | 31 +++++++++++++++++++++++++++----
 libmsi/streams.c  | 34 ++++++++++++++++++++++++++--------
 2 files changed, 53 insertions(+), 12 deletions(-)

diff --git a/libmsi/storages.c b/libmsi/storages.c
index 50aa031..8fd254e 100644
--- a/libmsi/storages.c
+++ b/libmsi/storages.c
@@ -62,12 +62,17 @@ static bool storages_set_table_size(LibmsiStorageView *sv, unsigned size)
 static STORAGE *create_storage(LibmsiStorageView *sv, const char *name)
 {
     STORAGE *storage;
+    int str_index;
+
+    str_index = _libmsi_add_string(sv->db->strings, name, -1, 1, StringNonPersistent);
+    if (str_index < 0)
+        return NULL;
 
     storage = msi_alloc(sizeof(STORAGE));
     if (!storage)
         return NULL;
 
-    storage->str_index = _libmsi_add_string(sv->db->strings, name, -1, 1, StringNonPersistent);
+    storage->str_index = str_index;
 
     return storage;
 }
@@ -130,6 +135,7 @@ static unsigned storages_view_set_row(LibmsiView *view, unsigned row, LibmsiReco
     if (sv->storages[row]) {
         if (mask & 1) {
             g_warning("FIXME: renaming storage via UPDATE on _Storages table\n");
+            r = LIBMSI_RESULT_CALL_NOT_IMPLEMENTED;
             goto done;
         }
 
@@ -167,16 +173,33 @@ done:
 static unsigned storages_view_insert_row(LibmsiView *view, LibmsiRecord *rec, unsigned row, bool temporary)
 {
     LibmsiStorageView *sv = (LibmsiStorageView *)view;
+    unsigned i, r;
 
-    if (!storages_set_table_size(sv, ++sv->num_rows))
+    if (!storages_set_table_size(sv, sv->num_rows + 1))
         return LIBMSI_RESULT_FUNCTION_FAILED;
+    sv->num_rows++;
 
     if (row == -1)
         row = sv->num_rows - 1;
 
-    /* FIXME have to readjust rows */
+    /* shift the rows to make room for the new row */
+    for (i = sv->num_rows - 1; i > row; i--)
+    {
+        sv->storages[i] = sv->storages[i - 1];
+    }
+    sv->storages[row] = NULL;
 
-    return storages_view_set_row(view, row, rec, 0);
+    r = storages_view_set_row(view, row, rec, 0);
+    if (r != LIBMSI_RESULT_SUCCESS)
+    {
+        /* the storage was not added, close the gap again */
+        for (i = row + 1; i < sv->num_rows; i++)
+        {
+            sv->storages[i - 1] = sv->storages[i];
+        }
+        sv->storages[--sv->num_rows] = NULL;
+    }
+    return r;
 }
 
 static unsigned storages_view_delete_row(LibmsiView *view, unsigned row)
diff --git a/libmsi/streams.c b/libmsi/streams.c
index 01ed206..c4f2b4c 100644
--- a/libmsi/streams.c
+++ b/libmsi/streams.c
@@ -62,12 +62,9 @@ static bool streams_set_table_size(LibmsiStreamsView *sv, unsigned size)
 static STREAM *create_stream(LibmsiStreamsView *sv, const char *name, bool encoded, GsfInput *stm)
 {
     STREAM *stream;
+    int str_index;
     g_autofree char *decoded = NULL;
 
-    stream = msi_alloc(sizeof(STREAM));
-    if (!stream)
-        return NULL;
-
     if (encoded)
     {
         decoded = decode_streamname(name);
@@ -75,7 +72,15 @@ static STREAM *create_stream(LibmsiStreamsView *sv, const char *name, bool encod
         name = decoded;
     }
 
-    stream->str_index = _libmsi_add_string(sv->db->strings, name, -1, 1, StringNonPersistent);
+    str_index = _libmsi_add_string(sv->db->strings, name, -1, 1, StringNonPersistent);
+    if (str_index < 0)
+        return NULL;
+
+    stream = msi_alloc(sizeof(STREAM));
+    if (!stream)
+        return NULL;
+
+    stream->str_index = str_index;
     stream->stream = stm;
     if (stream->stream)
         g_object_ref(G_OBJECT(stm));
@@ -144,6 +149,7 @@ static unsigned streams_view_set_row(LibmsiView *view, unsigned row, LibmsiRecor
     if (sv->streams[row]) {
         if (mask & 1) {
             g_warning("FIXME: renaming stream via UPDATE on _Streams table");
+            r = LIBMSI_RESULT_CALL_NOT_IMPLEMENTED;
             goto done;
         }
 
@@ -192,12 +198,13 @@ done:
 static unsigned streams_view_insert_row(LibmsiView *view, LibmsiRecord *rec, unsigned row, bool temporary)
 {
     LibmsiStreamsView *sv = (LibmsiStreamsView *)view;
-    unsigned i;
+    unsigned i, r;
 
     TRACE("(%p, %p, %d, %d)\n", view, rec, row, temporary);
 
-    if (!streams_set_table_size(sv, ++sv->num_rows))
+    if (!streams_set_table_size(sv, sv->num_rows + 1))
         return LIBMSI_RESULT_FUNCTION_FAILED;
+    sv->num_rows++;
 
     if (row == -1)
         row = sv->num_rows - 1;
@@ -207,8 +214,19 @@ static unsigned streams_view_insert_row(LibmsiView *view, LibmsiRecord *rec, uns
     {
         sv->streams[i] = sv->streams[i - 1];
     }
+    sv->streams[row] = NULL;
 
-    return streams_view_set_row(view, row, rec, 0);
+    r = streams_view_set_row(view, row, rec, 0);
+    if (r != LIBMSI_RESULT_SUCCESS)
+    {
+        /* the stream was not added, close the gap again */
+        for (i = row + 1; i < sv->num_rows; i++)
+        {
+            sv->streams[i - 1] = sv->streams[i];
+        }
+        sv->streams[--sv->num_rows] = NULL;
+    }
+    return r;
 }
 
 static unsigned streams_view_delete_row(LibmsiView *view, unsigned row)
-- 
2.43.0


From 50ccfd5ca66e979efa73e8762184479864081bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 45/93] fix: creating a table fails if its names cannot be
 stored

---
 libmsi/table.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 1c777c8..1432bb3 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -771,8 +771,14 @@ unsigned msi_create_table( LibmsiDatabase *db, const char *name, column_info *co
 
     for( i = 0, col = col_info; col; i++, col = col->next )
     {
-        unsigned table_id = _libmsi_add_string( db->strings, col->table, -1, 1, string_persistence );
-        unsigned col_id = _libmsi_add_string( db->strings, col->column, -1, 1, string_persistence );
+        int table_id = _libmsi_add_string( db->strings, col->table, -1, 1, string_persistence );
+        int col_id = _libmsi_add_string( db->strings, col->column, -1, 1, string_persistence );
+
+        if (table_id < 0 || col_id < 0)
+        {
+            free_table( table );
+            return LIBMSI_RESULT_FUNCTION_FAILED;
+        }
 
         table->colinfo[ i ].tablename = msi_string_lookup_id( db->strings, table_id );
         table->colinfo[ i ].number = i + 1;
-- 
2.43.0


From edbd1f3c80b418aae7225c88ec4096647d5265da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 46/93] fix: a transform record without its stream does not
 crash

---
 libmsi/table.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 1432bb3..e7b3382 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2234,18 +2234,27 @@ static LibmsiRecord *msi_get_transform_record( const LibmsiTableView *tv, const
 
             r = msi_record_encoded_stream_name( tv, rec, &encname );
             if ( r != LIBMSI_RESULT_SUCCESS )
+            {
+                g_object_unref( rec );
                 return NULL;
+            }
 
             stm = gsf_infile_child_by_name( stg, encname );
-            if ( r != LIBMSI_RESULT_SUCCESS )
+            TRACE(" field %d [%s]\n", i+1, debugstr_a(encname));
+            msi_free( encname );
+            if ( !stm )
             {
-                msi_free( encname );
+                g_object_unref( rec );
                 return NULL;
             }
 
-            _libmsi_record_load_stream( rec, i+1, stm );
-            TRACE(" field %d [%s]\n", i+1, debugstr_a(encname));
-            msi_free( encname );
+            r = _libmsi_record_load_stream( rec, i+1, stm );
+            g_object_unref( G_OBJECT(stm) );
+            if ( r != LIBMSI_RESULT_SUCCESS )
+            {
+                g_object_unref( rec );
+                return NULL;
+            }
         }
         else if( columns[i].type & MSITYPE_STRING )
         {
-- 
2.43.0


From e9a845e344e15558add98be97a81175baeb39cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:21 +0000
Subject: [PATCH 47/93] fix: bound the column count and header reads of
 transform rows

---
 libmsi/table.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libmsi/table.c b/libmsi/table.c
index e7b3382..1761149 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2467,6 +2467,12 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
     /* interpret the data */
     for (n = 0; n < rawsize;)
     {
+        if (rawsize - n < 2)
+        {
+            g_critical("borked.\n");
+            break;
+        }
+
         mask = rawdata[n] | (rawdata[n + 1] << 8);
         if (mask & 1)
         {
@@ -2476,6 +2482,11 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
              */
             sz = 2;
             num_cols = mask >> 8;
+            if (num_cols > tv->num_cols)
+            {
+                g_critical("borked.\n");
+                break;
+            }
             for (i = 0; i < num_cols; i++)
             {
                 if( (tv->columns[i].type & MSITYPE_STRING) &&
-- 
2.43.0


From 37e1c02499ea2506dd780d050135f8be313f9164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:21 +0000
Subject: [PATCH 48/93] fix: DISTINCT: support executing a query again

---
 libmsi/distinct.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libmsi/distinct.c b/libmsi/distinct.c
index 2d9aab9..fa1253e 100644
--- a/libmsi/distinct.c
+++ b/libmsi/distinct.c
@@ -118,6 +118,9 @@ static unsigned distinct_view_execute( LibmsiView *view, LibmsiRecord *record )
     if( r != LIBMSI_RESULT_SUCCESS )
         return r;
 
+    /* the query may have been executed before */
+    msi_free( dv->translation );
+    dv->row_count = 0;
     dv->translation = msi_alloc( r_count*sizeof(unsigned) );
     if( !dv->translation )
         return LIBMSI_RESULT_FUNCTION_FAILED;
@@ -238,8 +241,10 @@ static unsigned distinct_view_find_matching_rows( LibmsiView *view, unsigned col
          return LIBMSI_RESULT_FUNCTION_FAILED;
 
     r = dv->table->ops->find_matching_rows( dv->table, col, val, row, handle );
+    if( r != LIBMSI_RESULT_SUCCESS )
+        return r;
 
-    if( *row > dv->row_count )
+    if( *row >= dv->row_count )
         return NO_MORE_ITEMS;
 
     *row = dv->translation[ *row ];
-- 
2.43.0


From e3f93be6660e8bf39d2c04f706111d32d22e13d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:21 +0000
Subject: [PATCH 49/93] fix: ALTER and DROP on views without the operations
 report an error

---
 libmsi/alter.c | 12 ++++++++++++
 libmsi/drop.c  |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/libmsi/alter.c b/libmsi/alter.c
index e5e57d9..6587126 100644
--- a/libmsi/alter.c
+++ b/libmsi/alter.c
@@ -60,6 +60,9 @@ static unsigned alter_view_get_row( LibmsiView *view, unsigned row, LibmsiRecord
 
     TRACE("%p %d %p\n", av, row, rec );
 
+    if( !av->table || !av->table->ops->get_row )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
     return av->table->ops->get_row(av->table, row, rec);
 }
 
@@ -141,10 +144,19 @@ static unsigned alter_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     TRACE("%p %p\n", av, record);
 
+    if (!av->table)
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
     if (av->hold == 1)
+    {
+        if (!av->table->ops->add_ref)
+            return LIBMSI_RESULT_CALL_NOT_IMPLEMENTED;
         av->table->ops->add_ref(av->table);
+    }
     else if (av->hold == -1)
     {
+        if (!av->table->ops->release)
+            return LIBMSI_RESULT_CALL_NOT_IMPLEMENTED;
         ref = av->table->ops->release(av->table);
         if (ref == 0)
             av->table = NULL;
diff --git a/libmsi/drop.c b/libmsi/drop.c
index 2fd2501..f70f654 100644
--- a/libmsi/drop.c
+++ b/libmsi/drop.c
@@ -46,6 +46,9 @@ static unsigned drop_view_execute(LibmsiView *view, LibmsiRecord *record)
     if( !dv->table )
          return LIBMSI_RESULT_FUNCTION_FAILED;
 
+    if( !dv->table->ops->drop )
+         return LIBMSI_RESULT_CALL_NOT_IMPLEMENTED;
+
     r = dv->table->ops->execute(dv->table, record);
     if (r != LIBMSI_RESULT_SUCCESS)
         return r;
-- 
2.43.0


From 5c28ab1337d25f6f20956eb373582e562080ddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:18 +0000
Subject: [PATCH 50/93] fix: do not delete an output file that was never opened

---
 libmsi/libmsi-database.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 1c4d432..c3e80b4 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -588,6 +588,7 @@ void append_storage_to_db( LibmsiDatabase *db, GsfInfile *stg )
 LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed)
 {
     LibmsiResult ret = LIBMSI_RESULT_SUCCESS;
+    bool started = db->outfile != NULL;
 
     TRACE("%p %d\n", db, committed);
 
@@ -619,7 +620,9 @@ LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed)
 
     if (db->outpath) {
         if (!committed) {
-            unlink( db->outpath );
+            /* without a transaction the file is not ours */
+            if (started)
+                unlink( db->outpath );
             msi_free( db->outpath );
         } else if (db->rename_outpath) {
             if (g_rename(db->outpath, db->path) != 0)
-- 
2.43.0


From 3b9896a02967aff56ad345674ff649c9bc899a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:06 +0000
Subject: [PATCH 51/93] fix: wixl: write root -1 for HKMU registry values

The Registry table uses -1 for 'HKLM or HKCU, depending on the scope of
the installation'; 4 is not a valid root.
---
 tools/wixl/builder.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index a241111..646660b 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -809,7 +809,7 @@ namespace Wixl {
             HKCU,
             HKLM,
             HKU,
-            HKMU;
+            HKMU = -1;
 
             public static RegistryRoot from_string(string s) throws GLib.Error {
                 return enum_from_string<RegistryRoot> (s);
-- 
2.43.0


From 8f69587eec88f6071b4ba07ff9070b039510d210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:13 +0000
Subject: [PATCH 52/93] fix: wixl: accept InstallDefault="followParent"

Attribute values are case-sensitive and the documented spelling is
followParent, but the derived nick was all lower case.
---
 tools/wixl/builder.vala | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 646660b..756cf3d 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -580,6 +580,7 @@ namespace Wixl {
         }
 
         enum InstallDefaultValue {
+            [Description (nick = "followParent")]
             FollowParent = 0,
             Local,
             Source;
-- 
2.43.0


From b50bac006609d8574ffdfcba2722caf2675ad678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:47 +0000
Subject: [PATCH 53/93] fix: wixl: honour Execute="secondSequence" of
 CustomAction

The documented value was ignored, so such an action was scheduled as a
plain immediate action.
---
 tools/wixl/builder.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 756cf3d..f14a942 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1381,7 +1381,7 @@ namespace Wixl {
                 type |= CustomActionType.FIRST_SEQUENCE;
             else if (action.Execute == "oncePerProcess")
                 type |= CustomActionType.ONCE_PER_PROCESS;
-            else if (action.Execute == "clientRepeat")
+            else if (action.Execute == "secondSequence" || action.Execute == "clientRepeat")
                 type |= CustomActionType.CLIENT_REPEAT;
             else if (action.Execute == "deferred")
                 type |= CustomActionType.IN_SCRIPT;
-- 
2.43.0


From 0533a0c088d8e85fdba91605fc05bfa212b594ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:00 +0000
Subject: [PATCH 54/93] fix: wixl: no trailing backslash on the key of nested
 registry values

A RegistryValue without a Key inside a RegistryKey belongs to the parent's
key; 'key\' is not a valid key name.
---
 tools/wixl/builder.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index f14a942..5911c25 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -825,7 +825,7 @@ namespace Wixl {
             if (reg.parent is WixRegistryKey) {
                 var regkey = reg.parent as WixRegistryKey;
                 comp = regkey.parent as WixComponent;
-                reg_key = regkey.Key + "\\" + reg.Key;
+                reg_key = reg.Key != null ? regkey.Key + "\\" + reg.Key : regkey.Key;
                 reg_root = regkey.Root;
             } else if (reg.parent is WixComponent) {
                 comp = reg.parent as WixComponent;
-- 
2.43.0


From 89e1c120aaf6c81abbc3f907148608deb8e25f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:13 +0000
Subject: [PATCH 55/93] fix: wixl: store the ToolTip of a control in its Help
 column

The text was computed but null was passed to the table.
---
 tools/wixl/builder.vala | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 5911c25..345d19b 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1654,7 +1654,7 @@ namespace Wixl {
             int width = 500;
             int height = 500;
             string? filename = null;
-            string help;
+            string? help = null;
 
             if (!(control.parent is WixDialog)) {
                 error ("unhandled parent type %s", control.parent.name);
@@ -1720,7 +1720,8 @@ namespace Wixl {
             if (control.Height != null)
                 height = int.parse (control.Height);
 
-            help = control.ToolTip + "|";
+            if (control.ToolTip != null)
+                help = control.ToolTip + "|";
 
             if ( control.file != null ) {
                 filename = control.file.get_path();
@@ -1772,7 +1773,7 @@ namespace Wixl {
 
             var rec = db.table_control.add (control.parent.Id, control.Id,
                     control.Type, x, y, width, height, attributes,
-                    control.Property, control.Text, filename, null);
+                    control.Property, control.Text, filename, help);
 
             // save the record so we can update the control tab order later
             control.record = rec;
-- 
2.43.0


From 43db4ea19c99ddcae5d35e7126118adf1f6d01bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:52 +0000
Subject: [PATCH 56/93] fix: wixl: remove written INI values on uninstall

---
 tools/wixl/builder.vala | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 345d19b..25a235e 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -228,6 +228,7 @@ namespace Wixl {
                 add (MSIDefault.Action.WriteRegistryValues);
             }
             if (db.table_ini_file.records.length () > 0) {
+                add (MSIDefault.Action.RemoveIniValues);
                 add (MSIDefault.Action.WriteIniValues);
             }
             if (db.table_remove_ini_file.records.length () > 0) {
-- 
2.43.0


From c33a034b8e31a558f417deb6a9e002719d6c4bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:15 +0000
Subject: [PATCH 57/93] fix: wixl: keep the condition of a standard action
 named by Before or After

---
 tools/wixl/msi.vala | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index 4ff0560..3d72907 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -458,8 +458,12 @@ namespace Wixl {
                 critical ("Action %s shouldn't be added in %s", default.name, name);
 
             var seq = actions.lookup (default.name);
-            if (seq != null)
+            if (seq != null) {
+                // only named by Before or After of another action
+                if (seq.action == null && seq.condition == null)
+                    seq.condition = default.condition;
                 return;
+            }
 
             seq = new Action ();
             actions.insert (default.name, seq);
-- 
2.43.0


From 6345180f069c043ae857e6d9454fd74f5f3e3c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:39 +0000
Subject: [PATCH 58/93] fix: msiextract, wixl, wixl-heat: fail when the options
 cannot be parsed

---
 tools/msiextract.vala     | 6 ++----
 tools/wixl/wixl-heat.vala | 6 ++----
 tools/wixl/wixl.vala      | 6 ++----
 3 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/tools/msiextract.vala b/tools/msiextract.vala
index f19e07c..006b140 100644
--- a/tools/msiextract.vala
+++ b/tools/msiextract.vala
@@ -164,11 +164,9 @@ public int main (string[] args) {
 
     try {
         opt_context.parse (ref args);
-    } catch (OptionError.BAD_VALUE err) {
-        GLib.stdout.printf (opt_context.get_help (true, null));
-        exit (1);
     } catch (OptionError error) {
-        warning (error.message);
+        GLib.stderr.printf ("%s\n", error.message);
+        exit (1);
     }
 
     if (version) {
diff --git a/tools/wixl/wixl-heat.vala b/tools/wixl/wixl-heat.vala
index 4c828f7..92302f5 100644
--- a/tools/wixl/wixl-heat.vala
+++ b/tools/wixl/wixl-heat.vala
@@ -43,11 +43,9 @@ public int main (string[] args) {
 
     try {
         opt_context.parse (ref args);
-    } catch (OptionError.BAD_VALUE err) {
-        GLib.stdout.printf (opt_context.get_help (true, null));
-        return 1;
     } catch (OptionError error) {
-        warning (error.message);
+        GLib.stderr.printf ("%s\n", error.message);
+        return 1;
     }
 
     if (prefix == null) {
diff --git a/tools/wixl/wixl.vala b/tools/wixl/wixl.vala
index 993860d..ed17f70 100644
--- a/tools/wixl/wixl.vala
+++ b/tools/wixl/wixl.vala
@@ -62,11 +62,9 @@ namespace Wixl {
 
         try {
             opt_context.parse (ref args);
-        } catch (OptionError.BAD_VALUE err) {
-            GLib.stderr.printf (err.message + "\n");
-            exit (1);
         } catch (OptionError error) {
-            warning (error.message);
+            GLib.stderr.printf ("%s\n", error.message);
+            exit (1);
         }
 
         /* fixme vala, does not support += on arrays without length.  */
-- 
2.43.0


From b9eb5b0ee791bff59c216c69d41750028697237f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:42 +0000
Subject: [PATCH 59/93] fix: msibuild: do not skip the option that follows -s

---
 tools/msibuild.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/msibuild.c b/tools/msibuild.c
index ef7c875..99fb382 100644
--- a/tools/msibuild.c
+++ b/tools/msibuild.c
@@ -298,7 +298,7 @@ int main(int argc, char *argv[])
                                   n > 3 ? argv[3] : NULL,
                                   n > 4 ? argv[4] : NULL, &error))
                 goto end;
-            argc -= n + 1, argv += n + 1;
+            argc -= n, argv += n;
             break;
         case 'i':
             do {
-- 
2.43.0


From 4b75693721e769966a941a1c12dacfb2f8178e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:33 +0000
Subject: [PATCH 60/93] fix: msibuild: report every failure with a message and
 status 1

---
 tools/msibuild.c | 46 ++++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/tools/msibuild.c b/tools/msibuild.c
index 99fb382..56e6a6a 100644
--- a/tools/msibuild.c
+++ b/tools/msibuild.c
@@ -102,7 +102,6 @@ static gboolean open_database(const char *msifile, LibmsiDatabase **db,
         if (!libmsi_database_commit(*db, error))
         {
             fprintf(stderr, "failed to commit database\n");
-            g_object_unref(*db);
             goto end;
         }
     }
@@ -183,7 +182,8 @@ static gboolean add_stream(const char *stream, const char *file, GError **error)
     rec = libmsi_record_new(2);
     libmsi_record_set_string(rec, 1, stream);
     if (!libmsi_record_load_stream(rec, 2, file)) {
-        fprintf(stderr, "failed to load stream (%u)\n", r);
+        g_set_error(error, LIBMSI_RESULT_ERROR, LIBMSI_RESULT_OPEN_FAILED,
+                    "failed to load stream from %s", file);
         goto end;
     }
 
@@ -197,15 +197,13 @@ static gboolean add_stream(const char *stream, const char *file, GError **error)
         goto end;
     }
 
-    r = TRUE;
+    r = libmsi_query_close(query, error);
 
 end:
     if (rec)
         g_object_unref(rec);
-    if (query) {
-        libmsi_query_close(query, error);
+    if (query)
         g_object_unref(query);
-    }
 
     return r;
 }
@@ -227,13 +225,11 @@ static int do_query(const char *sql, void *opaque)
         goto end;
     }
 
-    success = TRUE;
+    success = libmsi_query_close(query, error);
 
 end:
-    if (query) {
-        libmsi_query_close(query, error);
+    if (query)
         g_object_unref(query);
-    }
 
     return !success;
 }
@@ -275,15 +271,17 @@ int main(int argc, char *argv[])
     } else {
         success = open_database(argv[1], &db, &error);
     }
-    if (!success) return 1;
+    if (!success)
+        goto end;
 
+    success = FALSE;
     argc -= 2, argv += 2;
     while (argc > 0) {
         int ret;
         if (argc < 2 || argv[0][0] != '-' || argv[0][2])
         {
             show_usage();
-            return 1;
+            goto end;
         }
 
         switch (argv[0][1])
@@ -303,7 +301,7 @@ int main(int argc, char *argv[])
         case 'i':
             do {
                 if (!import_table(argv[1], &error))
-                    break;
+                    goto end;
 
                 argc--, argv++;
             } while (argv[1] && argv[1][0] != '-');
@@ -315,37 +313,41 @@ int main(int argc, char *argv[])
                 if (ret == 0) {
                     ret = sql_get_statement("", do_query, &error);
                 }
-                if (ret) {
-                    break;
-                }
+                if (ret)
+                    goto end;
                 argc--, argv++;
             } while (argv[1] && argv[1][0] != '-');
             argc--, argv++;
             break;
         case 'a':
-            if (argc < 3) break;
+            if (argc < 3) {
+                show_usage();
+                goto end;
+            }
             if (!add_stream(argv[1], argv[2], &error))
                 goto end;
             argc -= 3, argv += 3;
             break;
         default:
-            fprintf(stdout, "unknown option\n");
+            fprintf(stderr, "unknown option\n");
             show_usage();
-            break;
+            goto end;
         }
     }
 
     if (!libmsi_database_commit(db, &error))
         goto end;
 
+    success = TRUE;
+
 end:
-    g_object_unref(db);
+    if (db)
+        g_object_unref(db);
 
     if (error != NULL) {
         g_printerr("error: %s\n", error->message);
         g_clear_error(&error);
-        exit(1);
     }
 
-    return 0;
+    return success ? 0 : 1;
 }
-- 
2.43.0


From 0a187720981c8d69b7168e8b0e1d34fb25c880d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:51 +0000
Subject: [PATCH 61/93] fix: msiinfo: report failures of suminfo and extract
 with status 1

---
 tools/msiinfo.c | 91 ++++++++++++++++++++++++++-----------------------
 1 file changed, 48 insertions(+), 43 deletions(-)

diff --git a/tools/msiinfo.c b/tools/msiinfo.c
index f029ef8..d07f6be 100644
--- a/tools/msiinfo.c
+++ b/tools/msiinfo.c
@@ -77,8 +77,6 @@ static void print_libmsi_error(LibmsiResultError r)
 {
     switch (r)
     {
-    case LIBMSI_RESULT_SUCCESS:
-        abort();
     case LIBMSI_RESULT_CONTINUE:
         fprintf(stderr, "%s: internal error (continue)\n", g_get_prgname ());
         exit(1);
@@ -129,7 +127,7 @@ static void print_libmsi_error(LibmsiResultError r)
         fprintf(stderr, "%s: invalid datatype\n", g_get_prgname ());
         exit(1);
     default:
-        g_warn_if_reached ();
+        break;
     }
 }
 
@@ -240,38 +238,41 @@ end:
     return r;
 }
 
-static void print_suminfo(LibmsiSummaryInfo *si, int prop, const char *name)
+static void print_suminfo(LibmsiSummaryInfo *si, int prop, const char *name,
+                          GError **error)
 {
-    GError *error = NULL;
     unsigned type;
     const gchar* str;
     int val;
     uint64_t valtime;
     time_t t;
 
-    type = libmsi_summary_info_get_property_type(si, prop, &error);
-    if (error)
-        goto end;
+    if (*error)
+        return;
+
+    type = libmsi_summary_info_get_property_type(si, prop, error);
+    if (*error)
+        return;
 
     switch (type) {
     case LIBMSI_PROPERTY_TYPE_INT:
-        val = libmsi_summary_info_get_int(si, prop, &error);
-        if (error)
-            goto end;
+        val = libmsi_summary_info_get_int(si, prop, error);
+        if (*error)
+            return;
         printf ("%s: %d (%x)\n", name, val, val);
         break;
 
     case LIBMSI_PROPERTY_TYPE_STRING:
-        str = libmsi_summary_info_get_string(si, prop, &error);
-        if (error)
-            goto end;
+        str = libmsi_summary_info_get_string(si, prop, error);
+        if (*error)
+            return;
         printf ("%s: %s\n", name, str);
         break;
 
     case LIBMSI_PROPERTY_TYPE_FILETIME:
-        valtime = libmsi_summary_info_get_filetime(si, prop, &error);
-        if (error)
-            goto end;
+        valtime = libmsi_summary_info_get_filetime(si, prop, error);
+        if (*error)
+            return;
         /* Convert nanoseconds since 1601 to seconds since Unix epoch.  */
         t = (valtime / 10000000) - (uint64_t) 134774 * 86400;
         printf ("%s: %s", name, ctime(&t));
@@ -283,11 +284,6 @@ static void print_suminfo(LibmsiSummaryInfo *si, int prop, const char *name)
     default:
 	abort();
     }
-
-end:
-    if (error)
-        g_warning("Can't print summary info: %s", error->message);
-    g_clear_error(&error);
 }
 
 static int cmd_suminfo(struct Command *cmd, int argc, char **argv, GError **error)
@@ -307,24 +303,24 @@ static int cmd_suminfo(struct Command *cmd, int argc, char **argv, GError **erro
     if (!si)
         goto end;
 
-    print_suminfo(si, LIBMSI_PROPERTY_TITLE, "Title");
-    print_suminfo(si, LIBMSI_PROPERTY_SUBJECT, "Subject");
-    print_suminfo(si, LIBMSI_PROPERTY_AUTHOR, "Author");
-    print_suminfo(si, LIBMSI_PROPERTY_KEYWORDS, "Keywords");
-    print_suminfo(si, LIBMSI_PROPERTY_COMMENTS, "Comments");
-    print_suminfo(si, LIBMSI_PROPERTY_TEMPLATE, "Template");
-    print_suminfo(si, LIBMSI_PROPERTY_LASTAUTHOR, "Last author");
-    print_suminfo(si, LIBMSI_PROPERTY_UUID, "Revision number (UUID)");
-    print_suminfo(si, LIBMSI_PROPERTY_EDITTIME, "Edittime");
-    print_suminfo(si, LIBMSI_PROPERTY_LASTPRINTED, "Last printed");
-    print_suminfo(si, LIBMSI_PROPERTY_CREATED_TM, "Created");
-    print_suminfo(si, LIBMSI_PROPERTY_LASTSAVED_TM, "Last saved");
-    print_suminfo(si, LIBMSI_PROPERTY_VERSION, "Version");
-    print_suminfo(si, LIBMSI_PROPERTY_SOURCE, "Source");
-    print_suminfo(si, LIBMSI_PROPERTY_RESTRICT, "Restrict");
-    print_suminfo(si, LIBMSI_PROPERTY_THUMBNAIL, "Thumbnail");
-    print_suminfo(si, LIBMSI_PROPERTY_APPNAME, "Application");
-    print_suminfo(si, LIBMSI_PROPERTY_SECURITY, "Security");
+    print_suminfo(si, LIBMSI_PROPERTY_TITLE, "Title", error);
+    print_suminfo(si, LIBMSI_PROPERTY_SUBJECT, "Subject", error);
+    print_suminfo(si, LIBMSI_PROPERTY_AUTHOR, "Author", error);
+    print_suminfo(si, LIBMSI_PROPERTY_KEYWORDS, "Keywords", error);
+    print_suminfo(si, LIBMSI_PROPERTY_COMMENTS, "Comments", error);
+    print_suminfo(si, LIBMSI_PROPERTY_TEMPLATE, "Template", error);
+    print_suminfo(si, LIBMSI_PROPERTY_LASTAUTHOR, "Last author", error);
+    print_suminfo(si, LIBMSI_PROPERTY_UUID, "Revision number (UUID)", error);
+    print_suminfo(si, LIBMSI_PROPERTY_EDITTIME, "Edittime", error);
+    print_suminfo(si, LIBMSI_PROPERTY_LASTPRINTED, "Last printed", error);
+    print_suminfo(si, LIBMSI_PROPERTY_CREATED_TM, "Created", error);
+    print_suminfo(si, LIBMSI_PROPERTY_LASTSAVED_TM, "Last saved", error);
+    print_suminfo(si, LIBMSI_PROPERTY_VERSION, "Version", error);
+    print_suminfo(si, LIBMSI_PROPERTY_SOURCE, "Source", error);
+    print_suminfo(si, LIBMSI_PROPERTY_RESTRICT, "Restrict", error);
+    print_suminfo(si, LIBMSI_PROPERTY_THUMBNAIL, "Thumbnail", error);
+    print_suminfo(si, LIBMSI_PROPERTY_APPNAME, "Application", error);
+    print_suminfo(si, LIBMSI_PROPERTY_SECURITY, "Security", error);
 
  end:
     if (db)
@@ -356,7 +352,7 @@ static int cmd_extract(struct Command *cmd, int argc, char **argv, GError **erro
     GInputStream *in = NULL;
     int r = 1;
     char buffer[4096];
-    size_t n_read;
+    gssize n_read;
 
     if (argc != 3) {
         cmd_usage(stderr, cmd);
@@ -385,7 +381,14 @@ static int cmd_extract(struct Command *cmd, int argc, char **argv, GError **erro
     _setmode(STDOUT_FILENO, O_BINARY);
 #endif
 
-    in = G_INPUT_STREAM (libmsi_record_get_stream(rec, 1));
+    if (rec)
+        in = libmsi_record_get_stream(rec, 1);
+    if (!in) {
+        g_set_error(error, LIBMSI_RESULT_ERROR, LIBMSI_RESULT_NOT_FOUND,
+                    "no stream %s", argv[2]);
+        goto end;
+    }
+
     for (;;) {
         n_read = g_input_stream_read (in, buffer, sizeof (buffer), NULL, error);
         if (n_read == -1)
@@ -770,8 +773,10 @@ int main(int argc, char **argv)
     int result = cmd->func(cmd, argc - 1, argv + 1, &error);
     if (error != NULL) {
         g_printerr("error: %s\n", error->message);
-        print_libmsi_error(error->code);
+        if (error->domain == LIBMSI_RESULT_ERROR)
+            print_libmsi_error(error->code);
         g_clear_error(&error);
+        result = 1;
     }
 
     return result;
-- 
2.43.0


From ec3072322ff82373852dd8714a638adff870c618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:11 +0000
Subject: [PATCH 62/93] fix: msiinfo export -s: export empty tables and report
 refusals

---
 tools/msiinfo.c | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/tools/msiinfo.c b/tools/msiinfo.c
index d07f6be..eafc9ac 100644
--- a/tools/msiinfo.c
+++ b/tools/msiinfo.c
@@ -418,7 +418,8 @@ end:
 static gboolean export_create_table(const char *table,
                                     LibmsiRecord *names,
                                     LibmsiRecord *types,
-                                    LibmsiRecord *keys)
+                                    LibmsiRecord *keys,
+                                    GError **error)
 {
     guint num_columns = libmsi_record_get_field_count(names);
     guint num_keys = libmsi_record_get_field_count(keys);
@@ -430,7 +431,9 @@ static gboolean export_create_table(const char *table,
         !strcmp(table, "_Columns") ||
         !strcmp(table, "_Streams") ||
         !strcmp(table, "_Storages")) {
-        return 0;
+        g_set_error(error, LIBMSI_RESULT_ERROR, LIBMSI_RESULT_INVALID_TABLE,
+                    "table %s cannot be exported as SQL", table);
+        return FALSE;
     }
 
     printf("CREATE TABLE `%s` (", table);
@@ -483,7 +486,7 @@ static gboolean export_create_table(const char *table,
 
     for (i = 1; i <= num_keys; i++)
     {
-        name = libmsi_record_get_string(names, i);
+        name = libmsi_record_get_string(keys, i);
         g_return_val_if_fail(name != NULL, FALSE);
 
         printf("%s `%s`", (i > 1 ? "," : " PRIMARY KEY"), name);
@@ -517,6 +520,7 @@ static gboolean export_insert(const char *table,
     gchar *name, *type;
     guint i;
     char *s;
+    const char *sep = "";
 
     printf("INSERT INTO `%s` (", table);
     for (i = 1; i <= num_columns; i++)
@@ -528,23 +532,20 @@ static gboolean export_insert(const char *table,
         name = libmsi_record_get_string(names, i);
         g_return_val_if_fail(name != NULL, FALSE);
 
-        if (i > 1) {
-            printf(", ");
-        }
-
-        printf("`%s`", name);
+        printf("%s`%s`", sep, name);
+        sep = ", ";
         g_free(name);
     }
     printf(") VALUES (");
+    sep = "";
     for (i = 1; i <= num_columns; i++)
     {
         if (libmsi_record_is_null(vals, i)) {
             continue;
         }
 
-        if (i > 1) {
-            printf(", ");
-        }
+        printf("%s", sep);
+        sep = ", ";
 
         type = libmsi_record_get_string(types, i);
         g_return_val_if_fail(type != NULL, FALSE);
@@ -609,8 +610,9 @@ static gboolean export_sql( LibmsiDatabase *db, const char *table, GError **erro
         goto done;
     }
 
-    if (!export_create_table(table, name, type, keys))
+    if (!export_create_table(table, name, type, keys, error))
         goto done;
+    success = TRUE;
 
     /* write out row 4 onwards, the data */
     while ((rec = libmsi_query_fetch(query, &err))) {
@@ -629,10 +631,11 @@ static gboolean export_sql( LibmsiDatabase *db, const char *table, GError **erro
     g_clear_error(&err);
 
 done:
-    g_object_unref(name);
-    g_object_unref(type);
-    g_object_unref(keys);
-    g_object_unref(query);
+    g_free(sql);
+    g_clear_object(&name);
+    g_clear_object(&type);
+    g_clear_object(&keys);
+    g_clear_object(&query);
     return success;
 }
 
@@ -657,7 +660,7 @@ static int cmd_export(struct Command *cmd, int argc, char **argv, GError **error
 
     if (sql) {
         if (!export_sql(db, argv[2], error))
-            return 1;
+            goto end;
     } else {
 #if O_BINARY
         _setmode(STDOUT_FILENO, O_BINARY);
-- 
2.43.0


From 656e2f239a0e80384d2933196a80bd3112fadef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 63/93] fix: msiinfo: fail when standard output cannot be
 written

---
 tools/msiinfo.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/msiinfo.c b/tools/msiinfo.c
index eafc9ac..5086867 100644
--- a/tools/msiinfo.c
+++ b/tools/msiinfo.c
@@ -782,5 +782,10 @@ int main(int argc, char **argv)
         result = 1;
     }
 
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        fprintf(stderr, "%s: cannot write to standard output\n", g_get_prgname ());
+        return 1;
+    }
+
     return result;
 }
-- 
2.43.0


From cf996b43271c1bff19d839d3619060f4bd8d7ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 64/93] fix: msiextract: report a missing cabinet stream and
 list every file

---
 tools/msiextract.vala | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/msiextract.vala b/tools/msiextract.vala
index 006b140..11531f5 100644
--- a/tools/msiextract.vala
+++ b/tools/msiextract.vala
@@ -51,7 +51,10 @@ public void extract_cab (Libmsi.Database db, string cab,
         var query = new Libmsi.Query (db, "SELECT `Data` FROM `_Streams` WHERE `Name` = '%s'".printf (name));
         query.execute ();
         var rec = query.fetch ();
-        cabinet.load (rec.get_stream (1));
+        var stream = rec != null ? rec.get_stream (1) : null;
+        if (stream == null)
+            throw new IOError.NOT_FOUND (_("no stream %s").printf (name));
+        cabinet.load (stream);
     }
     else {
         // Look for the cab file in the directory the MSI file resides in.
@@ -137,7 +140,7 @@ public void extract (string filename) throws GLib.Error {
     }
 
     if (list_only)
-        exit (0);
+        return;
 
     query = new Libmsi.Query (db, "SELECT * FROM `Media`");
     query.execute ();
-- 
2.43.0


From 73f2154a517ad21c7e36bfd5b0e958f03149eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 65/93] fix: wixl: report summary information and preprocessor
 output failures

---
 tools/wixl/builder.vala |  3 ++-
 tools/wixl/msi.vala     | 43 +++++++++++++++--------------------------
 2 files changed, 18 insertions(+), 28 deletions(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 25a235e..5e35496 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -136,7 +136,8 @@ namespace Wixl {
             var p = new Preprocessor (variables, includedirs, arch);
             var doc = p.preprocess (data, file);
             if (preproc_only) {
-                doc.dump_format (FileStream.fdopen (1, "w"));
+                if (doc.dump_format (stdout) < 0 || stdout.flush () != 0)
+                    throw new Wixl.Error.FAILED ("Can't write the preprocessed document");
                 return;
             }
 
diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index 3d72907..087ace2 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -1030,15 +1030,8 @@ namespace Wixl {
     class MsiSummaryInfo: Object {
         public Libmsi.SummaryInfo properties;
 
-        construct {
-            try {
-                properties = new Libmsi.SummaryInfo (null, uint.MAX);
-            } catch (GLib.Error error) {
-                critical (error.message);
-            }
-        }
-
-        public MsiSummaryInfo () {
+        public MsiSummaryInfo () throws GLib.Error {
+            properties = new Libmsi.SummaryInfo (null, uint.MAX);
         }
 
         public new void set_property (Libmsi.Property prop, Value value) throws GLib.Error {
@@ -1156,28 +1149,24 @@ namespace Wixl {
                 return "x64";
         }
 
-        public MsiDatabase (Arch arch, Extension[] extensions) {
+        public MsiDatabase (Arch arch, Extension[] extensions) throws GLib.Error {
             this.arch = arch;
             this.extensions = extensions;
 
             info = new MsiSummaryInfo ();
-            try {
-                info.set_property (Libmsi.Property.TITLE, "Installation Database");
-                info.set_property (Libmsi.Property.TEMPLATE,
-                                   "%s;1033".printf (get_arch_template ()));
-                info.set_property (Libmsi.Property.KEYWORDS, "Installer");
-                info.set_property (Libmsi.Property.CODEPAGE, 1252);
-                info.set_property (Libmsi.Property.UUID, get_uuid ("*"));
-                info.set_property (Libmsi.Property.CREATED_TM,
-                                   time_to_filetime (now ()));
-                info.set_property (Libmsi.Property.LASTSAVED_TM,
-                                   time_to_filetime (now ()));
-                info.set_property (Libmsi.Property.VERSION, get_default_version ());
-                info.set_property (Libmsi.Property.APPNAME, Config.PACKAGE_STRING);
-                info.set_property (Libmsi.Property.SECURITY, 2);
-            } catch (GLib.Error error) {
-                critical (error.message);
-            }
+            info.set_property (Libmsi.Property.TITLE, "Installation Database");
+            info.set_property (Libmsi.Property.TEMPLATE,
+                               "%s;1033".printf (get_arch_template ()));
+            info.set_property (Libmsi.Property.KEYWORDS, "Installer");
+            info.set_property (Libmsi.Property.CODEPAGE, 1252);
+            info.set_property (Libmsi.Property.UUID, get_uuid ("*"));
+            info.set_property (Libmsi.Property.CREATED_TM,
+                               time_to_filetime (now ()));
+            info.set_property (Libmsi.Property.LASTSAVED_TM,
+                               time_to_filetime (now ()));
+            info.set_property (Libmsi.Property.VERSION, get_default_version ());
+            info.set_property (Libmsi.Property.APPNAME, Config.PACKAGE_STRING);
+            info.set_property (Libmsi.Property.SECURITY, 2);
 
             tables = new HashTable<string, MsiTable> (str_hash, str_equal);
             table_property = new MsiTableProperty ();
-- 
2.43.0


From 1a3a989bc08897c5f42f5a9c8e21509b284093cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 66/93] fix: wixl-heat: fail when the file list or the output
 fails

---
 tools/wixl/wixl-heat.vala | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/wixl-heat.vala b/tools/wixl/wixl-heat.vala
index 92302f5..287e7c6 100644
--- a/tools/wixl/wixl-heat.vala
+++ b/tools/wixl/wixl-heat.vala
@@ -110,7 +110,8 @@ public int main (string[] args) {
             }
         }
     } catch (GLib.Error error) {
-        warning (error.message);
+        printerr ("%s\n", error.message);
+        return 1;
     }
 
     indent = indent[0:-2];
@@ -133,5 +134,9 @@ public int main (string[] args) {
     stdout.printf ("</Wix>\n");
     stdout.printf ("<!-- generated with %s -->\n", Config.PACKAGE_STRING);
     stdout.printf ("<!-- %s -->\n", cmdline.replace ("--", "-"));
+    if (stdout.flush () != 0) {
+        printerr (_("Can't write to standard output.\n"));
+        return 1;
+    }
     return 0;
 }
-- 
2.43.0


From 7a2ed9d7af7eec60675ebc5898a9f2d664e9e89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:39 +0000
Subject: [PATCH 67/93] fix: wixl-heat: escape names written into the XML
 document

---
 tools/wixl/wixl-heat.vala | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/tools/wixl/wixl-heat.vala b/tools/wixl/wixl-heat.vala
index 287e7c6..3459387 100644
--- a/tools/wixl/wixl-heat.vala
+++ b/tools/wixl/wixl-heat.vala
@@ -27,7 +27,7 @@ bool filtered (string file) {
 }
 
 string escape_filename(string filename) {
-    return filename.replace("$", "$$");
+    return Markup.escape_text (filename.replace("$", "$$"));
 }
 
 public int main (string[] args) {
@@ -58,7 +58,7 @@ public int main (string[] args) {
     stdout.printf ("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n");
     stdout.printf ("<Wix xmlns=\"http://schemas.microsoft.com/wix/2006/wi\">\n");
     stdout.printf ("  <Fragment>\n");
-    stdout.printf ("    <DirectoryRef Id=\"%s\">\n".printf (dr));
+    stdout.puts ("    <DirectoryRef Id=\"%s\">\n".printf (Markup.escape_text (dr)));
 
     string[] last_path = null;
     List<string> cmpref = null;
@@ -92,7 +92,7 @@ public int main (string[] args) {
                 }
             }
             for (; i < path.length; i++) {
-                stdout.printf (indent + "<Directory Id=\"%s\" Name=\"%s\">\n".printf (random_id ("dir"), path[i]));
+                stdout.puts (indent + "<Directory Id=\"%s\" Name=\"%s\">\n".printf (random_id ("dir"), escape_filename (path[i])));
                 indent += "  ";
             }
             last_path = path;
@@ -101,11 +101,11 @@ public int main (string[] args) {
                 var id = generate_id ("cmp", 1, file);
                 cmpref.append (id);
                 if (win64)
-                    stdout.printf (indent + "<Component Win64=\"$(var.Win64)\" Id=\"%s\" Guid=\"*\">\n".printf (id));
+                    stdout.puts (indent + "<Component Win64=\"$(var.Win64)\" Id=\"%s\" Guid=\"*\">\n".printf (id));
                 else
-                    stdout.printf (indent + "<Component Id=\"%s\" Guid=\"*\">\n".printf (id));
-                file = sourcedir + Path.DIR_SEPARATOR_S + escape_filename(file);
-                stdout.printf (indent + "  <File Id=\"%s\" KeyPath=\"yes\" Source=\"%s\"/>\n".printf (generate_id ("fil", 1, file), file));
+                    stdout.puts (indent + "<Component Id=\"%s\" Guid=\"*\">\n".printf (id));
+                file = Markup.escape_text (sourcedir) + Path.DIR_SEPARATOR_S + escape_filename(file);
+                stdout.puts (indent + "  <File Id=\"%s\" KeyPath=\"yes\" Source=\"%s\"/>\n".printf (generate_id ("fil", 1, file), file));
                 stdout.printf (indent + "</Component>\n");
             }
         }
@@ -124,16 +124,18 @@ public int main (string[] args) {
     stdout.printf ("  </Fragment>\n");
     if (cg != null) {
         stdout.printf ("  <Fragment>\n");
-        stdout.printf ("    <ComponentGroup Id=\"%s\">\n".printf (cg));
+        stdout.puts ("    <ComponentGroup Id=\"%s\">\n".printf (Markup.escape_text (cg)));
         foreach (var id in cmpref)
-            stdout.printf ("      <ComponentRef Id=\"%s\"/>\n".printf (id));
+            stdout.puts ("      <ComponentRef Id=\"%s\"/>\n".printf (id));
         stdout.printf ("    </ComponentGroup>\n");
         stdout.printf ("  </Fragment>\n");
     }
 
     stdout.printf ("</Wix>\n");
     stdout.printf ("<!-- generated with %s -->\n", Config.PACKAGE_STRING);
-    stdout.printf ("<!-- %s -->\n", cmdline.replace ("--", "-"));
+    while ("--" in cmdline)
+        cmdline = cmdline.replace ("--", "-");
+    stdout.printf ("<!-- %s -->\n", cmdline);
     if (stdout.flush () != 0) {
         printerr (_("Can't write to standard output.\n"));
         return 1;
-- 
2.43.0


From 4a73ac8a151750cc57a914981fcd76ead8bea926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:43 +0000
Subject: [PATCH 68/93] fix: wixl: keep literal and escaped dollar signs

---
 tools/wixl/preprocessor.vala | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index 1769d3c..19fa703 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -68,9 +68,11 @@ namespace Wixl {
                     result += str[end:pos];
                 end = pos + 1;
                 var remainder = str[end:str.length];
-                if (remainder.has_prefix ("$"))
+                if (remainder.has_prefix ("$")) {
                     result += "$";
-                else if (remainder.has_prefix ("(")) {
+                    if (!remainder.has_prefix ("$("))
+                        end++;
+                } else if (remainder.has_prefix ("(")) {
                     var closing = find_closing_paren (remainder);
                     if (closing == -1)
                         throw new Wixl.Error.FAILED ("no matching closing parenthesis");
@@ -82,7 +84,8 @@ namespace Wixl {
                         throw new Wixl.Error.FAILED ("Undefined variable %s", substring);
                     result += val;
                     end += closing + 1;
-                }
+                } else
+                    result += "$";
             }
 
             return result + str[end:str.length];
-- 
2.43.0


From 661f121f8e9dd140da01e4596e18a020e3e8e8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 69/93] fix: an unpaired quote in an SQL statement made the
 parser copy 4 GB

---
 libmsi/sql-parser.y | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmsi/sql-parser.y b/libmsi/sql-parser.y
index 7b8d912..eb9c783 100644
--- a/libmsi/sql-parser.y
+++ b/libmsi/sql-parser.y
@@ -825,6 +825,10 @@ unsigned sql_unescape_string( void *info, const struct sql_str *strdata, char **
     const char *p = strdata->data;
     unsigned len = strdata->len;
 
+    /* a lone quote has no partner */
+    if( len == 1 && ( p[0]=='`' || p[0]=='\'' ) )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
     /* match quotes */
     if( ( (p[0]=='`') && (p[len-1]!='`') ) ||
         ( (p[0]=='\'') && (p[len-1]!='\'') ) )
-- 
2.43.0


From 63a0c9a9e5666ab328c1ba61cd4f578909d01f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 70/93] fix: an SQL statement ending in a minus sign used an
 uninitialised token

---
 libmsi/tokenize.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libmsi/tokenize.c b/libmsi/tokenize.c
index 20a3327..de28f75 100644
--- a/libmsi/tokenize.c
+++ b/libmsi/tokenize.c
@@ -157,8 +157,7 @@ static const char isIdChar[] = {
 
 
 /*
-** Return the length of the token that begins at z[0].  Return
-** -1 if the token is (or might be) incomplete.  Store the token
+** Return the length of the token that begins at z[0].  Store the token
 ** type in *tokenType before returning.
 */
 int sql_get_token(const char *zz, int *tokenType, int *skip){
@@ -172,7 +171,6 @@ int sql_get_token(const char *zz, int *tokenType, int *skip){
       *tokenType = TK_SPACE;
       return i;
     case '-':
-      if( z[1]==0 ) return -1;
       *tokenType = TK_MINUS;
       return 1;
     case '(':
-- 
2.43.0


From 49b38138c86a104a977a4c74d392255e1af258c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 71/93] fix: string parameters of a join condition could be
 taken from the wrong record field

---
 libmsi/where.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/libmsi/where.c b/libmsi/where.c
index 6931495..30305e5 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -515,15 +515,18 @@ static unsigned expr_eval_strcmp( LibmsiWhereView *wv, const unsigned rows[], co
 {
     int sr;
     const char *l_str, *r_str;
-    unsigned r;
+    unsigned rl, rr;
 
+    /* evaluate both sides, so that each parameter is counted */
     *val = true;
-    r = expr_eval_string(wv, rows, expr->left, record, &l_str);
-    if (r != LIBMSI_RESULT_SUCCESS)
-        return r;
-    r = expr_eval_string(wv, rows, expr->right, record, &r_str);
-    if (r != LIBMSI_RESULT_SUCCESS)
-        return r;
+    rl = expr_eval_string(wv, rows, expr->left, record, &l_str);
+    rr = expr_eval_string(wv, rows, expr->right, record, &r_str);
+    if (rl != LIBMSI_RESULT_SUCCESS && rl != LIBMSI_RESULT_CONTINUE)
+        return rl;
+    if (rr != LIBMSI_RESULT_SUCCESS)
+        return rr;
+    if (rl != LIBMSI_RESULT_SUCCESS)
+        return rl;
 
     if( l_str == r_str ||
         ((!l_str || !*l_str) && (!r_str || !*r_str)) )
-- 
2.43.0


From 411c51718d825ac15c8567e8b55b3d2d7ff64882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:09 +0000
Subject: [PATCH 72/93] fix: parameters after a constant in UPDATE were taken
 from the wrong record field

---
 libmsi/update.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmsi/update.c b/libmsi/update.c
index 70681d6..27b5762 100644
--- a/libmsi/update.c
+++ b/libmsi/update.c
@@ -65,7 +65,8 @@ static unsigned update_view_execute( LibmsiView *view, LibmsiRecord *record )
         r = libmsi_record_get_field_count(record);
 
         for (i = 0; col; col = col->next)
-            i++;
+            if (col->val && col->val->type == EXPR_WILDCARD)
+                i++;
 
         cols_count = i;
         where_count = r > i ? r - i : 0;
-- 
2.43.0


From 4a61f4413758c68ccf805465ffc524c3bf381294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:49 +0000
Subject: [PATCH 73/93] fix: an SQL number too large for 32 bits was stored as
 another number

---
 libmsi/sql-parser.y | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/libmsi/sql-parser.y b/libmsi/sql-parser.y
index eb9c783..50b5757 100644
--- a/libmsi/sql-parser.y
+++ b/libmsi/sql-parser.y
@@ -51,7 +51,7 @@ typedef struct _LibmsiSQLInput
 } SQL_input;
 
 static unsigned sql_unescape_string( void *info, const struct sql_str *strdata, char **str );
-static int sql_atoi( void *info );
+static bool sql_atoi( void *info, int *val );
 static int sql_lex( void *SQL_lval, SQL_input *info );
 
 static char *parser_add_table( void *info, const char *list, const char *table );
@@ -745,7 +745,8 @@ string:
 number:
     TK_INTEGER
         {
-            $$ = sql_atoi( info );
+            if( !sql_atoi( info, &$$ ) )
+                YYABORT;
         }
     ;
 
@@ -850,23 +851,27 @@ unsigned sql_unescape_string( void *info, const struct sql_str *strdata, char **
     return LIBMSI_RESULT_SUCCESS;
 }
 
-int sql_atoi( void *info )
+bool sql_atoi( void *info, int *val )
 {
     SQL_input* sql = (SQL_input*) info;
     const char *p = &sql->command[sql->n];
-    int i, r = 0;
+    int i;
+    int64_t r = 0;
 
     for( i=0; i<sql->len; i++ )
     {
         if( '0' > p[i] || '9' < p[i] )
         {
             g_critical("should only be numbers here!\n");
-            break;
+            return false;
         }
         r = (p[i]-'0') + r*10;
+        if( r > INT32_MAX )
+            return false;
     }
 
-    return r;
+    *val = r;
+    return true;
 }
 
 static int sql_error(void *info, const char *str )
-- 
2.43.0


From 38c94955a01f0837b345df616e7b76a5db523f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 74/93] fix: rows after a temporary row were lost when the
 database was committed

---
 libmsi/table.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 1761149..27ab9aa 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -890,7 +890,7 @@ err:
 static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned bytes_per_strref )
 {
     uint8_t *rawdata = NULL;
-    unsigned rawsize, i, j, row_size, row_count;
+    unsigned rawsize, i, j, row, row_size, row_count;
     unsigned r = LIBMSI_RESULT_FUNCTION_FAILED;
 
     /* Nothing to do for non-persistent tables */
@@ -907,14 +907,11 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
     TRACE("Saving %s\n", debugstr_a( t->name ) );
 
     row_size = msi_table_get_row_size( db, t->colinfo, t->col_count, bytes_per_strref );
-    row_count = t->row_count;
+    row_count = 0;
     for (i = 0; i < t->row_count; i++)
     {
-        if (!t->data_persistent[i])
-        {
-            row_count = i; /* only the rows before it are saved */
-            break;
-        }
+        if (t->data_persistent[i])
+            row_count++; /* temporary rows are not saved */
     }
     rawsize = row_count * row_size;
     rawdata = msi_alloc_zero( rawsize ? rawsize : 1 );
@@ -925,11 +922,12 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
     }
 
     rawsize = 0;
+    row = 0;
     for (i = 0; i < t->row_count; i++)
     {
         unsigned ofs = 0, ofs_mem = 0;
 
-        if (!t->data_persistent[i]) break;
+        if (!t->data_persistent[i]) continue;
 
         for (j = 0; j < t->col_count; j++)
         {
@@ -953,11 +951,12 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
             }
             for (k = 0; k < n; k++)
             {
-                rawdata[ofs * row_count + i * n + k] = t->data[i][ofs_mem + k];
+                rawdata[ofs * row_count + row * n + k] = t->data[i][ofs_mem + k];
             }
             ofs_mem += m;
             ofs += n;
         }
+        row++;
         rawsize += row_size;
     }
 
-- 
2.43.0


From eb6e0e7a7bf9f8224bbe0e5458b79ac3e901b505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 75/93] fix: transforms were never applied: names of their
 tables kept part of the prefix

---
 libmsi/table.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 27ab9aa..a96ffad 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2647,9 +2647,9 @@ unsigned msi_table_apply_transform( LibmsiDatabase *db, GsfInfile *stg )
         if ( encname[0] != 0xe4 || encname[1] != 0xa1 || encname[2] != 0x80)
             continue;
 
-        name = decode_streamname((char*)encname);
-        if ( !strcmp( name+3, szStringPool ) ||
-             !strcmp( name+3, szStringData ) )
+        name = decode_streamname((char*)encname + 3);
+        if ( !strcmp( name, szStringPool ) ||
+             !strcmp( name, szStringData ) )
             continue;
 
         transform = msi_alloc_zero( sizeof(TRANSFORMDATA) );
@@ -2658,7 +2658,7 @@ unsigned msi_table_apply_transform( LibmsiDatabase *db, GsfInfile *stg )
 
         list_add_tail( &transforms, &transform->entry );
 
-        transform->name = strdup( name + 1 );
+        transform->name = strdup( name );
 
         if ( !strcmp( transform->name, szTables ) )
             tables = transform;
-- 
2.43.0


From a1751ad5606e6b868a40cd0f22ed33532e45fe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 76/93] fix: applying a transform with a stream used the stream
 after releasing it

---
 libmsi/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index a96ffad..f81904d 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2247,7 +2247,7 @@ static LibmsiRecord *msi_get_transform_record( const LibmsiTableView *tv, const
                 return NULL;
             }
 
-            r = _libmsi_record_load_stream( rec, i+1, stm );
+            r = _libmsi_record_set_gsf_input( rec, i+1, stm );
             g_object_unref( G_OBJECT(stm) );
             if ( r != LIBMSI_RESULT_SUCCESS )
             {
-- 
2.43.0


From 340d9fd66296713cab87a83f8ee867544d564b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 77/93] fix: reading a null record field as an integer reported
 a programming error

---
 libmsi/libmsi-record.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmsi/libmsi-record.c b/libmsi/libmsi-record.c
index 6231cef..d520134 100644
--- a/libmsi/libmsi-record.c
+++ b/libmsi/libmsi-record.c
@@ -262,6 +262,8 @@ libmsi_record_get_int (const LibmsiRecord *rec, guint field)
         if( expr_int_from_string( rec->fields[field].u.szVal, &ret ) )
             return ret;
         return LIBMSI_NULL_INT;
+    case LIBMSI_FIELD_TYPE_NULL:
+        return LIBMSI_NULL_INT;
     default:
         g_warn_if_reached ();
     }
-- 
2.43.0


From 39d11ac823f193352a58430cb6b14b002cae9f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 78/93] fix: a string length that wraps around was accepted
 when loading the string pool

---
 libmsi/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index cd6e383..9f26490 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -556,7 +556,7 @@ string_table *msi_load_string_table( GsfInfile *stg, unsigned *bytes_per_strref
             i += 1;
         }
 
-        if ( (offset + len) > datasize )
+        if ( len > datasize - offset )
         {
             g_critical("string table corrupt?\n");
             break;
-- 
2.43.0


From be21885939170e89e819a70994ac40ff6d973f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 79/93] fix: exported text with tabs or line breaks could not
 be imported again

---
 libmsi/libmsi-database.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index c3e80b4..d638cd0 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -751,11 +751,9 @@ static void msi_parse_line(char **line, char ***entries, unsigned *num_entries,
         while (chars_left && *ptr != '\t' && *ptr != '\n' && *ptr != '\r')
         {
             if (!*ptr) *ptr = '\n'; /* convert embedded nulls to \n */
-            if (ptr > *line && *ptr == '\x19' && *(ptr - 1) == '\x11')
-            {
-                *ptr = '\n';
-                *(ptr - 1) = '\r';
-            }
+            else if (*ptr == '\x10') *ptr = '\t';
+            else if (*ptr == '\x11') *ptr = '\r';
+            else if (*ptr == '\x19') *ptr = '\n';
             ptr++;
             chars_left--;
         }
@@ -1271,6 +1269,20 @@ end:
     return spliced != -1;
 
 }
+
+/* characters that separate fields are stored as others, see msi_parse_line */
+static void msi_escape_text (char *str)
+{
+    for (; *str; str++) {
+        if (*str == '\t')
+            *str = '\x10';
+        else if (*str == '\r')
+            *str = '\x11';
+        else if (*str == '\n')
+            *str = '\x19';
+    }
+}
+
 static unsigned msi_export_record(int fd, LibmsiRecord *row,
                                   unsigned start, GFile *table_dir,
                                   GError **error)
@@ -1295,6 +1307,7 @@ static unsigned msi_export_record(int fd, LibmsiRecord *row,
             str = libmsi_record_get_string (row, i);
             if (!str)
                 goto end;
+            msi_escape_text (str);
         }
 
         /* TODO full_write */
@@ -1370,6 +1383,7 @@ static LibmsiResult msi_export_summaryinfo (LibmsiDatabase *db, int fd, GError *
             gchar *val = summary_info_as_string (si, i);
             if (!val)
                 goto end;
+            msi_escape_text (val);
             str = g_strdup_printf ("%d\t%s\r\n", i, val);
             sz = strlen (str);
             if (write (fd, str, sz) != sz)
-- 
2.43.0


From dfe65a0300f0dc96ebbdd50510348e3d29b722e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 80/93] fix: summer times of the summary information changed
 when exported and imported

---
 libmsi/libmsi-summary-info.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index dbcfe7f..df17877 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -265,8 +265,8 @@ static gchar* filetime_to_string (guint64 ft)
 
 static gboolean parse_filetime( const char *str, guint64 *ft )
 {
-    /* set to 0, tm_isdst can make the result vary: */
-    struct tm tm = { 0, };
+    /* the text is local time, as filetime_to_string writes it */
+    struct tm tm = { .tm_isdst = -1, };
     time_t t;
     const char *p = str;
     char *end;
-- 
2.43.0


From 6261303ad9482c1557e66cd5326b6b6201ef3e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:47 +0000
Subject: [PATCH 81/93] fix: rows of tables with 32 columns were stored empty

---
 libmsi/msipriv.h |  8 ++++++++
 libmsi/select.c  |  9 +++++++--
 libmsi/table.c   | 19 +++++++++++++++----
 libmsi/update.c  |  2 +-
 libmsi/where.c   |  8 ++++----
 5 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/libmsi/msipriv.h b/libmsi/msipriv.h
index 086dd55..3133ef1 100644
--- a/libmsi/msipriv.h
+++ b/libmsi/msipriv.h
@@ -74,6 +74,14 @@ typedef enum LibmsiCondition
 
 #define NO_MORE_ITEMS G_MAXINT
 
+#define MSI_MAX_COLUMNS 32
+
+/* one bit for each of the first count columns */
+static inline unsigned msi_column_mask( unsigned count )
+{
+    return count < MSI_MAX_COLUMNS ? (1u << count) - 1 : ~0u;
+}
+
 #define MSITYPE_IS_BINARY(type) (((type) & ~MSITYPE_NULLABLE) == (MSITYPE_STRING|MSITYPE_VALID))
 
 struct _LibmsiTable;
diff --git a/libmsi/select.c b/libmsi/select.c
index c4ab6fd..29273cb 100644
--- a/libmsi/select.c
+++ b/libmsi/select.c
@@ -106,7 +106,7 @@ static unsigned select_view_set_row( LibmsiView *view, unsigned row, LibmsiRecor
          return LIBMSI_RESULT_FUNCTION_FAILED;
 
     /* test if any of the mask bits are invalid */
-    if ( mask >= (1<<sv->num_cols) )
+    if ( mask & ~msi_column_mask( sv->num_cols ) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     /* find the number of columns in the table below */
@@ -125,7 +125,12 @@ static unsigned select_view_set_row( LibmsiView *view, unsigned row, LibmsiRecor
         r = _libmsi_record_copy_field( rec, i+1, expanded, sv->cols[ i ] );
         if (r != LIBMSI_RESULT_SUCCESS)
             break;
-        expanded_mask |= (1<<(sv->cols[i]-1));
+        if (sv->cols[i] - 1 >= MSI_MAX_COLUMNS)
+        {
+            r = LIBMSI_RESULT_INVALID_PARAMETER;
+            break;
+        }
+        expanded_mask |= (1u<<(sv->cols[i]-1));
     }
 
     /* set the row in the underlying table */
diff --git a/libmsi/table.c b/libmsi/table.c
index f81904d..c349f1e 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -746,6 +746,14 @@ unsigned msi_create_table( LibmsiDatabase *db, const char *name, column_info *co
         return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
     }
 
+    for( i = 0, col = col_info; col; i++, col = col->next )
+        ;
+    if( i > MSI_MAX_COLUMNS )
+    {
+        g_warning("table %s has too many columns\n", debugstr_a(name));
+        return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
+    }
+
     table = msi_alloc( sizeof (LibmsiTable) + strlen(name)*sizeof (char) );
     if( !table )
         return LIBMSI_RESULT_FUNCTION_FAILED;
@@ -1342,7 +1350,7 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     /* test if any of the mask bits are invalid */
-    if ( mask >= (1<<tv->num_cols) )
+    if ( tv->num_cols > MSI_MAX_COLUMNS || (mask & ~msi_column_mask( tv->num_cols )) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     for ( i = 0; i < tv->num_cols; i++ )
@@ -1350,7 +1358,7 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         bool persistent;
 
         /* only update the fields specified in the mask */
-        if ( !(mask&(1<<i)) )
+        if ( !(mask&(1u<<i)) )
             continue;
 
         persistent = (tv->table->persistent != LIBMSI_CONDITION_FALSE) &&
@@ -1695,7 +1703,7 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
 
     /* Re-set the persistence flag */
     tv->table->data_persistent[row] = !temporary;
-    r = table_view_set_row( view, row, rec, (1<<tv->num_cols) - 1 );
+    r = table_view_set_row( view, row, rec, msi_column_mask( tv->num_cols ) );
     if( r != LIBMSI_RESULT_SUCCESS )
         table_view_delete_row( view, row );
 
@@ -1930,6 +1938,9 @@ static unsigned table_view_add_column(LibmsiView *view, const char *table, unsig
     LibmsiRecord *rec;
     unsigned r, i;
 
+    if (number > MSI_MAX_COLUMNS)
+        return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
+
     rec = libmsi_record_new(4);
     if (!rec)
         return LIBMSI_RESULT_OUTOFMEMORY;
@@ -2574,7 +2585,7 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
                 else if (mask & 1)
                 {
                     TRACE("modifying full row [%d]:\n", row);
-                    r = table_view_set_row( &tv->view, row, rec, (1 << tv->num_cols) - 1 );
+                    r = table_view_set_row( &tv->view, row, rec, msi_column_mask( tv->num_cols ) );
                     if (r != LIBMSI_RESULT_SUCCESS)
                         g_warning("failed to modify row %u\n", r);
                 }
diff --git a/libmsi/update.c b/libmsi/update.c
index 27b5762..5a2a35d 100644
--- a/libmsi/update.c
+++ b/libmsi/update.c
@@ -112,7 +112,7 @@ static unsigned update_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     for ( i=0; i<row_count; i++ )
     {
-        r = wv->ops->set_row( wv, i, values, (1 << col_count) - 1 );
+        r = wv->ops->set_row( wv, i, values, msi_column_mask( col_count ) );
         if (r != LIBMSI_RESULT_SUCCESS)
             break;
     }
diff --git a/libmsi/where.c b/libmsi/where.c
index 30305e5..f0662c0 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -280,7 +280,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     if (r != LIBMSI_RESULT_SUCCESS)
         return r;
 
-    if (mask >= 1 << wv->col_count)
+    if (mask & ~msi_column_mask( wv->col_count ))
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     do
@@ -288,7 +288,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         for (i = 0; i < table->col_count; i++) {
             unsigned type;
 
-            if (!(mask_copy & (1 << i)))
+            if (i >= MSI_MAX_COLUMNS || !(mask_copy & (1u << i)))
                 continue;
             r = table->view->ops->get_column_info(table->view, i + 1, NULL,
                                             &type, NULL, NULL );
@@ -297,7 +297,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
             if (type & MSITYPE_KEY)
                 return LIBMSI_RESULT_FUNCTION_FAILED;
         }
-        mask_copy >>= table->col_count;
+        mask_copy = table->col_count < MSI_MAX_COLUMNS ? mask_copy >> table->col_count : 0;
     }
     while (mask_copy && (table = table->next));
 
@@ -307,7 +307,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     {
         const unsigned col_count = table->col_count;
         LibmsiRecord *reduced;
-        unsigned reduced_mask = (mask >> offset) & ((1 << col_count) - 1);
+        unsigned reduced_mask = offset < MSI_MAX_COLUMNS ? (mask >> offset) & msi_column_mask( col_count ) : 0;
 
         if (!reduced_mask)
         {
-- 
2.43.0


From f04f2ae08b3147ff7d8c23f1853ffd8c4febd3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:32 +0000
Subject: [PATCH 82/93] fix: a transform that deletes a missing row added a row
 with its key

---
 libmsi/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index c349f1e..eab8459 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2597,7 +2597,7 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
                         g_warning("failed to modify row %u\n", r);
                 }
             }
-            else
+            else if (mask)
             {
                 TRACE("inserting row\n");
                 r = table_view_insert_row( &tv->view, rec, -1, false );
-- 
2.43.0


From ed63e7498ee3a85a2d44a547b944060f6c007e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:32 +0000
Subject: [PATCH 83/93] fix: a transform with columns of a table that is not
 loaded or has a long name crashed

---
 libmsi/table.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index eab8459..0aa2491 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -983,6 +983,8 @@ static void msi_update_table_columns( LibmsiDatabase *db, const char *name )
     unsigned n;
 
     table = find_cached_table( db, name );
+    if (!table)
+        return; /* not loaded yet */
     old_count = table->col_count;
     msi_free_colinfo( table->colinfo, table->col_count );
     msi_free( table->colinfo );
@@ -2443,7 +2445,7 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
     LibmsiTableView *tv = NULL;
     unsigned r, n, sz, i, mask, num_cols, colcol = 0, rawsize = 0;
     LibmsiRecord *rec = NULL;
-    char coltable[32];
+    g_autofree char *coltable = NULL;
     const char *name;
 
     if (!transform)
@@ -2451,7 +2453,6 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
 
     name = transform->name;
 
-    coltable[0] = 0;
     TRACE("%p %p %p %s\n", db, stg, st, debugstr_a(name) );
 
     /* read the transform data */
@@ -2542,14 +2543,13 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
         rec = msi_get_transform_record( tv, st, stg, &rawdata[n], bytes_per_strref );
         if (rec)
         {
-            char table[32];
+            const char *table = NULL;
             unsigned number = LIBMSI_NULL_INT;
             unsigned row = 0;
 
             if (!strcmp( name, szColumns ))
             {
-                unsigned tablesz = 32;
-                _libmsi_record_get_string( rec, 1, table, &tablesz );
+                table = _libmsi_record_get_string_raw( rec, 1 );
                 number = libmsi_record_get_int( rec, 2 );
 
                 /*
@@ -2559,10 +2559,11 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
                 if ( number == LIBMSI_NULL_INT )
                 {
                     /* reset the column number on a new table */
-                    if (strcmp( coltable, table ))
+                    if (g_strcmp0( coltable, table ))
                     {
                         colcol = 0;
-                        strcpy( coltable, table );
+                        g_free( coltable );
+                        coltable = g_strdup( table );
                     }
 
                     /* fix nul column numbers */
@@ -2605,7 +2606,7 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
                     g_warning("failed to insert row %u\n", r);
             }
 
-            if (number != LIBMSI_NULL_INT && !strcmp( name, szColumns ))
+            if (number != LIBMSI_NULL_INT && table && !strcmp( name, szColumns ))
                 msi_update_table_columns( db, table );
 
             g_object_unref(rec);
-- 
2.43.0


From 94bc9fce3e0243e72aaf9c2136b789ea65dc75ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 84/93] fix: a transform row whose stream is null was ignored

---
 libmsi/table.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 0aa2491..867619c 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2241,8 +2241,12 @@ static LibmsiRecord *msi_get_transform_record( const LibmsiTableView *tv, const
             char *encname;
             GsfInput *stm = NULL;
             unsigned r;
+            unsigned n = bytes_per_column( tv->db, &columns[i], bytes_per_strref );
 
-            ofs += bytes_per_column( tv->db, &columns[i], bytes_per_strref );
+            val = read_raw_int(rawdata, ofs, n);
+            ofs += n;
+            if ( !val )
+                continue;
 
             r = msi_record_encoded_stream_name( tv, rec, &encname );
             if ( r != LIBMSI_RESULT_SUCCESS )
-- 
2.43.0


From 200ef8bfb776b7126eaf7e7302b51fa42298cfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:45 +0000
Subject: [PATCH 85/93] fix: tables after an empty one of a transform were not
 applied

---
 libmsi/table.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 867619c..b4e3fe3 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2460,11 +2460,11 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
     TRACE("%p %p %p %s\n", db, stg, st, debugstr_a(name) );
 
     /* read the transform data */
-    read_stream_data( stg, name, &rawdata, &rawsize );
+    r = read_stream_data( stg, name, &rawdata, &rawsize );
     if ( !rawdata )
     {
         TRACE("table %s empty\n", debugstr_a(name) );
-        return LIBMSI_RESULT_INVALID_TABLE;
+        return r == LIBMSI_RESULT_SUCCESS ? r : LIBMSI_RESULT_INVALID_TABLE;
     }
 
     /* create a table view */
-- 
2.43.0


From 0cf2e3f5a989afb898dac0cfe5cf9f11470fc8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 86/93] fix: a row added before one with the same string did
 not keep the string

---
 libmsi/table.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmsi/table.c b/libmsi/table.c
index b4e3fe3..ba8c7d0 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1703,6 +1703,9 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
         tv->table->data_persistent[i] = tv->table->data_persistent[i - 1];
     }
 
+    /* the cells of the row that was moved away are not those of the new one */
+    memset( tv->table->data[row], 0, tv->row_size );
+
     /* Re-set the persistence flag */
     tv->table->data_persistent[row] = !temporary;
     r = table_view_set_row( view, row, rec, msi_column_mask( tv->num_cols ) );
-- 
2.43.0


From ac9fa3519bab07f04f9ec337a6d4a26887788f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 87/93] fix: fetching a stream column of a DISTINCT query
 crashed

---
 libmsi/distinct.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/libmsi/distinct.c b/libmsi/distinct.c
index fa1253e..9d97a70 100644
--- a/libmsi/distinct.c
+++ b/libmsi/distinct.c
@@ -99,6 +99,23 @@ static unsigned distinct_view_fetch_int( LibmsiView *view, unsigned row, unsigne
     return dv->table->ops->fetch_int( dv->table, row, col, val );
 }
 
+static unsigned distinct_view_fetch_stream( LibmsiView *view, unsigned row, unsigned col, GsfInput **stm )
+{
+    LibmsiDistinctView *dv = (LibmsiDistinctView*)view;
+
+    TRACE("%p %d %d %p\n", dv, row, col, stm );
+
+    if( !dv->table )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
+    if( row >= dv->row_count )
+        return LIBMSI_RESULT_INVALID_PARAMETER;
+
+    row = dv->translation[ row ];
+
+    return dv->table->ops->fetch_stream( dv->table, row, col, stm );
+}
+
 static unsigned distinct_view_execute( LibmsiView *view, LibmsiRecord *record )
 {
     LibmsiDistinctView *dv = (LibmsiDistinctView*)view;
@@ -255,7 +272,7 @@ static unsigned distinct_view_find_matching_rows( LibmsiView *view, unsigned col
 static const LibmsiViewOps distinct_ops =
 {
     distinct_view_fetch_int,
-    NULL,
+    distinct_view_fetch_stream,
     NULL,
     NULL,
     NULL,
-- 
2.43.0


From 651d3970b1320f6d728b614a74fe53017303b018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 88/93] fix: fetching from an INSERT or UPDATE of a stream
 column crashed

---
 libmsi/libmsi-query.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmsi/libmsi-query.c b/libmsi/libmsi-query.c
index dff2a95..236e76a 100644
--- a/libmsi/libmsi-query.c
+++ b/libmsi/libmsi-query.c
@@ -318,6 +318,13 @@ unsigned msi_view_get_row(LibmsiDatabase *db, LibmsiView *view, unsigned row, Li
         {
             GsfInput *stm = NULL;
 
+            /* statements that are not queries have no streams */
+            if (!view->ops->fetch_stream)
+            {
+                ret = LIBMSI_RESULT_FUNCTION_FAILED;
+                goto fail;
+            }
+
             ret = view->ops->fetch_stream(view, row, i, &stm);
             if ((ret == LIBMSI_RESULT_SUCCESS) && stm)
             {
-- 
2.43.0


From 78d0c7bcc0b737c86e032a7b68a3ee533f198b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 89/93] fix: merge rows whose keys contain a quote or are null

---
 libmsi/libmsi-database.c | 62 ++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index d638cd0..87a03d2 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1658,7 +1658,7 @@ done:
     return r;
 }
 
-static char *get_key_value(LibmsiQuery *view, const char *key, LibmsiRecord *rec)
+static int get_key_field(LibmsiQuery *view, const char *key)
 {
     LibmsiRecord *colnames;
     char *str;
@@ -1667,7 +1667,7 @@ static char *get_key_value(LibmsiQuery *view, const char *key, LibmsiRecord *rec
 
     r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_NAMES, &colnames);
     if (r != LIBMSI_RESULT_SUCCESS)
-        return NULL;
+        return 0;
 
     count = libmsi_record_get_field_count(colnames);
     while (cmp && i < count)
@@ -1678,54 +1678,57 @@ static char *get_key_value(LibmsiQuery *view, const char *key, LibmsiRecord *rec
     }
 
     g_object_unref(colnames);
-    if (cmp)
-        return NULL;
-
-    if (_libmsi_record_get_string_raw(rec, i))  /* check record field is a string */
-        /* quote string record fields */
-        str = g_strdup_printf ("'%s'", _libmsi_record_get_string_raw (rec, i));
-    else
-        str = libmsi_record_get_string (rec, i);
-
-    return str;
+    return cmp ? 0 : i;
 }
 
 static char *create_diff_row_query(LibmsiDatabase *merge, LibmsiQuery *view,
-                                    char *table, LibmsiRecord *rec)
+                                    char *table, LibmsiRecord *rec,
+                                    LibmsiRecord **params)
 {
     GString *query;
-    char *val;
     const char *key;
     LibmsiRecord *keys;
-    unsigned r, i, count;
+    unsigned r, i, count, n = 0;
+    int field;
 
     r = _libmsi_database_get_primary_keys(merge, table, &keys);
     if (r != LIBMSI_RESULT_SUCCESS)
         return NULL;
 
     query = g_string_sized_new(256);
-    g_string_printf (query, "SELECT * FROM %s WHERE ", table);
+    g_string_printf (query, "SELECT * FROM `%s` WHERE ", table);
     count = libmsi_record_get_field_count(keys);
+    *params = libmsi_record_new (count);
     for (i = 1; i <= count; i++)
     {
         key = _libmsi_record_get_string_raw(keys, i);
-        val = get_key_value(view, key, rec);
-        if (!val)
+        field = get_key_field(view, key);
+        if (!field)
+            goto fail;
+
+        if (i > 1)
+            g_string_append (query, " AND ");
+
+        if (libmsi_record_is_null (rec, field))
         {
-            g_object_unref(keys);
-            g_string_free (query, TRUE);
-            return NULL;
+            g_string_append_printf (query, "`%s` IS NULL", key);
+            continue;
         }
 
-        if (i == count)
-            g_string_append_printf (query, "`%s` = %s", key, val);
-        else
-            g_string_append_printf (query, "`%s` = %s AND ", key, val);
-        g_free (val);
+        g_string_append_printf (query, "`%s` = ?", key);
+        if (_libmsi_record_copy_field (rec, field, *params, ++n) != LIBMSI_RESULT_SUCCESS)
+            goto fail;
     }
 
     g_object_unref(keys);
     return  g_string_free (query, FALSE);
+
+fail:
+    g_object_unref(keys);
+    g_object_unref(*params);
+    *params = NULL;
+    g_string_free (query, TRUE);
+    return NULL;
 }
 
 static unsigned merge_diff_row(LibmsiRecord *rec, void *param)
@@ -1735,13 +1738,14 @@ static unsigned merge_diff_row(LibmsiRecord *rec, void *param)
     MERGEROW *mergerow;
     LibmsiQuery *dbview = NULL;
     LibmsiRecord *row = NULL;
+    LibmsiRecord *params = NULL;
     char *query = NULL;
     unsigned r = LIBMSI_RESULT_SUCCESS;
     GError *err = NULL;
 
     if (table_view_exists(data->db, table->name))
     {
-        query = create_diff_row_query(data->merge, data->curview, table->name, rec);
+        query = create_diff_row_query(data->merge, data->curview, table->name, rec, &params);
         if (!query)
             return LIBMSI_RESULT_OUTOFMEMORY;
 
@@ -1752,7 +1756,7 @@ static unsigned merge_diff_row(LibmsiRecord *rec, void *param)
             goto done;
         }
 
-        r = _libmsi_query_execute(dbview, NULL);
+        r = _libmsi_query_execute(dbview, params);
         if (r != LIBMSI_RESULT_SUCCESS)
             goto done;
 
@@ -1792,6 +1796,8 @@ done:
     msi_free(query);
     if (row)
         g_object_unref(row);
+    if (params)
+        g_object_unref(params);
     if (dbview)
         g_object_unref(dbview);
     return r;
-- 
2.43.0


From 51977b90221eba840f6cd4d77e1eca2f3067f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:43 +0000
Subject: [PATCH 90/93] fix: export and merge tables whose name is a keyword

---
 libmsi/libmsi-database.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 87a03d2..8ab5258 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1404,7 +1404,7 @@ end:
 static LibmsiResult _libmsi_database_export(LibmsiDatabase *db, const char *table,
                                         int fd, GError **error)
 {
-    static const char query[] = "select * from %s";
+    static const char query[] = "select * from `%s`";
     LibmsiRecord *rec = NULL;
     LibmsiQuery *view = NULL;
     LibmsiResult r;
@@ -1943,7 +1943,7 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
     MERGETABLE *table;
     LibmsiQuery *mergeview = NULL;
 
-    static const char query[] = "SELECT * FROM %s";
+    static const char query[] = "SELECT * FROM `%s`";
 
     table = msi_alloc_zero(sizeof(MERGETABLE));
     if (!table)
@@ -1993,7 +1993,7 @@ static unsigned merge_diff_tables(LibmsiRecord *rec, void *param)
     const char *name;
     unsigned r;
 
-    static const char query[] = "SELECT * FROM %s";
+    static const char query[] = "SELECT * FROM `%s`";
 
     name = _libmsi_record_get_string_raw(rec, 1);
 
-- 
2.43.0


From d5dfbead696493d11a367184d9995d65a07a6f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 91/93] fix: text fields with numbers that do not fit are no
 integers

---
 libmsi/libmsi-record.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmsi/libmsi-record.c b/libmsi/libmsi-record.c
index d520134..d29a0c4 100644
--- a/libmsi/libmsi-record.c
+++ b/libmsi/libmsi-record.c
@@ -159,7 +159,7 @@ libmsi_record_get_field_count (const LibmsiRecord *self)
 
 static bool expr_int_from_string( const char *str, int *out )
 {
-    int x = 0;
+    int64_t x = 0;
     const char *p = str;
 
     if( *p == '-' ) /* skip the minus sign */
@@ -170,6 +170,8 @@ static bool expr_int_from_string( const char *str, int *out )
             return false;
         x *= 10;
         x += (*p - '0');
+        if( x > INT32_MAX )
+            return false;
         p++;
     }
 
-- 
2.43.0


From e32643f12eee476ba0515a475420128c374411bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 92/93] fix: numbers in text fields that do not fit are
 truncated, as the tests expect (reverts d5dfbea)

---
 libmsi/libmsi-record.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libmsi/libmsi-record.c b/libmsi/libmsi-record.c
index d29a0c4..d520134 100644
--- a/libmsi/libmsi-record.c
+++ b/libmsi/libmsi-record.c
@@ -159,7 +159,7 @@ libmsi_record_get_field_count (const LibmsiRecord *self)
 
 static bool expr_int_from_string( const char *str, int *out )
 {
-    int64_t x = 0;
+    int x = 0;
     const char *p = str;
 
     if( *p == '-' ) /* skip the minus sign */
@@ -170,8 +170,6 @@ static bool expr_int_from_string( const char *str, int *out )
             return false;
         x *= 10;
         x += (*p - '0');
-        if( x > INT32_MAX )
-            return false;
         p++;
     }
 
-- 
2.43.0


From d974ee0908828b95eb09c3aa624734d34f2576b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:39 +0000
Subject: [PATCH 93/93] fix: rows of _Streams and _Storages without a name are
 refused instead of crashing

---
 libmsi/storages.c | 2 +-
 libmsi/streams.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmsi/storages.c b/libmsi/storages.c
index 8fd254e..b0b6cc5 100644
--- a/libmsi/storages.c
+++ b/libmsi/storages.c
@@ -142,7 +142,7 @@ static unsigned storages_view_set_row(LibmsiView *view, unsigned row, LibmsiReco
         storage = sv->storages[row];
         name = strdup(msi_string_lookup_id(sv->db->strings, storage->str_index));
     } else {
-        name = strdup(_libmsi_record_get_string_raw(rec, 1));
+        name = g_strdup(_libmsi_record_get_string_raw(rec, 1));
     }
     if (!name)
     {
diff --git a/libmsi/streams.c b/libmsi/streams.c
index c4f2b4c..e67df8d 100644
--- a/libmsi/streams.c
+++ b/libmsi/streams.c
@@ -156,7 +156,7 @@ static unsigned streams_view_set_row(LibmsiView *view, unsigned row, LibmsiRecor
         stream = sv->streams[row];
         name = strdup(msi_string_lookup_id(sv->db->strings, stream->str_index));
     } else {
-        name = strdup(_libmsi_record_get_string_raw(rec, 1));
+        name = g_strdup(_libmsi_record_get_string_raw(rec, 1));
         if (!name)
         {
             g_warning("failed to retrieve stream name\n");
-- 
2.43.0

