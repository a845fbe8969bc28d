From 1d6ef2db3b873d1d7be7cc4d9dd3e952d8f5e341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:04 +0000
Subject: [PATCH 01/70] fix: createChangeset failed for tables with key columns
 only, and missed changes hidden by collation or numeric equality

---
 geodiff/src/drivers/sqlitedriver.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index fd237ab..95c4563 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -378,13 +378,13 @@ static std::string sqlFindModified( const std::string &tableName, const TableSch
       exprPk += sqlitePrintf( "\"%w\".\"%w\".\"%w\"=\"%w\".\"%w\".\"%w\"",
                               "main", tableName.c_str(), c.name.c_str(), "aux", tableName.c_str(), c.name.c_str() );
     }
-    else // not a primary key column
-    {
-      if ( !exprOther.empty() )
-        exprOther += " OR ";
-      exprOther += sqlitePrintf( "\"%w\".\"%w\".\"%w\" IS NOT \"%w\".\"%w\".\"%w\"",
-                                 "main", tableName.c_str(), c.name.c_str(), "aux", tableName.c_str(), c.name.c_str() );
-    }
+    // compare values exactly, also those of the primary key: neither the column's collation (e.g. NOCASE)
+    // nor equality of an integer with a real number should hide a change
+    if ( !exprOther.empty() )
+      exprOther += " OR ";
+    std::string colMain = sqlitePrintf( "\"%w\".\"%w\".\"%w\"", "main", tableName.c_str(), c.name.c_str() );
+    std::string colAux = sqlitePrintf( "\"%w\".\"%w\".\"%w\"", "aux", tableName.c_str(), c.name.c_str() );
+    exprOther += "(" + colMain + " IS NOT " + colAux + " COLLATE BINARY OR typeof(" + colMain + ") IS NOT typeof(" + colAux + "))";
   }
 
   std::string sql = sqlitePrintf( "SELECT * FROM \"%w\".\"%w\", \"%w\".\"%w\" WHERE %s AND (%s)",
-- 
2.43.0


From 94f3b0a5d128a11da97f3b5420e2101cfbab1f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:40 +0000
Subject: [PATCH 02/70] fix: text values with an embedded NUL character were
 compared and applied only up to it

---
 geodiff/src/drivers/sqlitedriver.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 95c4563..af17e71 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -408,7 +408,12 @@ static bool valuesEqual( sqlite3_value *v1, sqlite3_value *v2 )
     return sqlite3_value_double( v1 ) == sqlite3_value_double( v2 );
   else if ( type1 == SQLITE_TEXT )
   {
-    return strcmp( ( const char * ) sqlite3_value_text( v1 ), ( const char * ) sqlite3_value_text( v2 ) ) == 0;
+    // the text may contain NUL characters
+    const char *text1 = ( const char * ) sqlite3_value_text( v1 );
+    const char *text2 = ( const char * ) sqlite3_value_text( v2 );
+    int len1 = sqlite3_value_bytes( v1 );
+    int len2 = sqlite3_value_bytes( v2 );
+    return len1 == len2 && memcmp( text1, text2, len1 ) == 0;
   }
   else if ( type1 == SQLITE_BLOB )
   {
@@ -655,7 +660,7 @@ static void bindValue( sqlite3_stmt *stmt, int index, const Value &v )
   else if ( v.type() == Value::TypeNull )
     rc = sqlite3_bind_null( stmt, index );
   else if ( v.type() == Value::TypeText )
-    rc = sqlite3_bind_text( stmt, index, v.getString().c_str(), -1, SQLITE_TRANSIENT );
+    rc = sqlite3_bind_text( stmt, index, v.getString().c_str(), v.getString().size(), SQLITE_TRANSIENT );
   else if ( v.type() == Value::TypeBlob )
     rc = sqlite3_bind_blob( stmt, index, v.getString().c_str(), v.getString().size(), SQLITE_TRANSIENT );
   else
-- 
2.43.0


From 0f1d96f226c85def2d440d0ce2f2a4f35838104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:42 +0000
Subject: [PATCH 03/70] fix: memcmp was called with null pointers for empty
 blobs

---
 geodiff/src/drivers/sqlitedriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index af17e71..f0014f0 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -421,7 +421,7 @@ static bool valuesEqual( sqlite3_value *v1, sqlite3_value *v2 )
     int len2 = sqlite3_value_bytes( v2 );
     if ( len1 != len2 )
       return false;
-    return memcmp( sqlite3_value_blob( v1 ), sqlite3_value_blob( v2 ), len1 ) == 0;
+    return len1 == 0 || memcmp( sqlite3_value_blob( v1 ), sqlite3_value_blob( v2 ), len1 ) == 0;  // blob pointers are null if empty
   }
   else
   {
-- 
2.43.0


From 8ade3bcb78185723aff6a6adc3d2bf3180f410e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 04/70] fix: rows of tables with generated columns were read
 with columns shifted

---
 geodiff/src/drivers/sqlitedriver.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index f0014f0..0e44b11 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -343,6 +343,19 @@ static std::string sqlitePrintf( const char *zFormat, ... )
   return res;
 }
 
+//! Returns list of the table's columns for use in SELECT (unlike "*" it does not contain generated columns)
+static std::string sqlColumnList( const std::string &dbName, const std::string &tableName, const TableSchema &tbl )
+{
+  std::string columns;
+  for ( const TableColumnInfo &c : tbl.columns )
+  {
+    if ( !columns.empty() )
+      columns += ", ";
+    columns += sqlitePrintf( "\"%w\".\"%w\".\"%w\"", dbName.c_str(), tableName.c_str(), c.name.c_str() );
+  }
+  return columns;
+}
+
 //! Constructs SQL query to get all rows that do not exist in the other table (used for insert and delete)
 static std::string sqlFindInserted( const std::string &tableName, const TableSchema &tbl, bool reverse )
 {
@@ -358,7 +371,8 @@ static std::string sqlFindInserted( const std::string &tableName, const TableSch
     }
   }
 
-  std::string sql = sqlitePrintf( "SELECT * FROM \"%w\".\"%w\" WHERE NOT EXISTS ( SELECT 1 FROM \"%w\".\"%w\" WHERE %s)",
+  std::string sql = sqlitePrintf( "SELECT %s FROM \"%w\".\"%w\" WHERE NOT EXISTS ( SELECT 1 FROM \"%w\".\"%w\" WHERE %s)",
+                                  sqlColumnList( reverse ? "aux" : "main", tableName, tbl ).c_str(),
                                   reverse ? "aux" : "main", tableName.c_str(),
                                   reverse ? "main" : "aux", tableName.c_str(), exprPk.c_str() );
   return sql;
@@ -387,7 +401,8 @@ static std::string sqlFindModified( const std::string &tableName, const TableSch
     exprOther += "(" + colMain + " IS NOT " + colAux + " COLLATE BINARY OR typeof(" + colMain + ") IS NOT typeof(" + colAux + "))";
   }
 
-  std::string sql = sqlitePrintf( "SELECT * FROM \"%w\".\"%w\", \"%w\".\"%w\" WHERE %s AND (%s)",
+  std::string sql = sqlitePrintf( "SELECT %s, %s FROM \"%w\".\"%w\", \"%w\".\"%w\" WHERE %s AND (%s)",
+                                  sqlColumnList( "main", tableName, tbl ).c_str(), sqlColumnList( "aux", tableName, tbl ).c_str(),
                                   "main", tableName.c_str(), "aux", tableName.c_str(), exprPk.c_str(), exprOther.c_str() );
   return sql;
 }
@@ -951,7 +966,7 @@ void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
 
     bool first = true;
     Sqlite3Stmt statementI;
-    statementI.prepare( mDb, "SELECT * FROM \"%w\".\"%w\"", dbName.c_str(), tableName.c_str() );
+    statementI.prepare( mDb, "SELECT %s FROM \"%w\".\"%w\"", sqlColumnList( dbName, tableName, tbl ).c_str(), dbName.c_str(), tableName.c_str() );
     while ( SQLITE_ROW == sqlite3_step( statementI.get() ) )
     {
       if ( first )
-- 
2.43.0


From d17250ece4aee61a3be8fffd31483b2c6e405d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 05/70] fix: applyChangeset failed with trigger names that need
 quoting, and ignored errors when dropping or recreating triggers

---
 geodiff/src/drivers/sqlitedriver.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 0e44b11..620a229 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -711,8 +711,9 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   Sqlite3Stmt statament;
   for ( std::string name : triggerNames )
   {
-    statament.prepare( mDb, "drop trigger %s", name.c_str() );
-    sqlite3_step( statament.get() );
+    statament.prepare( mDb, "drop trigger \"%w\"", name.c_str() );
+    if ( sqlite3_step( statament.get() ) != SQLITE_DONE )
+      throw GeoDiffException( "Unable to drop trigger: " + name );
     statament.close();
   }
 
@@ -820,7 +821,8 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   for ( std::string cmd : triggerCmds )
   {
     statament.prepare( mDb, "%s", cmd.c_str() );
-    sqlite3_step( statament.get() );
+    if ( sqlite3_step( statament.get() ) != SQLITE_DONE )
+      throw GeoDiffException( "Unable to recreate trigger: " + cmd );
     statament.close();
   }
 
-- 
2.43.0


From 66d1c53436ba792965a8810bcc972f9434fcb793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:17 +0000
Subject: [PATCH 06/70] fix: errors while reading rows from a database ended
 the reading silently

---
 geodiff/src/drivers/sqlitedriver.cpp | 16 ++++++++--------
 geodiff/src/drivers/sqliteutils.cpp  | 20 ++++++++++++++------
 geodiff/src/drivers/sqliteutils.h    |  2 ++
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 620a229..9fafee0 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -178,7 +178,7 @@ std::vector<std::string> SqliteDriver::listTables( bool useModified )
                                " ORDER BY name";
   Sqlite3Stmt statement;
   statement.prepare( mDb, "%s", all_tables_sql.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  while ( statement.fetchRow() )
   {
     const char *name = ( const char * )sqlite3_column_text( statement.get(), 0 );
     if ( !name )
@@ -222,7 +222,7 @@ bool tableExists( std::shared_ptr<Sqlite3Db> db, const std::string &tableName, c
   Sqlite3Stmt stmtHasGeomColumnsInfo;
   stmtHasGeomColumnsInfo.prepare( db, "SELECT name FROM \"%w\".sqlite_master WHERE type='table' "
                                   "AND name='%q'", dbName.c_str(), tableName.c_str() );
-  return sqlite3_step( stmtHasGeomColumnsInfo.get() ) == SQLITE_ROW;
+  return stmtHasGeomColumnsInfo.fetchRow();
 }
 
 TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useModified )
@@ -237,7 +237,7 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
 
   Sqlite3Stmt statement;
   statement.prepare( mDb, "PRAGMA '%q'.table_info('%q')", dbName.c_str(), tableName.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  while ( statement.fetchRow() )
   {
     const unsigned char *zName = sqlite3_column_text( statement.get(), 1 );
     if ( zName == nullptr )
@@ -269,7 +269,7 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
   int srsId = -1;
   Sqlite3Stmt stmtGeomCol;
   stmtGeomCol.prepare( mDb, "SELECT * FROM \"%w\".gpkg_geometry_columns WHERE table_name = '%q'", dbName.c_str(), tableName.c_str() );
-  if ( SQLITE_ROW == sqlite3_step( stmtGeomCol.get() ) )
+  if ( stmtGeomCol.fetchRow() )
   {
     const unsigned char *chrColumnName = sqlite3_column_text( stmtGeomCol.get(), 1 );
     const unsigned char *chrTypeName = sqlite3_column_text( stmtGeomCol.get(), 2 );
@@ -304,7 +304,7 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
   {
     Sqlite3Stmt stmtCrs;
     stmtCrs.prepare( mDb, "SELECT * FROM \"%w\".gpkg_spatial_ref_sys WHERE srs_id = %d", dbName.c_str(), srsId );
-    if ( SQLITE_ROW != sqlite3_step( stmtCrs.get() ) )
+    if ( !stmtCrs.fetchRow() )
       throw GeoDiffException( "Unable to find entry in gpkg_spatial_ref_sys for srs_id = " + std::to_string( srsId ) );
 
     const unsigned char *chrAuthName = sqlite3_column_text( stmtCrs.get(), 2 );
@@ -469,7 +469,7 @@ static void handleInserted( const std::string &tableName, const TableSchema &tbl
   std::string sqlInserted = sqlFindInserted( tableName, tbl, reverse );
   Sqlite3Stmt statementI;
   statementI.prepare( db, "%s", sqlInserted.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statementI.get() ) )
+  while ( statementI.fetchRow() )
   {
     if ( first )
     {
@@ -501,7 +501,7 @@ static void handleUpdated( const std::string &tableName, const TableSchema &tbl,
 
   Sqlite3Stmt statement;
   statement.prepare( db, "%s", sqlModified.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  while ( statement.fetchRow() )
   {
     if ( first )
     {
@@ -969,7 +969,7 @@ void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
     bool first = true;
     Sqlite3Stmt statementI;
     statementI.prepare( mDb, "SELECT %s FROM \"%w\".\"%w\"", sqlColumnList( dbName, tableName, tbl ).c_str(), dbName.c_str(), tableName.c_str() );
-    while ( SQLITE_ROW == sqlite3_step( statementI.get() ) )
+    while ( statementI.fetchRow() )
     {
       if ( first )
       {
diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index b6c1ba6..86915e2 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -135,6 +135,14 @@ void Sqlite3Stmt::close()
   }
 }
 
+bool Sqlite3Stmt::fetchRow()
+{
+  int rc = sqlite3_step( mStmt );
+  if ( rc != SQLITE_ROW && rc != SQLITE_DONE )
+    throw GeoDiffException( "Failed to read from sqlite3 database: " + std::string( sqlite3_errstr( rc ) ) );
+  return rc == SQLITE_ROW;
+}
+
 std::string Sqlite3Stmt::expandedSql() const
 {
   char *str = sqlite3_expanded_sql( mStmt );
@@ -233,7 +241,7 @@ void sqliteTriggers( std::shared_ptr<Sqlite3Db> db, std::vector<std::string> &tr
 
   Sqlite3Stmt statament;
   statament.prepare( db, "%s", "select name, sql from sqlite_master where type = 'trigger'" );
-  while ( SQLITE_ROW == sqlite3_step( statament.get() ) )
+  while ( statament.fetchRow() )
   {
     const char *name = ( char * ) sqlite3_column_text( statament.get(), 0 );
     const char *sql = ( char * ) sqlite3_column_text( statament.get(), 1 );
@@ -300,7 +308,7 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
     {
       Sqlite3Stmt pStmt;     /* SQL statement being run */
       pStmt.prepare( db, "SELECT * FROM %s.pragma_foreign_key_list(%Q)", dbName.c_str(), fromTableName.c_str() );
-      while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+      while ( pStmt.fetchRow() )
       {
         const char *fk_to_table = ( const char * )sqlite3_column_text( pStmt.get(), 2 );
         const char *fk_from = ( const char * )sqlite3_column_text( pStmt.get(), 3 );
@@ -344,7 +352,7 @@ void sqliteTables( std::shared_ptr<Sqlite3Db> db,
                                " ORDER BY name";
   Sqlite3Stmt statament;
   statament.prepare( db, "%s", all_tables_sql.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statament.get() ) )
+  while ( statament.fetchRow() )
   {
     const char *name = ( const char * )sqlite3_column_text( statament.get(), 0 );
     if ( !name )
@@ -409,7 +417,7 @@ std::vector<std::string> sqliteColumnNames(
   */
   const char *zTab = tableName.c_str();
   pStmt.prepare( db, "PRAGMA %s.index_list=%Q", zDb.c_str(), zTab );
-  while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+  while ( pStmt.fetchRow() )
   {
     if ( sqlite3_stricmp( ( const char * )sqlite3_column_text( pStmt.get(), 3 ), "pk" ) == 0 )
     {
@@ -425,7 +433,7 @@ std::vector<std::string> sqliteColumnNames(
     int nCol = 0;
     truePk = 0;
     pStmt.prepare( db, "PRAGMA %s.index_xinfo=%Q", zDb.c_str(), zPkIdxName.c_str() );
-    while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+    while ( pStmt.fetchRow() )
     {
       nCol++;
       if ( sqlite3_column_int( pStmt.get(), 5 ) ) { nKey++; continue; }
@@ -451,7 +459,7 @@ std::vector<std::string> sqliteColumnNames(
 
   naz = nPK;
   az.resize( naz );
-  while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+  while ( pStmt.fetchRow() )
   {
     int iPKey;
     std::string name = ( char * )sqlite3_column_text( pStmt.get(), 1 );
diff --git a/geodiff/src/drivers/sqliteutils.h b/geodiff/src/drivers/sqliteutils.h
index b6038f1..bb0e0a3 100644
--- a/geodiff/src/drivers/sqliteutils.h
+++ b/geodiff/src/drivers/sqliteutils.h
@@ -43,6 +43,8 @@ class Sqlite3Stmt
     void prepare( std::shared_ptr<Sqlite3Db> db, const char *zFormat, ... );
     sqlite3_stmt *get();
     void close();
+    //! Steps the statement - returns true if a row is available, false at the end, throws GeoDiffException on error
+    bool fetchRow();
     //! Returns SQL statement with bound parameters expanded
     std::string expandedSql() const;
   private:
-- 
2.43.0


From fff30473a75e2f2b9decc87cc265e7b169accfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 07/70] fix: applyChangeset went on after errors that roll back
 the transaction, and committed the rest of the changes

---
 geodiff/src/drivers/sqlitedriver.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 9fafee0..daeb260 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -18,6 +18,14 @@ static void logApplyConflict( const std::string &type, const ChangesetEntry &ent
   Logger::instance().warn( "CONFLICT: " + type + ":\n" + changesetEntryToJSON( entry ) );
 }
 
+//! Throws if the last operation did not fail because of data (constraint violation), but because of an error
+//! of the database (e.g. disk is full) - SQLite may have rolled back everything, so we must not go on
+static void checkApplyFailure( std::shared_ptr<Sqlite3Db> db )
+{
+  if ( sqlite3_errcode( db->get() ) != SQLITE_CONSTRAINT || sqlite3_get_autocommit( db->get() ) )
+    throw GeoDiffException( "Failed to apply changes: " + std::string( sqlite3_errmsg( db->get() ) ) );
+}
+
 /**
  * Wrapper around SQLite database wide mutex.
  */
@@ -759,6 +767,7 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
       if ( sqlite3_step( stmtInsert->get() ) != SQLITE_DONE )
       {
         // it could be that the primary key already exists or some constraint violation (e.g. not null, unique)
+        checkApplyFailure( mDb );
         logApplyConflict( "insert_failed", entry );
         ++conflictCount;
       }
@@ -781,6 +790,7 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
       if ( sqlite3_step( stmtUpdate->get() ) != SQLITE_DONE )
       {
         // a constraint must have been violated (e.g. foreign key, not null, unique)
+        checkApplyFailure( mDb );
         logApplyConflict( "update_failed", entry );
         ++conflictCount;
       }
@@ -802,6 +812,7 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
       if ( sqlite3_step( stmtDelete->get() ) != SQLITE_DONE )
       {
         // a foreign key constraint must have been violated
+        checkApplyFailure( mDb );
         logApplyConflict( "delete_failed", entry );
         ++conflictCount;
       }
-- 
2.43.0


From 516234a1bd9f7c24e8a82e1768dcb38099ef4b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 08/70] fix: out of bounds access when a changeset repeats a
 table with a different number of columns (apply, invert)

---
 geodiff/src/changesetutils.cpp       | 2 +-
 geodiff/src/drivers/sqlitedriver.cpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 2d9b5dd..f348051 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -29,7 +29,7 @@ void invertChangeset( ChangesetReader &reader, ChangesetWriter &writer )
   while ( reader.nextEntry( entry ) )
   {
     assert( entry.table );
-    if ( entry.table->name != currentTableName )
+    if ( entry.table->name != currentTableName || entry.table->primaryKeys != currentPkeys )
     {
       writer.beginTable( *entry.table );
       currentTableName = entry.table->name;
diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index daeb260..8cbcb9b 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -697,6 +697,7 @@ static void bindValue( sqlite3_stmt *stmt, int index, const Value &v )
 void SqliteDriver::applyChangeset( ChangesetReader &reader )
 {
   std::string lastTableName;
+  std::vector<bool> lastPrimaryKeys;
   std::unique_ptr<Sqlite3Stmt> stmtInsert, stmtUpdate, stmtDelete;
   TableSchema tbl;
 
@@ -729,10 +730,11 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   ChangesetEntry entry;
   while ( reader.nextEntry( entry ) )
   {
-    if ( entry.table->name != lastTableName )
+    if ( entry.table->name != lastTableName || entry.table->primaryKeys != lastPrimaryKeys )
     {
       std::string tableName = entry.table->name;
       lastTableName = tableName;
+      lastPrimaryKeys = entry.table->primaryKeys;
       tbl = tableSchema( tableName );
 
       if ( tbl.columns.size() == 0 )
-- 
2.43.0


From 5ac0c7c10e81d160088d4bb221311cb6c89e55a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:09 +0000
Subject: [PATCH 09/70] fix: an update without old values was applied with the
 values of the preceding update

---
 geodiff/src/drivers/sqlitedriver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 8cbcb9b..a71975e 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -783,6 +783,8 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
       {
         const Value &vOld = entry.oldValues[i];
         const Value &vNew = entry.newValues[i];
+        if ( vOld.type() == Value::TypeUndefined && ( tbl.columns[i].isPrimaryKey || vNew.type() != Value::TypeUndefined ) )
+          throw GeoDiffException( "Missing old value in update of table: " + lastTableName );
         sqlite3_bind_int( stmtUpdate->get(), static_cast<int>( i ) * 3 + 2, vNew.type() != Value::TypeUndefined );
         if ( vOld.type() != Value::TypeUndefined )
           bindValue( stmtUpdate->get(), static_cast<int>( i ) * 3 + 1, vOld );
-- 
2.43.0


From f7de809a2cf975f618048f33bcb92bc62d621dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:52 +0000
Subject: [PATCH 10/70] fix: reading past the end of a truncated or corrupted
 changeset

---
 geodiff/src/changesetreader.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/changesetreader.cpp b/geodiff/src/changesetreader.cpp
index 27ca43c..18ebe17 100644
--- a/geodiff/src/changesetreader.cpp
+++ b/geodiff/src/changesetreader.cpp
@@ -88,6 +88,13 @@ int ChangesetReader::readVarint()
 {
   u32 value;
   const unsigned char *ptr = ( const unsigned char * )mBuffer->c_buf() + mOffset;
+  // varint has up to 9 bytes, the last one does not have the highest bit set
+  int available = mBuffer->size() - mOffset;
+  int last = 0;
+  while ( last < 8 && last < available && ( ptr[last] & 0x80 ) )
+    ++last;
+  if ( last >= available )
+    throwReaderError( "readVarint: at the end of buffer" );
   int nBytes = getVarint32( ptr, value );
   mOffset += nBytes;
   return value;
@@ -123,6 +130,8 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
       // 64-bit int (big endian)
       int64_t v;
       uint64_t x;
+      if ( mBuffer->size() - mOffset < 8 )
+        throwReaderError( "readRowValues: int: at the end of buffer" );
       memcpy( &x, mBuffer->c_buf() + mOffset, 8 );
       mOffset += 8;
       x = be64toh( x ); // convert big endian to host
@@ -134,6 +143,8 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
       // 64-bit double (big endian)
       double v;
       uint64_t x;
+      if ( mBuffer->size() - mOffset < 8 )
+        throwReaderError( "readRowValues: double: at the end of buffer" );
       memcpy( &x, mBuffer->c_buf() + mOffset, 8 );
       mOffset += 8;
       x = be64toh( x ); // convert big endian to host
@@ -143,7 +154,7 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
     else if ( type == Value::TypeText || type == Value::TypeBlob ) // 0x03 or 0x04
     {
       int len = readVarint();
-      if ( mOffset + len > mBuffer->size() )
+      if ( len < 0 || len > mBuffer->size() - mOffset )
         throwReaderError( "readRowValues: text/blob: at the end of buffer" );
       values[i].setString( type == Value::TypeText ? Value::TypeText : Value::TypeBlob, mBuffer->c_buf() + mOffset, len );
       mOffset += len;
-- 
2.43.0


From 3c84b4a4711fad339b2104b6843d04995bf0e30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 11/70] fix: unknown records, entries without a table and
 tables without columns in a changeset were accepted

---
 geodiff/src/changesetreader.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/changesetreader.cpp b/geodiff/src/changesetreader.cpp
index 18ebe17..05e3eef 100644
--- a/geodiff/src/changesetreader.cpp
+++ b/geodiff/src/changesetreader.cpp
@@ -50,6 +50,8 @@ bool ChangesetReader::nextEntry( ChangesetEntry &entry )
     }
     else if ( type == ChangesetEntry::OpInsert || type == ChangesetEntry::OpUpdate || type == ChangesetEntry::OpDelete )
     {
+      if ( mCurrentTable.columnCount() == 0 )
+        throwReaderError( "nextEntry: entry without a table" );
       int indirect = readByte();
       if ( type != ChangesetEntry::OpInsert )
         readRowValues( entry.oldValues );
@@ -60,6 +62,10 @@ bool ChangesetReader::nextEntry( ChangesetEntry &entry )
       entry.table = &mCurrentTable;
       return true;  // we're done!
     }
+    else
+    {
+      throwReaderError( "nextEntry: unexpected record type" );
+    }
   }
   return false;
 }
@@ -185,7 +191,7 @@ void ChangesetReader::readTableRecord()
   */
 
   int nCol = readVarint();
-  if ( nCol < 0 || nCol > 65536 )
+  if ( nCol <= 0 || nCol > 65536 )
     throwReaderError( "readByte: unexpected number of columns" );
 
   mCurrentTable.primaryKeys.clear();
-- 
2.43.0


From c720db38857cb4ecc1d2aec84eb5e989a80c4d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:55 +0000
Subject: [PATCH 12/70] fix: exception left GEODIFF_changesCount for a
 malformed changeset

---
 geodiff/src/geodiff.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index ff4da8d..a902506 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -268,12 +268,20 @@ int GEODIFF_changesCount( const char *changeset )
     return -1;
   }
 
-  int changesCount = 0;
-  ChangesetEntry entry;
-  while ( reader.nextEntry( entry ) )
-    ++changesCount;
+  try
+  {
+    int changesCount = 0;
+    ChangesetEntry entry;
+    while ( reader.nextEntry( entry ) )
+      ++changesCount;
 
-  return changesCount;
+    return changesCount;
+  }
+  catch ( GeoDiffException exc )
+  {
+    Logger::instance().error( exc );
+    return -1;
+  }
 }
 
 static int listChangesJSON( const char *changeset, const char *jsonfile, bool onlySummary )
-- 
2.43.0


From f498dad9ad050c38c429719300242536416e67e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:56 +0000
Subject: [PATCH 13/70] fix: changeset files larger than 4 GB were read as the
 remainder of their size

---
 geodiff/src/geodiffutils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 15368b9..62b7629 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -12,6 +12,7 @@
 #include <stdlib.h>
 #include <stdarg.h>
 #include <ctype.h>
+#include <limits.h>
 #include <string.h>
 #include <sqlite3.h>
 #include <exception>
@@ -108,6 +109,11 @@ void Buffer::read( const std::string &filename )
     fclose( fp );
     throw GeoDiffException( "Unable to read file size of " + filename );
   }
+  if ( off_end > INT_MAX )
+  {
+    fclose( fp );
+    throw GeoDiffException( "File is too large: " + filename );
+  }
   mAlloc = ( size_t )off_end;
   mUsed = mAlloc;
 
-- 
2.43.0


From 98cbdbcb50fd774e4a4873d4e82424537e4adca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:12 +0000
Subject: [PATCH 14/70] fix: crash when null arguments are passed to
 createRebasedChangeset, invertChangeset and rebaseEx

---
 geodiff/src/geodiff.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index a902506..9c7d5a6 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -154,7 +154,7 @@ int GEODIFF_createRebasedChangeset( const char *base,
                                     const char *conflictfile
                                   )
 {
-  if ( !conflictfile )
+  if ( !base || !modified || !changeset_their || !changeset || !conflictfile )
   {
     Logger::instance().error( "NULL arguments to GEODIFF_createRebasedChangeset" );
     return GEODIFF_ERROR;
@@ -328,7 +328,7 @@ int GEODIFF_listChangesSummary( const char *changeset, const char *jsonfile )
 
 int GEODIFF_invertChangeset( const char *changeset, const char *changeset_inv )
 {
-  if ( !changeset )
+  if ( !changeset || !changeset_inv )
   {
     Logger::instance().error( "NULL arguments to GEODIFF_invertChangeset" );
     return GEODIFF_ERROR;
@@ -406,9 +406,9 @@ int GEODIFF_rebaseEx( const char *driverName,
                       const char *base2their,
                       const char *conflictfile )
 {
-  if ( !base || !modified || !modified || !conflictfile )
+  if ( !driverName || !base || !modified || !base2their || !conflictfile )
   {
-    Logger::instance().error( "NULL arguments to GEODIFF_rebase" );
+    Logger::instance().error( "NULL arguments to GEODIFF_rebaseEx" );
     return GEODIFF_ERROR;
   }
 
-- 
2.43.0


From ac474e5fa1ce787dc10fdf5fa325e30fe50c9e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:47 +0000
Subject: [PATCH 15/70] fix: failure to open or write a changeset file was not
 reported

---
 geodiff/src/changesetwriter.cpp |  7 +++++++
 geodiff/src/changesetwriter.h   |  3 +++
 geodiff/src/geodiff.cpp         | 13 ++++++++++---
 geodiff/src/geodiffrebase.cpp   |  3 ++-
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/changesetwriter.cpp b/geodiff/src/changesetwriter.cpp
index 3b7b6fe..87f65af 100644
--- a/geodiff/src/changesetwriter.cpp
+++ b/geodiff/src/changesetwriter.cpp
@@ -28,6 +28,13 @@ bool ChangesetWriter::open( const std::string &filename )
   return true;
 }
 
+void ChangesetWriter::close()
+{
+  mFile.close();
+  if ( !mFile )
+    throw GeoDiffException( "Unable to write changeset file" );
+}
+
 void ChangesetWriter::beginTable( const ChangesetTable &table )
 {
   mCurrentTable = table;
diff --git a/geodiff/src/changesetwriter.h b/geodiff/src/changesetwriter.h
index 81a40b8..49489ed 100644
--- a/geodiff/src/changesetwriter.h
+++ b/geodiff/src/changesetwriter.h
@@ -27,6 +27,9 @@ class ChangesetWriter
     //! opens a file for writing changeset (will overwrite if it exists already)
     bool open( const std::string &filename );
 
+    //! closes the file - throws GeoDiffException if anything could not be written
+    void close();
+
     //! writes table information, all subsequent writes will be related to this table until next call to beginTable()
     void beginTable( const ChangesetTable &table );
 
diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 9c7d5a6..9e02c74 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -95,6 +95,7 @@ int GEODIFF_createChangesetEx( const char *driverName, const char *driverExtraIn
     if ( !writer.open( changeset ) )
       throw GeoDiffException( "Unable to open changeset file for writing: " + std::string( changeset ) );
     driver->createChangeset( writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
@@ -357,6 +358,7 @@ int GEODIFF_invertChangeset( const char *changeset, const char *changeset_inv )
   try
   {
     invertChangeset( reader, writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
@@ -533,8 +535,10 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     // get source data
     {
       ChangesetWriter writer;
-      writer.open( tmpFileChangeset.c_path() );
+      if ( !writer.open( tmpFileChangeset.c_path() ) )
+        throw GeoDiffException( "Unable to open changeset file for writing: " + tmpFileChangeset.path() );
       driverSrc->dumpData( writer );
+      writer.close();
     }
 
     // create destination
@@ -550,7 +554,8 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     // insert data to destination
     {
       ChangesetReader reader;
-      reader.open( tmpFileChangeset.c_path() );
+      if ( !reader.open( tmpFileChangeset.c_path() ) )
+        throw GeoDiffException( "Unable to open changeset file for reading: " + tmpFileChangeset.path() );
       driverDst->applyChangeset( reader );
     }
   }
@@ -592,8 +597,10 @@ int GEODIFF_dumpData( const char *driverName, const char *driverExtraInfo, const
 
     // get source data
     ChangesetWriter writer;
-    writer.open( changeset );
+    if ( !writer.open( changeset ) )
+      throw GeoDiffException( "Unable to open changeset file for writing: " + std::string( changeset ) );
     driver->dumpData( writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 1bc459b..59f3c44 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -540,7 +540,7 @@ int _prepare_new_changeset( ChangesetReader &reader, const std::string &changese
   ChangesetWriter writer;
   if ( !writer.open( changesetNew ) )
   {
-    std::cout << "unable to open file for writing " << changesetNew << std::endl;
+    Logger::instance().error( "Unable to open file for writing " + changesetNew );
     return GEODIFF_ERROR;
   }
 
@@ -558,6 +558,7 @@ int _prepare_new_changeset( ChangesetReader &reader, const std::string &changese
       }
     }
   }
+  writer.close();
 
   return GEODIFF_SUCCESS;
 }
-- 
2.43.0


From 7f6a8018c6d1ddb511f628f9f92bf06f1109948a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 16/70] fix: failure to write JSON, conflict and temporary
 files was not reported

---
 geodiff/src/geodiff.cpp       |  2 +-
 geodiff/src/geodiffrebase.cpp | 10 +++++++++-
 geodiff/src/geodiffutils.cpp  | 15 ++++++++++++---
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 9e02c74..bb2c97f 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -307,13 +307,13 @@ static int listChangesJSON( const char *changeset, const char *jsonfile, bool on
       res = changesetToJSONSummary( reader );
     else
       res = changesetToJSON( reader );
+    flushString( jsonfile, res );
   }
   catch ( GeoDiffException exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
   }
-  flushString( jsonfile, res );
   return GEODIFF_SUCCESS;
 }
 
diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 59f3c44..86da7b4 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -653,7 +653,15 @@ bool concatChangesets( const std::string &A, const std::string &B, const std::st
 
     Buffer bufO;
     bufO.read( pnOut, ppOut );
-    bufO.write( out );
+    try
+    {
+      bufO.write( out );
+    }
+    catch ( GeoDiffException & )
+    {
+      sqlite3changegroup_delete( pGrp );
+      throw;
+    }
   }
 
   if ( pGrp )
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 62b7629..bcc2571 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -194,8 +194,11 @@ void Buffer::write( const std::string &filename )
   {
     throw GeoDiffException( "Unable to open " + filename + " for writing" );
   }
-  fwrite( mZ, mAlloc, 1, f );
-  fclose( f );
+  size_t written = mAlloc > 0 ? fwrite( mZ, 1, mAlloc, f ) : 0;
+  if ( fclose( f ) != 0 || written != ( size_t ) mAlloc )
+  {
+    throw GeoDiffException( "Unable to write " + filename );
+  }
 }
 
 const char *Buffer::c_buf() const
@@ -294,7 +297,11 @@ void filecopy( const std::string &to, const std::string &from )
   std::ifstream  src( from, std::ios::binary );
   std::ofstream  dst( to,   std::ios::binary );
 
-  dst << src.rdbuf();
+  if ( src.peek() != std::ifstream::traits_type::eof() )  // writing nothing would set the fail bit
+    dst << src.rdbuf();
+  dst.close();
+  if ( !src.is_open() || src.bad() || !dst )
+    throw GeoDiffException( "Unable to copy " + from + " to " + to );
 #endif
 }
 
@@ -450,6 +457,8 @@ void flushString( const std::string &filename, const std::string &str )
   std::ofstream out( filename );
   out << str;
   out.close();
+  if ( !out )
+    throw GeoDiffException( "Unable to write " + filename );
 }
 
 std::string getEnvVar( std::string const &key, const std::string &defaultVal )
-- 
2.43.0


From 3e9a795f1ae13eacbd16050459373cf7c6456bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:15 +0000
Subject: [PATCH 17/70] fix: createRebasedChangeset destroyed an input and gave
 no output when one side has no changes

---
 geodiff/src/geodiffrebase.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 86da7b4..08e8456 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -580,7 +580,7 @@ int rebase( const std::string &changeset_BASE_THEIRS,
   if ( reader_BASE_THEIRS.isEmpty() )
   {
     Logger::instance().info( " -- no rebase needed! (empty base2theirs) --\n" );
-    filecopy( changeset_BASE_MODIFIED, changeset_THEIRS_MODIFIED );
+    filecopy( changeset_THEIRS_MODIFIED, changeset_BASE_MODIFIED );
     return GEODIFF_SUCCESS;
   }
 
@@ -593,7 +593,8 @@ int rebase( const std::string &changeset_BASE_THEIRS,
   if ( reader_BASE_MODIFIED.isEmpty() )
   {
     Logger::instance().info( " -- no rebase needed! (empty base2modified) --\n" );
-    filecopy( changeset_BASE_THEIRS, changeset_THEIRS_MODIFIED );
+    // nothing to do on top of their changes: the rebased changeset is empty
+    filecopy( changeset_THEIRS_MODIFIED, changeset_BASE_MODIFIED );
     return GEODIFF_SUCCESS;
   }
 
-- 
2.43.0


From 116a71309b7192d7bd0b0b0d591818adb380ceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 18/70] fix: rebased changeset had tables without changes, and
 was not considered empty then

---
 geodiff/src/geodiffrebase.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 08e8456..4bda66b 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -546,11 +546,10 @@ int _prepare_new_changeset( ChangesetReader &reader, const std::string &changese
 
   for ( auto it : tableDefinitions )
   {
-    writer.beginTable( it.second );
-
     auto chit = tableChanges.find( it.first );
     if ( chit != tableChanges.end() )
     {
+      writer.beginTable( it.second );
       const std::vector<ChangesetEntry> &changes = chit->second;
       for ( const ChangesetEntry &entry : changes )
       {
-- 
2.43.0


From 16abd69c8188d318ec7d676a0daff60c10c09319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:25 +0000
Subject: [PATCH 19/70] fix: comparison of null values was undefined

---
 geodiff/src/changeset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/changeset.h b/geodiff/src/changeset.h
index 89ee970..533f69a 100644
--- a/geodiff/src/changeset.h
+++ b/geodiff/src/changeset.h
@@ -52,7 +52,7 @@ struct Value
     {
       if ( mType != other.mType )
         return false;
-      if ( mType == TypeUndefined || mType == TypeUndefined )
+      if ( mType == TypeUndefined || mType == TypeNull )
         return true;
       if ( mType == TypeInt )
         return getInt() == other.getInt();
-- 
2.43.0


From 6fe8de85fc52c035e914484cedf7ba58355a8480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:27 +0000
Subject: [PATCH 20/70] fix: rebase reported conflicts for columns changed by
 one side only, or set to the same value by both

---
 geodiff/src/geodiffrebase.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 4bda66b..05b0dde 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -468,11 +468,12 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
   {
     // if the value was patched in the previous commit, use that one as base
     Value patchedVal = patchedVals[i];
-    if ( patchedVal.type() != Value::TypeUndefined )
+    if ( patchedVal.type() != Value::TypeUndefined && entry.newValues[i].type() != Value::TypeUndefined )
     {
       outEntry.oldValues[i] = patchedVal;
-      // conflict for this value
-      _addConflictItem( conflictFeature, i, entry.oldValues[i], patchedVal, entry.newValues[i] );
+      // conflict for this value, unless both have set the same value
+      if ( patchedVal != entry.newValues[i] )
+        _addConflictItem( conflictFeature, i, entry.oldValues[i], patchedVal, entry.newValues[i] );
     }
     else
     {
-- 
2.43.0


From bef4c9d8028f54c37e8d2f2b62bdec86d111b5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:55 +0000
Subject: [PATCH 21/70] fix: rebase confused rows with large integer keys or
 text keys, and replaced text keys with a hash

---
 geodiff/src/changesetutils.cpp |   4 +-
 geodiff/src/geodiffrebase.cpp  | 181 +++++++++++++++++++--------------
 geodiff/src/geodiffutils.cpp   |  24 +----
 geodiff/src/geodiffutils.hpp   |   8 +-
 4 files changed, 118 insertions(+), 99 deletions(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index f348051..8a2c137 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -254,7 +254,9 @@ std::string conflictToJSON( const ConflictFeature &conflict )
   std::string res = "      {\n";
   res += "        \"table\": \"" + std::string( conflict.tableName() ) + "\",\n";
   res += "        \"type\": \"" + status + "\",\n";
-  res += "        \"fid\": \"" + std::to_string( conflict.pk() ) + "\",\n";
+  Value pk = conflict.pk();
+  std::string strPk = pk.type() == Value::TypeText ? escapeJSONString( pk.getString() ) : "\"" + std::to_string( pk.getInt() ) + "\"";
+  res += "        \"fid\": " + strPk + ",\n";
   res += "        \"changes\": [";
   bool first = true;
 
diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 05b0dde..5246f6d 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -29,17 +29,40 @@
 
 #include "sqlite3.h"  // for concatChangesets
 
+//! orders primary key values (numbers and texts)
+struct PrimaryKeyLess
+{
+  bool operator()( const Value &a, const Value &b ) const
+  {
+    if ( a.type() != b.type() )
+      return a.type() < b.type();
+    if ( a.type() == Value::TypeInt )
+      return a.getInt() < b.getInt();
+    return a.getString() < b.getString();
+  }
+};
+
+typedef std::set<Value, PrimaryKeyLess> PrimaryKeySet;
+typedef std::map<Value, Value, PrimaryKeyLess> PrimaryKeyMap;
+
+static std::string pkeyToString( const Value &pk )
+{
+  if ( pk.type() == Value::TypeInt )
+    return std::to_string( pk.getInt() );
+  return pk.type() == Value::TypeText ? pk.getString() : "-1";
+}
+
 /**
  * structure that keeps track of information needed for rebase extracted
  * from the original changeset (for a single table)
  */
 struct TableRebaseInfo
 {
-  std::set<int> inserted;           //!< pkeys that were inserted
-  std::set<int> deleted;            //!< pkeys that were deleted
-  std::map<int, std::vector<Value> > updated;  //!< new column values for each recorded row (identified by pkey)
+  PrimaryKeySet inserted;           //!< pkeys that were inserted
+  PrimaryKeySet deleted;            //!< pkeys that were deleted
+  std::map<Value, std::vector<Value>, PrimaryKeyLess> updated;  //!< new column values for each recorded row (identified by pkey)
 
-  void dump_set( const std::set<int> &data, std::ostringstream &ret )
+  void dump_set( const PrimaryKeySet &data, std::ostringstream &ret )
   {
     if ( data.empty() )
       ret << "--none --";
@@ -47,7 +70,7 @@ struct TableRebaseInfo
     {
       for ( auto it : data )
       {
-        ret << it << ",";
+        ret << pkeyToString( it ) << ",";
       }
     }
     ret << std::endl;
@@ -60,7 +83,7 @@ struct TableRebaseInfo
     ret << "  deleted  ";
     dump_set( deleted, ret );
     ret << "  updated  ";
-    std::set<int> updatedPkeys;
+    PrimaryKeySet updatedPkeys;
     for ( auto pk : updated )
       updatedPkeys.insert( pk.first );
     dump_set( updatedPkeys, ret );
@@ -98,35 +121,22 @@ struct RebaseMapping
 {
 
   // table name -> old fid --> new fid
-  std::map<std::string, std::map < int, int > > mapIds;
+  // (undefined value as the new fid: the row has been deleted)
+  std::map<std::string, PrimaryKeyMap > mapIds;
 
   // table name -> set of fids of inserts that have been untouched
   // (this is important because our mapping could cause FID conflicts
   // with FIDs that weren't previously in conflict, e.g. if 4,5,6
   // get mapped 4->6, 5->7 then the original 6 will need to be remapped
   // too: 6->8)
-  std::map<std::string, std::set<int> > unmappedInsertIds;
+  std::map<std::string, PrimaryKeySet > unmappedInsertIds;
 
-  // special pkey value for deleted rows
-  static const int INVALID_FID = -1;
-
-  void addPkeyMapping( const std::string &table, int id, int id2 )
+  void addPkeyMapping( const std::string &table, const Value &id, const Value &id2 )
   {
-    auto ids = mapIds.find( table );
-    if ( ids == mapIds.end() )
-    {
-      std::map < int, int  > newSet;
-      newSet.insert( std::pair<int, int>( id, id2 ) );
-      mapIds[table] = newSet;
-    }
-    else
-    {
-      std::map < int, int  > &oldSet = ids->second;
-      oldSet.insert( std::pair<int, int>( id, id2 ) );
-    }
+    mapIds[table].insert( std::pair<Value, Value>( id, id2 ) );
   }
 
-  bool hasOldPkey( const std::string &table, int id ) const
+  bool hasOldPkey( const std::string &table, const Value &id ) const
   {
     auto mapId = mapIds.find( table );
     if ( mapId == mapIds.end() )
@@ -135,13 +145,13 @@ struct RebaseMapping
     }
     else
     {
-      const std::map < int, int  > &ids = mapId->second;
+      const PrimaryKeyMap &ids = mapId->second;
       auto fid =  ids.find( id );
       return fid != ids.end();
     }
   }
 
-  int getNewPkey( const std::string &table, int id ) const
+  Value getNewPkey( const std::string &table, const Value &id ) const
   {
     auto ids = mapIds.find( table );
     if ( ids == mapIds.end() )
@@ -150,7 +160,7 @@ struct RebaseMapping
     }
     else
     {
-      const std::map < int, int  > &oldSet = ids->second;
+      const PrimaryKeyMap &oldSet = ids->second;
       auto a = oldSet.find( id );
       if ( a == oldSet.end() )
         throw GeoDiffException( "internal error: _get_new MappingIds" );
@@ -176,7 +186,7 @@ struct RebaseMapping
         ret << "--none -- ";
       for ( auto it2 : it.second )
       {
-        ret << it2.first << "->" << it2.second << ",";
+        ret << pkeyToString( it2.first ) << "->" << pkeyToString( it2.second ) << ",";
       }
       ret << std::endl;
     }
@@ -192,21 +202,47 @@ struct RebaseMapping
 ///////////////////////////////////////
 
 
-int _get_primary_key( const ChangesetEntry &entry )
+Value _get_primary_key( const ChangesetEntry &entry )
 {
-  int fid;
+  Value fid;
   int nFidColumn;
   get_primary_key( entry, fid, nFidColumn );
   return fid;
 }
 
+//! Returns a primary key for a row inserted with a key that is already used
+Value _fresh_primary_key( const Value &pk, const PrimaryKeySet &used, std::map<std::string, int64_t> &freeIndices, const std::string &tableName )
+{
+  Value fresh;
+  if ( pk.type() == Value::TypeText )
+  {
+    int i = 2;
+    do
+    {
+      std::string str = pk.getString() + "_" + std::to_string( i++ );
+      fresh.setString( Value::TypeText, str.data(), static_cast<int>( str.size() ) );
+    }
+    while ( used.find( fresh ) != used.end() );
+    return fresh;
+  }
+
+  auto it = freeIndices.find( tableName );
+  if ( it == freeIndices.end() )
+    throw GeoDiffException( "internal error: freeIndices" );
+  if ( it->second == INT64_MAX )
+    throw GeoDiffException( "No free primary key for a row of table " + tableName );
+  // increase counter
+  fresh.setInt( ++it->second );
+  return fresh;
+}
+
 
 int _parse_old_changeset( ChangesetReader &reader_BASE_THEIRS, DatabaseRebaseInfo &dbInfo )
 {
   ChangesetEntry entry;
   while ( reader_BASE_THEIRS.nextEntry( entry ) )
   {
-    int pk = _get_primary_key( entry );
+    Value pk = _get_primary_key( entry );
 
     TableRebaseInfo &tableInfo = dbInfo.tables[entry.table->name];
 
@@ -232,16 +268,21 @@ int _parse_old_changeset( ChangesetReader &reader_BASE_THEIRS, DatabaseRebaseInf
 int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseRebaseInfo &dbInfo,
                                      RebaseMapping &mapping )
 {
-  // figure out first free primary key value when rebasing for each table
+  // figure out the highest used primary key value when rebasing for each table
   // TODO: should we consider all rows in the table instead of just the inserts? (maybe not needed - those were available in the other source too)
-  std::map<std::string, int> freeIndices;
+  std::map<std::string, int64_t> freeIndices;
   for ( auto mapId : dbInfo.tables )
   {
-    const std::set < int > &oldSet = mapId.second.inserted;
-    if ( oldSet.empty() )
-      continue;  // TODO: or set 0 to free indices??
-
-    freeIndices[mapId.first] = *std::max_element( oldSet.begin(), oldSet.end() ) + 1;
+    for ( const Value &pk : mapId.second.inserted )
+    {
+      if ( pk.type() != Value::TypeInt )
+        continue;
+      auto it = freeIndices.find( mapId.first );
+      if ( it == freeIndices.end() )
+        freeIndices[mapId.first] = pk.getInt();
+      else
+        it->second = std::max( it->second, pk.getInt() );
+    }
   }
 
   ChangesetEntry entry;
@@ -256,19 +297,12 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
 
     if ( entry.op == ChangesetEntry::OpInsert )
     {
-      int pk = _get_primary_key( entry );
+      Value pk = _get_primary_key( entry );
 
       if ( tableInfo.inserted.find( pk ) != tableInfo.inserted.end() )
       {
         // conflict 2 concurrent inserts...
-        auto it = freeIndices.find( tableName );
-        if ( it == freeIndices.end() )
-          throw GeoDiffException( "internal error: freeIndices" );
-
-        mapping.addPkeyMapping( tableName, pk, it->second );
-
-        // increase counter
-        it->second ++;
+        mapping.addPkeyMapping( tableName, pk, _fresh_primary_key( pk, tableInfo.inserted, freeIndices, tableName ) );
       }
       else
       {
@@ -278,22 +312,22 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     }
     else if ( entry.op == ChangesetEntry::OpUpdate )
     {
-      int pk = _get_primary_key( entry );
+      Value pk = _get_primary_key( entry );
 
       if ( tableInfo.deleted.find( pk ) != tableInfo.deleted.end() )
       {
         // update on deleted feature...
-        mapping.addPkeyMapping( tableName, pk, RebaseMapping::INVALID_FID );
+        mapping.addPkeyMapping( tableName, pk, Value() );
       }
     }
     else if ( entry.op == ChangesetEntry::OpDelete )
     {
-      int pk = _get_primary_key( entry );
+      Value pk = _get_primary_key( entry );
 
       if ( tableInfo.deleted.find( pk ) != tableInfo.deleted.end() )
       {
         // delete of deleted feature...
-        mapping.addPkeyMapping( tableName, pk, RebaseMapping::INVALID_FID );
+        mapping.addPkeyMapping( tableName, pk, Value() );
       }
     }
   }
@@ -305,26 +339,23 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     std::string tableName = pair.first;
 
     // make a set of all new pkeys
-    std::set<int> usedNewPkeys;
+    PrimaryKeySet usedNewPkeys;
     for ( auto oldNewPair : mapping.mapIds[tableName] )
-      usedNewPkeys.insert( oldNewPair.second );
+    {
+      if ( oldNewPair.second.type() != Value::TypeUndefined )
+        usedNewPkeys.insert( oldNewPair.second );
+    }
 
-    std::set<int> pkeys = pair.second;
-    for ( int pk : pkeys )
+    PrimaryKeySet pkeys = pair.second;
+    for ( const Value &pk : pkeys )
     {
       if ( usedNewPkeys.find( pk ) != usedNewPkeys.end() )
       {
         // our mapping has previously introduced a new conflict in IDs -> remap this old pkey as well
 
-        auto it = freeIndices.find( tableName );
-        if ( it == freeIndices.end() )
-          throw GeoDiffException( "internal error: freeIndices (2)" );
-
-        mapping.addPkeyMapping( tableName, pk, it->second );
-        usedNewPkeys.insert( it->second );
-
-        // increase counter
-        it->second ++;
+        Value newPk = _fresh_primary_key( pk, dbInfo.tables.at( tableName ).inserted, freeIndices, tableName );
+        mapping.addPkeyMapping( tableName, pk, newPk );
+        usedNewPkeys.insert( newPk );
       }
     }
   }
@@ -343,8 +374,8 @@ bool _handle_insert( const ChangesetEntry &entry, const RebaseMapping &mapping,
   outEntry.newValues.resize( numColumns );
 
   // resolve primary key and patched primary key
-  int pk = _get_primary_key( entry );
-  int newPk = pk;
+  Value pk = _get_primary_key( entry );
+  Value newPk = pk;
 
   if ( mapping.hasOldPkey( entry.table->name, pk ) )
   {
@@ -356,7 +387,7 @@ bool _handle_insert( const ChangesetEntry &entry, const RebaseMapping &mapping,
   {
     if ( entry.table->primaryKeys[i] )
     {
-      outEntry.newValues[i].setInt( newPk );
+      outEntry.newValues[i] = newPk;
     }
     else
     {
@@ -375,8 +406,8 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
   outEntry.oldValues.resize( numColumns );
 
   // resolve primary key and patched primary key
-  int pk = _get_primary_key( entry );
-  int newPk = pk;
+  Value pk = _get_primary_key( entry );
+  Value newPk = pk;
 
   if ( mapping.hasOldPkey( entry.table->name, pk ) )
   {
@@ -384,7 +415,7 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
     newPk = mapping.getNewPkey( entry.table->name, pk );
 
     // conflict 2 concurrent deletes...
-    if ( newPk == RebaseMapping::INVALID_FID )
+    if ( newPk.type() == Value::TypeUndefined )
       return false;
   }
 
@@ -400,7 +431,7 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
   {
     if ( entry.table->primaryKeys[i] )
     {
-      outEntry.oldValues[i].setInt( newPk );
+      outEntry.oldValues[i] = newPk;
     }
     else
     {
@@ -446,11 +477,11 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
   outEntry.newValues.resize( numColumns );
 
   // get values from patched (new) master
-  int pk = _get_primary_key( entry );
+  Value pk = _get_primary_key( entry );
   if ( mapping.hasOldPkey( entry.table->name, pk ) )
   {
-    int newPk = mapping.getNewPkey( entry.table->name, pk );
-    if ( newPk == RebaseMapping::INVALID_FID )
+    Value newPk = mapping.getNewPkey( entry.table->name, pk );
+    if ( newPk.type() == Value::TypeUndefined )
       return false;
   }
 
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index bcc2571..df7c868 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -389,7 +389,7 @@ bool isLayerTable( const std::string &tableName )
 
 ////
 
-void get_primary_key( const ChangesetEntry &entry, int &fid, int &nColumn )
+void get_primary_key( const ChangesetEntry &entry, Value &fid, int &nColumn )
 {
   const std::vector<bool> &tablePkeys = entry.table->primaryKeys;
 
@@ -427,23 +427,9 @@ void get_primary_key( const ChangesetEntry &entry, int &fid, int &nColumn )
   if ( pkeyValue.type() == Value::TypeUndefined || pkeyValue.type() == Value::TypeNull )
     throw GeoDiffException( "internal error in _get_primary_key: unable to get value of primary key" );
 
-  if ( pkeyValue.type() == Value::TypeInt )
+  if ( pkeyValue.type() == Value::TypeInt || pkeyValue.type() == Value::TypeText )
   {
-    int val = pkeyValue.getInt();
-    fid = val;
-    return;
-  }
-  else if ( pkeyValue.type() == Value::TypeText )
-  {
-    std::string str = pkeyValue.getString();
-    const char *strData = str.data();
-    int hash = 0;
-    int len = str.size();
-    for ( int i = 0; i < len; i++ )
-    {
-      hash = 33 * hash + ( unsigned char )strData[i];
-    }
-    fid = hash;
+    fid = pkeyValue;
   }
   else
   {
@@ -544,7 +530,7 @@ const char *TmpFile::c_path() const
   return mPath.c_str();
 }
 
-ConflictFeature::ConflictFeature( int pk,
+ConflictFeature::ConflictFeature( const Value &pk,
                                   const std::string &tableName )
   : mPk( pk )
   , mTableName( tableName )
@@ -566,7 +552,7 @@ std::string ConflictFeature::tableName() const
   return mTableName;
 }
 
-int ConflictFeature::pk() const
+Value ConflictFeature::pk() const
 {
   return mPk;
 }
diff --git a/geodiff/src/geodiffutils.hpp b/geodiff/src/geodiffutils.hpp
index bd396fb..b6e315a 100644
--- a/geodiff/src/geodiffutils.hpp
+++ b/geodiff/src/geodiffutils.hpp
@@ -105,7 +105,7 @@ int indexOf( const std::vector<std::string> &arr, const std::string &val );
 std::string concatNames( const std::vector<std::string> &names );
 
 
-void get_primary_key( const ChangesetEntry &entry, int &fid, int &nColumn );
+void get_primary_key( const ChangesetEntry &entry, Value &fid, int &nColumn );
 
 
 
@@ -167,15 +167,15 @@ class ConflictItem
 class ConflictFeature
 {
   public:
-    ConflictFeature( int pk,
+    ConflictFeature( const Value &pk,
                      const std::string &tableName );
     bool isValid() const;
     void addItem( const ConflictItem &item );
     std::string tableName() const;
-    int pk() const;
+    Value pk() const;
     std::vector<ConflictItem> items() const;
   private:
-    int mPk;
+    Value mPk;
     std::string mTableName;
     std::vector<ConflictItem> mItems;
 };
-- 
2.43.0


From 35f69d3c6a265247a7ab198578c6764672cb0f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:22 +0000
Subject: [PATCH 22/70] fix: out of bounds access in rebase when changesets
 have a different number of columns for a table

---
 geodiff/src/geodiffrebase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 5246f6d..0d3b940 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -426,6 +426,8 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
     patchedVals.resize( static_cast<size_t>( numColumns ) );
   else
     patchedVals = a->second;
+  if ( patchedVals.size() != numColumns )
+    throw GeoDiffException( "Changesets have a different number of columns for table " + entry.table->name );
 
   for ( size_t i = 0; i < numColumns; i++ )
   {
@@ -492,6 +494,8 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
     patchedVals.resize( static_cast<size_t>( numColumns ) );
   else
     patchedVals = a->second;
+  if ( patchedVals.size() != numColumns )
+    throw GeoDiffException( "Changesets have a different number of columns for table " + entry.table->name );
 
   ConflictFeature conflictFeature( pk, entry.table->name );
 
-- 
2.43.0


From f6bd8a7b640ac63bddffab7c921130f238f2b1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:24 +0000
Subject: [PATCH 23/70] fix: rebase without conflicts left the conflict file of
 an earlier rebase in place

---
 geodiff/src/geodiff.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index bb2c97f..1a62b7c 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -211,6 +211,8 @@ int GEODIFF_createRebasedChangesetEx( const char *driverName,
 
   try
   {
+    fileremove( conflictfile );
+
     std::vector<ConflictFeature> conflicts;
     int rc = rebase( base2their, rebased, base2modified, conflicts );
     if ( rc == GEODIFF_SUCCESS )
@@ -416,6 +418,8 @@ int GEODIFF_rebaseEx( const char *driverName,
 
   try
   {
+    fileremove( conflictfile );
+
     std::string root = tmpdir() + "geodiff_" + randomString( 6 );
 
     // situation 1: base2theirs is null, so we do not need rebase. modified is already fine
-- 
2.43.0


From 14f2e33930336eb598bb7da8d8a125c7687b38fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:25 +0000
Subject: [PATCH 24/70] fix: invalid JSON for names and texts with quotes,
 backslashes or control characters

---
 geodiff/src/changesetutils.cpp | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 8a2c137..44c4da1 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -78,12 +78,28 @@ void invertChangeset( ChangesetReader &reader, ChangesetWriter &writer )
 
 std::string escapeJSONString( std::string val )
 {
-  //val = replace( val, "\\", "\\\\" );  // TODO: escaping of backslashes?
-  val = replace( val, "\n", "\\n" );
-  val = replace( val, "\r", "\\r" );
-  val = replace( val, "\t", "\\t" );
-  val = replace( val, "\"", "\\\"" );
-  return "\"" + val + "\"";
+  std::string res = "\"";
+  for ( char ch : val )
+  {
+    switch ( ch )
+    {
+      case '\\': res += "\\\\"; break;
+      case '"': res += "\\\""; break;
+      case '\n': res += "\\n"; break;
+      case '\r': res += "\\r"; break;
+      case '\t': res += "\\t"; break;
+      default:
+        if ( static_cast<unsigned char>( ch ) < 0x20 )
+        {
+          char buf[8];
+          snprintf( buf, sizeof( buf ), "\\u%04x", ch );
+          res += buf;
+        }
+        else
+          res += ch;
+    }
+  }
+  return res + "\"";
 }
 
 std::string valueToJSON( const Value &value )
@@ -122,7 +138,7 @@ std::string changesetEntryToJSON( const ChangesetEntry &entry )
     status = "delete";
 
   std::string res = "      {\n";
-  res += "        \"table\": \"" + entry.table->name + "\",\n";
+  res += "        \"table\": " + escapeJSONString( entry.table->name ) + ",\n";
   res += "        \"type\": \"" + status + "\",\n";
   res += "        \"changes\": [";
   bool first = true;
@@ -224,7 +240,7 @@ std::string changesetToJSONSummary( ChangesetReader &reader )
   {
     std::string tableJson;
     tableJson += "      {\n";
-    tableJson += "         \"table\": \"" + kv.first + "\",\n";
+    tableJson += "         \"table\": " + escapeJSONString( kv.first ) + ",\n";
     tableJson += "         \"insert\": " + std::to_string( kv.second.inserts ) + ",\n";
     tableJson += "         \"update\": " + std::to_string( kv.second.updates ) + ",\n";
     tableJson += "         \"delete\": " + std::to_string( kv.second.deletes ) + "\n";
@@ -252,7 +268,7 @@ std::string conflictToJSON( const ConflictFeature &conflict )
   std::string status = "conflict";
 
   std::string res = "      {\n";
-  res += "        \"table\": \"" + std::string( conflict.tableName() ) + "\",\n";
+  res += "        \"table\": " + escapeJSONString( conflict.tableName() ) + ",\n";
   res += "        \"type\": \"" + status + "\",\n";
   Value pk = conflict.pk();
   std::string strPk = pk.type() == Value::TypeText ? escapeJSONString( pk.getString() ) : "\"" + std::to_string( pk.getInt() ) + "\"";
-- 
2.43.0


From dd9507249f848f1e5afeee6186fe012093da7267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:47 +0000
Subject: [PATCH 25/70] fix: JSON listed floating point numbers cut to six
 decimals, and invalid JSON for infinite ones

---
 geodiff/src/changesetutils.cpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 44c4da1..87c4ddb 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -11,6 +11,11 @@
 #include "changesetwriter.h"
 #include "tableschema.h"
 
+#include <cmath>
+#include <iomanip>
+#include <locale>
+#include <sstream>
+
 
 ChangesetTable schemaToChangesetTable( const std::string &tableName, const TableSchema &tbl )
 {
@@ -102,6 +107,29 @@ std::string escapeJSONString( std::string val )
   return res + "\"";
 }
 
+static std::string doubleToJSON( double val )
+{
+  if ( std::isnan( val ) )
+    return "null";
+  if ( std::isinf( val ) )
+    return val > 0 ? "1e999" : "-1e999";  // JSON has no infinity: use a number out of range
+
+  std::ostringstream str;
+  str.imbue( std::locale::classic() );
+  str << std::fixed << val;
+  double parsed = 0;
+  std::istringstream in( str.str() );
+  in.imbue( std::locale::classic() );
+  in >> parsed;
+  if ( parsed == val )
+    return str.str();
+
+  // not enough digits to get the same number back
+  str.str( std::string() );
+  str << std::defaultfloat << std::setprecision( 17 ) << val;
+  return str.str();
+}
+
 std::string valueToJSON( const Value &value )
 {
   switch ( value.type() )
@@ -111,7 +139,7 @@ std::string valueToJSON( const Value &value )
     case Value::TypeInt:
       return std::to_string( value.getInt() );
     case Value::TypeDouble:
-      return std::to_string( value.getDouble() );
+      return doubleToJSON( value.getDouble() );
     case Value::TypeText:
       return escapeJSONString( value.getString() );
     case Value::TypeBlob:
-- 
2.43.0


From aea06cfe1b7cdc98b7558242a05573e076da0f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:48 +0000
Subject: [PATCH 26/70] fix: errors were not printed by default, the default
 logger level is 1

---
 geodiff/src/geodifflogger.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/geodifflogger.cpp b/geodiff/src/geodifflogger.cpp
index 8350f4d..a832167 100644
--- a/geodiff/src/geodifflogger.cpp
+++ b/geodiff/src/geodifflogger.cpp
@@ -8,14 +8,14 @@
 #include "geodiffutils.hpp"
 #include <iostream>
 
-int _envInt( const char *key )
+int _envInt( const char *key, int defaultVal )
 {
   char *val = getenv( key );
   if ( val )
   {
     return atoi( val );
   }
-  return 0;
+  return defaultVal;
 }
 
 void StdoutLogger( GEODIFF_LoggerLevel level, const char *msg )
@@ -38,7 +38,7 @@ void StdoutLogger( GEODIFF_LoggerLevel level, const char *msg )
 Logger::Logger()
 {
   // Sort out which
-  int envLevel = _envInt( "GEODIFF_LOGGER_LEVEL" );
+  int envLevel = _envInt( "GEODIFF_LOGGER_LEVEL", GEODIFF_LoggerLevel::LevelError );
   if ( envLevel >= 0 && envLevel <= GEODIFF_LoggerLevel::LevelDebug )
   {
     setMaxLogLevel( static_cast<GEODIFF_LoggerLevel>( envLevel ) );
-- 
2.43.0


From a0acbc6a38a501e62c4030252e586202e00d594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 27/70] fix: the default logger did not print info messages

---
 geodiff/src/geodifflogger.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geodiff/src/geodifflogger.cpp b/geodiff/src/geodifflogger.cpp
index a832167..e750d22 100644
--- a/geodiff/src/geodifflogger.cpp
+++ b/geodiff/src/geodifflogger.cpp
@@ -28,6 +28,9 @@ void StdoutLogger( GEODIFF_LoggerLevel level, const char *msg )
     case LevelWarning:
       std::cout << "Warn: " << msg << std::endl;
       break;
+    case LevelInfo:
+      std::cout << "Info: " << msg << std::endl;
+      break;
     case LevelDebug:
       std::cout << "Debug: " << msg << std::endl;
       break;
-- 
2.43.0


From 4cafa1feb4cbcfcf51182999b8612afe51221cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:50 +0000
Subject: [PATCH 28/70] fix: temporary files were created beside the temporary
 directory if TMPDIR has no trailing slash

---
 geodiff/src/geodiffutils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index df7c868..4719bec 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -467,7 +467,10 @@ std::string tmpdir()
 
   return wstringToString( tempDirPath );
 #else
-  return getEnvVar( "TMPDIR", "/tmp/" );
+  std::string dir = getEnvVar( "TMPDIR", "/tmp/" );
+  if ( !dir.empty() && dir.back() != '/' )
+    dir += '/';
+  return dir;
 #endif
 }
 
-- 
2.43.0


From 5f277f0ba5c43371ac0a2e21cd8b184b9075e459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:03 +0000
Subject: [PATCH 29/70] fix: processes and threads running at the same time
 overwrote each other's temporary files

---
 geodiff/src/geodiff.cpp      | 4 ++--
 geodiff/src/geodiffutils.cpp | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 1a62b7c..f2c05ee 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -420,7 +420,7 @@ int GEODIFF_rebaseEx( const char *driverName,
   {
     fileremove( conflictfile );
 
-    std::string root = tmpdir() + "geodiff_" + randomString( 6 );
+    std::string root = tmpdir() + "geodiff_" + randomString( 12 );
 
     // situation 1: base2theirs is null, so we do not need rebase. modified is already fine
     if ( !GEODIFF_hasChanges( base2their ) )
@@ -515,7 +515,7 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     return GEODIFF_ERROR;
   }
 
-  TmpFile tmpFileChangeset( tmpdir() + "geodiff_changeset" + std::to_string( rand() ) );
+  TmpFile tmpFileChangeset( tmpdir() + "geodiff_changeset" + randomString( 12 ) );
 
   try
   {
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 4719bec..3269860 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -22,6 +22,7 @@
 #include <iostream>
 #include <sstream>
 #include <algorithm>
+#include <random>
 #include <cctype>
 #include <gpkg.h>
 #include <locale>
@@ -628,14 +629,16 @@ std::string lowercaseString( const std::string &str )
 // from https://stackoverflow.com/questions/440133/how-do-i-create-a-random-alpha-numeric-string-in-c
 std::string randomString( size_t length )
 {
-  auto randchar = []() -> char
+  // rand() would give the same sequence in each process
+  std::random_device generator;
+  auto randchar = [&generator]() -> char
   {
     const char charset[] =
     "0123456789"
     "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
     "abcdefghijklmnopqrstuvwxyz";
     const size_t max_index = ( sizeof( charset ) - 1 );
-    return charset[ rand() % max_index ];
+    return charset[ generator() % max_index ];
   };
   std::string str( length, 0 );
   std::generate_n( str.begin(), length, randchar );
-- 
2.43.0


From 58517d1f466ed25de7a772d7418ac32dd81ab466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:05 +0000
Subject: [PATCH 30/70] fix: an empty directory given as an output file was
 deleted

---
 geodiff/src/geodiffutils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 3269860..cc68aa2 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -313,7 +313,7 @@ void fileremove( const std::string &path )
 #ifdef WIN32
     _wremove( stringToWString( path ).c_str() );
 #else
-    remove( path.c_str() );
+    unlink( path.c_str() );  // unlike remove() it does not delete (empty) directories
 #endif
   }
 }
-- 
2.43.0


From d08c36a8a4c28df4c649f718212bbf9aee6d58b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 31/70] fix: databases were refused as different when only one
 of them was analyzed (sqlite_stat1 table)

---
 geodiff/src/drivers/sqlitedriver.cpp | 4 ++--
 geodiff/src/drivers/sqliteutils.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index a71975e..df6d852 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -214,8 +214,8 @@ std::vector<std::string> SqliteDriver::listTables( bool useModified )
     // table handled by triggers rtree_*_geometry_*
     if ( startsWith( tableName, "rtree_" ) )
       continue;
-    // internal table for AUTOINCREMENT
-    if ( tableName == "sqlite_sequence" )
+    // internal tables: sqlite_sequence for AUTOINCREMENT, sqlite_stat1 (and others) of the query planner
+    if ( startsWith( tableName, "sqlite_" ) )
       continue;
 
     tableNames.push_back( tableName );
diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index 86915e2..a96a3b5 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -380,8 +380,8 @@ void sqliteTables( std::shared_ptr<Sqlite3Db> db,
     // table handled by triggers rtree_*_geometry_*
     if ( startsWith( tableName, "rtree_" ) )
       continue;
-    // internal table for AUTOINCREMENT
-    if ( tableName == "sqlite_sequence" )
+    // internal tables: sqlite_sequence for AUTOINCREMENT, sqlite_stat1 (and others) of the query planner
+    if ( startsWith( tableName, "sqlite_" ) )
       continue;
 
     tableNames.push_back( tableName );
-- 
2.43.0


From d732733e0c836da6b36f8886d8410397c2aa71ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:47 +0000
Subject: [PATCH 32/70] fix: rows with a null key were listed as inserted and
 deleted although they have not changed

---
 geodiff/src/drivers/sqlitedriver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index df6d852..aa2e52e 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -368,6 +368,7 @@ static std::string sqlColumnList( const std::string &dbName, const std::string &
 static std::string sqlFindInserted( const std::string &tableName, const TableSchema &tbl, bool reverse )
 {
   std::string exprPk;
+  std::string exprNotNull;  // rows with a null in the primary key can't be identified: ignored (like in sqlite3 session extension)
   for ( const TableColumnInfo &c : tbl.columns )
   {
     if ( c.isPrimaryKey )
@@ -376,13 +377,14 @@ static std::string sqlFindInserted( const std::string &tableName, const TableSch
         exprPk += " AND ";
       exprPk += sqlitePrintf( "\"%w\".\"%w\".\"%w\"=\"%w\".\"%w\".\"%w\"",
                               "main", tableName.c_str(), c.name.c_str(), "aux", tableName.c_str(), c.name.c_str() );
+      exprNotNull += sqlitePrintf( " AND \"%w\".\"%w\".\"%w\" IS NOT NULL", reverse ? "aux" : "main", tableName.c_str(), c.name.c_str() );
     }
   }
 
-  std::string sql = sqlitePrintf( "SELECT %s FROM \"%w\".\"%w\" WHERE NOT EXISTS ( SELECT 1 FROM \"%w\".\"%w\" WHERE %s)",
+  std::string sql = sqlitePrintf( "SELECT %s FROM \"%w\".\"%w\" WHERE NOT EXISTS ( SELECT 1 FROM \"%w\".\"%w\" WHERE %s)%s",
                                   sqlColumnList( reverse ? "aux" : "main", tableName, tbl ).c_str(),
                                   reverse ? "aux" : "main", tableName.c_str(),
-                                  reverse ? "main" : "aux", tableName.c_str(), exprPk.c_str() );
+                                  reverse ? "main" : "aux", tableName.c_str(), exprPk.c_str(), exprNotNull.c_str() );
   return sql;
 }
 
-- 
2.43.0


From 7fd35e4735aa432846f9d265e797bc8f36a7bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:47 +0000
Subject: [PATCH 33/70] fix: rebase was not refused for foreign keys that do
 not name the referenced column

---
 geodiff/src/drivers/sqliteutils.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index a96a3b5..0a024cb 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -314,7 +314,7 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
         const char *fk_from = ( const char * )sqlite3_column_text( pStmt.get(), 3 );
         const char *fk_to = ( const char * )sqlite3_column_text( pStmt.get(), 4 );
 
-        if ( fk_to_table && fk_from && fk_to )
+        if ( fk_to_table && fk_from )
         {
           // TODO: this part is not speed-optimized and could be slower for databases with a lot of
           // columns and/or foreign keys. For each entry we grab column names again
@@ -325,9 +325,8 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
             continue;
 
           std::vector<std::string> toColumnNames = sqliteColumnNames( db, dbName, fk_to_table );
-          int fk_to_id = indexOf( toColumnNames, fk_to );
-          if ( fk_to_id < 0 )
-            continue;
+          // -1 if the key refers to the primary key of the table (fk_to is null), or to a missing table or column
+          int fk_to_id = fk_to ? indexOf( toColumnNames, fk_to ) : -1;
 
           TableColumn from( fromTableName, fk_from_id );
           TableColumn to( fk_to_table, fk_to_id );
-- 
2.43.0


From 3eb372a6f9a8955c058728818f8f93c2c0b87dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:49 +0000
Subject: [PATCH 34/70] fix: entries for tables without primary key changed
 several rows

---
 geodiff/src/drivers/sqlitedriver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index aa2e52e..ff8389f 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -742,6 +742,9 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
       if ( tbl.columns.size() == 0 )
         throw GeoDiffException( "No such table: " + tableName );
 
+      if ( !tbl.hasPrimaryKey() )
+        throw GeoDiffException( "Table without primary key: " + tableName );  // an entry could change several rows
+
       if ( tbl.columns.size() != entry.table->columnCount() )
         throw GeoDiffException( "Wrong number of columns for table: " + tableName );
 
-- 
2.43.0


From b237586fc758f8439b4165323e17e015ea4416c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:18 +0000
Subject: [PATCH 35/70] fix: applying a changeset failed when a unique value
 moved between rows

---
 geodiff/src/drivers/sqlitedriver.cpp | 68 ++++++++++++++++++++++++----
 1 file changed, 58 insertions(+), 10 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index ff8389f..e72bb49 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -11,6 +11,7 @@
 #include "geodifflogger.hpp"
 
 #include <memory.h>
+#include <list>
 
 
 static void logApplyConflict( const std::string &type, const ChangesetEntry &entry )
@@ -26,6 +27,49 @@ static void checkApplyFailure( std::shared_ptr<Sqlite3Db> db )
     throw GeoDiffException( "Failed to apply changes: " + std::string( sqlite3_errmsg( db->get() ) ) );
 }
 
+/**
+ * Changes that violate a constraint and are tried again after the other changes: e.g. a unique
+ * value may be taken by a row that is changed or deleted only later in the changeset.
+ */
+class PostponedEntries
+{
+  public:
+    void add( const ChangesetEntry &entry )
+    {
+      mPostponed.push_back( entry );
+      if ( mRetrying )
+        return;  // the table is ours already
+      if ( mTables.empty() || mTables.back().name != entry.table->name || mTables.back().primaryKeys != entry.table->primaryKeys )
+        mTables.push_back( *entry.table );
+      mPostponed.back().table = &mTables.back();
+    }
+
+    //! Gives next entry to be tried again, until it does not help any more
+    bool nextEntry( ChangesetEntry &entry )
+    {
+      if ( mPending.empty() )
+      {
+        if ( mPostponed.empty() || ( mRetrying && mPostponed.size() == mLastCount ) )
+          return false;
+        mRetrying = true;
+        mLastCount = mPostponed.size();
+        mPending.swap( mPostponed );
+      }
+      // from the last one to the first one: values often have been shifted from row to row
+      entry = mPending.back();
+      mPending.pop_back();
+      return true;
+    }
+
+    const std::vector<ChangesetEntry> &unresolved() const { return mPostponed; }
+
+  private:
+    std::vector<ChangesetEntry> mPostponed, mPending;
+    std::list<ChangesetTable> mTables;
+    bool mRetrying = false;
+    size_t mLastCount = 0;
+};
+
 /**
  * Wrapper around SQLite database wide mutex.
  */
@@ -730,7 +774,8 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
 
   int conflictCount = 0;
   ChangesetEntry entry;
-  while ( reader.nextEntry( entry ) )
+  PostponedEntries postponedEntries;
+  while ( reader.nextEntry( entry ) || postponedEntries.nextEntry( entry ) )
   {
     if ( entry.table->name != lastTableName || entry.table->primaryKeys != lastPrimaryKeys )
     {
@@ -775,10 +820,9 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
       {
         // it could be that the primary key already exists or some constraint violation (e.g. not null, unique)
         checkApplyFailure( mDb );
-        logApplyConflict( "insert_failed", entry );
-        ++conflictCount;
+        postponedEntries.add( entry );
       }
-      if ( sqlite3_changes( mDb->get() ) != 1 )
+      else if ( sqlite3_changes( mDb->get() ) != 1 )
         throw GeoDiffException( "Nothing inserted (this should never happen)" );
       sqlite3_reset( stmtInsert->get() );
     }
@@ -800,10 +844,9 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
       {
         // a constraint must have been violated (e.g. foreign key, not null, unique)
         checkApplyFailure( mDb );
-        logApplyConflict( "update_failed", entry );
-        ++conflictCount;
+        postponedEntries.add( entry );
       }
-      if ( sqlite3_changes( mDb->get() ) == 0 )
+      else if ( sqlite3_changes( mDb->get() ) == 0 )
       {
         // either the row with such pkey does not exist or its data have been modified
         logApplyConflict( "update_nothing", entry );
@@ -822,10 +865,9 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
       {
         // a foreign key constraint must have been violated
         checkApplyFailure( mDb );
-        logApplyConflict( "delete_failed", entry );
-        ++conflictCount;
+        postponedEntries.add( entry );
       }
-      if ( sqlite3_changes( mDb->get() ) == 0 )
+      else if ( sqlite3_changes( mDb->get() ) == 0 )
       {
         // either the row with such pkey does not exist or its data have been modified
         logApplyConflict( "delete_nothing", entry );
@@ -837,6 +879,12 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
       throw GeoDiffException( "Unexpected operation" );
   }
 
+  for ( const ChangesetEntry &failedEntry : postponedEntries.unresolved() )
+  {
+    logApplyConflict( failedEntry.op == SQLITE_INSERT ? "insert_failed" : failedEntry.op == SQLITE_UPDATE ? "update_failed" : "delete_failed", failedEntry );
+    ++conflictCount;
+  }
+
   // recreate triggers
   for ( std::string cmd : triggerCmds )
   {
-- 
2.43.0


From 9272c3e0bd504818ffff47cc822cb3588cb3d8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:18 +0000
Subject: [PATCH 36/70] fix: report partially written file copies

---
 geodiff/src/geodiffutils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index cc68aa2..c553140 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -298,8 +298,10 @@ void filecopy( const std::string &to, const std::string &from )
   std::ifstream  src( from, std::ios::binary );
   std::ofstream  dst( to,   std::ios::binary );
 
-  if ( src.peek() != std::ifstream::traits_type::eof() )  // writing nothing would set the fail bit
-    dst << src.rdbuf();
+  // not using operator<<( streambuf ): it does not report when only a part could be written
+  std::vector<char> buf( 65536 );
+  while ( src.read( buf.data(), buf.size() ) || src.gcount() > 0 )
+    dst.write( buf.data(), src.gcount() );
   dst.close();
   if ( !src.is_open() || src.bad() || !dst )
     throw GeoDiffException( "Unable to copy " + from + " to " + to );
-- 
2.43.0


From ed6120afeb9f63620803b355ff39cc0ce1906c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:32 +0000
Subject: [PATCH 37/70] fix: refuse to create a database with empty file name

---
 geodiff/src/drivers/sqliteutils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index 0a024cb..da5749d 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -32,6 +32,9 @@ void Sqlite3Db::create( const std::string &filename )
 {
   close();
 
+  if ( filename.empty() )  // sqlite would create a temporary database
+    throw GeoDiffException( "Unable to create sqlite3 database - empty file name" );
+
   if ( fileexists( filename ) )
   {
     throw GeoDiffException( "Unable to create sqlite3 database - already exists: " + filename );
-- 
2.43.0


From b51cb700f452178e05cbb5d23906662ca8a84ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:34 +0000
Subject: [PATCH 38/70] fix: makeCopy of a dataset onto itself destroyed it

---
 geodiff/src/geodiff.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index f2c05ee..e8ee297 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -501,6 +501,14 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     return GEODIFF_ERROR;
   }
 
+  if ( std::string( driverSrcName ) == std::string( driverDstName ) && std::string( src ) == std::string( dst ) &&
+       std::string( driverSrcExtraInfo ? driverSrcExtraInfo : "" ) == std::string( driverDstExtraInfo ? driverDstExtraInfo : "" ) )
+  {
+    // the destination gets removed before it is created again
+    Logger::instance().error( "Source and destination of GEODIFF_makeCopy are the same" );
+    return GEODIFF_ERROR;
+  }
+
   std::unique_ptr<Driver> driverSrc( Driver::createDriver( std::string( driverSrcName ) ) );
   if ( !driverSrc )
   {
-- 
2.43.0


From 3371a79be90f29cb6f6714dff765f2929f02f52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:39 +0000
Subject: [PATCH 39/70] fix: report running out of memory when reading a
 database

---
 geodiff/src/drivers/sqlitedriver.cpp | 43 ++++++++++++++++++++++------
 geodiff/src/drivers/sqliteutils.cpp  |  8 ++++--
 2 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index e72bb49..8dfda65 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -234,7 +234,7 @@ std::vector<std::string> SqliteDriver::listTables( bool useModified )
   {
     const char *name = ( const char * )sqlite3_column_text( statement.get(), 0 );
     if ( !name )
-      continue;
+      throw GeoDiffException( "Failed to read table names from sqlite3 database" );  // should be only possible when out of memory
 
     std::string tableName( name );
     /* typically geopackage from ogr would have these (table name is simple)
@@ -292,12 +292,13 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
   while ( statement.fetchRow() )
   {
     const unsigned char *zName = sqlite3_column_text( statement.get(), 1 );
-    if ( zName == nullptr )
-      throw GeoDiffException( "NULL column name in table schema: " + tableName );
+    const unsigned char *zType = sqlite3_column_text( statement.get(), 2 );
+    if ( zName == nullptr || zType == nullptr )
+      throw GeoDiffException( "NULL column name or type in table schema: " + tableName );
 
     TableColumnInfo columnInfo;
     columnInfo.name = ( const char * )zName;
-    columnInfo.type = ( const char * ) sqlite3_column_text( statement.get(), 2 );
+    columnInfo.type = ( const char * ) zType;
     columnInfo.isNotNull = sqlite3_column_int( statement.get(), 3 );
     columnInfo.isPrimaryKey = sqlite3_column_int( statement.get(), 5 );
 
@@ -462,6 +463,24 @@ static std::string sqlFindModified( const std::string &tableName, const TableSch
 }
 
 
+//! Returns text of the value, throws if it could not be converted to UTF-8 (out of memory)
+static const char *valueText( sqlite3_value *v )
+{
+  const char *text = ( const char * ) sqlite3_value_text( v );
+  if ( !text )
+    throw GeoDiffException( "out of memory" );
+  return text;
+}
+
+//! Returns content of a blob, throws if it is not available (out of memory)
+static const char *valueBlob( sqlite3_value *v )
+{
+  const char *blob = ( const char * ) sqlite3_value_blob( v );  // null also if the blob is empty
+  if ( !blob && sqlite3_value_bytes( v ) > 0 )
+    throw GeoDiffException( "out of memory" );
+  return blob;
+}
+
 static bool valuesEqual( sqlite3_value *v1, sqlite3_value *v2 )
 {
   int type1 = sqlite3_value_type( v1 );
@@ -478,8 +497,8 @@ static bool valuesEqual( sqlite3_value *v1, sqlite3_value *v2 )
   else if ( type1 == SQLITE_TEXT )
   {
     // the text may contain NUL characters
-    const char *text1 = ( const char * ) sqlite3_value_text( v1 );
-    const char *text2 = ( const char * ) sqlite3_value_text( v2 );
+    const char *text1 = valueText( v1 );
+    const char *text2 = valueText( v2 );
     int len1 = sqlite3_value_bytes( v1 );
     int len2 = sqlite3_value_bytes( v2 );
     return len1 == len2 && memcmp( text1, text2, len1 ) == 0;
@@ -490,7 +509,7 @@ static bool valuesEqual( sqlite3_value *v1, sqlite3_value *v2 )
     int len2 = sqlite3_value_bytes( v2 );
     if ( len1 != len2 )
       return false;
-    return len1 == 0 || memcmp( sqlite3_value_blob( v1 ), sqlite3_value_blob( v2 ), len1 ) == 0;  // blob pointers are null if empty
+    return len1 == 0 || memcmp( valueBlob( v1 ), valueBlob( v2 ), len1 ) == 0;  // blob pointers are null if empty
   }
   else
   {
@@ -509,9 +528,15 @@ static Value changesetValue( sqlite3_value *v )
   else if ( type == SQLITE_FLOAT )
     x.setDouble( sqlite3_value_double( v ) );
   else if ( type == SQLITE_TEXT )
-    x.setString( Value::TypeText, ( const char * )sqlite3_value_text( v ), sqlite3_value_bytes( v ) );
+  {
+    const char *text = valueText( v );
+    x.setString( Value::TypeText, text, sqlite3_value_bytes( v ) );
+  }
   else if ( type == SQLITE_BLOB )
-    x.setString( Value::TypeBlob, ( const char * )sqlite3_value_blob( v ), sqlite3_value_bytes( v ) );
+  {
+    const char *blob = valueBlob( v );
+    x.setString( Value::TypeBlob, blob, sqlite3_value_bytes( v ) );
+  }
   else
     throw GeoDiffException( "Unexpected value type" );
 
diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index da5749d..df0a2cb 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -149,6 +149,8 @@ bool Sqlite3Stmt::fetchRow()
 std::string Sqlite3Stmt::expandedSql() const
 {
   char *str = sqlite3_expanded_sql( mStmt );
+  if ( !str )
+    throw GeoDiffException( "out of memory" );
   std::string sql( str );
   sqlite3_free( str );
   return sql;
@@ -165,6 +167,8 @@ Sqlite3Value::Sqlite3Value( const sqlite3_value *val )
   if ( val )
   {
     mVal = sqlite3_value_dup( val );
+    if ( !mVal )
+      throw GeoDiffException( "out of memory" );
   }
 }
 
@@ -250,7 +254,7 @@ void sqliteTriggers( std::shared_ptr<Sqlite3Db> db, std::vector<std::string> &tr
     const char *sql = ( char * ) sqlite3_column_text( statament.get(), 1 );
 
     if ( !name || !sql )
-      continue;
+      throw GeoDiffException( "Failed to read triggers from sqlite3 database" );  // should be only possible when out of memory
 
     /* typically geopackage from ogr would have these (table name is simple)
         - gpkg_tile_matrix_zoom_level_insert
@@ -358,7 +362,7 @@ void sqliteTables( std::shared_ptr<Sqlite3Db> db,
   {
     const char *name = ( const char * )sqlite3_column_text( statament.get(), 0 );
     if ( !name )
-      continue;
+      throw GeoDiffException( "Failed to read table names from sqlite3 database" );  // should be only possible when out of memory
 
     std::string tableName( name );
     /* typically geopackage from ogr would have these (table name is simple)
-- 
2.43.0


From 53e7d70559ba249e3b9f11d6e0aca92f969fb62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:36 +0000
Subject: [PATCH 40/70] fix: report failure to merge changesets

---
 geodiff/src/geodiffrebase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 0d3b940..8adc525 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -703,6 +703,6 @@ bool concatChangesets( const std::string &A, const std::string &B, const std::st
   if ( pGrp )
     sqlite3changegroup_delete( pGrp );
 
-  return false;
+  return rc != SQLITE_OK;
 }
 
-- 
2.43.0


From 4880d37fc3f09799eb0eb0a18b84bbdafa82e552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:44 +0000
Subject: [PATCH 41/70] fix: foreign keys of generated columns were not
 detected

---
 geodiff/src/drivers/sqliteutils.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index df0a2cb..dedddf4 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -327,9 +327,7 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
           // columns and/or foreign keys. For each entry we grab column names again
           // and we search for index of value in plain std::vector array...
           std::vector<std::string> fromColumnNames = sqliteColumnNames( db, dbName, fromTableName );
-          int fk_from_id = indexOf( fromColumnNames, fk_from );
-          if ( fk_from_id < 0 )
-            continue;
+          int fk_from_id = indexOf( fromColumnNames, fk_from );  // -1 if it is a generated column
 
           std::vector<std::string> toColumnNames = sqliteColumnNames( db, dbName, fk_to_table );
           // -1 if the key refers to the primary key of the table (fk_to is null), or to a missing table or column
-- 
2.43.0


From c411e9a4ad1e38abb0651f72f28219849e48a282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:49 +0000
Subject: [PATCH 42/70] fix: quote table names in PostgreSQL driver

---
 geodiff/src/drivers/postgresdriver.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index b078586..1bd794c 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -360,9 +360,9 @@ static std::string sqlFindInserted( const std::string &schemaNameBase, const std
   }
 
   std::string sql = "SELECT " + allColumnNames( tbl ) + " FROM " +
-                    quotedIdentifier( reverse ? schemaNameBase : schemaNameModified ) + "." + tableName +
+                    quotedIdentifier( reverse ? schemaNameBase : schemaNameModified ) + "." + quotedIdentifier( tableName ) +
                     " WHERE NOT EXISTS ( SELECT 1 FROM " +
-                    quotedIdentifier( reverse ? schemaNameModified : schemaNameBase ) + "." + tableName +
+                    quotedIdentifier( reverse ? schemaNameModified : schemaNameBase ) + "." + quotedIdentifier( tableName ) +
                     " WHERE " + exprPk + ")";
   return sql;
 }
@@ -920,7 +920,7 @@ void PostgresDriver::createTables( const std::vector<TableSchema> &tables )
       }
     }
 
-    sql = "CREATE TABLE " + quotedIdentifier( mBaseSchema ) + "." + tbl.name + " (";
+    sql = "CREATE TABLE " + quotedIdentifier( mBaseSchema ) + "." + quotedIdentifier( tbl.name ) + " (";
     sql += columns;
     sql += ", PRIMARY KEY (" + pkeyCols + ")";
     sql += ");";
@@ -945,7 +945,7 @@ void PostgresDriver::dumpData( ChangesetWriter &writer, bool useModified )
       continue;  // ignore tables without primary key - they can't be compared properly
 
     std::string sql = "SELECT " + allColumnNames( tbl ) + " FROM " +
-                      quotedIdentifier( useModified ? mModifiedSchema : mBaseSchema ) + "." + tableName;
+                      quotedIdentifier( useModified ? mModifiedSchema : mBaseSchema ) + "." + quotedIdentifier( tableName );
 
     PostgresResult res( execSql( mConn, sql ) );
     int rows = res.rowCount();
-- 
2.43.0


From f350dfcd0a99bf0c0aeb40c08dca646d74fa76e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 43/70] fix: columns that are in several indexes were listed
 repeatedly by PostgreSQL driver

---
 geodiff/src/drivers/postgresdriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 1bd794c..ad33a7e 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -252,7 +252,7 @@ TableSchema PostgresDriver::tableSchema( const std::string &tableName, bool useM
     "                 || '''::regclass)'"
     "       ) AS has_sequence"
     " FROM pg_catalog.pg_attribute a"
-    " LEFT JOIN pg_index i ON a.attrelid = i.indrelid AND a.attnum = ANY(i.indkey)"
+    " LEFT JOIN pg_index i ON a.attrelid = i.indrelid AND a.attnum = ANY(i.indkey) AND i.indisprimary"
     " WHERE"
     "   a.attnum > 0"
     "   AND NOT a.attisdropped"
-- 
2.43.0


From b48ee703245e1b587e31a8d39ab25715fd2da2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 44/70] fix: comparison of PostgreSQL tables with just primary
 key columns

---
 geodiff/src/drivers/postgresdriver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index ad33a7e..aab9437 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -558,6 +558,9 @@ static void handleInserted( const std::string &schemaNameBase, const std::string
 
 static void handleUpdated( const std::string &schemaNameBase, const std::string &schemaNameModified, const std::string &tableName, const TableSchema &tbl, PGconn *conn, ChangesetWriter &writer, bool &first )
 {
+  if ( std::all_of( tbl.columns.begin(), tbl.columns.end(), []( const TableColumnInfo & c ) { return c.isPrimaryKey; } ) )
+    return;  // there is nothing to update in tables with just primary key columns
+
   std::string sqlModified = sqlFindModified( schemaNameBase, schemaNameModified, tableName, tbl );
   PostgresResult res( execSql( conn, sqlModified ) );
 
-- 
2.43.0


From 8d47064d1a1fa5228581ee1d7ea960d7d7a54a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 45/70] fix: lost PostgreSQL connection during transaction
 caused a crash

---
 geodiff/src/drivers/postgresdriver.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index aab9437..daf3df9 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -41,7 +41,14 @@ class PostgresTransaction
       if ( mConn )
       {
         // we had some problems - roll back any pending changes
-        PostgresResult res( execSql( mConn, "ROLLBACK" ) );
+        try
+        {
+          PostgresResult res( execSql( mConn, "ROLLBACK" ) );
+        }
+        catch ( const GeoDiffException & )
+        {
+          // destructor must not throw: if e.g. the connection is lost, server will do the rollback
+        }
       }
     }
 
-- 
2.43.0


From b26ae85886e21f1f7a34bb6ff510c4e6ce7a0554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 46/70] fix: leak of failed PostgreSQL connections

---
 geodiff/src/drivers/postgresdriver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index daf3df9..fa28351 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -104,7 +104,9 @@ void PostgresDriver::openPrivate( const DriverParametersMap &conn )
 
   if ( PQstatus( c ) != CONNECTION_OK )
   {
-    throw GeoDiffException( "Cannot connect to PostgreSQL database: " + std::string( PQerrorMessage( c ) ) );
+    std::string error( PQerrorMessage( c ) );
+    PQfinish( c );
+    throw GeoDiffException( "Cannot connect to PostgreSQL database: " + error );
   }
 
   mConn = c;
-- 
2.43.0


From 88a9ac816450d33cb85c8d149c1ad3d6ef85e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 47/70] fix: deletes that did not find their row were not
 treated as conflicts in PostgreSQL driver

---
 geodiff/src/drivers/postgresdriver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index fa28351..8ee894e 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -839,6 +839,7 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
       if ( res.affectedRows() != "1" )
       {
         logApplyConflict( "delete_nothing", entry );
+        ++conflictCount;
         Logger::instance().warn( "Wrong number of affected rows! Expected 1, got: " + res.affectedRows() );
       }
     }
-- 
2.43.0


From 666538549d592ed4550aff98d60d4c1b0cacb051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 48/70] fix: real numbers lost precision when applied to
 PostgreSQL

---
 geodiff/src/drivers/postgresdriver.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 8ee894e..0c8a599 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -14,8 +14,12 @@
 #include "postgresutils.h"
 
 #include <algorithm>
+#include <cmath>
+#include <iomanip>
 #include <iostream>
+#include <locale>
 #include <memory.h>
+#include <sstream>
 
 
 /**
@@ -511,7 +515,14 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
   }
   else if ( v.type() == Value::TypeDouble )
   {
-    return std::to_string( v.getDouble() );
+    // the literal is quoted so that it gets the type of the column - and all digits are needed for exact value
+    double d = v.getDouble();
+    if ( std::isinf( d ) )
+      return d > 0 ? "'Infinity'" : "'-Infinity'";
+    std::ostringstream str;
+    str.imbue( std::locale::classic() );
+    str << std::setprecision( 17 ) << d;
+    return "'" + str.str() + "'";
   }
   else if ( v.type() == Value::TypeText || v.type() == Value::TypeBlob )
   {
-- 
2.43.0


From f908cc7abe5b77a66a681d0e3db595f6d154318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 49/70] fix: geometries with envelope or without header in
 PostgreSQL driver

---
 geodiff/src/drivers/postgresdriver.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 0c8a599..e8b3178 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -496,6 +496,19 @@ static Value resultToValue( const PostgresResult &res, int r, size_t i, const Ta
 }
 
 
+//! Returns size of GeoPackage header in front of WKB (the header may include envelope of the geometry)
+static size_t gpkgHeaderSize( const std::string &gpkgWkb )
+{
+  static const size_t envelopeSizes[] = { 0, 32, 48, 48, 64 };
+  if ( gpkgWkb.size() < 8 || gpkgWkb[0] != 'G' || gpkgWkb[1] != 'P' )
+    throw GeoDiffException( "Unexpected geometry value (missing GeoPackage header)" );
+  size_t envelope = ( static_cast<unsigned char>( gpkgWkb[3] ) >> 1 ) & 7;
+  if ( envelope > 4 || gpkgWkb.size() < 8 + envelopeSizes[envelope] )
+    throw GeoDiffException( "Unexpected geometry value (invalid GeoPackage header)" );
+  return 8 + envelopeSizes[envelope];
+}
+
+
 static std::string valueToSql( const Value &v, const TableColumnInfo &col )
 {
   if ( v.type() == Value::TypeUndefined )
@@ -530,8 +543,7 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
     {
       // handling of geometries - they are encoded with GPKG header
       std::string gpkgWkb = v.getString();
-      std::string wkb( gpkgWkb.size() - 8, 0 );
-      memcpy( &wkb[0], &gpkgWkb[8], gpkgWkb.size() - 8 );
+      std::string wkb = gpkgWkb.substr( gpkgHeaderSize( gpkgWkb ) );
       return "ST_GeomFromWKB('\\x" + bin2hex( wkb ) + "', " + std::to_string( col.geomSrsId ) + ")";
     }
     return quotedString( v.getString() );
-- 
2.43.0


From 7da165b4a9463168558b957361d6eec68a11067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 50/70] fix: blobs written to PostgreSQL

---
 geodiff/src/drivers/postgresdriver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index e8b3178..6a57d2e 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -546,6 +546,8 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
       std::string wkb = gpkgWkb.substr( gpkgHeaderSize( gpkgWkb ) );
       return "ST_GeomFromWKB('\\x" + bin2hex( wkb ) + "', " + std::to_string( col.geomSrsId ) + ")";
     }
+    if ( v.type() == Value::TypeBlob )
+      return quotedString( "\\x" + bin2hex( v.getString() ) );   // hex format of bytea type
     return quotedString( v.getString() );
   }
   else
-- 
2.43.0


From 700a59740c817508ae8d9d1b9b70e2abec6f0e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 51/70] fix: updates without changed values could not be
 applied to PostgreSQL

---
 geodiff/src/drivers/postgresdriver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 6a57d2e..5063fec 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -718,6 +718,8 @@ static std::string sqlForUpdate( const std::string &schemaName, const std::strin
       sql += quotedIdentifier( tbl.columns[i].name ) + " = " + valueToSql( newValues[i], tbl.columns[i] );
     }
   }
+  if ( first )  // nothing is changed: just check that the row is there
+    sql += quotedIdentifier( tbl.columns[0].name ) + " = " + quotedIdentifier( tbl.columns[0].name );
   first = true;
   sql += " WHERE ";
   for ( size_t i = 0; i < tbl.columns.size(); ++i )
-- 
2.43.0


From 75708d64f11f29918c5fbfa9049a4e1d4a592145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 52/70] fix: updates without changed values were written by
 PostgreSQL driver

---
 geodiff/src/drivers/postgresdriver.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 5063fec..dc16f09 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -601,13 +601,6 @@ static void handleUpdated( const std::string &schemaNameBase, const std::string
   int rows = res.rowCount();
   for ( int r = 0; r < rows; ++r )
   {
-    if ( first )
-    {
-      ChangesetTable chTable = schemaToChangesetTable( tableName, tbl );
-      writer.beginTable( chTable );
-      first = false;
-    }
-
     /*
     ** Within the old.* record associated with an UPDATE change, all fields
     ** associated with table columns that are not PRIMARY KEY columns and are
@@ -622,6 +615,7 @@ static void handleUpdated( const std::string &schemaNameBase, const std::string
     ChangesetEntry e;
     e.op = ChangesetEntry::OpUpdate;
 
+    bool anyUpdated = false;
     size_t numColumns = tbl.columns.size();
     for ( size_t i = 0; i < numColumns; ++i )
     {
@@ -629,10 +623,21 @@ static void handleUpdated( const std::string &schemaNameBase, const std::string
       Value v2( resultToValue( res, r, i, tbl.columns[i] ) );
       bool pkey = tbl.columns[i].isPrimaryKey;
       bool updated = v1 != v2;
+      anyUpdated = anyUpdated || updated;
       e.oldValues.push_back( ( pkey || updated ) ? v1 : Value() );
       e.newValues.push_back( updated ? v2 : Value() );
     }
 
+    if ( !anyUpdated )
+      continue;  // e.g. timestamps that only differ in fractions of a second
+
+    if ( first )
+    {
+      ChangesetTable chTable = schemaToChangesetTable( tableName, tbl );
+      writer.beginTable( chTable );
+      first = false;
+    }
+
     writer.writeEntry( e );
   }
 }
-- 
2.43.0


From 2f7db7bbc1918076fe63ff1ed245911df7b6d9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 53/70] fix: changes in case of citext values were ignored by
 PostgreSQL driver

---
 geodiff/src/drivers/postgresdriver.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index dc16f09..edcb97c 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -357,6 +357,13 @@ static std::string allColumnNames( const TableSchema &tbl, const std::string &pr
 }
 
 
+//! Returns the column as it should be compared: comparison of "citext" columns would ignore case of the text
+static std::string comparedColumn( const std::string &quotedName, const TableColumnInfo &col )
+{
+  return col.type == "citext" ? quotedName + "::text" : quotedName;
+}
+
+
 //! Constructs SQL query to get all rows that do not exist in the other table (used for insert and delete)
 static std::string sqlFindInserted( const std::string &schemaNameBase, const std::string &schemaNameModified, const std::string &tableName, const TableSchema &tbl, bool reverse )
 {
@@ -394,13 +401,13 @@ static std::string sqlFindModified( const std::string &schemaNameBase, const std
       exprPk += "b." + quotedIdentifier( c.name ) + "=" +
                 "a." + quotedIdentifier( c.name );
     }
-    else // not a primary key column
+    if ( !c.isPrimaryKey || c.type == "citext" )  // keys may differ in case of the text
     {
       if ( !exprOther.empty() )
         exprOther += " OR ";
 
-      std::string colBase = "b." + quotedIdentifier( c.name );
-      std::string colModified = "a." + quotedIdentifier( c.name );
+      std::string colBase = comparedColumn( "b." + quotedIdentifier( c.name ), c );
+      std::string colModified = comparedColumn( "a." + quotedIdentifier( c.name ), c );
       exprOther += "NOT ((" + colBase + " IS NULL AND " + colModified + " IS NULL) OR (" + colBase + " = " + colModified + "))";
     }
   }
@@ -592,7 +599,7 @@ static void handleInserted( const std::string &schemaNameBase, const std::string
 
 static void handleUpdated( const std::string &schemaNameBase, const std::string &schemaNameModified, const std::string &tableName, const TableSchema &tbl, PGconn *conn, ChangesetWriter &writer, bool &first )
 {
-  if ( std::all_of( tbl.columns.begin(), tbl.columns.end(), []( const TableColumnInfo & c ) { return c.isPrimaryKey; } ) )
+  if ( std::all_of( tbl.columns.begin(), tbl.columns.end(), []( const TableColumnInfo & c ) { return c.isPrimaryKey && c.type != "citext"; } ) )
     return;  // there is nothing to update in tables with just primary key columns
 
   std::string sqlModified = sqlFindModified( schemaNameBase, schemaNameModified, tableName, tbl );
@@ -734,7 +741,7 @@ static std::string sqlForUpdate( const std::string &schemaName, const std::strin
       if ( !first )
         sql += " AND ";
       first = false;
-      sql += quotedIdentifier( tbl.columns[i].name );
+      sql += comparedColumn( quotedIdentifier( tbl.columns[i].name ), tbl.columns[i] );
       if ( oldValues[i].type() == Value::TypeNull )
         sql += " IS NULL";
       else
@@ -755,13 +762,13 @@ static std::string sqlForDelete( const std::string &schemaName, const std::strin
     if ( i > 0 )
       sql += " AND ";
     if ( tbl.columns[i].isPrimaryKey )
-      sql += quotedIdentifier( tbl.columns[i].name ) + " = " + valueToSql( values[i], tbl.columns[i] );
+      sql += comparedColumn( quotedIdentifier( tbl.columns[i].name ), tbl.columns[i] ) + " = " + valueToSql( values[i], tbl.columns[i] );
     else
     {
       if ( values[i].type() == Value::TypeNull )
         sql += quotedIdentifier( tbl.columns[i].name ) + " IS NULL";
       else
-        sql += quotedIdentifier( tbl.columns[i].name ) + " = " + valueToSql( values[i], tbl.columns[i] ) ;
+        sql += comparedColumn( quotedIdentifier( tbl.columns[i].name ), tbl.columns[i] ) + " = " + valueToSql( values[i], tbl.columns[i] ) ;
     }
   }
   return sql;
-- 
2.43.0


From 1a58bba7c4dd0fbffb60eedc940aa9f90be397a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 54/70] fix: update of PostgreSQL sequences: big values and
 unused sequences

---
 geodiff/src/drivers/postgresdriver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index edcb97c..ba11978 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -930,9 +930,9 @@ void PostgresDriver::updateSequenceObject( const std::string &seqName, int64_t m
 {
   PostgresResult resCurrVal( execSql( mConn, "SELECT last_value FROM " + seqName ) );
   std::string currValueStr = resCurrVal.value( 0, 0 );
-  int currValue = std::stoi( currValueStr );
+  int64_t currValue = strtoll( currValueStr.c_str(), nullptr, 10 );
 
-  if ( currValue < maxValue )
+  if ( currValue <= maxValue )  // the last value of a new sequence has not been used yet
   {
     Logger::instance().info( "Updating sequence " + seqName + " from " + std::to_string( currValue ) + " to " + std::to_string( maxValue ) );
 
-- 
2.43.0


From 82ff3fb54051fd8ab17a6af9a10a666cfe192d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 55/70] fix: out of bounds access with malformed changesets in
 PostgreSQL driver

---
 geodiff/src/drivers/postgresdriver.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index ba11978..6b6099f 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -808,15 +808,6 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
       if ( tbl.columns.size() == 0 )
         throw GeoDiffException( "No such table: " + tableName );
 
-      if ( tbl.columns.size() != entry.table->columnCount() )
-        throw GeoDiffException( "Wrong number of columns for table: " + tableName );
-
-      for ( size_t i = 0; i < entry.table->columnCount(); ++i )
-      {
-        if ( tbl.columns[i].isPrimaryKey != entry.table->primaryKeys[i] )
-          throw GeoDiffException( "Mismatch of primary keys in table: " + tableName );
-      }
-
       // if a table has auto-incrementing pkey (using SEQUENCE object), we may need
       // to update the sequence value after doing some inserts (or subsequent INSERTs would fail)
       std::string seqName = getSequenceObjectName( tbl, autoIncrementPkeyIndex );
@@ -824,6 +815,16 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
         tableNameToSequenceName[tableName] = seqName;
     }
 
+    // the same table may be listed repeatedly in the changeset, so check every entry
+    if ( tbl.columns.size() != entry.table->columnCount() )
+      throw GeoDiffException( "Wrong number of columns for table: " + tableName );
+
+    for ( size_t i = 0; i < entry.table->columnCount(); ++i )
+    {
+      if ( tbl.columns[i].isPrimaryKey != entry.table->primaryKeys[i] )
+        throw GeoDiffException( "Mismatch of primary keys in table: " + tableName );
+    }
+
     if ( entry.op == ChangesetEntry::OpInsert )
     {
       std::string sql = sqlForInsert( mBaseSchema, tableName, tbl, entry.newValues );
@@ -839,7 +840,7 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
         throw GeoDiffException( "Wrong number of affected rows! Expected 1, got: " + res.affectedRows() );
       }
 
-      if ( autoIncrementPkeyIndex != -1 )
+      if ( autoIncrementPkeyIndex != -1 && entry.newValues[autoIncrementPkeyIndex].type() == Value::TypeInt )
       {
         int64_t pkey = entry.newValues[autoIncrementPkeyIndex].getInt();
         if ( autoIncrementTablesToFix.find( tableName ) == autoIncrementTablesToFix.end() )
-- 
2.43.0


From e9e7ff793eba165de1f9bf241fe126b81ac8489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:31 +0000
Subject: [PATCH 56/70] fix: changes from and to null were not detected by
 PostgreSQL driver

---
 geodiff/src/drivers/postgresdriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 6b6099f..582a5d2 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -408,7 +408,7 @@ static std::string sqlFindModified( const std::string &schemaNameBase, const std
 
       std::string colBase = comparedColumn( "b." + quotedIdentifier( c.name ), c );
       std::string colModified = comparedColumn( "a." + quotedIdentifier( c.name ), c );
-      exprOther += "NOT ((" + colBase + " IS NULL AND " + colModified + " IS NULL) OR (" + colBase + " = " + colModified + "))";
+      exprOther += colBase + " IS DISTINCT FROM " + colModified;
     }
   }
 
-- 
2.43.0


From 3aa9fab59ea33695f4b4c408fc1e12231402dc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 57/70] fix: blobs written to text columns of PostgreSQL

---
 geodiff/src/drivers/postgresdriver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 582a5d2..1e04583 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -553,6 +553,8 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
       std::string wkb = gpkgWkb.substr( gpkgHeaderSize( gpkgWkb ) );
       return "ST_GeomFromWKB('\\x" + bin2hex( wkb ) + "', " + std::to_string( col.geomSrsId ) + ")";
     }
+    if ( v.type() == Value::TypeBlob && col.type != "bytea" )
+      throw GeoDiffException( "Unable to store blob in column " + col.name + " of type " + col.type );
     if ( v.type() == Value::TypeBlob )
       return quotedString( "\\x" + bin2hex( v.getString() ) );   // hex format of bytea type
     return quotedString( v.getString() );
-- 
2.43.0


From 611b0c5574f214e14a741cb46af2d4d1bba971f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 58/70] fix: crash in Python when a GeoDiff object with a
 logger callback was deleted

---
 pygeodiff/geodifflib.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pygeodiff/geodifflib.py b/pygeodiff/geodifflib.py
index e943fcd..a3c700c 100644
--- a/pygeodiff/geodifflib.py
+++ b/pygeodiff/geodifflib.py
@@ -46,6 +46,10 @@ def _parse_return_code(rc, msg):
     else:
         raise GeoDiffLibVersionError("Internal error (enum " + str(rc) + " not handled)")
 
+# logger callbacks set in the loaded libraries (by library name)
+_logger_callbacks = {}
+
+
 class GeoDiffLib:
     def __init__(self, name):
         if name is None:
@@ -90,9 +94,11 @@ class GeoDiffLib:
         func = self.lib.GEODIFF_setLoggerCallback
         CMPFUNC = ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_char_p)
         func.argtypes = [CMPFUNC]
-        # do not remove self, callback needs to be member
-        self.callbackLogger = CMPFUNC(callback)
-        func(self.callbackLogger)
+        # the library (shared by all instances) keeps using the callback, so it needs
+        # to be kept alive until it is replaced, even if this instance is deleted
+        callbackLogger = CMPFUNC(callback)
+        func(callbackLogger)
+        _logger_callbacks[self.libname] = callbackLogger
 
     def set_maximum_logger_level(self, maxLevel):
         func = self.lib.GEODIFF_setMaximumLoggerLevel
-- 
2.43.0


From c1fff0bb11f8353a8985a70f1e914870ac73efb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 59/70] fix: versions were missing in the message about a
 version mismatch in Python

---
 pygeodiff/geodifflib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeodiff/geodifflib.py b/pygeodiff/geodifflib.py
index a3c700c..426803f 100644
--- a/pygeodiff/geodifflib.py
+++ b/pygeodiff/geodifflib.py
@@ -115,7 +115,7 @@ class GeoDiffLib:
         cversion = self.version()
         pyversion = __version__
         if cversion != pyversion:
-            raise GeoDiffLibVersionError("version mismatch (%s C vs %s PY)".format(cversion, pyversion))
+            raise GeoDiffLibVersionError("version mismatch ({} C vs {} PY)".format(cversion, pyversion))
 
     def create_changeset(self, base, modified, changeset):
         func = self.lib.GEODIFF_createChangeset
-- 
2.43.0


From 6cdaf12834852a0a2a52a96c42896394408ff7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 60/70] fix: geodiffinfo read arguments that were not given

---
 geodiff/src/geodiffinfo.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/geodiffinfo.cpp b/geodiff/src/geodiffinfo.cpp
index e7d5493..1909666 100644
--- a/geodiff/src/geodiffinfo.cpp
+++ b/geodiff/src/geodiffinfo.cpp
@@ -60,7 +60,7 @@ int createRebasedChangeset( int argc, char *argv[] )
 
 int applyChangeset( int argc, char *argv[] )
 {
-  if ( argc < 1 + 2 )
+  if ( argc < 1 + 3 )
   {
     return err( "invalid number of arguments to applyChangeset" );
   }
@@ -71,7 +71,7 @@ int applyChangeset( int argc, char *argv[] )
 
 int listChanges( int argc, char *argv[] )
 {
-  if ( argc < 1 + 2 )
+  if ( argc < 1 + 3 )
   {
     return err( "invalid number of arguments to listChanges" );
   }
@@ -82,7 +82,7 @@ int listChanges( int argc, char *argv[] )
 
 int listChangesSummary( int argc, char *argv[] )
 {
-  if ( argc < 1 + 2 )
+  if ( argc < 1 + 3 )
   {
     return err( "invalid number of arguments to listChangesSummary" );
   }
-- 
2.43.0


From fe6f3f0020e0041665d88fdb6b22cb65366e2545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 61/70] fix: values from PostgreSQL depended on settings of the
 role and server

---
 geodiff/src/drivers/postgresdriver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 1e04583..08cd8f2 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -114,6 +114,10 @@ void PostgresDriver::openPrivate( const DriverParametersMap &conn )
   }
 
   mConn = c;
+
+  // formats of values must not depend on settings of the server, of the role or of the environment
+  PostgresResult resSet( execSql( mConn, "SET client_encoding = 'UTF8'; SET standard_conforming_strings = on; "
+                                  "SET bytea_output = 'hex'; SET extra_float_digits = 3" ) );
 }
 
 void PostgresDriver::close()
-- 
2.43.0


From 984fa2ddcbb92c8acddb2259b9036557dbdbf92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 62/70] fix: numbers from PostgreSQL were cut in locales with a
 decimal comma

---
 geodiff/src/drivers/postgresdriver.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 08cd8f2..882dff5 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -17,6 +17,7 @@
 #include <cmath>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <locale>
 #include <memory.h>
 #include <sstream>
@@ -445,6 +446,24 @@ static bool isColumnGeometry( const TableColumnInfo &col )
 }
 
 
+//! Reads a number as written by PostgreSQL (does not depend on the current locale)
+static double stringToDouble( const std::string &str )
+{
+  if ( str == "Infinity" )
+    return std::numeric_limits<double>::infinity();
+  if ( str == "-Infinity" )
+    return -std::numeric_limits<double>::infinity();
+  if ( str == "NaN" )
+    return std::numeric_limits<double>::quiet_NaN();
+
+  double val = 0;
+  std::istringstream in( str );
+  in.imbue( std::locale::classic() );
+  in >> val;
+  return val;
+}
+
+
 static Value resultToValue( const PostgresResult &res, int r, size_t i, const TableColumnInfo &col )
 {
   Value v;
@@ -465,7 +484,7 @@ static Value resultToValue( const PostgresResult &res, int r, size_t i, const Ta
     }
     else if ( isColumnDouble( col ) )
     {
-      v.setDouble( atof( valueStr.c_str() ) );
+      v.setDouble( stringToDouble( valueStr ) );
     }
     else if ( isColumnText( col ) )
     {
-- 
2.43.0


From 0240a87378969c5ff957224a6e5d30a75474c97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 63/70] fix: types of columns were not recognized in the
 Turkish locale

---
 geodiff/src/geodiffutils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index c553140..03579da 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -623,7 +623,7 @@ std::string lowercaseString( const std::string &str )
 {
   std::string ret = str;
   std::transform( ret.begin(), ret.end(), ret.begin(),
-  []( unsigned char c ) { return std::tolower( c ); } );
+  []( char c ) { return c >= 'A' && c <= 'Z' ? static_cast<char>( c - 'A' + 'a' ) : c; } );  // std::tolower() would depend on locale
   return ret;
 }
 
-- 
2.43.0


From 26b97fce26713da8013671b1efc6ed21c6c5be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 64/70] fix: exceptions other than GeoDiffException (e.g. out
 of memory) left the C interface

---
 geodiff/src/changesetreader.cpp        |   2 +-
 geodiff/src/drivers/postgresdriver.cpp |   2 +-
 geodiff/src/geodiff.cpp                | 201 ++++++++++++++-----------
 geodiff/src/geodifflogger.cpp          |  19 ++-
 geodiff/src/geodifflogger.hpp          |   6 +-
 5 files changed, 131 insertions(+), 99 deletions(-)

diff --git a/geodiff/src/changesetreader.cpp b/geodiff/src/changesetreader.cpp
index 05e3eef..8e929e0 100644
--- a/geodiff/src/changesetreader.cpp
+++ b/geodiff/src/changesetreader.cpp
@@ -27,7 +27,7 @@ bool ChangesetReader::open( const std::string &filename )
     mBuffer.reset( new Buffer );
     mBuffer->read( filename );
   }
-  catch ( GeoDiffException )
+  catch ( const GeoDiffException & )
   {
     return false;
   }
diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 882dff5..0e2104f 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -50,7 +50,7 @@ class PostgresTransaction
         {
           PostgresResult res( execSql( mConn, "ROLLBACK" ) );
         }
-        catch ( const GeoDiffException & )
+        catch ( const std::exception & )
         {
           // destructor must not throw: if e.g. the connection is lost, server will do the rollback
         }
diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index e8ee297..6174dea 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -33,8 +33,16 @@ const char *GEODIFF_version()
 
 void _errorLogCallback( void *pArg, int iErrCode, const char *zMsg )
 {
-  std::string msg = "SQLITE3: (" + std::to_string( iErrCode ) + ")" + zMsg;
-  Logger::instance().error( msg );
+  try
+  {
+    std::string msg = "SQLITE3: (" + std::to_string( iErrCode ) + ")" + zMsg;
+    Logger::instance().error( msg );
+  }
+  catch ( const std::exception &exc )
+  {
+    // must not get to the code of SQLite
+    Logger::instance().error( exc );
+  }
 }
 
 static bool gInitialized = false;
@@ -97,7 +105,7 @@ int GEODIFF_createChangesetEx( const char *driverName, const char *driverExtraIn
     driver->createChangeset( writer );
     writer.close();
   }
-  catch ( GeoDiffException exc )
+  catch ( const std::exception &exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
@@ -138,7 +146,7 @@ int GEODIFF_applyChangesetEx( const char *driverName, const char *driverExtraInf
 
     driver->applyChangeset( reader );
   }
-  catch ( GeoDiffException exc )
+  catch ( const std::exception &exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
@@ -160,10 +168,11 @@ int GEODIFF_createRebasedChangeset( const char *base,
     Logger::instance().error( "NULL arguments to GEODIFF_createRebasedChangeset" );
     return GEODIFF_ERROR;
   }
-  fileremove( conflictfile );
 
   try
   {
+    fileremove( conflictfile );
+
     // first verify if we are able to do rebase on this database schema at all
     {
       std::map<std::string, std::string> conn;
@@ -183,7 +192,7 @@ int GEODIFF_createRebasedChangeset( const char *base,
 
     return GEODIFF_createRebasedChangesetEx( "sqlite", "", base, changeset_BASE_MODIFIED.c_path(), changeset_their, changeset, conflictfile );
   }
-  catch ( GeoDiffException exc )
+  catch ( const std::exception &exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
@@ -230,7 +239,7 @@ int GEODIFF_createRebasedChangesetEx( const char *driverName,
     }
     return rc;
   }
-  catch ( GeoDiffException exc )
+  catch ( const std::exception &exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
@@ -246,14 +255,22 @@ int GEODIFF_hasChanges( const char *changeset )
     return -1;
   }
 
-  ChangesetReader reader;
-  if ( !reader.open( changeset ) )
+  try
+  {
+    ChangesetReader reader;
+    if ( !reader.open( changeset ) )
+    {
+      Logger::instance().error( "Could not open changeset: " + std::string( changeset ) );
+      return -1;
+    }
+
+    return !reader.isEmpty();
+  }
+  catch ( const std::exception &exc )
   {
-    Logger::instance().error( "Could not open changeset: " + std::string( changeset ) );
+    Logger::instance().error( exc );
     return -1;
   }
-
-  return !reader.isEmpty();
 }
 
 int GEODIFF_changesCount( const char *changeset )
@@ -264,15 +281,15 @@ int GEODIFF_changesCount( const char *changeset )
     return -1;
   }
 
-  ChangesetReader reader;
-  if ( !reader.open( changeset ) )
-  {
-    Logger::instance().error( "Could not open changeset: " + std::string( changeset ) );
-    return -1;
-  }
-
   try
   {
+    ChangesetReader reader;
+    if ( !reader.open( changeset ) )
+    {
+      Logger::instance().error( "Could not open changeset: " + std::string( changeset ) );
+      return -1;
+    }
+
     int changesCount = 0;
     ChangesetEntry entry;
     while ( reader.nextEntry( entry ) )
@@ -280,7 +297,7 @@ int GEODIFF_changesCount( const char *changeset )
 
     return changesCount;
   }
-  catch ( GeoDiffException exc )
+  catch ( const std::exception &exc )
   {
     Logger::instance().error( exc );
     return -1;
@@ -295,23 +312,23 @@ static int listChangesJSON( const char *changeset, const char *jsonfile, bool on
     return GEODIFF_ERROR;
   }
 
-  ChangesetReader reader;
-  if ( !reader.open( changeset ) )
-  {
-    Logger::instance().error( "Could not open changeset: " + std::string( changeset ) );
-    return GEODIFF_ERROR;
-  }
-
   std::string res;
   try
   {
+    ChangesetReader reader;
+    if ( !reader.open( changeset ) )
+    {
+      Logger::instance().error( "Could not open changeset: " + std::string( changeset ) );
+      return GEODIFF_ERROR;
+    }
+
     if ( onlySummary )
       res = changesetToJSONSummary( reader );
     else
       res = changesetToJSON( reader );
     flushString( jsonfile, res );
   }
-  catch ( GeoDiffException exc )
+  catch ( const std::exception &exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
@@ -337,32 +354,32 @@ int GEODIFF_invertChangeset( const char *changeset, const char *changeset_inv )
     return GEODIFF_ERROR;
   }
 
-  if ( !fileexists( changeset ) )
+  try
   {
-    Logger::instance().error( "Missing input files in GEODIFF_invertChangeset" );
-    return GEODIFF_ERROR;
-  }
+    if ( !fileexists( changeset ) )
+    {
+      Logger::instance().error( "Missing input files in GEODIFF_invertChangeset" );
+      return GEODIFF_ERROR;
+    }
 
-  ChangesetReader reader;
-  if ( !reader.open( changeset ) )
-  {
-    Logger::instance().error( "Could not open changeset: " + std::string( changeset ) );
-    return GEODIFF_ERROR;
-  }
+    ChangesetReader reader;
+    if ( !reader.open( changeset ) )
+    {
+      Logger::instance().error( "Could not open changeset: " + std::string( changeset ) );
+      return GEODIFF_ERROR;
+    }
 
-  ChangesetWriter writer;
-  if ( !writer.open( changeset_inv ) )
-  {
-    Logger::instance().error( "Could not open file for writing: " + std::string( changeset_inv ) );
-    return GEODIFF_ERROR;
-  }
+    ChangesetWriter writer;
+    if ( !writer.open( changeset_inv ) )
+    {
+      Logger::instance().error( "Could not open file for writing: " + std::string( changeset_inv ) );
+      return GEODIFF_ERROR;
+    }
 
-  try
-  {
     invertChangeset( reader, writer );
     writer.close();
   }
-  catch ( GeoDiffException exc )
+  catch ( const std::exception &exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
@@ -384,22 +401,30 @@ int GEODIFF_rebase( const char *base,
     return GEODIFF_ERROR;
   }
 
-  if ( !fileexists( base ) || !fileexists( modified_their ) || !fileexists( modified ) )
+  try
   {
-    Logger::instance().error( "Missing input files in GEODIFF_rebase" );
-    return GEODIFF_ERROR;
-  }
+    if ( !fileexists( base ) || !fileexists( modified_their ) || !fileexists( modified ) )
+    {
+      Logger::instance().error( "Missing input files in GEODIFF_rebase" );
+      return GEODIFF_ERROR;
+    }
 
-  std::string root = std::string( modified );
+    std::string root = std::string( modified );
 
-  TmpFile base2theirs( root + "_base2theirs.bin" );
-  if ( GEODIFF_createChangeset( base, modified_their, base2theirs.c_path() ) != GEODIFF_SUCCESS )
+    TmpFile base2theirs( root + "_base2theirs.bin" );
+    if ( GEODIFF_createChangeset( base, modified_their, base2theirs.c_path() ) != GEODIFF_SUCCESS )
+    {
+      Logger::instance().error( "Unable to perform GEODIFF_createChangeset base2theirs" );
+      return GEODIFF_ERROR;
+    }
+
+    return GEODIFF_rebaseEx( "sqlite", "", base, modified, base2theirs.c_path(), conflictfile );
+  }
+  catch ( const std::exception &exc )
   {
-    Logger::instance().error( "Unable to perform GEODIFF_createChangeset base2theirs" );
+    Logger::instance().error( exc );
     return GEODIFF_ERROR;
   }
-
-  return GEODIFF_rebaseEx( "sqlite", "", base, modified, base2theirs.c_path(), conflictfile );
 }
 
 
@@ -484,7 +509,7 @@ int GEODIFF_rebaseEx( const char *driverName,
 
     return GEODIFF_SUCCESS;
   }
-  catch ( GeoDiffException exc )
+  catch ( const std::exception &exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
@@ -501,32 +526,32 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     return GEODIFF_ERROR;
   }
 
-  if ( std::string( driverSrcName ) == std::string( driverDstName ) && std::string( src ) == std::string( dst ) &&
-       std::string( driverSrcExtraInfo ? driverSrcExtraInfo : "" ) == std::string( driverDstExtraInfo ? driverDstExtraInfo : "" ) )
+  try
   {
-    // the destination gets removed before it is created again
-    Logger::instance().error( "Source and destination of GEODIFF_makeCopy are the same" );
-    return GEODIFF_ERROR;
-  }
+    if ( std::string( driverSrcName ) == std::string( driverDstName ) && std::string( src ) == std::string( dst ) &&
+         std::string( driverSrcExtraInfo ? driverSrcExtraInfo : "" ) == std::string( driverDstExtraInfo ? driverDstExtraInfo : "" ) )
+    {
+      // the destination gets removed before it is created again
+      Logger::instance().error( "Source and destination of GEODIFF_makeCopy are the same" );
+      return GEODIFF_ERROR;
+    }
 
-  std::unique_ptr<Driver> driverSrc( Driver::createDriver( std::string( driverSrcName ) ) );
-  if ( !driverSrc )
-  {
-    Logger::instance().error( "Cannot create driver " + std::string( driverSrcName ) );
-    return GEODIFF_ERROR;
-  }
+    std::unique_ptr<Driver> driverSrc( Driver::createDriver( std::string( driverSrcName ) ) );
+    if ( !driverSrc )
+    {
+      Logger::instance().error( "Cannot create driver " + std::string( driverSrcName ) );
+      return GEODIFF_ERROR;
+    }
 
-  std::unique_ptr<Driver> driverDst( Driver::createDriver( std::string( driverDstName ) ) );
-  if ( !driverDst )
-  {
-    Logger::instance().error( "Cannot create driver " + std::string( driverDstName ) );
-    return GEODIFF_ERROR;
-  }
+    std::unique_ptr<Driver> driverDst( Driver::createDriver( std::string( driverDstName ) ) );
+    if ( !driverDst )
+    {
+      Logger::instance().error( "Cannot create driver " + std::string( driverDstName ) );
+      return GEODIFF_ERROR;
+    }
 
-  TmpFile tmpFileChangeset( tmpdir() + "geodiff_changeset" + randomString( 12 ) );
+    TmpFile tmpFileChangeset( tmpdir() + "geodiff_changeset" + randomString( 12 ) );
 
-  try
-  {
     // open source
     std::map<std::string, std::string> connSrc;
     connSrc["base"] = std::string( src );
@@ -571,7 +596,7 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
       driverDst->applyChangeset( reader );
     }
   }
-  catch ( GeoDiffException exc )
+  catch ( const std::exception &exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
@@ -591,15 +616,15 @@ int GEODIFF_dumpData( const char *driverName, const char *driverExtraInfo, const
     return GEODIFF_ERROR;
   }
 
-  std::unique_ptr<Driver> driver( Driver::createDriver( std::string( driverName ) ) );
-  if ( !driver )
-  {
-    Logger::instance().error( "Cannot create driver " + std::string( driverName ) );
-    return GEODIFF_ERROR;
-  }
-
   try
   {
+    std::unique_ptr<Driver> driver( Driver::createDriver( std::string( driverName ) ) );
+    if ( !driver )
+    {
+      Logger::instance().error( "Cannot create driver " + std::string( driverName ) );
+      return GEODIFF_ERROR;
+    }
+
     // open source
     std::map<std::string, std::string> conn;
     conn["base"] = std::string( src );
@@ -614,7 +639,7 @@ int GEODIFF_dumpData( const char *driverName, const char *driverExtraInfo, const
     driver->dumpData( writer );
     writer.close();
   }
-  catch ( GeoDiffException exc )
+  catch ( const std::exception &exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
diff --git a/geodiff/src/geodifflogger.cpp b/geodiff/src/geodifflogger.cpp
index e750d22..09fafcf 100644
--- a/geodiff/src/geodifflogger.cpp
+++ b/geodiff/src/geodifflogger.cpp
@@ -63,30 +63,35 @@ void Logger::setCallback( GEODIFF_LoggerCallback loggerCallback )
 
 void Logger::debug( const std::string &msg )
 {
-  log( GEODIFF_LoggerLevel::LevelDebug, msg );
+  log( GEODIFF_LoggerLevel::LevelDebug, msg.c_str() );
 }
 
 void Logger::warn( const std::string &msg )
 {
-  log( GEODIFF_LoggerLevel::LevelWarning, msg );
+  log( GEODIFF_LoggerLevel::LevelWarning, msg.c_str() );
 }
 
 void Logger::error( const std::string &msg )
 {
-  log( GEODIFF_LoggerLevel::LevelError, msg );
+  log( GEODIFF_LoggerLevel::LevelError, msg.c_str() );
 }
 
-void Logger::error( const GeoDiffException &exp )
+void Logger::error( const std::exception &exp )
 {
   log( GEODIFF_LoggerLevel::LevelError, exp.what() );
 }
 
+void Logger::error( const char *msg )
+{
+  log( GEODIFF_LoggerLevel::LevelError, msg );
+}
+
 void Logger::info( const std::string &msg )
 {
-  log( GEODIFF_LoggerLevel::LevelInfo, msg );
+  log( GEODIFF_LoggerLevel::LevelInfo, msg.c_str() );
 }
 
-void Logger::log( GEODIFF_LoggerLevel level, const std::string &msg )
+void Logger::log( GEODIFF_LoggerLevel level, const char *msg )
 {
   if ( mLoggerCallback )
   {
@@ -94,7 +99,7 @@ void Logger::log( GEODIFF_LoggerLevel level, const std::string &msg )
     if ( static_cast<int>( level ) <= static_cast<int>( maxLogLevel() ) )
     {
       // Send to callback
-      mLoggerCallback( level, msg.c_str() );
+      mLoggerCallback( level, msg );
     }
   }
 }
diff --git a/geodiff/src/geodifflogger.hpp b/geodiff/src/geodifflogger.hpp
index 9d2f9ee..6365e0a 100644
--- a/geodiff/src/geodifflogger.hpp
+++ b/geodiff/src/geodifflogger.hpp
@@ -28,12 +28,14 @@ class Logger
     void error( const std::string &msg );
     void info( const std::string &msg );
     //! Prints error message
-    void error( const GeoDiffException &exp );
+    void error( const std::exception &exp );
+    //! Prints error message (without allocation of memory)
+    void error( const char *msg );
   private:
     Logger();
     GEODIFF_LoggerCallback mLoggerCallback = nullptr;
     GEODIFF_LoggerLevel mMaxLogLevel = GEODIFF_LoggerLevel::LevelError;
-    void log( GEODIFF_LoggerLevel level, const std::string &msg );
+    void log( GEODIFF_LoggerLevel level, const char *msg );
 };
 
 #endif // GEODIFFLOGGER_H
-- 
2.43.0


From 5e9b1e2fd953e701af98369e3f7d7fc5d125e543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 65/70] fix: strings of values were deleted twice after running
 out of memory

---
 geodiff/src/changeset.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/geodiff/src/changeset.h b/geodiff/src/changeset.h
index 533f69a..b2acc59 100644
--- a/geodiff/src/changeset.h
+++ b/geodiff/src/changeset.h
@@ -38,13 +38,17 @@ struct Value
 
     Value &operator=( const Value &other )
     {
+      if ( this == &other )
+        return *this;
+      // the copy first: if there is not enough memory for it, this value must stay valid
+      std::string *str = nullptr;
+      if ( other.mType == TypeText || other.mType == TypeBlob )
+        str = new std::string( *other.mVal.str ); // make a deep copy
       reset();
       mType = other.mType;
       mVal = other.mVal;
-      if ( mType == TypeText || mType == TypeBlob )
-      {
-        mVal.str = new std::string( *mVal.str ); // make a deep copy
-      }
+      if ( str )
+        mVal.str = str;
       return *this;
     }
 
@@ -111,10 +115,11 @@ struct Value
     }
     void setString( Type t, const char *ptr, int size )
     {
-      reset();
       assert( t == TypeText || t == TypeBlob );
+      std::string *str = new std::string( ptr, size );  // may fail: mType must not say that there is a string
+      reset();
       mType = t;
-      mVal.str = new std::string( ptr, size );
+      mVal.str = str;
     }
     void setUndefined()
     {
-- 
2.43.0


From 313870219ef95932d0df8236b352ea0c7d0054e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 66/70] fix: numbers were cut without an error when memory ran
 out

---
 geodiff/src/changesetutils.cpp         | 2 ++
 geodiff/src/drivers/postgresdriver.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 87c4ddb..3a25614 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -116,10 +116,12 @@ static std::string doubleToJSON( double val )
 
   std::ostringstream str;
   str.imbue( std::locale::classic() );
+  str.exceptions( std::ios::badbit );  // otherwise running out of memory would go unnoticed
   str << std::fixed << val;
   double parsed = 0;
   std::istringstream in( str.str() );
   in.imbue( std::locale::classic() );
+  in.exceptions( std::ios::badbit );
   in >> parsed;
   if ( parsed == val )
     return str.str();
diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 0e2104f..02eab4d 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -459,6 +459,7 @@ static double stringToDouble( const std::string &str )
   double val = 0;
   std::istringstream in( str );
   in.imbue( std::locale::classic() );
+  in.exceptions( std::ios::badbit );
   in >> val;
   return val;
 }
@@ -564,6 +565,7 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
       return d > 0 ? "'Infinity'" : "'-Infinity'";
     std::ostringstream str;
     str.imbue( std::locale::classic() );
+    str.exceptions( std::ios::badbit );  // otherwise running out of memory would go unnoticed
     str << std::setprecision( 17 ) << d;
     return "'" + str.str() + "'";
   }
-- 
2.43.0


From ff6890b6132292c14fbd025d38a8c818c499e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 67/70] fix: SQL strings leaked when memory ran out

---
 geodiff/src/drivers/sqlitedriver.cpp | 2 +-
 geodiff/src/drivers/sqliteutils.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 8dfda65..1a56e71 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -391,8 +391,8 @@ static std::string sqlitePrintf( const char *zFormat, ... )
   {
     throw GeoDiffException( "out of memory" );
   }
+  std::unique_ptr<char, void( * )( void * )> guard( zSql, sqlite3_free );
   std::string res = ( const char * )zSql;
-  sqlite3_free( zSql );
   return res;
 }
 
diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index dedddf4..08d4693 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -151,8 +151,8 @@ std::string Sqlite3Stmt::expandedSql() const
   char *str = sqlite3_expanded_sql( mStmt );
   if ( !str )
     throw GeoDiffException( "out of memory" );
+  std::unique_ptr<char, void( * )( void * )> guard( str, sqlite3_free );
   std::string sql( str );
-  sqlite3_free( str );
   return sql;
 }
 
-- 
2.43.0


From 85883d713ce8eb37a15c0a2c535db9138ea32a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 68/70] fix: changesets and dumps of SQLite mixed states when
 someone else was writing

---
 geodiff/src/drivers/sqlitedriver.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 1a56e71..67fdbb1 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -620,6 +620,10 @@ static void handleUpdated( const std::string &tableName, const TableSchema &tbl,
 
 void SqliteDriver::createChangeset( ChangesetWriter &writer )
 {
+  // everything is read in one transaction, so that the changes are consistent
+  // even if someone else writes to one of the databases meanwhile
+  Sqlite3SavepointTransaction transaction( mDb );
+
   std::vector<std::string> tablesBase = listTables( false );
   std::vector<std::string> tablesModified = listTables( true );
 
@@ -649,6 +653,7 @@ void SqliteDriver::createChangeset( ChangesetWriter &writer )
     handleUpdated( tableName, tbl, mDb, writer, first );          // UPDATE
   }
 
+  transaction.commitChanges();
 }
 
 static std::string sqlForInsert( const std::string &tableName, const TableSchema &tbl )
@@ -1051,6 +1056,10 @@ void SqliteDriver::createTables( const std::vector<TableSchema> &tables )
 
 void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
 {
+  // everything is read in one transaction, so that the data are consistent
+  // even if someone else writes to the database meanwhile
+  Sqlite3SavepointTransaction transaction( mDb );
+
   std::string dbName = databaseName( useModified );
   std::vector<std::string> tables = listTables();
   for ( const std::string &tableName : tables )
@@ -1081,6 +1090,8 @@ void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
       writer.writeEntry( e );
     }
   }
+
+  transaction.commitChanges();
 }
 
 void SqliteDriver::checkCompatibleForRebase( bool useModified )
-- 
2.43.0


From cc0ec661c90dc61b95e50fa7c432fe012d46ea0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 69/70] fix: changesets and dumps of PostgreSQL mixed states
 when someone else was writing

---
 geodiff/src/drivers/postgresdriver.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 02eab4d..ac51520 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -33,10 +33,12 @@
 class PostgresTransaction
 {
   public:
-    PostgresTransaction( PGconn *conn )
+    //! If snapshot is true, all queries of the transaction see the data as of its first query,
+    //! no matter what others commit meanwhile
+    explicit PostgresTransaction( PGconn *conn, bool snapshot = false )
       : mConn( conn )
     {
-      PostgresResult res( execSql( mConn, "BEGIN" ) );
+      PostgresResult res( execSql( mConn, snapshot ? "BEGIN ISOLATION LEVEL REPEATABLE READ" : "BEGIN" ) );
       if ( res.status() != PGRES_COMMAND_OK )
         throw GeoDiffException( "Unable to start transaction" );
     }
@@ -682,6 +684,9 @@ void PostgresDriver::createChangeset( ChangesetWriter &writer )
   if ( !mConn )
     throw GeoDiffException( "Not connected to a database" );
 
+  // so that the changes are consistent even if someone else writes to the tables meanwhile
+  PostgresTransaction transaction( mConn, true );
+
   std::vector<std::string> tablesBase = listTables( false );
   std::vector<std::string> tablesModified = listTables( true );
 
@@ -710,6 +715,8 @@ void PostgresDriver::createChangeset( ChangesetWriter &writer )
     handleInserted( mBaseSchema, mModifiedSchema, tableName, tbl, true, mConn, writer, first );   // DELETE
     handleUpdated( mBaseSchema, mModifiedSchema, tableName, tbl, mConn, writer, first );          // UPDATE
   }
+
+  transaction.commitChanges();
 }
 
 
@@ -1017,6 +1024,9 @@ void PostgresDriver::dumpData( ChangesetWriter &writer, bool useModified )
   if ( !mConn )
     throw GeoDiffException( "Not connected to a database" );
 
+  // so that the data are consistent even if someone else writes to the tables meanwhile
+  PostgresTransaction transaction( mConn, true );
+
   std::vector<std::string> tables = listTables();
   for ( const std::string &tableName : tables )
   {
@@ -1046,6 +1056,8 @@ void PostgresDriver::dumpData( ChangesetWriter &writer, bool useModified )
       writer.writeEntry( e );
     }
   }
+
+  transaction.commitChanges();
 }
 
 void PostgresDriver::checkCompatibleForRebase( bool )
-- 
2.43.0


From c5ea82cb8d63138c99529a03f7f9d67b3fd86954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 70/70] fix: partial changes were saved when rolling them back
 failed

---
 geodiff/src/drivers/sqlitedriver.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 67fdbb1..5d0b27b 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -111,9 +111,10 @@ class Sqlite3SavepointTransaction
     {
       if ( mDb )
       {
-        // we had some problems - roll back any pending changes
-        sqlite3_exec( mDb.get()->get(), "ROLLBACK TO changeset_apply", 0, 0, 0 );
-        sqlite3_exec( mDb.get()->get(), "RELEASE changeset_apply", 0, 0, 0 );
+        // we had some problems - roll back any pending changes. If that fails (e.g. out of memory)
+        // the savepoint must not be released as that would save them: closing the database discards them
+        if ( sqlite3_exec( mDb.get()->get(), "ROLLBACK TO changeset_apply", 0, 0, 0 ) == SQLITE_OK )
+          sqlite3_exec( mDb.get()->get(), "RELEASE changeset_apply", 0, 0, 0 );
       }
     }
 
-- 
2.43.0

