// Minimal replacement of libgpkg (not available offline): the SQL functions that GeoPackage triggers
// use (ST_IsEmpty, ST_MinX ...) and InitSpatialMetadata().
#include "gpkg.h"
#include <string.h>
#include <stdint.h>
#include <string>
#include <cmath>

namespace {

struct Bounds { double mn[2], mx[2]; bool any; Bounds(): any( false ) { mn[0]=mn[1]=INFINITY; mx[0]=mx[1]=-INFINITY; }
  void add( double x, double y ) { if ( std::isnan( x ) || std::isnan( y ) ) return; any = true;
    if ( x < mn[0] ) mn[0] = x; if ( x > mx[0] ) mx[0] = x; if ( y < mn[1] ) mn[1] = y; if ( y > mx[1] ) mx[1] = y; } };

struct Rd { const unsigned char *p; size_t n, o; bool ok;
  Rd( const unsigned char *q, size_t m ): p( q ), n( m ), o( 0 ), ok( true ) {}
  unsigned char u8() { if ( o + 1 > n ) { ok = false; return 0; } return p[o++]; }
  uint32_t u32( bool le ) { if ( o + 4 > n ) { ok = false; return 0; } uint32_t v = 0; for ( int i = 0; i < 4; ++i ) v |= ( uint32_t )p[o + i] << ( le ? 8 * i : 24 - 8 * i ); o += 4; return v; }
  double f64( bool le ) { if ( o + 8 > n ) { ok = false; return 0; } uint64_t v = 0; for ( int i = 0; i < 8; ++i ) v |= ( uint64_t )p[o + i] << ( le ? 8 * i : 56 - 8 * i ); o += 8; double d; memcpy( &d, &v, 8 ); return d; } };

void wkb( Rd &r, Bounds &b, int depth )
{
  if ( depth > 16 ) { r.ok = false; return; }
  bool le = r.u8() == 1;
  uint32_t t = r.u32( le );
  if ( !r.ok ) return;
  uint32_t base = t % 1000, dim = t / 1000;
  int nd = dim == 0 ? 2 : ( dim == 3 ? 4 : 3 );
  switch ( base )
  {
    case 1: { double c[4]; for ( int i = 0; i < nd; ++i ) c[i] = r.f64( le ); if ( r.ok ) b.add( c[0], c[1] ); break; }
    case 2: { uint32_t n = r.u32( le ); for ( uint32_t i = 0; i < n && r.ok; ++i ) { double c[4]; for ( int k = 0; k < nd; ++k ) c[k] = r.f64( le ); if ( r.ok ) b.add( c[0], c[1] ); } break; }
    case 3: { uint32_t m = r.u32( le ); for ( uint32_t j = 0; j < m && r.ok; ++j ) { uint32_t n = r.u32( le ); for ( uint32_t i = 0; i < n && r.ok; ++i ) { double c[4]; for ( int k = 0; k < nd; ++k ) c[k] = r.f64( le ); if ( r.ok ) b.add( c[0], c[1] ); } } break; }
    case 4: case 5: case 6: case 7: { uint32_t n = r.u32( le ); for ( uint32_t i = 0; i < n && r.ok; ++i ) wkb( r, b, depth + 1 ); break; }
    default: r.ok = false;
  }
}

// returns false when the blob is no GeoPackage geometry
bool gpkgBounds( sqlite3_value *v, Bounds &b )
{
  if ( sqlite3_value_type( v ) != SQLITE_BLOB ) return false;
  const unsigned char *p = ( const unsigned char * )sqlite3_value_blob( v );
  size_t n = sqlite3_value_bytes( v );
  if ( n < 8 || p[0] != 'G' || p[1] != 'P' ) return false;
  unsigned flags = p[3];
  bool le = flags & 1;
  int env = ( flags >> 1 ) & 7;
  static const int sz[8] = {0, 32, 48, 48, 64, -1, -1, -1};
  if ( sz[env] < 0 || n < 8u + sz[env] ) return false;
  if ( flags & 0x10 ) return true;   // empty
  if ( sz[env] )
  {
    Rd r( p + 8, 32 );
    double x0 = r.f64( le ), x1 = r.f64( le ), y0 = r.f64( le ), y1 = r.f64( le );
    b.add( x0, y0 ); b.add( x1, y1 );
    return true;
  }
  Rd r( p + 8, n - 8 );
  wkb( r, b, 0 );
  return r.ok;
}

void fEmpty( sqlite3_context *c, int, sqlite3_value **a )
{
  Bounds b;
  if ( !gpkgBounds( a[0], b ) ) { sqlite3_result_null( c ); return; }
  sqlite3_result_int( c, b.any ? 0 : 1 );
}

void fBound( sqlite3_context *c, int, sqlite3_value **a )
{
  intptr_t k = ( intptr_t )sqlite3_user_data( c );
  Bounds b;
  if ( !gpkgBounds( a[0], b ) || !b.any ) { sqlite3_result_null( c ); return; }
  sqlite3_result_double( c, k == 0 ? b.mn[0] : k == 1 ? b.mx[0] : k == 2 ? b.mn[1] : b.mx[1] );
}

void fInit( sqlite3_context *c, int, sqlite3_value ** )
{
  static const char *ddl =
    "CREATE TABLE IF NOT EXISTS gpkg_spatial_ref_sys (srs_name TEXT NOT NULL,srs_id INTEGER NOT NULL PRIMARY KEY,organization TEXT NOT NULL,organization_coordsys_id INTEGER NOT NULL,definition TEXT NOT NULL,description TEXT);"
    "CREATE TABLE IF NOT EXISTS gpkg_contents (table_name TEXT NOT NULL PRIMARY KEY,data_type TEXT NOT NULL,identifier TEXT,description TEXT DEFAULT '',last_change DATETIME NOT NULL DEFAULT (strftime('%Y-%m-%dT%H:%M:%fZ','now')),min_x DOUBLE,min_y DOUBLE,max_x DOUBLE,max_y DOUBLE,srs_id INTEGER);"
    "CREATE TABLE IF NOT EXISTS gpkg_geometry_columns (table_name TEXT NOT NULL,column_name TEXT NOT NULL,geometry_type_name TEXT NOT NULL,srs_id INTEGER NOT NULL,z TINYINT NOT NULL,m TINYINT NOT NULL,CONSTRAINT pk_geom_cols PRIMARY KEY (table_name, column_name));"
    "CREATE TABLE IF NOT EXISTS gpkg_extensions (table_name TEXT,column_name TEXT,extension_name TEXT NOT NULL,definition TEXT NOT NULL,scope TEXT NOT NULL,CONSTRAINT ge_tce UNIQUE (table_name, column_name, extension_name));"
    "INSERT OR IGNORE INTO gpkg_spatial_ref_sys VALUES ('Undefined Cartesian',-1,'NONE',-1,'undefined','undefined Cartesian coordinate reference system');"
    "INSERT OR IGNORE INTO gpkg_spatial_ref_sys VALUES ('Undefined Geographic',0,'NONE',0,'undefined','undefined geographic coordinate reference system');"
    "INSERT OR IGNORE INTO gpkg_spatial_ref_sys VALUES ('WGS 84',4326,'EPSG',4326,'GEOGCS[\"WGS 84\"]','WGS 84');";
  char *err = nullptr;
  if ( sqlite3_exec( sqlite3_context_db_handle( c ), ddl, nullptr, nullptr, &err ) )
    sqlite3_result_error( c, err ? err : "InitSpatialMetadata failed", -1 );
  else
    sqlite3_result_null( c );
  sqlite3_free( err );
}
}

extern "C" int sqlite3_gpkg_auto_init( sqlite3 *db, const char **, const struct sqlite3_api_routines * )
{
  int rc = sqlite3_create_function( db, "ST_IsEmpty", 1, SQLITE_UTF8 | SQLITE_DETERMINISTIC, nullptr, fEmpty, nullptr, nullptr );
  const char *names[4] = {"ST_MinX", "ST_MaxX", "ST_MinY", "ST_MaxY"};
  for ( intptr_t k = 0; k < 4 && !rc; ++k )
    rc = sqlite3_create_function( db, names[k], 1, SQLITE_UTF8 | SQLITE_DETERMINISTIC, ( void * )k, fBound, nullptr, nullptr );
  if ( !rc )
    rc = sqlite3_create_function( db, "InitSpatialMetadata", -1, SQLITE_UTF8, nullptr, fInit, nullptr, nullptr );
  return rc;
}
