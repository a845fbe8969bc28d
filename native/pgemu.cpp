// libpq stand-in: the libpq functions geodiff (and close variations of it) use, executing a
// translation of the PostgreSQL statements on a SQLite file that plays the server's database.
// It models what matters for the properties: identifier case and quoting, typed columns and input
// conversion, catalogs, sequences, PostGIS functions, transactions that abort on the first error,
// row counts, and faults on request. conninfo: "dbname=<path of the file>".
#include <libpq-fe.h>
#include <sqlite3.h>
#include <string.h>
#include <strings.h>
#include <errno.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdint.h>
#include <math.h>
#include <string>
#include <locale.h>
#include <vector>
#include <map>
#include <set>
#include <algorithm>

struct PgError { std::string msg; PgError( const std::string &m ): msg( m ) {} };

//! settings of a session; what a role or database (ALTER ROLE ... SET) or the client's environment gives at connection is in gRole
struct Settings { bool latin1 = false, escape = false, backslash = false, repeatable = false; int digits = 1; };
static Settings gRole;
static int gFlip = 0;
struct pg_conn { sqlite3 *db = nullptr; bool bad = false; std::string err; int tx = 0; Settings set; };
static const Settings *gCur = nullptr;
extern "C" __attribute__( ( weak ) ) void newfail_pause( int d );
//! the server does not care about the locale of the client process
struct ServerLocale
{
  locale_t old;
  ServerLocale() { static locale_t c = newlocale( LC_ALL_MASK, "C", nullptr ); old = uselocale( c ); if ( newfail_pause ) newfail_pause( 1 ); }
  ~ServerLocale() { uselocale( old ); if ( newfail_pause ) newfail_pause( -1 ); }
};
struct pg_result
{
  ExecStatusType st = PGRES_COMMAND_OK;
  std::string err, tag, tuples;
  std::vector<std::string> names;
  std::vector<std::vector<std::pair<bool, std::string>>> rows;
};

static long gConns = 0, gResults = 0, gExecs = 0, gFired = 0;
static long gFaultK = -1; static int gFaultKind = 0;
static std::vector<std::string> gLog; static bool gLogOn = false;
static long gAborted = 0;

// ------------------------------------------------------------------ lexer
enum Kind { Id, QId, Str, Num, Op };
struct Tok { Kind k; std::string s; };

static std::string lower( std::string s ) { for ( char &c : s ) if ( c >= 'A' && c <= 'Z' ) c += 32; return s; }

static std::vector<Tok> lex( const std::string &q )
{
  std::vector<Tok> out;
  size_t i = 0, n = q.size();
  auto at = [&]( size_t j ) { return j < n ? q[j] : '\0'; };
  while ( i < n )
  {
    char c = q[i];
    if ( isspace( ( unsigned char )c ) ) { ++i; continue; }
    if ( c == '-' && at( i + 1 ) == '-' ) { while ( i < n && q[i] != '\n' ) ++i; continue; }
    if ( c == '/' && at( i + 1 ) == '*' )
    {
      int depth = 1; i += 2;
      while ( i < n && depth ) { if ( q[i] == '/' && at( i + 1 ) == '*' ) { ++depth; i += 2; } else if ( q[i] == '*' && at( i + 1 ) == '/' ) { --depth; i += 2; } else ++i; }
      if ( depth ) throw PgError( "unterminated /* comment" );
      continue;
    }
    bool esc = ( c == 'E' || c == 'e' ) && at( i + 1 ) == '\'';
    if ( c == '\'' || esc )
    {
      i += esc ? 2 : 1;
      std::string s; bool done = false;
      while ( i < n )
      {
        if ( q[i] == '\'' ) { if ( at( i + 1 ) == '\'' ) { s += '\''; i += 2; continue; } ++i; done = true; break; }
        if ( ( esc || ( gCur && gCur->backslash ) ) && q[i] == '\\' )
        {
          char e = at( i + 1 ); i += 2;
          if ( i > n ) break;
          switch ( e )
          {
            case 'n': s += '\n'; break; case 't': s += '\t'; break; case 'r': s += '\r'; break; case 'b': s += '\b'; break; case 'f': s += '\f'; break;
            case 'x': { std::string h; while ( h.size() < 2 && isxdigit( ( unsigned char )at( i ) ) ) h += q[i++]; s += h.empty() ? 'x' : ( char )strtol( h.c_str(), nullptr, 16 ); break; }
            case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7':
            { std::string h( 1, e ); while ( h.size() < 3 && at( i ) >= '0' && at( i ) <= '7' ) h += q[i++]; s += ( char )strtol( h.c_str(), nullptr, 8 ); break; }
            default: s += e;
          }
          continue;
        }
        s += q[i++];
      }
      if ( !done ) throw PgError( "unterminated quoted string" );
      for ( size_t j = 0; j < s.size(); )    // server encoding is UTF8
      {
        unsigned char b = s[j]; int len = b < 0x80 ? 1 : b >= 0xc2 && b < 0xe0 ? 2 : b >= 0xe0 && b < 0xf0 ? 3 : b >= 0xf0 && b < 0xf5 ? 4 : 0;
        bool ok = len && b && j + len <= s.size();
        for ( int x = 1; ok && x < len; ++x ) ok = ( ( unsigned char )s[j + x] & 0xc0 ) == 0x80;
        if ( !ok ) throw PgError( "invalid byte sequence for encoding \"UTF8\"" );
        j += len;
      }
      out.push_back( Tok{Str, s} );
      continue;
    }
    if ( c == '"' )
    {
      std::string s; bool done = false; ++i;
      while ( i < n ) { if ( q[i] == '"' ) { if ( at( i + 1 ) == '"' ) { s += '"'; i += 2; continue; } ++i; done = true; break; } s += q[i++]; }
      if ( !done ) throw PgError( "unterminated quoted identifier" );
      if ( s.empty() ) throw PgError( "zero-length delimited identifier" );
      out.push_back( Tok{QId, s} );
      continue;
    }
    if ( isalpha( ( unsigned char )c ) || c == '_' || ( unsigned char )c >= 0x80 )
    {
      std::string s;
      while ( i < n && ( isalnum( ( unsigned char )q[i] ) || q[i] == '_' || q[i] == '$' || ( unsigned char )q[i] >= 0x80 ) ) s += q[i++];
      out.push_back( Tok{Id, lower( s )} );
      continue;
    }
    if ( isdigit( ( unsigned char )c ) || ( c == '.' && isdigit( ( unsigned char )at( i + 1 ) ) ) )
    {
      std::string s;
      while ( i < n && ( isdigit( ( unsigned char )q[i] ) || q[i] == '.' || ( ( q[i] == 'e' || q[i] == 'E' ) && ( isdigit( ( unsigned char )at( i + 1 ) ) || ( ( at( i + 1 ) == '-' || at( i + 1 ) == '+' ) && isdigit( ( unsigned char )at( i + 2 ) ) ) ) ) || ( ( q[i] == '-' || q[i] == '+' ) && !s.empty() && ( s.back() == 'e' || s.back() == 'E' ) ) ) ) s += q[i++];
      if ( i < n && ( isalpha( ( unsigned char )q[i] ) || q[i] == '_' ) ) throw PgError( "trailing junk after numeric literal" );
      out.push_back( Tok{Num, s} );
      continue;
    }
    static const char *two[] = {"::", "||", "<>", "!=", "<=", ">=", nullptr};
    bool hit = false;
    for ( int k = 0; two[k]; ++k ) if ( !q.compare( i, 2, two[k] ) ) { out.push_back( Tok{Op, two[k]} ); i += 2; hit = true; break; }
    if ( hit ) continue;
    if ( !strchr( "()+-*/%<>=.,;[]:", c ) ) throw PgError( std::string( "syntax error at or near \"" ) + c + "\"" );
    out.push_back( Tok{Op, std::string( 1, c )} );
    ++i;
  }
  return out;
}

// ------------------------------------------------------------------ names, values
static std::string mangle( const std::string &s ) { std::string o; for ( char c : s ) { if ( c >= 'A' && c <= 'Z' ) { o += '~'; o += ( char )( c + 32 ); } else if ( c == '~' ) o += "~~"; else o += c; } return o; }
static std::string sqid( const std::string &s ) { std::string o = "\""; for ( char c : s ) { if ( c == '"' ) o += '"'; o += c; } return o + "\""; }
static std::string sqstr( const std::string &s ) { std::string o = "'"; for ( char c : s ) { if ( c == '\'' ) o += '\''; o += c; } return o + "'"; }
static std::string tname( const std::string &schema, const std::string &table ) { return mangle( schema ) + "\x1f" + mangle( table ); }
static std::string hexs( const std::string &s ) { static const char *d = "0123456789abcdef"; std::string o; for ( unsigned char c : s ) { o += d[c >> 4]; o += d[c & 15]; } return o; }
static bool unhex( const std::string &h, std::string &o )
{
  if ( h.size() % 2 ) return false;
  auto v = []( char c ) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
  for ( size_t i = 0; i < h.size(); i += 2 ) { int a = v( h[i] ), b = v( h[i + 1] ); if ( a < 0 || b < 0 ) return false; o += ( char )( a * 16 + b ); }
  return true;
}
static std::string quoteIdent( const std::string &s )
{
  bool plain = !s.empty() && ( islower( ( unsigned char )s[0] ) || s[0] == '_' );
  for ( char c : s ) if ( !( islower( ( unsigned char )c ) || isdigit( ( unsigned char )c ) || c == '_' ) ) plain = false;
  static const char *kw[] = {"select", "table", "from", "where", "order", "group", "user", "trigger", "create", "insert", "update", "delete", "index", "values", "set", "and", "or", "not", "null", "all", "any", "as", "in", "is", "on", "to", "union", "limit", "offset", "default", "check", "column", "primary", "references", "end", "case", "when", "then", "else", "both", "desc", "asc", "distinct", "do", "for", "grant", "having", "into", "join", "left", "like", "only", "right", "some", "unique", "using", "with"};
  for ( const char *k : kw ) if ( s == k ) plain = false;
  if ( plain ) return s;
  std::string o = "\""; for ( char c : s ) { if ( c == '"' ) o += '"'; o += c; } return o + "\"";
}
static std::string dbl( double d, bool flt )
{
  if ( std::isinf( d ) ) return d > 0 ? "Infinity" : "-Infinity";
  if ( std::isnan( d ) ) return "NaN";
  char b[64];
  if ( gCur && gCur->digits <= 0 ) { int p = ( flt ? 6 : 15 ) + gCur->digits; snprintf( b, sizeof b, "%.*g", p < 1 ? 1 : p, d ); return b; }
  for ( int p = flt ? 6 : 15; p <= ( flt ? 9 : 17 ); ++p ) { snprintf( b, sizeof b, "%.*g", p, d ); if ( flt ? strtof( b, nullptr ) == ( float )d : strtod( b, nullptr ) == d ) break; }
  return b;
}

// strict check of WKB: returns base type (1..7) or 0
static size_t wkbAt( const std::string &b, size_t o, int depth, int &type, int &dim )
{
  auto u32 = [&]( size_t p, bool le ) { uint32_t v = 0; for ( int i = 0; i < 4; ++i ) v |= ( uint32_t )( unsigned char )b[p + i] << ( le ? 8 * i : 24 - 8 * i ); return v; };
  if ( depth > 20 || o + 5 > b.size() || ( unsigned char )b[o] > 1 ) return 0;
  bool le = b[o]; uint32_t t = u32( o + 1, le ); o += 5;
  type = t % 1000; dim = t / 1000;
  if ( dim > 3 ) return 0;
  size_t pt = 8 * ( dim == 0 ? 2 : dim == 3 ? 4 : 3 );
  auto count = [&]( uint32_t & n ) { if ( o + 4 > b.size() ) return false; n = u32( o, le ); o += 4; return true; };
  uint32_t n = 0, m = 0;
  switch ( type )
  {
    case 1: o += pt; break;
    case 2: if ( !count( n ) || n == 1 || n > b.size() ) return 0; o += pt * n; break;
    case 3: if ( !count( n ) || n > b.size() ) return 0; for ( uint32_t i = 0; i < n; ++i ) { if ( !count( m ) || m < 4 || m > b.size() ) return 0; o += pt * m; if ( o > b.size() ) return 0; } break;
    case 4: case 5: case 6: case 7: if ( !count( n ) || n > b.size() ) return 0; for ( uint32_t i = 0; i < n; ++i ) { int t2, d2; o = wkbAt( b, o, depth + 1, t2, d2 ); if ( !o ) return 0; } break;
    default: return 0;
  }
  return o <= b.size() ? o : 0;
}
static const char *geomNames[] = {"GEOMETRY", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION"};

struct Type { std::string base; int n = -1; std::string gtype; int srid = 0; };

static bool parseTs( const std::string &s, std::string &o )
{
  int y, mo, d, h = 0, mi = 0, used = 0; double sec = 0;
  if ( sscanf( s.c_str(), "%d-%d-%d%n", &y, &mo, &d, &used ) != 3 ) return false;
  std::string rest = s.substr( used );
  std::string frac;
  if ( !rest.empty() )
  {
    if ( rest[0] != 'T' && rest[0] != ' ' && rest[0] != 't' ) return false;
    int si = 0, u2 = 0;
    if ( sscanf( rest.c_str() + 1, "%d:%d:%d%n", &h, &mi, &si, &u2 ) != 3 ) return false;
    sec = si;
    rest = rest.substr( 1 + u2 );
    if ( !rest.empty() && rest[0] == '.' ) { size_t j = 1; while ( j < rest.size() && isdigit( ( unsigned char )rest[j] ) ) frac += rest[j++]; rest = rest.substr( j ); }
    if ( !( rest.empty() || rest == "Z" || rest == "z" ) ) return false;
  }
  if ( mo < 1 || mo > 12 || d < 1 || d > 31 || h > 24 || mi > 59 || sec > 60 ) return false;
  frac = frac.substr( 0, 6 );
  while ( !frac.empty() && frac.back() == '0' ) frac.pop_back();
  char b[80]; snprintf( b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", y, mo, d, h, mi, ( int )sec );
  o = b; if ( !frac.empty() ) o += "." + frac;
  return true;
}

static size_t chars( const std::string &s ) { size_t n = 0; for ( unsigned char c : s ) if ( ( c & 0xc0 ) != 0x80 ) ++n; return n; }

//! input conversion of a literal for a column; returns SQLite literal
static std::string coerce( const Type &t, const Tok &lit, bool neg, bool assign )
{
  const std::string &s = lit.s;
  bool str = lit.k == Str, num = lit.k == Num, boo = lit.k == Id;    // Id: true / false
  auto bad = [&]() { return PgError( "invalid input syntax for type " + t.base + ": \"" + s + "\"" ); };
  auto mism = [&]() { return PgError( assign ? "column is of type " + t.base + " but expression is of another type" : "operator does not exist: " + t.base + " = other type" ); };
  if ( t.base == "integer" || t.base == "bigint" || t.base == "smallint" )
  {
    if ( boo ) throw mism();
    std::string x = ( neg ? "-" : "" ) + s;
    char *e; errno = 0;
    long long v;
    if ( num && s.find_first_of( ".eE" ) != std::string::npos )
    {
      double d = strtod( x.c_str(), nullptr );
      if ( !assign ) { char b[64]; snprintf( b, sizeof b, "%.17g", d ); return b; }
      if ( fabs( d ) > 9e18 ) throw PgError( t.base + " out of range" );
      v = llrint( d );
    }
    else
    {
      v = strtoll( x.c_str(), &e, 10 );
      if ( *e || x.empty() || isspace( ( unsigned char )x[0] ) ) throw bad();
      if ( errno ) throw PgError( t.base + " out of range" );
    }
    if ( str || assign )
    {
      if ( ( t.base == "integer" && ( v > 2147483647LL || v < -2147483648LL ) ) || ( t.base == "smallint" && ( v > 32767 || v < -32768 ) ) ) throw PgError( t.base + " out of range" );
    }
    if ( v == INT64_MIN ) return "(-9223372036854775807-1)";
    return std::to_string( v );
  }
  if ( t.base == "double precision" || t.base == "real" )
  {
    if ( boo ) throw mism();
    std::string x = ( neg ? "-" : "" ) + s;
    char *e; double d = strtod( x.c_str(), &e );
    if ( *e || x.empty() || strchr( x.c_str(), 'x' ) || strchr( x.c_str(), 'X' ) ) throw bad();
    if ( std::isinf( d ) && x.find_first_of( "iI" ) == std::string::npos ) throw PgError( "\"" + x + "\" is out of range for type double precision" );
    if ( std::isnan( d ) ) throw PgError( "NaN is not modelled" );
    if ( t.base == "real" && ( str || assign ) ) d = ( float )d;
    if ( std::isinf( d ) ) return d > 0 ? "9e999" : "-9e999";
    char b[64]; snprintf( b, sizeof b, "%.17g", d );
    if ( !strpbrk( b, ".e" ) ) strcat( b, ".0" );
    return b;
  }
  if ( t.base == "text" || t.base == "citext" || t.base == "character varying" )
  {
    if ( !str && !assign ) throw mism();
    std::string x = ( neg ? "-" : "" ) + s;
    if ( boo ) x = s;
    if ( t.n >= 0 && chars( x ) > ( size_t )t.n ) throw PgError( "value too long for type character varying(" + std::to_string( t.n ) + ")" );
    return sqstr( x );
  }
  if ( t.base == "boolean" )
  {
    if ( num ) throw mism();
    std::string x = lower( s );
    if ( x == "t" || x == "true" || x == "y" || x == "yes" || x == "on" || x == "1" ) return "'t'";
    if ( x == "f" || x == "false" || x == "n" || x == "no" || x == "off" || x == "0" ) return "'f'";
    throw bad();
  }
  if ( t.base == "timestamp without time zone" || t.base == "date" )
  {
    std::string o;
    if ( !str ) throw mism();
    if ( !parseTs( s, o ) ) throw bad();
    return sqstr( t.base == "date" ? o.substr( 0, 10 ) : o );
  }
  if ( t.base == "bytea" )
  {
    if ( !str ) throw mism();
    std::string o;
    if ( s.compare( 0, 2, "\\x" ) == 0 ) { if ( !unhex( s.substr( 2 ), o ) ) throw bad(); }
    else for ( size_t i = 0; i < s.size(); )
      {
        if ( s[i] != '\\' ) { o += s[i++]; continue; }
        if ( i + 1 < s.size() && s[i + 1] == '\\' ) { o += '\\'; i += 2; continue; }
        if ( i + 3 < s.size() && s[i + 1] >= '0' && s[i + 1] <= '3' && isdigit( ( unsigned char )s[i + 2] ) && isdigit( ( unsigned char )s[i + 3] ) ) { o += ( char )strtol( s.substr( i + 1, 3 ).c_str(), nullptr, 8 ); i += 4; continue; }
        throw bad();
      }
    return "x'" + hexs( o ) + "'";
  }
  if ( t.base == "geometry" )
  {
    std::string o;
    if ( !str || !unhex( s, o ) ) throw PgError( "parse error - invalid geometry" );
    int a, b;
    if ( wkbAt( o, 0, 0, a, b ) != o.size() || o.empty() ) throw PgError( "parse error - invalid geometry" );
    return "x'00000000" + hexs( o ) + "'";
  }
  throw PgError( "type " + t.base + " is not modelled" );
}

// ------------------------------------------------------------------ SQL functions
static std::string text( sqlite3_value *v ) { const char *p = ( const char * )sqlite3_value_text( v ); return p ? std::string( p, sqlite3_value_bytes( v ) ) : std::string(); }
static std::string blobv( sqlite3_value *v ) { const char *p = ( const char * )sqlite3_value_blob( v ); return p ? std::string( p, sqlite3_value_bytes( v ) ) : std::string(); }
static void rtext( sqlite3_context *c, const std::string &s ) { sqlite3_result_text( c, s.data(), s.size(), SQLITE_TRANSIENT ); }
static void rerr( sqlite3_context *c, const std::string &s ) { sqlite3_result_error( c, s.data(), s.size() ); }

static void fAsBinary( sqlite3_context *c, int, sqlite3_value **v )
{
  if ( sqlite3_value_type( v[0] ) == SQLITE_NULL ) return sqlite3_result_null( c );
  std::string b = blobv( v[0] );
  if ( b.size() < 4 ) return rerr( c, "function st_asbinary does not exist for this type" );
  sqlite3_result_blob( c, b.data() + 4, b.size() - 4, SQLITE_TRANSIENT );
}
static void fFromWkb( sqlite3_context *c, int n, sqlite3_value **v )
{
  if ( sqlite3_value_type( v[0] ) == SQLITE_NULL ) return sqlite3_result_null( c );
  std::string s, o;
  if ( sqlite3_value_type( v[0] ) == SQLITE_BLOB ) o = blobv( v[0] );
  else { s = text( v[0] ); if ( s.compare( 0, 2, "\\x" ) || !unhex( s.substr( 2 ), o ) ) return rerr( c, "invalid hexadecimal data" ); }
  int a, b;
  if ( wkbAt( o, 0, 0, a, b ) == 0 ) return rerr( c, "parse error - invalid geometry" );
  int srid = n > 1 ? sqlite3_value_int( v[1] ) : 0;
  std::string r; for ( int i = 0; i < 4; ++i ) r += ( char )( ( unsigned )srid >> ( 8 * i ) );
  r += o;
  sqlite3_result_blob( c, r.data(), r.size(), SQLITE_TRANSIENT );
}
static void fGeomCheck( sqlite3_context *c, int, sqlite3_value **v )
{
  if ( sqlite3_value_type( v[0] ) == SQLITE_NULL ) return sqlite3_result_int( c, 1 );
  if ( sqlite3_value_type( v[0] ) != SQLITE_BLOB ) return rerr( c, "column is of type geometry but expression is of another type" );
  std::string b = blobv( v[0] ), g = text( v[1] );
  int srid = sqlite3_value_int( v[2] ), have = 0, type = 0, dim = 0;
  for ( int i = 0; i < 4; ++i ) have |= ( unsigned char )b[i] << ( 8 * i );
  std::string w = b.substr( 4 );
  if ( srid && have != srid ) return rerr( c, "Geometry SRID (" + std::to_string( have ) + ") does not match column SRID (" + std::to_string( srid ) + ")" );
  wkbAt( w, 0, 0, type, dim );
  static const char *dn[] = {"", "Z", "M", "ZM"};
  std::string flat = g, d;
  for ( int k = 3; k > 0; --k ) { std::string x = dn[k]; if ( flat.size() > x.size() && flat.compare( flat.size() - x.size(), x.size(), x ) == 0 ) { flat = flat.substr( 0, flat.size() - x.size() ); d = x; break; } }
  if ( flat != "GEOMETRY" && ( flat != geomNames[type] ) ) return rerr( c, "Geometry type (" + std::string( geomNames[type] ) + ") does not match column type (" + g + ")" );
  if ( d != dn[dim] ) return rerr( c, "Geometry has other dimensions than the column" );
  sqlite3_result_int( c, 1 );
}
static void fToChar( sqlite3_context *c, int, sqlite3_value **v )
{
  if ( sqlite3_value_type( v[0] ) == SQLITE_NULL ) return sqlite3_result_null( c );
  std::string ts = text( v[0] ), f = text( v[1] ), o;
  if ( ts.size() < 19 ) return rerr( c, "to_char: no timestamp" );
  std::string frac = ts.size() > 20 ? ts.substr( 20 ) : ""; while ( frac.size() < 6 ) frac += '0';
  for ( size_t i = 0; i < f.size(); )
  {
    auto is = [&]( const char *p ) { return f.compare( i, strlen( p ), p ) == 0; };
    if ( f[i] == '"' ) { ++i; while ( i < f.size() && f[i] != '"' ) o += f[i++]; ++i; }
    else if ( is( "YYYY" ) ) { o += ts.substr( 0, 4 ); i += 4; }
    else if ( is( "HH24" ) ) { o += ts.substr( 11, 2 ); i += 4; }
    else if ( is( "HH12" ) || is( "HH" ) ) { int h = atoi( ts.substr( 11, 2 ).c_str() ) % 12; char b[8]; snprintf( b, 8, "%02d", h ? h : 12 ); o += b; i += is( "HH12" ) ? 4 : 2; }
    else if ( is( "MM" ) ) { o += ts.substr( 5, 2 ); i += 2; }
    else if ( is( "DD" ) ) { o += ts.substr( 8, 2 ); i += 2; }
    else if ( is( "MI" ) ) { o += ts.substr( 14, 2 ); i += 2; }
    else if ( is( "SS" ) ) { o += ts.substr( 17, 2 ); i += 2; }
    else if ( is( "MS" ) ) { o += frac.substr( 0, 3 ); i += 2; }
    else if ( is( "US" ) ) { o += frac; i += 2; }
    else if ( isalpha( ( unsigned char )f[i] ) && f[i] != 'T' && f[i] != 'Z' ) return rerr( c, "to_char pattern is not modelled" );
    else o += f[i++];
  }
  rtext( c, o );
}
static void fText( sqlite3_context *c, int, sqlite3_value **v )
{
  switch ( sqlite3_value_type( v[0] ) )
  {
    case SQLITE_NULL: return sqlite3_result_null( c );
    case SQLITE_BLOB: return rtext( c, "\\x" + hexs( blobv( v[0] ) ) );
    case SQLITE_FLOAT: return rtext( c, dbl( sqlite3_value_double( v[0] ), false ) );
    default: rtext( c, text( v[0] ) );
  }
}
static void fBool( sqlite3_context *c, int, sqlite3_value **v ) { if ( sqlite3_value_type( v[0] ) == SQLITE_NULL ) sqlite3_result_null( c ); else rtext( c, sqlite3_value_int( v[0] ) ? "t" : "f" ); }
static void fFirst( sqlite3_context *c, int, sqlite3_value **v ) { sqlite3_result_value( c, v[0] ); }

static std::string one( sqlite3 *db, const std::string &sql )
{
  sqlite3_stmt *st = nullptr; std::string o;
  if ( sqlite3_prepare_v2( db, sql.c_str(), -1, &st, nullptr ) ) throw PgError( std::string( "emulator: " ) + sqlite3_errmsg( db ) + ": " + sql );
  if ( sqlite3_step( st ) == SQLITE_ROW ) { const char *p = ( const char * )sqlite3_column_text( st, 0 ); if ( p ) o.assign( p, sqlite3_column_bytes( st, 0 ) ); }
  sqlite3_finalize( st );
  return o;
}
static void run( sqlite3 *db, const std::string &sql )
{
  char *e = nullptr;
  if ( sqlite3_exec( db, sql.c_str(), nullptr, nullptr, &e ) ) { std::string m = e ? e : "?"; sqlite3_free( e ); throw PgError( m ); }
}
static std::vector<std::string> identChain( const std::string &s )
{
  std::vector<std::string> out; std::vector<Tok> t = lex( s );
  for ( size_t i = 0; i < t.size(); ++i )
  {
    if ( i % 2 ) { if ( t[i].s != "." || t[i].k != Op ) throw PgError( "invalid name syntax" ); }
    else { if ( t[i].k != Id && t[i].k != QId ) throw PgError( "invalid name syntax" ); out.push_back( t[i].s ); }
  }
  return out;
}
static void fSerialSeq( sqlite3_context *c, int, sqlite3_value **v )
{
  sqlite3 *db = sqlite3_context_db_handle( c );
  try
  {
    if ( sqlite3_value_type( v[0] ) == SQLITE_NULL || sqlite3_value_type( v[1] ) == SQLITE_NULL ) return sqlite3_result_null( c );
    std::string t = text( v[0] ), oid;
    if ( !t.empty() && t.find_first_not_of( "0123456789" ) == std::string::npos ) oid = t;
    else
    {
      std::vector<std::string> ch = identChain( t );
      if ( ch.size() != 2 ) return rerr( c, "relation \"" + t + "\" does not exist" );
      oid = one( db, "SELECT c.oid FROM pg_class c JOIN pg_namespace n ON n.oid=c.relnamespace WHERE relkind='r' AND nspname=" + sqstr( ch[0] ) + " AND relname=" + sqstr( ch[1] ) );
      if ( oid.empty() ) return rerr( c, "relation \"" + t + "\" does not exist" );
    }
    std::string r = one( db, "SELECT seq FROM pg_attribute WHERE attrelid=" + oid + " AND attname=" + sqstr( text( v[1] ) ) );
    if ( one( db, "SELECT count(*) FROM pg_attribute WHERE attrelid=" + oid + " AND attname=" + sqstr( text( v[1] ) ) ) == "0" ) return rerr( c, "column \"" + text( v[1] ) + "\" does not exist" );
    if ( r.empty() ) sqlite3_result_null( c ); else rtext( c, r );
  }
  catch ( PgError &e ) { rerr( c, e.msg ); }
}
static void fSetval( sqlite3_context *c, int n, sqlite3_value **v )
{
  sqlite3 *db = sqlite3_context_db_handle( c );
  try
  {
    std::vector<std::string> ch = identChain( text( v[0] ) );
    if ( ch.size() != 2 ) return rerr( c, "relation \"" + text( v[0] ) + "\" does not exist" );
    std::string t = tname( ch[0], ch[1] );
    if ( one( db, "SELECT count(*) FROM sqlite_master WHERE type='table' AND name=" + sqstr( t ) ) != "1" ) return rerr( c, "relation \"" + text( v[0] ) + "\" does not exist" );
    long long x = sqlite3_value_int64( v[1] );
    long long mx = one( db, "SELECT max_value FROM " + sqid( t ) ) == "2147483647" ? 2147483647LL : INT64_MAX;
    if ( x < 1 || x > mx ) return rerr( c, "setval: value " + std::to_string( x ) + " is out of bounds for sequence" );
    bool called = n < 3 || text( v[2] ) == "t" || text( v[2] ) == "1";
    run( db, "UPDATE " + sqid( t ) + " SET last_value=" + std::to_string( x ) + ", is_called='" + ( called ? "t" : "f" ) + "'" );
    sqlite3_result_int64( c, x );
  }
  catch ( PgError &e ) { rerr( c, e.msg ); }
}

// ------------------------------------------------------------------ translation
static Type parseType( const std::vector<Tok> &t, size_t &i, bool &serial )
{
  Type r; serial = false;
  if ( i >= t.size() || ( t[i].k != Id && t[i].k != QId ) ) throw PgError( "syntax error in type" );
  std::string s = t[i++].s;
  auto args = [&]() { std::vector<std::string> a; if ( i < t.size() && t[i].k == Op && t[i].s == "(" ) { ++i; while ( i < t.size() && !( t[i].k == Op && t[i].s == ")" ) ) { if ( t[i].s != "," ) a.push_back( t[i].s ); ++i; } if ( i >= t.size() ) throw PgError( "syntax error in type" ); ++i; } return a; };
  auto next = [&]( const char *w ) { if ( i < t.size() && t[i].k == Id && t[i].s == w ) { ++i; return true; } return false; };
  if ( s == "int" || s == "int4" || s == "integer" ) r.base = "integer";
  else if ( s == "serial" || s == "serial4" ) { r.base = "integer"; serial = true; }
  else if ( s == "bigserial" ) { r.base = "bigint"; serial = true; }
  else if ( s == "bigint" || s == "int8" ) r.base = "bigint";
  else if ( s == "smallint" || s == "int2" ) r.base = "smallint";
  else if ( s == "double" ) { if ( !next( "precision" ) ) throw PgError( "type \"double\" does not exist" ); r.base = "double precision"; }
  else if ( s == "float8" ) r.base = "double precision";
  else if ( s == "real" || s == "float4" ) r.base = "real";
  else if ( s == "text" ) r.base = "text";
  else if ( s == "citext" ) r.base = "citext";
  else if ( s == "boolean" || s == "bool" ) r.base = "boolean";
  else if ( s == "bytea" ) r.base = "bytea";
  else if ( s == "date" ) r.base = "date";
  else if ( s == "varchar" || s == "character" ) { if ( s == "character" && !next( "varying" ) ) throw PgError( "type character is not modelled" ); r.base = "character varying"; auto a = args(); if ( !a.empty() ) r.n = atoi( a[0].c_str() ); }
  else if ( s == "timestamp" ) { auto a = args(); if ( next( "without" ) ) { if ( !next( "time" ) || !next( "zone" ) ) throw PgError( "syntax error in type" ); } else if ( next( "with" ) ) throw PgError( "timestamptz is not modelled" ); r.base = "timestamp without time zone"; }
  else if ( s == "geometry" )
  {
    r.base = "geometry"; r.gtype = "GEOMETRY"; auto a = args();
    if ( !a.empty() )
    {
      std::string g = a[0]; for ( char &ch : g ) ch = toupper( ch );
      std::string flat = g;
      for ( const char *x : {"ZM", "Z", "M"} ) { std::string y = x; if ( flat.size() > y.size() && flat.compare( flat.size() - y.size(), y.size(), y ) == 0 ) { flat = flat.substr( 0, flat.size() - y.size() ); break; } }
      bool known = false; for ( const char *k : geomNames ) known |= flat == k;
      if ( !known ) throw PgError( "Invalid geometry type modifier: " + a[0] );
      r.gtype = g;
    }
    if ( a.size() > 1 ) r.srid = atoi( a[1].c_str() );
  }
  else throw PgError( "type \"" + s + "\" does not exist" );
  return r;
}
static std::string camel( const std::string &g )
{
  static const std::map<std::string, std::string> m = {{"POINT", "Point"}, {"LINESTRING", "LineString"}, {"POLYGON", "Polygon"}, {"MULTIPOINT", "MultiPoint"}, {"MULTILINESTRING", "MultiLineString"}, {"MULTIPOLYGON", "MultiPolygon"}, {"GEOMETRYCOLLECTION", "GeometryCollection"}, {"GEOMETRY", "Geometry"}};
  for ( const char *x : {"ZM", "Z", "M", ""} ) { std::string y = x; if ( g.size() > y.size() && g.compare( g.size() - y.size(), y.size(), y ) == 0 ) { auto it = m.find( g.substr( 0, g.size() - y.size() ) ); if ( it != m.end() ) return it->second + y; } }
  return g;
}
static int coordDim( const std::string &g )
{
  if ( g.size() > 2 && g.compare( g.size() - 2, 2, "ZM" ) == 0 ) return 4;
  return g.size() > 1 && ( ( g.back() == 'Z' ) || ( g.back() == 'M' ) ) ? 3 : 2;
}
static std::string formatType( const Type &t )
{
  if ( t.base == "geometry" ) return t.gtype == "GEOMETRY" && !t.srid ? "geometry" : "geometry(" + camel( t.gtype ) + ( t.srid ? "," + std::to_string( t.srid ) : "" ) + ")";
  if ( t.base == "character varying" && t.n >= 0 ) return t.base + "(" + std::to_string( t.n ) + ")";
  return t.base;
}

struct Cols { std::vector<std::string> names; std::map<std::string, Type> types; };
static Cols columnsOf( sqlite3 *db, const std::string &schema, const std::string &table )
{
  Cols c; sqlite3_stmt *st = nullptr;
  std::string q = "SELECT attname, base, len, gtype, gsrid FROM pg_attribute WHERE attrelid=(SELECT c.oid FROM pg_class c JOIN pg_namespace n ON n.oid=c.relnamespace WHERE relkind='r' AND nspname=" + sqstr( schema ) + " AND relname=" + sqstr( table ) + ") AND attisdropped='f' ORDER BY attnum";
  if ( sqlite3_prepare_v2( db, q.c_str(), -1, &st, nullptr ) ) throw PgError( sqlite3_errmsg( db ) );
  while ( sqlite3_step( st ) == SQLITE_ROW )
  {
    Type t; t.base = ( const char * )sqlite3_column_text( st, 1 ); t.n = sqlite3_column_int( st, 2 ); t.gtype = ( const char * )sqlite3_column_text( st, 3 ); t.srid = sqlite3_column_int( st, 4 );
    std::string n = ( const char * )sqlite3_column_text( st, 0 );
    c.names.push_back( n ); c.types[n] = t;
  }
  sqlite3_finalize( st );
  if ( c.names.empty() ) throw PgError( "relation \"" + schema + "." + table + "\" does not exist" );
  return c;
}

static bool isOp( const std::vector<Tok> &t, size_t i, const char *s ) { return i < t.size() && t[i].k == Op && t[i].s == s; }
static bool isKw( const std::vector<Tok> &t, size_t i, const char *s ) { return i < t.size() && t[i].k == Id && t[i].s == s; }
static bool isName( const std::vector<Tok> &t, size_t i ) { return i < t.size() && ( t[i].k == Id || t[i].k == QId ); }
static bool cmpOp( const std::vector<Tok> &t, size_t i ) { return i < t.size() && t[i].k == Op && ( t[i].s == "=" || t[i].s == "<>" || t[i].s == "!=" || t[i].s == "<" || t[i].s == ">" || t[i].s == "<=" || t[i].s == ">=" ); }

struct Frame { bool inFrom = false, expect = false, cond = false; std::string close; size_t start = 0; bool func = false; };

static std::string translate( sqlite3 *db, const std::vector<Tok> &t )
{
  static const std::set<std::string> catBool = {"indisprimary", "indisunique", "attnotnull", "attisdropped", "atthasdef", "is_called", "has_sequence"};
  bool dml = isKw( t, 0, "insert" ) || isKw( t, 0, "update" ) || isKw( t, 0, "delete" );
  bool ins = isKw( t, 0, "insert" );
  Cols cols; std::vector<std::string> target; size_t valuesAt = SIZE_MAX;
  std::map<std::string, std::string> plain;    // table name -> merged name, of tables without alias
  if ( dml )
  {
    size_t i = isKw( t, 0, "update" ) ? 1 : 2;
    if ( isKw( t, i, "only" ) ) ++i;
    if ( !isName( t, i ) || !isOp( t, i + 1, "." ) || !isName( t, i + 2 ) ) throw PgError( "relation does not exist (or syntax error)" );
    cols = columnsOf( db, t[i].s, t[i + 2].s );
    i += 3;
    if ( ins )
    {
      target = cols.names;
      if ( isOp( t, i, "(" ) )
      {
        target.clear();
        for ( ++i; i < t.size() && !isOp( t, i, ")" ); ++i ) if ( isName( t, i ) ) { if ( !cols.types.count( t[i].s ) ) throw PgError( "column \"" + t[i].s + "\" does not exist" ); target.push_back( t[i].s ); }
        ++i;
      }
      if ( isKw( t, i, "values" ) ) valuesAt = i;
    }
  }
  static const std::set<std::string> noAlias = {"where", "on", "left", "right", "inner", "cross", "full", "outer", "join", "natural", "set", "group", "order", "limit", "union", "except", "intersect", "having", "values", "using", "default", "returning", "for", "offset"};
  std::set<std::string> aliases;
  for ( size_t i = 1; i + 2 < t.size(); ++i )
  {
    bool pos = isOp( t, i - 1, "," ) || isKw( t, i - 1, "from" ) || isKw( t, i - 1, "join" ) || isKw( t, i - 1, "update" ) || isKw( t, i - 1, "into" ) || isKw( t, i - 1, "only" );
    if ( !pos || !isName( t, i ) || !isOp( t, i + 1, "." ) || !isName( t, i + 2 ) || isOp( t, i + 3, "." ) ) continue;
    std::string m = tname( t[i].s, t[i + 2].s );
    if ( one( db, "SELECT count(*) FROM sqlite_master WHERE type='table' AND name=" + sqstr( m ) ) != "1" ) continue;
    size_t a = i + 3;
    if ( isKw( t, a, "as" ) ) ++a;
    if ( isName( t, a ) && !( t[a].k == Id && noAlias.count( t[a].s ) ) ) aliases.insert( t[a].s );
    else plain[t[i + 2].s] = m;
  }
  for ( const std::string &a : aliases ) plain.erase( a );
  std::vector<std::string> out; std::vector<Frame> st( 1 );
  size_t prim = 0; int tuple = 0; bool inSet = false;
  for ( size_t i = 0; i < t.size(); ++i )
  {
    Frame &f = st.back();
    const Tok &k = t[i];
    bool lit = k.k == Str || k.k == Num || ( k.k == Id && ( k.s == "true" || k.s == "false" ) );
    bool chainPart = i > 0 && isOp( t, i - 1, "." );
    if ( k.k == Op && ( k.s == "-" || k.s == "+" ) && i + 1 < t.size() && t[i + 1].k == Num && i > 0 && t[i - 1].k == Op && t[i - 1].s != ")" )
    {
      // sign of a literal: taken with the literal
      if ( dml ) continue;
    }
    if ( lit && !chainPart )
    {
      prim = out.size();
      bool sign = i > 1 && t[i - 1].k == Op && ( t[i - 1].s == "-" || t[i - 1].s == "+" ) && t[i - 2].k == Op && t[i - 2].s != ")";
      bool neg = sign && t[i - 1].s == "-";
      if ( dml )
      {
        size_t p = sign ? i - 2 : i - 1;
        std::string col; bool assign = false;
        if ( ins && valuesAt < i && st.size() == 2 && ( isOp( t, p, "(" ) || isOp( t, p, "," ) ) && tuple < ( int )target.size() ) { col = target[tuple]; assign = true; }
        else if ( cmpOp( t, p ) && p > 0 && isName( t, p - 1 ) ) { col = t[p - 1].s; assign = inSet && st.size() == 1; }
        else if ( isKw( t, p, "from" ) && isKw( t, p - 1, "distinct" ) ) { size_t x = p - 2; if ( isKw( t, x, "not" ) ) --x; if ( isName( t, x - 1 ) ) col = t[x - 1].s; }
        else if ( cmpOp( t, i + 1 ) && isName( t, i + 2 ) && !isOp( t, i + 3, "(" ) ) { size_t x = i + 2; while ( isOp( t, x + 1, "." ) ) x += 2; col = t[x].s; }
        auto it = cols.types.find( col );
        if ( it != cols.types.end() && !isOp( t, i + 1, "::" ) )
        {
          out.push_back( coerce( it->second, k, neg, assign ) );
          continue;
        }
      }
      if ( k.k == Str ) out.push_back( sqstr( k.s ) );
      else if ( k.k == Num ) out.push_back( ( dml && neg ? "-" : "" ) + k.s );
      else
      {
        bool val = i > 0 && ( cmpOp( t, i - 1 ) || isOp( t, i - 1, "," ) || isKw( t, i - 1, "is" ) || isOp( t, i - 1, "(" ) || isKw( t, i - 1, "select" ) || isKw( t, i - 1, "else" ) || isKw( t, i - 1, "then" ) );
        out.push_back( val ? ( k.s == "true" ? "'t'" : "'f'" ) : ( k.s == "true" ? "1" : "0" ) );
      }
      continue;
    }
    if ( k.k == Op )
    {
      if ( k.s == "(" )
      {
        Frame n; n.start = out.size(); n.cond = f.cond;
        if ( f.expect ) f.expect = false;
        if ( i > 0 && isName( t, i - 1 ) && !out.empty() && t[i - 1].k == Id ) { n.func = true; n.start = out.size() - 1; }
        if ( isKw( t, i - 1, "exists" ) && i > 1 && ( isKw( t, i - 2, "select" ) || isOp( t, i - 2, "," ) ) && !f.inFrom && !f.cond ) { out.back() = "pgbool(exists"; n.close = ")"; }
        if ( isKw( t, i - 1, "any" ) && i > 1 && isOp( t, i - 2, "=" ) ) { out[out.size() - 1].clear(); out[out.size() - 2].clear(); n.close = ")"; out.push_back( "IN (SELECT value FROM json_each(" ); st.push_back( n ); continue; }
        st.push_back( n );
        if ( st.size() == 2 ) tuple = 0;
        out.push_back( "(" );
        continue;
      }
      if ( k.s == ")" )
      {
        if ( st.size() < 2 ) throw PgError( "syntax error at or near \")\"" );
        std::string c = ")" + f.close; prim = f.start;
        st.pop_back(); out.push_back( c );
        continue;
      }
      if ( k.s == "," ) { if ( st.size() == 2 ) ++tuple; if ( f.inFrom ) f.expect = true; out.push_back( "," ); continue; }
      if ( k.s == "::" )
      {
        ++i; bool serial;
        if ( isKw( t, i, "regclass" ) || isKw( t, i, "oid" ) || isKw( t, i, "name" ) || isKw( t, i, "numeric" ) || isKw( t, i, "unknown" ) || isKw( t, i, "float" ) ) continue;
        Type ty = parseType( t, i, serial ); --i;
        if ( prim >= out.size() ) throw PgError( "syntax error at or near \"::\"" );
        out.insert( out.begin() + prim, ty.base == "text" || ty.base == "character varying" ? "pgtext(" : "pgcast(" );
        out.push_back( ")" );
        continue;
      }
      out.push_back( k.s );
      continue;
    }
    if ( k.k == Id && !chainPart && !isOp( t, i + 1, "." ) )
    {
      if ( k.s == "from" && i > 0 && isKw( t, i - 1, "distinct" ) ) { out.push_back( "from" ); continue; }
      if ( k.s == "select" ) { f.inFrom = f.expect = f.cond = false; out.push_back( "select" ); if ( isKw( t, i + 1, "from" ) ) out.push_back( "1" ); continue; }
      if ( k.s == "from" || k.s == "join" || k.s == "into" || ( k.s == "update" && i == 0 ) ) { f.inFrom = k.s == "from" || k.s == "join"; f.expect = true; f.cond = false; out.push_back( k.s ); continue; }
      if ( k.s == "where" || k.s == "having" ) { f.inFrom = f.expect = false; f.cond = true; inSet = false; out.push_back( k.s ); continue; }
      if ( k.s == "on" ) { f.cond = true; out.push_back( k.s ); continue; }
      if ( k.s == "set" ) { inSet = true; f.expect = false; out.push_back( k.s ); continue; }
      if ( k.s == "group" || k.s == "order" || k.s == "limit" || k.s == "union" || k.s == "except" || k.s == "intersect" ) { f.inFrom = f.expect = f.cond = false; out.push_back( k.s ); continue; }
      if ( k.s == "only" && f.expect ) continue;
      if ( k.s == "lateral" && f.expect ) continue;
      if ( k.s == "left" || k.s == "inner" || k.s == "cross" || k.s == "outer" || k.s == "as" || k.s == "and" || k.s == "or" || k.s == "not" || k.s == "null" || k.s == "is" || k.s == "any" || k.s == "exists" || k.s == "distinct" || k.s == "values" || k.s == "default" || k.s == "in" || k.s == "by" || k.s == "asc" || k.s == "desc" || k.s == "case" || k.s == "when" || k.s == "then" || k.s == "else" || k.s == "end" || k.s == "insert" || k.s == "delete" || k.s == "update" || k.s == "all" || k.s == "like" || k.s == "with" || k.s == "between" || k.s == "current_date" )
      {
        if ( k.s == "left" || k.s == "inner" || k.s == "cross" ) f.cond = false;
        out.push_back( k.s );
        continue;
      }
    }
    // identifier chain
    std::vector<Tok> ch; size_t j = i;
    ch.push_back( t[j] );
    while ( isOp( t, j + 1, "." ) && ( isName( t, j + 2 ) || isOp( t, j + 2, "*" ) ) ) { ch.push_back( t[j + 2] ); j += 2; }
    bool func = isOp( t, j + 1, "(" ) && !( ins && f.expect );
    if ( ch.size() > 1 && ch[0].s == "pg_catalog" ) ch.erase( ch.begin() );
    if ( ch.size() > 1 && ch[0].s == "public" && func ) ch.erase( ch.begin() );
    prim = out.size();
    auto put = [&]( const Tok & x ) { return x.k == Op ? x.s : x.k == Id ? x.s : sqid( mangle( x.s ) ); };
    if ( func && !f.expect ) { if ( ch.size() != 1 ) throw PgError( "function does not exist" ); out.push_back( ch[0].k == Id ? ch[0].s : sqid( ch[0].s ) ); i = j; continue; }
    if ( f.expect )
    {
      f.expect = false;
      if ( ch.size() > 2 ) throw PgError( "cross-database references are not implemented" );
      if ( ch.size() == 2 )
      {
        std::string m = tname( ch[0].s, ch[1].s );
        if ( one( db, "SELECT count(*) FROM sqlite_master WHERE type='table' AND name=" + sqstr( m ) ) != "1" ) throw PgError( "relation \"" + ch[0].s + "." + ch[1].s + "\" does not exist" );
        out.push_back( sqid( m ) );
      }
      else
      {
        std::string m = mangle( ch[0].s );
        if ( m.find( '\x1f' ) != std::string::npos ) throw PgError( "relation does not exist" );
        out.push_back( sqid( m ) );
      }
      i = j; continue;
    }
    std::string s;
    if ( ch.size() == 3 ) s = sqid( tname( ch[0].s, ch[1].s ) ) + "." + put( ch[2] );
    else if ( ch.size() == 2 && plain.count( ch[0].s ) ) s = sqid( plain[ch[0].s] ) + "." + put( ch[1] );
    else if ( ch.size() == 2 ) s = sqid( mangle( ch[0].s ) ) + "." + put( ch[1] );
    else if ( ch.size() == 1 ) s = put( ch[0] );
    else throw PgError( "improper qualified name" );
    if ( f.cond && ch.back().k == Id && catBool.count( ch.back().s ) && !cmpOp( t, j + 1 ) && !isKw( t, j + 1, "is" ) && !isOp( t, j + 1, "::" ) && !( i > 0 && cmpOp( t, i - 1 ) ) && !isOp( t, j + 1, "," ) )
      s = "(" + s + " IS 't')";
    out.push_back( s );
    i = j;
  }
  if ( st.size() != 1 ) throw PgError( "syntax error at end of input" );
  std::string r;
  for ( const std::string &x : out ) { r += x; r += ' '; }
  return r;
}

// ------------------------------------------------------------------ statements
static std::string newOid( sqlite3 *db ) { run( db, "UPDATE emu_oid SET n=n+1" ); return one( db, "SELECT n FROM emu_oid" ); }

static void createTable( sqlite3 *db, const std::vector<Tok> &t )
{
  size_t i = 2;
  bool ine = false;
  if ( isKw( t, i, "if" ) ) { i += 3; ine = true; }
  if ( !isName( t, i ) || !isOp( t, i + 1, "." ) || !isName( t, i + 2 ) || !isOp( t, i + 3, "(" ) ) throw PgError( "syntax error in CREATE TABLE" );
  std::string schema = t[i].s, table = t[i + 2].s;
  i += 4;
  std::string ns = one( db, "SELECT oid FROM pg_namespace WHERE nspname=" + sqstr( schema ) );
  if ( ns.empty() ) throw PgError( "schema \"" + schema + "\" does not exist" );
  if ( one( db, "SELECT count(*) FROM pg_class WHERE relnamespace=" + ns + " AND relname=" + sqstr( table ) ) != "0" ) { if ( ine ) return; throw PgError( "relation \"" + table + "\" already exists" ); }
  struct C { std::string name; Type t; bool nn = false, serial = false, uniq = false; };
  std::vector<C> cols; std::vector<std::string> pk; bool havePk = false;
  std::vector<std::vector<std::string>> uniqs;
  auto list = [&]() { std::vector<std::string> r; if ( !isOp( t, i, "(" ) ) throw PgError( "syntax error" ); ++i; for ( ;; ) { if ( !isName( t, i ) ) throw PgError( "syntax error at or near \")\"" ); r.push_back( t[i++].s ); if ( isOp( t, i, "," ) ) { ++i; continue; } break; } if ( !isOp( t, i, ")" ) ) throw PgError( "syntax error" ); ++i; return r; };
  for ( ;; )
  {
    if ( isKw( t, i, "constraint" ) ) i += 2;
    if ( isKw( t, i, "primary" ) && isKw( t, i + 1, "key" ) ) { i += 2; if ( havePk ) throw PgError( "multiple primary keys for table" ); pk = list(); havePk = true; }
    else if ( isKw( t, i, "unique" ) && isOp( t, i + 1, "(" ) ) { ++i; uniqs.push_back( list() ); }
    else
    {
      if ( !isName( t, i ) ) throw PgError( "syntax error in column definition" );
      C c; c.name = t[i++].s; c.t = parseType( t, i, c.serial );
      for ( ;; )
      {
        if ( isKw( t, i, "not" ) && isKw( t, i + 1, "null" ) ) { c.nn = true; i += 2; }
        else if ( isKw( t, i, "null" ) ) ++i;
        else if ( isKw( t, i, "primary" ) && isKw( t, i + 1, "key" ) ) { if ( havePk ) throw PgError( "multiple primary keys for table" ); havePk = true; pk = {c.name}; i += 2; }
        else if ( isKw( t, i, "unique" ) ) { c.uniq = true; ++i; }
        else break;
      }
      for ( const C &o : cols ) if ( o.name == c.name ) throw PgError( "column \"" + c.name + "\" specified more than once" );
      cols.push_back( c );
    }
    if ( isOp( t, i, "," ) ) { ++i; continue; }
    break;
  }
  if ( !isOp( t, i, ")" ) || i + 1 != t.size() ) throw PgError( "syntax error at or near the end of CREATE TABLE" );
  std::string oid = newOid( db );
  run( db, "INSERT INTO pg_class VALUES (" + oid + "," + sqstr( table ) + "," + ns + ",'r')" );
  std::string sql; int n = 0; std::string key = "[";
  std::map<std::string, int> num;
  for ( C &c : cols )
  {
    ++n;
    if ( c.name.rfind( "........pg.dropped.", 0 ) == 0 )   // as it is after ALTER TABLE ... DROP COLUMN
    {
      run( db, "INSERT INTO pg_attribute VALUES (" + oid + "," + sqstr( c.name ) + ",'-',0," + std::to_string( n ) + ",'f','t','f','',0,'',0,NULL)" );
      continue;
    }
    num[c.name] = n;
    bool inPk = std::find( pk.begin(), pk.end(), c.name ) != pk.end();
    bool nn = c.nn || inPk || c.serial;
    std::string seq;
    if ( c.serial )
    {
      std::string sn = table + "_" + c.name + "_seq"; int x = 0;
      while ( one( db, "SELECT count(*) FROM pg_class WHERE relnamespace=" + ns + " AND relname=" + sqstr( sn ) ) != "0" ) sn = table + "_" + c.name + "_seq" + std::to_string( ++x );
      seq = quoteIdent( schema ) + "." + quoteIdent( sn );
      run( db, "INSERT INTO pg_class VALUES (" + newOid( db ) + "," + sqstr( sn ) + "," + ns + ",'S')" );
      run( db, "CREATE TABLE " + sqid( tname( schema, sn ) ) + " (last_value INTEGER, log_cnt INTEGER, is_called TEXT, max_value INTEGER)" );
      run( db, "INSERT INTO " + sqid( tname( schema, sn ) ) + " VALUES (1,0,'f'," + ( c.t.base == "bigint" ? "9223372036854775807" : "2147483647" ) + ")" );
      run( db, "INSERT INTO pg_attrdef VALUES (" + oid + "," + std::to_string( n ) + "," + sqstr( "nextval('" + seq + "'::regclass)" ) + ")" );
    }
    run( db, "INSERT INTO pg_attribute VALUES (" + oid + "," + sqstr( c.name ) + "," + sqstr( formatType( c.t ) ) + ",0," + std::to_string( n ) + ",'" + ( nn ? "t" : "f" ) + "','f','" + ( c.serial ? "t" : "f" ) + "'," + sqstr( c.t.base ) + "," + std::to_string( c.t.n ) + "," + sqstr( c.t.gtype ) + "," + std::to_string( c.t.srid ) + "," + ( seq.empty() ? "NULL" : sqstr( seq ) ) + ")" );
    std::string decl = c.t.base == "integer" || c.t.base == "bigint" || c.t.base == "smallint" ? "PG_INT" : c.t.base == "double precision" ? "PG_FLOAT8" : c.t.base == "real" ? "PG_FLOAT4" : c.t.base == "bytea" ? "PG_BYTEA_BLOB" : c.t.base == "geometry" ? "PG_GEOM_BLOB" : c.t.base == "boolean" ? "PG_BOOL_TEXT" : c.t.base == "citext" ? "PG_CITEXT COLLATE NOCASE" : "PG_TEXT";
    if ( !sql.empty() ) sql += ", ";
    sql += sqid( mangle( c.name ) ) + " " + decl + ( nn ? " NOT NULL" : "" );
    const char *want = c.t.base == "double precision" || c.t.base == "real" ? "'real'" : decl == "PG_INT" ? "'integer'" : decl.find( "BLOB" ) != std::string::npos ? "'blob'" : "'text'";
    std::string cid = sqid( mangle( c.name ) );
    sql += " CHECK (" + cid + " IS NULL OR typeof(" + cid + ")=" + want + ")";
    if ( c.t.base == "geometry" )
    {
      sql += " CHECK (pg_geomcheck(" + cid + "," + sqstr( c.t.gtype ) + "," + std::to_string( c.t.srid ) + "))";
      std::string g = c.t.gtype;   // as PostGIS shows it: without Z
      size_t z = g.find( "ZM" ); if ( z != std::string::npos ) g.erase( z, 2 );
      if ( !g.empty() && g.back() == 'Z' ) g.pop_back();
      run( db, "INSERT INTO geometry_columns VALUES ('db'," + sqstr( schema ) + "," + sqstr( table ) + "," + sqstr( c.name ) + "," + std::to_string( coordDim( c.t.gtype ) ) + "," + std::to_string( c.t.srid ) + "," + sqstr( g ) + ")" );
    }
    if ( c.uniq ) uniqs.push_back( {c.name} );
  }
  for ( const std::string &p : pk ) { if ( !num.count( p ) ) throw PgError( "column \"" + p + "\" named in key does not exist" ); }
  auto index = [&]( const std::vector<std::string> &cs, bool prim, bool uniq )
  {
    std::string a = "[";
    for ( const std::string &p : cs ) { if ( !num.count( p ) ) throw PgError( "column \"" + p + "\" does not exist" ); if ( a.size() > 1 ) a += ","; a += std::to_string( num[p] ); }
    run( db, "INSERT INTO pg_index VALUES (" + newOid( db ) + "," + oid + ",'" + a + "]','" + ( prim ? "t" : "f" ) + "','" + ( uniq ? "t" : "f" ) + "')" );
  };
  auto names = [&]( const std::vector<std::string> &cs ) { std::string a; for ( const std::string &p : cs ) { if ( !a.empty() ) a += ", "; a += sqid( mangle( p ) ); } return a; };
  if ( havePk ) { sql += ", PRIMARY KEY (" + names( pk ) + ")"; index( pk, true, true ); }
  for ( auto &u : uniqs ) { sql += ", UNIQUE (" + names( u ) + ")"; index( u, false, true ); }
  run( db, "CREATE TABLE " + sqid( tname( schema, table ) ) + " (" + sql + ")" );
}

static void createIndex( sqlite3 *db, const std::vector<Tok> &t )
{
  bool uniq = isKw( t, 1, "unique" );
  size_t i = uniq ? 3 : 2;
  if ( !isKw( t, i, "on" ) ) ++i;
  if ( !isKw( t, i, "on" ) || !isName( t, i + 1 ) || !isOp( t, i + 2, "." ) || !isName( t, i + 3 ) ) throw PgError( "syntax error in CREATE INDEX" );
  std::string schema = t[i + 1].s, table = t[i + 3].s;
  i += 4;
  if ( isKw( t, i, "using" ) ) i += 2;
  std::string oid = one( db, "SELECT c.oid FROM pg_class c JOIN pg_namespace n ON n.oid=c.relnamespace WHERE relkind='r' AND nspname=" + sqstr( schema ) + " AND relname=" + sqstr( table ) );
  if ( oid.empty() ) throw PgError( "relation does not exist" );
  std::string a = "[", names;
  for ( ++i; i < t.size() && !isOp( t, i, ")" ); ++i )
    if ( isName( t, i ) )
    {
      std::string n = one( db, "SELECT attnum FROM pg_attribute WHERE attrelid=" + oid + " AND attname=" + sqstr( t[i].s ) );
      if ( n.empty() ) throw PgError( "column does not exist" );
      if ( a.size() > 1 ) { a += ","; names += ","; }
      a += n; names += sqid( mangle( t[i].s ) );
    }
  std::string io = newOid( db );
  run( db, "INSERT INTO pg_index VALUES (" + io + "," + oid + ",'" + a + "]','f','" + ( uniq ? "t" : "f" ) + "')" );
  if ( uniq ) run( db, "CREATE UNIQUE INDEX emu_ix" + io + " ON " + sqid( tname( schema, table ) ) + " (" + names + ")" );
}

static void dropSchema( sqlite3 *db, const std::vector<Tok> &t )
{
  size_t i = 2; bool ife = false, cascade = false;
  if ( isKw( t, i, "if" ) ) { i += 2; ife = true; }
  if ( !isName( t, i ) ) throw PgError( "syntax error in DROP SCHEMA" );
  std::string s = t[i].s;
  if ( isKw( t, i + 1, "cascade" ) ) { cascade = true; ++i; } else if ( isKw( t, i + 1, "restrict" ) ) ++i;
  if ( i + 1 != t.size() ) throw PgError( "syntax error in DROP SCHEMA" );
  std::string ns = one( db, "SELECT oid FROM pg_namespace WHERE nspname=" + sqstr( s ) );
  if ( ns.empty() ) { if ( ife ) return; throw PgError( "schema \"" + s + "\" does not exist" ); }
  if ( !cascade && one( db, "SELECT count(*) FROM pg_class WHERE relnamespace=" + ns ) != "0" ) throw PgError( "cannot drop schema because other objects depend on it" );
  for ( ;; )
  {
    std::string n = one( db, "SELECT relname FROM pg_class WHERE relnamespace=" + ns + " LIMIT 1" );
    if ( n.empty() ) break;
    std::string oid = one( db, "SELECT oid FROM pg_class WHERE relnamespace=" + ns + " AND relname=" + sqstr( n ) );
    run( db, "DROP TABLE " + sqid( tname( s, n ) ) );
    run( db, "DELETE FROM pg_class WHERE oid=" + oid + "; DELETE FROM pg_attribute WHERE attrelid=" + oid + "; DELETE FROM pg_index WHERE indrelid=" + oid + "; DELETE FROM pg_attrdef WHERE adrelid=" + oid );
  }
  run( db, "DELETE FROM geometry_columns WHERE f_table_schema=" + sqstr( s ) + "; DELETE FROM pg_namespace WHERE oid=" + ns );
}

static std::string byteaEscape( const std::string &b )
{
  std::string o; char t[8];
  for ( unsigned char c : b ) { if ( c == '\\' ) o += "\\\\"; else if ( c < 0x20 || c > 0x7e ) { snprintf( t, sizeof t, "\\%03o", c ); o += t; } else o += ( char )c; }
  return o;
}
static std::string toLatin1( const std::string &s )
{
  std::string o;
  for ( size_t i = 0; i < s.size(); ++i )
  {
    unsigned char c = s[i];
    if ( c < 0x80 ) o += ( char )c;
    else if ( ( c == 0xc2 || c == 0xc3 ) && i + 1 < s.size() ) { o += ( char )( ( c & 3 ) << 6 | ( ( unsigned char )s[i + 1] & 0x3f ) ); ++i; }
    else throw PgError( "character with byte sequence in encoding \"UTF8\" has no equivalent in encoding \"LATIN1\"" );
  }
  return o;
}
static std::string fromLatin1( const std::string &s ) { std::string o; for ( unsigned char c : s ) { if ( c < 0x80 ) o += ( char )c; else { o += ( char )( 0xc0 | c >> 6 ); o += ( char )( 0x80 | ( c & 0x3f ) ); } } return o; }
static bool setting( Settings &x, std::string n, const std::string &v )
{
  std::string lv; for ( char c : v ) lv += ( char )tolower( c );
  std::string ln; for ( char c : n ) ln += ( char )tolower( c );
  bool on = lv == "on" || lv == "true" || lv == "1" || lv == "yes";
  if ( ln == "client_encoding" || ln == "names" ) { std::string e; for ( char c : lv ) if ( isalnum( ( unsigned char )c ) ) e += c; if ( e == "utf8" || e == "unicode" ) x.latin1 = false; else if ( e == "latin1" || e == "iso88591" ) x.latin1 = true; else return false; }
  else if ( ln == "bytea_output" ) { if ( lv != "hex" && lv != "escape" ) return false; x.escape = lv == "escape"; }
  else if ( ln == "extra_float_digits" ) { int d = atoi( lv.c_str() ); if ( d < -15 || d > 3 ) return false; x.digits = d; }
  else if ( ln == "standard_conforming_strings" ) x.backslash = !on;
  return true;
}
static void fSetConfig( sqlite3_context *c, int, sqlite3_value **v )
{
  if ( !gCur || !setting( *const_cast<Settings *>( gCur ), text( v[0] ), text( v[1] ) ) ) return rerr( c, "invalid value for parameter" );
  rtext( c, text( v[1] ) );
}
static void select( sqlite3 *db, const std::string &sql, pg_result *r, bool rows )
{
  sqlite3_stmt *st = nullptr;
  if ( sqlite3_prepare_v2( db, sql.c_str(), -1, &st, nullptr ) || !st ) { std::string m = sqlite3_errmsg( db ); sqlite3_finalize( st ); throw PgError( m ); }
  int n = sqlite3_column_count( st ), rc;
  std::vector<std::string> decl;
  for ( int i = 0; i < n; ++i ) { const char *d = sqlite3_column_decltype( st, i ); decl.push_back( d ? d : "" ); r->names.push_back( sqlite3_column_name( st, i ) ); }
  while ( ( rc = sqlite3_step( st ) ) == SQLITE_ROW )
  {
    std::vector<std::pair<bool, std::string>> row;
    for ( int i = 0; i < n; ++i )
    {
      std::string v; int ty = sqlite3_column_type( st, i );
      if ( ty == SQLITE_FLOAT ) v = dbl( sqlite3_column_double( st, i ), decl[i] == "PG_FLOAT4" );
      else if ( ty == SQLITE_BLOB )
      {
        const char *p = ( const char * )sqlite3_column_blob( st, i );
        std::string b( p ? p : "", sqlite3_column_bytes( st, i ) );
        v = decl[i] == "PG_GEOM_BLOB" ? hexs( b ) : gCur && gCur->escape ? byteaEscape( b ) : "\\x" + hexs( b );
      }
      else if ( ty != SQLITE_NULL ) v.assign( ( const char * )sqlite3_column_text( st, i ), sqlite3_column_bytes( st, i ) );
      row.push_back( {ty == SQLITE_NULL, v} );
    }
    r->rows.push_back( row );
  }
  std::string m = rc == SQLITE_DONE ? "" : sqlite3_errmsg( db );
  sqlite3_finalize( st );
  if ( rc != SQLITE_DONE ) throw PgError( m );
  ( void )rows;
}

// Emulation of concurrent transactions (only when asked for): the file is in WAL mode; a repeatable read transaction is a SQLite
// transaction whose snapshot is taken at its first statement; a read committed one starts a SQLite transaction with its first write,
// statements before that see what others committed.
static bool gMvcc = false;
static bool repeatable( const std::vector<Tok> &t )
{
  for ( size_t i = 0; i < t.size(); ++i ) if ( isKw( t, i, "serializable" ) || ( isKw( t, i, "repeatable" ) && isKw( t, i + 1, "read" ) ) ) return true;
  return false;
}
static bool reads( const std::vector<Tok> &t )
{
  if ( t.empty() || t[0].k != Id ) return true;
  for ( const Tok &x : t ) if ( x.k == Id && ( x.s == "setval" || x.s == "nextval" ) ) return false;
  const std::string &w = t[0].s;
  return w == "select" || w == "with" || w == "values" || w == "set" || w == "show" || w == "begin" || w == "start" || w == "commit" || w == "end" || w == "rollback" || w == "abort";
}

static void statement( pg_conn *c, const std::vector<Tok> &t, pg_result *r )
{
  std::string w = t[0].k == Id ? t[0].s : "", w2 = t.size() > 1 && t[1].k == Id ? t[1].s : "";
  r->rows.clear(); r->names.clear(); r->tuples.clear(); r->st = PGRES_COMMAND_OK;
  if ( w == "begin" || ( w == "start" && w2 == "transaction" ) ) { if ( c->tx == 0 ) { if ( !gMvcc ) run( c->db, "BEGIN IMMEDIATE" ); else if ( repeatable( t ) || c->set.repeatable ) run( c->db, "BEGIN" ); c->tx = 1; } r->tag = "BEGIN"; return; }
  if ( gMvcc && ( w == "commit" || w == "end" || ( ( w == "rollback" || w == "abort" ) && w2 != "to" ) ) && sqlite3_get_autocommit( c->db ) )
  {
    if ( c->tx == 2 ) ++gAborted;
    r->tag = c->tx == 2 || w[0] == 'r' || w[0] == 'a' ? "ROLLBACK" : "COMMIT"; c->tx = 0; return;
  }
  if ( w == "commit" || w == "end" )
  {
    if ( c->tx == 2 ) { run( c->db, "ROLLBACK" ); ++gAborted; r->tag = "ROLLBACK"; } else { if ( c->tx == 1 ) run( c->db, "COMMIT" ); r->tag = "COMMIT"; }
    c->tx = 0; return;
  }
  if ( ( w == "rollback" || w == "abort" ) && w2 != "to" ) { if ( c->tx ) { run( c->db, "ROLLBACK" ); ++gAborted; } c->tx = 0; r->tag = "ROLLBACK"; return; }
  if ( c->tx == 2 ) throw PgError( "current transaction is aborted, commands ignored until end of transaction block" );
  if ( gMvcc && c->tx == 1 && sqlite3_get_autocommit( c->db ) && !reads( t ) ) run( c->db, "BEGIN IMMEDIATE" );
  if ( w == "set" && repeatable( t ) )
  {
    if ( w2 == "transaction" ) { if ( gMvcc && c->tx == 1 && sqlite3_get_autocommit( c->db ) ) run( c->db, "BEGIN" ); } else c->set.repeatable = true;
    r->tag = "SET"; return;
  }
  if ( w == "set" )
  {
    size_t i = 1;
    if ( isKw( t, i, "session" ) || isKw( t, i, "local" ) ) ++i;
    if ( i < t.size() && t[i].k == Id )
    {
      std::string n = t[i].s;
      if ( isOp( t, i + 1, "=" ) || isKw( t, i + 1, "to" ) ) ++i;
      std::string v; for ( ++i; i < t.size(); ++i ) v += t[i].s;
      if ( !setting( c->set, n, v ) ) throw PgError( "invalid value for parameter \"" + n + "\": \"" + v + "\"" );
    }
    r->tag = "SET"; return;
  }
  if ( w == "create" && w2 == "schema" )
  {
    size_t i = 2; bool ine = false;
    if ( isKw( t, i, "if" ) ) { i += 3; ine = true; }
    if ( !isName( t, i ) || i + 1 != t.size() ) throw PgError( "syntax error in CREATE SCHEMA" );
    if ( one( c->db, "SELECT count(*) FROM pg_namespace WHERE nspname=" + sqstr( t[i].s ) ) != "0" ) { if ( ine ) return; throw PgError( "schema \"" + t[i].s + "\" already exists" ); }
    run( c->db, "INSERT INTO pg_namespace VALUES (" + newOid( c->db ) + "," + sqstr( t[i].s ) + ")" );
    r->tag = "CREATE SCHEMA"; return;
  }
  if ( w == "drop" && w2 == "schema" ) { dropSchema( c->db, t ); r->tag = "DROP SCHEMA"; return; }
  if ( w == "create" && w2 == "table" ) { createTable( c->db, t ); r->tag = "CREATE TABLE"; return; }
  if ( w == "create" && ( w2 == "index" || w2 == "unique" ) ) { createIndex( c->db, t ); r->tag = "CREATE INDEX"; return; }
  std::string sql = translate( c->db, t );
  if ( w == "insert" || w == "update" || w == "delete" )
  {
    select( c->db, sql, r, false );
    r->tuples = std::to_string( sqlite3_changes( c->db ) );
    r->tag = ( w == "insert" ? "INSERT 0 " : w == "update" ? "UPDATE " : "DELETE " ) + r->tuples;
    if ( !r->names.empty() ) r->st = PGRES_TUPLES_OK;
    return;
  }
  if ( w == "select" || w == "with" || w == "values" || isOp( t, 0, "(" ) )
  {
    select( c->db, sql, r, true );
    r->st = PGRES_TUPLES_OK; r->tuples = std::to_string( r->rows.size() ); r->tag = "SELECT " + r->tuples;
    return;
  }
  throw PgError( "syntax error at or near \"" + w + "\"" );
}

static const char *kSchema =
  "CREATE TABLE IF NOT EXISTS emu_oid (n INTEGER); INSERT INTO emu_oid SELECT 16384 WHERE NOT EXISTS (SELECT 1 FROM emu_oid);"
  "CREATE TABLE IF NOT EXISTS pg_namespace (oid INTEGER, nspname TEXT); INSERT INTO pg_namespace SELECT 2200, 'public' WHERE NOT EXISTS (SELECT 1 FROM pg_namespace);"
  "CREATE TABLE IF NOT EXISTS pg_class (oid INTEGER, relname TEXT, relnamespace INTEGER, relkind TEXT);"
  "CREATE TABLE IF NOT EXISTS pg_attribute (attrelid INTEGER, attname TEXT, atttypid TEXT, atttypmod INTEGER, attnum INTEGER, attnotnull TEXT, attisdropped TEXT, atthasdef TEXT, base TEXT, len INTEGER, gtype TEXT, gsrid INTEGER, seq TEXT);"
  "CREATE TABLE IF NOT EXISTS pg_index (indexrelid INTEGER, indrelid INTEGER, indkey TEXT, indisprimary TEXT, indisunique TEXT);"
  "CREATE TABLE IF NOT EXISTS pg_attrdef (adrelid INTEGER, adnum INTEGER, adbin TEXT);"
  "CREATE TABLE IF NOT EXISTS geometry_columns (f_table_catalog TEXT, f_table_schema TEXT, f_table_name TEXT, f_geometry_column TEXT, coord_dimension INTEGER, srid INTEGER, type TEXT);"
  "CREATE TABLE IF NOT EXISTS spatial_ref_sys (srid INTEGER, auth_name TEXT, auth_srid INTEGER, srtext TEXT, proj4text TEXT);"
  "INSERT INTO spatial_ref_sys SELECT 4326, 'EPSG', 4326, 'GEOGCS[\"WGS 84\",DATUM[\"it''s\"]]', '+proj=longlat' WHERE NOT EXISTS (SELECT 1 FROM spatial_ref_sys);"
  "INSERT INTO spatial_ref_sys SELECT 3857, 'EPSG', 3857, 'PROJCS[\"WGS 84 / Pseudo-Mercator\"]', '+proj=merc' WHERE NOT EXISTS (SELECT 1 FROM spatial_ref_sys WHERE srid=3857);"
  "INSERT INTO spatial_ref_sys SELECT 40001, 'local''s', 77, 'LOCAL_CS[\"a; b %d %s\"]', '' WHERE NOT EXISTS (SELECT 1 FROM spatial_ref_sys WHERE srid=40001);"
  "INSERT INTO spatial_ref_sys SELECT 102100, 'ESRI', 102100, 'PROJCS[\"WGS_1984_Web_Mercator_Auxiliary_Sphere\"]', '' WHERE NOT EXISTS (SELECT 1 FROM spatial_ref_sys WHERE srid=102100);"
  "INSERT INTO spatial_ref_sys SELECT 40002, 'other', 77, 'LOCAL_CS[\"b\"]', '' WHERE NOT EXISTS (SELECT 1 FROM spatial_ref_sys WHERE srid=40002);"
  "INSERT INTO spatial_ref_sys SELECT 50026, 'EPSGX', 4326, 'GEOGCS[\"other\"]', '' WHERE NOT EXISTS (SELECT 1 FROM spatial_ref_sys WHERE srid=50026);"
  "CREATE VIEW IF NOT EXISTS pg_tables AS SELECT n.nspname AS schemaname, c.relname AS tablename FROM pg_class c JOIN pg_namespace n ON n.oid=c.relnamespace WHERE relkind='r';";

static pg_result *newResult() { ++gResults; return new pg_result; }

extern "C" {

// another client that commits a transaction before the k-th command ("pgat")
static long gAtK = -1; static std::string gAtSql, gAtInfo; static int gAtDone = -1;

PGconn *PQconnectdb( const char *info )
{
  ServerLocale loc;
  pg_conn *c = new pg_conn; ++gConns; c->set = gRole;
  if ( gAtK >= 0 ) gAtInfo = info ? info : "";
  std::string s = info ? info : "";
  size_t p = s.find( "dbname=" );
  std::string path = p == std::string::npos ? "" : s.substr( p + 7 );
  if ( gFaultKind == 5 ) { ++gFired; c->bad = true; c->err = "connection to server failed: injected"; return c; }
  if ( path.empty() || sqlite3_open_v2( path.c_str(), &c->db, SQLITE_OPEN_READWRITE, "unix" ) ) { c->bad = true; c->err = "connection to server failed: no such database"; return c; }
  try
  {
    sqlite3 *db = c->db;
    sqlite3_db_config( db, SQLITE_DBCONFIG_DQS_DML, 0, nullptr );
    sqlite3_db_config( db, SQLITE_DBCONFIG_DQS_DDL, 0, nullptr );
    sqlite3_create_function( db, "st_asbinary", 1, SQLITE_UTF8, nullptr, fAsBinary, nullptr, nullptr );
    sqlite3_create_function( db, "st_aswkb", 1, SQLITE_UTF8, nullptr, fAsBinary, nullptr, nullptr );
    sqlite3_create_function( db, "st_geomfromwkb", -1, SQLITE_UTF8, nullptr, fFromWkb, nullptr, nullptr );
    sqlite3_create_function( db, "pg_geomcheck", 3, SQLITE_UTF8 | SQLITE_DETERMINISTIC, nullptr, fGeomCheck, nullptr, nullptr );
    sqlite3_create_function( db, "to_char", 2, SQLITE_UTF8, nullptr, fToChar, nullptr, nullptr );
    sqlite3_create_function( db, "pgtext", 1, SQLITE_UTF8, nullptr, fText, nullptr, nullptr );
    sqlite3_create_function( db, "pgcast", 1, SQLITE_UTF8, nullptr, fFirst, nullptr, nullptr );
    sqlite3_create_function( db, "pgbool", 1, SQLITE_UTF8, nullptr, fBool, nullptr, nullptr );
    sqlite3_create_function( db, "format_type", 2, SQLITE_UTF8, nullptr, fFirst, nullptr, nullptr );
    sqlite3_create_function( db, "pg_get_expr", 2, SQLITE_UTF8, nullptr, fFirst, nullptr, nullptr );
    sqlite3_create_function( db, "pg_get_serial_sequence", 2, SQLITE_UTF8, nullptr, fSerialSeq, nullptr, nullptr );
    sqlite3_create_function( db, "set_config", 3, SQLITE_UTF8, nullptr, fSetConfig, nullptr, nullptr );
    sqlite3_create_function( db, "setval", -1, SQLITE_UTF8, nullptr, fSetval, nullptr, nullptr );
    run( db, "PRAGMA synchronous=OFF" );
    run( db, gMvcc ? "PRAGMA journal_mode=WAL" : "PRAGMA journal_mode=MEMORY" );
    run( db, "BEGIN IMMEDIATE" );
    run( db, kSchema );
    run( db, "COMMIT" );
  }
  catch ( PgError &e ) { c->bad = true; c->err = e.msg; }
  return c;
}

ConnStatusType PQstatus( const PGconn *c ) { return !c || c->bad ? CONNECTION_BAD : CONNECTION_OK; }
char *PQerrorMessage( const PGconn *c ) { static char none[] = "no connection"; return c ? const_cast<char *>( c->err.c_str() ) : none; }
void PQfinish( PGconn *c ) { if ( !c ) return; --gConns; if ( c->db ) sqlite3_close_v2( c->db ); delete c; }
PGTransactionStatusType PQtransactionStatus( const PGconn *c ) { return !c || c->bad ? PQTRANS_UNKNOWN : c->tx == 0 ? PQTRANS_IDLE : c->tx == 1 ? PQTRANS_INTRANS : PQTRANS_INERROR; }
int PQserverVersion( const PGconn * ) { return 140000; }

static void lost( pg_conn *c )
{
  if ( c->tx ) ++gAborted;
  sqlite3_close_v2( c->db ); c->db = nullptr; c->bad = true; c->tx = 0; c->err = "server closed the connection unexpectedly";
}

PGresult *PQexec( PGconn *c, const char *q )
{
  if ( !c ) return nullptr;
  if ( gAtK >= 0 && gExecs == gAtK )
  {
    gAtK = -1;
    long n = gExecs;
    PGconn *k = PQconnectdb( gAtInfo.c_str() );
    PGresult *r = PQexec( k, gAtSql.c_str() );
    gAtDone = PQresultStatus( r ) == PGRES_COMMAND_OK || PQresultStatus( r ) == PGRES_TUPLES_OK;
    if ( !gAtDone && !strstr( PQresultErrorMessage( r ), "locked" ) && !strstr( PQresultErrorMessage( r ), "no connection" ) ) { fprintf( stderr, "pgat: %s\n", PQresultErrorMessage( r ) ); abort(); }
    PQclear( r ); PQfinish( k );
    gExecs = n;
  }
  ServerLocale loc;
  struct Cur { Cur( const Settings *x ) { gCur = x; } ~Cur() { gCur = nullptr; } } cur( &c->set );
  if ( c->bad ) { pg_result *r = newResult(); r->st = PGRES_FATAL_ERROR; r->err = "no connection to the server"; return r; }
  long k = gExecs++;
  if ( gLogOn && gLog.size() < 100000 ) gLog.push_back( q );
  bool commit = !strncasecmp( q, "COMMIT", 6 ) || !strncasecmp( q, "END", 3 );
  if ( gFaultK >= 0 && k == gFaultK )
  {
    ++gFired;
    if ( gFaultKind == 1 )
    {
      if ( c->tx && commit ) { run( c->db, "ROLLBACK" ); c->tx = 0; ++gAborted; }
      else if ( c->tx ) c->tx = 2;
      pg_result *r = newResult(); r->st = PGRES_FATAL_ERROR; r->err = "ERROR:  injected"; c->err = r->err; return r;
    }
    if ( gFaultKind == 2 ) { lost( c ); pg_result *r = newResult(); r->st = PGRES_FATAL_ERROR; r->err = c->err; return r; }
    if ( gFaultKind == 3 ) { lost( c ); return nullptr; }
    if ( gFaultKind == 4 ) { if ( c->tx ) c->tx = 2; c->err = "out of memory"; return nullptr; }
  }
  pg_result *r = newResult();
  bool implicit = false;
  try
  {
    std::vector<Tok> t = lex( c->set.latin1 ? fromLatin1( q ) : std::string( q ) );
    std::vector<std::vector<Tok>> parts( 1 ); 
    for ( Tok &x : t ) { if ( x.k == Op && x.s == ";" ) parts.push_back( std::vector<Tok>() ); else parts.back().push_back( x ); }
    parts.erase( std::remove_if( parts.begin(), parts.end(), []( const std::vector<Tok> &p ) { return p.empty(); } ), parts.end() );
    if ( parts.empty() ) { r->st = PGRES_EMPTY_QUERY; return r; }
    sqlite3_exec( c->db, ++gFlip % 2 ? "PRAGMA reverse_unordered_selects=1" : "PRAGMA reverse_unordered_selects=0", nullptr, nullptr, nullptr );
    std::string first = parts[0][0].s;
    if ( !c->tx && first != "begin" && first != "start" && first != "commit" && first != "rollback" && first != "end" && first != "abort" ) { run( c->db, gMvcc && parts.size() == 1 && reads( parts[0] ) ? "BEGIN" : "BEGIN IMMEDIATE" ); implicit = true; }
    for ( auto &p : parts ) statement( c, p, r );
    if ( c->set.latin1 ) for ( auto &row : r->rows ) for ( auto &v : row ) v.second = toLatin1( v.second );
    if ( implicit ) run( c->db, "COMMIT" );
  }
  catch ( PgError &e )
  {
    if ( implicit ) sqlite3_exec( c->db, "ROLLBACK", nullptr, nullptr, nullptr );
    else if ( c->tx ) c->tx = 2;
    if ( !gMvcc && sqlite3_get_autocommit( c->db ) && c->tx ) run( c->db, "BEGIN IMMEDIATE" );   // SQLite rolled back on its own
    r->st = PGRES_FATAL_ERROR; r->err = "ERROR:  " + e.msg; r->rows.clear(); r->tuples.clear(); c->err = r->err;
  }
  return r;
}

ExecStatusType PQresultStatus( const PGresult *r ) { return r ? r->st : PGRES_FATAL_ERROR; }
char *PQresStatus( ExecStatusType ) { static char s[] = "status"; return s; }
char *PQresultErrorMessage( const PGresult *r ) { static char none[] = ""; return r ? const_cast<char *>( r->err.c_str() ) : none; }
void PQclear( PGresult *r ) { if ( r ) { --gResults; delete r; } }
int PQntuples( const PGresult *r ) { return r ? ( int )r->rows.size() : 0; }
int PQnfields( const PGresult *r ) { return r ? ( int )r->names.size() : 0; }
char *PQfname( const PGresult *r, int i ) { return const_cast<char *>( r->names[i].c_str() ); }
char *PQcmdTuples( PGresult *r ) { static char none[] = ""; return r ? const_cast<char *>( r->tuples.c_str() ) : none; }
char *PQcmdStatus( PGresult *r ) { static char none[] = ""; return r ? const_cast<char *>( r->tag.c_str() ) : none; }
char *PQgetvalue( const PGresult *r, int row, int col )
{
  if ( !r || row < 0 || row >= ( int )r->rows.size() || col < 0 || col >= ( int )r->rows[row].size() ) return nullptr;
  return const_cast<char *>( r->rows[row][col].second.c_str() );
}
int PQgetlength( const PGresult *r, int row, int col ) { return r && row < ( int )r->rows.size() ? ( int )r->rows[row][col].second.size() : 0; }
int PQgetisnull( const PGresult *r, int row, int col )
{
  if ( !r || row < 0 || row >= ( int )r->rows.size() || col < 0 || col >= ( int )r->rows[row].size() ) return 1;
  return r->rows[row][col].first;
}
char *PQescapeIdentifier( PGconn *, const char *s, size_t n ) { ServerLocale loc; std::string o = "\""; for ( size_t i = 0; i < n && s[i]; ++i ) { if ( s[i] == '"' ) o += '"'; o += s[i]; } o += '"'; return strdup( o.c_str() ); }
char *PQescapeLiteral( PGconn *, const char *s, size_t n ) { ServerLocale loc; std::string o = "'"; bool e = false; for ( size_t i = 0; i < n && s[i]; ++i ) { if ( s[i] == '\'' ) o += '\''; if ( s[i] == '\\' ) { o += '\\'; e = true; } o += s[i]; } o += '\''; return strdup( ( e ? " E" + o : o ).c_str() ); }
int PQsetClientEncoding( PGconn *c, const char *e ) { return c && setting( c->set, "client_encoding", e ? e : "" ) ? 0 : -1; }
int PQclientEncoding( const PGconn *c ) { return c && c->set.latin1 ? 8 : 6; }
const char *PQparameterStatus( const PGconn *c, const char *n ) { if ( !c ) return nullptr; std::string s = n; if ( s == "client_encoding" ) return c->set.latin1 ? "LATIN1" : "UTF8"; if ( s == "standard_conforming_strings" ) return c->set.backslash ? "off" : "on"; if ( s == "server_version" ) return "14.0"; return nullptr; }
void PQfreemem( void *p ) { free( p ); }
typedef void ( *Notice )( void *, const char * );
PQnoticeProcessor PQsetNoticeProcessor( PGconn *, PQnoticeProcessor, void * ) { return nullptr; }

// ------------------------------------------------------------------ what the driver process asks for
static std::string js( const std::string &s ) { return "\"" + hexs( s ) + "\""; }

const char *pgemu_command( const char *cmd, const char **a, int n )
{
  static std::string out;
  ServerLocale loc;
  std::string c = cmd;
  if ( c == "pgexec" )
  {
    Settings role = gRole; gRole = Settings();
    PGconn *k = PQconnectdb( a[0] );
    gRole = role;
    PGresult *r = PQexec( k, a[1] );
    --gExecs;
    out = "{\"ok\":" + std::string( r && ( r->st == PGRES_COMMAND_OK || r->st == PGRES_TUPLES_OK ) ? "1" : "0" ) + ",\"err\":" + js( r ? r->err : k->err ) + ",\"tuples\":" + js( r ? r->tuples : "" ) + ",\"rows\":[";
    if ( r ) for ( size_t i = 0; i < r->rows.size(); ++i )
      {
        out += i ? ",[" : "[";
        for ( size_t j = 0; j < r->rows[i].size(); ++j ) { if ( j ) out += ","; out += r->rows[i][j].first ? "null" : js( r->rows[i][j].second ); }
        out += "]";
      }
    out += "]}";
    PQclear( r ); PQfinish( k );
    return out.c_str();
  }
  if ( c == "pgfault" ) { gFaultK = atol( a[0] ); gFaultKind = atoi( a[1] ); gExecs = 0; gFired = 0; gAborted = 0; return "{}"; }
  if ( c == "pgmvcc" ) { gMvcc = !strcmp( a[0], "1" ); return "{}"; }
  if ( c == "pgat" ) { gAtK = atol( a[0] ); gAtSql = n > 1 ? a[1] : ""; gAtDone = -1; gExecs = 0; return "{}"; }
  if ( c == "pgatdone" ) { gAtK = -1; out = "{\"done\":" + std::to_string( gAtDone ) + "}"; return out.c_str(); }
  if ( c == "pgset" ) { bool ok = n >= 2 && setting( gRole, a[0], a[1] ); return ok ? "{}" : "{\"error\":\"setting\"}"; }
  if ( c == "pgreset" ) { gRole = Settings(); gFlip = 0; return "{}"; }
  if ( c == "pglog" ) { gLogOn = !strcmp( a[0], "1" ); gLog.clear(); return "{}"; }
  if ( c == "pgstat" )
  {
    out = "{\"conns\":" + std::to_string( gConns ) + ",\"results\":" + std::to_string( gResults ) + ",\"execs\":" + std::to_string( gExecs ) + ",\"fired\":" + std::to_string( gFired ) + ",\"aborted\":" + std::to_string( gAborted ) + ",\"log\":[";
    for ( size_t i = 0; i < gLog.size(); ++i ) { if ( i ) out += ","; out += js( gLog[i] ); }
    out += "]}";
    return out.c_str();
  }
  ( void )n;
  return nullptr;
}
}
