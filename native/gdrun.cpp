// Driver process: runs real geodiff API calls on request and reports return codes, log events,
// file operations seen below SQLite, descriptors and allocations. One command per line on stdin:
//   <cmd> <arg> ...      each argument is N (null pointer) or h<hex bytes>
// one JSON line per command on the original stdout.
#include "geodiff.h"
#include <sqlite3.h>
#include <gpkg.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <malloc.h>
#include <execinfo.h>
#include <map>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <locale.h>
#include <locale>
#include <string>
#include <vector>
#include <atomic>
#include <iostream>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAS_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define HAS_ASAN 1
#endif
#ifdef HAS_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks( void ( * )( const volatile void *, size_t ), void ( * )( const volatile void * ) );
#endif

//! commands of the libpq stand-in, when it is linked in
extern "C" __attribute__( ( weak ) ) const char *pgemu_command( const char *cmd, const char **args, int n );

//! failing operator new, when it is linked in
extern "C" __attribute__( ( weak ) ) void newfail_set( long k, int sticky, long big );
extern "C" __attribute__( ( weak ) ) void newfail_arm( int on );
extern "C" __attribute__( ( weak ) ) void newfail_pause( int d );
extern "C" __attribute__( ( weak ) ) long newfail_seen();
extern "C" __attribute__( ( weak ) ) long newfail_fired();
struct NoNewFail { NoNewFail() { if ( newfail_pause ) newfail_pause( 1 ); } ~NoNewFail() { if ( newfail_pause ) newfail_pause( -1 ); } };

static int gOut = 1;
static FILE *gIn = nullptr;
static std::atomic<long> gLive( 0 );
static void onMalloc( const volatile void *p, size_t ) { if ( p ) ++gLive; }
static void onFree( const volatile void *p ) { if ( p ) --gLive; }

// ---------------------------------------------------------------- log capture
struct LogRec { int level; std::string msg; };
static std::vector<LogRec> *gLog = new std::vector<LogRec>;
static size_t gLogBytes = 0;
static size_t gLogTotal = 0;
static bool gQuietCapture = false;
static void capture( GEODIFF_LoggerLevel level, const char *msg )
{
  NoNewFail guard;
  ++gLogTotal;
  if ( gLogBytes > 200000 ) return;
  std::string m( msg ? msg : "<null>" );
  if ( m.size() > 4000 ) m.resize( 4000 );
  gLogBytes += m.size();
  gLog->push_back( LogRec{( int )level, m} );
}

// ---------------------------------------------------------------- where in the library a fault would hit
// the kind of event that is recorded ('m' SQLite allocation, 'v' file operation, 'n' operator new, 'f' fread), 0: none
static std::atomic<char> gSiteKind( 0 );
static uint64_t *gSites = nullptr;
static size_t gSiteCount = 0, gSiteAlloc = 0;
extern "C" char __executable_start, etext;
extern "C" void site_record( char kind )
{
  if ( kind != gSiteKind ) return;
  gSiteKind = 0;
  void *f[100];
  int n = backtrace( f, 100 );
  uint64_t h = 1469598103934665603ULL;
  for ( int i = 0; i < n; ++i )
    if ( ( char * )f[i] >= &__executable_start && ( char * )f[i] < &etext ) h = ( h ^ ( uint64_t )( ( char * )f[i] - &__executable_start ) ) * 1099511628211ULL;
  if ( gSiteCount == gSiteAlloc ) { gSiteAlloc = gSiteAlloc * 2 + 1000; gSites = ( uint64_t * )realloc( gSites, gSiteAlloc * sizeof *gSites ); }
  gSites[gSiteCount++] = h;
  gSiteKind = kind;
}

// ---------------------------------------------------------------- exact-size sqlite allocator
static std::atomic<long> gMemSeen( 0 ), gMemFired( 0 );
static long gMemK = -1;            // allocation that fails, -1: none
static bool gMemSticky = false;
static bool memFails()
{
  long i = gMemSeen++;
  site_record( 'm' );
  if ( gMemK < 0 || ( gMemSticky ? i < gMemK : i != gMemK ) ) return false;
  ++gMemFired;
  return true;
}
static void *mMalloc( int n ) { return memFails() ? nullptr : malloc( n ); }
static void mFree( void *p ) { free( p ); }
static void *mRealloc( void *p, int n ) { return memFails() ? nullptr : realloc( p, n ); }
static int mSize( void *p ) { return p ? ( int )malloc_usable_size( p ) : 0; }
static int mRoundup( int n ) { return n; }
static int mInit( void * ) { return SQLITE_OK; }
static void mShutdown( void * ) {}

// ---------------------------------------------------------------- reads of plain files (changesets)
static long gFreadSeen = 0, gFreadK = -1;
extern "C" size_t __real_fread( void *p, size_t size, size_t n, FILE *f );
extern "C" size_t __wrap_fread( void *p, size_t size, size_t n, FILE *f );
size_t __wrap_fread( void *p, size_t size, size_t n, FILE *f )
{
  site_record( 'f' );
  if ( gFreadSeen++ == gFreadK ) return __real_fread( p, 1, size * n / 2, f ) / ( size ? size : 1 );
  return __real_fread( p, size, n, f );
}

// ---------------------------------------------------------------- observing / fault injecting VFS
enum { OP_READ = 1, OP_WRITE = 2, OP_TRUNC = 4, OP_SYNC = 8, OP_DELETE = 16, OP_OPEN = 32, OP_SIZE = 64, OP_LOCK = 128, OP_STMT = 256, OP_ROW = 512 };
enum { M_OFF = 0, M_FAIL = 1, M_KILL = 2, M_PAUSE = 3 };
struct VfsCtl
{
  int mode = M_OFF; int mask = 0; long k = -1; bool sticky = false; int code = 0; bool torn = false;
  long seen = 0; bool fired = false;
  std::string only;       // substring of the file name, empty = all files
  long n[10] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
  int trace = -1;
};
static VfsCtl gV;
static sqlite3_vfs *gReal = nullptr;

static int idx( int op ) { int i = 0; while ( op > 1 ) { op >>= 1; ++i; } return i; }

static void put( int fd, const void *p, size_t n ) { const char *c = ( const char * )p; while ( n ) { ssize_t w = write( fd, c, n ); if ( w <= 0 ) return; c += w; n -= w; } }

static void reply( const std::string &s ) { std::string t = s + "\n"; put( gOut, t.data(), t.size() ); }

// returns 0: proceed, 1: fail this operation, 2: killed after torn write wanted
static int gate( int op, const char *name )
{
  ++gV.n[idx( op )];
  if ( gV.mode == M_OFF || !( gV.mask & op ) ) return 0;
  if ( !gV.only.empty() && !( name && strstr( name, gV.only.c_str() ) ) ) return 0;
  long i = gV.seen++;
  site_record( 'v' );
  if ( i == gV.k || ( gV.sticky && gV.k >= 0 && i > gV.k ) )
  {
    gV.fired = true;
    if ( gV.mode == M_FAIL ) return 1;
    if ( gV.mode == M_KILL ) return 2;
    if ( gV.mode == M_PAUSE )
    {
      reply( "{\"paused\":1}" );
      char b[64];
      if ( !fgets( b, sizeof b, gIn ) ) _exit( 3 );
    }
  }
  return 0;
}

struct TFile { sqlite3_file base; std::string *name; sqlite3_file *real; };

static void trace( char kind, TFile *f, const char *name, sqlite3_int64 off, const void *data, long n )
{
  if ( gV.trace < 0 ) return;
  NoNewFail guard;
  std::string nm = name ? name : ( f && f->name ? *f->name : "" );
  char h[64];
  int l = snprintf( h, sizeof h, "%c %zu %lld %ld\n", kind, nm.size(), ( long long )off, n );
  std::string rec( h, l );
  rec += nm;
  if ( data && n > 0 ) rec.append( ( const char * )data, n );
  put( gV.trace, rec.data(), rec.size() );
}
#define R(f) (((TFile*)(f))->real)
#define NM(f) (((TFile*)(f))->name->c_str())

static int xClose( sqlite3_file *f ) { TFile *t = ( TFile * )f; int rc = SQLITE_OK; if ( t->real->pMethods ) rc = t->real->pMethods->xClose( t->real ); sqlite3_free( t->real ); delete t->name; t->real = nullptr; t->name = nullptr; return rc; }
static int xRead( sqlite3_file *f, void *p, int n, sqlite3_int64 o ) { if ( gate( OP_READ, NM( f ) ) ) return gV.code ? gV.code : SQLITE_IOERR_READ; return R( f )->pMethods->xRead( R( f ), p, n, o ); }
static int xWrite( sqlite3_file *f, const void *p, int n, sqlite3_int64 o )
{
  int g = gate( OP_WRITE, NM( f ) );
  if ( g == 2 ) { if ( gV.torn ) R( f )->pMethods->xWrite( R( f ), p, n / 2, o ); _exit( 77 ); }
  if ( g == 1 ) return gV.code ? gV.code : SQLITE_IOERR_WRITE;
  trace( 'W', ( TFile * )f, nullptr, o, p, n );
  return R( f )->pMethods->xWrite( R( f ), p, n, o );
}
static int xTruncate( sqlite3_file *f, sqlite3_int64 s )
{
  int g = gate( OP_TRUNC, NM( f ) );
  if ( g == 2 ) _exit( 77 );
  if ( g == 1 ) return SQLITE_IOERR_TRUNCATE;
  trace( 'T', ( TFile * )f, nullptr, s, nullptr, 0 );
  return R( f )->pMethods->xTruncate( R( f ), s );
}
static int xSync( sqlite3_file *f, int fl )
{
  int g = gate( OP_SYNC, NM( f ) );
  if ( g == 2 ) _exit( 77 );
  if ( g == 1 ) return SQLITE_IOERR_FSYNC;
  trace( 'S', ( TFile * )f, nullptr, 0, nullptr, 0 );
  return SQLITE_OK;   // the scratch directory is memory backed: the order is what matters
}
static int xFileSize( sqlite3_file *f, sqlite3_int64 *s ) { if ( gate( OP_SIZE, NM( f ) ) == 1 ) return SQLITE_IOERR_FSTAT; return R( f )->pMethods->xFileSize( R( f ), s ); }
static int xLock( sqlite3_file *f, int l ) { if ( gate( OP_LOCK, NM( f ) ) == 1 ) return gV.code ? gV.code : SQLITE_BUSY; return R( f )->pMethods->xLock( R( f ), l ); }
static int xUnlock( sqlite3_file *f, int l ) { return R( f )->pMethods->xUnlock( R( f ), l ); }
static int xCheck( sqlite3_file *f, int *o ) { return R( f )->pMethods->xCheckReservedLock( R( f ), o ); }
static int xControl( sqlite3_file *f, int op, void *a ) { return R( f )->pMethods->xFileControl( R( f ), op, a ); }
static int xSector( sqlite3_file *f ) { return R( f )->pMethods->xSectorSize( R( f ) ); }
static int xDevChar( sqlite3_file *f ) { return R( f )->pMethods->xDeviceCharacteristics( R( f ) ) & ~SQLITE_IOCAP_BATCH_ATOMIC; }
static int xShmMap( sqlite3_file *f, int a, int b, int c, void volatile **d ) { return R( f )->pMethods->xShmMap( R( f ), a, b, c, d ); }
static int xShmLock( sqlite3_file *f, int a, int b, int c ) { return R( f )->pMethods->xShmLock( R( f ), a, b, c ); }
static void xShmBarrier( sqlite3_file *f ) { R( f )->pMethods->xShmBarrier( R( f ) ); }
static int xShmUnmap( sqlite3_file *f, int a ) { return R( f )->pMethods->xShmUnmap( R( f ), a ); }

static sqlite3_io_methods gIo = { 2, xClose, xRead, xWrite, xTruncate, xSync, xFileSize, xLock, xUnlock, xCheck, xControl, xSector, xDevChar,
                                  xShmMap, xShmLock, xShmBarrier, xShmUnmap, nullptr, nullptr
                                };

static int vOpen( sqlite3_vfs *, const char *name, sqlite3_file *f, int flags, int *out )
{
  NoNewFail guard;
  f->pMethods = nullptr;
  if ( gate( OP_OPEN, name ) == 1 ) return SQLITE_CANTOPEN;
  TFile *t = ( TFile * )f;
  t->real = ( sqlite3_file * )sqlite3_malloc( gReal->szOsFile );
  if ( !t->real ) return SQLITE_NOMEM;
  memset( t->real, 0, gReal->szOsFile );
  int rc = gReal->xOpen( gReal, name, t->real, flags, out );
  if ( rc != SQLITE_OK ) { sqlite3_free( t->real ); return rc; }
  t->name = new std::string( name ? name : "" );
  trace( 'O', t, nullptr, 0, nullptr, 0 );
  f->pMethods = &gIo;
  return SQLITE_OK;
}
static int vDelete( sqlite3_vfs *, const char *name, int d )
{
  int g = gate( OP_DELETE, name );
  if ( g == 2 ) _exit( 77 );
  if ( g == 1 ) return SQLITE_IOERR_DELETE;
  trace( 'D', nullptr, name, 0, nullptr, 0 );
  return gReal->xDelete( gReal, name, 0 );
}
static int vAccess( sqlite3_vfs *, const char *n, int f, int *o ) { return gReal->xAccess( gReal, n, f, o ); }
static int vFull( sqlite3_vfs *, const char *n, int s, char *o ) { return gReal->xFullPathname( gReal, n, s, o ); }
static sqlite3_vfs gVfs;

// statements and rows of all connections pass the gate too (after "stmts 1")
static int onTrace( unsigned kind, void *db, void *, void *sql )
{
  const char *z = ( const char * )sql;
  if ( kind == SQLITE_TRACE_STMT && !( z && z[0] == '-' ) ) gate( OP_STMT, sqlite3_db_filename( ( sqlite3 * )db, "main" ) );
  if ( kind == SQLITE_TRACE_ROW ) gate( OP_ROW, sqlite3_db_filename( ( sqlite3 * )db, "main" ) );
  return 0;
}
static int traceConnection( sqlite3 *db, char **, const struct sqlite3_api_routines * ) { sqlite3_trace_v2( db, SQLITE_TRACE_STMT | SQLITE_TRACE_ROW, onTrace, db ); return SQLITE_OK; }

static void installVfs()
{
  sqlite3_initialize();
  gReal = sqlite3_vfs_find( nullptr );
  gVfs = *gReal;
  gVfs.pNext = nullptr;
  gVfs.zName = "observed";
  gVfs.szOsFile = sizeof( TFile );
  gVfs.xOpen = vOpen; gVfs.xDelete = vDelete; gVfs.xAccess = vAccess; gVfs.xFullPathname = vFull;
  gVfs.pAppData = nullptr;
  sqlite3_vfs_register( &gVfs, 1 );
}

// ---------------------------------------------------------------- commands
static std::string hex( const std::string &s ) { static const char *d = "0123456789abcdef"; std::string o; for ( unsigned char c : s ) { o += d[c >> 4]; o += d[c & 15]; } return o; }
static int nib( char c ) { return c <= '9' ? c - '0' : c - 'a' + 10; }

struct Arg { bool null; std::string s; const char *c() const { return null ? nullptr : s.c_str(); } };

static long countFds()
{
  DIR *d = opendir( "/proc/self/fd" );
  long n = 0;
  while ( d && readdir( d ) ) ++n;
  if ( d ) closedir( d );
  return n;
}

static std::string vfsJson()
{
  std::string s = "{\"seen\":" + std::to_string( gV.seen ) + ",\"fired\":" + ( gV.fired ? "true" : "false" ) + ",\"n\":[";
  for ( int i = 0; i < 10; ++i ) s += ( i ? "," : "" ) + std::to_string( gV.n[i] );
  return s + "],\"mem\":" + std::to_string( gMemSeen.load() ) + ",\"memfired\":" + std::to_string( gMemFired.load() ) + ",\"fread\":" + std::to_string( gFreadSeen ) + ( newfail_seen ? ",\"new\":" + std::to_string( newfail_seen() ) + ",\"newfired\":" + std::to_string( newfail_fired() ) : std::string() ) + "}";
}

static int callApi2( const std::string &fn, const std::vector<Arg> &a, bool &known )
{
  known = true;
  auto A = [&]( size_t i ) -> const char * { static const char *missing = nullptr; return i < a.size() ? a[i].c() : missing; };
  if ( fn == "createChangeset" ) return GEODIFF_createChangeset( A( 0 ), A( 1 ), A( 2 ) );
  if ( fn == "createChangesetEx" ) return GEODIFF_createChangesetEx( A( 0 ), A( 1 ), A( 2 ), A( 3 ), A( 4 ) );
  if ( fn == "invertChangeset" ) return GEODIFF_invertChangeset( A( 0 ), A( 1 ) );
  if ( fn == "applyChangeset" ) return GEODIFF_applyChangeset( A( 0 ), A( 1 ) );
  if ( fn == "applyChangesetEx" ) return GEODIFF_applyChangesetEx( A( 0 ), A( 1 ), A( 2 ), A( 3 ) );
  if ( fn == "createRebasedChangeset" ) return GEODIFF_createRebasedChangeset( A( 0 ), A( 1 ), A( 2 ), A( 3 ), A( 4 ) );
  if ( fn == "createRebasedChangesetEx" ) return GEODIFF_createRebasedChangesetEx( A( 0 ), A( 1 ), A( 2 ), A( 3 ), A( 4 ), A( 5 ), A( 6 ) );
  if ( fn == "rebase" ) return GEODIFF_rebase( A( 0 ), A( 1 ), A( 2 ), A( 3 ) );
  if ( fn == "rebaseEx" ) return GEODIFF_rebaseEx( A( 0 ), A( 1 ), A( 2 ), A( 3 ), A( 4 ), A( 5 ) );
  if ( fn == "hasChanges" ) return GEODIFF_hasChanges( A( 0 ) );
  if ( fn == "changesCount" ) return GEODIFF_changesCount( A( 0 ) );
  if ( fn == "listChanges" ) return GEODIFF_listChanges( A( 0 ), A( 1 ) );
  if ( fn == "listChangesSummary" ) return GEODIFF_listChangesSummary( A( 0 ), A( 1 ) );
  if ( fn == "makeCopy" ) return GEODIFF_makeCopy( A( 0 ), A( 1 ), A( 2 ), A( 3 ), A( 4 ), A( 5 ) );
  if ( fn == "dumpData" ) return GEODIFF_dumpData( A( 0 ), A( 1 ), A( 2 ), A( 3 ) );
  known = false;
  return -99;
}

//! an exception that leaves the C interface would end a program written in C: -77
static int callApi( const std::string &fn, const std::vector<Arg> &a, bool &known )
{
  known = true;
  int rc;
  try { if ( newfail_arm ) newfail_arm( 1 ); rc = callApi2( fn, a, known ); }
  catch ( const std::exception &e ) { rc = -77; }
  if ( newfail_arm ) newfail_arm( 0 );
  return rc;
}

static std::string result( int rc )
{
  std::string s = "{\"rc\":" + std::to_string( rc ) + ",\"logs\":" + std::to_string( gLogTotal ) + ",\"log\":[";
  for ( size_t i = 0; i < gLog->size(); ++i )
    s += ( i ? ",[" : "[" ) + std::to_string( ( *gLog )[i].level ) + ",\"" + hex( ( *gLog )[i].msg ) + "\"]";
  return s + "],\"vfs\":" + vfsJson() + "}";
}

static void resetObs()
{
  gLog->clear(); gLogBytes = 0; gLogTotal = 0;
}

#ifdef GDRUN_EXTRA
bool extraCommand( const std::string &cmd, const std::vector<std::string> &args, std::string &out );
#endif

int main( int argc, char ** )
{
  prctl( PR_SET_PDEATHSIG, SIGKILL );
  signal( SIGPIPE, SIG_IGN );
  signal( SIGXFSZ, SIG_IGN );
  gOut = fcntl( 1, F_DUPFD_CLOEXEC, 200 );
  dup2( 2, 1 );
  gIn = stdin;
  static const sqlite3_mem_methods mm = { mMalloc, mFree, mRealloc, mSize, mRoundup, mInit, mShutdown, nullptr };
  sqlite3_config( SQLITE_CONFIG_MALLOC, &mm );
  GEODIFF_init();
  installVfs();
  if ( !getenv( "GDRUN_DEFAULT_LOG" ) )     // otherwise: what a program sees that configures nothing
  {
    GEODIFF_setLoggerCallback( capture );
    GEODIFF_setMaximumLoggerLevel( LevelDebug );
  }
#ifdef HAS_ASAN
  __sanitizer_install_malloc_and_free_hooks( onMalloc, onFree );
#endif
  ( void )argc;
  char *line = nullptr;
  size_t cap = 0;
  ssize_t len;
  while ( ( len = getline( &line, &cap, gIn ) ) > 0 )
  {
    std::vector<std::string> tok;
    std::string cur;
    for ( ssize_t i = 0; i < len; ++i )
    {
      char c = line[i];
      if ( c == ' ' || c == '\n' ) { if ( !cur.empty() ) tok.push_back( cur ); cur.clear(); }
      else cur += c;
    }
    if ( tok.empty() ) continue;
    std::string cmd = tok[0];
    std::vector<Arg> args;
    for ( size_t i = 1; i < tok.size(); ++i )
    {
      Arg a; a.null = tok[i][0] == 'N';
      if ( !a.null ) for ( size_t j = 1; j + 1 < tok[i].size(); j += 2 ) a.s += ( char )( nib( tok[i][j] ) * 16 + nib( tok[i][j + 1] ) );
      args.push_back( a );
    }
    auto S = [&]( size_t i ) { return i < args.size() ? args[i].s : std::string(); };
    if ( cmd == "call" || cmd == "fork" )
    {
      std::string fn = S( 0 );
      std::vector<Arg> rest( args.begin() + 1, args.end() );
      resetObs();
      if ( cmd == "fork" )
      {
        fflush( stderr );
        pid_t p = fork();
        if ( p == 0 )
        {
          gV.seen = 0; gV.fired = false;
          bool known; int rc = callApi( fn, rest, known );
          reply( result( rc ) );
          _exit( 0 );
        }
        int st = 0;
        waitpid( p, &st, 0 );
        if ( WIFSIGNALED( st ) ) reply( "{\"died\":\"signal\",\"status\":" + std::to_string( WTERMSIG( st ) ) + "}" );
        else if ( WEXITSTATUS( st ) != 0 ) reply( "{\"died\":\"exit\",\"status\":" + std::to_string( WEXITSTATUS( st ) ) + "}" );
        continue;
      }
      bool known;
      int rc = callApi( fn, rest, known );
      if ( !known ) reply( "{\"error\":\"unknown function\"}" );
      else reply( result( rc ) );
    }
    else if ( cmd == "level" ) { GEODIFF_setMaximumLoggerLevel( ( GEODIFF_LoggerLevel )atoi( S( 0 ).c_str() ) ); reply( "{}" ); }
    else if ( cmd == "cb" ) { GEODIFF_setLoggerCallback( S( 0 ) == "null" ? nullptr : capture ); reply( "{}" ); }
    else if ( cmd == "vfs" )
    {
      // vfs mode mask k sticky code torn only
      gV.mode = atoi( S( 0 ).c_str() ); gV.mask = atoi( S( 1 ).c_str() ); gV.k = atol( S( 2 ).c_str() );
      gV.sticky = atoi( S( 3 ).c_str() ); gV.code = atoi( S( 4 ).c_str() ); gV.torn = atoi( S( 5 ).c_str() ); gV.only = S( 6 );
      gV.seen = 0; gV.fired = false;
      for ( long &x : gV.n ) x = 0;
      reply( "{}" );
    }
    else if ( cmd == "mem" ) { gMemK = atol( S( 0 ).c_str() ); gMemSticky = S( 1 ) == "1"; gMemSeen = 0; gMemFired = 0; reply( "{}" ); }
    else if ( cmd == "new" ) { if ( newfail_set ) newfail_set( atol( S( 0 ).c_str() ), S( 1 ) == "1", atol( S( 2 ).c_str() ) ); reply( newfail_set ? "{}" : "{\"error\":\"not linked\"}" ); }
    else if ( cmd == "sites" )
    {
      // "sites kind" starts recording, "sites" ends it and gives the events' places as small numbers
      gSiteKind = 0;
      std::map<uint64_t, size_t> num;
      std::string out = "{\"sites\":[";
      for ( size_t j = 0; j < gSiteCount; ++j ) { size_t v = num.emplace( gSites[j], num.size() ).first->second; out += ( j ? "," : "" ) + std::to_string( v ); }
      gSiteCount = 0;
      if ( !S( 0 ).empty() ) gSiteKind = S( 0 )[0];
      reply( out + "]}" );
    }
    else if ( cmd == "fread" ) { gFreadK = atol( S( 0 ).c_str() ); gFreadSeen = 0; reply( "{}" ); }
    else if ( cmd == "stmts" )
    {
      if ( S( 0 ) == "1" ) sqlite3_auto_extension( ( void ( * )( void ) )traceConnection );
      else sqlite3_cancel_auto_extension( ( void ( * )( void ) )traceConnection );
      reply( "{}" );
    }
    else if ( cmd == "trace" )
    {
      if ( gV.trace >= 0 ) { close( gV.trace ); gV.trace = -1; }
      if ( !S( 0 ).empty() ) gV.trace = open( S( 0 ).c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0600 );
      reply( "{}" );
    }
    else if ( cmd == "fsize" )
    {
      struct rlimit rl; getrlimit( RLIMIT_FSIZE, &rl );
      rl.rlim_cur = S( 0 ) == "-1" ? rl.rlim_max : ( rlim_t )atoll( S( 0 ).c_str() );
      setrlimit( RLIMIT_FSIZE, &rl );
      reply( "{}" );
    }
    else if ( cmd == "env" ) { if ( args.size() > 1 && !args[1].null ) setenv( S( 0 ).c_str(), S( 1 ).c_str(), 1 ); else unsetenv( S( 0 ).c_str() ); reply( "{}" ); }
    else if ( cmd == "locale" ) { const char *r = setlocale( LC_ALL, S( 0 ).c_str() ); reply( std::string( "{\"rc\":" ) + ( r ? "0" : "1" ) + "}" ); }
    else if ( cmd == "cpplocale" )
    {
      // the global locale of C++: classic, or one that groups digits, has a decimal comma and other names of the truth values
      struct Punct : std::numpunct<char>
      {
        char do_decimal_point() const override { return ','; }
        char do_thousands_sep() const override { return '.'; }
        std::string do_grouping() const override { return "\3"; }
        std::string do_truename() const override { return "wahr"; }
      };
      std::string c = setlocale( LC_ALL, nullptr );
      std::locale::global( S( 0 ) == "1" ? std::locale( std::locale::classic(), new Punct ) : std::locale::classic() );
      setlocale( LC_ALL, c.c_str() );
      reply( "{}" );
    }
    else if ( cmd == "umask" ) { umask( ( mode_t )atoi( S( 0 ).c_str() ) ); reply( "{}" ); }
    else if ( cmd == "tzset" ) { tzset(); reply( "{}" ); }
    else if ( cmd == "chdir" ) { int r = chdir( S( 0 ).c_str() ); reply( "{\"rc\":" + std::to_string( r ) + "}" ); }
    else if ( cmd == "obs" )
    {
      resetObs(); std::vector<LogRec>().swap( *gLog );
      reply( "{\"live\":" + std::to_string( gLive.load() ) + ",\"fds\":" + std::to_string( countFds() ) + ",\"sqlite\":" + std::to_string( ( long long )sqlite3_memory_used() ) + "}" );
    }
    else if ( cmd == "session_record" )
    {
      // db, sql, output file: run sql with SQLite's session extension recording, write its changeset
      sqlite3 *db = nullptr; sqlite3_session *s = nullptr; std::string err;
      int rc = sqlite3_open_v2( S( 0 ).c_str(), &db, SQLITE_OPEN_READWRITE, nullptr );
      if ( rc == SQLITE_OK ) rc = sqlite3_gpkg_auto_init( db, nullptr, nullptr );
      if ( rc == SQLITE_OK ) rc = sqlite3session_create( db, "main", &s );
      if ( rc == SQLITE_OK )
      {
        sqlite3session_table_filter( s, []( void *, const char *t ) { return strncmp( t, "rtree_", 6 ) != 0 && strncmp( t, "gpkg_ogr_contents", 17 ) != 0 ? 1 : 0; }, nullptr );
        rc = sqlite3session_attach( s, nullptr );
      }
      if ( rc == SQLITE_OK ) rc = sqlite3_exec( db, S( 1 ).c_str(), nullptr, nullptr, nullptr );
      int n = 0; void *p = nullptr;
      if ( rc == SQLITE_OK ) rc = sqlite3session_changeset( s, &n, &p );
      if ( rc != SQLITE_OK && db ) err = sqlite3_errmsg( db );
      if ( rc == SQLITE_OK )
      {
        FILE *f = fopen( S( 2 ).c_str(), "wb" );
        if ( !f || ( n && fwrite( p, 1, n, f ) != ( size_t ) n ) ) rc = 999;
        if ( f ) fclose( f );
      }
      sqlite3_free( p );
      if ( s ) sqlite3session_delete( s );
      sqlite3_close( db );
      reply( "{\"rc\":" + std::to_string( rc ) + ",\"err\":\"" + hex( err ) + "\"}" );
    }
    else if ( cmd == "session_apply" )
    {
      // db, changeset: apply with SQLite's session extension, abort at the first conflict
      sqlite3 *db = nullptr; int conflicts = 0;
      std::string data;
      FILE *f = fopen( S( 1 ).c_str(), "rb" );
      char buf[65536]; size_t n;
      while ( f && ( n = fread( buf, 1, sizeof buf, f ) ) > 0 ) data.append( buf, n );
      if ( f ) fclose( f );
      int rc = sqlite3_open_v2( S( 0 ).c_str(), &db, SQLITE_OPEN_READWRITE, nullptr );
      if ( rc == SQLITE_OK ) rc = sqlite3_gpkg_auto_init( db, nullptr, nullptr );
      if ( rc == SQLITE_OK ) rc = sqlite3changeset_apply( db, ( int ) data.size(), ( void * ) data.data(), nullptr,
        []( void *c, int, sqlite3_changeset_iter * ) -> int { ++*( int * ) c; return SQLITE_CHANGESET_ABORT; }, &conflicts );
      sqlite3_close( db );
      reply( "{\"rc\":" + std::to_string( rc ) + ",\"conflicts\":" + std::to_string( conflicts ) + "}" );
    }
    else if ( cmd == "version" ) { reply( std::string( "{\"version\":\"" ) + GEODIFF_version() + "\"}" ); }
    else if ( cmd == "ping" ) reply( "{}" );
    else if ( cmd == "quit" ) break;
    else
    {
      const char *a[8] = {"", "", "", "", "", "", "", ""};
      for ( size_t i = 0; i < args.size() && i < 8; ++i ) a[i] = args[i].s.c_str();
      const char *o = pgemu_command ? pgemu_command( cmd.c_str(), a, ( int )args.size() ) : nullptr;
      reply( o ? o : "{\"error\":\"unknown command\"}" );
    }
  }
  _exit( 0 );
}
