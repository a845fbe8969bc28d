// Runs lists of API calls, one list per thread, all threads at once.
//   threads <directory> <job file> serial|parallel <seed>
// Job lines: <thread> <function> <arg>...   each argument is N (null pointer) or h<hex bytes>; relative to the directory.
// Waits for a line on stdin, prints one JSON line: per thread, per call [return value, [[level, message], ...]].
#include "geodiff.h"
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <thread>
#include <atomic>
#include <fstream>
#include <sstream>
#include <iostream>

struct Arg { bool null; std::string s; };
struct Call { std::string fn; std::vector<Arg> a; int rc; std::string log; };
static thread_local Call *tCall = nullptr;

static std::string hex( const std::string &s ) { static const char *d = "0123456789abcdef"; std::string o; for ( unsigned char c : s ) { o += d[c >> 4]; o += d[c & 15]; } return o; }
static int nib( char c ) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static void capture( GEODIFF_LoggerLevel level, const char *msg )
{
  if ( !tCall ) return;
  tCall->log += ( tCall->log.empty() ? "[" : ",[" ) + std::to_string( ( int )level ) + ",\"" + hex( msg ) + "\"]";
}

static int callApi( const std::string &fn, const std::vector<Arg> &a )
{
  auto A = [&]( size_t i ) -> const char * { return i < a.size() && !a[i].null ? a[i].s.c_str() : nullptr; };
  if ( fn == "createChangeset" ) return GEODIFF_createChangeset( A( 0 ), A( 1 ), A( 2 ) );
  if ( fn == "createChangesetEx" ) return GEODIFF_createChangesetEx( A( 0 ), A( 1 ), A( 2 ), A( 3 ), A( 4 ) );
  if ( fn == "invertChangeset" ) return GEODIFF_invertChangeset( A( 0 ), A( 1 ) );
  if ( fn == "applyChangeset" ) return GEODIFF_applyChangeset( A( 0 ), A( 1 ) );
  if ( fn == "createRebasedChangeset" ) return GEODIFF_createRebasedChangeset( A( 0 ), A( 1 ), A( 2 ), A( 3 ), A( 4 ) );
  if ( fn == "createRebasedChangesetEx" ) return GEODIFF_createRebasedChangesetEx( A( 0 ), A( 1 ), A( 2 ), A( 3 ), A( 4 ), A( 5 ), A( 6 ) );
  if ( fn == "rebase" ) return GEODIFF_rebase( A( 0 ), A( 1 ), A( 2 ), A( 3 ) );
  if ( fn == "rebaseEx" ) return GEODIFF_rebaseEx( A( 0 ), A( 1 ), A( 2 ), A( 3 ), A( 4 ), A( 5 ) );
  if ( fn == "hasChanges" ) return GEODIFF_hasChanges( A( 0 ) );
  if ( fn == "changesCount" ) return GEODIFF_changesCount( A( 0 ) );
  if ( fn == "listChanges" ) return GEODIFF_listChanges( A( 0 ), A( 1 ) );
  if ( fn == "listChangesSummary" ) return GEODIFF_listChangesSummary( A( 0 ), A( 1 ) );
  if ( fn == "makeCopy" ) return GEODIFF_makeCopy( A( 0 ), A( 1 ), A( 2 ), A( 3 ), A( 4 ), A( 5 ) );
  if ( fn == "dumpData" ) return GEODIFF_dumpData( A( 0 ), A( 1 ), A( 2 ), A( 3 ) );
  if ( fn == "version" ) return GEODIFF_version() ? 0 : 1;
  fprintf( stderr, "unknown function %s\n", fn.c_str() );
  _exit( 99 );
}

int main( int argc, char **argv )
{
  if ( argc < 5 ) return 98;
  std::vector<std::vector<Call>> jobs;
  std::ifstream in( argv[2] );
  std::string line;
  while ( std::getline( in, line ) )
  {
    std::istringstream s( line );
    size_t t; std::string w; Call c; c.rc = -99;
    s >> t >> c.fn;
    while ( s >> w )
    {
      Arg a; a.null = w[0] == 'N';
      if ( !a.null ) for ( size_t j = 1; j + 1 < w.size(); j += 2 ) a.s += ( char )( nib( w[j] ) * 16 + nib( w[j + 1] ) );
      c.a.push_back( a );
    }
    if ( jobs.size() <= t ) jobs.resize( t + 1 );
    jobs[t].push_back( c );
  }
  if ( chdir( argv[1] ) ) return 97;
  bool parallel = !strcmp( argv[3], "parallel" );
  unsigned seed = atoi( argv[4] );
  GEODIFF_init();
  GEODIFF_setLoggerCallback( capture );
  GEODIFF_setMaximumLoggerLevel( LevelDebug );
  std::getline( std::cin, line );
  std::atomic<int> ready( 0 ), now( 0 ), most( 0 );
  auto body = [&]( size_t t )
  {
    unsigned r = seed * 1000 + ( unsigned )t;
    if ( parallel )
    {
      ++ready;
      while ( ready < ( int )jobs.size() ) std::this_thread::yield();
    }
    for ( Call &c : jobs[t] )
    {
      if ( parallel && rand_r( &r ) % 3 == 0 ) usleep( rand_r( &r ) % 500 );
      tCall = &c;
      int n = ++now, m = most;
      while ( n > m && !most.compare_exchange_weak( m, n ) ) {}
      c.rc = callApi( c.fn, c.a );
      --now;
      tCall = nullptr;
    }
  };
  if ( parallel )
  {
    std::vector<std::thread> th;
    for ( size_t t = 0; t < jobs.size(); ++t ) th.emplace_back( body, t );
    for ( std::thread &x : th ) x.join();
  }
  else
    for ( size_t t = 0; t < jobs.size(); ++t ) body( t );
  std::string out = "{\"most\":" + std::to_string( most.load() ) + ",\"r\":[";
  for ( size_t t = 0; t < jobs.size(); ++t )
  {
    out += t ? ",[" : "[";
    for ( size_t i = 0; i < jobs[t].size(); ++i ) out += ( i ? ",[" : "[" ) + std::to_string( jobs[t][i].rc ) + ",[" + jobs[t][i].log + "]]";
    out += "]";
  }
  out += "]}\n";
  fputs( out.c_str(), stdout );
  fflush( stdout );
  return 0;
}
