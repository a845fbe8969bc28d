// Stand-in for the whole library: records each call with its arguments and returns what it is told to.
#include "geodiff.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>

static GEODIFF_LoggerCallback gCallback = nullptr;

static int rec( const char *fn, std::initializer_list<const char *> args )
{
  const char *log = getenv( "SPY_LOG" );
  if ( log )
  {
    FILE *f = fopen( log, "a" );
    fprintf( f, "%s", fn );
    for ( const char *a : args )
    {
      fprintf( f, " " );
      if ( !a )
        fprintf( f, "N" );
      else
      {
        fprintf( f, "h" );
        for ( const char *p = a; *p; p++ )
          fprintf( f, "%02x", ( unsigned char )*p );
      }
    }
    fprintf( f, "\n" );
    fclose( f );
  }
  const char *m = getenv( "SPY_EMIT" );   // <level>:<message>
  if ( m && *m && gCallback )
    gCallback( ( GEODIFF_LoggerLevel ) atoi( m ), strchr( m, ':' ) + 1 );
  const char *rc = getenv( "SPY_RC" );
  return rc ? atoi( rc ) : 0;
}

void GEODIFF_init() { rec( "init", {} ); }
void GEODIFF_setLoggerCallback( GEODIFF_LoggerCallback c ) { rec( c ? "setLoggerCallback" : "setLoggerCallbackNull", {} ); gCallback = c; }
void GEODIFF_setMaximumLoggerLevel( GEODIFF_LoggerLevel l )
{
  char b[32];
  snprintf( b, sizeof b, "%d", ( int ) l );
  rec( "setMaximumLoggerLevel", { b } );
}
const char *GEODIFF_version()
{
  const char *v = getenv( "SPY_VERSION" );
  return v ? v : "0.0";
}
int GEODIFF_createChangeset( const char *a, const char *b, const char *c ) { return rec( "createChangeset", { a, b, c } ); }
int GEODIFF_invertChangeset( const char *a, const char *b ) { return rec( "invertChangeset", { a, b } ); }
int GEODIFF_createRebasedChangeset( const char *a, const char *b, const char *c, const char *d, const char *e ) { return rec( "createRebasedChangeset", { a, b, c, d, e } ); }
int GEODIFF_rebase( const char *a, const char *b, const char *c, const char *d ) { return rec( "rebase", { a, b, c, d } ); }
int GEODIFF_applyChangeset( const char *a, const char *b ) { return rec( "applyChangeset", { a, b } ); }
int GEODIFF_hasChanges( const char *a ) { return rec( "hasChanges", { a } ); }
int GEODIFF_changesCount( const char *a ) { return rec( "changesCount", { a } ); }
int GEODIFF_listChanges( const char *a, const char *b ) { return rec( "listChanges", { a, b } ); }
int GEODIFF_listChangesSummary( const char *a, const char *b ) { return rec( "listChangesSummary", { a, b } ); }
int GEODIFF_makeCopy( const char *a, const char *b, const char *c, const char *d, const char *e, const char *f ) { return rec( "makeCopy", { a, b, c, d, e, f } ); }
int GEODIFF_createChangesetEx( const char *a, const char *b, const char *c, const char *d, const char *e ) { return rec( "createChangesetEx", { a, b, c, d, e } ); }
int GEODIFF_applyChangesetEx( const char *a, const char *b, const char *c, const char *d ) { return rec( "applyChangesetEx", { a, b, c, d } ); }
int GEODIFF_createRebasedChangesetEx( const char *a, const char *b, const char *c, const char *d, const char *e, const char *f, const char *g ) { return rec( "createRebasedChangesetEx", { a, b, c, d, e, f, g } ); }
int GEODIFF_rebaseEx( const char *a, const char *b, const char *c, const char *d, const char *e, const char *f ) { return rec( "rebaseEx", { a, b, c, d, e, f } ); }
int GEODIFF_dumpData( const char *a, const char *b, const char *c, const char *d ) { return rec( "dumpData", { a, b, c, d } ); }
