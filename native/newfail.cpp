// operator new that fails on demand inside of API calls (linked into the driver process of C27 only)
#include <stdlib.h>
#include <new>
#include <atomic>

static std::atomic<long> gSeen( 0 ), gFired( 0 );
static long gK = -1;
static bool gSticky = false;
static size_t gBig = 0;
static std::atomic<int> gArmed( 0 );
static thread_local int gPaused = 0;

extern "C" void newfail_set( long k, int sticky, long big ) { gK = k; gSticky = sticky != 0; gBig = big > 0 ? ( size_t )big : 0; }
extern "C" void newfail_arm( int on ) { if ( on ) { gSeen = 0; gFired = 0; } gArmed = on; }
extern "C" void newfail_pause( int d ) { gPaused += d; }
extern "C" long newfail_seen() { return gSeen; }
extern "C" long newfail_fired() { return gFired; }

extern "C" void site_record( char kind );

static bool fails( size_t n )
{
  if ( !gArmed || gPaused ) return false;
  if ( gBig ) { if ( n < gBig ) return false; ++gFired; return true; }
  long i = gSeen++;
  site_record( 'n' );
  if ( gK < 0 || ( gSticky ? i < gK : i != gK ) ) return false;
  ++gFired;
  return true;
}
static void *get( size_t n )
{
  void *p = fails( n ) ? nullptr : malloc( n ? n : 1 );
  if ( !p ) throw std::bad_alloc();
  return p;
}
void *operator new( size_t n ) { return get( n ); }
void *operator new[]( size_t n ) { return get( n ); }
void *operator new( size_t n, const std::nothrow_t & ) noexcept { return fails( n ) ? nullptr : malloc( n ? n : 1 ); }
void *operator new[]( size_t n, const std::nothrow_t & ) noexcept { return fails( n ) ? nullptr : malloc( n ? n : 1 ); }
void operator delete( void *p ) noexcept { free( p ); }
void operator delete[]( void *p ) noexcept { free( p ); }
void operator delete( void *p, size_t ) noexcept { free( p ); }
void operator delete[]( void *p, size_t ) noexcept { free( p ); }
void operator delete( void *p, const std::nothrow_t & ) noexcept { free( p ); }
void operator delete[]( void *p, const std::nothrow_t & ) noexcept { free( p ); }
