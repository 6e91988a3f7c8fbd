/* shared by salsa_send.cc, salsa_recv.cc and salsa.cc: recorded events, the camera's pictures */
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <random>
#include <ctime>
#include <fcntl.h>
#include <unistd.h>
#include "raster_handle.hh"

inline int64_t wall_us() { timespec t; clock_gettime( CLOCK_REALTIME, &t ); return t.tv_sec * 1000000LL + t.tv_nsec / 1000; }

/* records: type, length, time, bytes */
struct Recorder
{
  int fd = -1;
  void open( const char * env ) { const char * p = getenv( env ); if ( p ) { fd = ::open( p, O_WRONLY | O_CREAT | O_APPEND, 0600 ); } }
  void put( const char type, const void * data, const size_t n )
  {
    if ( fd < 0 ) { return; }
    std::string r( 13 + n, type );
    const uint32_t m = n; memcpy( &r[ 1 ], &m, 4 ); const int64_t t = wall_us(); memcpy( &r[ 5 ], &t, 8 ); if ( n ) { memcpy( &r[ 13 ], data, n ); }
    if ( ::write( fd, r.data(), r.size() ) < 0 ) { _exit( 97 ); }
  }
};
struct Event { char type; std::string data; int64_t at; };
inline std::vector<Event> read_events( const std::string & path )
{
  std::vector<Event> v; std::string s;
  const int fd = ::open( path.c_str(), O_RDONLY );
  if ( fd < 0 ) { return v; }
  char b[ 65536 ]; ssize_t n;
  while ( ( n = ::read( fd, b, sizeof b ) ) > 0 ) { s.append( b, n ); }
  ::close( fd );
  for ( size_t p = 0; p + 13 <= s.size(); ) {
    uint32_t m; memcpy( &m, &s[ p + 1 ], 4 ); int64_t t; memcpy( &t, &s[ p + 5 ], 8 );
    if ( p + 13 + m > s.size() ) { break; }
    v.push_back( { s[ p ], s.substr( p + 13, m ), t } ); p += 13 + m;
  }
  return v;
}

/* what the camera sees: scenes that move, stand still, flicker and are noisy */
inline RasterHandle camera_picture( const uint64_t seed, const unsigned index, const uint16_t w, const uint16_t h )
{
  const unsigned length = seed % 3 ? 40 : 160, part = index / length;
  std::mt19937_64 scene( seed * 1000003 + part );
  const unsigned kind = scene() % 4, a = 1 + scene() % 7, b = 1 + scene() % 7, c = scene();
  const unsigned noise = kind == 1 ? 1 : 1 + scene() % 40;
  const unsigned t = kind == 0 ? index * ( 1 + scene() % 3 ) : kind == 2 ? ( index % 2 ) * 30 : 0;
  std::mt19937_64 rng( kind == 1 ? seed + part : seed * 7919 + index );
  MutableRasterHandle m( w, h );
  auto fill = [&]( TwoD<uint8_t> & p, unsigned o ) { for ( unsigned y = 0; y < p.height(); y++ ) for ( unsigned x = 0; x < p.width(); x++ ) {
    const unsigned v = ( c + o + ( x + t ) * a + ( y + t / 2 ) * b ) & 511;
    p.at( x, y ) = 20 + ( v < 256 ? v : 511 - v ) * 3 / 4 + rng() % noise; } };
  fill( m.get().Y(), 0 ); fill( m.get().U(), 90 ); fill( m.get().V(), 180 );
  return RasterHandle( std::move( m ) );
}
