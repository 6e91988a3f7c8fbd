/* helpers of the harnesses: own IVF reader, own digests of pictures and decoder state */
#pragma once
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <iterator>
#include <string>
#include <vector>
#include <random>
#include <iostream>
#include <memory>
#include <typeinfo>

#include "decoder.hh"
#include "frame.hh"
#include "decoder_state.hh"
#include "player.hh"
#include "enc_state_serializer.hh"
#include "uncompressed_chunk.hh"

typedef std::vector<uint8_t> Bytes;

struct Stream { uint16_t w = 0, h = 0; std::vector<Bytes> frames; };

inline Bytes slurp( const std::string & fn )
{
  std::ifstream f( fn, std::ios::binary );
  if ( not f ) { std::cerr << "HARNESS cannot read " << fn << "\n"; exit( 90 ); }
  return Bytes( std::istreambuf_iterator<char>( f ), std::istreambuf_iterator<char>() );
}

inline uint32_t le( const Bytes & b, size_t p, int n )
{
  uint32_t r = 0;
  for ( int i = 0; i < n; i++ ) { r |= uint32_t( b.at( p + i ) ) << ( 8 * i ); }
  return r;
}

inline Stream read_stream( const std::string & fn )
{
  const Bytes b = slurp( fn );
  Stream s;
  s.w = le( b, 12, 2 ); s.h = le( b, 14, 2 );
  size_t p = 32;
  while ( p + 12 <= b.size() ) {
    size_t n = le( b, p, 4 );
    s.frames.emplace_back( b.begin() + p + 12, b.begin() + p + 12 + n );
    p += 12 + n;
  }
  return s;
}

/* frames live in exactly-sized heap blocks so that the sanitizer sees any read past the end */
inline Chunk chunk( const Bytes & b ) { return Chunk( b.data(), b.size() ); }

struct Digest
{
  uint64_t a = 1469598103934665603ULL, b = 88172645463325252ULL;
  void put( uint8_t x ) { a = ( a ^ x ) * 1099511628211ULL; b = ( b + x + 1 ) * 6364136223846793005ULL + 1442695040888963407ULL; }
  void num( uint64_t x ) { for ( int i = 0; i < 8; i++ ) { put( x >> ( 8 * i ) ); } }
  std::string str() const { char t[ 40 ]; snprintf( t, sizeof t, "%016llx%08x", (unsigned long long)a, (unsigned)( b >> 32 ) ); return t; }
};

inline void put_plane( Digest & d, const TwoD<uint8_t> & p )
{
  d.num( p.width() ); d.num( p.height() );
  for ( unsigned y = 0; y < p.height(); y++ ) { for ( unsigned x = 0; x < p.width(); x++ ) { d.put( p.at( x, y ) ); } }
}

inline std::string digest( const VP8Raster & r )
{
  Digest d; d.num( r.display_width() ); d.num( r.display_height() );
  put_plane( d, r.Y() ); put_plane( d, r.U() ); put_plane( d, r.V() );
  return d.str();
}

inline std::string digest( const DecoderState & s )
{
  Digest d;
  d.num( s.width ); d.num( s.height );
  for ( unsigned i = 0; i < BLOCK_TYPES; i++ ) for ( unsigned j = 0; j < COEF_BANDS; j++ )
    for ( unsigned k = 0; k < PREV_COEF_CONTEXTS; k++ ) for ( unsigned l = 0; l < ENTROPY_NODES; l++ )
      d.put( s.probability_tables.coeff_probs.at( i ).at( j ).at( k ).at( l ) );
  for ( unsigned i = 0; i < num_y_modes - 1; i++ ) d.put( s.probability_tables.y_mode_probs.at( i ) );
  for ( unsigned i = 0; i < num_uv_modes - 1; i++ ) d.put( s.probability_tables.uv_mode_probs.at( i ) );
  for ( unsigned i = 0; i < 2; i++ ) for ( unsigned j = 0; j < MV_PROB_CNT; j++ ) d.put( s.probability_tables.motion_vector_probs.at( i ).at( j ) );
  d.put( s.segmentation.initialized() );
  if ( s.segmentation.initialized() ) {
    const Segmentation & g = s.segmentation.get();
    d.put( g.absolute_segment_adjustments );
    for ( unsigned i = 0; i < num_segments; i++ ) { d.put( g.segment_quantizer_adjustments.at( i ) ); d.put( g.segment_filter_adjustments.at( i ) ); }
    put_plane( d, g.map );
  }
  d.put( s.filter_adjustments.initialized() );
  if ( s.filter_adjustments.initialized() ) {
    for ( unsigned i = 0; i < 4; i++ ) { d.put( s.filter_adjustments.get().loopfilter_ref_adjustments.at( i ) ); d.put( s.filter_adjustments.get().loopfilter_mode_adjustments.at( i ) ); }
  }
  return d.str();
}

struct Parts
{
  std::string state, last, golden, alt;
  std::string all() const { return state + "," + last + "," + golden + "," + alt; }
  bool coincide() const { return last == golden and last == alt; }
};

inline Parts parts( const Decoder & d )
{
  const References r = d.get_references();
  return Parts { digest( d.get_state() ), digest( r.last.get() ), digest( r.golden.get() ), digest( r.alternative.get() ) };
}

inline std::string nospace( std::string s ) { for ( auto & c : s ) { if ( c == ' ' or c == '\n' ) c = '_'; } return s; }

/* one line describing a decoder completely */
inline std::string line( const Decoder & d )
{
  return parts( d ).all() + " " + nospace( d.get_hash().str() ) + " " + std::to_string( d.minihash() );
}

inline MutableRasterHandle copy_raster( const VP8Raster & r )
{
  MutableRasterHandle m( r.display_width(), r.display_height() );
  VP8Raster & t = m.get();
  for ( unsigned y = 0; y < r.Y().height(); y++ ) for ( unsigned x = 0; x < r.Y().width(); x++ ) t.Y().at( x, y ) = r.Y().at( x, y );
  for ( unsigned y = 0; y < r.U().height(); y++ ) for ( unsigned x = 0; x < r.U().width(); x++ ) {
    t.U().at( x, y ) = r.U().at( x, y ); t.V().at( x, y ) = r.V().at( x, y );
  }
  return m;
}

/* leaves garbage in the buffers that the pool will hand out next */
inline void poison_pool( uint16_t w, uint16_t h, unsigned n, std::mt19937_64 & rng )
{
  std::vector<MutableRasterHandle> v;
  for ( unsigned i = 0; i < n; i++ ) {
    v.emplace_back( w, h );
    VP8Raster & t = v.back().get();
    const uint8_t f = rng(), g = rng() | 1;
    uint8_t k = f;
    t.Y().forall( [&]( uint8_t & x ) { x = k; k += g; } );
    t.U().forall( [&]( uint8_t & x ) { x = k; k += g; } );
    t.V().forall( [&]( uint8_t & x ) { x = k; k += g; } );
  }
}

inline size_t bounded( std::mt19937_64 & rng, size_t n ) { return n ? rng() % n : 0; }

#define VIOL( key, msg ) do { std::cout << "VIOL " << ( key ) << " " << msg << std::endl; } while ( 0 )
