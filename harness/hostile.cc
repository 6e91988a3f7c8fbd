// LINK: -Wl,--wrap=mmap -Wl,--wrap=munmap
/* hostile input: mutated bitstreams, files and datagrams, each batch in a forked child.
   The parent makes the inputs (deterministic), the child runs the code under test; sanitizers, the
   exit status, a watchdog and an outcome digest are the monitors. */
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <unordered_map>
#include <sstream>
#include <jpeglib.h>
#include "vh.hh"
#include "ivf.hh"
#include "packet.hh"
#include "jpeg.hh"
#include "yuv4mpeg.hh"
#include "ivf_reader.hh"

using namespace std;

/* files are mapped into exactly-sized heap blocks, so that the sanitizer sees reads past their end */
extern "C" void * __real_mmap( void *, size_t, int, int, int, off_t );
extern "C" int __real_munmap( void *, size_t );
static set<void *> fake_maps;
static bool faking = false;
extern "C" void * __wrap_mmap( void * a, size_t n, int prot, int flags, int fd, off_t off )
{
  if ( not faking or fd < 0 or n == 0 or prot != PROT_READ ) { return __real_mmap( a, n, prot, flags, fd, off ); }
  uint8_t * p = static_cast<uint8_t *>( malloc( n ) );
  size_t got = 0;
  while ( got < n ) { ssize_t r = pread( fd, p + got, n - got, off + got ); if ( r <= 0 ) break; got += r; }
  fake_maps.insert( p );
  return p;
}
extern "C" int __wrap_munmap( void * a, size_t n )
{
  auto it = fake_maps.find( a );
  if ( it == fake_maps.end() ) { return __real_munmap( a, n ); }
  fake_maps.erase( it ); free( a );
  return 0;
}

typedef mt19937_64 Rng;
static string dir;

static Bytes mutate_bytes( Bytes b, Rng & r, size_t lo = 0 )
{
  const unsigned how = bounded( r, 12 );
  if ( b.size() <= lo and how != 8 ) { return b; }
  switch ( how ) {
  case 0: case 1: for ( unsigned k = 1 + bounded( r, 4 ); k; k-- ) b[ lo + bounded( r, b.size() - lo ) ] ^= 1 << bounded( r, 8 ); break;
  case 2: for ( unsigned k = 1 + bounded( r, 8 ); k; k-- ) b[ lo + bounded( r, b.size() - lo ) ] = r(); break;
  case 3: b.resize( bounded( r, b.size() + 1 ) ); break;
  case 4: { size_t p = lo + bounded( r, b.size() - lo ); for ( size_t k = p; k < b.size(); k++ ) b[ k ] = r(); break; }
  case 5: { size_t p = lo + bounded( r, b.size() - lo ); const uint8_t v = ( r() & 1 ) ? 0xff : 0; for ( size_t k = p; k < b.size() and k < p + 40; k++ ) b[ k ] = v; break; }
  case 6: { size_t p = bounded( r, b.size() ), n = bounded( r, min<size_t>( b.size() - p, 30 ) + 1 ); b.erase( b.begin() + p, b.begin() + p + n ); break; }
  case 7: { size_t p = bounded( r, b.size() ), n = bounded( r, min<size_t>( b.size() - p, 60 ) + 1 ); Bytes c( b.begin() + p, b.begin() + p + n ); b.insert( b.begin() + bounded( r, b.size() ), c.begin(), c.end() ); break; }
  case 8: { size_t n = bounded( r, 60 ); for ( size_t k = 0; k < n; k++ ) b.push_back( r() ); break; }
  case 9: { size_t p = lo + bounded( r, b.size() - lo ); static const uint32_t v[] = { 0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0 };
      uint32_t x = v[ bounded( r, 12 ) ]; for ( size_t k = 0; k < 4 and p + k < b.size(); k++, x >>= 8 ) b[ p + k ] = x; break; }
  case 10: { size_t p = lo + bounded( r, b.size() - lo ); int d = int( bounded( r, 9 ) ) - 4; b[ p ] += d; break; }
  default: break;
  }
  return b;
}

/* knows the layout of a VP8 frame */
static Bytes mutate_frame( Bytes b, Rng & r, uint16_t w, uint16_t h )
{
  if ( b.size() < 12 ) { return mutate_bytes( b, r ); }
  const bool key = not ( b[ 0 ] & 1 );
  const size_t off = key ? 10 : 3;
  const uint32_t tag = b[ 0 ] | b[ 1 ] << 8 | b[ 2 ] << 16;
  uint32_t len = tag >> 5;
  auto set_len = [&]( uint32_t l ) { uint32_t t = ( tag & 31 ) | ( l & 0x7ffff ) << 5; b[ 0 ] = t; b[ 1 ] = t >> 8; b[ 2 ] = t >> 16; };
  switch ( bounded( r, 14 ) ) {
  case 0: b[ 0 ] ^= 1 << bounded( r, 5 ); break;                                              /* type, version, shown */
  case 1: { static const int d[] = { -3, -1, 1, 2, 8, 100 }; set_len( len + d[ bounded( r, 6 ) ] ); break; }
  case 2: set_len( r() & 1 ? b.size() - off - bounded( r, 4 ) : bounded( r, b.size() + 4 ) ); break;
  case 3: case 4: for ( unsigned k = 1 + bounded( r, 3 ); k; k-- ) b[ min( b.size() - 1, off + bounded( r, 24 ) ) ] ^= 1 << bounded( r, 8 ); break;   /* frame header */
  case 5: case 6: if ( off + 24 < b.size() ) { for ( unsigned k = 1 + bounded( r, 6 ); k; k-- ) b[ off + 20 + bounded( r, min<size_t>( b.size() - off - 20, max<uint32_t>( len, 21 ) - 20 ) ) ] = r(); } break;
  case 7: if ( off + len < b.size() ) { for ( size_t k = off + len; k < b.size() and k < off + len + 21; k++ ) if ( bounded( r, 3 ) == 0 ) b[ k ] = ( r() & 1 ) ? r() : 0xff; } break;   /* partition sizes */
  case 8: { for ( size_t k = off; k < b.size(); k++ ) b[ k ] = r(); break; }
  case 9: b.resize( bounded( r, b.size() ) ); break;
  case 10: if ( off + len < b.size() ) { for ( size_t k = off + len + bounded( r, b.size() - off - len ); k < b.size(); k++ ) b[ k ] = ( r() & 7 ) ? 0xff : r(); } break;   /* long runs of big tokens */
  case 11: if ( key ) { b[ 3 + bounded( r, 7 ) ] ^= 1 << bounded( r, 8 ); } else { b.resize( min<size_t>( b.size(), 3 + bounded( r, 12 ) ) ); } break;
  case 12: if ( not key ) { /* make it look like a key frame of the right size */
      Bytes c( b.begin(), b.begin() + 3 ); c[ 0 ] &= ~1; const uint8_t s[] = { 0x9d, 1, 0x2a, uint8_t( w ), uint8_t( w >> 8 ), uint8_t( h ), uint8_t( h >> 8 ) };
      c.insert( c.end(), s, s + 7 ); c.insert( c.end(), b.begin() + 3, b.end() ); b = c; } break;
  default: b = mutate_bytes( b, r );
  }
  return b;
}

/* what happened, as a digest that must not depend on uninitialised memory */
struct Outcome { Digest d; map<string, unsigned> n; void put( const string & s ) { for ( char c : s ) d.put( c ); d.put( 0 ); } };

template <class F> static bool attempt( Outcome & o, const char * what, const F & f )
{
  try { f(); o.n[ string( what ) + ":accepted" ]++; o.put( "ok" ); return true; }
  catch ( const exception & e ) { o.n[ string( what ) + ":refused" ]++; o.put( string( "refused " ) + e.what() ); return false; }
}

static void use( const Decoder & d, Outcome & o ) { o.put( line( d ) ); if ( d != d ) abort(); }

/* ---- frames ---- */
struct FrameOp { unsigned dec; bool copy, ec; Bytes data; };
struct Job { string kind; uint16_t w = 0, h = 0; vector<FrameOp> ops; vector<Bytes> inputs; Stream base; };

static void dump( const Job & j, const string & fn )
{
  ofstream f( fn, ios::binary );
  f << j.kind << " " << j.w << " " << j.h << " " << j.ops.size() << " " << j.inputs.size() << " " << j.base.frames.size() << "\n";
  auto put = [&]( const Bytes & b ) { f << b.size() << "\n"; f.write( reinterpret_cast<const char *>( b.data() ), b.size() ); };
  for ( auto & o : j.ops ) { f << o.dec << " " << o.copy << " " << o.ec << "\n"; put( o.data ); }
  for ( auto & b : j.inputs ) put( b );
  for ( auto & b : j.base.frames ) put( b );
}

static Job undump( const string & fn )
{
  ifstream f( fn, ios::binary );
  Job j; size_t a, b, c; string l;
  f >> j.kind >> j.w >> j.h >> a >> b >> c; getline( f, l );
  auto get = [&]() { size_t n; f >> n; getline( f, l ); Bytes x( n ); f.read( reinterpret_cast<char *>( x.data() ), n ); return x; };
  for ( size_t i = 0; i < a; i++ ) { FrameOp o; f >> o.dec >> o.copy >> o.ec; getline( f, l ); o.data = get(); j.ops.push_back( o ); }
  for ( size_t i = 0; i < b; i++ ) j.inputs.push_back( get() );
  j.base.w = j.w; j.base.h = j.h;
  for ( size_t i = 0; i < c; i++ ) j.base.frames.push_back( get() );
  return j;
}

static void run_frames( const Job & j, Outcome & o )
{
  vector<Decoder> decs; decs.reserve( 64 );
  vector<RasterHandle> held;
  for ( const auto & op : j.ops ) {
    if ( decs.size() < 3 ) decs.emplace_back( j.w, j.h );
    Decoder & d = decs[ op.dec % decs.size() ];
    if ( op.copy ) { decs[ ( op.dec + 1 ) % decs.size() ] = d; }
    d.set_error_concealment( op.ec );
    /* every frame in its own, exactly sized block */
    unique_ptr<uint8_t[]> p( new uint8_t[ op.data.size() ] );
    copy( op.data.begin(), op.data.end(), p.get() );
    const Chunk c( p.get(), op.data.size() );
    const bool ok = attempt( o, op.ec ? "frame+ec" : "frame", [&] { auto out = d.get_frame_output( c ); o.put( digest( out.second.get() ) ); if ( held.size() < 3 ) held.push_back( out.second ); } );
    p.reset();
    if ( ok ) { use( d, o ); }
    else { d.get_hash(); parts( d ); }
  }
  /* the decoders still work for a key frame */
  for ( auto & d : decs ) {
    d.set_error_concealment( false );
    if ( j.base.frames.empty() or ( j.base.frames[ 0 ][ 0 ] & 1 ) ) break;
    auto out = d.get_frame_output( chunk( j.base.frames[ 0 ] ) );
    o.put( digest( out.second.get() ) ); o.n[ "recovered" ]++;
    use( d, o );
  }
}

static Job make_frames( const vector<Stream> & ss, Rng & r )
{
  Job j; j.kind = "frames";
  const Stream & base = ss[ bounded( r, ss.size() ) ];
  j.base = base; j.w = base.w; j.h = base.h;
  const unsigned style = bounded( r, 5 );   /* how much is broken */
  const unsigned ec = bounded( r, 3 );
  const unsigned n = 6 + bounded( r, 14 );
  const bool start_clean = bounded( r, 5 );
  for ( unsigned i = 0; i < n; i++ ) {
    FrameOp o;
    o.dec = bounded( r, 4 ) ? 0 : r() % 3; o.copy = bounded( r, 12 ) == 0; o.ec = ec == 2 ? r() & 1 : ec;
    const Stream & s = bounded( r, 6 ) ? base : ss[ bounded( r, ss.size() ) ];
    o.data = s.frames[ bounded( r, 4 ) ? min<size_t>( i, s.frames.size() - 1 ) : bounded( r, s.frames.size() ) ];
    if ( i == 0 and start_clean ) { o.dec = 0; o.data = base.frames[ 0 ]; }
    else if ( bounded( r, 5 ) <= style ) {
      do { o.data = mutate_frame( o.data, r, j.w, j.h ); } while ( bounded( r, 3 ) == 0 );
      if ( bounded( r, 60 ) == 0 ) { o.data.clear(); for ( size_t k = bounded( r, 200 ); k; k-- ) o.data.push_back( r() ); }
    }
    j.ops.push_back( o );
  }
  return j;
}

/* ---- files ---- */
static string to_file( const Bytes & b, const char * name )
{
  const string fn = dir + "/" + name + "." + to_string( getpid() );
  ofstream f( fn, ios::binary ); f.write( reinterpret_cast<const char *>( b.data() ), b.size() );
  return fn;
}

static void run_states( const Job & j, Outcome & o )
{
  for ( const auto & in : j.inputs ) {
    const string fn = to_file( in, "state" );
    attempt( o, "state", [&] {
      faking = true;
      Decoder d = EncoderStateDeserializer::build<Decoder>( fn );
      faking = false;
      use( d, o );
      EncoderStateSerializer s; d.serialize( s );
      for ( unsigned i = 0; i < j.base.frames.size() and i < 5; i++ ) {
        for ( bool ec : { false, true } ) {
          Decoder c = d; c.set_error_concealment( ec );
          attempt( o, "frame-after-state", [&] { auto out = c.get_frame_output( chunk( j.base.frames[ i ] ) ); o.put( digest( out.second.get() ) ); } );
          if ( not ec ) { use( c, o ); if ( i & 1 ) d = c; }
        }
      }
    } );
    faking = false;
    unlink( fn.c_str() );
  }
}

static void run_ivf( const Job & j, Outcome & o )
{
  for ( const auto & in : j.inputs ) {
    const string fn = to_file( in, "ivf" );
    attempt( o, "ivf", [&] {
      faking = true;
      IVF f( fn );
      o.d.num( f.frame_count() ); o.d.num( f.width() ); o.d.num( f.height() );
      for ( unsigned i = 0; i < f.frame_count() and i < 2000; i++ ) attempt( o, "ivf-frame", [&] { Chunk c = f.frame( i ); for ( size_t k = 0; k < c.size(); k++ ) o.d.put( c.buffer()[ k ] ); } );
    } );
    attempt( o, "ivf-play", [&] {
      faking = true;
      FilePlayer p( fn );
      for ( unsigned i = 0; i < 30 and not p.eof(); i++ ) { RasterHandle r = p.advance(); o.put( digest( r.get() ) ); }
    } );
    faking = false;
    unlink( fn.c_str() );
  }
}

static void run_y4m( const Job & j, Outcome & o )
{
  unsigned k = 0;
  for ( const auto & in : j.inputs ) {
    const string fn = to_file( in, "y4m" );
    attempt( o, "y4m", [&] {
      YUV4MPEGReader rd( fn );
      o.d.num( rd.display_width() ); o.d.num( rd.display_height() );
      for ( unsigned i = 0; i < 10; i++ ) { auto f = rd.get_next_frame(); if ( not f.initialized() ) break; o.put( digest( f.get().get() ) ); }
    } );
    unlink( fn.c_str() );
    if ( ++k == 1 ) { RasterPoolDebug::allow_resize = true; }
  }
}

static void run_jpeg( const Job & j, Outcome & o )
{
  JPEGDecompresser jd;
  bool first = true;
  for ( const auto & in : j.inputs ) {
    unique_ptr<uint8_t[]> p( new uint8_t[ in.size() ] ); copy( in.begin(), in.end(), p.get() );
    const bool ok = attempt( o, "jpeg", [&] {
      jd.begin_decoding( Chunk( p.get(), in.size() ) );
      const unsigned w = jd.width(), h = jd.height();
      o.d.num( w ); o.d.num( h );
      if ( w > 2000 or h > 2000 ) throw runtime_error( "big" );
      BaseRaster r( w, h, ( w + 15 ) / 16 * 16, ( h + 15 ) / 16 * 16 );
      r.Y().fill( 7 ); r.U().fill( 7 ); r.V().fill( 7 );
      jd.decode( r );
      Digest d; put_plane( d, r.Y() ); put_plane( d, r.U() ); put_plane( d, r.V() ); o.put( d.str() );
    } );
    (void) ok; (void) first;
  }
}

static void run_packets( const Job & j, Outcome & o )
{
  unordered_map<uint32_t, unique_ptr<FragmentedFrame>> ff;
  for ( const auto & in : j.inputs ) {
    unique_ptr<uint8_t[]> p( new uint8_t[ in.size() ] ); copy( in.begin(), in.end(), p.get() );
    const Chunk c( p.get(), in.size() );
    attempt( o, "packet", [&] {
      Packet k( c );
      o.d.num( k.frame_no() ); o.put( k.payload() );
      o.put( k.to_string() );
      auto it = ff.find( k.frame_no() );
      if ( it == ff.end() ) { it = ff.emplace( k.frame_no(), make_unique<FragmentedFrame>( 1337, k ) ).first; }
      else it->second->add_packet( k );
      o.put( it->second->partial_frame() );
      if ( it->second->complete() ) { o.put( it->second->frame() ); o.d.num( it->second->packets().size() ); o.n[ "frame-complete" ]++; }
    } );
    attempt( o, "ack", [&] { AckPacket a( c ); o.d.num( a.frame_no() ); o.d.num( a.complete_states().size() ); o.put( a.to_string() ); } );
  }
}

static Bytes str( const string & s ) { return Bytes( s.begin(), s.end() ); }

static Bytes ivf_file( const Stream & s )
{
  Bytes b = str( "DKIF" );
  auto put = [&]( uint64_t v, int n ) { for ( int i = 0; i < n; i++ ) b.push_back( v >> ( 8 * i ) ); };
  put( 0, 2 ); put( 32, 2 ); for ( char c : string( "VP80" ) ) b.push_back( c );
  put( s.w, 2 ); put( s.h, 2 ); put( 30, 4 ); put( 1, 4 ); put( s.frames.size(), 4 ); put( 0, 4 );
  for ( size_t i = 0; i < s.frames.size(); i++ ) { put( s.frames[ i ].size(), 4 ); put( i, 8 ); b.insert( b.end(), s.frames[ i ].begin(), s.frames[ i ].end() ); }
  return b;
}

static Bytes jpeg_file( Rng & r, unsigned w, unsigned h, int how )
{
  jpeg_compress_struct c; jpeg_error_mgr e; c.err = jpeg_std_error( &e ); jpeg_create_compress( &c );
  unsigned char * out = nullptr; unsigned long n = 0;
  jpeg_mem_dest( &c, &out, &n );
  c.image_width = w; c.image_height = h; c.input_components = how == 9 ? 1 : 3; c.in_color_space = how == 9 ? JCS_GRAYSCALE : JCS_RGB;
  jpeg_set_defaults( &c ); jpeg_set_quality( &c, 20 + bounded( r, 80 ), TRUE );
  if ( how != 9 ) { c.comp_info[ 0 ].h_samp_factor = how == 8 ? 1 + bounded( r, 2 ) : 2; c.comp_info[ 0 ].v_samp_factor = how == 8 ? 1 + bounded( r, 2 ) : 1; }
  if ( how == 7 ) jpeg_simple_progression( &c );
  if ( how == 6 ) c.restart_interval = 3;
  jpeg_start_compress( &c, TRUE );
  vector<uint8_t> row( w * 3 );
  while ( c.next_scanline < c.image_height ) {
    for ( auto & x : row ) x = ( r() & 3 ) ? c.next_scanline * 3 + ( &x - row.data() ) : r();
    JSAMPROW p = row.data(); jpeg_write_scanlines( &c, &p, 1 );
  }
  jpeg_finish_compress( &c ); jpeg_destroy_compress( &c );
  Bytes b( out, out + n ); free( out );
  return b;
}

static void set_bytes( Bytes & b, size_t p, uint64_t v, int n ) { for ( int i = 0; i < n and p + i < b.size(); i++ ) b[ p + i ] = v >> ( 8 * i ); }

static Job make_files( const string & kind, const vector<Stream> & ss, const vector<Bytes> & states, Rng & r )
{
  Job j; j.kind = kind;
  const Stream & base = ss[ bounded( r, ss.size() ) ];
  j.base = base; j.w = base.w; j.h = base.h;
  auto odd_size = [&]() -> uint32_t { static const uint32_t v[] = { 0, 1, 15, 16, 17, 65535, 65521, 65520, 0, 3 }; return v[ bounded( r, 10 ) ]; };
  auto mut = [&]( Bytes b, size_t lo = 0 ) { do { b = mutate_bytes( b, r, lo ); } while ( bounded( r, 2 ) ); return b; };
  if ( kind == "state" ) {
    Bytes b = states[ bounded( r, states.size() ) ];
    const unsigned how = bounded( r, 10 );
    auto size_at = [&]( size_t p ) { static const int d[] = { 1, -1, 16, -16, 64, -64 }; uint32_t v = le( b, p, 2 ); uint32_t x = v + d[ bounded( r, 6 ) ]; if ( x > 3000 ) x = bounded( r, 40 ); if ( bounded( r, 4 ) == 0 ) x = 0; set_bytes( b, p, x, 2 ); };
    /* layout: tag len | tag len w h | prob ... */
    if ( b.size() > 20 ) switch ( how ) {
    case 0: size_at( 10 ); break;
    case 1: size_at( 12 ); break;
    case 2: size_at( 10 ); size_at( 12 ); break;
    case 3: { /* any tag-like position: change tags and what follows them */
        for ( unsigned k = 0; k < 3; k++ ) b[ bounded( r, b.size() ) ] = bounded( r, 13 );
        break; }
    case 4: { /* find the references header: its size is repeated there */
        for ( size_t p = 14; p + 9 < b.size(); p++ ) if ( b[ p ] == 7 and le( b, p + 5, 2 ) == le( b, 10, 2 ) and le( b, p + 7, 2 ) == le( b, 12, 2 ) ) {
            size_at( p + 5 ); if ( r() & 1 ) size_at( p + 7 ); break; }
        break; }
    case 5: { /* segmentation part: size of the map, or segment numbers */
        for ( size_t p = 14; p + 20 < b.size(); p++ ) if ( ( b[ p ] == 2 or b[ p ] == 3 ) and le( b, p + 5, 2 ) == le( b, 10, 2 ) and le( b, p + 7, 2 ) == le( b, 12, 2 ) ) {
            if ( r() & 1 ) { size_at( p + 5 + 2 * ( r() & 1 ) ); }
            else { for ( unsigned k = 0; k < 40; k++ ) b[ min<size_t>( b.size() - 1, p + 17 + bounded( r, 30 ) ) ] = r(); }
            break; }
        break; }
    case 6: b.resize( bounded( r, b.size() ) ); break;
    case 7: b[ bounded( r, min<size_t>( b.size(), 16 ) ) ] = r(); break;
    case 8: b = mut( b, 14 ); break;
    default: if ( bounded( r, 8 ) == 0 ) { b.clear(); for ( size_t k = bounded( r, 3000 ); k; k-- ) b.push_back( r() & 1 ? r() : bounded( r, 12 ) ); } else b = mut( b, 14 ); break;
    }
    if ( b.size() >= 14 ) { if ( le( b, 10, 2 ) > 3000 ) set_bytes( b, 10, base.w, 2 ); if ( le( b, 12, 2 ) > 3000 ) set_bytes( b, 12, base.h, 2 ); }
    j.inputs.push_back( b );
  } else if ( kind == "ivf" ) {
    Bytes b = ivf_file( base );
    switch ( bounded( r, 9 ) ) {
    case 0: { static const uint32_t v[] = { 0, 1, 0xffffffff, 0x7fffffff, 0x10000000, 1000000 }; set_bytes( b, 24, v[ bounded( r, 6 ) ], 4 ); break; }
    case 1: { /* a length that ends at, or wraps round to, a place within the file */
        size_t p = 32; for ( unsigned k = bounded( r, 3 ) ? 0 : bounded( r, base.frames.size() ); k and p + 12 < b.size(); k-- ) p += 12 + le( b, p, 4 );
        set_bytes( b, p, bounded( r, 4 ) == 0 ? b.size() - p - 12 + bounded( r, 3 ) : r() & 1 ? 0xffffffff - bounded( r, 64 ) : 0x80000000 - bounded( r, 64 ) + 32 * ( r() & 1 ), 4 ); break; }
    case 2: { uint32_t x = odd_size(), y = odd_size(); if ( x > 1000 and y > 1000 ) y = 1 + bounded( r, 16 ); set_bytes( b, 12, x, 2 ); set_bytes( b, 14, y, 2 );
        for ( size_t p = 44; p + 10 < b.size(); ) { if ( not ( b[ p ] & 1 ) ) { set_bytes( b, p + 6, x & 16383, 2 ); set_bytes( b, p + 8, y & 16383, 2 ); } p += 12 + le( b, p - 12, 4 ); } break; }
    case 3: b.resize( bounded( r, b.size() ) ); break;
    case 4: b.resize( bounded( r, 33 ) ); break;
    case 5: b[ bounded( r, 12 ) ] = r(); break;
    case 6: { /* a frame length in the middle */ size_t p = 32; for ( unsigned k = bounded( r, base.frames.size() ); k and p + 12 < b.size(); k-- ) p += 12 + le( b, p, 4 ); set_bytes( b, p, le( b, p, 4 ) + bounded( r, 40 ) - 20, 4 ); break; }
    default: b = mut( b, 16 );
    }
    if ( b.size() > 16 and bounded( r, 1 ) == 0 and le( b, 12, 2 ) > 1000 and le( b, 14, 2 ) > 1000 ) set_bytes( b, 14, 16, 2 );
    j.inputs.push_back( b );
  } else if ( kind == "y4m" ) {
    const unsigned n = 1 + bounded( r, 3 );
    for ( unsigned q = 0; q < n; q++ ) {
      unsigned w = 1 + bounded( r, 40 ), h = 1 + bounded( r, 40 );
      const unsigned how = bounded( r, 10 );
      string hd = "YUV4MPEG2 W" + to_string( w ) + " H" + to_string( h ) + " F25:1 Ip A1:1 C420jpeg\n";
      if ( how == 0 ) { uint32_t a = odd_size(), b = odd_size(); if ( a > 1000 and b > 1000 ) b = 2; hd = "YUV4MPEG2 W" + to_string( a ) + " H" + to_string( b ) + " F25:1\n"; w = a; h = b; }
      static const char * heads[] = { "YUV4MPEG2 W-1 H2 F1:1\n", "YUV4MPEG2 W65537 H4\n", "YUV4MPEG2 W99999999999 H4\n", "YUV4MPEG2 W16 H16 F\n", "YUV4MPEG2 W16 H16 I\n", "YUV4MPEG2 W H\n", "YUV4MPEG2\n", "YUV4MPEG2 W16 H16 F:1\n",
        "YUV4MPEG2 W16 H16 A1:\n", "YUV4MPEG2 W16 H16 C\n", "YUV4MPEG2 W16 H16 C444\n", "YUV4MPEG2 W16 H16 Q\n", "YUV4MPEG2 W16 H16 Ix\n", "", "\n", "YUV4MPEG2 W1e5 H0x10\n", "YUV4MPEG2 W0 H0\n", "YUV4MPEG2 H16\n", "YUV4MPEG2 W16 H16 X X X\n" };
      if ( how == 1 ) { hd = heads[ bounded( r, sizeof( heads ) / sizeof( heads[ 0 ] ) ) ]; w = h = 16; }
      Bytes b = str( hd );
      for ( unsigned k = bounded( r, 4 ); k; k-- ) {
        const Bytes f = str( bounded( r, 12 ) ? "FRAME\n" : bounded( r, 2 ) ? "FRAME Ip\n" : "FRAMX\n" );
        b.insert( b.end(), f.begin(), f.end() );
        for ( size_t z = size_t( w ) * h + 2 * ( ( w + 1 ) / 2 ) * ( ( h + 1 ) / 2 ) + ( bounded( r, 6 ) ? 0 : bounded( r, 9 ) - 4 ); z and z < ( how ? 100000 : 3000000 ); z-- ) b.push_back( r() );
      }
      if ( how >= 7 ) b = mut( b );
      /* keep declared pictures below a few megabytes */
      string first( b.begin(), find( b.begin(), b.end(), '\n' ) );
      unsigned digits = 0; for ( char c : first ) digits += isdigit( c ) ? 1 : 0;
      if ( how >= 7 and digits > 12 ) continue;
      j.inputs.push_back( b );
    }
    if ( j.inputs.empty() ) j.inputs.push_back( str( "YUV4MPEG2 W16 H16\n" ) );
  } else if ( kind == "jpeg" ) {
    const unsigned w = bounded( r, 3 ) ? 16 * ( 1 + bounded( r, 4 ) ) : 1 + bounded( r, 70 ), h = bounded( r, 3 ) ? 8 * ( 1 + bounded( r, 6 ) ) : 1 + bounded( r, 50 );
    for ( unsigned k = 1 + bounded( r, 4 ); k; k-- ) {
      Bytes b = bounded( r, 8 ) ? jpeg_file( r, w, h, bounded( r, 10 ) ) : jpeg_file( r, 1 + bounded( r, 70 ), 1 + bounded( r, 50 ), bounded( r, 10 ) );
      if ( bounded( r, 3 ) ) b = mut( b, bounded( r, 2 ) ? 2 : b.size() > 600 ? 600 : 2 );
      /* keep the declared picture small */
      for ( size_t p = 2; p + 9 < b.size(); p++ ) if ( b[ p ] == 0xff and b[ p + 1 ] >= 0xc0 and b[ p + 1 ] <= 0xcf and b[ p + 1 ] != 0xc4 ) { b[ p + 5 ] &= 1; b[ p + 7 ] &= 1; }
      j.inputs.push_back( b );
    }
  } else if ( kind == "packet" ) {
    /* fragments of a few frames, shuffled and damaged, and acknowledgements */
    vector<Bytes> all;
    for ( unsigned f = 0; f < 3; f++ ) {
      vector<uint8_t> whole( 1 + bounded( r, 6000 ) ); for ( auto & x : whole ) x = r();
      FragmentedFrame fr( 1337, 1 + f, 2 + f, f, 100, whole );
      for ( auto & p : fr.packets() ) all.push_back( str( p.to_string() ) );
    }
    for ( unsigned k = 0; k < 4; k++ ) { deque<uint32_t> st( bounded( r, 6 ) ); for ( auto & x : st ) x = r(); AckPacket a( 1337, r(), r(), r(), r(), st ); all.push_back( str( a.to_string() ) ); }
    shuffle( all.begin(), all.end(), r );
    for ( auto b : all ) {
      switch ( bounded( r, 6 ) ) {
      case 0: b = mut( b ); break;
      case 1: { static const uint32_t v[] = { 0xffffffff, 0x7fffffff, 0x10000000, 1000, 7 }; set_bytes( b, 16, v[ bounded( r, 5 ) ], 4 ); break; }
      case 2: set_bytes( b, 14 + 2 * bounded( r, 2 ), bounded( r, 3 ) ? bounded( r, 6 ) : 0xffff, 2 ); break;
      case 3: b.resize( bounded( r, min<size_t>( b.size(), 30 ) + 1 ) ); break;
      default: break;
      }
      j.inputs.push_back( b );
    }
  }
  return j;
}

static void run_job( const Job & j, Outcome & o )
{
  if ( j.kind == "frames" ) run_frames( j, o );
  else if ( j.kind == "state" ) run_states( j, o );
  else if ( j.kind == "ivf" ) run_ivf( j, o );
  else if ( j.kind == "y4m" ) run_y4m( j, o );
  else if ( j.kind == "jpeg" ) run_jpeg( j, o );
  else if ( j.kind == "packet" ) run_packets( j, o );
}

static int in_child( const vector<Job> & js, const unsigned limit, string & out, string & err )
{
  int p[ 2 ]; if ( pipe( p ) ) exit( 90 );
  const string ef = dir + "/err";
  cout.flush();
  const pid_t pid = fork();
  if ( pid < 0 ) { cerr << "HARNESS fork\n"; exit( 90 ); }
  if ( pid == 0 ) {
    close( p[ 0 ] );
    int e = open( ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 ); dup2( e, 2 );
    alarm( limit );
    Outcome o;
    for ( auto & j : js ) run_job( j, o );
    ostringstream os; os << "digest " << o.d.str(); for ( auto & x : o.n ) os << " " << x.first << "=" << x.second;
    const string s = os.str();
    if ( write( p[ 1 ], s.data(), s.size() ) < 0 ) _exit( 90 );
    _exit( 0 );
  }
  close( p[ 1 ] );
  char b[ 4096 ]; ssize_t n; out.clear();
  while ( ( n = read( p[ 0 ], b, sizeof b ) ) > 0 ) out.append( b, n );
  close( p[ 0 ] );
  int st; waitpid( pid, &st, 0 );
  Bytes eb = slurp( ef ); err.assign( eb.begin(), eb.end() );
  return WIFEXITED( st ) ? WEXITSTATUS( st ) : 256 + WTERMSIG( st );
}

/* hostile KIND SEED COUNT PER DIR STREAM... : COUNT children of PER jobs each
   hostile replay FILE DIR FILE... */
int main( int argc, char ** argv )
{
  if ( string( argv[ 1 ] ) == "replay" ) {
    dir = argv[ 3 ]; Outcome o; alarm( 120 );
    run_job( undump( argv[ 2 ] ), o );
    for ( int i = 4; i < argc; i++ ) run_job( undump( argv[ i ] ), o );
    cout << "digest " << o.d.str() << "\nDONE\n"; cout.flush(); _exit( 0 );
  }
  const string kind = argv[ 1 ];
  Rng r( stoull( argv[ 2 ] ) );
  const unsigned count = stoul( argv[ 3 ] ), per = stoul( argv[ 4 ] );
  dir = argv[ 5 ];
  vector<Stream> ss; vector<Bytes> states;
  for ( int i = 6; i < argc; i++ ) { ss.push_back( read_stream( argv[ i ] ) ); }
  if ( kind == "state" ) {
    /* states of all the streams, made in a child so that no size is fixed here */
    const pid_t pid = fork();
    if ( pid == 0 ) {
      unsigned n = 0; RasterPoolDebug::allow_resize = true;
      for ( auto & s : ss ) { Decoder d( s.w, s.h ); for ( auto & f : s.frames ) { d.get_frame_output( chunk( f ) ); if ( s.w * s.h > 4000 and ( &f - &s.frames[ 0 ] ) % 4 ) continue; EncoderStateSerializer o; d.serialize( o ); o.write( dir + "/seed" + to_string( n++ ) ); } }
      ofstream( dir + "/seeds" ) << n << "\n"; _exit( 0 );
    }
    int st; waitpid( pid, &st, 0 );
    if ( st ) { cerr << "HARNESS cannot make states\n"; return 90; }
    unsigned n; ifstream( dir + "/seeds" ) >> n;
    for ( unsigned i = 0; i < n; i++ ) states.push_back( slurp( dir + "/seed" + to_string( i ) ) );
  }
  Digest total; map<string, unsigned long> sum;
  unsigned bad = 0;
  for ( unsigned i = 0; i < count and bad < 3; i++ ) {
    vector<Job> js;
    for ( unsigned k = 0; k < per; k++ ) js.push_back( kind == "frames" ? make_frames( ss, r ) : make_files( kind, ss, states, r ) );
    string out, err;
    int st = in_child( js, 40, out, err );
    if ( st == 256 + SIGALRM ) { st = in_child( js, 200, out, err ); }
    if ( st == 0 ) {
      istringstream is( out ); string w; is >> w >> w;
      for ( char c : w ) total.put( c );
      cout << "D " << i << " " << w << "\n";
      while ( is >> w ) { size_t e = w.find( '=' ); sum[ w.substr( 0, e ) ] += stoul( w.substr( e + 1 ) ); }
      continue;
    }
    if ( st == 90 ) { cerr << "HARNESS child\n"; return 90; }
    /* which job? */
    bad++;
    string fn; int st1 = st;
    for ( unsigned k = 0; k < per; k++ ) {
      string o2, e2; int s2 = in_child( { js[ k ] }, 200, o2, e2 );
      if ( s2 ) { fn = dir + "/bad" + to_string( i ) + "-" + to_string( k ); dump( js[ k ], fn ); err = e2; st1 = s2; break; }
    }
    if ( fn.empty() ) { for ( unsigned k = 0; k < per; k++ ) { fn = dir + "/bad" + to_string( i ) + "-" + to_string( k ); dump( js[ k ], fn ); } }
    string head; for ( size_t q = 0; q < err.size() and head.size() < 1800; q++ ) head += err[ q ] == '\n' ? '|' : err[ q ];
    cout << "VIOL " << kind << " file " << fn << " status " << st1 << ( st1 == 256 + SIGALRM ? " (no end)" : "" ) << ": " << head << endl;
  }
  for ( auto & x : sum ) cout << "N " << x.first << " " << x.second << "\n";
  cout << "T " << total.str() << "\nDONE\n";
  return 0;
}
