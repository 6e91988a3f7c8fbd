// LINK: -Wl,--wrap=read,--wrap=write
/* the building blocks under everything else: chunks, optionals, the arithmetic coder, descriptors, datagrams, addresses,
   each against a model written here */
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <chrono>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <thread>
#include "vh.hh"
#include "chunk.hh"
#include "optional.hh"
#include "finally.hh"
#include "2d.hh"
#include "bool_encoder.hh"
#include "bool_decoder.hh"
#include "file_descriptor.hh"
#include "socket.hh"
#include "socketpair.hh"
#include "address.hh"

using namespace std;
typedef mt19937_64 Rng;
static map<string, unsigned long> seen;
static set<string> kinds;

static unsigned short_io = 0;      /* 0: as asked; otherwise at most this many bytes */
static Rng io_rng;
extern "C" ssize_t __real_write( int, const void *, size_t );
extern "C" ssize_t __real_read( int, void *, size_t );
extern "C" ssize_t __wrap_write( int fd, const void * b, size_t n ) { if ( short_io and n > 1 ) { n = 1 + io_rng() % min<size_t>( n, short_io ); } return __real_write( fd, b, n ); }
extern "C" ssize_t __wrap_read( int fd, void * b, size_t n ) { if ( short_io and n > 1 ) { n = 1 + io_rng() % min<size_t>( n, short_io ); } return __real_read( fd, b, n ); }

static uint64_t extreme( Rng & r, uint64_t about )
{
  static const uint64_t odd[] = { 0, 1, 2, 7, 8, 63, 64, 65, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xfffffffffffffff0, 0xffffffffffffffff };
  switch ( r() % 5 ) { case 0: return odd[ r() % 16 ]; case 1: return about + r() % 5 - 2; case 2: return 0 - r() % 20; default: return about ? r() % ( about + 1 ) : 0; }
}
static Bytes noise( Rng & r, size_t n ) { Bytes b( n ); const int how = r() % 3; for ( auto & x : b ) { x = how == 0 ? 0xff - r() % 2 : r(); } return b; }
static string text( const Bytes & b ) { return string( b.begin(), b.end() ); }

/* ---------------------------------------------------------------- chunks */
template <class F> static string value_or_refusal( const F & f ) { try { return f(); } catch ( const out_of_range & ) { return "refused"; } }

static void chunk_case( uint64_t seed )
{
  Rng r( seed );
  /* exactly as much memory as there is data */
  const size_t n = r() % 40; unique_ptr<uint8_t[]> mem( new uint8_t[ n ] ); Bytes model = noise( r, n ); copy( model.begin(), model.end(), mem.get() );
  Chunk c( mem.get(), n );
  string did = "chunk of " + to_string( n );
  for ( unsigned k = 0; k < 12; k++ ) {
    const uint64_t off = extreme( r, model.size() ), len = extreme( r, model.size() );
    auto differ = [&]( const string & op, const string & got, const string & want ) { if ( got != want ) { VIOL( "chunk", "seed" << seed << " " << did << ": " << op << " gives " << got.substr( 0, 60 ) << " instead of " << want.substr( 0, 60 ) ); } seen[ "chunk operations" ]++; };
    if ( c.size() != model.size() or c.to_string() != text( model ) ) { VIOL( "chunk", "seed" << seed << " " << did << ": other contents" ); return; }
    auto hex = []( const Bytes & b ) { string s; for ( uint8_t x : b ) { char t[ 4 ]; snprintf( t, 4, "%02x", x ); s += t; } return s; };
    auto num = [&]( size_t bytes ) -> string { if ( model.size() < bytes ) return "refused"; uint64_t v = 0; for ( size_t i = 0; i < bytes; i++ ) { v |= uint64_t( model[ i ] ) << ( 8 * i ); } return to_string( v ); };
    switch ( r() % 7 ) {
    case 0: case 1: { const bool ok = off <= model.size() and len <= model.size() - off;
        differ( "(" + to_string( off ) + "," + to_string( len ) + ")", value_or_refusal( [&] { const string s = c( off, len ).to_string(); return hex( Bytes( s.begin(), s.end() ) ); } ),
                ok ? hex( Bytes( model.begin() + off, model.begin() + off + len ) ) : "refused" );
        if ( ok and r() % 3 == 0 ) { c = c( off, len ); model = Bytes( model.begin() + off, model.begin() + off + len ); did += " cut to " + to_string( off ) + "," + to_string( len ); } break; }
    case 2: { const bool ok = off <= model.size();
        differ( "(" + to_string( off ) + ")", value_or_refusal( [&] { return to_string( c( off ).size() ) + ":" + c( off ).to_string(); } ), ok ? to_string( model.size() - off ) + ":" + text( Bytes( model.begin() + off, model.end() ) ) : "refused" ); break; }
    case 3: differ( "le16", value_or_refusal( [&] { return to_string( c.le16() ); } ), num( 2 ) ); break;
    case 4: differ( "le32", value_or_refusal( [&] { return to_string( c.le32() ); } ), num( 4 ) ); differ( "octet", value_or_refusal( [&] { return to_string( c.octet() ); } ), num( 1 ) ); break;
    case 5: differ( "le64", value_or_refusal( [&] { return to_string( c.le64() ); } ), num( 8 ) ); break;
    default: {
        const uint64_t bo = r() % 70, bl = 1 + r() % 64, bytes = ( bo + bl + 7 ) / 8;
        string want = "refused";
        if ( bytes <= model.size() and bytes <= 8 and bl <= 63 ) { uint64_t v = 0; for ( uint64_t i = 0; i < bl; i++ ) { v |= uint64_t( model[ ( bo + i ) / 8 ] >> ( ( bo + i ) % 8 ) & 1 ) << i; } want = to_string( v ); }
        differ( "bits(" + to_string( bo ) + "," + to_string( bl ) + ")", value_or_refusal( [&] { return to_string( c.bits( bo, bl ) ); } ), want );
        kinds.insert( "bits " + to_string( bytes ) ); }
    }
  }
  kinds.insert( "chunk " + to_string( n ) );
}

/* ---------------------------------------------------------------- optionals */
struct Live
{
  static set<const Live *> all; static long wrong; static int fuse;   /* fuse: the constructor after so many throws */
  int v; const Live * self;
  static void burn() { if ( fuse >= 0 and fuse-- == 0 ) { throw runtime_error( "fuse" ); } }
  void born() { self = this; if ( not all.insert( this ).second ) { wrong++; } }
  explicit Live( int x ) : v( x ), self( nullptr ) { burn(); born(); }
  Live( int x, int y ) : Live( x * 1000 + y ) {}
  Live( const Live & o ) : v( o.v ), self( nullptr ) { if ( not all.count( &o ) ) { wrong++; } burn(); born(); }
  Live( Live && o ) : v( o.v ), self( nullptr ) { if ( not all.count( &o ) ) { wrong++; } burn(); o.v = -1; born(); }
  ~Live() { if ( self != this or not all.erase( this ) ) { wrong++; } v = -2; self = nullptr; }
  bool operator==( const Live & o ) const { return v == o.v; }
};
set<const Live *> Live::all; long Live::wrong = 0; int Live::fuse = -1;

static void optional_case( uint64_t seed )
{
  Rng r( seed );
  string did;
  {
    vector<unique_ptr<Optional<Live>>> o; vector<pair<bool, int>> m;   /* v -1: moved from */
    for ( int i = 0; i < 4; i++ ) { if ( r() % 2 ) { const int x = r() % 100; o.emplace_back( new Optional<Live>( true, x ) ); m.emplace_back( true, x ); } else { o.emplace_back( new Optional<Live>() ); m.emplace_back( false, 0 ); } }
    for ( unsigned k = 0; k < 25; k++ ) {
      const unsigned a = r() % 4, b = r() % 4; const int x = r() % 100, y = r() % 100; const unsigned op = r() % 11;
      const bool burn = r() % 6 == 0; if ( burn ) { Live::fuse = r() % 2; }
      const auto ma = m[ a ], mb = m[ b ];
      did += " " + to_string( op ) + ":" + to_string( a ) + to_string( b ) + ( burn ? "!" : "" );
      try {
        switch ( op ) {
        case 0: case 1: *o[ a ] = *o[ b ]; m[ a ] = m[ b ]; break;
        case 2: *o[ a ] = move( *o[ b ] ); if ( a != b ) { m[ a ] = mb; if ( mb.first ) { m[ b ].second = -1; } } break;
        case 3: o[ a ]->clear(); m[ a ] = { false, 0 }; break;
        case 4: if ( not m[ a ].first ) { o[ a ]->initialize( x ); m[ a ] = { true, x }; } break;
        case 5: { o[ a ]->reset( x, y ); m[ a ] = { true, x * 1000 + y }; break; }
        case 6: { unique_ptr<Optional<Live>> n( new Optional<Live>( *o[ b ] ) ); o[ a ] = move( n ); m[ a ] = mb; break; }
        case 7: if ( a != b ) { unique_ptr<Optional<Live>> n( new Optional<Live>( move( *o[ b ] ) ) ); o[ a ] = move( n ); m[ a ] = mb; if ( mb.first ) { m[ b ].second = -1; } } break;
        case 8: { unique_ptr<Optional<Live>> n( new Optional<Live>( bool( x % 2 ), y ) ); o[ a ] = move( n ); m[ a ] = x % 2 ? make_pair( true, y ) : make_pair( false, 0 ); break; }
        case 9: { unique_ptr<Optional<Live>> n( new Optional<Live>( make_optional( x % 2, Live( y ) ) ) ); o[ a ] = move( n ); m[ a ] = x % 2 ? make_pair( true, y ) : make_pair( false, 0 ); break; }
        default: { Live::fuse = -1; const Live d( 77 ); if ( ( o[ a ]->get_or( d ).v ) != ( m[ a ].first ? m[ a ].second : 77 ) ) { VIOL( "optional", "seed" << seed << did << ": get_or" ); } }
        }
        Live::fuse = -1;
      } catch ( const runtime_error & ) {
        /* what was assigned to may be empty or as before, never half there; nothing else changes */
        Live::fuse = -1; seen[ "copies that throw" ]++;
        const bool in = o[ a ]->initialized();
        if ( in and not Live::all.count( &o[ a ]->get() ) ) { VIOL( "optional-throw", "seed" << seed << did << ": an object that could not be copied counts as present" ); new( &o[ a ]->get() ) Live( 0 ); }
        m[ a ] = in ? make_pair( true, o[ a ]->get().v ) : make_pair( false, 0 );
        if ( a != b and mb.first ) { m[ b ].second = o[ b ]->initialized() ? o[ b ]->get().v : mb.second; }
      }
      for ( int i = 0; i < 4; i++ ) {
        const Optional<Live> & q = *o[ i ];
        if ( q.initialized() != m[ i ].first or ( m[ i ].first and q.get().v != m[ i ].second ) ) { VIOL( "optional", "seed" << seed << did << ": number " << i << " is " << ( q.initialized() ? to_string( q.get().v ) : "missing" ) << " instead of " << ( m[ i ].first ? to_string( m[ i ].second ) : "missing" ) ); return; }
        for ( int j = 0; j < 4; j++ ) { if ( ( q == *o[ j ] ) != ( m[ i ] == m[ j ] ) or ( q != *o[ j ] ) == ( m[ i ] == m[ j ] ) ) { VIOL( "optional-equal", "seed" << seed << did << ": comparison of " << i << " and " << j ); } }
      }
      if ( Live::wrong ) { VIOL( "optional-life", "seed" << seed << did << ": an object was destroyed or used that was not alive" ); Live::wrong = 0; return; }
      seen[ "optional operations" ]++;
      kinds.insert( "optional " + to_string( op ) + ( a == b ? "self" : "" ) + ( ma.first ? "1" : "0" ) + ( mb.first ? "1" : "0" ) + ( burn ? "!" : "" ) );
    }
  }
  if ( not Live::all.empty() ) { VIOL( "optional-life", "seed" << seed << did << ": " << Live::all.size() << " objects were never destroyed" ); Live::all.clear(); }
  unsigned ran = 0;
  try { auto f = finally( [&] { ran++; } ); auto g = finally( [&] { ran += 100; } ); g.disable(); if ( r() % 2 ) throw runtime_error( "x" ); } catch ( const runtime_error & ) {}
  if ( ran != 1 ) { VIOL( "finally", "seed" << seed << ": the final action counts " << ran ); }
}

/* ---------------------------------------------------------------- the arithmetic coder */
/* of unlimited precision: all bytes of the lower end of the interval */
struct BigCoder
{
  Bytes low; size_t shifted = 0; unsigned range = 255;
  void add( unsigned v )   /* v at the eight bits after those shifted out */
  {
    while ( low.size() < shifted / 8 + 3 ) { low.push_back( 0 ); }
    unsigned x = v << ( 8 - shifted % 8 );   /* over two bytes */
    size_t i = shifted / 8 + 1; unsigned carry = 0;
    for ( int k = 0; k < 2; k++ ) { const unsigned s = low[ i - k ] + ( ( x >> ( 8 * k ) ) & 0xff ) + carry; low[ i - k ] = s; carry = s >> 8; }
    for ( i -= 2; carry; i-- ) { const unsigned s = low[ i ] + carry; low[ i ] = s; carry = s >> 8; }
  }
  unsigned put( bool b, unsigned p )   /* returns the shift */
  {
    const unsigned split = 1 + ( ( ( range - 1 ) * p ) >> 8 );
    if ( b ) { add( split ); range -= split; } else { range = split; }
    unsigned s = 0; while ( range < 128 ) { range <<= 1; s++; }
    shifted += s;
    return s;
  }
};

static void coder_case( uint64_t seed )
{
  Rng r( seed );
  const unsigned style = r() % 6;
  vector<pair<bool, uint8_t>> in; BigCoder big; BoolEncoder enc;
  size_t longest = 0;
  auto put = [&]( bool b, uint8_t p ) { in.emplace_back( b, p ); enc.put( b, p ); return big.put( b, p ); };
  auto prob = [&]() -> uint8_t { switch ( style ) { case 0: return 128; case 1: return r() % 2 ? 0 : 255; case 2: return r() % 2 ? 1 + r() % 3 : 253 + r() % 3; case 3: return 128 + int( r() % 9 ) - 4; default: return r(); } };
  for ( unsigned rounds = 1 + r() % 4; rounds; rounds-- ) {
    for ( unsigned k = r() % 300; k; k-- ) { const uint8_t p = prob(); put( style == 1 ? p == 0 : r() % 3 == 0 ? r() % 256 >= p : r() % 2, p ); }
    if ( r() % 3 == 0 or style == 5 ) {
      /* stay astride of one number, so that the coder has to hold back a run of bytes that a carry may still change; then decide */
      unsigned d = 1 + r() % ( big.range - 1 ); const size_t from = big.shifted;
      for ( unsigned n = r() % 4000; n; n-- ) {
        uint8_t p; unsigned split; unsigned tries = 0;
        do { p = r(); split = 1 + ( ( ( big.range - 1 ) * p ) >> 8 ); } while ( split == d and ++tries < 50 );
        if ( split == d ) { break; }
        const bool b = d > split;
        if ( b ) { d -= split; }
        const unsigned range = big.range; (void)range;
        d <<= put( b, p );
        if ( d == 0 or d >= big.range ) { break; }
      }
      longest = max( longest, ( big.shifted - from ) / 8 );
      seen[ "numbers straddled" ]++;
      for ( unsigned p = 0; p < 256 and d > 0 and d < big.range; p++ ) { const unsigned split = 1 + ( ( ( big.range - 1 ) * p ) >> 8 ); if ( split == d ) { put( r() % 2, p ); break; } }
    }
  }
  const Bytes out = enc.finish();
  seen[ "bits coded" ] += in.size();
  kinds.insert( "coder " + to_string( style ) + " held back " + to_string( min<size_t>( longest / 8, 40 ) ) );
  for ( size_t i = 0; i < out.size(); i++ ) { if ( out[ i ] != ( i < big.low.size() ? big.low[ i ] : 0 ) ) { VIOL( "coder", "seed" << seed << ": byte " << i << " of " << out.size() << " is " << int( out[ i ] ) << " instead of " << int( i < big.low.size() ? big.low[ i ] : 0 ) << ", " << in.size() << " bits, up to " << longest << " bytes held back" ); return; } }
  for ( size_t i = out.size(); i < big.low.size(); i++ ) { if ( big.low[ i ] ) { VIOL( "coder-short", "seed" << seed << ": the last bytes are not written" ); return; } }
  /* read back, also from part of the bytes */
  unique_ptr<uint8_t[]> mem( new uint8_t[ out.size() ] ); copy( out.begin(), out.end(), mem.get() );
  BoolDecoder dec( Chunk( mem.get(), out.size() ) );
  for ( size_t i = 0; i < in.size(); i++ ) { if ( dec.get( in[ i ].second ) != in[ i ].first ) { VIOL( "decoder", "seed" << seed << ": bit " << i << " of " << in.size() << " reads otherwise than it was written" ); return; } }
  if ( not dec.valid() ) { VIOL( "decoder-valid", "seed" << seed << ": complete data is called incomplete" ); }
  const size_t cut = r() % ( out.size() + 1 );
  unique_ptr<uint8_t[]> part( new uint8_t[ cut ] ); copy( out.begin(), out.begin() + cut, part.get() );
  BoolDecoder whole( Chunk( part.get(), cut ) ), some( Chunk( part.get(), cut ), false );
  BigCoder count; size_t sure = 0;   /* bits that cannot depend on what is missing */
  bool ok = true;
  for ( size_t i = 0; i < in.size(); i++ ) {
    const bool a = whole.get( in[ i ].second ), b = some.get( in[ i ].second );
    if ( a != b ) { VIOL( "decoder-part", "seed" << seed << ": bit " << i << " depends on whether the data are declared complete" ); return; }
    if ( ok and a != in[ i ].first ) { ok = false; if ( some.valid() ) { VIOL( "decoder-part", "seed" << seed << ": bit " << i << " of data cut to " << cut << " bytes reads otherwise and the decoder still calls itself valid" ); return; } }
    if ( ok ) { sure = i; }
  }
  if ( not whole.valid() ) { VIOL( "decoder-valid", "seed" << seed << ": data declared complete are called incomplete" ); }
  if ( cut == out.size() and not some.valid() ) { VIOL( "decoder-valid", "seed" << seed << ": nothing is missing, but the decoder is not valid" ); }
  seen[ "bits read back" ] += in.size(); seen[ "bits read from part of the data" ] += sure; (void)count;
  if ( r() % 4 == 0 ) { /* an encoder that has finished starts afresh */
    BoolEncoder e2; const size_t n = min<size_t>( in.size(), 50 );
    for ( size_t i = 0; i < n; i++ ) { enc.put( in[ i ].first, in[ i ].second ); e2.put( in[ i ].first, in[ i ].second ); }
    if ( enc.finish() != e2.finish() ) { VIOL( "coder-again", "seed" << seed << ": an encoder used again writes otherwise than a new one" ); }
  }
}

/* ---------------------------------------------------------------- descriptors */
static void io_case( uint64_t seed, const string & dir )
{
  Rng r( seed ); io_rng.seed( r() );
  /* lines and blocks with known boundaries */
  struct Piece { int how; string s; };
  vector<Piece> pieces; string all;
  for ( unsigned k = 1 + r() % 10; k; k-- ) {
    Piece p; p.how = r() % 3; const size_t n = p.how == 2 ? 1 + r() % ( r() % 4 ? 3000 : 70000 ) : r() % ( p.how ? 20 : 120 );
    for ( size_t i = 0; i < n; i++ ) { char c = r(); if ( p.how != 2 and c == '\n' ) { c = 'n'; } p.s.push_back( c ); }
    all += p.s; if ( p.how != 2 ) { all += "\n"; } pieces.push_back( p );
  }
  const string tail = r() % 2 ? string( r() % 200, 't' ) : ""; all += tail;
  const unsigned way = r() % 3;
  const unsigned wio = r() % 2 ? vector<unsigned> { 1, 7, 900 }[ r() % 3 ] : 0, rio = r() % 2 ? vector<unsigned> { 1, 7, 900 }[ r() % 3 ] : 0;
  const string tag = "seed" + to_string( seed ) + " " + ( way == 0 ? "file" : way == 1 ? "pipe" : "socket" ) + " " + to_string( all.size() ) + " bytes";
  int fds[ 2 ] = { -1, -1 };
  const string fn = dir + "/io";
  if ( way == 0 ) { fds[ 1 ] = open( fn.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600 ); } else if ( way == 1 ) { if ( pipe( fds ) ) exit( 92 ); } else if ( socketpair( AF_UNIX, SOCK_STREAM, 0, fds ) ) exit( 92 );
  const uint64_t wseed = r();
  auto writing = [&, wseed]( FileDescriptor & fd ) {
    Rng q( wseed ); size_t at = 0; unsigned n = 0;
    while ( at < all.size() ) {
      const size_t k = 1 + q() % min<size_t>( all.size() - at, 1 + q() % 20000 ); const string s = all.substr( at, k );
      switch ( q() % 3 ) {
      case 0: { auto it = fd.write( s ); if ( it != s.end() ) { VIOL( "write", tag << ": write does not write all" ); return; } at += k; break; }
      case 1: { fd.write( Chunk( s ) ); at += k; break; }
      default: { auto it = fd.write( s, false ); if ( it <= s.begin() or it > s.end() ) { VIOL( "write", tag << ": a single write gives a strange position" ); return; } at += it - s.begin(); }
      }
      if ( fd.write_count() < ++n ) { VIOL( "write-count", tag << ": " << fd.write_count() << " after " << n << " writes" ); return; }
    }
  };
  try {
    if ( way == 0 ) {
      short_io = wio; { FileDescriptor w( fds[ 1 ] ); writing( w ); if ( w.size() != all.size() ) { VIOL( "size", tag << ": size " << w.size() ); } } short_io = 0;
      const Bytes got = slurp( fn ); if ( text( got ) != all ) { VIOL( "written", tag << ": the file holds other bytes than were written (" << got.size() << ")" ); return; }
      fds[ 0 ] = open( fn.c_str(), O_RDONLY );
    }
    FileDescriptor in( fds[ 0 ] );
    thread t; if ( way ) { t = thread( [&] { FileDescriptor w( fds[ 1 ] ); try { writing( w ); } catch ( const exception & e ) { VIOL( "write", tag << ": " << e.what() ); } } ); }
    auto join = finally( [&] { if ( t.joinable() ) t.join(); } );
    short_io = way == 0 ? rio : max( rio, wio );
    size_t no = 0; unsigned count = 0;
    auto wrong = [&]( const string & what ) { VIOL( "read", tag << " piece " << no << ": " << what ); };
    for ( auto & p : pieces ) {
      if ( p.how != 2 ) { const string l = in.getline(); if ( l != p.s ) { wrong( "another line of " + to_string( l.size() ) ); break; } if ( in.eof() ) { wrong( "the end too early" ); break; } }
      else if ( r() % 2 ) { const string b = in.read_exactly( p.s.size() ); if ( b != p.s ) { wrong( "another block of " + to_string( b.size() ) ); break; } }
      else { string b; while ( b.size() < p.s.size() ) { const size_t lim = 1 + r() % ( p.s.size() - b.size() ); const string x = in.read( lim ); if ( x.empty() or x.size() > lim ) { wrong( "read( " + to_string( lim ) + " ) gives " + to_string( x.size() ) ); b = p.s; break; } b += x; } if ( b != p.s ) { wrong( "other bytes" ); break; } }
      if ( in.read_count() < ++count and not p.s.empty() ) { wrong( "the read is not counted" ); }
      no++;
    }
    if ( no == pieces.size() ) {
      string rest; unsigned how = r() % 3;
      if ( how == 0 ) { while ( true ) { const string x = in.read(); if ( x.empty() != in.eof() ) { wrong( "an empty read and the end differ" ); } if ( in.eof() ) break; rest += x; } if ( rest != tail ) { wrong( "another tail of " + to_string( rest.size() ) ); } }
      else if ( how == 1 ) { rest = in.getline(); if ( rest != tail or not in.eof() ) { wrong( "the unfinished last line is " + to_string( rest.size() ) + " long" ); } }
      else { bool threw = false; try { in.read_exactly( tail.size() + 1 ); } catch ( const runtime_error & ) { threw = true; } if ( not threw ) { wrong( "more read than there is" ); } if ( not in.eof() ) { wrong( "no end" ); } }
      bool threw = false; try { in.read(); } catch ( const runtime_error & ) { threw = true; } if ( not threw ) { wrong( "a read beyond the end is not refused" ); }
      seen[ "transfers complete" ]++;
    }
    if ( way and no != pieces.size() ) { short_io = 0; char b[ 4096 ]; while ( __real_read( fds[ 0 ], b, sizeof b ) > 0 ) {} }
    if ( t.joinable() ) { t.join(); }
  } catch ( const exception & e ) { VIOL( "io", tag << ": " << e.what() ); }
  short_io = 0;
  seen[ "bytes carried" ] += all.size();
  kinds.insert( "io " + to_string( way ) + " " + to_string( wio ) + " " + to_string( rio ) );
}

/* ---------------------------------------------------------------- datagrams */
static uint64_t now_us() { return chrono::duration_cast<chrono::microseconds>( chrono::system_clock::now().time_since_epoch() ).count(); }

static void udp_case( uint64_t seed )
{
  Rng r( seed );
  const bool six = r() % 2; const string host = six ? "::1" : "127.0.0.1";
  const string tag = "seed" + to_string( seed ) + " " + host;
  UDPSocket rx; const bool stamps = r() % 4; if ( stamps ) { rx.set_timestamps(); }
  rx.set_reuseaddr();
  rx.bind( Address( host, uint16_t( 0 ) ) );
  const int roomy = 1 << 22; ::setsockopt( rx.fd_num(), SOL_SOCKET, SO_RCVBUF, &roomy, sizeof roomy );
  vector<unique_ptr<UDPSocket>> tx;
  for ( int i = 0; i < 3; i++ ) { tx.emplace_back( new UDPSocket ); tx.back()->bind( Address( host, uint16_t( 0 ) ) ); }
  const Address to = rx.local_address();
  if ( to.port() == 0 or to.ip() != host ) { VIOL( "address", tag << ": bound to " << to.to_string() ); return; }
  tx[ 0 ]->connect( to );
  if ( not ( tx[ 0 ]->peer_address() == to ) ) { VIOL( "address", tag << ": the peer is " << tx[ 0 ]->peer_address().to_string() << " instead of " << to.to_string() ); }
  for ( unsigned k = 0; k < 6; k++ ) {
    struct Sent { string s; unsigned from; uint64_t a, b; }; vector<Sent> sent;
    const auto steady0 = chrono::steady_clock::now(); const uint64_t sys0 = now_us();
    for ( unsigned n = 1 + r() % 5; n; n-- ) {
      Sent x; x.from = r() % 3;
      const size_t top = six ? 65527 : 65507, len = vector<size_t> { 0, 1, r() % 1500, 1400 + r() % 40, top, top - r() % 50, r() % top }[ r() % 7 ];
      x.s.resize( len ); for ( auto & c : x.s ) { c = r(); }
      const unsigned before = tx[ x.from ]->write_count();
      x.a = now_us();
      if ( x.from == 0 and r() % 2 ) { tx[ 0 ]->send( x.s ); } else { tx[ x.from ]->sendto( to, x.s ); }
      x.b = now_us();
      if ( tx[ x.from ]->write_count() == before ) { VIOL( "datagram-count", tag << ": sending is not counted" ); }
      sent.push_back( x );
    }
    if ( r() % 4 == 0 ) { bool threw = false; try { tx[ 1 ]->sendto( to, string( 65536 + r() % 1000, 'b' ) ); } catch ( const exception & ) { threw = true; } if ( not threw ) { VIOL( "datagram-big", tag << ": a datagram that cannot be sent is not refused" ); } }
    for ( auto & x : sent ) {
      const unsigned before = rx.read_count();
      const auto got = rx.recv(); const uint64_t end = now_us();
      if ( rx.read_count() == before ) { VIOL( "datagram-count", tag << ": receiving is not counted" ); }
      if ( got.payload != x.s ) { VIOL( "datagram", tag << ": " << got.payload.size() << " bytes arrive instead of " << x.s.size() << ", or others" ); return; }
      const Address from = tx[ x.from ]->local_address();
      if ( not ( got.source_address == from ) or got.source_address.to_string() != from.to_string() ) { VIOL( "datagram-from", tag << ": a datagram from " << from.to_string() << " is said to be from " << got.source_address.to_string() ); }
      const auto drift = int64_t( now_us() - sys0 ) - chrono::duration_cast<chrono::microseconds>( chrono::steady_clock::now() - steady0 ).count();
      if ( not stamps ) { if ( got.timestamp_us != uint64_t( -1 ) ) { VIOL( "datagram-time", tag << ": a timestamp nobody asked for" ); } }
      else if ( abs( drift ) < 200 and ( got.timestamp_us + 500 < x.a or got.timestamp_us > end + 500 ) ) { VIOL( "datagram-time", tag << ": sent between " << x.a << " and " << x.b << ", received before " << end << ", stamped " << got.timestamp_us ); }
      seen[ "datagrams" ]++;
      kinds.insert( "datagram " + host + ( x.s.size() > 65000 ? " huge" : x.s.size() > 1500 ? " large" : x.s.empty() ? " empty" : " small" ) + ( stamps ? " stamped" : "" ) );
    }
    /* answers */
    if ( r() % 2 ) { const unsigned i = r() % 3; rx.sendto( tx[ i ]->local_address(), "answer" ); const auto g = tx[ i ]->recv(); if ( g.payload != "answer" or not ( g.source_address == to ) ) { VIOL( "datagram", tag << ": another answer" ); } }
  }
  auto pr = UnixDomainSocket::make_pair();
  for ( unsigned k = 0; k < 4; k++ ) { string s( 1 + r() % 2000, 'u' ); for ( auto & c : s ) { c = r(); } auto & a = k % 2 ? pr.first : pr.second; auto & b = k % 2 ? pr.second : pr.first; a.write( s ); const string g = b.read(); if ( g != s ) { VIOL( "pair", tag << ": " << g.size() << " bytes of " << s.size() << " through a socket pair" ); } }
}

/* ---------------------------------------------------------------- addresses */
static void address_case( uint64_t seed )
{
  Rng r( seed );
  struct A { Address a; string ip; uint16_t port; int n; };
  vector<A> v;
  for ( int i = 0; i < 5; i++ ) {
    char t[ INET6_ADDRSTRLEN ]; uint8_t b[ 16 ]; string ip; const uint16_t port = r() % 3 ? r() : vector<uint16_t> { 0, 1, 65535 }[ r() % 3 ];
    if ( r() % 2 ) { for ( int k = 0; k < 4; k++ ) { b[ k ] = r() % 3 ? r() : r() % 2 * 255; } inet_ntop( AF_INET, b, t, sizeof t ); ip = t; }
    else { for ( int k = 0; k < 16; k++ ) { b[ k ] = r() % 3 ? r() : 0; } b[ 0 ] = 0x20; inet_ntop( AF_INET6, b, t, sizeof t ); ip = t; }
    if ( i and r() % 3 == 0 ) { ip = v[ 0 ].ip; }
    try {
      Address a = r() % 2 ? Address( ip, port ) : Address( ip, to_string( port ) );
      if ( r() % 3 == 0 ) { a = Address( a.to_sockaddr(), a.size() ); }
      if ( r() % 3 == 0 and ip.find( ':' ) == string::npos ) { a = Address( "::ffff:" + ip, port ); }
      if ( a.ip() != ip or a.port() != port or a.ip_port() != make_pair( ip, port ) or a.to_string() != ip + ":" + to_string( port ) ) { VIOL( "address", "seed" << seed << ": " << ip << " " << port << " reads " << a.to_string() ); }
      v.push_back( { a, ip, port, 1 } ); seen[ "addresses" ]++; kinds.insert( ip.find( ':' ) == string::npos ? "IPv4" : "IPv6" );
    } catch ( const exception & e ) { VIOL( "address", "seed" << seed << ": " << ip << ": " << e.what() ); return; }
  }
  v.push_back( { Address(), "", 0, 0 } );
  for ( auto & x : v ) for ( auto & y : v ) { const bool same = x.ip == y.ip and x.port == y.port and x.n == y.n; if ( ( x.a == y.a ) != same ) { VIOL( "address-equal", "seed" << seed << ": '" << x.ip << "' " << x.port << " and '" << y.ip << "' " << y.port << " compare " << ( same ? "different" : "equal" ) ); } seen[ "addresses compared" ]++; }
  static const char * bad[] = { "256.1.1.1", "1.2.3", ":::", "g::1", "localhost?", "", "1.2.3.4.5", "::1::" };
  const char * t = bad[ seed % 8 ];
  if ( string( t ) != "1.2.3" ) { bool threw = false; try { Address a( t, uint16_t( 5 ) ); if ( string( t ).empty() ) threw = true; } catch ( const exception & ) { threw = true; } if ( not threw ) { VIOL( "address-bad", "'" << t << "' is taken for an address" ); } }
  bool threw = false; sockaddr_storage s[ 2 ]; memset( s, 0, sizeof s ); try { Address a( reinterpret_cast<const sockaddr &>( s ), sizeof( s[ 0 ] ) + 1 ); } catch ( const exception & ) { threw = true; } if ( not threw ) { VIOL( "address-bad", "an address larger than there is room for is taken" ); }
}

/* ---------------------------------------------------------------- arrays */
static void array_case( uint64_t seed )
{
  Rng r( seed );
  const unsigned w = 1 + r() % 20, h = 1 + r() % 20; const string tag = "seed" + to_string( seed ) + " " + to_string( w ) + "x" + to_string( h );
  struct Cell { unsigned c, r, x; const Cell * l, * al, * a, * ar; bool operator!=( const Cell & o ) const { return x != o.x; }
    Cell( const TwoD<Cell>::Context & k, unsigned x ) : c( k.column ), r( k.row ), x( x ), l( k.left.initialized() ? k.left.get() : nullptr ), al( k.above_left.initialized() ? k.above_left.get() : nullptr ),
      a( k.above.initialized() ? k.above.get() : nullptr ), ar( k.above_right.initialized() ? k.above_right.get() : nullptr ) {} };
  TwoD<Cell> t( w, h, 5u );
  auto cell = [&]( int c, int y ) -> const Cell * { return c < 0 or y < 0 or c >= int( w ) or y >= int( h ) ? nullptr : &t.at( c, y ); };
  for ( unsigned y = 0; y < h; y++ ) for ( unsigned x = 0; x < w; x++ ) { const Cell & c = t.at( x, y ); if ( c.c != x or c.r != y or c.l != cell( int( x ) - 1, y ) or c.al != cell( int( x ) - 1, int( y ) - 1 ) or c.a != cell( x, int( y ) - 1 ) or c.ar != cell( x + 1, int( y ) - 1 ) ) { VIOL( "array", tag << ": the neighbours of " << x << "," << y ); return; } }
  TwoD<uint8_t> a( w, h ), b( w, h ); vector<uint8_t> m;
  a.forall( [&]( uint8_t & x ) { x = r(); m.push_back( x ); } );
  for ( unsigned y = 0; y < h; y++ ) for ( unsigned x = 0; x < w; x++ ) { if ( a.at( x, y ) != m[ y * w + x ] ) { VIOL( "array", tag << ": forall goes another way" ); return; } }
  b.copy_from( a ); bool ok = a == b; unsigned px = r() % w, py = r() % h; b.at( px, py ) ^= 1 + r() % 255; ok = ok and a != b and not ( a == b ) and a.at( px, py ) == m[ py * w + px ];
  if ( not ok ) { VIOL( "array", tag << ": comparison or copy" ); }
  size_t i = 0; a.forall_ij( [&]( uint8_t & v, unsigned c, unsigned y ) { if ( v != m[ i ] or c != i % w or y != i / w ) { VIOL( "array", tag << ": forall_ij" ); } i++; } );
  i = 0; for ( auto v : a ) { if ( v != m[ i++ ] ) { VIOL( "array", tag << ": iteration" ); break; } }
  if ( i != m.size() ) { VIOL( "array", tag << ": iteration ends after " << i ); }
  if ( w >= 4 and h >= 4 ) {
    const unsigned sx = r() % ( w - 3 ), sy = r() % ( h - 3 ); auto s = a.slice<4, 4>( sx, sy );
    for ( unsigned y = 0; y < 4; y++ ) for ( unsigned x = 0; x < 4; x++ ) {
      if ( s.at( x, y ) != m[ ( sy + y ) * w + sx + x ] or s.row( y ).at( x, 0 ) != s.at( x, y ) or s.column( x ).at( 0, y ) != s.at( x, y ) ) { VIOL( "array", tag << ": slice at " << sx << "," << sy ); }
      if ( s.bottom().at( x, 0 ) != s.at( x, 3 ) or s.right().at( 0, y ) != s.at( 3, y ) ) { VIOL( "array", tag << ": edge of a slice" ); } }
  }
  TwoD<uint8_t> z( 1 + r() % 20, 1 + r() % 20 ); if ( ( z.width() != w or z.height() != h ) and z == a ) { VIOL( "array", tag << ": equal to one of another size" ); }
  TwoD<uint8_t> q( move( a ) ); if ( q.at( px, py ) != m[ py * w + px ] ) { VIOL( "array", tag << ": moved" ); }
  seen[ "arrays" ]++; kinds.insert( "array " + to_string( w ) + "x" + to_string( h ) );
}

int main( int argc, char * argv[] )
{
  if ( argc < 5 ) { return 91; }
  signal( SIGPIPE, SIG_IGN );
  const string cmd = argv[ 1 ], dir = argv[ 4 ]; const uint64_t seed = stoull( argv[ 2 ] ); const unsigned n = stoul( argv[ 3 ] );
  for ( unsigned i = 0; i < n; i++ ) {
    try {
      if ( cmd == "chunk" ) { chunk_case( seed + i ); } else if ( cmd == "optional" ) { optional_case( seed + i ); } else if ( cmd == "coder" ) { coder_case( seed + i ); } else if ( cmd == "io" ) { io_case( seed + i, dir ); }
      else if ( cmd == "udp" ) { udp_case( seed + i ); } else if ( cmd == "address" ) { address_case( seed + i ); } else if ( cmd == "array" ) { array_case( seed + i ); } else { return 91; }
      seen[ "cases" ]++;
    } catch ( const exception & e ) { VIOL( "exception", cmd << " seed" << seed + i << ": " << typeid( e ).name() << " " << e.what() ); }
  }
  for ( auto & x : seen ) { cout << "S " << x.second << " " << x.first << "\n"; }
  for ( auto & x : kinds ) { cout << "K " << x << "\n"; }
  cout << "DONE" << endl;
  _exit( 0 );
}
