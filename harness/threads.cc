/* threads SEED THREADS TASKS W H IVF...: many threads code at the same time; what each obtains is
   afterwards compared with the same task run alone (P15). Runs under ThreadSanitizer. */
#include <map>
#include <set>
#include <deque>
#include <thread>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <sched.h>
#include <time.h>
#include "vh.hh"
#include "encoder.hh"
using namespace std;
typedef mt19937_64 Rng;

static uint16_t W, H;
static vector<Stream> streams_;
struct Mid { unsigned stream, at; Decoder d; };
static vector<Mid> mids;                /* decoders in mid-stream, shared and never changed */
static vector<Encoder> encoders;        /* likewise */
static vector<RasterHandle> pics;       /* pictures nobody has hashed yet */

static RasterHandle make_pic( Rng & rng )
{
  MutableRasterHandle m( W, H );
  const unsigned a = 1 + rng() % 9, b = 1 + rng() % 9, c = rng(), noise = rng() % 2 ? 1 : 24;
  auto fill = [&]( TwoD<uint8_t> & t ) { for ( unsigned y = 0; y < t.height(); y++ ) for ( unsigned x = 0; x < t.width(); x++ ) t.at( x, y ) = c + x * a + y * b + rng() % noise; };
  fill( m.get().Y() ); fill( m.get().U() ); fill( m.get().V() );
  return RasterHandle( move( m ) );
}

static string bytesdig( const Bytes & b ) { Digest d; for ( auto x : b ) d.put( x ); return to_string( b.size() ) + ":" + d.str(); }

/* threads get out of step here */
static void jitter( Rng & rng )
{
  switch ( rng() % 12 ) {
  case 0: sched_yield(); break;
  case 1: { timespec t { 0, long( rng() % 300000 ) }; nanosleep( &t, nullptr ); break; }
  default: break;
  }
}

struct Task { char kind; unsigned a, b, c; uint64_t seed;
  string name() const { return string( 1, kind ) + to_string( a ) + "." + to_string( b ) + "." + to_string( c ) + "." + to_string( seed ); } };

static string decode_rest( Decoder d, const Stream & s, unsigned from, unsigned to, Rng & rng, Rng & jit, bool hashes )
{
  string r;
  vector<RasterHandle> keep;
  for ( unsigned i = from; i < to and i < s.frames.size(); i++ ) {
    auto out = d.get_frame_output( chunk( s.frames[ i ] ) );
    jitter( jit );
    r += digest( out.second.get() ).substr( 0, 8 ) + ( out.first ? "s" : "h" );
    if ( hashes ) { r += to_string( out.second.hash() % 9973 ) + "/" + to_string( d.minihash() ) + " "; }
    keep.push_back( out.second );
    if ( rng() % 3 == 0 ) { keep.erase( keep.begin() + rng() % keep.size() ); }
  }
  for ( auto & k : keep ) { r += digest( k.get() )[ 3 ]; }
  return r + line( d );
}

static string perform( const Task & t )
{
  Rng rng( t.seed ), jit( t.seed * 31 + hash<thread::id>()( this_thread::get_id() ) );
  string r;
  switch ( t.kind ) {
  case 'D': return decode_rest( Decoder( W, H ), streams_[ t.a ], 0, 99, rng, jit, t.b );                 /* from the beginning */
  case 'M': return decode_rest( mids[ t.a ].d, streams_[ mids[ t.a ].stream ], mids[ t.a ].at, 99, rng, jit, t.b );   /* from a copy */
  case 'E': { /* encode with a copy of a shared encoder */
    Encoder e( encoders[ t.a ] );
    for ( unsigned i = 0; i <= t.c % 2; i++ ) {
      const VP8Raster & p = pics[ ( t.b + i ) % pics.size() ];
      const Bytes out = t.c < 6 ? e.encode_with_quantizer( p, rng() % 128 ) : t.c < 8 ? e.encode_with_minimum_ssim( p, 0.8 + ( rng() % 15 ) / 100. ) : e.encode_with_target_size( p, 100 + rng() % 2000 );
      r += bytesdig( out ) + " "; jitter( jit );
    }
    return r + line( e.export_decoder() ) + to_string( e.minihash() ); }
  case 'Z': { Encoder e( encoders[ t.a ] ); for ( int i = 0; i < 3; i++ ) { r += to_string( e.estimate_frame_size( pics[ t.b ], rng() % 128 ) ) + " "; jitter( jit ); } return r + line( e.export_decoder() ); }
  case 'H': for ( unsigned i = 0; i < 8; i++ ) { r += to_string( pics[ ( t.a + i * t.b ) % pics.size() ].hash() ) + " "; jitter( jit ); }
    return r + ( pics[ t.a ] == pics[ t.b ] ? "=" : "!" );
  case 'Q': { /* hashes and comparisons of shared decoders */
    const Mid & m = mids[ t.a ], & n = mids[ t.b ];
    return line( m.d ) + ( m.d == n.d ? "=" : "!" ) + to_string( m.d.minihash() ) + to_string( encoders[ t.c % encoders.size() ].minihash() ); }
  case 'P': { /* make and release pictures */
    deque<RasterHandle> v;
    for ( int i = 0; i < 12; i++ ) {
      v.push_back( make_pic( rng ) ); r += digest( v.back().get() ).substr( 0, 8 );
      if ( i % 2 ) r += to_string( v.back().hash() % 9973 );
      jitter( jit );
      if ( v.size() > 1 + t.a % 4 ) { r += to_string( v.front().hash() % 9973 ) + digest( v.front().get() ).substr( 0, 3 ); v.pop_front(); }
    }
    return r; }
  case 'C': { /* damaged frames, concealed */
    Decoder d( mids[ t.a ].d ); d.set_error_concealment( true );
    const Stream & s = streams_[ mids[ t.a ].stream ];
    for ( unsigned i = mids[ t.a ].at; i < s.frames.size(); i++ ) {
      Bytes b( s.frames[ i ].begin(), s.frames[ i ].begin() + min<size_t>( s.frames[ i ].size(), 10 + rng() % s.frames[ i ].size() ) );
      try { auto out = d.get_frame_output( chunk( b ) ); r += digest( out.second.get() ).substr( 0, 8 ); } catch ( const exception & e ) { r += string( "[" ) + e.what() + "]"; }
      jitter( jit );
    }
    return r + parts( d ).all(); }
  case 'N': { /* a new encoder on the state of a shared decoder */
    Encoder e( mids[ t.a ].d, t.c % 2, t.c % 3 ? REALTIME_QUALITY : BEST_QUALITY );
    r = bytesdig( e.encode_with_quantizer( pics[ t.b ], rng() % 128 ) );
    const Decoder d = e.export_decoder();
    return r + line( d ); }
  }
  return r;
}

/* pictures handed from thread to thread */
static mutex hand_mutex;
static deque<pair<RasterHandle, string>> hand;

int main( int argc, char * argv[] )
{
  if ( argc < 7 ) return 91;
  Rng rng( stoull( argv[ 1 ] ) );
  const unsigned T = stoul( argv[ 2 ] ), N = stoul( argv[ 3 ] );
  W = stoul( argv[ 4 ] ); H = stoul( argv[ 5 ] );
  for ( int i = 6; i < argc; i++ ) { streams_.push_back( read_stream( argv[ i ] ) ); }
  for ( unsigned i = 0; i < streams_.size(); i++ ) {
    Decoder d( W, H );
    const unsigned at = rng() % streams_[ i ].frames.size();
    for ( unsigned k = 0; k < at; k++ ) { d.get_frame_output( chunk( streams_[ i ].frames[ k ] ) ); }
    mids.push_back( { i, at, d } );
    if ( rng() % 2 ) { d.get_frame_output( chunk( streams_[ i ].frames[ at ] ) ); mids.push_back( { i, at + 1, d } ); }
  }
  for ( unsigned i = 0; i < 6; i++ ) { pics.push_back( make_pic( rng ) ); }
  if ( rng() % 2 ) { pics.push_back( pics[ 0 ] ); }
  for ( unsigned i = 0; i < 4; i++ ) {
    Encoder e( W, H, i % 2, i % 3 ? REALTIME_QUALITY : BEST_QUALITY );
    /* not all of them have been used before, so that whatever is set up on first use is set up by the threads */
    for ( unsigned k = rng() % 3; k; k-- ) { e.encode_with_quantizer( make_pic( rng ), rng() % 128 ); }
    encoders.push_back( move( e ) );
  }
  /* every thread's work, with tasks in common */
  vector<Task> common;
  static const char kinds_[] = "DMEEZHQPCNHPM";
  for ( unsigned i = 0; i < max( 6u, N ); i++ ) {
    const char k = kinds_[ rng() % ( sizeof kinds_ - 1 ) ];
    Task t { k, 0, 0, unsigned( rng() % 9 ), rng() % 1000000 };
    switch ( k ) {
    case 'D': t.a = rng() % streams_.size(); t.b = rng() % 2; break;
    case 'M': t.a = rng() % mids.size(); t.b = rng() % 2; break;
    case 'E': case 'Z': t.a = rng() % encoders.size(); t.b = rng() % pics.size(); break;
    case 'H': t.a = rng() % pics.size(); t.b = rng() % pics.size(); break;
    case 'Q': t.a = rng() % mids.size(); t.b = rng() % mids.size(); break;
    case 'P': t.a = rng() % 8; break;
    case 'C': t.a = rng() % mids.size(); break;
    case 'N': t.a = rng() % mids.size(); t.b = rng() % pics.size(); break;
    }
    common.push_back( t );
  }
  vector<vector<pair<Task, string>>> results( T );
  vector<vector<Task>> plan( T );
  for ( unsigned i = 0; i < T; i++ ) { for ( unsigned k = 0; k < N; k++ ) { plan[ i ].push_back( common[ rng() % common.size() ] ); } }
  atomic<unsigned> ready { 0 };
  atomic<unsigned> inside { 0 };
  vector<vector<unsigned>> overlap( T );
  vector<thread> threads;
  for ( unsigned i = 0; i < T; i++ ) {
    threads.emplace_back( [&, i] {
      Rng mine( i * 7919 + plan[ i ].size() );
      ready.fetch_add( 1, memory_order_relaxed );
      while ( ready.load( memory_order_relaxed ) < T ) { sched_yield(); }
      for ( const Task & t : plan[ i ] ) {
        overlap[ i ].push_back( inside.fetch_add( 1, memory_order_relaxed ) );
        string r;
        try { r = perform( t ); } catch ( const exception & e ) { r = string( "exception " ) + e.what(); }
        inside.fetch_sub( 1, memory_order_relaxed );
        results[ i ].emplace_back( t, r );
        if ( mine() % 4 == 0 ) { /* give a picture away, take another, look at it and let it go */
          RasterHandle p = make_pic( mine );
          const string d = digest( p.get() ) + ( mine() % 2 ? to_string( p.hash() ) : "" );
          unique_ptr<pair<RasterHandle, string>> got;
          { unique_lock<mutex> l( hand_mutex ); hand.emplace_back( move( p ), d ); if ( hand.size() > 3 ) { got.reset( new pair<RasterHandle, string>( hand.front() ) ); hand.pop_front(); } }
          if ( got ) {
            const string dd = digest( got->first.get() );
            if ( got->second.substr( 0, dd.size() ) != dd ) { unique_lock<mutex> l( hand_mutex ); VIOL( "handed", "a picture handed to another thread changed" ); }
            if ( got->second.size() > dd.size() and got->second.substr( dd.size() ) != to_string( got->first.hash() ) ) { unique_lock<mutex> l( hand_mutex ); VIOL( "handed-hash", "the hash of a picture handed to another thread changed" ); }
          }
        }
      }
    } );
  }
  for ( auto & t : threads ) { t.join(); }
  hand.clear();
  /* alone */
  map<string, string> solo; map<string, unsigned> times;
  unsigned long n = 0, over = 0;
  for ( auto & v : results ) for ( auto & x : v ) {
    const string name = x.first.name();
    times[ name ]++;
    if ( not solo.count( name ) ) {
      try { solo[ name ] = perform( x.first ); } catch ( const exception & e ) { solo[ name ] = string( "exception " ) + e.what(); }
    }
    if ( solo[ name ] != x.second ) {
      size_t i = 0; while ( i < x.second.size() and x.second[ i ] == solo[ name ][ i ] ) { i++; }
      VIOL( string( "differs-" ) + x.first.kind, "task " << name << " in a thread gave ..." << nospace( x.second.substr( i, 60 ) ) << ", alone ..." << nospace( solo[ name ].substr( min( i, solo[ name ].size() ), 60 ) ) );
    }
    n++;
  }
  for ( auto & v : overlap ) { for ( unsigned o : v ) { over += o > 0; } }
  cout << "S " << n << " tasks run by threads\nS " << over << " tasks begun while others were running\nS " << solo.size() << " different tasks\n";
  unsigned shared = 0; for ( auto & x : times ) { shared += x.second > 1; }
  cout << "S " << shared << " tasks run by several threads\n";
  string mix; map<char, unsigned> m; for ( auto & v : results ) for ( auto & x : v ) { m[ x.first.kind ]++; }
  for ( auto & x : m ) { cout << "S " << x.second << " tasks of kind " << x.first << "\n"; mix += x.first; }
  string order; for ( auto & v : overlap ) { for ( unsigned o : v ) { order += char( '0' + min( o, 9u ) ); } }
  cout << "K " << order << "\nDONE" << endl;
  pics.clear(); mids.clear(); encoders.clear();
  return 0;
}
