/* runs a script of encoder operations and watches, after every one of them, that the encoder
   and a decoder of its output agree; events go to stdout.

   enc W H FRAMES.yuv SCRIPT OUTDIR [nowatch]

   new S TWO RT          slot S: fresh encoder                from S D TWO RT    slot S: encoder in the state of decoder D
   dec D FILE.ivf N      decoder D: N frames of FILE          fromenc S E TWO RT slot S: encoder in the state exported by slot E
   copy S E / move S E / assign S E   slot S from slot E      drop S
   q S F QI / s S F SIZE / m S F SSIM   encode picture F
   est S F QI            size estimate                        exp S | hash S
   hold S                keep the exported pictures of S and check them to the end
   noise N               leave garbage in the raster pool     scan S F LO HI     estimates over a range */
#include <map>
#include <sstream>
#include <cmath>
#include "vh.hh"
#include "encoder.hh"

using namespace std;

static vector<RasterHandle> pics;
static vector<string> picdig;
static uint16_t W, H;

struct Slot
{
  unique_ptr<Encoder> enc {};
  unique_ptr<Decoder> dec {};   /* decodes what the encoder writes; null until the stream has begun */
  vector<Bytes> frames {};
  vector<RasterHandle> shown {};
  bool fresh = false;
};

static map<int, Slot> slots;
static map<int, unique_ptr<Decoder>> decoders;
struct Held { Decoder d; string p; };
static vector<Held> held;

/* own SSIM: 8x8 windows on a grid of 4, 8-bit constants as in x264 */
static double own_ssim( const TwoD<uint8_t> & a, const TwoD<uint8_t> & b )
{
  double sum = 0; unsigned n = 0;
  for ( unsigned y = 0; y + 8 <= a.height(); y += 4 ) for ( unsigned x = 0; x + 8 <= a.width(); x += 4 ) {
    long s1 = 0, s2 = 0, ss = 0, s12 = 0;
    for ( unsigned j = 0; j < 8; j++ ) for ( unsigned i = 0; i < 8; i++ ) {
      long p = a.at( x + i, y + j ), q = b.at( x + i, y + j );
      s1 += p; s2 += q; ss += p * p + q * q; s12 += p * q;
    }
    const double c1 = floor( .01 * .01 * 255 * 255 * 64 + .5 ), c2 = floor( .03 * .03 * 255 * 255 * 64 * 63 + .5 );
    const double vars = double( ss ) * 64 - double( s1 ) * s1 - double( s2 ) * s2;
    const double covar = double( s12 ) * 64 - double( s1 ) * s2;
    sum += ( 2. * s1 * s2 + c1 ) * ( 2 * covar + c2 ) / ( ( double( s1 ) * s1 + double( s2 ) * s2 + c1 ) * ( vars + c2 ) );
    n++;
  }
  return n ? sum / n : 1;
}

struct Err { double mse; int peak; };
static Err plane_error( const TwoD<uint8_t> & a, const TwoD<uint8_t> & b, unsigned w, unsigned h )
{
  double s = 0; int m = 0;
  for ( unsigned y = 0; y < h; y++ ) for ( unsigned x = 0; x < w; x++ ) {
    int d = int( a.at( x, y ) ) - int( b.at( x, y ) ); s += d * d; m = max( m, abs( d ) );
  }
  return { s / ( double( w ) * h ), m };
}

static string bytesdig( const Bytes & b ) { Digest d; for ( auto x : b ) d.put( x ); return d.str(); }

static void encoded( Slot & s, int slot, const string & op, unsigned f, Bytes && out )
{
  if ( digest( pics.at( f ).get() ) != picdig.at( f ) ) VIOL( "input-changed", op << ": the picture given to the encoder was changed" );
  const bool key = not out.empty() and not ( out.at( 0 ) & 1 );
  const bool begins = not s.dec;
  if ( begins ) {
    s.dec.reset( new Decoder( W, H ) );
    if ( not key ) VIOL( "no-key", "a fresh encoder did not start with a key frame" );
  }
  unsigned qi = 0, lf = 0;
  string ty;
  pair<bool, RasterHandle> res { false, RasterHandle( MutableRasterHandle( W, H ) ) };
  try {
    UncompressedChunk u( chunk( out ), W, H, false );
    if ( u.key_frame() ) {
      const KeyFrame fr = s.dec->parse_frame<KeyFrame>( u );
      qi = fr.header().quant_indices.y_ac_qi; lf = fr.header().loop_filter_level; ty = "K";
      res = s.dec->decode_frame( fr );
    } else {
      const InterFrame fr = s.dec->parse_frame<InterFrame>( u );
      qi = fr.header().quant_indices.y_ac_qi; lf = fr.header().loop_filter_level; ty = "I";
      res = s.dec->decode_frame( fr );
    }
  } catch ( const exception & e ) {
    VIOL( "undecodable", op << ": the encoder's frame is refused: " << e.what() );
    s.frames.push_back( move( out ) );
    return;
  }
  if ( not res.first ) VIOL( "hidden", op << ": the encoder's frame is not shown" );
  const Decoder ex = s.enc->export_decoder();
  const Parts a = parts( *s.dec ), b = parts( ex );
  if ( a.all() != b.all() ) {
    string w;
    if ( a.state != b.state ) w += " state";
    if ( a.last != b.last ) w += " last";
    if ( a.golden != b.golden ) w += " golden";
    if ( a.alt != b.alt ) w += " alternate";
    VIOL( "drift", op << " (" << ty << " frame): encoder and decoder differ in" << w );
  } else if ( not ( ex == *s.dec ) ) VIOL( "drift-eq", op << ": exported decoder does not equal the decoder" );
  if ( s.enc->minihash() != s.dec->minihash() ) VIOL( "drift-hash", op << ": minihash of encoder " << s.enc->minihash() << " of decoder " << s.dec->minihash() );
  const VP8Raster & r = res.second.get();
  const VP8Raster & o = pics.at( f ).get();
  const Err ey = plane_error( o.Y(), r.Y(), W, H ), eu = plane_error( o.U(), r.U(), ( W + 1 ) / 2, ( H + 1 ) / 2 ), ev = plane_error( o.V(), r.V(), ( W + 1 ) / 2, ( H + 1 ) / 2 );
  const auto st = s.enc->stats();
  printf( "E %d %s %s len %zu dig %s parts %s hash %u qi %u lf %u ssim %.6f true %.6f mse %.3f %.3f %.3f peak %d %d %d\n", slot, op.c_str(), ty.c_str(),
          out.size(), bytesdig( out ).c_str(), b.all().c_str(), s.dec->minihash(), qi, lf, st.ssim.initialized() ? st.ssim.get() : -2., own_ssim( r.Y(), o.Y() ),
          ey.mse, eu.mse, ev.mse, ey.peak, eu.peak, ev.peak );
  s.frames.push_back( move( out ) );
  s.shown.push_back( res.second );
}

static void unchanged( Slot & s, const string & before, const string & what )
{
  if ( line( s.enc->export_decoder() ) != before ) VIOL( "probe-changes", what << " changed the encoder's state" );
}

int main( int argc, char * argv[] )
{
  if ( argc < 6 ) return 90;
  W = atoi( argv[ 1 ] ); H = atoi( argv[ 2 ] );
  const Bytes yuv = slurp( argv[ 3 ] );
  const unsigned cw = ( W + 1 ) / 2, ch = ( H + 1 ) / 2, fs = W * H + 2 * cw * ch;
  for ( size_t p = 0; p + fs <= yuv.size(); p += fs ) {
    MutableRasterHandle m( W, H );
    VP8Raster & t = m.get();
    auto fill = [&]( TwoD<uint8_t> & pl, size_t off, unsigned w, unsigned h ) {
      for ( unsigned y = 0; y < pl.height(); y++ ) for ( unsigned x = 0; x < pl.width(); x++ ) pl.at( x, y ) = yuv.at( off + min( y, h - 1 ) * w + min( x, w - 1 ) );
    };
    fill( t.Y(), p, W, H ); fill( t.U(), p + W * H, cw, ch ); fill( t.V(), p + W * H + cw * ch, cw, ch );
    pics.emplace_back( move( m ) );
    picdig.push_back( digest( pics.back().get() ) );
  }
  mt19937_64 rng( 12345 );
  ifstream sc( argv[ 4 ] );
  string l;
  int ln = 0;
  while ( getline( sc, l ) ) {
    ln++;
    istringstream in( l );
    string op; int S = -1; in >> op;
    if ( op.empty() ) continue;
    const string tag = [&]{ string t = l; for ( auto & c : t ) if ( c == ' ' ) c = '_'; return t; }();
    try {
      if ( op == "noise" ) { int n; in >> n; poison_pool( W, H, n, rng ); continue; }
      in >> S;
      if ( op == "new" ) { int t, r; in >> t >> r; Slot s; s.enc.reset( new Encoder( W, H, t, r ? REALTIME_QUALITY : BEST_QUALITY ) ); s.fresh = true; slots[ S ] = move( s ); continue; }
      if ( op == "dec" ) {
        string fn; int n; in >> fn >> n;
        const Stream st = read_stream( fn );
        unique_ptr<Decoder> d( new Decoder( W, H ) );
        for ( int i = 0; i < n and i < int( st.frames.size() ); i++ ) d->parse_and_decode_frame( chunk( st.frames.at( i ) ) );
        decoders[ S ] = move( d ); continue;
      }
      if ( op == "from" or op == "fromenc" ) {
        int D, t, r; in >> D >> t >> r;
        Decoder d = op == "from" ? *decoders.at( D ) : slots.at( D ).enc->export_decoder();
        Slot s; s.enc.reset( new Encoder( d, t, r ? REALTIME_QUALITY : BEST_QUALITY ) ); s.dec.reset( new Decoder( d ) );
        if ( not ( s.enc->export_decoder() == d ) or s.enc->minihash() != d.minihash() ) VIOL( "start", "an encoder does not report the state it was started from" );
        if ( op == "fromenc" ) { s.frames = slots.at( D ).frames; s.shown = slots.at( D ).shown; s.fresh = slots.at( D ).fresh; }
        slots[ S ] = move( s ); continue;
      }
      if ( op == "drop" ) { slots.erase( S ); continue; }
      if ( op == "copy" or op == "move" or op == "assign" ) {
        int E; in >> E;
        Slot & e = slots.at( E );
        const string before = line( e.enc->export_decoder() );
        Slot s; s.frames = e.frames; s.shown = e.shown; s.fresh = e.fresh; if ( e.dec ) s.dec.reset( new Decoder( *e.dec ) );
        if ( op == "copy" ) { s.enc.reset( new Encoder( *e.enc ) ); unchanged( e, before, "copying" ); }
        else if ( op == "move" ) { s.enc.reset( new Encoder( move( *e.enc ) ) ); slots.erase( E ); }
        else {
          if ( slots.count( S ) and slots.at( S ).enc ) s.enc = move( slots.at( S ).enc ); else s.enc.reset( new Encoder( W, H, true, BEST_QUALITY ) );
          *s.enc = move( *e.enc ); slots.erase( E );
        }
        if ( line( s.enc->export_decoder() ) != before ) VIOL( "copy-differs", tag << ": the new encoder is in another state" );
        slots[ S ] = move( s ); continue;
      }
      Slot & s = slots.at( S );
      if ( op == "q" or op == "s" or op == "m" ) {
        unsigned f; double x; in >> f >> x;
        Bytes out = op == "q" ? s.enc->encode_with_quantizer( pics.at( f ), uint8_t( x ) )
          : op == "s" ? s.enc->encode_with_target_size( pics.at( f ), size_t( x ) ) : s.enc->encode_with_minimum_ssim( pics.at( f ), x );
        encoded( s, S, tag, f, move( out ) );
      } else if ( op == "est" or op == "scan" ) {
        unsigned f, lo, hi; in >> f >> lo;
        if ( op == "scan" ) in >> hi; else hi = lo;
        const string before = line( s.enc->export_decoder() );
        printf( "X %d %s", S, tag.c_str() );
        for ( unsigned q = lo; q <= hi; q++ ) printf( " %zu", s.enc->estimate_frame_size( pics.at( f ), q ) );
        printf( "\n" ); fflush( stdout );
        unchanged( s, before, tag );
        if ( digest( pics.at( f ).get() ) != picdig.at( f ) ) VIOL( "input-changed", "an estimate changed the picture" );
      } else if ( op == "exp" or op == "hash" ) {
        const string before = line( s.enc->export_decoder() );
        Decoder d = s.enc->export_decoder();
        if ( op == "hash" and s.enc->minihash() != d.minihash() ) VIOL( "hash", "minihash is not that of the exported decoder" );
        /* what is done with the exported decoder does not concern the encoder */
        if ( not s.frames.empty() ) { try { d.parse_and_decode_frame( chunk( s.frames.back() ) ); } catch ( const exception & ) {} }
        unchanged( s, before, tag );
      } else if ( op == "hold" ) {
        Decoder d = s.enc->export_decoder();
        held.push_back( Held { d, parts( d ).all() } );
      } else { cerr << "HARNESS bad op " << l << endl; return 90; }
    } catch ( const out_of_range & e ) {
      VIOL( "exception", tag << ": out_of_range " << e.what() );
    } catch ( const exception & e ) {
      VIOL( "exception", tag << ": " << e.what() );
    }
    for ( const auto & h : held ) if ( parts( h.d ).all() != h.p ) { VIOL( "held-changed", tag << ": a picture exported earlier has changed" ); }
  }
  /* every picture handed out earlier still has the content it had: the stream decoded anew */
  for ( auto & kv : slots ) {
    Slot & s = kv.second;
    const string base = string( argv[ 5 ] ) + "/s" + to_string( kv.first );
    if ( s.frames.empty() or not s.fresh ) continue;
    ofstream o( base + ".ivf", ios::binary );
    auto p = [&]( uint64_t v, int n ) { for ( int i = 0; i < n; i++ ) o.put( char( v >> ( 8 * i ) ) ); };
    o << "DKIF"; p( 0, 2 ); p( 32, 2 ); o << "VP80"; p( W, 2 ); p( H, 2 ); p( 30, 4 ); p( 1, 4 ); p( s.frames.size(), 4 ); p( 0, 4 );
    for ( size_t i = 0; i < s.frames.size(); i++ ) { p( s.frames[ i ].size(), 4 ); p( i, 8 ); o.write( (const char *)s.frames[ i ].data(), s.frames[ i ].size() ); }
    ofstream y( base + ".yuv", ios::binary );
    for ( const auto & r : s.shown ) {
      const VP8Raster & t = r.get();
      for ( unsigned j = 0; j < H; j++ ) for ( unsigned i = 0; i < W; i++ ) y.put( t.Y().at( i, j ) );
      for ( unsigned j = 0; j < ch; j++ ) for ( unsigned i = 0; i < cw; i++ ) y.put( t.U().at( i, j ) );
      for ( unsigned j = 0; j < ch; j++ ) for ( unsigned i = 0; i < cw; i++ ) y.put( t.V().at( i, j ) );
    }
    printf( "STREAM %d %zu\n", kv.first, s.frames.size() );
  }
  /* before the pools go */
  slots.clear(); decoders.clear(); held.clear(); pics.clear();
  printf( "DONE\n" );
}
