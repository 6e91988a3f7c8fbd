// LINK: -Wl,--wrap=write -Wl,--wrap=read -Wl,--wrap=ioctl
/* rawvideo y4m SEED N DIR | jpeg SEED N DIR | camera SEED N DIR: raw video in and out (P12) */
#include "vh.hh"
#include "yuv4mpeg.hh"
#include "camera.hh"
#include "jpeg.hh"
#include "ivf_reader.hh"
#include <map>
#include <set>
#include <deque>
#include <thread>
#include <algorithm>
#include <fcntl.h>
#include <csignal>
#include <cstdarg>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <time.h>

using namespace std;
typedef mt19937_64 Rng;

static map<string, uint64_t> seen;
static set<string> kinds;

/* ------------------------------- the system, sometimes handing over less than asked for */
static unsigned short_io = 0;      /* 0: as asked; otherwise at most this many bytes, at random */
static thread_local mt19937 io_rng( 1 );
extern "C" {
ssize_t __real_write( int, const void *, size_t );
ssize_t __real_read( int, void *, size_t );
int __real_ioctl( int, unsigned long, ... );
ssize_t __wrap_write( int fd, const void * b, size_t n ) { if ( short_io and n > 1 ) { n = 1 + io_rng() % min<size_t>( n, short_io ); } return __real_write( fd, b, n ); }
ssize_t __wrap_read( int fd, void * b, size_t n ) { if ( short_io and n > 1 ) { n = 1 + io_rng() % min<size_t>( n, short_io ); } return __real_read( fd, b, n ); }
}

static Bytes noise( Rng & rng, size_t n )
{
  Bytes b( n );
  const int style = rng() % 5;
  uint8_t k = rng(); const uint8_t step = rng() | 1;
  for ( size_t i = 0; i < n; i++ ) {
    b[ i ] = style == 0 ? uint8_t( rng() ) : style == 1 ? ( k += step ) : style == 2 ? uint8_t( "FRAME\n"[ i % 6 ] ) : style == 3 ? ( rng() % 2 ? 10 : 255 ) : uint8_t( i );
  }
  return b;
}

struct Pic { unsigned w, h; Bytes d;   /* planar 4:2:0 as in the file */
  unsigned cw() const { return ( w + 1 ) / 2; } unsigned ch() const { return ( h + 1 ) / 2; }
  uint8_t at( unsigned plane, unsigned x, unsigned y ) const
  { return plane == 0 ? d[ size_t( y ) * w + x ] : d[ size_t( w ) * h + ( plane - 1 ) * size_t( cw() ) * ch() + size_t( y ) * cw() + x ]; } };

static size_t pic_size( unsigned w, unsigned h ) { return size_t( w ) * h + 2 * size_t( ( w + 1 ) / 2 ) * ( ( h + 1 ) / 2 ); }

/* the raster must show the picture, and repeat its edge beyond it */
static void compare( const string & tag, const Pic & p, const BaseRaster & r, const bool edges = true )
{
  if ( r.display_width() != p.w or r.display_height() != p.h ) { VIOL( "size", tag << ": the raster is " << r.display_width() << "x" << r.display_height() << ", the picture " << p.w << "x" << p.h ); return; }
  for ( unsigned plane = 0; plane < 3; plane++ ) {
    const TwoD<uint8_t> & t = plane == 0 ? r.Y() : plane == 1 ? r.U() : r.V();
    const unsigned w = plane ? p.cw() : p.w, h = plane ? p.ch() : p.h;
    if ( t.width() < w or t.height() < h ) { VIOL( "plane-size", tag << ": plane " << plane << " is " << t.width() << "x" << t.height() ); return; }
    for ( unsigned y = 0; y < ( edges ? t.height() : h ); y++ ) for ( unsigned x = 0; x < ( edges ? t.width() : w ); x++ ) {
      const uint8_t want = p.at( plane, min( x, w - 1 ), min( y, h - 1 ) );
      if ( t.at( x, y ) != want ) {
        VIOL( x < w and y < h ? "sample" : "edge", tag << ": plane " << plane << " sample " << x << "," << y << " is " << int( t.at( x, y ) ) << " instead of " << int( want ) << " (" << p.w << "x" << p.h << ")" );
        return;
      }
    }
  }
  seen[ "pictures compared sample by sample" ]++;
}

static unsigned dim( Rng & rng )
{
  switch ( rng() % 8 ) {
  case 0: return 1;
  case 1: return 2;
  case 2: return 15 + rng() % 3;
  case 3: return 31 + rng() % 3;
  case 4: return 1 + rng() % 200;
  default: return 1 + rng() % 60;
  }
}

static string y4m_header( Rng & rng, unsigned w, unsigned h )
{
  vector<string> t { "W" + to_string( w ), "H" + to_string( h ) };
  static const char * C[] = { "C420", "C420jpeg", "C420paldv", "C420mpeg2" };
  if ( rng() % 2 ) t.push_back( C[ rng() % 4 ] );
  if ( rng() % 2 ) t.push_back( vector<string> { "F30:1", "F24:1", "F30000:1001", "F0:0", "F60:1" }[ rng() % 5 ] );
  if ( rng() % 2 ) t.push_back( vector<string> { "Ip", "It", "Ib", "Im" }[ rng() % 4 ] );
  if ( rng() % 2 ) t.push_back( vector<string> { "A1:1", "A0:0", "A128:117" }[ rng() % 3 ] );
  if ( rng() % 3 == 0 ) t.push_back( "XYSCSS=420JPEG" );
  if ( rng() % 4 == 0 ) t.push_back( "XCOLORRANGE=LIMITED" );
  for ( size_t i = 0; i < t.size(); i++ ) { swap( t[ i ], t[ i + rng() % ( t.size() - i ) ] ); }
  string s = "YUV4MPEG2";
  for ( auto & x : t ) { s += " " + x; }
  return s + "\n";
}

static void put( const string & fn, const string & s ) { ofstream f( fn, ios::binary ); f << s; if ( not f ) { cerr << "HARNESS cannot write\n"; exit( 92 ); } }

static void raw_write( int fd, const string & s, Rng & rng, unsigned piece, bool naps )
{
  size_t at = 0;
  while ( at < s.size() ) {
    const size_t n = min<size_t>( s.size() - at, 1 + rng() % piece );
    const ssize_t k = __real_write( fd, s.data() + at, n );
    if ( k <= 0 ) return;
    at += k;
    if ( naps and rng() % 16 == 0 ) { timespec t { 0, long( rng() % 30000 ) }; nanosleep( &t, nullptr ); }
  }
}

struct Input
{
  int fd = -1; thread feeder;
  ~Input() { if ( feeder.joinable() ) feeder.join(); }
};

/* the same bytes through a file, a pipe or a socket */
static void open_input( Input & in, Rng & rng, const string & data, const string & dir, string & how )
{
  const unsigned kind = rng() % 3;
  if ( kind == 0 ) {
    const string fn = dir + "/in.y4m"; put( fn, data );
    in.fd = open( fn.c_str(), O_RDONLY ); how = "file";
  } else {
    int f[ 2 ];
    if ( kind == 1 ? pipe( f ) : socketpair( AF_UNIX, SOCK_STREAM, 0, f ) ) exit( 92 );
    how = kind == 1 ? "pipe" : "socket";
    if ( kind == 1 and rng() % 2 ) { fcntl( f[ 1 ], F_SETPIPE_SZ, 4096 ); }
    in.fd = f[ 0 ];
    const int w = f[ 1 ]; const uint64_t s = rng(); const unsigned piece = vector<unsigned> { 1, 7, 100, 4096, 100000 }[ rng() % 5 ]; const bool naps = rng() % 3 == 0;
    how += to_string( piece );
    in.feeder = thread( [w, s, piece, naps, data] { Rng r( s ); raw_write( w, data, r, data.size() < 20000 ? piece : max( piece, 64u ), naps ); close( w ); } );
  }
}

static void y4m_case( uint64_t seed, const string & dir )
{
  Rng rng( seed );
  io_rng.seed( seed );
  string tag = "seed" + to_string( seed );
  const unsigned w = dim( rng ), h = dim( rng ), n = rng() % 6;
  vector<Pic> pics;
  string data = y4m_header( rng, w, h );
  vector<size_t> starts;
  for ( unsigned i = 0; i < n; i++ ) {
    pics.push_back( { w, h, noise( rng, pic_size( w, h ) ) } );
    starts.push_back( data.size() );
    data += rng() % 12 ? "FRAME\n" : "FRAME Ip\n";
    data.append( reinterpret_cast<const char *>( pics.back().d.data() ), pics.back().d.size() );
  }
  starts.push_back( data.size() );
  /* sometimes the end is missing */
  size_t cut = data.size();
  if ( rng() % 4 == 0 ) { cut = rng() % 3 ? rng() % ( data.size() + 1 ) : starts[ rng() % starts.size() ] + rng() % 8; cut = min( cut, data.size() ); }
  const bool whole = cut == data.size();
  data.resize( cut );
  unsigned complete = 0;
  while ( complete < n and starts[ complete + 1 ] <= cut ) { complete++; }
  poison_pool( w, h, 3, rng );
  Input in; string how;
  open_input( in, rng, data, dir, how );
  short_io = rng() % 3 == 0 ? vector<unsigned> { 1, 2, 50, 5000 }[ rng() % 4 ] : 0;
  tag += " " + to_string( w ) + "x" + to_string( h ) + " " + how + " io" + to_string( short_io ) + " cut" + to_string( data.size() - cut );
  vector<RasterHandle> got;
  bool failed = false, ended = false;
  try {
    YUV4MPEGReader reader { FileDescriptor( in.fd ) };
    if ( cut >= starts[ 0 ] and ( reader.display_width() != w or reader.display_height() != h or reader.frame_length() != pic_size( w, h ) or reader.y_plane_length() != size_t( w ) * h ) ) {
      VIOL( "y4m-header", tag << ": the reader says " << reader.display_width() << "x" << reader.display_height() << ", " << reader.frame_length() << " bytes per frame" );
    }
    for ( unsigned i = 0; i <= n; i++ ) {
      Optional<RasterHandle> r = reader.get_next_frame();
      if ( not r.initialized() ) { ended = true; break; }
      got.push_back( r.get() );
      if ( i < complete ) { compare( tag + " frame " + to_string( i ), pics[ i ], r.get().get() ); }
    }
  } catch ( const exception & e ) { failed = true; tag += string( " (" ) + e.what() + ")"; }
  short_io = 0;
  seen[ whole ? "videos read" : "truncated videos read" ]++; seen[ "frames read" ] += got.size();
  if ( whole and ( failed or not ended or got.size() != n ) ) { VIOL( "y4m-read", tag << ": " << got.size() << " of " << n << " frames" << ( failed ? ", then an exception" : ended ? "" : ", and no end" ) ); }
  if ( not whole and got.size() != complete ) { VIOL( "y4m-cut", tag << ": " << got.size() << " frames from a file that holds " << complete << " complete ones" ); }
  if ( not whole and not failed and complete < n and cut >= starts[ complete ] + 10 ) { VIOL( "y4m-cut-silent", tag << ": a frame that ends early goes unnoticed" ); }
  /* frames read earlier stay what they were */
  for ( unsigned i = 0; i < got.size() and i < complete; i++ ) { compare( tag + " frame " + to_string( i ) + " afterwards", pics[ i ], got[ i ].get() ); }
  kinds.insert( "y4m-" + how + "-" + to_string( w % 16 ) + "x" + to_string( h % 16 ) + ( whole ? "" : "cut" ) );
  if ( in.feeder.joinable() ) in.feeder.join();

  /* and out again */
  if ( got.empty() or not whole ) return;
  YUV4MPEGHeader head( got[ 0 ].get() );
  string want = head.to_string();
  for ( auto & p : pics ) { want += "FRAME\n"; want.append( reinterpret_cast<const char *>( p.d.data() ), p.d.size() ); }
  string out;
  const unsigned way = rng() % 2;
  if ( way == 0 ) {
    const string fn = dir + "/out.y4m";
    FileDescriptor fd( open( fn.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600 ) );
    short_io = rng() % 2 ? vector<unsigned> { 1, 3, 500 }[ rng() % 3 ] : 0;
    fd.write( head.to_string() );
    for ( auto & r : got ) { YUV4MPEGFrameWriter::write( r.get(), fd ); }
    short_io = 0;
    const Bytes b = slurp( fn ); out.assign( b.begin(), b.end() );
  } else {
    int f[ 2 ]; if ( pipe( f ) ) exit( 92 );
    fcntl( f[ 1 ], F_SETPIPE_SZ, 4096 );
    thread sink( [&out, &f] { char b[ 3000 ]; ssize_t k; while ( ( k = __real_read( f[ 0 ], b, sizeof b ) ) > 0 ) { out.append( b, k ); } } );
    try {
      FileDescriptor fd( f[ 1 ] );
      fd.write( head.to_string() );
      for ( auto & r : got ) { YUV4MPEGFrameWriter::write( r.get(), fd ); }
    } catch ( ... ) { sink.join(); throw; }
    sink.join(); close( f[ 0 ] );
  }
  seen[ "videos written" ]++; seen[ "frames written" ] += got.size();
  if ( out != want ) {
    size_t i = 0; while ( i < out.size() and i < want.size() and out[ i ] == want[ i ] ) { i++; }
    VIOL( "y4m-write", tag << ": " << out.size() << " bytes written, expected " << want.size() << ", first difference at " << i );
  }
  /* dump() writes the bare samples */
  const string fn = dir + "/dump.yuv"; FILE * f = fopen( fn.c_str(), "wb" ); got.back().get().dump( f ); fclose( f );
  if ( slurp( fn ) != pics.back().d ) { VIOL( "dump", tag << ": dump() differs from the picture" ); }
  put( dir + "/again.y4m", out );
  try {
    YUV4MPEGReader again( dir + "/again.y4m" );
    for ( auto & p : pics ) { Optional<RasterHandle> r = again.get_next_frame(); if ( not r.initialized() ) { VIOL( "reread", tag << ": frames missing in what was written" ); break; } compare( tag + " read again", p, r.get().get() ); }
    if ( again.get_next_frame().initialized() ) { VIOL( "reread", tag << ": more frames than written" ); }
  } catch ( const exception & e ) { VIOL( "reread", tag << ": what was written cannot be read: " << e.what() ); }
}

/* what is not 8-bit 4:2:0, or not Y4M at all, is refused */
static void refuse_case( uint64_t seed, const string & dir )
{
  Rng rng( seed );
  static const char * heads[] = { "YUV4MPEG2 W8 H8 C422\n", "YUV4MPEG2 W8 H8 C444\n", "YUV4MPEG2 W8 H8 Cmono\n", "YUV4MPEG2 W8 H8 C420p10\n", "YUV4MPEG2 W8 H8 C420p16 Ip\n", "YUV4MPEG2 W8 C420\n", "YUV4MPEG2 H8\n",
                                  "YUV4MPEG W8 H8\n", "RIFF W8 H8\n", "YUV4MPEG2 W0 H8\n", "YUV4MPEG2 W8 H-8\n", "YUV4MPEG2 W65544 H8\n", "YUV4MPEG2 W8 H4294967304\n", "YUV4MPEG2 Wx H8\n", "\n", "", "YUV4MPEG2 W8 H8 C411\n", "YUV4MPEG2 W8 H8 C444alpha\n" };
  if ( rng() % 2 ) {
    /* anything but a frame where one should start: the frames before it are read, then it is refused */
    static const char * marks[] = { "\n", "\n\n", "FRAM\n", "FRAMES\n", "frame\n", " FRAME\n", "FRAMEIp\n", "YUV4MPEG2 W8 H8\n", "EOF\n", "\1FRAME\n" };
    const unsigned before = rng() % 4; string data = "YUV4MPEG2 W8 H8 F30:1 Ip C420\n";
    for ( unsigned i = 0; i < before + 3; i++ ) { data += i == before ? marks[ rng() % ( sizeof marks / sizeof *marks ) ] : "FRAME\n"; data.append( 8 * 8 * 3 / 2, char( 0xf0 + i ) ); }
    put( dir + "/bad.y4m", data );
    unsigned got = 0;
    try {
      YUV4MPEGReader r( dir + "/bad.y4m" );
      while ( r.get_next_frame().initialized() ) { got++; }
      VIOL( "marker-taken", "a video whose frame " << before << " does not start as a frame is read as one of " << got << " frames" );
    } catch ( const exception & e ) { if ( got != before ) { VIOL( "marker-frames", got << " frames read before the frame that is damaged, number " << before ); } seen[ "damaged videos refused" ]++; }
    return;
  }
  const string head = heads[ seed % ( sizeof heads / sizeof *heads ) ];
  string data = head;
  for ( unsigned i = rng() % 3 + 1; i; i-- ) { data += "FRAME\n"; const Bytes b = noise( rng, 8 * 8 * 3 ); data.append( reinterpret_cast<const char *>( b.data() ), b.size() ); }
  put( dir + "/bad.y4m", data );
  try {
    YUV4MPEGReader r( dir + "/bad.y4m" );
    VIOL( "taken", "a video with the header '" << nospace( head ) << "' is read as " << r.display_width() << "x" << r.display_height() );
  } catch ( const exception & e ) { seen[ "unsuitable videos refused" ]++; }
}

/* ------------------------------------------------------------------------------- JPEG */
struct JErr { jpeg_error_mgr m; };
static void jfail( j_common_ptr c ) { char b[ JMSG_LENGTH_MAX ]; c->err->format_message( c, b ); throw runtime_error( string( "own libjpeg: " ) + b ); }
static void jquiet( j_common_ptr, int ) {}

static Bytes make_jpeg( Rng & rng, unsigned w, unsigned h, int hs = 2, int vs = 1 )
{
  jpeg_compress_struct c; jpeg_error_mgr e;
  c.err = jpeg_std_error( &e ); e.error_exit = jfail;
  jpeg_create_compress( &c );
  unsigned char * mem = nullptr; unsigned long len = 0;
  jpeg_mem_dest( &c, &mem, &len );
  c.image_width = w; c.image_height = h; c.input_components = 3; c.in_color_space = JCS_YCbCr;
  jpeg_set_defaults( &c );
  jpeg_set_quality( &c, vector<int> { 1, 20, 50, 75, 90, 100 }[ rng() % 6 ], TRUE );
  for ( int i = 0; i < 3; i++ ) { c.comp_info[ i ].h_samp_factor = i ? 1 : hs; c.comp_info[ i ].v_samp_factor = i ? 1 : vs; }
  if ( rng() % 4 == 0 ) jpeg_simple_progression( &c );
  if ( rng() % 4 == 0 ) c.optimize_coding = TRUE;
  if ( rng() % 3 == 0 ) c.restart_interval = 1 + rng() % 5;
  jpeg_start_compress( &c, TRUE );
  const int style = rng() % 4; const unsigned sx = 1 + rng() % 9, sy = 1 + rng() % 9;
  Bytes row( w * 3 );
  for ( unsigned y = 0; y < h; y++ ) {
    for ( unsigned x = 0; x < w * 3; x++ ) { row[ x ] = style == 0 ? rng() : style == 1 ? x * sx + y * sy : style == 2 ? ( ( x / 3 / 8 + y / 8 ) % 2 ? 255 : 0 ) : ( x % 3 ) * 60 + x * y / 16; }
    JSAMPROW r = row.data(); jpeg_write_scanlines( &c, &r, 1 );
  }
  jpeg_finish_compress( &c ); jpeg_destroy_compress( &c );
  Bytes b( mem, mem + len ); free( mem );
  return b;
}

/* decoded by libjpeg itself, by its ordinary interface: chroma repeated horizontally, every other row kept */
static Pic decode_jpeg( const Bytes & b )
{
  jpeg_decompress_struct d; jpeg_error_mgr e;
  d.err = jpeg_std_error( &e ); e.error_exit = jfail; e.emit_message = jquiet;
  jpeg_create_decompress( &d );
  jpeg_mem_src( &d, const_cast<uint8_t *>( b.data() ), b.size() );
  jpeg_read_header( &d, TRUE );
  d.out_color_space = JCS_YCbCr; d.do_fancy_upsampling = FALSE;
  jpeg_start_decompress( &d );
  Pic p; p.w = d.image_width; p.h = d.image_height; p.d.resize( pic_size( p.w, p.h ) );
  Bytes row( p.w * 3 );
  while ( d.output_scanline < d.output_height ) {
    const unsigned y = d.output_scanline;
    JSAMPROW r = row.data(); jpeg_read_scanlines( &d, &r, 1 );
    for ( unsigned x = 0; x < p.w; x++ ) { p.d[ y * p.w + x ] = row[ 3 * x ]; }
    if ( y % 2 == 0 ) for ( unsigned x = 0; x < p.cw(); x++ ) for ( unsigned k = 0; k < 2; k++ ) { p.d[ p.w * p.h + k * p.cw() * p.ch() + y / 2 * p.cw() + x ] = row[ 3 * ( 2 * x ) + 1 + k ]; }
  }
  jpeg_finish_decompress( &d ); jpeg_destroy_decompress( &d );
  return p;
}

static void jpeg_case( uint64_t seed, const string & )
{
  Rng rng( seed );
  const string tag = "seed" + to_string( seed );
  const unsigned w = dim( rng ), h = dim( rng );
  JPEGDecompresser dec;
  for ( unsigned i = 0; i < 4; i++ ) {
    const Bytes b = make_jpeg( rng, w, h );
    if ( rng() % 4 == 0 ) { /* a damaged picture before */
      Bytes bad = b;
      const int how = rng() % 3;
      if ( how == 0 ) { bad.resize( rng() % bad.size() ); } else if ( how == 1 ) { for ( int k = 0; k < 5; k++ ) bad[ rng() % bad.size() ] = rng(); } else { bad = make_jpeg( rng, w, h, 1 + rng() % 2, 2 ); }
      try {
        dec.begin_decoding( chunk( bad ) );
        if ( dec.width() == w and dec.height() == h ) { MutableRasterHandle t( w, h ); dec.decode( t.get() ); }
        if ( how == 2 ) { VIOL( "jpeg-sampling", tag << ": a picture that is not 4:2:2 was taken" ); }
      } catch ( const exception & e ) { seen[ "damaged JPEG pictures refused" ]++; }
    }
    try {
      MutableRasterHandle m( w, h );
      dec.begin_decoding( chunk( b ) );
      if ( dec.width() != w or dec.height() != h ) { VIOL( "jpeg-size", tag << ": " << dec.width() << "x" << dec.height() << " instead of " << w << "x" << h ); }
      dec.decode( m.get() );
      compare( tag + " JPEG " + to_string( i ), decode_jpeg( b ), m.get(), false );
      seen[ "JPEG pictures decoded" ]++;
      kinds.insert( "jpeg-" + to_string( w % 16 ) + "x" + to_string( h % 16 ) );
    } catch ( const exception & e ) {
      /* the decoder keeps the size of its first picture, which may have been a damaged one */
      if ( string( e.what() ) != "JPEG size changed" ) { VIOL( "jpeg", tag << " " << w << "x" << h << " picture " << i << ": " << e.what() ); }
    }
  }
}

/* ----------------------------------------------------------------------- camera: V4L2 stand-in */
struct Cam
{
  string file; unsigned w, h; uint32_t format; size_t length; int fd;
  Rng rng; bool in_order;
  deque<unsigned> queued; set<unsigned> held;
  bool on = false;
  vector<Bytes> pictures; vector<unsigned> last_used;
  string trouble;
};
static Cam * cam;

static Pic cam_expect( const Bytes & raw, unsigned w, unsigned h, uint32_t f )
{
  if ( f == V4L2_PIX_FMT_MJPEG ) return decode_jpeg( raw );
  Pic p; p.w = w; p.h = h;
  if ( f == V4L2_PIX_FMT_YUV420 ) { p.d = Bytes( raw.begin(), raw.begin() + pic_size( w, h ) ); return p; }
  p.d.resize( pic_size( w, h ) );
  uint8_t * y = p.d.data(), * u = y + w * h, * v = u + ( w / 2 ) * ( h / 2 );
  for ( unsigned r = 0; r < h; r++ ) for ( unsigned c = 0; c < w; c++ ) {
    if ( f == V4L2_PIX_FMT_NV12 ) { y[ r * w + c ] = raw[ r * w + c ]; if ( r < h / 2 ) { uint8_t * t = c % 2 ? v : u; t[ r * ( w / 2 ) + c / 2 ] = raw[ w * h + r * w + c ]; } }
    else { y[ r * w + c ] = raw[ ( r * w + c ) * 2 ]; if ( r % 2 == 0 ) { uint8_t * t = c % 2 ? v : u; t[ r / 2 * ( w / 2 ) + c / 2 ] = raw[ ( r * w + c ) * 2 + 1 ]; } }
  }
  return p;
}

static void cam_put( unsigned index, const Bytes & b ) { if ( pwrite( cam->fd, b.data(), b.size(), index * cam->length ) != ssize_t( b.size() ) ) { exit( 92 ); } }

extern "C" int __wrap_ioctl( int fd, unsigned long req, ... )
{
  va_list ap; va_start( ap, req ); void * arg = va_arg( ap, void * ); va_end( ap );
  if ( not cam ) { return __real_ioctl( fd, req, arg ); }
  v4l2_buffer * b = static_cast<v4l2_buffer *>( arg );
  switch ( req ) {
  case VIDIOC_QUERYCAP: memset( arg, 0, sizeof( v4l2_capability ) ); static_cast<v4l2_capability *>( arg )->capabilities = V4L2_CAP_VIDEO_CAPTURE | V4L2_CAP_STREAMING; return 0;
  case VIDIOC_S_FMT: { auto & p = static_cast<v4l2_format *>( arg )->fmt.pix; if ( p.width != cam->w or p.height != cam->h or p.pixelformat != cam->format ) { cam->trouble = "format"; } return 0; }
  case VIDIOC_REQBUFS: { const unsigned n = static_cast<v4l2_requestbuffers *>( arg )->count; if ( ftruncate( cam->fd, n * cam->length ) ) exit( 92 ); cam->last_used.resize( n, -1 ); return 0; }
  case VIDIOC_QUERYBUF: b->length = cam->length; b->m.offset = b->index * cam->length; return 0;
  case VIDIOC_QBUF:
    for ( unsigned q : cam->queued ) { if ( q == b->index ) cam->trouble = "a buffer was queued twice"; }
    if ( cam->on and not cam->held.erase( b->index ) ) { cam->trouble = "a buffer was given back that had not been taken"; }
    cam->queued.push_back( b->index );
    { Bytes junk( cam->length ); uint8_t k = cam->rng(); for ( auto & x : junk ) { x = k += 3; } cam_put( b->index, junk ); }   /* the driver may write again at once */
    return 0;
  case VIDIOC_STREAMON: cam->on = true; return 0;
  case VIDIOC_STREAMOFF: cam->on = false; return 0;
  case VIDIOC_DQBUF: {
    if ( cam->queued.empty() ) { cam->trouble = "no buffer left to fill"; errno = EAGAIN; return -1; }
    const size_t at = cam->in_order ? 0 : cam->rng() % cam->queued.size();
    const unsigned index = cam->queued[ at ]; cam->queued.erase( cam->queued.begin() + at ); cam->held.insert( index );
    Bytes raw = cam->format == V4L2_PIX_FMT_MJPEG ? make_jpeg( cam->rng, cam->w, cam->h ) : noise( cam->rng, cam->format == V4L2_PIX_FMT_YUYV ? cam->w * cam->h * 2 : pic_size( cam->w, cam->h ) );
    if ( raw.size() > cam->length ) exit( 92 );
    cam_put( index, raw );
    b->index = index; b->bytesused = raw.size();
    cam->pictures.push_back( raw );
    return 0; }
  default: return __real_ioctl( fd, req, arg );
  }
}

static void camera_case( uint64_t seed, const string & dir )
{
  Rng rng( seed );
  static const uint32_t formats[] = { V4L2_PIX_FMT_NV12, V4L2_PIX_FMT_YUYV, V4L2_PIX_FMT_YUV420, V4L2_PIX_FMT_MJPEG };
  Cam c;
  c.rng.seed( rng() );
  c.w = 2 * dim( rng ); c.h = 2 * dim( rng ); c.format = formats[ rng() % 4 ]; c.in_order = rng() % 3 != 0;
  c.length = ( c.w * c.h * ( c.format == V4L2_PIX_FMT_MJPEG ? 20 : 2 ) + 60000 ) / 4096 * 4096 + 4096;
  c.file = dir + "/camera"; put( c.file, "" ); c.fd = open( c.file.c_str(), O_RDWR );
  const string tag = "seed" + to_string( seed ) + " camera " + string( reinterpret_cast<const char *>( &c.format ), 4 ) + " " + to_string( c.w ) + "x" + to_string( c.h ) + ( c.in_order ? "" : " any order" );
  cam = &c;
  try {
    Camera camera( c.w, c.h, c.format, c.file );
    vector<pair<RasterHandle, Pic>> got;
    poison_pool( c.w, c.h, 2, rng );
    for ( unsigned i = 0, n = 1 + rng() % 12; i < n; i++ ) {
      Optional<RasterHandle> r = camera.get_next_frame();
      if ( not r.initialized() ) { VIOL( "camera-end", tag << ": no picture" ); break; }
      if ( c.pictures.size() != i + 1 ) { VIOL( "camera-count", tag << ": " << c.pictures.size() << " buffers taken for " << i + 1 << " pictures" ); break; }
      if ( c.format == V4L2_PIX_FMT_MJPEG and i == 0 ) continue;   /* the first one is skipped by design */
      const Pic p = cam_expect( c.pictures.back(), c.w, c.h, c.format );
      compare( tag + " picture " + to_string( i ), p, r.get().get() );
      got.emplace_back( r.get(), p );
      seen[ "camera pictures" ]++;
      if ( not c.held.empty() ) { VIOL( "camera-buffers", tag << ": " << c.held.size() << " buffers not given back" ); }
    }
    for ( auto & x : got ) { compare( tag + " afterwards", x.second, x.first.get() ); }
  } catch ( const exception & e ) { VIOL( "camera", tag << ": " << e.what() ); }
  if ( not c.trouble.empty() ) { VIOL( "camera-protocol", tag << ": " << c.trouble ); }
  if ( c.on ) { VIOL( "camera-on", tag << ": still streaming" ); }
  cam = nullptr;
  close( c.fd );
  kinds.insert( "camera-" + to_string( c.format ) + "-" + to_string( c.w % 16 ) + "x" + to_string( c.h % 16 ) );
}

int main( int argc, char * argv[] )
{
  if ( argc < 5 ) return 91;
  signal( SIGPIPE, SIG_IGN );
  RasterPoolDebug::allow_resize = true;
  const string cmd = argv[ 1 ], dir = argv[ 4 ];
  const uint64_t seed = stoull( argv[ 2 ] ); const unsigned n = stoul( argv[ 3 ] );
  for ( unsigned i = 0; i < n; i++ ) {
    try {
      if ( cmd == "y4m" ) { y4m_case( seed + i, dir ); } else if ( cmd == "refuse" ) { refuse_case( seed + i, dir ); } else if ( cmd == "jpeg" ) { jpeg_case( seed + i, dir ); }
      else if ( cmd == "camera" ) { camera_case( seed + i, dir ); } else return 91;
    } catch ( const exception & e ) { VIOL( "exception", "seed" << seed + i << ": " << typeid( e ).name() << " " << e.what() ); }
    cam = nullptr; short_io = 0;
  }
  for ( auto & x : seen ) { cout << "S " << x.second << " " << x.first << "\n"; }
  for ( auto & x : kinds ) { cout << "K " << x << "\n"; }
  cout << "DONE" << endl;
  _exit( 0 );
}
