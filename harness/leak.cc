// LINK: -Wl,--wrap=open,--wrap=close,--wrap=fstat,--wrap=mmap,--wrap=munmap,--wrap=read,--wrap=write,--wrap=socket,--wrap=bind,--wrap=connect,--wrap=getsockname,--wrap=getpeername,--wrap=setsockopt,--wrap=send,--wrap=sendto,--wrap=recvmsg,--wrap=poll,--wrap=socketpair,--wrap=popen,--wrap=pclose
/* what is acquired is given back: every job is repeated in identical cycles, and after each cycle the heap in
   use, the open descriptors, the mappings and the child processes are compared with those of the cycle before.
   In "faults" mode the n-th system call of the job fails, for every n. */
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <unistd.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <algorithm>
#include <jpeglib.h>
#include "vh.hh"
#include "ivf.hh"
#include "ivf_writer.hh"
#include "ivf_reader.hh"
#include "file.hh"
#include "subprocess.cc"   /* in no library */
#include "packet.hh"
#include "socketpair.hh"
#include "poller.hh"
#include "pacer.hh"
#include "jpeg.hh"
#include "yuv4mpeg.hh"
#include "encoder.hh"
#include "frame_pool.hh"

using namespace std;
typedef mt19937_64 Rng;

/* ---------------------------------------------------------------- what the process holds */
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__(( weak ));
static long heap()
{
  if ( __sanitizer_get_current_allocated_bytes ) { return __sanitizer_get_current_allocated_bytes(); }
  const struct mallinfo2 m = mallinfo2();
  return m.uordblks + m.hblkhd;
}

/* live objects: their number does not depend on how much a pooled frame has put aside for the next picture */
static long blocks = 0;
void * operator new( size_t n ) { void * p = malloc( n ? n : 1 ); if ( not p ) { throw bad_alloc(); } blocks++; return p; }
void operator delete( void * p ) noexcept { if ( p ) { blocks--; free( p ); } }
void operator delete( void * p, size_t ) noexcept { if ( p ) { blocks--; free( p ); } }

static set<int> open_fds()
{
  set<int> r;
  DIR * d = opendir( "/proc/self/fd" );
  while ( dirent * e = readdir( d ) ) { const int n = atoi( e->d_name ); if ( e->d_name[ 0 ] != '.' and n != dirfd( d ) ) { r.insert( n ); } }
  closedir( d );
  return r;
}

/* ---------------------------------------------------------------- the system calls */
static bool watching = false;      /* inside a job */
static long calls = 0, fail_at = -1;
static string failed_call, job_name;
static struct Table { map<uint8_t *, size_t> maps; map<FILE *, int> pipes; set<string> trouble; } * T = new Table;
static map<string, unsigned long> seen;

static bool fails( const char * name, int err )
{
  if ( not watching ) { return false; }
  if ( calls++ != fail_at ) { return false; }
  failed_call = name; errno = err;
  return true;
}

extern "C" {
#define W1( ret, name, err, params, args ) ret __real_##name params; ret __wrap_##name params { if ( fails( #name, err ) ) { return -1; } return __real_##name args; }
W1( int, fstat, EIO, ( int a, struct stat * b ), ( a, b ) )
W1( ssize_t, read, EIO, ( int a, void * b, size_t c ), ( a, b, c ) )
W1( ssize_t, write, ENOSPC, ( int a, const void * b, size_t c ), ( a, b, c ) )
W1( int, socket, EMFILE, ( int a, int b, int c ), ( a, b, c ) )
W1( int, bind, EADDRINUSE, ( int a, const struct sockaddr * b, socklen_t c ), ( a, b, c ) )
W1( int, connect, EACCES, ( int a, const struct sockaddr * b, socklen_t c ), ( a, b, c ) )
W1( int, getsockname, ENOBUFS, ( int a, struct sockaddr * b, socklen_t * c ), ( a, b, c ) )
W1( int, getpeername, ENOTCONN, ( int a, struct sockaddr * b, socklen_t * c ), ( a, b, c ) )
W1( int, setsockopt, ENOPROTOOPT, ( int a, int b, int c, const void * d, socklen_t e ), ( a, b, c, d, e ) )
W1( ssize_t, send, ENOBUFS, ( int a, const void * b, size_t c, int d ), ( a, b, c, d ) )
W1( ssize_t, sendto, ENETUNREACH, ( int a, const void * b, size_t c, int d, const struct sockaddr * e, socklen_t f ), ( a, b, c, d, e, f ) )
W1( ssize_t, recvmsg, ENOMEM, ( int a, struct msghdr * b, int c ), ( a, b, c ) )
W1( int, poll, ENOMEM, ( struct pollfd * a, nfds_t b, int c ), ( a, b, c ) )
W1( int, socketpair, EMFILE, ( int a, int b, int c, int * d ), ( a, b, c, d ) )
int __real_open( const char *, int, ... );
int __wrap_open( const char * p, int f, ... )
{
  va_list ap; va_start( ap, f ); const int m = ( f & O_CREAT ) ? va_arg( ap, int ) : 0; va_end( ap );
  return fails( "open", EMFILE ) ? -1 : __real_open( p, f, m );
}
void * __real_mmap( void *, size_t, int, int, int, off_t );
void * __wrap_mmap( void * a, size_t n, int prot, int flags, int fd, off_t off )
{
  if ( fails( "mmap", ENOMEM ) ) { return MAP_FAILED; }
  void * r = __real_mmap( a, n, prot, flags, fd, off );
  if ( watching and r != MAP_FAILED ) { T->maps[ static_cast<uint8_t *>( r ) ] = n; seen[ "mappings made" ]++; }
  return r;
}
int __real_munmap( void *, size_t );
int __wrap_munmap( void * a, size_t n )
{
  if ( watching ) {
    auto it = T->maps.find( static_cast<uint8_t *>( a ) );
    if ( it == T->maps.end() ) { T->trouble.insert( "something is unmapped that is not mapped" ); return -1; }
    if ( it->second != n ) { T->trouble.insert( "a mapping of " + to_string( it->second ) + " bytes is unmapped with a length of " + to_string( n ) ); }
    T->maps.erase( it );
  }
  return __real_munmap( a, n );
}
int __real_close( int );
int __wrap_close( int fd )
{
  const int r = __real_close( fd );
  if ( watching ) { seen[ "descriptors closed" ]++; if ( r ) { T->trouble.insert( "a descriptor is closed that is not open" ); errno = 0; return 0; } }
  return r;
}
FILE * __real_popen( const char *, const char * );
FILE * __wrap_popen( const char * a, const char * b ) { if ( fails( "popen", ENOMEM ) ) { return nullptr; } FILE * r = __real_popen( a, b ); if ( watching and r ) { T->pipes[ r ] = 1; seen[ "commands started" ]++; } return r; }
int __real_pclose( FILE * );
int __wrap_pclose( FILE * f ) { if ( watching and not T->pipes.erase( f ) ) { T->trouble.insert( "a command is ended twice" ); } return __real_pclose( f ); }
}

/* ---------------------------------------------------------------- material */
static Stream S;
static vector<Bytes> mutants;      /* damaged frames */
static vector<RasterHandle> * pictures;
static string dir, stream_file, y4m_file, big_file, empty_file;
static vector<string> files;       /* damaged files of all kinds */
static vector<Bytes> jpegs;
static map<string, unsigned long> outcome;

/* only ordinary exceptions may come out */
template <class F> static bool attempt( const F & f )
{
  try { f(); outcome[ "accepted" ]++; return true; }
  catch ( const exception & e ) { outcome[ "refused" ]++; return false; }
}

static Bytes damage( Bytes b, Rng & r )
{
  if ( b.empty() ) { return b; }
  switch ( r() % 6 ) {
  case 0: b.resize( r() % b.size() ); break;
  case 1: for ( int k = 0; k < 3; k++ ) b[ r() % b.size() ] = r(); break;
  case 2: b[ r() % min<size_t>( b.size(), 40 ) ] ^= 1 << r() % 8; break;
  case 3: for ( size_t k = r() % b.size(); k < b.size(); k++ ) b[ k ] = r(); break;
  case 4: for ( int k = 0; k < 9; k++ ) b.push_back( r() ); break;
  default: for ( size_t k = r() % b.size(), e = min( b.size(), k + 12 ); k < e; k++ ) b[ k ] = 0xff; break;
  }
  return b;
}

static void put_file( const string & fn, const Bytes & b ) { ofstream f( fn, ios::binary ); f.write( reinterpret_cast<const char *>( b.data() ), b.size() ); }

static void jquiet( j_common_ptr, int ) {}
static Bytes make_jpeg( Rng & rng, unsigned w, unsigned h )
{
  jpeg_compress_struct c; jpeg_error_mgr e;
  c.err = jpeg_std_error( &e ); e.emit_message = jquiet;
  jpeg_create_compress( &c );
  unsigned char * mem = nullptr; unsigned long len = 0;
  jpeg_mem_dest( &c, &mem, &len );
  c.image_width = w; c.image_height = h; c.input_components = 3; c.in_color_space = JCS_YCbCr;
  jpeg_set_defaults( &c ); jpeg_set_quality( &c, 20 + rng() % 80, TRUE );
  for ( int i = 0; i < 3; i++ ) { c.comp_info[ i ].h_samp_factor = i ? 1 : 2; c.comp_info[ i ].v_samp_factor = 1; }
  if ( rng() % 3 == 0 ) jpeg_simple_progression( &c );
  jpeg_start_compress( &c, TRUE );
  Bytes row( w * 3 );
  for ( unsigned y = 0; y < h; y++ ) { for ( auto & x : row ) { x = rng(); } JSAMPROW r = row.data(); jpeg_write_scanlines( &c, &r, 1 ); }
  jpeg_finish_compress( &c ); jpeg_destroy_compress( &c );
  Bytes b( mem, mem + len ); free( mem );
  return b;
}

/* ---------------------------------------------------------------- the jobs: everything they make, they give up */
struct Job { const char * name; function<void( Rng & )> go; bool faults; };

static void job_decode( Rng & r )
{
  vector<Decoder> d; d.emplace_back( S.w, S.h ); d.emplace_back( S.w, S.h );
  vector<RasterHandle> held;
  for ( auto & f : S.frames ) {
    attempt( [&] {
      auto out = d[ 0 ].get_frame_output( chunk( f ) );
      if ( r() % 2 ) held.push_back( out.second );
      if ( r() % 4 == 0 ) d[ 1 ] = d[ 0 ];
      if ( r() % 4 == 0 ) { Decoder c( d[ 0 ] ); if ( c != d[ 0 ] ) exit( 92 ); Decoder m( move( c ) ); }
      if ( r() % 4 == 0 ) { References x = d[ 0 ].get_references(); DecoderState y = d[ 0 ].get_state(); Decoder z( y, x ); z.get_hash(); }
      if ( held.size() > 3 ) held.erase( held.begin() + r() % held.size() );
    } );
  }
  d[ 0 ].get_hash().str();
}

static void job_hostile( Rng & r )
{
  Decoder d( S.w, S.h );
  vector<RasterHandle> held;
  attempt( [&] { d.get_frame_output( chunk( S.frames[ 0 ] ) ); } );
  for ( unsigned k = 0; k < 12; k++ ) {
    const Bytes & m = mutants[ r() % mutants.size() ];
    d.set_error_concealment( r() % 3 == 0 );
    attempt( [&] { auto o = d.get_frame_output( chunk( m ) ); held.push_back( o.second ); } );
    attempt( [&] { UncompressedChunk u( chunk( m ), S.w, S.h, r() % 2 ); Decoder c( d ); if ( u.key_frame() ) { auto fr = c.parse_frame<KeyFrame>( u ); c.decode_frame( fr ); } else { auto fr = c.parse_frame<InterFrame>( u ); c.decode_frame( fr ); } } );
    if ( r() % 4 == 0 ) { Decoder c( d ); attempt( [&] { c.get_frame_output( chunk( S.frames[ 0 ] ) ); } ); d = c; }
  }
}

static void job_player( Rng & r )
{
  attempt( [&] { FilePlayer p( stream_file ); unsigned n = r() % 8; while ( not p.eof() and n-- ) { RasterHandle x = p.advance(); } } );
  attempt( [&] { FramePlayer p( S.w, S.h ); for ( auto & f : S.frames ) { p.decode( chunk( f ) ); } } );
  attempt( [&] { FilePlayer p( files[ r() % files.size() ] ); while ( not p.eof() ) { p.advance(); } } );
}

static void job_sizes( Rng & r )
{
  Decoder keep( S.w, S.h ); { Decoder a( S.w, S.h ), b( S.w, S.h ); }
  for ( int k = 0; k < 3; k++ ) {
    const uint16_t w = S.w + r() % 3 * 16, h = S.h + 1 + r() % 40;
    attempt( [&] { Decoder d( w, h ); } );
    attempt( [&] { MutableRasterHandle m( w, h ); } );
    attempt( [&] { Encoder e( w, h, false, REALTIME_QUALITY ); } );
    attempt( [&] { FramePlayer p( w, h ); } );
    attempt( [&] { KeyFrameHandle f( w, h ); InterFrameHandle g( w, h ); } );
    RasterPoolDebug::allow_resize = true;      /* what the tools that read two videos do */
    attempt( [&] { MutableRasterHandle m( w, h ), n( w, h ); Decoder d( w, h ); d.get_hash(); } );
    RasterPoolDebug::allow_resize = false;
    attempt( [&] { Decoder d( S.w, S.h ); } );
    RasterPoolDebug::allow_resize = true;
    attempt( [&] { Decoder d( S.w, S.h ); } );
    RasterPoolDebug::allow_resize = false;
  }
}

static void job_state( Rng & r )
{
  const string fn = dir + "/st";
  attempt( [&] {
    Decoder d( S.w, S.h );
    for ( unsigned i = 0; i < 3 and i < S.frames.size(); i++ ) { d.get_frame_output( chunk( S.frames[ i ] ) ); }
    EncoderStateSerializer o; d.serialize( o ); o.write( fn );
  } );
  attempt( [&] { Decoder b = EncoderStateDeserializer::build<Decoder>( fn ); b.get_hash(); } );
  attempt( [&] { Encoder e( EncoderStateDeserializer::build<Decoder>( fn ), false, REALTIME_QUALITY ); } );
  attempt( [&] { FramePlayer b = EncoderStateDeserializer::build<FramePlayer>( fn ); } );
  for ( int k = 0; k < 4; k++ ) { const string & x = files[ r() % files.size() ]; attempt( [&] { Decoder b = EncoderStateDeserializer::build<Decoder>( x ); } ); }
  attempt( [&] { EncoderStateSerializer o; o.put( uint32_t( 5 ) ); o.write( dir + "/none/such" ); } );
}

static void job_ivf( Rng & r )
{
  attempt( [&] { IVF f( stream_file ); for ( unsigned i = 0; i < f.frame_count(); i++ ) { f.frame( i ); } IVF g( move( f ) ); g.frame( 0 ); } );
  for ( int k = 0; k < 4; k++ ) { const string & x = files[ r() % files.size() ]; attempt( [&] { IVF f( x ); for ( unsigned i = 0; i < f.frame_count(); i++ ) { f.frame( i ); } } ); }
  attempt( [&] { IVF f( dir + "/none" ); } );
  attempt( [&] { IVF f( empty_file ); } );
  attempt( [&] { IVFWriter w( dir + "/out.ivf", "VP80", S.w, S.h, 30, 1 ); for ( auto & f : S.frames ) { w.append_frame( chunk( f ) ); } w.set_expected_decoder_entry_hash( 7 ); IVFWriter v( move( w ) ); v.append_frame( chunk( S.frames[ 0 ] ) ); } );
  attempt( [&] { IVFWriter w( dir + "/out.ivf", "VP8", S.w, S.h, 30, 1 ); } );
  attempt( [&] { IVFWriter w( dir + "/none/out.ivf", "VP80", S.w, S.h, 30, 1 ); } );
  attempt( [&] { IVFReader f( stream_file ); while ( f.get_next_frame().initialized() ) {} } );
  attempt( [&] { IVFReader f( files[ r() % files.size() ] ); while ( f.get_next_frame().initialized() ) {} } );
}

static void job_y4m( Rng & r )
{
  attempt( [&] { YUV4MPEGReader y( y4m_file ); while ( y.get_next_frame().initialized() ) {} } );
  attempt( [&] { YUV4MPEGReader y( y4m_file ); YUV4MPEGReader z( move( y ) ); z.get_next_frame(); } );
  for ( int k = 0; k < 3; k++ ) { const string & x = files[ r() % files.size() ]; attempt( [&] { YUV4MPEGReader y( x ); while ( y.get_next_frame().initialized() ) {} } ); }
  attempt( [&] {
    FileDescriptor fd( SystemCall( "open", open( ( dir + "/o.y4m" ).c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600 ) ) );
    for ( auto & p : *pictures ) { YUV4MPEGFrameWriter::write( p.get(), fd ); }
  } );
}

static void job_jpeg( Rng & r )
{
  JPEGDecompresser d;
  for ( int k = 0; k < 6; k++ ) {
    const Bytes & b = jpegs[ r() % jpegs.size() ];
    attempt( [&] { d.begin_decoding( chunk( b ) ); if ( d.width() == S.w and d.height() == S.h ) { MutableRasterHandle m( S.w, S.h ); d.decode( m.get() ); } } );
    if ( r() % 3 == 0 ) { attempt( [&] { JPEGDecompresser e; e.begin_decoding( chunk( b ) ); } ); }
  }
}

static void job_encode( Rng & r )
{
  Encoder e( S.w, S.h, r() % 2, r() % 2 ? REALTIME_QUALITY : BEST_QUALITY );
  for ( int k = 0; k < 4; k++ ) {
    const RasterHandle & p = ( *pictures )[ r() % pictures->size() ];
    attempt( [&] {
      Bytes out;
      switch ( r() % 3 ) {
      case 0: out = e.encode_with_quantizer( p.get(), r() % 128 ); break;
      case 1: out = e.encode_with_target_size( p.get(), 20 + r() % 2000 ); break;
      default: out = e.encode_with_minimum_ssim( p.get(), .3 + double( r() % 70 ) / 100 ); break;
      }
      Decoder d = e.export_decoder();
      if ( r() % 2 ) { Encoder f( d, false, REALTIME_QUALITY ); f.encode_with_quantizer( p.get(), 60 ); }
      if ( r() % 2 ) { Encoder f( e ); f.encode_with_quantizer( p.get(), 90 ); Encoder g( move( f ) ); if ( r() % 2 ) e = move( g ); }
    } );
  }
}

static void job_frames( Rng & r )
{
  Decoder d( S.w, S.h );
  for ( auto & f : S.frames ) {
    attempt( [&] {
      UncompressedChunk u( chunk( f ), S.w, S.h, false );
      if ( u.key_frame() ) { KeyFrameHandle h( S.w, S.h ); KeyFrame fr = d.parse_frame<KeyFrame>( u ); auto b = fr.serialize( ProbabilityTables() ); if ( r() % 2 ) throw runtime_error( "away" ); d.decode_frame( fr ); }
      else { InterFrameHandle h( S.w, S.h ); InterFrameHandle g( move( h ) ); InterFrame fr = d.parse_frame<InterFrame>( u ); auto b = fr.serialize( d.get_state().probability_tables ); d.decode_frame( fr ); }
    } );
  }
}

static void job_packets( Rng & r )
{
  for ( int k = 0; k < 6; k++ ) {
    Bytes whole( 1 + r() % 9000 ); for ( auto & x : whole ) { x = r(); }
    attempt( [&] {
      FragmentedFrame f( 5, r(), r(), 9, 100, whole );
      vector<string> wire; for ( auto & p : f.packets() ) { wire.push_back( p.to_string() ); }
      shuffle( wire.begin(), wire.end(), r );
      unique_ptr<FragmentedFrame> g;
      for ( auto & w : wire ) {
        const Packet p { Chunk( w ) };
        if ( not g ) { g.reset( new FragmentedFrame( 5, p ) ); } else { g->add_packet( p ); }
        if ( r() % 5 == 0 ) { g->add_packet( p ); }
        g->partial_frame();
      }
      FragmentedFrame h( move( *g ) );
      h.frame();
    } );
    attempt( [&] { string s; for ( size_t n = r() % 60; n; n-- ) { s.push_back( r() ); } Packet p { Chunk( s ) }; FragmentedFrame f( 5, p ); f.add_packet( p ); f.frame(); } );
    attempt( [&] { deque<uint32_t> st; for ( size_t n = r() % 20; n; n-- ) { st.push_back( r() ); } string s = AckPacket( 5, 1, 2, 3, 4, st ).to_string(); if ( r() % 2 ) { s.resize( r() % s.size() ); } AckPacket a { Chunk( s ) }; a.complete_states(); } );
  }
}

static void job_net( Rng & r )
{
  attempt( [&] {
    UDPSocket a, b;
    a.set_reuseaddr(); a.set_timestamps();
    a.bind( Address( "::1", "0" ) ); b.bind( Address( "::1", "0" ) );
    b.connect( a.local_address() ); b.peer_address();
    const string p( r() % 3000, 'x' );
    b.send( p ); a.recv(); a.sendto( b.local_address(), "answer" ); b.recv();
    FragmentedFrame f( 1, 2, 3, 4, 5, Bytes( 4000, 7 ) ); f.send( b );
    for ( size_t k = 0; k < f.packets().size(); k++ ) { a.recv(); }
    attempt( [&] { b.send( string( 70000, 'y' ) ); } );
    AckPacket( 1, 2, 3, 4, 5, {} ).sendto( a, b.local_address() ); b.recv();
    UDPSocket c( move( b ) ); c.send( "z" );
    auto got = a.recv(); got.source_address.to_string();
  } );
  attempt( [&] { UDPSocket a; a.bind( Address( "192.0.2.1", "9" ) ); } );
  attempt( [&] { Address x( "::1", "no-such-service" ); } );
  attempt( [&] { Address x( "not an address", uint16_t( 1 ) ); } );
  attempt( [&] {
    auto pr = UnixDomainSocket::make_pair();
    Poller poller; int left = 5 + r() % 5; bool out = true;
    poller.add_action( Poller::Action( pr.first, Poller::Action::Out, [&] { pr.first.write( "tick" ); out = false; return Poller::Action::Result(); }, [&] { return out; } ) );
    poller.add_action( Poller::Action( pr.second, Poller::Action::In, [&]() -> Poller::Action::Result { pr.second.read(); out = true; if ( --left == 0 ) { if ( r() % 2 ) throw runtime_error( "enough" ); return Poller::Action::Result::Type::Exit; } return Poller::Action::Result(); } ) );
    for ( int k = 0; k < 60; k++ ) { if ( poller.poll( 0 ).result == Poller::Result::Type::Exit ) break; }
  } );
  attempt( [&] { Pacer p; for ( int k = 0; k < 50; k++ ) { p.push( string( 1400, 'p' ), 0 ); } while ( not p.empty() ) { p.front(); p.pop(); } p.push( "left", 5 ); } );
}

static void job_files( Rng & r )
{
  attempt( [&] { File f( big_file ); File g( move( f ) ); Digest d; d.put( *g.chunk().buffer() ); g( 5, 9 ); } );
  attempt( [&] { File f( empty_file ); } );
  attempt( [&] { File f( dir + "/none" ); } );
  attempt( [&] { File f( dir ); } );
  attempt( [&] {
    FileDescriptor a( SystemCall( "open", open( big_file.c_str(), O_RDONLY ) ) ); FileDescriptor b( move( a ) );
    MMap_Region m( 1 + r() % 9000, PROT_READ, MAP_SHARED, b.fd_num(), 0 ); MMap_Region n( move( m ) );
    vector<MMap_Region> v; for ( int k = 0; k < 5; k++ ) { v.emplace_back( 1 + r() % 9000, PROT_READ, MAP_PRIVATE, b.fd_num(), 4096 ); }
    b.getline(); b.read_exactly( 100 ); b.read_exactly( 1 << 26 );
  } );
  attempt( [&] { /* moved at every stage of its life */
    FileDescriptor a( SystemCall( "open", open( ( r() % 2 ? big_file : empty_file ).c_str(), O_RDWR ) ) );
    if ( r() % 2 ) { a.read( 1 ); }
    if ( r() % 2 ) { while ( not a.eof() ) { a.read(); } }
    FileDescriptor b( move( a ) );
    if ( r() % 2 ) { throw runtime_error( "half-way" ); }
    unique_ptr<FileDescriptor> c( new FileDescriptor( move( b ) ) );
    FileDescriptor e( move( a ) ), f( move( e ) );   /* nothing is left in these */
  } );
}

static void job_commands( Rng & r )
{
  attempt( [&] { Subprocess s( "cat > /dev/null", "w" ); const string x( 1 + r() % 5000, 'q' ); s.write( Chunk( x ) ); if ( r() % 2 ) { s.close(); } } );
  attempt( [&] { Subprocess s( "exit 3", "w" ); Subprocess t( move( s ) ); } );
}

static const vector<Job> jobs {
  { "decoding", job_decode, false }, { "damaged frames", job_hostile, false }, { "players", job_player, true }, { "saved states", job_state, true }, { "other sizes", job_sizes, false },
  { "IVF files", job_ivf, true }, { "Y4M files", job_y4m, true }, { "JPEG pictures", job_jpeg, false }, { "encoding", job_encode, false },
  { "frames", job_frames, false }, { "packets", job_packets, false }, { "sockets", job_net, true }, { "files", job_files, true }, { "commands", job_commands, true } };

struct Sample { size_t fds, maps, pipes, kids; };

static Sample sample()
{
  Sample s { open_fds().size(), T->maps.size(), T->pipes.size(), 0 };
  if ( waitpid( -1, nullptr, WNOHANG ) >= 0 ) { s.kids = 1; }
  return s;
}

static void run_job( const Job & j, uint64_t seed, long fail )
{
  Rng r( seed );
  calls = 0; fail_at = fail; failed_call.clear(); job_name = j.name;
  watching = true;
  try { j.go( r ); } catch ( const exception & e ) { outcome[ "out of the job" ]++; }
  watching = false; fail_at = -1;
}

/* the least of the last third is more than the most of the first third, and it went up more than twice */
static bool rises( const vector<long> & h, size_t from = 0 )
{
  const size_t n = h.size() - from, k = n / 3;
  unsigned up = 0;
  for ( size_t i = from + 1; i < h.size(); i++ ) { up += h[ i ] > h[ i - 1 ]; }
  return up > 2 and *min_element( h.end() - k, h.end() ) > *max_element( h.begin() + from, h.begin() + from + k );
}
static string show( const vector<long> & h ) { ostringstream o; for ( size_t i = 0; i < h.size(); i += max<size_t>( 1, h.size() / 18 ) ) { o << " " << h[ i ]; } return o.str(); }

/* what is put aside for later (pools, capacities) settles; a leak does not: a rise is confirmed over four times and sixteen times as many cycles */
struct Growth
{
  vector<long> bytes {}, objects {};
  Growth( unsigned n ) { bytes.reserve( 22 * n + 22 ); objects.reserve( 22 * n + 22 ); }
  void take() { bytes.push_back( heap() ); objects.push_back( blocks ); }
  template <class F> bool without_end( unsigned n, const F & again )
  {
    size_t from = 0;
    for ( unsigned k = 0; k < 3; k++ ) {
      if ( not rises( bytes, from ) and not rises( objects, from ) ) { return false; }
      seen[ "rises looked at again" ]++;
      if ( k == 2 ) { break; }
      from = bytes.size();
      for ( unsigned i = 0, e = n * ( k ? 16 : 4 ); i < e; i++ ) { again(); take(); }
    }
    return true;
  }
  string text() const { return "the memory in use grows with every repetition: bytes" + show( bytes ) + "; objects" + show( objects ); }
};

static void others( const Sample & a, const Sample & b, const string & what )
{
  if ( b.fds != a.fds ) { VIOL( "descriptors", what << ": " << a.fds << " descriptors are open before and " << b.fds << " after" ); }
  if ( b.maps != a.maps ) { VIOL( "mappings", what << ": " << a.maps << " mappings before and " << b.maps << " after" ); }
  if ( b.pipes != a.pipes or b.kids ) { VIOL( "commands", what << ": a command is not ended" ); }
  for ( auto & t : T->trouble ) { VIOL( "given-back", what << ": " << t ); }
  T->trouble.clear();
}

static void cycles( const Job & j, uint64_t seed, unsigned warm, unsigned n )
{
  const string what = string( j.name ) + " seed " + to_string( seed ) + " " + to_string( S.w ) + "x" + to_string( S.h );
  for ( unsigned i = 0; i < warm; i++ ) { run_job( j, seed, -1 ); }
  const Sample first = sample();
  Growth g( n );
  for ( unsigned i = 0; i < n; i++ ) { run_job( j, seed, -1 ); g.take(); seen[ "cycles compared" ]++; }
  const Sample last = sample();
  others( first, last, what );
  if ( g.without_end( n, [&] { run_job( j, seed, -1 ); } ) ) { VIOL( "heap", what << ": " << g.text() ); }
  cout << "K " << j.name << "/" << S.w % 16 << "x" << S.h % 16 << "\n";
}

static void faults( const Job & j, uint64_t seed, unsigned most )
{
  if ( not j.faults ) { return; }
  run_job( j, seed, -1 ); run_job( j, seed, -1 );
  const long total = calls;
  Rng r( seed );
  vector<long> at; for ( long i = 0; i < total; i++ ) { at.push_back( i ); }
  shuffle( at.begin(), at.end(), r ); if ( at.size() > most ) { at.resize( most ); }
  for ( long n : at ) {
    const Sample a = sample();
    run_job( j, seed, n );
    if ( failed_call.empty() ) { continue; }
    const string what = string( j.name ) + " seed " + to_string( seed ) + ": call " + to_string( n ) + " of " + to_string( total ) + ", " + failed_call + ", fails";
    Growth g( 6 );
    for ( int k = 0; k < 6; k++ ) { run_job( j, seed, n ); g.take(); }
    others( a, sample(), what );
    if ( g.without_end( 6, [&] { run_job( j, seed, n ); } ) ) { VIOL( "heap", what << ": " << g.text() ); }
    seen[ "failing system calls" ]++;
    cout << "K " << j.name << " " << failed_call << "\n";
  }
}

/* one decoder, encoder, ... for a long time */
static void steady( uint64_t seed, unsigned rounds )
{
  const uint64_t cs = seed * 7919 + 5;
  auto study = [&]( const char * name, const function<void( Rng & )> & once ) {
    auto go = [&] { Rng q( cs ); watching = true; once( q ); watching = false; };
    for ( unsigned i = 0; i < 4; i++ ) { go(); }
    const Sample first = sample();
    Growth g( rounds );
    for ( unsigned i = 0; i < rounds; i++ ) { go(); g.take(); seen[ string( "rounds of " ) + name ]++; }
    const string what = string( name ) + " seed " + to_string( seed ) + " " + to_string( S.w ) + "x" + to_string( S.h );
    others( first, sample(), what );
    if ( g.without_end( rounds, go ) ) { VIOL( "steady", what << ": " << g.text() ); }
    cout << "K " << name << "/" << S.w % 16 << "x" << S.h % 16 << "\n";
  };
  { Decoder d( S.w, S.h ); study( "one decoder", [&]( Rng & ) { for ( auto & f : S.frames ) { attempt( [&] { d.get_frame_output( chunk( f ) ); } ); } } ); }
  { FramePlayer p( S.w, S.h ); study( "one player", [&]( Rng & ) { for ( auto & f : S.frames ) { attempt( [&] { p.decode( chunk( f ) ); } ); } } ); }
  { Decoder x( S.w, S.h ), y( x ); study( "one decoder with damaged frames", [&]( Rng & q ) {
      for ( auto & f : S.frames ) { x.set_error_concealment( q() % 2 ); if ( q() % 3 == 0 ) { attempt( [&] { x.get_frame_output( chunk( mutants[ q() % mutants.size() ] ) ); } ); } else { attempt( [&] { x.get_frame_output( chunk( f ) ); } ); } if ( q() % 4 == 0 ) { y = x; } } } ); }
  for ( unsigned two = 0; two < 2; two++ ) {
    Encoder e( S.w, S.h, two, two ? BEST_QUALITY : REALTIME_QUALITY );
    study( two ? "one two-pass encoder" : "one encoder", [&]( Rng & q ) { for ( auto & p : *pictures ) { attempt( [&] { if ( q() % 2 ) e.encode_with_quantizer( p.get(), q() % 128 ); else e.encode_with_target_size( p.get(), 50 + q() % 1000 ); } ); } } );
  }
  { JPEGDecompresser e; study( "one JPEG decompresser", [&]( Rng & ) { for ( auto & b : jpegs ) { attempt( [&] { e.begin_decoding( chunk( b ) ); if ( e.width() == S.w and e.height() == S.h ) { MutableRasterHandle m( S.w, S.h ); e.decode( m.get() ); } } ); } } ); }
  { IVF f( stream_file ); study( "one IVF file", [&]( Rng & ) { for ( unsigned i = 0; i < f.frame_count() + 1; i++ ) { attempt( [&] { f.frame( i ); } ); } } ); }
  { IVFWriter w( dir + "/long.ivf", "VP80", S.w, S.h, 30, 1 ); study( "one IVF writer", [&]( Rng & ) { for ( auto & f : S.frames ) { w.append_frame( chunk( f ) ); } w.set_expected_decoder_entry_hash( 3 ); } ); }
  {
    UDPSocket a, b; a.set_timestamps(); a.bind( Address( "::1", "0" ) ); b.bind( Address( "::1", "0" ) ); b.connect( a.local_address() );
    unsigned in = 0; bool out = true; Poller poller;
    poller.add_action( Poller::Action( b, Poller::Action::Out, [&] { b.send( string( 1200, 'x' ) ); out = false; return Poller::Action::Result(); }, [&] { return out; } ) );
    poller.add_action( Poller::Action( a, Poller::Action::In, [&] { a.recv(); in++; out = true; return Poller::Action::Result(); } ) );
    study( "one poller with its sockets", [&]( Rng & ) { const unsigned end = in + 20; while ( in < end ) { poller.poll( 100 ); } } );
  }
  { Pacer p; study( "one pacer", [&]( Rng & q ) { for ( int k = 0; k < 40; k++ ) { p.push( string( 1 + q() % 1400, 'p' ), 0 ); } while ( not p.empty() ) { p.front(); p.pop(); } } ); }
}

int main( int argc, char * argv[] )
{
  if ( argc > 2 and string( argv[ 1 ] ) == "peak" ) { /* a small process starts it, so that the peak is its own */
    const pid_t p = fork();
    if ( p == 0 ) { const int n = __real_open( "/dev/null", O_RDWR ); dup2( n, 0 ); dup2( n, 1 ); execv( argv[ 2 ], argv + 2 ); _exit( 127 ); }
    int st; struct rusage u;
    if ( wait4( p, &st, 0, &u ) != p ) { return 92; }
    cout << "peak " << u.ru_maxrss << " " << st << endl;
    return 0;
  }
  if ( argc < 6 ) { return 91; }
  mallopt( M_MXFAST, 0 ); mallopt( M_ARENA_MAX, 1 );
  signal( SIGPIPE, SIG_IGN );
  const string mode = argv[ 1 ]; const uint64_t seed = stoull( argv[ 2 ] ); dir = argv[ 3 ]; stream_file = argv[ 4 ]; const unsigned n = stoul( argv[ 5 ] );
  S = read_stream( stream_file );
  Rng r( seed );
  for ( auto & f : S.frames ) { for ( int k = 0; k < 4; k++ ) { mutants.push_back( damage( f, r ) ); } }
  for ( int k = 0; k < 3; k++ ) { jpegs.push_back( make_jpeg( r, S.w, S.h ) ); jpegs.push_back( damage( jpegs.back(), r ) ); } jpegs.push_back( make_jpeg( r, S.w + 3, S.h + 1 ) );
  pictures = new vector<RasterHandle>;
  for ( int k = 0; k < 3; k++ ) {
    MutableRasterHandle m( S.w, S.h ); const unsigned a = r() % 7, b = r() % 7;
    m.get().Y().forall_ij( [&]( uint8_t & x, unsigned c, unsigned d ) { x = c * a + d * b + r() % 9; } );
    m.get().U().forall( [&]( uint8_t & x ) { x = 100 + r() % 20; } ); m.get().V().forall( [&]( uint8_t & x ) { x = 120 + r() % 20; } );
    pictures->emplace_back( move( m ) );
  }
  empty_file = dir + "/empty"; put_file( empty_file, {} );
  big_file = dir + "/big"; { Bytes b( 20000 ); for ( auto & x : b ) { x = r(); } put_file( big_file, b ); }
  y4m_file = dir + "/in.y4m";
  {
    string h = "YUV4MPEG2 W" + to_string( S.w ) + " H" + to_string( S.h ) + " F30:1 Ip C420\n"; Bytes b( h.begin(), h.end() );
    for ( int k = 0; k < 3; k++ ) { for ( char c : string( "FRAME\n" ) ) b.push_back( c ); for ( unsigned i = 0, e = S.w * S.h + 2 * ( ( S.w + 1 ) / 2 ) * ( ( S.h + 1 ) / 2 ); i < e; i++ ) b.push_back( r() ); }
    put_file( y4m_file, b );
    for ( int k = 0; k < 4; k++ ) { files.push_back( dir + "/bad-y" + to_string( k ) ); put_file( files.back(), damage( b, r ) ); }
  }
  { const Bytes b = slurp( stream_file ); for ( int k = 0; k < 6; k++ ) { files.push_back( dir + "/bad-i" + to_string( k ) ); put_file( files.back(), damage( b, r ) ); } }
  {
    Decoder d( S.w, S.h ); for ( auto & f : S.frames ) { d.get_frame_output( chunk( f ) ); }
    EncoderStateSerializer o; d.serialize( o ); o.write( dir + "/good-st" );
    const Bytes b = slurp( dir + "/good-st" ); for ( int k = 0; k < 6; k++ ) { files.push_back( dir + "/bad-s" + to_string( k ) ); put_file( files.back(), damage( b, r ) ); }
  }
  if ( mode == "steady" ) { steady( seed, n ); }
  for ( auto & j : jobs ) { if ( mode == "cycles" ) { cycles( j, seed, 5, n ); } else if ( mode == "faults" ) { faults( j, seed, n ); } }
  for ( auto & x : seen ) { cout << "S " << x.second << " " << x.first << "\n"; }
  for ( auto & x : outcome ) { cout << "S " << x.second << " operations " << x.first << "\n"; }
  cout << "DONE" << endl;
  _exit( 0 );
}
