// LINK: -Wl,--wrap=_ZN7Encoder21encode_with_quantizerERK9VP8Rasterh,--wrap=_ZN15FragmentedFrameC1EtjjjjRKSt6vectorIhSaIhEE,--wrap=bind,--wrap=send,--wrap=sendto,--wrap=recvmsg,--wrap=_ZNSt6chrono3_V212system_clock3nowEv
/* the real salsify-sender, with a camera of VH_WIDTH x VH_HEIGHT that takes the pictures of salsa.hh */
#define main sender_main
#include "../salsify/salsify-sender.cc"
#undef main
#include "salsa_net.hh"

/* E a picture encoded (size, quantizer), D a frame chosen to be sent (number, size, time since the one before) */
extern "C" {
  vector<uint8_t> __real__ZN7Encoder21encode_with_quantizerERK9VP8Rasterh( Encoder *, const VP8Raster &, const uint8_t ) __attribute__(( weak ));
  vector<uint8_t> __wrap__ZN7Encoder21encode_with_quantizerERK9VP8Rasterh( Encoder * e, const VP8Raster & r, const uint8_t q )
  {
    vector<uint8_t> v = __real__ZN7Encoder21encode_with_quantizerERK9VP8Rasterh( e, r, q );
    const uint32_t x[ 2 ] = { uint32_t( v.size() ), q }; trace_.put( 'E', x, 8 );
    return v;
  }
  void __real__ZN15FragmentedFrameC1EtjjjjRKSt6vectorIhSaIhEE( void *, uint16_t, uint32_t, uint32_t, uint32_t, uint32_t, const vector<uint8_t> & ) __attribute__(( weak ));
  void __wrap__ZN15FragmentedFrameC1EtjjjjRKSt6vectorIhSaIhEE( void * p, uint16_t c, uint32_t s, uint32_t t, uint32_t n, uint32_t since, const vector<uint8_t> & f )
  {
    const uint32_t x[ 3 ] = { n, uint32_t( f.size() ), since }; trace_.put( 'D', x, 12 );
    __real__ZN15FragmentedFrameC1EtjjjjRKSt6vectorIhSaIhEE( p, c, s, t, n, since, f );
  }
}

static unsigned taken_ = 0;
static uint16_t env16( const char * n ) { return atoi( getenv( n ) ); }

Camera::Camera( const uint16_t, const uint16_t, const uint32_t format, const string )
  : width_( env16( "VH_WIDTH" ) ), height_( env16( "VH_HEIGHT" ) ), camera_fd_( ::open( "/dev/null", O_RDWR ) ), kernel_v4l2_buffers_(), pixel_format_( format ) {}
Camera::~Camera() {}
Optional<RasterHandle> Camera::get_next_frame()
{
  const timespec t { 0, atol( getenv( "VH_PACE" ) ) * 1000 }; nanosleep( &t, nullptr );
  const uint32_t i = taken_++;
  trace_.put( 'C', &i, 4 );
  return { camera_picture( strtoull( getenv( "VH_SEED" ), nullptr, 10 ), i, width_, height_ ) };
}

int main( int argc, char * argv[] ) { start_recording(); const int r = sender_main( argc, argv ); _exit( r ); }
