// LINK: -Wl,--wrap=bind,--wrap=send,--wrap=sendto,--wrap=recvmsg,--wrap=_ZNSt6chrono3_V212system_clock3nowEv
/* the real salsify-receiver, with a display that records what it is given */
#define DISPLAY_HH
#include "salsa_net.hh"
#include "vh.hh"

static Recorder shown_;
static std::string base_digest( const BaseRaster & r ) { Digest d; put_plane( d, r.Y() ); put_plane( d, r.U() ); put_plane( d, r.V() ); return d.str(); }
class VideoDisplay
{
public:
  VideoDisplay( const BaseRaster &, const bool = false ) {}
  void draw( const BaseRaster & r ) { const std::string d = base_digest( r ); shown_.put( 'D', d.data(), d.size() ); }
};

#define main receiver_main
#include "../salsify/salsify-receiver.cc"
#undef main

int main( int argc, char * argv[] ) { start_recording(); shown_.open( "VH_SHOWN" ); const int r = receiver_main( argc, argv ); _exit( r ); }
