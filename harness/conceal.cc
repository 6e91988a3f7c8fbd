/* conceal IVF PLAN: cut frames decoded with error concealment.
   PLAN lines: FRAME CUT REPAIRED(hex or -).  For each: the decoder that has decoded the frames before
   FRAME gets the first CUT bytes of it.  Output, one line each:
   C frame cut outcome W H picture state hash sameaslast sameasfull repaired after
   sameaslast/sameasfull: one character per macroblock */
#include <map>
#include <sstream>
#include "vh.hh"
using namespace std;



static bool same_mb( const VP8Raster & a, const VP8Raster & b, unsigned mx, unsigned my )
{
  for ( unsigned y = 0; y < 16; y++ ) for ( unsigned x = 0; x < 16; x++ ) if ( a.Y().at( mx * 16 + x, my * 16 + y ) != b.Y().at( mx * 16 + x, my * 16 + y ) ) return false;
  for ( unsigned y = 0; y < 8; y++ ) for ( unsigned x = 0; x < 8; x++ ) {
    if ( a.U().at( mx * 8 + x, my * 8 + y ) != b.U().at( mx * 8 + x, my * 8 + y ) ) return false;
    if ( a.V().at( mx * 8 + x, my * 8 + y ) != b.V().at( mx * 8 + x, my * 8 + y ) ) return false;
  }
  return true;
}
static string mask( const VP8Raster & a, const VP8Raster & b )
{
  string r;
  for ( unsigned y = 0; y < VP8Raster::macroblock_dimension( a.display_height() ); y++ ) for ( unsigned x = 0; x < VP8Raster::macroblock_dimension( a.display_width() ); x++ ) r += same_mb( a, b, x, y ) ? '1' : '0';
  return r;
}
static string hashes( const Decoder & d ) { return d.get_hash().str().substr( 0, d.get_hash().str().find( ' ' ) ) + "/" + to_string( d.minihash() ); }

struct Dec { string how; uint16_t w = 0, h = 0; string pic, state, hash; bool shown = false; unique_ptr<RasterHandle> r; };
static Dec decode( Decoder & d, const Bytes & b )
{
  Dec o;
  try {
    auto x = d.get_frame_output( chunk( b ) );
    o.how = "ok"; o.shown = x.first; o.w = x.second.get().display_width(); o.h = x.second.get().display_height(); o.pic = digest( x.second.get() ); o.r.reset( new RasterHandle( x.second ) );
  } catch ( const exception & e ) { o.how = "exc:" + nospace( e.what() ); }
  o.state = parts( d ).all(); o.hash = hashes( d );
  return o;
}

int main( int, char * argv[] )
{
  {
    const Stream s = read_stream( argv[ 1 ] );
    map<unsigned, vector<pair<unsigned, Bytes>>> plan;
    ifstream f( argv[ 2 ] ); unsigned fr, cut; string hex;
    while ( f >> fr >> cut >> hex ) {
      Bytes b; if ( hex != "-" ) for ( size_t i = 0; i + 1 < hex.size(); i += 2 ) b.push_back( stoi( hex.substr( i, 2 ), nullptr, 16 ) );
      plan[ fr ].emplace_back( cut, b );
    }
    unsigned written = 0;
    Decoder plain( s.w, s.h ), conc( s.w, s.h );
    conc.set_error_concealment( true );
    for ( size_t i = 0; i < s.frames.size(); i++ ) {
      const Decoder before_plain = plain, before = conc;
      const string last_before = digest( before.get_references().last.get() );
      const RasterHandle last = before.get_references().last;
      Dec full = decode( plain, s.frames[ i ] ), fullc = decode( conc, s.frames[ i ] );
      if ( full.how != fullc.how or full.pic != fullc.pic or full.state != fullc.state or full.shown != fullc.shown ) VIOL( "complete", "frame " << i << ": a complete frame decodes differently with concealment: " << full.how << " / " << fullc.how );
      if ( full.hash != fullc.hash or ( full.how == "ok" and plain.get_hash().str() != conc.get_hash().str() ) ) VIOL( "complete-hash", "frame " << i );
      for ( auto & p : plan[ i ] ) {
        const Bytes b( s.frames[ i ].begin(), s.frames[ i ].begin() + p.first );
        Decoder a = before, a2 = before;
        a.set_error_concealment( true ); a2.set_error_concealment( true );
        Dec o = decode( a, b ), o2 = decode( a2, b );
        if ( o.how != o2.how or o.pic != o2.pic or o.state != o2.state ) VIOL( "twice", "frame " << i << " cut at " << p.first << ": decoding it twice gives different results" );
        if ( ( o.state == full.state ) != ( o.hash == full.hash ) ) VIOL( "hash", "frame " << i << " cut at " << p.first << ": states " << ( o.state == full.state ? "equal" : "differ" ) << ", hashes do not" );
        if ( ( a == plain ) != ( o.state == full.state ) ) VIOL( "compare", "frame " << i << " cut at " << p.first << ": comparison disagrees with the contents" );
        if ( digest( last.get() ) != last_before ) VIOL( "reference-written", "frame " << i << " cut at " << p.first << ": the reference picture has changed" );
        cout << "C " << i << " " << p.first << " " << o.how << " " << o.w << " " << o.h << " " << ( o.pic.empty() ? "-" : o.pic ) << " " << o.state << " " << o.hash << " "
             << ( o.r ? mask( o.r->get(), last.get() ) : "-" ) << " " << ( o.r and full.r ? mask( o.r->get(), full.r->get() ) : "-" ) << " ";
        if ( p.second.empty() ) cout << "-";
        else {
          Decoder n = before_plain; Dec q = decode( n, p.second );
          cout << ( q.how != "ok" ? q.how : q.pic == o.pic and q.state == o.state and q.shown == o.shown ? "same" : "differs" );
        }
        /* the modes that the cut frame was taken to have, written as a complete frame, decode to the same */
        if ( o.how == "ok" ) {
          Decoder e = before; e.set_error_concealment( true );
          const UncompressedChunk u = e.decompress_frame( chunk( b ) );
          if ( not u.key_frame() ) {
            const InterFrame f = e.parse_frame<InterFrame>( u );
            Decoder n = before_plain; Dec q = decode( n, f.serialize( before_plain.get_state().probability_tables ) );
            if ( q.how != "ok" or q.pic != o.pic or q.state != o.state ) VIOL( "rewritten", "frame " << i << " cut at " << p.first << ": the modes it was taken to have decode to something else in a complete frame " << q.how );
            written++;
          }
        }
        /* life goes on */
        Digest dg;
        for ( size_t j = i + 1; j < s.frames.size() and j < i + 3; j++ ) { Dec x = decode( a, s.frames[ j ] ); for ( char c : x.how + x.pic + x.state ) dg.put( c ); }
        cout << " " << dg.str() << "\n";
      }
    }
    cout << "W " << written << "\nDONE" << endl;
  }
  cout.flush();
  _exit( 0 );
}
