/* monitors of decoder state: identity, saving, purity, re-serialisation */
#include <map>
#include <list>
#include <sstream>
#include "vh.hh"

using namespace std;

static string picture( const VP8Raster & r )
{
  string p;
  auto put = [&]( const TwoD<uint8_t> & t, unsigned w, unsigned h ) { for ( unsigned y = 0; y < h; y++ ) for ( unsigned x = 0; x < w; x++ ) p.push_back( char( t.at( x, y ) ) ); };
  const unsigned w = r.display_width(), h = r.display_height();
  put( r.Y(), w, h ); put( r.U(), ( w + 1 ) / 2, ( h + 1 ) / 2 ); put( r.V(), ( w + 1 ) / 2, ( h + 1 ) / 2 );
  return p;
}

static Decoder build_decoder( const string & fn ) { return EncoderStateDeserializer::build<Decoder>( fn ); }

/* run IVF: decode alone and describe every step */
static void cmd_run( const string & fn, const string & prefix = "F" )
{
  Stream s = read_stream( fn );
  Decoder d( s.w, s.h );
  for ( size_t i = 0; i < s.frames.size(); i++ ) {
    auto out = d.get_frame_output( chunk( s.frames[ i ] ) );
    cout << prefix << " " << i << " " << out.first << " " << digest( out.second.get() ) << " " << line( d ) << "\n";
  }
}

/* save IVF DIR: state file after every frame; what a decoder with that state must do next */
static void cmd_save( const string & fn, const string & dir )
{
  Stream s = read_stream( fn );
  Decoder d( s.w, s.h );
  for ( size_t i = 0; i < s.frames.size(); i++ ) {
    d.get_frame_output( chunk( s.frames[ i ] ) );
    const string st = dir + "/" + to_string( i ) + ".st";
    EncoderStateSerializer o;
    d.serialize( o );
    o.write( st );
    const string before = line( d );
    Decoder r = build_decoder( st );
    const References refs = d.get_references();
    References same = refs;
    same.golden = same.last; same.alternative = same.last;
    Decoder model( d.get_state(), same );
    Parts p = parts( d ), m = parts( model ), q = parts( r );
    cout << "S " << i << " " << p.all() << " " << p.coincide() << " " << nospace( model.get_hash().str() ) << " " << model.minihash() << "\n";
    if ( m.all() != q.all() ) VIOL( "restore", "frame " << i << ": restored " << q.all() << " saved " << m.all() );
    if ( not ( model == r ) or model != r or not ( r == model ) ) VIOL( "restore-eq", "frame " << i << ": restored decoder does not compare equal" );
    if ( p.coincide() and ( r != d or r.get_hash() != d.get_hash() or r.minihash() != d.minihash() ) ) VIOL( "restore-hash", "frame " << i );
    if ( line( d ) != before ) VIOL( "save-mutates", "frame " << i );
    /* saving the restored decoder gives the same file */
    EncoderStateSerializer o2; r.serialize( o2 ); o2.write( st + "2" );
    if ( slurp( st ) != slurp( st + "2" ) ) VIOL( "resave", "frame " << i << ": saving the restored decoder gives a different file" );
    remove( ( st + "2" ).c_str() );
    /* what follows */
    ostringstream os;
    for ( size_t j = i + 1; j < s.frames.size() and j < i + 4; j++ ) {
      auto out = model.get_frame_output( chunk( s.frames[ j ] ) );
      os << "N " << i << " " << j << " " << out.first << " " << digest( out.second.get() ) << " " << line( model ) << "\n";
    }
    cout << os.str();
  }
}

/* load IVF DIR: another process restores the same files */
static void cmd_load( const string & fn, const string & dir )
{
  Stream s = read_stream( fn );
  for ( size_t i = 0; i < s.frames.size(); i++ ) {
    const string st = dir + "/" + to_string( i ) + ".st";
    Decoder r = build_decoder( st );
    Parts p = parts( r );
    cout << "S " << i << " " << p.all() << " " << nospace( r.get_hash().str() ) << " " << r.minihash() << "\n";
    FramePlayer fp = EncoderStateDeserializer::build<FramePlayer>( st );
    if ( fp.width() != s.w or fp.height() != s.h or fp.current_decoder() != r ) VIOL( "player-restore", "frame " << i );
    EncoderStateSerializer o; fp.serialize( o ); o.write( st + "3" );
    if ( slurp( st ) != slurp( st + "3" ) ) VIOL( "resave-player", "frame " << i );
    remove( ( st + "3" ).c_str() );
    for ( size_t j = i + 1; j < s.frames.size() and j < i + 4; j++ ) {
      auto out = r.get_frame_output( chunk( s.frames[ j ] ) );
      cout << "N " << i << " " << j << " " << out.first << " " << digest( out.second.get() ) << " " << line( r ) << "\n";
    }
  }
}

/* mix SEED STEPS IVF...: decoders of several streams interleaved, copied, dropped; pictures held */
struct Live { size_t stream, pos; Decoder d; string desc; };
struct Held { RasterHandle r; string dig; size_t hash; };

static void cmd_mix( uint64_t seed, unsigned steps, const vector<string> & fns )
{
  mt19937_64 rng( seed );
  vector<Stream> ss;
  for ( auto & f : fns ) ss.push_back( read_stream( f ) );
  const uint16_t w = ss[ 0 ].w, h = ss[ 0 ].h;
  list<Live> live;
  vector<Held> held;
  auto fresh = [&]() {
    size_t k = bounded( rng, ss.size() );
    live.push_back( Live { k, 0, Decoder( w, h ), "" } );
  };
  fresh();
  unsigned copies = 0, decodes = 0, bad = 0, heldn = 0, poison = 0, recheck = 0;
  for ( unsigned step = 0; step < steps; step++ ) {
    auto it = live.begin();
    advance( it, bounded( rng, live.size() ) );
    const unsigned op = bounded( rng, 20 );
    if ( op < 10 ) {
      Live & l = *it;
      Stream & s = ss[ l.stream ];
      if ( l.pos >= s.frames.size() ) { live.erase( it ); if ( live.empty() ) fresh(); continue; }
      const Bytes & fr = s.frames[ l.pos ];
      string dig; bool shown;
      const unsigned how = bounded( rng, 3 );
      if ( how == 0 ) {
        auto o = l.d.get_frame_output( chunk( fr ) );
        shown = o.first; dig = digest( o.second.get() );
        if ( bounded( rng, 3 ) == 0 ) { held.push_back( Held { o.second, dig, bounded( rng, 2 ) ? o.second.hash() : 0 } ); heldn++; }
      } else if ( how == 1 ) {
        UncompressedChunk u = l.d.decompress_frame( chunk( fr ) );
        auto o = u.key_frame() ? l.d.decode_frame( l.d.parse_frame<KeyFrame>( u ) ) : l.d.decode_frame( l.d.parse_frame<InterFrame>( u ) );
        shown = o.first; dig = digest( o.second.get() );
      } else {
        auto o = l.d.parse_and_decode_frame( chunk( fr ) );
        shown = o.initialized();
        dig = shown ? digest( o.get().get() ) : string( "hidden" );
        if ( shown and bounded( rng, 3 ) == 0 ) { held.push_back( Held { o.get(), dig, bounded( rng, 2 ) ? o.get().hash() : 0 } ); heldn++; }
      }
      cout << "X " << l.stream << " " << l.pos << " " << shown << " " << dig << " " << line( l.d ) << "\n";
      l.desc = parts( l.d ).all();
      l.pos++; decodes++;
    } else if ( op < 13 ) {                     /* copy: by construction or by assignment over another */
      if ( live.size() < 8 and bounded( rng, 3 ) ) live.push_back( *it );
      else {                                     /* also over itself, and both ways */
        auto t = live.begin(); advance( t, bounded( rng, live.size() ) );
        t->stream = it->stream; t->pos = it->pos; t->desc = it->desc;
        if ( t != it and bounded( rng, 3 ) == 0 ) { Decoder old = t->d; swap( t->d, it->d ); swap( it->d, old ); it->d = t->d; }
        else { t->d = it->d; }
      }
      copies++;
    } else if ( op == 13 ) { if ( live.size() < 8 ) fresh(); }
    else if ( op == 14 ) { if ( live.size() > 1 ) live.erase( it ); }
    else if ( op == 15 ) { poison_pool( w, h, 1 + bounded( rng, 4 ), rng ); poison++; }
    else if ( op == 16 ) {                      /* garbage into a copy: an ordinary rejection or a picture, nothing else changes */
      Decoder c = it->d;
      const Stream & s = ss[ bounded( rng, ss.size() ) ];
      Bytes b = s.frames[ bounded( rng, s.frames.size() ) ];
      for ( unsigned k = 0; k < 3 and b.size(); k++ ) b[ bounded( rng, b.size() ) ] = rng();
      if ( bounded( rng, 2 ) ) b.resize( bounded( rng, b.size() + 1 ) );
      c.set_error_concealment( bounded( rng, 2 ) );
      try { c.get_frame_output( chunk( b ) ); } catch ( const exception & ) {}
      bad++;
    } else if ( op == 17 ) { if ( held.size() ) { swap( held[ bounded( rng, held.size() ) ], held.back() ); held.pop_back(); } }
    else {                                       /* nobody else's work may have changed anything */
      for ( auto & l : live ) if ( l.desc.size() and parts( l.d ).all() != l.desc )
        VIOL( "copy-changed", "step " << step << " stream " << l.stream << " at " << l.pos );
      for ( auto & x : held ) {
        if ( digest( x.r.get() ) != x.dig ) VIOL( "held-changed", "step " << step );
        if ( x.hash and x.r.hash() != x.hash ) VIOL( "held-hash", "step " << step );
      }
      recheck++;
    }
  }
  cout << "STAT decodes=" << decodes << " copies=" << copies << " hostile=" << bad << " held=" << heldn << " poison=" << poison << " recheck=" << recheck << "\n";
}

/* fresh W H: a new decoder is always the same, whatever the process did before; inter frames first */
static void cmd_fresh( uint64_t seed, const string & fn )
{
  Stream s = read_stream( fn );
  mt19937_64 rng( seed );
  const string first = line( Decoder( s.w, s.h ) );
  cout << "FRESH " << first << "\n";
  for ( int round = 0; round < 3; round++ ) {
    poison_pool( s.w, s.h, 1 + round, rng );
    Decoder d( s.w, s.h );
    if ( line( d ) != first ) VIOL( "fresh", "a new decoder is not in the initial state after other pictures were used" );
    for ( size_t i = 0; i < s.frames.size(); i++ ) {
      try {
        auto o = d.get_frame_output( chunk( s.frames[ i ] ) );
        cout << "R " << round << " " << i << " " << digest( o.second.get() ) << " " << line( d ) << "\n";
      } catch ( const exception & e ) { cout << "R " << round << " " << i << " exception\n"; }
    }
  }
}

/* any state the format can hold, with plenty of zeros, limits and repeated values */
static void any_state( mt19937_64 & rng, DecoderState & st )
{
  const unsigned mw = st.width, mh = st.height;   /* as the decoder itself makes it */
  const unsigned style = bounded( rng, 4 );
  auto adj = [&]( int8_t & x, const int lim ) { x = style == 0 ? 0 : style == 1 ? ( bounded( rng, 2 ) ? lim : -lim ) : style == 2 and bounded( rng, 4 ) ? 0 : int( bounded( rng, 2 * lim + 1 ) ) - lim; };
  auto prob = [&]( const uint8_t & cx ) { uint8_t & x = const_cast<uint8_t &>( cx ); if ( bounded( rng, 8 ) == 0 ) x = bounded( rng, 4 ) ? bounded( rng, 256 ) : bounded( rng, 2 ) ? 255 : 0; };
  if ( bounded( rng, 3 ) ) {
    st.segmentation.clear(); st.segmentation.initialize( mw, mh );
    Segmentation & s = st.segmentation.get();
    s.absolute_segment_adjustments = bounded( rng, 2 );
    for ( unsigned i = 0; i < num_segments; i++ ) { adj( s.segment_quantizer_adjustments.at( i ), 127 ); adj( s.segment_filter_adjustments.at( i ), 63 ); }
    const unsigned all = bounded( rng, 3 ) ? 4 : bounded( rng, 4 );
    s.map.forall( [&]( uint8_t & x ) { x = all < 4 ? all : bounded( rng, 4 ); } );
  } else { st.segmentation.clear(); }
  if ( bounded( rng, 3 ) ) {
    st.filter_adjustments.clear(); st.filter_adjustments.initialize();
    for ( unsigned i = 0; i < 4; i++ ) { adj( st.filter_adjustments.get().loopfilter_ref_adjustments.at( i ), 63 ); adj( st.filter_adjustments.get().loopfilter_mode_adjustments.at( i ), 63 ); }
  } else { st.filter_adjustments.clear(); }
  if ( bounded( rng, 2 ) ) {
    auto & p = st.probability_tables;
    for ( auto & a : p.coeff_probs ) for ( auto & b : a ) for ( auto & c : b ) for ( auto & x : c ) prob( x );
    for ( auto & x : p.y_mode_probs ) prob( x );
    for ( auto & x : p.uv_mode_probs ) prob( x );
    for ( auto & a : p.motion_vector_probs ) for ( auto & x : a ) prob( x );
  }
}

/* synth SEED N IVF DIR: states that a stream may reach, saved and restored */
static void cmd_synth( uint64_t seed, unsigned n, const string & fn, const string & dir )
{
  Stream s = read_stream( fn );
  mt19937_64 rng( seed );
  Decoder d( s.w, s.h );
  for ( size_t i = 0; i < s.frames.size(); i++ ) {
    d.get_frame_output( chunk( s.frames[ i ] ) );
    for ( unsigned k = 0; k < n; k++ ) {
      DecoderState st = d.get_state(); any_state( rng, st );
      References refs = d.get_references(); refs.golden = refs.last; refs.alternative = refs.last;
      Decoder m( st, refs );
      const string f = dir + "/synth.st";
      { EncoderStateSerializer o; m.serialize( o ); o.write( f ); }
      Decoder r = build_decoder( f );
      cout << "Y " << parts( m ).all() << "\n";
      if ( parts( m ).all() != parts( r ).all() ) VIOL( "restore-any", "a state with drawn components after frame " << i << ": restored " << parts( r ).all() << " saved " << parts( m ).all() );
      if ( r != m or r.get_hash() != m.get_hash() or r.minihash() != m.minihash() ) VIOL( "restore-any-hash", "a state with drawn components after frame " << i << ": the restored one does not compare equal" );
      { EncoderStateSerializer o; r.serialize( o ); o.write( f + "2" ); }
      if ( slurp( f ) != slurp( f + "2" ) ) VIOL( "resave-any", "frame " << i );
      if ( i + 1 < s.frames.size() ) {
        string x, y;
        try { auto o = m.get_frame_output( chunk( s.frames[ i + 1 ] ) ); x = digest( o.second.get() ); } catch ( const exception & e ) { x = e.what(); }
        try { auto o = r.get_frame_output( chunk( s.frames[ i + 1 ] ) ); y = digest( o.second.get() ); } catch ( const exception & e ) { y = e.what(); }
        if ( x != y or parts( m ).all() != parts( r ).all() ) VIOL( "continue-any", "a state with drawn components after frame " << i << ": the next frame decodes differently" );
      }
    }
  }
}

/* mutate SEED N IVF: states that differ in one component only */
static void cmd_mutate( uint64_t seed, unsigned n, const string & fn )
{
  Stream s = read_stream( fn );
  mt19937_64 rng( seed );
  Decoder d( s.w, s.h );
  map<string, unsigned> kinds;
  for ( size_t i = 0; i < s.frames.size(); i++ ) {
    d.get_frame_output( chunk( s.frames[ i ] ) );
    Decoder same( d.get_state(), d.get_references() );
    if ( same != d or not ( same == d ) or same.get_hash() != d.get_hash() or same.minihash() != d.minihash() or not same.minihash_match( d.minihash() ) )
      VIOL( "equal-differs", "frame " << i << ": a decoder with the same state is not equal" );
    { /* tags of other states */
      const uint32_t own = d.minihash();
      vector<uint32_t> tags { own + 1, own - 1, ~own, own >> 16, own << 16, own & 0xffff, own & 0xffff0000, ( own << 16 ) | ( own >> 16 ), 1, 0xffff, 0xffffffff, own ^ 0xffff, own ^ 0xffff0000, uint32_t( i ) };
      for ( unsigned k = 0; k < 32; k++ ) { tags.push_back( own ^ ( 1u << k ) ); tags.push_back( 1u << k ); tags.push_back( own ^ ( 0x11111111u * k ) ); tags.push_back( ( 1u << k ) - 1 ); }
      for ( const uint32_t t : tags ) if ( t and t != own and d.minihash_match( t ) ) VIOL( "wrong-tag", "frame " << i << ": a decoder with short hash " << own << " accepts a chunk tagged " << t );
    }
    if ( not d.minihash_match( 0 ) ) VIOL( "untagged", "frame " << i << ": an untagged chunk is refused" );
    { /* the same content in other buffers */
      References o = d.get_references(), r( copy_raster( o.last.get() ) );
      r.golden = RasterHandle( copy_raster( o.golden.get() ) ); r.alternative = RasterHandle( copy_raster( o.alternative.get() ) );
      Decoder e( d.get_state(), r );
      if ( e != d or e.get_hash() != d.get_hash() or e.minihash() != d.minihash() ) VIOL( "equal-copy-differs", "frame " << i << ": same content in other buffers is not equal" );
    }
    for ( unsigned k = 0; k < n; k++ ) {
      DecoderState st = d.get_state();
      if ( k % 3 == 2 ) any_state( rng, st );
      const Decoder base( st, d.get_references() );
      References refs = d.get_references();
      string what;
      auto other = [&]( uint8_t & x ) { x ^= uint8_t( 1 + bounded( rng, 255 ) ); };
      auto nudge = [&]( uint8_t & x ) { x ^= 1; };
      switch ( bounded( rng, 16 ) ) {
      case 0: other( st.probability_tables.coeff_probs.at( bounded( rng, BLOCK_TYPES ) ).at( bounded( rng, COEF_BANDS ) ).at( bounded( rng, PREV_COEF_CONTEXTS ) ).at( bounded( rng, ENTROPY_NODES ) ) ); what = "coeff-prob"; break;
      case 1: other( st.probability_tables.y_mode_probs.at( bounded( rng, num_y_modes - 1 ) ) ); what = "y-mode-prob"; break;
      case 2: other( st.probability_tables.uv_mode_probs.at( bounded( rng, num_uv_modes - 1 ) ) ); what = "uv-mode-prob"; break;
      case 3: other( st.probability_tables.motion_vector_probs.at( bounded( rng, 2 ) ).at( bounded( rng, MV_PROB_CNT ) ) ); what = "mv-prob"; break;
      case 4: if ( not st.segmentation.initialized() ) continue; st.segmentation.get().absolute_segment_adjustments ^= 1; what = "seg-abs"; break;
      case 5: if ( not st.segmentation.initialized() ) continue; st.segmentation.get().segment_quantizer_adjustments.at( bounded( rng, 4 ) ) ^= 1 + bounded( rng, 100 ); what = "seg-q"; break;
      case 6: if ( not st.segmentation.initialized() ) continue; st.segmentation.get().segment_filter_adjustments.at( bounded( rng, 4 ) ) ^= 1 + bounded( rng, 60 ); what = "seg-lf"; break;
      case 7: {
        if ( not st.segmentation.initialized() ) continue;
        auto & m = st.segmentation.get().map;
        uint8_t & x = m.at( bounded( rng, m.width() ), bounded( rng, m.height() ) );
        x = ( x + 1 + bounded( rng, 3 ) ) & 3; what = "seg-map"; break;
      }
      case 8: if ( st.segmentation.initialized() ) st.segmentation.clear(); else st.segmentation.initialize( VP8Raster::macroblock_dimension( s.w ), VP8Raster::macroblock_dimension( s.h ) ); what = "seg-on-off"; break;
      case 9: if ( not st.filter_adjustments.initialized() ) continue; st.filter_adjustments.get().loopfilter_ref_adjustments.at( bounded( rng, 4 ) ) ^= 1 + bounded( rng, 60 ); what = "lf-ref"; break;
      case 10: if ( not st.filter_adjustments.initialized() ) continue; st.filter_adjustments.get().loopfilter_mode_adjustments.at( bounded( rng, 4 ) ) ^= 1 + bounded( rng, 60 ); what = "lf-mode"; break;
      case 11: if ( st.filter_adjustments.initialized() ) st.filter_adjustments.clear(); else st.filter_adjustments.initialize(); what = "lf-on-off"; break;
      default: {
        const unsigned which = bounded( rng, 3 ), plane = bounded( rng, 3 );
        RasterHandle & h = which == 0 ? refs.last : which == 1 ? refs.golden : refs.alternative;
        MutableRasterHandle m = copy_raster( h.get() );
        VP8Raster & r = m.get();
        auto & p = plane == 0 ? r.Y() : plane == 1 ? r.U() : r.V();
        const unsigned x = bounded( rng, 4 ) ? bounded( rng, p.width() ) : p.width() - 1, y = bounded( rng, 4 ) ? bounded( rng, p.height() ) : p.height() - 1;
        if ( bounded( rng, 2 ) ) nudge( p.at( x, y ) ); else other( p.at( x, y ) );
        h = RasterHandle( move( m ) );
        what = string( "picture-" ) + "lga"[ which ] + "YUV"[ plane ];
      }
      }
      Decoder e( st, refs );
      kinds[ what ]++;
      if ( parts( e ).all() == parts( base ).all() ) { cout << "HARNESS mutation " << what << " changed nothing\n"; exit( 91 ); }
      if ( e == base or not ( e != base ) or base == e ) VIOL( "differs-equal:" + what, "frame " << i << ": decoders differing in " << what << " compare equal" );
      if ( e.get_hash() == base.get_hash() or e.get_hash().hash() == base.get_hash().hash() or e.get_hash().str() == base.get_hash().str() ) VIOL( "differs-hash:" + what, "frame " << i << ": decoders differing in " << what << " have the same hash" );
      if ( e.minihash() == base.minihash() or e.minihash_match( base.minihash() ) or base.minihash_match( e.minihash() ) ) VIOL( "differs-minihash:" + what, "frame " << i << ": decoders differing in " << what << " have the same short hash" );
      /* permuted pictures */
    }
    References r = d.get_references();
    if ( digest( r.last.get() ) != digest( r.golden.get() ) ) {
      References t = r; swap( t.last, t.golden ); kinds[ "swap-lg" ]++;
      Decoder e( d.get_state(), t );
      if ( e == d or e.get_hash() == d.get_hash() or e.minihash() == d.minihash() ) VIOL( "swapped-equal", "last/golden swapped: still equal" );
    }
    if ( digest( r.alternative.get() ) != digest( r.golden.get() ) ) {
      References t = r; swap( t.alternative, t.golden ); kinds[ "swap-ga" ]++;
      Decoder e( d.get_state(), t );
      if ( e == d or e.get_hash() == d.get_hash() or e.minihash() == d.minihash() ) VIOL( "swapped-equal", "golden/altref swapped: still equal" );
    }
  }
  for ( auto & k : kinds ) cout << "KIND " << k.first << " " << k.second << "\n";
}

/* ---- own digest of everything a parsed frame says ---- */
template <class O> static void put_opt( Digest & d, const O & o ) { d.put( o.initialized() ); if ( o.initialized() ) d.num( uint64_t( int64_t( o.get() ) ) ); }

template <class H> static void put_header_common( Digest & d, const H & h )
{
  d.put( h.update_segmentation.initialized() );
  if ( h.update_segmentation.initialized() ) {
    const auto & u = h.update_segmentation.get();
    d.put( u.update_mb_segmentation_map );
    d.put( u.segment_feature_data.initialized() );
    if ( u.segment_feature_data.initialized() ) {
      d.put( u.segment_feature_data.get().segment_feature_mode );
      for ( unsigned i = 0; i < 4; i++ ) { put_opt( d, u.segment_feature_data.get().quantizer_update.at( i ) ); put_opt( d, u.segment_feature_data.get().loop_filter_update.at( i ) ); }
    }
    d.put( u.mb_segmentation_map.initialized() );
    if ( u.mb_segmentation_map.initialized() ) for ( unsigned i = 0; i < 3; i++ ) put_opt( d, u.mb_segmentation_map.get().at( i ) );
  }
  d.put( h.filter_type ); d.num( h.loop_filter_level ); d.num( h.sharpness_level );
  d.put( h.mode_lf_adjustments.initialized() );
  if ( h.mode_lf_adjustments.initialized() ) {
    d.put( h.mode_lf_adjustments.get().initialized() );
    if ( h.mode_lf_adjustments.get().initialized() ) for ( unsigned i = 0; i < 4; i++ ) {
      put_opt( d, h.mode_lf_adjustments.get().get().ref_update.at( i ) ); put_opt( d, h.mode_lf_adjustments.get().get().mode_update.at( i ) ); }
  }
  d.num( h.log2_number_of_dct_partitions );
  d.num( h.quant_indices.y_ac_qi ); put_opt( d, h.quant_indices.y_dc ); put_opt( d, h.quant_indices.y2_dc ); put_opt( d, h.quant_indices.y2_ac );
  put_opt( d, h.quant_indices.uv_dc ); put_opt( d, h.quant_indices.uv_ac );
  d.put( h.refresh_entropy_probs );
  for ( unsigned i = 0; i < BLOCK_TYPES; i++ ) for ( unsigned j = 0; j < COEF_BANDS; j++ ) for ( unsigned k = 0; k < PREV_COEF_CONTEXTS; k++ ) for ( unsigned l = 0; l < ENTROPY_NODES; l++ )
    put_opt( d, h.token_prob_update.at( i ).at( j ).at( k ).at( l ).coeff_prob );
  put_opt( d, h.prob_skip_false );
}

static void put_header( Digest & d, const KeyFrameHeader & h ) { d.put( 1 ); d.put( h.color_space ); d.put( h.clamping_type ); put_header_common( d, h ); }
static void put_header( Digest & d, const InterFrameHeader & h, bool refs = true )
{
  d.put( 2 ); put_header_common( d, h );
  if ( refs ) { d.put( h.refresh_golden_frame ); d.put( h.refresh_alternate_frame ); put_opt( d, h.copy_buffer_to_golden ); put_opt( d, h.copy_buffer_to_alternate ); d.put( h.refresh_last ); }
  d.put( h.sign_bias_golden ); d.put( h.sign_bias_alternate );
  d.num( h.prob_inter ); d.num( h.prob_references_last ); d.num( h.prob_references_golden );
  d.put( h.intra_16x16_prob.initialized() ); if ( h.intra_16x16_prob.initialized() ) for ( unsigned i = 0; i < 4; i++ ) d.num( h.intra_16x16_prob.get().at( i ) );
  d.put( h.intra_chroma_prob.initialized() ); if ( h.intra_chroma_prob.initialized() ) for ( unsigned i = 0; i < 3; i++ ) d.num( h.intra_chroma_prob.get().at( i ) );
  for ( unsigned i = 0; i < 2; i++ ) for ( unsigned j = 0; j < MV_PROB_CNT; j++ ) put_opt( d, h.mv_prob_update.at( i ).at( j ) );
}

template <class B> static bool put_coeffs( Digest & d, const B & b )
{
  bool nz = false;
  for ( unsigned i = 0; i < 16; i++ ) { const int v = b.coefficients().at( i ); d.num( uint64_t( int64_t( v ) ) ); nz = nz or v; }
  return nz;
}

struct Content { string header, noref_header, modes, coeffs; bool show; unsigned mbs, nonzero; };

template <class M> static void put_reference( Digest & d, const M & mb ) { d.num( mb.header().reference() ); }

template <class F> static Content content( const F & f )
{
  Content c; c.show = f.show_frame(); c.mbs = c.nonzero = 0;
  Digest h, m, k;
  put_header( h, f.header() ); c.header = h.str();
  f.macroblocks().forall( [&]( const typename remove_const<typename remove_reference<decltype( f.macroblocks().at( 0, 0 ) )>::type>::type & mb ) {
    c.mbs++;
    m.num( mb.y_prediction_mode() ); m.put( mb.inter_coded() ); put_reference( m, mb ); m.num( mb.segment_id() );
    if ( not mb.inter_coded() ) m.num( mb.uv_prediction_mode() );
    for ( unsigned y = 0; y < 4; y++ ) for ( unsigned x = 0; x < 4; x++ ) {
      const auto & b = mb.Y().at( x, y );
      if ( mb.y_prediction_mode() == B_PRED ) m.num( b.prediction_mode() );
      if ( mb.inter_coded() ) { m.num( uint64_t( int64_t( b.motion_vector().x() ) ) ); m.num( uint64_t( int64_t( b.motion_vector().y() ) ) ); }
      c.nonzero += put_coeffs( k, b );
    }
    if ( mb.Y2().coded() ) c.nonzero += put_coeffs( k, mb.Y2() );
    for ( unsigned y = 0; y < 2; y++ ) for ( unsigned x = 0; x < 2; x++ ) { c.nonzero += put_coeffs( k, mb.U().at( x, y ) ); c.nonzero += put_coeffs( k, mb.V().at( x, y ) ); }
  } );
  c.modes = m.str(); c.coeffs = k.str();
  return c;
}

template <class H> static string noref( const H & ) { return ""; }
static string noref( const InterFrameHeader & h ) { Digest d; put_header( d, h, false ); return d.str(); }

template <class F> static void print_content( size_t i, const F & f, const Decoder & d )
{
  const Content c = content( f );
  cout << "C " << i << " " << ( F( f.display_width(), f.display_height() ).header().key_frame() ? "K" : "I" ) << " " << c.show << " " << c.header << " n" << noref( f.header() ) << " " << c.modes << " " << c.coeffs << " " << c.nonzero << " " << parts( d ).all() << "\n";
}

/* content IVF: what the frames say */
static void cmd_content( const string & fn )
{
  Stream s = read_stream( fn );
  Decoder d( s.w, s.h );
  for ( size_t i = 0; i < s.frames.size(); i++ ) {
    UncompressedChunk u = d.decompress_frame( chunk( s.frames[ i ] ) );
    if ( u.key_frame() ) { KeyFrame f = d.parse_frame<KeyFrame>( u ); d.decode_frame( f ); print_content( i, f, d ); }
    else { InterFrame f = d.parse_frame<InterFrame>( u ); d.decode_frame( f ); print_content( i, f, d ); }
  }
}

/* reser IVF OUT: every frame parsed and written back */
static ProbabilityTables tables_for( const Decoder & before, const KeyFrame * ) { return ProbabilityTables(); }
static ProbabilityTables tables_for( const Decoder & before, const InterFrame * ) { return before.get_state().probability_tables; }

template <class F> static void one_reser( size_t i, const Stream & s, Decoder & orig, Decoder & copy, const UncompressedChunk & u, const Bytes & in, vector<Bytes> & out )
{
  const Decoder before = orig;
  F f = orig.parse_frame<F>( u );
  const ProbabilityTables tables = tables_for( before, &f );     /* a key frame starts from the default tables */
  Bytes b = f.serialize( tables );
  Bytes b2 = f.serialize( tables );
  if ( b != b2 ) VIOL( "serialize-unstable", "frame " << i << ": serialising twice gives different bytes" );
  auto o1 = orig.decode_frame( f );
  /* reparse from the same state */
  Decoder again = before;
  UncompressedChunk u2 = again.decompress_frame( chunk( b ) );
  if ( u2.key_frame() != u.key_frame() or u2.show_frame() != u.show_frame() ) { VIOL( "reparse-type", "frame " << i ); return; }
  F g = again.parse_frame<F>( u2 );
  const Content cf = content( f ), cg = content( g );
  if ( cf.header != cg.header ) VIOL( "reparse-header", "frame " << i << ": header differs after rewriting" );
  if ( cf.modes != cg.modes ) VIOL( "reparse-modes", "frame " << i << ": modes or vectors differ after rewriting" );
  if ( cf.coeffs != cg.coeffs ) VIOL( "reparse-coeffs", "frame " << i << ": coefficients differ after rewriting" );
  if ( cf.show != cg.show ) VIOL( "reparse-show", "frame " << i );
  if ( not ( f == g ) ) VIOL( "reparse-differs", "frame " << i << ": reparsed frame differs" );
  if ( g.serialize( tables ) != b ) VIOL( "reserialize-differs", "frame " << i );
  auto o2 = again.decode_frame( g );
  if ( o1.first != o2.first or digest( o1.second.get() ) != digest( o2.second.get() ) ) VIOL( "redecode-picture", "frame " << i << ": picture differs" );
  if ( parts( orig ).all() != parts( again ).all() ) VIOL( "redecode-state", "frame " << i << ": state differs " << parts( orig ).all() << " " << parts( again ).all() );
  /* a decoder following the rewritten stream from the start */
  auto o3 = copy.get_frame_output( chunk( b ) );
  if ( digest( o3.second.get() ) != digest( o1.second.get() ) or parts( copy ).all() != parts( orig ).all() ) VIOL( "rewritten-drift", "frame " << i );
  cout << "R " << i << " " << in.size() << " " << b.size() << " " << digest( o1.second.get() ) << "\n";
  out.push_back( b );
}

static void put_le( Bytes & b, uint64_t v, int n ) { for ( int i = 0; i < n; i++ ) b.push_back( v >> ( 8 * i ) ); }

static void write_stream( const string & fn, const Stream & s, const vector<Bytes> & frames )
{
  Bytes b { 'D', 'K', 'I', 'F' };
  put_le( b, 0, 2 ); put_le( b, 32, 2 );
  for ( char c : string( "VP80" ) ) b.push_back( c );
  put_le( b, s.w, 2 ); put_le( b, s.h, 2 ); put_le( b, 30, 4 ); put_le( b, 1, 4 ); put_le( b, frames.size(), 4 ); put_le( b, 0, 4 );
  for ( size_t i = 0; i < frames.size(); i++ ) { put_le( b, frames[ i ].size(), 4 ); put_le( b, i, 8 ); b.insert( b.end(), frames[ i ].begin(), frames[ i ].end() ); }
  ofstream( fn, ios::binary ).write( (const char *)b.data(), b.size() );
}

static void cmd_reser( const string & fn, const string & outfn )
{
  Stream s = read_stream( fn );
  Decoder d( s.w, s.h ), c( s.w, s.h );
  vector<Bytes> out;
  for ( size_t i = 0; i < s.frames.size(); i++ ) {
    UncompressedChunk u = d.decompress_frame( chunk( s.frames[ i ] ) );
    if ( u.key_frame() ) one_reser<KeyFrame>( i, s, d, c, u, s.frames[ i ], out );
    else one_reser<InterFrame>( i, s, d, c, u, s.frames[ i ], out );
  }
  write_stream( outfn, s, out );
}

/* follow STATE IVF OUTSTATE YUV: decode IVF from STATE, write the shown pictures, compare with OUTSTATE */
static void cmd_follow( const string & st, const string & fn, const string & outst, const string & yuv )
{
  Stream s = read_stream( fn );
  Decoder d = st == "-" ? Decoder( s.w, s.h ) : build_decoder( st );
  cout << "I " << line( d ) << "\n";
  ofstream y( yuv, ios::binary );
  for ( size_t i = 0; i < s.frames.size(); i++ ) {
    const bool key = not ( s.frames[ i ].at( 0 ) & 1 );
    unsigned q, lf;
    {
      Decoder t( d );
      UncompressedChunk u = t.decompress_frame( chunk( s.frames[ i ] ) );
      if ( key ) { KeyFrame f = t.parse_frame<KeyFrame>( u ); q = f.header().quant_indices.y_ac_qi; lf = f.header().loop_filter_level; }
      else { InterFrame f = t.parse_frame<InterFrame>( u ); q = f.header().quant_indices.y_ac_qi; lf = f.header().loop_filter_level; }
    }
    auto out = d.get_frame_output( chunk( s.frames[ i ] ) );
    cout << "F " << i << " " << key << " " << out.first << " " << q << " " << lf << "\n";
    if ( out.first ) { const string p = picture( out.second.get() ); y.write( p.data(), p.size() ); }
  }
  cout << "E " << line( d ) << "\n";
  if ( outst == "-" ) return;
  Decoder r = build_decoder( outst );
  cout << "O " << line( r ) << "\n";
  if ( parts( r ).all() != parts( d ).all() ) VIOL( "state", "decoding the chunk ends in another state than the one written for the next chunk: " << parts( d ).all() << " and " << parts( r ).all() );
  else if ( not ( r == d ) or r.get_hash() != d.get_hash() ) VIOL( "state-eq", "equal states do not compare equal" );
}

int main( int argc, char ** argv )
{
  if ( argc < 3 ) return 92;
  vector<string> a( argv + 1, argv + argc );
  try {
    if ( a[ 0 ] == "run" ) cmd_run( a[ 1 ] );
    else if ( a[ 0 ] == "save" ) cmd_save( a[ 1 ], a[ 2 ] );
    else if ( a[ 0 ] == "load" ) cmd_load( a[ 1 ], a[ 2 ] );
    else if ( a[ 0 ] == "mix" ) cmd_mix( stoull( a[ 1 ] ), stoul( a[ 2 ] ), vector<string>( a.begin() + 3, a.end() ) );
    else if ( a[ 0 ] == "fresh" ) cmd_fresh( stoull( a[ 1 ] ), a[ 2 ] );
    else if ( a[ 0 ] == "mutate" ) cmd_mutate( stoull( a[ 1 ] ), stoul( a[ 2 ] ), a[ 3 ] );
    else if ( a[ 0 ] == "synth" ) cmd_synth( stoull( a[ 1 ] ), stoul( a[ 2 ] ), a[ 3 ], a[ 4 ] );
    else if ( a[ 0 ] == "content" ) cmd_content( a[ 1 ] );
    else if ( a[ 0 ] == "stateof" ) { Decoder d = build_decoder( a[ 1 ] ); cout << "D " << line( d ) << "\n"; }
    else if ( a[ 0 ] == "follow" ) cmd_follow( a.at( 1 ), a.at( 2 ), a.at( 3 ), a.at( 4 ) );
    else if ( a[ 0 ] == "reser" ) cmd_reser( a[ 1 ], a[ 2 ] );
    else return 92;
  } catch ( const exception & e ) {
    cout << "EXC " << typeid( e ).name() << " " << e.what() << endl;
    return 1;
  }
  cout << "DONE" << endl;
  return 0;
}
