/* salsa MODE SEED MS W H SENDER RECEIVER DIR OPMODE CLOCK PACE (P16, P20)
   recv: a scripted sender and network drive the real receiver
   send: a scripted receiver and network drive the real sender
   e2e:  both programs, with a faulty network between them
   cap-send, cap-recv, cap-e2e: the same, judging how much is sent and what delays are reported (P20)
   What the programs received, sent and showed is recorded in them and judged here afterwards. */
#include <map>
#include <set>
#include <deque>
#include <algorithm>
#include <csignal>
#include <cmath>
#include <poll.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <time.h>
#include "vh.hh"
#include "encoder.hh"
#include "salsa.hh"
using namespace std;
typedef mt19937_64 Rng;

static uint16_t W, H;
static map<string, uint64_t> seen;
static const uint16_t SESSION = 1337;

static string base_digest( const VP8Raster & r ) { Digest d; put_plane( d, r.Y() ); put_plane( d, r.U() ); put_plane( d, r.V() ); return d.str(); }
static int64_t now_us() { timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec * 1000000LL + t.tv_nsec / 1000; }
static uint32_t get( const string & s, size_t p, int n ) { uint32_t r = 0; for ( int i = 0; i < n; i++ ) { r |= uint32_t( uint8_t( s.at( p + i ) ) ) << ( 8 * i ); } return r; }
static string num( uint32_t x, int n ) { string s; for ( int i = 0; i < n; i++ ) { s += char( x >> ( 8 * i ) ); } return s; }

struct Data { uint16_t session; uint32_t source, target, frame; uint16_t fragment, fragments; uint32_t since; string body; bool ok; };
static Data parse_data( const string & s )
{
  if ( s.size() < 23 ) { return { 0, 0, 0, 0, 0, 0, 0, "", false }; }
  Data d { uint16_t( get( s, 0, 2 ) ), get( s, 2, 4 ), get( s, 6, 4 ), get( s, 10, 4 ), uint16_t( get( s, 14, 2 ) ), uint16_t( get( s, 16, 2 ) ), get( s, 18, 4 ), s.substr( 22 ), true };
  d.ok = d.fragment < d.fragments;
  return d;
}
static string make_data( const Data & d ) { return num( d.session, 2 ) + num( d.source, 4 ) + num( d.target, 4 ) + num( d.frame, 4 ) + num( d.fragment, 2 ) + num( d.fragments, 2 ) + num( d.since, 4 ) + d.body; }
struct Ack { uint16_t session; uint32_t frame; uint16_t fragment; uint32_t delay, current; vector<uint32_t> complete; bool ok; };
static Ack parse_ack( const string & s )
{
  Ack a { 0, 0, 0, 0, 0, {}, false };
  if ( s.size() < 20 ) { return a; }
  a.session = get( s, 0, 2 ); a.frame = get( s, 2, 4 ); a.fragment = get( s, 6, 2 ); a.delay = get( s, 8, 4 ); a.current = get( s, 12, 4 );
  const uint32_t n = get( s, 16, 4 );
  if ( s.size() != 20 + 4 * size_t( n ) ) { return a; }
  for ( uint32_t i = 0; i < n; i++ ) { a.complete.push_back( get( s, 20 + 4 * i, 4 ) ); }
  a.ok = true;
  return a;
}
static string make_ack( const Ack & a ) { string s = num( a.session, 2 ) + num( a.frame, 4 ) + num( a.fragment, 2 ) + num( a.delay, 4 ) + num( a.current, 4 ) + num( a.complete.size(), 4 ); for ( auto x : a.complete ) { s += num( x, 4 ); } return s; }

/* what a frame is: the state it starts from, the one it leads to, and the picture */
struct Truth { uint32_t source, target; string shown; bool good; };
static map<uint32_t, Truth> truths;
static uint32_t initial_hash;

static bool has( const vector<uint32_t> & v, uint32_t x ) { return find( v.begin(), v.end(), x ) != v.end(); }

/* ---------- judging the receiver ---------- */
static uint32_t last_exact_frame, lost_after_good = 0, inexact_after_good = 0, exact_after_good = 0;
static bool check_receiver( const vector<Event> & ev, const vector<Event> & shown, const bool report, const uint32_t good_from = UINT32_MAX )
{
  struct Part { uint16_t n; map<uint16_t, string> got; };
  map<uint32_t, Part> parts_;
  uint32_t next = 0;
  set<uint32_t> real { initial_hash };      /* states reached from complete data */
  vector<uint32_t> listed;                  /* named by the latest acknowledgement */
  bool known = true; uint32_t cur = initial_hash;
  struct Show { string d; bool must; };
  vector<Show> show;
  uint64_t n_exact = 0, n_blind = 0, n_partial = 0, n_stale = 0, n_loaded = 0;
#define RV( key, msg ) do { if ( report ) { VIOL( key, msg ); } return true; } while ( 0 )
  for ( size_t i = 0; i < ev.size(); i++ ) {
    if ( ev[ i ].type == 'S' ) { RV( "unasked", "an acknowledgement nobody asked for" ); }
    if ( ev[ i ].type != 'R' ) { continue; }
    const Data d = parse_data( ev[ i ].data );
    const bool acked = i + 1 < ev.size() and ev[ i + 1 ].type == 'S';
    const bool last = i + 1 >= ev.size();
    if ( not d.ok or d.session != SESSION ) { if ( acked ) { i++; RV( "foreign", "a datagram that is not of this session was acknowledged" ); } if ( report ) seen[ "foreign or malformed datagrams ignored" ]++; continue; }
    if ( d.frame < next ) { n_stale++; if ( not acked ) { continue; } }
    else {
      if ( d.frame > next ) {
        bool any = false;
        for ( auto it = parts_.begin(); it != parts_.end() and it->first < d.frame; it = parts_.erase( it ) ) { if ( not it->second.got.empty() ) { any = true; n_partial++; show.push_back( { "", false } ); } }
        next = d.frame;
        if ( any ) { known = false; }
      }
      Part & p = parts_[ d.frame ];
      p.n = d.fragments; p.got.emplace( d.fragment, d.body );
    }
    if ( last ) { show.push_back( { "", false } ); break; }   /* cut short, perhaps between showing and acknowledging */
    if ( not acked ) { RV( "no-ack", "no acknowledgement for fragment " << d.fragment << " of frame " << d.frame ); }
    i++;
    const Ack a = parse_ack( ev[ i ].data );
    if ( not a.ok or a.session != SESSION or a.frame != d.frame or a.fragment != d.fragment ) { RV( "ack-fields", "datagram " << d.frame << "." << d.fragment << " acknowledged as " << a.frame << "." << a.fragment << " session " << a.session ); }
    if ( parts_.count( next ) and parts_[ next ].got.size() == parts_[ next ].n ) {
      const auto t = truths.find( next );
      if ( t == truths.end() ) { cerr << "HARNESS no truth for frame " << next << "\n"; exit( 92 ); }
      const bool usable = t->second.source == initial_hash or has( listed, t->second.source ) or ( known and cur == t->second.source );
      if ( usable and t->second.good ) {
        n_exact++;
        if ( not ( known and cur == t->second.source ) ) { n_loaded++; }
        if ( a.current != t->second.target ) { RV( "wrong-state", "frame " << next << " complete, its starting state " << t->second.source << " held, but the receiver is then in " << a.current << " and not " << t->second.target ); }
        show.push_back( { t->second.shown, true } );
        known = true; cur = t->second.target; real.insert( cur );
        if ( cur != initial_hash and ( a.complete.empty() or a.complete.back() != cur ) ) { RV( "not-recorded", "the state after frame " << next << " is not the latest one acknowledged as complete" ); }
        if ( t->second.source != initial_hash and has( listed, t->second.source ) and not has( a.complete, t->second.source ) ) { RV( "forgotten", "the state that frame " << next << " started from was forgotten" ); }
        last_exact_frame = next;
        if ( next >= good_from ) { exact_after_good++; }
      } else {
        n_blind++;
        show.push_back( { "", false } );
        known = a.current == t->second.target or a.current == initial_hash or real.count( a.current ); cur = a.current;
        if ( a.current == t->second.target ) { real.insert( cur ); }
        if ( next >= good_from ) { inexact_after_good++; }
      }
      parts_.erase( next ); next++;
    } else if ( known and a.current != cur ) { RV( "state-moved", "state " << cur << " became " << a.current << " without a frame" ); }
    else if ( not known and real.count( a.current ) ) { known = true; cur = a.current; }
    for ( const uint32_t x : a.complete ) { if ( not real.count( x ) ) { RV( "false-claim", "state " << x << " acknowledged as complete after datagram " << d.frame << "." << d.fragment << ", but no complete frame led there" ); } }
    if ( a.complete.size() > 60 ) {
      map<uint32_t, unsigned> times; for ( const uint32_t x : a.complete ) { if ( ++times[ x ] > 60 ) { RV( "repeated-claims", "state " << x << " acknowledged as complete more than 60 times over after datagram " << d.frame << "." << d.fragment ); } }
    }
    listed = a.complete;
    if ( report ) seen[ "acknowledgements judged" ]++;
  }
  /* what was shown: the exact pictures in order, with something else at most where something was incomplete */
  set<size_t> at { 0 };
  for ( size_t k = 0; k < shown.size(); k++ ) {
    set<size_t> to;
    for ( size_t p : at ) {
      for ( size_t q = p; q < show.size(); q++ ) {
        if ( not show[ q ].must or show[ q ].d == shown[ k ].data ) { to.insert( q + 1 ); }
        if ( show[ q ].must ) { break; }
      }
    }
    if ( to.empty() ) { RV( "shown", "picture " << k << " shown is not what the sender computed for the frame (at " << *at.begin() << ".." << *at.rbegin() << " of " << show.size() << " expected)" ); }
    at = to;
  }
  bool all = false;
  for ( size_t p : at ) { bool rest = true; for ( size_t q = p; q < show.size(); q++ ) { rest &= not show[ q ].must; } all |= rest; }
  if ( not all ) { RV( "not-shown", "only " << shown.size() << " pictures shown, " << show.size() << " expected" ); }
  if ( report ) {
    seen[ "frames decoded exactly" ] += n_exact; seen[ "frames decoded after loading another state" ] += n_loaded; seen[ "complete frames whose starting state was missing" ] += n_blind;
    seen[ "incomplete frames passed over" ] += n_partial; seen[ "late datagrams" ] += n_stale; seen[ "pictures shown" ] += shown.size();
  }
  return false;
}

/* ---------- judging the sender; fills in truths ---------- */
static bool check_sender( const vector<Event> & ev, const bool fill )
{
  map<uint32_t, Decoder> states;
  states.emplace( initial_hash, Decoder( W, H ) );
  struct Known { bool any; Ack ack; };
  vector<pair<size_t, Known>> cams;          /* position of each picture taken, and what the sender knew then */
  Known k { false, {} };
  vector<uint64_t> cumulative; uint64_t best = 0;
  uint32_t frame = 0; uint16_t expect = 0, fragments = 0; size_t first_send = 0, prev_send = 0, last_send = 0;
  Data cur {}; string body;
  uint32_t prev_target = initial_hash;
  uint64_t based[ 5 ] = { 0 };
  for ( size_t i = 0; i < ev.size(); i++ ) {
    if ( ev[ i ].type == 'C' ) { cams.push_back( { i, k } ); }
    if ( ev[ i ].type == 'R' ) {
      const Ack a = parse_ack( ev[ i ].data );
      if ( not a.ok or a.session != SESSION or a.frame > cumulative.size() ) { continue; }
      const uint64_t seq = a.frame ? cumulative[ a.frame - 1 ] + a.fragment : a.fragment;
      if ( k.any and seq < best ) { seen[ "acknowledgements overtaken" ]++; continue; }
      best = seq; k = { true, a };
      seen[ states.count( a.current ) ? "acknowledgements of a state the sender made" : "acknowledgements of some other state" ]++;
    }
    if ( ev[ i ].type != 'S' ) { continue; }
    const Data d = parse_data( ev[ i ].data );
    if ( not d.ok or d.session != SESSION or d.body.size() > 1400 ) { VIOL( "datagram", "bad datagram from the sender (" << ev[ i ].data.size() << " bytes)" ); return false; }
    if ( d.frame != frame or d.fragment != expect or ( expect and ( d.fragments != fragments or d.source != cur.source or d.target != cur.target ) ) ) { VIOL( "sequence", "frame " << d.frame << " fragment " << d.fragment << "/" << d.fragments << " sent where " << frame << "." << expect << " was due" ); return false; }
    if ( expect == 0 ) { first_send = i; prev_send = last_send; cur = d; body.clear(); fragments = d.fragments; }
    body += d.body; expect++; last_send = i;
    if ( expect < fragments ) { continue; }
    /* a whole frame */
    cumulative.push_back( ( cumulative.empty() ? 0 : cumulative.back() ) + fragments );
    seen[ "fragments sent" ] += fragments; seen[ "frames sent" ]++;
    if ( not states.count( cur.source ) ) { VIOL( "unknown-source", "frame " << frame << " is based on state " << cur.source << ", which no frame led to" ); return false; }
    Decoder dec( states.at( cur.source ) );
    string what;
    try {
      const Bytes b( body.begin(), body.end() );
      auto out = dec.get_frame_output( chunk( b ) );
      if ( fill ) { truths[ frame ] = { cur.source, cur.target, base_digest( out.second.get() ), true }; }
    } catch ( const exception & e ) { what = e.what(); }
    if ( dec.minihash() != cur.target or not what.empty() ) { VIOL( "not-decodable", "frame " << frame << ", decoded from its starting state, leads to " << dec.minihash() << " and not " << cur.target << " " << nospace( what ) ); return false; }
    /* on what grounds was the starting state chosen? */
    vector<size_t> cands;
    size_t before_first = 0, before_prev = 0;
    for ( size_t c = 0; c < cams.size(); c++ ) { if ( cams[ c ].first < first_send ) before_first = c + 1; if ( cams[ c ].first < prev_send ) before_prev = c + 1; }
    for ( size_t c = before_first > 2 ? before_first - 2 : 0; c < before_first; c++ ) { cands.push_back( c ); }
    for ( size_t c = before_prev > 4 ? before_prev - 4 : 0; c < before_prev; c++ ) { cands.push_back( c ); }
    bool ok = cur.source == initial_hash; int why = ok ? 0 : 4;
    for ( size_t c : cands ) {
      const Known & kk = cams[ c ].second;
      if ( not kk.any or states.count( kk.ack.current ) ) { if ( cur.source == prev_target ) { ok = true; why = min( why, 1 ); } if ( kk.any and cur.source == kk.ack.current ) { ok = true; why = min( why, 2 ); } }
      if ( kk.any and has( kk.ack.complete, cur.source ) ) { ok = true; why = min( why, 3 ); }
    }
    if ( not ok ) {
      const Known & kk = cams[ cands.back() ].second;
      VIOL( "unjustified", "frame " << frame << " is based on state " << cur.source << ( cur.source == prev_target ? " (the one before it)" : "" ) << " though the receiver last said to be in " << ( kk.any ? to_string( kk.ack.current ) : "-" ) << " with " << kk.ack.complete.size() << " complete states" ); return false;
    }
    based[ why ]++;
    states.emplace( cur.target, dec );
    prev_target = cur.target;
    frame++; expect = 0;
  }
  if ( cams.size() > 30 and frame * 5 + 25 < cams.size() ) { VIOL( "stalled", "only " << frame << " frames sent for " << cams.size() << " pictures" ); }
  seen[ "pictures taken" ] += cams.size();
  static const char * w[] = { "frames based on the initial state", "frames based on the frame before", "frames based on the state last acknowledged", "frames based on a complete state" };
  for ( int j = 0; j < 4; j++ ) { seen[ w[ j ] ] += based[ j ]; }
  return true;
}

/* ---------- judging how much the sender sends ---------- */
static bool cap_mode = false;
static void check_rate( const vector<Event> & ev, const bool conventional )
{
  struct Known { bool any; uint32_t delay; uint64_t seq; };
  struct Out { uint32_t size, q; };
  Known k { false, 0, 0 };
  vector<Known> window; vector<Out> outs; vector<uint64_t> cum; uint32_t last_q = 64, skipped = 0, pictures = 0; bool open = false;
  struct Sent { int64_t at; uint32_t since; vector<int64_t> due; };
  vector<Sent> sent; uint64_t departed = 0; int64_t last_due = 0; int64_t after_d = 0, before_d = 0;
  const uint64_t none = ~uint64_t( 0 );
  auto capacity = [&]( const Known & x ) -> uint64_t {
    if ( not x.any or x.delay == 0xffffffff ) { return none; }
    const int64_t in_flight = int64_t( cum.back() ) - int64_t( x.seq ), can = 100000 / max( 1u, x.delay );
    return can > in_flight ? 1400 * uint64_t( can - in_flight ) : 0;
  };
  auto list = [&]() { string s; for ( auto & o : outs ) { s += " " + to_string( o.size ); } return s; };
  for ( size_t i = 0; i < ev.size(); i++ ) {
    const Event & e = ev[ i ];
    if ( after_d < 0 ) { after_d = e.at; }
    if ( e.type == 'C' ) {
      if ( open and not outs.empty() ) {
        bool ok = false; uint64_t c = 0;
        for ( auto & x : window ) { c = capacity( x ); bool fits = false; for ( auto & o : outs ) { fits |= o.size <= c; } ok |= not fits; }
        if ( conventional ) { VIOL( "cap-dropped", "picture " << pictures << " dropped in conventional mode" ); return; }
        if ( not ok ) { VIOL( "cap-dropped", "picture " << pictures << " dropped, encoded in" << list() << " bytes, though " << c << " could be sent" ); return; }
        if ( ++skipped > 3 ) { VIOL( "cap-dark", skipped << " pictures in a row dropped (up to " << pictures << ")" ); return; }
        seen[ "pictures dropped" ]++;
      }
      open = true; outs.clear(); window = { k }; pictures++;
    } else if ( e.type == 'E' ) {
      outs.push_back( { get( e.data, 0, 4 ), get( e.data, 4, 4 ) } ); window = { k };
      if ( outs.back().q > 127 ) { VIOL( "cap-quantizer", "quantizer " << outs.back().q ); return; }
    } else if ( e.type == 'R' ) {
      const Ack a = parse_ack( e.data );
      if ( a.ok and a.session == SESSION and a.frame < cum.size() ) {
        const uint64_t seq = a.frame ? cum[ a.frame - 1 ] + a.fragment : a.fragment;
        if ( not k.any or seq >= k.seq ) { k = { true, a.delay, seq }; window.push_back( k ); }
      }
    } else if ( e.type == 'D' ) {
      const uint32_t f = get( e.data, 0, 4 ), size = get( e.data, 4, 4 ), since = get( e.data, 8, 4 );
      if ( f != cum.size() ) { VIOL( "cap-number", "frame " << f << " after " << cum.size() << " frames" ); return; }
      const uint64_t c = cum.empty() ? none : capacity( k );
      uint32_t best = 0, q_best = 0, low = 0, q_low = 0; bool fits = false, known = false;
      for ( auto & o : outs ) { if ( o.size <= c and ( not fits or o.size > best ) ) { fits = true; best = o.size; q_best = o.q; } if ( o.q >= q_low ) { q_low = o.q; low = o.size; } known |= o.size == size; }
      if ( not outs.empty() and not known ) { VIOL( "cap-unknown", "frame " << f << " of " << size << " bytes is none of the encodings," << list() ); return; }
      if ( conventional ) { seen[ "frames sent whatever the capacity" ]++; }
      else if ( fits ) {
        if ( size > c ) { VIOL( "cap-exceeded", "frame " << f << " has " << size << " bytes, but only " << c << " can be sent, and an encoding of " << best << " was made" ); return; }
        if ( size != best ) { VIOL( "cap-unused", "frame " << f << " has " << size << " bytes, but " << c << " can be sent, and an encoding of " << best << " was made" ); return; }
        if ( c != none ) { seen[ best == low and outs.size() > 1 ? "frames for which the lower quality was chosen" : "frames for which the better quality was chosen" ]++; }
        for ( auto & o : outs ) { if ( o.size == best ) { q_best = o.q; } }
        last_q = q_best;
      } else {
        if ( size > c and skipped < 3 ) { VIOL( "cap-exceeded", "frame " << f << " has " << size << " bytes, but only " << c << " can be sent, and only " << skipped << " pictures were dropped before it" ); return; }
        if ( not outs.empty() and size != low ) { VIOL( "cap-forced", "frame " << f << ", sent although it does not fit, has " << size << " bytes, and not the " << low << " of the lower quality" ); return; }
        last_q = q_low; seen[ "frames sent after three were dropped" ]++;
      }
      if ( not conventional and outs.size() == 2 ) { seen[ "choices judged" ]++; }
      if ( c != none ) { seen[ "choices with a known capacity" ]++; }
      /* the pause since the frame before, as told to the receiver */
      if ( f and before_d ) {
        const int64_t least = ( i ? ev[ i - 1 ].at : e.at ) - after_d, most = e.at - sent.back().at;
        if ( int64_t( since ) < least - 1000 or int64_t( since ) > most + 1000 ) { VIOL( "cap-pause", "frame " << f << " is said to follow the one before after " << since << " us; it was between " << least << " and " << most ); return; }
        seen[ "pauses judged" ]++;
      }
      /* no fragment leaves before its turn: at once if none waits, else a while after the last one that does */
      sent.push_back( { e.at, since, {} } );
      const int64_t gap = min( 2000u, max( 500u, ( k.any ? k.delay : 0xffffffffu ) / 5 ) );
      bool waiting = not cum.empty() and departed < cum.back();
      for ( uint32_t b = 0; b < size; b += 1400 ) { last_due = waiting ? last_due + gap : e.at; sent.back().due.push_back( last_due ); waiting = true; }
      before_d = 1; after_d = -1;
      cum.push_back( ( cum.empty() ? 0 : cum.back() ) + ( size + 1399 ) / 1400 );
      skipped = 0; open = false;
    } else if ( e.type == 'S' ) {
      const Data d = parse_data( e.data );
      departed++;
      if ( d.ok and d.frame < sent.size() and d.fragment < sent[ d.frame ].due.size() ) {
        const int64_t due = sent[ d.frame ].due[ d.fragment ];
        if ( e.at < due - 1100 ) { VIOL( "cap-pace", "fragment " << d.fragment << " of frame " << d.frame << " left " << due - e.at << " us too early" ); return; }
        if ( d.since != ( d.fragment ? 0 : sent[ d.frame ].since ) ) { VIOL( "cap-pause", "fragment " << d.fragment << " of frame " << d.frame << " tells of a pause of " << d.since << " us, though the pause before the frame was " << sent[ d.frame ].since ); return; }
        seen[ "departures judged" ]++;
      }
    }
  }
  (void) last_q;
  seen[ "pictures" ] += pictures; seen[ "frames chosen" ] += cum.size();
}

/* ---------- judging what the receiver says of the delays ---------- */
static void check_delay( const vector<Event> & ev )
{
  bool any = false; long double value = 0; int64_t last = 0, t = 0;
  for ( size_t i = 0; i + 1 < ev.size(); i++ ) {
    if ( ev[ i ].type == 'T' ) { int64_t x; memcpy( &x, ev[ i ].data.data(), 8 ); t = x; continue; }
    if ( ev[ i ].type != 'R' or ev[ i + 1 ].type != 'S' or not t ) { continue; }
    const Data d = parse_data( ev[ i ].data ); const Ack a = parse_ack( ev[ i + 1 ].data );
    if ( not d.ok or not a.ok ) { continue; }
    if ( any ) { const int64_t gap = t - last - int64_t( int32_t( d.since ) ); value = value * 0.9L + 0.1L * max( int64_t( 0 ), gap ); }
    any = true; last = t;
    if ( fabsl( value - a.delay ) > 2 ) { VIOL( "cap-delay", "after datagram " << d.frame << "." << d.fragment << " the receiver reports " << a.delay << " us between datagrams; it was " << value ); return; }
    seen[ "reported delays judged" ]++;
    seen[ value < 1 ? "reported delays: none" : value < 1000 ? "reported delays: below 1 ms" : value < 20000 ? "reported delays: below 20 ms" : "reported delays: above" ]++;
  }
}

/* ---------- processes and sockets ---------- */
static string dir;
static pid_t spawn( const string & exe, const vector<string> & args, const string & name )
{
  const pid_t p = fork();
  if ( p == 0 ) {
    const int fd = open( ( dir + "/" + name + ".err" ).c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600 );
    dup2( fd, 2 ); dup2( fd, 1 );
    for ( int i = 3; i < 64; i++ ) { close( i ); }
    setenv( "VH_TRACE", ( dir + "/" + name + ".trace" ).c_str(), 1 ); setenv( "VH_SHOWN", ( dir + "/" + name + ".shown" ).c_str(), 1 );
    vector<char *> av; av.push_back( const_cast<char *>( exe.c_str() ) ); for ( auto & a : args ) { av.push_back( const_cast<char *>( a.c_str() ) ); } av.push_back( nullptr );
    execv( av[ 0 ], av.data() ); _exit( 99 );
  }
  return p;
}
static string tail( const string & name )
{
  const string p = dir + "/" + name + ".err";
  ifstream f( p ); string s( ( istreambuf_iterator<char>( f ) ), istreambuf_iterator<char>() );
  const size_t e = min( s.find( "ERROR: " ), s.find( "runtime error: " ) );
  if ( e != string::npos ) { s = s.substr( e > 100 ? e - 100 : 0, 1200 ); } else if ( s.size() > 300 ) { s = s.substr( s.size() - 300 ); }
  return nospace( s );
}
/* still running? then it is ended; otherwise that is reported */
static bool finish( const pid_t p, const string & name )
{
  int st = 0;
  if ( waitpid( p, &st, WNOHANG ) == p ) { VIOL( "died-" + name, "the " << name << " ended with status " << st << ": " << tail( name ) ); return false; }
  kill( p, SIGKILL ); waitpid( p, &st, 0 );
  return true;
}
static int udp( uint16_t & port )
{
  const int fd = socket( AF_INET, SOCK_DGRAM, 0 );
  sockaddr_in a; memset( &a, 0, sizeof a ); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl( INADDR_LOOPBACK );
  if ( fd < 0 or bind( fd, reinterpret_cast<sockaddr *>( &a ), sizeof a ) ) { cerr << "HARNESS bind\n"; exit( 93 ); }
  socklen_t n = sizeof a; getsockname( fd, reinterpret_cast<sockaddr *>( &a ), &n ); port = ntohs( a.sin_port );
  const int big = 4 << 20; setsockopt( fd, SOL_SOCKET, SO_RCVBUF, &big, sizeof big );
  return fd;
}
static sockaddr_in local( uint16_t port ) { sockaddr_in a; memset( &a, 0, sizeof a ); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl( INADDR_LOOPBACK ); a.sin_port = htons( port ); return a; }
static void out( int fd, const string & s, const sockaddr_in & to ) { sendto( fd, s.data(), s.size(), 0, reinterpret_cast<const sockaddr *>( &to ), sizeof to ); }
static bool in( int fd, string & s, sockaddr_in * from = nullptr )
{
  char b[ 65536 ]; sockaddr_in a; socklen_t n = sizeof a;
  const ssize_t r = recvfrom( fd, b, sizeof b, MSG_DONTWAIT, reinterpret_cast<sockaddr *>( &a ), &n );
  if ( r < 0 ) { return false; }
  s.assign( b, r ); if ( from ) { *from = a; }
  return true;
}
static uint16_t receiver_port()
{
  for ( const int64_t t = now_us(); now_us() < t + 60000000; usleep( 2000 ) ) {
    for ( auto & e : read_events( dir + "/receiver.trace" ) ) { if ( e.type == 'B' ) { return get( e.data, 0, 2 ); } }
  }
  cerr << "HARNESS the receiver does not start: " << tail( "receiver" ) << "\n"; exit( 94 );
}

static void judge_receiver( const pid_t p, const uint32_t good_from = UINT32_MAX )
{
  /* let it show what it has: until nothing is missing and nothing more happens */
  vector<Event> ev, shown; bool settled = false; unsigned still = 0;
  for ( const int64_t t = now_us(); now_us() < t + 40000000 and not settled; usleep( 50000 ) ) {
    if ( kill( p, 0 ) or waitpid( 0, nullptr, WNOHANG | WNOWAIT ) > 0 ) { break; }
    vector<Event> e = read_events( dir + "/receiver.trace" ), s = read_events( dir + "/receiver.shown" );
    still = e.size() == ev.size() and s.size() == shown.size() ? still + 1 : 0;
    ev = move( e ); shown = move( s );
    if ( still > 200 ) { break; }
    settled = still >= 4 and ( cap_mode or not check_receiver( ev, shown, false ) );
  }
  if ( not finish( p, "receiver" ) ) { return; }
  if ( cap_mode ) { check_delay( read_events( dir + "/receiver.trace" ) ); return; }
  if ( not settled ) { ev = read_events( dir + "/receiver.trace" ); shown = read_events( dir + "/receiver.shown" ); }
  exact_after_good = inexact_after_good = 0;
  check_receiver( ev, shown, true, good_from );
}

/* ---------- recv ---------- */
static void mode_recv( Rng & rng, const uint64_t seed, const unsigned frames, const string & exe )
{
  const pid_t p = spawn( exe, { "0", to_string( W ), to_string( H ) }, "receiver" );
  const uint16_t port = receiver_port();
  uint16_t own; const int fd = udp( own ); const sockaddr_in to = local( port );
  struct Node { uint32_t hash; Encoder e; };
  vector<Node> nodes; nodes.push_back( { initial_hash, Encoder( W, H, false, REALTIME_QUALITY ) } );
  size_t latest = 0; vector<uint32_t> listed; uint32_t acked_state = initial_hash; bool in_step = true;
  const unsigned loss = rng() % 4 * 8, dup = rng() % 3 * 6, mix = rng() % 3 * 10, foreign = rng() % 2 * 3, stray = rng() % 3 * 8;
  struct Late { unsigned when; string s; };
  vector<Late> late;
  unsigned step = 0;
  string order;
  for ( uint32_t f = 0; f < frames; f++ ) {
    size_t src = latest;
    const unsigned r = rng() % 100;
    if ( not in_step ) { src = 0; for ( size_t i = 0; i < nodes.size(); i++ ) { if ( listed.size() and nodes[ i ].hash == listed.back() ) { src = i; } } if ( rng() % 3 == 0 ) { src = latest; } }
    else if ( r < stray ) {
      if ( r % 4 == 0 ) { src = 0; }
      else if ( r % 4 == 1 and listed.size() ) { const uint32_t h = listed[ rng() % listed.size() ]; for ( size_t i = 0; i < nodes.size(); i++ ) { if ( nodes[ i ].hash == h ) { src = i; } } }
      else { src = rng() % nodes.size(); if ( nodes.size() > 6 and rng() % 3 ) { src = nodes.size() - 1 - rng() % 6; } }
    }
    Encoder e( nodes[ src ].e );
    const RasterHandle pic = camera_picture( seed, f, W, H );
    const Bytes b = e.encode_with_quantizer( pic, rng() % 3 ? 20 + rng() % 60 : 3 + rng() % 125 );
    Data d { SESSION, nodes[ src ].hash, e.minihash(), f, 0, 0, uint32_t( rng() % 30000 ), "", true };
    { Decoder dec( nodes[ src ].e.export_decoder() ); auto o = dec.get_frame_output( chunk( b ) ); truths[ f ] = { d.source, d.target, base_digest( o.second.get() ), dec.minihash() == d.target }; if ( not truths[ f ].good ) { seen[ "frames whose result is mislabelled" ]++; } }
    size_t k = nodes.size();
    for ( size_t i = 0; i < nodes.size(); i++ ) { if ( nodes[ i ].hash == d.target ) { k = i; } }
    if ( k == nodes.size() ) { nodes.push_back( { d.target, move( e ) } ); }
    latest = k;
    if ( nodes.size() > 60 ) { nodes.erase( nodes.begin() + 1 + rng() % 20 ); latest = 0; for ( size_t i = 0; i < nodes.size(); i++ ) { if ( nodes[ i ].hash == d.target ) { latest = i; } } }
    /* fragments, as large as they may be or smaller */
    const size_t mtu = rng() % 3 ? 1400 : 30 + rng() % 400;
    vector<string> frag;
    d.fragments = ( b.size() + mtu - 1 ) / mtu;
    for ( d.fragment = 0; d.fragment < d.fragments; d.fragment++ ) { d.body.assign( b.begin() + d.fragment * mtu, b.begin() + min( b.size(), ( d.fragment + 1 ) * mtu ) ); frag.push_back( make_data( d ) ); d.since = 0; }
    if ( rng() % 100 < mix ) { shuffle( frag.begin(), frag.end(), rng ); order += 'm'; }
    vector<string> now;
    bool lost = false;
    for ( auto & s : frag ) {
      if ( rng() % 100 < loss / ( 1 + frag.size() / 3 ) ) { lost = true; if ( rng() % 2 ) { late.push_back( { step + 1 + unsigned( rng() % 6 ), s } ); } continue; }
      now.push_back( s );
      if ( rng() % 100 < dup ) { late.push_back( { step + unsigned( rng() % 5 ), s } ); order += 'd'; }
    }
    order += lost ? ( now.empty() ? 'L' : 'l' ) : '.'; if ( src != latest and src == 0 ) { order += 'i'; }
    for ( auto & s : now ) {
      vector<string> batch { s };
      step++;
      for ( size_t i = 0; i < late.size(); ) { if ( late[ i ].when <= step ) { batch.push_back( late[ i ].s ); late.erase( late.begin() + i ); } else { i++; } }
      if ( rng() % 100 < foreign ) {
        string x = frag[ rng() % frag.size() ];
        switch ( rng() % 6 ) {
        case 0: x[ 0 ] ^= 1 + rng() % 255; break;
        case 1: x = x.substr( 0, rng() % 23 ); break;
        case 2: x[ 16 ] = x[ 14 ]; x[ 17 ] = x[ 15 ]; break;   /* fragment number as large as their number */
        case 3: x = string( rng() % 22, char( rng() ) ); break;
        case 4: x[ 1 ] ^= 1 + rng() % 255; break;
        case 5: { Data o = parse_data( x ); o.session ^= 1 + rng() % 65535; o.frame += rng() % 5; x = make_data( o ); break; }
        }
        batch.insert( batch.begin() + rng() % ( batch.size() + 1 ), x );
      }
      for ( auto & x : batch ) { out( fd, x, to ); }
      pollfd pf { fd, POLLIN, 0 };
      if ( poll( &pf, 1, 20 ) > 0 ) {
        string a;
        while ( in( fd, a ) ) { const Ack k2 = parse_ack( a ); if ( k2.ok ) { listed = k2.complete; acked_state = k2.current; } }
      }
    }
    if ( rng() % 4 ) { in_step = acked_state == nodes[ latest ].hash; }   /* (a sender that knows where the receiver is, mostly) */
    else { in_step = true; }
    int st; if ( waitpid( p, &st, WNOHANG | WNOWAIT ) > 0 ) { break; }
    siginfo_t si; si.si_pid = 0; if ( waitid( P_PID, p, &si, WEXITED | WNOHANG | WNOWAIT ) == 0 and si.si_pid == p ) { break; }
  }
  judge_receiver( p );
  cout << "K " << order.substr( 0, 200 ) << "\n";
}

/* ---------- send ---------- */
static void mode_send( Rng & rng, const uint64_t, const unsigned ms, const string & exe, const string & opmode )
{
  uint16_t port; const int fd = udp( port );
  const pid_t p = spawn( exe, { "-m", opmode, "-u", to_string( 1 + rng() % 20 ), "127.0.0.1", to_string( port ), "1337" }, "sender" );
  sockaddr_in to; bool have = false;
  /* a receiver's books */
  uint32_t next = 0, cur = initial_hash; vector<uint32_t> complete;
  map<uint32_t, map<uint16_t, Data>> got;
  struct Later { int64_t when; string s; };
  vector<Later> queue;
  const unsigned loss = rng() % 4 * 5, aloss = rng() % 4 * 12, adelay = rng() % 3 * 8000, dup = rng() % 2 * 15, lucky = rng() % 3 * 30;
  unsigned period = 1; uint32_t delay = 0;
  string hist;
  const int64_t end = now_us() + ms * 1000LL;
  int64_t first = 0;
  while ( now_us() < ( first ? first + ms * 1000LL : end + 60000000 ) ) {
    pollfd pf { fd, POLLIN, 0 };
    poll( &pf, 1, 1 );
    string s;
    while ( in( fd, s, &to ) ) {
      have = true; if ( not first ) { first = now_us(); }
      const Data d = parse_data( s );
      if ( not d.ok or rng() % 100 < loss ) { continue; }
      if ( d.frame < next ) { continue; }
      if ( d.frame > next ) {
        for ( auto it = got.begin(); it != got.end() and it->first < d.frame; it = got.erase( it ) ) {
          const Data & any = it->second.begin()->second;
          /* what follows the fragments received may not matter at all */
          if ( cur == any.source and it->second.size() + 1 == any.fragments and not it->second.count( any.fragments - 1 ) and rng() % 100 < lucky ) { cur = any.target; hist += '!'; }
          else { cur = rng() | 1; hist += 'x'; }
        }
        next = d.frame;
      }
      got[ d.frame ].emplace( d.fragment, d );
      if ( got[ next ].size() == d.fragments ) {
        const bool held = d.source == initial_hash or has( complete, d.source );
        if ( cur != d.source and held ) { cur = d.source; }
        if ( cur == d.source ) {
          if ( d.source != initial_hash ) { complete.erase( complete.begin(), find( complete.begin(), complete.end(), d.source ) ); }
          cur = d.target; complete.erase( remove( complete.begin(), complete.end(), cur ), complete.end() ); complete.push_back( cur ); hist += '.';
        } else { cur = rng() | 1; hist += '?'; }
        got.erase( next ); next++;
      }
      if ( period-- == 0 ) { period = rng() % 200; static const uint32_t ds[] = { 0, 0, 1, 300, 2000, 9000, 30000, 99999, 100001, 400000, 0xffffffff }; delay = rng() % 2 ? ds[ rng() % 11 ] : rng() % 20000; }
      const string a = make_ack( { SESSION, d.frame, d.fragment, delay, cur, complete, true } );
      if ( rng() % 100 < aloss ) { continue; }
      queue.push_back( { now_us() + ( adelay ? int64_t( rng() % adelay ) : 0 ), a } );
      if ( rng() % 100 < dup ) { queue.push_back( { now_us() + int64_t( rng() % 30000 ), a } ); }
      if ( rng() % 40 == 0 ) {
        string x = a;
        switch ( rng() % 5 ) {
        case 0: x = x.substr( 0, rng() % x.size() ); break;
        case 1: x = string( rng() % 22, char( rng() ) ); break;
        case 2: x[ 19 ] ^= 0x80; break;   /* more states than the datagram has */
        default: { Ack f { SESSION, rng() % 2 ? d.frame + 1000 + uint32_t( rng() % 5000 ) : uint32_t( 0xffffffff - rng() % 3 ), uint16_t( rng() % 4 ), 5, uint32_t( rng() ), { uint32_t( rng() ) }, true }; x = make_ack( f ); seen[ "acknowledgements of frames never sent" ]++; break; }
        }
        queue.push_back( { now_us(), x } );
        if ( not parse_ack( x ).ok ) { seen[ "malformed acknowledgements" ]++; }
      }
      if ( rng() % 40 == 0 ) { Ack f { uint16_t( SESSION + 1 + rng() % 65535 ), uint32_t( rng() % ( d.frame + 1 ) ), 0, 5, uint32_t( rng() ), { uint32_t( rng() ) }, true }; queue.push_back( { now_us(), make_ack( f ) } ); seen[ "acknowledgements of other sessions" ]++; }
    }
    for ( size_t i = 0; i < queue.size() and have; ) { if ( queue[ i ].when <= now_us() ) { out( fd, queue[ i ].s, to ); queue.erase( queue.begin() + i ); } else { i++; } }
    siginfo_t si; si.si_pid = 0; if ( waitid( P_PID, p, &si, WEXITED | WNOHANG | WNOWAIT ) == 0 and si.si_pid == p ) { break; }
  }
  if ( finish( p, "sender" ) ) { check_sender( read_events( dir + "/sender.trace" ), false ); }
  cout << "K " << hist.substr( 0, 200 ) << "\n";
}

/* ---------- cap-send ---------- */
static void mode_cap( Rng & rng, const unsigned ms, const string & exe, const string & opmode )
{
  uint16_t port; const int fd = udp( port );
  const pid_t p = spawn( exe, { "-m", opmode, "-u", to_string( 1 + rng() % 20 ), "127.0.0.1", to_string( port ), "1337" }, "sender" );
  sockaddr_in to; uint32_t next = 0, cur = initial_hash; map<uint32_t, map<uint16_t, Data>> got;
  struct Later { int64_t when; string s; };
  deque<Later> queue; string hist;
  uint32_t delay = 0; int64_t phase = 0, hold = 0, lag = 0; unsigned wobble = 0;
  const int64_t end = now_us() + 60000000; int64_t first = 0;
  while ( now_us() < ( first ? first + ms * 1000LL : end ) ) {
    const int64_t t = now_us();
    if ( first and t > phase ) {
      phase = t + 50000 + rng() % 500000;
      static const uint32_t odd[] = { 0, 1, 99999, 100000, 100001, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff };
      delay = rng() % 8 == 0 ? odd[ rng() % 9 ] : 100000 / ( 1 + rng() % 16 ) + rng() % 3 - 1;
      wobble = rng() % 3 ? 0 : 1 + rng() % 8000;
      lag = rng() % 3 ? 0 : rng() % 60000; hold = rng() % 4 ? 0 : t + rng() % 400000;
      hist += delay > 100000 ? '0' : delay < 5000 ? '+' : char( 'a' + 100000 / delay ); if ( hold ) { hist += '_'; } if ( lag ) { hist += '~'; }
    }
    pollfd pf { fd, POLLIN, 0 };
    poll( &pf, 1, 1 );
    string s;
    while ( in( fd, s, &to ) ) {
      if ( not first ) { first = now_us(); }
      const Data d = parse_data( s );
      if ( not d.ok ) { continue; }
      if ( d.frame >= next ) {
        if ( d.frame > next ) { got.erase( got.begin(), got.lower_bound( d.frame ) ); next = d.frame; }
        got[ d.frame ].emplace( d.fragment, d );
        if ( got[ next ].size() == d.fragments ) { cur = d.target; got.erase( next ); next++; }
      }
      const int64_t when = max( now_us() + ( lag ? int64_t( rng() % lag ) : 0 ), hold );
      queue.push_back( { when, make_ack( { SESSION, d.frame, d.fragment, delay + ( wobble ? uint32_t( rng() % wobble ) : 0 ), cur, { cur }, true } ) } );
    }
    for ( size_t i = 0; i < queue.size() and first; ) { if ( queue[ i ].when <= now_us() ) { out( fd, queue[ i ].s, to ); queue.erase( queue.begin() + i ); } else { i++; } }
    siginfo_t si; si.si_pid = 0; if ( waitid( P_PID, p, &si, WEXITED | WNOHANG | WNOWAIT ) == 0 and si.si_pid == p ) { break; }
  }
  if ( finish( p, "sender" ) ) { check_rate( read_events( dir + "/sender.trace" ), opmode == "conventional" ); }
  cout << "K " << hist.substr( 0, 200 ) << "\n";
}

/* ---------- e2e ---------- */
static void mode_e2e( Rng & rng, const uint64_t, const unsigned ms, const string & send_exe, const string & recv_exe, const string & opmode )
{
  const pid_t r = spawn( recv_exe, { "0", to_string( W ), to_string( H ) }, "receiver" );
  const sockaddr_in to = local( receiver_port() );
  uint16_t port, own; const int fs = udp( port ), fr = udp( own );
  const pid_t s = spawn( send_exe, { "-m", opmode, "127.0.0.1", to_string( port ), "1337" }, "sender" );
  sockaddr_in back; bool have = false;
  struct Later { int64_t when; string s; bool fwd; };
  vector<Later> queue;
  unsigned loss = 0, aloss = 0, jitter = 0, base = 0, dup = 0; int64_t phase = 0, dark = 0, first = 0, free_at = 0; int64_t per_packet = 0;
  uint32_t highest = 0, good_from = UINT32_MAX; bool good = false; string hist;
  while ( not first or now_us() < first + ms * 1000LL ) {
    const int64_t t = now_us();
    if ( first and not good and t > first + ms * 550LL ) { good = true; good_from = highest + 1; loss = aloss = jitter = dup = 0; dark = 0; per_packet = 0; base = rng() % 4000; }
    else if ( not good and t > phase ) {
      phase = t + 20000 + rng() % 400000;
      loss = rng() % 3 ? rng() % 30 : 0; aloss = rng() % 3 ? rng() % 60 : 0; jitter = rng() % 3 ? rng() % 15000 : 0; base = rng() % 2 ? rng() % 20000 : 0; dup = rng() % 3 ? 0 : rng() % 20;
      if ( rng() % 6 == 0 ) { dark = t + rng() % 150000; }
      per_packet = rng() % 3 ? 0 : 500 + rng() % 6000;
      hist += char( 'A' + loss / 2 ); hist += char( 'a' + aloss / 4 ); if ( dark > t ) hist += '_'; if ( per_packet ) hist += '-'; if ( jitter ) hist += '~';
    }
    pollfd pf[ 2 ] = { { fs, POLLIN, 0 }, { fr, POLLIN, 0 } };
    poll( pf, 2, 1 );
    string x;
    while ( in( fs, x, &back ) ) {
      have = true; if ( not first ) { first = now_us(); }
      const Data d = parse_data( x ); if ( d.ok ) { highest = max( highest, d.frame ); }
      seen[ "datagrams through the network" ]++;
      if ( now_us() < dark or rng() % 100 < loss ) { seen[ "datagrams lost" ]++; continue; }
      int64_t when = now_us() + base;
      if ( per_packet ) { free_at = max( free_at, when ) + per_packet; if ( free_at > when + 150000 ) { free_at -= per_packet; seen[ "datagrams lost" ]++; continue; } when = free_at; }
      if ( jitter ) { when += rng() % jitter; }
      queue.push_back( { when, x, true } );
      if ( rng() % 100 < dup ) { queue.push_back( { when + int64_t( rng() % 20000 ), x, true } ); seen[ "datagrams duplicated" ]++; }
    }
    while ( in( fr, x ) ) {
      if ( now_us() < dark or rng() % 100 < aloss ) { seen[ "acknowledgements lost" ]++; continue; }
      queue.push_back( { now_us() + base + ( jitter ? int64_t( rng() % jitter ) : 0 ), x, false } );
    }
    const int64_t n = now_us();
    for ( size_t i = 0; i < queue.size(); ) {
      if ( queue[ i ].when <= n ) { if ( queue[ i ].fwd ) { out( fr, queue[ i ].s, to ); } else if ( have ) { out( fs, queue[ i ].s, back ); } queue.erase( queue.begin() + i ); } else { i++; }
    }
    siginfo_t si; si.si_pid = 0; if ( waitid( P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT ) == 0 and si.si_pid ) { break; }
    if ( not first and t > phase + 100000000 ) { break; }
  }
  /* the sender first, so that the receiver is not left hanging */
  const bool alive = finish( s, "sender" );
  usleep( 50000 );
  if ( alive ) {
    if ( cap_mode ) { check_rate( read_events( dir + "/sender.trace" ), opmode == "conventional" ); judge_receiver( r ); cout << "K " << hist.substr( 0, 200 ) << "\n"; return; }
    if ( not check_sender( read_events( dir + "/sender.trace" ), true ) ) { finish( r, "receiver" ); return; }
    /* a frame cut short by the end has no truth: it cannot have arrived complete */
    const uint32_t from = good_from == UINT32_MAX ? good_from : good_from + 60;
    judge_receiver( r, from );
    if ( good and highest > from + 20 ) {
      seen[ "runs in which recovery was judged" ]++;
      if ( exact_after_good == 0 or inexact_after_good > 0 ) {
        /* datagrams that the programs' own sockets dropped are losses too */
        set<pair<uint32_t, uint16_t>> sent, got;
        for ( auto & e : read_events( dir + "/sender.trace" ) ) { if ( e.type == 'S' ) { const Data d = parse_data( e.data ); if ( d.frame >= good_from and d.frame + 30 < highest ) { sent.insert( { d.frame, d.fragment } ); } } }
        for ( auto & e : read_events( dir + "/receiver.trace" ) ) { if ( e.type == 'R' ) { const Data d = parse_data( e.data ); got.insert( { d.frame, d.fragment } ); } }
        /* and a machine too slow to keep up delays everything */
        uint32_t newest = 0, lag = 0;
        for ( auto & e : read_events( dir + "/sender.trace" ) ) {
          if ( e.type == 'S' ) { newest = max( newest, parse_data( e.data ).frame ); }
          if ( e.type == 'R' ) { const Ack k = parse_ack( e.data ); if ( k.ok and k.frame >= good_from ) { lag = max( lag, newest - min( newest, k.frame ) ); } }
        }
        if ( lag > 12 ) { seen[ "runs too slow to judge recovery" ]++; cout << "K " << hist.substr( 0, 200 ) << "\n"; return; }
        bool dropped = false; for ( auto & x : sent ) { dropped |= not got.count( x ); }
        if ( dropped ) { seen[ "runs with losses in the good time" ]++; }
        else { VIOL( "no-recovery", "60 frames after the last loss the receiver was still not in step: " << exact_after_good << " frames decoded exactly, " << inexact_after_good << " not (frames " << good_from << ".." << highest << ")" ); }
      } else { seen[ "frames decoded exactly after recovery" ] += exact_after_good; }
    }
  } else { finish( r, "receiver" ); }
  cout << "K " << hist.substr( 0, 200 ) << "\n";
}

int main( int argc, char * argv[] )
{
  if ( argc < 12 ) { return 91; }
  signal( SIGPIPE, SIG_IGN );
  string mode = argv[ 1 ]; const uint64_t seed = stoull( argv[ 2 ] ); const unsigned ms = stoul( argv[ 3 ] );
  W = stoul( argv[ 4 ] ); H = stoul( argv[ 5 ] ); dir = argv[ 8 ];
  setenv( "VH_WIDTH", argv[ 4 ], 1 ); setenv( "VH_HEIGHT", argv[ 5 ], 1 ); setenv( "VH_SEED", argv[ 2 ], 1 ); setenv( "VH_CLOCK", argv[ 10 ], 1 ); setenv( "VH_PACE", argv[ 11 ], 1 );
  Rng rng( seed );
  initial_hash = Decoder( W, H ).minihash();
  if ( mode.compare( 0, 4, "cap-" ) == 0 ) { cap_mode = true; mode = mode.substr( 4 ); }
  if ( mode == "send" and cap_mode ) { mode_cap( rng, ms, argv[ 6 ], argv[ 9 ] ); }
  else if ( mode == "recv" ) { mode_recv( rng, seed, ms, argv[ 7 ] ); }
  else if ( mode == "send" ) { mode_send( rng, seed, ms, argv[ 6 ], argv[ 9 ] ); }
  else { mode_e2e( rng, seed, ms, argv[ 6 ], argv[ 7 ], argv[ 9 ] ); }
  for ( auto & x : seen ) { cout << "S " << x.second << " " << x.first << "\n"; }
  cout << "DONE" << endl;
  truths.clear();
  _exit( 0 );
}
