/* packet frag SEED N | wire SEED N | sock SEED N: fragmentation, wire formats, sockets (P13) */
#include "vh.hh"
#include "packet.hh"
#include <map>
#include <set>
#include <algorithm>
#include <poll.h>

using namespace std;
typedef mt19937_64 Rng;

static map<string, uint64_t> seen;
static set<string> kinds;

static size_t frame_size( Rng & rng )
{
  static const size_t M = Packet::MAXIMUM_PAYLOAD;
  switch ( rng() % 10 ) {
  case 0: return 1;
  case 1: return 1 + rng() % 30;
  case 2: return M - 1 + rng() % 3;
  case 3: return 2 * M - 1 + rng() % 3;
  case 4: return ( 1 + rng() % 40 ) * M + rng() % 3 - 1;
  case 5: return rng() % 8 ? 1 + rng() % M : ( 255 + rng() % 3 ) * M + rng() % 3 - 1;
  case 6: return 1 + rng() % ( rng() % 8 ? 60000 : 400000 );
  default: return 1 + rng() % ( 12 * M );
  }
}

static uint32_t field( Rng & rng )
{
  switch ( rng() % 6 ) {
  case 0: return 0;
  case 1: return rng() % 4;
  case 2: return 0xffffffffu - rng() % 3;
  case 3: return 0x10000u - 2 + rng() % 5;
  case 4: return 0x80000000u - 1 + rng() % 3;
  default: return rng();
  }
}

static Bytes content( Rng & rng, size_t n )
{
  Bytes b( n );
  const int style = rng() % 4;
  uint8_t k = rng(); const uint8_t step = rng() | 1;
  for ( auto & x : b ) { if ( style == 0 ) { x = 0; } else if ( style == 1 ) { x = k; k += step; } else { x = rng(); } }
  return b;
}

static string str( const Bytes & b, size_t n ) { return string( reinterpret_cast<const char *>( b.data() ), n ); }

template <class F> static bool throws( F && f )
{
  try { f(); return false; } catch ( const exception & ) { return true; }
}

struct Sent
{
  uint16_t conn; uint32_t src, tgt, no, since;
  Bytes bytes;
  vector<string> wire;
  vector<size_t> payload;
};

/* what arrived of a frame, on the receiving side */
struct Model { set<unsigned> got; };

static void check_state( const string & tag, const Sent & s, const FragmentedFrame & f, const Model & m )
{
  const bool complete = m.got.size() == s.wire.size();
  if ( f.complete() != complete ) {
    VIOL( "complete", tag << ": " << m.got.size() << " of " << s.wire.size() << " fragments arrived, complete() says " << f.complete() );
  }
  size_t n = 0, prefix = 0;
  for ( unsigned x : m.got ) { if ( x != n ) { break; } prefix += s.payload[ n++ ]; }
  if ( s.wire.size() < 4000 or complete or prefix < 100000 or m.got.size() % 1000 == 0 ) {
    const string p = f.partial_frame();
    if ( p != str( s.bytes, prefix ) ) {
      VIOL( "partial", tag << ": the first " << n << " of " << s.wire.size() << " fragments arrived (" << prefix << " bytes), partial_frame() has " << p.size() << " bytes" << ( p.size() == prefix ? ", different ones" : "" ) );
    }
  }
  if ( f.connection_id() != s.conn or f.source_state() != s.src or f.target_state() != s.tgt or f.frame_no() != s.no or f.fragments_in_this_frame() != s.wire.size() ) {
    VIOL( "metadata", tag << ": connection, states, number or fragment count differ" );
  }
  if ( complete ) {
    if ( f.frame() != str( s.bytes, s.bytes.size() ) ) { VIOL( "frame", tag << ": the frame put together differs from the one sent (" << s.bytes.size() << " bytes)" ); }
    const vector<Packet> & ps = f.packets();
    if ( ps.size() != s.wire.size() ) { VIOL( "packets", tag << ": " << ps.size() << " packets instead of " << s.wire.size() ); }
    else for ( size_t i = 0; i < ps.size(); i++ ) {
      if ( ps[ i ].to_string() != s.wire[ i ] ) { VIOL( "packets", tag << ": packet " << i << " of the complete frame is not the one received" ); break; }
    }
  } else {
    if ( not throws( [&] { f.frame(); } ) ) { VIOL( "frame-early", tag << ": frame() answers with " << m.got.size() << " of " << s.wire.size() << " fragments" ); }
    if ( not throws( [&] { f.packets(); } ) ) { VIOL( "packets-early", tag << ": packets() answers with " << m.got.size() << " of " << s.wire.size() << " fragments" ); }
  }
}

/* every field of a datagram as the sender set it */
static void check_wire( const string & tag, const Sent & s, const FragmentedFrame & f )
{
  size_t at = 0;
  for ( size_t i = 0; i < s.wire.size(); i++ ) {
    const string & w = s.wire[ i ];
    if ( w.size() > 1472 ) { VIOL( "too-big", tag << ": fragment " << i << " takes " << w.size() << " bytes, a datagram in an Ethernet frame has room for 1472" ); }
    const Packet p( ( Chunk( w ) ) );
    if ( p.to_string() != w ) { VIOL( "reserialise", tag << ": fragment " << i << " read from the wire and written again differs" ); }
    const size_t n = p.payload().size();
    if ( n > Packet::MAXIMUM_PAYLOAD or n == 0 ) { VIOL( "payload-size", tag << ": fragment " << i << " carries " << n << " bytes" ); }
    if ( at + n > s.bytes.size() or p.payload() != string( reinterpret_cast<const char *>( s.bytes.data() ) + at, n ) ) {
      VIOL( "payload", tag << ": fragment " << i << " does not carry the bytes from " << at << " on" ); break;
    }
    at += n;
    if ( not p.valid() or p.connection_id() != s.conn or p.source_state() != s.src or p.target_state() != s.tgt or p.frame_no() != s.no
         or p.fragment_no() != i or p.fragments_in_this_frame() != s.wire.size() or p.time_since_last() != ( i == 0 ? s.since : 0 ) ) {
      VIOL( "fields", tag << ": fields of fragment " << i << " differ: conn " << p.connection_id() << "/" << s.conn << " source " << p.source_state() << "/" << s.src
            << " target " << p.target_state() << "/" << s.tgt << " frame " << p.frame_no() << "/" << s.no << " fragment " << p.fragment_no() << "/" << i
            << " of " << p.fragments_in_this_frame() << "/" << s.wire.size() << " time " << p.time_since_last() << "/" << ( i == 0 ? s.since : 0 ) );
      break;
    }
  }
  if ( at != s.bytes.size() ) { VIOL( "conservation", tag << ": the fragments carry " << at << " of " << s.bytes.size() << " bytes" ); }
  if ( f.fragments_in_this_frame() != s.wire.size() or not f.complete() or f.frame() != str( s.bytes, s.bytes.size() ) or f.connection_id() != s.conn
       or f.source_state() != s.src or f.target_state() != s.tgt or f.frame_no() != s.no ) { VIOL( "outgoing", tag << ": the outgoing frame's own fields differ" ); }
}

static Sent make( Rng & rng, const string & tag, uint16_t conn, uint32_t no, size_t size )
{
  Sent s;
  s.conn = conn; s.src = field( rng ); s.tgt = rng() % 8 ? field( rng ) : s.src; s.no = no; s.since = field( rng );
  s.bytes = content( rng, size );
  const FragmentedFrame f( s.conn, s.src, s.tgt, s.no, s.since, s.bytes );
  for ( const Packet & p : f.packets() ) { s.wire.push_back( p.to_string() ); s.payload.push_back( p.payload().size() ); }
  check_wire( tag, s, f );
  seen[ "datagrams written" ] += s.wire.size();
  return s;
}

static void frag_case( uint64_t seed, bool huge )
{
  Rng rng( seed );
  const string tag = "seed" + to_string( seed );
  const uint16_t conn = field( rng );
  const unsigned F = huge ? 1 : 1 + rng() % 5;
  vector<Sent> sent;
  uint32_t no = field( rng );
  for ( unsigned i = 0; i < F; i++ ) {
    sent.push_back( make( rng, tag, conn, no, huge ? ( 32766 + rng() % 5 ) * Packet::MAXIMUM_PAYLOAD + rng() % 3 - 1 : frame_size( rng ) ) );
    no += 1 + rng() % 2;
  }
  seen[ "frames fragmented" ] += F;
  /* the network: what arrives, in which order */
  vector<pair<unsigned, unsigned>> arrive;
  const int order = rng() % 6, loss = rng() % 4, dup = rng() % 4;
  for ( unsigned i = 0; i < F; i++ ) {
    for ( unsigned k = 0; k < sent[ i ].wire.size(); k++ ) {
      if ( loss == 1 and rng() % 10 == 0 ) continue;
      if ( loss == 2 and k == ( i % 2 ? 0 : sent[ i ].wire.size() - 1 ) ) continue;
      arrive.emplace_back( i, k );
      while ( dup and rng() % 8 < unsigned( dup ) ) { arrive.emplace_back( i, k ); }
    }
  }
  const size_t window = order == 0 ? 1 : order == 1 ? 3 : order == 2 ? 30 : 1000000;
  if ( order == 5 ) { reverse( arrive.begin(), arrive.end() ); }
  else for ( size_t i = 0; i < arrive.size(); i++ ) { swap( arrive[ i ], arrive[ i + rng() % min( window, arrive.size() - i ) ] ); }
  /* the far end */
  map<uint32_t, FragmentedFrame> frames;
  vector<Model> model( F );
  const bool every = arrive.size() < 100;
  for ( size_t n = 0; n < arrive.size(); n++ ) {
    const unsigned i = arrive[ n ].first, k = arrive[ n ].second;
    const Sent & s = sent[ i ];
    const Packet p( ( Chunk( s.wire[ k ] ) ) );
    auto it = frames.find( p.frame_no() );
    if ( it == frames.end() ) { frames.insert( make_pair( p.frame_no(), FragmentedFrame( conn, p ) ) ); }
    else { it->second.add_packet( p ); }
    if ( not model[ i ].got.insert( k ).second ) { seen[ "duplicates delivered" ]++; }
    seen[ "datagrams delivered" ]++;
    it = frames.find( s.no );
    if ( every or rng() % 64 == 0 or n + 1 == arrive.size() or model[ i ].got.size() == s.wire.size() ) {
      check_state( tag, s, it->second, model[ i ] ); seen[ "states of a reassembly checked" ]++;
    }
    if ( s.wire.size() < 3000 and rng() % 40 == 0 ) { /* packets that belong elsewhere are refused and leave no trace */
      Sent o = s;
      switch ( rng() % 5 ) {
      case 0: o.conn++; break;
      case 1: o.src ^= 1 << rng() % 32; break;
      case 2: o.tgt ^= 1 << rng() % 32; break;
      case 3: o.no ^= 1 << rng() % 32; break;
      case 4: { const size_t was = ( o.bytes.size() + Packet::MAXIMUM_PAYLOAD - 1 ) / Packet::MAXIMUM_PAYLOAD;
                o.bytes.resize( was > 1 and rng() % 2 ? o.bytes.size() - Packet::MAXIMUM_PAYLOAD : o.bytes.size() + Packet::MAXIMUM_PAYLOAD, 7 ); break; }
      }
      if ( s.wire.size() < 3000 ) {
        const FragmentedFrame other( o.conn, o.src, o.tgt, o.no, o.since, o.bytes );
        const Packet & alien = other.packets().at( rng() % other.packets().size() );
        if ( not throws( [&] { it->second.add_packet( Packet( Chunk( alien.to_string() ) ) ); } ) ) { VIOL( "alien", tag << ": a packet of another frame was taken" ); }
        check_state( tag, s, it->second, model[ i ] ); seen[ "foreign packets refused" ]++;
      }
    }
    if ( rng() % ( arrive.size() > 5000 ? 3000 : 60 ) == 0 ) { /* containers move frames around */
      FragmentedFrame moved( move( it->second ) );
      frames.erase( it );
      frames.insert( make_pair( s.no, move( moved ) ) );
      check_state( tag, s, frames.at( s.no ), model[ i ] );
    }
  }
  for ( unsigned i = 0; i < F; i++ ) {
    auto it = frames.find( sent[ i ].no );
    if ( it != frames.end() ) { check_state( tag, sent[ i ], it->second, model[ i ] ); seen[ model[ i ].got.size() == sent[ i ].wire.size() ? "frames complete" : "frames left incomplete" ]++; }
    const size_t w = sent[ i ].wire.size();
    kinds.insert( "frag-" + to_string( w < 4 ? w : w < 20 ? 4 : w < 200 ? 20 : w < 1000 ? 200 : 1000 ) + "-" + to_string( order ) + "-" + to_string( loss ) + "-" + to_string( dup )
                  + ( sent[ i ].bytes.size() % Packet::MAXIMUM_PAYLOAD ? "" : "=" ) );
  }
}

static void wire_case( uint64_t seed )
{
  Rng rng( seed );
  const string tag = "seed" + to_string( seed );
  { /* a packet on its own, every field extreme */
    const Bytes b = content( rng, frame_size( rng ) );
    const unsigned total = ( b.size() + Packet::MAXIMUM_PAYLOAD - 1 ) / Packet::MAXIMUM_PAYLOAD;
    const uint16_t conn = field( rng ), k = rng() % total;
    const uint32_t src = field( rng ), tgt = field( rng ), no = field( rng ), since = field( rng ), since2 = field( rng );
    size_t next = 0;
    Packet p( b, conn, src, tgt, no, k, since, next );
    const size_t at = size_t( k ) * Packet::MAXIMUM_PAYLOAD, len = min<size_t>( b.size() - at, Packet::MAXIMUM_PAYLOAD );
    if ( next != at + len ) { VIOL( "next", tag << ": next fragment from " << next << " instead of " << at + len ); }
    const uint16_t count = max<uint32_t>( total, min<uint32_t>( 65535, rng() % 3 ? total : field( rng ) ) );
    p.set_fragments_in_this_frame( count );
    uint32_t want = since;
    if ( rng() % 2 ) { p.set_time_to_next( since2 ); want = since2; }
    const string w = p.to_string();
    const Packet q( ( Chunk( w ) ) );
    for ( const Packet * x : { static_cast<const Packet *>( &p ), &q } ) {
      if ( not x->valid() or x->connection_id() != conn or x->source_state() != src or x->target_state() != tgt or x->frame_no() != no or x->fragment_no() != k
           or x->fragments_in_this_frame() != count or x->time_since_last() != want or x->payload() != string( reinterpret_cast<const char *>( b.data() ) + at, len ) ) {
        VIOL( "packet-fields", tag << ": " << ( x == &p ? "built" : "received" ) << " packet: conn " << x->connection_id() << "/" << conn << " source " << x->source_state() << "/" << src
              << " target " << x->target_state() << "/" << tgt << " frame " << x->frame_no() << "/" << no << " fragment " << x->fragment_no() << "/" << k << " of " << x->fragments_in_this_frame() << "/" << count
              << " time " << x->time_since_last() << "/" << want << " payload " << x->payload().size() << "/" << len );
      }
    }
    if ( q.to_string() != w ) { VIOL( "packet-bytes", tag << ": written again, the packet differs" ); }
    seen[ "packets through the wire format" ]++;
    /* anything shorter than a header with one byte of payload is refused, as is anything impossible */
    const size_t head = w.size() - len;
    const size_t cut = rng() % ( head + 1 );
    if ( not throws( [&] { Packet( Chunk( w.substr( 0, cut ) ) ); } ) ) { VIOL( "short-packet", tag << ": " << cut << " bytes of a packet (header " << head << ") were taken" ); }
    string z = w.substr( 0, head ) + string( 1 + rng() % 20, 'x' );
    for ( int i = 0; i < 6; i++ ) { z[ rng() % head ] = field( rng ); }
    try {
      const Packet y( ( Chunk( z ) ) );
      if ( y.fragment_no() >= y.fragments_in_this_frame() ) { VIOL( "impossible", tag << ": fragment " << y.fragment_no() << " of " << y.fragments_in_this_frame() << " was taken" ); }
      if ( y.to_string() != z ) { VIOL( "packet-bytes", tag << ": written again, a packet from arbitrary bytes differs" ); }
      seen[ "arbitrary datagrams taken" ]++;
    } catch ( const exception & ) { seen[ "arbitrary datagrams refused" ]++; }
    if ( Packet().valid() ) { VIOL( "invalid", "an empty packet says it is valid" ); }
    kinds.insert( "packet-" + to_string( min( total, 9u ) ) + ( want > 65535 ? "L" : "s" ) + ( count == total ? "" : "+" ) );
  }
  { /* acknowledgements */
    const unsigned n = rng() % 4 ? rng() % 12 : rng() % 400;
    deque<uint32_t> st;
    for ( unsigned i = 0; i < n; i++ ) { st.push_back( field( rng ) ); }
    const uint16_t conn = field( rng ), frag = field( rng );
    const uint32_t no = field( rng ), delay = field( rng ), cur = field( rng );
    AckPacket a( conn, no, frag, delay, cur, st );
    const string w = a.to_string();
    AckPacket b( ( Chunk( w ) ) );
    for ( const AckPacket * x : { static_cast<const AckPacket *>( &a ), static_cast<const AckPacket *>( &b ) } ) {
      if ( x->connection_id() != conn or x->frame_no() != no or x->fragment_no() != frag or x->avg_delay() != delay or x->current_state() != cur or x->complete_states() != st ) {
        VIOL( "ack-fields", tag << ": " << ( x == &a ? "built" : "received" ) << " acknowledgement: conn " << x->connection_id() << "/" << conn << " frame " << x->frame_no() << "/" << no
              << " fragment " << x->fragment_no() << "/" << frag << " delay " << x->avg_delay() << "/" << delay << " state " << x->current_state() << "/" << cur
              << " states " << x->complete_states().size() << "/" << n << ( x->complete_states().size() == n ? " (contents?)" : "" ) );
      }
    }
    if ( b.to_string() != w ) { VIOL( "ack-bytes", tag << ": written again, the acknowledgement differs" ); }
    const size_t cut = rng() % w.size();
    if ( not throws( [&] { AckPacket( Chunk( w.substr( 0, cut ) ) ); } ) ) { VIOL( "short-ack", tag << ": " << cut << " of " << w.size() << " bytes of an acknowledgement were taken" ); }
    seen[ "acknowledgements through the wire format" ]++;
    kinds.insert( "ack-" + to_string( n < 3 ? n : n < 12 ? 3 : 12 ) );
  }
  { /* header fields of each width */
    const uint64_t v = ( uint64_t( field( rng ) ) << 32 ) | field( rng );
    const string a = Packet::put_header_field( uint16_t( v ) ), b = Packet::put_header_field( uint32_t( v ) ), c = Packet::put_header_field( uint64_t( v ) );
    if ( Chunk( a ).le16() != uint16_t( v ) or a.size() != 2 ) { VIOL( "field16", tag << ": " << v ); }
    if ( Chunk( b ).le32() != uint32_t( v ) or b.size() != 4 ) { VIOL( "field32", tag << ": " << v ); }
    if ( c.size() != 8 or Chunk( c ).le64() != v ) { VIOL( "field64", tag << ": " << v << " takes " << c.size() << " bytes" ); }
  }
}

static bool readable( int fd, int ms )
{
  pollfd p { fd, POLLIN, 0 };
  return ::poll( &p, 1, ms ) == 1;
}

static void sock_case( uint64_t seed )
{
  Rng rng( seed );
  const string tag = "seed" + to_string( seed );
  UDPSocket a, b;
  b.bind( Address( "::1", uint16_t( 0 ) ) );
  const bool stamps = rng() % 2;
  if ( stamps ) { b.set_timestamps(); }
  a.connect( b.local_address() );
  const Sent s = make( rng, tag, field( rng ), field( rng ), 1 + rng() % ( 30 * Packet::MAXIMUM_PAYLOAD ) );
  FragmentedFrame out( s.conn, s.src, s.tgt, s.no, s.since, s.bytes );
  const unsigned reads = b.read_count(), writes = a.write_count();
  out.send( a );
  vector<string> got;
  while ( got.size() < s.wire.size() and readable( b.fd_num(), 2000 ) ) {
    const auto d = b.recv();
    if ( not ( d.source_address == a.local_address() ) ) { VIOL( "source", tag << ": a datagram from " << d.source_address.to_string() << " instead of " << a.local_address().to_string() ); }
    timespec ts; clock_gettime( CLOCK_REALTIME, &ts );
    const uint64_t now = ts.tv_sec * 1000000ULL + ts.tv_nsec / 1000;
    if ( stamps and ( d.timestamp_us > now or now - d.timestamp_us > 60000000 ) ) { VIOL( "timestamp", tag << ": datagram of time " << d.timestamp_us << " at " << now ); }
    if ( not stamps and d.timestamp_us != uint64_t( -1 ) ) { VIOL( "timestamp", tag << ": a time stamp nobody asked for" ); }
    got.push_back( d.payload );
  }
  if ( got.size() < s.wire.size() ) { seen[ "datagrams the kernel dropped" ] += s.wire.size() - got.size(); return; }
  if ( got != s.wire ) { VIOL( "sent", tag << ": the datagrams on the socket are not the frame's packets in order" ); }
  if ( readable( b.fd_num(), 0 ) ) { VIOL( "sent-more", tag << ": more datagrams than fragments" ); }
  if ( b.read_count() != reads + got.size() or a.write_count() != writes + got.size() ) { VIOL( "counts", tag << ": read and write counts" ); }
  seen[ "datagrams through sockets" ] += got.size();
  deque<uint32_t> st; for ( unsigned i = rng() % 20; i; i-- ) { st.push_back( field( rng ) ); }
  AckPacket ack( s.conn, s.no, field( rng ), field( rng ), field( rng ), st );
  ack.sendto( b, a.local_address() );
  if ( not readable( a.fd_num(), 2000 ) ) { seen[ "datagrams the kernel dropped" ]++; return; }
  if ( a.recv().payload != ack.to_string() ) { VIOL( "ack-sent", tag << ": the acknowledgement on the socket differs" ); }
  seen[ "acknowledgements through sockets" ]++;
  kinds.insert( "sock-" + to_string( got.size() ) );
}

int main( int argc, char * argv[] )
{
  if ( argc < 4 ) return 91;
  const string cmd = argv[ 1 ];
  const uint64_t seed = stoull( argv[ 2 ] ); const unsigned n = stoul( argv[ 3 ] );
  for ( unsigned i = 0; i < n; i++ ) {
    try {
      if ( cmd == "frag" ) { frag_case( seed + i, false ); }
      else if ( cmd == "huge" ) { frag_case( seed + i, true ); }
      else if ( cmd == "wire" ) { wire_case( seed + i ); }
      else if ( cmd == "sock" ) { sock_case( seed + i ); }
      else return 91;
    } catch ( const exception & e ) { VIOL( "exception", "seed" << seed + i << ": " << typeid( e ).name() << " " << e.what() ); }
  }
  for ( auto & x : seen ) { cout << "S " << x.second << " " << x.first << "\n"; }
  for ( auto & x : kinds ) { cout << "K " << x << "\n"; }
  cout << "DONE" << endl;
  return 0;
}
