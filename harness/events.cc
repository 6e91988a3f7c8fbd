// LINK: -Wl,--wrap=_ZNSt6chrono3_V212system_clock3nowEv -Wl,--wrap=_ZNSt6chrono3_V212steady_clock3nowEv
/* events pacer SEED N | poller SEED N: the pacer under a virtual clock, the event loop against a model (P14) */
#include "vh.hh"
#include "pacer.hh"
#include "poller.hh"
#include <map>
#include <set>
#include <deque>
#include <thread>
#include <fcntl.h>
#include <csignal>
#include <sys/socket.h>
#include <time.h>

using namespace std;
typedef mt19937_64 Rng;

static int64_t virtual_ns = 1000000000LL * 1600000000LL;
static bool virtual_on = false;
static int64_t real_ns( clockid_t c ) { timespec t; clock_gettime( c, &t ); return t.tv_sec * 1000000000LL + t.tv_nsec; }
extern "C" {
chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv()
{ return chrono::system_clock::time_point( chrono::nanoseconds( virtual_on ? virtual_ns : real_ns( CLOCK_REALTIME ) ) ); }
chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv()
{ return chrono::steady_clock::time_point( chrono::nanoseconds( virtual_on ? virtual_ns : real_ns( CLOCK_MONOTONIC ) ) ); }
}

static map<string, uint64_t> seen;
static set<string> kinds;
static const int64_t MS = 1000000;

struct Due { int64_t when; string what; };

static void check_pacer( const string & tag, const Pacer & p, const deque<Due> & m )
{
  seen[ "pacer states checked" ]++;
  if ( p.empty() != m.empty() or p.size() != m.size() ) { VIOL( "pacer-size", tag << ": " << m.size() << " packets are queued, size() says " << p.size() << ", empty() " << p.empty() ); }
  const int d = p.ms_until_due();
  if ( m.empty() ) {
    if ( d <= 0 ) { VIOL( "pacer-empty-due", tag << ": nothing is queued and ms_until_due() says " << d ); }
    return;
  }
  if ( p.front() != m.front().what ) { VIOL( "pacer-front", tag << ": front() is not the packet given first" ); }
  const int64_t left = m.front().when - virtual_ns;
  const int64_t lo = left <= 0 ? 0 : left / MS, hi = left <= 0 ? 0 : ( left + MS - 1 ) / MS;
  if ( d < lo or d > hi ) { VIOL( "pacer-due", tag << ": the first of " << m.size() << " packets is due in " << left << " ns, ms_until_due() says " << d ); }
}

static int delay( Rng & rng )
{
  switch ( rng() % 7 ) {
  case 0: return 0;
  case 1: return 1 + rng() % 5;
  case 2: return 1000;
  case 3: return 999 + rng() % 3;
  case 4: return rng() % 2000000;
  case 5: return rng() % 100 ? rng() % 20000 : 600000000;
  default: return rng() % 20000;
  }
}

static string packet( Rng & rng, uint64_t serial )
{
  string s( rng() % 4 ? rng() % 30 : rng() % 1500, '\0' );
  for ( auto & c : s ) { c = rng(); }
  return rng() % 50 ? s + to_string( serial ) : s;
}

static void pacer_case( uint64_t seed )
{
  Rng rng( seed );
  const string tag = "seed" + to_string( seed );
  virtual_on = true;
  virtual_ns = 1000000000LL * 1600000000LL + rng() % 1000000000;
  Pacer p;
  deque<Due> m;
  uint64_t serial = 0;
  int64_t last_left = 0, asked = 0;
  string last_pair;
  const unsigned style = rng() % 4;
  const unsigned steps = 20 + rng() % 200;
  for ( unsigned i = 0; i < steps; i++ ) {
    switch ( rng() % ( style == 0 ? 4 : 3 ) ) {
    case 0: {
      const unsigned burst = style == 1 ? 1 + rng() % 40 : 1 + rng() % 3;
      const int d0 = delay( rng );
      for ( unsigned k = 0; k < burst; k++ ) {
        const int d = style == 2 ? d0 : delay( rng );
        const string s = packet( rng, serial++ );
        const int64_t when = m.empty() ? virtual_ns : m.back().when + int64_t( d ) * 1000;
        p.push( s, d ); m.push_back( { when, s } );
        seen[ "packets pushed" ]++;
        check_pacer( tag, p, m );
      }
      break;
    }
    case 1: virtual_ns += rng() % 3 == 0 ? rng() % 1000 : rng() % 3 ? rng() % ( 3 * MS ) : rng() % ( 200 * MS ); check_pacer( tag, p, m ); break;
    case 2: { /* as the sender does it: wait as long as told, then send what is due */
      if ( rng() % 2 ) { virtual_ns += p.ms_until_due() * MS; }
      if ( rng() % 2 and not m.empty() and m.front().when > virtual_ns ) { virtual_ns = m.front().when - ( rng() % 2 ? rng() % 3 : 0 ); }
      while ( p.ms_until_due() == 0 ) {
        if ( m.empty() ) { VIOL( "pacer-phantom", tag << ": something is due though everything has left" ); return; }
        if ( p.front() != m.front().what ) { VIOL( "pacer-order", tag << ": a packet left out of turn" ); return; }
        if ( virtual_ns <= m.front().when - MS ) { VIOL( "pacer-early", tag << ": a packet left " << m.front().when - virtual_ns << " ns too early" ); }
        p.pop(); m.pop_front(); seen[ "packets that left when due" ]++;
        check_pacer( tag, p, m );
      }
      if ( not m.empty() and m.front().when <= virtual_ns ) { VIOL( "pacer-late", tag << ": a packet is " << virtual_ns - m.front().when << " ns overdue and not reported" ); }
      break;
    }
    case 3: if ( not m.empty() ) { p.pop(); m.pop_front(); check_pacer( tag, p, m ); } break;
    }
    kinds.insert( "pacer-" + to_string( style ) + "-" + to_string( min<size_t>( m.size(), 20 ) ) + ( m.empty() ? "" : m.front().when <= virtual_ns ? "due" : m.front().when - virtual_ns < MS ? "soon" : "later" ) );
  }
  /* everything leaves in the end */
  for ( unsigned guard = 0; not m.empty() and guard < 100000; guard++ ) {
    const int d = p.ms_until_due();
    if ( d == 0 ) {
      if ( virtual_ns <= m.front().when - MS ) { VIOL( "pacer-early", tag << ": a packet left " << m.front().when - virtual_ns << " ns too early" ); }
      if ( p.front() != m.front().what ) { VIOL( "pacer-order", tag << ": a packet left out of turn" ); return; }
      p.pop(); m.pop_front(); seen[ "packets that left when due" ]++;
    } else { virtual_ns += d * MS; }
  }
  if ( not m.empty() ) { VIOL( "pacer-stuck", tag << ": " << m.size() << " packets never became due" ); }
  check_pacer( tag, p, m );
  virtual_on = false;
  (void)last_left; (void)asked;
}

/* --------------------------------------------------------------------------------- */

struct Chan
{
  string kind;
  unique_ptr<FileDescriptor> fd;   /* ours */
  int peer = -1;                   /* the other end, or -1 */
  bool readable_kind, writable_kind;
};

enum class Do { Serve, Cancel, Exit, Idle, IdleCancel };

struct Act
{
  unsigned chan; bool in; bool flag; Do what; unsigned status;
  bool cancelled = false;
  unsigned long interest_calls = 0;
};

static void nonblock( int fd ) { fcntl( fd, F_SETFL, fcntl( fd, F_GETFL ) | O_NONBLOCK ); }

static Chan make_chan( Rng & rng )
{
  Chan c;
  int f[ 2 ];
  switch ( rng() % 6 ) {
  case 0: if ( pipe( f ) ) exit( 92 ); c.kind = "piper"; c.fd.reset( new FileDescriptor( f[ 0 ] ) ); c.peer = f[ 1 ]; c.readable_kind = true; c.writable_kind = false; break;
  case 1: if ( pipe( f ) ) exit( 92 ); c.kind = "pipew"; c.fd.reset( new FileDescriptor( f[ 1 ] ) ); c.peer = f[ 0 ]; c.readable_kind = false; c.writable_kind = true;
    fcntl( f[ 1 ], F_SETPIPE_SZ, 4096 ); break;
  case 2: { char t[] = "/tmp/verif-ev-XXXXXX"; const int x = mkstemp( t ); unlink( t ); const string s( rng() % 60, 'q' ); if ( write( x, s.data(), s.size() ) != ssize_t( s.size() ) ) exit( 92 );
    lseek( x, 0, SEEK_SET ); c.kind = "file"; c.fd.reset( new FileDescriptor( x ) ); c.readable_kind = true; c.writable_kind = false; break; }
  default: { const int type = rng() % 3 ? SOCK_STREAM : SOCK_DGRAM;
    if ( socketpair( AF_UNIX, type, 0, f ) ) exit( 92 ); c.kind = type == SOCK_STREAM ? "stream" : "dgram"; c.fd.reset( new FileDescriptor( f[ 0 ] ) ); c.peer = f[ 1 ];
    c.readable_kind = c.writable_kind = true; break; }
  }
  nonblock( c.fd->fd_num() );
  if ( c.peer >= 0 ) nonblock( c.peer );
  return c;
}

static string data( Rng & rng ) { return string( 1 + rng() % 200, char( 'a' + rng() % 26 ) ); }

static void peer_op( Rng & rng, Chan & c )
{
  if ( c.peer < 0 ) return;
  char buf[ 8192 ];
  switch ( rng() % 16 ) {
  case 0: case 1: case 2: case 3: case 4: if ( c.readable_kind ) { const string s = data( rng ); if ( write( c.peer, s.data(), s.size() ) ) {} } break;
  case 5: case 6: case 7: if ( c.writable_kind ) { if ( read( c.peer, buf, sizeof buf ) ) {} } break;
  case 8: if ( c.writable_kind ) { while ( read( c.peer, buf, sizeof buf ) > 0 ) {} } break;
  case 9: case 10: case 11: if ( c.writable_kind ) { memset( buf, 1, sizeof buf ); /* fill it up */
      while ( ::write( c.fd->fd_num(), buf, 4096 ) > 0 ) {} while ( ::write( c.fd->fd_num(), buf, 1 ) > 0 ) {} } break;
  case 12: if ( c.kind == "stream" and rng() % 2 ) { shutdown( c.peer, SHUT_WR ); } break;
  case 13: if ( rng() % 3 == 0 and c.kind != "dgram" ) { close( c.peer ); c.peer = -1; } break;
  default: break;
  }
}

static short state_of( int fd )
{
  pollfd p { fd, POLLIN | POLLOUT, 0 };
  ::poll( &p, 1, 0 );
  return p.revents;
}

static void poller_case( uint64_t seed )
{
  Rng rng( seed );
  const string tag = "seed" + to_string( seed );
  vector<Chan> chans;
  for ( unsigned n = 1 + rng() % 5; n; n-- ) { chans.push_back( make_chan( rng ) ); }
  vector<unique_ptr<Act>> acts;
  vector<unsigned> log;
  set<pair<unsigned, bool>> used;
  Poller poller;
  bool ended = false;
  auto add = [&]( unsigned ch, bool in ) {
    if ( in ? not chans[ ch ].readable_kind : not chans[ ch ].writable_kind ) { return; }
    if ( not used.insert( make_pair( ch, in ) ).second ) { return; }
    acts.emplace_back( new Act { ch, in, rng() % 4 != 0, Do::Serve, 0 } );
    Act * a = acts.back().get();
    const unsigned id = acts.size() - 1;
    FileDescriptor & fd = *chans[ ch ].fd;
    const auto callback = [ a, id, &fd, &log, &rng, &acts, &ended, &tag ]() -> Poller::Action::Result {
      if ( ended ) { VIOL( "after-exit", tag << ": action " << id << " was called although an earlier one had ended the loop" ); }
      log.push_back( id );
      if ( a->what != Do::Idle and a->what != Do::IdleCancel ) {
        if ( a->in ) { fd.read( 1 + rng() % 300 ); } else { const string s = data( rng ); fd.write( s, false ); }
      }
      if ( rng() % 6 == 0 ) { acts[ rng() % acts.size() ]->flag ^= 1; }   /* counts from the next round on */
      switch ( a->what ) {
      case Do::Cancel: case Do::IdleCancel: a->cancelled = true; return Poller::Action::Result::Type::Cancel;
      case Do::Exit: ended = true; return { Poller::Action::Result::Type::Exit, a->status };
      default: return Poller::Action::Result();
      }
    };
    const auto dir = in ? Poller::Action::In : Poller::Action::Out;
    if ( rng() % 8 == 0 ) { a->flag = true; a->interest_calls = 1ul << 40; poller.add_action( Poller::Action( fd, dir, callback ) ); }
    else { poller.add_action( Poller::Action( fd, dir, callback, [a] () { a->interest_calls++; return a->flag; } ) ); }
  };
  for ( unsigned n = 1 + rng() % 7; n; n-- ) { add( rng() % chans.size(), rng() % 2 ); }

  const unsigned rounds = 1 + rng() % 40;
  for ( unsigned r = 0; r < rounds; r++ ) {
    for ( unsigned k = rng() % 4; k; k-- ) { peer_op( rng, chans[ rng() % chans.size() ] ); }
    if ( rng() % 10 == 0 ) { add( rng() % chans.size(), rng() % 2 ); }
    for ( auto & a : acts ) {
      if ( rng() % 3 == 0 ) a->flag = rng() % 3 != 0;
      if ( a->interest_calls >= 1ul << 40 ) a->flag = true;
      const unsigned x = rng() % 60;
      a->what = x == 0 ? Do::Exit : x < 3 ? Do::Cancel : x == 3 ? Do::Idle : x == 4 ? Do::IdleCancel : Do::Serve;
      a->status = rng() % 3 ? rng() % 200 : 0;
    }
    /* what must happen */
    set<unsigned> ready; bool any = false, hup = false; string picture;
    for ( unsigned i = 0; i < acts.size(); i++ ) {
      const Act & a = *acts[ i ];
      const bool dropped = a.cancelled or ( a.in and chans[ a.chan ].fd->eof() );
      const bool wanted = not dropped and a.flag;
      const short st = state_of( chans[ a.chan ].fd->fd_num() );
      any |= wanted;
      if ( not dropped and st & ( POLLERR | POLLHUP | POLLNVAL ) ) hup = true;
      if ( wanted and st & ( a.in ? POLLIN : POLLOUT ) ) ready.insert( i );
      picture += string( a.in ? "i" : "o" ) + ( dropped ? "d" : wanted ? "w" : "-" ) + ( st & ( POLLHUP | POLLERR ) ? "h" : "" ) + ( st & ( a.in ? POLLIN : POLLOUT ) ? "r" : "" ) + " ";
    }
    string say = tag + " round " + to_string( r ) + " [" + picture + "]";
    log.clear();
    int timeout = rng() % 4 ? 0 : rng() % 6;
    /* sometimes the event arrives only while the loop is waiting */
    thread late; int late_act = -1;
    if ( any and not hup and ready.empty() and rng() % 2 ) {
      for ( unsigned i = 0; i < acts.size(); i++ ) {
        const Act & a = *acts[ i ]; Chan & c = chans[ a.chan ];
        if ( a.in and a.flag and not a.cancelled and not c.fd->eof() and c.peer >= 0 ) { late_act = i; }
      }
      if ( late_act >= 0 ) {
        const int peer = chans[ acts[ late_act ]->chan ].peer; const unsigned us = rng() % 2500;
        if ( ::send( peer, "", 0, MSG_DONTWAIT ) < 0 and errno == EPIPE ) { late_act = -1; }   /* it has been shut down */
        else {
          if ( chans[ acts[ late_act ]->chan ].kind == "dgram" ) { char b[ 4 ]; if ( ::recv( chans[ acts[ late_act ]->chan ].fd->fd_num(), b, 4, MSG_DONTWAIT ) ) {} }
          timeout = rng() % 2 ? -1 : 20000;
          late = thread( [peer, us] { timespec t { 0, us * 1000 }; nanosleep( &t, nullptr ); if ( write( peer, "late", 4 ) ) {} } );
          ready.insert( late_act ); seen[ "rounds with an event arriving while waiting" ]++;
        }
      }
    }
    seen[ "rounds of the event loop" ]++;
    const int64_t t0 = real_ns( CLOCK_MONOTONIC );
    string outcome;
    unsigned status = 0;
    try {
      const Poller::Result res = poller.poll( timeout );
      outcome = res.result == Poller::Result::Type::Success ? "success" : res.result == Poller::Result::Type::Timeout ? "timeout" : "exit";
      status = res.exit_status;
    } catch ( const exception & e ) { outcome = string( "exception" ); say += string( " " ) + e.what(); }
    const int64_t dt = real_ns( CLOCK_MONOTONIC ) - t0;
    if ( late.joinable() ) late.join();
    bool exited = false, idle = false, idlecancel = false; unsigned exit_status = 0;
    set<unsigned> called;
    for ( unsigned i : log ) {
      if ( not called.insert( i ).second ) { VIOL( "twice", say << ": action " << i << " was called twice in a round" ); }
      if ( not ready.count( i ) ) { VIOL( "uncalled-for", say << ": action " << i << " was called, which was not ready and interested" ); }
      if ( acts[ i ]->what == Do::Exit ) { exited = true; exit_status = acts[ i ]->status; }
      if ( acts[ i ]->what == Do::Idle ) { idle = true; }
      if ( acts[ i ]->what == Do::IdleCancel ) { idlecancel = true; }
    }
    seen[ "callbacks" ] += log.size();
    kinds.insert( "poll-" + outcome + ( hup ? "h" : "" ) + "-" + to_string( log.size() ) + "/" + to_string( acts.size() ) + ( late_act >= 0 ? "late" : "" ) );
    seen[ "rounds ending in " + outcome ]++;
    ended = false;
    if ( not any ) {
      if ( outcome != "exit" or status != EXIT_SUCCESS or not log.empty() ) { VIOL( "nobody", say << ": nobody is interested, the loop reports " << outcome << " " << status ); }
      continue;
    }
    if ( outcome == "exception" ) {
      if ( not idle and not idlecancel ) { VIOL( "exception", say << ": exception though every callback read or wrote" ); }
      continue;
    }
    if ( idle ) { VIOL( "busy", say << ": a callback that neither reads nor writes goes unnoticed" ); }
    if ( exited ) {
      if ( outcome != "exit" or status != exit_status ) { VIOL( "exit", say << ": a callback asked to exit with " << exit_status << ", the loop reports " << outcome << " " << status ); }
      break;
    }
    if ( hup ) {
      if ( outcome != "exit" or status == EXIT_SUCCESS ) { VIOL( "hang-up", say << ": a descriptor hung up, the loop reports " << outcome << " " << status ); }
      break;
    }
    if ( ready.empty() ) {
      if ( outcome != "timeout" ) { VIOL( "timeout", say << ": nothing was ready, the loop reports " << outcome << " " << status ); break; }
      if ( dt < timeout * MS - MS / 10 ) { VIOL( "timeout-early", say << ": time-out of " << timeout << " ms after " << dt << " ns" ); }
      continue;
    }
    if ( outcome != "success" ) { VIOL( "success", say << ": " << ready.size() << " ready, the loop reports " << outcome << " " << status ); break; }
    for ( unsigned i : ready ) { if ( not called.count( i ) ) { VIOL( "lost", say << ": action " << i << " was ready and interested but not called" ); } }
  }
  for ( auto & c : chans ) { if ( c.peer >= 0 ) close( c.peer ); }
}

int main( int argc, char * argv[] )
{
  if ( argc < 4 ) return 91;
  signal( SIGPIPE, SIG_IGN );
  const string cmd = argv[ 1 ];
  const uint64_t seed = stoull( argv[ 2 ] ); const unsigned n = stoul( argv[ 3 ] );
  for ( unsigned i = 0; i < n; i++ ) {
    try {
      if ( cmd == "pacer" ) { pacer_case( seed + i ); } else if ( cmd == "poller" ) { poller_case( seed + i ); } else return 91;
    } catch ( const exception & e ) { VIOL( "exception", "seed" << seed + i << ": " << typeid( e ).name() << " " << e.what() ); }
  }
  for ( auto & x : seen ) { cout << "S " << x.second << " " << x.first << "\n"; }
  for ( auto & x : kinds ) { cout << "K " << x << "\n"; }
  cout << "DONE" << endl;
  return 0;
}
