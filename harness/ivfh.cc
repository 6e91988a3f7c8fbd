// LINK: -Wl,--wrap=write
/* monitors of IVF writing and reading: round trips, and the file as it stands after every
   single instruction of the writer (trap flag), with short and failing writes */
#include <signal.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <errno.h>
#include <csignal>
#include "vh.hh"
#include "ivf.hh"
#include "ivf_writer.hh"

using namespace std;
extern "C" ssize_t __real_write( int, const void *, size_t );

/* short writes and a full disk, on the watched file only */
static int watched = -1;
static mt19937_64 * wr = nullptr;
static unsigned short_of_10 = 0;
static long fail_after = -1;            /* bytes that still fit */
static uint64_t shorts = 0;
extern "C" ssize_t __wrap_write( int fd, const void * b, size_t n )
{
  if ( wr and fd != 1 and fd != 2 and n > 0 ) {
    if ( fail_after >= 0 ) {
      if ( fail_after == 0 ) { errno = ENOSPC; return -1; }
      if ( long( n ) > fail_after ) n = fail_after;
      fail_after -= n;
    }
    if ( n > 1 and ( *wr )() % 10 < short_of_10 ) { n = 1 + ( *wr )() % ( n - 1 ); shorts++; }
  }
  return __real_write( fd, b, n );
}

/* what the file looks like after each instruction that changed it; raw calls only */
struct Shot { uint64_t size; uint8_t head[ 32 ]; unsigned done; };
static Shot shots[ 4096 ];
static volatile unsigned nshots = 0, done_now = 0;
static volatile uint64_t steps = 0;
static const uint8_t * volatile head_view = nullptr;
static void on_trap( int )
{
  const int e = errno;
  steps++;
  struct stat st;
  if ( fstat( watched, &st ) == 0 ) {
    Shot s; s.size = st.st_size; s.done = done_now;
    memset( s.head, 0, 32 );
    if ( head_view ) for ( unsigned i = 0; i < 32 and i < s.size; i++ ) s.head[ i ] = head_view[ i ];
    const Shot & l = shots[ nshots ? nshots - 1 : 0 ];
    if ( nshots == 0 or l.size != s.size or memcmp( l.head, s.head, 32 ) ) { if ( nshots < 4096 ) { shots[ nshots ] = s; nshots = nshots + 1; } }
  }
  errno = e;
}
static void trap_on() { asm volatile( "pushf; orq $0x100, (%%rsp); popf" ::: "memory", "cc" ); }
static void trap_off() { asm volatile( "pushf; andq $~0x100, (%%rsp); popf" ::: "memory", "cc" ); }

static Bytes content( mt19937_64 & g, size_t n )
{
  Bytes b( n );
  const unsigned style = g() % 3;
  for ( auto & x : b ) x = style == 0 ? g() : style == 1 ? 0 : "DKIF"[ g() % 4 ];
  return b;
}

static size_t frame_size( mt19937_64 & g )
{
  switch ( g() % 8 ) {
  case 0: return 0;
  case 1: return 1;
  case 2: return 1 + g() % 40;
  case 3: return 4083 + g() % 3;
  case 4: return 65530 + g() % 12;
  case 5: return g() % 200000;
  default: return g() % 3000;
  }
}

struct Head { string fourcc; uint16_t w, h; uint32_t rate, scale, tag; };
static Head make_head( mt19937_64 & g )
{
  auto u32 = [&] { return uint32_t( g() % 3 ? g() % 1001 : g() ); };
  Head h { g() % 2 ? "VP80" : string( { char( 'A' + g() % 26 ), char( '0' + g() % 10 ), ' ', char( g() % 256 ) } ), uint16_t( g() ), uint16_t( g() ), u32(), u32(), uint32_t( g() ) };
  if ( g() % 5 == 0 ) { h.tag = 0; }
  return h;
}

/* own reading of an IVF file, from its bytes */
static string parse( const Bytes & b, Head & h, vector<Bytes> & out, bool exact )
{
  if ( b.size() < 32 ) return "shorter than its header";
  if ( memcmp( &b[ 0 ], "DKIF", 4 ) or le( b, 4, 2 ) != 0 or le( b, 6, 2 ) != 32 ) return "no IVF header";
  h = { string( b.begin() + 8, b.begin() + 12 ), uint16_t( le( b, 12, 2 ) ), uint16_t( le( b, 14, 2 ) ), le( b, 16, 4 ), le( b, 20, 4 ), le( b, 28, 4 ) };
  uint64_t p = 32;
  const uint32_t n = le( b, 24, 4 );
  for ( uint32_t i = 0; i < n; i++ ) {
    if ( p + 12 > b.size() ) return "header counts " + to_string( n ) + " frames, the file ends in the header of frame " + to_string( i );
    const uint64_t len = le( b, p, 4 );
    if ( p + 12 + len > b.size() ) return "header counts " + to_string( n ) + " frames, the file ends inside frame " + to_string( i );
    out.emplace_back( b.begin() + p + 12, b.begin() + p + 12 + len );
    p += 12 + len;
  }
  if ( exact and p != b.size() ) return to_string( b.size() - p ) + " bytes behind the last frame";
  return "";
}

static string same_head( const Head & a, const Head & b )
{
  if ( a.fourcc != b.fourcc ) return "format";
  if ( a.w != b.w or a.h != b.h ) return "size";
  if ( a.rate != b.rate or a.scale != b.scale ) return "time base";
  if ( a.tag != b.tag ) return "expected-state tag";
  return "";
}

/* the class under test reads the file */
static string read_back( const string & fn, const Head & h, const vector<Bytes> & frames, size_t exact_n )
{
  IVF f( fn );
  const string s = same_head( h, { f.fourcc(), f.width(), f.height(), f.frame_rate(), f.time_scale(), f.expected_decoder_minihash() } );
  if ( s != "" ) return s + " read back differently";
  if ( f.frame_count() != exact_n ) return "read back " + to_string( f.frame_count() ) + " frames of " + to_string( exact_n );
  for ( size_t i = 0; i < exact_n; i++ ) {
    Chunk c = f.frame( i );
    if ( c.size() != frames.at( i ).size() or memcmp( c.buffer(), frames[ i ].data(), c.size() ) ) return "frame " + to_string( i ) + " read back differently";
  }
  bool threw = false;
  try { f.frame( exact_n ); } catch ( const exception & ) { threw = true; }
  return threw ? "" : "a frame behind the last one is handed out";
}

static void cmd_rt( const uint64_t seed, const unsigned count, const string & dir )
{
  uint64_t total = 0;
  for ( unsigned k = 0; k < count; k++ ) {
    mt19937_64 g( seed * 1000003 + k );
    const string fn = dir + "/rt.ivf";
    Head h = make_head( g );
    const bool many = k == 0 and seed % 16 == 0, huge = k == 0 and seed % 16 == 1;
    const size_t n = many ? 70000 : huge ? 3 : g() % 20;
    vector<Bytes> frames;
    mt19937_64 gw( g() ); wr = &gw; short_of_10 = many ? 0 : g() % 2 ? 0 : 6;
    {
      IVFWriter w = g() % 2 ? IVFWriter( fn, h.fourcc, h.w, h.h, h.rate, h.scale )
        : IVFWriter( FileDescriptor( open( fn.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644 ) ), h.fourcc, h.w, h.h, h.rate, h.scale );
      if ( w.width() != h.w or w.height() != h.h ) VIOL( "writer-size", "seed " << seed << " case " << k );
      const size_t tag_at = h.tag ? g() % ( n + 1 ) : n + 1;
      uint64_t off = 32;
      for ( size_t i = 0; i <= n; i++ ) {
        if ( i == tag_at ) w.set_expected_decoder_entry_hash( h.tag );
        if ( i == n ) break;
        frames.push_back( content( g, many ? g() % 9 : huge ? ( 16 << 20 ) + g() % ( 20 << 20 ) : frame_size( g ) ) );
        const size_t at = w.append_frame( chunk( frames.back() ) );
        if ( at != off + 12 ) VIOL( "offset", "seed " << seed << " case " << k << ": frame " << i << " reported at " << at << ", is at " << off + 12 );
        off += 12 + frames.back().size();
      }
    }
    wr = nullptr;
    Head g2; vector<Bytes> mine;
    string e = parse( slurp( fn ), g2, mine, true );
    if ( e == "" and mine != frames ) e = "the frames in the file are not those appended";
    if ( e == "" ) { e = same_head( h, g2 ); if ( e != "" ) e += " in the header is not what was written"; }
    if ( e == "" ) e = read_back( fn, h, frames, frames.size() );
    if ( e != "" ) VIOL( "roundtrip", "seed " << seed << " case " << k << " (" << n << " frames): " << e );
    total += n;
    cout << "R " << k << " " << n << " " << short_of_10 << "\n";
  }
  cout << "STAT frames " << total << "\nSTAT shorts " << shorts << "\n";
}

/* one writer's life, watched after every instruction */
static void cmd_step( const uint64_t seed, const unsigned count, const string & dir )
{
  struct sigaction sa {}; sa.sa_handler = on_trap; sigaction( SIGTRAP, &sa, nullptr );
  uint64_t looked = 0, failed = 0;
  for ( unsigned k = 0; k < count; k++ ) {
    mt19937_64 g( seed * 1000003 + k );
    const string fn = dir + "/step.ivf", cp = dir + "/crash.ivf";
    Head h = make_head( g ); const uint32_t tag = h.tag; h.tag = 0;
    const size_t n = 1 + g() % 5;
    vector<Bytes> frames;
    for ( size_t i = 0; i < n; i++ ) frames.push_back( content( g, g() % 3 ? g() % 60 : frame_size( g ) % 9000 ) );
    mt19937_64 gw( g() );
    short_of_10 = g() % 2 ? 0 : 7;
    const size_t tag_at = g() % 2 ? g() % n : n;
    const size_t fail_at = g() % 4 == 0 ? g() % n : n;
    const int fd = open( fn.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644 );
    watched = open( fn.c_str(), O_RDONLY );
    size_t completed = 0;
    {
      IVFWriter w( FileDescriptor( fd ), h.fourcc, h.w, h.h, h.rate, h.scale );
      const uint8_t * v = (const uint8_t *)mmap( nullptr, 4096, PROT_READ, MAP_SHARED, watched, 0 );
      head_view = v;
      for ( size_t i = 0; i < n; i++ ) {
        const Chunk c = chunk( frames[ i ] );
        nshots = 0; done_now = completed;
        wr = &gw;
        const bool failing = i == fail_at;
        if ( failing ) fail_after = g() % ( 12 + frames[ i ].size() );
        bool threw = false;
        trap_on();
        try {
          if ( i == tag_at ) { w.set_expected_decoder_entry_hash( tag ); }
          if ( i == tag_at ) done_now = completed | 0x10000;
          w.append_frame( c );
        } catch ( const exception & ) { threw = true; }
        trap_off();
        wr = nullptr; fail_after = -1;
        if ( threw != failing ) { VIOL( "append", "seed " << seed << " case " << k << ": append " << i << ( threw ? " fails" : " succeeds on a full disk" ) ); break; }
        failed += failing;
        const Bytes now = slurp( fn );
        for ( unsigned s = 0; s < nshots; s++ ) {
          looked++;
          /* the file as it was: later bytes cut off, header as seen */
          if ( shots[ s ].size > now.size() ) { VIOL( "shrink", "seed " << seed << " case " << k << ": the file became shorter" ); continue; }
          Bytes b( now.begin(), now.begin() + shots[ s ].size );
          copy( shots[ s ].head, shots[ s ].head + 32, b.begin() );
          Head g2; vector<Bytes> mine;
          string e = parse( b, g2, mine, false );
          const bool last = s + 1 == nshots and not threw;
          if ( e == "" and ( mine.size() < completed or mine.size() > completed + 1 ) ) e = to_string( mine.size() ) + " frames";
          if ( e == "" and not equal( mine.begin(), mine.end(), frames.begin() ) ) e = "frames that were not appended";
          if ( e == "" and last and mine.size() != completed + 1 ) e = "the append is over, the frame is not there";
          if ( e == "" ) {
            if ( g2.tag != tag and g2.tag != h.tag ) e = "another expected-state tag";
            Head g3 = g2; g3.tag = h.tag;
            if ( same_head( h, g3 ) != "" ) e = same_head( h, g3 ) + " differs";
          }
          if ( e == "" ) {
            ofstream( cp, ios::binary ).write( (const char *)b.data(), b.size() );
            try { e = read_back( cp, g2, frames, mine.size() ); } catch ( const exception & x ) { e = string( "the reader refuses it: " ) + x.what(); }
          }
          cout << "S " << n << " " << i << " " << s << " " << mine.size() - completed << " " << short_of_10 << " " << failing << "\n";
          if ( e != "" ) VIOL( "crash", "seed " << seed << " case " << k << ": writer dead while appending frame " << i << " of " << frames[ i ].size() << " bytes, file of " << b.size() << " bytes: " << e );
        }
        if ( i == tag_at ) { h.tag = tag; }
        if ( threw ) break;
        completed++;
      }
      head_view = nullptr;
      munmap( (void *)v, 4096 );
    }
    close( watched );
    /* the end of the story, also after a full disk */
    try { const string e = read_back( fn, h, frames, completed ); if ( e != "" ) VIOL( "after", "seed " << seed << " case " << k << ": " << e ); }
    catch ( const exception & x ) { VIOL( "after", "seed " << seed << " case " << k << ": " << x.what() ); }
  }
  cout << "STAT steps " << steps << "\nSTAT shots " << looked << "\nSTAT failed " << failed << "\nSTAT shorts " << shorts << "\n";
}

int main( int argc, char ** argv )
{
  if ( argc < 3 ) return 92;
  vector<string> a( argv + 1, argv + argc );
  try {
    if ( a[ 0 ] == "rt" ) cmd_rt( stoull( a.at( 1 ) ), stoul( a.at( 2 ) ), a.at( 3 ) );
    else if ( a[ 0 ] == "step" ) cmd_step( stoull( a.at( 1 ) ), stoul( a.at( 2 ) ), a.at( 3 ) );
    else if ( a[ 0 ] == "read" ) {
      IVF f( a[ 1 ] );
      cout << "H " << f.fourcc() << " " << f.width() << " " << f.height() << " " << f.frame_rate() << " " << f.time_scale() << " " << f.expected_decoder_minihash() << " " << f.frame_count() << "\n";
      for ( uint32_t i = 0; i < f.frame_count(); i++ ) {
        Chunk c = f.frame( i );
        Digest d; const size_t n = c.size() > 70000000 ? 4096 : c.size();
        for ( size_t j = 0; j < n; j++ ) d.put( c.buffer()[ j ] );
        cout << "F " << i << " " << c.size() << " " << d.str() << "\n";
      }
    }
    else return 92;
  } catch ( const exception & e ) {
    cout << "EXC " << typeid( e ).name() << " " << e.what() << endl;
    return 1;
  }
  cout << "DONE" << endl;
  return 0;
}
