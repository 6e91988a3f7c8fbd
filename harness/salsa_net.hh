/* the calls that touch the network, recorded: S datagram sent, T time the next one was received at,
   R datagram received, B port bound */
#pragma once
#include <sys/socket.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <ctime>
#include <chrono>
#include "salsa.hh"

static Recorder trace_;
static int64_t clock_scale_ = 1, clock_start_ = 0;

extern "C" {
  int __real_bind( int, const sockaddr *, socklen_t );
  int __wrap_bind( int fd, const sockaddr * a, socklen_t n )
  {
    const int r = __real_bind( fd, a, n );
    sockaddr_in6 s; socklen_t m = sizeof s;
    if ( r == 0 and a->sa_family != AF_UNIX and getsockname( fd, reinterpret_cast<sockaddr *>( &s ), &m ) == 0 ) { const uint16_t p = ntohs( s.sin6_port ); trace_.put( 'B', &p, 2 ); }
    return r;
  }
  static bool inet_socket( int fd ) { sockaddr_storage s; socklen_t m = sizeof s; return getsockname( fd, reinterpret_cast<sockaddr *>( &s ), &m ) == 0 and ( s.ss_family == AF_INET or s.ss_family == AF_INET6 ); }
  ssize_t __real_send( int, const void *, size_t, int );
  ssize_t __wrap_send( int fd, const void * p, size_t n, int f ) { if ( inet_socket( fd ) ) { trace_.put( 'S', p, n ); } return __real_send( fd, p, n, f ); }
  ssize_t __real_sendto( int, const void *, size_t, int, const sockaddr *, socklen_t );
  ssize_t __wrap_sendto( int fd, const void * p, size_t n, int f, const sockaddr * a, socklen_t l ) { if ( inet_socket( fd ) ) { trace_.put( 'S', p, n ); } return __real_sendto( fd, p, n, f, a, l ); }
  ssize_t __real_recvmsg( int, msghdr *, int );
  ssize_t __wrap_recvmsg( int fd, msghdr * h, int f )
  {
    const ssize_t n = __real_recvmsg( fd, h, f );
    if ( n >= 0 and not ( f & MSG_PEEK ) and inet_socket( fd ) ) {
      std::string d; for ( size_t i = 0, k = n; i < h->msg_iovlen and k; i++ ) { const size_t m = std::min( k, size_t( h->msg_iov[ i ].iov_len ) ); d.append( static_cast<char *>( h->msg_iov[ i ].iov_base ), m ); k -= m; }
      for ( cmsghdr * c = CMSG_FIRSTHDR( h ); c; c = CMSG_NXTHDR( h, c ) ) { if ( c->cmsg_level == SOL_SOCKET and c->cmsg_type == SO_TIMESTAMPNS ) { timespec t; memcpy( &t, CMSG_DATA( c ), sizeof t ); const int64_t us = ( t.tv_sec * 1000000000LL + t.tv_nsec ) / 1000; trace_.put( 'T', &us, 8 ); } }
      trace_.put( 'R', d.data(), d.size() );
    }
    return n;
  }
  /* the program's clock runs VH_CLOCK times as fast as time itself */
  std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv()
  {
    timespec t; clock_gettime( CLOCK_REALTIME, &t );
    const int64_t ns = t.tv_sec * 1000000000LL + t.tv_nsec;
    return std::chrono::system_clock::time_point( std::chrono::nanoseconds( clock_start_ + ( ns - clock_start_ ) * clock_scale_ ) );
  }
}

static void start_recording()
{
  trace_.open( "VH_TRACE" );
  timespec t; clock_gettime( CLOCK_REALTIME, &t ); clock_start_ = t.tv_sec * 1000000000LL + t.tv_nsec;
  if ( getenv( "VH_CLOCK" ) ) { clock_scale_ = atoi( getenv( "VH_CLOCK" ) ); }
}
