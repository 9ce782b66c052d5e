// UDP sender and receiver components. The socket calls and epoll_wait() of the components pass through this file: what they send and take
// from the sockets is logged, their network threads can be held and stepped, and failures can be injected. All state shared with the
// network threads is kept in relaxed atomics, so that nothing here orders the threads (needed for the race detector variant).
#include "drive.hpp"
#include <libpml/string_parameter.hpp>
#include <librcl/udp_receiver.hpp>
#include <librcl/udp_sender.hpp>
#include <arpa/inet.h>
#include <atomic>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <memory>
#include <netinet/in.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace visr; using LL = long long; using Vec = std::vector<LL>; using Mat2 = std::vector<Vec>;
static auto const rlx = std::memory_order_relaxed;
static LL hash( char const * p, std::size_t n ) { unsigned h = 17; for( std::size_t k = 0; k < n; ++k ) h = h * 31 + static_cast<unsigned char>( p[k] ) + 1; return h % 1000003; }
// ---------------------------------------------------------------- log of the sockets' traffic
struct Slot { std::atomic<int> kind{ 0 }; std::atomic<LL> len{ 0 }, hash{ 0 }; }; // kind 0: reserved, 1 sent, 2 received, 3 nothing
static std::size_t const cSlots = 1 << 16; static Slot slots[cSlots]; static std::atomic<std::size_t> slotEnd{ 0 }; static std::size_t slotRead = 0;
static std::atomic<int> nSent{ 0 }, nTaken{ 0 }, injectAgain{ 0 }, injectError{ 0 }; static std::atomic<bool> lastEmpty{ false };
static std::size_t reserve() { std::size_t k = slotEnd.fetch_add( 1, rlx ); if( k >= cSlots ) { fprintf( stderr, "log is full\n" ); _exit( 77 ); } return k; }
static void put( std::size_t k, int kind, LL len, LL h ) { slots[k].len.store( len, rlx ); slots[k].hash.store( h, rlx ); slots[k].kind.store( kind, std::memory_order_relaxed ); }
static void flush( Mat2 & s, Mat2 & g )
{
  std::size_t const end = slotEnd.load( rlx );
  for( ; slotRead < end; ++slotRead )
  {
    int k; for( int n = 0; ( k = slots[slotRead].kind.load( rlx ) ) == 0 and n < 2000000; ++n ) usleep( 5 );
    std::atomic_signal_fence( std::memory_order_seq_cst ); usleep( 0 );
    Vec v{ slots[slotRead].len.load( rlx ), slots[slotRead].hash.load( rlx ) };
    if( k == 1 ) s.push_back( v ); else if( k == 2 ) g.push_back( v );
  }
}
// ---------------------------------------------------------------- network threads
enum { cRun, cWait, cGate };
struct Owner { std::atomic<int> ep{ -1 }, state{ cRun }, tokens{ 0 }; std::atomic<bool> gated{ false }, blocking{ false }; std::atomic<unsigned> calls{ 0 }; std::atomic<int> tid{ 0 }; bool threaded = false; };
static Owner owners[2]; static std::atomic<int> building{ -1 }; static pid_t const mainThread = static_cast<pid_t>( syscall( SYS_gettid ) );
static bool isMain() { return static_cast<pid_t>( syscall( SYS_gettid ) ) == mainThread; }
template<class F> static F next( char const * name ) { return reinterpret_cast<F>( dlsym( RTLD_NEXT, name ) ); }
static bool datagram( int fd ) { int t = 0; socklen_t l = sizeof t; return getsockopt( fd, SOL_SOCKET, SO_TYPE, &t, &l ) == 0 and t == SOCK_DGRAM; }
extern "C" int epoll_create1( int flags ) { static auto f = next<int (*)( int )>( "epoll_create1" ); int r = f( flags ); int b = building.load( rlx ); if( b >= 0 ) owners[b].ep.store( r, rlx ); return r; }
extern "C" int epoll_create( int size ) { static auto f = next<int (*)( int )>( "epoll_create" ); int r = f( size ); int b = building.load( rlx ); if( b >= 0 ) owners[b].ep.store( r, rlx ); return r; }
extern "C" int epoll_wait( int ep, epoll_event * ev, int max, int timeout )
{
  static auto f = next<int (*)( int, epoll_event *, int, int )>( "epoll_wait" );
  Owner * o = nullptr; if( not isMain() ) for( Owner & c : owners ) if( c.ep.load( rlx ) == ep ) o = &c;
  if( not o ) return f( ep, ev, max, timeout );
  o->tid.store( static_cast<int>( syscall( SYS_gettid ) ), rlx ); o->blocking.store( timeout != 0, rlx ); o->calls.fetch_add( 1, rlx ); o->state.store( cWait, rlx );
  int r = f( ep, ev, max, timeout ); int e = errno;
  if( o->gated.load( rlx ) )
  {
    o->state.store( cGate, rlx );
    for(;;)
    {
      int t = o->tokens.load( rlx ); if( t > 0 and o->tokens.compare_exchange_strong( t, t - 1, rlx ) ) break;
      if( not o->gated.load( rlx ) ) break;
      usleep( 20 );
    }
  }
  o->state.store( cRun, rlx ); errno = e; return r;
}
static std::atomic<int> armEp{ -1 }; static std::atomic<unsigned> armEvents{ 0 }; static std::atomic<void *> armData{ nullptr };
extern "C" int epoll_ctl( int ep, int op, int fd, epoll_event * ev )
{
  static auto f = next<int (*)( int, int, int, epoll_event * )>( "epoll_ctl" );
  if( ep == owners[0].ep.load( rlx ) and ep >= 0 and ev and op != EPOLL_CTL_DEL and datagram( fd ) ) { armData.store( ev->data.ptr, rlx ); armEvents.store( ev->events, rlx ); armEp.store( ep, rlx ); }
  return f( ep, op, fd, ev );
}
// after an injected failure the socket has to become ready again
static void rearm( int fd ) { epoll_event ev{}; ev.events = armEvents.load( rlx ); ev.data.ptr = armData.load( rlx ); if( armEp.load( rlx ) == owners[0].ep.load( rlx ) and ( ev.events & EPOLLOUT ) ) syscall( SYS_epoll_ctl, armEp.load( rlx ), EPOLL_CTL_MOD, fd, &ev ); }
static ssize_t doSend( int fd, std::function<ssize_t()> call, char const * p, std::size_t n, bool flat )
{
  if( not datagram( fd ) ) return call();
  int a = injectAgain.load( rlx ); if( a > 0 and injectAgain.compare_exchange_strong( a, a - 1, rlx ) ) { rearm( fd ); errno = EAGAIN; return -1; }
  std::size_t k = reserve(); ssize_t r = call(); int e = errno;
  if( r >= 0 ) { put( k, 1, r, flat ? hash( p, std::min<std::size_t>( n, r ) ) : -1 ); nSent.fetch_add( 1, rlx ); } else put( k, 3, 0, 0 );
  errno = e; return r;
}
static ssize_t doRecv( int fd, std::function<ssize_t()> call, char const * p )
{
  if( not datagram( fd ) ) return call();
  int a = injectError.exchange( 0, rlx ); if( a > 0 ) { errno = a; return -1; }
  ssize_t r = call(); int e = errno;
  if( r >= 0 ) { nTaken.fetch_add( 1, rlx ); put( reserve(), 2, r, hash( p, r ) ); lastEmpty.store( false, rlx ); } else lastEmpty.store( e == EAGAIN or e == EWOULDBLOCK, rlx );
  errno = e; return r;
}
extern "C" ssize_t sendto( int fd, void const * b, size_t n, int fl, sockaddr const * ad, socklen_t al ) { static auto f = next<ssize_t (*)( int, void const *, size_t, int, sockaddr const *, socklen_t )>( "sendto" ); return doSend( fd, [&] { return f( fd, b, n, fl, ad, al ); }, static_cast<char const *>( b ), n, true ); }
extern "C" ssize_t send( int fd, void const * b, size_t n, int fl ) { static auto f = next<ssize_t (*)( int, void const *, size_t, int )>( "send" ); return doSend( fd, [&] { return f( fd, b, n, fl ); }, static_cast<char const *>( b ), n, true ); }
extern "C" ssize_t sendmsg( int fd, msghdr const * m, int fl )
{
  static auto f = next<ssize_t (*)( int, msghdr const *, int )>( "sendmsg" ); std::string t; for( std::size_t k = 0; k < m->msg_iovlen; ++k ) t.append( static_cast<char const *>( m->msg_iov[k].iov_base ), m->msg_iov[k].iov_len );
  return doSend( fd, [&] { return f( fd, m, fl ); }, t.data(), t.size(), true );
}
extern "C" ssize_t recvfrom( int fd, void * b, size_t n, int fl, sockaddr * ad, socklen_t * al ) { static auto f = next<ssize_t (*)( int, void *, size_t, int, sockaddr *, socklen_t * )>( "recvfrom" ); return doRecv( fd, [&] { return f( fd, b, n, fl, ad, al ); }, static_cast<char const *>( b ) ); }
extern "C" ssize_t recv( int fd, void * b, size_t n, int fl ) { static auto f = next<ssize_t (*)( int, void *, size_t, int )>( "recv" ); return doRecv( fd, [&] { return f( fd, b, n, fl ); }, static_cast<char const *>( b ) ); }
extern "C" ssize_t recvmsg( int fd, msghdr * m, int fl ) { static auto f = next<ssize_t (*)( int, msghdr *, int )>( "recvmsg" ); return doRecv( fd, [&] { return f( fd, m, fl ); }, m->msg_iovlen ? static_cast<char const *>( m->msg_iov[0].iov_base ) : "" ); }
// ---------------------------------------------------------------- the other end of the connections
static int rawSocket( int & port )
{
  int fd = socket( AF_INET, SOCK_DGRAM, 0 ); int one = 1;
  sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl( INADDR_LOOPBACK ); a.sin_port = 0;
  if( bind( fd, reinterpret_cast<sockaddr *>( &a ), sizeof a ) ) { perror( "bind" ); exit( 77 ); }
  setsockopt( fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one ); // only now: the port is not shared with another process, but with the receiver under test
  socklen_t l = sizeof a; getsockname( fd, reinterpret_cast<sockaddr *>( &a ), &l ); port = ntohs( a.sin_port ); int big = 400000; setsockopt( fd, SOL_SOCKET, SO_RCVBUF, &big, sizeof big ); return fd;
}
static std::string content( LL len, LL seed ) { std::string s( len, '\0' ); unsigned x = static_cast<unsigned>( seed * 2654435761u + 12345 ); for( LL k = 0; k < len; ++k ) { x = x * 1664525u + 1013904223u; unsigned b = x >> 24; s[k] = static_cast<char>( b % 5 == 0 ? 0 : b ); } return s; }
static std::unique_ptr<SignalFlowContext> ctx; static std::unique_ptr<rcl::UdpSender> sender; static std::unique_ptr<rcl::UdpReceiver> receiver; static std::unique_ptr<h::Drive> sf, rf;
static int peer = -1, peerPort = 0, rawOut[2] = { -1, -1 }, rPort = 0, sPort = 0, toReceiver = 0, peerGot = 0; static bool chain = false; static int const cMaxWait = 20000;
static void openAll() { for( Owner & o : owners ) o.gated.store( false, rlx ); }
static void reset()
{
  openAll(); sf.reset(); sender.reset(); rf.reset(); receiver.reset(); ctx.reset();
  for( Owner & o : owners ) { o.ep.store( -1, rlx ); o.state.store( cRun, rlx ); o.tokens.store( 0, rlx ); o.calls.store( 0, rlx ); o.threaded = false; }
  for( int * p : { &peer, &rawOut[0], &rawOut[1] } ) { if( *p >= 0 ) close( *p ); *p = -1; }
  slotRead = 0; std::size_t e = slotEnd.exchange( 0, rlx ); for( std::size_t k = 0; k < e; ++k ) slots[k].kind.store( 0, rlx );
  nSent = 0; nTaken = 0; injectAgain = 0; injectError = 0; toReceiver = 0; peerGot = 0; chain = false;
}
static bool until( std::function<bool()> f, int ms ) { for( int k = 0; k < ms * 10; ++k ) { if( f() ) return true; usleep( 100 ); } return f(); }
// whether a thread sleeps in the kernel
static bool asleep( int tid ) { char n[64]; snprintf( n, sizeof n, "/proc/self/task/%d/stat", tid ); FILE * f = fopen( n, "r" ); if( not f ) return false; char b[512]; std::size_t k = fread( b, 1, sizeof b - 1, f ); fclose( f ); b[k] = 0; char * q = strrchr( b, ')' ); return q and q[1] == ' ' and q[2] == 'S'; }
// the network thread waits for something to happen, and nothing has
static bool quiet( Owner & o )
{
  if( not o.threaded ) return true;
  unsigned c = o.calls.load( rlx ); if( o.state.load( rlx ) != cWait or not o.blocking.load( rlx ) ) return false;
  pollfd p{ o.ep.load( rlx ), POLLIN, 0 }; if( poll( &p, 1, 0 ) != 0 ) return false;
  return asleep( o.tid.load( rlx ) ) and c == o.calls.load( rlx ) and o.state.load( rlx ) == cWait;
}
static void ev( h::Ev & e ) { Mat2 s, g; flush( s, g ); e.k( "s", s ).k( "g", g ).done(); }
static Vec id( std::string const & t ) { return Vec{ LL( t.size() ), hash( t.data(), t.size() ) }; }
static void exec( h::Args const & a )
{
  std::string const & op = a.op(); h::Mat none;
  if( not ctx ) ctx.reset( new SignalFlowContext( 8, 48000 ) );
  auto make = [&]( int o, bool threaded, std::function<void()> f ) { bool const g = owners[o].gated.exchange( false, rlx ); building.store( o, rlx ); auto r = h::guarded( f ); building.store( -1, rlx ); owners[o].threaded = threaded and r.empty(); until( [&] { return quiet( owners[o] ); }, cMaxWait ); owners[o].gated.store( g, rlx ); return r; };
  if( op == "mks" ) // mode, to receiver
  {
    if( sender ) return;
    chain = a.i( 2 ) != 0 and receiver; if( peer < 0 ) peer = rawSocket( peerPort );
    std::string r; // another process may take the port between finding it free and the construction of the sender
    for( int k = 0; k < 100; ++k )
    {
      int tmp = rawSocket( sPort ); close( tmp );
      r = make( 0, a.i( 1 ) != 0, [&] { sender.reset( new rcl::UdpSender( *ctx, "s", nullptr, sPort, "127.0.0.1", chain ? rPort : peerPort, a.i( 1 ) ? rcl::UdpSender::Mode::Asynchronous : rcl::UdpSender::Mode::Synchronous ) ); } );
      if( r.empty() ) break; usleep( 1000 * unsigned( 1 + k % 7 ) );
    }
    if( not r.empty() ) { fprintf( stderr, "cannot create the sender\n" ); exit( 77 ); }
    sf.reset( new h::Drive( *sender, 8 ) ); h::Ev( "mks" ).k( "m", a.i( 1 ) ).k( "chain", chain ).done();
  }
  else if( op == "mkr" )
  {
    if( receiver ) return;
    int tmp = rawSocket( rPort );
    auto r = make( 1, a.i( 1 ) != 0, [&] { receiver.reset( new rcl::UdpReceiver( *ctx, "r", nullptr, rPort, a.i( 1 ) ? rcl::UdpReceiver::Mode::Asynchronous : rcl::UdpReceiver::Mode::Synchronous ) ); } ); close( tmp );
    if( not r.empty() ) { fprintf( stderr, "cannot create the receiver\n" ); exit( 77 ); }
    rf.reset( new h::Drive( *receiver, 8 ) ); h::Ev( "mkr" ).k( "m", a.i( 1 ) ).done();
  }
  else if( op == "gate" ) { for( Owner & o : owners ) o.gated.store( a.i( 1 ) != 0, rlx ); }
  else if( op == "again" ) injectAgain.store( int( a.i( 1 ) ), rlx );
  else if( op == "rerr" ) injectError.store( int( a.i( 1 ) ), rlx );
  else if( op == "push" )
  {
    if( not sf ) return;
    std::string t = content( a.i( 1 ), a.i( 2 ) ); std::unique_ptr<ParameterBase> p( new pml::StringParameter( t ) ); sf->enqueue( "messageInput", std::move( p ) );
    h::Ev e( "push" ); e.k( "m", id( t ) ); ev( e );
  }
  else if( op == "sp" ) { if( not sf ) return; h::Mat o; auto r = sf->block( none, o ); h::Ev e( "sp" ); e.k( "r", r ); ev( e ); }
  else if( op == "rp" )
  {
    if( not rf ) return;
    int const before = nTaken.load( rlx ); lastEmpty.store( true, rlx ); h::Mat o; auto r = rf->block( none, o ); bool dry = nTaken.load( rlx ) == before or lastEmpty.load( rlx );
    Mat2 res; auto & q = rf->mqOut( "messageOutput" ); while( not q.empty() ) { res.push_back( id( [&] { auto const & p = dynamic_cast<pml::StringParameter const &>( q.front() ); return std::string( p.str(), p.size() ); }() ) ); q.pop(); }
    h::Ev e( "rp" ); e.k( "r", r ).k( "o", res ).k( "dry", dry ); ev( e );
  }
  else if( op == "ts" ) // peer, length, seed: a datagram to the receiver
  {
    if( not receiver ) return;
    int & fd = rawOut[a.i( 1 ) & 1]; int p; if( fd < 0 ) fd = rawSocket( p );
    std::string t = content( a.i( 2 ), a.i( 3 ) ); sockaddr_in ad{}; ad.sin_family = AF_INET; ad.sin_addr.s_addr = htonl( INADDR_LOOPBACK ); ad.sin_port = htons( rPort );
    std::size_t k = reserve(); LL r = syscall( SYS_sendto, fd, t.data(), t.size(), 0, &ad, sizeof ad ); put( k, 3, 0, 0 );
    if( r != LL( t.size() ) ) { perror( "sendto" ); exit( 77 ); }
    ++toReceiver; h::Ev e( "ts" ); e.k( "m", id( t ) ); ev( e );
  }
  else if( op == "step" ) // owner: let its network thread handle what it has been woken up for
  {
    Owner & o = owners[a.i( 1 ) & 1]; if( not o.threaded or not o.gated.load( rlx ) ) return;
    if( until( [&] { return o.state.load( rlx ) == cGate; }, 20 ) ) { unsigned c = o.calls.load( rlx ); o.tokens.store( 1, rlx ); until( [&] { return o.calls.load( rlx ) != c; }, cMaxWait ); }
    h::Ev e( "step" ); ev( e );
  }
  else if( op == "idle" ) // let both network threads finish
  {
    bool g[2]; for( int k = 0; k < 2; ++k ) { g[k] = owners[k].gated.load( rlx ); owners[k].gated.store( false, rlx ); }
    bool ok = until( [&] { return quiet( owners[0] ) and ( not owners[1].threaded or nTaken.load( rlx ) >= toReceiver + ( chain ? nSent.load( rlx ) : 0 ) ) and quiet( owners[1] ); }, cMaxWait );
    for( int k = 0; k < 2; ++k ) owners[k].gated.store( g[k], rlx );
    h::Ev e( "idle" ); e.k( "ok", ok ); ev( e );
  }
  else if( op == "peer" ) // what the sender's peer received
  {
    if( not sender or chain ) return;
    Mat2 s, g; int const want = nSent.load( rlx ); Mat2 res; bool src = true; std::vector<char> b( 70000 );
    for( int k = 0; k < cMaxWait and peerGot < want; ++k )
    {
      pollfd p{ peer, POLLIN, 0 }; if( poll( &p, 1, 1 ) <= 0 ) continue;
      sockaddr_in ad{}; socklen_t al = sizeof ad; LL n = syscall( SYS_recvfrom, peer, b.data(), b.size(), MSG_DONTWAIT, &ad, &al ); if( n < 0 ) continue;
      res.push_back( id( std::string( b.data(), n ) ) ); src = src and ntohs( ad.sin_port ) == sPort; ++peerGot;
    }
    for(;;) { LL n = syscall( SYS_recvfrom, peer, b.data(), b.size(), MSG_DONTWAIT, nullptr, nullptr ); if( n < 0 ) break; res.push_back( id( std::string( b.data(), n ) ) ); ++peerGot; }
    flush( s, g ); h::Ev( "peer" ).k( "ok", peerGot >= want ).k( "o", res ).k( "src", src ).k( "s", s ).k( "g", g ).done();
  }
  else if( op == "del" ) { openAll(); if( a.i( 1 ) == 0 ) { sf.reset(); sender.reset(); owners[0].threaded = false; owners[0].ep.store( -1, rlx ); } else { rf.reset(); receiver.reset(); owners[1].threaded = false; owners[1].ep.store( -1, rlx ); } h::Ev e( "del" ); e.k( "w", a.i( 1 ) ); ev( e ); }
  else { fprintf( stderr, "unknown op %s\n", op.c_str() ); exit( 77 ); }
}
int main( int argc, char ** argv ) { pml::initialiseParameterLibrary(); return h::run( argc, argv, reset, exec ); }
