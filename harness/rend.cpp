// The complete renderer: objects and their signals in, loudspeaker signals out.
#include "scene.hpp"
#include <libefl/basic_matrix.hpp>
#include <libobjectmodel/object_vector_parser.hpp>
#include <libsignalflows/baseline_renderer.hpp>
#include <libsignalflows/core_renderer.hpp>
#include <arpa/inet.h>
#include <sys/file.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
// network access of the stand-alone renderer; its tracking port is fixed, so only one process may have one at a time
struct Net
{
  int lock = -1, s = socket( AF_INET, SOCK_DGRAM, 0 ); int port = 0;
  static sockaddr_in at( int port ) { sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons( (unsigned short)port ); a.sin_addr.s_addr = htonl( INADDR_LOOPBACK ); return a; }
  static int available( int port ) { int f = socket( AF_INET, SOCK_DGRAM, 0 ); sockaddr_in a = at( port ); a.sin_addr.s_addr = INADDR_ANY; socklen_t n = sizeof a; int r = bind( f, (sockaddr *)&a, n ) ? 0 : ( getsockname( f, (sockaddr *)&a, &n ), ntohs( a.sin_port ) ); close( f ); return r; }
  Net() { lock = open( "/tmp/verif-rend.lock", O_CREAT | O_RDWR, 0666 ); if( lock >= 0 ) flock( lock, LOCK_EX ); }
  ~Net() { if( s >= 0 ) close( s ); if( lock >= 0 ) close( lock ); }
  static bool taken( int port ) // nothing waiting on this port
  {
    char key[8]; snprintf( key, sizeof key, ":%04X", port ); std::ifstream f( "/proc/net/udp" ); std::string w; std::getline( f, w );
    while( std::getline( f, w ) ) { std::stringstream ss( w ); std::string n, l, r, st, q; ss >> n >> l >> r >> st >> q; if( l.size() > 5 and l.substr( l.size() - 5 ) == key ) { auto c = q.find( ':' ); if( c != std::string::npos and std::stoul( q.substr( c + 1 ), nullptr, 16 ) != 0 ) return false; } }
    return true;
  }
  void send( int p, std::string const & m, bool wait )
  {
    sockaddr_in a = at( p ); sendto( s, m.data(), m.size(), 0, (sockaddr *)&a, sizeof a );
    for( int i = 0; wait and i < 1000 and not taken( p ); ++i ) std::this_thread::sleep_for( std::chrono::milliseconds( 2 ) );
    if( wait ) std::this_thread::sleep_for( std::chrono::milliseconds( 15 ) );
  }
};
static std::size_t const per = 16;
static SignalFlowContext const ctx( per, 5504 );
struct Cur { std::unique_ptr<Net> net; std::unique_ptr<Component> c; std::unique_ptr<h::Drive> d; bool track = false, iir = false, eqs = false; std::size_t nin = 0, nout = 0; };
static std::unique_ptr<Cur> cur;
static void exec( h::Args const & a )
{
  Quiet quiet; std::string const & op = a.op();
  if( op == "arr" )
  {
    auto & p = as[a.i( 1 )]; p = std::make_unique<LoudspeakerArray>(); p->loadXmlString( a.hex( 2 ) ); std::size_t n = p->getNumRegularSpeakers(), m = p->getNumSubwoofers(); L och, g, y; LL sw; std::string eq = "[";
    for( std::size_t i = 0; i < n; ++i ) och.push_back( p->channelIndex( i ) );
    for( std::size_t i = 0; i < m; ++i ) { och.push_back( p->getSubwooferChannel( i ) ); L w; for( std::size_t k = 0; k < n; ++k ) w.push_back( h::q( p->getSubwooferGain( i, k ), 1000 ) ); sw.push_back( w ); }
    for( std::size_t i = 0; i < n + m; ++i ) { g.push_back( h::q( p->getGainAdjustment()[i], 1000 ) ); y.push_back( h::q( p->getDelayAdjustment()[i], 5504, 0.01 ) ); }
    if( p->outputEqualisationPresent() ) { auto const & b = p->outputEqualisationBiquads(); for( std::size_t i = 0; i < b.numberOfFilters(); ++i ) { LL w; for( std::size_t s = 0; s < b.numberOfSections(); ++s ) { auto const & q = b( i, s ); w.push_back( { h::q( q.b0(), 1000 ), h::q( q.b1(), 1000 ), h::q( q.b2(), 1000 ), h::q( q.a1(), 1000 ), h::q( q.a2(), 1000 ) } ); } eq += ( i ? "," : "" ) + h::J::conv( w ).s; } }
    h::Ev( "arr" ).k( "k", a.i( 1 ) ).k( "s", h::J{ "{" + show( *p ).s + ",\"och\":" + h::J::conv( och ).s + ",\"g\":" + h::J::conv( g ).s + ",\"y\":" + h::J::conv( y ).s + ",\"sw\":" + h::J::conv( sw ).s + ",\"eq\":" + eq + "]}" } ).done();
  }
  else if( op == "mk" ) // inputs outputs array interpolation tracking sections bands filters network
  {
    if( !as.count( a.i( 3 ) ) ) return; bool net = a.i( 9 ) != 0; cur.reset(); auto c = std::make_unique<Cur>(); c->nin = std::size_t( a.i( 1 ) ); c->nout = std::size_t( a.i( 2 ) ); c->track = a.i( 5 ); auto const & r = *as.at( a.i( 3 ) ); LL f; if( a.s( 8 ) != "-" ) for( auto const & w : split( a.s( 8 ), '/' ) ) f.push_back( ints( w ) );
    c->iir = a.i( 7 ) or r.outputEqualisationPresent(); efl::BasicMatrix<float> m( f.empty() ? c->nout : f.size(), f.empty() ? 0 : f[0].size(), cVectorAlignmentSamples );
    for( std::size_t i = 0; i < f.size(); ++i ) for( std::size_t k = 0; k < f[i].size(); ++k ) m( i, k ) = float( f[i][k] / 8.0 );
    if( net )
    {
      c->net = std::make_unique<Net>(); c->net->port = Net::available( 0 );
      if( c->net->port == 0 or c->net->s < 0 or ( c->track and Net::available( 8888 ) == 0 ) ) return; // no network, or somebody else's port
    }
    std::string e = h::guarded( [&] { if( net ) c->c = std::make_unique<signalflows::BaselineRenderer>( ctx, "r", nullptr, r, c->nin, c->nout, std::size_t( a.i( 4 ) ), m, a.i( 5 ) ? "{}" : "", std::size_t( c->net->port ), std::size_t( a.i( 6 ) ), "", a.i( 7 ) != 0 );
      else c->c = std::make_unique<signalflows::CoreRenderer>( ctx, "r", nullptr, r, c->nin, c->nout, std::size_t( a.i( 4 ) ), m, a.i( 5 ) ? "{}" : "", std::size_t( a.i( 6 ) ), "", a.i( 7 ) != 0 ); c->d = std::make_unique<h::Drive>( *c->c, per ); } );
    if( e.empty() ) cur = std::move( c ); else cur.reset();
    h::Ev( "mk" ).k( "nin", a.i( 1 ) ).k( "nout", a.i( 2 ) ).k( "a", a.i( 3 ) ).k( "i", a.i( 4 ) ).k( "track", a.i( 5 ) != 0 ).k( "ns", a.i( 6 ) ).k( "fd", a.i( 7 ) != 0 ).k( "flt", f ).k( "net", net ).k( "r", e ).done();
  }
  else if( op == "play" ) // listener|- objects|none stimulus
  {
    if( !cur ) return; auto q = a.il( 1 ); if( !cur->track ) q.clear(); bool give = a.s( 2 ) != "none"; std::vector<h::J> os;
    auto const * net = cur->net.get();
    if( net and q.size() ) cur->net->send( 8888, "{\"x\":" + std::to_string( q[0] ) + ",\"y\":" + std::to_string( q[1] ) + ",\"z\":" + std::to_string( q[2] ) + "}", false );
    else if( q.size() ) { cur->d->db<pml::ListenerPosition>( "trackingPositionInput" ) = pml::ListenerPosition( float( q[0] ), float( q[1] ), float( q[2] ) ); cur->d->swap( "trackingPositionInput" ); }
    if( give )
    {
      pml::ObjectVector own; auto & v = net ? own : cur->d->db<pml::ObjectVector>( "objectDataInput" ); v.clear(); std::map<om::ObjectId, h::J> js; cur->eqs = net and cur->eqs;
      if( a.s( 2 ) != "-" ) for( auto const & s : split( a.s( 2 ), ';' ) ) { h::J j; auto o = object( s, j ); cur->eqs = cur->eqs or o->eqCoefficients().size() > 0; js[o->id()] = j; v.insert( std::move( o ) ); }
      for( auto const & o : v ) os.push_back( js.at( o.id() ) );
      if( net ) { std::stringstream ms; om::ObjectVectorParser::encodeObjectVector( v, ms ); cur->net->send( net->port, ms.str(), true ); } else cur->d->swap( "objectDataInput" );
    }
    LL st; if( a.s( 3 ) != "-" ) for( auto const & s : split( a.s( 3 ), ';' ) ) { auto w = ints( s ); w[0] %= (long long)cur->nin; st.push_back( w ); }
    h::Mat in( cur->nin, std::vector<double>( per ) ), o; std::string r; bool quietEnd = true;
    for( int b = 0; b < 120 and r.empty(); ++b ) r = cur->d->block( in, o );
    std::vector<double> dc( cur->nout ), ny( cur->nout ); LL im; bool full = not cur->iir and not cur->eqs;
    for( std::size_t b = 0; b < 160 and r.empty(); ++b )
    {
      for( auto & c : in ) c.assign( per, 0.0 );
      for( auto const & w : st ) if( std::size_t( w[1] ) / per == b ) in[std::size_t( w[0] )][std::size_t( w[1] ) % per] += double( w[2] );
      r = cur->d->block( in, o ); if( !r.empty() ) break;
      for( std::size_t c = 0; c < cur->nout; ++c ) for( std::size_t k = 0; k < per; ++k )
      {
        double v = o[c][k]; std::size_t t = b * per + k; dc[c] += v; ny[c] += t % 2 ? -v : v; if( b >= 150 and not( std::fabs( v ) < 1e-3 ) ) quietEnd = false;
        if( full and not( std::fabs( v ) < 0.0015 ) and im.size() < 400 ) im.push_back( { (long long)c, (long long)t, h::qr( v, 1000 ) } );
      }
    }
    L d, n; for( std::size_t c = 0; c < cur->nout; ++c ) { d.push_back( h::qr( dc[c], 1000 ) ); n.push_back( h::qr( ny[c], 1000 ) ); }
    h::Ev( "play" ).k( "p", q ).k( "give", give ).k( "os", os ).k( "st", st ).k( "r", r ).k( "dc", d ).k( "ny", n ).k( "full", full ).k( "im", im ).k( "end", quietEnd ).done();
  }
  else { fprintf( stderr, "unknown operation %s\n", op.c_str() ); exit( 77 ); }
}
int main( int c, char ** v ) { rate = 5504.0f; pml::initialiseParameterLibrary(); return h::run( c, v, [] { cur.reset(); as.clear(); }, exec ); }
