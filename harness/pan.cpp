// Panning gains: VBAP, AllRAD and the HOA gain calculator on loudspeaker arrays.
#include "drive.hpp"
#include <libefl/basic_matrix.hpp>
#include <libobjectmodel/hoa_source.hpp>
#include <libobjectmodel/point_source.hpp>
#include <libpanning/AllRAD.h>
#include <libpanning/LoudspeakerArray.h>
#include <libpanning/VBAP.h>
#include <libpml/listener_position.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/object_vector.hpp>
#include <librcl/hoa_allrad_gain_calculator.hpp>
using namespace visr; using panning::LoudspeakerArray;
using L = std::vector<long long>; using LL = std::vector<L>;
struct Quiet { std::streambuf * o, * e; std::ofstream n{ "/dev/null" }; Quiet() : o( std::cout.rdbuf( n.rdbuf() ) ), e( std::cerr.rdbuf( n.rdbuf() ) ) {} ~Quiet() { std::cout.rdbuf( o ); std::cerr.rdbuf( e ); } };
static std::map<long long, std::unique_ptr<LoudspeakerArray>> as; static std::map<long long, std::unique_ptr<panning::VBAP>> vs; static std::map<long long, long long> va; static std::map<long long, std::unique_ptr<panning::AllRAD>> rs;
static h::J show( LoudspeakerArray const & a )
{
  std::size_t n = a.getNumSpeakers(), m = a.getNumRegularSpeakers(); LL pos, tri, rer;
  for( std::size_t i = 0; i < n; ++i ) { auto const & p = a.getPosition( i ); pos.push_back( { h::q( p.x ), h::q( p.y ), h::q( p.z ) } ); }
  for( std::size_t i = 0; i < a.getNumTriplets(); ++i ) { auto const & t = a.getTriplet( i ); L v{ (long long)t[0] + 1, (long long)t[1] + 1 }; if( !a.is2D() ) v.push_back( (long long)t[2] + 1 ); tri.push_back( v ); }
  for( std::size_t v = 0; v + m < n; ++v ) { L w; for( std::size_t i = 0; i < m; ++i ) w.push_back( h::qr( a.getReroutingCoefficient( v, i ), 1000 ) ); rer.push_back( w ); }
  return h::J{ "{\"d2\":" + h::J::b( a.is2D() ).s + ",\"n\":" + std::to_string( m ) + ",\"pos\":" + h::J::conv( pos ).s + ",\"tri\":" + h::J::conv( tri ).s + ",\"rer\":" + h::J::conv( rer ).s + "}" };
}
static h::J mat( efl::BasicMatrix<float> const & m ) { LL r; for( std::size_t i = 0; i < m.numberOfRows(); ++i ) { L v; for( std::size_t j = 0; j < m.numberOfColumns(); ++j ) v.push_back( h::qr( m( i, j ), 1000 ) ); r.push_back( v ); } return h::J::conv( r ); }
static h::J mat( LL const & m ) { return h::J::conv( m ); }
static LL table( std::string const & s ) { LL r; if( s == "-" ) return r; std::stringstream ss( s ); std::string w; while( std::getline( ss, w, '/' ) ) { L v; std::stringstream t( w ); std::string x; while( std::getline( t, x, ',' ) ) v.push_back( std::stoll( x ) ); r.push_back( v ); } return r; }
static void into( LL const & d, double den, efl::BasicMatrix<float> & m ) { for( std::size_t i = 0; i < d.size(); ++i ) for( std::size_t j = 0; j < d[i].size(); ++j ) m( i, j ) = float( d[i][j] / den ); }
struct Hoa
{
  SignalFlowContext ctx{ 16, 48000 }; rcl::HoaAllRadGainCalculator c; h::Drive d; bool ad;
  Hoa( std::size_t n, LoudspeakerArray const & r, LoudspeakerArray const & t, efl::BasicMatrix<float> const & m, pml::ListenerPosition const & p, bool a ) : c( ctx, "c", nullptr, n, r, t, m, p, a ), d( c, 16 ), ad( a ) {}
};
static std::unique_ptr<Hoa> hoa;
static void exec( h::Args const & a )
{
  Quiet quiet; std::string const & op = a.op();
  auto has = [&]( int k ) { return as.count( a.i( k ) ) != 0; }; // an operation on something that is not there does nothing
  if( ( op == "vb" and !has( 2 ) ) or ( ( op == "rad" or op == "hoa" ) and !( has( 2 ) and has( 3 ) ) ) or ( ( op == "lis" or op == "gain" ) and !vs.count( a.i( 1 ) ) ) or ( op == "rlis" and !rs.count( a.i( 1 ) ) ) ) return;
  if( op == "arr" ) { auto & p = as[a.i( 1 )]; p = std::make_unique<LoudspeakerArray>(); p->loadXmlString( a.hex( 2 ) ); h::Ev( "arr" ).k( "k", a.i( 1 ) ).k( "s", show( *p ) ).done(); }
  else if( op == "vb" ) { auto p = a.il( 3 ); vs[a.i( 1 )] = p.empty() ? std::make_unique<panning::VBAP>( *as.at( a.i( 2 ) ) ) : std::make_unique<panning::VBAP>( *as.at( a.i( 2 ) ), float( p[0] ), float( p[1] ), float( p[2] ) ); va[a.i( 1 )] = a.i( 2 ); if( p.empty() ) p = { 0, 0, 0 }; h::Ev( "vb" ).k( "k", a.i( 1 ) ).k( "a", a.i( 2 ) ).k( "p", p ).done(); }
  else if( op == "lis" ) { auto p = a.il( 2 ); vs.at( a.i( 1 ) )->setListenerPosition( p[0], p[1], p[2] ); h::Ev( "lis" ).k( "k", a.i( 1 ) ).k( "p", p ).done(); }
  else if( op == "gain" ) // vbap source planewave normalised
  {
    auto p = a.il( 2 ); std::size_t n = as.at( va.at( a.i( 1 ) ) )->getNumRegularSpeakers(); std::vector<float> g( n, -77.0f );
    auto r = h::guarded( [&] { if( a.i( 4 ) ) vs.at( a.i( 1 ) )->calculateGains( p[0], p[1], p[2], g.data(), a.i( 3 ) != 0 ); else vs.at( a.i( 1 ) )->calculateGainsUnNormalised( p[0], p[1], p[2], g.data(), a.i( 3 ) != 0 ); } );
    L o; for( auto x : g ) o.push_back( h::qr( x, 1000 ) ); h::Ev( "gain" ).k( "k", a.i( 1 ) ).k( "p", p ).k( "pw", a.i( 3 ) != 0 ).k( "nm", a.i( 4 ) != 0 ).k( "r", r ).k( "g", o ).done();
  }
  else if( op == "rad" ) // decoder regular real order table
  {
    auto t = table( a.s( 5 ) ); efl::BasicMatrix<float> m( t.size(), t.empty() ? 0 : t[0].size(), 8 ); into( t, 8, m ); auto & p = rs[a.i( 1 )]; p.reset();
    auto r = h::guarded( [&] { p = std::make_unique<panning::AllRAD>( *as.at( a.i( 2 ) ), *as.at( a.i( 3 ) ), m, unsigned( a.i( 4 ) ) ); } );
    h::Ev e( "rad" ); e.k( "k", a.i( 1 ) ).k( "a", a.i( 2 ) ).k( "b", a.i( 3 ) ).k( "o", a.i( 4 ) ).k( "m", mat( t ) ).k( "r", r ).k( "g", r.empty() ? mat( p->decodingGains() ) : mat( LL() ) ).done();
  }
  else if( op == "rlis" ) { auto & p = rs[a.i( 1 )]; if( !p ) return; auto q = a.il( 2 ); p->setListenerPosition( q[0], q[1], q[2] ); h::Ev( "rlis" ).k( "k", a.i( 1 ) ).k( "p", q ).k( "g", mat( p->decodingGains() ) ).done(); }
  else if( op == "hoa" ) // channels regular real table listener adaptive
  {
    auto t = table( a.s( 4 ) ); auto q = a.il( 5 ); efl::BasicMatrix<float> m( t.size(), t.empty() ? 0 : t[0].size(), 8 ); into( t, 8, m ); hoa.reset();
    auto r = h::guarded( [&] { hoa = std::make_unique<Hoa>( std::size_t( a.i( 1 ) ), *as.at( a.i( 2 ) ), *as.at( a.i( 3 ) ), m, pml::ListenerPosition( q[0], q[1], q[2] ), a.i( 6 ) != 0 ); } );
    h::Ev( "hoa" ).k( "n", a.i( 1 ) ).k( "a", a.i( 2 ) ).k( "b", a.i( 3 ) ).k( "m", mat( t ) ).k( "p", q ).k( "ad", a.i( 6 ) != 0 ).k( "r", r ).done();
  }
  else if( op == "blk" ) // input-table listener|- objects|- (id:type:order:channels;...)
  {
    if( !hoa ) return; auto t = table( a.s( 1 ) ); auto q = a.il( 2 ); auto & in = hoa->d.sd<pml::MatrixParameter<float>>( "gainInput" ); into( t, 1000, in );
    if( hoa->ad and q.size() ) { hoa->d.db<pml::ListenerPosition>( "listenerInput" ) = pml::ListenerPosition( q[0], q[1], q[2] ); hoa->d.swap( "listenerInput" ); } else q.clear();
    std::vector<h::J> os; bool give = a.s( 3 ) != "none";
    if( give )
    {
      auto & v = hoa->d.db<pml::ObjectVector>( "objectInput" ); v.clear(); std::stringstream ss( a.s( 3 ) == "-" ? "" : a.s( 3 ) ); std::string w;
      while( std::getline( ss, w, ';' ) )
      {
        std::vector<std::string> f; std::stringstream u( w ); std::string x; while( std::getline( u, x, ':' ) ) f.push_back( x );
        h::Args c; c.t = { f[3] }; auto ch = c.il( 0 ); std::unique_ptr<objectmodel::Object> o; unsigned id = unsigned( std::stoul( f[0] ) );
        if( f[1] == "hoa" ) { auto s = std::make_unique<objectmodel::HoaSource>( id ); s->setOrder( objectmodel::HoaSource::Order( std::stoul( f[2] ) ) ); o = std::move( s ); } else o = std::make_unique<objectmodel::PointSource>( id );
        o->resetNumberOfChannels( ch.size() ); for( std::size_t k = 0; k < ch.size(); ++k ) o->setChannelIndex( k, unsigned( ch[k] ) );
        v.insert( std::move( o ) );
      }
      for( auto const & o : v ) { L ch; for( std::size_t k = 0; k < o.numberOfChannels(); ++k ) ch.push_back( o.channelIndex( k ) ); auto * s = dynamic_cast<objectmodel::HoaSource const *>( &o ); os.push_back( h::J{ "{\"h\":" + h::J::b( s != nullptr ).s + ",\"o\":" + std::to_string( s ? (long long)s->order() : 0 ) + ",\"c\":" + h::J::conv( ch ).s + "}" } ); }
      hoa->d.swap( "objectInput" );
    }
    h::Mat o; auto r = hoa->d.block( {}, o ); auto & g = dynamic_cast<pml::MatrixParameter<float> const &>( dynamic_cast<pml::SharedDataProtocol::InputBase &>( hoa->d.flow.externalParameterSendPort( "gainOutput" ) ).data() );
    h::Ev( "blk" ).k( "inp", mat( in ) ).k( "p", q ).k( "give", give ).k( "os", os ).k( "r", r ).k( "g", mat( g ) ).done();
  }
  else { fprintf( stderr, "unknown operation %s\n", op.c_str() ); exit( 77 ); }
}
int main( int c, char ** v ) { pml::initialiseParameterLibrary(); return h::run( c, v, [] { hoa.reset(); rs.clear(); vs.clear(); va.clear(); as.clear(); }, exec ); }
