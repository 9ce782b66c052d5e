// Calculators that turn object vectors and listener positions into gains, equalisers, routings and delays.
#include "scene.hpp"
#include <libefl/basic_matrix.hpp>
#include <libpml/biquad_parameter.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/signal_routing_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <librcl/channel_object_routing_calculator.hpp>
#include <librcl/diffusion_gain_calculator.hpp>
#include <librcl/listener_compensation.hpp>
#include <librcl/object_gain_eq_calculator.hpp>
#include <librcl/panning_calculator.hpp>
static SignalFlowContext const ctx( 16, 48000 );
struct Cur { std::string kind; std::unique_ptr<Component> c; std::unique_ptr<h::Drive> d; bool ad = false; int mode = 0; };
static std::unique_ptr<Cur> cur;
static h::J mat( efl::BasicMatrix<float> const & m ) { LL r; for( std::size_t i = 0; i < m.numberOfRows(); ++i ) { L v; for( std::size_t j = 0; j < m.numberOfColumns(); ++j ) v.push_back( h::qr( m( i, j ), 1000 ) ); r.push_back( v ); } return h::J::conv( r ); }
template<class P> static P const & sdOut( char const * name ) { return dynamic_cast<P const &>( dynamic_cast<pml::SharedDataProtocol::InputBase &>( cur->d->flow.externalParameterSendPort( name ) ).data() ); }
template<class P> static P const & dbOut( char const * name ) { return dynamic_cast<P const &>( cur->d->dbOut( name ).data() ); }
static bool fresh( char const * name ) { auto & p = cur->d->dbOut( name ); bool r = p.changed(); p.resetChanged(); return r; }
static h::J vec( efl::BasicVector<float> const & v, double s ) { L r; for( std::size_t i = 0; i < v.size(); ++i ) r.push_back( h::qr( v[i], s ) ); return h::J::conv( r ); }
static void exec( h::Args const & a )
{
  Quiet quiet; std::string const & op = a.op(); using PC = rcl::PanningCalculator;
  if( op == "arr" ) { auto & p = as[a.i( 1 )]; p = std::make_unique<LoudspeakerArray>(); p->loadXmlString( a.hex( 2 ) ); h::Ev( "arr" ).k( "k", a.i( 1 ) ).k( "s", h::J{ "{" + show( *p ).s + "}" } ).done(); }
  else if( op == "mk" ) // kind channels array|-1 parameters
  {
    std::string k = a.s( 1 ); std::size_t n = std::size_t( a.i( 2 ) ); auto p = a.il( 4 ); if( a.i( 3 ) >= 0 and !as.count( a.i( 3 ) ) ) return; cur = std::make_unique<Cur>(); cur->kind = k; LoudspeakerArray const * r = a.i( 3 ) < 0 ? nullptr : as.at( a.i( 3 ) ).get();
    if( k == "pc" ) // mode, normalisations (3), adaptive, listener (3)
    {
      cur->ad = p[4] != 0; cur->mode = int( p[0] );
      auto N = []( long long x ) { return PC::Normalisation( x ); };
      cur->c = std::make_unique<PC>( ctx, "c", nullptr, n, *r, cur->ad, PC::PanningMode( p[0] ), N( p[1] ), N( p[2] ), N( p[3] ), pml::ListenerPosition( float( p[5] ), float( p[6] ), float( p[7] ) ) );
    }
    else if( k == "gq" ) cur->c = std::make_unique<rcl::ObjectGainEqCalculator>( ctx, "c", nullptr, n, std::size_t( p[0] ) );
    else if( k == "dg" ) cur->c = std::make_unique<rcl::DiffusionGainCalculator>( ctx, "c", nullptr, n );
    else if( k == "cr" ) cur->c = std::make_unique<rcl::ChannelObjectRoutingCalculator>( ctx, "c", nullptr, n, *r );
    else { cur->ad = true; cur->c = std::make_unique<rcl::ListenerCompensation>( ctx, "c", nullptr, *r ); }
    cur->d = std::make_unique<h::Drive>( *cur->c, 16 );
    if( k != "pc" and k != "dg" ) for( auto w : k == "gq" ? Strs{ "gainOut", "eqOut" } : k == "cr" ? Strs{ "routingOut" } : Strs{ "gainOutput", "delayOutput" } ) fresh( w.c_str() );
    h::Ev( "mk" ).k( "kind", k ).k( "n", a.i( 2 ) ).k( "a", a.i( 3 ) ).k( "x", p ).done();
  }
  else if( op == "blk" ) // listener|- objects|none
  {
    if( !cur ) return; std::string const & k = cur->kind; auto q = a.il( 1 ); bool give = k != "lc" and a.s( 2 ) != "none"; std::vector<h::J> os; if( !cur->ad ) q.clear();
    if( q.size() ) { char const * w = k == "lc" ? "positionInput" : "listenerPosition"; cur->d->db<pml::ListenerPosition>( w ) = pml::ListenerPosition( float( q[0] ), float( q[1] ), float( q[2] ) ); cur->d->swap( w ); }
    if( give )
    {
      char const * w = k == "pc" ? "objectVectorInput" : k == "dg" ? "objectInput" : "objectIn"; auto & v = cur->d->db<pml::ObjectVector>( w ); v.clear(); std::map<om::ObjectId, h::J> js;
      if( a.s( 2 ) != "-" ) for( auto const & s : split( a.s( 2 ), ';' ) ) { h::J j; auto o = object( s, j ); js[o->id()] = j; v.insert( std::move( o ) ); }
      for( auto const & o : v ) os.push_back( js.at( o.id() ) );
      cur->d->swap( w );
    }
    h::Mat o; auto r = cur->d->block( {}, o ); h::Ev e( "blk" ); e.k( "p", q ).k( "give", give ).k( "os", os ).k( "r", r );
    using M = pml::MatrixParameter<float>; using V = pml::VectorParameter<float>;
    if( k == "pc" ) { e.k( "lf", cur->mode & 1 ? mat( sdOut<M>( "vbapGains" ) ) : mat( M() ) ).k( "hf", cur->mode & 2 ? mat( sdOut<M>( "vbipGains" ) ) : mat( M() ) ).k( "df", cur->mode & 4 ? mat( sdOut<M>( "diffuseGains" ) ) : mat( M() ) ); }
    else if( k == "gq" )
    {
      auto const & b = dbOut<pml::BiquadParameterMatrix<float>>( "eqOut" ); std::string s = "["; for( std::size_t c = 0; c < b.numberOfFilters(); ++c ) { LL w; for( std::size_t x = 0; x < b.numberOfSections(); ++x ) w.push_back( coef( b( c, x ) ) ); s += ( c ? "," : "" ) + h::J::conv( w ).s; }
      e.k( "f", L{ fresh( "gainOut" ), fresh( "eqOut" ) } ).k( "g", vec( dbOut<V>( "gainOut" ), 1000 ) ).k( "q", h::J{ s + "]" } );
    }
    else if( k == "dg" ) e.k( "g", mat( sdOut<M>( "gainOutput" ) ) );
    else if( k == "cr" ) { LL w; for( auto const & x : dbOut<pml::SignalRoutingParameter>( "routingOut" ) ) w.push_back( { (long long)x.input, (long long)x.output } ); e.k( "f", L{ fresh( "routingOut" ) } ).k( "w", w ); }
    else e.k( "f", L{ fresh( "gainOutput" ), fresh( "delayOutput" ) } ).k( "g", vec( dbOut<V>( "gainOutput" ), 1000 ) ).k( "y", vec( dbOut<V>( "delayOutput" ), 1000000 ) );
    e.done();
  }
  else { fprintf( stderr, "unknown operation %s\n", op.c_str() ); exit( 77 ); }
}
int main( int c, char ** v ) { pml::initialiseParameterLibrary(); return h::run( c, v, [] { cur.reset(); as.clear(); }, exec ); }
