// Loudspeaker array configurations: loading XML descriptions, copying, looking up.
#include "h.hpp"
#include <libpanning/LoudspeakerArray.h>
#include <librbbl/biquad_coefficient.hpp>
#include <unistd.h>
using namespace visr; using panning::LoudspeakerArray;
static std::map<long long, std::unique_ptr<LoudspeakerArray>> as; static std::map<long long, bool> bad; // refused a description: contents unknown until the next accepted one
static std::vector<long long> codes( std::string const & s ) { std::vector<long long> r; for( unsigned char c : s ) r.push_back( c ); return r; }
static h::J show( LoudspeakerArray const & a )
{
  using L = std::vector<long long>; using LL = std::vector<L>;
  std::size_t n = a.getNumSpeakers(), m = a.getNumRegularSpeakers(), u = a.getNumSubwoofers();
  LL pos, ids, tri, sub, rer, eqs; L ch, sc, back, gain, del; std::vector<LL> eq; bool inf = true, same = true;
  for( std::size_t i = 0; i < n; ++i )
  {
    auto const & p = a.getPosition( i ); pos.push_back( { h::qr( p.x, 1000 ), h::qr( p.y, 1000 ), h::qr( p.z, 1000 ) } ); inf = inf and p.isInfinite == a.isInfinite();
    std::string id; auto r = h::guarded( [&] { id = a.loudspeakerId( i ); } ); ids.push_back( codes( id ) );
    long long b = -1; h::guarded( [&] { b = static_cast<long long>( a.getSpeakerIndexFromId( id ) ); same = same and &a.getPosition( id ) == &a.getPosition( i ) and &p == a.getPositions() + i; } ); back.push_back( b );
  }
  for( std::size_t i = 0; i < m; ++i )
  {
    ch.push_back( static_cast<long long>( a.channelIndex( i ) ) ); same = same and a.getSpeakerChannel( i ) == a.channelIndex( i ) and a.getLoudspeakerChannels()[i] == a.channelIndex( i );
    std::string id; h::guarded( [&] { id = a.loudspeakerId( i ); } ); h::guarded( [&] { same = same and a.getSpeakerChannelFromId( id ) == a.channelIndex( i ); } );
  }
  for( std::size_t i = 0; i < a.getNumTriplets(); ++i ) { auto const & t = a.getTriplet( i ); L v{ (long long)t[0], (long long)t[1] }; if( !a.is2D() ) v.push_back( (long long)t[2] ); tri.push_back( v ); }
  for( std::size_t s = 0; s < u; ++s ) { sc.push_back( (long long)a.getSubwooferChannel( s ) ); L v; for( std::size_t i = 0; i < m; ++i ) { v.push_back( h::qr( a.getSubwooferGain( s, i ), 1000 ) ); same = same and a.getSubwooferGains()( s, i ) == a.getSubwooferGain( s, i ); } sub.push_back( v ); same = same and a.getSubwooferChannels()[s] == a.getSubwooferChannel( s ); }
  for( std::size_t v = 0; v + m < n; ++v ) { L w; for( std::size_t i = 0; i < m; ++i ) { w.push_back( h::qr( a.getReroutingCoefficient( v, i ), 1000 ) ); same = same and a.getReroutingCoefficients()( v, i ) == a.getReroutingCoefficient( v, i ); } rer.push_back( w ); }
  for( std::size_t i = 0; i < m + u; ++i )
  {
    float g = i < m ? a.getLoudspeakerGainAdjustment( i ) : a.getSubwooferGainAdjustment( i - m ), d = i < m ? a.getLoudspeakerDelayAdjustment( i ) : a.getSubwooferDelayAdjustment( i - m );
    gain.push_back( h::qr( g, 1000 ) ); del.push_back( h::qr( d, 100000 ) ); same = same and a.getGainAdjustment()[i] == g and a.getDelayAdjustment()[i] == d;
  }
  same = same and a.getGainAdjustment().size() == m + u and a.getDelayAdjustment().size() == m + u;
  bool ep = a.outputEqualisationPresent(); long long ns = ep ? (long long)a.outputEqualisationNumberOfBiquads() : -1;
  if( ep )
  {
    auto const & e = a.outputEqualisationBiquads(); same = same and e.numberOfFilters() == m + u and (long long)e.numberOfSections() == ns;
    for( std::size_t i = 0; i < e.numberOfFilters(); ++i ) { LL f; for( std::size_t s = 0; s < e.numberOfSections(); ++s ) { L c; for( int k = 0; k < 5; ++k ) c.push_back( h::qr( e( i, s )[k], 1000 ) ); f.push_back( c ); } eq.push_back( f ); }
  }
  else same = same and a.outputEqualisationNumberOfBiquads() == 0 and h::guarded( [&] { a.outputEqualisationBiquads(); } ) == "ex";
  bool range = h::guarded( [&] { a.loudspeakerId( n ); } ) == "ex" and h::guarded( [&] { a.getSpeakerIndexFromId( "no such one" ); } ) == "ex";
  std::string s = "{"; auto add = [&]( char const * k, h::J const & v ) { if( s.size() > 1 ) s += ","; s += std::string( "\"" ) + k + "\":" + v.s; };
  add( "d2", h::J::b( a.is2D() ) ); add( "inf", h::J::b( a.isInfinite() ) ); add( "infs", h::J::b( inf ) ); add( "ok", h::J::b( same and range ) );
  add( "pos", h::J::conv( pos ) ); add( "ids", h::J::conv( ids ) ); add( "back", h::J::conv( back ) ); add( "ch", h::J::conv( ch ) ); add( "tri", h::J::conv( tri ) ); add( "sc", h::J::conv( sc ) ); add( "sub", h::J::conv( sub ) );
  add( "rer", h::J::conv( rer ) ); add( "gain", h::J::conv( gain ) ); add( "del", h::J::conv( del ) ); add( "ns", h::J::i( ns ) ); add( "eq", h::J::conv( eq ) );
  return h::J{ s + "}" };
}
struct Quiet { std::streambuf * o, * e; std::ofstream n{ "/dev/null" }; Quiet() : o( std::cout.rdbuf( n.rdbuf() ) ), e( std::cerr.rdbuf( n.rdbuf() ) ) {} ~Quiet() { std::cout.rdbuf( o ); std::cerr.rdbuf( e ); } };
static void exec( h::Args const & a )
{
  Quiet quiet; std::string const & op = a.op(); auto & p = as[a.i( 1 )];
  if( op == "load" ) // array how text abstract
  {
    int how = int( a.i( 2 ) ); std::string x = a.hex( 3 ); if( !p ) p = std::make_unique<LoudspeakerArray>();
    std::string f = "/tmp/visr_arr_" + std::to_string( getpid() ) + ".xml"; if( how >= 2 ) { std::ofstream o( f ); o << x; }
    auto r = h::guarded( [&] { if( how == 0 ) p->loadXmlString( x ); else if( how == 1 ) { std::istringstream i( x ); p->loadXmlStream( i ); } else if( how == 2 ) p->loadXmlFile( f ); else p = std::make_unique<LoudspeakerArray>( f ); } );
    if( how >= 2 ) unlink( f.c_str() );
    bad[a.i( 1 )] = r.size() and how != 3; if( r.size() and how == 3 ) p = std::make_unique<LoudspeakerArray>();
    h::Ev e( "load" ); e.k( "k", a.i( 1 ) ).k( "d", h::J{ a.hex( 4 ) } ).k( "r", r ); if( r.empty() ) e.k( "s", show( *p ) ); e.done();
  }
  else if( op == "asg" ) { auto & q = as[a.i( 2 )]; if( !q or bad[a.i( 2 )] ) return; bad[a.i( 1 )] = false; if( !p ) p = std::make_unique<LoudspeakerArray>(); *p = *q; h::Ev( "asg" ).k( "k", a.i( 1 ) ).k( "f", a.i( 2 ) ).k( "s", show( *p ) ).done(); }
  else if( op == "new" ) { bad[a.i( 1 )] = false; p = std::make_unique<LoudspeakerArray>(); h::Ev( "new" ).k( "k", a.i( 1 ) ).k( "s", show( *p ) ).done(); }
  else if( op == "look" ) { if( p and !bad[a.i( 1 )] ) h::Ev( "look" ).k( "k", a.i( 1 ) ).k( "s", show( *p ) ).done(); }
  else if( op == "find" ) { if( !p or bad[a.i( 1 )] ) return; long long x = -1; std::string id = a.hex( 2 ); h::guarded( [&] { x = (long long)p->getSpeakerIndexFromId( id ); } ); h::Ev( "find" ).k( "k", a.i( 1 ) ).k( "id", codes( id ) ).k( "x", x ).done(); }
  else { fprintf( stderr, "unknown operation %s\n", op.c_str() ); exit( 77 ); }
}
int main( int c, char ** v ) { return h::run( c, v, [] { as.clear(); bad.clear(); }, exec ); }
