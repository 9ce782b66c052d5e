// Object vectors: scene messages decoded by the decoder component and by the parser, encoding, copying.
// An abstract object is passed and logged as JSON: {"i":id,"t":type,"c":[channels],"g":group,"l":level,"p":priority,"q":[[type,f,q,gain]...],"v":[numbers],"o":[[labels]...],"r":[[numbers]...]}
#include "drive.hpp"
#include <boost/property_tree/json_parser.hpp>
#include <boost/property_tree/ptree.hpp>
#include <libobjectmodel/channel_object.hpp>
#include <libobjectmodel/diffuse_source.hpp>
#include <libobjectmodel/hoa_source.hpp>
#include <libobjectmodel/object_factory.hpp>
#include <libobjectmodel/object_vector.hpp>
#include <libobjectmodel/object_vector_parser.hpp>
#include <libobjectmodel/plane_wave.hpp>
#include <libobjectmodel/point_source.hpp>
#include <libobjectmodel/point_source_extent.hpp>
#include <libobjectmodel/point_source_with_diffuseness.hpp>
#include <libobjectmodel/point_source_with_reverb.hpp>
#include <libpml/object_vector.hpp>
#include <libpml/string_parameter.hpp>
#include <librcl/scene_decoder.hpp>
#include <librcl/scene_encoder.hpp>
using namespace visr; using namespace visr::objectmodel; using PT = boost::property_tree::ptree; using Strs = std::vector<std::string>;
using OV = objectmodel::ObjectVector; using EqList = rbbl::ParametricIirCoefficientList<float>; using Eq = rbbl::ParametricIirCoefficient<float>;
static std::string F( double v ) { char b[40]; snprintf( b, sizeof b, "%.9g", v ); return b; }
static float N( std::string const & s ) { return s == "inf" ? std::numeric_limits<float>::infinity() : std::stof( s ); }
static h::J eqs( EqList const & l ) { std::vector<Strs> r; for( auto const & e : l ) r.push_back( { Eq::typeIdToString( e.type() ), F( e.frequency() ), F( e.quality() ), F( e.gain() ) } ); return h::J::conv( r ); }
static h::J show( Object const & o )
{
  std::string s = "{"; auto add = [&]( char const * k, h::J const & v ) { if( s.size() > 1 ) s += ","; s += std::string( "\"" ) + k + "\":" + v.s; };
  Strs ch, v; for( std::size_t k = 0; k < o.numberOfChannels(); ++k ) ch.push_back( std::to_string( o.channelIndex( k ) ) );
  std::vector<Strs> oc, er;
  if( auto * p = dynamic_cast<PointSource const *>( &o ) ) { v = { F( p->x() ), F( p->y() ), F( p->z() ), F( p->channelLockDistance() ), p->channelLock() ? "lock" : "free" }; }
  if( auto * p = dynamic_cast<PointSourceWithDiffuseness const *>( &o ) ) v.push_back( F( p->diffuseness() ) );
  if( auto * p = dynamic_cast<PointSourceExtent const *>( &o ) ) { v.push_back( F( p->width() ) ); v.push_back( F( p->height() ) ); v.push_back( F( p->depth() ) ); }
  if( auto * p = dynamic_cast<PlaneWave const *>( &o ) ) v = { F( p->incidenceAzimuth() ), F( p->incidenceElevation() ), F( p->referenceDistance() ) };
  if( auto * p = dynamic_cast<HoaSource const *>( &o ) ) v = { std::to_string( p->order() ) };
  if( auto * p = dynamic_cast<ChannelObject const *>( &o ) ) { v = { F( p->diffuseness() ) }; for( auto const & l : p->outputChannels() ) oc.push_back( l ); }
  if( auto * p = dynamic_cast<PointSourceWithReverb const *>( &o ) )
  {
    v.push_back( F( p->lateReverbOnset() ) ); for( auto x : p->lateReverbLevels() ) v.push_back( F( x ) ); for( auto x : p->lateReverbAttackTimes() ) v.push_back( F( x ) ); for( auto x : p->lateReverbDecayCoeffs() ) v.push_back( F( x ) );
    for( std::size_t k = 0; k < p->numberOfDiscreteReflections(); ++k )
    {
      auto const & d = p->discreteReflection( k ); Strs w{ F( d.positionX() ), F( d.positionY() ), F( d.positionZ() ), F( d.delay() ), F( d.level() ) };
      for( std::size_t b = 0; b < d.reflectionFilters().size(); ++b ) { auto const & c = d.reflectionFilters().at( b ); for( int i = 0; i < 5; ++i ) w.push_back( F( c[i] ) ); } er.push_back( w );
    }
  }
  add( "i", h::J::i( o.id() ) ); add( "t", h::J::t( objectTypeToString( o.type() ) ) ); add( "c", h::J::conv( ch ) ); add( "g", h::J::i( o.groupId() ) ); add( "l", h::J::t( F( o.level() ) ) ); add( "p", h::J::i( o.priority() ) );
  add( "q", eqs( o.eqCoefficients() ) ); add( "v", h::J::conv( v ) ); add( "o", h::J::conv( oc ) ); add( "r", h::J::conv( er ) ); return h::J{ s + "}" };
}
static h::J show( OV const & v ) { std::vector<h::J> r; for( auto const & o : v ) r.push_back( show( o ) ); return h::J::conv( r ); }
static Strs lst( PT const & t ) { Strs r; for( auto const & e : t ) r.push_back( e.second.data() ); return r; }
static std::vector<Strs> lst2( PT const & t ) { std::vector<Strs> r; for( auto const & e : t ) r.push_back( lst( e.second ) ); return r; }
static EqList eqOf( PT const & t ) { EqList r; auto l = lst2( t ); r.resize( l.size() ); std::size_t n = 0; for( auto const & w : l ) r.at( n++ ) = Eq( Eq::stringToTypeId( w[0] ), N( w[1] ), N( w[2] ), N( w[3] ) ); return r; }
static void fill( Object & o, PT const & t ) // through the object's own interface
{
  auto ch = lst( t.get_child( "c" ) ); o.resetNumberOfChannels( ch.size() ); for( std::size_t k = 0; k < ch.size(); ++k ) o.setChannelIndex( k, unsigned( std::stoul( ch[k] ) ) );
  o.setGroupId( t.get<unsigned>( "g" ) ); o.setLevel( N( t.get<std::string>( "l" ) ) ); o.setPriority( t.get<int>( "p" ) ); o.setEqCoefficients( eqOf( t.get_child( "q" ) ) );
  auto v = lst( t.get_child( "v" ) ); auto oc = lst2( t.get_child( "o" ) ), er = lst2( t.get_child( "r" ) );
  if( auto * p = dynamic_cast<PointSource *>( &o ) ) { p->setX( N( v[0] ) ); p->setY( N( v[1] ) ); p->setZ( N( v[2] ) ); if( v[3] == "inf" ) p->setChannelLock(); else if( N( v[3] ) == 0 ) p->unsetChannelLock(); else p->setChannelLock( N( v[3] ) ); }
  if( auto * p = dynamic_cast<PointSourceWithDiffuseness *>( &o ) ) p->setDiffuseness( N( v[5] ) );
  if( auto * p = dynamic_cast<PointSourceExtent *>( &o ) ) { p->setWidth( N( v[6] ) ); p->setHeight( N( v[7] ) ); p->setDepth( N( v[8] ) ); }
  if( auto * p = dynamic_cast<PlaneWave *>( &o ) ) { p->setIncidenceAzimuth( N( v[0] ) ); p->setIncidenceElevation( N( v[1] ) ); p->setReferenceDistance( N( v[2] ) ); }
  if( auto * p = dynamic_cast<HoaSource *>( &o ) ) p->setOrder( std::stoi( v[0] ) );
  if( auto * p = dynamic_cast<ChannelObject *>( &o ) ) { p->setDiffuseness( N( v[0] ) ); p->setOutputChannels( ChannelObject::OutputChannelContainer( oc.begin(), oc.end() ) ); }
  if( auto * p = dynamic_cast<PointSourceWithReverb *>( &o ) )
  {
    p->setLateReverbOnset( N( v[5] ) ); PointSourceWithReverb::LateReverbCoeffs a, b, c; std::size_t n = a.size(); for( std::size_t k = 0; k < n; ++k ) { a[k] = N( v[6 + k] ); b[k] = N( v[6 + n + k] ); c[k] = N( v[6 + 2 * n + k] ); }
    p->setLateReverbLevels( a ); p->setLateReverbAttackTimes( b.data(), n ); p->setLateReverbDecayCoeffs( c ); p->setNumberOfDiscreteReflections( er.size() );
    for( std::size_t k = 0; k < er.size(); ++k )
    {
      auto & d = p->discreteReflection( k ); auto const & w = er[k]; d.setPosition( N( w[0] ), N( w[1] ), N( w[2] ) ); d.setDelay( N( w[3] ) ); d.setLevel( N( w[4] ) );
      for( std::size_t i = 5, s = 0; i < w.size(); i += 5, ++s ) d.setReflectionFilter( s, rbbl::BiquadCoefficient<float>( N( w[i] ), N( w[i + 1] ), N( w[i + 2] ), N( w[i + 3] ), N( w[i + 4] ) ) );
    }
  }
}
static PT json( std::string const & s ) { PT t; std::stringstream st( s ); read_json( st, t ); return t; }
static std::string tried( std::function<void()> f ) { try { f(); return ""; } catch( std::exception const & ) { return "ex"; } }
template<class C> struct Run { SignalFlowContext ctx{ 16, 48000 }; C c{ ctx, "c", nullptr }; h::Drive d{ c, 16 }; std::string block() { h::Mat o; return d.block( {}, o ); } };
static std::unique_ptr<Run<rcl::SceneDecoder>> dec; static std::unique_ptr<Run<rcl::SceneEncoder>> enc; static std::map<long long, OV> vs; static h::J last;
static void ask( std::string const & m ) { dec->d.enqueue( "datagramInput", std::make_unique<pml::StringParameter>( m ) ); }
static bool pub( h::J & s ) { auto & p = dec->d.dbOut( "objectVectorOutput" ); bool r = p.changed(); p.resetChanged(); s = show( dynamic_cast<pml::ObjectVector const &>( p.data() ) ); return r; }
static void reset() { dec.reset(); enc.reset(); vs.clear(); last.s.clear(); }
struct Quiet { std::streambuf * o, * e; std::ofstream n{ "/dev/null" }; Quiet() : o( std::cout.rdbuf( n.rdbuf() ) ), e( std::cerr.rdbuf( n.rdbuf() ) ) {} ~Quiet() { std::cout.rdbuf( o ); std::cerr.rdbuf( e ); } };
static void exec( h::Args const & a )
{
  Quiet quiet; std::string const & op = a.op();
  if( op == "blk" ) // messages of one block: hex text, hex abstract list, ...
  {
    if( !dec ) dec = std::make_unique<Run<rcl::SceneDecoder>>();
    std::vector<h::J> ms; for( std::size_t k = 1; k + 1 < a.size(); k += 2 ) { ask( a.hex( k ) ); ms.push_back( h::J{ a.hex( k + 1 ) } ); }
    h::J s; auto r = dec->block(); bool changed = pub( s );
    h::Ev( "blk" ).k( "m", ms ).k( "r", r ).k( "ch", changed ).k( "s", s ).done();
  }
  else if( op == "upd" or op == "fill" ) // vector text abstract
  {
    auto & v = vs[a.i( 1 )]; std::string m = a.hex( 2 ); bool st = m.size() % 2; std::stringstream str( m );
    auto r = tried( [&] { if( op == "upd" ) { if( st ) ObjectVectorParser::updateObjectVector( str, v ); else ObjectVectorParser::updateObjectVector( m, v ); } else { if( st ) ObjectVectorParser::fillObjectVector( str, v ); else ObjectVectorParser::fillObjectVector( m.c_str(), v ); } } );
    h::Ev( op ).k( "k", a.i( 1 ) ).k( "m", h::J{ a.hex( 3 ) } ).k( "r", r ).k( "s", show( v ) ).done();
  }
  else if( op == "put" ) // vector abstract object
  {
    auto & v = vs[a.i( 1 )]; std::string m = a.hex( 2 ); PT t = json( m ); auto o = ObjectFactory::create( stringToObjectType( t.get<std::string>( "t" ) ), t.get<unsigned>( "i" ) ); fill( *o, t );
    if( a.i( 3 ) ) v.insert( *o ); else v.insert( std::move( o ) ); h::Ev( "put" ).k( "k", a.i( 1 ) ).k( "m", h::J{ m } ).k( "s", show( v ) ).done();
  }
  else if( op == "look" ) { h::Ev( "look" ).k( "k", a.i( 1 ) ).k( "n", vs[a.i( 1 )].size() ).k( "em", vs[a.i( 1 )].empty() ).k( "s", show( vs[a.i( 1 )] ) ).done(); }
  else if( op == "new" ) { auto & v = vs[a.i( 1 )]; v.insert( ObjectFactory::create( stringToObjectType( a.s( 3 ) ), unsigned( a.i( 2 ) ) ) ); h::Ev( "new" ).k( "k", a.i( 1 ) ).k( "i", a.i( 2 ) ).k( "t", a.s( 3 ) ).k( "s", show( v ) ).done(); }
  else if( op == "rep" ) { auto & v = vs[a.i( 1 )]; auto it = v.find( unsigned( a.i( 2 ) ) ); bool f = it != v.end(); if( f ) v.insert( *it ); h::Ev( "rep" ).k( "k", a.i( 1 ) ).k( "i", a.i( 2 ) ).k( "f", f ).k( "s", show( v ) ).done(); }
  else if( op == "rm" ) { auto & v = vs[a.i( 1 )]; auto r = tried( [&] { v.remove( unsigned( a.i( 2 ) ) ); } ); h::Ev( "rm" ).k( "k", a.i( 1 ) ).k( "i", a.i( 2 ) ).k( "r", r ).k( "s", show( v ) ).done(); }
  else if( op == "at" ) { auto const & v = vs[a.i( 1 )]; h::J o{ "0" }; auto r = tried( [&] { o = show( v.at( unsigned( a.i( 2 ) ) ) ); } ); if( r.size() ) o = h::J{ "{}" }; h::Ev( "at" ).k( "k", a.i( 1 ) ).k( "i", a.i( 2 ) ).k( "r", r ).k( "o", o ).k( "n", v.size() ).k( "em", v.empty() ).done(); }
  else if( op == "cp" ) // how from to
  {
    int k = int( a.i( 1 ) ); OV & x = vs[a.i( 2 )]; OV & y = vs[a.i( 3 )]; bool self = a.i( 2 ) == a.i( 3 );
    if( k == 0 ) y = x; else if( k == 1 ) y.assign( x ); else if( k == 2 ) y.swap( x ); else if( k == 3 and not self ) { y = std::move( x ); x = OV(); }
    else if( k == 4 ) { OV t; t = x; OV u( std::move( t ) ); y.swap( u ); } else if( k == 5 ) { pml::ObjectVector p, q; p.objectmodel::ObjectVector::assign( x ); q = p; pml::ObjectVector s( q ); y.assign( s ); } else if( k == 6 ) y.clear(); else return;
    h::Ev( "cp" ).k( "h", k ).k( "f", a.i( 2 ) ).k( "k", a.i( 3 ) ).k( "x", show( x ) ).k( "s", show( y ) ).done();
  }
  else if( op == "set" ) { auto & v = vs[a.i( 1 )]; auto it = v.find( unsigned( a.i( 2 ) ) ); if( it == v.end() ) return; it->setLevel( N( a.s( 3 ) ) ); h::Ev( "set" ).k( "k", a.i( 1 ) ).k( "i", a.i( 2 ) ).k( "l", F( N( a.s( 3 ) ) ) ).k( "s", show( v ) ).done(); }
  else if( op == "rt" ) // encode vector, decode into another
  {
    OV & x = vs[a.i( 1 )]; OV & y = vs[a.i( 2 )]; std::string m; auto e = tried( [&] { std::stringstream st; ObjectVectorParser::encodeObjectVector( x, st ); m = st.str(); } );
    auto r = tried( [&] { if( e.empty() ) ObjectVectorParser::fillObjectVector( m, y ); } ); h::Ev( "rt" ).k( "f", a.i( 1 ) ).k( "k", a.i( 2 ) ).k( "e2", e ).k( "r", r ).k( "s", show( y ) ).done();
  }
  else if( op == "send" ) // vector through encoder and decoder component
  {
    if( !enc ) enc = std::make_unique<Run<rcl::SceneEncoder>>();
    if( !dec ) dec = std::make_unique<Run<rcl::SceneDecoder>>();
    OV & x = vs[a.i( 1 )]; pml::ObjectVector p; p.objectmodel::ObjectVector::assign( x ); std::size_t n = 0;
    enc->d.sd<pml::ObjectVector>( "objectInput" ) = p; auto r = enc->block(); auto & q = enc->d.mqOut( "messageOutput" );
    while( not q.empty() ) { ask( dynamic_cast<pml::StringParameter const &>( q.front() ).str() ); q.pop(); ++n; }
    r += dec->block(); h::J s; bool changed = pub( s ); h::Ev( "send" ).k( "k", a.i( 1 ) ).k( "n", n ).k( "r", r ).k( "ch", changed ).k( "s", s ).done();
  }
  else if( op == "eq" ) // equaliser list as text
  {
    EqList x = eqOf( json( a.hex( 1 ) ) ), y( x ); int k = int( a.i( 2 ) ); std::string s; y = EqList();
    auto r = tried( [&] {
      if( k == 0 ) { x.writeJson( s ); y.loadJson( s ); } else if( k == 1 ) { std::stringstream st; x.writeJson( st ); y.loadJson( st ); } else if( k == 2 ) { PT t; x.writeJson( t ); y.loadJson( t ); }
      else if( k == 3 ) { PT t; x.writeXml( t ); y.loadXml( t ); } else if( k == 4 ) { { y.resize( x.size() ); std::size_t n = 0; for( auto & e : x ) { std::string w; e.writeJson( w ); y.at( n++ ) = Eq::fromJson( w ); } } } else if( k == 6 ) { y.resize( x.size() ); std::size_t n = 0; for( auto & e : x ) { std::string t; if( n % 3 == 2 ) { std::stringstream o; e.writeXml( o ); t = o.str(); } else e.writeXml( t ); if( n % 2 ) { std::stringstream i( t ); y.at( n++ ).loadXml( i ); } else { y.at( n ).loadXml( t ); ++n; } } }
      else { { y.resize( x.size() ); std::size_t n = 0; for( auto & e : x ) { PT t; e.writeXml( t ); y.at( n++ ) = Eq::fromXml( t ); } } } } );
    h::Ev( "eq" ).k( "x", eqs( x ) ).k( "h", k ).k( "r", r ).k( "y", eqs( y ) ).done();
  }
  else if( op == "late" ) { h::J s; auto r = tried( [&] { auto l = a.i( 1 ) == 0 ? PointSourceWithReverb::LateReverb( 1.5f ) : a.i( 1 ) == 1 ? PointSourceWithReverb::LateReverb( 1.5f, { 2.f } ) : PointSourceWithReverb::LateReverb( 1.5f, {}, { 1.f, 2.f } ); Strs v{ F( l.onsetDelay() ), F( l.levels()[0] ), F( l.levels()[l.levels().size() - 1] ), F( l.decayCoeffs()[1] ), F( l.attackTimes()[0] ) }; s = h::J::conv( v ); } ); h::Ev( "late" ).k( "h", a.i( 1 ) ).k( "r", r ).k( "v", r.empty() ? s : h::J{ "[]" } ).done(); }
}
int main( int argc, char ** argv ) { pml::initialiseParameterLibrary(); return h::run( argc, argv, reset, exec ); }
