// Component tree and port registries: construction, lookup, connection and destruction in any order.
#include "codec.hpp"
#include <libvisr/atomic_component.hpp>
#include <libvisr/audio_input.hpp>
#include <libvisr/audio_output.hpp>
#include <libvisr/composite_component.hpp>
#include <libvisr/parameter_input.hpp>
#include <libvisr/parameter_output.hpp>
#include <libvisr/polymorphic_parameter_input.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <libvisr/channel_list.hpp>
#include <libvisr/impl/audio_connection_descriptor.hpp>
#include <libvisr/impl/audio_port_base_implementation.hpp>
#include <libvisr/impl/component_implementation.hpp>
#include <libvisr/impl/composite_component_implementation.hpp>
#include <libvisr/impl/parameter_connection_descriptor.hpp>
#include <libvisr/impl/parameter_port_base_implementation.hpp>
#include <libvisr/impl/time_implementation.hpp>
#include <libpml/message_queue_protocol.hpp>
using namespace visr; using LL = long long; using Vec = std::vector<LL>; using Strs = std::vector<std::string>;
struct Atom : AtomicComponent { Atom( SignalFlowContext const & c, char const * n, CompositeComponent * p ) : AtomicComponent( c, n, p ) {} void process() override {} };
struct Comp : CompositeComponent { Comp( SignalFlowContext const & c, char const * n, CompositeComponent * p ) : CompositeComponent( c, n, p ) {} };
// Constructs children and ports and then gives up.
struct Fails : CompositeComponent
{
  Atom kid; AudioInput in;
  Fails( SignalFlowContext const & c, char const * n, CompositeComponent * p ) : CompositeComponent( c, n, p ), kid( c, "kid", this ), in( "in", *this, 1 ) { throw std::runtime_error( "no" ); }
};
struct C { std::unique_ptr<Component> c; Comp * comp; };
struct P { std::shared_ptr<void> p; AudioPortBase * a; ParameterPortBase * q; };
static std::map<LL, C> cs; static std::map<LL, P> ps; static std::unique_ptr<SignalFlowContext> ctx;
static void reset() { ps.clear(); cs.clear(); if( !ctx ) { ctx.reset( new SignalFlowContext( 16, 48000 ) ); pml::initialiseParameterLibrary(); } }
static std::string tried( std::function<void()> f )
{
  try { f(); return ""; } catch( std::invalid_argument const & ) { return "inv"; } catch( std::logic_error const & ) { return "logic"; } catch( std::exception const & ) { return "ex"; }
}
static LL portId( void const * impl ) { for( auto const & e : ps ) if( (e.second.a and &e.second.a->implementation() == impl) or (e.second.q and &e.second.q->implementation() == impl) ) return e.first; return -1; }
static LL compId( impl::ComponentImplementation const * i ) { for( auto const & e : cs ) if( &e.second.c->implementation() == i ) return e.first; return -1; }
static Vec il( h::Args const & a, std::size_t k ) { Vec r; for( int v : a.il( k ) ) r.push_back( v ); return r; }
static ChannelList cl( Vec const & v ) { std::vector<std::size_t> r( v.begin(), v.end() ); return ChannelList( r ); }
static void dump()
{
  for( auto & e : cs )
  {
    Component & c = *e.second.c; Component const & cc = c; auto & im = c.implementation(); Vec kids, ap, aw, pp; Strs kn, an, pn; LL nk = 0;
    if( e.second.comp ) { auto & ci = e.second.comp->implementation(); nk = e.second.comp->numberOfComponents(); for( auto it = ci.componentBegin(); it != ci.componentEnd(); ++it ) { kids.push_back( compId( *it ) ); kn.push_back( (*it)->name() ); } }
    for( auto * p : im.audioPorts() ) { ap.push_back( portId( p ) ); an.push_back( p->name() ); aw.push_back( p->width() ); }
    for( auto * p : im.parameterPorts() ) { pp.push_back( portId( p ) ); pn.push_back( p->name() ); }
    h::Ev( "comp" ).k( "i", e.first ).k( "n", c.name() ).k( "f", cc.fullName() ).k( "top", c.isTopLevel() ).k( "co", c.isComposite() ).k( "par", im.parent() ? compId( im.parent() ) : 0 ).k( "kids", kids ).k( "kn", kn ).k( "nk", nk )
      .k( "ap", ap ).k( "an", an ).k( "aw", aw ).k( "pp", pp ).k( "pn", pn ).k( "t", c.time().blockCount() ).k( "s", c.time().sampleCount() ).k( "per", c.period() == 16 and c.samplingFrequency() == 48000 ).done();
  }
  for( auto & e : ps )
  {
    bool has = e.second.a ? e.second.a->implementation().hasParent() : e.second.q->implementation().hasParent(); LL par = 0; std::string nm, r;
    if( e.second.a ) { auto & i = e.second.a->implementation(); nm = i.name(); r = tried( [&] { par = compId( &i.parent() ); } ); } else { auto & i = e.second.q->implementation(); nm = i.name(); r = tried( [&] { par = compId( &i.parent() ); } ); }
    h::Ev( "port" ).k( "i", e.first ).k( "n", nm ).k( "has", has ).k( "par", par ).k( "r", r ).k( "w", e.second.a ? LL( e.second.a->width() ) : 0 ).done();
  }
  h::Ev( "end" ).k( "nc", cs.size() ).k( "np", ps.size() ).done();
}
static void conns( LL id )
{
  auto & ci = cs.at( id ).comp->implementation(); std::vector<std::vector<Vec>> ac; std::vector<Vec> pc;
  for( auto it = ci.audioConnectionBegin(); it != ci.audioConnectionEnd(); ++it )
  { std::vector<Vec> row{ { portId( it->sender() ), portId( it->receiver() ) }, {}, {} }; for( auto v : it->sendIndices() ) row[1].push_back( v ); for( auto v : it->receiveIndices() ) row[2].push_back( v ); ac.push_back( row ); }
  for( auto it = ci.parameterConnectionBegin(); it != ci.parameterConnectionEnd(); ++it ) pc.push_back( { portId( it->sender() ), portId( it->receiver() ) } );
  h::Ev( "conns" ).k( "i", id ).k( "a", ac ).k( "p", pc ).done();
}
static std::string txt( std::string const & s ) { return s == "-" ? std::string() : s; }
static void exec( h::Args const & a )
{
  std::string const & op = a.op();
  if( op == "mkc" or op == "mkf" ) // id name parent composite
  {
    LL id = a.i( 1 ), par = a.i( 3 ); if( cs.count( id ) or (par and (!cs.count( par ) or !cs[par].comp)) ) return; std::string n = a.s( 2 ); bool co = a.i( 4 );
    C c{ nullptr, nullptr }; CompositeComponent * pp = par ? cs[par].comp : nullptr;
    auto r = tried( [&] { if( op == "mkf" ) { Fails f( *ctx, n.c_str(), pp ); } else if( co ) { c.comp = new Comp( *ctx, n.c_str(), pp ); c.c.reset( c.comp ); } else c.c.reset( new Atom( *ctx, n.c_str(), pp ) ); } );
    if( r.empty() ) cs[id] = std::move( c );
    h::Ev( op ).k( "i", id ).k( "n", n ).k( "par", par ).k( "co", co ).k( "r", r ).done();
  }
  else if( op == "rmc" ) { if( !cs.count( a.i( 1 ) ) ) return; cs.erase( a.i( 1 ) ); h::Ev( "rmc" ).k( "i", a.i( 1 ) ).done(); }
  else if( op == "mkp" ) // id comp kind name width
  {
    LL id = a.i( 1 ), ci = a.i( 2 ); if( ps.count( id ) or !cs.count( ci ) ) return; std::string k = a.s( 3 ), n = a.s( 4 ); Component & c = *cs[ci].c; LL w = a.i( 5 ); P p{ nullptr, nullptr, nullptr };
    auto r = tried( [&] {
      if( k == "ai" ) { auto av = new AudioInput( n.c_str(), c, w ); p.a = av; p.p.reset( av ); }
      else if( k == "ao" ) { auto av = new AudioOutput( n.c_str(), c, w ); p.a = av; p.p.reset( av ); }
      else if( k == "pi" ) { auto qv = new ParameterInput<pml::MessageQueueProtocol, pml::StringParameter>( n.c_str(), c, pml::EmptyParameterConfig() ); p.q = qv; p.p.reset( qv ); }
      else if( k == "po" ) { auto qv = new ParameterOutput<pml::MessageQueueProtocol, pml::StringParameter>( n.c_str(), c, pml::EmptyParameterConfig() ); p.q = qv; p.p.reset( qv ); }
      else { auto qv = new PolymorphicParameterInput( n.c_str(), c, pml::StringParameter::staticType(), w ? CommunicationProtocolType( 4711 ) : pml::MessageQueueProtocol::staticType(), pml::EmptyParameterConfig() ); p.q = qv; p.p.reset( qv ); }
    } );
    if( r.empty() ) ps[id] = std::move( p );
    h::Ev( "mkp" ).k( "i", id ).k( "c", ci ).k( "k", k ).k( "n", n ).k( "w", w ).k( "r", r ).done();
  }
  else if( op == "rmp" ) { if( !ps.count( a.i( 1 ) ) ) return; ps.erase( a.i( 1 ) ); h::Ev( "rmp" ).k( "i", a.i( 1 ) ).done(); }
  else if( op == "setw" ) { if( !ps.count( a.i( 1 ) ) or !ps[a.i( 1 )].a ) return; ps[a.i( 1 )].a->setWidth( a.i( 2 ) ); h::Ev( "setw" ).k( "i", a.i( 1 ) ).k( "w", a.i( 2 ) ).done(); }
  else if( op == "tick" ) { if( !cs.count( a.i( 1 ) ) ) return; cs[a.i( 1 )].c->implementation().timeImplementation().advanceBlockCounter(); h::Ev( "tick" ).k( "i", a.i( 1 ) ).done(); }
  else if( op == "get" ) // comp kind name
  {
    if( !cs.count( a.i( 1 ) ) ) return; LL f = 0, g = 0; Component & c = *cs[a.i( 1 )].c; Component const & d = c; std::string n = txt( a.s( 3 ) );
    auto r = tried( [&] { f = a.s( 2 ) == "a" ? portId( &c.audioPort( n ).implementation() ) : portId( &c.parameterPort( n.c_str() ).implementation() ); } );
    auto s = tried( [&] { g = a.s( 2 ) == "a" ? portId( &d.audioPort( n.c_str() ).implementation() ) : portId( &d.parameterPort( n ).implementation() ); } );
    h::Ev( "get" ).k( "c", a.i( 1 ) ).k( "k", a.s( 2 ) ).k( "n", n ).k( "p", f ).k( "q", g ).k( "r", r ).k( "s", s ).done();
  }
  else if( op == "find" ) // composite child kind port
  {
    if( !cs.count( a.i( 1 ) ) or !cs[a.i( 1 )].comp ) return; auto & ci = cs[a.i( 1 )].comp->implementation(); auto const & cc = ci; std::string n = txt( a.s( 2 ) ), p = txt( a.s( 4 ) ); LL f = 0;
    char const * nm = a.s( 2 ) == "-" and p.size() % 2 ? nullptr : n.c_str(); auto * k = ci.findComponent( nm ); auto const * k2 = cc.findComponent( nm );
    if( a.s( 3 ) == "a" ) { auto * q = ci.findAudioPort( nm, p.c_str() ); if( q ) f = portId( &q->implementation() ); } else { auto * q = ci.findParameterPort( nm, p.c_str() ); if( q ) f = portId( &q->implementation() ); }
    h::Ev( "find" ).k( "c", a.i( 1 ) ).k( "n", n ).k( "k", a.s( 3 ) ).k( "pn", p ).k( "x", k ? compId( k ) : 0 ).k( "y", k2 ? compId( k2 ) : 0 ).k( "p", f ).done();
  }
  else if( op == "acr" or op == "acw" ) // composite send receive [indices indices]
  {
    LL c = a.i( 1 ), s = a.i( 2 ), t = a.i( 3 ); if( !cs.count( c ) or !cs[c].comp or !ps.count( s ) or !ps.count( t ) or !ps[s].a or !ps[t].a ) return; Vec x, y;
    if( op == "acr" ) { x = il( a, 4 ); y = il( a, 5 ); }
    auto r = tried( [&] { if( op == "acr" ) cs[c].comp->audioConnection( *ps[s].a, cl( x ), *ps[t].a, cl( y ) ); else cs[c].comp->audioConnection( *ps[s].a, *ps[t].a ); } );
    h::Ev( op ).k( "c", c ).k( "s", s ).k( "t", t ).k( "x", x ).k( "y", y ).k( "r", r ).done();
  }
  else if( op == "acn" or op == "pcn" ) // composite child port child port [indices indices]
  {
    LL c = a.i( 1 ); if( !cs.count( c ) or !cs[c].comp ) return; Strs n; for( int k = 2; k < 6; ++k ) n.push_back( txt( a.s( k ) ) ); Vec x, y; if( op == "acn" ) { x = il( a, 6 ); y = il( a, 7 ); }
    auto r = tried( [&] { if( op == "acn" ) cs[c].comp->audioConnection( n[0].c_str(), n[1].c_str(), cl( x ), n[2].c_str(), n[3].c_str(), cl( y ) ); else cs[c].comp->parameterConnection( n[0].c_str(), n[1].c_str(), n[2].c_str(), n[3].c_str() ); } );
    h::Ev( op ).k( "c", c ).k( "n", n ).k( "x", x ).k( "y", y ).k( "r", r ).done();
  }
  else if( op == "pcr" )
  {
    LL c = a.i( 1 ), s = a.i( 2 ), t = a.i( 3 ); if( !cs.count( c ) or !cs[c].comp or !ps.count( s ) or !ps.count( t ) or !ps[s].q or !ps[t].q ) return;
    auto r = tried( [&] { cs[c].comp->parameterConnection( *ps[s].q, *ps[t].q ); } ); h::Ev( op ).k( "c", c ).k( "s", s ).k( "t", t ).k( "r", r ).done();
  }
  else if( op == "conns" ) { if( cs.count( a.i( 1 ) ) and cs[a.i( 1 )].comp ) conns( a.i( 1 ) ); }
  else if( op == "dump" ) dump();
}
int main( int argc, char ** argv ) { return h::run( argc, argv, reset, exec ); }
