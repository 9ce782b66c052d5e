// Builds arbitrary hierarchical signal flows from scripts and records what their components observe.
#include "codec.hpp"
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/message_queue_protocol.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <libvisr/atomic_component.hpp>
#include <libvisr/audio_input.hpp>
#include <libvisr/parameter_factory.hpp>
#include <libvisr/audio_output.hpp>
#include <libvisr/composite_component.hpp>
#include <libvisr/impl/audio_port_base_implementation.hpp>
#include <libvisr/impl/parameter_port_base_implementation.hpp>
#include <libvisr/polymorphic_parameter_input.hpp>
#include <libvisr/polymorphic_parameter_output.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <libvisr/time.hpp>
#include <future>
#include <thread>
using namespace visr;
using namespace visr::pml;
using MQ = MessageQueueProtocol;
using DB = DoubleBufferingProtocol;
using SD = SharedDataProtocol;
using LL = long long;
static std::unique_ptr<rrl::AudioSignalFlow> flow;
static std::unique_ptr<SignalFlowContext> ctx;
static std::size_t gPer = 4;
static bool inBlock = false;

struct PPort { int id, comp; bool in; std::string proto, type, name; codec::Codec const * cd; std::unique_ptr<ParameterInputBase> pi; std::unique_ptr<ParameterOutputBase> po;
  ParameterPortBase & base() { if( in ) return *pi; return *po; } };
struct APort { int id, comp; bool in, dbl; std::size_t width; std::string name; std::unique_ptr<AudioPortBase> p; };
struct Send { int port; std::string op; LL v; };
static std::map<int, std::unique_ptr<APort>> aports;
static std::map<int, std::unique_ptr<PPort>> pports;

static CommunicationProtocolType kindType( std::string const & k ) { return k == "MQ" ? MQ::staticType() : k == "DB" ? DB::staticType() : SD::staticType(); }
static codec::Codec const & pcodec( std::string const & t )
{
  // vec5 etc.: the vector type with another configuration; matx: transposed matrix configuration
  static std::map<std::string, codec::Codec> extra;
  if( extra.empty() )
  {
    extra["vec5"] = codec::get( "vecf" ); extra["vec5"].config = std::make_shared<VectorParameterConfig>( 5 );
    extra["matx"] = codec::get( "matf" ); extra["matx"].config = std::make_shared<MatrixParameterConfig>( 3, 2 );
    extra["maty"] = codec::get( "matf" ); extra["maty"].config = std::make_shared<MatrixParameterConfig>( 2, 4 );
    extra["matz"] = codec::get( "matf" ); extra["matz"].config = std::make_shared<MatrixParameterConfig>( 4, 3 );
    extra["int3"] = codec::get( "interp" ); extra["int3"].config = std::make_shared<InterpolationParameterConfig>( 3 );
    extra["tfa"] = codec::get( "tf" ); extra["tfa"].config = std::make_shared<TimeFrequencyParameterConfig>( 2, 2, 2 );
    extra["tfb"] = codec::get( "tf" ); extra["tfb"].config = std::make_shared<TimeFrequencyParameterConfig>( 3, 1, 2 );
    extra["tfc"] = codec::get( "tf" ); extra["tfc"].config = std::make_shared<TimeFrequencyParameterConfig>( 3, 2, 1 );
  }
  auto it = extra.find( t );
  return it != extra.end() ? it->second : codec::get( t );
}
static std::unique_ptr<ParameterBase> mkval( PPort const & p, LL v )
{
  auto r = ParameterFactory::create( p.cd->type, *p.cd->config );
  p.cd->set( *r, v );
  return r;
}
// one receive / send operation on a protocol endpoint
static std::vector<LL> doRecv( PPort const & p, CommunicationProtocolBase::Input & in, int take )
{
  std::vector<LL> r;
  if( auto * q = dynamic_cast<MQ::InputBase *>( &in ) )
  {
    r.push_back( static_cast<LL>( q->size() ) );
    while( !q->empty() and take-- != 0 ) { r.push_back( p.cd->get( q->front() ) ); q->pop(); }
  }
  else if( auto * b = dynamic_cast<DB::InputBase *>( &in ) ) { r.push_back( b->changed() ? 1 : 0 ); r.push_back( p.cd->get( b->data() ) ); b->resetChanged(); }
  else if( auto * s = dynamic_cast<SD::InputBase *>( &in ) ) { r.push_back( p.cd->get( s->data() ) ); }
  else r.push_back( h::cBad );
  return r;
}
static void doSend( PPort const & p, CommunicationProtocolBase::Output & out, std::string const & op, LL v )
{
  if( op == "enq" ) dynamic_cast<MQ::OutputBase &>( out ).enqueue( mkval( p, v ) );
  else if( op == "set" )
  {
    if( auto * b = dynamic_cast<DB::OutputBase *>( &out ) ) p.cd->set( b->data(), v );
    else p.cd->set( dynamic_cast<SD::OutputBase &>( out ).data(), v );
  }
  else if( op == "swap" ) dynamic_cast<DB::OutputBase &>( out ).swapBuffers( v != 0 );
  else { fprintf( stderr, "unknown send op %s\n", op.c_str() ); exit( 77 ); }
}

struct TAtom: public AtomicComponent
{
  int id;
  std::vector<APort *> a; std::vector<PPort *> p;
  std::vector<Send> todo; int take = -1; int throwMode = 0; bool probe = false;
  TAtom( char const * n, CompositeComponent * par, int i ): AtomicComponent( *ctx, n, par ), id( i ) {}
  static double at( APort const & q, std::size_t c, std::size_t t )
  {
    std::size_t st = q.p->channelStrideSamples();
    if( q.in ) return q.dbl ? static_cast<AudioInputT<double> &>( *q.p ).data()[c * st + t] : static_cast<AudioInputT<float> &>( *q.p ).data()[c * st + t];
    return q.dbl ? static_cast<AudioOutputT<double> &>( *q.p ).data()[c * st + t] : static_cast<AudioOutputT<float> &>( *q.p ).data()[c * st + t];
  }
  h::J snapshot( bool in )
  {
    std::vector<h::J> r;
    for( auto * q : a ) if( q->in == in )
    {
      std::vector<std::vector<LL>> chs;
      for( std::size_t c = 0; c < q->width; ++c ) { chs.emplace_back(); for( std::size_t t = 0; t < gPer; ++t ) chs.back().push_back( h::q( at( *q, c, t ) ) ); }
      r.push_back( h::J{ "[" + std::to_string( q->id ) + "," + h::J::a( chs ).s + "]" } );
    }
    return h::J::a( r );
  }
  void process() override
  {
    h::J const ins = snapshot( true );
    std::vector<std::vector<LL>> iv;
    for( auto * q : a ) if( q->in ) for( std::size_t c = 0; c < q->width; ++c ) { iv.emplace_back(); for( std::size_t t = 0; t < gPer; ++t ) { LL x = h::q( at( *q, c, t ) ); iv.back().push_back( x == h::cBad ? 0 : x ); } }
    int k = 0;
    LL const blk = static_cast<LL>( time().blockCount() );
    for( auto * q : a ) if( !q->in ) for( std::size_t c = 0; c < q->width; ++c, ++k )
      for( std::size_t t = 0; t < gPer; ++t )
      {
        LL s = id * 101 + k * 13 + blk * 57 + static_cast<LL>( t ) * 3 * ( k + 1 );
        for( std::size_t j = 0; j < iv.size(); ++j ) s += ( ( id * 31 + k * 17 + static_cast<LL>( j ) * 7 ) % 97 + 1 ) * iv[j][t];
        s = ( s % 1009 + 1009 ) % 1009;
        if( q->dbl ) static_cast<AudioOutputT<double> &>( *q->p ).data()[c * q->p->channelStrideSamples() + t] = static_cast<double>( s );
        else static_cast<AudioOutputT<float> &>( *q->p ).data()[c * q->p->channelStrideSamples() + t] = static_cast<float>( s );
      }
    h::J const ins2 = snapshot( true );
    std::vector<h::J> rc, sn;
    std::string r = h::guarded( [&] {
      for( auto * q : p ) if( q->in ) rc.push_back( h::J{ "[" + std::to_string( q->id ) + "," + h::J::a( doRecv( *q, q->pi->protocolInput(), take ) ).s + "]" } );
      for( auto const & s : todo )
      {
        PPort & q = *pports.at( s.port );
        doSend( q, q.po->protocolOutput(), s.op, s.v );
        sn.push_back( h::J{ "[" + std::to_string( s.port ) + "," + h::esc( s.op ) + "," + std::to_string( s.v ) + "]" } );
      }
    } );
    todo.clear();
    bool held = true;
    if( probe )
    {
      auto & m = flow->parameterExchangeMutex();
      held = std::async( std::launch::async, [&m] { bool g = m.try_lock(); if( g ) m.unlock(); return !g; } ).get();
    }
    h::Ev( "exec" ).k( "a", id ).k( "ins", ins ).k( "same", ins.s == ins2.s ).k( "outs", snapshot( false ) ).k( "rc", rc ).k( "sn", sn ).k( "r", r )
      .k( "bc", blk ).k( "smp", static_cast<LL>( time().sampleCount() ) ).k( "lk", held ).k( "take", take ).k( "thr", throwMode != 0 ).k( "inb", inBlock ).done();
    int tm = throwMode; throwMode = 0;
    if( tm == 1 ) throw std::runtime_error( "component failure" );
    if( tm == 2 ) status( StatusMessage::Error, "component failure" );
    if( tm == 3 ) throw std::logic_error( "component failure" );
  }
};
struct TComp: public CompositeComponent
{
  TComp( char const * n, CompositeComponent * par ): CompositeComponent( *ctx, n, par ) {}
};
struct CNode { int id; std::string name; bool comp; std::unique_ptr<TComp> c; std::unique_ptr<TAtom> a; Component & base() { if( comp ) return *c; return *a; } };
static std::map<int, std::unique_ptr<CNode>> comps;
static bool destroyForward = false;

static void reset()
{
  flow.reset();
  // ports before their components, components in either order
  if( destroyForward ) { while( !comps.empty() ) { int id = comps.begin()->first; for( auto it = aports.begin(); it != aports.end(); ) if( it->second->comp == id ) it = aports.erase( it ); else ++it;
      for( auto it = pports.begin(); it != pports.end(); ) if( it->second->comp == id ) it = pports.erase( it ); else ++it; comps.erase( comps.begin() ); } }
  aports.clear(); pports.clear();
  while( !comps.empty() ) comps.erase( std::prev( comps.end() ) );
  ctx.reset(); destroyForward = false;
}

static LL sample( LL seed, std::size_t c, std::size_t t ) { LL x = seed * 7919 + static_cast<LL>( c ) * 104729 + static_cast<LL>( t ) * 1299709; return ( ( x % 1009 ) + 1009 ) % 1009; }

static void exec( h::Args const & a )
{
  std::string const & op = a.op();
  if( op == "top" ) // top gPer : followed by comp 1
  {
    gPer = a.i( 1 ); ctx.reset( new SignalFlowContext( gPer, 48000 ) );
    if( a.size() > 2 ) destroyForward = a.i( 2 ) != 0;
    h::Ev( "top" ).k( "per", a.i( 1 ) ).done();
  }
  else if( op == "comp" ) // comp id parent C|A name
  {
    auto n = std::make_unique<CNode>();
    n->id = a.i( 1 ); n->comp = a.s( 3 ) == "C"; n->name = a.s( 4 );
    CompositeComponent * par = a.i( 2 ) == 0 ? nullptr : comps.at( a.i( 2 ) )->c.get();
    if( n->comp ) n->c.reset( new TComp( n->name.c_str(), par ) ); else n->a.reset( new TAtom( n->name.c_str(), par, n->id ) );
    comps[n->id] = std::move( n );
    h::Ev( "comp" ).k( "id", a.i( 1 ) ).k( "par", a.i( 2 ) ).k( "comp", a.s( 3 ) == "C" ).done();
  }
  else if( op == "aport" ) // aport id comp in|out width float|double
  {
    auto p = std::make_unique<APort>();
    p->id = a.i( 1 ); p->comp = a.i( 2 ); p->in = a.s( 3 ) == "in"; p->width = a.i( 4 ); p->dbl = a.s( 5 ) == "double";
    p->name = "a" + std::to_string( p->id );
    CNode & n = *comps.at( p->comp );
    if( p->in and p->dbl ) p->p.reset( new AudioInputT<double>( p->name.c_str(), n.base(), p->width ) );
    else if( p->in ) p->p.reset( new AudioInputT<float>( p->name.c_str(), n.base(), p->width ) );
    else if( p->dbl ) p->p.reset( new AudioOutputT<double>( p->name.c_str(), n.base(), p->width ) );
    else p->p.reset( new AudioOutputT<float>( p->name.c_str(), n.base(), p->width ) );
    if( !n.comp ) n.a->a.push_back( p.get() );
    h::Ev( "aport" ).k( "id", p->id ).k( "c", p->comp ).k( "in", p->in ).k( "w", static_cast<LL>( p->width ) ).k( "ty", a.s( 5 ) ).done();
    aports[p->id] = std::move( p );
  }
  else if( op == "pport" ) // pport id comp in|out proto type
  {
    auto p = std::make_unique<PPort>();
    p->id = a.i( 1 ); p->comp = a.i( 2 ); p->in = a.s( 3 ) == "in"; p->proto = a.s( 4 ); p->type = a.s( 5 ); p->name = "p" + std::to_string( p->id );
    p->cd = &pcodec( p->type );
    CNode & n = *comps.at( p->comp );
    if( p->in ) p->pi.reset( new PolymorphicParameterInput( p->name.c_str(), n.base(), p->cd->type, kindType( p->proto ), *p->cd->config ) );
    else p->po.reset( new PolymorphicParameterOutput( p->name.c_str(), n.base(), p->cd->type, kindType( p->proto ), *p->cd->config ) );
    if( !n.comp ) n.a->p.push_back( p.get() );
    h::Ev( "pport" ).k( "id", p->id ).k( "c", p->comp ).k( "in", p->in ).k( "pr", p->proto ).k( "ty", p->type ).done();
    pports[p->id] = std::move( p );
  }
  else if( op == "aconn" ) // aconn lvl variant(n|r|w) sp sc rp rc
  {
    CompositeComponent & c = *comps.at( a.i( 1 ) )->c;
    std::string var = a.s( 2 );
    int sp = a.i( 3 ), rp = a.i( 5 );
    std::vector<int> sc = a.il( 4 ), rc = a.il( 6 );
    auto cl = []( std::vector<int> const & v ) { return ChannelList( v.begin(), v.end() ); };
    // a name lookup only reaches the composite itself and its children: the name of any other port is looked up in vain
    auto nm = [&]( int p ) -> std::pair<std::string, std::string> { auto it = aports.find( p ); if( it == aports.end() ) return { "nosuch", "port" };
      CNode & n = *comps.at( it->second->comp ); return { &n.base() == &c ? ( p % 2 ? "this" : "" ) : n.name, it->second->name }; };
    std::string r = h::guarded( [&] {
      if( var == "n" ) { auto s = nm( sp ), q = nm( rp ); c.audioConnection( s.first.c_str(), s.second.c_str(), cl( sc ), q.first.c_str(), q.second.c_str(), cl( rc ) ); }
      else if( var == "r" ) c.audioConnection( *aports.at( sp )->p, cl( sc ), *aports.at( rp )->p, cl( rc ) );
      else
      {
        sc.clear(); rc.clear();
        for( std::size_t i = 0; i < aports.at( sp )->width; ++i ) sc.push_back( i );
        for( std::size_t i = 0; i < aports.at( rp )->width; ++i ) rc.push_back( i );
        c.audioConnection( *aports.at( sp )->p, *aports.at( rp )->p );
      }
    } );
    h::Ev( "aconn" ).k( "lvl", a.i( 1 ) ).k( "sp", aports.count( sp ) ? sp : 0 ).k( "sc", sc ).k( "rp", aports.count( rp ) ? rp : 0 ).k( "rc", rc ).k( "r", r ).done();
  }
  else if( op == "pconn" ) // pconn lvl variant(n|r) s r
  {
    CompositeComponent & c = *comps.at( a.i( 1 ) )->c;
    int s = a.i( 3 ), q = a.i( 4 );
    auto nm = [&]( int p ) -> std::pair<std::string, std::string> { auto it = pports.find( p ); if( it == pports.end() ) return { "nosuch", "port" };
      CNode & n = *comps.at( it->second->comp ); return { &n.base() == &c ? ( p % 2 ? "this" : "" ) : n.name, it->second->name }; };
    std::string r = h::guarded( [&] {
      if( a.s( 2 ) == "n" ) { auto x = nm( s ), y = nm( q ); c.parameterConnection( x.first.c_str(), x.second.c_str(), y.first.c_str(), y.second.c_str() ); }
      else c.parameterConnection( pports.at( s )->base(), pports.at( q )->base() );
    } );
    h::Ev( "pconn" ).k( "lvl", a.i( 1 ) ).k( "s", pports.count( s ) ? s : 0 ).k( "q", pports.count( q ) ? q : 0 ).k( "r", r ).done();
  }
  else if( op == "build" )
  {
    flow.reset();
    std::vector<h::J> offs; LL nc = 0, np = 0, nr = 0, ns = 0;
    std::string r = h::guarded( [&] { flow.reset( new rrl::AudioSignalFlow( comps.at( 1 )->base() ) ); } );
    std::string r2 = "";
    if( flow ) r2 = h::guarded( [&] {
      nc = flow->numberOfCaptureChannels(); np = flow->numberOfPlaybackChannels();
      nr = flow->numberExternalParameterReceivePorts(); ns = flow->numberExternalParameterSendPorts();
      for( auto & e : aports ) if( e.second->comp == 1 )
      {
        std::size_t ix = e.second->in ? flow->audioCapturePortIndex( e.second->name.c_str() ) : flow->audioPlaybackPortIndex( e.second->name.c_str() );
        LL off = e.second->in ? flow->audioCapturePortOffset( ix ) : flow->audioPlaybackPortOffset( ix );
        LL w = e.second->in ? flow->audioCapturePortWidth( ix ) : flow->audioPlaybackPortWidth( ix );
        std::string n = e.second->in ? flow->audioCapturePortName( ix ) : flow->audioPlaybackPortName( ix );
        offs.push_back( h::J::a( std::vector<LL>{ e.first, off, n == e.second->name ? w : -1 } ) );
      }
    } );
    h::Ev( "build" ).k( "r", r ).k( "r2", r2 ).k( "offs", offs ).k( "nc", nc ).k( "np", np ).k( "nr", nr ).k( "ns", ns ).done();
  }
  else if( op == "unbuild" ) { flow.reset(); h::Ev( "unbuild" ).done(); }
  else if( op == "psend" ) { PPort & p = *pports.at( a.i( 1 ) ); comps.at( p.comp )->a->todo.push_back( Send{ p.id, a.s( 2 ), a.i( 3 ) } ); }
  else if( op == "take" ) comps.at( a.i( 1 ) )->a->take = a.i( 2 );
  else if( op == "throw" ) comps.at( a.i( 1 ) )->a->throwMode = a.i( 2 );
  else if( op == "probe" ) comps.at( a.i( 1 ) )->a->probe = a.i( 2 ) != 0;
  else if( !flow ) return; // everything below needs a built flow
  else if( op == "xs" or op == "xr" ) // external parameter exchange: xs port op v / xr port take
  {
    PPort & p = *pports.at( a.i( 1 ) );
    bool pol = p.comp == 1;
    std::vector<LL> got; std::string sop = op == "xs" ? a.s( 2 ) : "";
    std::string r = h::guarded( [&] {
      std::unique_lock<rrl::AudioSignalFlow::ParameterExchangeMutexType> lk( flow->parameterExchangeMutex() );
      if( op == "xs" ) doSend( p, flow->externalParameterReceivePort( p.name.c_str() ), sop, a.i( 3 ) );
      else got = doRecv( p, flow->externalParameterSendPort( p.name.c_str() ), a.i( 2 ) );
    } );
    h::Ev( op ).k( "p", p.id ).k( "op", sop ).k( "v", op == "xs" ? a.i( 3 ) : 0 ).k( "got", got ).k( "take", op == "xr" ? a.i( 2 ) : 0 ).k( "ext", pol ).k( "r", r ).done();
  }
  else if( op == "xbad" ) // an external port that does not exist
  {
    std::string r1 = h::guarded( [&] { flow->externalParameterReceivePort( "nosuch" ); } ), r2 = h::guarded( [&] { flow->externalParameterSendPort( "nosuch" ); } );
    h::Ev( "xbad" ).k( "r1", r1 ).k( "r2", r2 ).done();
  }
  else if( op == "proc" ) // proc seed variant args..   p capStride playStride | s capCh capSmp playCh playSmp | f
  {
    std::size_t nc = flow->numberOfCaptureChannels(), np = flow->numberOfPlaybackChannels();
    std::string var = a.s( 2 );
    LL seed = a.i( 1 );
    std::vector<std::vector<LL>> in, out; bool clean = true;
    for( std::size_t c = 0; c < nc; ++c ) { in.emplace_back(); for( std::size_t t = 0; t < gPer; ++t ) in.back().push_back( sample( seed, c, t ) ); }
    float const canary = -7777.0f;
    h::Ev( "beg" ).k( "in", in ).done();
    std::string r; inBlock = true;
    if( var == "p" or var == "f" )
    {
      std::size_t cs = var == "p" ? a.i( 3 ) : 1, ps = var == "p" ? a.i( 4 ) : 1;
      std::vector<std::vector<float>> ib( nc, std::vector<float>( gPer * cs, canary ) ), ob( np, std::vector<float>( gPer * ps, canary ) );
      for( std::size_t c = 0; c < nc; ++c ) for( std::size_t t = 0; t < gPer; ++t ) ib[c][t * cs] = in[c][t];
      auto ib0 = ib;
      std::vector<float const *> ip( nc ); std::vector<float *> opn( np );
      // rows handed over in scattered memory order
      for( std::size_t c = 0; c < nc; ++c ) ip[c] = ib[c].data();
      for( std::size_t c = 0; c < np; ++c ) opn[c] = ob[c].data();
      bool st = true;
      r = h::guarded( [&] { if( var == "p" ) st = flow->process( ip.data(), opn.data(), cs, ps ); else rrl::AudioSignalFlow::processFunction( flow.get(), ip.data(), opn.data(), st ); } );
      if( r.empty() and !st ) r = "false";
      for( std::size_t c = 0; c < np; ++c ) { out.emplace_back(); for( std::size_t t = 0; t < gPer * ps; ++t ) { if( t % ps == 0 ) out.back().push_back( h::q( ob[c][t] ) ); else clean = clean and ob[c][t] == canary; } }
      clean = clean and ib == ib0;
    }
    else
    {
      std::size_t cc = a.i( 3 ), cs = a.i( 4 ), pc = a.i( 5 ), ps = a.i( 6 );
      std::vector<float> ib( nc ? ( nc - 1 ) * cc + ( gPer - 1 ) * cs + 1 : 0, canary ), ob( np ? ( np - 1 ) * pc + ( gPer - 1 ) * ps + 1 : 0, canary );
      for( std::size_t c = 0; c < nc; ++c ) for( std::size_t t = 0; t < gPer; ++t ) ib[c * cc + t * cs] = in[c][t];
      auto ib0 = ib;
      r = h::guarded( [&] { flow->process( ib.data(), cc, cs, ob.data(), pc, ps ); } );
      std::vector<char> used( ob.size(), 0 );
      for( std::size_t c = 0; c < np; ++c ) { out.emplace_back(); for( std::size_t t = 0; t < gPer; ++t ) { out.back().push_back( h::q( ob[c * pc + t * ps] ) ); used[c * pc + t * ps] = 1; } }
      for( std::size_t i = 0; i < ob.size(); ++i ) if( !used[i] ) clean = clean and ob[i] == canary;
      clean = clean and ib == ib0;
    }
    inBlock = false;
    bool freeLock = flow->parameterExchangeMutex().try_lock(); if( freeLock ) flow->parameterExchangeMutex().unlock();
    h::Ev( "blk" ).k( "r", r ).k( "out", out ).k( "clean", clean ).k( "lk", freeLock ).k( "bc", static_cast<LL>( comps.at( 1 )->base().time().blockCount() ) ).done();
  }
  else { fprintf( stderr, "unknown op %s\n", op.c_str() ); exit( 77 ); }
}

int main( int argc, char ** argv )
{
  pml::initialiseParameterLibrary();
  return h::run( argc, argv, reset, exec );
}
