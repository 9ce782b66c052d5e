// Drives the three parameter exchange protocols through their public interface.
#include "codec.hpp"
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/message_queue_protocol.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <libvisr/communication_protocol_factory.hpp>
#include <libvisr/parameter_factory.hpp>
using namespace visr;
using namespace visr::pml;
using MQ = MessageQueueProtocol;
using DB = DoubleBufferingProtocol;
using SD = SharedDataProtocol;

static std::string kind;
static codec::Codec const * cd;
static std::vector<std::unique_ptr<CommunicationProtocolBase>> prot;
static std::vector<std::unique_ptr<CommunicationProtocolBase::Input>> ins;   // receivers, last one has the wrong kind
static std::vector<std::unique_ptr<CommunicationProtocolBase::Output>> outs; // senders, last one has the wrong kind

static CommunicationProtocolType kindType( std::string const & k ) { return k == "MQ" ? MQ::staticType() : k == "DB" ? DB::staticType() : SD::staticType(); }
static std::unique_ptr<CommunicationProtocolBase::Input> mkIn( std::string const & k ) { return CommunicationProtocolFactory::createInput( kindType( k ) ); }
static std::unique_ptr<CommunicationProtocolBase::Output> mkOut( std::string const & k ) { return CommunicationProtocolFactory::createOutput( kindType( k ) ); }
static int idx( CommunicationProtocolBase const * p )
{
  if( !p ) return 0;
  for( std::size_t i = 0; i < prot.size(); ++i ) if( prot[i].get() == p ) return static_cast<int>( i + 1 );
  return -1;
}
static void finish( h::Ev & e )
{
  std::vector<int> a, b;
  for( auto const & i : ins ) a.push_back( idx( static_cast<CommunicationProtocolBase::Input const &>( *i ).getProtocol() ) );
  for( auto const & o : outs ) b.push_back( idx( static_cast<CommunicationProtocolBase::Output const &>( *o ).getProtocol() ) );
  e.k( "ins", a ).k( "outs", b ).done();
}
static std::unique_ptr<ParameterBase> val( long long v )
{
  auto p = ParameterFactory::create( cd->type, *cd->config );
  cd->set( *p, v );
  return p;
}

static void exec( h::Args const & a )
{
  std::string const & op = a.op();
  if( op == "mk" ) // mk kind ptype nprot nin nout
  {
    kind = a.s( 1 );
    cd = &codec::get( a.s( 2 ) );
    auto kt = kindType( kind );
    for( int i = 0; i < a.i( 3 ); ++i ) prot.push_back( CommunicationProtocolFactory::createProtocol( kt, cd->type, *cd->config ) );
    for( int i = 0; i < a.i( 4 ); ++i ) ins.push_back( mkIn( kind ) );
    for( int i = 0; i < a.i( 5 ); ++i ) outs.push_back( mkOut( kind ) );
    ins.push_back( mkIn( kind == "MQ" ? "DB" : kind == "DB" ? "SD" : "MQ" ) );
    outs.push_back( mkOut( kind == "MQ" ? "DB" : kind == "DB" ? "SD" : "MQ" ) );
    bool typesOk = true;
    for( auto const & p : prot ) typesOk = typesOk and p->protocolType() == kt and p->parameterType() == cd->type;
    h::Ev e( "mk" ); e.k( "kind", kind ).k( "np", a.i( 3 ) ).k( "ni", a.i( 4 ) ).k( "no", a.i( 5 ) ).k( "types", typesOk ); finish( e );
    return;
  }
  if( op == "cin" or op == "cout" )
  {
    std::string r = h::guarded( [&] { if( op == "cin" ) prot.at( a.i( 1 ) - 1 )->connectInput( ins.at( a.i( 2 ) - 1 ).get() ); else prot.at( a.i( 1 ) - 1 )->connectOutput( outs.at( a.i( 2 ) - 1 ).get() ); } );
    h::Ev e( op ); e.k( "p", a.i( 1 ) ).k( "x", a.i( 2 ) ).k( "r", r ); finish( e );
    return;
  }
  if( op == "din" or op == "dout" )
  {
    bool r = op == "din" ? prot.at( a.i( 1 ) - 1 )->disconnectInput( ins.at( a.i( 2 ) - 1 ).get() ) : prot.at( a.i( 1 ) - 1 )->disconnectOutput( outs.at( a.i( 2 ) - 1 ).get() );
    h::Ev e( op ); e.k( "p", a.i( 1 ) ).k( "x", a.i( 2 ) ).k( "r", r ); finish( e );
    return;
  }
  // operations through a port: op port [value]
  bool const isOut = op == "enq" or op == "osize" or op == "set" or op == "get" or op == "swap";
  std::size_t n = a.i( 1 ) - 1;
  h::Ev e( op );
  e.k( "x", a.i( 1 ) );
  if( isOut ? n + 1 >= outs.size() : n + 1 >= ins.size() ) return;
  if( isOut ? !outs[n]->getProtocol() : !ins[n]->getProtocol() )
  {
    e.k( "r", std::string( "unconn" ) ); finish( e ); return;
  }
  auto * qi = isOut ? nullptr : dynamic_cast<MQ::InputBase *>( ins[n].get() );
  auto * qo = isOut ? dynamic_cast<MQ::OutputBase *>( outs[n].get() ) : nullptr;
  auto * bi = isOut ? nullptr : dynamic_cast<DB::InputBase *>( ins[n].get() );
  auto * bo = isOut ? dynamic_cast<DB::OutputBase *>( outs[n].get() ) : nullptr;
  auto * si = isOut ? nullptr : dynamic_cast<SD::InputBase *>( ins[n].get() );
  auto * so = isOut ? dynamic_cast<SD::OutputBase *>( outs[n].get() ) : nullptr;
  long long v = a.size() > 2 ? a.i( 2 ) : 0, res = 0;
  bool flag = false;
  std::string r = h::guarded( [&] {
    if( op == "enq" )
    {
      // enqueue a clone and spoil the original afterwards: the queue has to keep its own content
      auto p = val( v ); auto c = p->clone();
      qo->enqueue( std::move( c ) );
      cd->set( *p, v + 17 );
    }
    else if( op == "osize" ) { res = qo->size(); flag = qo->empty(); }
    else if( op == "isize" ) { res = qi->size(); flag = qi->empty(); }
    else if( op == "front" ) res = cd->get( qi->front() );
    else if( op == "pop" ) qi->pop();
    else if( op == "clear" ) qi->clear();
    else if( op == "set" ) { if( bo ) cd->set( bo->data(), v ); else cd->set( so->data(), v ); }
    else if( op == "get" ) { if( bo ) res = cd->get( bo->data() ); else res = cd->get( so->data() ); }
    else if( op == "swap" ) bo->swapBuffers( v != 0 );
    else if( op == "read" ) { if( bi ) res = cd->get( bi->data() ); else res = cd->get( si->data() ); }
    else if( op == "changed" ) flag = bi->changed();
    else if( op == "reset" ) bi->resetChanged();
    else { fprintf( stderr, "unknown op %s\n", op.c_str() ); exit( 77 ); }
  } );
  e.k( "v", v ).k( "r", r ).k( "res", res ).k( "flag", flag );
  finish( e );
}

int main( int argc, char ** argv )
{
  pml::initialiseParameterLibrary();
  return h::run( argc, argv, [] { ins.clear(); outs.clear(); prot.clear(); }, exec );
}
