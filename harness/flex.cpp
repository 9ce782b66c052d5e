// Drives FlexibleBufferWrapper around a flow whose component records what it receives and emits fresh values.
#include "h.hpp"
#include <libefl/initialise_library.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <librrl/flexible_buffer_wrapper.hpp>
#include <libvisr/atomic_component.hpp>
#include <libvisr/audio_input.hpp>
#include <libvisr/audio_output.hpp>
#include <libvisr/signal_flow_context.hpp>
using namespace visr;
using LL = long long;

static LL fresh = 0;
struct Rec : AtomicComponent
{
  AudioInput in; AudioOutput out;
  Rec( SignalFlowContext const & c, std::size_t ni, std::size_t no ) : AtomicComponent( c, "rec", nullptr ), in( "in", *this, ni ), out( "out", *this, no ) {}
  void process() override
  {
    std::vector<std::vector<LL>> a, b;
    for( std::size_t c = 0; c < in.width(); ++c ) { a.emplace_back(); for( std::size_t k = 0; k < period(); ++k ) a.back().push_back( h::q( in[c][k] ) ); }
    for( std::size_t c = 0; c < out.width(); ++c ) { b.emplace_back(); for( std::size_t k = 0; k < period(); ++k ) { ++fresh; out[c][k] = static_cast<float>( fresh ); b.back().push_back( fresh ); } }
    h::Ev( "flow" ).k( "in", a ).k( "out", b ).done();
  }
};
static std::unique_ptr<Rec> comp;
static std::unique_ptr<rrl::AudioSignalFlow> flow;
static std::unique_ptr<rrl::FlexibleBufferWrapper> wrap;
static std::size_t ni, no;

static void exec( h::Args const & a )
{
  std::string const & op = a.op();
  if( op == "mk" ) // mk period ni no
  {
    ni = a.i( 2 ); no = a.i( 3 ); fresh = 100000;
    comp.reset( new Rec( SignalFlowContext( a.i( 1 ), 48000 ), ni, no ) );
    flow.reset( new rrl::AudioSignalFlow( *comp ) );
    wrap.reset( new rrl::FlexibleBufferWrapper( *flow ) );
    h::Ev( "mk" ).k( "per", a.i( 1 ) ).k( "ni", ni ).k( "no", no ).done();
  }
  else if( op == "call" ) // call n variant first [ics iss pcs pss]: sample c,k of the input is first + k*ni + c
  {
    std::size_t n = a.i( 1 ); LL v = a.i( 3 );
    auto inval = [&]( std::size_t c, std::size_t k ) { return v + static_cast<LL>( k * ni + c ); };
    std::vector<std::vector<LL>> iv, ov;
    for( std::size_t c = 0; c < ni; ++c ) { iv.emplace_back(); for( std::size_t k = 0; k < n; ++k ) iv.back().push_back( inval( c, k ) ); }
    h::Ev( "begin" ).k( "n", n ).k( "in", iv ).done();
    std::string r; bool pad = true;
    if( a.s( 2 ) == "p" )
    {
      std::vector<std::vector<float>> ib( ni, std::vector<float>( n + 1 ) ), ob( no, std::vector<float>( n + 1, -7.0f ) );
      std::vector<float const *> ip; std::vector<float *> opx;
      for( std::size_t c = 0; c < ni; ++c ) { for( std::size_t k = 0; k < n; ++k ) ib[c][k] = inval( c, k ); ib[c][n] = -9; ip.push_back( ib[c].data() ); }
      for( auto & x : ob ) opx.push_back( x.data() );
      r = h::guarded( [&] { wrap->process( ip.data(), opx.data(), n ); } );
      for( std::size_t c = 0; c < no; ++c ) { ov.emplace_back(); for( std::size_t k = 0; k < n; ++k ) ov.back().push_back( h::q( ob[c][k] ) ); pad = pad and ob[c][n] == -7.0f; }
    }
    else
    {
      std::size_t ics = a.i( 4 ), iss = a.i( 5 ), pcs = a.i( 6 ), pss = a.i( 7 );
      std::size_t is = ni * ics + n * iss + 1, os = no * pcs + n * pss + 1;
      std::vector<float> ib( is, -9.0f ), ob( os, -7.0f );
      std::vector<char> used( os, 0 );
      for( std::size_t c = 0; c < ni; ++c ) for( std::size_t k = 0; k < n; ++k ) ib[c * ics + k * iss] = inval( c, k );
      r = h::guarded( [&] { wrap->process( ib.data(), ics, iss, ob.data(), pcs, pss, n ); } );
      for( std::size_t c = 0; c < no; ++c ) { ov.emplace_back(); for( std::size_t k = 0; k < n; ++k ) { ov.back().push_back( h::q( ob[c * pcs + k * pss] ) ); used[c * pcs + k * pss] = 1; } }
      for( std::size_t k = 0; k < os; ++k ) pad = pad and ( used[k] or ob[k] == -7.0f );
    }
    h::Ev( "end" ).k( "out", ov ).k( "r", r ).k( "pad", pad ).done();
  }
  else { fprintf( stderr, "unknown op %s\n", op.c_str() ); exit( 77 ); }
}
int main( int argc, char ** argv ) { return h::run( argc, argv, [] { wrap.reset(); flow.reset(); comp.reset(); }, exec ); }
