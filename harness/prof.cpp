// Runtime profiler of a signal flow; the library's clock is replaced by a virtual one that only the components advance.
#define VISR_RRL_RUNTIME_SYSTEM_PROFILING 1
#include "h.hpp"
#include <atomic>
#include <chrono>
#include <thread>
#include <librrl/audio_signal_flow.hpp>
#include <librrl/runtime_profiler.hpp>
#include <libvisr/atomic_component.hpp>
#include <libvisr/audio_input.hpp>
#include <libvisr/audio_output.hpp>
#include <libvisr/composite_component.hpp>
#include <libvisr/signal_flow_context.hpp>
using namespace visr; using LL = long long; using Vec = std::vector<LL>; using Mat = std::vector<Vec>;
static std::atomic<LL> gNow{ 1000000000 }; // nanoseconds
static LL const cUnit = 1953125;           // 1/512 s
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point( duration( gNow.load() ) ); }
steady_clock::time_point steady_clock::now() noexcept { return time_point( duration( gNow.load() ) ); }
} } }
static Vec gDur; static int gFail = -1; static int gCount = 0;
struct Add : AtomicComponent
{
  AudioInput in; AudioOutput out; int ix;
  Add( SignalFlowContext const & c, char const * n, CompositeComponent * p ) : AtomicComponent( c, n, p ), in( "in", *this, 1 ), out( "out", *this, 1 ), ix( gCount++ ) {}
  void process() override { gNow += gDur.at( ix ) * cUnit; if( gFail == ix ) throw std::runtime_error( "fail" ); for( std::size_t k = 0; k < period(); ++k ) out[0][k] = in[0][k] + SampleType( ix + 1 ); }
};
struct Sub : CompositeComponent
{
  AudioInput in; AudioOutput out; std::vector<std::unique_ptr<Component>> kids;
  Sub( SignalFlowContext const & c, std::string const & n, CompositeComponent * p, Vec const & items ) : CompositeComponent( c, n.c_str(), p ), in( "in", *this, 1 ), out( "out", *this, 1 )
  {
    AudioPortBase * last = &in;
    for( std::size_t k = 0; k < items.size(); ++k )
    {
      if( items[k] == 0 ) { auto * a = new Add( c, ( "c" + std::to_string( k ) ).c_str(), this ); kids.emplace_back( a ); audioConnection( *last, a->in ); last = &a->out; }
      else { auto * a = new Sub( c, "s" + std::to_string( k ), this, Vec( items[k], 0 ) ); kids.emplace_back( a ); audioConnection( *last, a->in ); last = &a->out; }
    }
    audioConnection( *last, out );
  }
};
static std::unique_ptr<SignalFlowContext> ctx; static std::unique_ptr<Sub> top; static std::unique_ptr<rrl::AudioSignalFlow> flow;
static void reset() { flow.reset(); top.reset(); ctx.reset(); gFail = -1; }
static LL t( double v, double s ) { return std::isnan( v ) ? -1 : h::qr( v, s ); }
static Vec vec( efl::BasicVector<double> const & v, double s ) { Vec r; for( std::size_t k = 0; k < v.size(); ++k ) r.push_back( t( v[k], s ) ); return r; }
static std::string block( LL x, Vec & y )
{
  std::vector<float> i( 4 ), o( 4, -777.0f ); for( int k = 0; k < 4; ++k ) i[k] = float( x + k );
  float const * ip = i.data(); float * op = o.data(); auto r = h::guarded( [&] { flow->process( &ip, &op ); } ); for( float v : o ) y.push_back( h::q( v ) ); return r;
}
static void exec( h::Args const & a )
{
  std::string const & op = a.op();
  if( op == "mk" )
  {
    reset(); gCount = 0; Vec it; for( int v : a.il( 1 ) ) it.push_back( v );
    ctx.reset( new SignalFlowContext( 4, 48000 ) ); top.reset( new Sub( *ctx, "top", nullptr, it ) ); flow.reset( new rrl::AudioSignalFlow( *top ) );
    h::Ev( "mk" ).k( "items", it ).done(); return;
  }
  if( not flow ) return;
  bool thrown = false; std::string kind; std::size_t n = gCount; 
  auto tried = [&]( std::function<void()> f ) -> std::string { try { f(); return ""; } catch( std::logic_error const & e ) { return dynamic_cast<std::invalid_argument const *>( &e ) ? "inv" : "logic"; } catch( std::exception const & ) { return "ex"; } };
  (void)thrown;
  using V = efl::BasicVector<double>;
  if( op == "en" ) { bool p = flow->enableRuntimeProfiling( a.i( 1 ) ); h::Ev( "en" ).k( "cap", a.i( 1 ) ).k( "p", p ).k( "now", flow->runtimeProfilingEnabled() ).done(); }
  else if( op == "dis" ) { bool p = flow->disableRuntimeProfiling(); h::Ev( "dis" ).k( "p", p ).k( "now", flow->runtimeProfilingEnabled() ).done(); }
  else if( op == "blk" )
  {
    Vec d; for( int v : a.il( 1 ) ) d.push_back( v ); d.resize( n, 1 ); gDur = d; gFail = int( a.i( 2 ) ); if( gFail >= int( n ) ) gFail = -1; Vec y; LL x = a.i( 3 ); auto r = block( x, y ); gNow += 7 * cUnit;
    h::Ev( "blk" ).k( "d", d ).k( "f", gFail ).k( "x", x ).k( "y", y ).k( "r", r ).done(); gFail = -1;
  }
  else if( op == "getm" ) { std::size_t c = 0; Mat m; auto r = tried( [&] { auto const & b = flow->runtimeProfiler().getMeasurements( c ); for( std::size_t i = 0; i < b.numberOfRows(); ++i ) { Vec w; for( std::size_t j = 0; j < b.numberOfColumns(); ++j ) w.push_back( t( b( i, j ), 512 ) ); m.push_back( w ); } } ); h::Ev( "getm" ).k( "c", c ).k( "m", m ).k( "r", r ).done(); }
  else if( op == "mean" ) { V v( n + a.i( 1 ), a.i( 2 ) ); v.fillValue( 3 ); auto r = tried( [&] { flow->runtimeProfiler().getMean( v ); } ); h::Ev( "mean" ).k( "bad", a.i( 1 ) ).k( "v", vec( v, 512e3 ) ).k( "r", r ).done(); }
  else if( op == "var" ) { V v( n + a.i( 1 ), a.i( 2 ) ); v.fillValue( 3 ); auto r = tried( [&] { flow->runtimeProfiler().getVariance( v ); } ); h::Ev( "var" ).k( "bad", a.i( 1 ) ).k( "v", vec( v, 512 * 512e3 ) ).k( "r", r ).done(); }
  else if( op == "stats" ) { V v( n + a.i( 1 ), a.i( 3 ) ), w( n + a.i( 2 ), a.i( 3 ) ); std::size_t c = 0; auto r = tried( [&] { auto & p = flow->runtimeProfiler(); c = a.i( 4 ) ? p.getAndResetStatistics( v, w ) : p.getStatistics( v, w ); } ); h::Ev( "stats" ).k( "bad", a.i( 1 ) or a.i( 2 ) ).k( "v", vec( v, 512e3 ) ).k( "w", vec( w, 512 * 512e3 ) ).k( "c", c ).k( "z", a.i( 4 ) ).k( "r", r ).done(); }
  else if( op == "rstm" ) { auto r = tried( [&] { flow->runtimeProfiler().resetMeasurements(); } ); h::Ev( "rstm" ).k( "r", r ).done(); }
  else if( op == "rsts" ) { auto r = tried( [&] { flow->runtimeProfiler().resetStatistics(); } ); h::Ev( "rsts" ).k( "r", r ).done(); }
  else if( op == "cnt" )
  {
    LL ms = 0, ss = 0, bs = 0, nc = 0; std::vector<std::string> names; std::string w;
    auto r = tried( [&] { auto const & p = const_cast<rrl::AudioSignalFlow const &>( *flow ).runtimeProfiler(); ms = p.measurementSamples(); ss = p.statisticsSamples(); bs = p.measurementBufferSize(); nc = p.numberOfComponents(); names = p.getComponentNames(); std::stringstream os; p.writeComponentNames( os, "|" ); w = os.str(); std::stringstream o2; p.writeComponentNames( o2 ); if( names.size() == 2 and o2.str() != names[0] + "," + names[1] ) w = "default separator"; } );
    std::string j; for( std::size_t k = 0; k < names.size(); ++k ) j += ( k ? "|" : "" ) + names[k];
    h::Ev( "cnt" ).k( "ms", ms ).k( "ss", ss ).k( "bs", bs ).k( "nc", nc ).k( "names", names ).k( "w", w == j ).k( "r", r ).done();
  }
  else if( op == "conc" ) // conc blocks: process in one thread while this one collects measurements and statistics
  {
    if( not flow->runtimeProfilingEnabled() ) return;
    auto & p = flow->runtimeProfiler(); int nb = int( a.i( 1 ) ); gDur = Vec( n, 3 ); std::atomic<bool> done{ false }; std::atomic<int> bad{ 0 };
    std::size_t c0; p.getMeasurements( c0 ); p.resetStatistics();
    std::thread th( [&] { for( int k = 0; k < nb; ++k ) { Vec y; if( not block( k, y ).empty() ) ++bad; } done = true; } );
    LL total = 0, stats = 0; V v( n, 0 ), w( n, 0 );
    auto collect = [&] {
      std::size_t c = 0; auto const & m = p.getMeasurements( c ); total += c; std::size_t rows = std::min( c, m.numberOfRows() );
      for( std::size_t i = 0; i < rows; ++i ) for( std::size_t j = 0; j < n; ++j ) if( t( m( i, j ), 512 ) != 3 ) ++bad;
      std::size_t s = p.getAndResetStatistics( v, w ); stats += s; if( s ) for( std::size_t j = 0; j < n; ++j ) if( t( v[j], 512 ) != 3 ) ++bad;
    };
    while( not done ) collect();
    th.join(); collect();
    h::Ev( "conc" ).k( "n", nb ).k( "total", total ).k( "stats", stats ).k( "bad", bad.load() ).done();
  }
  else { fprintf( stderr, "unknown op %s\n", op.c_str() ); exit( 77 ); }
}
int main( int argc, char ** argv ) { return h::run( argc, argv, reset, exec ); }
