// Time-frequency transform, its inverse, and both in sequence.
#include "drive.hpp"
#include <libpml/time_frequency_parameter.hpp>
#include <librcl/time_frequency_inverse_transform.hpp>
#include <librcl/time_frequency_transform.hpp>
#include <libvisr/audio_input.hpp>
#include <libvisr/audio_output.hpp>
#include <libvisr/composite_component.hpp>
using namespace visr; using L = std::vector<long long>; using LL = std::vector<L>; using Tf = pml::TimeFrequencyParameter<float>; using F = rcl::TimeFrequencyTransform; using I = rcl::TimeFrequencyInverseTransform;
static std::vector<std::string> split( std::string const & s, char c ) { std::vector<std::string> r; std::stringstream ss( s ); std::string w; while( std::getline( ss, w, c ) ) r.push_back( w ); return r; }
static L ints( std::string const & s ) { h::Args a; a.t = { s }; auto v = a.il( 0 ); return L( v.begin(), v.end() ); }
static std::unique_ptr<F> fwd( SignalFlowContext const & c, CompositeComponent * p, std::size_t n, std::size_t dft, std::string const & w, std::size_t hop, char const * impl, int nf )
{
  if( w[0] == 'h' ) return std::make_unique<F>( c, "fwd", p, n, dft, std::size_t( std::stoul( w.substr( 1 ) ) ), hop, impl, F::Normalisation( nf ) );
  L v = ints( w ); efl::BasicVector<float> b( v.size(), 0 ); for( std::size_t i = 0; i < v.size(); ++i ) b[i] = float( v[i] / 8.0 ); return std::make_unique<F>( c, "fwd", p, n, dft, b, hop, impl, F::Normalisation( nf ) );
}
struct Pair : CompositeComponent
{
  AudioInput in; AudioOutput out; std::unique_ptr<F> f; I i;
  Pair( SignalFlowContext const & c, std::size_t n, std::size_t dft, std::string const & w, std::size_t hop, char const * impl, int nf, int ni )
  : CompositeComponent( c, "pair", nullptr ), in( "in", *this, n ), out( "out", *this, n ), f( fwd( c, this, n, dft, w, hop, impl, nf ) ), i( c, "inv", this, n, dft, hop, impl, I::Normalisation( ni ) )
  { audioConnection( in, f->audioPort( "in" ) ); parameterConnection( f->parameterPort( "out" ), i.parameterPort( "in" ) ); audioConnection( i.audioPort( "out" ), out ); }
};
struct Cur { std::unique_ptr<SignalFlowContext> ctx; std::unique_ptr<Component> c; std::unique_ptr<h::Drive> d; std::string kind; std::size_t n, per, dft; };
static std::unique_ptr<Cur> cur;
static void exec( h::Args const & a )
{
  std::string const & op = a.op();
  if( op == "mk" ) // kind channels dft window hop norm inverse-norm period implementation
  {
    cur.reset(); auto c = std::make_unique<Cur>(); c->kind = a.s( 1 ); c->n = std::size_t( a.i( 2 ) ); c->dft = std::size_t( a.i( 3 ) ); c->per = std::size_t( a.i( 8 ) ); std::size_t hop = std::size_t( a.i( 5 ) ); std::string w = a.s( 4 ), impl = a.s( 9 );
    c->ctx = std::make_unique<SignalFlowContext>( c->per, 48000 );
    std::string e = h::guarded( [&] {
      if( c->kind == "fwd" ) c->c = fwd( *c->ctx, nullptr, c->n, c->dft, w, hop, impl.c_str(), a.i( 6 ) );
      else if( c->kind == "inv" ) c->c = std::make_unique<I>( *c->ctx, "inv", nullptr, c->n, c->dft, hop, impl.c_str(), I::Normalisation( a.i( 7 ) ) );
      else c->c = std::make_unique<Pair>( *c->ctx, c->n, c->dft, w, hop, impl.c_str(), a.i( 6 ), a.i( 7 ) );
      c->d = std::make_unique<h::Drive>( *c->c, c->per ); } );
    bool hann = w[0] == 'h'; L v; if( !hann ) for( auto x : ints( w ) ) v.push_back( 1250 * x );
    h::Ev( "mk" ).k( "kind", c->kind ).k( "n", a.i( 2 ) ).k( "dft", a.i( 3 ) ).k( "hann", hann ).k( "wl", hann ? std::stoll( w.substr( 1 ) ) : (long long)v.size() ).k( "w", v ).k( "hop", a.i( 5 ) ).k( "nf", a.i( 6 ) ).k( "ni", a.i( 7 ) ).k( "per", a.i( 8 ) ).k( "known", impl == "default" or impl == "kissfft" ).k( "r", e ).done();
    if( e.empty() ) cur = std::move( c );
  }
  else if( op == "x" ) // samples per channel
  {
    if( !cur or cur->kind == "inv" ) return; LL x; h::Mat in( cur->n ), o; auto s = split( a.s( 1 ), ';' ); s.resize( cur->n, "0" );
    for( std::size_t c = 0; c < cur->n; ++c ) { x.push_back( ints( s[c] ) ); x[c].resize( cur->per ); in[c].assign( x[c].begin(), x[c].end() ); }
    std::string r = cur->d->block( in, o ); LL y;
    if( cur->kind == "fwd" )
    {
      auto const & p = dynamic_cast<Tf const &>( dynamic_cast<pml::SharedDataProtocol::InputBase &>( cur->d->flow.externalParameterSendPort( "out" ) ).data() );
      for( std::size_t f = 0; f < p.numberOfFrames(); ++f ) for( std::size_t c = 0; c < p.numberOfChannels(); ++c ) { L w; for( std::size_t b = 0; b < p.numberOfDftBins(); ++b ) { auto v = p.channelSlice( f, c )[b]; w.push_back( h::qr( v.real(), 1000 ) ); w.push_back( h::qr( v.imag(), 1000 ) ); } y.push_back( w ); }
    }
    else for( auto const & v : o ) { L w; for( double k : v ) w.push_back( h::qr( k, 1000 ) ); y.push_back( w ); }
    h::Ev( "x" ).k( "x", x ).k( "r", r ).k( "y", y ).done();
  }
  else if( op == "f" ) // bins (real and imaginary part) of frames x channels
  {
    if( !cur or cur->kind != "inv" ) return; auto & p = cur->d->sd<Tf>( "in" ); std::size_t nb = cur->dft / 2 + 1; LL x; auto s = split( a.s( 1 ), ';' ); s.resize( p.numberOfFrames() * cur->n, "0" ); h::Mat in, o;
    for( std::size_t k = 0; k < s.size(); ++k ) { L w = ints( s[k] ); w.resize( 2 * nb ); w[1] = w[2 * nb - 1] = 0; x.push_back( w ); for( std::size_t b = 0; b < nb; ++b ) p.channelSlice( k / cur->n, k % cur->n )[b] = std::complex<float>( float( w[2 * b] ), float( w[2 * b + 1] ) ); }
    std::string r = cur->d->block( in, o ); LL y; for( auto const & v : o ) { L w; for( double k : v ) w.push_back( h::qr( k, 1000 ) ); y.push_back( w ); }
    h::Ev( "f" ).k( "x", x ).k( "r", r ).k( "y", y ).done();
  }
  else { fprintf( stderr, "unknown operation %s\n", op.c_str() ); exit( 77 ); }
}
int main( int c, char ** v ) { pml::initialiseParameterLibrary(); return h::run( c, v, [] { cur.reset(); }, exec ); }
