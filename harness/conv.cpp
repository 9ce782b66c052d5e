// Convolvers (rbbl) and filter matrix components (rcl): routings, filters, interpolants and blocks of integer samples.
#include "drive.hpp"
#include <libpml/filter_routing_parameter.hpp>
#include <libpml/indexed_value_parameter.hpp>
#include <libpml/interpolation_parameter.hpp>
#include <librbbl/crossfading_convolver_uniform.hpp>
#include <librbbl/interpolating_convolver_uniform.hpp>
#include <librbbl/multichannel_convolver_uniform.hpp>
#include <librcl/crossfading_fir_filter_matrix.hpp>
#include <librcl/fir_filter_matrix.hpp>
#include <librcl/interpolating_fir_filter_matrix.hpp>
#include <random>
using namespace visr;
using LL = long long; using Vec = std::vector<LL>; using Mat = std::vector<Vec>;
struct Entry { LL i, o, f, g; };
struct Ip { LL id; Vec ix, w; };
static h::J js( Entry const & e ) { return h::J{ "{\"i\":" + std::to_string( e.i ) + ",\"o\":" + std::to_string( e.o ) + ",\"f\":" + std::to_string( e.f ) + ",\"g\":" + std::to_string( e.g ) + "}" }; }
static h::J js( std::vector<Entry> const & v ) { std::vector<h::J> r; for( auto const & e : v ) r.push_back( js( e ) ); return h::J::a( r ); }
static h::J js( Ip const & e ) { return h::J{ "{\"id\":" + std::to_string( e.id ) + ",\"ix\":" + h::J::conv( e.ix ).s + ",\"w\":" + h::J::conv( e.w ).s + "}" }; }
static h::J js( std::vector<Ip> const & v ) { std::vector<h::J> r; for( auto const & e : v ) r.push_back( js( e ) ); return h::J::a( r ); }
static std::string kind, type; static LL ni, no, B, L, maxR, maxF, T, nint, align; static double scale; static std::minstd_rand rnd;
static rbbl::FilterRouting fr( Entry const & e ) { return rbbl::FilterRouting( e.i, e.o, e.f, e.g / 4.0 ); }
static rbbl::FilterRoutingList frl( std::vector<Entry> const & v ) { rbbl::FilterRoutingList r; for( auto const & e : v ) r.addRouting( e.i, e.o, e.f, e.g / 4.0 ); return r; }
static rbbl::InterpolationParameter ipp( Ip const & e ) { std::vector<std::size_t> x( e.ix.begin(), e.ix.end() ); std::vector<float> w; for( LL v : e.w ) w.push_back( v / 4.0f ); return rbbl::InterpolationParameter( e.id, x, w ); }
template<class S> static efl::BasicMatrix<S> matrix( Mat const & m, std::size_t al )
{ std::size_t cols = 0; for( auto const & v : m ) cols = std::max( cols, v.size() ); efl::BasicMatrix<S> r( m.size(), cols, al ); for( std::size_t i = 0; i < m.size(); ++i ) for( std::size_t k = 0; k < m[i].size(); ++k ) r( i, k ) = S( m[i][k] ); return r; }
struct Dev
{
  virtual ~Dev() = default; virtual void setf( LL idx, Vec const & ir, bool st ) = 0; virtual void initf( Mat const & m ) = 0; virtual void clrf() = 0;
  virtual void setr( Entry const & e, bool one ) = 0; virtual bool rmr( LL i, LL o ) = 0; virtual void initr( std::vector<Entry> const & v ) = 0; virtual void addrs( std::vector<Entry> const & v ) { for( auto const & e : v ) setr( e, false ); }
  virtual void clrr() = 0; virtual void ipol( Ip const & p, bool st ) {} virtual void ipols( std::vector<Ip> const & p, bool st ) {} virtual void clri() {}
  virtual LL n() { return -1; } virtual bool dim() { return true; } virtual std::string block( Mat const & x, Mat & y ) = 0;
};
static std::unique_ptr<Dev> dev;
template<class S> static std::unique_ptr<rbbl::MultichannelConvolverUniform<S>> make( rbbl::MultichannelConvolverUniform<S> *, std::vector<Entry> const & r, std::vector<Ip> const &, efl::BasicMatrix<S> const & f, char const * fft )
{ return std::make_unique<rbbl::MultichannelConvolverUniform<S>>( ni, no, B, L, maxR, maxF, frl( r ), f, align, fft ); }
template<class S> static std::unique_ptr<rbbl::CrossfadingConvolverUniform<S>> make( rbbl::CrossfadingConvolverUniform<S> *, std::vector<Entry> const & r, std::vector<Ip> const &, efl::BasicMatrix<S> const & f, char const * fft )
{ return std::make_unique<rbbl::CrossfadingConvolverUniform<S>>( ni, no, B, L, maxR, maxF, T, frl( r ), f, align, fft ); }
template<class S> static std::unique_ptr<rbbl::InterpolatingConvolverUniform<S>> make( rbbl::InterpolatingConvolverUniform<S> *, std::vector<Entry> const & r, std::vector<Ip> const & p, efl::BasicMatrix<S> const & f, char const * fft )
{ rbbl::InterpolationParameterSet s; for( auto const & e : p ) s.insert( ipp( e ) ); return std::make_unique<rbbl::InterpolatingConvolverUniform<S>>( ni, no, B, L, maxR, maxF, nint, T, frl( r ), s, f, align, fft ); }
template<class S, template<class> class C> struct Direct : Dev
{
  using Conv = C<S>; std::unique_ptr<Conv> c;
  static constexpr bool ip = std::is_same_v<Conv, rbbl::InterpolatingConvolverUniform<S>>, xf = std::is_same_v<Conv, rbbl::CrossfadingConvolverUniform<S>>;
  Direct( std::vector<Entry> const & r, std::vector<Ip> const & p, Mat const & f, char const * fft ) : c( make( (Conv *)nullptr, r, p, matrix<S>( f, align ), fft ) ) {}
  LL n() override { return c->numberOfRoutingPoints(); }
  bool dim() override { return LL( c->numberOfInputs() ) == ni and LL( c->numberOfOutputs() ) == no and LL( c->blockLength() ) == B and LL( c->maxFilterLength() ) == L and LL( c->maxNumberOfRoutingPoints() ) == maxR and LL( c->maxNumberOfFilterEntries() ) == maxF; }
  void setf( LL idx, Vec const & ir, bool st ) override
  {
    efl::AlignedArray<S> v( ir.size() + 1, align ); for( std::size_t k = 0; k < ir.size(); ++k ) v[k] = S( ir[k] );
    if constexpr( xf )
    {
      if( ir.size() % 2 and LL( ir.size() ) <= L ) // the same by way of the transformed filter
      { efl::AlignedArray<std::complex<S>> t( c->dftFilterRepresentationSize(), c->complexAlignment() ); c->transformImpulseResponse( v.data(), ir.size(), t.data(), align ); c->setTransformedFilter( t.data(), idx, st, c->complexAlignment() ); }
      else c->setImpulseResponse( v.data(), ir.size(), idx, st, align );
    }
    else c->setImpulseResponse( v.data(), ir.size(), idx, align );
  }
  void initf( Mat const & m ) override { c->initFilters( matrix<S>( m, align ) ); }
  void clrf() override { c->clearFilters(); }
  void setr( Entry const & e, bool one ) override { if( one ) c->setRoutingEntry( fr( e ) ); else c->setRoutingEntry( e.i, e.o, e.f, S( e.g / 4.0 ) ); }
  bool rmr( LL i, LL o ) override { return c->removeRoutingEntry( i, o ); }
  void initr( std::vector<Entry> const & v ) override { c->initRoutingTable( frl( v ) ); }
  void clrr() override { c->clearRoutingTable(); }
  void ipol( Ip const & p, bool st ) override { if constexpr( ip ) c->setInterpolant( ipp( p ), st ); }
  void clri() override { if constexpr( ip ) c->clearInterpolants(); }
  std::string block( Mat const & x, Mat & y ) override
  {
    efl::BasicMatrix<S> in = matrix<S>( x, align ); std::size_t os = ( ( B + 5 ) / 16 + 1 ) * 16; efl::AlignedArray<S> out( ( no + 1 ) * os, align ? 16 : 0 ); for( std::size_t k = 0; k < out.size(); ++k ) out[k] = S( -777 );
    std::string r = h::guarded( [&] { c->process( in.data(), in.stride(), out.data(), os, align ); } );
    if( r.empty() ) for( LL o = 0; o < no; ++o ) { Vec v; for( LL k = 0; k < B; ++k ) v.push_back( h::q( out[o * os + k], scale, 0.3 ) ); y.push_back( v ); for( LL k = B; k < LL( os ); ++k ) if( out[o * os + k] != S( -777 ) ) r = "overrun"; }
    return r;
  }
};
template<class C> struct Comp : Dev
{
  SignalFlowContext ctx; std::unique_ptr<C> c; std::unique_ptr<h::Drive> d;
  Comp( std::vector<Entry> const & r, std::vector<Ip> const & p, Mat const & f, char const * fft ) : ctx( B, 48000 )
  {
    using P = typename C::ControlPortConfig; auto m = matrix<float>( f, cVectorAlignmentSamples );
    if constexpr( std::is_same_v<C, rcl::FirFilterMatrix> ) c.reset( new C( ctx, "f", nullptr, ni, no, L, maxF, maxR, m, frl( r ), P::All, fft ) );
    else if constexpr( std::is_same_v<C, rcl::CrossfadingFirFilterMatrix> ) c.reset( new C( ctx, "f", nullptr, ni, no, L, maxF, maxR, T, m, frl( r ), P::All, fft ) );
    else { rbbl::InterpolationParameterSet s; for( auto const & e : p ) s.insert( ipp( e ) ); c.reset( new C( ctx, "f", nullptr, ni, no, L, maxF, maxR, nint, T, m, s, frl( r ), P::All | P::Interpolants, fft ) ); }
    d.reset( new h::Drive( *c, B ) );
  }
  void setf( LL idx, Vec const & ir, bool ) override { std::vector<float> v( ir.begin(), ir.end() ); v.push_back( 0 ); c->setFilter( idx, v.data(), ir.size() ); }
  void initf( Mat const & m ) override { c->setFilters( matrix<float>( m, cVectorAlignmentSamples ) ); }
  void clrf() override { c->clearFilters(); }
  void setr( Entry const & e, bool one ) override { if( one ) c->addRouting( fr( e ) ); else c->addRouting( e.i, e.o, e.f, e.g / 4.0f ); }
  bool rmr( LL i, LL o ) override { return c->removeRouting( i, o ); }
  void initr( std::vector<Entry> const & v ) override { c->setRoutings( frl( v ) ); }
  void addrs( std::vector<Entry> const & v ) override { c->addRoutings( frl( v ) ); }
  void clrr() override { c->clearRoutings(); }
  void ipol( Ip const & p, bool st ) override { if constexpr( std::is_same_v<C, rcl::InterpolatingFirFilterMatrix> ) { if( p.id % 2 ) c->setInterpolant( ipp( p ), st ); else { std::vector<std::size_t> x( p.ix.begin(), p.ix.end() ); std::vector<float> w; for( LL v : p.w ) w.push_back( v / 4.0f ); c->setInterpolant( p.id, x, w, st ); } } }
  std::string block( Mat const & x, Mat & y ) override
  {
    h::Mat in, out; for( auto const & v : x ) in.emplace_back( v.begin(), v.end() );
    std::string r = d->block( in, out ); if( r.empty() ) for( auto const & v : out ) { Vec w; for( double z : v ) w.push_back( h::q( z, scale, 0.3 ) ); y.push_back( w ); }
    return r;
  }
};
static void reset() { dev.reset(); }
static Vec vec( std::string const & s ) { Vec r; if( s == "-" ) return r; std::stringstream ss( s ); std::string p; while( std::getline( ss, p, ',' ) ) r.push_back( std::stoll( p ) ); return r; }
static std::vector<std::string> split( std::string const & s, char c ) { std::vector<std::string> r; if( s == "-" ) return r; std::stringstream ss( s ); std::string p; while( std::getline( ss, p, c ) ) r.push_back( p ); return r; }
static Mat mats( std::string const & s ) { Mat r; for( auto const & p : split( s, '/' ) ) r.push_back( vec( p == "e" ? "-" : p ) ); return r; }
static Entry entry( std::string const & s ) { Vec v = vec( s ); return Entry{ v.at( 0 ), v.at( 1 ), v.at( 2 ), v.at( 3 ) }; }
static std::vector<Entry> entries( std::string const & s ) { std::vector<Entry> r; for( auto const & p : split( s, '/' ) ) r.push_back( entry( p ) ); return r; }
static Ip interp( std::string const & s ) { auto v = split( s, ':' ); return Ip{ std::stoll( v.at( 0 ) ), vec( v.at( 1 ) ), vec( v.at( 2 ) ) }; }
static std::vector<Ip> interps( std::string const & s ) { std::vector<Ip> r; for( auto const & p : split( s, '/' ) ) r.push_back( interp( p ) ); return r; }
static void exec( h::Args const & a )
{
  std::string const & op = a.op();
  if( op == "mk" ) // mk kind type ni no B L maxR maxF T nint align fft seed filters routings interpolants
  {
    dev.reset(); kind = a.s( 1 ); type = a.s( 2 ); ni = a.i( 3 ); no = a.i( 4 ); B = a.i( 5 ); L = a.i( 6 ); maxR = a.i( 7 ); maxF = a.i( 8 ); T = a.i( 9 ); nint = a.i( 10 ); align = a.i( 11 ); std::string fft = a.s( 12 ); rnd.seed( unsigned( a.i( 13 ) ) );
    Mat f = mats( a.s( 14 ) ); auto r = entries( a.s( 15 ) ); auto p = interps( a.s( 16 ) );
    scale = 4.0 * ( kind == "ip" ? 4 : 1 ) * ( kind == "mc" or T == 0 ? 1 : T ); if( kind == "mc" ) T = 0;
    std::string res = h::guarded( [&] {
      char const * x = fft.c_str();
      if( type == "c" ) { if( kind == "mc" ) dev.reset( new Comp<rcl::FirFilterMatrix>( r, p, f, x ) ); else if( kind == "xf" ) dev.reset( new Comp<rcl::CrossfadingFirFilterMatrix>( r, p, f, x ) ); else dev.reset( new Comp<rcl::InterpolatingFirFilterMatrix>( r, p, f, x ) ); }
      else if( type == "f" ) { if( kind == "mc" ) dev.reset( new Direct<float, rbbl::MultichannelConvolverUniform>( r, p, f, x ) ); else if( kind == "xf" ) dev.reset( new Direct<float, rbbl::CrossfadingConvolverUniform>( r, p, f, x ) ); else dev.reset( new Direct<float, rbbl::InterpolatingConvolverUniform>( r, p, f, x ) ); }
      else { if( kind == "mc" ) dev.reset( new Direct<double, rbbl::MultichannelConvolverUniform>( r, p, f, x ) ); else if( kind == "xf" ) dev.reset( new Direct<double, rbbl::CrossfadingConvolverUniform>( r, p, f, x ) ); else dev.reset( new Direct<double, rbbl::InterpolatingConvolverUniform>( r, p, f, x ) ); }
    } );
    h::J c{ "{\"kind\":\"" + kind + "\",\"ni\":" + std::to_string( ni ) + ",\"no\":" + std::to_string( no ) + ",\"b\":" + std::to_string( B ) + ",\"L\":" + std::to_string( L ) + ",\"maxR\":" + std::to_string( maxR ) + ",\"maxF\":" + std::to_string( maxF ) + ",\"T\":" + std::to_string( T ) + ",\"nint\":" + std::to_string( nint ) + "}" };
    if( not res.empty() ) dev.reset();
    h::Ev( "mk" ).k( "cfg", c ).k( "flt", f ).k( "rt", js( r ) ).k( "ip", js( p ) ).k( "n", dev ? dev->n() : -1 ).k( "dim", dev ? dev->dim() : true ).k( "r", res ).done();
    return;
  }
  if( not dev ) return;
  if( op == "setf" ) { Vec ir = vec( a.s( 2 ) ); bool st = a.i( 3 ); auto r = h::guarded( [&] { dev->setf( a.i( 1 ), ir, st ); } ); h::Ev( "setf" ).k( "idx", a.i( 1 ) ).k( "ir", ir ).k( "st", st ).k( "r", r ).k( "n", dev->n() ).done(); }
  else if( op == "initf" ) { Mat m = mats( a.s( 1 ) ); auto r = h::guarded( [&] { dev->initf( m ); } ); h::Ev( "initf" ).k( "irs", m ).k( "r", r ).k( "n", dev->n() ).done(); }
  else if( op == "clrf" ) { auto r = h::guarded( [&] { dev->clrf(); } ); h::Ev( "clrf" ).k( "r", r ).k( "n", dev->n() ).done(); }
  else if( op == "setr" ) { Entry e = entry( a.s( 1 ) ); auto r = h::guarded( [&] { dev->setr( e, a.i( 2 ) ); } ); h::Ev( "setr" ).k( "en", js( e ) ).k( "r", r ).k( "n", dev->n() ).done(); }
  else if( op == "rmr" ) { bool r = dev->rmr( a.i( 1 ), a.i( 2 ) ); h::Ev( "rmr" ).k( "i", a.i( 1 ) ).k( "o", a.i( 2 ) ).k( "r", r ).k( "n", dev->n() ).done(); }
  else if( op == "initr" ) { auto v = entries( a.s( 1 ) ); auto r = h::guarded( [&] { dev->initr( v ); } ); h::Ev( "initr" ).k( "es", js( v ) ).k( "r", r ).k( "n", dev->n() ).done(); }
  else if( op == "addrs" ) { auto v = entries( a.s( 1 ) ); auto r = h::guarded( [&] { dev->addrs( v ); } ); h::Ev( "addrs" ).k( "es", js( v ) ).k( "r", r ).k( "n", dev->n() ).done(); }
  else if( op == "clrr" ) { auto r = h::guarded( [&] { dev->clrr(); } ); h::Ev( "clrr" ).k( "r", r ).k( "n", dev->n() ).done(); }
  else if( op == "ipol" ) { Ip p = interp( a.s( 1 ) ); bool st = a.i( 2 ); auto r = h::guarded( [&] { dev->ipol( p, st ); } ); h::Ev( "ipol" ).k( "id", p.id ).k( "ix", p.ix ).k( "w", p.w ).k( "st", st ).k( "r", r ).k( "n", dev->n() ).done(); }
  else if( op == "clri" ) { auto r = h::guarded( [&] { dev->clri(); } ); h::Ev( "clri" ).k( "r", r ).k( "n", dev->n() ).done(); }
  else if( op == "msgf" )
  {
    Vec ir = vec( a.s( 2 ) ); auto & d = kind == "mc" ? *static_cast<Comp<rcl::FirFilterMatrix> &>( *dev ).d : kind == "xf" ? *static_cast<Comp<rcl::CrossfadingFirFilterMatrix> &>( *dev ).d : *static_cast<Comp<rcl::InterpolatingFirFilterMatrix> &>( *dev ).d;
    d.enqueue( "filterInput", std::make_unique<pml::IndexedValueParameter<std::size_t, std::vector<float>>>( a.i( 1 ), std::vector<float>( ir.begin(), ir.end() ) ) );
    h::Ev( "msgf" ).k( "idx", a.i( 1 ) ).k( "ir", ir ).done();
  }
  else if( op == "msgr" ) { Entry e = entry( a.s( 1 ) ); static_cast<Comp<rcl::FirFilterMatrix> &>( *dev ).d->enqueue( "singleRouting", std::make_unique<pml::FilterRoutingParameter>( e.i, e.o, e.f, e.g / 4.0 ) ); h::Ev( "msgr" ).k( "en", js( e ) ).done(); }
  else if( op == "msga" ) { auto v = entries( a.s( 1 ) ); auto & d = *static_cast<Comp<rcl::FirFilterMatrix> &>( *dev ).d; auto & rl = d.db<pml::FilterRoutingListParameter>( "allRoutings" ); rl = pml::FilterRoutingListParameter(); for( auto const & e : v ) rl.addRouting( e.i, e.o, e.f, e.g / 4.0 ); d.swap( "allRoutings" ); h::Ev( "msga" ).k( "es", js( v ) ).done(); }
  else if( op == "msgi" )
  {
    Ip p = interp( a.s( 1 ) ); std::vector<std::size_t> x( p.ix.begin(), p.ix.end() ); std::vector<float> w; for( LL v : p.w ) w.push_back( v / 4.0f );
    static_cast<Comp<rcl::InterpolatingFirFilterMatrix> &>( *dev ).d->enqueue( "interpolantInput", std::make_unique<pml::InterpolationParameter>( p.id, x, w ) );
    h::Ev( "msgi" ).k( "id", p.id ).k( "ix", p.ix ).k( "w", p.w ).done();
  }
  else if( op == "blk" )
  {
    Mat x( ni ), y; for( auto & v : x ) for( LL k = 0; k < B; ++k ) v.push_back( LL( rnd() % 11 ) - 5 );
    std::string r = dev->block( x, y ); h::Ev( "blk" ).k( "x", x ).k( "y", y ).k( "r", r ).done();
  }
  else { fprintf( stderr, "unknown op %s\n", op.c_str() ); exit( 77 ); }
}
int main( int argc, char ** argv ) { pml::initialiseParameterLibrary(); return h::run( argc, argv, reset, exec ); }
