// Biquad filter bank component, the biquad library function, the FIR filter, and text forms of biquad coefficients.
#include "drive.hpp"
#include <libefl/filter_functions.hpp>
#include <libpml/biquad_parameter.hpp>
#include <librbbl/fir.hpp>
#include <librcl/biquad_iir_filter.hpp>
#include <random>
using namespace visr;
using LL = long long; using Vec = std::vector<LL>; using Mat = std::vector<Vec>; using Cube = std::vector<Mat>;
static std::vector<std::string> split( std::string const & s, char c ) { std::vector<std::string> r; if( s == "-" ) return r; std::stringstream ss( s ); std::string p; while( std::getline( ss, p, c ) ) r.push_back( p ); return r; }
static Vec vec( std::string const & s ) { Vec r; for( auto const & p : split( s, ',' ) ) r.push_back( std::stoll( p ) ); return r; }
static Mat mat( std::string const & s, char c ) { Mat r; for( auto const & p : split( s, c ) ) r.push_back( vec( p ) ); return r; }
static Cube cube( std::string const & s ) { Cube r; for( auto const & p : split( s, '/' ) ) r.push_back( p == "e" ? Mat() : mat( p, ';' ) ); return r; }
template<class T> static rbbl::BiquadCoefficient<T> bq( Vec const & v ) { return rbbl::BiquadCoefficient<T>( T( v.at( 0 ) ), T( v.at( 1 ) ), T( v.at( 2 ) ), T( v.at( 3 ) ), T( v.at( 4 ) ) ); }
static rbbl::BiquadCoefficientList<float> bl( Mat const & m ) { rbbl::BiquadCoefficientList<float> r( m.size() ); for( std::size_t k = 0; k < m.size(); ++k ) r[k] = bq<float>( m[k] ); return r; }
template<class M> static M bm( Cube const & c ) { std::size_t s = c.empty() ? 0 : c[0].size(); M r( c.size(), s ); for( std::size_t i = 0; i < c.size(); ++i ) for( std::size_t k = 0; k < s; ++k ) r( i, k ) = bq<float>( c[i].at( k ) ); return r; }
struct Bank { SignalFlowContext ctx{ 16, 48000 }; std::unique_ptr<rcl::BiquadIirFilter> c; std::unique_ptr<h::Drive> d; };
static std::unique_ptr<Bank> bank; static std::unique_ptr<rbbl::FIR> fir; static int firN; static std::minstd_rand rnd;
struct Fn { virtual ~Fn() = default; virtual std::string run( Mat const & c, Vec const & x, bool inplace, int al, Vec & y ) = 0; };
template<class T> struct FnT : Fn
{
  std::vector<T> st; std::size_t s, ss, cs;
  FnT( std::size_t s_, std::size_t ss_, std::size_t cs_ ) : st( s_ * ss_ + 2, T( 0 ) ), s( s_ ), ss( ss_ ), cs( cs_ ) {}
  std::string run( Mat const & c, Vec const & x, bool inplace, int al, Vec & y ) override
  {
    std::vector<T> co( s * cs + 5, T( 77 ) ); for( std::size_t k = 0; k < s; ++k ) for( int j = 0; j < 5; ++j ) co[k * cs + j] = T( c.at( k ).at( j ) );
    efl::AlignedArray<T> in( x.size() + 1, 16 ), out( x.size() + 1, 16 ); for( std::size_t k = 0; k < x.size(); ++k ) in[k] = T( x[k] ); out[x.size()] = in[x.size()] = T( -777 );
    T * o = inplace ? in.data() : out.data();
    auto r = efl::iirFilterBiquadsSingleChannel<T>( in.data(), o, st.data(), co.data(), x.size(), s, ss, cs, al );
    for( std::size_t k = 0; k < x.size(); ++k ) y.push_back( h::q( o[k] ) );
    return r != efl::noError ? "ex" : o[x.size()] != T( -777 ) ? "overrun" : "";
  }
};
static std::unique_ptr<Fn> fn;
static void reset() { bank.reset(); fn.reset(); fir.reset(); }
static efl::BasicMatrix<float> fmat( Mat const & m ) { efl::BasicMatrix<float> r( m.size(), m.empty() ? 0 : m[0].size(), 0 ); for( std::size_t i = 0; i < m.size(); ++i ) for( std::size_t k = 0; k < m[i].size(); ++k ) r( i, k ) = m[i][k]; return r; }
static std::string jsonOf( Mat const & row )
{
  std::string s = "["; static char const * n[] = { "b0", "b1", "b2", "a1", "a2", "a0" };
  for( std::size_t k = 0; k < row.size(); ++k ) { s += k ? ",{" : "{"; for( int j = 0; j < 6; ++j ) if( j < 5 or row[k].at( 5 ) ) s += ( j ? ", \"" : "\"" ) + std::string( n[j] ) + "\": " + std::to_string( row[k][j] ) + ( j % 2 ? ".0" : "" ); s += "}"; }
  return s + "]";
}
template<class L> static Mat list( L const & l ) { Mat r; for( std::size_t k = 0; k < l.size(); ++k ) { Vec v; for( int j = 0; j < 5; ++j ) v.push_back( h::q( l[k][j], 4.0 ) ); r.push_back( v ); } return r; }
template<class T> static std::string text( std::string const & k, Cube const & rows, Cube & out )
{
  return h::guarded( [&] {
    if( k == "jm" )
    {
      std::string s = "["; for( std::size_t i = 0; i < rows.size(); ++i ) s += ( i ? "," : "" ) + jsonOf( rows[i] );
      auto m = rbbl::BiquadCoefficientMatrix<T>::fromJson( s + "]" ); for( std::size_t i = 0; i < m.numberOfFilters(); ++i ) out.push_back( list( m[i] ) );
    }
    else if( k == "xl" )
    {
      std::string s = "<filterSpec>"; static char const * n[] = { "b0", "b1", "b2", "a1", "a2", "a0" };
      for( auto const & v : rows[0] ) { s += "<biquad"; for( int j = 0; j < 6; ++j ) if( j < 5 or v[5] ) s += std::string( " " ) + n[j] + "=\"" + std::to_string( v[j] ) + "\""; s += "/>"; }
      out.push_back( list( rbbl::BiquadCoefficientList<T>::fromXml( s + "</filterSpec>" ) ) );
    }
    else
    {
      auto l = rbbl::BiquadCoefficientList<T>::fromJson( jsonOf( rows[0] ) );
      if( k == "rt" ) { std::string t; l.writeJson( t ); l = rbbl::BiquadCoefficientList<T>::fromJson( t ); }
      out.push_back( list( l ) );
    }
  } );
}
static void exec( h::Args const & a )
{
  std::string const & op = a.op();
  if( op == "mk" ) // mk ctor n sections control coefficients
  {
    reset(); std::string k = a.s( 1 ); std::size_t n = a.i( 2 ), s = a.i( 3 ); bool ctl = a.i( 4 ); Cube c = cube( a.s( 5 ) ); bank.reset( new Bank );
    std::string r = h::guarded( [&] {
      if( k == "def" ) bank->c.reset( new rcl::BiquadIirFilter( bank->ctx, "f", nullptr, n, s, ctl ) );
      else if( k == "one" ) bank->c.reset( new rcl::BiquadIirFilter( bank->ctx, "f", nullptr, n, s, bq<float>( c.at( 0 ).at( 0 ) ), ctl ) );
      else if( k == "list" ) bank->c.reset( new rcl::BiquadIirFilter( bank->ctx, "f", nullptr, n, s, bl( c.at( 0 ) ), ctl ) );
      else bank->c.reset( new rcl::BiquadIirFilter( bank->ctx, "f", nullptr, n, s, bm<rbbl::BiquadCoefficientMatrix<float>>( c ), ctl ) );
      bank->d.reset( new h::Drive( *bank->c, 16 ) );
    } );
    if( not r.empty() ) bank.reset();
    h::Ev( "mk" ).k( "ctor", k ).k( "n", n ).k( "s", s ).k( "c", c ).k( "r", r ).done();
  }
  else if( op == "setc" ) { if( not bank ) return; Vec c = vec( a.s( 3 ) ); auto r = h::guarded( [&] { bank->c->setCoefficients( a.i( 1 ), a.i( 2 ), bq<float>( c ) ); } ); h::Ev( "setc" ).k( "ch", a.i( 1 ) ).k( "k", a.i( 2 ) ).k( "c", c ).k( "r", r ).done(); }
  else if( op == "setl" ) { if( not bank ) return; Mat c = mat( a.s( 2 ), ';' ); auto r = h::guarded( [&] { bank->c->setChannelCoefficients( a.i( 1 ), bl( c ) ); } ); h::Ev( "setl" ).k( "ch", a.i( 1 ) ).k( "c", c ).k( "r", r ).done(); }
  else if( op == "setm" ) { if( not bank ) return; Cube c = cube( a.s( 1 ) ); auto r = h::guarded( [&] { bank->c->setCoefficientMatrix( bm<rbbl::BiquadCoefficientMatrix<float>>( c ) ); } ); h::Ev( "setm" ).k( "c", c ).k( "r", r ).done(); }
  else if( op == "msg" ) { if( not bank ) return; Cube c = cube( a.s( 1 ) ); auto & p = bank->d->db<pml::BiquadParameterMatrix<float>>( "eqInput" ); for( std::size_t i = 0; i < c.size(); ++i ) if( i % 2 ) p.setFilter( i, bl( c[i] ) ); else for( std::size_t k = 0; k < c[i].size(); ++k ) p( i, k ) = bq<float>( c[i][k] ); bank->d->swap( "eqInput" ); h::Ev( "msg" ).k( "c", c ).done(); }
  else if( op == "blk" )
  {
    if( not bank ) return;
    Mat x = mat( a.s( 1 ), '/' ), y; h::Mat in, out; for( auto const & v : x ) in.emplace_back( v.begin(), v.end() );
    std::string r = bank->d->block( in, out ); for( auto const & v : out ) { Vec w; for( double z : v ) w.push_back( h::q( z ) ); y.push_back( w ); }
    h::Ev( "blk" ).k( "x", x ).k( "y", y ).k( "r", r ).done();
  }
  else if( op == "fmk" ) { reset(); std::size_t s = a.i( 2 ), ss = a.i( 3 ), cs = a.i( 4 ); if( a.s( 1 ) == "f" ) fn.reset( new FnT<float>( s, ss, cs ) ); else fn.reset( new FnT<double>( s, ss, cs ) ); h::Ev( "fmk" ).k( "s", s ).done(); }
  else if( op == "fblk" ) { if( not fn ) return; Mat c = mat( a.s( 1 ), ';' ); Vec x = vec( a.s( 2 ) ), y; auto r = fn->run( c, x, a.i( 3 ), a.i( 4 ), y ); h::Ev( "fblk" ).k( "c", c ).k( "x", x ).k( "y", y ).k( "r", r ).done(); }
  else if( op == "rmk" ) // rmk n len up seed taps order
  {
    reset(); fir.reset( new rbbl::FIR ); firN = a.i( 1 ); rnd.seed( a.i( 4 ) ); Mat ir = mat( a.s( 5 ), '/' ); int u = 0;
    if( a.i( 6 ) ) { fir->setNumFIRs( firN ); fir->setNumFIRsamples( a.i( 2 ) ); } else { fir->setNumFIRsamples( a.i( 2 ) ); fir->setNumFIRs( firN ); }
    u = fir->setUpsampleRatio( a.i( 3 ) ); fir->loadFIRs( fmat( ir ) );
    h::Ev( "rmk" ).k( "n", firN ).k( "len", a.i( 2 ) ).k( "up", a.i( 3 ) ).k( "ir", ir ).k( "r", u != 0 ).done();
  }
  else if( op == "rld" ) { if( not fir ) return; Mat ir = mat( a.s( 1 ), '/' ); auto r = h::guarded( [&] { fir->loadFIRs( fmat( ir ) ); } ); h::Ev( "rld" ).k( "ir", ir ).k( "r", r ).done(); }
  else if( op == "rblk" )
  {
    if( not fir ) return;
    Vec x; for( int k = 0; k < 64; ++k ) x.push_back( LL( rnd() % 11 ) - 5 );
    std::vector<float> in( x.begin(), x.end() ); std::vector<std::vector<float>> out( firN, std::vector<float>( 64, -777 ) ); std::vector<float *> o; for( auto & v : out ) o.push_back( v.data() );
    fir->process( in.data(), o.data() ); Mat y; for( auto const & v : out ) { Vec w; for( float z : v ) w.push_back( h::q( z ) ); y.push_back( w ); }
    h::Ev( "rblk" ).k( "x", x ).k( "y", y ).done();
  }
  else if( op == "text" ) { Cube rows = cube( a.s( 3 ) ), out; auto r = a.s( 2 ) == "f" ? text<float>( a.s( 1 ), rows, out ) : text<double>( a.s( 1 ), rows, out ); h::Ev( "text" ).k( "k", a.s( 1 ) ).k( "rows", rows ).k( "out", out ).k( "r", r ).done(); }
  else { fprintf( stderr, "unknown op %s\n", op.c_str() ); exit( 77 ); }
}
int main( int argc, char ** argv ) { pml::initialiseParameterLibrary(); return h::run( argc, argv, reset, exec ); }
