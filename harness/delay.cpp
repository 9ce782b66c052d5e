#include "drive.hpp"
#include <libpml/matrix_parameter.hpp>
#include <libpml/vector_parameter.hpp>
#include <librbbl/circular_buffer.hpp>
#include <librbbl/fractional_delay_factory.hpp>
#include <librbbl/multichannel_delay_line.hpp>
#include <librcl/delay_matrix.hpp>
#include <librcl/delay_vector.hpp>
#include <random>
using namespace visr;
using LL = long long; using Vec = std::vector<LL>;
static const double F = 4096, V = 256; static const std::size_t FS = 32768;
static std::string kind; static std::size_t ni, no, B; static bool port;
static std::unique_ptr<rbbl::CircularBuffer<float>> cf; static std::unique_ptr<rbbl::CircularBuffer<double>> cd;
static std::unique_ptr<rbbl::MultichannelDelayLine<float>> mf; static std::unique_ptr<rbbl::MultichannelDelayLine<double>> md;
static std::unique_ptr<Component> comp; static std::unique_ptr<h::Drive> drive;
static std::vector<double> val, slope; static std::vector<int> left; static std::minstd_rand rnd;
// next n samples of every channel: seed 0 continues straight lines, otherwise small random integers
static std::vector<Vec> input( std::size_t n, bool lines )
{
  std::vector<Vec> r( ni );
  for( std::size_t c = 0; c < ni; ++c ) for( std::size_t k = 0; k < n; ++k )
  {
    if( lines )
    {
      if( left[c] == 0 or val[c] + slope[c] > 32 or val[c] + slope[c] < -32 ) { left[c] = 24 + int( rnd() % 20 ); slope[c] = double( LL( rnd() % 5 ) - 2 ); if( val[c] + slope[c] > 32 or val[c] + slope[c] < -32 ) slope[c] = -slope[c]; }
      --left[c]; val[c] += slope[c];
    }
    else { val[c] = double( LL( rnd() % 17 ) - 8 ); left[c] = 0; }
    r[c].push_back( LL( val[c] ) );
  }
  return r;
}
static void fresh( std::size_t n, LL seed ) { ni = n; rnd.seed( unsigned( seed ) ); val.assign( n, 0 ); slope.assign( n, 0 ); left.assign( n, 0 ); }
static void reset() { drive.reset(); comp.reset(); mf.reset(); md.reset(); cf.reset(); cd.reset(); kind.clear(); }
// ---- circular buffer
template<class T> static std::string cwrite( rbbl::CircularBuffer<T> & b, std::vector<Vec> const & data, std::size_t chans, std::size_t n, int mode )
{
  std::size_t stride = n + 3; std::vector<T> flat( ( chans + 1 ) * stride, T( -99 ) ); std::vector<T const *> ptr;
  auto at = [&]( std::size_t c, std::size_t k ) { return c < data.size() ? T( data[c][k] ) : T( 55 ); };
  for( std::size_t c = 0; c < chans; ++c ) { for( std::size_t k = 0; k < n; ++k ) flat[c * stride + k] = at( c, k ); ptr.push_back( &flat[c * stride] ); }
  return h::guarded( [&] {
    if( mode == 0 ) b.write( ptr.data(), chans, n );
    else if( mode == 1 ) b.write( flat.data(), stride, chans, n );
    else if( mode == 2 ) { efl::BasicMatrix<T> m( chans, n, 0 ); for( std::size_t c = 0; c < chans; ++c ) for( std::size_t k = 0; k < n; ++k ) m( c, k ) = at( c, k ); b.write( m ); }
    else if( mode == 3 ) { std::vector<T *> w( b.numberOfChannels() ); b.getWritePointers( w.data() ); for( std::size_t c = 0; c < chans; ++c ) for( std::size_t k = 0; k < n; ++k ) w[c][k] = at( c, k ); b.commitWrite( n ); }
    else { T * w = b.getFirstWritePointer(); for( std::size_t c = 0; c < chans; ++c ) for( std::size_t k = 0; k < n; ++k ) w[c * b.stride() + k] = at( c, k ); b.commitWrite( n ); }
  } );
}
template<class T> static void cread( rbbl::CircularBuffer<T> & b, Vec const & d, int mode ) // mode 0 common, 1 individual, 2 unchecked single
{
  std::vector<T const *> p( ni, nullptr ); std::vector<std::size_t> dd( d.begin(), d.end() ); std::vector<Vec> out;
  std::string r = h::guarded( [&] {
    if( mode == 0 ) b.getReadPointers( dd.at( 0 ), p.data() ); else if( mode == 1 ) b.getReadPointers( dd.data(), p.data() );
    else for( std::size_t c = 0; c < ni; ++c ) p[c] = b.getReadPointer( c, dd[c] );
  } );
  if( r.empty() ) for( std::size_t c = 0; c < ni; ++c ) { Vec v; for( LL k = 0; k < d[c]; ++k ) v.push_back( h::q( p[c][k], 1 ) ); out.push_back( v ); }
  h::Ev( "cr" ).k( "d", d ).k( "out", out ).k( "r", r ).done();
}
// ---- delay line
template<class T> static typename rbbl::MultichannelDelayLine<T>::MethodDelayPolicy pol( std::string const & s )
{ using P = typename rbbl::MultichannelDelayLine<T>::MethodDelayPolicy; return s == "add" ? P::Add : s == "limit" ? P::Limit : P::Reject; }
static std::string method( LL ord ) { return ord < 0 ? "nearestSample" : "lagrangeOrder" + std::to_string( ord ); }
template<class T> static void mmk( std::unique_ptr<rbbl::MultichannelDelayLine<T>> & m, std::size_t n, LL max, LL ord, std::string const & p, LL al )
{
  std::string r = h::guarded( [&] { m.reset( new rbbl::MultichannelDelayLine<T>( n, FS, B, T( max ) / T( FS ), method( ord ).c_str(), pol<T>( p ), al ) ); } );
  h::Ev( "mmk" ).k( "n", n ).k( "b", B ).k( "max", max ).k( "ord", ord < 0 ? 0 : ord ).k( "pol", p ).k( "r", r )
    .k( "md2", m ? h::qr( 2 * m->methodDelaySamples(), 1 ) : -1 ).k( "mds", m ? h::qr( 2 * double( m->methodDelaySeconds() ) * FS, 1 ) : -1 ).k( "nb", m ? LL( m->blockLength() ) : -1 ).k( "nn", m ? LL( m->numberOfChannels() ) : -1 ).done();
}
template<class T> static std::string mwrite( rbbl::MultichannelDelayLine<T> & m, std::vector<Vec> const & data, std::size_t chans )
{
  std::size_t stride = B + 2; std::vector<T> flat( ( chans + 1 ) * stride, T( -99 ) );
  for( std::size_t c = 0; c < chans and c < data.size(); ++c ) for( std::size_t k = 0; k < B; ++k ) flat[c * stride + k] = T( data[c][k] );
  return h::guarded( [&] { m.write( flat.data(), stride, chans, 0 ); } );
}
template<class T> static void minterp( rbbl::MultichannelDelayLine<T> & m, LL c, std::size_t n, double d0, double d1, double g0, double g1 )
{
  efl::AlignedArray<T> o( n + 8, 16 ); for( std::size_t k = 0; k < n + 8; ++k ) o[k] = T( -777 );
  std::string r = h::guarded( [&] { m.interpolate( o.data(), c, n, T( d0 / FS ), T( d1 / FS ), T( g0 ), T( g1 ) ); } );
  Vec out; if( r.empty() ) for( std::size_t k = 0; k < n; ++k ) out.push_back( h::qr( o[k], V ) );
  for( std::size_t k = n; k < n + 8; ++k ) if( o[k] != T( -777 ) ) r = "overrun";
  h::Ev( "mi" ).k( "c", c ).k( "n", n ).k( "d0", h::qr( d0, F ) ).k( "d1", h::qr( d1, F ) ).k( "g0", h::qr( g0, F ) ).k( "g1", h::qr( g1, F ) ).k( "out", out ).k( "r", r ).done();
}
static efl::BasicVector<float> vec( std::vector<double> const & v, double s ) { efl::BasicVector<float> r( v.size(), cVectorAlignmentSamples ); for( std::size_t i = 0; i < v.size(); ++i ) r[i] = float( v[i] / s ); return r; }
static efl::BasicMatrix<float> mat( std::vector<double> const & v, std::size_t rows, double s )
{ std::size_t cols = v.size() / rows; efl::BasicMatrix<float> r( rows, cols, cVectorAlignmentSamples ); for( std::size_t i = 0; i < rows; ++i ) for( std::size_t j = 0; j < cols; ++j ) r( i, j ) = float( v[i * cols + j] / s ); return r; }
static Vec sc( std::vector<double> const & v ) { Vec r; for( double x : v ) r.push_back( h::qr( x, F ) ); return r; }
static void exec( h::Args const & a )
{
  std::string const & op = a.op();
  if( op == "cmk" ) // cmk T n len align seed
  {
    reset(); kind = a.s( 1 ); std::size_t n = a.i( 2 ), len = a.i( 3 ); fresh( n, a.i( 5 ) );
    std::string r = h::guarded( [&] { if( kind == "f" ) cf.reset( new rbbl::CircularBuffer<float>( n, len, a.i( 4 ) ) ); else cd.reset( new rbbl::CircularBuffer<double>( n, len, a.i( 4 ) ) );
      if( cf ? ( cf->numberOfChannels() != n or cf->length() != len ) : ( cd->numberOfChannels() != n or cd->length() != len ) ) throw std::runtime_error( "dim" ); } );
    h::Ev( "cmk" ).k( "n", n ).k( "len", len ).k( "r", r ).done();
  }
  else if( op == "cw" ) // cw chans n mode
  {
    std::size_t ch = a.i( 1 ), n = a.i( 2 ); auto data = input( n, false );
    std::string r = cf ? cwrite( *cf, data, ch, n, int( a.i( 3 ) ) ) : cwrite( *cd, data, ch, n, int( a.i( 3 ) ) );
    h::Ev( "cw" ).k( "chans", ch ).k( "count", n ).k( "data", data ).k( "r", r ).done();
  }
  else if( op == "cr" ) { auto il = a.il( 1 ); Vec d( il.begin(), il.end() ); if( cf ) cread( *cf, d, int( a.i( 2 ) ) ); else cread( *cd, d, int( a.i( 2 ) ) ); }
  else if( op == "mmk" ) // mmk T n b max ord pol align seed
  {
    reset(); kind = a.s( 1 ); fresh( a.i( 2 ), a.i( 8 ) ); B = a.i( 3 );
    if( kind == "f" ) mmk<float>( mf, ni, a.i( 4 ), a.i( 5 ), a.s( 6 ), a.i( 7 ) ); else mmk<double>( md, ni, a.i( 4 ), a.i( 5 ), a.s( 6 ), a.i( 7 ) );
  }
  else if( op == "mw" ) // mw chans lines
  {
    std::size_t ch = a.i( 1 ); auto data = input( B, a.i( 2 ) );
    std::string r = mf ? mwrite( *mf, data, ch ) : mwrite( *md, data, ch );
    h::Ev( "mw" ).k( "chans", ch ).k( "data", data ).k( "r", r ).done();
  }
  else if( op == "mi" ) { if( mf ) minterp( *mf, a.i( 1 ), a.i( 2 ), a.d( 3 ), a.d( 4 ), a.d( 5 ), a.d( 6 ) ); else minterp( *md, a.i( 1 ), a.i( 2 ), a.d( 3 ), a.d( 4 ), a.d( 5 ), a.d( 6 ) ); }
  else if( op == "dmk" ) // dmk kind(v|m) ctor port b k max ord pol ni no how seed delays gains
  {
    reset(); kind = a.s( 1 ); int ctor = int( a.i( 2 ) ); port = a.i( 3 ); B = a.i( 4 ); std::size_t k = a.i( 5 ); LL max = a.i( 6 ), ord = a.i( 7 ); std::string p = a.s( 8 );
    fresh( a.i( 9 ), a.i( 12 ) ); no = a.i( 10 ); int how = int( a.i( 11 ) ); auto d = a.dl( 13 ), g = a.dl( 14 ); std::size_t n = kind == "v" ? ni : ni * no;
    if( how == 0 ) { d.assign( n, d[0] ); g.assign( n, g[0] ); }
    SignalFlowContext ctx( B, FS );
    std::string r = h::guarded( [&] {
      std::string m = method( ord ); float mx = float( max ) / float( FS ), d0 = float( d[0] / FS ), g0 = float( g[0] );
      if( kind == "v" )
      {
        using C = rcl::DelayVector; auto c = new C( ctx, "c" ); comp.reset( c ); auto cp = port ? C::ControlPortConfig::All : C::ControlPortConfig::None;
        if( how ) c->setup( ni, k * B, mx, m.c_str(), pol<float>( p ), cp, vec( d, FS ), vec( g, 1 ) ); else c->setup( ni, k * B, mx, m.c_str(), pol<float>( p ), cp, d0, g0 );
      }
      else
      {
        using C = rcl::DelayMatrix; auto cp = port ? C::ControlPortConfig::All : C::ControlPortConfig::None;
        if( ctor ) { if( how ) comp.reset( new C( ctx, "c", nullptr, ni, no, k * B, mx, m.c_str(), pol<float>( p ), cp, mat( d, no, FS ), mat( g, no, 1 ) ) ); else comp.reset( new C( ctx, "c", nullptr, ni, no, k * B, mx, m.c_str(), pol<float>( p ), cp, d0, g0 ) ); }
        else { auto c = new C( ctx, "c" ); comp.reset( c ); if( how ) c->setup( ni, no, k * B, mx, m.c_str(), pol<float>( p ), cp, mat( d, no, FS ), mat( g, no, 1 ) ); else c->setup( ni, no, k * B, mx, m.c_str(), pol<float>( p ), cp, d0, g0 ); }
      }
      drive.reset( new h::Drive( *comp, B ) );
    } );
    std::vector<Vec> els; for( std::size_t i = 0; i < n; ++i ) els.push_back( { LL( i ), LL( kind == "v" ? i : i / ni ), LL( kind == "v" ? i : i % ni ), h::qr( d[i], F ), h::qr( g[i], F ) } );
    h::Ev( "dmk" ).k( "n", ni ).k( "b", B ).k( "max", max ).k( "ord", ord < 0 ? 0 : ord ).k( "pol", p ).k( "k", k ).k( "els", els ).k( "r", r ).done();
  }
  else if( op == "dd" or op == "dg" or op == "dx" ) // dd delays [bad] | dg gains [bad] | dx delays gains
  {
    auto v = a.dl( 1 ); bool bad = op != "dx" and a.size() > 2; double s = op == "dg" ? 1 : FS; std::string r; auto w = op == "dx" ? a.dl( 2 ) : v;
    if( bad ) v.push_back( 1 );
    auto send = [&]( char const * name, std::vector<double> const & x, double sc ) {
      if( kind == "v" ) { auto & p = drive->db<pml::VectorParameter<float>>( name ); for( std::size_t i = 0; i < x.size(); ++i ) p[i] = float( x[i] / sc ); }
      else { auto & p = drive->db<pml::MatrixParameter<float>>( name ); for( std::size_t i = 0; i < x.size(); ++i ) p( i / ni, i % ni ) = float( x[i] / sc ); }
      drive->swap( name ); };
    r = h::guarded( [&] {
      if( port and not bad ) { send( op == "dg" ? "gainInput" : "delayInput", v, s ); if( op == "dx" ) send( "gainInput", w, 1 ); return; }
      if( kind == "v" ) { auto & c = dynamic_cast<rcl::DelayVector &>( *comp ); if( op == "dd" ) c.setDelay( vec( v, s ) ); else if( op == "dg" ) c.setGain( vec( v, s ) ); else c.setDelayAndGain( vec( v, s ), vec( w, 1 ) ); }
      else { auto & c = dynamic_cast<rcl::DelayMatrix &>( *comp ); std::size_t rows = bad ? 1 : no; if( op == "dd" ) c.setDelay( mat( v, rows, s ) ); else if( op == "dg" ) c.setGain( mat( v, rows, s ) ); else c.setDelayAndGain( mat( v, rows, s ), mat( w, rows, 1 ) ); }
    } );
    if( op == "dx" ) { h::Ev( "dd" ).k( "v", sc( v ) ).k( "bad", bad ).k( "r", r ).done(); h::Ev( "dg" ).k( "v", sc( w ) ).k( "bad", bad ).k( "r", r ).done(); }
    else h::Ev( op.c_str() ).k( "v", sc( v ) ).k( "bad", bad ).k( "r", r ).done();
  }
  else if( op == "db" ) // db lines
  {
    auto data = input( B, a.i( 1 ) ); h::Mat in, out; for( auto const & c : data ) in.emplace_back( c.begin(), c.end() );
    std::string r = drive->block( in, out ); std::vector<Vec> o; for( auto const & c : out ) { Vec v; for( double x : c ) v.push_back( h::qr( x, V ) ); o.push_back( v ); }
    h::Ev( "db" ).k( "in", data ).k( "out", o ).k( "sum", kind == "v" ? 1 : ni ).k( "r", r ).done();
  }
  else exit( 77 );
}
int main( int argc, char ** argv ) { pml::initialiseParameterLibrary(); return h::run( argc, argv, reset, exec ); }
