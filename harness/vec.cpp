// Vector and matrix kernels of libefl on three buffers: every operation, element type and processor specific variant.
#include "h.hpp"
#include <complex>
#include <cstdint>
#include <cstring>
#include <libefl/initialise_library.hpp>
#include <libefl/lagrange_coefficient_calculator.hpp>
#include <libefl/matrix_functions.hpp>
#include <libefl/reference/vector_functions.hpp>
#include <libefl/vector_conversions.hpp>
#include <libefl/vector_functions.hpp>
#if defined( __x86_64__ ) && __has_include( <libefl/intel_x86_64/vector_functions.hpp> )
#include <libefl/intel_x86_64/vector_functions.hpp>
#define SIMD 1
#endif
using namespace visr; using namespace visr::efl; using LL = long long; using Vec = std::vector<LL>; using Mat = std::vector<Vec>;
using cf = std::complex<float>; using cd = std::complex<double>;
static char const * errName( ErrorCode e ) { return e == noError ? "" : e == alignmentError ? "align" : "other"; }
static void * alloc( std::size_t n ) { void * p = nullptr; if( posix_memalign( &p, 256, n ) ) exit( 77 ); return p; } // exact size, so that nothing beyond it may be touched
template<class T> struct Tr { static T mk( LL r, LL ) { return T( r ); } static LL re( T v ) { return h::q( v ); } static LL im( T ) { return 0; } };
template<class R> struct Tr<std::complex<R>> { using T = std::complex<R>; static T mk( LL r, LL i ) { return T( R( r ), R( i ) ); } static LL re( T v ) { return h::q( v.real() ); } static LL im( T v ) { return h::q( v.imag() ); } };
struct Op3 { LL b, o, s; };
static Op3 op3( h::Args const & a, std::size_t n ) { auto v = a.il( n ); return { v[0], v[1], v[2] }; }
static Vec js( Op3 const & o ) { return { o.b, o.o, o.s }; }
struct Base { virtual ~Base() = default; virtual void op( h::Args const & a ) = 0; virtual void prod( h::Args const & a ) = 0; };
template<class T> struct Mem : Base
{
  T * p[3]; std::size_t m; bool cx;
  Mem( h::Args const & a ) : m( a.i( 2 ) ), cx( not std::is_arithmetic_v<T> )
  {
    for( int k = 0; k < 3; ++k )
    {
      auto r = a.il( 3 + k ), i = cx ? a.il( 6 + k ) : std::vector<int>( m, 0 ); p[k] = static_cast<T *>( alloc( m * sizeof( T ) ) );
      for( std::size_t n = 0; n < m; ++n ) new( p[k] + n ) T( Tr<T>::mk( r[n], i[n] ) );
    }
    h::Ev e( "set" ); dump( e ); e.k( "t", a.s( 1 ) ).done();
  }
  ~Mem() { for( T * q : p ) std::free( q ); }
  void dump( h::Ev & e )
  {
    Mat r( 3 ), i( 3 ); for( int k = 0; k < 3; ++k ) for( std::size_t n = 0; n < m; ++n ) { r[k].push_back( Tr<T>::re( p[k][n] ) ); i[k].push_back( Tr<T>::im( p[k][n] ) ); }
    e.k( "re", r ).k( "im", i );
  }
  T * at( Op3 const & o ) { return o.b ? p[o.b - 1] + o.o : nullptr; }
  void op( h::Args const & a ) override
  {
    std::string nm = a.s( 1 ); std::size_t n = a.i( 2 ), al = a.i( 3 ); Op3 D = op3( a, 4 ), X = op3( a, 5 ), Y = op3( a, 6 ), Z = op3( a, 7 ); auto kk = a.il( 8 ), gg = a.il( 9 ); bool f1 = a.i( 10 ), f2 = a.i( 11 );
    T * d = at( D ); T const * x = at( X ); T const * y = at( Y ); T const * z = at( Z ); T k = Tr<T>::mk( kk[0], kk[1] ), g = Tr<T>::mk( gg[0], gg[1] ); ErrorCode r = logicError;
    if( nm == "Zero" ) r = vectorZero( d, n, al ); else if( nm == "Fill" ) r = vectorFill( k, d, n, al ); else if( nm == "Copy" ) r = vectorCopy( x, d, n, al );
    else if( nm == "Ramp" ) r = vectorRamp( d, n, k, g, f1, f2, al );
    else if( nm == "Add" ) r = vectorAdd( x, y, d, n, al ); else if( nm == "AddInplace" ) r = vectorAddInplace( x, d, n, al );
    else if( nm == "AddConstant" ) r = vectorAddConstant( k, x, d, n, al ); else if( nm == "AddConstantInplace" ) r = vectorAddConstantInplace( k, d, n, al );
    else if( nm == "Subtract" ) r = vectorSubtract( x, y, d, n, al ); else if( nm == "SubtractInplace" ) r = vectorSubtractInplace( x, d, n, al );
    else if( nm == "SubtractConstant" ) r = vectorSubtractConstant( k, x, d, n, al ); else if( nm == "SubtractConstantInplace" ) r = vectorSubtractConstantInplace( k, d, n, al );
    else if( nm == "Multiply" ) r = vectorMultiply( x, y, d, n, al ); else if( nm == "MultiplyInplace" ) r = vectorMultiplyInplace( x, d, n, al );
    else if( nm == "MultiplyConstant" ) r = vectorMultiplyConstant( k, x, d, n, al ); else if( nm == "MultiplyConstantInplace" ) r = vectorMultiplyConstantInplace( k, d, n, al );
    else if( nm == "MultiplyAdd" ) r = vectorMultiplyAdd( x, y, z, d, n, al ); else if( nm == "MultiplyAddInplace" ) r = vectorMultiplyAddInplace( x, y, d, n, al );
    else if( nm == "MultiplyConstantAdd" ) r = vectorMultiplyConstantAdd( k, x, y, d, n, al ); else if( nm == "MultiplyConstantAddInplace" ) r = vectorMultiplyConstantAddInplace( k, x, d, n, al );
    else if( nm == "CopyStrided" ) r = vectorCopyStrided( x, d, X.s, D.s, n, al ); else if( nm == "FillStrided" ) r = vectorFillStrided( k, d, D.s, n, al );
    else if( nm == "RampScaling" ) r = vectorRampScaling( x, y, d, k, g, n, f1, al );
    else { fprintf( stderr, "operation %s?\n", nm.c_str() ); exit( 77 ); }
    h::Ev e( "op" ); e.k( "nm", nm ).k( "n", n ).k( "al", al ).k( "d", js( D ) ).k( "x", js( X ) ).k( "y", js( Y ) ).k( "z", js( Z ) ).k( "k", Vec{ kk[0], kk[1] } ).k( "g", Vec{ gg[0], gg[1] } ).k( "f1", f1 ).k( "f2", f2 ).k( "r", errName( r ) ); dump( e ); e.done();
  }
  void prod( h::Args const & a ) override
  {
    if constexpr( std::is_arithmetic_v<T> )
    {
      auto D = a.il( 1 ), X = a.il( 2 ), Y = a.il( 3 ), s = a.il( 4 ); // buffer, offset, row stride, column stride; rows, columns, inner
      auto r = product<T>( p[X[0] - 1] + X[1], p[Y[0] - 1] + Y[1], p[D[0] - 1] + D[1], s[0], s[1], s[2], X[2], X[3], Y[2], Y[3], D[2], D[3] );
      h::Ev e( "prod" ); e.k( "d", D ).k( "x", X ).k( "y", Y ).k( "s", s ).k( "r", errName( r ) ); dump( e ); e.done();
    }
  }
};
static std::unique_ptr<Base> mem;
#ifdef SIMD
template<intel_x86_64::Feature f> static void install()
{
  VectorMultiplyWrapper<float>::set( &intel_x86_64::vectorMultiply<float, f> ); VectorMultiplyWrapper<double>::set( &intel_x86_64::vectorMultiply<double, f> ); VectorMultiplyWrapper<cf>::set( &intel_x86_64::vectorMultiply<cf, f> );
  VectorMultiplyAddInplaceWrapper<float>::set( &intel_x86_64::vectorMultiplyAddInplace<float, f> ); VectorMultiplyAddInplaceWrapper<double>::set( &intel_x86_64::vectorMultiplyAddInplace<double, f> ); VectorMultiplyAddInplaceWrapper<cf>::set( &intel_x86_64::vectorMultiplyAddInplace<cf, f> );
  VectorMultiplyConstantAddInplaceWrapper<float>::set( &intel_x86_64::vectorMultiplyConstantAddInplace<float, f> ); VectorMultiplyConstantAddInplaceWrapper<cf>::set( &intel_x86_64::vectorMultiplyConstantAddInplace<cf, f> );
  VectorRampScalingWrapper<float>::set( &intel_x86_64::vectorRampScaling<float, f> );
}
#endif
template<class S, class D> static LL rd( D v ) { return h::q( double( v ) * 4 ); }
template<class S, class D> static void conv( h::Args const & a )
{
  // conv S D form n srcOffset srcStride dstOffset dstStride al src(quarters) dst(quarters)
  std::string form = a.s( 3 ); std::size_t n = a.i( 4 ), so = a.i( 5 ), ss = a.i( 6 ), dO = a.i( 7 ), ds = a.i( 8 ), al = a.i( 9 ); auto s = a.il( 10 ), d = a.il( 11 );
  S * sp = static_cast<S *>( alloc( s.size() * sizeof( S ) ) ); D * dp = static_cast<D *>( alloc( d.size() * sizeof( D ) ) );
  for( std::size_t k = 0; k < s.size(); ++k ) sp[k] = S( s[k] / 4.0 ); for( std::size_t k = 0; k < d.size(); ++k ) dp[k] = D( d[k] / 4.0 );
  ErrorCode r = form == "c" ? vectorConvert( sp + so, dp + dO, n, al ) : form == "i" ? vectorConvertInputStride( sp + so, dp + dO, n, ss, al ) : form == "o" ? vectorConvertOutputStride( sp + so, dp + dO, n, ds, al ) : vectorConvertInputOutputStride( sp + so, dp + dO, n, ss, ds, al );
  Vec o, si; for( std::size_t k = 0; k < d.size(); ++k ) o.push_back( rd<S>( dp[k] ) ); for( std::size_t k = 0; k < s.size(); ++k ) si.push_back( rd<S>( sp[k] ) );
  h::Ev( "conv" ).k( "fl", std::is_floating_point_v<S> and not std::is_floating_point_v<D> ).k( "n", n ).k( "so", so ).k( "ss", form == "c" or form == "o" ? 1 : ss ).k( "do", dO ).k( "ds", form == "c" or form == "i" ? 1 : ds ).k( "al", al ).k( "src", s ).k( "dst", d ).k( "r", errName( r ) ).k( "ms", si ).k( "md", o ).done();
  std::free( sp ); std::free( dp );
}
template<class S> static void conv1( h::Args const & a )
{
  std::string t = a.s( 2 );
  if( t == "f" ) conv<S, float>( a ); else if( t == "d" ) conv<S, double>( a ); else if( t == "i8" ) conv<S, int8_t>( a ); else if( t == "i16" ) conv<S, int16_t>( a ); else if( t == "i32" ) conv<S, int32_t>( a ); else conv<S, int64_t>( a );
}
template<class T> static void cpy( h::Args const & a )
{
  std::size_t n = a.i( 2 ), so = a.i( 3 ), dO = a.i( 4 ), al = a.i( 5 ); auto s = a.il( 6 ), d = a.il( 7 );
  T * sp = static_cast<T *>( alloc( s.size() * sizeof( T ) ) ); T * dp = static_cast<T *>( alloc( d.size() * sizeof( T ) ) );
  for( std::size_t k = 0; k < s.size(); ++k ) sp[k] = T( s[k] ); for( std::size_t k = 0; k < d.size(); ++k ) dp[k] = T( d[k] );
  ErrorCode r = vectorCopy( sp + so, dp + dO, n, al ); Vec o, si; for( std::size_t k = 0; k < d.size(); ++k ) o.push_back( h::q( double( dp[k] ) ) ); for( std::size_t k = 0; k < s.size(); ++k ) si.push_back( h::q( double( sp[k] ) ) );
  h::Ev( "conv" ).k( "fl", false ).k( "n", n ).k( "so", so ).k( "ss", 1 ).k( "do", dO ).k( "ds", 1 ).k( "al", al ).k( "src", s ).k( "dst", d ).k( "r", errName( r ) ).k( "ms", si ).k( "md", o ).done();
  std::free( sp ); std::free( dp );
}
template<class T, std::size_t N, bool R> static void lagr( LL mu2 )
{
  LagrangeCoefficientCalculator<T, N, R> c; std::vector<T> v( N + 3, T( -777 ) ); c.calculateCoefficients( T( mu2 ) / 2, v.data() + 1 ); bool first = true;
  Vec o; for( std::size_t k = 0; k <= N; ++k ) o.push_back( h::qr( v[k + 1], 65536 ) );
  std::vector<T> w( N + 1 ); c.calculateCoefficients( T( 3 ), w.data() ); c.calculateCoefficients( T( mu2 ) / 2, w.data() ); for( std::size_t k = 0; k <= N; ++k ) first = first and w[k] == v[k + 1]; // no memory of earlier calls
  h::Ev( "lagr" ).k( "n", N ).k( "rev", R ).k( "mu2", mu2 ).k( "v", o ).k( "ok", first and v[0] == T( -777 ) and v[N + 2] == T( -777 ) ).done();
}
template<class T, bool R> static void lagr1( LL n, LL mu2 )
{
  switch( n ) { case 0: return lagr<T, 0, R>( mu2 ); case 1: return lagr<T, 1, R>( mu2 ); case 2: return lagr<T, 2, R>( mu2 ); case 3: return lagr<T, 3, R>( mu2 ); case 4: return lagr<T, 4, R>( mu2 ); case 5: return lagr<T, 5, R>( mu2 ); case 6: return lagr<T, 6, R>( mu2 ); case 7: return lagr<T, 7, R>( mu2 ); case 8: return lagr<T, 8, R>( mu2 ); default: return lagr<T, 9, R>( mu2 ); }
}
static void reset0() { uninitialiseLibrary(); VectorMultiplyAddInplaceWrapper<double>::set( &reference::vectorMultiplyAddInplace<double> ); }
static void reset() { mem.reset(); reset0(); }
static void exec( h::Args const & a )
{
  std::string const & op = a.op();
  if( op == "set" ) { mem.reset(); std::string t = a.s( 1 ); if( t == "f" ) mem.reset( new Mem<float>( a ) ); else if( t == "d" ) mem.reset( new Mem<double>( a ) ); else if( t == "cf" ) mem.reset( new Mem<cf>( a ) ); else mem.reset( new Mem<cd>( a ) ); }
  else if( op == "use" )
  {
    std::string v = a.s( 1 ); std::string did = "ref"; reset0();
    if( v == "auto" ) { initialiseLibrary(); did = "auto"; }
#ifdef SIMD
    if( v == "fma" and __builtin_cpu_supports( "fma" ) and __builtin_cpu_supports( "avx2" ) ) { install<intel_x86_64::Feature::FMA>(); did = v; }
    if( v == "avx" and __builtin_cpu_supports( "avx" ) ) { install<intel_x86_64::Feature::AVX>(); did = v; }
    if( v == "sse" and __builtin_cpu_supports( "sse4.2" ) ) { install<intel_x86_64::Feature::SSE>(); did = v; }
#endif
    h::Ev( "use" ).k( "v", did ).done();
  }
  else if( op == "op" ) mem->op( a );
  else if( op == "prod" ) mem->prod( a );
  else if( op == "conv" ) { std::string s = a.s( 1 ); if( s == "f" ) conv1<float>( a ); else if( s == "d" ) conv1<double>( a ); else if( s == "i8" ) conv1<int8_t>( a ); else if( s == "i16" ) conv1<int16_t>( a ); else if( s == "i32" ) conv1<int32_t>( a ); else conv1<int64_t>( a ); }
  else if( op == "cpy" )
  {
    std::string t = a.s( 1 );
    if( t == "i8" ) cpy<int8_t>( a ); else if( t == "u8" ) cpy<uint8_t>( a ); else if( t == "i16" ) cpy<int16_t>( a ); else if( t == "u16" ) cpy<uint16_t>( a ); else if( t == "i32" ) cpy<int32_t>( a ); else if( t == "u32" ) cpy<uint32_t>( a ); else if( t == "i64" ) cpy<int64_t>( a ); else if( t == "u64" ) cpy<uint64_t>( a ); else cpy<long double>( a );
  }
  else if( op == "lagr" ) { bool R = a.i( 3 ); if( a.s( 1 ) == "f" ) { if( R ) lagr1<float, true>( a.i( 2 ), a.i( 4 ) ); else lagr1<float, false>( a.i( 2 ), a.i( 4 ) ); } else { if( R ) lagr1<double, true>( a.i( 2 ), a.i( 4 ) ); else lagr1<double, false>( a.i( 2 ), a.i( 4 ) ); } }
}
int main( int argc, char ** argv ) { return h::run( argc, argv, reset, exec ); }
