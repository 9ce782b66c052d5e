// Parameter containers: BasicMatrix/BasicVector, Matrix-, Vector-, TimeFrequency-, String-, InterpolationParameter, their text and
// file forms, and the parameter configurations.
#define VISR_PML_USE_SNDFILE_LIBRARY 1
#include "h.hpp"
#include <complex>
#include <cstring>
#include <sndfile.h>
#include <unistd.h>
#include <libefl/basic_matrix.hpp>
#include <libefl/basic_vector.hpp>
#include <libpml/empty_parameter_config.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/interpolation_parameter.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/matrix_parameter_config.hpp>
#include <libpml/string_parameter.hpp>
#include <libpml/time_frequency_parameter.hpp>
#include <libpml/time_frequency_parameter_config.hpp>
#include <libpml/vector_parameter.hpp>
#include <libpml/vector_parameter_config.hpp>
#include <libvisr/constants.hpp>
#include <libvisr/parameter_factory.hpp>
using namespace visr;
using LL = long long; using Vec = std::vector<LL>; using Mat = std::vector<Vec>; using C = std::complex<double>;
using Cfg = std::unique_ptr<ParameterConfigBase>;
static std::vector<std::string> split( std::string const & s, char c ) { std::vector<std::string> r; if( s == "-" ) return r; std::stringstream ss( s ); std::string p; while( std::getline( ss, p, c ) ) r.push_back( p ); return r; }
static Vec vec( std::string const & s ) { Vec r; if( s == "e" ) return r; for( auto const & p : split( s, ',' ) ) r.push_back( std::stoll( p ) ); return r; }
static Mat mat( std::string const & s ) { Mat r; for( auto const & p : split( s, ';' ) ) r.push_back( vec( p ) ); return r; }
// elements are written as 100 * real part + 1000000 * imaginary part
template<class T> struct El { static T of( LL v ) { return T( v / 100.0 ); } static LL to( T v ) { return h::q( v, 100.0, 2e-2 ); } };
template<class T> struct El<std::complex<T>>
{
  static std::complex<T> of( LL v ) { LL im = LL( std::floor( v / 1e6 + 0.5 ) ); return { T( ( v - im * 1000000 ) / 100.0 ), T( im ) }; }
  static LL to( std::complex<T> v ) { LL re = h::q( v.real(), 100.0, 2e-2 ), im = h::q( v.imag() ); return re == h::cBad or im == h::cBad ? h::cBad : re + im * 1000000; }
};
struct Obj
{
  std::string cls, el; virtual ~Obj() = default;
  virtual std::string dump() const = 0;
  virtual void resize( std::size_t, std::size_t, std::size_t ) { throw 1; }
  virtual void zero() { throw 1; } virtual void fill( LL ) { throw 1; } virtual void set( std::size_t, std::size_t, LL ) { throw 1; } virtual LL get( std::size_t, std::size_t ) const { throw 1; }
  virtual void row( std::size_t, Vec const & ) { throw 1; } virtual void col( std::size_t, Vec const & ) { throw 1; }
  virtual void swap( Obj & ) { throw 1; } virtual void copy( Obj & ) { throw 1; } virtual void move( Obj & ) { throw 1; } virtual std::unique_ptr<Obj> moved() { throw 1; }
  virtual void assign( Obj & ) { throw 1; } virtual void vassign( Obj & ) { throw 1; } virtual std::unique_ptr<Obj> cctor() { throw 1; } virtual ParameterBase * base() { return nullptr; } virtual std::unique_ptr<Obj> clone() { throw 1; }
};
template<class R, class... A> static std::string cell( std::string const & cls, std::string const & el, LL al, LL r, LL c, LL ch, LL fr, R const & v, bool ok )
{
  return "{\"cls\":\"" + cls + "\",\"el\":\"" + el + "\",\"al\":" + std::to_string( al ) + ",\"r\":" + std::to_string( r ) + ",\"c\":" + std::to_string( c ) + ",\"ch\":" + std::to_string( ch ) + ",\"fr\":" + std::to_string( fr ) + ",\"v\":" + h::J::conv( v ).s + ",\"ok\":" + ( ok ? "true}" : "false}" );
}
template<class T> static T & as( Obj & o );
template<class M, class E> struct MatObj : Obj // matrices: plain and parameter
{
  M m; explicit MatObj( M && x ) : m( std::move( x ) ) {} template<class... A> MatObj( A &&... a ) : m( std::forward<A>( a )... ) {}
  std::string dump() const override
  {
    Mat v; bool ok = m.stride() >= m.numberOfColumns();
    for( std::size_t i = 0; i < m.numberOfRows(); ++i ) { Vec w; for( std::size_t j = 0; j < m.numberOfColumns(); ++j ) { w.push_back( El<E>::to( m.at( i, j ) ) ); ok = ok and &m( i, j ) == m.row( i ) + j and m.row( i ) == m.data() + i * m.stride(); } ok = ok and efl::checkAlignment( m.row( i ), m.alignmentElements() ); v.push_back( w ); }
    return cell( cls, el, m.alignmentElements(), m.numberOfRows(), m.numberOfColumns(), 0, 0, v, ok );
  }
  using B = efl::BasicMatrix<E>;
  void resize( std::size_t r, std::size_t c, std::size_t ) override { m.resize( r, c ); }
  void zero() override { m.zeroFill(); } void fill( LL v ) override { m.fillValue( El<E>::of( v ) ); }
  void set( std::size_t i, std::size_t j, LL v ) override { m.at( i, j ) = El<E>::of( v ); } LL get( std::size_t i, std::size_t j ) const override { return El<E>::to( m.at( i, j ) ); }
  void row( std::size_t i, Vec const & v ) override { std::vector<E> w; for( LL x : v ) w.push_back( El<E>::of( x ) ); w.reserve( 1 ); m.setRow( i, w.data() ); }
  void col( std::size_t i, Vec const & v ) override { std::vector<E> w; for( LL x : v ) w.push_back( El<E>::of( x ) ); m.setColumn( i, w.data() ); }
  void swap( Obj & o ) override { static_cast<B &>( m ).swap( as<B>( o ) ); } void copy( Obj & o ) override { m.copy( as<B>( o ) ); }
};
template<class V, class E> struct VecObj : Obj
{
  V m; template<class... A> VecObj( A &&... a ) : m( std::forward<A>( a )... ) {}
  std::string dump() const override
  {
    Vec w; bool ok = efl::checkAlignment( m.data(), m.alignmentElements() ); for( std::size_t j = 0; j < m.size(); ++j ) { w.push_back( El<E>::to( m.at( j ) ) ); ok = ok and &m[j] == m.data() + j; }
    return cell( cls, el, m.alignmentElements(), 1, m.size(), 0, 0, Mat{ w }, ok );
  }
  using B = efl::BasicVector<E>;
  void resize( std::size_t, std::size_t c, std::size_t ) override { m.resize( c ); }
  void zero() override { m.zeroFill(); } void fill( LL v ) override { m.fillValue( El<E>::of( v ) ); }
  void set( std::size_t i, std::size_t j, LL v ) override { if( i ) throw std::out_of_range( "" ); m.at( j ) = El<E>::of( v ); } LL get( std::size_t i, std::size_t j ) const override { if( i ) throw std::out_of_range( "" ); return El<E>::to( m.at( j ) ); }
  void swap( Obj & o ) override { static_cast<B &>( m ).swap( as<B>( o ) ); } void copy( Obj & o ) override { static_cast<B &>( m ).copy( as<B>( o ) ); } void vassign( Obj & o ) override { static_cast<B &>( m ).assign( as<B>( o ) ); }
};
template<class P> struct Param
{
  static ParameterBase * base( P & p ) { return &p; }
};
template<class E> struct BM : MatObj<efl::BasicMatrix<E>, E>
{
  using MatObj<efl::BasicMatrix<E>, E>::MatObj;
  void move( Obj & o ) override { this->m = std::move( dynamic_cast<BM &>( o ).m ); } std::unique_ptr<Obj> moved() override { auto r = std::unique_ptr<Obj>( new BM( std::move( this->m ) ) ); r->cls = this->cls; r->el = this->el; return r; }
};
template<class E> struct BV : VecObj<efl::BasicVector<E>, E>
{
  using VecObj<efl::BasicVector<E>, E>::VecObj;
  void move( Obj & o ) override { this->m = std::move( dynamic_cast<BV &>( o ).m ); } std::unique_ptr<Obj> moved() override { auto r = std::unique_ptr<Obj>( new BV( std::move( this->m ) ) ); r->cls = this->cls; r->el = this->el; return r; }
};
template<class Base, class P> struct PObj : Base
{
  using Base::Base;
  static std::unique_ptr<Obj> named( PObj * p, Obj const & like ) { std::unique_ptr<Obj> r( p ); r->cls = like.cls; r->el = like.el; return r; }
  void assign( Obj & o ) override { this->m = dynamic_cast<PObj &>( o ).m; }
  std::unique_ptr<Obj> cctor() override { return named( new PObj( static_cast<P const &>( this->m ) ), *this ); }
  ParameterBase * base() override { return &this->m; }
  std::unique_ptr<Obj> clone() override { std::unique_ptr<ParameterBase> c = this->m.clone(); if( c->type() != P::staticType() ) throw 2; return named( new PObj( dynamic_cast<P const &>( *c ) ), *this ); }
};
template<class E> using MP = PObj<MatObj<pml::MatrixParameter<E>, E>, pml::MatrixParameter<E>>;
template<class E> using VP = PObj<VecObj<pml::VectorParameter<E>, E>, pml::VectorParameter<E>>;
template<class T> struct TfObj : Obj
{
  using E = std::complex<T>; pml::TimeFrequencyParameter<T> m; template<class... A> TfObj( A &&... a ) : m( std::forward<A>( a )... ) {}
  std::string dump() const override
  {
    Mat v; bool ok = true; std::size_t F = m.numberOfFrames(), Ch = m.numberOfChannels(), N = m.numberOfDftBins();
    for( std::size_t f = 0; f < F; ++f ) for( std::size_t c = 0; c < Ch; ++c ) { Vec w; E const * p = m.channelSlice( f, c ); ok = ok and efl::checkAlignment( p, m.alignment() ) and ( N == 0 or ( p == m.frameSlice( f ) + c * m.channelStride() and p == m.data() + f * m.frameStride() + c * m.channelStride() ) ); for( std::size_t k = 0; k < N; ++k ) { w.push_back( El<E>::to( m.at( f, c, k ) ) ); ok = ok and p + k == &m.at( f, c, k ); } v.push_back( w ); }
    return cell( cls, el, m.alignment(), F * Ch, N, Ch, F, v, ok );
  }
  void resize( std::size_t n, std::size_t ch, std::size_t fr ) override { m.resize( n, ch, fr ); }
  void set( std::size_t i, std::size_t j, LL v ) override { std::size_t ch = m.numberOfChannels(); m.at( i / ch, i % ch, j ) = El<E>::of( v ); }
};
template<class T> using TF = PObj<TfObj<T>, pml::TimeFrequencyParameter<T>>;
struct StrObj : Obj
{
  pml::StringParameter m; template<class... A> StrObj( A &&... a ) : m( std::forward<A>( a )... ) {}
  std::string dump() const override { Vec w; for( std::size_t k = 0; k < m.size(); ++k ) w.push_back( (unsigned char)m.str()[k] ); return cell( cls, el, 0, 1, m.size(), 0, 0, Mat{ w }, bool( m.empty() ) == ( m.size() == 0 ) and m.str()[m.size()] == 0 ); }
};
using SP = PObj<StrObj, pml::StringParameter>;
template<class T> T * asp( Obj & o );
#define CAST( E ) \
template<> efl::BasicMatrix<E> & as<efl::BasicMatrix<E>>( Obj & o ) { if( auto * p = dynamic_cast<BM<E> *>( &o ) ) return p->m; return dynamic_cast<MP<E> &>( o ).m; } \
template<> efl::BasicVector<E> & as<efl::BasicVector<E>>( Obj & o ) { if( auto * p = dynamic_cast<BV<E> *>( &o ) ) return p->m; return dynamic_cast<VP<E> &>( o ).m; }
CAST( float ) CAST( double ) CAST( std::complex<float> ) CAST( std::complex<double> )
static std::map<std::string, std::unique_ptr<Obj>> slot;
static std::unique_ptr<pml::InterpolationParameter> ip;
static void reset() { slot.clear(); ip.reset(); }
struct Raw : h::J { explicit Raw( std::string const & t ) : h::J{ t } {} };
static h::J all()
{
  std::string r = "{"; char const * n[] = { "A", "B", "C" };
  for( int k = 0; k < 3; ++k ) { auto it = slot.find( n[k] ); r += std::string( k ? ",\"" : "\"" ) + n[k] + "\":" + ( it == slot.end() ? cell( "-", "-", 0, 0, 0, 0, 0, Mat(), true ) : it->second->dump() ); }
  return h::J{ r + "}" };
}
template<class F> static std::string tried( F && f ) { try { f(); return ""; } catch( std::exception const & ) { return "ex"; } catch( int n ) { return "bad" + std::to_string( n ); } }
template<class E> static std::unique_ptr<Obj> create( std::string const & cls, std::size_t al, std::size_t r, std::size_t c, std::string const & init )
{
  if( cls == "mat" or cls == "mp" )
  {
    if( init == "zero" ) { if( cls == "mat" ) return std::unique_ptr<Obj>( r == 0 and c == 0 ? new BM<E>( al ) : new BM<E>( r, c, al ) ); return std::unique_ptr<Obj>( r == 0 and c == 0 ? new MP<E>( al ) : new MP<E>( r, c, al ) ); }
    // initializer lists have a size fixed by the program: rows of up to three lists of up to three elements
    Mat v = mat( init ); std::vector<std::vector<E>> w; for( auto const & x : v ) { w.emplace_back(); for( LL y : x ) w.back().push_back( El<E>::of( y ) ); }
    using L = std::initializer_list<E>; using LL2 = std::initializer_list<L>;
    auto mk = [&]( LL2 const & l ) { return cls == "mat" ? std::unique_ptr<Obj>( new BM<E>( efl::BasicMatrix<E>( r, c, l, al ) ) ) : std::unique_ptr<Obj>( new MP<E>( pml::MatrixParameter<E>( r, c, l, al ) ) ); };
    auto e = [&]( std::size_t i, std::size_t j ) { return w.at( i ).at( j ); };
    std::string shape; for( auto const & x : w ) shape += std::to_string( x.size() );
    if( shape == "" ) return mk( LL2{} );
    if( shape == "1" ) return mk( LL2{ L{ e( 0, 0 ) } } );
    if( shape == "3" ) return mk( LL2{ L{ e( 0, 0 ), e( 0, 1 ), e( 0, 2 ) } } );
    if( shape == "22" ) return mk( LL2{ L{ e( 0, 0 ), e( 0, 1 ) }, L{ e( 1, 0 ), e( 1, 1 ) } } );
    if( shape == "12" ) return mk( LL2{ L{ e( 0, 0 ) }, L{ e( 1, 0 ), e( 1, 1 ) } } );
    if( shape == "21" ) return mk( LL2{ L{ e( 0, 0 ), e( 0, 1 ) }, L{ e( 1, 0 ) } } );
    if( shape == "23" ) return mk( LL2{ L{ e( 0, 0 ), e( 0, 1 ) }, L{ e( 1, 0 ), e( 1, 1 ), e( 1, 2 ) } } );
    if( shape == "222" ) return mk( LL2{ L{ e( 0, 0 ), e( 0, 1 ) }, L{ e( 1, 0 ), e( 1, 1 ) }, L{ e( 2, 0 ), e( 2, 1 ) } } );
    fprintf( stderr, "shape %s\n", shape.c_str() ); exit( 77 );
  }
  if( init == "zero" ) return cls == "vec" ? std::unique_ptr<Obj>( new BV<E>( c, al ) ) : std::unique_ptr<Obj>( new VP<E>( c, al ) );
  Vec v = vec( init ); auto e = [&]( std::size_t i ) { return El<E>::of( v.at( i ) ); };
  using L = std::initializer_list<E>; auto mk = [&]( L const & l ) { return cls == "vec" ? std::unique_ptr<Obj>( new BV<E>( l, al ) ) : std::unique_ptr<Obj>( new VP<E>( l, al ) ); };
  switch( v.size() ) { case 0: return mk( L{} ); case 1: return mk( L{ e( 0 ) } ); case 2: return mk( L{ e( 0 ), e( 1 ) } ); case 3: return mk( L{ e( 0 ), e( 1 ), e( 2 ) } ); default: return mk( L{ e( 0 ), e( 1 ), e( 2 ), e( 3 ), e( 4 ) } ); }
}
static std::string tmpName() { return std::string( getenv( "TMPDIR" ) ? getenv( "TMPDIR" ) : "/tmp" ) + "/visr_params_" + std::to_string( getpid() ); }
template<class E> static std::unique_ptr<Obj> fromText( std::string const & cls, std::size_t al, std::string const & via, std::string const & text )
{
  std::string fn = tmpName(); std::stringstream st( text );
  if( via == "file" ) { std::ofstream f( fn, std::ios_base::binary ); f << text; }
  std::unique_ptr<Obj> r;
  try
  {
    if( cls == "mp" ) r.reset( new MP<E>( via == "str" ? pml::MatrixParameter<E>::fromString( text, al ) : via == "stm" ? pml::MatrixParameter<E>::fromStream( st, al ) : pml::MatrixParameter<E>::fromTextFile( fn, al ) ) );
    else r.reset( new VP<E>( via == "str" ? pml::VectorParameter<E>::fromString( text, al ) : via == "stm" ? pml::VectorParameter<E>::fromStream( st, al ) : pml::VectorParameter<E>::fromTextFile( fn, al ) ) );
  }
  catch( ... ) { unlink( fn.c_str() ); throw; }
  unlink( fn.c_str() ); return r;
}
template<class E> static std::unique_ptr<Obj> fromWav( std::string const & cls, std::size_t al, Mat const & ch ) // samples in units of 1/4
{
  std::string fn = tmpName() + ".wav"; std::size_t n = ch.at( 0 ).size(), c = ch.size();
  SF_INFO inf; std::memset( &inf, 0, sizeof inf ); inf.samplerate = 48000; inf.channels = int( c ); inf.format = SF_FORMAT_WAV | SF_FORMAT_FLOAT;
  std::vector<float> s; for( std::size_t k = 0; k < n; ++k ) for( auto const & v : ch ) s.push_back( v[k] / 100.0f );
  SNDFILE * f = sf_open( fn.c_str(), SFM_WRITE, &inf ); if( not f ) exit( 77 ); sf_writef_float( f, s.data(), n ); sf_close( f );
  std::unique_ptr<Obj> r;
  try { if( cls == "mp" ) r.reset( new MP<E>( pml::MatrixParameter<E>::fromAudioFile( fn, al ) ) ); else r.reset( new VP<E>( pml::VectorParameter<E>::fromAudioFile( fn, al ) ) ); }
  catch( ... ) { unlink( fn.c_str() ); throw; }
  unlink( fn.c_str() ); return r;
}
static Cfg config( Vec const & v )
{
  switch( v.at( 0 ) )
  {
    case 0: return Cfg( new pml::EmptyParameterConfig );
    case 1: return Cfg( new pml::VectorParameterConfig( v.at( 1 ) ) );
    case 2: return Cfg( new pml::MatrixParameterConfig( v.at( 1 ), v.at( 2 ) ) );
    case 3: return Cfg( new pml::TimeFrequencyParameterConfig( v.at( 1 ), v.at( 2 ), v.at( 3 ) ) );
    default: return Cfg( new pml::InterpolationParameterConfig( v.at( 1 ) ) );
  }
}
template<class E> static std::unique_ptr<Obj> fromConfig( std::string const & cls, ParameterConfigBase const & c )
{ return cls == "mp" ? std::unique_ptr<Obj>( new MP<E>( c ) ) : std::unique_ptr<Obj>( new VP<E>( c ) ); }
template<class F> static auto byEl( std::string const & el, F && f ) { return el == "f" ? f( float() ) : el == "d" ? f( double() ) : el == "cf" ? f( std::complex<float>() ) : f( std::complex<double>() ); }
static std::unique_ptr<Obj> factory( std::string const & cls, std::string const & el, ParameterConfigBase const & c )
{
  if( cls == "sp" ) { auto p = ParameterFactory::create( pml::StringParameter::staticType(), c ); return std::unique_ptr<Obj>( new SP( dynamic_cast<pml::StringParameter &>( *p ) ) ); }
  if( cls == "tf" )
  {
    if( el == "cf" ) { auto p = ParameterFactory::create( pml::TimeFrequencyParameter<float>::staticType(), c ); return std::unique_ptr<Obj>( new TF<float>( dynamic_cast<pml::TimeFrequencyParameter<float> &>( *p ) ) ); }
    auto p = ParameterFactory::create( pml::TimeFrequencyParameter<double>::staticType(), c ); return std::unique_ptr<Obj>( new TF<double>( dynamic_cast<pml::TimeFrequencyParameter<double> &>( *p ) ) );
  }
  return byEl( el, [&]( auto e ) {
    using E = decltype( e );
    if( cls == "mp" ) { auto p = ParameterFactory::create( pml::MatrixParameter<E>::staticType(), c ); return std::unique_ptr<Obj>( new MP<E>( dynamic_cast<pml::MatrixParameter<E> &>( *p ) ) ); }
    auto p = ParameterFactory::create( pml::VectorParameter<E>::staticType(), c ); return std::unique_ptr<Obj>( new VP<E>( dynamic_cast<pml::VectorParameter<E> &>( *p ) ) );
  } );
}
static void put( std::string const & s, std::string const & cls, std::string const & el, std::unique_ptr<Obj> o ) { o->cls = cls; o->el = el; slot[s] = std::move( o ); }
static h::J ipDump()
{
  if( not ip ) return h::J{ "{\"id\":-2,\"ix\":[],\"w\":[]}" };
  Vec ix, w; for( std::size_t k = 0; k < ip->numberOfInterpolants(); ++k ) { auto i = ip->index( k ); ix.push_back( i == rbbl::InterpolationParameter::cInvalidIndex ? -1 : LL( i ) ); w.push_back( h::q( ip->weight( k ), 4 ) ); if( i != ip->indices().at( k ) or ip->weight( k ) != ip->weights().at( k ) ) w.back() = h::cBad; }
  if( ip->indices().size() != ix.size() or ip->weights().size() != ix.size() ) w.push_back( h::cBad );
  return h::J{ "{\"id\":" + std::to_string( ip->id() == rbbl::InterpolationParameter::cInvalidId ? -1 : LL( ip->id() ) ) + ",\"ix\":" + h::J::conv( ix ).s + ",\"w\":" + h::J::conv( w ).s + "}" };
}
static void exec( h::Args const & a )
{
  std::string const & op = a.op();
  auto has = [&]( std::size_t n ) { return slot.count( a.s( n ) ) > 0; };
  auto ev = [&]( std::string const & r ) { h::Ev e( op ); e.k( "r", r ); return e; };
  if( op == "new" ) // new s cls el al r c ch init
  {
    std::string cls = a.s( 2 ), el = a.s( 3 ), init = a.s( 8 ); std::size_t al = a.i( 4 ), rr = a.i( 5 ), c = a.i( 6 ), ch = a.i( 7 ); std::unique_ptr<Obj> o;
    std::string r = tried( [&] {
      if( cls == "tf" ) { if( el == "cf" ) o.reset( rr == 0 and ch == 0 and c == 0 ? new TF<float>( al ) : new TF<float>( c, ch, rr, al ) ); else o.reset( rr == 0 and ch == 0 and c == 0 ? new TF<double>( al ) : new TF<double>( c, ch, rr, al ) ); }
      else if( cls == "sp" ) { Vec v = vec( init ); std::string t; for( LL x : v ) t += char( x ); o.reset( new SP( t ) ); }
      else o = byEl( el, [&]( auto e ) { return create<decltype( e )>( cls, al, rr, c, init ); } );
    } );
    if( r.empty() ) put( a.s( 1 ), cls, el, std::move( o ) );
    ev( r ).k( "s", a.s( 1 ) ).k( "cls", cls ).k( "el", el ).k( "al", LL( al ) ).k( "n", LL( rr ) ).k( "c", LL( c ) ).k( "ch", LL( ch ) ).k( "z", init == "zero" ).k( "v", init == "zero" ? Mat() : cls == "mat" or cls == "mp" ? mat( init ) : Mat{ vec( init ) } ).k( "m", all() ).done();
  }
  else if( op == "cfg" ) // cfg s cls el config fac
  {
    std::string cls = a.s( 2 ), el = a.s( 3 ); Vec c = vec( a.s( 4 ) ); Cfg k = config( c ); std::unique_ptr<Obj> o;
    std::string r = tried( [&] {
      if( a.i( 5 ) ) o = factory( cls, el, *k );
      else if( cls == "tf" ) { if( el == "cf" ) o.reset( new TF<float>( *k ) ); else o.reset( new TF<double>( *k ) ); }
      else if( cls == "sp" ) o.reset( new SP( *k ) );
      else o = byEl( el, [&]( auto e ) { return fromConfig<decltype( e )>( cls, *k ); } );
    } );
    if( r.empty() ) put( a.s( 1 ), cls, el, std::move( o ) );
    ev( r ).k( "s", a.s( 1 ) ).k( "cls", cls ).k( "el", el ).k( "k", c ).k( "dal", LL( cVectorAlignmentSamples ) ).k( "m", all() ).done();
  }
  else if( op == "text" ) // text s cls el al via hex
  {
    std::string cls = a.s( 2 ), el = a.s( 3 ), t = a.hex( 6 ); std::unique_ptr<Obj> o;
    std::string r = tried( [&] { o = byEl( el, [&]( auto e ) { return fromText<decltype( e )>( cls, a.i( 4 ), a.s( 5 ), t ); } ); } );
    if( r.empty() ) put( a.s( 1 ), cls, el, std::move( o ) );
    Vec cs; for( unsigned char x : t ) cs.push_back( x );
    ev( r ).k( "s", a.s( 1 ) ).k( "cls", cls ).k( "el", el ).k( "al", a.i( 4 ) ).k( "t", cs ).k( "m", all() ).done();
  }
  else if( op == "wav" )
  {
    std::string cls = a.s( 2 ), el = a.s( 3 ); Mat v = mat( a.s( 5 ) ); std::unique_ptr<Obj> o;
    std::string r = tried( [&] { o = byEl( el, [&]( auto e ) { return fromWav<decltype( e )>( cls, a.i( 4 ), v ); } ); } );
    if( r.empty() ) put( a.s( 1 ), cls, el, std::move( o ) );
    ev( r ).k( "s", a.s( 1 ) ).k( "cls", cls ).k( "el", el ).k( "al", a.i( 4 ) ).k( "v", v ).k( "m", all() ).done();
  }
  else if( op == "nofile" ) { std::string cls = a.s( 1 ); auto r = tried( [&] { std::string fn = a.i( 2 ) ? "/" : "/nonexistent/file"; if( cls == "mp" ) { if( a.i( 3 ) ) pml::MatrixParameter<float>::fromAudioFile( fn ); else pml::MatrixParameter<float>::fromTextFile( fn ); } else { if( a.i( 3 ) ) pml::VectorParameter<float>::fromAudioFile( fn ); else pml::VectorParameter<float>::fromTextFile( fn ); } } ); ev( r ).done(); }
  else if( op == "resize" ) { if( not has( 1 ) ) return; auto r = tried( [&] { slot[a.s( 1 )]->resize( a.i( 2 ), a.i( 3 ), a.i( 4 ) ); } ); ev( r ).k( "s", a.s( 1 ) ).k( "x", a.i( 2 ) ).k( "y", a.i( 3 ) ).k( "z", a.i( 4 ) ).k( "m", all() ).done(); }
  else if( op == "fill" ) { if( not has( 1 ) ) return; auto r = tried( [&] { if( a.i( 2 ) == 0 ) slot[a.s( 1 )]->zero(); else slot[a.s( 1 )]->fill( a.i( 2 ) ); } ); ev( r ).k( "s", a.s( 1 ) ).k( "x", a.i( 2 ) ).k( "m", all() ).done(); }
  else if( op == "set" ) { if( not has( 1 ) ) return; auto r = tried( [&] { slot[a.s( 1 )]->set( a.i( 2 ), a.i( 3 ), a.i( 4 ) ); } ); ev( r ).k( "s", a.s( 1 ) ).k( "i", a.i( 2 ) ).k( "j", a.i( 3 ) ).k( "x", a.i( 4 ) ).k( "m", all() ).done(); }
  else if( op == "get" ) { if( not has( 1 ) ) return; LL v = 0; auto r = tried( [&] { v = slot[a.s( 1 )]->get( a.i( 2 ), a.i( 3 ) ); } ); ev( r ).k( "s", a.s( 1 ) ).k( "i", a.i( 2 ) ).k( "j", a.i( 3 ) ).k( "v", v ).done(); }
  else if( op == "row" or op == "col" ) { if( not has( 1 ) ) return; Vec v = vec( a.s( 3 ) ); auto r = tried( [&] { if( op == "row" ) slot[a.s( 1 )]->row( a.i( 2 ), v ); else slot[a.s( 1 )]->col( a.i( 2 ), v ); } ); ev( r ).k( "s", a.s( 1 ) ).k( "i", a.i( 2 ) ).k( "v", v ).k( "m", all() ).done(); }
  else if( op == "two" ) // two kind s t
  {
    std::string k = a.s( 1 ), s = a.s( 2 ), t = a.s( 3 ); if( not has( 2 ) and k != "cctor" and k != "clone" and k != "mctor" ) return; if( not has( 3 ) ) return;
    Obj & y = *slot[t];
    auto r = tried( [&] {
      if( k == "cctor" ) slot[s] = y.cctor(); else if( k == "clone" ) slot[s] = y.clone(); else if( k == "mctor" ) { auto n = y.moved(); slot[s] = std::move( n ); }
      else
      {
        Obj & x = *slot[s];
        if( k == "swap" ) x.swap( y ); else if( k == "copy" ) x.copy( y ); else if( k == "move" ) x.move( y ); else if( k == "assign" ) x.assign( y ); else if( k == "vassign" ) x.vassign( y );
        else { ParameterBase * p = x.base(), * q = y.base(); if( not p or not q ) throw 3; p->assign( *q ); }
      }
    } );
    ev( r ).k( "k", k ).k( "s", s ).k( "t", t ).k( "m", all() ).done();
  }
  else if( op == "cmp" )
  {
    Vec x = vec( a.s( 1 ) ), y = vec( a.s( 2 ) ); Cfg p = config( x ), q = config( y ), c = p->clone(); bool eq = false;
    auto r = tried( [&] { eq = p->compare( *q ); } ); ev( r ).k( "x", x ).k( "y", y ).k( "eq", eq ).k( "cl", c->compare( *p ) and p->compare( *c ) ).done();
  }
  else if( op == "ip" ) // ip kind ...
  {
    std::string k = a.s( 1 ); Vec x = vec( a.s( 3 ) ), y = vec( a.s( 4 ) ); LL n = a.i( 2 ); using P = pml::InterpolationParameter;
    P::IndexContainer ix( x.begin(), x.end() ); P::WeightContainer w; for( LL v : y ) w.push_back( v / 4.0f );
    if( not ip and k != "new" and k != "size" and k != "cfg" ) return;
    auto at = [&]( Vec const & v ) { return v.empty() ? 0 : v[0]; };
    auto r = tried( [&] {
      if( k == "new" ) ip.reset( new P( P::IdType( n ), ix, w ) ); else if( k == "size" ) ip.reset( new P( P::IdType( n ), x.size() ) );
      else if( k == "cfg" ) ip.reset( new P( *config( Vec{ n, LL( x.size() ), 1, 1 } ) ) );
      else if( k == "id" ) ip->setId( n ); else if( k == "si" ) ip->setIndex( n, at( x ) ); else if( k == "sw" ) ip->setWeight( n, at( y ) / 4.0f ); else if( k == "sis" ) ip->setIndices( ix ); else if( k == "sws" ) ip->setWeights( w );
      else if( k == "gi" ) { ip->index( n ); ip->weight( n ); }
      else if( k == "cl" ) { std::unique_ptr<ParameterBase> c = ip->clone(); ip->setId( 99 ); ip.reset( new P( dynamic_cast<P &>( *c ) ) ); }
      else if( k == "as" ) { P o( P::IdType( n ), ix, w ); static_cast<ParameterBase *>( ip.get() )->assign( o ); o.setId( 98 ); }
      else if( k == "bad" ) { pml::StringParameter o( "x" ); static_cast<ParameterBase *>( ip.get() )->assign( o ); }
    } );
    ev( r ).k( "k", k ).k( "n", n ).k( "x", x ).k( "y", y ).k( "ip", ipDump() ).done();
  }
  else { fprintf( stderr, "unknown op %s\n", op.c_str() ); exit( 77 ); }
}
int main( int argc, char ** argv ) { pml::initialiseParameterLibrary(); return h::run( argc, argv, reset, exec ); }
