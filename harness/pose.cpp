// Position decoder (head tracking messages) and the algebra of rotations and positions.
#include "drive.hpp"
#include <boost/property_tree/json_parser.hpp>
#include <boost/property_tree/ptree.hpp>
#include <libpml/listener_position.hpp>
#include <libpml/string_parameter.hpp>
#include <librbbl/position_3d.hpp>
#include <librbbl/quaternion.hpp>
#include <librcl/position_decoder.hpp>
using namespace visr; using pml::ListenerPosition; using Strs = std::vector<std::string>; using LL = std::vector<long long>; using LP = ListenerPosition;
struct Raw : h::J { explicit Raw( std::string const & t ) { s = t; } };
static double const pi = std::acos( -1.0 );
template<class Q> std::vector<LL> matOf( Q const & o ) // rotation matrix of a unit quaternion, computed here
{
  double w = o.w(), x = o.x(), y = o.y(), z = o.z(), n = w*w + x*x + y*y + z*z;
  double m[3][3] = { { w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y) }, { 2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x) }, { 2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z } };
  std::vector<LL> r; for( auto & a : m ) { LL b; for( double v : a ) b.push_back( std::fabs( n - 1 ) > 1e-4 ? h::cBad : h::qr( v, 10000 ) ); r.push_back( b ); } return r;
}
static LL posOf( LP const & p ) { return { h::qr( p.x(), 1000 ), h::qr( p.y(), 1000 ), h::qr( p.z(), 1000 ) }; }
template<class E> E & show( E & e, LP const & p ) { e.k( "p", posOf( p ) ).k( "m", matOf( p.orientationQuaternion() ) ).k( "t", std::to_string( p.timeNs() ) ).k( "f", std::to_string( p.faceID() ) ).k( "n", std::to_string( p.numberOfListeners() ) ); return e; }
static h::J show( LP const & p ) { h::Ev e( "x" ); show( e, p ); return h::J{ e.s + "}" }; }
struct S { std::unique_ptr<SignalFlowContext> ctx; std::unique_ptr<rcl::PositionDecoder> c; std::unique_ptr<h::Drive> d; };
static std::unique_ptr<S> st;
static boost::property_tree::ptree js( std::string const & t ) { std::stringstream s( t ); boost::property_tree::ptree r; read_json( s, r ); return r; }

template<class T> struct Alg
{
  using Q = rbbl::Quaternion<T>; using P = rbbl::Position3D<T>;
  static Q qi( LL const & v ) { return Q( T( v[0] ), T( v[1] ), T( v[2] ), T( v[3] ) ); }
  static Q qu( LL const & v ) { double n = std::sqrt( double( v[0]*v[0] + v[1]*v[1] + v[2]*v[2] + v[3]*v[3] ) ); return Q( T( v[0]/n ), T( v[1]/n ), T( v[2]/n ), T( v[3]/n ) ); }
  static P pi3( LL const & v ) { return P( T( v[0] ), T( v[1] ), T( v[2] ) ); }
  static LL o( Q const & q, double s = 1 ) { return { h::q( q.w(), s ), h::q( q.x(), s ), h::q( q.y(), s ), h::q( q.z(), s ) }; }
  static LL o( P const & p, double s = 1 ) { return { h::q( p.x(), s ), h::q( p.y(), s ), h::q( p.z(), s ) }; }
  static LL r( Q const & q, double s = 1000 ) { return { h::qr( q.w(), s ), h::qr( q.x(), s ), h::qr( q.y(), s ), h::qr( q.z(), s ) }; }
  static LL r( P const & p, double s = 1000 ) { return { h::qr( p.x(), s ), h::qr( p.y(), s ), h::qr( p.z(), s ) }; }
  static double dotd( Q const & a, Q const & b ) { return double( a.w() )*b.w() + double( a.x() )*b.x() + double( a.y() )*b.y() + double( a.z() )*b.z(); }
  static double dotd( P const & a, P const & b ) { return double( a.x() )*b.x() + double( a.y() )*b.y() + double( a.z() )*b.z(); }
  static double ang( double c ) { return std::acos( std::max( -1.0, std::min( 1.0, c ) ) ); }
  static void exec( h::Args const & a, LL const & u, LL const & v, LL const & w )
  {
    std::string op = a.op(); h::Ev e( op ); e.k( "u", u ).k( "v", v ).k( "w", w );
    if( op == "qmul" ) { Q x = qi( u ), y = qi( v ), z = x; z *= y; Q t = y; t.rotate( x ); Q s = x; s *= s; e.k( "y", o( x * y ) ).k( "z", o( z ) ).k( "t", o( t ) ).k( "s", o( s ) ); }
    else if( op == "qlin" )
    {
      Q x = qi( u ), y = qi( v ), z = x, s = x; z += y; s -= y; Q k = x; k *= T( w[0] ); Q c = x; c.conjugate();
      e.k( "add", o( x + y ) ).k( "add2", o( z ) ).k( "sub", o( x - y ) ).k( "sub2", o( s ) ).k( "neg", o( -x ) ).k( "k", o( T( w[0] ) * x ) ).k( "k2", o( k ) ).k( "c", o( conjugate( x ) ) ).k( "c2", o( c ) );
      e.k( "d", h::q( dot( x, y ) ) ).k( "n", h::q( x.normSquare() ) ).k( "l", h::qr( x.norm(), 1000 ) );
      Q m; m.setW( x.w() ); m.setX( x.x() ); m.setY( x.y() ); m.setZ( x.z() ); Q f; f.set( x.w(), x.x(), x.y(), x.z() ); e.k( "m", o( m ) ).k( "f", o( f ) ).k( "i", o( Q() ) ).k( "im", o( Q( x.impl() ) ) );
      Q g( y ); g = x; Q b( std::move( g ) ); e.k( "b", o( b ) );
      if( w[0] ) e.k( "q", r( x / T( w[0] ) ) ); else e.k( "q", LL{} );
    }
    else if( op == "qnorm" )
    {
      Q x = qi( u ); bool s = w[0] != 0; Q y = x, z, c; std::string r1 = h::guarded( [&] { y.normalise( s ); } ), r2 = h::guarded( [&] { z = normalise( x, s ); } ), r3 = h::guarded( [&] { c = Q( x.w(), x.x(), x.y(), x.z(), true ); } );
      double l = std::sqrt( dotd( x, x ) ); e.k( "r", r1 ).k( "r2", r2 ).k( "r3", r3 ).k( "y", o( y, l ) ).k( "z", o( z, l ) ).k( "c", o( c, l ) ).k( "x", o( Q( x.w(), x.x(), x.y(), x.z() ) ) );
    }
    else if( op == "rot" )
    {
      Q x = qu( u ); P p = pi3( v ), t = pi3( w ), s = p, g = p; s.rotate( x ); g.transform( x, t ); e.k( "s", r( s ) ).k( "s2", r( rotate( p, x ) ) ).k( "g", r( g ) ).k( "g2", r( transform( p, x, t ) ) );
      LP f( LP::PositionType{ float( v[0] ), float( v[1] ), float( v[2] ) }, Alg<float>::qu( u ) ); LP h2( f ); auto q = Alg<float>::qu( { w[0] + 1, w[1], w[2], 1 } ); h2.rotate( q ); LP h3( f ); h3.rotatePosition( q ); LP h4( f ); h4.rotateOrientation( q ); LP h5( f ); h5.translate( LP::PositionType( float( w[0] ), float( w[1] ), float( w[2] ) ) ); LP h6( f ); h6.transform( q, LP::PositionType( float( w[0] ), float( w[1] ), float( w[2] ) ) );
      e.k( "l", std::vector<h::J>{ ::show( f ), ::show( h2 ), ::show( h3 ), ::show( h4 ), ::show( h5 ), ::show( h6 ) } );
    }
    else if( op == "conv" ) // u: yaw, pitch, roll half angles as (cos,sin) pairs
    {
      T y = T( 2*std::atan2( double( u[1] ), double( u[0] ) ) ), p = T( 2*std::atan2( double( u[3] ), double( u[2] ) ) ), ro = T( 2*std::atan2( double( u[5] ), double( u[4] ) ) );
      Q x = Q::fromYPR( y, p, ro ), x2 = qi( { 1, 2, 3, 4 } ); x2.setYPR( y, p, ro ); Q b = Q::fromYPR( x.yaw(), x.pitch(), x.roll() );
      LP l( 1, 2, 3, float( y ), float( p ), float( ro ) ), l2( LP::PositionType( 1, 2, 3 ), LP::OrientationYPR{ float( y ), float( p ), float( ro ) } ), l3, l4; l3.setOrientationYPR( float( y ), float( p ), float( ro ) ); l4.setOrientationYPR( l.orientationYPR() );
      e.k( "x", matOf( x ) ).k( "x2", matOf( x2 ) ).k( "b", matOf( b ) ).k( "l", std::vector<h::J>{ h::J::conv( matOf( l.orientationQuaternion() ) ), h::J::conv( matOf( l2.orientationQuaternion() ) ), h::J::conv( matOf( l3.orientationQuaternion() ) ) } ).k( "l4", matOf( l4.orientationQuaternion() ) );
      e.k( "g", LL{ h::qr( x.yaw(), 1000 ), h::qr( x.pitch(), 1000 ), h::qr( x.roll(), 1000 ) } ).k( "sp", LL{ h::qr( std::sin( double( x.pitch() ) ), 10000 ), h::qr( std::sin( double( std::get<1>( l.orientationYPR() ) ) ), 10000 ) } );
    }
    else if( op == "axis" ) // u: axis, v: half angle (cos,sin), w: length of the axis
    {
      T h = T( 2*std::atan2( double( v[1] ), double( v[0] ) ) ); P ax = pi3( u ); Q x, x2, b; std::string r1 = h::guarded( [&] { x = Q::fromRotationVector( ax, h ); } ), r2 = h::guarded( [&] { x2.setRotationVector( ax, h ); } );
      LP l, l2, l3; std::string r3 = h::guarded( [&] { l.setOrientationRotationVector( LP::RotationVector( float( u[0] ), float( u[1] ), float( u[2] ) ), float( h ) ); } ), r4 = h::guarded( [&] { l2 = LP::fromRotationVector( LP::PositionType( 4, 5, 6 ), LP::RotationVector( float( u[0] ), float( u[1] ), float( u[2] ) ), float( h ) ); } );
      e.k( "r", Strs{ r1, r2, r3, r4 } ); if( r1.empty() ) b = Q::fromRotationVector( x.rotationVector(), x.rotationAngle() );
      l3.setOrientationRotationVector( l.orientationRotationVector(), l.orientationRotationAngle() );
      e.k( "x", matOf( x ) ).k( "x2", matOf( x2 ) ).k( "b", matOf( b ) ).k( "l", matOf( l.orientationQuaternion() ) ).k( "l2", matOf( l2.orientationQuaternion() ) ).k( "l3", matOf( l3.orientationQuaternion() ) ).k( "p", posOf( l2 ) );
      double n = std::sqrt( double( u[0]*u[0] + u[1]*u[1] + u[2]*u[2] ) ); e.k( "vec", r( x.rotationVector(), 1000*n ) ).k( "ang", h::qr( x.rotationAngle(), 10000 ) ).k( "full", h::qr( 2*pi, 10000 ) ).k( "want", h::qr( std::fmod( double( h ) + 4*pi, 2*pi ), 10000 ) );
    }
    else if( op == "qang" )
    {
      Q x = qi( u ), y = qi( v ); T g = -1, g2 = -1; std::string r1 = h::guarded( [&] { g = angle( x, y ); } ), r2; e.k( "r", r1 );
      if( r1.empty() ) { g2 = angleNormalised( qu( u ), qu( v ) ); }
      e.k( "c", h::qr( std::cos( double( g ) ), 10000 ) ).k( "c2", h::qr( std::cos( double( g2 ) ), 10000 ) ).k( "g", h::qr( g, 1000 ) );
    }
    else if( op == "pang" )
    {
      P x = pi3( u ), y = pi3( v ); T g = -1, g2 = -1; std::string r1 = h::guarded( [&] { g = angle( x, y ); } ); e.k( "r", r1 ); double n = std::sqrt( dotd( x, x ) * dotd( y, y ) );
      if( r1.empty() ) { g2 = angleNormalised( normalise( x ), normalise( y ) ); }
      e.k( "c", h::qr( std::cos( double( g ) ) * n, 1000 ) ).k( "c2", h::qr( std::cos( double( g2 ) ) * n, 1000 ) ).k( "g", h::qr( g, 1000 ) );
    }
    else if( op == "plin" )
    {
      P x = pi3( u ), y = pi3( v ), z = x, s = x, t = x, k = x, f, g, m; z += y; s -= y; t.translate( y ); k *= T( w[0] ); f.set( x.x(), x.y(), x.z() ); g.setX( x[0] ); g.setY( x[1] ); g.setZ( x[2] ); m[0] = x.x(); m.y() = x[1]; m[2] = x.z(); P c( y ); c = x; P b( std::move( c ) ); P d = x; d += d;
      e.k( "add", o( x + y ) ).k( "add2", o( z ) ).k( "t", o( t ) ).k( "sub", o( x - y ) ).k( "sub2", o( s ) ).k( "neg", o( -x ) ).k( "k", o( T( w[0] ) * x ) ).k( "k2", o( k ) ).k( "d", h::q( dot( x, y ) ) ).k( "n", h::q( x.normSquare() ) ).k( "l", h::qr( x.norm(), 1000 ) ).k( "f", o( f ) ).k( "g", o( g ) ).k( "m", o( m ) ).k( "b", o( b ) ).k( "dd", o( d ) ).k( "i", o( P() ) );
      double l = std::sqrt( dotd( x, x ) ); P y1 = x, y2; std::string r1 = h::guarded( [&] { y1.normalise(); } ), r2 = h::guarded( [&] { y2 = normalise( x ); } ); e.k( "r", r1 ).k( "r2", r2 ).k( "y", o( y1, l ) ).k( "z", o( y2, l ) );
      if( w[0] ) e.k( "q", r( x / T( w[0] ) ) ); else e.k( "q", LL{} );
    }
    else if( op == "qslerp" or op == "pslerp" ) // w: numerator, denominator
    {
      std::string r1; LL res, at; double A = 0, B = 0, O = 0, len = 0; double t = double( w[0] ) / w[1];
      auto run = [&]( auto const & x, auto const & y ) { auto z = x; r1 = h::guarded( [&] { z = interpolateSpherical( x, y, T( t ) ); } ); if( !r1.empty() ) return; double nx = std::sqrt( dotd( x, x ) ), ny = std::sqrt( dotd( y, y ) ); len = std::sqrt( dotd( z, z ) ); A = ang( dotd( z, x )/nx/len ); B = ang( dotd( z, y )/ny/len ); O = ang( dotd( x, y )/nx/ny ); res = r( z ); };
      if( op == "qslerp" ) run( qi( u ), qi( v ) ); else run( pi3( u ), pi3( v ) );
      double n1 = 0, n2 = 0; for( auto x : u ) n1 += double( x*x ); for( auto x : v ) n2 += double( x*x );
      e.k( "r", r1 ).k( "y", res ).k( "A", h::qr( A, 1000 ) ).k( "B", h::qr( B, 1000 ) ).k( "O", h::qr( O, 1000 ) ).k( "len", h::qr( len, 1000 ) ).k( "l1", h::qr( std::sqrt( n1 ), 1000 ) ).k( "l2", h::qr( std::sqrt( n2 ), 1000 ) );
    }
    else { fprintf( stderr, "bad op %s\n", op.c_str() ); exit( 77 ); }
    e.done();
  }
};
static LL ll( h::Args const & a, std::size_t n ) { LL r; for( int v : a.il( n ) ) r.push_back( v ); return r; }
static double deg( double c, double s ) { return 2 * std::atan2( s, c ) * 180 / pi; }
static void exec( h::Args const & a )
{
  std::string const & op = a.op();
  if( op == "mk" ) // mk offset rotationJson form(0 default,1 quaternion,2 ypr) numbers
  {
    st.reset(); st.reset( new S ); auto o = ll( a, 1 ); auto v = ll( a, 4 ); LP::PositionType p{ float( o[0] ), float( o[1] ), float( o[2] ) }; st->ctx.reset( new SignalFlowContext( 16, 48000 ) );
    std::string r = h::guarded( [&] {
      if( a.i( 3 ) == 0 ) st->c.reset( new rcl::PositionDecoder( *st->ctx, "c", nullptr, p ) );
      else if( a.i( 3 ) == 1 ) st->c.reset( new rcl::PositionDecoder( *st->ctx, "c", nullptr, p, Alg<float>::qu( v ) ) );
      else st->c.reset( new rcl::PositionDecoder( *st->ctx, "c", nullptr, p, LP::OrientationYPR{ float( deg( v[0], v[1] ) * pi / 180 ), float( deg( v[2], v[3] ) * pi / 180 ), float( deg( v[4], v[5] ) * pi / 180 ) } ) );
      st->d.reset( new h::Drive( *st->c, 16 ) ); } );
    h::Ev( "mk" ).k( "r", r ).k( "off", o ).k( "rot", Raw( a.hex( 2 ) ) ).done();
  }
  else if( op == "msg" ) { st->d->enqueue( "messageInput", std::unique_ptr<ParameterBase>( new pml::StringParameter( a.hex( 1 ) ) ) ); h::Ev( "msg" ).k( "m", Raw( a.hex( 2 ) ) ).done(); }
  else if( op == "blk" ) { h::Mat o; std::string r = st->d->block( {}, o ); h::Ev( "blk" ).k( "r", r ).done(); }
  else if( op == "read" )
  {
    auto & p = st->d->dbOut( "positionOutput" ); h::Ev e( "read" ); e.k( "ch", p.changed() ); show( e, dynamic_cast<LP const &>( static_cast<pml::DoubleBufferingProtocol::InputBase const &>( p ).data() ) ); if( a.i( 1 ) ) p.resetChanged(); e.k( "reset", a.i( 1 ) != 0 ).done();
  }
  else if( op == "rt" ) // rt text abstract fmt via
  {
    LP x( 9, 8, 7, 1, 1, 1 ), y( 5, 5, 5, 2, 1, 0 ); x.setFaceID( 77 ); x.setTimeNs( 78 ); x.setNumberOfListeners( 79 ); y.setFaceID( 70 ); y.setTimeNs( 71 ); int via = int( a.i( 4 ) );
    std::string t = a.hex( 1 ); std::string r = h::guarded( [&] { if( via == 0 ) x.parseJson( t ); else if( via == 1 ) { std::stringstream s( t ); x.parseJson( s ); } else if( via == 2 ) x = LP::fromJson( t ); else if( via == 3 ) { std::stringstream s( t ); x = LP::fromJson( s ); } else x = LP::fromJson( js( t ) ); } );
    auto fmt = a.i( 3 ) == 0 ? LP::RotationFormat::YPR : a.i( 3 ) == 1 ? LP::RotationFormat::RotationVector : LP::RotationFormat::Quaternion;
    if( r.empty() ) r = h::guarded( [&] { LP c( x ); std::string w; if( via < 2 ) w = c.writeJson( fmt, via == 1 ); else if( via == 2 ) { std::stringstream s; c.writeJson( s, fmt, true ); w = s.str(); } else { boost::property_tree::ptree p; c.writeJson( p, fmt ); std::stringstream s; write_json( s, p ); w = s.str(); } y.parseJson( w ); } );
    h::Ev e( "rt" ); e.k( "r", r ).k( "m", Raw( a.hex( 2 ) ) ).k( "fmt", a.i( 3 ) ).k( "a", show( x ) ).k( "b", show( y ) ).done();
  }
  else { LL u = ll( a, 2 ), v = ll( a, 3 ), w = ll( a, 4 ); if( a.i( 1 ) ) Alg<double>::exec( a, u, v, w ); else Alg<float>::exec( a, u, v, w ); }
}
int main( int argc, char ** argv ) { pml::initialiseParameterLibrary(); return h::run( argc, argv, [] { st.reset(); }, exec ); }
