// Loudspeaker arrays and objects for the harnesses of the renderer.
#pragma once
#include "drive.hpp"
#include <libobjectmodel/channel_object.hpp>
#include <libobjectmodel/diffuse_source.hpp>
#include <libobjectmodel/hoa_source.hpp>
#include <libobjectmodel/plane_wave.hpp>
#include <libobjectmodel/point_source_extent.hpp>
#include <libobjectmodel/point_source_with_diffuseness.hpp>
#include <libobjectmodel/point_source_with_reverb.hpp>
#include <libpanning/LoudspeakerArray.h>
#include <libpml/listener_position.hpp>
#include <libpml/object_vector.hpp>
#include <librbbl/parametric_iir_coefficient_calculator.hpp>
using namespace visr; using panning::LoudspeakerArray; namespace om = objectmodel;
using L = std::vector<long long>; using LL = std::vector<L>; using Strs = std::vector<std::string>; using Iir = rbbl::ParametricIirCoefficient<float>;
struct Quiet { std::streambuf * o, * e; std::ofstream n{ "/dev/null" }; Quiet() : o( std::cout.rdbuf( n.rdbuf() ) ), e( std::cerr.rdbuf( n.rdbuf() ) ) {} ~Quiet() { std::cout.rdbuf( o ); std::cerr.rdbuf( e ); } };
static Strs split( std::string const & s, char c ) { Strs r; std::stringstream ss( s ); std::string w; while( std::getline( ss, w, c ) ) r.push_back( w ); return r; }
static L ints( std::string const & s ) { h::Args a; a.t = { s }; auto v = a.il( 0 ); return L( v.begin(), v.end() ); }
static std::map<long long, std::unique_ptr<LoudspeakerArray>> as;
static float rate = 48000.0f;
// the fields of an array, without braces
static h::J show( LoudspeakerArray const & a )
{
  std::size_t n = a.getNumSpeakers(), m = a.getNumRegularSpeakers(); LL pos, tri, rer; Strs ids;
  for( std::size_t i = 0; i < n; ++i ) { auto const & p = a.getPosition( i ); pos.push_back( { h::q( p.x ), h::q( p.y ), h::q( p.z ) } ); ids.push_back( a.loudspeakerId( i ) ); }
  for( std::size_t i = 0; i < a.getNumTriplets(); ++i ) { auto const & t = a.getTriplet( i ); L v{ (long long)t[0] + 1, (long long)t[1] + 1 }; if( !a.is2D() ) v.push_back( (long long)t[2] + 1 ); tri.push_back( v ); }
  for( std::size_t v = 0; v + m < n; ++v ) { L w; for( std::size_t i = 0; i < m; ++i ) w.push_back( h::qr( a.getReroutingCoefficient( v, i ), 1000 ) ); rer.push_back( w ); }
  return h::J{ "\"d2\":" + h::J::b( a.is2D() ).s + ",\"n\":" + std::to_string( m ) + ",\"pos\":" + h::J::conv( pos ).s + ",\"tri\":" + h::J::conv( tri ).s + ",\"rer\":" + h::J::conv( rer ).s + ",\"ids\":" + h::J::conv( ids ).s };
}
static L coef( rbbl::BiquadCoefficient<float> const & b ) { return { h::qr( b.b0(), 1000000 ), h::qr( b.b1(), 1000000 ), h::qr( b.b2(), 1000000 ), h::qr( b.a1(), 1000000 ), h::qr( b.a2(), 1000000 ) }; }
static Iir preset( long long k ) { using T = Iir::Type; float const f = rate / 48000.0f; return k == 0 ? Iir( T::lowpass, 1000.0f * f, 0.7f ) : k == 1 ? Iir( T::peak, 3000.0f * f, 2.0f, -6.0f ) : k == 2 ? Iir( T::highshelf, 8000.0f * f, 1.0f, 3.0f ) : Iir( T::highpass, 80.0f * f, 0.5f ); }
// id:type:level/8:diffuseness/8:channels:equalisers:extra
static std::unique_ptr<om::Object> object( std::string const & s, h::J & j )
{
  auto f = split( s, ':' ); f.resize( 7 ); unsigned id = unsigned( std::stoul( f[0] ) ); std::string t = f[1]; long long lev = std::stoll( f[2] ), df = std::stoll( f[3] ); L ch = ints( f[4] ), eq = ints( f[5] ), p; Strs lab; LL empty; std::string out = "[]"; float d = float( df / 8.0 );
  std::unique_ptr<om::Object> o;
  auto place = [&]( om::PointSource & q ) { p = ints( f[6] ); q.setX( float( p[0] ) ); q.setY( float( p[1] ) ); q.setZ( float( p[2] ) ); };
  if( t == "pt" ) { auto q = std::make_unique<om::PointSource>( id ); place( *q ); o = std::move( q ); }
  else if( t == "rev" ) { auto q = std::make_unique<om::PointSourceWithReverb>( id ); place( *q ); o = std::move( q ); }
  else if( t == "psd" ) { auto q = std::make_unique<om::PointSourceWithDiffuseness>( id ); place( *q ); q->setDiffuseness( d ); o = std::move( q ); }
  else if( t == "ext" ) { auto q = std::make_unique<om::PointSourceExtent>( id ); place( *q ); q->setDiffuseness( d ); o = std::move( q ); }
  else if( t == "pw" ) { p = ints( f[6] ); auto q = std::make_unique<om::PlaneWave>( id ); q->setIncidenceAzimuth( float( 90 * p[0] ) ); q->setIncidenceElevation( float( 90 * p[1] ) ); q->setReferenceDistance( float( p[2] ) ); o = std::move( q ); }
  else if( t == "diff" ) o = std::make_unique<om::DiffuseSource>( id );
  else if( t == "chan" ) { auto q = std::make_unique<om::ChannelObject>( id ); q->setDiffuseness( d ); o = std::move( q ); }
  else o = std::make_unique<om::HoaSource>( id );
  o->setLevel( float( lev / 8.0 ) ); o->resetNumberOfChannels( ch.size() ); for( std::size_t k = 0; k < ch.size(); ++k ) o->setChannelIndex( k, unsigned( ch[k] ) );
  if( t == "chan" )
  {
    om::ChannelObject::OutputChannelContainer c; auto v = split( f[6], '/' ); for( auto const & w : v ) { c.push_back( w == "-" ? Strs() : split( w, '+' ) ); }
    static_cast<om::ChannelObject &>( *o ).setOutputChannels( c ); out = "["; for( std::size_t k = 0; k < c.size(); ++k ) out += ( k ? "," : "" ) + h::J::conv( c[k] ).s; out += "]";
  }
  rbbl::ParametricIirCoefficientList<float> el; el.resize( eq.size() ); LL ex; for( std::size_t k = 0; k < eq.size(); ++k ) { el.at( k ) = preset( eq[k] ); ex.push_back( coef( rbbl::ParametricIirCoefficientCalculator::calculateIirCoefficients<float>( preset( eq[k] ), rate ) ) ); }
  o->setEqCoefficients( el );
  j = h::J{ "{\"id\":" + std::to_string( id ) + ",\"t\":\"" + t + "\",\"lev\":" + std::to_string( lev * 125 ) + ",\"d\":" + std::to_string( df * 125 ) + ",\"c\":" + h::J::conv( ch ).s + ",\"p\":" + h::J::conv( p ).s + ",\"o\":" + out + ",\"e\":" + h::J::conv( eq ).s + ",\"q\":" + h::J::conv( ex ).s + "}" };
  return o;
}
