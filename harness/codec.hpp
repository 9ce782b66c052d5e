// Maps small integers into parameter objects of every parameter type and back, so that the
// specifications can talk about "the value" of a parameter whatever its type is.
#pragma once
#include "h.hpp"
#include <libobjectmodel/channel_object.hpp>
#include <libobjectmodel/point_source.hpp>
#include <libpml/biquad_parameter.hpp>
#include <libpml/empty_parameter_config.hpp>
#include <libpml/filter_routing_parameter.hpp>
#include <libpml/indexed_value_parameter.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/interpolation_parameter.hpp>
#include <libpml/listener_position.hpp>
#include <libpml/matrix_parameter.hpp>
#include <libpml/matrix_parameter_config.hpp>
#include <libpml/object_vector.hpp>
#include <libpml/scalar_parameter.hpp>
#include <libpml/signal_routing_parameter.hpp>
#include <libpml/sparse_gain_routing_parameter.hpp>
#include <libpml/string_parameter.hpp>
#include <libpml/time_frequency_parameter.hpp>
#include <libpml/time_frequency_parameter_config.hpp>
#include <libpml/vector_parameter.hpp>
#include <libpml/vector_parameter_config.hpp>
#include <complex>

namespace codec
{
using namespace visr;
using namespace visr::pml;
using V = long long;

struct Codec
{
  ParameterType type;
  std::shared_ptr<ParameterConfigBase> config;
  std::function<void( ParameterBase &, V )> set;
  std::function<V( ParameterBase const & )> get;
};

template<class T> Codec mk( std::shared_ptr<ParameterConfigBase> cfg, std::function<void( T &, V )> s, std::function<V( T const & )> g )
{
  return Codec{ T::staticType(), cfg, [s]( ParameterBase & p, V v ) { s( dynamic_cast<T &>( p ), v ); },
    [g]( ParameterBase const & p ) -> V { T const * t = dynamic_cast<T const *>( &p ); return t ? g( *t ) : h::cBad; } };
}

inline std::map<std::string, Codec> const & all()
{
  static std::map<std::string, Codec> m;
  if( !m.empty() ) return m;
  auto empty = std::make_shared<EmptyParameterConfig>();
  m["int"] = mk<ScalarParameter<int>>( empty, []( auto & p, V v ) { p = static_cast<int>( v ); }, []( auto const & p ) -> V { return p.value(); } );
  m["uint"] = mk<ScalarParameter<unsigned int>>( empty, []( auto & p, V v ) { p = static_cast<unsigned>( v ); }, []( auto const & p ) -> V { return p.value(); } );
  m["float"] = mk<ScalarParameter<float>>( empty, []( auto & p, V v ) { p = static_cast<float>( v ); }, []( auto const & p ) -> V { return h::q( p.value() ); } );
  m["double"] = mk<ScalarParameter<double>>( empty, []( auto & p, V v ) { p = static_cast<double>( v ); }, []( auto const & p ) -> V { return h::q( p.value() ); } );
  m["cfloat"] = mk<ScalarParameter<std::complex<float>>>( empty, []( auto & p, V v ) { p = std::complex<float>( v, -v ); },
    []( auto const & p ) -> V { auto c = p.value(); return c.imag() == -c.real() ? h::q( c.real() ) : h::cBad; } );
  m["string"] = mk<StringParameter>( empty, []( auto & p, V v ) { p.assign( std::string( v % 7, 'x' ) + ":" + std::to_string( v ) ); },
    []( auto const & p ) -> V { std::string s = p.str(); auto c = s.find( ':' ); if( c == std::string::npos ) return h::cBad; V v = atoll( s.c_str() + c + 1 ); return s == std::string( v % 7, 'x' ) + ":" + std::to_string( v ) ? v : h::cBad; } );
  auto vcfg = std::make_shared<VectorParameterConfig>( 3 );
  m["vecf"] = mk<VectorParameter<float>>( vcfg, []( auto & p, V v ) { for( std::size_t i = 0; i < p.size(); ++i ) p[i] = static_cast<float>( v + 1000 * i ); },
    []( auto const & p ) -> V { if( p.size() != 3 ) return h::cBad; for( std::size_t i = 0; i < 3; ++i ) if( p[i] != p[0] + 1000 * i ) return h::cBad; return h::q( p[0] ); } );
  m["vecd"] = mk<VectorParameter<double>>( vcfg, []( auto & p, V v ) { for( std::size_t i = 0; i < p.size(); ++i ) p[i] = static_cast<double>( v + 1000 * i ); },
    []( auto const & p ) -> V { if( p.size() != 3 ) return h::cBad; for( std::size_t i = 0; i < 3; ++i ) if( p[i] != p[0] + 1000 * i ) return h::cBad; return h::q( p[0] ); } );
  auto mcfg = std::make_shared<MatrixParameterConfig>( 2, 3 );
  m["matf"] = mk<MatrixParameter<float>>( mcfg, []( auto & p, V v ) { for( std::size_t i = 0; i < p.numberOfRows(); ++i ) for( std::size_t j = 0; j < p.numberOfColumns(); ++j ) p( i, j ) = static_cast<float>( v + 1000 * i + 100000 * j ); },
    []( auto const & p ) -> V { if( p.numberOfRows() != 2 or p.numberOfColumns() != 3 ) return h::cBad; for( std::size_t i = 0; i < 2; ++i ) for( std::size_t j = 0; j < 3; ++j ) if( p( i, j ) != p( 0, 0 ) + 1000 * i + 100000 * j ) return h::cBad; return h::q( p( 0, 0 ) ); } );
  m["matd"] = mk<MatrixParameter<double>>( mcfg, []( auto & p, V v ) { for( std::size_t i = 0; i < p.numberOfRows(); ++i ) for( std::size_t j = 0; j < p.numberOfColumns(); ++j ) p( i, j ) = static_cast<double>( v + 1000 * i + 100000 * j ); },
    []( auto const & p ) -> V { if( p.numberOfRows() != 2 or p.numberOfColumns() != 3 ) return h::cBad; for( std::size_t i = 0; i < 2; ++i ) for( std::size_t j = 0; j < 3; ++j ) if( p( i, j ) != p( 0, 0 ) + 1000 * i + 100000 * j ) return h::cBad; return h::q( p( 0, 0 ) ); } );
  m["routing"] = mk<SignalRoutingParameter>( empty, []( auto & p, V v ) { p.clear(); for( V k = 0; k <= v % 3; ++k ) p.addRouting( v + k, k ); },
    []( auto const & p ) -> V { if( p.empty() ) return h::cBad; V v = static_cast<V>( p.begin()->input ); if( static_cast<V>( p.size() ) != v % 3 + 1 ) return h::cBad; V k = 0; for( auto const & e : p ) { if( static_cast<V>( e.input ) != v + k or static_cast<V>( e.output ) != k ) return h::cBad; ++k; } return v; } );
  m["listener"] = mk<ListenerPosition>( empty, []( auto & p, V v ) { p.set( v, 2 * v, 3 * v ); p.setOrientationQuaternion( ListenerPosition::OrientationQuaternion( 0.5f, -0.5f, 0.5f, static_cast<float>( v ), false ) ); p.setTimeNs( v + 5 ); p.setFaceID( v + 6 ); p.setNumberOfListeners( v + 7 ); },
    []( auto const & p ) -> V { V v = h::q( p.x() ); auto o = p.orientationQuaternion(); if( p.y() != 2 * p.x() or p.z() != 3 * p.x() or static_cast<V>( p.timeNs() ) != v + 5 or static_cast<V>( p.faceID() ) != v + 6 or static_cast<V>( p.numberOfListeners() ) != v + 7 ) return h::cBad;
      if( o.w() != 0.5f or o.x() != -0.5f or o.y() != 0.5f or o.z() != static_cast<float>( v ) ) return h::cBad; return v; } );
  m["objects"] = mk<pml::ObjectVector>( empty, []( auto & p, V v ) { p.clear(); for( V k = 0; k <= v % 3; ++k ) { objectmodel::PointSource o( static_cast<unsigned>( 10 + k ) ); o.setX( v ); o.setLevel( k ); o.resetNumberOfChannels( 1 ); o.setChannelIndex( 0, k ); p.insert( o ); } },
    []( auto const & p ) -> V { if( p.size() == 0 ) return h::cBad; V v = -1, k = 0; for( auto const & e : p ) { auto const * o = dynamic_cast<objectmodel::PointSource const *>( &e ); if( !o ) return h::cBad; if( k == 0 ) v = h::q( o->x() ); if( h::q( o->x() ) != v or static_cast<V>( o->id() ) != 10 + k or h::q( o->level() ) != k or o->numberOfChannels() != 1 or static_cast<V>( o->channelIndex( 0 ) ) != k ) return h::cBad; ++k; }
      return k == v % 3 + 1 ? v : h::cBad; } );
  m["idxstr"] = mk<IndexedStringType>( empty, []( auto & p, V v ) { p.setIndex( v ); p.setValue( std::to_string( v ) ); }, []( auto const & p ) -> V { return p.value() == std::to_string( p.index() ) ? static_cast<V>( p.index() ) : h::cBad; } );
  m["idxvec"] = mk<IndexedVectorFloatType>( empty, []( auto & p, V v ) { p.setIndex( v ); p.setValue( std::vector<float>( v % 5, static_cast<float>( v ) ) ); },
    []( auto const & p ) -> V { V v = p.index(); return p.value() == std::vector<float>( v % 5, static_cast<float>( v ) ) ? v : h::cBad; } );
  m["interp"] = mk<pml::InterpolationParameter>( std::make_shared<InterpolationParameterConfig>( 2 ), []( auto & p, V v ) { p.setId( v ); p.setIndices( std::vector<std::size_t>{ static_cast<std::size_t>( v + 1 ), static_cast<std::size_t>( v + 2 ) } ); p.setWeights( std::vector<float>{ v + 0.5f, v + 0.25f } ); },
    []( auto const & p ) -> V { V v = p.id(); if( p.numberOfInterpolants() != 2 or static_cast<V>( p.index( 0 ) ) != v + 1 or static_cast<V>( p.index( 1 ) ) != v + 2 or p.weight( 0 ) != v + 0.5f or p.weight( 1 ) != v + 0.25f ) return h::cBad; return v; } );
  m["filtrout"] = mk<FilterRoutingListParameter>( empty, []( auto & p, V v ) { rbbl::FilterRoutingList e; p.swap( e ); for( V k = 0; k <= v % 3; ++k ) p.addRouting( k, k + 1, v, 0.5 * k ); },
    []( auto const & p ) -> V { if( p.empty() ) return h::cBad; V v = p.begin()->filterIndex, k = 0; for( auto const & e : p ) { if( static_cast<V>( e.inputIndex ) != k or static_cast<V>( e.outputIndex ) != k + 1 or static_cast<V>( e.filterIndex ) != v or e.gainLinear != 0.5 * k ) return h::cBad; ++k; } return k == v % 3 + 1 ? v : h::cBad; } );
  m["sparse"] = mk<SparseGainRoutingListParameter>( empty, []( auto & p, V v ) { p.clear(); for( V k = 0; k <= v % 3; ++k ) p.addRouting( k, k + 1, v, 0.5f * k ); },
    []( auto const & p ) -> V { if( p.empty() ) return h::cBad; V v = p.begin()->columnIndex, k = 0; for( auto const & e : p ) { if( static_cast<V>( e.entryIndex ) != k or static_cast<V>( e.rowIndex ) != k + 1 or static_cast<V>( e.columnIndex ) != v or e.gain != 0.5f * k ) return h::cBad; ++k; } return k == v % 3 + 1 ? v : h::cBad; } );
  m["biquad"] = mk<BiquadParameterMatrix<float>>( mcfg, []( auto & p, V v ) { for( std::size_t i = 0; i < 2; ++i ) for( std::size_t j = 0; j < 3; ++j ) p( i, j ) = rbbl::BiquadCoefficient<float>( v, i, j, v + 1, v + 2 ); },
    []( auto const & p ) -> V { if( p.numberOfFilters() != 2 or p.numberOfSections() != 3 ) return h::cBad; float v = p( 0, 0 ).b0(); for( std::size_t i = 0; i < 2; ++i ) for( std::size_t j = 0; j < 3; ++j ) { auto const & c = p( i, j ); if( c.b0() != v or c.b1() != i or c.b2() != j or c.a1() != v + 1 or c.a2() != v + 2 ) return h::cBad; } return h::q( v ); } );
  m["tf"] = mk<TimeFrequencyParameter<float>>( std::make_shared<TimeFrequencyParameterConfig>( 3, 2, 2 ), []( auto & p, V v ) { for( std::size_t f = 0; f < p.numberOfFrames(); ++f ) for( std::size_t c = 0; c < p.numberOfChannels(); ++c ) for( std::size_t b = 0; b < p.numberOfDftBins(); ++b ) p.at( f, c, b ) = std::complex<float>( v, 100 * f + 10 * c + b ); },
    []( auto const & p ) -> V { if( p.numberOfDftBins() != 3 or p.numberOfChannels() != 2 or p.numberOfFrames() != 2 ) return h::cBad; float v = p.at( 0, 0, 0 ).real(); for( std::size_t f = 0; f < 2; ++f ) for( std::size_t c = 0; c < 2; ++c ) for( std::size_t b = 0; b < 3; ++b ) if( p.at( f, c, b ) != std::complex<float>( v, 100 * f + 10 * c + b ) ) return h::cBad; return h::q( v ); } );
  return m;
}
inline Codec const & get( std::string const & n ) { return all().at( n ); }
} // namespace codec
