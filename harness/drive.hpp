// Runs a component (as top-level flow) block by block and talks to its parameter ports.
#pragma once
#include "h.hpp"
#include <libpml/double_buffering_protocol.hpp>
#include <libpml/initialise_parameter_library.hpp>
#include <libpml/message_queue_protocol.hpp>
#include <libpml/shared_data_protocol.hpp>
#include <librrl/audio_signal_flow.hpp>
#include <libvisr/component.hpp>
#include <libvisr/signal_flow_context.hpp>
#include <mutex>
namespace h
{
using Mat = std::vector<std::vector<double>>;
struct Drive
{
  visr::rrl::AudioSignalFlow flow; std::size_t per;
  Drive( visr::Component & c, std::size_t period ) : flow( c ), per( period ) {}
  // returns "" or the kind of exception
  std::string block( Mat const & in, Mat & out )
  {
    std::size_t nc = flow.numberOfCaptureChannels(), np = flow.numberOfPlaybackChannels();
    std::vector<std::vector<float>> ib( nc, std::vector<float>( per ) ), ob( np, std::vector<float>( per, -12345.0f ) );
    for( std::size_t c = 0; c < nc; ++c ) for( std::size_t k = 0; k < per; ++k ) ib[c][k] = static_cast<float>( in.at( c ).at( k ) );
    std::vector<float const *> ip; std::vector<float *> op;
    for( auto const & v : ib ) ip.push_back( v.data() );
    for( auto & v : ob ) op.push_back( v.data() );
    std::string r = guarded( [&] { flow.process( ip.data(), op.data() ); } );
    out.clear();
    for( auto const & v : ob ) out.emplace_back( v.begin(), v.end() );
    return r;
  }
  template<class P> P & db( char const * name ) // back buffer of a double-buffering input of the component
  { return dynamic_cast<P &>( dynamic_cast<visr::pml::DoubleBufferingProtocol::OutputBase &>( flow.externalParameterReceivePort( name ) ).data() ); }
  void swap( char const * name, bool copy = false ) { dynamic_cast<visr::pml::DoubleBufferingProtocol::OutputBase &>( flow.externalParameterReceivePort( name ) ).swapBuffers( copy ); }
  template<class P> P & sd( char const * name )
  { return dynamic_cast<P &>( dynamic_cast<visr::pml::SharedDataProtocol::OutputBase &>( flow.externalParameterReceivePort( name ) ).data() ); }
  void enqueue( char const * name, std::unique_ptr<visr::ParameterBase> p )
  { dynamic_cast<visr::pml::MessageQueueProtocol::OutputBase &>( flow.externalParameterReceivePort( name ) ).enqueue( std::move( p ) ); }
  visr::pml::MessageQueueProtocol::InputBase & mqOut( char const * name ) { return dynamic_cast<visr::pml::MessageQueueProtocol::InputBase &>( flow.externalParameterSendPort( name ) ); }
  visr::pml::DoubleBufferingProtocol::InputBase & dbOut( char const * name ) { return dynamic_cast<visr::pml::DoubleBufferingProtocol::InputBase &>( flow.externalParameterSendPort( name ) ); }
};
} // namespace h
