def P(id, title, statement, over, text, why, files, mech, note, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note)
    d.update(kw)
    return d

TV = 'Bounded model checking of the specification plus trace validation of generated executions of the real libraries (built with AddressSanitizer from /repo); says nothing about executions not generated. '

PROPS = [
P('P01', 'A signal flow computes exactly what its connections say',
  'For every hierarchical signal flow that is accepted, each output channel after each processed block is exactly the signal obtained by following the registered connections channel by channel through the components, starting from the flow\'s input channels. This does not depend on how components are nested, on the order or splitting of the connections, on fan-out, or on the memory layout (channel and sample strides, row pointers) of the external input and output buffers.',
  ['programs', 'inputs', 'histories'], 'all accepted hierarchical flows, all registration orders, all block sequences and external buffer layouts',
  'Tests build a handful of fixed flows; the mapping of channels to internal buffers depends on the complete graph.',
  ['src/librrl/audio_signal_flow.cpp', 'src/librrl/communication_area.hpp', 'src/librrl/audio_connection_map.cpp', 'src/librrl/signal_routing_internal.cpp', 'src/libvisr/composite_component.cpp'],
  [('AudioSignalFlow::process', 'src/librrl/audio_signal_flow.cpp'), ('AudioConnectionMap placeholder resolution', 'src/librrl/audio_connection_map.cpp'), ('AudioSignalFlow::initialiseAudioConnections', 'src/librrl/audio_signal_flow.cpp')],
  TV + 'Flows with up to about a dozen components, 3 nesting levels, integer sample values.'),
P('P02', 'Each component runs once per block, after everything it depends on',
  'In every processed block each atomic component of an accepted flow is executed exactly once, and only after every component whose audio output or parameter output (through any chain of nested composites) feeds one of its inputs. A flow whose connections contain a dependency cycle is never accepted.',
  ['programs', 'histories'], 'all flows and all audio/parameter dependency graphs',
  'The execution order is chosen from the whole dependency graph; tests contain only chains and small fixed graphs.',
  ['src/librrl/scheduling_graph.cpp', 'src/librrl/audio_signal_flow.cpp', 'src/librrl/parameter_connection_graph.cpp'],
  [('SchedulingGraph::initialise', 'src/librrl/scheduling_graph.cpp'), ('AudioSignalFlow::executeComponents', 'src/librrl/audio_signal_flow.cpp')],
  TV + 'Execution order observed from inside test components.'),
P('P03', 'Exactly the consistent signal flows are accepted',
  'A signal flow is accepted if and only if at every composite level each receiving audio channel has exactly one source, each sending audio channel is used, connected audio ports carry the same sample type and run in a legal direction, all channel indices exist, and every parameter port is connected to ports of the same protocol, parameter type and configuration within the multiplicity that protocol allows. Otherwise building it throws, and never yields a flow that runs with a missing, doubled or mistyped connection.',
  ['programs', 'configurations'], 'all composites and all sets of registered connections, correct or not',
  'Tests contain few faulty graphs; each kind of fault can hide at any level and behind other connections.',
  ['src/librrl/integrity_checking.cpp', 'src/librrl/audio_connection_map.cpp', 'src/librrl/parameter_connection_map.cpp', 'src/librrl/port_utilities.cpp', 'src/libvisr/impl/composite_component_implementation.cpp'],
  [('checkConnectionIntegrity', 'src/librrl/integrity_checking.cpp'), ('parameter port compatibility', 'src/librrl/port_utilities.cpp')],
  TV + 'Faulty and correct graphs generated by mutation.'),
P('P04', 'Message queues deliver every message exactly once and in order',
  'A receiver attached to a message queue obtains exactly the messages the sender enqueued, each once, unmodified and in the order sent, for any interleaving of sending, inspecting, taking and clearing; the reported size and emptiness always agree with that. Inspecting or taking from an empty queue throws and changes nothing.',
  ['histories', 'inputs'], 'all operation sequences, all parameter types',
  'Tests push and pop a few messages of one type.',
  ['src/libpml/message_queue_protocol.cpp', 'src/libpml/message_queue_protocol.hpp'],
  [('MessageQueueProtocol', 'src/libpml/message_queue_protocol.cpp')], TV + 'Histories are generated by TLC from the specification and by a random driver; 20 parameter types.'),
P('P05', 'Double-buffered parameters change only when published, for all receivers',
  'A value written by the sender of a double-buffered connection becomes visible to the receivers only when it is published, and then to all attached receivers at once with their change notification raised; a receiver\'s notification stays raised until that receiver resets it and is independent of the other receivers. If the sender asks for the value to be kept it continues from the published value.',
  ['histories', 'inputs'], 'all sequences of writes, publications, resets, attachments for any number of receivers and all parameter types',
  'Tests cover one receiver and one publication.',
  ['src/libpml/double_buffering_protocol.cpp', 'src/libpml/double_buffering_protocol.hpp', 'src/libvisr/typed_parameter_base.hpp'],
  [('DoubleBufferingProtocol::swapBuffers', 'src/libpml/double_buffering_protocol.cpp')], TV + 'Histories are generated by TLC from the specification and by a random driver; 20 parameter types.'),
P('P06', 'Parameter connections obey their attach/detach rules and share one value',
  'Ports attach only to a protocol instance of their own kind; a second sender, and for message queues a second receiver, is refused without disturbing the existing connection; detaching reports whether the port was attached, makes it report no connection, and allows attaching again. On a shared-data connection every attached receiver always sees exactly the sender\'s current value.',
  ['histories'], 'all sequences of attach, detach and data operations on several protocol instances and ports',
  'Tests never detach or attach twice.',
  ['src/libpml/shared_data_protocol.cpp', 'src/libpml/message_queue_protocol.cpp', 'src/libpml/double_buffering_protocol.cpp', 'src/libvisr/communication_protocol_factory.cpp'],
  [('connectInput/connectOutput/disconnect*', 'src/libpml/*_protocol.cpp')], TV + 'All histories of length 2 plus long simulated ones, generated by TLC from the specification.'),
P('P07', 'Parameters reach all their consumers, in the same block, through any nesting',
  'A parameter sent by a component in a block is received by exactly the components connected to it, directly or through any chain of composite ports, in the same block; parameters exchanged through the flow\'s external parameter ports are received and delivered unchanged and in order. The block counter seen by components counts the completed blocks, and a block in which a component throws reports the failure to the caller and does not advance it.',
  ['programs', 'histories', 'schedules'], 'all flows with parameter connections of all protocols, all histories of external parameter exchange, all blocks',
  'Tests use few fixed parameter topologies and no failing components.',
  ['src/librrl/parameter_connection_map.cpp', 'src/librrl/parameter_connection_graph.cpp', 'src/librrl/audio_signal_flow.cpp', 'src/libvisr/time.hpp'],
  [('AudioSignalFlow::initialiseParameterInfrastructure', 'src/librrl/audio_signal_flow.cpp'), ('ParameterConnectionMap', 'src/librrl/parameter_connection_map.cpp')],
  TV + 'Includes concurrent external parameter exchange guarded by the published mutex.'),
P('P08', 'Block-size adaptation preserves the sample stream',
  'For any sequence of call sizes and buffer layouts, the output of a flow driven through the flexible buffer wrapper is the concatenation of the outputs the flow itself produces for consecutive fixed-size blocks of the concatenated input, delayed by a constant number of samples that does not depend on the call sizes. No sample is lost, repeated, reordered or moved to another channel.',
  ['inputs', 'histories'], 'all sequences of call sizes and strides', 'Tests use one or two call sizes.',
  ['src/librrl/flexible_buffer_wrapper.cpp'], [('FlexibleBufferWrapper::process', 'src/librrl/flexible_buffer_wrapper.cpp')], TV),
P('P09', 'Object-to-channel allocation is stable, exclusive and complete',
  'After every accepted update of the active object set every active object has a channel, no two objects share one, every object that was active before keeps its channel, and no inactive object holds one; the queries agree with that assignment. An update with more objects than channels or with a repeated object, and a query for a channel out of range, is refused with an exception and changes nothing.',
  ['histories'], 'all sequences of object sets and channel counts', 'Tests follow a few fixed update sequences.',
  ['src/librbbl/object_channel_allocator.cpp'], [('ObjectChannelAllocator::setObjects', 'src/librbbl/object_channel_allocator.cpp')], TV + 'Histories are generated by TLC from the specification.'),
P('P10', 'Scene updates accumulate: each object shows its latest received state',
  'After any sequence of scene messages the published scene contains every object ever received with exactly the state its last applied update gave it, independent of how the updates were split into messages or blocks and of the order of different objects. An update describes an object completely, except that an object keeps its channels when an update of the same type has no valid channel list. A malformed object description changes no object, and a malformed message does not stop later messages from being applied.',
  ['histories', 'inputs', 'fault_sequences'], 'all sequences of scene messages, well-formed or not, over any number of blocks', 'Tests decode single messages.',
  ['src/librcl/scene_decoder.cpp', 'src/libobjectmodel/object_vector_parser.cpp', 'src/libobjectmodel/object_vector.cpp'],
  [('SceneDecoder::process', 'src/librcl/scene_decoder.cpp'), ('ObjectVectorParser::updateObjectVector', 'src/libobjectmodel/object_vector_parser.cpp')], TV),
P('P11', 'Encoding a scene and decoding it again yields the same scene',
  'For every object of every supported object type, writing an object vector as a message and reading it back yields an object vector with the same objects, types and attribute values (up to the printed precision; an unlimited channel lock becomes one of 180 degrees), also through the encoder and decoder components. The same holds for equaliser lists in JSON and XML. Copying object vectors and objects yields equal and independent objects.',
  ['inputs'], 'all object types and attribute combinations', 'Tests encode a few objects and do not compare all attributes.',
  ['src/libobjectmodel/object_parser.cpp', 'src/libobjectmodel/point_source_extent_parser.cpp', 'src/libobjectmodel/object_vector_parser.cpp', 'src/librcl/scene_encoder.cpp'],
  [('ObjectVectorParser::encodeObjectVector', 'src/libobjectmodel/object_vector_parser.cpp'), ('ObjectParser::write/parse', 'src/libobjectmodel/object_parser.cpp')], TV),
P('P12', 'Delay lines return exactly the delayed input',
  'Reading a delay line or circular buffer at a delay within its documented range returns, per channel, exactly the input written that many samples before, with zeros before the start, for any sequence of block writes and reads and any admissible maximum delay. Fractional delays are interpolated by the selected method (nearest sample or Lagrange of the selected order), whose own delay is added, compensated down to its minimum, or required as minimum according to the configured policy; delays out of range are refused with an exception. The delay components produce the scaled delayed input for constant delays and gains; each newly set delay or gain starts a linear transition of the configured length from the values in effect at that moment, including in the middle of an earlier transition, and setting delays does not disturb the gains and vice versa.',
  ['inputs', 'histories', 'configurations'], 'all sample sequences, block sizes, maximum delays, delay and gain change histories', 'Tests only check few delays away from the wrap-around and the maximum.',
  ['src/librbbl/circular_buffer.cpp', 'src/librbbl/multichannel_delay_line.cpp', 'src/librcl/delay_vector.cpp', 'src/librcl/delay_matrix.cpp'],
  [('MultichannelDelayLine::interpolate', 'src/librbbl/multichannel_delay_line.cpp'), ('CircularBuffer', 'src/librbbl/circular_buffer.cpp'), ('DelayVector::process', 'src/librcl/delay_vector.cpp')], TV),
P('P13', 'The multichannel convolver equals direct convolution',
  'At any time the output of the partitioned convolver is, for every output channel, the sum over the current routings of gain times the direct convolution of the complete past input of the routed channel with the current filter, for any block size, filter length and history of filter and routing changes. Adding, replacing and removing routings and filters report and have exactly their documented effect, and setting a single filter or routing that is out of range (or beyond the maximum number of routings) is refused without changing anything. The FIR filter matrix component applies the filter and routing messages received at its control inputs, in order, before the next block; an invalid message makes that block fail, is dropped, and does not affect later messages.',
  ['inputs', 'histories', 'configurations'], 'all inputs, block sizes, filter lengths, and histories of routing/filter changes', 'Tests check one static configuration, mostly without comparing values.',
  ['src/librbbl/multichannel_convolver_uniform.cpp', 'src/librbbl/core_convolver_uniform.cpp', 'src/librcl/fir_filter_matrix.cpp'],
  [('CoreConvolverUniform::process', 'src/librbbl/core_convolver_uniform.cpp'), ('MultichannelConvolverUniform::setRoutingEntry', 'src/librbbl/multichannel_convolver_uniform.cpp')], TV + 'FFT rounding is absorbed by rounding to integers.'),
P('P14', 'Filter exchange crossfades along the documented ramp',
  'After a filter or interpolant of the crossfading and interpolating convolvers is replaced, the output moves from the old to the new filter\'s output along the documented linear ramp of the configured length and then equals the new filter\'s output exactly, independently for every filter slot. Slots that were not changed and routings are unaffected. Without a configured transition, or when the change is requested without starting one, no new ramp is started. An interpolant is the weighted sum of the stored filters at the time it is set. Requests with an invalid filter, routing or interpolant index or a wrong number of interpolation coefficients are refused without effect; the components apply the control messages received before a block in order.',
  ['inputs', 'histories', 'configurations'], 'all histories of filter/interpolant changes, ramp lengths and block sizes', 'Tests do not check the output values.',
  ['src/librbbl/crossfading_convolver_uniform.cpp', 'src/librbbl/interpolating_convolver_uniform.cpp', 'src/librcl/crossfading_fir_filter_matrix.cpp'],
  [('CrossfadingConvolverUniform::process', 'src/librbbl/crossfading_convolver_uniform.cpp'), ('InterpolatingConvolverUniform::setInterpolant', 'src/librbbl/interpolating_convolver_uniform.cpp')], TV),
P('P15', 'Gain changes are continuous ramps that reach their target',
  'After gains of a gain vector or gain matrix are changed, every output moves linearly from the gain in effect to the new one over the configured interpolation time and stays exactly there, independently for every channel and matrix element. Every application of new gains starts such a transition from the gains in effect at that moment, so repeated or overlapping changes never make the applied gain jump (with a non-zero interpolation time). A gain matrix with a shared-data gain input applies the current content of that input in every block. In a sparse gain matrix, entries that keep their position continue from the gain in effect.',
  ['inputs', 'histories', 'configurations'], 'all gain histories, interpolation lengths and block sizes', 'Tests do not compare samples during transitions.',
  ['src/librbbl/gain_fader.cpp', 'src/librbbl/gain_matrix.cpp', 'src/librcl/gain_vector.cpp', 'src/librcl/gain_matrix.cpp'],
  [('GainFader::scale', 'src/librbbl/gain_fader.cpp'), ('GainMatrix::setNewGains', 'src/librbbl/gain_matrix.cpp')], TV),
P('P16', 'Routing tables behave as keyed maps and drive exactly the routed signals',
  'Signal, filter and sparse-gain routing tables hold exactly one entry per key after any sequence of insertions, removals, clears and (text or JSON) parses; lookups, removals and iteration agree with that content, and a parse that fails leaves no partial or foreign entry. The signal routing component outputs, per output channel, exactly the input selected by the current table, and silence where there is none.',
  ['inputs', 'histories'], 'all operation sequences and all texts', 'Tests insert a few entries.',
  ['src/libpml/signal_routing_parameter.cpp', 'src/librbbl/filter_routing.cpp', 'src/librbbl/sparse_gain_routing.cpp', 'src/librcl/signal_routing.cpp'],
  [('SignalRoutingParameter', 'src/libpml/signal_routing_parameter.cpp'), ('SignalRouting::process', 'src/librcl/signal_routing.cpp')], TV),
P('P17', 'Index and value list expressions expand to exactly the written sequence',
  'Every text accepted as an index or value list expands to exactly the sequence its comma-separated items and ranges denote (single values, ascending, descending and strided ranges with inclusive ends), and every other text is rejected with an exception. Channel lists and channel ranges enumerate exactly the indices they were built from, and a printed channel list, read back as an index sequence, denotes the same indices.',
  ['inputs'], 'all texts over the list alphabet', 'Tests try a few strings.',
  ['src/librbbl/index_sequence.cpp', 'src/librbbl/float_sequence.cpp', 'src/libvisr/channel_list.cpp'],
  [('IndexSequence', 'src/librbbl/index_sequence.cpp'), ('FloatSequence', 'src/librbbl/float_sequence.cpp'), ('ChannelRange/ChannelList', 'src/libvisr/channel_list.cpp')], TV),
P('P18', 'UDP components forward every datagram once, in order and unmodified',
  'Every message handed to the UDP sender component that fits into a datagram (at most 65507 bytes) is sent as one datagram with exactly its content, exactly once and in order, from the configured port, in synchronous operation during the process() call and in asynchronous operation by the network thread; a message that cannot be sent is dropped (synchronous operation reports it by an exception) and affects neither the messages after it nor the program. Every datagram arriving at the receiver component is delivered exactly once, unmodified and in arrival order to its parameter output (in synchronous operation by the next process() call); a failed receive operation delivers nothing. No interleaving of process() with the network threads breaks this, and process() and the network threads never access the queues unsynchronised.',
  ['schedules', 'inputs', 'histories'], 'all message contents (including empty and binary ones) and sizes, all interleavings of the network threads with block processing, busy sockets and failing operations', 'Tests need a network peer and only print.',
  ['src/librcl/udp_sender.cpp', 'src/librcl/udp_receiver.cpp'], [('UdpReceiver::process', 'src/librcl/udp_receiver.cpp'), ('UdpSender::process', 'src/librcl/udp_sender.cpp')], TV + 'Uses the loopback interface.'),
P('P19', 'Component and port registries stay consistent',
  'Within one composite component names, and within one component port names, are unique; looking up by name finds exactly the registered entry, full names spell the path from the root, and port lists show exactly the existing ports in registration order. Duplicate names are refused without disturbing the existing entry, and components and ports can be destroyed in any order.',
  ['histories', 'programs'], 'all construction, lookup, resize and destruction histories', 'Tests construct static flows.',
  ['src/libvisr/component.cpp', 'src/libvisr/impl/component_implementation.cpp', 'src/libvisr/impl/composite_component_implementation.cpp', 'src/libvisr/impl/port_container.hpp'],
  [('ComponentImplementation', 'src/libvisr/impl/component_implementation.cpp'), ('ComponentContainer', 'src/libvisr/impl/composite_component_implementation.cpp')], TV),
P('P20', 'The runtime profiler keeps exactly the latest measurements',
  'The profiler of a flow holds exactly the most recent measurements up to its capacity, one per processed block and component; statistics, snapshots and resets agree with that content for any capacity, and enabling or disabling it never changes the signal flow\'s results.',
  ['histories', 'configurations'], 'all enable/process/snapshot/reset histories and capacities', 'Not covered by tests for wrap-around.',
  ['src/librrl/runtime_profiler.cpp', 'src/librrl/runtime_profiler.hpp', 'src/librrl/audio_signal_flow.cpp'], [('RuntimeProfiler', 'src/librrl/runtime_profiler.cpp')], TV),
P('P21', 'Listener positions follow the preferred face and its newest message',
  'For any stream of head-tracking messages, each processed block publishes the listener position of the smallest face id among the well-formed messages received for it, taken from the newest message of that face by timestamp (the later one of equals), with position and orientation rotated by the configured rotation and the position shifted by the configured offset; malformed messages are skipped without affecting others, and nothing is published when no well-formed message arrived. Writing a listener position as JSON in any orientation format and reading it again gives the same position, orientation, time, face and number of listeners.',
  ['histories', 'fault_sequences'], 'all message streams', 'Tests feed one or two messages.',
  ['src/librcl/position_decoder.cpp', 'src/libpml/listener_position.cpp'], [('PositionDecoder::process', 'src/librcl/position_decoder.cpp')], TV),
P('P22', 'Parameter containers keep their shape and content through copy, assign and text',
  'Vectors, matrices and time-frequency parameters of every element type and alignment return exactly what was stored, keep it through copying, assigning, swapping and resizing, and read text exactly as written, rejecting malformed text; assigning incompatible shapes or types is refused with an exception and no change. Configurations compare equal exactly when all their fields agree.',
  ['inputs', 'histories', 'configurations'], 'all shapes, alignments, operation sequences and texts', 'Tests use a few sizes.',
  ['src/libefl/basic_matrix.hpp', 'src/libefl/basic_vector.hpp', 'src/libpml/matrix_parameter.cpp', 'src/libpml/vector_parameter.cpp', 'src/libpml/time_frequency_parameter.cpp', 'src/libpml/matrix_parameter_config.cpp'],
  [('BasicMatrix', 'src/libefl/basic_matrix.hpp'), ('BasicVector', 'src/libefl/basic_vector.hpp')], TV),
P('P23', 'Recursive and FIR filters carry their state exactly across blocks',
  'The output of the biquad filter bank, and of the direct FIR filter, equals the difference equation applied to the complete input stream of each channel with the coefficients in effect, whatever the block size and however the stream is cut into blocks; a coefficient change of one channel or section affects only that channel and keeps the filter state.',
  ['inputs', 'histories', 'configurations'], 'all inputs, block partitions, coefficient histories', 'Tests do not compare across block partitions.',
  ['src/librcl/biquad_iir_filter.cpp', 'src/librbbl/fir.cpp', 'src/libefl/reference/filter_functions.cpp'], [('BiquadIirFilter::process', 'src/librcl/biquad_iir_filter.cpp'), ('FIR', 'src/librbbl/fir.cpp')], TV),
P('P24', 'Rotations and positions obey the algebra of rotations',
  'Quaternions multiply, conjugate, add, scale and normalise as quaternions do; rotating a position or a listener position by a unit quaternion, by yaw, pitch and roll (yaw about z applied last, pitch about y, roll about x) or by an axis and angle turns it by exactly that rotation, converting between these forms preserves the rotation, transforming is rotating and then shifting; angles between rotations and between positions, and spherical interpolation from any start to any end (including equal ones), are geometrically correct; zero vectors are refused where a direction is needed.',
  ['inputs'], 'all quaternions, positions, angles and interpolation positions', 'Tests of rotations exist for the Python bindings only, with a few values.',
  ['src/librbbl/quaternion.cpp', 'src/librbbl/position_3d.cpp', 'src/libpml/listener_position.cpp'], [('Quaternion', 'src/librbbl/quaternion.cpp'), ('Position3D', 'src/librbbl/position_3d.cpp')], TV),
P('P25', 'Numeric kernels compute every element, and only those',
  'Every vector operation of the numeric library (fill, ramp, copy, add, subtract, multiply, multiply-add, their constant, in-place and strided forms, ramp-shaped scaling), for every element type and with the reference or any processor specific implementation installed, leaves in each element of the destination range exactly the documented function of the elements before the call, and every other element of every vector unchanged, for every length (also 0), offset and destination that is itself an operand; operands that do not have the stated alignment, and alignments that are no power of two, are reported and change nothing, while an alignment of 0 accepts every pointer. Matrix products with arbitrary strides, conversions between number types (rounding to the nearest integer, ties to even) and Lagrange interpolation coefficients of every order are those of the definition.',
  ['inputs', 'histories'], 'all operations, element types, implementations, lengths, offsets, strides, alignments and aliases', 'The result depends on the remainder of the length, the alignment and the implementation chosen for the processor at run time; tests use a few lengths and mostly the reference.',
  ['src/libefl/vector_functions.cpp', 'src/libefl/reference/vector_functions_impl.hpp', 'src/libefl/intel_x86_64/vector_multiply.cpp', 'src/libefl/intel_x86_64/vector_multiply_add.cpp', 'src/libefl/intel_x86_64/vector_ramp_scaling.cpp', 'src/libefl/matrix_functions.cpp', 'src/libefl/reference/vector_conversions_impl.hpp', 'src/libefl/lagrange_coefficient_calculator.cpp'],
  [('reference kernels', 'src/libefl/reference/vector_functions_impl.hpp'), ('SIMD kernels', 'src/libefl/intel_x86_64/vector_multiply_add.cpp'), ('checkAlignment', 'src/libefl/alignment.hpp')], TV),
P('P26', 'Loudspeaker array configurations are read exactly, or refused',
  'A loudspeaker array configuration is accepted exactly if it is consistent: valid unique identifiers, positive unique output channels, complete coordinates, triplets, routings and subwoofer assignments that name existing loudspeakers (regular ones for routings and subwoofers), weights matching the assignment, at most one kind of gain, equaliser names that exist and fit. An accepted array presents what was written: loudspeakers sorted by output channel with their positions, gains, delays, channels and equalisers, virtual ones after them, triplets, rerouting and subwoofer gains on the right indices, defaults where nothing is given, independent of the spelling (order, blanks, Cartesian or polar, linear or decibel). Loading again replaces the previous contents completely, and copies and assignments (also to itself) are equal to and independent of the original.',
  ['inputs', 'histories'], 'all configurations, correct or faulty, and all sequences of loading, copying and assigning', 'Tests load a few correct files, and none twice, with virtual loudspeakers as targets, or copied.',
  ['src/libpanning/LoudspeakerArray.cpp', 'src/libpanning/LoudspeakerArray.h', 'src/libpanning/XYZ.h'],
  [('LoudspeakerArray::loadXmlStream', 'src/libpanning/LoudspeakerArray.cpp')], TV + 'Positions, gains and delays chosen to be exactly representable.'),
P('P27', 'Panning gains reproduce the source direction for any array and listener',
  'For every triangulated loudspeaker array (two- or three-dimensional, regular and virtual loudspeakers), every listener position and every source, VBAP uses one triplet that contains the direction seen from the listener, with the non-negative gains whose weighted unit vectors add up to the source vector; plane waves are panned in their direction whatever the listener position, the height of listener and source is ignored for plane arrays, gains of virtual loudspeakers are distributed over the regular ones by the rerouting gains, normalised gains have unit energy, and only a source that no triplet can render is refused. AllRAD and the adaptive HOA gain calculator play a decoder for a regular array through those gains, follow listener changes from the next block on, give each channel of each HOA object its decoder row, leave all other channels as received, and refuse tables and objects that do not fit.',
  ['inputs', 'histories'], 'all arrays, listener and source positions, decoding tables, and sequences of listener and object changes', 'Tests use one or two arrays, one listener position, and no border cases, moving listeners or unfitting objects.',
  ['src/libpanning/VBAP.cpp', 'src/libpanning/AllRAD.cpp', 'src/librcl/hoa_allrad_gain_calculator.cpp'],
  [('VBAP::calcPlainVBAP, calcInvMatrices', 'src/libpanning/VBAP.cpp'), ('AllRAD::setListenerPosition', 'src/libpanning/AllRAD.cpp'), ('HoaAllRadGainCalculator::process', 'src/librcl/hoa_allrad_gain_calculator.cpp')],
  TV + 'Gains compared to about 0.6 %; sources on the border of a triplet may be rendered by either neighbour.'),
P('P28', 'Object metadata becomes the right gains, equalisers, routings and delays',
  'For every sequence of object vectors and listener positions, the calculators of the renderers compute, from the objects delivered last and the listener position of the same block: panning matrices whose column for the channel of an object holds the normalised direct gains (low-frequency VBAP gains times one minus the diffuseness, their square roots for high frequencies, the labelled loudspeakers of channel objects) and equal diffuse gains times the diffuseness; level and equaliser sections (padded with flat ones) of each object channel; diffuse gains; routings of channel objects with exclusive use of loudspeakers; delays and attenuations aligning all regular loudspeakers at the listener. Channels without object are silent, a listener movement takes effect without new objects, unknown labels and channels beyond the configured number touch nothing, and levels that do not fit are refused.',
  ['inputs', 'histories'], 'all arrays, configurations, object vectors and sequences of object and listener changes', 'Tests run one calculator with one scene of few objects, without listener changes, channel objects or out-of-range channels.',
  ['src/librcl/panning_calculator.cpp', 'src/librcl/object_gain_eq_calculator.cpp', 'src/librcl/diffusion_gain_calculator.cpp', 'src/librcl/channel_object_routing_calculator.cpp', 'src/librcl/listener_compensation.cpp'],
  [('PanningCalculator::process', 'src/librcl/panning_calculator.cpp'), ('ObjectGainEqCalculator::process', 'src/librcl/object_gain_eq_calculator.cpp'), ('ListenerCompensation::process', 'src/librcl/listener_compensation.cpp')],
  TV + 'Gains of a channel used by several objects are not specified; panning gains compared to about 0.6 %, the rest to the rounding.'),
P('P29', 'A complete renderer plays every object as its metadata says',
  'The complete renderer behaves as one linear system that follows the scene: each output channel carries, for every object channel, the signal weighted with level and panning gain (split by diffuseness, diffuse part through the loudspeaker\'s decorrelation filter, object equaliser applied), compensated for the tracked listener, then mixed to the subwoofers, equalised, scaled and delayed as the array says, on exactly the output channel the array names; all other output channels are silent, and inputs without object are not heard. This holds with and without tracking, equalisers, subwoofers and frequency-dependent panning, and for the stand-alone renderer whose scene and listener position arrive by UDP. An array that does not fit into the output channels is refused.',
  ['inputs', 'configurations', 'histories'], 'all arrays, renderer configurations, scenes, listener positions and input signals', 'No test runs the renderer against expected signals; one test runs one configuration without checks.',
  ['src/libsignalflows/core_renderer.cpp', 'src/libsignalflows/baseline_renderer.cpp', 'src/librcl/gain_matrix.cpp', 'src/librcl/delay_vector.cpp', 'src/librcl/biquad_iir_filter.cpp', 'src/librcl/fir_filter_matrix.cpp'],
  [('CoreRenderer', 'src/libsignalflows/core_renderer.cpp'), ('BaselineRenderer', 'src/libsignalflows/baseline_renderer.cpp')],
  TV + 'Stationary response only (transitions: P15); signals compared to about 1 % of their largest contribution; the late reverberation part is not configured.'),
P('P30', 'Time-frequency transforms are exact, and the inverse rebuilds the signal',
  'For every transform size, window, hop size, normalisation, period and number of channels, frame g of the time-frequency transform is the DFT of the windowed samples ending with hop g of the input stream (zeros before its start), one frame per hop, in order and for each channel; the inverse transform outputs, for every hop of the period, the overlapped sum of the inverse DFTs of all frames so far; both in sequence give the windowed, overlapped and correctly scaled input. Hop sizes that do not divide the period, windows longer than the transform, hops longer than the transform and unknown implementations are refused.',
  ['inputs', 'configurations', 'histories'], 'all transform sizes, windows, hops, normalisations, signals and block histories', 'The C++ tests do not run these components.',
  ['src/librcl/time_frequency_transform.cpp', 'src/librcl/time_frequency_inverse_transform.cpp', 'src/librbbl/kiss_fft_wrapper.hpp', 'src/libpml/time_frequency_parameter.hpp'],
  [('TimeFrequencyTransform::process', 'src/librcl/time_frequency_transform.cpp'), ('TimeFrequencyInverseTransform::process', 'src/librcl/time_frequency_inverse_transform.cpp')], TV + 'Values compared to about 0.3 %.'),
]

NA = []
