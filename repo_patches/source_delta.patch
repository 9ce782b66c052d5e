From 16b14bfeb2a32784cf5eccc00d959dc9cdea1772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:23 +0000
Subject: [PATCH 01/88] fix: internal signal routing of double-precision ports
 must not assume float alignment

---
 src/librrl/signal_routing_internal.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/librrl/signal_routing_internal.cpp b/src/librrl/signal_routing_internal.cpp
index a379abb..7270464 100644
--- a/src/librrl/signal_routing_internal.cpp
+++ b/src/librrl/signal_routing_internal.cpp
@@ -54,10 +54,12 @@ void SignalRoutingInternal<SampleType>::process()
 {
   std::size_t const outputWidth = mInputIndices.size();
   std::size_t const blockSize = period();
+  // The signal pool aligns the channels in bytes, hence the alignment in elements depends on the sample type of this component.
+  static const std::size_t cAlignmentSamples = cVectorAlignmentBytes / sizeof( SampleType );
   for( std::size_t chIdx(0); chIdx < outputWidth; ++chIdx )
   {
     std::size_t const inIdx = mInputIndices[chIdx];
-    efl::ErrorCode const res = efl::vectorCopy( mInput[inIdx], mOutput[chIdx], blockSize, cVectorAlignmentSamples );
+    efl::ErrorCode const res = efl::vectorCopy( mInput[inIdx], mOutput[chIdx], blockSize, cAlignmentSamples );
     if( res != efl::noError )
     {
       throw std::runtime_error( "rrl::SignalRoutingInternal: Copying of sample vector failed." );
-- 
2.43.0


From 6ff44baccdf37c919ad5c7f9a753168e41eb6214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:52 +0000
Subject: [PATCH 02/88] fix: reject audio connections between ports of
 different sample types

---
 src/librrl/integrity_checking.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/librrl/integrity_checking.cpp b/src/librrl/integrity_checking.cpp
index e3ca1b4..62041e1 100644
--- a/src/librrl/integrity_checking.cpp
+++ b/src/librrl/integrity_checking.cpp
@@ -153,6 +153,11 @@ namespace // unnamed namespace
       }
       (sendPortEntryIt->second)++;
       (receivePortEntryIt->second) ++;
+      if( connection.first.port()->sampleType() != connection.second.port()->sampleType() )
+      {
+        messages << "The send and receive sample types of the audio connection " << connection.first << "->" << connection.second << " do not match." << std::endl;
+        result = false;
+      }
     }
     for( AudioConnectionCountTable::value_type const & recEntry : receiveChannelTable )
     {
@@ -170,12 +175,6 @@ namespace // unnamed namespace
         result = false;
         continue;
       }
-      if( recEntry.first.port()->sampleType() != recEntry.first.port()->sampleType() )
-      {
-        messages << "The send and receive sample types of the connection " << recEntry.first << "->" << recEntry.second << "do not match.\n";
-        result = false;
-        continue;
-      }
     }
 
     // Ths might be turned into a warning instead, but requiring the user to terminate all dangling outputs reduces potential modelling errors.
-- 
2.43.0


From 16d28c9f97f3a2602689d5df3febeddadce3f997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:30 +0000
Subject: [PATCH 03/88] fix: compare the number of interpolants of
 InterpolationParameterConfig objects

---
 src/libpml/interpolation_parameter.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libpml/interpolation_parameter.cpp b/src/libpml/interpolation_parameter.cpp
index 08f8d7e..016c0b5 100644
--- a/src/libpml/interpolation_parameter.cpp
+++ b/src/libpml/interpolation_parameter.cpp
@@ -3,6 +3,9 @@
 #include "interpolation_parameter.hpp"
 
 #include <initializer_list>
+#include <stdexcept>
+#include <typeindex>
+#include <typeinfo>
 
 namespace visr
 {
@@ -27,15 +30,12 @@ std::unique_ptr< ParameterConfigBase > InterpolationParameterConfig::clone() con
 
 bool InterpolationParameterConfig::compare( ParameterConfigBase const & rhs ) const
 {
-  try
-  {
-    // InterpolationParameterConfig const & iParam = dynamic_cast<InterpolationParameterConfig const &>(rhs);
-    return true; // compare( iParam );
-  }
-  catch( std::bad_cast const & /*ex*/ )
+  // Same idiom as in the other parameter config classes.
+  if( std::type_index( typeid( rhs ) ) != std::type_index( typeid( InterpolationParameterConfig ) ) )
   {
     throw std::invalid_argument( "InterpolationParameterConfig::compare(): Called with incompatible config object." );
   }
+  return compare( static_cast<InterpolationParameterConfig const &>( rhs ) );
 }
 
 bool InterpolationParameterConfig::compare( InterpolationParameterConfig const & rhs ) const
-- 
2.43.0


From 2fd3dec30f3bd407710510d877a224c6edadc052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:46 +0000
Subject: [PATCH 04/88] fix: consider all connections to a parameter
 placeholder port when resolving connections

---
 src/librrl/parameter_connection_map.cpp | 65 ++++++++++++++-----------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/src/librrl/parameter_connection_map.cpp b/src/librrl/parameter_connection_map.cpp
index 40c9f69..67a9cf5 100644
--- a/src/librrl/parameter_connection_map.cpp
+++ b/src/librrl/parameter_connection_map.cpp
@@ -90,6 +90,41 @@ bool fillRecursive( ParameterConnectionMap & res, impl::ComponentImplementation
 }
 
 
+namespace // unnamed
+{
+
+/**
+ * Connect a receive port to all concrete send ports which are reachable through a (chain of) placeholder send port(s).
+ * All connections ending at a placeholder are followed, thus disallowed connections (e.g., several senders to one receiver)
+ * are preserved and can be detected when the flow is instantiated.
+ */
+void resolveSender( impl::ParameterPortBaseImplementation * receiver, impl::ParameterPortBaseImplementation * sender,
+                    ParameterConnectionMap const & fullConnections, std::size_t recursionCount,
+                    ParameterConnectionMap & flatConnections )
+{
+  if( not isPlaceholderPort( sender ) )
+  {
+    flatConnections.insert( std::make_pair( receiver, sender ) );
+    return;
+  }
+  // Last line of defence against a closed loop in the flow.
+  if( recursionCount >= fullConnections.size() )
+  {
+    throw std::runtime_error( "Audio signal connections: closed loop detected in placeholder port connections." );
+  }
+  auto const range = fullConnections.equal_range( sender );
+  if( range.first == range.second )
+  {
+    throw std::invalid_argument( "Unexpected error: unconnected receive port." );
+  }
+  for( auto it = range.first; it != range.second; ++it )
+  {
+    resolveSender( receiver, it->second, fullConnections, recursionCount + 1, flatConnections );
+  }
+}
+
+} // unnamed namespace
+
 ParameterConnectionMap resolvePlaceholders( ParameterConnectionMap const & fullConnections )
 {
   ParameterConnectionMap flatConnections;
@@ -101,35 +136,7 @@ ParameterConnectionMap resolvePlaceholders( ParameterConnectionMap const & fullC
     {
       continue;
     }
-    else if( not isPlaceholderPort( rawConnection.second ) )
-    {
-      flatConnections.insert( rawConnection ); // insert the connection unaltered
-    }
-    else // The sender is a placeholder
-    {
-      std::size_t const recursionLimit = fullConnections.size(); // Last line of defence against a closed loop in the flow.
-      std::size_t recursionCount = 1;
-
-      ParameterConnectionMap::const_iterator findIt = fullConnections.find( rawConnection.second );
-      for( ;; )
-      {
-        if( findIt == fullConnections.end() )
-        {
-          throw std::invalid_argument( "Unexpected error: unconnected receive port." );
-        }
-
-        if( not isPlaceholderPort( findIt->second ) )
-        {
-          flatConnections.insert( std::make_pair( rawConnection.first, findIt->second ) );
-          break;
-        }
-        if( ++recursionCount >= recursionLimit )
-        {
-          throw std::runtime_error( "Audio signal connections: closed loop detected in placeholder port connections." );
-        }
-        findIt = fullConnections.find( findIt->second );
-      }
-    }
+    resolveSender( rawConnection.first, rawConnection.second, fullConnections, 0, flatConnections );
   }
 
   return flatConnections;
-- 
2.43.0


From fb7f78732e46f0326c417eb739e89efaceab011c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:21 +0000
Subject: [PATCH 05/88] fix: honour the playback sample stride in
 FlexibleBufferWrapper calls that span several blocks

---
 src/librrl/flexible_buffer_wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librrl/flexible_buffer_wrapper.cpp b/src/librrl/flexible_buffer_wrapper.cpp
index 48dffc4..101b556 100644
--- a/src/librrl/flexible_buffer_wrapper.cpp
+++ b/src/librrl/flexible_buffer_wrapper.cpp
@@ -158,7 +158,8 @@ void FlexibleBufferWrapper::process( SampleType const * captureSamples,
 
     SampleType const * readPtr =
         mOutputBuffer.getReadPointer( 0, mOutputBufferLevel );
-    SampleType * outputWritePtr = playbackSamples + processedFrames;
+    SampleType * outputWritePtr =
+        playbackSamples + processedFrames * playbackSampleStride;
     for( std::size_t chIdx{ 0 }; chIdx < numPlaybackChannels; ++chIdx )
     {
       copyBuffer( readPtr + chIdx * mOutputBuffer.stride(),
-- 
2.43.0


From 2eb25f0e6dd68f8edd31344b4dccc86aefdea4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:39 +0000
Subject: [PATCH 06/88] fix: allow flows without inputs or without outputs in
 FlexibleBufferWrapper

---
 src/librrl/flexible_buffer_wrapper.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/librrl/flexible_buffer_wrapper.cpp b/src/librrl/flexible_buffer_wrapper.cpp
index 101b556..0ebe4a3 100644
--- a/src/librrl/flexible_buffer_wrapper.cpp
+++ b/src/librrl/flexible_buffer_wrapper.cpp
@@ -84,8 +84,11 @@ void FlexibleBufferWrapper::process( SampleType const * const * captureSamples,
     if( newBufferLevel == cInternalPeriod )
     {
       assert( mInputBufferLevel == cInternalPeriod );
-      SampleType const * procInputPtr{ mInputBuffer.getReadPointer(
-          0, cInternalPeriod ) };
+      // A flow without inputs has no channel to refer to.
+      SampleType const * procInputPtr{
+          numCaptureChannels > 0
+              ? mInputBuffer.getReadPointer( 0, cInternalPeriod )
+              : nullptr };
       SampleType * procOutputPtr{ mOutputBuffer.getFirstWritePointer() };
       mFlow.process( procInputPtr, mInputBuffer.stride(), 1, procOutputPtr,
                      mOutputBuffer.stride(), 1 );
@@ -95,7 +98,9 @@ void FlexibleBufferWrapper::process( SampleType const * const * captureSamples,
     }
 
     SampleType const * readPtr =
-        mOutputBuffer.getReadPointer( 0, mOutputBufferLevel );
+        numPlaybackChannels > 0
+            ? mOutputBuffer.getReadPointer( 0, mOutputBufferLevel )
+            : nullptr;
     for( std::size_t chIdx{ 0 }; chIdx < numPlaybackChannels; ++chIdx )
     {
       copyBuffer( readPtr + chIdx * mOutputBuffer.stride(),
@@ -146,8 +151,11 @@ void FlexibleBufferWrapper::process( SampleType const * captureSamples,
     if( newBufferLevel == cInternalPeriod )
     {
       assert( mInputBufferLevel == cInternalPeriod );
-      SampleType const * procInputPtr{ mInputBuffer.getReadPointer(
-          0, cInternalPeriod ) };
+      // A flow without inputs has no channel to refer to.
+      SampleType const * procInputPtr{
+          numCaptureChannels > 0
+              ? mInputBuffer.getReadPointer( 0, cInternalPeriod )
+              : nullptr };
       SampleType * procOutputPtr{ mOutputBuffer.getFirstWritePointer() };
       mFlow.process( procInputPtr, mInputBuffer.stride(), 1, procOutputPtr,
                      mOutputBuffer.stride(), 1 );
@@ -157,7 +165,9 @@ void FlexibleBufferWrapper::process( SampleType const * captureSamples,
     }
 
     SampleType const * readPtr =
-        mOutputBuffer.getReadPointer( 0, mOutputBufferLevel );
+        numPlaybackChannels > 0
+            ? mOutputBuffer.getReadPointer( 0, mOutputBufferLevel )
+            : nullptr;
     SampleType * outputWritePtr =
         playbackSamples + processedFrames * playbackSampleStride;
     for( std::size_t chIdx{ 0 }; chIdx < numPlaybackChannels; ++chIdx )
-- 
2.43.0


From fde7fc9e72f72b72287e9be2b1a3ae012b1f040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:39 +0000
Subject: [PATCH 07/88] fix: refuse duplicate object ids in
 ObjectChannelAllocator before changing the allocation

---
 src/librbbl/object_channel_allocator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/librbbl/object_channel_allocator.cpp b/src/librbbl/object_channel_allocator.cpp
index 53ef0b5..c1ac705 100644
--- a/src/librbbl/object_channel_allocator.cpp
+++ b/src/librbbl/object_channel_allocator.cpp
@@ -43,6 +43,10 @@ setObjects( std::vector<objectmodel::ObjectId > const & objectIds )
   std::vector<objectmodel::ObjectId >::iterator sortEnd
     = std::copy( objectIds.begin(), objectIds.end(), mSortedIds.begin() );
   std::sort( mSortedIds.begin(), sortEnd );
+  if( std::adjacent_find( mSortedIds.begin(), sortEnd ) != sortEnd )
+  {
+    throw std::invalid_argument( "ObjectChannelAllocator:setObjects(): The object ids must be unique." );
+  }
 
   // In order not to exceed the maximum channel number at some intermediate stage, we need to make two passes through the two data structures.
 
-- 
2.43.0


From 24e8bec1a63cd0da84c9ce3f1927e356b24da14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:39 +0000
Subject: [PATCH 08/88] fix: check the channel index in
 ObjectChannelAllocator::getObjectForChannel() as documented

---
 src/librbbl/object_channel_allocator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/librbbl/object_channel_allocator.cpp b/src/librbbl/object_channel_allocator.cpp
index c1ac705..efd0b74 100644
--- a/src/librbbl/object_channel_allocator.cpp
+++ b/src/librbbl/object_channel_allocator.cpp
@@ -106,6 +106,10 @@ objectmodel::ObjectId ObjectChannelAllocator::
 getObjectForChannel( std::size_t channelId ) const
 {
   assert( mLookup.size() == numberUsedChannels() );
+  if( channelId >= mMaxChannels )
+  {
+    throw std::invalid_argument( "ObjectChannelAllocator::getObjectForChannel(): Channel index exceeds the number of rendering channels." );
+  }
   ObjectChannelLookup::const_iterator const findIt =
     std::find_if( mLookup.begin(), mLookup.end(), [channelId]( ObjectChannelLookup::value_type const & v ) { return v.second == channelId; } );
   // ObjectChannelLookup::const_iterator const findIt = mLookup.find( channelId );
-- 
2.43.0


From 68302cf3cbc23c38c592ad1d9385ee786935079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:41 +0000
Subject: [PATCH 09/88] fix: throw exceptions instead of string literals for
 malformed index and float sequences

---
 src/librbbl/float_sequence.cpp | 2 +-
 src/librbbl/index_sequence.cpp | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/librbbl/float_sequence.cpp b/src/librbbl/float_sequence.cpp
index aa1df4b..7ea864a 100644
--- a/src/librbbl/float_sequence.cpp
+++ b/src/librbbl/float_sequence.cpp
@@ -90,7 +90,7 @@ FloatSequence<ElementType>::FloatSequence( std::string const & val )
 
         if( std::abs(inc) < std::numeric_limits<ElementType>::epsilon() )
         {
-          throw("FloatSequence: The increment of a range must not be zero.");
+          throw std::invalid_argument( "FloatSequence: The increment of a range must not be zero." );
         }
         ElementType val = start;
         if( inc > 0 )
diff --git a/src/librbbl/index_sequence.cpp b/src/librbbl/index_sequence.cpp
index 6b9a782..33ecdc1 100644
--- a/src/librbbl/index_sequence.cpp
+++ b/src/librbbl/index_sequence.cpp
@@ -51,7 +51,7 @@ IndexSequence::IndexSequence( std::string const & val )
         int const val = mStack[0];
         if( val < 0 )
         {
-          throw("IndexSequence: Indices must be greater or equal than zero.");
+          throw std::invalid_argument( "IndexSequence: Indices must be greater or equal than zero." );
         }
         mContents.push_back( static_cast<IndexType>(val) );
         break;
@@ -62,7 +62,7 @@ IndexSequence::IndexSequence( std::string const & val )
         int const end = mStack[1];
         if( start < 0 or end < 0 )
         {
-          throw("IndexSequence: The start and end values of a range must be greater or equal than zero.");
+          throw std::invalid_argument( "IndexSequence: The start and end values of a range must be greater or equal than zero." );
         }
         IndexType val = static_cast<IndexType>(mStack[0]);
         while( val <= static_cast<IndexType>(end) )
@@ -78,11 +78,11 @@ IndexSequence::IndexSequence( std::string const & val )
         int const end = mStack[2];
         if( start < 0 or end < 0 )
         {
-          throw("IndexSequence: The start and end values of a range must be greater or equal than zero.");
+          throw std::invalid_argument( "IndexSequence: The start and end values of a range must be greater or equal than zero." );
         }
         if( inc == 0 )
         {
-          throw("IndexSequence: The increment of a range must not be zero.");
+          throw std::invalid_argument( "IndexSequence: The increment of a range must not be zero." );
         }
         int val = start;
         if( inc > 0 )
-- 
2.43.0


From 00b110ffd1df09d0b96d643054ab74d6c6589212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:13 +0000
Subject: [PATCH 10/88] fix: printing an empty channel list must not
 dereference its end

---
 src/libvisr/channel_list.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libvisr/channel_list.cpp b/src/libvisr/channel_list.cpp
index d4f6fb3..74e2ec3 100644
--- a/src/libvisr/channel_list.cpp
+++ b/src/libvisr/channel_list.cpp
@@ -181,6 +181,10 @@ void ChannelList::appendIndex( IndexType index )
 
 std::ostream & operator<<( std::ostream & str, ChannelList const channels )
 {
+  if( channels.size() == 0 )
+  {
+    return str;
+  }
   for( ChannelList::const_iterator runIt(channels.begin());; )
   {
     ChannelList::const_iterator lookAheadIt( runIt );
-- 
2.43.0


From 7ea155fece5aa20298a835f67a42138d3a6b8ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:59 +0000
Subject: [PATCH 11/88] fix: print repeated channel indices individually
 instead of as a zero-stride range

---
 src/libvisr/channel_list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libvisr/channel_list.cpp b/src/libvisr/channel_list.cpp
index 74e2ec3..5c8736b 100644
--- a/src/libvisr/channel_list.cpp
+++ b/src/libvisr/channel_list.cpp
@@ -204,7 +204,7 @@ std::ostream & operator<<( std::ostream & str, ChannelList const channels )
         ++advanceCounter;
       }
       str << *runIt;
-      if( advanceCounter >= 2)
+      if( ( advanceCounter >= 2 ) and ( diff != 0 ) ) // Repeated indices cannot be expressed as a range.
       {
         if( diff != 1 )
         {
-- 
2.43.0


From 1bab700cdc1094359763e9e4225b0e7a870ffb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:50 +0000
Subject: [PATCH 12/88] fix: accept whitespace between the entries of a signal
 routing text

---
 src/libpml/signal_routing_parameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libpml/signal_routing_parameter.cpp b/src/libpml/signal_routing_parameter.cpp
index 679650a..20f5586 100644
--- a/src/libpml/signal_routing_parameter.cpp
+++ b/src/libpml/signal_routing_parameter.cpp
@@ -125,7 +125,7 @@ bool SignalRoutingParameter::parse( std::string const & encoded )
                                   boost::placeholders::_1 ) ] >>
           '=' >> qi::uint_[ boost::bind( &ParseState::setOutIdx, &state,
                                          boost::placeholders::_1 ) ] ) %
-        ( ',' | qi::blank ) ),
+        -qi::lit( ',' ) ),
       qi::ascii::space );
 
   if( ( not parseRet ) or ( first != last ) )
-- 
2.43.0


From 2a43bf338e5826e33f9f5359cca2ee8185bd991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:50 +0000
Subject: [PATCH 13/88] fix: reject filter routing entries with a mismatching
 number of filter indices

---
 src/librbbl/filter_routing.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/librbbl/filter_routing.cpp b/src/librbbl/filter_routing.cpp
index aa6d76d..cf661ca 100644
--- a/src/librbbl/filter_routing.cpp
+++ b/src/librbbl/filter_routing.cpp
@@ -92,12 +92,9 @@ FilterRoutingList::FilterRoutingList( std::initializer_list<FilterRouting> const
     }
     // Special case: If both input and output indices are scalar, the filter cpec cannot be non-scalar, because this would mean multiple
     // routings for the same (input,output) combination.
-    if( filterIndices.size( ) != numEntries )
+    if( (filterIndices.size( ) != 1) and( filterIndices.size( ) != numEntries ) )
     {
-      if( (numEntries == 1) and( filterIndices.size( ) != 1 ) )
-      {
-        throw std::invalid_argument( "FilterRoutingList:parseJson: All non-scalar entries must have the same number of indices" );
-      }
+      throw std::invalid_argument( "FilterRoutingList:parseJson: All non-scalar entries must have the same number of indices" );
     }
     // The gainVector entry cannot change the width of the filter routing definition, because that would mean that multiple
     // routings with the same {in,out,filter} but potentially different gains would be created.
-- 
2.43.0


From 70d66da368bbbecdfed3d6766a8b0ea0bd7a433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:51 +0000
Subject: [PATCH 14/88] fix: reject sparse gain routing entries with a
 mismatching number of row or column indices

---
 src/librbbl/sparse_gain_routing.cpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/librbbl/sparse_gain_routing.cpp b/src/librbbl/sparse_gain_routing.cpp
index 6a5da9e..fa4f923 100644
--- a/src/librbbl/sparse_gain_routing.cpp
+++ b/src/librbbl/sparse_gain_routing.cpp
@@ -76,26 +76,16 @@ SparseGainRoutingList& SparseGainRoutingList::operator=( const SparseGainRouting
     IndexSequence const columnIndices( columnIdxStr );
     FloatSequence<SparseGainRouting::GainType> const gainVector( gain );
 
-    std::size_t numEntries = entryIndices.size( );
-    if( rowIndices.size( ) != numEntries )
+    std::size_t const numEntries = entryIndices.size( );
+    if( (rowIndices.size( ) != 1) and( rowIndices.size( ) != numEntries ) )
     {
-      if( numEntries == 1 )
-      {
-        numEntries = entryIndices.size( );
-      }
-      else if( rowIndices.size( ) != 1 )
-      {
-        throw std::invalid_argument( "SparseGainRoutingList:parseJson: All non-scalar entries must have the same number of indices" );
-      }
+      throw std::invalid_argument( "SparseGainRoutingList:parseJson: All non-scalar entries must have the same number of indices" );
     }
     // Special case: If both input and output indices are scalar, the filter cpec cannot be non-scalar, because this would mean multiple
     // routings for the same (input,output) combination.
-    if( columnIndices.size( ) != numEntries )
+    if( (columnIndices.size( ) != 1) and( columnIndices.size( ) != numEntries ) )
     {
-      if( (numEntries == 1) and( columnIndices.size( ) != 1 ) )
-      {
-        throw std::invalid_argument( "SparseGainRoutingList:parseJson: All non-scalar entries must have the same number of indices" );
-      }
+      throw std::invalid_argument( "SparseGainRoutingList:parseJson: All non-scalar entries must have the same number of indices" );
     }
     // The gainVector entry cannot change the width of the filter routing definition, because that would mean that multiple
     // routings with the same {in,out,filter} but potentially different gains would be created.
-- 
2.43.0


From a254f4bfe0c89974aff804a76b18fd48368b3f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:51 +0000
Subject: [PATCH 15/88] fix: create the control port of SignalRouting if
 requested together with an initial routing

---
 src/librcl/signal_routing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/signal_routing.cpp b/src/librcl/signal_routing.cpp
index 9886466..e1a0ae1 100644
--- a/src/librcl/signal_routing.cpp
+++ b/src/librcl/signal_routing.cpp
@@ -40,7 +40,7 @@ void SignalRouting::setup( std::size_t inputWidth,
                            pml::SignalRoutingParameter const & initialRouting,
                            bool controlPort /*= false*/)
 {
-  setup( inputWidth, outputWidth );
+  setup( inputWidth, outputWidth, controlPort );
   for( auto e : initialRouting )
   {
     pml::SignalRoutingParameter::IndexType const in = e.input;
-- 
2.43.0


From 8b3f1defc9ade993dd1572cf769803d4a7b2a85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:51 +0000
Subject: [PATCH 16/88] fix: SignalRouting must not access the input channel of
 a routing without input

---
 src/librcl/signal_routing.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/librcl/signal_routing.cpp b/src/librcl/signal_routing.cpp
index e1a0ae1..ea88514 100644
--- a/src/librcl/signal_routing.cpp
+++ b/src/librcl/signal_routing.cpp
@@ -92,6 +92,10 @@ void SignalRouting::process()
   {
     pml::SignalRoutingParameter::IndexType inputIdx = std::get<1>( *routeIt );
     pml::SignalRoutingParameter::IndexType outputIdx = std::get<0>( *routeIt );
+    if( inputIdx == pml::SignalRoutingParameter::cInvalidIndex )
+    {
+      continue; // No input is routed to this output.
+    }
     efl::ErrorCode res = efl::vectorAddInplace( mInput[inputIdx], mOutput[outputIdx], periodSize, cVectorAlignmentSamples );
     if( res != efl::noError )
     {
-- 
2.43.0


From bf3525f00f723b6a20692a98b1f094509f075085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:51 +0000
Subject: [PATCH 17/88] fix: SignalRouting::setRouting() replaces the previous
 input of an output as documented

---
 src/librcl/signal_routing.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/librcl/signal_routing.cpp b/src/librcl/signal_routing.cpp
index ea88514..c62a831 100644
--- a/src/librcl/signal_routing.cpp
+++ b/src/librcl/signal_routing.cpp
@@ -119,6 +119,8 @@ void SignalRouting::setRouting( pml::SignalRoutingParameter const & newRouting )
 void SignalRouting::setRouting( pml::SignalRoutingParameter::IndexType in, pml::SignalRoutingParameter::IndexType out )
 {
   checkRoutingIndexRanges( in, out );
+  // Remove a previous routing to this output.
+  mRoutings.erase( mRoutings.lower_bound( RoutingEntry( out, 0 ) ), mRoutings.upper_bound( RoutingEntry( out, pml::SignalRoutingParameter::cInvalidIndex ) ) );
   mRoutings.insert( std::make_tuple( out, in ) );
 }
 
-- 
2.43.0


From 3cdc5f03851150d52ee4727fc67b10258c987dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:05 +0000
Subject: [PATCH 18/88] fix: setting the gains of a GainMatrix repeatedly
 between two blocks must not discard the gains in effect

---
 src/librbbl/gain_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/gain_matrix.cpp b/src/librbbl/gain_matrix.cpp
index eab873e..fca1861 100644
--- a/src/librbbl/gain_matrix.cpp
+++ b/src/librbbl/gain_matrix.cpp
@@ -126,7 +126,7 @@ void GainMatrix<ElementType>::setGainsInternal( efl::BasicMatrix<ElementType> co
   {
     mPreviousGains.swap( mNextGains );
   }
-  else // previous transition is not yet complete.
+  else if( mInterpolationCounter > 0 ) // previous transition is not yet complete (if it has not been started, the previous gains are still in effect).
   {
     // Set the previous gains according to the currently reached interpolation ratio.
     ElementType const ratio = std::min( static_cast<ElementType>(1.0),
-- 
2.43.0


From 0ef7b593568d72dd1b7427438d1bd954f6ab348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:05 +0000
Subject: [PATCH 19/88] fix: start GainVector transitions from the gains in
 effect

---
 src/librcl/gain_vector.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/librcl/gain_vector.cpp b/src/librcl/gain_vector.cpp
index 97bad89..c4771d0 100644
--- a/src/librcl/gain_vector.cpp
+++ b/src/librcl/gain_vector.cpp
@@ -8,6 +8,7 @@
 
 #include <librbbl/gain_fader.hpp>
 
+#include <algorithm>
 #include <cassert>
 #include <ciso646>
 #include <cmath>
@@ -103,10 +104,22 @@ void GainVector::setGain( efl::BasicVector< SampleType > const & newGains )
     throw std::invalid_argument("GainVector::setGain(): The number of elements in the argument does not match the number of channels.");
   }
 
-  // Copy the current gain value to the previous gain value.
-  if( efl::vectorCopy( mNextGains.data(), mCurrentGains.data(), mNumberOfChannels ) != efl::noError )
+  if( mInterpolationCounter >= mInterpolationPeriods ) // The previous transition is completed.
   {
-    throw std::runtime_error( "GainVector::setGain(): Copying of the vector elements failed." );
+    // Copy the current gain value to the previous gain value.
+    if( efl::vectorCopy( mNextGains.data(), mCurrentGains.data(), mNumberOfChannels ) != efl::noError )
+    {
+      throw std::runtime_error( "GainVector::setGain(): Copying of the vector elements failed." );
+    }
+  }
+  else // Start the new transition from the gains reached in the ongoing one.
+  {
+    SampleType const ratio = std::min( static_cast<SampleType>(1.0),
+      static_cast<SampleType>(mInterpolationCounter * period()) / static_cast<SampleType>(mFader->interpolationSamples()) );
+    for( std::size_t chIdx(0); chIdx < mNumberOfChannels; ++chIdx )
+    {
+      mCurrentGains[chIdx] += ratio * (mNextGains[chIdx] - mCurrentGains[chIdx]);
+    }
   }
 
   if (efl::vectorCopy(newGains.data(), mNextGains.data(), mNumberOfChannels) != efl::noError)
-- 
2.43.0


From 41463999881ba67a38e2221f330600c03810d16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:05 +0000
Subject: [PATCH 20/88] fix: start SparseGainMatrix transitions from the gains
 in effect

---
 src/librcl/sparse_gain_matrix.cpp | 21 +++++++++++++++++++--
 src/librcl/sparse_gain_matrix.hpp |  5 +++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/librcl/sparse_gain_matrix.cpp b/src/librcl/sparse_gain_matrix.cpp
index 7a2e044..0d0bff4 100644
--- a/src/librcl/sparse_gain_matrix.cpp
+++ b/src/librcl/sparse_gain_matrix.cpp
@@ -56,7 +56,7 @@ void SparseGainMatrix::process()
 {
   if( mRoutingListInput and mRoutingListInput->changed() )
   {
-    mPreviousGains.swap( mNextGains );
+    setPreviousGains();
     setRoutings( mRoutingListInput->data() );
     mRampIndex = 0;
     mRoutingListInput->resetChanged();
@@ -73,7 +73,7 @@ void SparseGainMatrix::process()
   if( mGainInput and mGainInput->changed() )
   {
     pml::VectorParameter<SampleType> const & newGains = mGainInput->data();
-    mNextGains.swap( mPreviousGains );
+    setPreviousGains();
     mNextGains.assign( newGains );
     mRampIndex = 0;
     mGainInput->resetChanged();
@@ -93,6 +93,23 @@ void SparseGainMatrix::process()
   mRampIndex = std::min( mRampIndex+1, mGainRamp.interpolationPeriods() );
 }
 
+void SparseGainMatrix::setPreviousGains()
+{
+  std::size_t const processedSamples{ mRampIndex * period() };
+  if( processedSamples >= mGainRamp.interpolationSamples() ) // The previous transition is completed.
+  {
+    mPreviousGains.assign( mNextGains );
+  }
+  else
+  {
+    SampleType const ratio = static_cast<SampleType>(processedSamples) / static_cast<SampleType>(mGainRamp.interpolationSamples());
+    for( std::size_t entryIdx( 0 ); entryIdx < mNumRoutingPoints; ++entryIdx )
+    {
+      mPreviousGains[entryIdx] += ratio * (mNextGains[entryIdx] - mPreviousGains[entryIdx]);
+    }
+  }
+}
+
 void SparseGainMatrix::setRoutings( rbbl::SparseGainRoutingList const & newRoutings )
 {
   std::size_t const numInputs{ mInput.width() };
diff --git a/src/librcl/sparse_gain_matrix.hpp b/src/librcl/sparse_gain_matrix.hpp
index c50f0a1..ce09eb7 100644
--- a/src/librcl/sparse_gain_matrix.hpp
+++ b/src/librcl/sparse_gain_matrix.hpp
@@ -84,6 +84,11 @@ public:
   void process( ) override;
 
 private:
+  /**
+   * Set the start gains of a new transition to the gains reached in the current one.
+   */
+  void setPreviousGains();
+
   void setRoutings( rbbl::SparseGainRoutingList const & newRoutings );
 
   efl::BasicVector<SampleType> mPreviousGains;
-- 
2.43.0


From 0aa7bb20e6922e13e3a1a35d4f3269fa0979a49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:30 +0000
Subject: [PATCH 21/88] fix: start new DelayVector and DelayMatrix transitions
 from the interpolated values as documented

---
 src/librcl/delay_matrix.cpp | 2 +-
 src/librcl/delay_vector.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/librcl/delay_matrix.cpp b/src/librcl/delay_matrix.cpp
index 5a27d7f..9576abf 100644
--- a/src/librcl/delay_matrix.cpp
+++ b/src/librcl/delay_matrix.cpp
@@ -176,7 +176,7 @@ namespace
                                            std::size_t alignElements )
   {
     // Note: The standard explicitly allows that the output sequence equals one of the input sequences.
-    std::transform( op1, op1+numElements, op2result, op2result, [ratio](ElementType val1, ElementType val2 ){ return ratio*(val2-val1) + val1;} );
+    std::transform( op1, op1+numElements, op2result, op2result, [ratio](ElementType val1, ElementType val2 ){ return ratio*(val1-val2) + val2;} );
     return efl::noError;
   }
 
diff --git a/src/librcl/delay_vector.cpp b/src/librcl/delay_vector.cpp
index 7f4b999..ae4ea22 100644
--- a/src/librcl/delay_vector.cpp
+++ b/src/librcl/delay_vector.cpp
@@ -141,7 +141,7 @@ namespace
                                            std::size_t alignElements )
   {
     // Note: The standard explicitly allows that the output sequence equals one of the input sequences.
-    std::transform( op1, op1+numElements, op2result, op2result, [ratio](ElementType val1, ElementType val2 ){ return ratio*(val2-val1) + val1;} );
+    std::transform( op1, op1+numElements, op2result, op2result, [ratio](ElementType val1, ElementType val2 ){ return ratio*(val1-val2) + val2;} );
     return efl::noError;
   }
 
-- 
2.43.0


From 2c9d3f5fbea616ef6c4a1bad600bddf956d70a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:30 +0000
Subject: [PATCH 22/88] fix: return the method delay instead of the maximum
 delay in MultichannelDelayLine::methodDelaySeconds() and methodDelaySamples()

---
 src/librbbl/multichannel_delay_line.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/librbbl/multichannel_delay_line.cpp b/src/librbbl/multichannel_delay_line.cpp
index 4d9634b..23cd515 100644
--- a/src/librbbl/multichannel_delay_line.cpp
+++ b/src/librbbl/multichannel_delay_line.cpp
@@ -59,13 +59,13 @@ std::size_t MultichannelDelayLine<SampleType>::blockLength() const
 template< typename SampleType >
 SampleType MultichannelDelayLine<SampleType>::methodDelaySeconds() const
 {
-  return cMaxDelaySamples / cSamplingFrequency;
+  return cMethodDelay / cSamplingFrequency;
 }
 
 template< typename SampleType >
 SampleType MultichannelDelayLine<SampleType>::methodDelaySamples() const
 {
-  return cMaxDelaySamples;
+  return cMethodDelay;
 }
 
 template< typename SampleType >
-- 
2.43.0


From ad03014c9eb9f927974dcc65144ab4ab17950387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:30 +0000
Subject: [PATCH 23/88] fix: make the buffer of MultichannelDelayLine long
 enough for the interpolator at the maximum delay

---
 src/librbbl/multichannel_delay_line.cpp |  4 +++-
 src/librbbl/multichannel_delay_line.hpp | 10 +++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/librbbl/multichannel_delay_line.cpp b/src/librbbl/multichannel_delay_line.cpp
index 23cd515..ffcb1ff 100644
--- a/src/librbbl/multichannel_delay_line.cpp
+++ b/src/librbbl/multichannel_delay_line.cpp
@@ -31,8 +31,10 @@ MultichannelDelayLine<SampleType>::MultichannelDelayLine( std::size_t numberOfCh
   , cSamplingFrequency( static_cast<SampleType>(samplingFrequency) )
   , cMaxDelaySamples( std::ceil( maxDelaySeconds * samplingFrequency ) )
   , cMethodDelayPolicy( methodDelayPolicy )
-  , mRingbuffer( numberOfChannels, static_cast<std::size_t>(cMaxDelaySamples)+blockLength, alignment ) // Ideally this would include the implementation delay.
   , mInterpolator( FractionalDelayFactory<SampleType>::create( interpolationMethod, blockLength ) )
+  // The interpolator accesses samples up to two times the implementation delay beyond the nominal delay.
+  , mRingbuffer( numberOfChannels, static_cast<std::size_t>(cMaxDelaySamples)+blockLength
+                 + ( mInterpolator ? static_cast<std::size_t>( std::ceil( 2 * mInterpolator->methodDelay() ) ) : 0 ), alignment )
   , cMethodDelay( mInterpolator ? mInterpolator->methodDelay() : static_cast<SampleType>(0.0) )
 {
   if( not mInterpolator )
diff --git a/src/librbbl/multichannel_delay_line.hpp b/src/librbbl/multichannel_delay_line.hpp
index cedeb4b..b38c7ca 100644
--- a/src/librbbl/multichannel_delay_line.hpp
+++ b/src/librbbl/multichannel_delay_line.hpp
@@ -163,11 +163,6 @@ private:
    */
   MethodDelayPolicy const cMethodDelayPolicy;
 
-  /**
-   * Circular buffer holding the delayed values.
-   */
-  rbbl::CircularBuffer<SampleType> mRingbuffer;
-
   /**
    * The fractional delay algorihm object.
    * @note this needs to be a shared pointer, because the object is dynamically 
@@ -175,6 +170,11 @@ private:
    */
   std::unique_ptr<FractionalDelayBase<SampleType> > mInterpolator;
 
+  /**
+   * Circular buffer holding the delayed values.
+   */
+  rbbl::CircularBuffer<SampleType> mRingbuffer;
+
   /**
    * The method delay (implementation delay) of the selected fractional delay algorithm in samples.
    */
-- 
2.43.0


From 9559abf20211a9d414174a19fbe4627da040219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:30 +0000
Subject: [PATCH 24/88] fix: register the fractional delay algorithms for
 double-precision samples

---
 src/librbbl/fractional_delay_factory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/librbbl/fractional_delay_factory.cpp b/src/librbbl/fractional_delay_factory.cpp
index d228ce8..4ee2066 100644
--- a/src/librbbl/fractional_delay_factory.cpp
+++ b/src/librbbl/fractional_delay_factory.cpp
@@ -35,6 +35,7 @@ public:
 };
 
 static TableInitializer<float> initializer;
+static TableInitializer<double> initializerDouble;
 
 } // unnamed namespace
 
-- 
2.43.0


From 1ec14352484bd49f22c502de7ab678d35c2611d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:49 +0000
Subject: [PATCH 25/88] fix: removeRoutingEntry() of the convolvers must report
 whether the entry existed

---
 src/librbbl/crossfading_convolver_uniform.cpp  | 3 ++-
 src/librbbl/multichannel_convolver_uniform.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index 2747fcd..80de9cf 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -259,8 +259,9 @@ bool CrossfadingConvolverUniform< SampleType >::removeRoutingEntry(
 {
   RoutingEntry const testEntry( inputIdx, outputIdx, 0, 0.0f );
   auto const eraseRange = mRoutingTable.equal_range( testEntry );
+  bool const found = eraseRange.first != eraseRange.second;
   mRoutingTable.erase( eraseRange.first, eraseRange.second );
-  return eraseRange.first != mRoutingTable.end();
+  return found;
 }
 
 template< typename SampleType >
diff --git a/src/librbbl/multichannel_convolver_uniform.cpp b/src/librbbl/multichannel_convolver_uniform.cpp
index cd91426..6570be6 100644
--- a/src/librbbl/multichannel_convolver_uniform.cpp
+++ b/src/librbbl/multichannel_convolver_uniform.cpp
@@ -128,8 +128,9 @@ bool MultichannelConvolverUniform<SampleType>::removeRoutingEntry( std::size_t i
 {
   RoutingEntry const testEntry( inputIdx, outputIdx, 0, 0.0f );
   auto const eraseRange = mRoutingTable.equal_range( testEntry );
+  bool const found = eraseRange.first != eraseRange.second;
   mRoutingTable.erase( eraseRange.first, eraseRange.second );
-  return eraseRange.first != mRoutingTable.end();
+  return found;
 }
 
 template< typename SampleType>
-- 
2.43.0


From 24663a1b0b9b370bf7c8416eb12dc2d05fb47ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:49 +0000
Subject: [PATCH 26/88] fix: invalid control messages must not block the queues
 of the FIR filter matrix components

---
 src/librcl/crossfading_fir_filter_matrix.cpp   |  4 ++--
 src/librcl/fir_filter_matrix.cpp               | 10 +++++-----
 src/librcl/interpolating_fir_filter_matrix.cpp | 11 +++++------
 3 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/librcl/crossfading_fir_filter_matrix.cpp b/src/librcl/crossfading_fir_filter_matrix.cpp
index 132d759..16cbd50 100644
--- a/src/librcl/crossfading_fir_filter_matrix.cpp
+++ b/src/librcl/crossfading_fir_filter_matrix.cpp
@@ -84,12 +84,12 @@ void CrossfadingFirFilterMatrix::process()
       pml::IndexedValueParameter< std::size_t, std::vector< SampleType > > const
           newFilter = mSetFilterInput->front();
 
+      mSetFilterInput->pop(); // Remove the message also if it is invalid.
       try
       {
         // Argument checking is done inside the method.
-        setFilter( newFilter.index(), &newFilter.value()[ 0 ],
+        setFilter( newFilter.index(), newFilter.value().data(),
                    newFilter.value().size() );
-        mSetFilterInput->pop();
       }
       catch( std::exception const & ex )
       {
diff --git a/src/librcl/fir_filter_matrix.cpp b/src/librcl/fir_filter_matrix.cpp
index 71acad3..981a23f 100644
--- a/src/librcl/fir_filter_matrix.cpp
+++ b/src/librcl/fir_filter_matrix.cpp
@@ -81,11 +81,11 @@ void FirFilterMatrix::process()
     {
       pml::IndexedValueParameter<std::size_t, std::vector<SampleType> > const newFilter = mSetFilterInput->front();
 
+      mSetFilterInput->pop(); // Remove the message also if it turns out to be invalid.
       try
       {
         // Argument checking is done inside the method.
-        setFilter( newFilter.index(), &newFilter.value()[0], newFilter.value().size() );
-        mSetFilterInput->pop();
+        setFilter( newFilter.index(), newFilter.value().data(), newFilter.value().size() );
       }
       catch( std::exception const & ex )
       {
@@ -98,6 +98,7 @@ void FirFilterMatrix::process()
   if( mAllRoutingsInput and mAllRoutingsInput->changed() )
   {
     rbbl::FilterRoutingList const & routings{ mAllRoutingsInput->data() };
+    mAllRoutingsInput->resetChanged();
     try
     {
       setRoutings( routings );
@@ -106,22 +107,21 @@ void FirFilterMatrix::process()
     {
       status( StatusMessage::Error, "FirFilterMatrix: Error while resetting filter routings: ", ex.what() );
     }
-    mAllRoutingsInput->resetChanged();
   }
   if( mSingleRoutingInput )
   {
     while( not mSingleRoutingInput->empty() )
     {
+      rbbl::FilterRouting const entry{ mSingleRoutingInput->front() };
+      mSingleRoutingInput->pop(); // Remove the message also if it turns out to be invalid.
       try
       {
-        rbbl::FilterRouting const & entry{ mSingleRoutingInput->front() };
         addRouting( entry );
       }
       catch( std::exception const & ex )
       {
         status( StatusMessage::Error, "FirFilterMatrix: Error while setting filter routing: ", ex.what() );      
       }      
-      mSingleRoutingInput->pop();
     }
   }
   mConvolver->process( mInput.data(), mInput.channelStrideSamples(), 
diff --git a/src/librcl/interpolating_fir_filter_matrix.cpp b/src/librcl/interpolating_fir_filter_matrix.cpp
index f838f81..e18d4de 100644
--- a/src/librcl/interpolating_fir_filter_matrix.cpp
+++ b/src/librcl/interpolating_fir_filter_matrix.cpp
@@ -98,12 +98,12 @@ void InterpolatingFirFilterMatrix::process()
       pml::IndexedValueParameter< std::size_t, std::vector< SampleType > > const
           newFilter = mSetFilterInput->front();
 
+      mSetFilterInput->pop(); // Remove the message also if it is invalid.
       try
       {
         // Argument checking is done inside the method.
-        setFilter( newFilter.index(), &newFilter.value()[ 0 ],
+        setFilter( newFilter.index(), newFilter.value().data(),
                    newFilter.value().size() );
-        mSetFilterInput->pop();
       }
       catch( std::exception const & ex )
       {
@@ -122,13 +122,12 @@ void InterpolatingFirFilterMatrix::process()
   {
     while( not mInterpolantInput->empty() )
     {
+      rbbl::InterpolationParameter const param = mInterpolantInput->front();
+      mInterpolantInput->pop(); // Remove the message also if it is invalid.
       try
       {
-        rbbl::InterpolationParameter const & param = mInterpolantInput->front();
-
-        setInterpolant( param, true/*startTransition*/ );
         // Argument checking is done inside the method.
-        mInterpolantInput->pop();
+        setInterpolant( param, true/*startTransition*/ );
       }
       catch( std::exception const & ex )
       {
-- 
2.43.0


From 8d501c4dae5a92b585c547fc4c31907f35443940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:21 +0000
Subject: [PATCH 27/88] fix: check filter indices of the crossfading convolver
 against its number of filter entries

---
 src/librbbl/crossfading_convolver_uniform.cpp | 18 ++++++++++++++++++
 src/librbbl/crossfading_convolver_uniform.hpp |  3 ++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index 80de9cf..efa617f 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -44,6 +44,12 @@ CrossfadingConvolverUniform< SampleType >::CrossfadingConvolverUniform(
  , mCurrentRampBlock( maxFilterEntries, mNumRampBlocks - 1 )
  , mCrossoverRamps( 2, blockLength * mNumRampBlocks, alignment )
 {
+  if( initialFilters.numberOfRows() > maxNumberOfFilterEntries() )
+  {
+    throw std::invalid_argument(
+        "CrossfadingConvolverUniform: The number of initial filters exceeds "
+        "the maximum number of filter entries." );
+  }
   initRoutingTable( initialRoutings );
   efl::ErrorCode ret;
   if( ( ret = efl::vectorRamp( mCrossoverRamps.row( 0 ), transitionSamples,
@@ -295,6 +301,12 @@ void CrossfadingConvolverUniform< SampleType >::setImpulseResponse(
     bool startTransition,
     std::size_t alignment )
 {
+  if( filterIdx >= maxNumberOfFilterEntries() )
+  {
+    throw std::invalid_argument(
+        "CrossfadingConvolverUniform::setImpulseResponse(): Filter index "
+        "exceeds the admissible range." );
+  }
   // TODO: Avoid code duplication in setTransformedFilter().
 
   std::size_t const oldFilterSet = mCurrentFilterOutput[ filterIdx ];
@@ -326,6 +338,12 @@ void CrossfadingConvolverUniform< SampleType >::setTransformedFilter(
     bool startTransition,
     std::size_t alignment )
 {
+  if( filterIdx >= maxNumberOfFilterEntries() )
+  {
+    throw std::invalid_argument(
+        "CrossfadingConvolverUniform::setTransformedFilter(): Filter index "
+        "exceeds the admissible range." );
+  }
   std::size_t const oldFilterSet = mCurrentFilterOutput[ filterIdx ];
   std::size_t const newFilterSet = ( oldFilterSet == 0 ) ? 1 : 0;
   std::size_t const newFilterIndex =
diff --git a/src/librbbl/crossfading_convolver_uniform.hpp b/src/librbbl/crossfading_convolver_uniform.hpp
index 9aff0b0..4ad18da 100644
--- a/src/librbbl/crossfading_convolver_uniform.hpp
+++ b/src/librbbl/crossfading_convolver_uniform.hpp
@@ -112,7 +112,8 @@ public:
 
   std::size_t maxNumberOfFilterEntries() const
   {
-    return mCoreConvolver.maxNumberOfFilterEntries();
+    // The core convolver holds two filters (fade-in and fade-out) per entry.
+    return mMaxNumFilters;
   }
 
   std::size_t maxFilterLength() const
-- 
2.43.0


From c7cb225cedcac898d31efab94f405cd625d620b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:21 +0000
Subject: [PATCH 28/88] fix: initFilters() of the crossfading convolver must
 set the filters in use

---
 src/librbbl/crossfading_convolver_uniform.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index efa617f..2eb0fb8 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -280,7 +280,17 @@ template< typename SampleType >
 void CrossfadingConvolverUniform< SampleType >::initFilters(
     efl::BasicMatrix< SampleType > const & newFilters )
 {
+  if( newFilters.numberOfRows() > maxNumberOfFilterEntries() )
+  {
+    throw std::invalid_argument(
+        "CrossfadingConvolverUniform::initFilters(): The initializer exceeds "
+        "the maximum number of filter entries." );
+  }
   mCoreConvolver.initFilters( newFilters );
+  // The new filters are stored in the first filter set, end all transitions.
+  std::fill( mCurrentFilterOutput.begin(), mCurrentFilterOutput.end(), 0 );
+  std::fill( mCurrentRampBlock.begin(), mCurrentRampBlock.end(),
+             mNumRampBlocks - 1 );
 }
 
 template< typename SampleType >
-- 
2.43.0


From 9bdefe0753d921818cb3ad858dfce064484e02b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:55 +0000
Subject: [PATCH 29/88] fix: InterpolatingConvolverUniform must provide a
 filter slot and a routing point for each interpolant id

---
 src/librbbl/interpolating_convolver_uniform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/interpolating_convolver_uniform.cpp b/src/librbbl/interpolating_convolver_uniform.cpp
index d853546..ebaef00 100644
--- a/src/librbbl/interpolating_convolver_uniform.cpp
+++ b/src/librbbl/interpolating_convolver_uniform.cpp
@@ -33,8 +33,8 @@ InterpolatingConvolverUniform< SampleType >::InterpolatingConvolverUniform(
        numberOfOutputs,
        blockLength,
        maxFilterLength,
-       maxFilterEntries,
        maxRoutingPoints,
+       maxRoutingPoints, // One interpolated filter for each interpolant id.
        transitionSamples,
        initialRoutings,
        efl::BasicMatrix< SampleType >(
-- 
2.43.0


From 44d39361f4b6ff42e898fba57d75f519b20d1f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:42 +0000
Subject: [PATCH 30/88] fix: convolver filter partitions must not be dropped if
 the block length is not a multiple of the alignment

---
 src/librbbl/core_convolver_uniform.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/librbbl/core_convolver_uniform.cpp b/src/librbbl/core_convolver_uniform.cpp
index 42855b0..8e2b39c 100644
--- a/src/librbbl/core_convolver_uniform.cpp
+++ b/src/librbbl/core_convolver_uniform.cpp
@@ -234,11 +234,13 @@ transformImpulseResponse( SampleType const * ir, std::size_t irLength, Frequency
     std::size_t const endIdx = std::min( (partitionIdx + 1) * blockLength(), irLength ); // STL-like 'one past end' index
     if( endIdx > startIdx )
     {
-      // The following multiply calls assumes that the blocklength is a multiple of the alignment.
+      // The start of the partition is unaligned if the blocklength is not a multiple of the alignment.
+      std::size_t const filterAlignment = std::min( mAlignment, alignment );
+      std::size_t const partitionAlignment = ((filterAlignment != 0) and (startIdx % filterAlignment != 0)) ? 0 : filterAlignment;
       // Multiply the the filter by the computed scaling constants to compensate for the FFT normalisation.
-      if( efl::vectorMultiplyConstant( mFilterScalingFactor, ir + startIdx, mTimeDomainTransformBuffer.data(), endIdx - startIdx, std::min( mAlignment, alignment ) ) != efl::noError )
+      if( efl::vectorMultiplyConstant( mFilterScalingFactor, ir + startIdx, mTimeDomainTransformBuffer.data(), endIdx - startIdx, partitionAlignment ) != efl::noError )
       {
-        std::runtime_error( "CoreConvolverUniform::transformImpulseResponse(): Error while copying data." );
+        throw std::runtime_error( "CoreConvolverUniform::transformImpulseResponse(): Error while copying data." );
       }
     }
     FrequencyDomainType * blockResult = result + partitionIdx * mDftRepresentationSizePadded;
-- 
2.43.0


From d1d060318346a6d0bc28050a7971606e4da0f059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:51 +0000
Subject: [PATCH 31/88] fix: crossfading convolver must work if the block
 length is not a multiple of the alignment

---
 src/librbbl/crossfading_convolver_uniform.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/librbbl/crossfading_convolver_uniform.cpp b/src/librbbl/crossfading_convolver_uniform.cpp
index 2eb0fb8..b6c125e 100644
--- a/src/librbbl/crossfading_convolver_uniform.cpp
+++ b/src/librbbl/crossfading_convolver_uniform.cpp
@@ -145,7 +145,13 @@ void CrossfadingConvolverUniform< SampleType >::processOutputs(
 
     std::size_t const outputAlignment =
         std::min( alignment, mCoreConvolver.alignment() );
-    std::size_t const coreAlignment = mCoreConvolver.alignment();
+    // The start of a ramp block is unaligned if the block length is not a
+    // multiple of the alignment.
+    std::size_t const coreAlignment =
+        ( ( mCoreConvolver.alignment() != 0 ) and
+          ( blockSize % mCoreConvolver.alignment() != 0 ) )
+            ? 0
+            : mCoreConvolver.alignment();
 
     efl::ErrorCode res;
     std::size_t const rampBlock = mCurrentRampBlock[ routing.filterIdx ];
-- 
2.43.0


From 30c1c4670900855a54d98bafcda0466be44719f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:30 +0000
Subject: [PATCH 32/88] fix: BiquadIirFilter without initial coefficients must
 have a flat response

---
 src/librcl/biquad_iir_filter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/librcl/biquad_iir_filter.cpp b/src/librcl/biquad_iir_filter.cpp
index 24a08fe..ea4aaf9 100644
--- a/src/librcl/biquad_iir_filter.cpp
+++ b/src/librcl/biquad_iir_filter.cpp
@@ -46,6 +46,17 @@ BiquadIirFilter::BiquadIirFilter( SignalFlowContext const & context,
            cVectorAlignmentSamples )
 {
   mState.zeroFill();
+  // Start with a flat frequency response.
+  for( std::size_t channelIdx( 0 ); channelIdx < cNumberOfChannels;
+       ++channelIdx )
+  {
+    for( std::size_t biquadIdx( 0 ); biquadIdx < cNumberOfBiquadSections;
+         ++biquadIdx )
+    {
+      setCoefficientsInternal( channelIdx, biquadIdx,
+                               rbbl::BiquadCoefficient< SampleType >() );
+    }
+  }
 }
 
 BiquadIirFilter::BiquadIirFilter(
-- 
2.43.0


From 97f3a1ea1ba8eedb295b8e23608379d2d498b767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:30 +0000
Subject: [PATCH 33/88] fix: BiquadCoefficientMatrix::loadJson() must refuse
 rows of different sizes

---
 src/librbbl/biquad_coefficient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/biquad_coefficient.cpp b/src/librbbl/biquad_coefficient.cpp
index c2c512a..e535e9e 100644
--- a/src/librbbl/biquad_coefficient.cpp
+++ b/src/librbbl/biquad_coefficient.cpp
@@ -554,7 +554,7 @@ void BiquadCoefficientMatrix<CoeffType>::loadJson( boost::property_tree::ptree c
     assert( numBiquads != unInitMarker ); // Check that initialisation is performed during the first run.
     if( rowFilters.size() != numBiquads )
     {
-      std::invalid_argument( "BiquadCoefficientMatrix::loadJSON(): Encountered matrix rows with differing sizes." );
+      throw std::invalid_argument( "BiquadCoefficientMatrix::loadJSON(): Encountered matrix rows with differing sizes." );
     }
     setFilter( rowIdx, rowFilters );
   }
-- 
2.43.0


From d4cde45696cf1f35d246c36dc030276ea3cf53f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:37 +0000
Subject: [PATCH 34/88] fix: moving a BasicMatrix must leave both matrices
 consistent

---
 src/libefl/basic_matrix.hpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/libefl/basic_matrix.hpp b/src/libefl/basic_matrix.hpp
index f772176..f69835f 100644
--- a/src/libefl/basic_matrix.hpp
+++ b/src/libefl/basic_matrix.hpp
@@ -73,9 +73,34 @@ public:
     }
   }
 
-  BasicMatrix( BasicMatrix<ElementType> && rhs ) = default;
+  /**
+   * Move constructor, leaves \p rhs as an empty matrix.
+   */
+  BasicMatrix( BasicMatrix<ElementType> && rhs )
+   : mStride( rhs.mStride )
+   , mNumberOfRows( rhs.mNumberOfRows )
+   , mNumberOfColumns( rhs.mNumberOfColumns )
+   , mData( std::move( rhs.mData ) )
+  {
+    rhs.mStride = rhs.mNumberOfRows = rhs.mNumberOfColumns = 0;
+  }
 
-  BasicMatrix<ElementType> & operator=( BasicMatrix<ElementType> && rhs ) = default;
+  /**
+   * Move assignment, leaves \p rhs as an empty matrix.
+   * @throw std::logic_error If the alignments of the matrices differ, in this case both are left unchanged.
+   */
+  BasicMatrix<ElementType> & operator=( BasicMatrix<ElementType> && rhs )
+  {
+    if( this != &rhs )
+    {
+      mData = std::move( rhs.mData ); // Might throw, thus performed first.
+      mStride = rhs.mStride;
+      mNumberOfRows = rhs.mNumberOfRows;
+      mNumberOfColumns = rhs.mNumberOfColumns;
+      rhs.mStride = rhs.mNumberOfRows = rhs.mNumberOfColumns = 0;
+    }
+    return *this;
+  }
 
   ~BasicMatrix()
   {
-- 
2.43.0


From a22922bc3ab73308079818564f0d54c1245a45ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:37 +0000
Subject: [PATCH 35/88] fix: TimeFrequencyParameter::numberOfFrames() must not
 divide by zero for objects without channels

---
 src/libpml/time_frequency_parameter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libpml/time_frequency_parameter.hpp b/src/libpml/time_frequency_parameter.hpp
index 7991510..f6ed1cf 100644
--- a/src/libpml/time_frequency_parameter.hpp
+++ b/src/libpml/time_frequency_parameter.hpp
@@ -131,7 +131,7 @@ public:
   /**
    * Return the number of time/frequency frames in a single TimeFrequencyParameter message.
    */
-  std::size_t numberOfFrames() const { return mData.numberOfRows() / mNumberOfChannels; }
+  std::size_t numberOfFrames() const { return mNumberOfChannels == 0 ? 0 : mData.numberOfRows() / mNumberOfChannels; }
 
   /**
    * Return the stride (in number of complex elements) between successive audio channels within the same frame.
-- 
2.43.0


From f9ea2c2d7e3bf5839ca8d5c91090ac1fd3edb937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:21 +0000
Subject: [PATCH 36/88] fix: initialise the file info when reading parameters
 from audio files

---
 src/libpml/matrix_parameter.cpp | 2 +-
 src/libpml/vector_parameter.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libpml/matrix_parameter.cpp b/src/libpml/matrix_parameter.cpp
index 0b85f74..c5204ae 100644
--- a/src/libpml/matrix_parameter.cpp
+++ b/src/libpml/matrix_parameter.cpp
@@ -274,7 +274,7 @@ MatrixParameter<ElementType>::fromAudioFile( std::string const & fileName, std::
   {
     throw std::invalid_argument( "MatrixParameter::fromAudioFile(): The specified file name does not exist." );
   }
-  SF_INFO fileInfo;
+  SF_INFO fileInfo{}; // libsndfile requires a zero format field when opening files for reading.
   SNDFILE* fileHandle = nullptr;
   fileHandle = sf_open( file.string().c_str(), SFM_READ, &fileInfo );
   if( not fileHandle )
diff --git a/src/libpml/vector_parameter.cpp b/src/libpml/vector_parameter.cpp
index 82bd9c0..2120023 100644
--- a/src/libpml/vector_parameter.cpp
+++ b/src/libpml/vector_parameter.cpp
@@ -212,7 +212,7 @@ VectorParameter<ElementType>::fromAudioFile( std::string const & fileName, std::
   {
     throw std::invalid_argument( "VectorParameter::fromAudioFile(): The specified file name does not exist." );
   }
-  SF_INFO fileInfo;
+  SF_INFO fileInfo{}; // libsndfile requires a zero format field when opening files for reading.
   SNDFILE* fileHandle = nullptr;
   fileHandle = sf_open( file.string().c_str(), SFM_READ, &fileInfo );
   if( not fileHandle )
-- 
2.43.0


From b6fbac707097fbcaf49c3b2e9a91629fe8abab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:28 +0000
Subject: [PATCH 37/88] fix: RuntimeProfiler::getMean() must return NaN without
 measurements as documented

---
 src/librrl/runtime_profiler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/librrl/runtime_profiler.cpp b/src/librrl/runtime_profiler.cpp
index 49baa03..2878e70 100644
--- a/src/librrl/runtime_profiler.cpp
+++ b/src/librrl/runtime_profiler.cpp
@@ -257,13 +257,14 @@ void RuntimeProfiler::getMean( efl::BasicVector<TimeType> & val ) const
   {
     throw std::invalid_argument( "Return value buffer has wrong size." );
   }
+  std::lock_guard< AudioSignalFlow::ParameterExchangeMutexType > guard{
+    mFlow.parameterExchangeMutex() };
   if( mStatisticsSampleCounter < 1 )
   {
     val.fillValue( std::numeric_limits<TimeType>::quiet_NaN() );
   }
+  else
   {
-    std::lock_guard< AudioSignalFlow::ParameterExchangeMutexType > guard{
-    mFlow.parameterExchangeMutex() };
     val.copy( mRunningMean );
   }
 }
-- 
2.43.0


From 85e15481514d80e3bd069278234c453850293bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:37 +0000
Subject: [PATCH 38/88] fix: a destroyed component must not leave its ports
 with a dangling parent

---
 src/libvisr/impl/component_implementation.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libvisr/impl/component_implementation.cpp b/src/libvisr/impl/component_implementation.cpp
index 52fb28f..a23e35f 100644
--- a/src/libvisr/impl/component_implementation.cpp
+++ b/src/libvisr/impl/component_implementation.cpp
@@ -49,6 +49,15 @@ ComponentImplementation::~ComponentImplementation()
   {
     mParent->unregisterChildComponent( this );
   }
+  // Ports may outlive the component, they must not refer to it any longer.
+  for( AudioPortBaseImplementation * port : mAudioPorts )
+  {
+    port->removeParent();
+  }
+  for( ParameterPortBaseImplementation * port : mParameterPorts )
+  {
+    port->removeParent();
+  }
 }
 
 /*static*/ const std::string ComponentImplementation::cNameSeparator = ":";
-- 
2.43.0


From 6e51aad778575de7a9f41af83ee320d49277ac08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:37 +0000
Subject: [PATCH 39/88] fix: initialise the block counter of the time object

---
 src/libvisr/impl/time_implementation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libvisr/impl/time_implementation.cpp b/src/libvisr/impl/time_implementation.cpp
index b8734e7..89a3960 100644
--- a/src/libvisr/impl/time_implementation.cpp
+++ b/src/libvisr/impl/time_implementation.cpp
@@ -14,6 +14,7 @@ TimeImplementation( visr::SignalFlowContext const & context )
  , mSamplingFrequency( context.samplingFrequency() )
  , mSamplingFrequencyInverse( static_cast<ContinuousTimeType>(1.0)
     / static_cast<ContinuousTimeType>(context.samplingFrequency()))
+ , mBlockCounter( 0 )
 {
 }
 
-- 
2.43.0


From 176e356da173557fb84e9093c6d3563496ec63cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:40 +0000
Subject: [PATCH 40/88] fix: SceneDecoder must apply every message to the
 latest scene

---
 src/librcl/scene_decoder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/librcl/scene_decoder.cpp b/src/librcl/scene_decoder.cpp
index 5a8e730..a7a2eea 100644
--- a/src/librcl/scene_decoder.cpp
+++ b/src/librcl/scene_decoder.cpp
@@ -29,14 +29,14 @@ SceneDecoder::~SceneDecoder()
 
 void SceneDecoder::process()
 {
-  objectmodel::ObjectVector & objects = mObjectVectorOutput.data();
   while( not mDatagramInput.empty() )
   {
     char const * nextMsg = mDatagramInput.front().str();
     try
     {
-      objectmodel::ObjectVectorParser::updateObjectVector( nextMsg, objects );
-      mObjectVectorOutput.swapBuffers();
+      objectmodel::ObjectVectorParser::updateObjectVector( nextMsg, mObjectVectorOutput.data() );
+      // Keep the current scene in the output, as following messages might update only parts of it.
+      mObjectVectorOutput.swapBuffers( true );
     }
     catch( std::exception const & ex )
     {
-- 
2.43.0


From 3ab698779705337f2f656bd9c80febac261672c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:40 +0000
Subject: [PATCH 41/88] fix: write the equaliser settings of objects as JSON

---
 src/libobjectmodel/object_parser.cpp       | 2 +-
 src/librbbl/parametric_iir_coefficient.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libobjectmodel/object_parser.cpp b/src/libobjectmodel/object_parser.cpp
index 1292fe6..aa63af8 100644
--- a/src/libobjectmodel/object_parser.cpp
+++ b/src/libobjectmodel/object_parser.cpp
@@ -74,7 +74,7 @@ ObjectParser::~ObjectParser() = default;
   if( !obj.eqCoefficients().empty() )
   {
     boost::property_tree::ptree eqNode;
-    obj.eqCoefficients().writeXml( eqNode );
+    obj.eqCoefficients().writeJson( eqNode );
     tree.add_child( "eq", eqNode );
   }
 }
diff --git a/src/librbbl/parametric_iir_coefficient.cpp b/src/librbbl/parametric_iir_coefficient.cpp
index 38d5732..909781d 100644
--- a/src/librbbl/parametric_iir_coefficient.cpp
+++ b/src/librbbl/parametric_iir_coefficient.cpp
@@ -296,6 +296,7 @@ void ParametricIirCoefficient< CoefficientType >::writeJson( std::basic_ostream<
 {
   boost::property_tree::ptree tree;
   writeJson( tree );
+  boost::property_tree::write_json( stream, tree );
 }
 
 template< typename CoefficientType >
@@ -418,7 +419,7 @@ void ParametricIirCoefficientList< CoefficientType >::writeJson( boost::property
   {
     boost::property_tree::ptree child;
     el.writeJson( child );
-    tree.add_child("", child ); // Adding unnamed childs creates a JSON array.
+    tree.push_back( std::make_pair( "", child ) ); // Adding unnamed childs creates a JSON array.
   }
 }
 
-- 
2.43.0


From 9abb746ccfc3e2b20ea2f948e3c451ed04f9a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:40 +0000
Subject: [PATCH 42/88] fix: ParametricIirCoefficientList::writeXml() must
 write what loadXml() reads

---
 src/librbbl/parametric_iir_coefficient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/parametric_iir_coefficient.cpp b/src/librbbl/parametric_iir_coefficient.cpp
index 909781d..7e2c255 100644
--- a/src/librbbl/parametric_iir_coefficient.cpp
+++ b/src/librbbl/parametric_iir_coefficient.cpp
@@ -452,7 +452,7 @@ void ParametricIirCoefficientList< CoefficientType >::writeXml( boost::property_
   for( Element const & el : *this )
   {
     boost::property_tree::ptree child;
-    el.writeJson( child );
+    el.writeXml( child );
     tree.add_child( "eq", child ); // XML needs named nodes
   }
 }
-- 
2.43.0


From f01eb5bc94d30106876598549dd0e68ee4c4d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:40 +0000
Subject: [PATCH 43/88] fix: write the diffuseness of sources with extent

---
 src/libobjectmodel/point_source_extent_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libobjectmodel/point_source_extent_parser.cpp b/src/libobjectmodel/point_source_extent_parser.cpp
index 3eb4de1..dda19fa 100644
--- a/src/libobjectmodel/point_source_extent_parser.cpp
+++ b/src/libobjectmodel/point_source_extent_parser.cpp
@@ -41,7 +41,7 @@ write( Object const & obj, boost::property_tree::ptree & tree ) const
   // note: cannot check for object type id since obj might be a subclass of PointSource
   PointSourceExtent const& pseObj = dynamic_cast<PointSourceExtent const&>(obj);
 
-  PointSourceParser::write( obj, tree );
+  PointSourceWithDiffusenessParser::write( obj, tree );
   tree.put<PointSource::Coordinate>( "width", pseObj.width() );
   tree.put<PointSource::Coordinate>( "height", pseObj.height() );
   tree.put<PointSource::Coordinate>( "depth", pseObj.depth() );
-- 
2.43.0


From 8bd735967762cbd9aea266060d828970fff9c2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:40 +0000
Subject: [PATCH 44/88] fix: writing a channel object without channels must not
 read beyond the output channel list

---
 src/libobjectmodel/channel_object_parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libobjectmodel/channel_object_parser.cpp b/src/libobjectmodel/channel_object_parser.cpp
index 2dfe62c..89d6bfb 100644
--- a/src/libobjectmodel/channel_object_parser.cpp
+++ b/src/libobjectmodel/channel_object_parser.cpp
@@ -149,10 +149,11 @@ std::ostream & operator<<( std::ostream & str, ChannelObject::OutputChannelList
 
 std::ostream & operator<<( std::ostream & str, ChannelObject::OutputChannelContainer const & outChannels )
 {
-  if( not outChannels.empty() )
+  if( outChannels.empty() )
   {
-    str << outChannels[0];
+    return str;
   }
+  str << outChannels[0];
   for( ChannelObject::OutputChannelContainer::const_iterator runIt( outChannels.begin() + 1 );
     runIt != outChannels.end(); ++runIt )
   {
-- 
2.43.0


From b35c4320fa2355f42e92d0cde119c706b61e12e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:40 +0000
Subject: [PATCH 45/88] fix: LateReverb must accept empty coefficient lists as
 documented

---
 src/libobjectmodel/point_source_with_reverb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libobjectmodel/point_source_with_reverb.cpp b/src/libobjectmodel/point_source_with_reverb.cpp
index 396a7f0..ba1e6d4 100644
--- a/src/libobjectmodel/point_source_with_reverb.cpp
+++ b/src/libobjectmodel/point_source_with_reverb.cpp
@@ -127,7 +127,7 @@ namespace // unnamed
   {
     std::fill( coeff.begin(), coeff.end(), defaultValue );
   }
-  if( initVal.size() == 1 )
+  else if( initVal.size() == 1 )
   {
     std::fill( coeff.begin(), coeff.end(), *(initVal.begin()) );
   }
-- 
2.43.0


From 4062a3aaeba0c0d7bf3d3a6b12ff539d499206aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:40 +0000
Subject: [PATCH 46/88] fix: PointSource::channelLock() must report an inactive
 channel lock

---
 src/libobjectmodel/point_source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libobjectmodel/point_source.cpp b/src/libobjectmodel/point_source.cpp
index 45a8bfd..6b5c23c 100644
--- a/src/libobjectmodel/point_source.cpp
+++ b/src/libobjectmodel/point_source.cpp
@@ -49,7 +49,7 @@ void PointSource::setZ( Coordinate newZ )
 
 bool PointSource::channelLock() const
 {
-  return mChannelLockDistance >= cNoChannelLock;
+  return mChannelLockDistance > cNoChannelLock;
 }
 
 PointSource::Coordinate PointSource::channelLockDistance() const
-- 
2.43.0


From e149cf4d302fdc9e296fac78fa33340fde0aaca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:40 +0000
Subject: [PATCH 47/88] fix: initialise all attributes of new objects

---
 src/libobjectmodel/object.cpp     | 2 ++
 src/libobjectmodel/plane_wave.cpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/libobjectmodel/object.cpp b/src/libobjectmodel/object.cpp
index 5091e20..d853dac 100644
--- a/src/libobjectmodel/object.cpp
+++ b/src/libobjectmodel/object.cpp
@@ -29,6 +29,8 @@ namespace objectmodel
 Object::Object( ObjectId id )
  : mObjectId( id )
  , mGroupId( cDefaultGroupId )
+ , mLevel( static_cast<LevelType>(0.0) )
+ , mPriority( 0 )
 {
 }
 
diff --git a/src/libobjectmodel/plane_wave.cpp b/src/libobjectmodel/plane_wave.cpp
index 5e29668..f28e7fe 100644
--- a/src/libobjectmodel/plane_wave.cpp
+++ b/src/libobjectmodel/plane_wave.cpp
@@ -9,6 +9,9 @@ namespace objectmodel
 
 PlaneWave::PlaneWave( ObjectId id )
  : Object( id )
+ , mIncidenceAzimuth( static_cast<Direction>(0.0) )
+ , mIncidenceElevation( static_cast<Direction>(0.0) )
+ , mReferenceDistance( static_cast<Coordinate>(0.0) )
 {
 }
 
-- 
2.43.0


From cc127c4b5408c6e84c103111be7eca3ca7aeafdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:40 +0000
Subject: [PATCH 48/88] fix: ObjectVector::assign() must not clear the vector
 when assigned to itself

---
 src/libobjectmodel/object_vector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libobjectmodel/object_vector.cpp b/src/libobjectmodel/object_vector.cpp
index 9854fdc..507ebe4 100644
--- a/src/libobjectmodel/object_vector.cpp
+++ b/src/libobjectmodel/object_vector.cpp
@@ -25,6 +25,10 @@ ObjectVector& ObjectVector::operator=( ObjectVector && rhs ) = default;
 
 void ObjectVector::assign( ObjectVector const & rhs )
 {
+  if( &rhs == this )
+  {
+    return;
+  }
   mObjects.clear();
   for( ObjectContainer::value_type const & v : rhs.mObjects )
   {
-- 
2.43.0


From bc218667897268ed14d068a5d6170c5c7ff7ab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:40 +0000
Subject: [PATCH 49/88] fix: ObjectVector::insert() must not use an object
 after destroying it

---
 src/libobjectmodel/object_vector.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/libobjectmodel/object_vector.cpp b/src/libobjectmodel/object_vector.cpp
index 507ebe4..29b8944 100644
--- a/src/libobjectmodel/object_vector.cpp
+++ b/src/libobjectmodel/object_vector.cpp
@@ -64,12 +64,8 @@ Object & ObjectVector::at( ObjectId id )
 
 void ObjectVector::insert( Object const &  obj )
 {
-  ObjectContainer::iterator findIt = mObjects.find( obj.id() );
-  if( findIt != mObjects.end() )
-  {
-    mObjects.erase( findIt );
-  }
-  mObjects.insert( obj.clone() );
+  // Copy first, as the argument might be an element of this vector.
+  insert( obj.clone() );
 }
 
 void ObjectVector::insert( std::unique_ptr<Object> &&  obj )
-- 
2.43.0


From 44f6cd64d269d5bc561e84a69b8abcf3f7a7ad86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:51 +0000
Subject: [PATCH 50/88] fix: writing a source that is always channel-locked
 must not lose the channel lock

---
 src/libobjectmodel/point_source_parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libobjectmodel/point_source_parser.cpp b/src/libobjectmodel/point_source_parser.cpp
index 4c1b1e2..8030f22 100644
--- a/src/libobjectmodel/point_source_parser.cpp
+++ b/src/libobjectmodel/point_source_parser.cpp
@@ -10,6 +10,7 @@
 #include <boost/property_tree/ptree.hpp>
 
 #include <ciso646>
+#include <cmath>
 
 namespace visr
 {
@@ -55,7 +56,10 @@ write( Object const & obj, boost::property_tree::ptree & tree ) const
 
   if( psObj.channelLockDistance() != static_cast<PointSource::Coordinate>(0.0) )
   {
-    tree.put<PointSource::Coordinate>( "channelLock", psObj.channelLockDistance() );
+    // "Always lock" is represented by infinity, which has no number representation in JSON. Any value >= 180 degree means the same.
+    PointSource::Coordinate const maxLock = static_cast<PointSource::Coordinate>(180.0);
+    PointSource::Coordinate const lockDistance = psObj.channelLockDistance();
+    tree.put<PointSource::Coordinate>( "channelLock", std::isinf( lockDistance ) ? maxLock : lockDistance );
   }
 }
 
-- 
2.43.0


From a83dc50563850a65ea8a85fe552e36294a73fed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:51 +0000
Subject: [PATCH 51/88] fix: ParametricIirCoefficient::loadXml() must parse the
 given string instead of opening a file of that name

---
 src/librbbl/parametric_iir_coefficient.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/librbbl/parametric_iir_coefficient.cpp b/src/librbbl/parametric_iir_coefficient.cpp
index 7e2c255..bf58009 100644
--- a/src/librbbl/parametric_iir_coefficient.cpp
+++ b/src/librbbl/parametric_iir_coefficient.cpp
@@ -236,8 +236,6 @@ void ParametricIirCoefficient< CoefficientType >::loadJson( std::string const &
 template< typename CoefficientType >
 void ParametricIirCoefficient< CoefficientType >::loadXml( boost::property_tree::ptree const & tree )
 {
-  boost::property_tree::write_xml( std::cout, tree );
-
   std::string const & typeStr = tree.get<std::string>( "<xmlattr>.type" );
   Type const typeId  = stringToTypeId( typeStr );
   CoefficientType const frequency = tree.get<CoefficientType>( "<xmlattr>.f" );
@@ -267,16 +265,8 @@ void ParametricIirCoefficient<CoefficientType>::loadXml( std::basic_istream<char
 template< typename CoefficientType >
 void ParametricIirCoefficient<CoefficientType>::loadXml( std::string const & str )
 {
-  boost::property_tree::ptree tree;
-  try
-  {
-    read_xml( str, tree );
-  }
-  catch( std::exception const & ex )
-  {
-    throw std::invalid_argument( std::string( "Error while parsing a XML ParametricIirCoefficient node: " ) + ex.what() );
-  }
-  loadXml( tree );
+  std::stringstream stream( str );
+  loadXml( stream );
 }
 
 template< typename CoefficientType >
-- 
2.43.0


From 8e0f38e381ec17b5d93b72f988048a1704d602b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:12 +0000
Subject: [PATCH 52/88] fix: PositionDecoder must prefer the smallest face ID
 irrespective of the time stamps of other faces

---
 src/librcl/position_decoder.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/librcl/position_decoder.cpp b/src/librcl/position_decoder.cpp
index 93b26b4..59fa735 100644
--- a/src/librcl/position_decoder.cpp
+++ b/src/librcl/position_decoder.cpp
@@ -51,6 +51,7 @@ void PositionDecoder::process()
 {
   pml::ListenerPosition newPos;
   pml::ListenerPosition foundPos;
+  bool received = false;
   pml::ListenerPosition::IdType smallestFaceId = std::numeric_limits<unsigned int>::max();
   pml::ListenerPosition::TimeType latestTimeStamp = 0;
   while( !mDatagramInput.empty() )
@@ -60,15 +61,15 @@ void PositionDecoder::process()
     try
     {
       newPos.parseJson( msgStream );
-      if( newPos.faceID() <= smallestFaceId )
+      // A smaller face ID always takes precedence. For a given face ID, update the position only if the timestamp is not older than
+      // the previously received timestamp.
+      if( (not received) or (newPos.faceID() < smallestFaceId)
+        or ((newPos.faceID() == smallestFaceId) and (newPos.timeNs() >= latestTimeStamp)) )
       {
-        // for a given face ID, update the position only if the timestamp is not older than the previously received timestamp.
-        if( newPos.timeNs() >= latestTimeStamp )
-        {
-          foundPos = newPos;
-          smallestFaceId = foundPos.faceID();
-          latestTimeStamp = foundPos.timeNs();
-        }
+        foundPos = newPos;
+        smallestFaceId = foundPos.faceID();
+        latestTimeStamp = foundPos.timeNs();
+        received = true;
       }
     }
     catch( std::exception const & ex )
@@ -79,7 +80,7 @@ void PositionDecoder::process()
     mDatagramInput.pop();
   }
   // Did we actually receive a valid message?
-  if( smallestFaceId != std::numeric_limits<unsigned int>::max() )
+  if( received )
   {
     mPositionOutput.data() = translatePosition( foundPos );
     mPositionOutput.swapBuffers();
-- 
2.43.0


From d8bb584001f1117387800b065b249df42a1da5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:12 +0000
Subject: [PATCH 53/88] fix: the Quaternion constructor must normalise if
 requested

---
 src/librbbl/quaternion.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/librbbl/quaternion.cpp b/src/librbbl/quaternion.cpp
index b78f958..b1bed45 100644
--- a/src/librbbl/quaternion.cpp
+++ b/src/librbbl/quaternion.cpp
@@ -26,6 +26,10 @@ Quaternion< CoordinateType >::Quaternion( Coordinate w, Coordinate x,
                                           bool normalise /*= false*/ )
  : mQuat{ w, x, y, z }
 {
+  if( normalise )
+  {
+    this->normalise();
+  }
 }
 
 template< typename CoordinateType >
-- 
2.43.0


From ea45c20d3b8bcbc7d174e1f4548886deacaf03b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:12 +0000
Subject: [PATCH 54/88] fix: the angle between quaternions must be the angle
 between the rotations

---
 src/librbbl/quaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librbbl/quaternion.cpp b/src/librbbl/quaternion.cpp
index b1bed45..95e0ac7 100644
--- a/src/librbbl/quaternion.cpp
+++ b/src/librbbl/quaternion.cpp
@@ -338,7 +338,7 @@ CoordinateType angleNormalised( Quaternion< CoordinateType > const& q1,
   // First (w) component of the difference rotation quaternion q1*conj(q2)
   // Note: Despite the above formula, this is the standard dot product (according to the source)
   CT const wDot{ dot( q1, q2 ) };
-  CT const wDiff{ std::sqrt( std::abs( wDot ) ) };
+  CT const wDiff{ std::abs( wDot ) };
   // Clip using min/max to avoid arguments with  abs( x ) > 1.0 due to numerical errors.
   return static_cast<CT>(2.0)* std::acos( std::max( std::min( wDiff, static_cast<CT>(1.0) ),
     static_cast<CT>(-1.0) ) );
-- 
2.43.0


From a2b6a0da78d9b9056a34176f24823dd4943e8d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:12 +0000
Subject: [PATCH 55/88] fix: interpolateSpherical() must not divide by zero for
 identical quaternions

---
 src/librbbl/quaternion.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/librbbl/quaternion.cpp b/src/librbbl/quaternion.cpp
index 95e0ac7..0f9fa48 100644
--- a/src/librbbl/quaternion.cpp
+++ b/src/librbbl/quaternion.cpp
@@ -381,6 +381,11 @@ interpolateSpherical( Quaternion< CoordinateType > const& pos0,
       std::max( static_cast< CoordinateType >(-1.0),
         dot( normalise(pos0), normalise(pos1) ) ) ) );
   CoordinateType const sinOmega = std::sin( omega );
+  if( sinOmega < std::numeric_limits< CoordinateType >::epsilon() )
+  {
+    // Avoid a division by zero for (almost) identical quaternions.
+    return (static_cast<CoordinateType>(1.0)-tInterp) * pos0 + tInterp * pos1;
+  }
   CoordinateType const sf1 = std::sin((static_cast<CoordinateType>(1.0)-tInterp)*omega) / sinOmega;
   CoordinateType const sf2 = std::sin(tInterp*omega) / sinOmega;
   return sf1 * pos0 + sf2 * pos1;
-- 
2.43.0


From 5f533e857629704c16f0dc074341588a706706d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:29 +0000
Subject: [PATCH 56/88] fix: the XML text of a ParametricIirCoefficient needs a
 root element to be readable

---
 src/librbbl/parametric_iir_coefficient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librbbl/parametric_iir_coefficient.cpp b/src/librbbl/parametric_iir_coefficient.cpp
index bf58009..f9bf44d 100644
--- a/src/librbbl/parametric_iir_coefficient.cpp
+++ b/src/librbbl/parametric_iir_coefficient.cpp
@@ -254,6 +254,7 @@ void ParametricIirCoefficient<CoefficientType>::loadXml( std::basic_istream<char
   try
   {
     read_xml( stream, tree );
+    tree = boost::property_tree::ptree( tree.get_child( "eq" ) ); // An XML document needs a root element.
   }
   catch( std::exception const & ex )
   {
@@ -313,7 +314,7 @@ template< typename CoefficientType >
 void ParametricIirCoefficient< CoefficientType >::writeXml( std::basic_ostream<char> & stream ) const
 {
   boost::property_tree::ptree tree;
-  writeXml( tree );
+  writeXml( tree.add_child( "eq", boost::property_tree::ptree() ) );
   boost::property_tree::write_xml( stream, tree );
 }
 
-- 
2.43.0


From 64b628bcf7d8f3262e2609c3b331659cb1963f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 57/88] fix: UdpSender truncated messages at null characters in
 asynchronous mode

---
 src/librcl/udp_sender.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/librcl/udp_sender.cpp b/src/librcl/udp_sender.cpp
index 6235fec..f31b6bf 100644
--- a/src/librcl/udp_sender.cpp
+++ b/src/librcl/udp_sender.cpp
@@ -188,8 +188,7 @@ void UdpSender::Impl::process( UdpSender::MessageInput & messageInput )
       bool const transmissionPending = not mInternalMessageBuffer.empty();
       while( not messageInput.empty() )
       {
-        char const * nextMsg = messageInput.front().str();
-        mInternalMessageBuffer.push_back( pml::StringParameter( nextMsg ) );
+        mInternalMessageBuffer.push_back( messageInput.front() );
         messageInput.pop();
       }
       if( not mInternalMessageBuffer.empty() and not transmissionPending )
-- 
2.43.0


From d5c7a91ed304635c5471a68c9144fdbab7689c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 58/88] fix: a message that cannot be sent must not block the
 UdpSender for ever

---
 src/librcl/udp_sender.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/librcl/udp_sender.cpp b/src/librcl/udp_sender.cpp
index f31b6bf..5cd80b5 100644
--- a/src/librcl/udp_sender.cpp
+++ b/src/librcl/udp_sender.cpp
@@ -168,14 +168,15 @@ void UdpSender::Impl::process( UdpSender::MessageInput & messageInput )
     // we don't operate an internal message queue in this mode.
     while( not messageInput.empty() )
     {
-      pml::StringParameter const & nextMsg = messageInput.front( );
+      // Remove the message also if it cannot be sent (e.g., if it is too long), to avoid blocking the subsequent messages.
+      pml::StringParameter const nextMsg = messageInput.front( );
+      messageInput.pop( );
       // boost::system::error_code err;
       std::size_t bytesSent = mSocket->send_to( boost::asio::buffer(nextMsg.str(), nextMsg.size()), mRemoteEndpoint );
       if( bytesSent != nextMsg.size() )
       {
         throw std::runtime_error( "Number of sent bytes differs from message size." );
       }
-      messageInput.pop( );
     }
     break;
   case Mode::Asynchronous:
-- 
2.43.0


From 96c5559c9bb648f2a5a691becee79dd59e46d0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 59/88] fix: a message that cannot be sent must not terminate
 the program in UdpSender's asynchronous mode

---
 src/librcl/udp_sender.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/librcl/udp_sender.cpp b/src/librcl/udp_sender.cpp
index 5cd80b5..36632bd 100644
--- a/src/librcl/udp_sender.cpp
+++ b/src/librcl/udp_sender.cpp
@@ -16,6 +16,7 @@
 #endif
 
 #include <ciso646>
+#include <iostream>
 #include <memory>
 #include <sstream>
 #include <stdexcept>
@@ -41,7 +42,7 @@ public:
 private:
     /**
     * Callback function triggered by the ASIO library.
-    * @throw std::runtime_error if \p error is set or the number of transferred bytes differs from the expected value.
+    * Messages that could not be sent are reported to the error stream and dropped.
     */
     void handleSentData(const boost::system::error_code& error,
         std::size_t numBytesTransferred);
@@ -209,18 +210,19 @@ void UdpSender::Impl::process( UdpSender::MessageInput & messageInput )
 void UdpSender::Impl::handleSentData(const boost::system::error_code& error,
     std::size_t numBytesTransferred)
 {
-    if (error != boost::system::errc::success)
-    {
-        throw std::runtime_error("UdpSender: Asynchronous send operation resulted in an error.");
-    }
 #ifndef VISR_DISABLE_THREADS
     boost::lock_guard<boost::mutex> lock(mMutex);
 #endif
     assert(not mInternalMessageBuffer.empty());
     pml::StringParameter & currMsg = mInternalMessageBuffer.front();
-    if (currMsg.size() != numBytesTransferred)
+    // This is executed in the network thread, an exception would terminate the program.
+    if (error)
+    {
+        std::cerr << "UdpSender: Asynchronous send operation failed: " << error.message() << std::endl;
+    }
+    else if (currMsg.size() != numBytesTransferred)
     {
-        throw std::runtime_error("UdpSender: Asynchronous send operation transmitted less bytes than the message length.");
+        std::cerr << "UdpSender: Asynchronous send operation transmitted less bytes than the message length." << std::endl;
     }
     mInternalMessageBuffer.pop_front();
     if (not mInternalMessageBuffer.empty())
-- 
2.43.0


From 536383a2da0f5764d839cfb30122e2f7b414e6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 60/88] fix: UdpReceiver delivered an empty message for a
 failed receive operation

---
 src/librcl/udp_receiver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/librcl/udp_receiver.cpp b/src/librcl/udp_receiver.cpp
index 88b4a1f..02a391b 100644
--- a/src/librcl/udp_receiver.cpp
+++ b/src/librcl/udp_receiver.cpp
@@ -173,6 +173,7 @@ void UdpReceiver::Impl::process( UdpReceiver::MessageOutput & messageOutput )
 void UdpReceiver::Impl::handleReceiveData( const boost::system::error_code& error,
                                            std::size_t numBytesTransferred )
 {
+  if( not error ) // Do not mistake a failed receive operation for an empty message.
   {
 #ifndef VISR_DISABLE_THREADS
     boost::lock_guard<boost::mutex> lock( mMutex );
-- 
2.43.0


From e399cff0af3b73daa69eabb293bca4c905d444a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:12 +0000
Subject: [PATCH 61/88] fix: keep the middle value of a single-element
 vectorRamp

---
 src/libefl/reference/vector_functions_impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libefl/reference/vector_functions_impl.hpp b/src/libefl/reference/vector_functions_impl.hpp
index 3455d68..63a5a3c 100644
--- a/src/libefl/reference/vector_functions_impl.hpp
+++ b/src/libefl/reference/vector_functions_impl.hpp
@@ -71,7 +71,10 @@ ErrorCode vectorRamp( T * const dest, std::size_t numElements, T startVal, T end
     {
       dest[0] = static_cast<T>(0.5f)*(startVal+endVal);
     }
-    dest[0] = startInclusive ? startVal : endVal;
+    else
+    {
+      dest[0] = startInclusive ? startVal : endVal;
+    }
     return noError;
   }
   std::size_t const numSteps = numElements + 1 - (startInclusive ? 1 : 0) - (endInclusive ? 1 : 0);
-- 
2.43.0


From 2fa7be693cc9c6126eebe205f2c53b46a7f47d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:12 +0000
Subject: [PATCH 62/88] fix: no aligned store to an unaligned accumulator in
 vectorMultiplyConstantAddInplace<float>

---
 src/libefl/intel_x86_64/vector_multiply_add.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libefl/intel_x86_64/vector_multiply_add.cpp b/src/libefl/intel_x86_64/vector_multiply_add.cpp
index 0958bbb..5781847 100644
--- a/src/libefl/intel_x86_64/vector_multiply_add.cpp
+++ b/src/libefl/intel_x86_64/vector_multiply_add.cpp
@@ -410,7 +410,7 @@ ErrorCode vectorMultiplyConstantAddInplace<float, Feature::VISR_SIMD_FEATURE>( f
         __m128 mulRes = _mm_mul_ps( a, c );
         acc = _mm_add_ps( mulRes, acc );
 #endif
-    _mm_store_ps( y, acc );
+    _mm_storeu_ps( y, acc );
     y += 4;
   }
   while( cnt > 0 ) // Remaining scalar elements
-- 
2.43.0


From 2c05a47b56f6f70ab97d46d4dc7dbf992b996c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:13 +0000
Subject: [PATCH 63/88] fix: check the alignment in
 vectorMultiplyConstantAddInplace for x86-64

---
 src/libefl/intel_x86_64/vector_multiply_add.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libefl/intel_x86_64/vector_multiply_add.cpp b/src/libefl/intel_x86_64/vector_multiply_add.cpp
index 5781847..db59588 100644
--- a/src/libefl/intel_x86_64/vector_multiply_add.cpp
+++ b/src/libefl/intel_x86_64/vector_multiply_add.cpp
@@ -345,6 +345,9 @@ ErrorCode vectorMultiplyConstantAddInplace<float, Feature::VISR_SIMD_FEATURE>( f
 					    std::size_t numElements,
 					    std::size_t alignment /*= 0*/ )
 {
+  if( not checkAlignment( factor, alignment ) ) return alignmentError;
+  if( not checkAlignment( accumulator, alignment ) ) return alignmentError;
+
   float const * x = factor;
   float * y = accumulator;
   std::size_t cnt = numElements;
@@ -438,6 +441,9 @@ ErrorCode vectorMultiplyConstantAddInplace<std::complex<float>, Feature::VISR_SI
 					    std::size_t numElements,
 					    std::size_t alignment /*= 0*/ )
 {
+  if( not checkAlignment( factor, alignment ) ) return alignmentError;
+  if( not checkAlignment( accumulator, alignment ) ) return alignmentError;
+
   float const * x = reinterpret_cast<float const *>(factor);
   float * y = reinterpret_cast<float *>(accumulator);
   std::size_t cnt = numElements;
-- 
2.43.0


From a0b72b208a4ffbead1e2d8326dd51c02711c35da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:57 +0000
Subject: [PATCH 64/88] fix: refuse virtual loudspeakers as rerouting targets
 and subwoofer sources instead of writing past the matrices

---
 src/libpanning/LoudspeakerArray.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index 23b5f40..d859184 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -402,12 +402,14 @@ namespace panning
         SampleType const gainDB = childTree.get<SampleType>( "<xmlattr>.gainDB" );
         boost::trim_if( lspId, boost::is_any_of( "\t " ) );
         
-        if( m_id.find( lspId ) == m_id.end() or lspId.empty() )
+        // Only regular loudspeakers are valid targets, the rerouting matrix has no entries for virtual loudspeakers.
+        auto const findLsp = m_id.find( lspId );
+        if( findLsp == m_id.end() or findLsp->second >= numRegularSpeakers )
         {
           throw std::invalid_argument( "LoudspeakerArray::loadXml(): Cannot find loudspeaker id in virtual speaker routing." );
         }
         //std::cout <<"RER: "<< i - numRegularSpeakers << " => " << m_id[lspId] << '\n';
-        m_reRoutingCoeff( i - numRegularSpeakers, m_id[lspId] ) = efl::dB2linear( gainDB );
+        m_reRoutingCoeff( i - numRegularSpeakers, findLsp->second ) = efl::dB2linear( gainDB );
       }
       /**************print rerouting matrix*******************/
       /*
@@ -484,8 +486,13 @@ namespace panning
       std::vector<std::string> speakerIndices;
       boost::find_format_all( speakerIndicesStr, boost::token_finder( ::isspace ), boost::const_formatter( "" ) );
       boost::split( speakerIndices, speakerIndicesStr, boost::is_any_of( "," ), boost::token_compress_on );
+      // Only regular loudspeakers can be assigned, the gain matrix has no entries for virtual loudspeakers.
       if( std::find_if( speakerIndices.begin(), speakerIndices.end(),
-                       [&]( std::string val ) { return (m_id.find( val ) == m_id.end() or (val.empty())); } ) != speakerIndices.end() )
+                       [&]( std::string const & val )
+                       {
+                         auto const findLsp = m_id.find( val );
+                         return findLsp == m_id.end() or findLsp->second >= numRegularSpeakers;
+                       } ) != speakerIndices.end() )
       {
         throw std::invalid_argument( "At least one of the specified loudspeaker index in subwoofer's list does not exist." );
       }
-- 
2.43.0


From 7f53fb8c37a8441f1e79af707b6d64f5230af715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:57 +0000
Subject: [PATCH 65/88] fix: loading a loudspeaker configuration discards the
 identifiers of a previously loaded one

---
 src/libpanning/LoudspeakerArray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index d859184..e6dedd6 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -273,6 +273,7 @@ namespace panning
     std::size_t const numTotalSpeakers = numRegularSpeakers + numVirtualSpeakers;
     std::size_t const numSubwoofers = std::distance( subwooferNodes.first, subwooferNodes.second );
     
+    m_id.clear(); // Discard the loudspeakers of a previously loaded configuration.
     m_position.resize( numTotalSpeakers );
     m_channel.resize( numRegularSpeakers );
     
-- 
2.43.0


From 3ab2a0c19dfe8cfcec48197091576376655e1432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:57 +0000
Subject: [PATCH 66/88] fix: assign the loudspeaker index to the trimmed
 identifier

---
 src/libpanning/LoudspeakerArray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index e6dedd6..ca64a44 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -359,6 +359,7 @@ namespace panning
     {
       ptree const childTree = treeIt->second;
       std::string id = childTree.get<std::string>( "<xmlattr>.id" );
+      boost::trim_if( id, boost::is_any_of( "\t " ) );
       //      if(std::find(m_channel.begin(),m_channel.end(),m_channel[w]) == m_channel.end()) std::cout<<"NOTFIND"<<std::endl;
       ChannelIndex const chIdx = childTree.get<ChannelIndex>( "<xmlattr>.channel" );
       size_t offset = std::distance(m_channel.begin(),std::find(m_channel.begin(),m_channel.end(),chIdx));
-- 
2.43.0


From ce2be5bc35ac70281d8cc76afc15ea0fbdd950e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:57 +0000
Subject: [PATCH 67/88] fix: assigning a loudspeaker array copies the output
 equalisation and leaves a self-assigned array intact

---
 src/libpanning/LoudspeakerArray.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libpanning/LoudspeakerArray.cpp b/src/libpanning/LoudspeakerArray.cpp
index ca64a44..366c5b1 100644
--- a/src/libpanning/LoudspeakerArray.cpp
+++ b/src/libpanning/LoudspeakerArray.cpp
@@ -61,6 +61,10 @@ namespace panning
   
   LoudspeakerArray const &  LoudspeakerArray::operator=( LoudspeakerArray const & rhs )
   {
+    if( this == &rhs )
+    {
+      return *this;
+    }
     m_is2D = rhs.m_is2D;
     m_isInfinite = rhs.m_isInfinite;
     m_position = rhs.m_position;
@@ -74,6 +78,7 @@ namespace panning
     m_subwooferGains.copy( rhs.m_subwooferGains );
     m_gainAdjustment.assign( rhs.m_gainAdjustment );
     m_delayAdjustment.assign( rhs.m_delayAdjustment );
+    mOutputEqs.reset( rhs.mOutputEqs ? new rbbl::BiquadCoefficientMatrix<SampleType>( *rhs.mOutputEqs ) : nullptr );
     return *this;
   }
   
-- 
2.43.0


From 9a8656bb6fc09b746868bdc2390fa29eb4d7ec00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 68/88] fix: HoaAllRadGainCalculator refuses sources whose
 order exceeds the decoder instead of reading past its coefficients

---
 src/librcl/hoa_allrad_gain_calculator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/librcl/hoa_allrad_gain_calculator.cpp b/src/librcl/hoa_allrad_gain_calculator.cpp
index 056d86b..8a05c24 100644
--- a/src/librcl/hoa_allrad_gain_calculator.cpp
+++ b/src/librcl/hoa_allrad_gain_calculator.cpp
@@ -117,6 +117,10 @@ void HoaAllRadGainCalculator::process()
       {
         throw std::runtime_error( "The number of harmonic signals is inconsistent with the HOA order." );
       }
+      if( numHoaSignals > decodeGains.numberOfRows() )
+      {
+        throw std::runtime_error( "The order of the HOA source exceeds the order of the decoder." );
+      }
       for( std::size_t sigIdx( 0 ); sigIdx < numHoaSignals; ++sigIdx )
       {
         std::size_t const chIdx = hoaSrc.channelIndex( sigIdx );
-- 
2.43.0


From f8086e4383124b850c7c3c471e89b91890ceeb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 69/88] fix: VBAP ignores the height of the listener for 2D
 arrays

---
 src/libpanning/VBAP.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libpanning/VBAP.cpp b/src/libpanning/VBAP.cpp
index a02daca..0769073 100644
--- a/src/libpanning/VBAP.cpp
+++ b/src/libpanning/VBAP.cpp
@@ -144,6 +144,8 @@ namespace panning
     l3X, l3Y, l3Z;
     SampleType det, temp;
     SampleType* inv;
+    // A 2D array covers only the horizontal plane, so the height of the listener is not considered.
+    SampleType const listenerZ = is2D ? static_cast<SampleType>(0.0) : mListenerPos[2];
     for( std::size_t i = 0; i < mTriplets.size(); i++ )
     {
       
@@ -172,13 +174,13 @@ namespace panning
       // calc speaker positions relative to listener.
       l1X = l1X - mListenerPos[0];
       l1Y = l1Y - mListenerPos[1];
-      l1Z = l1Z - mListenerPos[2];
+      l1Z = l1Z - listenerZ;
       l2X = l2X - mListenerPos[0];
       l2Y = l2Y - mListenerPos[1];
-      l2Z = l2Z - mListenerPos[2];
+      l2Z = l2Z - listenerZ;
       l3X = l3X - mListenerPos[0];
       l3Y = l3Y - mListenerPos[1];
-      l3Z = l3Z - mListenerPos[2];
+      l3Z = l3Z - listenerZ;
 
       normalise(l1X,l1Y,l1Z);
       normalise(l2X,l2Y,l2Z);
-- 
2.43.0


From 31b7cf3f792363b29f053ef71c3662a2c8224fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 70/88] fix: AllRAD and HoaAllRadGainCalculator use only the
 regular loudspeakers of the regular array, as there are no positions for the
 virtual ones

---
 src/libpanning/AllRAD.cpp                 | 2 +-
 src/librcl/hoa_allrad_gain_calculator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libpanning/AllRAD.cpp b/src/libpanning/AllRAD.cpp
index 0835734..87e1b58 100644
--- a/src/libpanning/AllRAD.cpp
+++ b/src/libpanning/AllRAD.cpp
@@ -26,7 +26,7 @@ AllRAD::AllRAD(LoudspeakerArray const & regularArray,
  , mNumberOfHarmonics( (maxHoaOrder + 1) * (maxHoaOrder + 1) )
  , mRegularDecodeCoefficients( decodeCoeffs.numberOfRows( ), decodeCoeffs.numberOfColumns( ), decodeCoeffs.alignmentElements( ) )
  , mRealDecodeCoefficients( mNumberOfHarmonics, realArray.getNumRegularSpeakers(), decodeCoeffs.alignmentElements() )
- , mRegularArraySize( regularArray.getNumSpeakers( ) )
+ , mRegularArraySize( regularArray.getNumRegularSpeakers( ) )
  , mRegularToRealDecodeCoefficients( mRegularArraySize, realArray.getNumRegularSpeakers(), decodeCoeffs.alignmentElements() )
 {
   if( decodeCoeffs.numberOfRows() != mNumberOfHarmonics )
diff --git a/src/librcl/hoa_allrad_gain_calculator.cpp b/src/librcl/hoa_allrad_gain_calculator.cpp
index 8a05c24..fa00884 100644
--- a/src/librcl/hoa_allrad_gain_calculator.cpp
+++ b/src/librcl/hoa_allrad_gain_calculator.cpp
@@ -38,7 +38,7 @@ HoaAllRadGainCalculator( SignalFlowContext const & context,
   , mRegularDecodeMatrix( decodeMatrix.numberOfRows(), regularArrayConfig.getNumRegularSpeakers(), cVectorAlignmentSamples )
   , mRealDecodeMatrix( regularArrayConfig.getNumSpeakers(), realArrayConfig.getNumRegularSpeakers(), cVectorAlignmentSamples )
 {
-  std::size_t const numRegularSpeakers = regularArrayConfig.getNumSpeakers();
+  std::size_t const numRegularSpeakers = regularArrayConfig.getNumRegularSpeakers();
   std::size_t const numHarmonicSignals = decodeMatrix.numberOfRows();
 
   // Deduce the Ambisonics order from the number of harmonic signals
-- 
2.43.0


From f6297c4fce149360993918e1acf70181f1bf512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:26 +0000
Subject: [PATCH 71/88] fix: give the listener position input of
 HoaAllRadGainCalculator a parameter configuration, so that it can run

---
 src/librcl/hoa_allrad_gain_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/hoa_allrad_gain_calculator.cpp b/src/librcl/hoa_allrad_gain_calculator.cpp
index fa00884..faabdd4 100644
--- a/src/librcl/hoa_allrad_gain_calculator.cpp
+++ b/src/librcl/hoa_allrad_gain_calculator.cpp
@@ -34,7 +34,7 @@ HoaAllRadGainCalculator( SignalFlowContext const & context,
   , mObjectInput( "objectInput", *this, pml::EmptyParameterConfig() )
   , mGainMatrixInput( "gainInput", *this, pml::MatrixParameterConfig( realArrayConfig.getNumRegularSpeakers(), numberOfObjectChannels ) )
   , mGainMatrixOutput( "gainOutput", *this, pml::MatrixParameterConfig( realArrayConfig.getNumRegularSpeakers(), numberOfObjectChannels ) )
-  , mListenerInput( adaptiveListenerPosition ? new ParameterInput<pml::DoubleBufferingProtocol, pml::ListenerPosition>( "listenerInput", *this ) : nullptr )
+  , mListenerInput( adaptiveListenerPosition ? new ParameterInput<pml::DoubleBufferingProtocol, pml::ListenerPosition>( "listenerInput", *this, pml::EmptyParameterConfig() ) : nullptr )
   , mRegularDecodeMatrix( decodeMatrix.numberOfRows(), regularArrayConfig.getNumRegularSpeakers(), cVectorAlignmentSamples )
   , mRealDecodeMatrix( regularArrayConfig.getNumSpeakers(), realArrayConfig.getNumRegularSpeakers(), cVectorAlignmentSamples )
 {
-- 
2.43.0


From deb3ccb7a59da95ef7a06208aa4fdda9f9319c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:50 +0000
Subject: [PATCH 72/88] fix: VBAP does not refuse a source located at a
 loudspeaker because of rounding errors

---
 src/libpanning/VBAP.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libpanning/VBAP.cpp b/src/libpanning/VBAP.cpp
index 0769073..7ef5b1b 100644
--- a/src/libpanning/VBAP.cpp
+++ b/src/libpanning/VBAP.cpp
@@ -247,6 +247,9 @@ namespace panning
     }
     if( is2D ) z = 0; //! temp fix. no fade from 2D plane.
     
+    // Gains that are negative only because of rounding errors (for instance if the source is located at a loudspeaker) must not rule out a triplet.
+    SampleType const minGain = -1.0e-5f * (std::abs( x ) + std::abs( y ) + std::abs( z ));
+
     std::size_t l1, l2, l3;
     SampleType g1, g2, g3;
     for( std::size_t j = 0; j < mTriplets.size(); j++ )
@@ -269,7 +272,7 @@ namespace panning
       //! better geometric solution needed.
       //! 'dead'-speakers provide a posssible solution.
       
-      if( ((g1 < 0) + (g2 < 0) + (g3 < 0) <= 1) &&   // at most one negative gain
+      if( ((g1 < minGain) + (g2 < minGain) + (g3 < minGain) <= 1) &&   // at most one negative gain
          (jmin == invalid || (g1 > gmin && g2 > gmin && g3 > gmin))
          )
       {
-- 
2.43.0


From f8df14b029d6a2326ff58010d0203e1220921730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:13 +0000
Subject: [PATCH 73/88] fix: PanningCalculator ignores object channels beyond
 its gain matrices instead of writing past them

---
 src/librcl/panning_calculator.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index ad855a4..060820a 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -219,9 +219,10 @@ void PanningCalculator::process()
         for( std::size_t chIdx(0); chIdx < numChannels; ++chIdx )
         {
           std::size_t const objChannelIdx = co->channelIndex( chIdx );
-          if( chIdx >= mNumberOfObjects )
+          if( objChannelIdx >= mNumberOfObjects )
           {
-            status( StatusMessage::Warning, "Object channel index for channel object (", chIdx,  ") exceeds admissible range." );
+            status( StatusMessage::Warning, "Object channel index for channel object (", objChannelIdx,  ") exceeds admissible range." );
+            continue;
           }
           mTmpGains.zeroFill();
           objectmodel::ChannelObject::OutputChannelList const & outputChannels = co->outputChannel( chIdx );
@@ -260,6 +261,11 @@ void PanningCalculator::process()
         continue;
       }
       objectmodel::Object::ChannelIndex const objChannelIdx = obj.channelIndex(0);
+      if( objChannelIdx >= mNumberOfObjects )
+      {
+        status( StatusMessage::Warning, "Object channel index (", objChannelIdx, ") exceeds admissible range." );
+        continue;
+      }
       objectmodel::DiffuseSource const * ds = dynamic_cast<objectmodel::DiffuseSource const *>(&obj);
       if( ds and diffuseGains )
       {
-- 
2.43.0


From 7bedfcf2bd6618b33b8c5d3449f890566b0a92c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:13 +0000
Subject: [PATCH 74/88] fix: PanningCalculator ignores unknown loudspeaker
 labels instead of dereferencing the end iterator

---
 src/librcl/panning_calculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index 060820a..fe18725 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -231,7 +231,8 @@ void PanningCalculator::process()
             ChannelLabelLookup::const_iterator findIdx = mLabelLookup.find( outLabel );
             if( findIdx == mLabelLookup.end() )
             {
-              status( StatusMessage::Warning, "Object channel index for channel object (", chIdx, ") exceeds admissible range." );
+              status( StatusMessage::Warning, "Unknown loudspeaker label \"", outLabel.c_str(), "\" in channel object." );
+              continue;
             }
             assert( findIdx->second < mNumberOfRegularLoudspeakers ); // The lookup contains only regular loudspeakers
             mTmpGains[findIdx->second] = 1.0f; // Normalisation and direct/diffuse scaling is performed later on
-- 
2.43.0


From 0fad951d39a42d4bf27077acbeb3a7eb0a8c51f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:13 +0000
Subject: [PATCH 75/88] fix: PanningCalculator takes the direction of plane
 waves as degrees

---
 src/librcl/panning_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index fe18725..89351a2 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -280,7 +280,7 @@ void PanningCalculator::process()
       if( pw )
       {
         SampleType x,y,z;
-        std::tie( x, y, z ) = efl::spherical2cartesian( pw->incidenceAzimuth(), pw->incidenceElevation(), pw->referenceDistance() );
+        std::tie( x, y, z ) = efl::spherical2cartesian( efl::degree2radian( pw->incidenceAzimuth() ), efl::degree2radian( pw->incidenceElevation() ), pw->referenceDistance() );
         mVbapCalculator->calculateGainsUnNormalised( x, y, z, &mTmpGains[0], true /*planeWave*/ );
         diffuseRatio = 0.0f;
         objectHandled = true;
-- 
2.43.0


From 4fdd2daaf96047e1122e3e81436d1517f91e0276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:13 +0000
Subject: [PATCH 76/88] fix: no NaN in the high-frequency panning gains for
 negative VBAP gains

---
 src/librcl/panning_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index 89351a2..6b12c2f 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -311,7 +311,7 @@ void PanningCalculator::process()
         }
         if( hfGains )
         {
-          std::transform( mTmpGains.data(), mTmpGains.data()+mNumberOfRegularLoudspeakers, mTmpHfGains.data(), [](SampleType val ){ return std::sqrt(val); } );
+          std::transform( mTmpGains.data(), mTmpGains.data()+mNumberOfRegularLoudspeakers, mTmpHfGains.data(), [](SampleType val ){ return std::sqrt( std::max( val, static_cast<SampleType>(0.0) ) ); } );
           normalise( mTmpHfGains.data(), hfGains->data() + objChannelIdx, mNumberOfRegularLoudspeakers,
             mHfNormalisation, hfGains->stride(), directRatio );
         }
-- 
2.43.0


From 9efd75a542db137237e4faabad438061e13bf0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:13 +0000
Subject: [PATCH 77/88] fix: PanningCalculator recomputes the gains when the
 listener moves

---
 src/librcl/panning_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/panning_calculator.cpp b/src/librcl/panning_calculator.cpp
index 6b12c2f..5ba587c 100644
--- a/src/librcl/panning_calculator.cpp
+++ b/src/librcl/panning_calculator.cpp
@@ -182,7 +182,7 @@ void PanningCalculator::process()
     mListenerPositionInput->resetChanged( );
   }
 
-  if( mObjectVectorInput->changed() )
+  if( listenerPosChanged or mObjectVectorInput->changed() )
   {
     objectmodel::ObjectVector const & objects = mObjectVectorInput->data( );
 #if 1
-- 
2.43.0


From db950b85b0e5d41a9a0dcea460d7e60febe5ea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:13 +0000
Subject: [PATCH 78/88] fix: ChannelObjectRoutingCalculator refuses the first
 channel beyond the object channels

---
 src/librcl/channel_object_routing_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/librcl/channel_object_routing_calculator.cpp b/src/librcl/channel_object_routing_calculator.cpp
index 64f014e..422199b 100644
--- a/src/librcl/channel_object_routing_calculator.cpp
+++ b/src/librcl/channel_object_routing_calculator.cpp
@@ -82,7 +82,7 @@ void ChannelObjectRoutingCalculator::process( pml::ObjectVector const & objects,
     assert(numberOfChannelSignals == chObj.outputChannels().size()); // class invariant
     for( std::size_t chIdx(0); chIdx < numberOfChannelSignals; ++chIdx )
     {
-      if (chObj.channelIndex(chIdx) > cNumberOfObjectChannels)
+      if (chObj.channelIndex(chIdx) >= cNumberOfObjectChannels)
       {
         // TODO: Use error reporting API (when defined)
         std::cerr << "ChannelObjectRoutingCalculator: Object channel index exceeds channel range." << std::endl;
-- 
2.43.0


From 0cce4e4126e6c7d9d630ace1b32e3ddafb2d1b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:13 +0000
Subject: [PATCH 79/88] fix: ListenerCompensation considers only the regular
 loudspeakers, for which there are gains and delays

---
 src/librcl/listener_compensation.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/librcl/listener_compensation.cpp b/src/librcl/listener_compensation.cpp
index 547b735..c3baa5f 100644
--- a/src/librcl/listener_compensation.cpp
+++ b/src/librcl/listener_compensation.cpp
@@ -106,7 +106,7 @@ int ListenerCompensation::calcGainComp( efl::BasicVector<Afloat> & gainComp )
   y = m_listenerPos.y;
   z = m_listenerPos.z;
 
-  for (std::size_t i = 0; i < m_array.getNumSpeakers(); i++) {
+  for (std::size_t i = 0; i < mNumberOfLoudspeakers; i++) {
 
     l1 = m_array.getPosition( i );
 
@@ -118,7 +118,7 @@ int ListenerCompensation::calcGainComp( efl::BasicVector<Afloat> & gainComp )
       max_rad = gainComp[i];
   }
 
-  for (std::size_t i = 0; i < m_array.getNumSpeakers(); i++) {
+  for (std::size_t i = 0; i < mNumberOfLoudspeakers; i++) {
 
     gainComp[i] = (gainComp[i]/max_rad);
   }
@@ -137,7 +137,7 @@ int ListenerCompensation::calcDelayComp( efl::BasicVector<Afloat> & delayComp )
   y = m_listenerPos.y;
   z = m_listenerPos.z;
 
-  for (std::size_t i = 0; i < m_array.getNumSpeakers(); i++) {
+  for (std::size_t i = 0; i < mNumberOfLoudspeakers; i++) {
 
     l1 = m_array.getPosition( i );
 
@@ -149,7 +149,7 @@ int ListenerCompensation::calcDelayComp( efl::BasicVector<Afloat> & delayComp )
       max_rad = delayComp[i];
   }
 
-  for ( std::size_t i = 0; i < m_array.getNumSpeakers(); i++){
+  for ( std::size_t i = 0; i < mNumberOfLoudspeakers; i++){
 
     delayComp[i] = std::abs(delayComp[i]-max_rad)/c_0;
   }
-- 
2.43.0


From 779afced81719ee7e080c5ad3631a5994d21f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:06 +0000
Subject: [PATCH 80/88] fix: CoreRenderer with tracking connects the listener
 position input of the HOA gain calculator

---
 src/libsignalflows/core_renderer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libsignalflows/core_renderer.cpp b/src/libsignalflows/core_renderer.cpp
index 6d0a8dd..c11b829 100644
--- a/src/libsignalflows/core_renderer.cpp
+++ b/src/libsignalflows/core_renderer.cpp
@@ -217,6 +217,10 @@ CoreRenderer::CoreRenderer( SignalFlowContext const & context,
   parameterConnection( mObjectVectorInput, mAllradGainCalculator->parameterPort("objectInput") );
   parameterConnection( mGainCalculator.parameterPort( "vbapGains" ), mAllradGainCalculator->parameterPort( "gainInput" ) );
   parameterConnection( mAllradGainCalculator->parameterPort( "gainOutput" ), mVbapMatrix.parameterPort( "gainInput" ) );
+  if( trackingEnabled )
+  {
+    parameterConnection( *mTrackingPositionInput, mAllradGainCalculator->parameterPort( "listenerInput" ) );
+  }
 
   //////////////////////////////////////////////////////////////////////////////////////
 
-- 
2.43.0


From 97a972c42bf50f972e5734839f9213fb4f97c571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:06 +0000
Subject: [PATCH 81/88] fix: CoreRenderer with tracking connects subwoofers and
 the output equalisation

---
 src/libsignalflows/core_renderer.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libsignalflows/core_renderer.cpp b/src/libsignalflows/core_renderer.cpp
index c11b829..53c4e42 100644
--- a/src/libsignalflows/core_renderer.cpp
+++ b/src/libsignalflows/core_renderer.cpp
@@ -272,12 +272,22 @@ CoreRenderer::CoreRenderer( SignalFlowContext const & context,
     audioConnection( mListenerGainDelayCompensation->audioPort("out"), mSubwooferMix.audioPort("in") );
     if( outputEqSupport )
     {
-      audioConnection( mListenerGainDelayCompensation->audioPort("out"), mOutputEqualisationFilter->audioPort("in") );
+      audioConnection( mListenerGainDelayCompensation->audioPort("out"),
+                       ChannelRange( 0, numberOfLoudspeakers ),
+                       mOutputEqualisationFilter->audioPort("in"),
+                       ChannelRange( 0, numberOfLoudspeakers ) );
+      audioConnection( mSubwooferMix.audioPort("out"),
+                       ChannelRange( 0, numberOfSubwoofers ),
+                       mOutputEqualisationFilter->audioPort("in"),
+                       ChannelRange( numberOfLoudspeakers, numberOfLoudspeakers + numberOfSubwoofers ) );
+      audioConnection( mOutputEqualisationFilter->audioPort("out"), mOutputAdjustment.audioPort("in") );
     }
     else
     {
       audioConnection( mListenerGainDelayCompensation->audioPort("out"), ChannelRange( 0, numberOfLoudspeakers ),
                        mOutputAdjustment.audioPort("in"), ChannelRange( 0, numberOfLoudspeakers ) );
+      audioConnection( mSubwooferMix.audioPort("out"), ChannelRange( 0, numberOfSubwoofers ),
+                       mOutputAdjustment.audioPort("in"), ChannelRange( numberOfLoudspeakers, numberOfLoudspeakers + numberOfSubwoofers ) );
     }
   }
   else
-- 
2.43.0


From 6cb404f650c9dc10269f0ff9455d8475050c2e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:13 +0000
Subject: [PATCH 82/88] fix: BaselineRenderer and VisrRenderer with tracking
 connect the tracking receiver to the position decoder

---
 src/libsignalflows/baseline_renderer.cpp   | 1 +
 src/libsignalflowspython/visr_renderer.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/libsignalflows/baseline_renderer.cpp b/src/libsignalflows/baseline_renderer.cpp
index 1a2baf9..35ba2a5 100644
--- a/src/libsignalflows/baseline_renderer.cpp
+++ b/src/libsignalflows/baseline_renderer.cpp
@@ -61,6 +61,7 @@ BaselineRenderer::BaselineRenderer( SignalFlowContext const & context,
   {
     mTrackingReceiver.reset( new rcl::UdpReceiver( context, "TrackingReceiver", this, 8888, rcl::UdpReceiver::Mode::Synchronous) );
     mTrackingPositionDecoder.reset( new rcl::PositionDecoder( context, "TrackingPositionDecoder", this ) );
+    parameterConnection( mTrackingReceiver->parameterPort("messageOutput"), mTrackingPositionDecoder->parameterPort("messageInput") );
     parameterConnection( mTrackingPositionDecoder->parameterPort("positionOutput"), mCoreRenderer.parameterPort("trackingPositionInput") );
   }
 }
diff --git a/src/libsignalflowspython/visr_renderer.cpp b/src/libsignalflowspython/visr_renderer.cpp
index 309f923..50f7666 100644
--- a/src/libsignalflowspython/visr_renderer.cpp
+++ b/src/libsignalflowspython/visr_renderer.cpp
@@ -75,6 +75,7 @@ VisrRenderer::VisrRenderer( SignalFlowContext const & context,
     mTrackingReceiver.reset( new rcl::UdpReceiver( context, "TrackingReceiver", this, 8888, rcl::UdpReceiver::Mode::Synchronous) );
     mTrackingPositionDecoder.reset( new rcl::PositionDecoder( context, "TrackingPositionDecoder", this ) );
 
+    parameterConnection( mTrackingReceiver->parameterPort("messageOutput"), mTrackingPositionDecoder->parameterPort("messageInput") );
     parameterConnection( mTrackingPositionDecoder->parameterPort("positionOutput"), mCoreRenderer.parameterPort("trackingPositionInput") );
   }
 }
-- 
2.43.0


From 834f26848f3b2c7b4b4c361d555e64eadec8626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:44 +0000
Subject: [PATCH 83/88] fix: time-frequency transforms refuse a hop size of
 zero instead of dividing by it

---
 src/librcl/time_frequency_inverse_transform.cpp | 4 ++--
 src/librcl/time_frequency_transform.cpp         | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/librcl/time_frequency_inverse_transform.cpp b/src/librcl/time_frequency_inverse_transform.cpp
index 4ec185f..4eebef6 100644
--- a/src/librcl/time_frequency_inverse_transform.cpp
+++ b/src/librcl/time_frequency_inverse_transform.cpp
@@ -58,7 +58,7 @@ TimeFrequencyInverseTransform::TimeFrequencyInverseTransform(
  , cNumberOfDftBins(
        pml::TimeFrequencyParameter< SampleType >::numberOfBinsRealToComplex(
            dftSize ) )
- , cFramesPerPeriod( period() / hopSize )
+ , cFramesPerPeriod( hopSize == 0 ? 0 : period() / hopSize )
  , cHopSize( hopSize )
  , mAccumulationBuffer( cNumberOfChannels, dftSize - cHopSize, cAlignment )
  , mFftWrapper( rbbl::FftWrapperFactory< SampleType >::create(
@@ -72,7 +72,7 @@ TimeFrequencyInverseTransform::TimeFrequencyInverseTransform(
                cNumberOfDftBins, numberOfChannels, cFramesPerPeriod ) )
  , mOutput( "out", *this, numberOfChannels )
 {
-  if( period() % hopSize != 0 )
+  if( ( hopSize == 0 ) or ( period() % hopSize != 0 ) )
   {
     throw std::invalid_argument(
         "TimeFrequencyInverseTransform: Invalid hop size (no integer number of "
diff --git a/src/librcl/time_frequency_transform.cpp b/src/librcl/time_frequency_transform.cpp
index 32b8405..e6f1fc8 100644
--- a/src/librcl/time_frequency_transform.cpp
+++ b/src/librcl/time_frequency_transform.cpp
@@ -100,7 +100,7 @@ TimeFrequencyTransform::TimeFrequencyTransform(
  , cDftSize( dftSize )
  , cNumberOfDftBins( pml::TimeFrequencyParameter<SampleType>::numberOfBinsRealToComplex( dftSize ) )
  , cWindowLength( window.size() )
- , cFramesPerPeriod( context.period() / hopSize )
+ , cFramesPerPeriod( hopSize == 0 ? 0 : context.period() / hopSize )
  , cHopSize( hopSize )
  , mInputBuffer( numberOfChannels,
                  inputBufferSize( window.size(), hopSize, period() ),
-- 
2.43.0


From 9cfde6230093ee0239935dff2be5a04e9264ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:44 +0000
Subject: [PATCH 84/88] fix: TimeFrequencyTransform does not fail for frames
 starting at unaligned positions

---
 src/librcl/time_frequency_transform.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/librcl/time_frequency_transform.cpp b/src/librcl/time_frequency_transform.cpp
index e6f1fc8..ac279ac 100644
--- a/src/librcl/time_frequency_transform.cpp
+++ b/src/librcl/time_frequency_transform.cpp
@@ -179,7 +179,8 @@ void TimeFrequencyTransform::process()
     {
       efl::ErrorCode res = efl::vectorMultiply(
           mInputBuffer.getReadPointer( channelIndex, blockStartIndex ),
-          mWindow.data(), mCalcBuffer.data(), cWindowLength, cAlignment );
+          mWindow.data(), mCalcBuffer.data(), cWindowLength,
+          0 /* The read position depends on hop size and window length. */ );
       if( res != efl::noError )
       {
         throw std::runtime_error(
-- 
2.43.0


From 9e2db6f11596deddfaa30a64802e781a336f7f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:44 +0000
Subject: [PATCH 85/88] fix: TimeFrequencyTransform refuses windows longer than
 the transform

---
 src/librcl/time_frequency_transform.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/librcl/time_frequency_transform.cpp b/src/librcl/time_frequency_transform.cpp
index ac279ac..929b205 100644
--- a/src/librcl/time_frequency_transform.cpp
+++ b/src/librcl/time_frequency_transform.cpp
@@ -122,6 +122,11 @@ TimeFrequencyTransform::TimeFrequencyTransform(
         "TimeFrequencyTransform: Invalid hop size (no integer number of hops "
         "per audio processing period)." );
   }
+  if( window.size() > dftSize )
+  {
+    throw std::invalid_argument(
+        "TimeFrequencyTransform: The window must not be longer than the DFT." );
+  }
   efl::vectorZero( mCalcBuffer.data(), mCalcBuffer.size(),
                    mCalcBuffer.alignmentElements() );
 
-- 
2.43.0


From 1252cf2a4207145410d7c00ebac123a87b19f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:03 +0000
Subject: [PATCH 86/88] fix: TimeFrequencyTransform accepts windows shorter
 than the hop or the transform

---
 src/librcl/time_frequency_transform.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/librcl/time_frequency_transform.cpp b/src/librcl/time_frequency_transform.cpp
index 929b205..b2d1d62 100644
--- a/src/librcl/time_frequency_transform.cpp
+++ b/src/librcl/time_frequency_transform.cpp
@@ -57,7 +57,7 @@ std::size_t inputBufferSize( std::size_t windowLen,
         "The period size must be an integer multiple of the hop size." );
   }
   std::size_t const hopsPerPeriod{ period / hopSize };
-  return windowLen + ( hopsPerPeriod - 1 ) * hopSize;
+  return std::max( windowLen, hopSize ) + ( hopsPerPeriod - 1 ) * hopSize;
 }
 
 } // unnamed namespace
@@ -155,11 +155,11 @@ TimeFrequencyTransform::TimeFrequencyTransform(
       window.data(), window.data() + window.size(), mWindow.data(),
       [scaleFactor]( SampleType val ) { return scaleFactor * val; } );
 
-  // If the transform size is larger than the hop size, we have to prepend
+  // If the window is longer than the hop size, we have to prepend
   // the input signal with zeros for the first transforms.
-  if( dftSize > hopSize )
+  if( cWindowLength > hopSize )
   {
-    std::size_t const padSamples{ cDftSize - hopSize };
+    std::size_t const padSamples{ cWindowLength - hopSize };
     efl::BasicVector< SampleType > initData( padSamples, cAlignment );
     initData.zeroFill();
     mInputBuffer.write(
-- 
2.43.0


From 8cd305a9814ae5bb64217f345ee38fd7f589cd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:03 +0000
Subject: [PATCH 87/88] fix: TimeFrequencyInverseTransform refuses hop sizes
 larger than the transform

---
 src/librcl/time_frequency_inverse_transform.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/librcl/time_frequency_inverse_transform.cpp b/src/librcl/time_frequency_inverse_transform.cpp
index 4eebef6..504f4b5 100644
--- a/src/librcl/time_frequency_inverse_transform.cpp
+++ b/src/librcl/time_frequency_inverse_transform.cpp
@@ -60,7 +60,7 @@ TimeFrequencyInverseTransform::TimeFrequencyInverseTransform(
            dftSize ) )
  , cFramesPerPeriod( hopSize == 0 ? 0 : period() / hopSize )
  , cHopSize( hopSize )
- , mAccumulationBuffer( cNumberOfChannels, dftSize - cHopSize, cAlignment )
+ , mAccumulationBuffer( cNumberOfChannels, dftSize - std::min( cHopSize, dftSize ), cAlignment )
  , mFftWrapper( rbbl::FftWrapperFactory< SampleType >::create(
        fftImplementation, dftSize, cAlignment ) )
  , mCalcBuffer( dftSize, cAlignment )
@@ -78,6 +78,12 @@ TimeFrequencyInverseTransform::TimeFrequencyInverseTransform(
         "TimeFrequencyInverseTransform: Invalid hop size (no integer number of "
         "hops per audio processing period)." );
   }
+  if( hopSize > dftSize )
+  {
+    throw std::invalid_argument(
+        "TimeFrequencyInverseTransform: The hop size must not exceed the DFT "
+        "size." );
+  }
 }
 
 TimeFrequencyInverseTransform::~TimeFrequencyInverseTransform() = default;
-- 
2.43.0


From 6621e9756403f81bbd2c519addbfeab2283022cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:03 +0000
Subject: [PATCH 88/88] fix: TimeFrequencyInverseTransform outputs every hop of
 a period

---
 .../time_frequency_inverse_transform.cpp      | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/librcl/time_frequency_inverse_transform.cpp b/src/librcl/time_frequency_inverse_transform.cpp
index 504f4b5..2096675 100644
--- a/src/librcl/time_frequency_inverse_transform.cpp
+++ b/src/librcl/time_frequency_inverse_transform.cpp
@@ -125,17 +125,15 @@ void TimeFrequencyInverseTransform::process()
         throw std::runtime_error(
             "TimeFrequencyInverseTransform: Storing partial results failed." );
       }
-    }
-    // Copy first portion of accumulated result to output port.
-    // Also applies the DFT scaling.
-    // if( ( res = efl::vectorCopy( mCalcBuffer.data(), mOutput[ channelIdx ],
-    //                              period(), cAlignment ) ) != efl::noError )
-    if( ( res = efl::vectorMultiplyConstant( cScalingFactor,
-        mCalcBuffer.data(), mOutput[ channelIdx ],
-        period(), cAlignment ) ) != efl::noError )
-    {
-      throw std::runtime_error(
-          "TimeFrequencyInverseTransform: Error while copying output data." );
+      // Copy first portion of accumulated result to output port.
+      // Also applies the DFT scaling.
+      if( ( res = efl::vectorMultiplyConstant( cScalingFactor,
+          mCalcBuffer.data(), mOutput[ channelIdx ] + frameIdx * cHopSize,
+          cHopSize, 0 /* alignment depends on the hop size */ ) ) != efl::noError )
+      {
+        throw std::runtime_error(
+            "TimeFrequencyInverseTransform: Error while copying output data." );
+      }
     }
   }
 }
-- 
2.43.0

