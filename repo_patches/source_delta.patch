From 206772414bdb5ee8c89f90b0d8932f104c6ed4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 01/45] fix: inserting an empty range into an unallocated array
 is valid

---
 src/arrayManipulation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrayManipulation.hpp b/src/arrayManipulation.hpp
index 9cf25ee..03f6729 100644
--- a/src/arrayManipulation.hpp
+++ b/src/arrayManipulation.hpp
@@ -505,7 +505,7 @@ void insert( T * const LVARRAY_RESTRICT ptr,
              ITERATOR first,
              std::ptrdiff_t const n )
 {
-  LVARRAY_ASSERT( ptr != nullptr );
+  LVARRAY_ASSERT( ptr != nullptr || (size == 0 && n == 0) );
   LVARRAY_ASSERT( isPositive( size ) );
   ARRAYMANIPULATION_CHECK_INSERT_BOUNDS( index );
 
-- 
2.43.0


From d89e7e1214f41d542e8d894046acd5a645a20c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 02/45] fix: move assignment of Array and SortedArray releases
 the values it replaces

---
 src/Array.hpp       |  4 ++++
 src/SortedArray.hpp | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Array.hpp b/src/Array.hpp
index 69fc34e..b6b28ed 100644
--- a/src/Array.hpp
+++ b/src/Array.hpp
@@ -192,6 +192,10 @@ public:
   LVARRAY_HOST_DEVICE
   Array & operator=( Array && rhs )
   {
+    if( this == &rhs ) return *this;
+
+    // Release the current values before taking over those of rhs.
+    bufferManipulation::free( this->m_dataBuffer, this->size() );
     ParentClass::operator=( std::move( rhs ) );
 
     for( int i = 0; i < NDIM; ++i )
diff --git a/src/SortedArray.hpp b/src/SortedArray.hpp
index 58ea36f..7df21da 100644
--- a/src/SortedArray.hpp
+++ b/src/SortedArray.hpp
@@ -111,7 +111,15 @@ public:
    * @return *this.
    */
   inline
-  SortedArray & operator=( SortedArray && src ) = default;
+  SortedArray & operator=( SortedArray && src )
+  {
+    if( this == &src ) return *this;
+
+    // Release the current values before taking over those of src.
+    bufferManipulation::free( this->m_values, size() );
+    ParentClass::operator=( std::move( src ) );
+    return *this;
+  }
 
   ///@}
 
-- 
2.43.0


From 5765b75524ae5759eaacdadb9cf3e3eb7d8ac4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 03/45] fix: shiftUp destroys every value it moves out of

---
 src/arrayManipulation.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/arrayManipulation.hpp b/src/arrayManipulation.hpp
index 03f6729..586832e 100644
--- a/src/arrayManipulation.hpp
+++ b/src/arrayManipulation.hpp
@@ -333,16 +333,13 @@ void shiftUp( T * const LVARRAY_RESTRICT ptr,
   if( n == 0 )
     return;
 
-  // Move the existing values up by n.
+  // Move the existing values up by n, destroying each value once it has been moved out of.
   for( std::ptrdiff_t i = size; i > index; --i )
   {
     std::ptrdiff_t const curIndex = i - 1;
     new ( ptr + curIndex + n ) T( std::move( ptr[ curIndex ] ) );
+    destroy( ptr + curIndex, 1 );
   }
-
-  // Delete the values moved out of.
-  std::ptrdiff_t const bounds = (index + n < size) ? index + n : size;
-  destroy( ptr + index, bounds - index );
 }
 
 /**
-- 
2.43.0


From 13bce31c09c56fc957da69f843165e81afc5c307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 04/45] fix: a moved-from Array has the strides of an empty
 Array, so it can be reused

---
 src/Array.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Array.hpp b/src/Array.hpp
index b6b28ed..7ec7a88 100644
--- a/src/Array.hpp
+++ b/src/Array.hpp
@@ -153,8 +153,9 @@ public:
     for( int i = 0; i < NDIM; ++i )
     {
       source.m_dims[ i ] = 0;
-      source.m_strides[ i ] = 0;
     }
+
+    source.m_strides = indexing::calculateStrides< PERMUTATION >( source.m_dims );
   }
 
   /**
@@ -201,9 +202,10 @@ public:
     for( int i = 0; i < NDIM; ++i )
     {
       rhs.m_dims[ i ] = 0;
-      rhs.m_strides[ i ] = 0;
     }
 
+    rhs.m_strides = indexing::calculateStrides< PERMUTATION >( rhs.m_dims );
+
     return *this;
   }
 
-- 
2.43.0


From 4e6021f89cb773a8879444262daa47b549b4f215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 05/45] fix: copy assignment of the array-of-arrays containers
 from any state

The number of values to preserve was read from the already overwritten offsets
with the old number of arrays, which is past their end when the source is
smaller. Self assignment destroyed the values before copying them, and copying a
moved-from container read its unallocated offsets.
---
 src/ArrayOfArrays.hpp     |  4 +++-
 src/ArrayOfArraysView.hpp | 14 +++++++++++---
 src/ArrayOfSets.hpp       |  4 +++-
 src/CRSMatrix.hpp         |  4 +++-
 src/SparsityPattern.hpp   |  4 +++-
 5 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/ArrayOfArrays.hpp b/src/ArrayOfArrays.hpp
index 1ce2231..2d99784 100644
--- a/src/ArrayOfArrays.hpp
+++ b/src/ArrayOfArrays.hpp
@@ -168,8 +168,10 @@ public:
   inline
   ArrayOfArrays & operator=( ArrayOfArrays const & src )
   {
+    if( this == &src ) return *this;
+
     ParentClass::setEqualTo( src.m_numArrays,
-                             src.m_offsets[ src.m_numArrays ],
+                             src.m_numArrays == 0 ? 0 : src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
                              src.m_sizes,
                              src.m_values );
diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 7aebc59..43a9836 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -837,13 +837,21 @@ protected:
 
     INDEX_TYPE const offsetsSize = ( m_numArrays == 0 ) ? 0 : m_numArrays + 1;
 
+    // The source's offsets aren't allocated if it has been moved from.
+    if( srcNumArrays == 0 )
+    {
+      bufferManipulation::resize( m_offsets, offsetsSize, 1, 0 );
+      m_numArrays = 0;
+      return;
+    }
+
     bufferManipulation::copyInto( m_offsets, offsetsSize, srcOffsets, srcNumArrays + 1 );
     bufferManipulation::copyInto( m_sizes, m_numArrays, srcSizes, srcNumArrays );
 
-    INDEX_TYPE const maxOffset = m_offsets[ m_numArrays ];
-    typeManipulation::forEachArg( [maxOffset, srcMaxOffset]( auto & dstBuffer )
+    // All the values have been destroyed so there is nothing to preserve.
+    typeManipulation::forEachArg( [srcMaxOffset]( auto & dstBuffer )
     {
-      bufferManipulation::reserve( dstBuffer, maxOffset, MemorySpace::host, srcMaxOffset );
+      bufferManipulation::reserve( dstBuffer, 0, MemorySpace::host, srcMaxOffset );
     }, m_values, pairs.first ... );
 
     m_numArrays = srcNumArrays;
diff --git a/src/ArrayOfSets.hpp b/src/ArrayOfSets.hpp
index c8b7519..a7b73cc 100644
--- a/src/ArrayOfSets.hpp
+++ b/src/ArrayOfSets.hpp
@@ -98,8 +98,10 @@ public:
   inline
   ArrayOfSets & operator=( ArrayOfSets const & src )
   {
+    if( this == &src ) return *this;
+
     ParentClass::setEqualTo( src.m_numArrays,
-                             src.m_offsets[ src.m_numArrays ],
+                             src.m_numArrays == 0 ? 0 : src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
                              src.m_sizes,
                              src.m_values );
diff --git a/src/CRSMatrix.hpp b/src/CRSMatrix.hpp
index ddd786c..0c290a2 100644
--- a/src/CRSMatrix.hpp
+++ b/src/CRSMatrix.hpp
@@ -100,9 +100,11 @@ public:
   inline
   CRSMatrix & operator=( CRSMatrix const & src )
   {
+    if( this == &src ) return *this;
+
     this->m_numCols = src.m_numCols;
     ParentClass::setEqualTo( src.m_numArrays,
-                             src.m_offsets[ src.m_numArrays ],
+                             src.m_numArrays == 0 ? 0 : src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
                              src.m_sizes,
                              src.m_values,
diff --git a/src/SparsityPattern.hpp b/src/SparsityPattern.hpp
index 652d5e5..9b82e87 100644
--- a/src/SparsityPattern.hpp
+++ b/src/SparsityPattern.hpp
@@ -95,9 +95,11 @@ public:
   inline
   SparsityPattern & operator=( SparsityPattern const & src )
   {
+    if( this == &src ) return *this;
+
     this->m_numCols = src.m_numCols;
     ParentClass::setEqualTo( src.m_numArrays,
-                             src.m_offsets[ src.m_numArrays ],
+                             src.m_numArrays == 0 ? 0 : src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
                              src.m_sizes,
                              src.m_values );
-- 
2.43.0


From ea3ada2e42005410dca02eb36e516002fe0da7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:15 +0000
Subject: [PATCH 06/45] fix: resizing with an rvalue gives every new value the
 argument, not only the first

---
 src/arrayManipulation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arrayManipulation.hpp b/src/arrayManipulation.hpp
index 586832e..32deb8b 100644
--- a/src/arrayManipulation.hpp
+++ b/src/arrayManipulation.hpp
@@ -303,7 +303,8 @@ void resize( T * const LVARRAY_RESTRICT ptr,
   {
     for( std::ptrdiff_t i = size; i < newSize; ++i )
     {
-      new ( ptr + i ) T( std::forward< ARGS >( args )... );
+      // The arguments are used for every new value so they can't be forwarded.
+      new ( ptr + i ) T( args ... );
     }
   }
 }
-- 
2.43.0


From a9607f32c40a8e629ae7a640963a301f0d1012d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 07/45] fix: growing an array of arrays moves only the values
 that exist

The slots between the size and the capacity of an inner array hold no value, but
reallocating the values moved from and destroyed every slot up to the last
offset.
---
 src/ArrayOfArraysView.hpp | 53 +++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 43a9836..a9ed539 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -645,10 +645,10 @@ protected:
   template< class ... BUFFERS >
   void reserveValues( INDEX_TYPE const newValueCapacity, BUFFERS & ... buffers )
   {
-    INDEX_TYPE const maxOffset = m_offsets[ m_numArrays ];
-    typeManipulation::forEachArg( [newValueCapacity, maxOffset] ( auto & buffer )
+    typeManipulation::forEachArg( [this, newValueCapacity] ( auto & buffer )
     {
-      bufferManipulation::reserve( buffer, maxOffset, MemorySpace::host, newValueCapacity );
+      if( newValueCapacity > buffer.capacity() )
+      { reallocateValues( buffer, newValueCapacity ); }
     }, m_values, buffers ... );
   }
 
@@ -782,13 +782,7 @@ protected:
           m_offsets[ m_numArrays + i ] = originalOffset + i * defaultArrayCapacity;
         }
 
-        INDEX_TYPE const totalSize = m_offsets[ newSize ];
-
-        INDEX_TYPE const maxOffset = m_offsets[ m_numArrays ];
-        typeManipulation::forEachArg( [totalSize, maxOffset]( auto & buffer )
-        {
-          bufferManipulation::reserve( buffer, maxOffset, MemorySpace::host, totalSize );
-        }, m_values, buffers ... );
+        reserveValues( m_offsets[ newSize ], buffers ... );
       }
     }
 
@@ -897,7 +891,8 @@ protected:
         [this, i, maxOffset, capacityIncrease]( auto & buffer )
       {
         // Increase the size of the buffer.
-        bufferManipulation::dynamicReserve( buffer, maxOffset, maxOffset + capacityIncrease );
+        if( maxOffset + capacityIncrease > buffer.capacity() )
+        { reallocateValues( buffer, 2 * ( maxOffset + capacityIncrease ) ); }
 
         // Shift up the values.
         for( INDEX_TYPE array = m_numArrays - 1; array > i; --array )
@@ -980,6 +975,42 @@ protected:
 
 private:
 
+  /**
+   * @brief Reallocate @p buffer preserving the values of each inner array. The slots between the end of an
+   *   inner array and its capacity don't hold a value, so nothing may be moved out of them.
+   * @tparam BUFFER the type of the buffer.
+   * @param buffer the buffer to reallocate, either m_values or one that is treated similarly.
+   * @param newCapacity the new capacity of the buffer.
+   */
+  template< typename BUFFER >
+  void reallocateValues( BUFFER & buffer, std::ptrdiff_t const newCapacity )
+  {
+    if( std::is_trivially_copyable< typename BUFFER::value_type >::value )
+    {
+      bufferManipulation::setCapacity( buffer, m_offsets[ m_numArrays ], MemorySpace::host, newCapacity );
+      return;
+    }
+
+    // Pack the values together, reallocate and then move them back to where they belong.
+    buffer.move( MemorySpace::host, true );
+    std::ptrdiff_t numValues = 0;
+    for( INDEX_TYPE_NC i = 0; i < m_numArrays; ++i )
+    {
+      INDEX_TYPE const offset = m_offsets[ i ];
+      arrayManipulation::uninitializedShiftDown( &buffer[ offset ], m_sizes[ i ], offset - numValues );
+      numValues += m_sizes[ i ];
+    }
+
+    bufferManipulation::setCapacity( buffer, numValues, MemorySpace::host, newCapacity );
+
+    for( INDEX_TYPE_NC i = m_numArrays; i > 0; )
+    {
+      --i;
+      numValues -= m_sizes[ i ];
+      arrayManipulation::uninitializedShiftUp( &buffer[ numValues ], m_sizes[ i ], m_offsets[ i ] - numValues );
+    }
+  }
+
   /**
    * @brief Destroy the values in arrays in the range [begin, end).
    * @tparam BUFFERS variadic template where each type is a BUFFER_TYPE.
-- 
2.43.0


From 8519549bd32aeaccae331b533950a9c9be79820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 08/45] fix: ArrayOfArrays capacity() is defined when offsets
 and sizes grew differently

Appending three arrays to an empty container tripped its assertion.
---
 src/ArrayOfArraysView.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index a9ed539..913c913 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -369,8 +369,8 @@ public:
   LVARRAY_HOST_DEVICE CONSTEXPR_WITH_NDEBUG inline
   INDEX_TYPE_NC capacity() const
   {
-    LVARRAY_ASSERT( m_sizes.capacity() < m_offsets.capacity());
-    return m_sizes.capacity();
+    // The two buffers grow independently, and there is always one more offset than there are arrays.
+    return m_offsets.capacity() == 0 ? 0 : math::min( m_sizes.capacity(), m_offsets.capacity() - 1 );
   }
 
   /**
-- 
2.43.0


From 3c6064b008bb9ac5ab3e5521fc534804f626481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 09/45] fix: dualSort keeps its stack of ranges within bounds

A sequence of bad pivots splits one element off per partition and overflows
the array of ranges; leave what is left to the insertion sort that follows.
---
 src/sortedArrayManipulationHelpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sortedArrayManipulationHelpers.hpp b/src/sortedArrayManipulationHelpers.hpp
index be6765b..3232014 100644
--- a/src/sortedArrayManipulationHelpers.hpp
+++ b/src/sortedArrayManipulationHelpers.hpp
@@ -650,9 +650,9 @@ LVARRAY_HOST_DEVICE inline void introsortLoop( RandomAccessIterator first, Rando
   {
     RandomAccessIterator const m_first = ranges[nRanges - 1];
 
-    if( ranges[nRanges] - m_first > INTROSORT_THRESHOLD )
+    // Once the stack is full the range is left to the insertion sort that always follows.
+    if( ranges[nRanges] - m_first > INTROSORT_THRESHOLD && nRanges < MAX_RANGES )
     {
-      LVARRAY_ASSERT( nRanges < MAX_RANGES );
       ranges[nRanges + 1] = ranges[nRanges];
       ranges[nRanges] = unguardedPartitionPivot( m_first, ranges[nRanges], comp );
       ++nRanges;
-- 
2.43.0


From 95b5ba2978f4b7d7d768a61ec896c77f71ab1460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:13 +0000
Subject: [PATCH 10/45] fix: integerConversion checks signed values converted
 to a wider unsigned type

---
 src/limits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/limits.hpp b/src/limits.hpp
index 9a55104..b3aea71 100644
--- a/src/limits.hpp
+++ b/src/limits.hpp
@@ -120,8 +120,8 @@ constexpr bool sameSignedness = ( std::is_signed< T >::value && std::is_signed<
  * @brief True iff @tparam OUTPUT can hold every possible value of @tparam INPUT.
  */
 template< typename INPUT, typename OUTPUT >
-constexpr bool canEasilyConvert = sizeof( INPUT ) < sizeof( OUTPUT ) ||
-                                  ( sizeof( INPUT ) == sizeof( OUTPUT ) && sameSignedness< INPUT, OUTPUT > );
+constexpr bool canEasilyConvert = ( sizeof( INPUT ) <= sizeof( OUTPUT ) && sameSignedness< INPUT, OUTPUT > ) ||
+                                  ( sizeof( INPUT ) < sizeof( OUTPUT ) && std::is_unsigned< INPUT >::value );
 
 } // namespace internal
 
-- 
2.43.0


From 0891d234bee4141b4e6063478ae36563ff0a124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 11/45] fix: LVARRAY_ERROR_IF_LE and LVARRAY_THROW_IF_LE test
 for less than or equal

---
 src/Macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Macros.hpp b/src/Macros.hpp
index aa8fe6f..da2ce11 100644
--- a/src/Macros.hpp
+++ b/src/Macros.hpp
@@ -446,7 +446,7 @@
  * @param lhs expression to be evaluated and used as left-hand side in comparison
  * @param rhs expression to be evaluated and used as right-hand side in comparison
  */
-#define LVARRAY_ERROR_IF_LE( lhs, rhs ) LVARRAY_ERROR_IF_GE_MSG( lhs, rhs, "" )
+#define LVARRAY_ERROR_IF_LE( lhs, rhs ) LVARRAY_ERROR_IF_LE_MSG( lhs, rhs, "" )
 
 /**
  * @brief Throw an exception if one value compares less than or equal to the other.
@@ -454,7 +454,7 @@
  * @param rhs expression to be evaluated and used as right-hand side in comparison
  * @param TYPE the type of exception to throw
  */
-#define LVARRAY_THROW_IF_LE( lhs, rhs, TYPE ) LVARRAY_THROW_IF_GE_MSG( lhs, rhs, "", TYPE )
+#define LVARRAY_THROW_IF_LE( lhs, rhs, TYPE ) LVARRAY_THROW_IF_LE_MSG( lhs, rhs, "", TYPE )
 
 /**
  * @brief Abort execution if @p lhs @p OP @p rhs is false.
-- 
2.43.0


From 429ca5fd06277471bb8a1c0962eec24768a73fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 12/45] fix: resetSignalHandling restores the handlers from
 before the first setSignalHandling

---
 src/system.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/system.cpp b/src/system.cpp
index 019fe66..69ced88 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -490,6 +490,9 @@ void stackTraceHandler( int const sig, bool const exit )
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 void setSignalHandling( void (* handler)( int ) )
 {
+  // The handlers to go back to are those from before the first call since the last reset.
+  std::map< int, handle_type > const alreadySaved = initialHandler;
+
   initialHandler[SIGHUP] = signal( SIGHUP, handler );
   initialHandler[SIGINT] = signal( SIGINT, handler );
   initialHandler[SIGQUIT] = signal( SIGQUIT, handler );
@@ -510,6 +513,11 @@ void setSignalHandling( void (* handler)( int ) )
   initialHandler[SIGPIPE] = signal( SIGPIPE, handler );
   initialHandler[SIGTERM] = signal( SIGTERM, handler );
 
+  for( auto const & a : alreadySaved )
+  {
+    initialHandler[ a.first ] = a.second;
+  }
+
   return;
 }
 
@@ -520,6 +528,8 @@ void resetSignalHandling()
   {
     signal( a.first, a.second );
   }
+
+  initialHandler.clear();
 }
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From fe2cd19a5bf429f5920d34cddfc8eb61ec20c109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 13/45] fix: FloatingPointExceptionGuard also disables what was
 enabled in its scope

---
 src/system.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/system.hpp b/src/system.hpp
index 59a7752..f39aa7d 100644
--- a/src/system.hpp
+++ b/src/system.hpp
@@ -133,10 +133,13 @@ public:
   {}
 
   /**
-   * @brief Re-enable the floating point exceptions that were active on construction.
+   * @brief Re-enable the floating point exceptions that were active on construction and only those.
    */
   ~FloatingPointExceptionGuard()
-  { enableFloatingPointExceptions( m_previousExceptions ); }
+  {
+    enableFloatingPointExceptions( m_previousExceptions );
+    disableFloatingPointExceptions( ~m_previousExceptions );
+  }
 
 private:
   /// The floating point exceptions that were active on construction.
-- 
2.43.0


From 812d3f2e0c00b6cf7eb78bd30d91303e11b481ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 14/45] fix: ArrayView compiles with
 LVARRAY_USE_TOTALVIEW_OUTPUT

---
 src/ArrayView.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ArrayView.hpp b/src/ArrayView.hpp
index cbbf669..6879edc 100644
--- a/src/ArrayView.hpp
+++ b/src/ArrayView.hpp
@@ -703,9 +703,9 @@ public:
       // m_data;"<<std::endl;
       // TV_ttf_add_row( "tv(m_data)", totalview::format< T, INDEX_TYPE >( NDIM, av->m_dims ).c_str(), (av->m_data) );
       // TV_ttf_add_row( "m_data", totalview::format< T, INDEX_TYPE >( 0, av->m_dims ).c_str(), (av->m_data) );
-      TV_ttf_add_row( "m_dims", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_dims) );
-      TV_ttf_add_row( "m_strides", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_strides) );
-      TV_ttf_add_row( "m_dataBuffer", LvArray::system::demangle< BUFFER_TYPE< T > >().c_str(), &(av->m_dataBuffer) );
+      TV_ttf_add_row( "m_dims", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), av->m_dims.data );
+      TV_ttf_add_row( "m_strides", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), av->m_strides.data );
+      TV_ttf_add_row( "m_dataBuffer", LvArray::system::demangleType< BUFFER_TYPE< T > >().c_str(), &(av->m_dataBuffer) );
       TV_ttf_add_row( "m_singleParameterResizeIndex", "int", &(av->m_singleParameterResizeIndex) );
     }
     return 0;
-- 
2.43.0


From 59fee3150789b282bb014cd096f48b00afe7816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 15/45] fix: debugger rows hold any address and stay within
 their buffer

---
 src/totalview/tv_data_display.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/totalview/tv_data_display.c b/src/totalview/tv_data_display.c
index 7770087..4474fef 100644
--- a/src/totalview/tv_data_display.c
+++ b/src/totalview/tv_data_display.c
@@ -139,9 +139,10 @@ marshal_string ( char * buffer, size_t len, const char * s,
     ret_val++;
     if( len > 1 )
     {
-      *cursor++ = *s++;
+      *cursor++ = *s;
       len--;
     }
+    s++;
   }
   if( len > 0 )
     *cursor = '\0';
@@ -166,7 +167,7 @@ marshal_unsigned_body ( char * buffer, size_t len, size_t val, int base,
   char * my_buffer  = buffer;
   size_t my_len     = len;
 
-  if( (int)val < base )
+  if( val < (size_t) base )
   {
     r = val;
   }
@@ -269,8 +270,8 @@ int TV_ttf_add_row( const char * field_name,
     TV_ttf_data_format_control = TV_FORMAT_APPEND_CALL;
   }
 
-  remaining = TV_ttf_data_buffer_ptr +
-              DATA_FORMAT_BUFFER_SIZE - TV_ttf_data_format_buffer;
+  remaining = TV_ttf_data_format_buffer +
+              DATA_FORMAT_BUFFER_SIZE - TV_ttf_data_buffer_ptr;
 
 /*
    out = snprintf(TV_ttf_data_buffer_ptr,
@@ -280,8 +281,11 @@ int TV_ttf_add_row( const char * field_name,
   out = marshal_row ( TV_ttf_data_buffer_ptr, remaining,
                       field_name, type_name, value, 0, 0 );
 
-  if( out < 1 )
+  if( out < 1 || (size_t) out >= remaining )
+  {
+    *TV_ttf_data_buffer_ptr = '\0';
     return TV_ttf_ec_buffer_exhausted;
+  }
 
   TV_ttf_data_buffer_ptr += out;
 
-- 
2.43.0


From 4908425351321f31f22c364ff70e816f049d9a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 16/45] fix: calculateSize keeps the unit of sizes of 10000 GB
 and more

---
 src/system.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system.cpp b/src/system.cpp
index 69ced88..a65d92d 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -425,8 +425,8 @@ std::string calculateSize( size_t const bytes )
 
   double const units = double( bytes ) / ( 1 << shift );
 
-  char result[10];
-  std::snprintf( result, 10, "%.1f %s", units, suffix );
+  char result[32];
+  std::snprintf( result, sizeof( result ), "%.1f %s", units, suffix );
   return result;
 }
 
-- 
2.43.0


From 3a97fad3573b18e1a00ee6816916f02fe35c7f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 17/45] fix: the two-index check of arrays of arrays does not
 read the size of an array that does not exist

---
 src/ArrayOfArraysView.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 913c913..84efd61 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -43,8 +43,8 @@
  * @note This is only active when LVARRAY_BOUNDS_CHECK is defined.
  */
 #define ARRAYOFARRAYS_CHECK_BOUNDS2( i, j ) \
-  LVARRAY_ERROR_IF( !arrayManipulation::isPositive( i ) || i >= this->size() || \
-                    !arrayManipulation::isPositive( j ) || j >= this->m_sizes[ i ], \
+  ARRAYOFARRAYS_CHECK_BOUNDS( i ); \
+  LVARRAY_ERROR_IF( !arrayManipulation::isPositive( j ) || j >= this->m_sizes[ i ], \
                     "Bounds Check Failed: i=" << i << " size()=" << this->size() << \
                     " j=" << j << " m_sizes[ i ]=" << this->m_sizes[ i ] )
 
-- 
2.43.0


From ea31c3eb5b32f9c1c9f5cd4b501da4cb7b2183ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 18/45] fix: ArrayOfArraysView::appendToArray checks the
 capacity before it writes

---
 src/ArrayOfArraysView.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 84efd61..ea42710 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -484,10 +484,10 @@ public:
   void appendToArray( INDEX_TYPE const i, ITER const first, ITER const last ) const
   {
     ARRAYOFARRAYS_CHECK_BOUNDS( i );
+    ARRAYOFARRAYS_CAPACITY_CHECK( i, arrayManipulation::iterDistance( first, last ) );
 
     T * const ptr = m_values.data() + m_offsets[ i ];
     INDEX_TYPE const n = arrayManipulation::append( ptr, sizeOfArray( i ), first, last );
-    ARRAYOFARRAYS_CAPACITY_CHECK( i, n );
     m_sizes[ i ] += n;
   }
 
-- 
2.43.0


From 385709b76c56dc7f58445565b3beb868797206d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 19/45] fix: ArrayOfSets::assimilate checks its result when
 bounds checks are on

---
 src/ArrayOfSets.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArrayOfSets.hpp b/src/ArrayOfSets.hpp
index a7b73cc..02e28c5 100644
--- a/src/ArrayOfSets.hpp
+++ b/src/ArrayOfSets.hpp
@@ -169,7 +169,7 @@ public:
       }
     }
 
-#ifdef ARRAY_BOUNDS_CHECK
+#ifdef LVARRAY_BOUNDS_CHECK
     consistencyCheck();
 #endif
   }
-- 
2.43.0


From 7677418a9c4c244b094e4feae8c5e2a1d89f7df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 20/45] fix: ArraySlice::size and stride report negative
 dimensions when bounds checks are on

---
 src/ArraySlice.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ArraySlice.hpp b/src/ArraySlice.hpp
index b4e2234..caa451e 100644
--- a/src/ArraySlice.hpp
+++ b/src/ArraySlice.hpp
@@ -190,6 +190,7 @@ public:
   INDEX_TYPE size( int const dim ) const noexcept
   {
 #ifdef LVARRAY_BOUNDS_CHECK
+    LVARRAY_ERROR_IF_LT( dim, 0 );
     LVARRAY_ERROR_IF_GE( dim, NDIM );
 #endif
     return m_dims[ dim ];
@@ -203,6 +204,7 @@ public:
   INDEX_TYPE stride( int const dim ) const noexcept
   {
 #ifdef LVARRAY_BOUNDS_CHECK
+    LVARRAY_ERROR_IF_LT( dim, 0 );
     LVARRAY_ERROR_IF_GE( dim, NDIM );
 #endif
     return m_strides[ dim ];
-- 
2.43.0


From 71e6fd895b9075e9e239c0b9a69c9291ceb5a9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:49 +0000
Subject: [PATCH 21/45] fix: ArrayView::size reports invalid dimensions in
 every build with bounds checks

---
 src/ArrayView.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ArrayView.hpp b/src/ArrayView.hpp
index 6879edc..1c38327 100644
--- a/src/ArrayView.hpp
+++ b/src/ArrayView.hpp
@@ -416,8 +416,8 @@ public:
   INDEX_TYPE size( int const dim ) const noexcept
   {
 #ifdef LVARRAY_BOUNDS_CHECK
-    LVARRAY_ASSERT_GE( dim, 0 );
-    LVARRAY_ASSERT_GT( NDIM, dim );
+    LVARRAY_ERROR_IF_LT( dim, 0 );
+    LVARRAY_ERROR_IF_GE( dim, NDIM );
 #endif
     return m_dims[ dim ];
   }
-- 
2.43.0


From b59346a87c217b36f2895dd50096b76d753f6e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 22/45] fix: inserting and removing matrix columns checks their
 range when bounds checks are on

---
 src/CRSMatrix.hpp       | 14 ++++++++++++--
 src/CRSMatrixView.hpp   | 24 +++++++++++++++++++++---
 src/SparsityPattern.hpp | 14 ++++++++++++--
 3 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/src/CRSMatrix.hpp b/src/CRSMatrix.hpp
index 0c290a2..47cb3ca 100644
--- a/src/CRSMatrix.hpp
+++ b/src/CRSMatrix.hpp
@@ -378,7 +378,10 @@ public:
    */
   inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col, T const & entry )
-  { return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) ); }
+  {
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) );
+  }
 
   /**
    * @brief Insert a non-zero entries into the given row.
@@ -395,7 +398,14 @@ public:
                              COL_TYPE const * const cols,
                              T const * const entriesToInsert,
                              INDEX_TYPE const ncols )
-  { return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) ); }
+  {
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( INDEX_TYPE i = 0; i < ncols; ++i )
+    { SPARSITYPATTERN_COLUMN_CHECK( cols[ i ] ); }
+  #endif
+
+    return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) );
+  }
 
   using ParentClass::removeNonZero;
   using ParentClass::removeNonZeros;
diff --git a/src/CRSMatrixView.hpp b/src/CRSMatrixView.hpp
index 703688c..e96ffbb 100644
--- a/src/CRSMatrixView.hpp
+++ b/src/CRSMatrixView.hpp
@@ -276,7 +276,10 @@ public:
    */
   LVARRAY_HOST_DEVICE inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col, T const & entry ) const
-  { return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) ); }
+  {
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) );
+  }
 
   /**
    * @brief Insert a non-zero entries into the given row.
@@ -294,7 +297,14 @@ public:
                                 COL_TYPE const * const LVARRAY_RESTRICT cols,
                                 T const * const LVARRAY_RESTRICT entriesToInsert,
                                 INDEX_TYPE const ncols ) const
-  { return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) ); }
+  {
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( INDEX_TYPE_NC i = 0; i < ncols; ++i )
+    { SPARSITYPATTERN_COLUMN_CHECK( cols[ i ] ); }
+  #endif
+
+    return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) );
+  }
 
   /**
    * @brief Remove a non-zero entry at the given position.
@@ -304,7 +314,10 @@ public:
    */
   LVARRAY_HOST_DEVICE inline
   bool removeNonZero( INDEX_TYPE const row, COL_TYPE const col ) const
-  { return ParentClass::removeFromSetImpl( row, col, CallBacks( *this, row, nullptr )); }
+  {
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::removeFromSetImpl( row, col, CallBacks( *this, row, nullptr ));
+  }
 
   /**
    * @brief Remove non-zero entries from the given row.
@@ -320,6 +333,11 @@ public:
                                 COL_TYPE const * const LVARRAY_RESTRICT cols,
                                 INDEX_TYPE const ncols ) const
   {
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( INDEX_TYPE_NC i = 0; i < ncols; ++i )
+    { SPARSITYPATTERN_COLUMN_CHECK( cols[ i ] ); }
+  #endif
+
     T * const entries = getEntries( row );
     INDEX_TYPE const rowNNZ = numNonZeros( row );
     INDEX_TYPE const nRemoved = ParentClass::removeFromSetImpl( row, cols, cols + ncols, CallBacks( *this, row, nullptr ) );
diff --git a/src/SparsityPattern.hpp b/src/SparsityPattern.hpp
index 9b82e87..7464545 100644
--- a/src/SparsityPattern.hpp
+++ b/src/SparsityPattern.hpp
@@ -326,7 +326,10 @@ public:
    */
   inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col )
-  { return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row ) ); }
+  {
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row ) );
+  }
 
   /**
    * @tparam ITER An iterator type.
@@ -340,7 +343,14 @@ public:
   template< typename ITER >
   inline
   INDEX_TYPE insertNonZeros( INDEX_TYPE const row, ITER const first, ITER const last )
-  { return ParentClass::insertIntoSetImpl( row, first, last, CallBacks( *this, row ) ); }
+  {
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( ITER iter = first; iter != last; ++iter )
+    { SPARSITYPATTERN_COLUMN_CHECK( *iter ); }
+  #endif
+
+    return ParentClass::insertIntoSetImpl( row, first, last, CallBacks( *this, row ) );
+  }
 
   using ParentClass::removeNonZero;
 
-- 
2.43.0


From c96243abfad2a751a73d58b445bd546f16f9afe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:20 +0000
Subject: [PATCH 23/45] fix: addToRowLinearSearch reports a missing column
 without reading past the row

---
 src/CRSMatrixView.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CRSMatrixView.hpp b/src/CRSMatrixView.hpp
index e96ffbb..c65570c 100644
--- a/src/CRSMatrixView.hpp
+++ b/src/CRSMatrixView.hpp
@@ -503,6 +503,7 @@ public:
           break;
         }
       }
+      LVARRAY_ASSERT_GT( nnz, curPos );
       LVARRAY_ASSERT_EQ( columns[ curPos ], cols[ i ] );
       internal::atomicAdd( AtomicPolicy{}, entries + curPos, vals[ i ] );
       ++curPos;
-- 
2.43.0


From a1b41aaa1764077c307dbb2fd796cb694fd6d168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 24/45] fix: setValues sets the values of arrays that are
 copied by value

---
 src/ArrayView.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ArrayView.hpp b/src/ArrayView.hpp
index 1c38327..121d91f 100644
--- a/src/ArrayView.hpp
+++ b/src/ArrayView.hpp
@@ -608,6 +608,15 @@ public:
   template< typename POLICY >
   void setValues( T const & value ) const
   {
+    // A copy of the view wouldn't refer to this array.
+    if( !BUFFER_TYPE< T >::hasShallowCopy )
+    {
+      for( INDEX_TYPE i = 0; i < size(); ++i )
+      { data()[ i ] = value; }
+
+      return;
+    }
+
     auto const view = toView();
     RAJA::forall< POLICY >( RAJA::TypedRangeSegment< INDEX_TYPE >( 0, size() ),
                             [value, view] LVARRAY_HOST_DEVICE ( INDEX_TYPE const i )
@@ -650,6 +659,15 @@ public:
                                "This method only works with Arrays with the same data layout." );
     }
 
+    // A copy of the view wouldn't refer to this array.
+    if( !BUFFER_TYPE< T >::hasShallowCopy )
+    {
+      for( INDEX_TYPE i = 0; i < size(); ++i )
+      { data()[ i ] = rhs.data()[ i ]; }
+
+      return;
+    }
+
     auto const view = toView();
     RAJA::forall< POLICY >( RAJA::TypedRangeSegment< INDEX_TYPE >( 0, size() ), [view, rhs] LVARRAY_HOST_DEVICE ( INDEX_TYPE const i )
       {
-- 
2.43.0


From 60149b6f3671e83a9e7933c1d185770e193cbbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:20 +0000
Subject: [PATCH 25/45] fix: an invalid value in the input of an array is
 reported as an error

---
 src/input.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/input.hpp b/src/input.hpp
index fde15d5..4ff4651 100644
--- a/src/input.hpp
+++ b/src/input.hpp
@@ -63,8 +63,7 @@ struct StringToArrayHelper
     inputStream >> arrayValue;
 
     LVARRAY_ERROR_IF( inputStream.fail(),
-                      "Invalid value of type " << typeid(T).name() << " in: " <<
-                      ( inputStream.eof()  ?  "" : inputStream.str().substr( inputStream.tellg() ) ) );
+                      "Invalid value of type " << typeid(T).name() << " in: " << inputStream.str() );
   }
 
   /**
-- 
2.43.0


From 40a5b88a325a5776d335deca0c9572492e998abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:07 +0000
Subject: [PATCH 26/45] fix: braces nested deeper than the array are reported
 as an error

---
 src/input.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/input.hpp b/src/input.hpp
index 4ff4651..5806581 100644
--- a/src/input.hpp
+++ b/src/input.hpp
@@ -229,6 +229,10 @@ static void stringToArray( Array< T, NDIM, PERMUTATION, INDEX_TYPE, BUFFER_TYPE
     if( c=='{' )
     {
       ++dimLevel;
+      LVARRAY_ERROR_IF( dimLevel >= NDIM,
+                        "The opening { are nested deeper than the number of dimensions of the array ("<<NDIM<<
+                        "). The values that have been parsed prior to the error are:\n"<<
+                        valueString.substr( 0, charCount+1 ) );
     }
     else if( c=='}' )
     {
-- 
2.43.0


From 8d20a2010c3dc8aa553f6bad6088d27e47f9ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:27 +0000
Subject: [PATCH 27/45] fix: a trailing comma in the input of an array is
 reported as an error

---
 src/input.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/input.hpp b/src/input.hpp
index 5806581..3b41840 100644
--- a/src/input.hpp
+++ b/src/input.hpp
@@ -236,6 +236,9 @@ static void stringToArray( Array< T, NDIM, PERMUTATION, INDEX_TYPE, BUFFER_TYPE
     }
     else if( c=='}' )
     {
+      LVARRAY_ERROR_IF( lastChar==',',
+                        "character of '}' follows ','. Comma must be followed by an array value." );
+
       // } means that we are closing a dimension. That means we know the size of this dimLevel
       dimSet[dimLevel] = true;
       LVARRAY_ERROR_IF( dims[dimLevel]!=currentDims[dimLevel],
-- 
2.43.0


From 42f3ff4db12a3a1a20232a0d3232c87ae9ed6622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 28/45] fix: an empty slice is contiguous

---
 src/ArraySlice.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ArraySlice.hpp b/src/ArraySlice.hpp
index caa451e..6421feb 100644
--- a/src/ArraySlice.hpp
+++ b/src/ArraySlice.hpp
@@ -219,6 +219,7 @@ public:
   {
     if( USD < 0 ) return false;
     if( NDIM == 1 && USD == 0 ) return true;
+    if( size() == 0 ) return true;
 
     bool rval = true;
     for( int i = 0; i < NDIM; ++i )
-- 
2.43.0


From 40bea751e152028b2aeddb8cc1079b82b05e7208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 29/45] fix: a move of nested containers also touches the inner
 ones already in the space

---
 src/ChaiBuffer.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ChaiBuffer.hpp b/src/ChaiBuffer.hpp
index 7a3bfd5..80d0826 100644
--- a/src/ChaiBuffer.hpp
+++ b/src/ChaiBuffer.hpp
@@ -375,13 +375,13 @@ public:
         m_capacity == 0 ||
         chaiSpace == chai::NONE ) return;
 
-    chai::ExecutionSpace const prevSpace = m_pointerRecord->m_last_space;
-
-    if( prevSpace == chai::CPU && prevSpace != chaiSpace ) moveInnerData( space, size, touch );
+    // The inner objects are moved even if the values are already in space since they may not have been touched there.
+    // They can only be accessed on the host so this has to happen before a move to the GPU but after a move to the CPU.
+    if( chaiSpace != chai::CPU ) moveInnerData( space, size, touch );
 
     move( space, touch );
 
-    if( prevSpace == chai::GPU && prevSpace != chaiSpace ) moveInnerData( space, size, touch );
+    if( chaiSpace == chai::CPU ) moveInnerData( space, size, touch );
   #else
     LVARRAY_ERROR_IF_NE( space, MemorySpace::host );
     LVARRAY_UNUSED_VARIABLE( size );
@@ -471,11 +471,13 @@ private:
   std::enable_if_t< bufferManipulation::HasMemberFunction_move< U > >
   moveInnerData( MemorySpace const space, std::ptrdiff_t const size, bool const touch ) const
   {
-    if( space == MemorySpace::undefined ) return;
+    // m_pointer might not point to the host allocation.
+    T_non_const * const hostPointer = static_cast< T_non_const * >( m_pointerRecord->m_pointers[ chai::CPU ] );
+    if( space == MemorySpace::undefined || hostPointer == nullptr ) return;
 
     for( std::ptrdiff_t i = 0; i < size; ++i )
     {
-      const_cast< T_non_const * >( m_pointer )[ i ].move( space, touch );
+      hostPointer[ i ].move( space, touch );
     }
   }
 
-- 
2.43.0


From 21dd1e0eccc184b4c8f68983afd65a5aa3060483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 30/45] fix: the Python objects free their memory when they are
 destroyed

---
 src/python/PyArray.cpp         | 6 +++++-
 src/python/PyArrayOfArrays.cpp | 6 +++++-
 src/python/PyArrayOfSets.cpp   | 6 +++++-
 src/python/PyCRSMatrix.cpp     | 6 +++++-
 src/python/PySortedArray.cpp   | 6 +++++-
 5 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/python/PyArray.cpp b/src/python/PyArray.cpp
index 8e36b51..a80aa91 100644
--- a/src/python/PyArray.cpp
+++ b/src/python/PyArray.cpp
@@ -69,7 +69,11 @@ struct PyArray
  * @param self The PyArray to destroy.
  */
 static void PyArray_dealloc( PyArray * const self )
-{ delete self->array; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->array;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( self );
+}
 
 /**
  * @brief The Python __repr__ method for PyArray.
diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index d4dcd7c..f637005 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -68,7 +68,11 @@ struct PyArrayOfArrays
 };
 
 static void PyArrayOfArrays_dealloc( PyArrayOfArrays * const self )
-{ delete self->arrayOfArrays; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->arrayOfArrays;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( self );
+}
 
 static PyObject * PyArrayOfArrays_repr( PyObject * const obj )
 {
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index 33192fd..9588caa 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -68,7 +68,11 @@ struct PyArrayOfSets
 };
 
 static void PyArrayOfSets_dealloc( PyArrayOfSets * const self )
-{ delete self->arrayOfSets; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->arrayOfSets;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( self );
+}
 
 static PyObject * PyArrayOfSets_repr( PyObject * const obj )
 {
diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 9b81a4b..675c22e 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -64,7 +64,11 @@ struct PyCRSMatrix
 };
 
 static void PyCRSMatrix_dealloc( PyCRSMatrix * const self )
-{ delete self->matrix; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->matrix;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( self );
+}
 
 static PyObject * PyCRSMatrix_repr( PyObject * const obj )
 {
diff --git a/src/python/PySortedArray.cpp b/src/python/PySortedArray.cpp
index 669ba1e..81832f9 100644
--- a/src/python/PySortedArray.cpp
+++ b/src/python/PySortedArray.cpp
@@ -64,7 +64,11 @@ struct PySortedArray
 
 
 static void PySortedArray_dealloc( PySortedArray * const self )
-{ delete self->sortedArray; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->sortedArray;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( self );
+}
 
 
 static PyObject * PySortedArray_repr( PyObject * const obj )
-- 
2.43.0


From 50a82b83a64c78f39b6ad9a18b26b2fbb35a5e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 31/45] fix: resizing an array to negative dimensions from
 Python raises an exception

---
 src/python/PyArray.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/PyArray.cpp b/src/python/PyArray.cpp
index a80aa91..7fc02ae 100644
--- a/src/python/PyArray.cpp
+++ b/src/python/PyArray.cpp
@@ -182,7 +182,13 @@ static PyObject * PyArray_resizeAll( PyArray * const self, PyObject * const args
   PYTHON_ERROR_IF( std::get< 2 >( ret ) != self->array->ndim(), PyExc_RuntimeError,
                    "Invalid number of dimensions, should be " << self->array->ndim(), nullptr );
 
-  self->array->resize( reinterpret_cast< long long const * >( std::get< 1 >( ret ) ) );
+  long long const * const newDims = reinterpret_cast< long long const * >( std::get< 1 >( ret ) );
+  for( int i = 0; i < self->array->ndim(); ++i )
+  {
+    PYTHON_ERROR_IF( newDims[ i ] < 0, PyExc_ValueError, "Sizes must be positive.", nullptr );
+  }
+
+  self->array->resize( newDims );
 
   Py_RETURN_NONE;
 }
-- 
2.43.0


From 261cc28fd15970d1d2ae7cf7e2fa3a5c540525bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 32/45] fix: sets accept values in any order from Python

---
 src/python/PyArrayOfSets.hpp | 14 ++++++++------
 src/python/PySortedArray.hpp | 10 ++++++----
 src/python/numpyHelpers.hpp  | 18 ++++++++++++++++++
 3 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/python/PyArrayOfSets.hpp b/src/python/PyArrayOfSets.hpp
index 93f77cb..c9d61bf 100644
--- a/src/python/PyArrayOfSets.hpp
+++ b/src/python/PyArrayOfSets.hpp
@@ -225,9 +225,10 @@ public:
                                    long long const numVals ) final override
   {
     INDEX_TYPE convertedIndex = integerConversion< INDEX_TYPE >( setIndex );
-    T const * begin = static_cast< T const * >( values );
-    T const * end = begin + numVals;
-    return integerConversion< long long >( m_arrayOfSets.removeFromSet( convertedIndex, begin, end ) );
+    std::unique_ptr< T[] > const sortedValues = internal::copyValues< T >( values, numVals );
+    T * const begin = sortedValues.get();
+    std::ptrdiff_t const numUnique = sortedArrayManipulation::makeSortedUnique( begin, begin + numVals );
+    return integerConversion< long long >( m_arrayOfSets.removeFromSet( convertedIndex, begin, begin + numUnique ) );
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
@@ -236,9 +237,10 @@ public:
                                    long long const numVals ) final override
   {
     INDEX_TYPE convertedSetIndex = integerConversion< INDEX_TYPE >( setIndex );
-    T const * begin = static_cast< T const * >( values );
-    T const * end = begin + numVals;
-    return integerConversion< long long >( m_arrayOfSets.insertIntoSet( convertedSetIndex, begin, end ) );
+    std::unique_ptr< T[] > const sortedValues = internal::copyValues< T >( values, numVals );
+    T * const begin = sortedValues.get();
+    std::ptrdiff_t const numUnique = sortedArrayManipulation::makeSortedUnique( begin, begin + numVals );
+    return integerConversion< long long >( m_arrayOfSets.insertIntoSet( convertedSetIndex, begin, begin + numUnique ) );
   }
 
 private:
diff --git a/src/python/PySortedArray.hpp b/src/python/PySortedArray.hpp
index 8b0c9a5..df9941f 100644
--- a/src/python/PySortedArray.hpp
+++ b/src/python/PySortedArray.hpp
@@ -168,15 +168,17 @@ public:
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
   virtual long long insert( void const * const values, long long const nVals ) final override
   {
-    T const * const castedValues = reinterpret_cast< T const * >( values );
-    return integerConversion< long long >( m_sortedArray.insert( castedValues, castedValues + nVals ) );
+    std::unique_ptr< T[] > const sortedValues = internal::copyValues< T >( values, nVals );
+    std::ptrdiff_t const numUnique = sortedArrayManipulation::makeSortedUnique( sortedValues.get(), sortedValues.get() + nVals );
+    return integerConversion< long long >( m_sortedArray.insert( sortedValues.get(), sortedValues.get() + numUnique ) );
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
   virtual long long remove( void const * const values, long long const nVals ) final override
   {
-    T const * const castedValues = reinterpret_cast< T const * >( values );
-    return integerConversion< long long >( m_sortedArray.remove( castedValues, castedValues + nVals ) );
+    std::unique_ptr< T[] > const sortedValues = internal::copyValues< T >( values, nVals );
+    std::ptrdiff_t const numUnique = sortedArrayManipulation::makeSortedUnique( sortedValues.get(), sortedValues.get() + nVals );
+    return integerConversion< long long >( m_sortedArray.remove( sortedValues.get(), sortedValues.get() + numUnique ) );
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
diff --git a/src/python/numpyHelpers.hpp b/src/python/numpyHelpers.hpp
index 7c7bcb3..b9f3e91 100644
--- a/src/python/numpyHelpers.hpp
+++ b/src/python/numpyHelpers.hpp
@@ -29,6 +29,8 @@
 #include "../limits.hpp"
 
 // system includes
+#include <algorithm>
+#include <memory>
 #include <vector>
 #include <typeindex>
 #include <type_traits>
@@ -83,6 +85,22 @@ PyObject * createCupyArrayImpl( void * const data,
                                 long long const * const dims,
                                 long long const * const strides );
 
+/**
+ * @brief Return a copy of the values passed in from Python.
+ * @tparam T The type of the values.
+ * @param values The values to copy.
+ * @param nVals The number of values to copy.
+ * @return A copy of @p values.
+ */
+template< typename T >
+std::unique_ptr< T[] > copyValues( void const * const values, long long const nVals )
+{
+  T const * const castedValues = static_cast< T const * >( values );
+  std::unique_ptr< T[] > ret = std::make_unique< T[] >( integerConversion< std::size_t >( nVals ) );
+  std::copy( castedValues, castedValues + nVals, ret.get() );
+  return ret;
+}
+
 } // namespace internal
 
 /**
-- 
2.43.0


From 89170e04b2c5d48ad39ac4e7f4b348ab1ffa3d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 33/45] fix: erasing invalid values from an array of sets in
 Python raises the conversion error

---
 src/python/PyArrayOfSets.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index 9588caa..870119a 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -240,6 +240,11 @@ static PyObject * PyArrayOfSets_removeFromSet( PyArrayOfSets * self, PyObject *
   std::tuple< PyObjectRef< PyObject >, void const *, long long > ret =
     parseNumPyArray( arr, self->arrayOfSets->valueType() );
 
+  if( std::get< 0 >( ret ) == nullptr )
+  {
+    return nullptr;
+  }
+
   return PyLong_FromLongLong( self->arrayOfSets->removeFromSet( index,
                                                                 std::get< 1 >( ret ),
                                                                 std::get< 2 >( ret ) ) );
-- 
2.43.0


From 6994c3f6830b46356dd9bf7d2c78d794082eb223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 34/45] fix: inserting and removing invalid matrix columns from
 Python raises an exception

---
 src/python/PyCRSMatrix.cpp |  6 ++++++
 src/python/PyCRSMatrix.hpp | 37 +++++++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 675c22e..17042da 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -266,6 +266,9 @@ static PyObject * PyCRSMatrix_insertNonZeros( PyCRSMatrix * const self, PyObject
   PYTHON_ERROR_IF( row < 0 || row >= numRows, PyExc_RuntimeError,
                    "Row " << row << " is out of bounds for a matrix with " << numRows << " rows.", nullptr );
 
+  PYTHON_ERROR_IF( !self->matrix->areColumnsValid( std::get< 1 >( colsInfo ), std::get< 2 >( colsInfo ) ), PyExc_ValueError,
+                   "The columns must be sorted, unique and within the bounds of the matrix.", nullptr );
+
   return PyLong_FromLongLong( self->matrix->insertNonZeros( row,
                                                             std::get< 1 >( colsInfo ),
                                                             std::get< 1 >( entriesInfo ),
@@ -303,6 +306,9 @@ static PyObject * PyCRSMatrix_removeNonZeros( PyCRSMatrix * const self, PyObject
   PYTHON_ERROR_IF( row < 0 || row >= numRows, PyExc_RuntimeError,
                    "Row " << row << " is out of bounds for a matrix with " << numRows << " rows.", nullptr );
 
+  PYTHON_ERROR_IF( !self->matrix->areColumnsValid( std::get< 1 >( colsInfo ), std::get< 2 >( colsInfo ) ), PyExc_ValueError,
+                   "The columns must be sorted, unique and within the bounds of the matrix.", nullptr );
+
   return PyLong_FromLongLong( self->matrix->removeNonZeros( row,
                                                             std::get< 1 >( colsInfo ),
                                                             std::get< 2 >( colsInfo ) ) );
diff --git a/src/python/PyCRSMatrix.hpp b/src/python/PyCRSMatrix.hpp
index b7659e3..27fd76c 100644
--- a/src/python/PyCRSMatrix.hpp
+++ b/src/python/PyCRSMatrix.hpp
@@ -132,6 +132,23 @@ public:
    */
   virtual std::array< PyObject *, 3 > getEntriesColumnsAndOffsets() const = 0;
 
+  /**
+   * @brief Return true iff @p cols can be inserted into or removed from a row.
+   * @param cols The columns, must be of length @p numCols.
+   * @param numCols The number of columns.
+   * @return True iff @p cols is sorted, unique and within the bounds of the matrix.
+   */
+  virtual bool areColumnsValid( void const * const cols, long long const numCols ) const = 0;
+
+  /**
+   * @brief Return true iff the row contains every column.
+   * @param row The row to query.
+   * @param cols The columns in any order, must be of length @p numCols.
+   * @param numCols The number of columns.
+   * @return True iff row @p row contains every column in @p cols.
+   */
+  virtual bool containsColumns( long long const row, void const * const cols, long long const numCols ) const = 0;
+
   /**
    * @brief Resize the matrix.
    * @param numRows The new number of rows in the matrix.
@@ -320,6 +337,26 @@ public:
     m_accessLevel = accessLevel;
   }
 
+  /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
+  virtual bool areColumnsValid( void const * const cols, long long const numCols ) const final override
+  {
+    COL_TYPE const * const castedCols = reinterpret_cast< COL_TYPE const * >( cols );
+    return numCols == 0 || ( sortedArrayManipulation::isSortedUnique( castedCols, castedCols + numCols ) &&
+                             castedCols[ 0 ] >= 0 &&
+                             integerConversion< long long >( castedCols[ numCols - 1 ] ) < numColumns() );
+  }
+
+  /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
+  virtual bool containsColumns( long long const row, void const * const cols, long long const numCols ) const final override
+  {
+    INDEX_TYPE const convertedRow = integerConversion< INDEX_TYPE >( row );
+    COL_TYPE const * const castedCols = reinterpret_cast< COL_TYPE const * >( cols );
+    COL_TYPE const * const columns = m_matrix.getColumns( convertedRow );
+    INDEX_TYPE const nnz = m_matrix.numNonZeros( convertedRow );
+    return std::all_of( castedCols, castedCols + numCols, [columns, nnz] ( COL_TYPE const col )
+    { return sortedArrayManipulation::contains( columns, nnz, col ); } );
+  }
+
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
   virtual void resize( long long const numRows,
                        long long const numCols,
-- 
2.43.0


From 9e3987f6fcfbe90be21993346ef3992fc83ac959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 35/45] fix: adding to missing matrix columns or a different
 number of values from Python raises an exception

---
 src/python/PyCRSMatrix.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 17042da..084f26a 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -348,6 +348,12 @@ static PyObject * PyCRSMatrix_addToRow( PyCRSMatrix * const self, PyObject * con
   PYTHON_ERROR_IF( row < 0 || row >= numRows, PyExc_RuntimeError,
                    "Row " << row << " is out of bounds for a matrix with " << numRows << " rows.", nullptr );
 
+  PYTHON_ERROR_IF( std::get< 2 >( colsInfo ) != std::get< 2 >( valsInfo ), PyExc_RuntimeError,
+                   "Number of columns and values must match!", nullptr );
+
+  PYTHON_ERROR_IF( !self->matrix->containsColumns( row, std::get< 1 >( colsInfo ), std::get< 2 >( colsInfo ) ), PyExc_ValueError,
+                   "The row does not contain all of the columns.", nullptr );
+
   self->matrix->addToRow( row,
                           std::get< 1 >( colsInfo ),
                           std::get< 1 >( valsInfo ),
-- 
2.43.0


From 0dec3f4f18a47e69cf6d41d6cbad19b0cc79e85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 36/45] fix: exporting a matrix to SciPy releases the arrays
 and handles a missing SciPy

---
 src/python/PyCRSMatrix.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 084f26a..ab82bcb 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -171,6 +171,11 @@ static PyObject * PyCRSMatrix_toSciPy( PyCRSMatrix * const self, PyObject * cons
 
   std::array< PyObject *, 3 > const triple = self->matrix->getEntriesColumnsAndOffsets();
 
+  // The arguments of PyObject_CallFunction aren't stolen.
+  PyObjectRef<> const entriesRef{ triple[ 0 ] };
+  PyObjectRef<> const columnsRef{ triple[ 1 ] };
+  PyObjectRef<> const offsetsRef{ triple[ 2 ] };
+
   PYTHON_ERROR_IF( triple[ 0 ] == nullptr, PyExc_RuntimeError,
                    "Error constructing the entries NumPy array", nullptr );
 
@@ -181,7 +186,16 @@ static PyObject * PyCRSMatrix_toSciPy( PyCRSMatrix * const self, PyObject * cons
                    "Error constructing the offsets NumPy array", nullptr );
 
   PyObjectRef<> sciPySparse = PyImport_ImportModule( "scipy.sparse" );
+  if( sciPySparse == nullptr )
+  {
+    return nullptr;
+  }
+
   PyObjectRef<> constructor = PyObject_GetAttrString( sciPySparse, "csr_matrix" );
+  if( constructor == nullptr )
+  {
+    return nullptr;
+  }
 
   return PyObject_CallFunction( constructor,
                                 "(OOO)(ll)",
-- 
2.43.0


From 31e5ada22402b189110842c1c944739bb6b7a39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 37/45] fix: adding the pylvarray module to a module does not
 release it twice

---
 src/python/python.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/python/python.cpp b/src/python/python.cpp
index 341bab1..39e0f0a 100644
--- a/src/python/python.cpp
+++ b/src/python/python.cpp
@@ -146,11 +146,19 @@ PyObjectRef<> getModule()
 bool addPyLvArrayModule( PyObject * module )
 {
   LvArray::python::PyObjectRef<> pylvarrayModule { PyImport_ImportModule( "pylvarray" ) };
+  if( pylvarrayModule == nullptr )
+  {
+    return false;
+  }
+
   if( PyModule_AddObject( module, "pylvarray", pylvarrayModule ) < 0 )
   {
     return false;
   }
 
+  // On success PyModule_AddObject steals the reference.
+  pylvarrayModule.release();
+
   return true;
 }
 
-- 
2.43.0


From 6ebe3d15771f07e3ef9618b4bf5568694eb5e098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 38/45] fix: strings with null characters or invalid UTF-8 are
 passed to Python correctly

---
 src/python/pythonHelpers.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/python/pythonHelpers.cpp b/src/python/pythonHelpers.cpp
index 53f737d..c0eff66 100644
--- a/src/python/pythonHelpers.cpp
+++ b/src/python/pythonHelpers.cpp
@@ -79,18 +79,28 @@ bool addTypeToModule( PyObject * const module,
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 PyObject * create( std::string const & value )
-{ return PyUnicode_FromString( value.c_str() ); }
+{ return PyUnicode_FromStringAndSize( value.data(), integerConversion< Py_ssize_t >( value.size() ) ); }
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 PyObject * createPyListOfStrings( std::string const * const strptr, long long const size )
 {
-  PyObject * pylist = PyList_New( size );
+  PyObjectRef<> pylist{ PyList_New( size ) };
+  if( pylist == nullptr )
+  {
+    return nullptr;
+  }
+
   for( long long i = 0; i < size; ++i )
   {
-    PyObject * pystr = PyUnicode_FromString( strptr[ i ].c_str() );
-    PyList_SET_ITEM( pylist, integerConversion< Py_ssize_t >( i ), pystr );
+    PyObject * const pystr = create( strptr[ i ] );
+    if( pystr == nullptr )
+    {
+      return nullptr;
+    }
+
+    PyList_SET_ITEM( pylist.get(), integerConversion< Py_ssize_t >( i ), pystr );
   }
-  return pylist;
+  return pylist.release();
 }
 
 } // namespace python
-- 
2.43.0


From 725eaffe908f3ae3d036f1fce1ce7f8d2213a33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 39/45] fix: uninitialized Python arrays of arrays and of sets
 raise an exception when they are changed

---
 src/python/PyArrayOfArrays.cpp | 7 +++++++
 src/python/PyArrayOfSets.cpp   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index f637005..7aa1b57 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -111,6 +111,7 @@ static PyObject * PyArrayOfArrays_getitem( PyArrayOfArrays * const self, Py_ssiz
 
 static int PyArrayOfArrays_delitem( PyArrayOfArrays * const self, Py_ssize_t pyindex, PyObject * val )
 {
+  PYTHON_ERROR_IF( self->arrayOfArrays == nullptr, PyExc_RuntimeError, "The PyArrayOfArrays is not initialized.", -1 );
   if( self->arrayOfArrays->getAccessLevel() < static_cast< int >( LvArray::python::PyModify::RESIZEABLE ) )
   {
     PyErr_SetString( PyExc_RuntimeError, "ArrayOfArrays is not resizeable" );
@@ -157,6 +158,8 @@ static constexpr char const * PyArrayOfArrays_insertIntoDocString =
   "as the underlying instance, raising an exception if the conversion cannot be made safely.";
 static PyObject * PyArrayOfArrays_insertIntoArray( PyArrayOfArrays * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long array, index;
   PyObject * arr;
@@ -188,6 +191,8 @@ static constexpr char const * PyArrayOfArrays_insertDocString =
   "as the underlying instance, raising an exception if the conversion cannot be made safely.";
 static PyObject * PyArrayOfArrays_insert( PyArrayOfArrays * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index;
   PyObject * arr;
@@ -216,6 +221,8 @@ static constexpr char const * PyArrayOfArrays_eraseFromDocString =
   "Remove the value at ``index`` in the subarray ``array``.";
 static PyObject * PyArrayOfArrays_eraseFrom( PyArrayOfArrays * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index, begin;
   if( !PyArg_ParseTuple( args, "LL", &index, &begin ) )
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index 870119a..e04f28d 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -111,6 +111,7 @@ static PyObject * PyArrayOfSets_getitem( PyArrayOfSets * const self, Py_ssize_t
 
 static int PyArrayOfSets_delitem( PyArrayOfSets * const self, Py_ssize_t pyindex, PyObject * val )
 {
+  PYTHON_ERROR_IF( self->arrayOfSets == nullptr, PyExc_RuntimeError, "The PyArrayOfSets is not initialized.", -1 );
   if( self->arrayOfSets->getAccessLevel() < static_cast< int >( LvArray::python::PyModify::RESIZEABLE ) )
   {
     PyErr_SetString( PyExc_RuntimeError, "ArrayOfSets is not resizeable" );
@@ -159,6 +160,8 @@ static constexpr char const * PyArrayOfSets_insertIntoDocString =
   "    The number of values inserted into the set.";
 static PyObject * PyArrayOfSets_insertIntoSet( PyArrayOfSets * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long setIndex;
   PyObject * arr;
@@ -192,6 +195,8 @@ static constexpr char const * PyArrayOfSets_insertSetDocString =
   "Insert a new set with a starting capacity";
 static PyObject * PyArrayOfSets_insertSet( PyArrayOfSets * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index;
   long long capacity = 0;
@@ -223,6 +228,8 @@ static constexpr char const * PyArrayOfSets_removeFromSetDocString =
   "    The number of values removed from the set.";
 static PyObject * PyArrayOfSets_removeFromSet( PyArrayOfSets * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index;
   PyObject * arr;
-- 
2.43.0


From 662960b07f25b1b9f528d11c48ece45b8dbd8bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 40/45] fix: the Python object is released when its type is not
 supported by NumPy

---
 src/python/PyArray.cpp         | 1 +
 src/python/PyArrayOfArrays.cpp | 1 +
 src/python/PyArrayOfSets.cpp   | 1 +
 src/python/PyCRSMatrix.cpp     | 1 +
 src/python/PySortedArray.cpp   | 1 +
 5 files changed, 5 insertions(+)

diff --git a/src/python/PyArray.cpp b/src/python/PyArray.cpp
index 7fc02ae..96bc32e 100644
--- a/src/python/PyArray.cpp
+++ b/src/python/PyArray.cpp
@@ -304,6 +304,7 @@ PyObject * create( std::unique_ptr< PyArrayWrapperBase > && array )
   PyObject * typeObject = getNumPyTypeObject( array->valueType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index 7aa1b57..56796a4 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -333,6 +333,7 @@ PyObject * create( std::unique_ptr< PyArrayOfArraysWrapperBase > && arrayOfArray
   PyObject * typeObject = getNumPyTypeObject( arrayOfArrays->valueType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index e04f28d..d5a5fd3 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -353,6 +353,7 @@ PyObject * create( std::unique_ptr< PyArrayOfSetsWrapperBase > && arrayOfSets )
   PyObject * typeObject = getNumPyTypeObject( arrayOfSets->valueType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index ab82bcb..3c5dd5b 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -475,6 +475,7 @@ PyObject * create( std::unique_ptr< PyCRSMatrixWrapperBase > && matrix )
   PyObject * typeObject = getNumPyTypeObject( matrix->entryType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
diff --git a/src/python/PySortedArray.cpp b/src/python/PySortedArray.cpp
index 81832f9..f7d2040 100644
--- a/src/python/PySortedArray.cpp
+++ b/src/python/PySortedArray.cpp
@@ -253,6 +253,7 @@ PyObject * create( std::unique_ptr< PySortedArrayWrapperBase > && sortedArray )
   PyObject * typeObject = getNumPyTypeObject( sortedArray->valueType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
-- 
2.43.0


From b258ed28c6c0c67d960e877e7ce58c46a449dc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 41/45] fix: assigning to a PyObjectRef releases the object it
 held

---
 src/python/pythonHelpers.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/python/pythonHelpers.hpp b/src/python/pythonHelpers.hpp
index 3a5c976..e653c8a 100644
--- a/src/python/pythonHelpers.hpp
+++ b/src/python/pythonHelpers.hpp
@@ -189,8 +189,9 @@ public:
    */
   PyObjectRef & operator=( PyObjectRef const & src )
   {
-    m_object = src.m_object;
     internal::xincref( reinterpret_cast< PyObject * >( src.m_object ) );
+    internal::xdecref( reinterpret_cast< PyObject * >( m_object ) );
+    m_object = src.m_object;
     return *this;
   }
 
@@ -202,8 +203,12 @@ public:
    */
   PyObjectRef & operator=( PyObjectRef && src )
   {
-    m_object = src.m_object;
-    src.m_object = nullptr;
+    if( this != &src )
+    {
+      internal::xdecref( reinterpret_cast< PyObject * >( m_object ) );
+      m_object = src.m_object;
+      src.m_object = nullptr;
+    }
     return *this;
   }
 
-- 
2.43.0


From 5bd3667fcc459f635a4595528e5a5dfaba960325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:21 +0000
Subject: [PATCH 42/45] fix: a view of another type is made of a buffer whose
 spare capacity is not a multiple of it

---
 src/ChaiBuffer.hpp   | 7 +++++--
 src/MallocBuffer.hpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ChaiBuffer.hpp b/src/ChaiBuffer.hpp
index 80d0826..f3689ad 100644
--- a/src/ChaiBuffer.hpp
+++ b/src/ChaiBuffer.hpp
@@ -229,14 +229,17 @@ public:
    * @brief Create a shallow copy of @p src but with a different type.
    * @tparam U The type to convert from.
    * @param src The buffer to copy.
+   * @note The capacity of @p src need not be a multiple of @c T, only the values that fit are counted.
    */
   template< typename U >
   LVARRAY_HOST_DEVICE inline constexpr
   ChaiBuffer( ChaiBuffer< U > const & src ):
     m_pointer( reinterpret_cast< T * >( src.data() ) ),
-    m_capacity( typeManipulation::convertSize< T, U >( src.capacity() ) ),
+    m_capacity( static_cast< std::ptrdiff_t >( src.capacity() * sizeof( U ) / sizeof( T ) ) ),
     m_pointerRecord( &src.pointerRecord() )
-  {}
+  {
+    static_assert( sizeof( T ) % sizeof( U ) == 0 || sizeof( U ) % sizeof( T ) == 0, "T and U need to have compatable sizes." );
+  }
 
   /**
    * @brief Copy assignment operator.
diff --git a/src/MallocBuffer.hpp b/src/MallocBuffer.hpp
index f40051a..8083018 100644
--- a/src/MallocBuffer.hpp
+++ b/src/MallocBuffer.hpp
@@ -83,13 +83,16 @@ public:
    * @brief Create a shallow copy of @p src but with a different type.
    * @tparam U The type to convert from.
    * @param src The buffer to copy.
+   * @note The capacity of @p src need not be a multiple of @c T, only the values that fit are counted.
    */
   template< typename U >
   LVARRAY_HOST_DEVICE inline constexpr
   MallocBuffer( MallocBuffer< U > const & src ):
     m_data( reinterpret_cast< T * >( src.data() ) ),
-    m_capacity( typeManipulation::convertSize< T, U >( src.capacity() ) )
-  {}
+    m_capacity( static_cast< std::ptrdiff_t >( src.capacity() * sizeof( U ) / sizeof( T ) ) )
+  {
+    static_assert( sizeof( T ) % sizeof( U ) == 0 || sizeof( U ) % sizeof( T ) == 0, "T and U need to have compatable sizes." );
+  }
 
   /**
    * @brief Copy assignment operator, creates a shallow copy.
-- 
2.43.0


From b68a330f9e432cf7795199585ebec73349f130bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:54 +0000
Subject: [PATCH 43/45] fix: compute the byte count of CRSMatrixView::zero in
 std::size_t

INDEX_TYPE only has to hold the number of entries; the number of bytes
can exceed it (an int index with more than 2 GB of entries), in which
case the count turned negative and memset was given a huge size.
---
 src/CRSMatrixView.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CRSMatrixView.hpp b/src/CRSMatrixView.hpp
index c65570c..b58b5be 100644
--- a/src/CRSMatrixView.hpp
+++ b/src/CRSMatrixView.hpp
@@ -395,7 +395,7 @@ public:
       ParentClass::move( m_entries.getPreviousSpace(), false );
       m_entries.move( m_entries.getPreviousSpace(), true );
 
-      INDEX_TYPE const numBytes = m_entries.capacity() * sizeof( T );
+      std::size_t const numBytes = m_entries.capacity() * sizeof( T );
       umpireInterface::memset( m_entries.data(), 0, numBytes );
     }
   }
-- 
2.43.0


From c6228730606d66ce119a5a67236c85e56a140d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:25 +0000
Subject: [PATCH 44/45] fix: the GDB printers show all extents of a slice

The size of a pointer was taken for the number of dimensions, so the summary
of a slice listed too few or too many extents.
---
 scripts/gdb-printers.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/scripts/gdb-printers.py b/scripts/gdb-printers.py
index b065d9e..6a2e17b 100644
--- a/scripts/gdb-printers.py
+++ b/scripts/gdb-printers.py
@@ -2,12 +2,8 @@ import gdb
 import itertools
 
 
-def array_length(arr):
-    return int(arr.type.sizeof / arr.type.target().sizeof)
-
-
-def format_array(arr):
-    return '[' + ']['.join([str(arr[i]) for i in range(array_length(arr))]) + ']'
+def format_array(arr, length):
+    return '[' + ']['.join([str(arr[i]) for i in range(length)]) + ']'
 
 
 class LvArrayPrinter(gdb.printing.PrettyPrinter):
@@ -122,7 +118,7 @@ class ArraySlicePrinter(LvArrayPrinter):
         return self.val['m_data']
 
     def to_string(self):
-        return '%s of size %s' % (self.real_type(), format_array(self.dims()))
+        return '%s of size %s' % (self.real_type(), format_array(self.dims(), self.ndim()))
 
     def children(self):
         array_type = self.value_type()
@@ -150,7 +146,7 @@ class ArrayViewPrinter(LvArrayPrinter):
         return buffer_printer(self.val['m_dataBuffer']).data()
 
     def to_string(self):
-        return '%s of size %s' % (self.real_type(), format_array(self.dims()))
+        return '%s of size %s' % (self.real_type(), format_array(self.dims(), self.ndim()))
 
     def children(self):
         array_type = self.value_type()
-- 
2.43.0


From ac3a1e6e5af3638317ac8651bd9e24aa2474b3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:21 +0000
Subject: [PATCH 45/45] fix: stack traces show source locations in position
 independent executables and shared libraries

---
 src/system.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/system.cpp b/src/system.cpp
index a65d92d..a99cb1b 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -28,6 +28,9 @@
 #if defined( LVARRAY_ADDR2LINE_EXEC )
   #include <unistd.h>
   #include <sys/wait.h>
+  #if defined( __linux__ )
+    #include <link.h>
+  #endif
 #endif
 
 /**
@@ -238,6 +241,14 @@ static std::string addr2line( const char * flag, const void * addr )
   if( dladdr( addr, &dli ) )
   {
     res = dli.dli_fname;
+
+  #if defined( __linux__ )
+    // addr2line expects addresses relative to the load address of shared objects and position independent executables.
+    if( static_cast< ElfW( Ehdr ) const * >( dli.dli_fbase )->e_type == ET_DYN )
+    {
+      addr = reinterpret_cast< void const * >( static_cast< char const * >( addr ) - static_cast< char const * >( dli.dli_fbase ) );
+    }
+  #endif
   }
   else
   {
-- 
2.43.0

