From 3f64ce9da29ad301532d4aaceb2c7e23cea7f28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:36 +0000
Subject: [PATCH 01/45] fix: count an internal allocation only once it has
 succeeded

allocate_internal and allocate_named_internal updated size, count and high
watermark before calling allocate, so every request the strategy refused (by
throwing) stayed in its statistics for good.
---
 src/umpire/strategy/AllocationStrategy.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/AllocationStrategy.cpp b/src/umpire/strategy/AllocationStrategy.cpp
index e11504a..640f63a 100644
--- a/src/umpire/strategy/AllocationStrategy.cpp
+++ b/src/umpire/strategy/AllocationStrategy.cpp
@@ -19,6 +19,8 @@ AllocationStrategy::AllocationStrategy(const std::string& name, int id, Allocati
 
 void* AllocationStrategy::allocate_internal(std::size_t bytes)
 {
+  void* ptr{allocate(bytes)};
+
   m_current_size += bytes;
   m_allocation_count++;
 
@@ -26,7 +28,7 @@ void* AllocationStrategy::allocate_internal(std::size_t bytes)
     m_high_watermark = m_current_size;
   }
 
-  return allocate(bytes);
+  return ptr;
 }
 
 void* AllocationStrategy::allocate_named(const std::string& UMPIRE_UNUSED_ARG(name), std::size_t bytes)
@@ -36,6 +38,8 @@ void* AllocationStrategy::allocate_named(const std::string& UMPIRE_UNUSED_ARG(na
 
 void* AllocationStrategy::allocate_named_internal(const std::string& name, std::size_t bytes)
 {
+  void* ptr{allocate_named(name, bytes)};
+
   m_current_size += bytes;
   m_allocation_count++;
 
@@ -43,7 +47,7 @@ void* AllocationStrategy::allocate_named_internal(const std::string& name, std::
     m_high_watermark = m_current_size;
   }
 
-  return allocate_named(name, bytes);
+  return ptr;
 }
 
 void AllocationStrategy::deallocate_internal(void* ptr, std::size_t size)
-- 
2.43.0


From 1128db5d5cd566e9e85149be85e0f3f8849a7b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:36 +0000
Subject: [PATCH 02/45] fix: QuickPool coalesces only when there is more than
 one releasable block

do_coalesce went ahead whenever the pool had more than one free chunk.  With a
single wholly free block and a partially used one, it released that block,
allocated and deallocated an equal one, and the deallocation asked the
heuristic again: unbounded recursion.
---
 src/umpire/strategy/QuickPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/strategy/QuickPool.cpp b/src/umpire/strategy/QuickPool.cpp
index 7df4da9..80554c5 100644
--- a/src/umpire/strategy/QuickPool.cpp
+++ b/src/umpire/strategy/QuickPool.cpp
@@ -330,7 +330,7 @@ void QuickPool::coalesce() noexcept
 
 void QuickPool::do_coalesce(std::size_t suggested_size) noexcept
 {
-  if (m_size_map.size() > 1) {
+  if (m_releasable_blocks > 1) {
     UMPIRE_LOG(Debug, "()");
     release();
     std::size_t size_post{getActualSize()};
-- 
2.43.0


From d257fae3dce2bf115b7280c13ef18bd5c794bd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:36 +0000
Subject: [PATCH 03/45] fix: a pool that cannot obtain its coalesced block
 keeps going

Coalescing gives up the free blocks and then asks for one block of their total
size.  When the parent refuses, the exception left a noexcept function
(std::terminate) or a deallocate() that had in fact succeeded.
---
 src/umpire/strategy/DynamicSizePool.hpp | 8 +++++++-
 src/umpire/strategy/QuickPool.cpp       | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/DynamicSizePool.hpp b/src/umpire/strategy/DynamicSizePool.hpp
index c99a5d2..629dd76 100644
--- a/src/umpire/strategy/DynamicSizePool.hpp
+++ b/src/umpire/strategy/DynamicSizePool.hpp
@@ -273,7 +273,13 @@ class DynamicSizePool : private umpire::strategy::mixins::AlignedAllocation {
     UMPIRE_LOG(Debug, "Allocator " << this << " coalescing to " << size << " bytes from " << getFreeBlocks()
                                    << " free blocks\n");
     freeReleasedBlocks();
-    void *ptr = allocate(size);
+    void *ptr{nullptr};
+    try {
+      ptr = allocate(size);
+    } catch (...) {
+      UMPIRE_LOG(Error, "Could not allocate " << size << " bytes while coalescing");
+      return;
+    }
     deallocate(ptr);
   }
 
diff --git a/src/umpire/strategy/QuickPool.cpp b/src/umpire/strategy/QuickPool.cpp
index 80554c5..21f7231 100644
--- a/src/umpire/strategy/QuickPool.cpp
+++ b/src/umpire/strategy/QuickPool.cpp
@@ -339,7 +339,13 @@ void QuickPool::do_coalesce(std::size_t suggested_size) noexcept
       std::size_t alloc_size{suggested_size - size_post};
 
       UMPIRE_LOG(Debug, "coalescing " << alloc_size << " bytes.");
-      auto ptr = allocate(alloc_size);
+      void* ptr{nullptr};
+      try {
+        ptr = allocate(alloc_size);
+      } catch (...) {
+        UMPIRE_LOG(Error, "Could not allocate " << alloc_size << " bytes while coalescing");
+        return;
+      }
       deallocate(ptr, alloc_size);
     }
   }
-- 
2.43.0


From eb4fb2568ac561da6232ee9db6c80ee7c3fa1df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:09 +0000
Subject: [PATCH 04/45] fix: refuse requests whose aligned size does not fit
 size_t

Rounding up and padding wrapped around, so that requests within two alignments
of SIZE_MAX were served with a few bytes by QuickPool, DynamicPoolList,
MixedPool and AlignedAllocator.
---
 src/umpire/strategy/AlignedAllocator.cpp         | 7 +++++++
 src/umpire/strategy/mixins/AlignedAllocation.inl | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/umpire/strategy/AlignedAllocator.cpp b/src/umpire/strategy/AlignedAllocator.cpp
index cfaaf2c..9713158 100644
--- a/src/umpire/strategy/AlignedAllocator.cpp
+++ b/src/umpire/strategy/AlignedAllocator.cpp
@@ -6,7 +6,10 @@
 //////////////////////////////////////////////////////////////////////////////
 #include "umpire/strategy/AlignedAllocator.hpp"
 
+#include <limits>
+
 #include "umpire/util/Macros.hpp"
+#include "umpire/util/error.hpp"
 
 namespace umpire {
 namespace strategy {
@@ -30,6 +33,10 @@ AlignedAllocator::AlignedAllocator(const std::string& name, int id, Allocator al
 
 void* AlignedAllocator::allocate(std::size_t bytes)
 {
+  if (bytes > std::numeric_limits<std::size_t>::max() - sizeof(void*) - m_alignment) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("Cannot allocate {} bytes aligned to {}", bytes, m_alignment));
+  }
+
   std::size_t total_bytes = bytes + sizeof(void*) + m_alignment - 1;
   UMPIRE_LOG(Debug, "requested: " << bytes << " actual: " << bytes + m_alignment - 1);
 
diff --git a/src/umpire/strategy/mixins/AlignedAllocation.inl b/src/umpire/strategy/mixins/AlignedAllocation.inl
index 2e1b71d..db9324f 100644
--- a/src/umpire/strategy/mixins/AlignedAllocation.inl
+++ b/src/umpire/strategy/mixins/AlignedAllocation.inl
@@ -10,6 +10,9 @@
 #include "umpire/util/allocation_statistics.hpp"
 #include "umpire/util/memory_sanitizers.hpp"
 #include "umpire/util/Macros.hpp"
+#include "umpire/util/error.hpp"
+
+#include <limits>
 
 namespace umpire {
 namespace strategy {
@@ -17,6 +20,11 @@ namespace mixins {
 
 inline std::size_t AlignedAllocation::aligned_round_up(std::size_t size)
 {
+  // Leave room for the padding that aligned_allocate adds
+  if (size > std::numeric_limits<std::size_t>::max() - 2 * m_alignment) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("Cannot round {} bytes up to a multiple of {}", size, m_alignment));
+  }
+
   return size + (m_alignment - 1) - (size - 1) % m_alignment;
 }
 
-- 
2.43.0


From 1385362512c9559467f585e0017f4b45f9e36877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:09 +0000
Subject: [PATCH 05/45] fix: a refused monotonic allocation leaves the capacity
 alone

The size was advanced before the capacity check, so one oversized request made
every later request fail, and a request near SIZE_MAX wrapped the size around
and was accepted.
---
 src/umpire/strategy/MonotonicAllocationStrategy.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/umpire/strategy/MonotonicAllocationStrategy.cpp b/src/umpire/strategy/MonotonicAllocationStrategy.cpp
index af3bab6..043d67a 100644
--- a/src/umpire/strategy/MonotonicAllocationStrategy.cpp
+++ b/src/umpire/strategy/MonotonicAllocationStrategy.cpp
@@ -30,14 +30,14 @@ MonotonicAllocationStrategy::~MonotonicAllocationStrategy()
 
 void* MonotonicAllocationStrategy::allocate(std::size_t bytes)
 {
-  void* ret = static_cast<char*>(m_block) + m_size;
-  m_size += bytes;
-
-  if (m_size > m_capacity) {
+  if (bytes > m_capacity - m_size) {
     UMPIRE_ERROR(runtime_error,
-                 fmt::format("MonotonicAllocationStrategy capacity exceeded {} > {}", m_size, m_capacity));
+                 fmt::format("MonotonicAllocationStrategy capacity exceeded {} + {} > {}", m_size, bytes, m_capacity));
   }
 
+  void* ret = static_cast<char*>(m_block) + m_size;
+  m_size += bytes;
+
   UMPIRE_LOG(Debug, "(bytes=" << bytes << ") returning " << ret);
 
   return ret;
-- 
2.43.0


From eb698957c48b1d3349b39e571a874d578e0b02c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:09 +0000
Subject: [PATCH 06/45] fix: SizeLimiter charges only allocations that
 succeeded

A request the parent refused was charged against the limit for good, and a
request near SIZE_MAX wrapped the total around and passed the limit.
---
 src/umpire/strategy/SizeLimiter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/umpire/strategy/SizeLimiter.cpp b/src/umpire/strategy/SizeLimiter.cpp
index 9187b50..eb4630b 100644
--- a/src/umpire/strategy/SizeLimiter.cpp
+++ b/src/umpire/strategy/SizeLimiter.cpp
@@ -22,14 +22,14 @@ SizeLimiter::SizeLimiter(const std::string& name, int id, Allocator allocator, s
 
 void* SizeLimiter::allocate(std::size_t bytes)
 {
-  m_total_size += bytes;
-
-  if (m_total_size > m_size_limit) {
-    m_total_size -= bytes;
+  if (bytes > m_size_limit - m_total_size) {
     UMPIRE_ERROR(out_of_memory_error, "Size limit exceeded.");
   }
 
-  return m_allocator->allocate_internal(bytes);
+  void* ptr = m_allocator->allocate_internal(bytes);
+  m_total_size += bytes;
+
+  return ptr;
 }
 
 void SizeLimiter::deallocate(void* ptr, std::size_t size)
-- 
2.43.0


From 19af30d95783e4d666fde4c34c80fdeea245be96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:09 +0000
Subject: [PATCH 07/45] fix: SlotPool loses no slot to a failed allocation and
 reports exhaustion

A slot was marked used before its memory was obtained and stayed so when the
parent refused.  With every slot taken the pool returned a null pointer, which
was counted as an allocation before being rejected.
---
 src/umpire/strategy/SlotPool.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/umpire/strategy/SlotPool.cpp b/src/umpire/strategy/SlotPool.cpp
index 712236a..e6d96eb 100644
--- a/src/umpire/strategy/SlotPool.cpp
+++ b/src/umpire/strategy/SlotPool.cpp
@@ -60,13 +60,17 @@ void* SlotPool::allocate(std::size_t bytes)
       ptr = m_pointers[i];
       break;
     } else if (m_lengths[i] == 0) {
-      m_lengths[i] = -int_bytes;
       m_pointers[i] = m_allocator->allocate_internal(bytes);
+      m_lengths[i] = -int_bytes;
       ptr = m_pointers[i];
       break;
     }
   }
 
+  if (!ptr) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("No slot of this {}-slot pool can hold {} bytes", m_slots, bytes));
+  }
+
   UMPIRE_LOG(Debug, "(bytes=" << bytes << ") returning " << ptr);
   return ptr;
 }
-- 
2.43.0


From 89e91969ecd9c2c0077bdd9e0a9a85a4d394e74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:09 +0000
Subject: [PATCH 08/45] fix: NamingShim passes the size on when deallocating

The parent was told to deallocate zero bytes, so its current size never
decreased.
---
 src/umpire/strategy/NamingShim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/NamingShim.cpp b/src/umpire/strategy/NamingShim.cpp
index 1a9dfb0..812abfe 100644
--- a/src/umpire/strategy/NamingShim.cpp
+++ b/src/umpire/strategy/NamingShim.cpp
@@ -30,9 +30,9 @@ void* NamingShim::allocate(std::size_t bytes)
   return m_allocator->allocate_named_internal(name, bytes);
 }
 
-void NamingShim::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(size))
+void NamingShim::deallocate(void* ptr, std::size_t size)
 {
-  m_allocator->deallocate_internal(ptr);
+  m_allocator->deallocate_internal(ptr, size);
 }
 
 Platform NamingShim::getPlatform() noexcept
-- 
2.43.0


From 69de8b040759e613b448bc881b8127255f37ed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:09 +0000
Subject: [PATCH 09/45] fix: FixedPool::release subtracts what it gave back
 from the actual size

---
 src/umpire/strategy/FixedPool.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/umpire/strategy/FixedPool.cpp b/src/umpire/strategy/FixedPool.cpp
index 9c080d0..7eb40df 100644
--- a/src/umpire/strategy/FixedPool.cpp
+++ b/src/umpire/strategy/FixedPool.cpp
@@ -180,6 +180,7 @@ void FixedPool::release()
     if (m_obj_per_pool == p.num_avail) {
       p.strategy->deallocate_internal(p.data, m_data_bytes);
       std::free(p.avail);
+      m_actual_bytes -= m_avail_bytes + m_data_bytes;
     }
   }
   m_pool.erase(std::remove_if(m_pool.begin(), m_pool.end(), [&](Pool& p) { return m_obj_per_pool == p.num_avail; }),
-- 
2.43.0


From 61bf044471c0a9c37b5bbf974a186248d1d1208b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:09 +0000
Subject: [PATCH 10/45] fix: FixedPool and MixedPool constructors may throw

They allocate their first pools from the parent; declared noexcept, they ended
the process when the parent had no memory.
---
 src/umpire/strategy/FixedPool.cpp | 2 +-
 src/umpire/strategy/FixedPool.hpp | 2 +-
 src/umpire/strategy/MixedPool.cpp | 2 +-
 src/umpire/strategy/MixedPool.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/umpire/strategy/FixedPool.cpp b/src/umpire/strategy/FixedPool.cpp
index 7eb40df..4249ef3 100644
--- a/src/umpire/strategy/FixedPool.cpp
+++ b/src/umpire/strategy/FixedPool.cpp
@@ -38,7 +38,7 @@ FixedPool::Pool::Pool(AllocationStrategy* allocation_strategy, const std::size_t
 }
 
 FixedPool::FixedPool(const std::string& name, int id, Allocator allocator, const std::size_t object_bytes,
-                     const std::size_t objects_per_pool) noexcept
+                     const std::size_t objects_per_pool)
     : AllocationStrategy{name, id, allocator.getAllocationStrategy(), "FixedPool"},
       m_strategy{allocator.getAllocationStrategy()},
       m_obj_bytes{object_bytes},
diff --git a/src/umpire/strategy/FixedPool.hpp b/src/umpire/strategy/FixedPool.hpp
index cd9d3ce..1021b56 100644
--- a/src/umpire/strategy/FixedPool.hpp
+++ b/src/umpire/strategy/FixedPool.hpp
@@ -39,7 +39,7 @@ class FixedPool : public AllocationStrategy {
    * if so.
    */
   FixedPool(const std::string& name, int id, Allocator allocator, const std::size_t object_bytes,
-            const std::size_t objects_per_pool = 64 * sizeof(int) * 8) noexcept;
+            const std::size_t objects_per_pool = 64 * sizeof(int) * 8);
 
   ~FixedPool();
 
diff --git a/src/umpire/strategy/MixedPool.cpp b/src/umpire/strategy/MixedPool.cpp
index 020d0b5..adba672 100644
--- a/src/umpire/strategy/MixedPool.cpp
+++ b/src/umpire/strategy/MixedPool.cpp
@@ -22,7 +22,7 @@ MixedPool::MixedPool(const std::string& name, int id, Allocator allocator, std::
                      std::size_t largest_fixed_obj_size, std::size_t max_initial_fixed_pool_size,
                      std::size_t fixed_size_multiplier, const std::size_t quick_pool_initial_alloc_size,
                      const std::size_t quick_pool_min_alloc_size, const std::size_t quick_pool_align_bytes,
-                     PoolCoalesceHeuristic<QuickPool> should_coalesce) noexcept
+                     PoolCoalesceHeuristic<QuickPool> should_coalesce)
     : AllocationStrategy{name, id, allocator.getAllocationStrategy(), "MixedPool"},
       m_map{},
       m_fixed_pool_map{},
diff --git a/src/umpire/strategy/MixedPool.hpp b/src/umpire/strategy/MixedPool.hpp
index 8f9bc5c..d5bbc1f 100644
--- a/src/umpire/strategy/MixedPool.hpp
+++ b/src/umpire/strategy/MixedPool.hpp
@@ -53,7 +53,7 @@ class MixedPool : public AllocationStrategy {
             const std::size_t quick_pool_initial_alloc_size = (512 * 1024 * 1024),
             const std::size_t quick_pool_min_alloc_size = (1 * 1024 * 1024),
             const std::size_t quick_pool_align_bytes = 16,
-            PoolCoalesceHeuristic<QuickPool> should_coalesce = QuickPool::percent_releasable(100)) noexcept;
+            PoolCoalesceHeuristic<QuickPool> should_coalesce = QuickPool::percent_releasable(100));
 
   void* allocate(std::size_t bytes) override;
   void deallocate(void* ptr, std::size_t size) override;
-- 
2.43.0


From c14ce234025c6a66bf56814d9b5ba9b49101fdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:51 +0000
Subject: [PATCH 11/45] fix: FixedPool refuses requests larger than its objects

Only an assertion stood against them: a release build handed out a slot smaller
than requested, overlapping the next one.
---
 src/umpire/strategy/FixedPool.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/umpire/strategy/FixedPool.cpp b/src/umpire/strategy/FixedPool.cpp
index 4249ef3..179d0f7 100644
--- a/src/umpire/strategy/FixedPool.cpp
+++ b/src/umpire/strategy/FixedPool.cpp
@@ -123,6 +123,11 @@ void* FixedPool::allocInPool(Pool& p)
 
 void* FixedPool::allocate(std::size_t bytes)
 {
+  if (bytes > m_obj_bytes) {
+    UMPIRE_ERROR(runtime_error,
+                 fmt::format("FixedPool::allocate(size={}): objects of this pool have {} bytes", bytes, m_obj_bytes));
+  }
+
   // Check that bytes passed matches m_obj_bytes or bytes was not passed
   // (default = 0)
   UMPIRE_ASSERT(!bytes || bytes == m_obj_bytes);
-- 
2.43.0


From cf58122d88543b3f75fa0be20db08684d646b003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:00 +0000
Subject: [PATCH 12/45] fix: SlotPool returns slots still in use with their
 size, not its negation

---
 src/umpire/strategy/SlotPool.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/umpire/strategy/SlotPool.cpp b/src/umpire/strategy/SlotPool.cpp
index e6d96eb..23166ca 100644
--- a/src/umpire/strategy/SlotPool.cpp
+++ b/src/umpire/strategy/SlotPool.cpp
@@ -7,6 +7,8 @@
 
 #include "umpire/strategy/SlotPool.hpp"
 
+#include <cstdlib>
+
 #include "umpire/util/Macros.hpp"
 #include "umpire/util/error.hpp"
 
@@ -35,7 +37,7 @@ SlotPool::~SlotPool()
 {
   for (std::size_t i = 0; i < m_slots; ++i) {
     if (m_pointers[i]) {
-      m_allocator->deallocate_internal(m_pointers[i], m_lengths[i]);
+      m_allocator->deallocate_internal(m_pointers[i], std::abs(m_lengths[i]));
       m_pointers[i] = nullptr;
       m_lengths[i] = 0;
     }
-- 
2.43.0


From d86bfb8e1df995e48cd9960c2934961b6c5d9a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:57 +0000
Subject: [PATCH 13/45] fix: MemoryMap::insert(Key, const Value&) reports
 whether the entry was added

It returned the negation of what is documented and of what the other
overloads return.
---
 src/umpire/util/MemoryMap.inl | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/umpire/util/MemoryMap.inl b/src/umpire/util/MemoryMap.inl
index 4c461d8..1cc7242 100644
--- a/src/umpire/util/MemoryMap.inl
+++ b/src/umpire/util/MemoryMap.inl
@@ -70,10 +70,7 @@ std::pair<typename MemoryMap<V>::Iterator, bool> MemoryMap<V>::insert(Key ptr, c
 {
   UMPIRE_LOG(Debug, "ptr = " << ptr);
 
-  auto it_pair = doInsert(ptr, val);
-  it_pair.second = !it_pair.second;
-
-  return it_pair;
+  return doInsert(ptr, val);
 }
 
 template <typename V>
-- 
2.43.0


From 715c6debb1b0baa3a545c52e287ea4676de484b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:57 +0000
Subject: [PATCH 14/45] fix: MemoryMap::findOrBefore returns end() when nothing
 precedes the key

With only larger keys in the map it returned an iterator that carried some
other key, no value, and compared unequal to end().
---
 src/umpire/util/MemoryMap.inl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/umpire/util/MemoryMap.inl b/src/umpire/util/MemoryMap.inl
index 1cc7242..25c5c33 100644
--- a/src/umpire/util/MemoryMap.inl
+++ b/src/umpire/util/MemoryMap.inl
@@ -105,7 +105,12 @@ typename MemoryMap<V>::Key MemoryMap<V>::doFindOrBefore(Key ptr) const noexcept
   // If the ptrs do not match, or the key does not exist, get the previous entry
   if (parent_ptr != ptr || !value) {
     m_last = judy_prv(m_array);
-    judy_key(m_array, reinterpret_cast<unsigned char*>(&parent_ptr), judy_max);
+    if (m_last) {
+      judy_key(m_array, reinterpret_cast<unsigned char*>(&parent_ptr), judy_max);
+    } else {
+      // Nothing at or before ptr: end()
+      parent_ptr = nullptr;
+    }
   }
   UMPIRE_LOG(Debug, "returning " << parent_ptr);
 
-- 
2.43.0


From 4c8fe1def5e09f6f02d06c08c956a9d7baa6301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:57 +0000
Subject: [PATCH 15/45] fix: a MemoryMap iterator that was assigned to advances
 from its own position

After it = other, ++it continued from where it had been before the
assignment, because its address was still recorded as the last one to have
moved the Judy cursor.
---
 src/umpire/util/MemoryMap.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/umpire/util/MemoryMap.inl b/src/umpire/util/MemoryMap.inl
index 25c5c33..ad18506 100644
--- a/src/umpire/util/MemoryMap.inl
+++ b/src/umpire/util/MemoryMap.inl
@@ -271,8 +271,9 @@ template <typename V>
 template <bool Const>
 typename MemoryMap<V>::template Iterator_<Const>& MemoryMap<V>::Iterator_<Const>::operator++()
 {
-  // Check whether this object was not the last to set the internal judy state
-  if (m_pair.first && m_map->m_oper != reinterpret_cast<uintptr_t>(this)) {
+  // The internal judy state may belong to another iterator, or to the position
+  // this one had before it was assigned to
+  if (m_pair.first) {
     // Seek m_array internal position
     judy_slot(m_map->m_array, reinterpret_cast<const unsigned char*>(&m_pair.first), judy_max);
   }
-- 
2.43.0


From e83189d9f170bfe1e21c1c092afc85c1155c0667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:57 +0000
Subject: [PATCH 16/45] fix: FixedMallocPool does not write past small objects

Freeing an object of a full pool stored eight bytes in it, and objects
smaller than an index had no room for the free list; both overwrote the
neighbouring object (MemoryMap<int>, for instance).
---
 src/umpire/util/FixedMallocPool.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/umpire/util/FixedMallocPool.cpp b/src/umpire/util/FixedMallocPool.cpp
index f6070cb..5cae466 100644
--- a/src/umpire/util/FixedMallocPool.cpp
+++ b/src/umpire/util/FixedMallocPool.cpp
@@ -40,7 +40,10 @@ FixedMallocPool::Pool::Pool(const std::size_t object_bytes, const std::size_t ob
 }
 
 FixedMallocPool::FixedMallocPool(const std::size_t object_bytes, const std::size_t objects_per_pool)
-    : m_obj_bytes(object_bytes), m_obj_per_pool(objects_per_pool), m_data_bytes(m_obj_bytes * m_obj_per_pool), m_pool()
+    : m_obj_bytes(std::max(object_bytes, sizeof(unsigned int))), // a free object holds the index of the next
+      m_obj_per_pool(objects_per_pool),
+      m_data_bytes(m_obj_bytes * m_obj_per_pool),
+      m_pool()
 {
   newPool();
 }
@@ -112,7 +115,7 @@ void FixedMallocPool::deallocate(void* ptr)
         *reinterpret_cast<unsigned int*>(ptr) = index_from_addr(p, p.next);
         p.next = reinterpret_cast<unsigned char*>(ptr);
       } else {
-        *reinterpret_cast<std::size_t*>(ptr) = m_obj_per_pool;
+        *reinterpret_cast<unsigned int*>(ptr) = static_cast<unsigned int>(m_obj_per_pool);
         p.next = reinterpret_cast<unsigned char*>(ptr);
       }
       ++p.num_free;
-- 
2.43.0


From 49324870b79e3f6aff1046920718609a0cefdb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:57 +0000
Subject: [PATCH 17/45] fix: relative_fragmentation terminates

The loop over the records never advanced, and an empty vector was stepped
past its end.
---
 src/umpire/util/allocation_statistics.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/umpire/util/allocation_statistics.cpp b/src/umpire/util/allocation_statistics.cpp
index 20f48b1..76afca4 100644
--- a/src/umpire/util/allocation_statistics.cpp
+++ b/src/umpire/util/allocation_statistics.cpp
@@ -17,13 +17,16 @@ float relative_fragmentation(std::vector<util::AllocationRecord>& recs)
 {
   auto r1 = recs.begin();
   auto r2 = recs.begin();
-  ++r2;
+  if (r2 != recs.end())
+    ++r2;
   std::size_t largest_free_space = 0;
   std::size_t total_free_space = 0;
   while (r2 != recs.end()) {
     const std::size_t free_space = reinterpret_cast<char*>(r2->ptr) - (reinterpret_cast<char*>(r1->ptr) + r1->size);
     largest_free_space = std::max(largest_free_space, free_space);
     total_free_space += free_space;
+    r1 = r2;
+    ++r2;
   }
 
   return 1.0f - static_cast<float>(largest_free_space) / (total_free_space + std::numeric_limits<float>::epsilon());
-- 
2.43.0


From 8ef9e687b0a757f6390488752c737cc1da2b3cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:04 +0000
Subject: [PATCH 18/45] fix: Judy returns the cell of the key it stepped back
 to

judy_prv and judy_last returned the first cell of an inner radix node
whatever the key, so once a leaf had become a radix node (more than about
twenty keys in the same 256 bytes) a lookup of an address found a different
allocation's record, or none.
---
 src/tpl/umpire/judy/judy.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tpl/umpire/judy/judy.c b/src/tpl/umpire/judy/judy.c
index 0f59149..b27b4cc 100644
--- a/src/tpl/umpire/judy/judy.c
+++ b/src/tpl/umpire/judy/judy.c
@@ -905,7 +905,7 @@ JudySlot * judy_last( Judy * judy, JudySlot next, unsigned int off, unsigned int
                         next = inner[slot & 0x0F];
                         if( next ) {
                             if( ( !judy->depth && !slot ) || ( judy->depth && depth == judy->depth ) ) {
-                                return &inner[0];
+                                return &inner[slot & 0x0F];
                             } else {
                                 break;
                             }
@@ -1091,7 +1091,7 @@ JudySlot * judy_prv( Judy * judy ) {
                     if( inner ) {
                         if( inner[slot & 0x0F] ) {
                             if( ( !judy->depth && !slot ) || ( judy->depth && depth == judy->depth ) ) {
-                                return &inner[0];
+                                return &inner[slot & 0x0F];
                             } else {
                                 return judy_last( judy, inner[slot & 0x0F], off + 1, depth );
                             }
-- 
2.43.0


From 11c3526d9ce389f17c8532e8931c18df1f3d885e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:04 +0000
Subject: [PATCH 19/45] fix: judy_slot does not find keys in unused slots

Unused slots of a linear node hold the key zero, so looking up an absent key
whose remaining bytes are zero returned an empty cell; MemoryMap::find then
differed from end() and MemoryMap::erase destroyed a null value.
---
 src/tpl/umpire/judy/judy.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tpl/umpire/judy/judy.c b/src/tpl/umpire/judy/judy.c
index b27b4cc..6f931dc 100644
--- a/src/tpl/umpire/judy/judy.c
+++ b/src/tpl/umpire/judy/judy.c
@@ -520,7 +520,8 @@ JudySlot * judy_slot( Judy * judy, const unsigned char * buff, unsigned int max
                     // is this a leaf?
 
                     if( (!judy->depth && !( value & 0xFF )) || ( judy->depth && depth == judy->depth ) ) {
-                        return &node[-slot - 1];
+                        // unused slots hold the key zero
+                        return node[-slot - 1] ? &node[-slot - 1] : NULL;
                     }
 
                     next = node[-slot - 1];
-- 
2.43.0


From cf3d31f2355b9e91a494b0f5fdaa2a9780b9f70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:35 +0000
Subject: [PATCH 20/45] fix: reallocating HOST memory keeps the statistics and
 survives failure

::realloc changed the size of the registered allocation without changing the
current size of HOST, so that the next deallocation made it wrap around, and
a reallocation that failed left the still valid pointer unregistered.
---
 src/umpire/op/HostReallocateOperation.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/umpire/op/HostReallocateOperation.cpp b/src/umpire/op/HostReallocateOperation.cpp
index 76b39d4..90d4e0a 100644
--- a/src/umpire/op/HostReallocateOperation.cpp
+++ b/src/umpire/op/HostReallocateOperation.cpp
@@ -32,15 +32,18 @@ void HostReallocateOperation::transform(void* current_ptr, void** new_ptr, util:
     ResourceManager::getInstance().copy(*new_ptr, current_ptr, copy_size);
     allocator.deallocate(current_ptr);
   } else {
-    auto old_record = ResourceManager::getInstance().deregisterAllocation(current_ptr);
+    strategy::mixins::Inspector inspector;
+    auto strategy = new_allocation->strategy;
+    auto old_record = inspector.deregisterAllocation(current_ptr, strategy);
     *new_ptr = ::realloc(current_ptr, new_size);
 
     if (!*new_ptr) {
+      inspector.registerAllocation(current_ptr, old_record.size, strategy, old_record.name);
       UMPIRE_ERROR(runtime_error, fmt::format("::realloc(current_ptr={}, old_size={}, new_size={}) failed.",
                                               current_ptr, old_record.size, new_size));
     }
 
-    ResourceManager::getInstance().registerAllocation(*new_ptr, {*new_ptr, new_size, new_allocation->strategy});
+    inspector.registerAllocation(*new_ptr, new_size, strategy, old_record.name);
   }
 }
 
-- 
2.43.0


From f7e78fc87e44f7be1530a2bbd67a0b13067be553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:35 +0000
Subject: [PATCH 21/45] fix: find_pointer_from_name refuses allocators without
 shared memory

reinterpret_cast made every allocator look like a shared memory resource.
---
 src/umpire/Umpire.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/Umpire.cpp b/src/umpire/Umpire.cpp
index 76297c3..9f0d06f 100644
--- a/src/umpire/Umpire.cpp
+++ b/src/umpire/Umpire.cpp
@@ -214,7 +214,7 @@ void* find_pointer_from_name(Allocator allocator, const std::string& name)
   auto base_strategy = util::unwrap_allocator<strategy::AllocationStrategy>(allocator);
 
   umpire::resource::HostSharedMemoryResource* shared_resource =
-      reinterpret_cast<umpire::resource::HostSharedMemoryResource*>(base_strategy);
+      dynamic_cast<umpire::resource::HostSharedMemoryResource*>(base_strategy);
 
   if (shared_resource != nullptr) {
     ptr = shared_resource->find_pointer_from_name(name);
-- 
2.43.0


From e4a6f5489d5be6bcec3c4780791d969e6a082d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:45 +0000
Subject: [PATCH 22/45] fix: a resource that cannot be made is not left in the
 registry

makeResource registered the name before it was rejected, leaving an entry
that pointed to the destroyed resource.
---
 src/umpire/ResourceManager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index ee58038..8fa86a7 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -168,6 +168,9 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
   });
 
   int id{allocator->getId()};
+  if (name.find("::") == std::string::npos) {
+    m_memory_resources[resource::string_to_resource(name)] = allocator.get();
+  }
   m_allocators_by_name[name] = allocator.get();
   if (name == "DEVICE") {
     m_allocators_by_name["DEVICE::0"] = allocator.get();
@@ -176,9 +179,6 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
     std::string base_name{name.substr(0, name.find("::") - 1)};
     m_allocators_by_name[base_name] = allocator.get();
   }
-  if (name.find("::") == std::string::npos) {
-    m_memory_resources[resource::string_to_resource(name)] = allocator.get();
-  }
   m_allocators_by_id[id] = allocator.get();
   m_allocators.emplace_front(std::move(allocator));
 
-- 
2.43.0


From 5e432f9cc28bc0635076d59c265a36f154b13111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:06 +0000
Subject: [PATCH 23/45] fix: refuse a TypedAllocator request whose byte count
 overflows

---
 src/umpire/TypedAllocator.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/umpire/TypedAllocator.inl b/src/umpire/TypedAllocator.inl
index 9db0e5c..13d62b7 100644
--- a/src/umpire/TypedAllocator.inl
+++ b/src/umpire/TypedAllocator.inl
@@ -7,7 +7,10 @@
 #ifndef UMPIRE_TypedAllocator_INL
 #define UMPIRE_TypedAllocator_INL
 
+#include <limits>
+
 #include "umpire/util/Macros.hpp"
+#include "umpire/util/error.hpp"
 
 namespace umpire {
 
@@ -25,6 +28,10 @@ TypedAllocator<T>::TypedAllocator(const TypedAllocator<U>& other) : m_allocator(
 template <typename T>
 T* TypedAllocator<T>::allocate(std::size_t size)
 {
+  if (size > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("Cannot allocate {} elements of {} bytes", size, sizeof(T)));
+  }
+
   return static_cast<T*>(m_allocator.allocate(sizeof(T) * size));
 }
 
-- 
2.43.0


From 9691d9ad339d4e209f26b6ae3be27afa27208ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:06 +0000
Subject: [PATCH 24/45] fix: release the new block when the copy of a generic
 reallocate fails

---
 src/umpire/op/GenericReallocateOperation.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/umpire/op/GenericReallocateOperation.cpp b/src/umpire/op/GenericReallocateOperation.cpp
index 16709be..e0e00ff 100644
--- a/src/umpire/op/GenericReallocateOperation.cpp
+++ b/src/umpire/op/GenericReallocateOperation.cpp
@@ -26,7 +26,12 @@ void GenericReallocateOperation::transform(void* current_ptr, void** new_ptr,
   const std::size_t old_size = current_allocation->size;
   const std::size_t copy_size = (old_size > new_size) ? new_size : old_size;
 
-  ResourceManager::getInstance().copy(*new_ptr, current_ptr, copy_size);
+  try {
+    ResourceManager::getInstance().copy(*new_ptr, current_ptr, copy_size);
+  } catch (...) {
+    allocator.deallocate(*new_ptr);
+    throw;
+  }
 
   allocator.deallocate(current_ptr);
 }
@@ -41,11 +46,16 @@ camp::resources::EventProxy<camp::resources::Resource> GenericReallocateOperatio
   const std::size_t old_size = current_allocation->size;
   const std::size_t copy_size = (old_size > new_size) ? new_size : old_size;
 
-  auto event = ResourceManager::getInstance().copy(*new_ptr, current_ptr, ctx, copy_size);
+  try {
+    auto event = ResourceManager::getInstance().copy(*new_ptr, current_ptr, ctx, copy_size);
 
-  allocator.deallocate(current_ptr);
+    allocator.deallocate(current_ptr);
 
-  return event;
+    return event;
+  } catch (...) {
+    allocator.deallocate(*new_ptr);
+    throw;
+  }
 }
 
 } // end of namespace op
-- 
2.43.0


From cf4d0db8ee64aa5e352adfb92ffa6d3d6b81fdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:17 +0000
Subject: [PATCH 25/45] fix: removeAlias of a name with no allocator is
 refused, not a crash

---
 src/umpire/ResourceManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 8fa86a7..7dc304f 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -300,7 +300,7 @@ void ResourceManager::removeAlias(const std::string& name, Allocator allocator)
   }
 
   auto a = m_allocators_by_name.find(name);
-  if (a->second->getName().compare(name) == 0) {
+  if (a == m_allocators_by_name.end() || a->second->getName().compare(name) == 0) {
     UMPIRE_ERROR(runtime_error, fmt::format("\"{}\" is not an alias, so cannot be removed", name));
   }
 
-- 
2.43.0


From 8fa3803fa7dfbab948043d6c43fd09e46aaccc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:17 +0000
Subject: [PATCH 26/45] fix: release the destination when the copy of a move
 fails

---
 src/umpire/ResourceManager.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 7dc304f..3e94b82 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -814,7 +814,13 @@ void* ResourceManager::move(void* ptr, Allocator allocator)
   }
 
   void* dst_ptr{allocator.allocate(alloc_record->size)};
-  copy(dst_ptr, ptr);
+
+  try {
+    copy(dst_ptr, ptr);
+  } catch (...) {
+    allocator.deallocate(dst_ptr);
+    throw;
+  }
 
   deallocate(ptr);
 
-- 
2.43.0


From 7c77682143b4ca07fc6d673f4cefef675790cc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:17 +0000
Subject: [PATCH 27/45] fix: close the file descriptor of a file allocation
 that fails

---
 src/umpire/resource/FileMemoryResource.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index f65bc03..4fbc7af 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -75,6 +75,7 @@ void* FileMemoryResource::allocate(std::size_t bytes)
   int trun{ftruncate64(fd, rounded_bytes)};
   if (trun == -1) {
     int errno_save = errno;
+    close(fd);
     remove(ss.str().c_str());
     UMPIRE_ERROR(runtime_error, fmt::format("truncate64 of file {} failed: {}", ss.str(), strerror(errno_save)));
   }
@@ -86,6 +87,7 @@ void* FileMemoryResource::allocate(std::size_t bytes)
 #endif
   if (ptr == MAP_FAILED) {
     int errno_save = errno;
+    close(fd);
     remove(ss.str().c_str());
     UMPIRE_ERROR(runtime_error,
                  fmt::format("mmap of {} to file {} failed: {}", rounded_bytes, ss.str(), strerror(errno_save)));
-- 
2.43.0


From fcb7d2edf2d41796450bfdb0f122934bb32ade77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:17 +0000
Subject: [PATCH 28/45] fix: report the sizes that FileMemoryResource tracks

---
 src/umpire/resource/FileMemoryResource.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index 4fbc7af..6ead9b6 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -135,12 +135,12 @@ void FileMemoryResource::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(siz
 
 std::size_t FileMemoryResource::getCurrentSize() const noexcept
 {
-  return 0;
+  return m_current_size;
 }
 
 std::size_t FileMemoryResource::getHighWatermark() const noexcept
 {
-  return 0;
+  return m_high_watermark;
 }
 
 bool FileMemoryResource::isPageable() noexcept
-- 
2.43.0


From af37d84fe97a71dbd946a58c7791ae4a186f3fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:20 +0000
Subject: [PATCH 29/45] fix: leave no shared memory segment behind when it
 cannot be created

---
 .../resource/HostSharedMemoryResourceImpl.hpp | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
index 672dc42..c16eb53 100644
--- a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
+++ b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
@@ -89,13 +89,25 @@ class HostSharedMemoryResource::impl {
     }
 
     if (created) {
+      if (size < sizeof(SharedMemorySegmentHeader) + sizeof(SharedMemoryBlock)) {
+        remove_shared_memory_segment();
+        UMPIRE_ERROR(runtime_error,
+                     fmt::format("Size {} is too small for shared memory segment \"{}\"", size, m_segment_name));
+      }
+
       if (0 != ftruncate(m_segment_fd, size)) {
         err = errno;
+        remove_shared_memory_segment();
         UMPIRE_ERROR(runtime_error, fmt::format("Failed to set size for shared memory segment \"{}\": {}",
                                                 m_segment_name, strerror(err)));
       }
 
-      map_shared_memory_segment();
+      try {
+        map_shared_memory_segment();
+      } catch (...) {
+        remove_shared_memory_segment();
+        throw;
+      }
 
       __atomic_store_n(&m_segment->init_flag, Initializing, __ATOMIC_SEQ_CST);
 
@@ -484,6 +496,13 @@ class HostSharedMemoryResource::impl {
     return rval;
   }
 
+  // Undo a creation that could not be completed, others would wait for it forever
+  void remove_shared_memory_segment()
+  {
+    shm_unlink(m_segment_name.c_str());
+    close(m_segment_fd);
+  }
+
   void map_shared_memory_segment()
   {
     struct ::stat buf;
-- 
2.43.0


From d2388743494f02eba5a0dfb187cb2136836aa14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:20 +0000
Subject: [PATCH 30/45] fix: refuse shared memory allocations larger than the
 segment

---
 src/umpire/resource/HostSharedMemoryResourceImpl.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
index c16eb53..b14a71a 100644
--- a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
+++ b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
@@ -201,6 +201,11 @@ class HostSharedMemoryResource::impl {
 
     UMPIRE_LOG(Debug, "(name=\"" << name << ", requested_size=" << requested_size << ")");
 
+    // Nothing larger than the segment can be satisfied (and the rounding above may have wrapped around)
+    if (requested_size > m_segment->segment_size) {
+      UMPIRE_ERROR(out_of_memory_error, fmt::format("shared memory allocation( bytes = {} ) failed", requested_size));
+    }
+
     if ((err = pthread_mutex_lock(&m_segment->mutex)) != 0) {
       UMPIRE_ERROR(runtime_error,
                    fmt::format("Failed to lock mutex for shared memory segment {}: {}", m_segment_name, strerror(err)));
-- 
2.43.0


From 942d2717581c0464bb3fe4a552543ad9c8a4c0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:20 +0000
Subject: [PATCH 31/45] fix: do not share a named allocation that is smaller
 than requested

---
 src/umpire/resource/HostSharedMemoryResourceImpl.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
index b14a71a..9b62bff 100644
--- a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
+++ b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
@@ -216,6 +216,14 @@ class HostSharedMemoryResource::impl {
     SharedMemoryBlock* prev{nullptr};
 
     if (best != nullptr) {
+      const std::size_t existing_size{best->name_offset - best->memory_offset};
+
+      if (requested_size > existing_size) {
+        pthread_mutex_unlock(&m_segment->mutex);
+        UMPIRE_ERROR(runtime_error,
+                     fmt::format("shared memory allocation \"{}\" ( bytes = {} ) is larger than the existing one ( {} )",
+                                 name, requested_size, existing_size));
+      }
       best->reference_count++;
     } else { // New allocation
       findUsableBlock(best, prev, adjusted_size);
-- 
2.43.0


From 1fdba2c6ffb7e2fd84fcba1ec1b7c03568962cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:20 +0000
Subject: [PATCH 32/45] fix: serialize access to the shared pool of zero-byte
 allocations

---
 src/umpire/strategy/mixins/AllocateNull.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/umpire/strategy/mixins/AllocateNull.cpp b/src/umpire/strategy/mixins/AllocateNull.cpp
index 12fa1f3..3103e36 100644
--- a/src/umpire/strategy/mixins/AllocateNull.cpp
+++ b/src/umpire/strategy/mixins/AllocateNull.cpp
@@ -6,6 +6,8 @@
 //////////////////////////////////////////////////////////////////////////////
 #include "umpire/strategy/mixins/AllocateNull.hpp"
 
+#include <mutex>
+
 #include "umpire/ResourceManager.hpp"
 #include "umpire/strategy/FixedPool.hpp"
 #include "umpire/util/Macros.hpp"
@@ -14,6 +16,11 @@ namespace umpire {
 namespace strategy {
 namespace mixins {
 
+namespace {
+// All allocators share the pool of zero-byte allocations
+std::mutex s_zero_byte_mutex;
+} // namespace
+
 AllocateNull::AllocateNull() :
   m_zero_byte_pool{nullptr}
 {
@@ -21,6 +28,8 @@ AllocateNull::AllocateNull() :
 
 void* AllocateNull::allocateNull()
 {
+  std::lock_guard<std::mutex> lock(s_zero_byte_mutex);
+
   if (!m_zero_byte_pool)
     m_zero_byte_pool = static_cast<FixedPool*>(
           ResourceManager::getInstance().getZeroByteAllocator());
@@ -30,6 +39,8 @@ void* AllocateNull::allocateNull()
 
 bool AllocateNull::deallocateNull(void* ptr)
 {
+  std::lock_guard<std::mutex> lock(s_zero_byte_mutex);
+
   if (!m_zero_byte_pool)
     m_zero_byte_pool = static_cast<FixedPool*>(
           ResourceManager::getInstance().getZeroByteAllocator());
-- 
2.43.0


From e526ff84aaa59c47c64dee7c5e630cb842d6306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:19 +0000
Subject: [PATCH 33/45] fix: escape the name of a named allocation in the event
 log

---
 src/umpire/event/json_file_store.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/event/json_file_store.cpp b/src/umpire/event/json_file_store.cpp
index 3705ff7..6d49ccd 100644
--- a/src/umpire/event/json_file_store.cpp
+++ b/src/umpire/event/json_file_store.cpp
@@ -55,11 +55,11 @@ void json_file_store::insert(const named_allocate& e)
   fprintf(m_fstream,
           R"({"category":"operation","name":"named_allocate")"
           R"(,"numeric_args":{"size":%ld})"
-          R"(,"string_args":{"allocator_ref":"%p","pointer":"%p","allocation_name":"%s"})"
+          R"(,"string_args":{"allocator_ref":"%p","pointer":"%p","allocation_name":%s})"
           R"(,"tags":{"replay":"true"})"
           R"(,"timestamp":%lld})"
           "\n",
-          e.size, e.ref, e.ptr, e.name.c_str(),
+          e.size, e.ref, e.ptr, nlohmann::json(e.name).dump(-1, ' ', false, nlohmann::json::error_handler_t::replace).c_str(),
           static_cast<long long>(
               std::chrono::time_point_cast<std::chrono::nanoseconds>(e.timestamp).time_since_epoch().count()));
 }
-- 
2.43.0


From 316998c5f009f4901e4f74fbed4ce44c9b363e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:19 +0000
Subject: [PATCH 34/45] fix: open the event log when the first event is an
 allocation

---
 src/umpire/event/json_file_store.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/umpire/event/json_file_store.cpp b/src/umpire/event/json_file_store.cpp
index 6d49ccd..e594f9f 100644
--- a/src/umpire/event/json_file_store.cpp
+++ b/src/umpire/event/json_file_store.cpp
@@ -38,6 +38,7 @@ void json_file_store::insert(const event& e)
 
 void json_file_store::insert(const allocate& e)
 {
+  open_store();
   fprintf(m_fstream,
           R"({"category":"operation","name":"allocate")"
           R"(,"numeric_args":{"size":%ld})"
@@ -52,6 +53,7 @@ void json_file_store::insert(const allocate& e)
 
 void json_file_store::insert(const named_allocate& e)
 {
+  open_store();
   fprintf(m_fstream,
           R"({"category":"operation","name":"named_allocate")"
           R"(,"numeric_args":{"size":%ld})"
@@ -66,6 +68,7 @@ void json_file_store::insert(const named_allocate& e)
 
 void json_file_store::insert(const deallocate& e)
 {
+  open_store();
   fprintf(m_fstream,
           R"({"category":"operation","name":"deallocate")"
           R"(,"string_args":{"allocator_ref":"%p","pointer":"%p"})"
-- 
2.43.0


From 80358117801853be4935e66d3cfceb3eb959062c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:19 +0000
Subject: [PATCH 35/45] fix: write the size of an allocation as an unsigned
 number

---
 src/umpire/event/json_file_store.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/event/json_file_store.cpp b/src/umpire/event/json_file_store.cpp
index e594f9f..be246cb 100644
--- a/src/umpire/event/json_file_store.cpp
+++ b/src/umpire/event/json_file_store.cpp
@@ -41,7 +41,7 @@ void json_file_store::insert(const allocate& e)
   open_store();
   fprintf(m_fstream,
           R"({"category":"operation","name":"allocate")"
-          R"(,"numeric_args":{"size":%ld})"
+          R"(,"numeric_args":{"size":%zu})"
           R"(,"string_args":{"allocator_ref":"%p","pointer":"%p"})"
           R"(,"tags":{"replay":"true"})"
           R"(,"timestamp":%lld})"
@@ -56,7 +56,7 @@ void json_file_store::insert(const named_allocate& e)
   open_store();
   fprintf(m_fstream,
           R"({"category":"operation","name":"named_allocate")"
-          R"(,"numeric_args":{"size":%ld})"
+          R"(,"numeric_args":{"size":%zu})"
           R"(,"string_args":{"allocator_ref":"%p","pointer":"%p","allocation_name":%s})"
           R"(,"tags":{"replay":"true"})"
           R"(,"timestamp":%lld})"
-- 
2.43.0


From 60a3246466a2182f82d825e5d5f0ce69368f2339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:40 +0000
Subject: [PATCH 36/45] fix: replay named allocations

---
 tools/replay/ReplayInterpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/replay/ReplayInterpreter.cpp b/tools/replay/ReplayInterpreter.cpp
index 4556001..4b26f02 100644
--- a/tools/replay/ReplayInterpreter.cpp
+++ b/tools/replay/ReplayInterpreter.cpp
@@ -113,7 +113,7 @@ umpire::event::json_file_store store{m_options.input_file, true};
       continue;
 
     try {
-      if ( m_event.name == "allocate" ) {
+      if ( m_event.name == "allocate" || m_event.name == "named_allocate" ) {
         m_allocate_ops++;
         compile_allocate();
       }
-- 
2.43.0


From f34d780008b7654ccde362e319116e06b740b027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:40 +0000
Subject: [PATCH 37/45] fix: accept memset events in a replay file

---
 tools/replay/ReplayInterpreter.cpp | 4 ++++
 tools/replay/ReplayInterpreter.hpp | 1 +
 2 files changed, 5 insertions(+)

diff --git a/tools/replay/ReplayInterpreter.cpp b/tools/replay/ReplayInterpreter.cpp
index 4b26f02..61063f3 100644
--- a/tools/replay/ReplayInterpreter.cpp
+++ b/tools/replay/ReplayInterpreter.cpp
@@ -134,6 +134,9 @@ umpire::event::json_file_store store{m_options.input_file, true};
       else if ( m_event.name == "copy" ) {
         m_copy_ops++;
       }
+      else if ( m_event.name == "memset" ) {
+        m_memset_ops++;
+      }
       else if ( m_event.name == "move" ) {
         m_move_ops++;
       }
@@ -194,6 +197,7 @@ umpire::event::json_file_store store{m_options.input_file, true};
       << std::setw(12) << m_deregister_external_pointer << " external deregistrations (not replayed)" << std::endl
       << std::endl
       << std::setw(12) << m_copy_ops << " copy operations" << std::endl
+      << std::setw(12) << m_memset_ops << " memset operations" << std::endl
       << std::setw(12) << m_move_ops << " move operations" << std::endl
       << std::setw(12) << m_reallocate_ops << " reallocate operations" << std::endl
       << std::setw(12) << m_set_default_allocator_ops << " setDefaultAllocator operations" << std::endl
diff --git a/tools/replay/ReplayInterpreter.hpp b/tools/replay/ReplayInterpreter.hpp
index 9455e24..331f16f 100644
--- a/tools/replay/ReplayInterpreter.hpp
+++ b/tools/replay/ReplayInterpreter.hpp
@@ -56,6 +56,7 @@ class ReplayInterpreter {
     std::size_t m_make_allocator_ops{0};
     std::size_t m_make_memory_resource_ops{0};
     std::size_t m_copy_ops{0};
+    std::size_t m_memset_ops{0};
     std::size_t m_move_ops{0};
     std::size_t m_reallocate_ops{0};
     std::size_t m_set_default_allocator_ops{0};
-- 
2.43.0


From e0a17513755f2a32b8525810a2c1142cea56760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:40 +0000
Subject: [PATCH 38/45] fix: report replay files with different numbers of
 operations as different

---
 tools/replay/ReplayInterpreter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/replay/ReplayInterpreter.cpp b/tools/replay/ReplayInterpreter.cpp
index 61063f3..197de64 100644
--- a/tools/replay/ReplayInterpreter.cpp
+++ b/tools/replay/ReplayInterpreter.cpp
@@ -272,6 +272,7 @@ bool ReplayInterpreter::compareOperations(ReplayInterpreter& rh)
         << m_ops->getOperationsTable()->num_operations
         << " != " << rh.m_ops->getOperationsTable()->num_operations
         << std::endl;
+    rval = false;
   }
 
   if ( rval != false ) {
-- 
2.43.0


From 0a4cfcbdde190bec3f424a785545013b6748d088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:26 +0000
Subject: [PATCH 39/45] fix: name the size and allocator of a named allocation
 that runs out of memory

---
 src/umpire/Allocator.inl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/umpire/Allocator.inl b/src/umpire/Allocator.inl
index 1b3e7c7..c8e4038 100644
--- a/src/umpire/Allocator.inl
+++ b/src/umpire/Allocator.inl
@@ -76,7 +76,13 @@ inline void* Allocator::do_named_allocate(const std::string& name, std::size_t b
   if (0 == bytes) {
     ret = allocateNull();
   } else {
-    ret = m_allocator->allocate_named(name, bytes);
+    try {
+      ret = m_allocator->allocate_named(name, bytes);
+    } catch (umpire::out_of_memory_error& e) {
+      e.set_allocator_id(this->getId());
+      e.set_requested_size(bytes);
+      throw;
+    }
   }
 
   if (m_tracking) {
-- 
2.43.0


From 70a264a7cf5e5d1d5d3bc2142511285111b25062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:26 +0000
Subject: [PATCH 40/45] fix: keep the pointer in unknown_pointer_error

---
 src/umpire/util/AllocationMap.cpp | 2 +-
 src/umpire/util/error.hpp         | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/umpire/util/AllocationMap.cpp b/src/umpire/util/AllocationMap.cpp
index 9b2008c..ac25fd3 100644
--- a/src/umpire/util/AllocationMap.cpp
+++ b/src/umpire/util/AllocationMap.cpp
@@ -188,7 +188,7 @@ const AllocationRecord* AllocationMap::find(void* ptr) const
     // use this from a debugger to dump the contents of the AllocationMap
     printAll();
 #endif
-    UMPIRE_ERROR(unknown_pointer_error, fmt::format("Allocation not mapped: {}", ptr));
+    UMPIRE_ERROR(unknown_pointer_error, fmt::format("Allocation not mapped: {}", ptr), ptr);
   }
 }
 
diff --git a/src/umpire/util/error.hpp b/src/umpire/util/error.hpp
index 335695b..a4bd917 100644
--- a/src/umpire/util/error.hpp
+++ b/src/umpire/util/error.hpp
@@ -85,7 +85,8 @@ class out_of_memory_error : public umpire::runtime_error {
 
 class unknown_pointer_error : public umpire::runtime_error {
  public:
-  unknown_pointer_error(const std::string& msg, const std::string& file, int line) : runtime_error(msg, file, line)
+  unknown_pointer_error(const std::string& msg, const std::string& file, int line, void* ptr = nullptr)
+      : runtime_error(msg, file, line), m_pointer(ptr)
   {
   }
 
@@ -117,7 +118,7 @@ class resource_error : public umpire::runtime_error {
 #if defined(__CUDA_ARCH__)
 #define UMPIRE_ERROR(type, msg, ...) asm("trap;");
 #elif defined(__HIP_DEVICE_COMPILE__)
-#define UMPIRE_ERROR(type, msg) abort();
+#define UMPIRE_ERROR(type, msg, ...) abort();
 #else
 #define UMPIRE_ERROR(type, msg, ...)                             \
   {                                                              \
-- 
2.43.0


From db8e57695d5739ba783dfadbf56f4336b02c159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:26 +0000
Subject: [PATCH 41/45] fix: declare finalize_io as it is defined

---
 src/umpire/util/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/util/io.hpp b/src/umpire/util/io.hpp
index 9a50504..579006a 100644
--- a/src/umpire/util/io.hpp
+++ b/src/umpire/util/io.hpp
@@ -41,7 +41,7 @@ void initialize_io(const bool enable_log);
  * \brief Counterpart of initialize_io that finalizes the streams and ensures that no live references to the buffers
  * of standard streams exist. Most users will not need to call this manually.
  */
-void finalize_io(const bool enable_log);
+void finalize_io();
 
 /*!
  * \brief Synchronize all stream buffers to their respective output sequences.
-- 
2.43.0


From de3c73616b91471db1ac2350943c07b041270588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:53 +0000
Subject: [PATCH 42/45] fix: give the block back when advising or prefetching
 it fails

---
 src/umpire/strategy/AllocationAdvisor.cpp    | 7 ++++++-
 src/umpire/strategy/AllocationPrefetcher.cpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/AllocationAdvisor.cpp b/src/umpire/strategy/AllocationAdvisor.cpp
index e7682fa..87903c9 100644
--- a/src/umpire/strategy/AllocationAdvisor.cpp
+++ b/src/umpire/strategy/AllocationAdvisor.cpp
@@ -45,7 +45,12 @@ AllocationAdvisor::AllocationAdvisor(const std::string& name, int id, Allocator
 void* AllocationAdvisor::allocate(std::size_t bytes)
 {
   void* ptr = m_allocator->allocate_internal(bytes);
-  m_advice_operation->apply(ptr, nullptr, m_device, bytes);
+  try {
+    m_advice_operation->apply(ptr, nullptr, m_device, bytes);
+  } catch (...) {
+    m_allocator->deallocate_internal(ptr, bytes);
+    throw;
+  }
 
   return ptr;
 }
diff --git a/src/umpire/strategy/AllocationPrefetcher.cpp b/src/umpire/strategy/AllocationPrefetcher.cpp
index 1507dd4..6e298b0 100644
--- a/src/umpire/strategy/AllocationPrefetcher.cpp
+++ b/src/umpire/strategy/AllocationPrefetcher.cpp
@@ -27,7 +27,12 @@ void* AllocationPrefetcher::allocate(std::size_t bytes)
 {
   void* ptr = m_allocator->allocate_internal(bytes);
 
-  m_prefetch_operation->apply(ptr, nullptr, m_device, bytes);
+  try {
+    m_prefetch_operation->apply(ptr, nullptr, m_device, bytes);
+  } catch (...) {
+    m_allocator->deallocate_internal(ptr, bytes);
+    throw;
+  }
 
   return ptr;
 }
-- 
2.43.0


From 77e70038d8734da5e0277a350533bf0af45925e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:48 +0000
Subject: [PATCH 43/45] fix: record the number of bytes that memset sets

---
 src/umpire/ResourceManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 3e94b82..00b6253 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -480,7 +480,7 @@ void ResourceManager::memset(void* ptr, int value, std::size_t length)
         .category(event::category::operation)
         .arg("ptr", ptr)
         .arg("value", value)
-        .arg("size", size)
+        .arg("size", length)
         .arg("allocator_ref", (void*)alloc_record->strategy)
         .tag("allocator_name", alloc_record->strategy->getName())
         .tag("replay", "true");
@@ -517,7 +517,7 @@ camp::resources::EventProxy<camp::resources::Resource> ResourceManager::memset(v
         .category(event::category::operation)
         .arg("ptr", ptr)
         .arg("value", value)
-        .arg("size", size)
+        .arg("size", length)
         .arg("allocator_ref", (void*)alloc_record->strategy)
         .tag("allocator_name", alloc_record->strategy->getName())
         .tag("replay", "true")
-- 
2.43.0


From 7f4ed3b72c7220b771dd8c0d25aa520401cf3ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:33 +0000
Subject: [PATCH 44/45] fix: replay a coalesce on the pool whose name it was
 recorded with

---
 tools/replay/ReplayInterpreter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/replay/ReplayInterpreter.cpp b/tools/replay/ReplayInterpreter.cpp
index 197de64..50a1928 100644
--- a/tools/replay/ReplayInterpreter.cpp
+++ b/tools/replay/ReplayInterpreter.cpp
@@ -809,7 +809,9 @@ bool ReplayInterpreter::compile_deallocate()
 void ReplayInterpreter::compile_coalesce()
 {
   std::string allocator_name{m_event.tags["allocator_name"]};
-  strip_off_base(allocator_name);
+  if (m_allocator_index.find(allocator_name) == m_allocator_index.end()) {
+    strip_off_base(allocator_name);
+  }
 
   ReplayFile::Header* hdr = m_ops->getOperationsTable();
   ReplayFile::Operation* op = &hdr->ops[hdr->num_operations];
-- 
2.43.0


From 620a2a246ca5a6ecb8ee64f0a0c985dfd59e421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:18 +0000
Subject: [PATCH 45/45] fix: a compiled replay file counts as one only when it
 is complete

---
 tools/replay/ReplayFile.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/replay/ReplayFile.cpp b/tools/replay/ReplayFile.cpp
index 7fc269c..5a4efe9 100644
--- a/tools/replay/ReplayFile.cpp
+++ b/tools/replay/ReplayFile.cpp
@@ -51,8 +51,10 @@ ReplayFile::ReplayFile( const ReplayOptions& options ) :
   if (m_op_tables == MAP_FAILED)
     REPLAY_ERROR( "Unable to mmap to: " << m_binary_filename );
 
-  m_op_tables->m.magic = REPLAY_MAGIC;
-  m_op_tables->m.version = REPLAY_VERSION;
+  if ( compileNeeded() ) {
+    // Only a complete file gets its magic (see destructor)
+    m_op_tables->m.magic = 0;
+  }
 }
 
 std::string ReplayFile::getLine(std::size_t lineno)
@@ -79,6 +81,9 @@ ReplayFile::~ReplayFile()
 {
   if (m_op_tables != nullptr && m_op_tables != MAP_FAILED ) {
     if ( compileNeeded() ) {
+      m_op_tables->m.magic = REPLAY_MAGIC;
+      m_op_tables->m.version = REPLAY_VERSION;
+
       off_t actual_size = sizeof(Header) + (m_op_tables->num_operations * sizeof(Operation));
 
       if (ftruncate(m_fd, actual_size) < 0)
-- 
2.43.0

