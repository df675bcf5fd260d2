From ab41c3a93cd0af51f5702c304eb3ecb61f032a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:21 +0000
Subject: [PATCH 01/21] fix: loop peeler must not iterate past the end of short
 unaligned ranges

If the range ended within the first (unaligned) chunk, the scalar head of the
loop ran up to the next multiple of the arity, beyond the end of the range.
---
 include/libflatarray/loop_peeler.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/libflatarray/loop_peeler.hpp b/include/libflatarray/loop_peeler.hpp
index 0319c87..004afa9 100644
--- a/include/libflatarray/loop_peeler.hpp
+++ b/include/libflatarray/loop_peeler.hpp
@@ -85,6 +85,10 @@
         COUNTER_TYPE next_stop = remainder ?                            \
             (X) + COUNTER_TYPE(lfa_local_short_vec::ARITY) - remainder : \
             (X);                                                        \
+        /* ranges may end within the first (unaligned) chunk: */        \
+        if (next_stop > COUNTER_TYPE(END_X)) {                          \
+            next_stop = COUNTER_TYPE(END_X);                            \
+        }                                                               \
         COUNTER_TYPE last_stop = (END_X) -                              \
             (END_X) % COUNTER_TYPE(lfa_local_short_vec::ARITY);         \
                                                                         \
@@ -109,6 +113,10 @@ void loop_peeler(COUNTER_TYPE1 *counter, const COUNTER_TYPE2& end, const LAMBDA&
     COUNTER_TYPE2 next_stop = remainder ?
         (*counter) + COUNTER_TYPE2(lfa_local_short_vec::ARITY) - remainder :
         (*counter);
+    // ranges may end within the first (unaligned) chunk:
+    if (next_stop > end) {
+        next_stop = end;
+    }
     COUNTER_TYPE2 last_stop = end - end % COUNTER_TYPE2(lfa_local_short_vec::ARITY);
 
     lambda(lfa_local_scalar(),    counter, next_stop);
-- 
2.43.0


From d1a1ba9455dbb77f45c1160974bbfb5fee86f016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:32 +0000
Subject: [PATCH 02/21] fix: aligned_allocator must not write in front of its
 chunk for tiny alignments

With ALIGNMENT being 1 or 2 a single increment by ALIGNMENT does not make room
for the pointer which is stored in front of the aligned array.
---
 include/libflatarray/aligned_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libflatarray/aligned_allocator.hpp b/include/libflatarray/aligned_allocator.hpp
index efa3ed4..67fb444 100644
--- a/include/libflatarray/aligned_allocator.hpp
+++ b/include/libflatarray/aligned_allocator.hpp
@@ -76,7 +76,7 @@ public:
 
         std::size_t offset = reinterpret_cast<std::size_t>(chunk) % ALIGNMENT;
         std::size_t correction = ALIGNMENT - offset;
-        if (correction < sizeof(char*)) {
+        while (correction < sizeof(char*)) {
             correction += ALIGNMENT;
         }
         char *ret = chunk + correction;
-- 
2.43.0


From 2a282e6035a93e66cadb174652b34f21f245ba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:32 +0000
Subject: [PATCH 03/21] fix: aligned_allocator must refuse sizes which overflow

The allocation size wrapped around for huge n, which yielded a tiny block.
---
 include/libflatarray/aligned_allocator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libflatarray/aligned_allocator.hpp b/include/libflatarray/aligned_allocator.hpp
index 67fb444..666de6a 100644
--- a/include/libflatarray/aligned_allocator.hpp
+++ b/include/libflatarray/aligned_allocator.hpp
@@ -18,6 +18,7 @@
 #endif
 
 #include <memory>
+#include <new>
 
 #ifdef _MSC_BUILD
 #pragma warning( pop )
@@ -69,6 +70,11 @@ public:
         // desired offset. Since we need the original address for the
         // deallocation, we store it directly in front of the aligned
         // array's start. Ugly, but it works.
+        if (n > ((std::size_t(-1) - graceOffset()) / sizeof(T))) {
+            // upsize() would overflow
+            throw std::bad_alloc();
+        }
+
         char *chunk = std::allocator<char>().allocate(upsize(n));
         if (chunk == 0) {
             return reinterpret_cast<pointer>(chunk);
-- 
2.43.0


From a767956073875f8a44c08bf1de7cb876fce23cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:05 +0000
Subject: [PATCH 04/21] fix: soa_grid::swap() must exchange all dimensions and
 extents

---
 include/libflatarray/soa_grid.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 65ce0d7..14fa180 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -120,11 +120,11 @@ public:
     {
         using std::swap;
         swap(my_dim_x, other.my_dim_x);
-        swap(my_dim_x, other.my_dim_x);
-        swap(my_dim_x, other.my_dim_x);
-        swap(my_extent_x, other.my_extent_x);
-        swap(my_extent_x, other.my_extent_x);
+        swap(my_dim_y, other.my_dim_y);
+        swap(my_dim_z, other.my_dim_z);
         swap(my_extent_x, other.my_extent_x);
+        swap(my_extent_y, other.my_extent_y);
+        swap(my_extent_z, other.my_extent_z);
         swap(my_byte_size, other.my_byte_size);
         swap(my_data, other.my_data);
         swap(cell_staging_buffer, other.cell_staging_buffer);
-- 
2.43.0


From ba770157a65220d1cfdee21b071e141f1e8439cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:05 +0000
Subject: [PATCH 05/21] fix: soa_grid c-tors must initialize extents and byte
 size

---
 include/libflatarray/soa_grid.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 14fa180..c0323fe 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -88,6 +88,10 @@ public:
         my_dim_x(0),
         my_dim_y(0),
         my_dim_z(0),
+        my_extent_x(0),
+        my_extent_y(0),
+        my_extent_z(0),
+        my_byte_size(0),
         my_data(0)
     {
         resize(dim_x, dim_y, dim_z);
@@ -97,6 +101,9 @@ public:
         my_dim_x(other.my_dim_x),
         my_dim_y(other.my_dim_y),
         my_dim_z(other.my_dim_z),
+        my_extent_x(other.my_extent_x),
+        my_extent_y(other.my_extent_y),
+        my_extent_z(other.my_extent_z),
         my_byte_size(other.byte_size()),
         my_data(ALLOCATOR().allocate(other.byte_size()))
     {
-- 
2.43.0


From 0f64cd6d39090ebf4bb6b0cb7455a8e8035a6264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:00 +0000
Subject: [PATCH 06/21] fix: failing soa_grid::resize() must not leave dangling
 data behind

---
 include/libflatarray/soa_grid.hpp | 35 ++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index c0323fe..db01bb8 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -149,18 +149,30 @@ public:
             return;
         }
 
+        // we need select_sizes to round up our grid size. This will
+        // throw if the size isn't available, hence we must not touch
+        // our current data before:
+        std::size_t new_byte_size;
+        std::size_t new_extent_x;
+        std::size_t new_extent_y;
+        std::size_t new_extent_z;
+        detail::flat_array::set_byte_size_functor<value_type> functor(
+            &new_byte_size,
+            &new_extent_x,
+            &new_extent_y,
+            &new_extent_z);
+        api_traits::select_sizes<value_type>()(my_data, functor, new_dim_x, new_dim_y, new_dim_z);
+
         destroy_and_deallocate();
 
+        my_data = ALLOCATOR().allocate(new_byte_size);
         my_dim_x = new_dim_x;
         my_dim_y = new_dim_y;
         my_dim_z = new_dim_z;
-        // we need callback() to round up our grid size
-        callback(detail::flat_array::set_byte_size_functor<value_type>(
-                     &my_byte_size,
-                     &my_extent_x,
-                     &my_extent_y,
-                     &my_extent_z));
-        my_data = ALLOCATOR().allocate(byte_size());
+        my_extent_x = new_extent_x;
+        my_extent_y = new_extent_y;
+        my_extent_z = new_extent_z;
+        my_byte_size = new_byte_size;
         init();
     }
 
@@ -470,6 +482,15 @@ private:
 
         callback(detail::flat_array::destroy_functor<value_type, USE_CUDA_FUNCTORS>(my_dim_x, my_dim_y, my_dim_z));
         ALLOCATOR().deallocate(my_data, byte_size());
+
+        my_data = 0;
+        my_dim_x = 0;
+        my_dim_y = 0;
+        my_dim_z = 0;
+        my_extent_x = 0;
+        my_extent_y = 0;
+        my_extent_z = 0;
+        my_byte_size = 0;
     }
 
     void copy_in(const soa_grid& other)
-- 
2.43.0


From 06ddc3908012d3c78f3c340d928d06e56aa476d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:00 +0000
Subject: [PATCH 07/21] fix: default-constructed soa_grids must be copyable

---
 include/libflatarray/soa_grid.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index db01bb8..27b0c6f 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -105,8 +105,14 @@ public:
         my_extent_y(other.my_extent_y),
         my_extent_z(other.my_extent_z),
         my_byte_size(other.byte_size()),
-        my_data(ALLOCATOR().allocate(other.byte_size()))
+        my_data(0)
     {
+        // default-constructed grids don't have any data which we could copy
+        if (other.my_data == 0) {
+            return;
+        }
+
+        my_data = ALLOCATOR().allocate(other.byte_size());
         init();
         copy_in(other);
     }
@@ -118,6 +124,11 @@ public:
 
     soa_grid& operator=(const soa_grid& other)
     {
+        if (other.my_data == 0) {
+            destroy_and_deallocate();
+            return *this;
+        }
+
         resize(other.my_dim_x, other.my_dim_y, other.my_dim_z);
         copy_in(other);
         return *this;
-- 
2.43.0


From c29e94ef1d7602e7a0ef48c39bd4d2b14b044e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:51 +0000
Subject: [PATCH 08/21] fix: soa_array c-tor must refuse to exceed its capacity

---
 include/libflatarray/soa_array.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 8a10c38..7fa6a9d 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -62,6 +62,11 @@ public:
     explicit soa_array(std::size_t elements = 0, const value_type& value = value_type()) :
         elements(elements)
     {
+#ifndef __CUDA_ARCH__
+        if (elements > SIZE) {
+            throw std::out_of_range("capacity exceeded");
+        }
+#endif
         construct_all_instances();
         for (soa_accessor<value_type, SIZE, 1, 1, 0> accessor(my_data, 0); accessor.index() < int(elements); accessor += 1) {
             accessor << value;
-- 
2.43.0


From 752da41024a436bbb394febb5d062f836b65762a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:51 +0000
Subject: [PATCH 09/21] fix: soa_array c-tor must not leak members if the other
 array doesn't fit

---
 include/libflatarray/soa_array.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 7fa6a9d..d7406f9 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -78,6 +78,7 @@ public:
     __host__ __device__
     explicit soa_array(soa_array<value_type, OTHER_SIZE>& other)
     {
+        assert_capacity(other.size());
         construct_all_instances();
         copy_in(other);
     }
@@ -88,6 +89,7 @@ public:
     __host__ __device__
     explicit soa_array(const soa_array<value_type, OTHER_SIZE>& other)
     {
+        assert_capacity(other.size());
         construct_all_instances();
         copy_in(other);
     }
@@ -285,14 +287,21 @@ private:
         }
     }
 
-    template<int OTHER_SIZE>
     inline
     __host__ __device__
-    void copy_in(const soa_array<value_type, OTHER_SIZE>& other)
+    void assert_capacity(std::size_t required) const
     {
-        if (other.size() > SIZE) {
+        if (required > SIZE) {
             throw std::out_of_range("insufficient capacity for assignment (other soa_array too large)");
         }
+    }
+
+    template<int OTHER_SIZE>
+    inline
+    __host__ __device__
+    void copy_in(const soa_array<value_type, OTHER_SIZE>& other)
+    {
+        assert_capacity(other.size());
 
         at(0).copy_members(other[0], other.size());
         elements = other.size();
-- 
2.43.0


From 1566860419f0bb2faf641dea5ede56ad3f113306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:51 +0000
Subject: [PATCH 10/21] fix: copies of soa_arrays of equal size must copy
 members, not raw bytes

---
 include/libflatarray/soa_array.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index d7406f9..7ee39b2 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -73,6 +73,15 @@ public:
         }
     }
 
+    // The implicit copy c-tor would only copy our members' raw bytes:
+    inline
+    __host__ __device__
+    soa_array(const soa_array& other)
+    {
+        construct_all_instances();
+        copy_in(other);
+    }
+
     template<int OTHER_SIZE>
     inline
     __host__ __device__
@@ -104,6 +113,14 @@ public:
 
     }
 
+    inline
+    __host__ __device__
+    soa_array& operator=(const soa_array& other)
+    {
+        copy_in(other);
+        return *this;
+    }
+
     template<int OTHER_SIZE>
     inline
     __host__ __device__
-- 
2.43.0


From e0c717b84a9c5a324a9454502482fdd1425d7d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:51 +0000
Subject: [PATCH 11/21] fix: swap() of soa_arrays must exchange members, not
 raw bytes

---
 include/libflatarray/soa_array.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 7ee39b2..baa973e 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -333,9 +333,11 @@ private:
 template<typename value_type, int size>
 void swap(soa_array<value_type, size>& a, soa_array<value_type, size>& b)
 {
-    using std::swap;
-    swap(a.elements, b.elements);
-    swap(a.my_data,  b.my_data);
+    // Members may be arbitrary C++ objects, so we can't just exchange
+    // their raw bytes:
+    soa_array<value_type, size> buf(a);
+    a = b;
+    b = buf;
 }
 
 }
-- 
2.43.0


From 42b7bf8fc2b1e3a2aff17de361a47e5c8745c29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:51 +0000
Subject: [PATCH 12/21] fix: soa_vector::resize() must not revive removed
 elements

---
 include/libflatarray/soa_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index 34877f1..bbbb4f9 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -104,6 +104,10 @@ public:
         if (new_count > capacity()) {
             reserve(new_count);
         }
+        if (new_count > count) {
+            // don't expose leftovers of previously removed elements:
+            grid.broadcast(count, 0, 0, T(), new_count - count);
+        }
 
         count = new_count;
     }
-- 
2.43.0


From d971c22f88587d129de2a01bcecffc1eb50fa6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:51 +0000
Subject: [PATCH 13/21] fix: soa_vector::reserve() must not shrink the storage

---
 include/libflatarray/soa_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index bbbb4f9..0084904 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -116,6 +116,10 @@ public:
     __host__ __device__
     void reserve(std::size_t new_count)
     {
+        if (new_count <= capacity()) {
+            return;
+        }
+
         soa_grid<T, ALLOCATOR, USE_CUDA_FUNCTORS> new_grid(new_count, 1, 1);
         new_grid.resize(new_grid.extent_x(), 1, 1);
 
-- 
2.43.0


From b94704fca67730f0d9a9a9168c4c6ffc077a1131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:51 +0000
Subject: [PATCH 14/21] fix: soa_vector::push_back() must not write beyond its
 capacity

---
 include/libflatarray/soa_vector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index 0084904..0282c4b 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -19,6 +19,7 @@
 #pragma warning( disable : 4514 )
 #endif
 
+#include <algorithm>
 #include <stdexcept>
 
 #ifdef _MSC_BUILD
@@ -150,9 +151,9 @@ public:
     __host__ __device__
     void push_back(const T& element)
     {
-        if (count == grid.extent_x()) {
+        if (count == capacity()) {
             // fixme: make this configurable
-            reserve(static_cast<std::size_t>(count * 1.2));
+            reserve((std::max)(count + 1, static_cast<std::size_t>(count * 1.2)));
         }
         set(count, element);
         ++count;
-- 
2.43.0


From eef823d51e2e94d625ad232f2ff03bb842f424c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:35 +0000
Subject: [PATCH 15/21] fix: int short_vecs must divide exactly and truncate

---
 .../detail/short_vec_avx512_int_16.hpp        |  6 +-
 .../detail/short_vec_avx512_int_32.hpp        | 12 ++--
 .../detail/short_vec_avx_int_16.hpp           | 14 ++---
 .../detail/short_vec_avx_int_32.hpp           | 28 +++------
 .../detail/short_vec_avx_int_8.hpp            |  7 +--
 .../libflatarray/detail/short_vec_helpers.hpp | 63 +++++++++++++++++++
 .../detail/short_vec_sse_int_16.hpp           | 28 +++------
 .../detail/short_vec_sse_int_32.hpp           | 56 +++++------------
 .../detail/short_vec_sse_int_4.hpp            |  7 +--
 .../detail/short_vec_sse_int_8.hpp            | 14 ++---
 10 files changed, 113 insertions(+), 122 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_avx512_int_16.hpp b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
index 3c4c47b..df52cc0 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
@@ -130,8 +130,7 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val),
-                                                _mm512_cvtepi32_ps(other.val)));
+        val = ShortVecHelpers::divide(val, other.val);
     }
 
     inline
@@ -141,8 +140,7 @@ public:
     short_vec<int, 16> operator/(const short_vec<int, 16>& other) const
     {
         return short_vec<int, 16>(
-            _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val),
-                                              _mm512_cvtepi32_ps(other.val))));
+            ShortVecHelpers::divide(val, other.val));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_avx512_int_32.hpp b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
index ee87547..8f60f50 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
@@ -138,10 +138,8 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 0]),
-                                                _mm512_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 1]),
-                                                _mm512_cvtepi32_ps(other.val[ 1])));
+        val[ 0] = ShortVecHelpers::divide(val[ 0], other.val[ 0]);
+        val[ 1] = ShortVecHelpers::divide(val[ 1], other.val[ 1]);
     }
 
     inline
@@ -151,10 +149,8 @@ public:
     short_vec<int, 32> operator/(const short_vec<int, 32>& other) const
     {
         return short_vec<int, 32>(
-            _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 0]),
-                                              _mm512_cvtepi32_ps(other.val[ 0]))),
-            _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 1]),
-                                              _mm512_cvtepi32_ps(other.val[ 1]))));
+            ShortVecHelpers::divide(val[ 0], other.val[ 0]),
+            ShortVecHelpers::divide(val[ 1], other.val[ 1]));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_avx_int_16.hpp b/include/libflatarray/detail/short_vec_avx_int_16.hpp
index e409af1..d80bc18 100644
--- a/include/libflatarray/detail/short_vec_avx_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_16.hpp
@@ -140,10 +140,8 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val[ 0] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
-                                                _mm256_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
-                                                _mm256_cvtepi32_ps(other.val[ 1])));
+        val[ 0] = ShortVecHelpers::divide(val[ 0], other.val[ 0]);
+        val[ 1] = ShortVecHelpers::divide(val[ 1], other.val[ 1]);
     }
 
     inline
@@ -153,12 +151,8 @@ public:
     short_vec<int, 16> operator/(const short_vec<int, 16>& other) const
     {
         return short_vec<int, 16>(
-            _mm256_cvttps_epi32(_mm256_div_ps(
-                                    _mm256_cvtepi32_ps(val[ 0]),
-                                    _mm256_cvtepi32_ps(other.val[ 0]))),
-            _mm256_cvttps_epi32(_mm256_div_ps(
-                                    _mm256_cvtepi32_ps(val[ 1]),
-                                    _mm256_cvtepi32_ps(other.val[ 1]))));
+            ShortVecHelpers::divide(val[ 0], other.val[ 0]),
+            ShortVecHelpers::divide(val[ 1], other.val[ 1]));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_avx_int_32.hpp b/include/libflatarray/detail/short_vec_avx_int_32.hpp
index 2819b04..1ea20fc 100644
--- a/include/libflatarray/detail/short_vec_avx_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_32.hpp
@@ -158,14 +158,10 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
-                                                _mm256_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
-                                                _mm256_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 2]),
-                                                _mm256_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 3]),
-                                                _mm256_cvtepi32_ps(other.val[ 3])));
+        val[ 0] = ShortVecHelpers::divide(val[ 0], other.val[ 0]);
+        val[ 1] = ShortVecHelpers::divide(val[ 1], other.val[ 1]);
+        val[ 2] = ShortVecHelpers::divide(val[ 2], other.val[ 2]);
+        val[ 3] = ShortVecHelpers::divide(val[ 3], other.val[ 3]);
     }
 
     inline
@@ -175,18 +171,10 @@ public:
     short_vec<int, 32> operator/(const short_vec<int, 32>& other) const
     {
         return short_vec<int, 32>(
-            _mm256_cvttps_epi32(_mm256_div_ps(
-                                    _mm256_cvtepi32_ps(val[ 0]),
-                                    _mm256_cvtepi32_ps(other.val[ 0]))),
-            _mm256_cvttps_epi32(_mm256_div_ps(
-                                    _mm256_cvtepi32_ps(val[ 1]),
-                                    _mm256_cvtepi32_ps(other.val[ 1]))),
-            _mm256_cvttps_epi32(_mm256_div_ps(
-                                    _mm256_cvtepi32_ps(val[ 2]),
-                                    _mm256_cvtepi32_ps(other.val[ 2]))),
-            _mm256_cvttps_epi32(_mm256_div_ps(
-                                    _mm256_cvtepi32_ps(val[ 3]),
-                                    _mm256_cvtepi32_ps(other.val[ 3]))));
+            ShortVecHelpers::divide(val[ 0], other.val[ 0]),
+            ShortVecHelpers::divide(val[ 1], other.val[ 1]),
+            ShortVecHelpers::divide(val[ 2], other.val[ 2]),
+            ShortVecHelpers::divide(val[ 3], other.val[ 3]));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_avx_int_8.hpp b/include/libflatarray/detail/short_vec_avx_int_8.hpp
index 91a2918..cafbb0d 100644
--- a/include/libflatarray/detail/short_vec_avx_int_8.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_8.hpp
@@ -132,8 +132,7 @@ public:
     inline
     void operator/=(const short_vec<int, 8>& other)
     {
-        val = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val),
-                                                _mm256_cvtepi32_ps(other.val)));
+        val = ShortVecHelpers::divide(val, other.val);
     }
 
     inline
@@ -143,9 +142,7 @@ public:
     short_vec<int, 8> operator/(const short_vec<int, 8>& other) const
     {
         return short_vec<int, 8>(
-            _mm256_cvttps_epi32(_mm256_div_ps(
-                                    _mm256_cvtepi32_ps(val),
-                                    _mm256_cvtepi32_ps(other.val))));
+            ShortVecHelpers::divide(val, other.val));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_helpers.hpp b/include/libflatarray/detail/short_vec_helpers.hpp
index 0a7ef9a..a1a81e4 100644
--- a/include/libflatarray/detail/short_vec_helpers.hpp
+++ b/include/libflatarray/detail/short_vec_helpers.hpp
@@ -27,10 +27,18 @@
 #define _SHORTVEC_UINTPTR_T unsigned long long
 #endif
 
+#ifdef __SSE__
+#include <emmintrin.h>
+#endif
+
 #ifdef __SSE4_1__
 #include <smmintrin.h>
 #endif
 
+#ifdef __AVX__
+#include <immintrin.h>
+#endif
+
 #ifdef _MSC_BUILD
 #pragma warning( pop )
 #endif
@@ -134,6 +142,61 @@ union ExtractResult {
 
 #endif
 
+/**
+ * There are no instructions for integer division. Floats can't
+ * represent all ints, but doubles can, and truncating their quotient
+ * always yields the exact result.
+ */
+#ifdef __SSE__
+
+inline
+__m128i divide(const __m128i& a, const __m128i& b)
+{
+    __m128i lo = _mm_cvttpd_epi32(
+        _mm_div_pd(_mm_cvtepi32_pd(a), _mm_cvtepi32_pd(b)));
+    __m128i hi = _mm_cvttpd_epi32(
+        _mm_div_pd(_mm_cvtepi32_pd(_mm_unpackhi_epi64(a, a)), _mm_cvtepi32_pd(_mm_unpackhi_epi64(b, b))));
+    return _mm_unpacklo_epi64(lo, hi);
+}
+
+#endif
+
+#ifdef __AVX__
+
+inline
+__m256i divide(const __m256i& a, const __m256i& b)
+{
+    __m128i lo = _mm256_cvttpd_epi32(
+        _mm256_div_pd(
+            _mm256_cvtepi32_pd(_mm256_castsi256_si128(a)),
+            _mm256_cvtepi32_pd(_mm256_castsi256_si128(b))));
+    __m128i hi = _mm256_cvttpd_epi32(
+        _mm256_div_pd(
+            _mm256_cvtepi32_pd(_mm256_extractf128_si256(a, 1)),
+            _mm256_cvtepi32_pd(_mm256_extractf128_si256(b, 1))));
+    return _mm256_insertf128_si256(_mm256_castsi128_si256(lo), hi, 1);
+}
+
+#endif
+
+#ifdef __AVX512F__
+
+inline
+__m512i divide(const __m512i& a, const __m512i& b)
+{
+    __m256i lo = _mm512_cvttpd_epi32(
+        _mm512_div_pd(
+            _mm512_cvtepi32_pd(_mm512_castsi512_si256(a)),
+            _mm512_cvtepi32_pd(_mm512_castsi512_si256(b))));
+    __m256i hi = _mm512_cvttpd_epi32(
+        _mm512_div_pd(
+            _mm512_cvtepi32_pd(_mm512_extracti64x4_epi64(a, 1)),
+            _mm512_cvtepi32_pd(_mm512_extracti64x4_epi64(b, 1))));
+    return _mm512_inserti64x4(_mm512_castsi256_si512(lo), hi, 1);
+}
+
+#endif
+
 }
 
 }
diff --git a/include/libflatarray/detail/short_vec_sse_int_16.hpp b/include/libflatarray/detail/short_vec_sse_int_16.hpp
index 6eb61e3..041418f 100644
--- a/include/libflatarray/detail/short_vec_sse_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_16.hpp
@@ -236,14 +236,10 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val[ 0] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
-                                          _mm_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
-                                          _mm_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
-                                          _mm_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
-                                          _mm_cvtepi32_ps(other.val[ 3])));
+        val[ 0] = ShortVecHelpers::divide(val[ 0], other.val[ 0]);
+        val[ 1] = ShortVecHelpers::divide(val[ 1], other.val[ 1]);
+        val[ 2] = ShortVecHelpers::divide(val[ 2], other.val[ 2]);
+        val[ 3] = ShortVecHelpers::divide(val[ 3], other.val[ 3]);
     }
 
     inline
@@ -253,18 +249,10 @@ public:
     short_vec<int, 16> operator/(const short_vec<int, 16>& other) const
     {
         return short_vec<int, 16>(
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 0]),
-                                 _mm_cvtepi32_ps(other.val[ 0]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 1]),
-                                 _mm_cvtepi32_ps(other.val[ 1]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 2]),
-                                 _mm_cvtepi32_ps(other.val[ 2]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 3]),
-                                 _mm_cvtepi32_ps(other.val[ 3]))));
+            ShortVecHelpers::divide(val[ 0], other.val[ 0]),
+            ShortVecHelpers::divide(val[ 1], other.val[ 1]),
+            ShortVecHelpers::divide(val[ 2], other.val[ 2]),
+            ShortVecHelpers::divide(val[ 3], other.val[ 3]));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_sse_int_32.hpp b/include/libflatarray/detail/short_vec_sse_int_32.hpp
index 6896002..ee7f86c 100644
--- a/include/libflatarray/detail/short_vec_sse_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_32.hpp
@@ -336,22 +336,14 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
-                                          _mm_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
-                                          _mm_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
-                                          _mm_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
-                                          _mm_cvtepi32_ps(other.val[ 3])));
-        val[ 4] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 4]),
-                                          _mm_cvtepi32_ps(other.val[ 4])));
-        val[ 5] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 5]),
-                                          _mm_cvtepi32_ps(other.val[ 5])));
-        val[ 6] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 6]),
-                                          _mm_cvtepi32_ps(other.val[ 6])));
-        val[ 7] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 7]),
-                                          _mm_cvtepi32_ps(other.val[ 7])));
+        val[ 0] = ShortVecHelpers::divide(val[ 0], other.val[ 0]);
+        val[ 1] = ShortVecHelpers::divide(val[ 1], other.val[ 1]);
+        val[ 2] = ShortVecHelpers::divide(val[ 2], other.val[ 2]);
+        val[ 3] = ShortVecHelpers::divide(val[ 3], other.val[ 3]);
+        val[ 4] = ShortVecHelpers::divide(val[ 4], other.val[ 4]);
+        val[ 5] = ShortVecHelpers::divide(val[ 5], other.val[ 5]);
+        val[ 6] = ShortVecHelpers::divide(val[ 6], other.val[ 6]);
+        val[ 7] = ShortVecHelpers::divide(val[ 7], other.val[ 7]);
     }
 
     inline
@@ -361,30 +353,14 @@ public:
     short_vec<int, 32> operator/(const short_vec<int, 32>& other) const
     {
         return short_vec<int, 32>(
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 0]),
-                                 _mm_cvtepi32_ps(other.val[ 0]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 1]),
-                                 _mm_cvtepi32_ps(other.val[ 1]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 2]),
-                                 _mm_cvtepi32_ps(other.val[ 2]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 3]),
-                                 _mm_cvtepi32_ps(other.val[ 3]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 4]),
-                                 _mm_cvtepi32_ps(other.val[ 4]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 5]),
-                                 _mm_cvtepi32_ps(other.val[ 5]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 6]),
-                                 _mm_cvtepi32_ps(other.val[ 6]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 7]),
-                                 _mm_cvtepi32_ps(other.val[ 7]))));
+            ShortVecHelpers::divide(val[ 0], other.val[ 0]),
+            ShortVecHelpers::divide(val[ 1], other.val[ 1]),
+            ShortVecHelpers::divide(val[ 2], other.val[ 2]),
+            ShortVecHelpers::divide(val[ 3], other.val[ 3]),
+            ShortVecHelpers::divide(val[ 4], other.val[ 4]),
+            ShortVecHelpers::divide(val[ 5], other.val[ 5]),
+            ShortVecHelpers::divide(val[ 6], other.val[ 6]),
+            ShortVecHelpers::divide(val[ 7], other.val[ 7]));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_sse_int_4.hpp b/include/libflatarray/detail/short_vec_sse_int_4.hpp
index 80b70d6..17dffb9 100644
--- a/include/libflatarray/detail/short_vec_sse_int_4.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_4.hpp
@@ -165,8 +165,7 @@ public:
     inline
     void operator/=(const short_vec<int, 4>& other)
     {
-        val = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val),
-                                          _mm_cvtepi32_ps(other.val)));
+        val = ShortVecHelpers::divide(val, other.val);
     }
 
     inline
@@ -176,9 +175,7 @@ public:
     short_vec<int, 4> operator/(const short_vec<int, 4>& other) const
     {
         return short_vec<int, 4>(
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val),
-                                 _mm_cvtepi32_ps(other.val))));
+            ShortVecHelpers::divide(val, other.val));
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_sse_int_8.hpp b/include/libflatarray/detail/short_vec_sse_int_8.hpp
index 392ac1b..a965e94 100644
--- a/include/libflatarray/detail/short_vec_sse_int_8.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_8.hpp
@@ -188,10 +188,8 @@ public:
     inline
     void operator/=(const short_vec<int, 8>& other)
     {
-        val[ 0] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
-                                           _mm_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
-                                           _mm_cvtepi32_ps(other.val[ 1])));
+        val[ 0] = ShortVecHelpers::divide(val[ 0], other.val[ 0]);
+        val[ 1] = ShortVecHelpers::divide(val[ 1], other.val[ 1]);
     }
 
     inline
@@ -201,12 +199,8 @@ public:
     short_vec<int, 8> operator/(const short_vec<int, 8>& other) const
     {
         return short_vec<int, 8>(
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 0]),
-                                 _mm_cvtepi32_ps(other.val[ 0]))),
-            _mm_cvttps_epi32(_mm_div_ps(
-                                 _mm_cvtepi32_ps(val[ 1]),
-                                 _mm_cvtepi32_ps(other.val[ 1]))));
+            ShortVecHelpers::divide(val[ 0], other.val[ 0]),
+            ShortVecHelpers::divide(val[ 1], other.val[ 1]));
     }
 
     inline
-- 
2.43.0


From 0d80cc79e66da6836cc575d636f6910a4054f0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:35 +0000
Subject: [PATCH 16/21] fix: square roots of int short_vecs must be rounded
 down

---
 .../detail/short_vec_avx512_int_16.hpp        |  6 +--
 .../detail/short_vec_avx512_int_32.hpp        | 12 ++---
 .../detail/short_vec_avx_int_16.hpp           | 12 ++---
 .../detail/short_vec_avx_int_32.hpp           | 24 ++++------
 .../detail/short_vec_avx_int_8.hpp            |  6 +--
 .../libflatarray/detail/short_vec_helpers.hpp | 27 +++++++++++
 .../detail/short_vec_sse_int_16.hpp           | 24 ++++------
 .../detail/short_vec_sse_int_32.hpp           | 48 +++++++------------
 .../detail/short_vec_sse_int_4.hpp            |  6 +--
 .../detail/short_vec_sse_int_8.hpp            | 12 ++---
 10 files changed, 77 insertions(+), 100 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_avx512_int_16.hpp b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
index df52cc0..6e79e96 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
@@ -150,8 +150,7 @@ public:
     short_vec<int, 16> sqrt() const
     {
         return short_vec<int, 16>(
-            _mm512_cvtps_epi32(
-                _mm512_sqrt_ps(_mm512_cvtepi32_ps(val))));
+            ShortVecHelpers::sqrt(val));
     }
 
     inline
@@ -233,8 +232,7 @@ private:
 inline
 short_vec<int, 16>::short_vec(const sqrt_reference<int, 16>& other) :
     val(
-        _mm512_cvtps_epi32(
-            _mm512_sqrt_ps(_mm512_cvtepi32_ps(other.vec.val))))
+        ShortVecHelpers::sqrt(other.vec.val))
 {}
 
 inline
diff --git a/include/libflatarray/detail/short_vec_avx512_int_32.hpp b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
index 8f60f50..dd23a37 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
@@ -160,10 +160,8 @@ public:
     short_vec<int, 32> sqrt() const
     {
         return short_vec<int, 32>(
-            _mm512_cvtps_epi32(
-                _mm512_sqrt_ps(_mm512_cvtepi32_ps(val[ 0]))),
-            _mm512_cvtps_epi32(
-                _mm512_sqrt_ps(_mm512_cvtepi32_ps(val[ 1]))));
+            ShortVecHelpers::sqrt(val[ 0]),
+            ShortVecHelpers::sqrt(val[ 1]));
     }
 
     inline
@@ -254,10 +252,8 @@ private:
 inline
 short_vec<int, 32>::short_vec(const sqrt_reference<int, 32>& other) :
     val{
-        _mm512_cvtps_epi32(
-            _mm512_sqrt_ps(_mm512_cvtepi32_ps(other.vec.val[ 0]))),
-        _mm512_cvtps_epi32(
-            _mm512_sqrt_ps(_mm512_cvtepi32_ps(other.vec.val[ 1])))
+        ShortVecHelpers::sqrt(other.vec.val[ 0]),
+        ShortVecHelpers::sqrt(other.vec.val[ 1])
             }
 {}
 
diff --git a/include/libflatarray/detail/short_vec_avx_int_16.hpp b/include/libflatarray/detail/short_vec_avx_int_16.hpp
index d80bc18..7452ba1 100644
--- a/include/libflatarray/detail/short_vec_avx_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_16.hpp
@@ -162,10 +162,8 @@ public:
     short_vec<int, 16> sqrt() const
     {
         return short_vec<int, 16>(
-            _mm256_cvtps_epi32(
-                _mm256_sqrt_ps(_mm256_cvtepi32_ps(val[ 0]))),
-            _mm256_cvtps_epi32(
-                _mm256_sqrt_ps(_mm256_cvtepi32_ps(val[ 1]))));
+            ShortVecHelpers::sqrt(val[ 0]),
+            ShortVecHelpers::sqrt(val[ 1]));
     }
 
     inline
@@ -267,10 +265,8 @@ private:
 
 inline
 short_vec<int, 16>::short_vec(const sqrt_reference<int, 16>& other) :
-    val{_mm256_cvtps_epi32(
-            _mm256_sqrt_ps(_mm256_cvtepi32_ps(other.vec.val[ 0]))),
-        _mm256_cvtps_epi32(
-            _mm256_sqrt_ps(_mm256_cvtepi32_ps(other.vec.val[ 1])))}
+    val{ShortVecHelpers::sqrt(other.vec.val[ 0]),
+        ShortVecHelpers::sqrt(other.vec.val[ 1])}
 {}
 
 inline
diff --git a/include/libflatarray/detail/short_vec_avx_int_32.hpp b/include/libflatarray/detail/short_vec_avx_int_32.hpp
index 1ea20fc..1585f18 100644
--- a/include/libflatarray/detail/short_vec_avx_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_32.hpp
@@ -184,14 +184,10 @@ public:
     short_vec<int, 32> sqrt() const
     {
         return short_vec<int, 32>(
-            _mm256_cvtps_epi32(
-                _mm256_sqrt_ps(_mm256_cvtepi32_ps(val[ 0]))),
-            _mm256_cvtps_epi32(
-                _mm256_sqrt_ps(_mm256_cvtepi32_ps(val[ 1]))),
-            _mm256_cvtps_epi32(
-                _mm256_sqrt_ps(_mm256_cvtepi32_ps(val[ 2]))),
-            _mm256_cvtps_epi32(
-                _mm256_sqrt_ps(_mm256_cvtepi32_ps(val[ 3]))));
+            ShortVecHelpers::sqrt(val[ 0]),
+            ShortVecHelpers::sqrt(val[ 1]),
+            ShortVecHelpers::sqrt(val[ 2]),
+            ShortVecHelpers::sqrt(val[ 3]));
     }
 
     inline
@@ -324,14 +320,10 @@ private:
 inline
 short_vec<int, 32>::short_vec(const sqrt_reference<int, 32>& other) :
     val{
-        _mm256_cvtps_epi32(
-            _mm256_sqrt_ps(_mm256_cvtepi32_ps(other.vec.val[ 0]))),
-        _mm256_cvtps_epi32(
-            _mm256_sqrt_ps(_mm256_cvtepi32_ps(other.vec.val[ 1]))),
-        _mm256_cvtps_epi32(
-            _mm256_sqrt_ps(_mm256_cvtepi32_ps(other.vec.val[ 2]))),
-        _mm256_cvtps_epi32(
-            _mm256_sqrt_ps(_mm256_cvtepi32_ps(other.vec.val[ 3])))}
+        ShortVecHelpers::sqrt(other.vec.val[ 0]),
+        ShortVecHelpers::sqrt(other.vec.val[ 1]),
+        ShortVecHelpers::sqrt(other.vec.val[ 2]),
+        ShortVecHelpers::sqrt(other.vec.val[ 3])}
 {}
 
 inline
diff --git a/include/libflatarray/detail/short_vec_avx_int_8.hpp b/include/libflatarray/detail/short_vec_avx_int_8.hpp
index cafbb0d..889a4ad 100644
--- a/include/libflatarray/detail/short_vec_avx_int_8.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_8.hpp
@@ -152,8 +152,7 @@ public:
     short_vec<int, 8> sqrt() const
     {
         return short_vec<int, 8>(
-            _mm256_cvtps_epi32(
-                _mm256_sqrt_ps(_mm256_cvtepi32_ps(val))));
+            ShortVecHelpers::sqrt(val));
     }
 
     inline
@@ -241,8 +240,7 @@ private:
 inline
 short_vec<int, 8>::short_vec(const sqrt_reference<int, 8>& other) :
     val(
-        _mm256_cvtps_epi32(
-            _mm256_sqrt_ps(_mm256_cvtepi32_ps(other.vec.val))))
+        ShortVecHelpers::sqrt(other.vec.val))
 {}
 
 inline
diff --git a/include/libflatarray/detail/short_vec_helpers.hpp b/include/libflatarray/detail/short_vec_helpers.hpp
index a1a81e4..e2295bc 100644
--- a/include/libflatarray/detail/short_vec_helpers.hpp
+++ b/include/libflatarray/detail/short_vec_helpers.hpp
@@ -159,6 +159,17 @@ __m128i divide(const __m128i& a, const __m128i& b)
     return _mm_unpacklo_epi64(lo, hi);
 }
 
+/**
+ * Same for square roots, which are rounded down like for scalar ints.
+ */
+inline
+__m128i sqrt(const __m128i& a)
+{
+    __m128i lo = _mm_cvttpd_epi32(_mm_sqrt_pd(_mm_cvtepi32_pd(a)));
+    __m128i hi = _mm_cvttpd_epi32(_mm_sqrt_pd(_mm_cvtepi32_pd(_mm_unpackhi_epi64(a, a))));
+    return _mm_unpacklo_epi64(lo, hi);
+}
+
 #endif
 
 #ifdef __AVX__
@@ -177,6 +188,14 @@ __m256i divide(const __m256i& a, const __m256i& b)
     return _mm256_insertf128_si256(_mm256_castsi128_si256(lo), hi, 1);
 }
 
+inline
+__m256i sqrt(const __m256i& a)
+{
+    __m128i lo = _mm256_cvttpd_epi32(_mm256_sqrt_pd(_mm256_cvtepi32_pd(_mm256_castsi256_si128(a))));
+    __m128i hi = _mm256_cvttpd_epi32(_mm256_sqrt_pd(_mm256_cvtepi32_pd(_mm256_extractf128_si256(a, 1))));
+    return _mm256_insertf128_si256(_mm256_castsi128_si256(lo), hi, 1);
+}
+
 #endif
 
 #ifdef __AVX512F__
@@ -195,6 +214,14 @@ __m512i divide(const __m512i& a, const __m512i& b)
     return _mm512_inserti64x4(_mm512_castsi256_si512(lo), hi, 1);
 }
 
+inline
+__m512i sqrt(const __m512i& a)
+{
+    __m256i lo = _mm512_cvttpd_epi32(_mm512_sqrt_pd(_mm512_cvtepi32_pd(_mm512_castsi512_si256(a))));
+    __m256i hi = _mm512_cvttpd_epi32(_mm512_sqrt_pd(_mm512_cvtepi32_pd(_mm512_extracti64x4_epi64(a, 1))));
+    return _mm512_inserti64x4(_mm512_castsi256_si512(lo), hi, 1);
+}
+
 #endif
 
 }
diff --git a/include/libflatarray/detail/short_vec_sse_int_16.hpp b/include/libflatarray/detail/short_vec_sse_int_16.hpp
index 041418f..b00880e 100644
--- a/include/libflatarray/detail/short_vec_sse_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_16.hpp
@@ -262,14 +262,10 @@ public:
     short_vec<int, 16> sqrt() const
     {
         return short_vec<int, 16>(
-            _mm_cvtps_epi32(
-                _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 0]))),
-            _mm_cvtps_epi32(
-                _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 1]))),
-            _mm_cvtps_epi32(
-                _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 2]))),
-            _mm_cvtps_epi32(
-                _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 3]))));
+            ShortVecHelpers::sqrt(val[ 0]),
+            ShortVecHelpers::sqrt(val[ 1]),
+            ShortVecHelpers::sqrt(val[ 2]),
+            ShortVecHelpers::sqrt(val[ 3]));
     }
 
     inline
@@ -462,14 +458,10 @@ private:
 
 inline
 short_vec<int, 16>::short_vec(const sqrt_reference<int, 16>& other) :
-    val{_mm_cvtps_epi32(
-            _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 0]))),
-        _mm_cvtps_epi32(
-            _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 1]))),
-        _mm_cvtps_epi32(
-            _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 2]))),
-        _mm_cvtps_epi32(
-            _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 3])))
+    val{ShortVecHelpers::sqrt(other.vec.val[ 0]),
+        ShortVecHelpers::sqrt(other.vec.val[ 1]),
+        ShortVecHelpers::sqrt(other.vec.val[ 2]),
+        ShortVecHelpers::sqrt(other.vec.val[ 3])
         }
 {}
 
diff --git a/include/libflatarray/detail/short_vec_sse_int_32.hpp b/include/libflatarray/detail/short_vec_sse_int_32.hpp
index ee7f86c..4b00620 100644
--- a/include/libflatarray/detail/short_vec_sse_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_32.hpp
@@ -370,22 +370,14 @@ public:
     short_vec<int, 32> sqrt() const
     {
         return short_vec<int, 32>(
-            _mm_cvtps_epi32(
-                _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 0]))),
-            _mm_cvtps_epi32(
-                _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 1]))),
-            _mm_cvtps_epi32(
-                _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 2]))),
-            _mm_cvtps_epi32(
-                _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 3]))),
-            _mm_cvtps_epi32(
-                _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 4]))),
-            _mm_cvtps_epi32(
-                _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 5]))),
-            _mm_cvtps_epi32(
-                _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 6]))),
-            _mm_cvtps_epi32(
-                _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 7]))));
+            ShortVecHelpers::sqrt(val[ 0]),
+            ShortVecHelpers::sqrt(val[ 1]),
+            ShortVecHelpers::sqrt(val[ 2]),
+            ShortVecHelpers::sqrt(val[ 3]),
+            ShortVecHelpers::sqrt(val[ 4]),
+            ShortVecHelpers::sqrt(val[ 5]),
+            ShortVecHelpers::sqrt(val[ 6]),
+            ShortVecHelpers::sqrt(val[ 7]));
     }
 
     inline
@@ -691,22 +683,14 @@ private:
 inline
 short_vec<int, 32>::short_vec(const sqrt_reference<int, 32>& other) :
     val{
-        _mm_cvtps_epi32(
-            _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 0]))),
-        _mm_cvtps_epi32(
-            _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 1]))),
-        _mm_cvtps_epi32(
-            _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 2]))),
-        _mm_cvtps_epi32(
-            _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 3]))),
-        _mm_cvtps_epi32(
-            _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 4]))),
-        _mm_cvtps_epi32(
-            _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 5]))),
-        _mm_cvtps_epi32(
-            _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 6]))),
-        _mm_cvtps_epi32(
-            _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 7])))
+        ShortVecHelpers::sqrt(other.vec.val[ 0]),
+        ShortVecHelpers::sqrt(other.vec.val[ 1]),
+        ShortVecHelpers::sqrt(other.vec.val[ 2]),
+        ShortVecHelpers::sqrt(other.vec.val[ 3]),
+        ShortVecHelpers::sqrt(other.vec.val[ 4]),
+        ShortVecHelpers::sqrt(other.vec.val[ 5]),
+        ShortVecHelpers::sqrt(other.vec.val[ 6]),
+        ShortVecHelpers::sqrt(other.vec.val[ 7])
             }
 {}
 
diff --git a/include/libflatarray/detail/short_vec_sse_int_4.hpp b/include/libflatarray/detail/short_vec_sse_int_4.hpp
index 17dffb9..fd5c912 100644
--- a/include/libflatarray/detail/short_vec_sse_int_4.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_4.hpp
@@ -185,8 +185,7 @@ public:
     short_vec<int, 4> sqrt() const
     {
         return short_vec<int, 4>(
-            _mm_cvtps_epi32(
-                _mm_sqrt_ps(_mm_cvtepi32_ps(val))));
+            ShortVecHelpers::sqrt(val));
     }
 
     inline
@@ -296,8 +295,7 @@ private:
 inline
 short_vec<int, 4>::short_vec(const sqrt_reference<int, 4>& other) :
     val(
-        _mm_cvtps_epi32(
-            _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val))))
+        ShortVecHelpers::sqrt(other.vec.val))
 {}
 
 inline
diff --git a/include/libflatarray/detail/short_vec_sse_int_8.hpp b/include/libflatarray/detail/short_vec_sse_int_8.hpp
index a965e94..89e2d95 100644
--- a/include/libflatarray/detail/short_vec_sse_int_8.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_8.hpp
@@ -210,10 +210,8 @@ public:
     short_vec<int, 8> sqrt() const
     {
         return short_vec<int, 8>(
-            _mm_cvtps_epi32(
-                _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 0]))),
-            _mm_cvtps_epi32(
-                _mm_sqrt_ps(_mm_cvtepi32_ps(val[ 1]))));
+            ShortVecHelpers::sqrt(val[ 0]),
+            ShortVecHelpers::sqrt(val[ 1]));
     }
 
     inline
@@ -350,10 +348,8 @@ private:
 
 inline
 short_vec<int, 8>::short_vec(const sqrt_reference<int, 8>& other) :
-    val{_mm_cvtps_epi32(
-            _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 0]))),
-        _mm_cvtps_epi32(
-            _mm_sqrt_ps(_mm_cvtepi32_ps(other.vec.val[ 1])))}
+    val{ShortVecHelpers::sqrt(other.vec.val[ 0]),
+        ShortVecHelpers::sqrt(other.vec.val[ 1])}
 {}
 
 inline
-- 
2.43.0


From bf9f873d98784a9b9237ddd05f750be3ffc0f716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:39 +0000
Subject: [PATCH 17/21] fix: float gathers must accept negative offsets

The int offset was passed to insertps in the lower half of a 64-bit
register; gathering with a negative offset read from a wild address.
---
 include/libflatarray/detail/short_vec_helpers.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_helpers.hpp b/include/libflatarray/detail/short_vec_helpers.hpp
index e2295bc..78e4121 100644
--- a/include/libflatarray/detail/short_vec_helpers.hpp
+++ b/include/libflatarray/detail/short_vec_helpers.hpp
@@ -18,6 +18,7 @@
 #endif
 
 #include <cassert>
+#include <cstddef>
 
 // uintptr_t is only available through C++11
 #ifdef LIBFLATARRAY_WITH_CPP14
@@ -101,7 +102,7 @@
 #define SHORTVEC_INSERT_PS(a, base, offset, idx)                        \
     do {                                                                \
         asm volatile ("insertps %1, (%q2, %q3, 4), %0\n"                \
-                      : "+x" (a) : "N" (idx), "r" (base), "r" (offset) : "memory"); \
+                      : "+x" (a) : "N" (idx), "r" (base), "r" (static_cast<std::ptrdiff_t>(offset)) : "memory"); \
     } while (0)
 
 #endif
@@ -120,7 +121,7 @@
 #define SHORTVEC_INSERT_PS_AVX(a, base, offset, idx)                    \
     do {                                                                \
         asm volatile ("vinsertps %1, (%q2, %q3, 4), %0, %0\n"           \
-                      : "+x" (a) : "N" (idx), "r" (base), "r" (offset) : "memory"); \
+                      : "+x" (a) : "N" (idx), "r" (base), "r" (static_cast<std::ptrdiff_t>(offset)) : "memory"); \
     } while (0)
 
 #endif
-- 
2.43.0


From c78d4950539dba89709121e9799f299288b9dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:30 +0000
Subject: [PATCH 18/21] fix: concurrent readers of a grid must not share a
 staging pointer

soa_grid's const get() and save() stored the address of their target in
the grid's staging buffer and read it back, so two threads reading from
(or setting different cells of) the same grid could overwrite each
other's pointer. Hand the pointer through instead.
---
 .../libflatarray/detail/staging_buffer.hpp    | 39 +++++--------------
 include/libflatarray/soa_grid.hpp             | 36 ++++++++---------
 2 files changed, 28 insertions(+), 47 deletions(-)

diff --git a/include/libflatarray/detail/staging_buffer.hpp b/include/libflatarray/detail/staging_buffer.hpp
index 4407fcf..f404dab 100644
--- a/include/libflatarray/detail/staging_buffer.hpp
+++ b/include/libflatarray/detail/staging_buffer.hpp
@@ -20,7 +20,9 @@ namespace flat_array {
  * Dummy class which presents the same interface as cuda_array,
  * but won't actually buffer the data. Instead the pointers are
  * forwarded directly so no additional copies of the data need to
- * be made.
+ * be made. load() and prep() return the pointer to be used by
+ * functors. No state is kept, so that multiple threads may access a
+ * grid simultaneously.
  */
 template<typename CELL, bool ENABLE_CUDA = false>
 class staging_buffer
@@ -31,9 +33,9 @@ public:
         // intentionally left blank
     }
 
-    void load(const CELL *new_data)
+    const CELL *load(const CELL *new_data)
     {
-        data_pointer = const_cast<CELL*>(new_data);
+        return new_data;
     }
 
     void save(CELL* /* new_data */) const
@@ -41,22 +43,10 @@ public:
         // intentionally left blank
     }
 
-    const CELL *data() const
+    CELL *prep(CELL *new_data)
     {
-        return data_pointer;
+        return new_data;
     }
-
-    CELL *data()
-    {
-        return data_pointer;
-    }
-
-    void prep(CELL *new_data)
-    {
-        data_pointer = new_data;
-    }
-private:
-    CELL *data_pointer;
 };
 
 #ifdef __CUDACC__
@@ -70,9 +60,10 @@ public:
         delegate.resize(n);
     }
 
-    void load(const CELL *new_data)
+    const CELL *load(const CELL *new_data)
     {
         delegate.load(new_data);
+        return delegate.data();
     }
 
     void save(CELL *new_data) const
@@ -80,21 +71,11 @@ public:
         delegate.save(new_data);
     }
 
-    const CELL *data() const
+    CELL *prep(CELL* /* new_data */)
     {
         return delegate.data();
     }
 
-    CELL *data()
-    {
-        return delegate.data();
-    }
-
-    void prep(CELL* /* new_data */)
-    {
-        // intentionally left blank
-    }
-
 private:
     cuda_array<CELL> delegate;
 };
diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 27b0c6f..2f38f8e 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -217,10 +217,10 @@ public:
     void set(std::size_t x, std::size_t y, std::size_t z, const value_type& cell)
     {
         cell_staging_buffer.resize(1);
-        cell_staging_buffer.load(&cell);
+        const value_type *buffer = cell_staging_buffer.load(&cell);
 
         callback(detail::flat_array::set_instance_functor<value_type, 1, USE_CUDA_FUNCTORS>(
-                     cell_staging_buffer.data(),
+                     buffer,
                      x,
                      y,
                      z,
@@ -230,10 +230,10 @@ public:
     void set(std::size_t x, std::size_t y, std::size_t z, const value_type *cells, std::size_t count)
     {
         cell_staging_buffer.resize(count);
-        cell_staging_buffer.load(cells);
+        const value_type *buffer = cell_staging_buffer.load(cells);
 
         callback(detail::flat_array::set_instance_functor<value_type, 1, USE_CUDA_FUNCTORS>(
-                     cell_staging_buffer.data(),
+                     buffer,
                      x,
                      y,
                      z,
@@ -245,10 +245,10 @@ public:
     {
         value_type cell;
         const_cast<cell_staging_buffer_type&>(cell_staging_buffer).resize(1);
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(&cell);
+        value_type *buffer = const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(&cell);
 
         callback(detail::flat_array::get_instance_functor<value_type, USE_CUDA_FUNCTORS>(
-                     const_cast<cell_staging_buffer_type&>(cell_staging_buffer).data(),
+                     buffer,
                      x,
                      y,
                      z,
@@ -261,10 +261,10 @@ public:
     void get(std::size_t x, std::size_t y, std::size_t z, value_type *cells, std::size_t count) const
     {
         const_cast<cell_staging_buffer_type&>(cell_staging_buffer).resize(count);
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(cells);
+        value_type *buffer = const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(cells);
 
         callback(detail::flat_array::get_instance_functor<value_type, USE_CUDA_FUNCTORS>(
-                     const_cast<cell_staging_buffer_type&>(cell_staging_buffer).data(),
+                     buffer,
                      x,
                      y,
                      z,
@@ -279,10 +279,10 @@ public:
     void broadcast(std::size_t x, std::size_t y, std::size_t z, const value_type& cell, std::size_t count)
     {
         cell_staging_buffer.resize(1);
-        cell_staging_buffer.load(&cell);
+        const value_type *buffer = cell_staging_buffer.load(&cell);
 
         callback(detail::flat_array::set_instance_functor<value_type, 0, USE_CUDA_FUNCTORS>(
-                     cell_staging_buffer.data(),
+                     buffer,
                      x,
                      y,
                      z,
@@ -302,12 +302,12 @@ public:
         };
 
         raw_staging_buffer.resize(count * aggregated_member_size<value_type>::VALUE);
-        raw_staging_buffer.load(source);
+        const char *buffer = raw_staging_buffer.load(source);
 
         callback(detail::flat_array::load_functor<value_type, detail::flat_array::simple_streak*, USE_CUDA_FUNCTORS>(
                      iter,
                      iter + 1,
-                     raw_staging_buffer.data(),
+                     buffer,
                      count));
     }
 
@@ -319,12 +319,12 @@ public:
         std::size_t count)
     {
         raw_staging_buffer.resize(count * aggregated_member_size<value_type>::VALUE);
-        raw_staging_buffer.load(source);
+        const char *buffer = raw_staging_buffer.load(source);
 
         callback(detail::flat_array::load_functor<value_type, ITERATOR, USE_CUDA_FUNCTORS>(
                      begin,
                      end,
-                     raw_staging_buffer.data(),
+                     buffer,
                      count));
     }
 
@@ -343,12 +343,12 @@ public:
         const_cast<char_staging_buffer_type&>(raw_staging_buffer).resize(
             count *
             aggregated_member_size<value_type>::VALUE);
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
+        char *buffer = const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
 
         callback(detail::flat_array::save_functor<value_type, detail::flat_array::simple_streak*, USE_CUDA_FUNCTORS>(
                      iter,
                      iter + 1,
-                     const_cast<char_staging_buffer_type&>(raw_staging_buffer).data(),
+                     buffer,
                      count));
 
         raw_staging_buffer.save(target);
@@ -364,12 +364,12 @@ public:
         const_cast<char_staging_buffer_type&>(raw_staging_buffer).resize(
             count *
             aggregated_member_size<value_type>::VALUE);
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
+        char *buffer = const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
 
         callback(detail::flat_array::save_functor<value_type, ITERATOR, USE_CUDA_FUNCTORS>(
                      begin,
                      end,
-                     const_cast<char_staging_buffer_type&>(raw_staging_buffer).data(),
+                     buffer,
                      count));
 
         raw_staging_buffer.save(target);
-- 
2.43.0


From fd32094c223ddc2c3ef5a6e03705204629dddcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:13 +0000
Subject: [PATCH 19/21] fix: soa_array::load() must refuse counts which wrap
 around

---
 include/libflatarray/soa_array.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index baa973e..d035faf 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -209,11 +209,12 @@ public:
     __host__ __device__
     void load(const soa_accessor<value_type, OTHER_SIZE, 1, 1, 0>& accessor, std::size_t num, std::size_t offset)
     {
-        using std::max;
-        std::size_t new_elements = max(elements, num + offset);
-        if (new_elements > SIZE) {
+        // written so that huge counts can't wrap around:
+        if ((offset > SIZE) || (num > (SIZE - offset))) {
             throw std::out_of_range("insufficient capacity for assignment (other soa_array too large)");
         }
+        using std::max;
+        std::size_t new_elements = max(elements, num + offset);
 
         at(offset).load(accessor.data(), num, std::size_t(accessor.index()), std::size_t(OTHER_SIZE));
         elements = new_elements;
-- 
2.43.0


From 844c6f12e9ffdfad7d06a3875ebe79cf560e349b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:10 +0000
Subject: [PATCH 20/21] fix: broadcasts to device grids must set all cells

---
 include/libflatarray/detail/set_instance_functor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/set_instance_functor.hpp b/include/libflatarray/detail/set_instance_functor.hpp
index 4f07681..1a34785 100644
--- a/include/libflatarray/detail/set_instance_functor.hpp
+++ b/include/libflatarray/detail/set_instance_functor.hpp
@@ -79,7 +79,7 @@ template<typename CELL, long SOURCE_STRIDE, long DIM_X, long DIM_Y, long DIM_Z,
 __global__
 void set_kernel(const CELL *source, char *target, long count, long x, long y, long z)
 {
-    long offset = (blockDim.x * blockIdx.x + threadIdx.x) * SOURCE_STRIDE;
+    long offset = blockDim.x * blockIdx.x + threadIdx.x;
     if (offset >= count) {
         return;
     }
@@ -89,7 +89,7 @@ void set_kernel(const CELL *source, char *target, long count, long x, long y, lo
     long index = accessor_type::gen_index(x + offset, y, z);
     accessor_type accessor(target, index);
 
-    accessor << source[offset];
+    accessor << source[offset * SOURCE_STRIDE];
 }
 
 /**
-- 
2.43.0


From 111b6ebf9391116418a56019b892a493a2a13c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:10 +0000
Subject: [PATCH 21/21] fix: light accessors must compare cells, not addresses
 of indices

---
 include/libflatarray/macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/macros.hpp b/include/libflatarray/macros.hpp
index 43d73d8..8aa6eba 100644
--- a/include/libflatarray/macros.hpp
+++ b/include/libflatarray/macros.hpp
@@ -587,7 +587,7 @@
         {                                                               \
             return                                                      \
                 (my_data == other.my_data) &&                           \
-                (my_index == other.my_index);                           \
+                (*my_index == *other.my_index);                         \
         }                                                               \
                                                                         \
         template<typename SOA_ACCESSOR>                                 \
@@ -838,7 +838,7 @@
         {                                                               \
             return                                                      \
                 (my_data == other.my_data) &&                           \
-                (my_index == other.my_index);                           \
+                (*my_index == *other.my_index);                         \
         }                                                               \
                                                                         \
         template<typename SOA_ACCESSOR>                                 \
-- 
2.43.0

