From 94d2e577cfaea15043ea658338e345b50afc1099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:40 +0000
Subject: [PATCH 01/29] fix: portable meta_block::count_available was defined
 twice and undefined for fully available blocks

---
 tpp/detail/swiss_table.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 31d412d..08785da 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -322,12 +322,8 @@ namespace tpp::_detail
 	std::size_t meta_block::count_available() const noexcept
 	{
 		constexpr std::uint64_t lsb_mask = 0x0101010101010101;
-		return ctz((value | ~(value >> 7)) & lsb_mask) >> 3;
-	}
-	std::size_t meta_block::count_available() const noexcept
-	{
-		constexpr std::uint64_t lsb_mask = 0x0101010101010101;
-		return ctz((value | ~(value >> 7)) & lsb_mask) >> 3;
+		const auto mask = (value | ~(value >> 7)) & lsb_mask;
+		return mask ? ctz(mask) >> 3 : sizeof(block_value);
 	}
 	meta_block meta_block::reset_occupied() const noexcept
 	{
-- 
2.43.0


From 5fbc2e3f5c48cdbc5dd60f3f80c7faff312b83ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:42 +0000
Subject: [PATCH 02/29] fix: buffers are deallocated only if they were
 allocated, and with the size they were allocated with

---
 tpp/detail/dense_table.hpp |  8 ++++----
 tpp/detail/swiss_table.hpp | 38 ++++++++++++++++----------------------
 2 files changed, 20 insertions(+), 26 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 6e3b685..378db24 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -260,12 +260,12 @@ namespace tpp::_detail
 
 				if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_copy_assignment::value)
 				{
-					std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
+					if (m_sparse) std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
 					sparse_alloc_base::operator=(other);
 				}
 				if constexpr (std::allocator_traits<dense_allocator>::propagate_on_container_copy_assignment::value)
 				{
-					std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
+					if (m_dense) std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
 					dense_alloc_base::operator=(other);
 				}
 
@@ -286,12 +286,12 @@ namespace tpp::_detail
 
 				if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_move_assignment::value)
 				{
-					std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
+					if (m_sparse) std::allocator_traits<sparse_allocator>::deallocate(sparse_alloc(), std::exchange(m_sparse, sparse_ptr{}), std::exchange(m_sparse_size, 0));
 					sparse_alloc_base::operator=(std::move(other));
 				}
 				if constexpr (std::allocator_traits<dense_allocator>::propagate_on_container_move_assignment::value)
 				{
-					std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
+					if (m_dense) std::allocator_traits<dense_allocator>::deallocate(dense_alloc(), std::exchange(m_dense, dense_ptr{}), std::exchange(m_dense_capacity, 0));
 					dense_alloc_base::operator=(std::move(other));
 				}
 
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 08785da..10d324e 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -473,12 +473,12 @@ namespace tpp::_detail
 		{
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_copy_assignment::value)
 			{
-				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), capacity + sizeof(meta_block));
+				if (m_metadata) std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), capacity + sizeof(meta_block));
 				meta_alloc_base::operator=(other);
 			}
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_copy_assignment::value)
 			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), std::exchange(m_nodes, node_ptr{}), capacity);
+				if (m_nodes) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), std::exchange(m_nodes, node_ptr{}), capacity);
 				node_alloc_base::operator=(other);
 			}
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_copy_assignment::value || std::allocator_traits<NodeAlloc>::propagate_on_container_copy_assignment::value)
@@ -489,12 +489,12 @@ namespace tpp::_detail
 		{
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_move_assignment::value)
 			{
-				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), capacity + sizeof(meta_block));
+				if (m_metadata) std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), std::exchange(m_metadata, meta_ptr{}), capacity + sizeof(meta_block));
 				meta_alloc_base::operator=(other);
 			}
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value)
 			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), std::exchange(m_nodes, node_ptr{}), capacity);
+				if (m_nodes) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), std::exchange(m_nodes, node_ptr{}), capacity);
 				node_alloc_base::operator=(other);
 			}
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_move_assignment::value || std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value)
@@ -537,12 +537,9 @@ namespace tpp::_detail
 				throw;
 			}
 
-			if (capacity != 0)
-			{
-				relocate(tmp_metadata, tmp_nodes, n);
-				std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), tmp_metadata, n + sizeof(meta_block));
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), tmp_nodes, n);
-			}
+			relocate(tmp_metadata, tmp_nodes, n);
+			if (tmp_metadata) std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), tmp_metadata, n + sizeof(meta_block));
+			if (tmp_nodes) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), tmp_nodes, n);
 		}
 
 		void allocate(size_type n)
@@ -555,11 +552,8 @@ namespace tpp::_detail
 		{
 			if (capacity < n)
 			{
-				if (capacity != 0)
-				{
-					std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), m_metadata, capacity + sizeof(meta_block));
-					std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), m_nodes, capacity);
-				}
+				if (m_metadata) std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), m_metadata, capacity + sizeof(meta_block));
+				if (m_nodes) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), m_nodes, capacity);
 				m_metadata = std::allocator_traits<MetaAlloc>::allocate(meta_alloc(), n + sizeof(meta_block));
 				m_nodes = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), n);
 				capacity = n;
@@ -567,8 +561,8 @@ namespace tpp::_detail
 		}
 		void deallocate()
 		{
-			std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), m_metadata, capacity + sizeof(meta_block));
-			std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), m_nodes, capacity);
+			if (m_metadata) std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), m_metadata, capacity + sizeof(meta_block));
+			if (m_nodes) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), m_nodes, capacity);
 			m_metadata = {};
 			m_nodes = {};
 			capacity = 0;
@@ -641,7 +635,7 @@ namespace tpp::_detail
 		{
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_copy_assignment::value)
 			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), capacity);
+				if (m_data) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
 				empty_base<NodeAlloc>::operator=(other);
 				capacity = 0;
 				m_data = {};
@@ -652,7 +646,7 @@ namespace tpp::_detail
 		{
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_move_assignment::value)
 			{
-				std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), capacity);
+				if (m_data) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
 				empty_base<NodeAlloc>::operator=(other);
 				capacity = 0;
 				m_data = {};
@@ -685,7 +679,7 @@ namespace tpp::_detail
 			std::swap(n, capacity);
 
 			relocate(old_meta, old_nodes, n);
-			std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(tmp_data), buffer_size(n));
+			if (tmp_data) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(tmp_data), buffer_size(n));
 		}
 
 		void allocate(size_type n)
@@ -697,14 +691,14 @@ namespace tpp::_detail
 		{
 			if (capacity < n)
 			{
-				if (capacity) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
+				if (m_data) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
 				m_data = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), buffer_size(n));
 				capacity = n;
 			}
 		}
 		void deallocate()
 		{
-			std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
+			if (m_data) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
 			capacity = 0;
 			m_data = {};
 		}
-- 
2.43.0


From e029153dfd3c30a4ce4c9bee831bdb5c1ac291b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:49 +0000
Subject: [PATCH 03/29] fix: include the standard algorithms the containers
 use, also in release builds

---
 tpp/detail/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/utility.hpp b/tpp/detail/utility.hpp
index 83beb0f..8cf8f01 100644
--- a/tpp/detail/utility.hpp
+++ b/tpp/detail/utility.hpp
@@ -4,6 +4,8 @@
 
 #pragma once
 
+#include <algorithm>
+#include <iterator>
 #include <cstring>
 #include <memory>
 #include <array>
@@ -16,8 +18,6 @@
 
 #if defined(TPP_DEBUG)
 
-#include <algorithm>
-#include <iterator>
 #include <cstdlib>
 #include <cstdio>
 
-- 
2.43.0


From 1c0ec547f01bae1aa9b9941bd39ccd849d17e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:49 +0000
Subject: [PATCH 04/29] fix: slots are copied by position, so a reused swiss
 buffer must have the capacity of the source

---
 tpp/detail/swiss_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 10d324e..784b8ce 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -550,7 +550,7 @@ namespace tpp::_detail
 		}
 		void reallocate(size_type n)
 		{
-			if (capacity < n)
+			if (capacity != n)
 			{
 				if (m_metadata) std::allocator_traits<MetaAlloc>::deallocate(meta_alloc(), m_metadata, capacity + sizeof(meta_block));
 				if (m_nodes) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), m_nodes, capacity);
@@ -689,7 +689,7 @@ namespace tpp::_detail
 		}
 		void reallocate(size_type n)
 		{
-			if (capacity < n)
+			if (capacity != n)
 			{
 				if (m_data) std::allocator_traits<NodeAlloc>::deallocate(node_alloc(), static_cast<node_ptr>(m_data), buffer_size(capacity));
 				m_data = std::allocator_traits<NodeAlloc>::allocate(node_alloc(), buffer_size(n));
-- 
2.43.0


From 08386f5afef52f610f0860412aa93571eae4648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 05/29] fix: assignment from an empty swiss table or handing
 over used buffers left stale metadata

---
 tpp/detail/swiss_table.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 784b8ce..9d10a28 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -867,6 +867,7 @@ namespace tpp::_detail
 
 				erase_nodes();
 				m_buffer = std::move(other.m_buffer);
+				reset_empty(); /* `other` may take over the buffers. */
 				move_from(other);
 			}
 			return *this;
@@ -1443,7 +1444,7 @@ namespace tpp::_detail
 			/* Ignore empty tables. */
 			TPP_IF_UNLIKELY(other.m_size == 0)
 			{
-				m_num_empty = m_buffer.capacity ? capacity_to_max_size(m_buffer.capacity) : 0;
+				reset_empty();
 				return;
 			}
 
@@ -1482,7 +1483,7 @@ namespace tpp::_detail
 			TPP_IF_UNLIKELY(other.m_size == 0)
 			{
 				m_size = 0;
-				m_num_empty = m_buffer.capacity ? capacity_to_max_size(m_buffer.capacity) : 0;
+				reset_empty();
 				return;
 			}
 
@@ -1518,6 +1519,12 @@ namespace tpp::_detail
 				if (is_occupied(metadata[i])) nodes[i].destroy(alloc);
 			m_size = 0;
 		}
+		/* Resets metadata of a table without any elements. */
+		void reset_empty() noexcept
+		{
+			if (m_buffer.capacity != 0) m_buffer.fill_empty();
+			m_num_empty = capacity_to_max_size(m_buffer.capacity);
+		}
 		void swap_buffers(swiss_table &other)
 		{
 			std::swap(m_size, other.m_size);
-- 
2.43.0


From 56303f24fe5c0f295b35ef8a21d58886f747aea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 06/29] fix: swiss_table::rehash must keep room for the
 elements already stored

---
 tpp/detail/swiss_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 9d10a28..774609c 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1117,7 +1117,7 @@ namespace tpp::_detail
 			/* Skip rehash if table is empty and requested size is 0. */
 			TPP_IF_UNLIKELY(!n && !m_size) return;
 
-			const auto new_cap = align_capacity(n | size_to_min_capacity(n));
+			const auto new_cap = align_capacity(n | size_to_min_capacity(m_size));
 			if (!n || new_cap > m_buffer.capacity) do_rehash(new_cap);
 		}
 
-- 
2.43.0


From 9f7c5d967dff2f887011792e83f7e9d20af13acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 07/29] fix: swiss tables can be constructed with any bucket
 count

---
 tpp/detail/swiss_table.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 774609c..11f5754 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -826,10 +826,9 @@ namespace tpp::_detail
 		swiss_table() = default;
 
 		swiss_table(const allocator_type &alloc) : m_buffer(alloc) {}
-		swiss_table(size_type n, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : hash_base(hash), cmp_base(cmp), m_buffer(n, alloc)
+		swiss_table(size_type n, const hasher &hash, const key_equal &cmp, const allocator_type &alloc) : hash_base(hash), cmp_base(cmp), m_buffer(n ? align_capacity(n) : 0, alloc)
 		{
-			TPP_ASSERT(((n + 1) & n) == 0, "Capacity must be a power of 2 - 1");
-			m_num_empty = capacity_to_max_size(n);
+			m_num_empty = capacity_to_max_size(m_buffer.capacity);
 		}
 
 		template<typename Iter>
-- 
2.43.0


From 9eacd4c6509fad75b3ad993b150efa07d1138f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:40 +0000
Subject: [PATCH 08/29] fix: swapping ordered links must relink their
 neighbours and handle empty and adjacent links

---
 tpp/detail/table_common.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 20b3e50..1229f52 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -164,16 +164,12 @@ namespace tpp::_detail
 
 		void swap(ordered_link &other) noexcept
 		{
-			std::swap(next, other.next);
-			std::swap(prev, other.prev);
-		}
-		friend void swap(ordered_link &a, ordered_link &b) noexcept
-		{
-			auto a_next = a.off(a.next), b_next = b.off(b.next);
-			auto a_prev = a.off(a.prev), b_prev = b.off(b.prev);
-			a.link(b_next, b_prev);
-			b.link(a_next, a_prev);
+			/* Offsets are relative, and either link may be empty or adjacent to the other. */
+			auto tmp = ordered_link{std::move(other)};
+			other.relink_from(*this);
+			relink_from(tmp);
 		}
+		friend void swap(ordered_link &a, ordered_link &b) noexcept { a.swap(b); }
 
 		/* Offsets from `this` to next & previous links in bytes. */
 		std::ptrdiff_t next = 0; /* next_ptr - this */
-- 
2.43.0


From 2c568cb1843e30d9ba5f731cd8236b4c0c18c1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:40 +0000
Subject: [PATCH 09/29] fix: merge of ordered stable tables skipped the first
 element and reversed the order

---
 tpp/detail/swiss_table.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 11f5754..60de74e 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1089,17 +1089,14 @@ namespace tpp::_detail
 			reserve(m_size + other.size());
 
 			/* Extract nodes from other and insert into this. */
-			/* Iterate backwards for ordered links, since the ordered iterators are invalidated on erase. */
 			const auto transfer = [&](const const_iterator &pos) noexcept
 			{
 				const auto &key = ValueTraits::get_key(*pos);
 				const auto h = hash(key);
 				if (find_node(key, h) == m_buffer.capacity) emplace_node({}, h, other.extract(pos));
 			};
-			if constexpr (!is_ordered::value)
-				for (auto pos = other.begin(), last = other.end(); pos != last; ++pos) transfer(pos);
-			else
-				for (auto pos = other.end(), last = other.begin(); --pos != last;) transfer(pos);
+			/* Advance before the transfer, since ordered iterators are invalidated on erase. */
+			for (auto pos = other.begin(), last = other.end(); pos != last;) transfer(pos++);
 		}
 		template<typename Kh2, typename Kc2>
 		void merge(swiss_table<I, V, K, Kh2, Kc2, Alloc, ValueTraits> &&other) { merge(other); }
-- 
2.43.0


From ae317cd5247c71219480d72fa9ca7538cfcb494c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:40 +0000
Subject: [PATCH 10/29] fix: swiss_table::erase(first, last) did not compile
 for forward iterators

---
 tpp/detail/swiss_table.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 60de74e..64cf703 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1059,9 +1059,8 @@ namespace tpp::_detail
 		}
 		iterator erase(const_iterator first, const_iterator last)
 		{
-			iterator result = end();
-			while (last != first) result = erase(--last);
-			return result;
+			while (first != last) first = erase(first);
+			return iterator{to_underlying(last)};
 		}
 
 		template<typename T, typename = std::enable_if_t<!std::is_convertible_v<T, const_iterator>>>
-- 
2.43.0


From 561865ca3c103211ca5373b38f16c8567077e66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:40 +0000
Subject: [PATCH 11/29] fix: swiss_table::swap must swap propagating allocators
 along with the buffers

---
 tpp/detail/swiss_table.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 64cf703..bb2d5f8 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -582,6 +582,7 @@ namespace tpp::_detail
 		}
 		void swap(swiss_table_buffer &other) noexcept(std::is_nothrow_swappable_v<MetaAlloc> && std::is_nothrow_swappable_v<NodeAlloc>)
 		{
+			using std::swap;
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_swap::value)
 				swap(meta_alloc(), other.meta_alloc());
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value)
@@ -716,6 +717,7 @@ namespace tpp::_detail
 		}
 		void swap(swiss_table_buffer &other) noexcept(std::is_nothrow_swappable_v<NodeAlloc>)
 		{
+			using std::swap;
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value)
 				swap(node_alloc(), other.node_alloc());
 			swap_data(other);
@@ -1128,7 +1130,10 @@ namespace tpp::_detail
 			link_base::swap(other);
 			hash_base::swap(other);
 			cmp_base::swap(other);
-			swap_buffers(other);
+
+			std::swap(m_size, other.m_size);
+			std::swap(m_num_empty, other.m_num_empty);
+			m_buffer.swap(other.m_buffer);
 		}
 
 	private:
-- 
2.43.0


From 6426f049fca5f43a403db22ff2b7f8e72d5fc2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:40 +0000
Subject: [PATCH 12/29] fix: a node handle consumed by a table with an unequal
 allocator was destroyed twice

---
 tpp/detail/table_common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 1229f52..bd915d0 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -376,7 +376,7 @@ namespace tpp::_detail
 				if (m_ptr)
 				{
 					std::allocator_traits<allocator_type>::destroy(alloc(), m_ptr);
-					std::allocator_traits<allocator_type>::deallocate(alloc(), m_ptr, 1);
+					std::allocator_traits<allocator_type>::deallocate(alloc(), std::exchange(m_ptr, value_ptr{}), 1);
 				}
 			}
 
-- 
2.43.0


From 11d9d16e530cb5dd67682e44f605577daef32a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:40 +0000
Subject: [PATCH 13/29] fix: hinted node insertion, emplace_hint and
 emplace_or_replace did not compile

---
 tpp/detail/dense_table.hpp |  4 ++--
 tpp/detail/swiss_table.hpp | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 378db24..1ef6b50 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -401,7 +401,7 @@ namespace tpp::_detail
 		template<typename... Args>
 		std::pair<iterator, bool> emplace(Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace({}, std::forward<Args>(args)...); }
 		template<typename... Args>
-		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...); }
+		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...).first; }
 
 		template<typename U, typename... Args>
 		std::pair<iterator, bool> emplace_or_replace(U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
@@ -411,7 +411,7 @@ namespace tpp::_detail
 		template<typename U, typename... Args>
 		iterator emplace_or_replace(const_iterator hint, U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
 		{
-			return do_insert_or_assign(hint, std::forward<U>(key), std::forward<Args>(args)...);
+			return do_insert_or_assign(to_underlying(hint), std::forward<U>(key), std::forward<Args>(args)...).first;
 		}
 
 		template<typename... Ks, typename... Args>
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index bb2d5f8..9c13be6 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -965,7 +965,7 @@ namespace tpp::_detail
 		{
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
-				return emplace_node(hint, h, std::forward<N>(node));
+				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
 			else
 				return to_iter(target_pos);
 		}
@@ -999,11 +999,11 @@ namespace tpp::_detail
 			}
 		}
 		template<typename N>
-		iterator insert_or_assign_node(node_iterator hint, N &&node)
+		iterator insert_or_assign_node(const_iterator hint, N &&node)
 		{
 			const auto h = hash(node.key());
 			if (auto target_pos = find_node(node.key(), h); target_pos == m_buffer.capacity)
-				return emplace_node(hint, h, std::forward<N>(node));
+				return emplace_node(to_underlying(hint), h, std::forward<N>(node));
 			else
 			{
 				auto alloc = value_allocator{get_allocator()};
@@ -1017,7 +1017,7 @@ namespace tpp::_detail
 		template<typename... Args>
 		std::pair<iterator, bool> emplace(Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace({}, std::forward<Args>(args)...); }
 		template<typename... Args>
-		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...); }
+		iterator emplace_hint(const_iterator hint, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, Args...>)) { return do_emplace(to_underlying(hint), std::forward<Args>(args)...).first; }
 
 		template<typename U, typename... Args>
 		std::pair<iterator, bool> emplace_or_replace(U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
@@ -1027,7 +1027,7 @@ namespace tpp::_detail
 		template<typename U, typename... Args>
 		iterator emplace_or_replace(const_iterator hint, U &&key, Args &&...args) TPP_REQUIRES((std::is_constructible_v<V, std::piecewise_construct_t, std::tuple<U &&>, std::tuple<Args && ...>>))
 		{
-			return do_insert_or_assign(hint, std::forward<U>(key), std::forward<Args>(args)...);
+			return do_insert_or_assign(to_underlying(hint), std::forward<U>(key), std::forward<Args>(args)...).first;
 		}
 
 		template<typename U, typename... Args>
-- 
2.43.0


From c0d0a51fc54cf11077923d26d473409361aeb44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:47 +0000
Subject: [PATCH 14/29] fix: operator[] moved from a non-const lvalue key

---
 tpp/dense_map.hpp  | 8 ++++----
 tpp/sparse_map.hpp | 8 ++++----
 tpp/stable_map.hpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index daeabe8..1a845f7 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -545,14 +545,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns forward iterator to the first element of the specified bucket. */
 		[[nodiscard]] local_iterator begin(size_type n) noexcept { return m_table.begin(n); }
@@ -1195,14 +1195,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns forward iterator to the first element of the specified bucket. */
 		[[nodiscard]] local_iterator begin(size_type n) noexcept { return m_table.begin(n); }
diff --git a/tpp/sparse_map.hpp b/tpp/sparse_map.hpp
index 1a490d1..ea39923 100644
--- a/tpp/sparse_map.hpp
+++ b/tpp/sparse_map.hpp
@@ -514,14 +514,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
@@ -1109,14 +1109,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
diff --git a/tpp/stable_map.hpp b/tpp/stable_map.hpp
index c7dfeb0..4908326 100644
--- a/tpp/stable_map.hpp
+++ b/tpp/stable_map.hpp
@@ -561,14 +561,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
@@ -1203,14 +1203,14 @@ namespace tpp
 		 * @return Reference to the specified element. */
 		[[nodiscard]] mapped_type &operator[](const key_type &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
-		[[nodiscard]] mapped_type &operator[](key_type &key) { return try_emplace(std::forward<key_type>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](key_type &&key) { return try_emplace(std::forward<key_type>(key)).first->second; }
 		/** @copydoc operator[]
 		 * @note This overload is available only if the hash & compare functors are transparent. */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		[[nodiscard]] mapped_type &operator[](const K &key) { return try_emplace(key).first->second; }
 		/** @copydoc operator[] */
 		template<typename K, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-		[[nodiscard]] mapped_type &operator[](K &key) { return try_emplace(std::forward<K>(key)).first->second; }
+		[[nodiscard]] mapped_type &operator[](K &&key) { return try_emplace(std::forward<K>(key)).first->second; }
 
 		/** Returns the current amount of buckets of the map. */
 		[[nodiscard]] constexpr size_type bucket_count() const noexcept { return m_table.bucket_count(); }
-- 
2.43.0


From 494861eac188789aac8da0f6edfc5305eb1512e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:47 +0000
Subject: [PATCH 15/29] fix: assigning or moving a dense table left stale
 bucket chains behind

---
 tpp/detail/dense_table.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 1ef6b50..6196a8d 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -295,7 +295,8 @@ namespace tpp::_detail
 					dense_alloc_base::operator=(std::move(other));
 				}
 
-				/* By this point `this` is clear and potentially buffer-less. */
+				/* By this point `this` is clear and potentially buffer-less, and `other` may take over its buffers. */
+				std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
 				move_from(other);
 			}
 			return *this;
@@ -829,6 +830,7 @@ namespace tpp::_detail
 			/* Ignore empty tables. */
 			TPP_IF_UNLIKELY(other.size() == 0)
 			{
+				std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
 				m_dense_size = 0;
 				return;
 			}
@@ -866,6 +868,7 @@ namespace tpp::_detail
 			/* Ignore empty tables. */
 			TPP_IF_UNLIKELY(other.size() == 0)
 			{
+				std::fill_n(m_sparse, m_sparse_size, make_array<key_size>(npos));
 				m_dense_size = 0;
 				return;
 			}
@@ -884,6 +887,7 @@ namespace tpp::_detail
 				to.relocate(alloc, alloc, from);
 				(insert_node<Is>(to, m_dense_size), ...);
 			}
+			std::fill_n(other.m_sparse, other.m_sparse_size, make_array<key_size>(npos));
 			other.m_dense_size = 0;
 		}
 
-- 
2.43.0


From 32c7f14f230ab8ff3faf528073286a921d209b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:47 +0000
Subject: [PATCH 16/29] fix: dense_table::erase(key) dereferenced a null chain
 on a table without buckets

---
 tpp/detail/dense_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 6196a8d..d6d09e9 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -740,7 +740,7 @@ namespace tpp::_detail
 		template<std::size_t J, typename T, std::size_t... Is>
 		iterator do_erase(std::index_sequence<Is...>, const T &key, std::size_t h)
 		{
-			for (auto *chain_idx = get_chain<J>(h); *chain_idx != npos;)
+			for (auto *chain_idx = get_chain<J>(h); chain_idx && *chain_idx != npos;)
 			{
 				const auto pos = *chain_idx;
 				auto node = m_dense + pos;
-- 
2.43.0


From 0a55b3430a3c02ffd70febcf2cddeafbb50fc7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:47 +0000
Subject: [PATCH 17/29] fix: ordered dense tables returned the wrong successor
 after erasing, and erased wrong ranges

---
 tpp/detail/dense_table.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index d6d09e9..adb6618 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -435,9 +435,20 @@ namespace tpp::_detail
 		}
 		iterator erase(const_iterator first, const_iterator last)
 		{
-			iterator result = end();
-			while (last != first) result = erase(--last);
-			return result;
+			if constexpr (is_ordered::value)
+			{
+				/* Erasure may relocate any of the remaining nodes, the only reliable position is the one that follows the erased node. */
+				auto n = static_cast<size_type>(std::distance(first, last));
+				if (n == 0) return iterator{to_underlying(last)};
+				for (; n != 1; --n) first = erase(first);
+				return erase(first);
+			}
+			else
+			{
+				auto result = iterator{to_underlying(last)};
+				while (last != first) result = erase(--last);
+				return result;
+			}
 		}
 
 		void rehash(size_type n)
@@ -612,6 +623,7 @@ namespace tpp::_detail
 			{
 				(move_chain<Is>(end_pos, pos), ...);
 				node->move_from(m_dense[end_pos]);
+				if (next == m_dense + end_pos) next = node; /* The successor is the node that has been moved. */
 			}
 
 			pop_node();
-- 
2.43.0


From e2d763f86a2882faf2ddba8c9d8d872372eb8982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:47 +0000
Subject: [PATCH 18/29] fix: hinted insertion into a growing ordered dense
 table corrupted the hint

---
 tpp/detail/dense_table.hpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index adb6618..8e86e26 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -816,20 +816,17 @@ namespace tpp::_detail
 		{
 			if (m_dense_capacity == m_dense_size)
 			{
-				const auto old_dense = m_dense;
-				resize_data(m_dense_capacity ? m_dense_capacity * 2 : 1);
-
-				const auto off_bytes = (m_dense - old_dense) * sizeof(*m_dense);
+				/* Adjust the hint if it refers to a relocated node. The header link is not relocated. */
+				auto hint_pos = npos;
 				if constexpr (is_ordered::value)
 				{
-					if (!hint.link) return;
-					hint.link += off_bytes / sizeof(bucket_link);
-				}
-				else
-				{
-					if (!hint) return;
-					hint += off_bytes / sizeof(*m_dense);
+					if (hint.link && hint.link != header_link()) hint_pos = static_cast<size_type>(hint.operator->() - to_address(m_dense));
 				}
+				else if (hint)
+					hint_pos = static_cast<size_type>(hint - m_dense);
+
+				resize_data(m_dense_capacity ? m_dense_capacity * 2 : 1);
+				if (hint_pos != npos) hint = node_iterator{m_dense + hint_pos};
 			}
 		}
 
-- 
2.43.0


From 65b1f27a0decf488bd7b370e5948a17437ba98fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:47 +0000
Subject: [PATCH 19/29] fix: erasing from dense tables with several keys did
 not compile or used the wrong chain

---
 tpp/detail/dense_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index 8e86e26..d5b0c5a 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -741,7 +741,7 @@ namespace tpp::_detail
 			if (const auto end = end_node(); node == end)
 				return to_iter(end);
 
-			const auto slice = chain_slice{find_chain_ptr<Is...>(get_chain<Is>(node->template hash<Is>()), pos)...};
+			const auto slice = chain_slice{find_chain_ptr<Is>(get_chain<Is>(node->template hash<Is>()), pos)...};
 			return erase_node<Is...>(pos, node, slice);
 		}
 		iterator do_erase(size_type pos, bucket_node *node)
@@ -760,7 +760,7 @@ namespace tpp::_detail
 				{
 					/* Grab other bucket indices that point to `pos`. */
 					chain_slice slice = {};
-					((slice[Is] = find_chain_ptr<Is...>(get_chain<Is>(node->template hash<Is>()), pos)), ...);
+					((slice[Is] = find_chain_ptr<Is>(get_chain<Is>(node->template hash<Is>()), pos)), ...);
 					slice[J] = chain_idx;
 					return erase_node<J, Is...>(pos, node, slice);
 				}
-- 
2.43.0


From 9403cd6f78fe0a146e25410752c128fd390a064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:47 +0000
Subject: [PATCH 20/29] fix: hinted dense_map::try_emplace did not compile

---
 tpp/dense_map.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index 1a845f7..5fa8d2a 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -434,7 +434,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, const key_type &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -446,7 +446,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, key_type &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::move(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -459,7 +459,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, const K &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
@@ -471,7 +471,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, K &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::forward<K>(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::forward<K>(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
@@ -1084,7 +1084,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, const key_type &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -1096,7 +1096,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, key_type &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::move(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
@@ -1109,7 +1109,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, const K &key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, key, std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
@@ -1121,7 +1121,7 @@ namespace tpp
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
 		iterator try_emplace(const_iterator hint, K &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::forward<K>(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::forward_as_tuple(std::forward<K>(key)), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename K, typename... Args, typename = std::enable_if_t<table_t::is_transparent::value && std::is_invocable_v<hasher, K>>>
-- 
2.43.0


From 29ffedeb5d4e2451e3b70035e1765e188a245168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:47 +0000
Subject: [PATCH 21/29] fix: erase_if on dense containers compared against a
 stale end iterator

---
 tpp/dense_map.hpp      | 4 ++--
 tpp/dense_multimap.hpp | 2 +-
 tpp/dense_multiset.hpp | 2 +-
 tpp/dense_set.hpp      | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index 5fa8d2a..7e04caa 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -630,7 +630,7 @@ namespace tpp
 	inline typename dense_map<K, M, H, C, A>::size_type erase_if(dense_map<K, M, H, C, A> &map, P pred)
 	{
 		typename dense_map<K, M, H, C, A>::size_type result = 0;
-		for (auto i = map.cbegin(), last = map.cend(); i != last;)
+		for (auto i = map.cbegin(); i != map.cend();)
 		{
 			if (pred(*i))
 			{
@@ -1280,7 +1280,7 @@ namespace tpp
 	inline typename ordered_dense_map<K, M, H, C, A>::size_type erase_if(ordered_dense_map<K, M, H, C, A> &map, P pred)
 	{
 		typename dense_map<K, M, H, C, A>::size_type result = 0;
-		for (auto i = map.cbegin(), last = map.cend(); i != last;)
+		for (auto i = map.cbegin(); i != map.cend();)
 		{
 			if (pred(*i))
 			{
diff --git a/tpp/dense_multimap.hpp b/tpp/dense_multimap.hpp
index 0f2e572..fd35026 100644
--- a/tpp/dense_multimap.hpp
+++ b/tpp/dense_multimap.hpp
@@ -464,7 +464,7 @@ namespace tpp
 	inline typename dense_multimap<Mk, M, H, C, A>::size_type erase_if(dense_multimap<Mk, M, H, C, A> &map, P pred)
 	{
 		typename dense_multimap<Mk, M, H, C, A>::size_type result = 0;
-		for (auto i = map.cbegin(), last = map.cend(); i != last;)
+		for (auto i = map.cbegin(); i != map.cend();)
 		{
 			if (pred(*i))
 			{
diff --git a/tpp/dense_multiset.hpp b/tpp/dense_multiset.hpp
index ce11f31..e0ffdd3 100644
--- a/tpp/dense_multiset.hpp
+++ b/tpp/dense_multiset.hpp
@@ -338,7 +338,7 @@ namespace tpp
 	inline typename dense_multiset<Mk, H, C, A>::size_type erase_if(dense_multiset<Mk, H, C, A> &set, P pred)
 	{
 		typename dense_multiset<Mk, H, C, A>::size_type result = 0;
-		for (auto i = set.cbegin(), last = set.cend(); i != last;)
+		for (auto i = set.cbegin(); i != set.cend();)
 		{
 			if (pred(*i))
 			{
diff --git a/tpp/dense_set.hpp b/tpp/dense_set.hpp
index b59cb2e..d39f550 100644
--- a/tpp/dense_set.hpp
+++ b/tpp/dense_set.hpp
@@ -339,7 +339,7 @@ namespace tpp
 	inline typename dense_set<K, H, C, A>::size_type erase_if(dense_set<K, H, C, A> &set, P pred)
 	{
 		typename dense_set<K, H, C, A>::size_type result = 0;
-		for (auto i = set.cbegin(), last = set.cend(); i != last;)
+		for (auto i = set.cbegin(); i != set.cend();)
 		{
 			if (pred(*i))
 			{
@@ -700,7 +700,7 @@ namespace tpp
 	inline typename ordered_dense_set<K, H, C, A>::size_type erase_if(ordered_dense_set<K, H, C, A> &set, P pred)
 	{
 		typename dense_set<K, H, C, A>::size_type result = 0;
-		for (auto i = set.cbegin(), last = set.cend(); i != last;)
+		for (auto i = set.cbegin(); i != set.cend();)
 		{
 			if (pred(*i))
 			{
-- 
2.43.0


From fbc340d1a9a24000ad127c8d805abe4faa630275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:48 +0000
Subject: [PATCH 22/29] fix: copies of a swiss table must preserve deleted
 entries, elements may have probed past them

---
 tpp/detail/swiss_table.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 9c13be6..bcb455e 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1457,13 +1457,13 @@ namespace tpp::_detail
 			auto *nodes = m_buffer.nodes(), *other_nodes = other.m_buffer.nodes();
 			auto *other_metadata = other.m_buffer.meta();
 			for (size_type i = 0; i != other.m_buffer.capacity; ++i)
-				if (is_occupied(other_metadata[i]))
-				{
-					nodes[i].construct(alloc, other_nodes[i]);
-					set_metadata(i, other_metadata[i]);
-				}
+			{
+				/* Deleted entries must be preserved, since other elements may have probed past them. */
+				if (is_occupied(other_metadata[i])) nodes[i].construct(alloc, other_nodes[i]);
+				set_metadata(i, other_metadata[i]);
+			}
 			m_size = other.m_size;
-			m_num_empty = capacity_to_max_size(m_buffer.capacity) - m_size;
+			m_num_empty = other.m_num_empty;
 
 			/* If the node link is ordered, update header offsets to point to the copied data. */
 			if constexpr (is_ordered::value)
@@ -1496,14 +1496,17 @@ namespace tpp::_detail
 			auto *nodes = m_buffer.nodes(), *other_nodes = other.m_buffer.nodes();
 			auto *other_metadata = other.m_buffer.meta();
 			for (size_type i = 0; i != other.m_buffer.capacity; ++i)
+			{
+				/* Deleted entries must be preserved, since other elements may have probed past them. */
 				if (is_occupied(other_metadata[i]))
 				{
 					auto *src_node = other_nodes + i, *dst_node = nodes + i;
 					dst_node->relocate(alloc, other_alloc, *src_node);
-					set_metadata(i, other_metadata[i]);
 				}
+				set_metadata(i, other_metadata[i]);
+			}
 			m_size = other.m_size;
-			m_num_empty = capacity_to_max_size(m_buffer.capacity) - m_size;
+			m_num_empty = other.m_num_empty;
 
 			/* Reset the other table. */
 			other.m_size = 0;
-- 
2.43.0


From 931c90e3ed6c9b83aa24a49b6f5486fe7b777d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:01 +0000
Subject: [PATCH 23/29] fix: compound assignment of random access table
 iterators did not compile

---
 tpp/detail/table_common.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index bd915d0..214de4a 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -599,8 +599,16 @@ namespace tpp::_detail
 	template<typename I, typename T>
 	struct random_access_iterator_base<I, T, std::enable_if_t<std::is_base_of_v<std::random_access_iterator_tag, typename T::iterator_category>>>
 	{
-		constexpr I &operator+=(typename iter_diff<T>::type n) noexcept { return iter() += n; }
-		constexpr I &operator-=(typename iter_diff<T>::type n) noexcept { return iter() -= n; }
+		constexpr I &operator+=(typename iter_diff<T>::type n) noexcept
+		{
+			iter() += n;
+			return static_cast<I &>(*this);
+		}
+		constexpr I &operator-=(typename iter_diff<T>::type n) noexcept
+		{
+			iter() -= n;
+			return static_cast<I &>(*this);
+		}
 
 		[[nodiscard]] constexpr I operator+(typename iter_diff<T>::type n) const noexcept { return I{iter() + n}; }
 		[[nodiscard]] constexpr I operator-(typename iter_diff<T>::type n) const noexcept { return I{iter() - n}; }
-- 
2.43.0


From 585576f696a876970fb49121497101496b21af36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:40 +0000
Subject: [PATCH 24/29] fix: free swap functions did not compile, their
 exception specification depended on itself

---
 tpp/dense_map.hpp           | 4 ++--
 tpp/dense_multimap.hpp      | 2 +-
 tpp/dense_multiset.hpp      | 2 +-
 tpp/dense_set.hpp           | 4 ++--
 tpp/detail/table_common.hpp | 2 +-
 tpp/sparse_map.hpp          | 4 ++--
 tpp/sparse_set.hpp          | 4 ++--
 tpp/stable_map.hpp          | 4 ++--
 tpp/stable_set.hpp          | 4 ++--
 9 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/tpp/dense_map.hpp b/tpp/dense_map.hpp
index 7e04caa..7dd095f 100644
--- a/tpp/dense_map.hpp
+++ b/tpp/dense_map.hpp
@@ -622,7 +622,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(dense_map<K, M, H, C, A> &a, dense_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_map<K, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_map<K, M, H, C, A> &a, dense_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -1272,7 +1272,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(ordered_dense_map<K, M, H, C, A> &a, ordered_dense_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_dense_map<K, M, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_dense_map<K, M, H, C, A> &a, ordered_dense_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/dense_multimap.hpp b/tpp/dense_multimap.hpp
index fd35026..1cb1a92 100644
--- a/tpp/dense_multimap.hpp
+++ b/tpp/dense_multimap.hpp
@@ -456,7 +456,7 @@ namespace tpp
 	};
 
 	template<typename Mk, typename M, typename H, typename C, typename A>
-	inline void swap(dense_multimap<Mk, M, H, C, A> &a, dense_multimap<Mk, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_multimap<Mk, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_multimap<Mk, M, H, C, A> &a, dense_multimap<Mk, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/dense_multiset.hpp b/tpp/dense_multiset.hpp
index e0ffdd3..a59b18b 100644
--- a/tpp/dense_multiset.hpp
+++ b/tpp/dense_multiset.hpp
@@ -330,7 +330,7 @@ namespace tpp
 	};
 
 	template<typename Mk, typename H, typename C, typename A>
-	inline void swap(dense_multiset<Mk, H, C, A> &a, dense_multiset<Mk, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_multiset<Mk, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_multiset<Mk, H, C, A> &a, dense_multiset<Mk, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/dense_set.hpp b/tpp/dense_set.hpp
index d39f550..df08555 100644
--- a/tpp/dense_set.hpp
+++ b/tpp/dense_set.hpp
@@ -331,7 +331,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(dense_set<K, H, C, A> &a, dense_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<dense_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(dense_set<K, H, C, A> &a, dense_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -692,7 +692,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(ordered_dense_set<K, H, C, A> &a, ordered_dense_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_dense_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_dense_set<K, H, C, A> &a, ordered_dense_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 214de4a..28ca821 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -361,7 +361,7 @@ namespace tpp::_detail
 				assert_alloc(other);
 				swap(m_ptr, other.m_ptr);
 			}
-			friend void swap(extracted_type &a, extracted_type &b) noexcept(std::is_nothrow_swappable_v<extracted_type>) { a.swap(b); }
+			friend void swap(extracted_type &a, extracted_type &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 		private:
 			[[nodiscard]] constexpr auto &alloc() noexcept { return alloc_base::value(); }
diff --git a/tpp/sparse_map.hpp b/tpp/sparse_map.hpp
index ea39923..dc6fe14 100644
--- a/tpp/sparse_map.hpp
+++ b/tpp/sparse_map.hpp
@@ -567,7 +567,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(sparse_map<K, M, H, C, A> &a, sparse_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<sparse_map<K, H, C, A>>) { a.swap(b); }
+	inline void swap(sparse_map<K, M, H, C, A> &a, sparse_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -1162,7 +1162,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(ordered_sparse_map<K, M, H, C, A> &a, ordered_sparse_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_sparse_map<K, M, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_sparse_map<K, M, H, C, A> &a, ordered_sparse_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/sparse_set.hpp b/tpp/sparse_set.hpp
index 81be0b5..d730aca 100644
--- a/tpp/sparse_set.hpp
+++ b/tpp/sparse_set.hpp
@@ -303,7 +303,7 @@ namespace tpp
 	}
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(sparse_set<K, H, C, A> &a, sparse_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<sparse_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(sparse_set<K, H, C, A> &a, sparse_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	template<typename I, typename Key = _detail::iter_key_t<I>, typename Hash = std::hash<Key>, typename Cmp = std::equal_to<Key>, typename Alloc = std::allocator<Key>>
 	sparse_set(I, I, typename _detail::deduce_set_t<sparse_set, I, Hash, Cmp, Alloc>::size_type = 0, Hash = Hash{}, Cmp = Cmp{}, Alloc = Alloc{}) -> sparse_set<Key, Hash, Cmp, Alloc>;
@@ -622,7 +622,7 @@ namespace tpp
 	}
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(ordered_sparse_set<K, H, C, A> &a, ordered_sparse_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_sparse_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_sparse_set<K, H, C, A> &a, ordered_sparse_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	template<typename I, typename Key = _detail::iter_key_t<I>, typename Hash = std::hash<Key>, typename Cmp = std::equal_to<Key>, typename Alloc = std::allocator<Key>>
 	ordered_sparse_set(I, I, typename _detail::deduce_set_t<ordered_sparse_set, I, Hash, Cmp, Alloc>::size_type = 0, Hash = Hash{}, Cmp = Cmp{}, Alloc = Alloc{}) -> ordered_sparse_set<Key, Hash, Cmp, Alloc>;
diff --git a/tpp/stable_map.hpp b/tpp/stable_map.hpp
index 4908326..2cf3bf2 100644
--- a/tpp/stable_map.hpp
+++ b/tpp/stable_map.hpp
@@ -614,7 +614,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(stable_map<K, M, H, C, A> &a, stable_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<stable_map<K, H, C, A>>) { a.swap(b); }
+	inline void swap(stable_map<K, M, H, C, A> &a, stable_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -1256,7 +1256,7 @@ namespace tpp
 	};
 
 	template<typename K, typename M, typename H, typename C, typename A>
-	inline void swap(ordered_stable_map<K, M, H, C, A> &a, ordered_stable_map<K, M, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_stable_map<K, M, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_stable_map<K, M, H, C, A> &a, ordered_stable_map<K, M, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the map \p map that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
diff --git a/tpp/stable_set.hpp b/tpp/stable_set.hpp
index ec64db6..711b810 100644
--- a/tpp/stable_set.hpp
+++ b/tpp/stable_set.hpp
@@ -317,7 +317,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(stable_set<K, H, C, A> &a, stable_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<stable_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(stable_set<K, H, C, A> &a, stable_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
@@ -668,7 +668,7 @@ namespace tpp
 	};
 
 	template<typename K, typename H, typename C, typename A>
-	inline void swap(ordered_stable_set<K, H, C, A> &a, ordered_stable_set<K, H, C, A> &b) noexcept(std::is_nothrow_swappable_v<ordered_stable_set<K, H, C, A>>) { a.swap(b); }
+	inline void swap(ordered_stable_set<K, H, C, A> &a, ordered_stable_set<K, H, C, A> &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
 
 	/** Erases all elements from the set \p set that satisfy the predicate \p pred.
 	 * @return Amount of elements erased. */
-- 
2.43.0


From d1e0e104b503b29bbee15fec4d71ce254d758650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:23 +0000
Subject: [PATCH 25/29] fix: moving a stable table to an unequal allocator must
 not take over its nodes

---
 tpp/detail/swiss_table.hpp  |  2 +-
 tpp/detail/table_common.hpp | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index bcb455e..64dbec3 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1501,7 +1501,7 @@ namespace tpp::_detail
 				if (is_occupied(other_metadata[i]))
 				{
 					auto *src_node = other_nodes + i, *dst_node = nodes + i;
-					dst_node->relocate(alloc, other_alloc, *src_node);
+					dst_node->transfer(alloc, other_alloc, *src_node);
 				}
 				set_metadata(i, other_metadata[i]);
 			}
diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index 28ca821..fe0ec5d 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -266,6 +266,7 @@ namespace tpp::_detail
 			construct(alloc_dst, std::move(src));
 			src.destroy(alloc_src);
 		}
+		void transfer(allocator_type &alloc_dst, allocator_type &alloc_src, packed_node &src) { relocate(alloc_dst, alloc_src, src); }
 
 		[[nodiscard]] constexpr auto &hash() noexcept { return m_storage.hash; }
 		[[nodiscard]] constexpr auto &hash() const noexcept { return m_storage.hash; }
@@ -437,6 +438,21 @@ namespace tpp::_detail
 
 		template<typename U>
 		void relocate(U &, U &, stable_node &other) { move_from(other); }
+		/* Nodes of a different allocator cannot be taken over, the value must be moved to a new node. */
+		void transfer(allocator_type &alloc_dst, allocator_type &alloc_src, stable_node &other)
+		{
+			if constexpr (std::allocator_traits<allocator_type>::is_always_equal::value)
+				move_from(other);
+			else if (allocator_eq(alloc_dst, alloc_src))
+				move_from(other);
+			else
+			{
+				link_base::operator=(std::move(other));
+				construct(alloc_dst, std::move(other.value()));
+				m_hash = other.m_hash;
+				other.destroy(alloc_src);
+			}
+		}
 
 		template<typename... Args, typename = std::enable_if_t<std::is_constructible_v<V, Args...>>>
 		void construct(allocator_type &alloc, Args &&...args)
-- 
2.43.0


From b04fe4a6f4f79435906a070c8df999f3214fb333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:23 +0000
Subject: [PATCH 26/29] fix: hinted insertion into a growing ordered swiss
 table used a stale hint

---
 tpp/detail/swiss_table.hpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 64dbec3..9546045 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -1252,6 +1252,23 @@ namespace tpp::_detail
 				node->link(prev);
 			}
 		}
+		/* Nodes are relocated by a rehash, thus the hint must be updated to point to the new position of its node. */
+		template<typename F>
+		void preserve_hint(node_iterator &hint, F &&rehash)
+		{
+			if constexpr (is_ordered::value)
+				if (hint.link)
+				{
+					/* Neighbours of a relocated node are re-linked, so use a temporary neighbour to follow it. */
+					auto anchor = bucket_link{};
+					anchor.link(const_cast<bucket_link *>(hint.link));
+					rehash();
+					hint = node_iterator{static_cast<bucket_node *>(anchor.off(anchor.prev))};
+					anchor.unlink();
+					return;
+				}
+			rehash();
+		}
 		template<typename... Args>
 		iterator emplace_node(node_iterator hint, std::size_t h, Args &&...args)
 		{
@@ -1269,10 +1286,13 @@ namespace tpp::_detail
 					 * https://github.com/abseil/abseil-cpp/blob/f7affaf32a6a396465507dd10520a3fe183d4e40/absl/container/internal/raw_hash_set.cc#L97
 					 *
 					 * NOTE: Reclaiming deleted entries may leave blocks partially empty. */
-					if (m_buffer.capacity > sizeof(meta_block) && static_cast<std::uint64_t>(m_size) * 32 <= static_cast<std::uint64_t>(m_buffer.capacity) * 25)
-						rehash_deleted();
-					else
-						do_rehash((m_buffer.capacity + 1) * 2 - 1);
+					preserve_hint(hint, [&]()
+					{
+						if (m_buffer.capacity > sizeof(meta_block) && static_cast<std::uint64_t>(m_size) * 32 <= static_cast<std::uint64_t>(m_buffer.capacity) * 25)
+							rehash_deleted();
+						else
+							do_rehash((m_buffer.capacity + 1) * 2 - 1);
+					});
 					target_pos = find_available(h);
 				}
 			}
-- 
2.43.0


From 35f44fd6f87d7acd00625145a4207d535ba8fd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 27/29] fix: swapping propagating allocators asserted that they
 were equal

---
 tpp/detail/dense_table.hpp  |  7 ++++---
 tpp/detail/swiss_table.hpp  | 10 ++++++----
 tpp/detail/table_common.hpp |  4 ++--
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/tpp/detail/dense_table.hpp b/tpp/detail/dense_table.hpp
index d5b0c5a..b396303 100644
--- a/tpp/detail/dense_table.hpp
+++ b/tpp/detail/dense_table.hpp
@@ -479,11 +479,12 @@ namespace tpp::_detail
 
 			if constexpr (std::allocator_traits<sparse_allocator>::propagate_on_container_swap::value)
 				swap(sparse_alloc(), other.sparse_alloc());
+			else
+				TPP_ASSERT(allocator_eq(sparse_alloc(), other.sparse_alloc()), "Swapped allocators must be equal");
 			if constexpr (std::allocator_traits<dense_allocator>::propagate_on_container_swap::value)
 				swap(dense_alloc(), other.dense_alloc());
-
-			TPP_ASSERT(allocator_eq(sparse_alloc(), other.sparse_alloc()), "Swapped allocators must be equal");
-			TPP_ASSERT(allocator_eq(dense_alloc(), other.dense_alloc()), "Swapped allocators must be equal");
+			else
+				TPP_ASSERT(allocator_eq(dense_alloc(), other.dense_alloc()), "Swapped allocators must be equal");
 
 			swap_buffers(other);
 			swap(m_max_load_factor, other.m_max_load_factor);
diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 9546045..350da45 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -573,8 +573,6 @@ namespace tpp::_detail
 
 		void swap_data(swiss_table_buffer &other) noexcept
 		{
-			TPP_ASSERT(allocator_eq(meta_alloc(), other.meta_alloc()) && allocator_eq(node_alloc(), other.node_alloc()), "Swapped allocators must be equal");
-
 			using std::swap;
 			swap(capacity, other.capacity);
 			swap(m_metadata, other.m_metadata);
@@ -585,8 +583,12 @@ namespace tpp::_detail
 			using std::swap;
 			if constexpr (std::allocator_traits<MetaAlloc>::propagate_on_container_swap::value)
 				swap(meta_alloc(), other.meta_alloc());
+			else
+				TPP_ASSERT(allocator_eq(meta_alloc(), other.meta_alloc()), "Swapped allocators must be equal");
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value)
 				swap(node_alloc(), other.node_alloc());
+			else
+				TPP_ASSERT(allocator_eq(node_alloc(), other.node_alloc()), "Swapped allocators must be equal");
 			swap_data(other);
 		}
 
@@ -709,8 +711,6 @@ namespace tpp::_detail
 
 		void swap_data(swiss_table_buffer &other) noexcept
 		{
-			TPP_ASSERT(allocator_eq(node_alloc(), other.node_alloc()), "Swapped allocators must be equal");
-
 			using std::swap;
 			swap(capacity, other.capacity);
 			swap(m_data, other.m_data);
@@ -720,6 +720,8 @@ namespace tpp::_detail
 			using std::swap;
 			if constexpr (std::allocator_traits<NodeAlloc>::propagate_on_container_swap::value)
 				swap(node_alloc(), other.node_alloc());
+			else
+				TPP_ASSERT(allocator_eq(node_alloc(), other.node_alloc()), "Swapped allocators must be equal");
 			swap_data(other);
 		}
 
diff --git a/tpp/detail/table_common.hpp b/tpp/detail/table_common.hpp
index fe0ec5d..254c90b 100644
--- a/tpp/detail/table_common.hpp
+++ b/tpp/detail/table_common.hpp
@@ -358,8 +358,8 @@ namespace tpp::_detail
 				using std::swap;
 				if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_swap::value)
 					swap(alloc(), other.alloc());
-
-				assert_alloc(other);
+				else
+					assert_alloc(other);
 				swap(m_ptr, other.m_ptr);
 			}
 			friend void swap(extracted_type &a, extracted_type &b) noexcept(noexcept(a.swap(b))) { a.swap(b); }
-- 
2.43.0


From 35dd3a12da29272c4574ae45e5c14e94c45a8657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 28/29] fix: dense_multimap::try_emplace moved from the keys
 although nothing was inserted

---
 tpp/dense_multimap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpp/dense_multimap.hpp b/tpp/dense_multimap.hpp
index 1cb1a92..50b90ea 100644
--- a/tpp/dense_multimap.hpp
+++ b/tpp/dense_multimap.hpp
@@ -262,7 +262,8 @@ namespace tpp
 		template<typename... Args>
 		std::pair<iterator, bool> try_emplace(key_type &&key, Args &&...args)
 		{
-			return m_table.try_emplace(std::move(key), std::forward<Args>(args)...);
+			/* The keys are moved from only if the element is actually inserted. */
+			return m_table.try_emplace(std::apply([](auto &...ks) { return std::forward_as_tuple(std::move(ks)...); }, key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace
 		 * @note This overload is available only if the hash & compare functors are transparent. */
@@ -293,7 +294,7 @@ namespace tpp
 		template<typename... Args>
 		iterator try_emplace(const_iterator hint, key_type &&key, Args &&...args)
 		{
-			return m_table.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+			return m_table.try_emplace(hint, std::apply([](auto &...ks) { return std::forward_as_tuple(std::move(ks)...); }, key), std::forward<Args>(args)...);
 		}
 		/** @copydoc try_emplace */
 		template<typename... Args>
-- 
2.43.0


From a2da87136fb0eda001f6284a6a8a7d567e70b5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:43 +0000
Subject: [PATCH 29/29] fix: generic_ctz and generic_clz counted one bit too
 many

---
 tpp/detail/swiss_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpp/detail/swiss_table.hpp b/tpp/detail/swiss_table.hpp
index 350da45..7154afe 100644
--- a/tpp/detail/swiss_table.hpp
+++ b/tpp/detail/swiss_table.hpp
@@ -86,7 +86,7 @@ namespace tpp::_detail
 	{
 		constexpr T mask = T{1};
 		std::size_t result = 0;
-		while ((value & (mask << result++)) == T{});
+		while ((value & (mask << result)) == T{}) ++result;
 		return result;
 	}
 	template<typename T>
@@ -94,7 +94,7 @@ namespace tpp::_detail
 	{
 		constexpr T mask = T{1} << (std::numeric_limits<T>::digits - 1);
 		std::size_t result = 0;
-		while ((value & (mask >> result++)) == T{});
+		while ((value & (mask >> result)) == T{}) ++result;
 		return result;
 	}
 
-- 
2.43.0

