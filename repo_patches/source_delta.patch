From 0632c43e426413b7a162ee7bc8ecfc0fd64a6264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:36 +0000
Subject: [PATCH 001/119] fix: devector resize/resize_front release the old
 buffer and the new elements

resize_front() leaked the previous buffer when reallocating, and both
functions leaked the already constructed new elements when copying the
existing ones threw.
---
 seq/devector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index d622ee6..18a6ec4 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -425,6 +425,7 @@ namespace seq
 							copy_destroy_input(start, end, _new_start);
 						}
 						catch (...) {
+							destroy_range(_new_start + size, _new_end);
 							deallocate(_new, _new_capacity);
 							throw;
 						}
@@ -484,9 +485,13 @@ namespace seq
 							copy_destroy_input(start, end, _new_start + (new_size - size));
 						}
 						catch (...) {
+							destroy_range(_new, _new + (new_size - size));
 							deallocate(_new, _new_capacity);
 							throw;
 						}
+
+						deallocate(data, capacity);
+
 						data = _new;
 						start = _new_start;
 						end = _new_end;
-- 
2.43.0


From 45c57b31dfc39f8a8348c86a14d6fa9328321a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 002/119] fix: devector push_back/push_front of one of its own
 elements

When growing by shifting the elements inside the buffer, the new element
was constructed from args after the elements had been moved away, reading
a destroyed (or overwritten) object when args refers to an element of the
container.
---
 seq/devector.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index 18a6ec4..b077edd 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -520,10 +520,17 @@ namespace seq
 				{
 					// Front capacity is greater than current size:
 					// move data to front
-					copy_destroy_input(start, end, data);
+					// construct the new element first, as args might refer to an element of this container
+					construct_ptr(data + size, std::forward<Args>(args)...);
+					try {
+						copy_destroy_input(start, end, data);
+					}
+					catch (...) {
+						destroy_ptr(data + size);
+						throw;
+					}
 					start = data;
 					end = data + size;
-					construct_ptr(end, std::forward<Args>(args)...);
 					return;
 				}
 
@@ -574,10 +581,18 @@ namespace seq
 				if (static_cast<size_t>((capacity - size)) > size) {
 					// Back capacity is greater than current size:
 					// move data to back
-					copy_destroy_input(start, end, data + (capacity - size));
-					start = data + (capacity - size);
+					// construct the new element first, as args might refer to an element of this container
+					T* _new_start = data + (capacity - size);
+					construct_ptr(_new_start - 1, std::forward<Args>(args)...);
+					try {
+						copy_destroy_input(start, end, _new_start);
+					}
+					catch (...) {
+						destroy_ptr(_new_start - 1);
+						throw;
+					}
+					start = _new_start;
 					end = data + capacity;
-					construct_ptr(start-1, std::forward<Args>(args)...);
 					return;
 				}
 				
-- 
2.43.0


From 5863b61f73925c1d70f469eee66c3b933826da23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 003/119] fix: devector emplace/insert near the front with a
 relocatable type

The elements were relocated bitwise over a live default constructed
element, and the slot holding the bitwise duplicate was then assigned to,
releasing the resources of the relocated element (double free) and leaking
the default constructed one.
---
 seq/devector.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index b077edd..b041ee3 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -869,11 +869,16 @@ namespace seq
 				// insert on the left side
 				T tmp = T(std::forward<Args>(args)...); //handle aliasing
 				emplace_front();
-				if constexpr (std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T> && is_relocatable_v<T>)
+				if constexpr (std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T> && is_relocatable_v<T>) {
+					// elements are relocated over the destroyed front element, leaving raw memory at dist
+					destroy_ptr(begin());
 					memmove(static_cast<void*>(begin()), static_cast<void*>(begin() + 1), dist * sizeof(T));
-				else
+					construct_ptr(begin() + dist, std::move(tmp));
+				}
+				else {
 					std::move(begin() + 1, begin() + 1 + dist, begin());
-				*(begin() + dist) = std::move(tmp);
+					*(begin() + dist) = std::move(tmp);
+				}
 			}
 			else {
 				// insert on the right side
-- 
2.43.0


From 32f20e0ce243152ddb3271ee0ad3704030c6f64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 004/119] fix: devector move of overlapping elements with a
 throwing move

When an assignment of the second part threw, move_destroy_input destroyed
elements up to the advanced source position instead of the end of the
newly constructed part, destroying live elements twice.
---
 seq/devector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index b041ee3..f7ba0a2 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -200,10 +200,10 @@ namespace seq
 
 				if (dst < first) {
 					T* saved = dst;
+					T* en = first;
 
 					try {
 						// Construct first part
-						T* en = first;
 						while (dst < en && first != last) {
 							construct_ptr(dst, std::move(*first));
 							++dst;
@@ -219,8 +219,8 @@ namespace seq
 						destroy_range(dst, last);
 					}
 					catch (...) {
-						// destroy previously created values (first part only, before first)
-						while (saved != dst && saved != first) {
+						// destroy previously created values (first part only, before the initial value of first)
+						while (saved != dst && saved != en) {
 							destroy_ptr(saved++);
 						}
 						throw;
-- 
2.43.0


From b12bbaee19cb411c80865232c65ade6de2fcc386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:14 +0000
Subject: [PATCH 005/119] fix: concurrent_map operator== compares the mapped
 values instead of converting them to the key type

---
 seq/utils.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/utils.hpp b/seq/utils.hpp
index df3fb5e..18b9f44 100644
--- a/seq/utils.hpp
+++ b/seq/utils.hpp
@@ -414,14 +414,14 @@ namespace seq
 				return value;
 			}
 
-			SEQ_ALWAYS_INLINE static auto value(const value_type& value) noexcept -> const key_type& { return value.second; }
+			SEQ_ALWAYS_INLINE static auto value(const value_type& value) noexcept -> const mapped_type& { return value.second; }
 			template<class U, class V>
-			SEQ_ALWAYS_INLINE static auto value(const std::pair<U, V>& value) noexcept -> const U&
+			SEQ_ALWAYS_INLINE static auto value(const std::pair<U, V>& value) noexcept -> const V&
 			{
 				return value.second;
 			}
 			template<class U, class V>
-			SEQ_ALWAYS_INLINE static auto value(const std::pair<const U, V>& value) noexcept -> const U&
+			SEQ_ALWAYS_INLINE static auto value(const std::pair<const U, V>& value) noexcept -> const V&
 			{
 				return value.second;
 			}
-- 
2.43.0


From 373b8aa0cd2ade3d14b396693456622db4863e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 006/119] fix: concurrent table: a shared bucket lock is not
 taken exclusively and released as shared

---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 569d6d5..32d6852 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -745,7 +745,7 @@ namespace seq
 			}
 			SEQ_ALWAYS_INLINE void lock_shared(node_lock& lock) const
 			{
-				if (lock.try_lock())
+				if (lock.try_lock_shared())
 					return;
 				this_type* _this = const_cast<this_type*>(this);
 				while (!lock.try_lock_shared()) {
-- 
2.43.0


From 3dbbedcd5a33550a260a188225cd49a2054c3f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 007/119] fix: concurrent table: an insertion racing with
 clear() creates the buckets instead of waiting forever

---
 seq/internal/concurrent_hash_table.hpp | 39 +++++++++++++++++---------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 32d6852..c589e29 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -950,35 +950,43 @@ namespace seq
 				}
 			}
 
-			template<bool WaitForBucket = true>
 			SEQ_NOINLINE(auto)
 			get_node_global_lock(lock_array* locks, size_t hash, node_lock*& l) -> size_t
 			{
-				if (WaitForBucket)
-					while (d_buckets == get_static_node())
-						std::this_thread::yield();
 				l = &d_rehash_lock;
 				l->lock();
 				if ((locks = AtomicLoad(d_locks))) {
 					l->unlock();
-					return this->template get_node<false>(locks, hash, l);
+					return this->get_node(locks, hash, l);
 				}
 				return (hash & d_hash_mask);
 			}
-			template<bool WaitForBucket = true>
 			SEQ_CONCURRENT_INLINE auto get_node(lock_array* locks, size_t hash, node_lock*& l) -> size_t
 			{
 				if SEQ_UNLIKELY (!locks)
-					return this->template get_node_global_lock<WaitForBucket>(locks, hash, l);
+					return this->get_node_global_lock(locks, hash, l);
 				// Returns node locked for given hash value
 				size_t hash_mask = d_hash_mask;
 				size_t pos = hash & hash_mask;
 				l = &locks->at(pos);
 				this->lock(*l);
-				while ((WaitForBucket && d_buckets == get_static_node()) || hash_mask != d_hash_mask)
+				while (hash_mask != d_hash_mask)
 					update_lock(locks, hash, hash_mask, pos, l);
 				return pos;
 			}
+			SEQ_NOINLINE(auto) wait_for_buckets(size_t hash, node_lock*& l) -> size_t
+			{
+				// The table was cleared, or its first allocation failed or is not finished yet:
+				// create the buckets ourselves unless another thread is doing it
+				size_t pos;
+				do {
+					l->unlock();
+					rehash_on_insert();
+					std::this_thread::yield();
+					pos = this->get_node(AtomicLoad(d_locks), hash, l);
+				} while (d_buckets == get_static_node());
+				return pos;
+			}
 
 			SEQ_NOINLINE(auto) get_node_shared_global_lock(lock_array* locks, size_t hash, node_lock*& l) const -> size_t
 			{
@@ -1014,8 +1022,11 @@ namespace seq
 				auto th = node_type::tiny_hash(hash);
 				node_lock* ll = nullptr;
 				size_t pos;
-				if constexpr (is_concurrent)
-					pos = this->template get_node<true>(AtomicLoad(d_locks), hash, ll);
+				if constexpr (is_concurrent) {
+					pos = this->get_node(AtomicLoad(d_locks), hash, ll);
+					if SEQ_UNLIKELY (d_buckets == get_static_node())
+						pos = wait_for_buckets(hash, ll);
+				}
 				else
 					pos = (hash & d_hash_mask);
 				// Grad lock
@@ -1223,10 +1234,10 @@ namespace seq
 			SEQ_CONCURRENT_INLINE size_t visit_hash(size_t hash, const K& key, F&& f)
 			{
 				node_lock* lock = nullptr;
-				// size_t pos = is_concurrent ? this->template get_node<false>(AtomicLoad(d_locks), hash, lock) : (hash & d_hash_mask);
+				// size_t pos = is_concurrent ? this->get_node(AtomicLoad(d_locks), hash, lock) : (hash & d_hash_mask);
 				size_t pos;
 				if constexpr (is_concurrent)
-					pos = this->template get_node<false>(AtomicLoad(d_locks), hash, lock);
+					pos = this->get_node(AtomicLoad(d_locks), hash, lock);
 				else
 					pos = (hash & d_hash_mask);
 				LockUnique<node_lock> ll(lock, true);
@@ -1336,10 +1347,10 @@ namespace seq
 			SEQ_CONCURRENT_INLINE auto erase_key(size_t hash, F&& fun, const K& key) -> size_t
 			{
 				node_lock* lock = nullptr;
-				// size_t pos = is_concurrent ? this->template get_node<false>(AtomicLoad(d_locks), hash, lock) : (hash & d_hash_mask);
+				// size_t pos = is_concurrent ? this->get_node(AtomicLoad(d_locks), hash, lock) : (hash & d_hash_mask);
 				size_t pos;
 				if constexpr (is_concurrent)
-					pos = this->template get_node<false>(AtomicLoad(d_locks), hash, lock);
+					pos = this->get_node(AtomicLoad(d_locks), hash, lock);
 				else
 					pos = (hash & d_hash_mask);
 
-- 
2.43.0


From ced6e6c94d57116103cb94c5468c668b4ad52911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:22 +0000
Subject: [PATCH 008/119] fix: concurrent table: a rehash publishes the new
 buckets with release/acquire ordering

---
 seq/internal/concurrent_hash_table.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index c589e29..f8f315e 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -305,11 +305,11 @@ namespace seq
 			return v;
 		}
 
-		/// @brief Relaxed atomic load
+		/// @brief Acquire atomic load
 		template<class T>
 		static SEQ_CONCURRENT_INLINE T AtomicLoad(const std::atomic<T>& v) noexcept
 		{
-			return v.load(std::memory_order_relaxed);
+			return v.load(std::memory_order_acquire);
 		}
 
 		/// @brief Movemask function of 8 bytes word
@@ -678,7 +678,7 @@ namespace seq
 			lock_array_type d_locks;       // lock array
 			size_type d_size;	       // total size
 			size_t d_next_target;	       // next size before rehash
-			size_t d_hash_mask;	       // hash mask
+			size_type d_hash_mask;	       // hash mask, publishes the new buckets to the threads that do not wait on a bucket lock
 			node_lock d_rehash_lock;       // unique lock for rehash
 			std::atomic<bool> d_in_rehash; // tells if we are in rehash
 			std::mutex d_rehash_mutex;
@@ -931,7 +931,7 @@ namespace seq
 
 			SEQ_NOINLINE(auto) update_lock(lock_array* locks, size_t hash, size_t& hash_mask, size_t& pos, node_lock*& l)
 			{
-				hash_mask = d_hash_mask;
+				hash_mask = AtomicLoad(d_hash_mask);
 				if (((hash & hash_mask) != pos)) {
 					pos = (hash & hash_mask);
 					l->unlock();
@@ -941,7 +941,7 @@ namespace seq
 			}
 			SEQ_NOINLINE(auto) update_lock_shared(lock_array* locks, size_t hash, size_t& hash_mask, size_t& pos, node_lock*& l) const
 			{
-				hash_mask = d_hash_mask;
+				hash_mask = AtomicLoad(d_hash_mask);
 				if (((hash & hash_mask) != pos)) {
 					pos = (hash & hash_mask);
 					l->unlock_shared();
@@ -966,11 +966,11 @@ namespace seq
 				if SEQ_UNLIKELY (!locks)
 					return this->get_node_global_lock(locks, hash, l);
 				// Returns node locked for given hash value
-				size_t hash_mask = d_hash_mask;
+				size_t hash_mask = AtomicLoad(d_hash_mask);
 				size_t pos = hash & hash_mask;
 				l = &locks->at(pos);
 				this->lock(*l);
-				while (hash_mask != d_hash_mask)
+				while (hash_mask != AtomicLoad(d_hash_mask))
 					update_lock(locks, hash, hash_mask, pos, l);
 				return pos;
 			}
@@ -1003,11 +1003,11 @@ namespace seq
 				if SEQ_UNLIKELY (!locks)
 					return get_node_shared_global_lock(locks, hash, l);
 				// Returns node locked for given hash value
-				size_t hash_mask = d_hash_mask;
+				size_t hash_mask = AtomicLoad(d_hash_mask);
 				size_t pos = hash & hash_mask;
 				l = &locks->at(pos);
 				this->lock_shared(*l);
-				while (hash_mask != d_hash_mask)
+				while (hash_mask != AtomicLoad(d_hash_mask))
 					update_lock_shared(locks, hash, hash_mask, pos, l);
 				return pos;
 			}
-- 
2.43.0


From 8af12e433e891445a4ebfb3267f318375902364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:02 +0000
Subject: [PATCH 009/119] fix: concurrent table: rehashing an emptied table
 holds the lock of its first bucket

---
 seq/internal/concurrent_hash_table.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index f8f315e..25cec9d 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -792,7 +792,8 @@ namespace seq
 					buckets = make_nodes(new_hash_mask + 1u);
 					values = make_value_nodes(new_hash_mask + 1u);
 
-					size_t count = (d_buckets != get_static_node()) ? d_hash_mask + 1u : 0u;
+					// An empty table has no bucket, but is still protected by the first lock
+					size_t count = d_hash_mask + 1u;
 					auto iter = typename lock_array::iterator(locks);
 
 					for (i = 0; i < count; ++i) {
@@ -850,7 +851,7 @@ namespace seq
 				if (is_concurrent && locks) {
 					// Unlock all nodes
 					auto iter = typename lock_array::iterator(locks);
-					size_t count = old_buckets ? old_hash_mask + 1u : 0u;
+					size_t count = old_hash_mask + 1u;
 					for (i = 0; i < count; ++i, ++iter)
 						iter->unlock();
 				}
-- 
2.43.0


From bf5121cba8ae2f9c8094dcaa612f7bd4f81ae9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:51 +0000
Subject: [PATCH 010/119] fix: concurrent table: a failed rehash only frees
 what was allocated and only unlocks what was locked

---
 seq/internal/concurrent_hash_table.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 25cec9d..9e299e2 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -782,6 +782,7 @@ namespace seq
 				node_type* buckets = nullptr;
 				value_node_type* values = nullptr;
 				size_t i = 0;
+				size_t locked = 0;
 
 				// Reset chain count
 				d_chain_count = 0;
@@ -799,8 +800,10 @@ namespace seq
 					for (i = 0; i < count; ++i) {
 
 						// Lock position
-						if (is_concurrent && locks)
+						if (is_concurrent && locks) {
 							iter->lock();
+							++locked;
+						}
 
 						d_buckets[i].for_each(d_values + i, [&](std::uint8_t* hashs, unsigned j, Value& val) {
 							auto pos = hash_key(extract_key::key(val)) & new_hash_mask;
@@ -827,13 +830,14 @@ namespace seq
 					}
 
 					// Destroy and deallocate
-					destroy_buckets(buckets, values, new_hash_mask + 1);
-
-					if (is_concurrent && locks) {
-						// Unlock locked nodes
-						for (size_t j = 0; j <= i; ++j)
-							locks->at(j).unlock();
-					}
+					if (values)
+						destroy_buckets(buckets, values, new_hash_mask + 1);
+					else if (buckets)
+						free_nodes(buckets, new_hash_mask + 1);
+
+					// Unlock locked nodes
+					for (size_t j = 0; j < locked; ++j)
+						locks->at(j).unlock();
 					throw;
 				}
 
-- 
2.43.0


From 69b313d3acf1498c03c52b104a42858fdaefdadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:56 +0000
Subject: [PATCH 011/119] fix: concurrent table: a copy construction that
 throws releases the internal data

---
 seq/internal/concurrent_hash_table.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 9e299e2..aa0c83a 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1685,9 +1685,7 @@ namespace seq
 			{
 			}
 			ConcurrentHashTable(const ConcurrentHashTable& other, const Alloc& alloc)
-			  : base_hash_equal(other)
-			  , Alloc(alloc)
-			  , d_data(PrivateData::make(alloc, other.hash_function(), other.key_eq()))
+			  : ConcurrentHashTable(other.hash_function(), other.key_eq(), alloc)
 			{
 				this->reserve(other.size());
 				other.visit_all([&](const Value& v) { this->emplace_policy_no_check<InsertConcurrentPolicy>(v); });
@@ -1697,9 +1695,7 @@ namespace seq
 			{
 			}
 			ConcurrentHashTable(ConcurrentHashTable&& other, const Alloc& alloc)
-			  : base_hash_equal(other)
-			  , Alloc(alloc)
-			  , d_data(PrivateData::make(alloc, other.hash_function(), other.key_eq()))
+			  : ConcurrentHashTable(other.hash_function(), other.key_eq(), alloc)
 			{
 				if (alloc == other.get_safe_allocator()) {
 					this->swap(other, false);
-- 
2.43.0


From c22928878eb83fd373691ef3cd0d68b55dad320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:17 +0000
Subject: [PATCH 012/119] fix: concurrent table: failing to allocate a bucket
 lock neither terminates nor leaves locks held

---
 seq/internal/concurrent_hash_table.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index aa0c83a..59af985 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -231,14 +231,14 @@ namespace seq
 				  , index(i)
 				{
 				}
-				auto operator*() const noexcept -> Lock&
+				auto operator*() const -> Lock&
 				{
 					lock_type* l = array->arrays[array_index].load(std::memory_order_relaxed);
 					if SEQ_UNLIKELY (!l)
 						l = array->make_array(array_index);
 					return l[index];
 				}
-				auto operator->() const noexcept -> Lock* { return std::pointer_traits<Lock*>::pointer_to(**this); }
+				auto operator->() const -> Lock* { return std::pointer_traits<Lock*>::pointer_to(**this); }
 				auto operator++() noexcept -> iterator&
 				{
 					if (++index == (1u << array_index)) {
@@ -1165,7 +1165,7 @@ namespace seq
 				// Lock rehash spinlock
 				LockUnique<node_lock> lock(d_rehash_lock);
 				// Clear tables
-				clear_no_lock();
+				destroy_buckets(d_buckets, d_values, d_hash_mask + 1);
 				// Destroy lock array
 				if (lock_array* locks = AtomicLoad(d_locks)) {
 					destroy_ptr(locks);
@@ -1457,8 +1457,12 @@ namespace seq
 				size_t count = d_hash_mask + 1;
 
 				if (is_concurrent && locks) {
-					// lock all buckets
+					// create the missing locks first: this might throw
 					auto iter = typename lock_array::iterator(locks);
+					for (size_t i = 0; i < count; ++i, ++iter)
+						*iter;
+					// lock all buckets
+					iter = typename lock_array::iterator(locks);
 					for (size_t i = 0; i < count; ++i, ++iter)
 						(*iter).lock();
 				}
-- 
2.43.0


From 75d9e8a895b6414918c72f7f64d6c49141b02e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 013/119] fix: concurrent table: visit_all with a modifying
 functor is exclusive while there are no bucket locks

---
 seq/internal/concurrent_hash_table.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 59af985..1c12dab 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1280,8 +1280,14 @@ namespace seq
 			template<class F>
 			bool visit_all(F&& fun)
 			{
-				// Avoid rehash while calling visit_all
-				LockShared<node_lock> lock(const_cast<node_lock&>(d_rehash_lock));
+				// Avoid rehash while calling visit_all.
+				// As long as there are no bucket locks, the rehash lock protects the elements and must be exclusive.
+				LockUnique<node_lock> unique_lock;
+				LockShared<node_lock> shared_lock;
+				if (AtomicLoad(d_locks))
+					shared_lock.init(d_rehash_lock);
+				else
+					unique_lock.init(d_rehash_lock);
 				if (d_buckets == get_static_node())
 					return true;
 
-- 
2.43.0


From ff30143da65f61cc73fb8eafc02a09f949e2ccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 014/119] fix: concurrent table: const visit_all stops when the
 functor returns false

---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 1c12dab..2cf7690 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1772,7 +1772,7 @@ namespace seq
 				if (!d)
 					return true;
 				for (unsigned i = 0; i < PrivateData::map_count; ++i)
-					if (!d->at(i).visit_all([&fun](const Value& v) { std::forward<F>(fun)(v); }))
+					if (!d->at(i).visit_all([&fun](const Value& v) { return std::forward<F>(fun)(v); }))
 						return false;
 				return true;
 			}
-- 
2.43.0


From 2e799020458323b43b8381d41080a545770628f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 015/119] fix: concurrent table: merging or comparing a table
 with itself does not lock the same mutex twice

---
 seq/internal/concurrent_hash_table.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 2cf7690..f1f4684 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1997,6 +1997,9 @@ namespace seq
 
 			auto merge(ConcurrentHashTable& other) -> size_t
 			{
+				// Merging with itself is a no-op (and would lock the same mutex twice)
+				if (this == std::addressof(other))
+					return 0;
 				// Lock internal data to avoid swap or move during merging
 				if constexpr (is_concurrent)
 					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));
@@ -2018,6 +2021,9 @@ namespace seq
 			template<class ExecPolicy>
 			auto merge(ExecPolicy&& p, ConcurrentHashTable& other) -> size_t
 			{
+				// Merging with itself is a no-op (and would lock the same mutex twice)
+				if (this == std::addressof(other))
+					return 0;
 				// Lock internal data to avoid swap or move during merging
 				if constexpr (is_concurrent)
 					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));
@@ -2041,6 +2047,9 @@ namespace seq
 
 			bool operator==(const ConcurrentHashTable& other) const
 			{
+				// A table is equal to itself (and locking the same mutex twice would block)
+				if (this == std::addressof(other))
+					return true;
 				// Lock internal data to avoid swap or move during comparison
 				if constexpr (is_concurrent)
 					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));
-- 
2.43.0


From 48a03c67a38d159883053439c7d81e0db0ae04e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 016/119] fix: concurrent table: copy assignment copies
 functors and allocator, and holds no lock of the source while modifying the
 destination

---
 seq/internal/concurrent_hash_table.hpp | 28 +++++++++++++++++---------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index f1f4684..08d7b21 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1734,17 +1734,25 @@ namespace seq
 			ConcurrentHashTable& operator=(const ConcurrentHashTable& other)
 			{
 				if (this != std::addressof(other)) {
-					clear();
-					{
-						// Allocator assignment
-						std::lock(d_data_lock, const_cast<data_lock_type&>(other.d_data_lock));
-						LockUnique<data_lock_type> l1(&d_data_lock, true);
-						LockUnique<data_lock_type> l2(&const_cast<data_lock_type&>(other.d_data_lock), true);
-
-						assign_allocator<Alloc>(*this, other.get_allocator());
-						assign_allocator<Alloc>(get_data_no_lock()->get_allocator(), other.get_allocator());
+					// Copy first: no lock of other is held while this table is modified
+					Alloc al = get_safe_allocator();
+					assign_allocator<Alloc>(al, other.get_safe_allocator());
+					ConcurrentHashTable tmp(other, al);
+
+					if constexpr (is_concurrent && std::is_empty_v<Hash> && std::is_empty_v<KeyEqual> && !assign_alloc<Alloc>::value) {
+						// Keep the internal data as other threads might be using it
+						clear();
+						tmp.visit_all([this](Value& v) { this->template emplace_policy<InsertConcurrentPolicy>([](const auto&) {}, std::move_if_noexcept(v)); });
+					}
+					else {
+						LockUnique<data_lock_type> lock(d_data_lock);
+						PrivateData* d = AtomicLoad(d_data);
+						d_data = AtomicLoad(tmp.d_data);
+						tmp.d_data = d;
+						if constexpr (!std::is_empty_v<Hash> || !std::is_empty_v<KeyEqual>)
+							static_cast<base_hash_equal&>(*this).swap(tmp);
+						assign_allocator<Alloc>(*this, al);
 					}
-					other.visit_all([this](const Value& v) { this->template emplace_policy<InsertConcurrentPolicy>([](const auto&) {}, v); });
 				}
 				return *this;
 			}
-- 
2.43.0


From 7c9ab08ce6d15c473009d44b2e9088620ce788bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 017/119] fix: concurrent table: merge and comparison of tables
 whose hash functions have different states

---
 seq/internal/concurrent_hash_table.hpp | 58 +++++++++++++-------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 08d7b21..6346148 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1129,14 +1129,6 @@ namespace seq
 				}
 			}
 
-			bool contains_value(const Value& key_value) const
-			{
-				// Returns true if given value (key AND value) exists in this table
-				size_t hash = hash_key(extract_key::key(key_value));
-				bool ret = false;
-				visit_hash(hash, extract_key::key(key_value), [&](const auto& v) { ret = extract_key::has_value ? (extract_key::value(v) == extract_key::value(key_value)) : true; });
-				return ret;
-			}
 			bool contains(const Value& key_value) const
 			{
 				// Returns true if given value (key AND value) exists in this table
@@ -1173,6 +1165,14 @@ namespace seq
 				}
 			}
 
+			/// @brief Returns true if given value (key AND value) exists in this table
+			bool contains_value(size_t hash, const Value& key_value) const
+			{
+				bool ret = false;
+				visit_hash(hash, extract_key::key(key_value), [&](const auto& v) { ret = extract_key::has_value ? (extract_key::value(v) == extract_key::value(key_value)) : true; });
+				return ret;
+			}
+
 			/// @brief Returns hash table size
 			SEQ_CONCURRENT_INLINE auto size() const noexcept -> size_t { return AtomicLoad(d_size); }
 
@@ -1487,24 +1487,6 @@ namespace seq
 						(*iter).unlock();
 				}
 			}
-
-			/// @brief Returns true if two ChainingHashTable are equals
-			bool equal_to(const ChainingHashTable& other) const
-			{
-				if (d_size != other.size())
-					return false;
-
-				return visit_all([&](const auto& v) { return other.contains_value(v); });
-			}
-
-			/// @brief insert all entries from other not found in this, and remove them from other
-			size_t merge(ChainingHashTable& other)
-			{
-				return other.erase_if([&](auto& v) {
-					size_t hash = hash_key(extract_key::key(v));
-					return this->emplace_policy<InsertConcurrentPolicy>(hash, std::move_if_noexcept(v));
-				});
-			}
 		};
 
 		/// @brief Base concurrent hash table class, used by both concurrent_set and concurrent_map.
@@ -2003,6 +1985,16 @@ namespace seq
 				}
 			}
 
+			/// @brief insert all entries from src not found in dst, and remove them from src
+			size_t merge_from(PrivateData& dst, hash_map& src)
+			{
+				// The hash functions might have different states
+				return src.erase_if([&](auto& v) {
+					size_t hash = dst.hash_key(extract_key::key(v));
+					return dst.at(index_from_hash(hash)).template emplace_policy<InsertConcurrentPolicy>(hash, std::move_if_noexcept(v));
+				});
+			}
+
 			auto merge(ConcurrentHashTable& other) -> size_t
 			{
 				// Merging with itself is a no-op (and would lock the same mutex twice)
@@ -2022,7 +2014,7 @@ namespace seq
 
 				size_t res = 0;
 				for (unsigned i = 0; i < PrivateData::map_count; ++i)
-					res += d1->at(i).merge(d2->at(i));
+					res += merge_from(*d1, d2->at(i));
 				return res;
 			}
 
@@ -2048,7 +2040,7 @@ namespace seq
 				std::atomic<size_t> res = 0;
 				std::for_each(std::forward<ExecPolicy>(p), d1->maps, d1->maps + PrivateData::map_count, [&](const auto& m) {
 					unsigned index = static_cast<unsigned>(&m - d1->maps);
-					res += d1->at(index).merge(d2->at(index));
+					res += merge_from(*d1, d2->at(index));
 				});
 				return res;
 			}
@@ -2073,8 +2065,16 @@ namespace seq
 				if (!d2)
 					return size() == 0;
 
+				if (size() != other.size())
+					return false;
+
+				// The hash functions might have different states
+				auto contained = [&](const Value& v) {
+					size_t hash = d2->hash_key(extract_key::key(v));
+					return d2->at(index_from_hash(hash)).contains_value(hash, v);
+				};
 				for (unsigned i = 0; i < PrivateData::map_count; ++i) {
-					if (!(d1->at(i).equal_to(d2->at(i))))
+					if (!d1->at(i).visit_all(contained))
 						return false;
 				}
 				return true;
-- 
2.43.0


From 128c2c545ac2e5de2bc199bf6c7f55f56d19a933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:51 +0000
Subject: [PATCH 018/119] fix: tiered_vector iterator arithmetic from an end
 position or on an empty container

---
 seq/tiered_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index c1b298a..14960ca 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -69,7 +69,8 @@ namespace seq
 
 			SEQ_ALWAYS_INLINE std::pair<cbuffer_pos, cbuffer_pos> update(size_type p) const noexcept
 			{
-				if (mgr)
+				// end position is always { 0, 0 }
+				if (mgr && p < mgr->size())
 					return mgr->indexes(p);
 				return { 0, 0 };
 			}
@@ -112,6 +113,8 @@ namespace seq
 
 			SEQ_ALWAYS_INLINE void offset(difference_type diff) noexcept
 			{
+				if (diff == 0)
+					return;
 				auto idx = indexes.second + diff;
 				if (idx >= 0 && idx < mgr->d_buckets[static_cast<size_t>(indexes.first)].bucket->size) {
 					indexes.second = static_cast<int>(idx);
-- 
2.43.0


From 26553b504bc56b777b6d70aabb50f5595696a01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:51 +0000
Subject: [PATCH 019/119] fix: tiered_vector for_each on an empty range of an
 empty container

---
 seq/tiered_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 14960ca..d28d00a 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1621,6 +1621,8 @@ namespace seq
 			template<class Functor>
 			auto for_each(size_type start, size_type end, Functor fun) const -> Functor
 			{
+				if (start == end)
+					return fun;
 				size_type remaining = end - start;
 				size_type bindex = bucket_index(start);
 				size_type pos = static_cast<size_type>(bucket_pos(start));
@@ -1655,6 +1657,8 @@ namespace seq
 			template<class Functor>
 			auto for_each(size_type start, size_type end, Functor fun) -> Functor
 			{
+				if (start == end)
+					return fun;
 				// Construct/fill out using values from start to end
 
 				size_type remaining = end - start;
-- 
2.43.0


From e01be9b298ddd38cfad76badfc6289d2a40b7c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:32 +0000
Subject: [PATCH 020/119] fix: tiered_vector emplace in a full bucket returns
 the new element

---
 seq/tiered_vector.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index d28d00a..7ae20d0 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1930,7 +1930,8 @@ namespace seq
 				if (d_buckets[0]->isFull()) {
 
 					// All functions might throw, fine
-					res = create_back_bucket()->emplace_back(std::move(d_buckets[0]->insert_pop_back(index, std::forward<Args>(args)...)));
+					create_back_bucket()->emplace_back(std::move(d_buckets[0]->insert_pop_back(index, std::forward<Args>(args)...)));
+					res = &(*d_buckets[0].bucket)[index];
 					if (StoreBackValues) {
 						d_buckets.back().update();
 						d_buckets[0].update();
@@ -1966,7 +1967,7 @@ namespace seq
 					// Might throw, fine
 					T tmp = d_buckets[0]->insert_pop_front(index, std::forward<Args>(args)...);
 					try {
-						res = create_front_bucket()->emplace_back(std::move(tmp));
+						create_front_bucket()->emplace_back(std::move(tmp));
 					}
 					catch (...) {
 						// check if front buffer is empty
@@ -1978,6 +1979,7 @@ namespace seq
 						d_buckets[0].update();
 						d_buckets[1].update();
 					}
+					res = &at(pos);
 				}
 				else {
 					// we are going to loose value at index 0, save it
@@ -2043,7 +2045,7 @@ namespace seq
 					if (StoreBackValues)
 						d_buckets[bucket_index].update();
 					try {
-						res = create_back_bucket()->emplace_back(std::move(tmp));
+						create_back_bucket()->emplace_back(std::move(tmp));
 					}
 					catch (...) {
 						// Remove empty back bucket
@@ -2053,6 +2055,7 @@ namespace seq
 					}
 					if (StoreBackValues)
 						d_buckets.back().update();
+					res = &at(pos);
 				}
 				else {
 
-- 
2.43.0


From 4f780c4503a74e9c7e5b22d5b5f1c26fc4308dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:32 +0000
Subject: [PATCH 021/119] fix: tiered_vector assign of an empty range

---
 seq/tiered_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 7ae20d0..a6b0f72 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2836,7 +2836,7 @@ namespace seq
 			}
 			else
 				resize(count);
-			manager()->for_each(0, size(), [&](T& v) {
+			for_each(0, size(), [&](T& v) {
 				v = *first;
 				++first;
 			});
-- 
2.43.0


From ac931cc28c4394b59475dd50c5545b4d8ace745e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 022/119] fix: tiered_vector insertion of one of its own
 elements

---
 seq/tiered_vector.hpp | 169 +++++++++++++++++++++---------------------
 1 file changed, 83 insertions(+), 86 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index a6b0f72..98c9c3a 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -500,6 +500,40 @@ namespace seq
 			}
 		};
 
+		// Value to insert in a CircularBuffer, built before shifting any element:
+		// the arguments might refer to an element of the buffer, and a failed construction leaves the buffer untouched.
+		template<class T, bool Relocatable>
+		class CBufferValue
+		{
+			alignas(T) unsigned char d_storage[sizeof(T)];
+			bool d_placed = false;
+
+		public:
+			template<class... Args>
+			SEQ_ALWAYS_INLINE CBufferValue(Args&&... args)
+			{
+				construct_ptr(get(), std::forward<Args>(args)...);
+			}
+			CBufferValue(const CBufferValue&) = delete;
+			auto operator=(const CBufferValue&) -> CBufferValue& = delete;
+			SEQ_ALWAYS_INLINE ~CBufferValue() noexcept
+			{
+				if (!d_placed)
+					destroy_ptr(get());
+			}
+			SEQ_ALWAYS_INLINE auto get() noexcept -> T* { return reinterpret_cast<T*>(d_storage); }
+			// Move the value to dst: raw memory for relocatable types, existing element otherwise
+			SEQ_ALWAYS_INLINE void place(T* dst) noexcept(Relocatable || std::is_nothrow_move_assignable_v<T>)
+			{
+				if constexpr (Relocatable) {
+					memcpy(static_cast<void*>(dst), static_cast<const void*>(d_storage), sizeof(T));
+					d_placed = true;
+				}
+				else
+					*dst = std::move(*get());
+			}
+		};
+
 		// Circular buffer class used internally by tiered_vector
 		// Actuall data are located in the same memory block and starts at start_data_T
 		template<class T>
@@ -844,6 +878,8 @@ namespace seq
 			auto emplace(cbuffer_pos pos, Args&&... args) -> T*
 			{
 				SEQ_ASSERT_DEBUG(size != max_size_, "cannot insert in a full circular buffer");
+				// Might throw, fine
+				CBufferValue<T, relocatable> value(std::forward<Args>(args)...);
 				if (pos > size / 2) {
 					move_right(pos);
 				}
@@ -852,23 +888,7 @@ namespace seq
 				}
 
 				T* res = &(*this)[pos];
-				if constexpr (relocatable) {
-					try {
-						construct_ptr(res, std::forward<Args>(args)...);
-					}
-					catch (...) {
-						// No choice but to destroy all values after pos and reduce the size in order to leave the buffer in a valid state
-						for (int i = pos + 1; i < size; ++i)
-							destroy_ptr(&(*this)[i]);
-						size = pos;
-						throw;
-					}
-				}
-				else {
-					// For non relocatable types, use move assignment to provide basic exception guarantee
-					*res = T(std::forward<Args>(args)...);
-				}
-
+				value.place(res);
 				return res;
 			}
 
@@ -881,6 +901,8 @@ namespace seq
 			auto insert_pop_back(cbuffer_pos pos, Args&&... args) -> T
 			{
 				SEQ_ASSERT_DEBUG(pos != max_size(), "invalid insertion position");
+				// Might throw, fine
+				CBufferValue<T, relocatable> value(std::forward<Args>(args)...);
 				// move elems after pos
 				T* p = &(*this)[size - 1];
 				// Might throw, fine
@@ -898,23 +920,7 @@ namespace seq
 					move_left_1(pos + 1);
 				}
 
-				if constexpr (relocatable) {
-					try {
-						construct_ptr(&(*this)[pos], std::forward<Args>(args)...);
-					}
-					catch (...) {
-						// No choice but to destroy all values after pos and reduce the size in order to leave the buffer in a valid state
-						for (int i = pos + 1; i < size; ++i)
-							destroy_ptr(&(*this)[i]);
-						size = pos;
-						throw;
-					}
-				}
-				else {
-					// For non relocatable types, use move assignment to provide basic exception guarantee
-					(*this)[pos] = T(std::forward<Args>(args)...);
-				}
-
+				value.place(&(*this)[pos]);
 				return res;
 			}
 			// Insert at given position while poping front
@@ -922,6 +928,8 @@ namespace seq
 			auto insert_pop_front(cbuffer_pos pos, Args&&... args) -> T
 			{
 				SEQ_ASSERT_DEBUG(pos != 0, "invalid insertion position");
+				// Might throw, fine
+				CBufferValue<T, relocatable> value(std::forward<Args>(args)...);
 				// move elems after pos
 				T* p = &(*this)[0];
 				// Might throw, fine
@@ -938,24 +946,7 @@ namespace seq
 					move_right_1(pos - 1);
 				}
 
-				p = &(*this)[pos - 1];
-				if constexpr (relocatable) {
-					try {
-						construct_ptr(p, std::forward<Args>(args)...);
-					}
-					catch (...) {
-						// No choice but to destroy all values after pos and reduce the size in order to leave the buffer in a valid state
-						for (int i = pos; i < size; ++i)
-							destroy_ptr(&(*this)[i]);
-						size = pos - 1;
-						throw;
-					}
-				}
-				else {
-					// For non relocatable types, use move assignment to provide basic exception guarantee
-					*p = T(std::forward<Args>(args)...);
-				}
-
+				value.place(&(*this)[pos - 1]);
 				return res;
 			}
 
@@ -2706,8 +2697,8 @@ namespace seq
 		// Make the manager a pointer to keep iterator validity in case of swap
 		bucket_manager* d_manager;
 
-		// Update the bucket size if necessary, used when inserting/deleting single elements
-		SEQ_ALWAYS_INLINE void update_bucket_size()
+		// Returns true if the bucket size must be updated before inserting/deleting a single element
+		SEQ_ALWAYS_INLINE auto need_bucket_size_update() const noexcept -> bool
 		{
 			static constexpr size_t minb = static_cast<size_t>(min_block_size);
 			static constexpr size_t maxb = static_cast<size_t>(max_block_size);
@@ -2715,7 +2706,28 @@ namespace seq
 			static constexpr size_t mask = (mul_factor * mul_factor) - 1ULL;
 			// Check the bucket size every (min_block_size * min_block_size) insertions/deletions
 			if SEQ_UNLIKELY (min_block_size != maxb && (size() < 64U || (size() & mask) == 0))
+				return findBSize(size()) != manager()->bucket_size();
+			return false;
+		}
+		// Update the bucket size if necessary, used when deleting single elements
+		SEQ_ALWAYS_INLINE void update_bucket_size()
+		{
+			if SEQ_UNLIKELY (need_bucket_size_update())
+				check_bucket_size();
+		}
+		// Insert a single element using given functor, and update the bucket size if necessary.
+		// Updating the bucket size moves all elements, therefore the new one must be built first as
+		// the arguments might refer to an element of this container.
+		template<class Fun, class... Args>
+		SEQ_ALWAYS_INLINE auto insert_single(Fun&& fun, Args&&... args) -> T&
+		{
+			make_manager_if_null();
+			if SEQ_UNLIKELY (need_bucket_size_update()) {
+				T tmp(std::forward<Args>(args)...);
 				check_bucket_size();
+				return fun(*manager(), std::move(tmp));
+			}
+			return fun(*manager(), std::forward<Args>(args)...);
 		}
 		// Find bucket size based on full tiered_vector size
 		auto findBSize(size_type size) const noexcept -> detail::cbuffer_pos
@@ -3055,9 +3067,12 @@ namespace seq
 				int bucket_size = findBSize(count);
 				// Update bucket size if necessary
 				if (bucket_size != manager()->bucket_size()) {
+					// value might refer to an element of this container
+					T tmp_value(value);
 					bucket_manager* tmp = make_manager(get_allocator(), std::move(*manager()), bucket_size, 0U, std::min(count, this->size()), get_allocator());
 					*d_manager = std::move(*tmp);
 					destroy_manager(tmp);
+					return manager()->resize(count, tmp_value);
 				}
 				manager()->resize(count, value);
 			}
@@ -3107,12 +3122,15 @@ namespace seq
 				int bucket_size = findBSize(count);
 				// Update bucket size if necessary
 				if (bucket_size != manager()->bucket_size()) {
+					// value might refer to an element of this container
+					T tmp_value(value);
 					size_type fsize = std::min(count, this->size());
 					size_type fstart =
 					  static_cast<size_t>(std::max(static_cast<difference_type>(this->size()) - static_cast<difference_type>(fsize), static_cast<difference_type>(0)));
 					bucket_manager* tmp = make_manager(get_allocator(), std::move(*manager()), bucket_size, fstart, fsize, get_allocator());
 					*d_manager = std::move(*tmp);
 					destroy_manager(tmp);
+					return manager()->resize_front(count, tmp_value);
 				}
 				manager()->resize_front(count, value);
 			}
@@ -3133,9 +3151,7 @@ namespace seq
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
 		SEQ_ALWAYS_INLINE void push_back(const T& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_back(value);
+			emplace_back(value);
 		}
 
 		/// @brief Appends the given element value to the end of the container using move semantic.
@@ -3143,9 +3159,7 @@ namespace seq
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
 		SEQ_ALWAYS_INLINE void push_back(T&& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_back(std::move(value));
+			emplace_back(std::move(value));
 		}
 
 		/// @brief Appends a new element to the end of the container
@@ -3156,9 +3170,7 @@ namespace seq
 		template<class... Args>
 		SEQ_ALWAYS_INLINE auto emplace_back(Args&&... args) -> T&
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			return manager()->emplace_back(std::forward<Args>(args)...);
+			return insert_single([](bucket_manager& m, auto&&... a) -> T& { return m.emplace_back(std::forward<decltype(a)>(a)...); }, std::forward<Args>(args)...);
 		}
 
 		/// @brief Appends the given element value to the beginning of the container.
@@ -3166,9 +3178,7 @@ namespace seq
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
 		SEQ_ALWAYS_INLINE void push_front(const T& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_front(value);
+			emplace_front(value);
 		}
 
 		/// @brief Appends the given element value to the beginning of the container using move semantic.
@@ -3176,9 +3186,7 @@ namespace seq
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
 		SEQ_ALWAYS_INLINE void push_front(T&& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_front(std::move(value));
+			emplace_front(std::move(value));
 		}
 
 		/// @brief Appends a new element to the beginning of the container
@@ -3189,9 +3197,7 @@ namespace seq
 		template<class... Args>
 		SEQ_ALWAYS_INLINE auto emplace_front(Args&&... args) -> T&
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			return manager()->emplace_front(std::forward<Args>(args)...);
+			return insert_single([](bucket_manager& m, auto&&... a) -> T& { return m.emplace_front(std::forward<decltype(a)>(a)...); }, std::forward<Args>(args)...);
 		}
 
 		/// @brief Insert \a value before \a pos
@@ -3200,9 +3206,7 @@ namespace seq
 		/// Basic exception guarantee.
 		SEQ_ALWAYS_INLINE void insert(size_type pos, const T& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->insert(pos, value);
+			emplace(pos, value);
 		}
 
 		/// @brief Insert \a value before \a pos using move semantic.
@@ -3211,9 +3215,7 @@ namespace seq
 		/// Basic exception guarantee.
 		SEQ_ALWAYS_INLINE void insert(size_type pos, T&& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->insert(pos, std::move(value));
+			emplace(pos, std::move(value));
 		}
 
 		/// @brief Insert \a value before \a it
@@ -3245,9 +3247,7 @@ namespace seq
 		template<class... Args>
 		SEQ_ALWAYS_INLINE auto emplace(size_type pos, Args&&... args) -> T&
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			return manager()->insert(pos, std::forward<Args>(args)...);
+			return insert_single([pos](bucket_manager& m, auto&&... a) -> T& { return m.insert(pos, std::forward<decltype(a)>(a)...); }, std::forward<Args>(args)...);
 		}
 
 		/// @brief Inserts a new element into the container directly before \a pos.
@@ -3259,9 +3259,7 @@ namespace seq
 		template<class... Args>
 		SEQ_ALWAYS_INLINE auto emplace(const_iterator pos, Args&&... args) -> T&
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			return manager()->insert(pos.absolutePos(), std::forward<Args>(args)...);
+			return emplace(static_cast<size_type>(pos.absolutePos()), std::forward<Args>(args)...);
 		}
 
 		/// @brief Inserts elements from range [first, last) before pos.
@@ -3348,9 +3346,8 @@ namespace seq
 		/// Basic exception guarantee.
 		SEQ_ALWAYS_INLINE auto erase(const_iterator it) -> iterator
 		{
-			update_bucket_size();
 			size_type pos = it.absolutePos();
-			manager()->erase(it.absolutePos());
+			erase(pos);
 			return iterator_at(pos);
 		}
 
-- 
2.43.0


From 00eba06c7cf0c474b1080bba906524a6639b09ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:41 +0000
Subject: [PATCH 023/119] fix: cvalue_iterator operators copying the value are
 only noexcept if the copy is

---
 seq/utils.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seq/utils.hpp b/seq/utils.hpp
index 18b9f44..2880f28 100644
--- a/seq/utils.hpp
+++ b/seq/utils.hpp
@@ -270,7 +270,7 @@ namespace seq
 			++pos;
 			return *this;
 		}
-		auto operator++(int) noexcept -> cvalue_iterator
+		auto operator++(int) noexcept(std::is_nothrow_copy_constructible_v<T>) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			++(*this);
@@ -282,7 +282,7 @@ namespace seq
 			--pos;
 			return *this;
 		}
-		auto operator--(int) noexcept -> cvalue_iterator
+		auto operator--(int) noexcept(std::is_nothrow_copy_constructible_v<T>) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			--(*this);
@@ -307,13 +307,13 @@ namespace seq
 	};
 
 	template<class T>
-	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept(std::is_nothrow_copy_constructible_v<T>) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res += diff;
 	}
 	template<class T>
-	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept(std::is_nothrow_copy_constructible_v<T>) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res -= diff;
-- 
2.43.0


From ffeb7ffe8f2a18680f38abe4bc73b5adce68f456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:41 +0000
Subject: [PATCH 024/119] fix: tiered_vector remains valid and leaks nothing
 when an allocation or element operation throws

---
 seq/tiered_vector.hpp | 253 +++++++++++++++++++++++-------------------
 1 file changed, 138 insertions(+), 115 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 98c9c3a..290690f 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -752,8 +752,9 @@ namespace seq
 			template<class Helper>
 			void push_front_n(cbuffer_pos n, const Helper& helper)
 			{
+				cbuffer_pos i = 0;
 				try {
-					for (cbuffer_pos i = 0; i < n; ++i) {
+					for (; i < n; ++i) {
 						if (--begin < 0)
 							begin = max_size1;
 						helper.construct(buffer() + begin);
@@ -762,6 +763,8 @@ namespace seq
 				}
 				catch (...) {
 					begin = (begin + 1) & max_size1;
+					// Remove already pushed values
+					pop_front_n(i);
 					throw;
 				}
 			}
@@ -880,16 +883,28 @@ namespace seq
 				SEQ_ASSERT_DEBUG(size != max_size_, "cannot insert in a full circular buffer");
 				// Might throw, fine
 				CBufferValue<T, relocatable> value(std::forward<Args>(args)...);
-				if (pos > size / 2) {
-					move_right(pos);
+				const bool right = pos > size / 2;
+				const cbuffer_pos prev_size = size;
+				try {
+					if (right)
+						move_right(pos);
+					else
+						move_left(pos);
+
+					T* res = &(*this)[pos];
+					value.place(res);
+					return res;
 				}
-				else {
-					move_left(pos);
+				catch (...) {
+					// Keep the same size, only possible for non relocatable types
+					if (size != prev_size) {
+						if (right)
+							pop_back();
+						else
+							pop_front();
+					}
+					throw;
 				}
-
-				T* res = &(*this)[pos];
-				value.place(res);
-				return res;
 			}
 
 			// Insert value at given position. Only works if the buffer is not full.
@@ -1024,82 +1039,42 @@ namespace seq
 
 			// Erase element at given position and push back value
 			// This function might throw, but always leave the buffer in a valid state
-			void erase_push_back(cbuffer_pos pos, T&& value)
+			// Erase element at given position and push value back or front.
+			// Only works for a full buffer, which remains full even if an exception is thrown.
+			template<bool Back>
+			void erase_replace(cbuffer_pos pos, T&& value)
 			{
+				// Might throw, fine
+				CBufferValue<T, relocatable> tmp(std::move(value));
+
 				// for relocatable type, destroy value at pos since it will be memcpied over
 				if constexpr (relocatable)
 					destroy_ptr(&(*this)[pos]);
 
-				if (pos > size / 2) {
-					// move elems after pos
-					try {
-						--size;
+				const bool right = pos > size / 2;
+				--size;
+				try {
+					if (right)
 						move_erase_right_1(pos);
-					}
-					catch (...) {
-						++size;
-						throw;
-					}
-
-					if constexpr (!relocatable)
-						destroy_ptr(&(*this)[size]);
-				}
-				else {
-					// move elems after pos
-					try {
-						--size; // decrement size
+					else
 						move_erase_left_1(pos);
-					}
-					catch (...) {
-						++size;
-						throw;
-					}
-
-					if constexpr (!relocatable)
-						destroy_ptr(&(*this)[0]);
-					begin = (begin + 1) & (max_size1); // increment begin
 				}
+				catch (...) {
+					++size;
+					throw;
+				}
+				++size;
 
-				construct_ptr(&at(size), std::move(value));
-				size++;
-			}
-
-			void erase_push_front(cbuffer_pos pos, T&& value)
-			{
-				// for relocatable type, destroy value at pos since it will be memcpied over
-				if constexpr (relocatable)
-					destroy_ptr(&(*this)[pos]);
+				// The free slot is either the last (right) or first (left) one
+				if (Back && !right)
+					begin = (begin + 1) & (max_size1);
+				else if (!Back && right && --begin < 0)
+					begin = max_size1;
 
-				if (pos > size / 2) {
-					// move elems after pos
-					try {
-						--size;
-						move_erase_right_1(pos);
-					}
-					catch (...) {
-						++size;
-						throw;
-					}
-					if constexpr (!relocatable)
-						destroy_ptr(&(*this)[size]);
-				}
-				else {
-					// move elems after pos
-					try {
-						--size; // decrement size
-						move_erase_left_1(pos);
-					}
-					catch (...) {
-						++size;
-						throw;
-					}
-					if constexpr (!relocatable)
-						destroy_ptr(&(*this)[0]);
-					begin = (begin + 1) & (max_size1); // increment begin
-				}
-				// Might throw, fine
-				emplace_front(std::move(value));
+				tmp.place(Back ? &back() : &front());
 			}
+			void erase_push_back(cbuffer_pos pos, T&& value) { erase_replace<true>(pos, std::move(value)); }
+			void erase_push_front(cbuffer_pos pos, T&& value) { erase_replace<false>(pos, std::move(value)); }
 
 			// Erase value at given position.
 			void erase(cbuffer_pos pos)
@@ -1310,6 +1285,17 @@ namespace seq
 			cbuffer_pos d_bucket_size1;	// used for fast random access, single bucket size - 1
 			cbuffer_pos d_bucket_size_bits; // used for fast random access, single bucket size log2
 
+			// Destroy all elements of a bucket manager
+			struct DestroyGuard
+			{
+				BucketManager* manager;
+				~DestroyGuard() noexcept
+				{
+					if (manager)
+						manager->destroy_all();
+				}
+			};
+
 			// Update back value for all buckets
 			void update_all_back_values() noexcept
 			{
@@ -1380,6 +1366,9 @@ namespace seq
 				// Get new bucket count
 				size_type bucket_count = full_size / static_cast<size_t>(new_bucket_size) + (full_size % static_cast<size_t>(new_bucket_size) ? 1 : 0);
 
+				// Destroy already copied elements if an exception is thrown
+				DestroyGuard guard{ this };
+
 				if (bucket_count == 1) {
 					// There is only one bucket: just fill front buffer
 					// Might throw, fine
@@ -1413,7 +1402,6 @@ namespace seq
 							--ptr;
 							for (T* p = current->buffer(); p != ptr; ++p)
 								destroy_ptr(p);
-							this->remove_back_bucket();
 							throw;
 						}
 						size_type copied = end - pos;
@@ -1432,6 +1420,8 @@ namespace seq
 					}
 				}
 
+				guard.manager = nullptr;
+
 				// Update back values if necessary
 				update_all_back_values();
 			}
@@ -1459,6 +1449,11 @@ namespace seq
 				size_type bucket_count = full_size / static_cast<size_type>(new_bucket_size) + ((full_size % static_cast<size_type>(new_bucket_size)) ? 1 : 0);
 				if (bucket_count == 0)
 					return;
+
+				// Destroy already moved elements as well as other's elements if an exception is thrown
+				DestroyGuard guard{ this };
+				DestroyGuard other_guard{ &other };
+
 				if (bucket_count == 1) {
 					// Fill front buffer
 					BucketType* current = create_front_bucket();
@@ -1467,8 +1462,8 @@ namespace seq
 					for (size_type i = start; i < start + full_size; ++i, ++d_size)
 						current->emplace_back(std::move(other.at(i)));
 
-					// Destroy/deallocate the content of other
-					other.destroy_all();
+					// Destroy/deallocate the content of other, done by other_guard
+					guard.manager = nullptr;
 
 					// Update back values if necessary
 					update_all_back_values();
@@ -1515,8 +1510,6 @@ namespace seq
 						--ptr;
 						for (T* p = current->buffer(); p != ptr; ++p)
 							destroy_ptr(p);
-						this->remove_back_bucket();
-						other.destroy_all();
 						throw;
 					}
 
@@ -1535,14 +1528,8 @@ namespace seq
 					}
 				}
 
-				// destroy buckets after
-				for (; bindex < other.d_buckets.size(); ++bindex) {
-					if (other.d_buckets[bindex].bucket) {
-						other.destroy_bucket(other.d_buckets[bindex].bucket);
-						other.d_buckets[bindex].bucket = nullptr;
-					}
-				}
-				other.d_buckets.clear();
+				// Remaining buckets of other are destroyed by other_guard
+				guard.manager = nullptr;
 
 				// Update back values if necessary
 				update_all_back_values();
@@ -1590,6 +1577,7 @@ namespace seq
 						destroy_bucket(it->bucket);
 				}
 				d_buckets.clear();
+				d_size = 0;
 			}
 
 			// Move copy
@@ -1864,6 +1852,17 @@ namespace seq
 				destroy_bucket(d_buckets.front().bucket);
 				d_buckets.erase(d_buckets.begin());
 			}
+			// Remove extremity bucket if empty, used when a new bucket could not be filled
+			void remove_empty_back_bucket() noexcept
+			{
+				if (d_buckets.size() > 1 && d_buckets.back()->size == 0)
+					remove_back_bucket();
+			}
+			void remove_empty_front_bucket() noexcept
+			{
+				if (d_buckets.size() > 1 && d_buckets.front()->size == 0)
+					remove_front_bucket();
+			}
 			// Make sure at least one bucket is present
 			SEQ_ALWAYS_INLINE void ensure_has_bucket()
 			{
@@ -1883,7 +1882,14 @@ namespace seq
 				if SEQ_UNLIKELY (bucket->size == d_bucket_size) {
 					bucket = create_back_bucket();
 				}
-				T* ptr = bucket->emplace_back(std::forward<Args>(args)...);
+				T* ptr;
+				try {
+					ptr = bucket->emplace_back(std::forward<Args>(args)...);
+				}
+				catch (...) {
+					remove_empty_back_bucket();
+					throw;
+				}
 				if (StoreBackValues)
 					d_buckets.back().update();
 				d_size++;
@@ -1903,7 +1909,14 @@ namespace seq
 				if SEQ_UNLIKELY (bucket->size == d_bucket_size)
 					bucket = create_front_bucket();
 
-				T* res = bucket->emplace_front(std::forward<Args>(args)...);
+				T* res;
+				try {
+					res = bucket->emplace_front(std::forward<Args>(args)...);
+				}
+				catch (...) {
+					remove_empty_front_bucket();
+					throw;
+				}
 				if (StoreBackValues)
 					d_buckets.front().update();
 				d_size++;
@@ -1921,7 +1934,14 @@ namespace seq
 				if (d_buckets[0]->isFull()) {
 
 					// All functions might throw, fine
-					create_back_bucket()->emplace_back(std::move(d_buckets[0]->insert_pop_back(index, std::forward<Args>(args)...)));
+					BucketType* back = create_back_bucket();
+					try {
+						back->emplace_back(d_buckets[0]->insert_pop_back(index, std::forward<Args>(args)...));
+					}
+					catch (...) {
+						remove_empty_back_bucket();
+						throw;
+					}
 					res = &(*d_buckets[0].bucket)[index];
 					if (StoreBackValues) {
 						d_buckets.back().update();
@@ -1961,9 +1981,7 @@ namespace seq
 						create_front_bucket()->emplace_back(std::move(tmp));
 					}
 					catch (...) {
-						// check if front buffer is empty
-						if (d_buckets[0]->size == 0)
-							this->remove_front_bucket();
+						remove_empty_front_bucket();
 						throw;
 					}
 					if (StoreBackValues) {
@@ -2039,9 +2057,7 @@ namespace seq
 						create_back_bucket()->emplace_back(std::move(tmp));
 					}
 					catch (...) {
-						// Remove empty back bucket
-						if (d_buckets.back()->size == 0)
-							remove_back_bucket();
+						remove_empty_back_bucket();
 						throw;
 					}
 					if (StoreBackValues)
@@ -2077,7 +2093,13 @@ namespace seq
 						if (StoreBackValues)
 							d_buckets.back().update();
 						bucket = create_back_bucket();
-						bucket->emplace_front(std::move(tmp));
+						try {
+							bucket->emplace_front(std::move(tmp));
+						}
+						catch (...) {
+							remove_empty_back_bucket();
+							throw;
+						}
 						if (StoreBackValues)
 							d_buckets.back().update();
 					}
@@ -2174,13 +2196,20 @@ namespace seq
 			}
 			SEQ_ALWAYS_INLINE void erase_left(size_type bucket_index, int index)
 			{
-				// shift left values
+				// Shift left values, starting at bucket first
+				size_type first = 1;
 				T tmp = std::move((d_buckets.front().bucket)->back());
 				d_buckets.front().bucket->pop_back();
-				if (StoreBackValues)
+				d_size--;
+				if (d_buckets.front()->size == 0) {
+					remove_front_bucket();
+					bucket_index--;
+					first = 0;
+				}
+				else if (StoreBackValues)
 					d_buckets.front().update();
 
-				for (size_type i = 1; i < bucket_index; ++i) {
+				for (size_type i = first; i < bucket_index; ++i) {
 					// Might throw, fine
 					bucket(i)->push_front_pop_back(tmp);
 					if (StoreBackValues)
@@ -2192,9 +2221,6 @@ namespace seq
 
 				if (StoreBackValues)
 					d_buckets[bucket_index].update();
-				if (d_buckets.front()->size == 0 && d_buckets.size() > 1) {
-					remove_front_bucket();
-				}
 			}
 			SEQ_ALWAYS_INLINE void erase_right(size_type bucket_index, int index)
 			{
@@ -2217,6 +2243,7 @@ namespace seq
 				}
 				else if (StoreBackValues)
 					d_buckets.back().update();
+				d_size--;
 			}
 			void erase_middle(size_type pos)
 			{
@@ -2236,6 +2263,7 @@ namespace seq
 					}
 					else if (StoreBackValues)
 						d_buckets.front().update();
+					d_size--;
 				}
 				else if (bucket_index == d_buckets.size() - 1) {
 					// remove from last bucket
@@ -2248,6 +2276,7 @@ namespace seq
 					}
 					else if (StoreBackValues)
 						d_buckets.back().update();
+					d_size--;
 				}
 				else if (pos < d_size / 2) {
 					erase_left(bucket_index, index);
@@ -2255,8 +2284,6 @@ namespace seq
 				else {
 					erase_right(bucket_index, index);
 				}
-
-				d_size--;
 			}
 
 			template<class... U>
@@ -2681,6 +2708,7 @@ namespace seq
 			}
 			catch (...) {
 				alloc.deallocate(res, 1);
+				throw;
 			}
 			return res;
 		}
@@ -2879,8 +2907,7 @@ namespace seq
 		/// @param value the value to initialize elements of the container with
 		/// @param alloc allocator object
 		tiered_vector(size_type count, const T& value, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			resize(count, value);
 		}
@@ -2888,8 +2915,7 @@ namespace seq
 		/// @param count new tiered_vector size
 		/// @param alloc allocator object
 		explicit tiered_vector(size_type count, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			resize(count);
 		}
@@ -2925,8 +2951,7 @@ namespace seq
 		/// @param other another container to be used as source to initialize the elements of the container with
 		/// @param alloc allocator object
 		tiered_vector(tiered_vector&& other, const Allocator& alloc)
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			if (alloc == other.get_allocator()) {
 				std::swap(d_manager, other.d_manager);
@@ -2940,8 +2965,7 @@ namespace seq
 		/// @param lst initializer list
 		/// @param alloc allocator object
 		tiered_vector(const std::initializer_list<T>& lst, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			assign(lst.begin(), lst.end());
 		}
@@ -2952,8 +2976,7 @@ namespace seq
 		/// @param alloc allocator object
 		template<class Iter>
 		tiered_vector(Iter first, Iter last, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			assign(first, last);
 		}
-- 
2.43.0


From 60a8747d7cebe7d9b360f0d7dd2cee93d879fe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:43 +0000
Subject: [PATCH 025/119] fix: sequence: order past-the-end iterators after all
 elements and compare iterators of empty sequences

---
 seq/sequence.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index c525005..0776787 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -351,6 +351,8 @@ namespace seq
 			// Distance between iterators
 			static auto distance(const sequence_const_iterator& it1, const sequence_const_iterator& it2) -> difference_type
 			{
+				if (it1 == it2)
+					return 0;
 				if (it1.node == it2.node) {
 					// Same node
 					if (it1.pos > it2.pos) {
@@ -469,12 +471,13 @@ namespace seq
 		template<class List>
 		SEQ_ALWAYS_INLINE bool operator>(const sequence_const_iterator<List>& a, const sequence_const_iterator<List>& b) noexcept
 		{
-			return (a.node->node_index > b.node->node_index) || ((a.node->node_index == b.node->node_index) && ((a.pos) > (b.pos)));
+			// Note: nodes are null for empty sequences
+			return a.node == b.node ? a.pos > b.pos : a.node->node_index > b.node->node_index;
 		}
 		template<class List>
 		SEQ_ALWAYS_INLINE bool operator<(const sequence_const_iterator<List>& a, const sequence_const_iterator<List>& b) noexcept
 		{
-			return (a.node->node_index < b.node->node_index) || ((a.node->node_index == b.node->node_index) && ((a.pos) < (b.pos)));
+			return a.node == b.node ? a.pos < b.pos : a.node->node_index < b.node->node_index;
 		}
 		template<class List>
 		SEQ_ALWAYS_INLINE bool operator>=(const sequence_const_iterator<List>& a, const sequence_const_iterator<List>& b) noexcept
@@ -779,7 +782,8 @@ namespace seq
 				endNode()->prev_free = endNode()->next_free = endNode();
 				endNode()->used = full;
 				endNode()->start = endNode()->end = 0;
-				endNode()->node_index = 0ULL;
+				// Past-the-end comes after all other nodes
+				endNode()->node_index = LLONG_MAX;
 			}
 
 			SEQ_ALWAYS_INLINE auto endNode() noexcept -> chunk_type* { return static_cast<chunk_type*>(&end); }
@@ -879,7 +883,8 @@ namespace seq
 								if (vec_chunk && node != endNode())
 									vec_chunk->push_back(node);
 								index = 0;
-								node->node_index = static_cast<std::int64_t>(chunks++);
+								if (node != endNode())
+									node->node_index = static_cast<std::int64_t>(chunks++);
 							}
 							++it;
 						}
-- 
2.43.0


From dd9dd2bea28a7acc29328b185656eab52e651b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:58 +0000
Subject: [PATCH 026/119] fix: sequence: stop shrinking resize, resize_front
 and copy at the requested size within the last chunk

---
 seq/sequence.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 0776787..8d9c225 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1289,8 +1289,10 @@ namespace seq
 				difference_type diff = static_cast<difference_type>(size() - osize);
 
 				// empty last chunk
-				while (last == d_data->end.prev && diff--)
+				while (diff > 0 && last == d_data->end.prev) {
 					pop_back();
+					--diff;
+				}
 
 				while (diff > static_cast<difference_type>(chunk_type::count)) {
 					// Destroy full chunks
@@ -1812,8 +1814,10 @@ namespace seq
 				difference_type diff = static_cast<difference_type>(size() - new_size);
 
 				// empty last chunk
-				while (last == d_data->end.prev && diff--)
+				while (diff > 0 && last == d_data->end.prev) {
 					pop_back();
+					--diff;
+				}
 
 				while (diff > static_cast<difference_type>(chunk_type::count)) {
 					// destroy full chunks
@@ -1939,8 +1943,10 @@ namespace seq
 				difference_type diff = static_cast<difference_type>(size() - new_size);
 
 				// empty last chunk
-				while (front == d_data->end.next && diff--)
+				while (diff > 0 && front == d_data->end.next) {
 					pop_front();
+					--diff;
+				}
 
 				while (diff > static_cast<difference_type>(chunk_type::count)) {
 					// destroy full chunks
-- 
2.43.0


From 96de68ec0a8ed0dfe0b57167f3d767b5fa54f6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:33 +0000
Subject: [PATCH 027/119] fix: sequence: do not keep a deallocated chunk in the
 chunk list used by sort()

---
 seq/sequence.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 8d9c225..c8b8b55 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -797,7 +797,7 @@ namespace seq
 				if (vec_chunk) {
 					vec_chunk->clear();
 					// throw now and not later
-					vec_chunk->reserve(size / chunk_type::count);
+					vec_chunk->reserve(this->chunks);
 				}
 
 				// Does nothing if the sequence is alreay compact
@@ -915,6 +915,9 @@ namespace seq
 					// Deallocate next nodes (never throws)
 					chunk_type* _del = static_cast<chunk_type*>(node->next);
 					if (node->start == node->end) {
+						// Remove the (now empty) last node
+						if (vec_chunk)
+							vec_chunk->pop_back();
 						_del = node;
 						last = static_cast<chunk_type*>(node->prev);
 					}
-- 
2.43.0


From 2e955ee66373008a7777716107b7ccf21b072a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:33 +0000
Subject: [PATCH 028/119] fix: net_sort: sort blocks of 8 values with a stable
 network

---
 seq/algorithm.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index b3a6f5e..7abde31 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -834,21 +834,27 @@ namespace seq
 #define CHECK_4_NO_OVERLAPP(a, b, c, d, e, f, g, h)                                                                                                                                                    \
 	CHECK_2_NO_OVERLAPP(a, b, c, d);                                                                                                                                                               \
 	CHECK_2_NO_OVERLAPP(e, f, g, h)
+#define CHECK_3_NO_OVERLAPP(a, b, c, d, e, f)                                                                                                                                                          \
+	CHECK_2_NO_OVERLAPP(a, b, c, d);                                                                                                                                                               \
+	CHECK_2(e, f)
 
 		template<class T, class Cmp>
 		SEQ_ALWAYS_INLINE void network_sort_8(T&& a0, T&& a1, T&& a2, T&& a3, T&& a4, T&& a5, T&& a6, T&& a7, Cmp cmp)
 		{
+			// Odd-even transposition: only adjacent values are exchanged, which keeps the sort stable
+			CHECK_4_NO_OVERLAPP(0, 1, 2, 3, 4, 5, 6, 7);
+			CHECK_3_NO_OVERLAPP(1, 2, 3, 4, 5, 6);
+			CHECK_4_NO_OVERLAPP(0, 1, 2, 3, 4, 5, 6, 7);
+			CHECK_3_NO_OVERLAPP(1, 2, 3, 4, 5, 6);
+			CHECK_4_NO_OVERLAPP(0, 1, 2, 3, 4, 5, 6, 7);
+			CHECK_3_NO_OVERLAPP(1, 2, 3, 4, 5, 6);
 			CHECK_4_NO_OVERLAPP(0, 1, 2, 3, 4, 5, 6, 7);
-			CHECK_4_NO_OVERLAPP(0, 2, 1, 3, 4, 6, 5, 7);
-			CHECK_4_NO_OVERLAPP(0, 4, 1, 5, 2, 6, 3, 7);
-			CHECK_2_NO_OVERLAPP(2, 4, 3, 5);
-			CHECK_2_NO_OVERLAPP(1, 4, 3, 6);
-			CHECK_2_NO_OVERLAPP(1, 2, 3, 4);
-			CHECK_2(5, 6);
+			CHECK_3_NO_OVERLAPP(1, 2, 3, 4, 5, 6);
 		}
 
 #undef CHECK_2
 #undef CHECK_2_NO_OVERLAPP
+#undef CHECK_3_NO_OVERLAPP
 #undef CHECK_4_NO_OVERLAPP
 
 		template<unsigned N, class Iter, class Cmp>
-- 
2.43.0


From 887e2c0fab685c4b91a6a7966401538a5307fd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:03 +0000
Subject: [PATCH 029/119] fix: sequence: reset the free list links of the last
 chunk in shrink_to_fit()

---
 seq/sequence.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index c8b8b55..7173858 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -948,8 +948,10 @@ namespace seq
 				chunk_type* last = static_cast<chunk_type*>(endNode()->prev);
 				if (last->used == full)
 					endNode()->prev_free = endNode()->next_free = endNode();
-				else
+				else {
 					endNode()->prev_free = endNode()->next_free = last;
+					last->prev_free = last->next_free = endNode();
+				}
 			}
 
 			// Returns a const_iterator at given position
-- 
2.43.0


From d6717b6dc7dfd50d407102d319347eed9664169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:27 +0000
Subject: [PATCH 030/119] fix: sequence: do not leak when a constructor throws

---
 seq/sequence.hpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 7173858..68b425a 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1387,8 +1387,7 @@ namespace seq
 		/// @param value fill value
 		/// @param al allocator object
 		sequence(size_type count, const T& value, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al)
 		{
 			resize(count, value);
 		}
@@ -1396,16 +1395,14 @@ namespace seq
 		/// @param count initial size
 		/// @param al allocator object
 		explicit sequence(size_type count, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al)
 		{
 			resize(count);
 		}
 		/// @brief Copy constructor
 		/// @param other input sequence to copy
 		sequence(const sequence& other)
-		  : Allocator(copy_allocator(other.get_allocator()))
-		  , d_data(nullptr)
+		  : sequence(copy_allocator(other.get_allocator()))
 		{
 			if (other.size())
 				import(other);
@@ -1414,8 +1411,7 @@ namespace seq
 		/// @param other input sequence to copy
 		/// @param al allocator object
 		sequence(const sequence& other, const Allocator& al)
-		  : Allocator(al)
-		  , d_data(nullptr)
+		  : sequence(al)
 		{
 			if (other.size())
 				import(other);
@@ -1432,8 +1428,7 @@ namespace seq
 		/// @param other another container to be used as source to initialize the elements of the container with
 		/// @param alloc allocator object
 		sequence(sequence&& other, const Allocator& alloc)
-		  : Allocator(alloc)
-		  , d_data(make_data(alloc))
+		  : sequence(alloc)
 		{
 			if (alloc == other.get_allocator())
 				std::swap(other.d_data, d_data);
@@ -1446,8 +1441,7 @@ namespace seq
 		/// @param lst initializer list
 		/// @param al allocator object
 		sequence(const std::initializer_list<T>& lst, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al)
 		{
 			assign(lst.begin(), lst.end());
 		}
@@ -1458,8 +1452,7 @@ namespace seq
 		/// @param al allocator object
 		template<class Iter>
 		sequence(Iter first, Iter last, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al)
 		{
 			assign(first, last);
 		}
-- 
2.43.0


From ea2048088cb158730d894d95470241e50363978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:00 +0000
Subject: [PATCH 031/119] fix: sequence: keep shrink_to_fit() and sort()
 consistent when an element move throws

---
 seq/sequence.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 68b425a..1c0d065 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -891,8 +891,21 @@ namespace seq
 					}
 					catch (...) {
 						// Update current node bounds in case of exception
-						node->start = static_cast<int>(bit_scan_forward_64(node->used));
-						node->end = static_cast<int>(bit_scan_reverse_64(node->used)) + 1;
+						if (node->used) {
+							node->start = static_cast<int>(bit_scan_forward_64(node->used));
+							node->end = static_cast<int>(bit_scan_reverse_64(node->used)) + 1;
+						}
+						// Rebuild node indexes and the list of free nodes
+						endNode()->prev_free = endNode()->next_free = endNode();
+						std::int64_t node_index = 0;
+						for (auto* n = endNode()->next; n != endNode(); n = n->next) {
+							n->node_index = node_index++;
+							n->prev_free = n->next_free = endNode();
+							if (n->used != full) {
+								n->prev_free = endNode()->prev_free;
+								n->prev_free->next_free = endNode()->prev_free = n;
+							}
+						}
 						throw;
 					}
 
-- 
2.43.0


From 741411eef3bd30c475161c91fb83018b24baffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 032/119] fix: ordered hash tables: swap() left the hash and
 equality functors in place

---
 seq/ordered_map.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 7297ed9..a2d964c 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -536,7 +536,6 @@ namespace seq
 			  noexcept(std::declval<sequence_type&>().swap(std::declval<sequence_type&>())) && noexcept(std::declval<base_type&>().swap(std::declval<base_type&>())))
 			{
 				if (this != std::addressof(other)) {
-					std::swap(static_cast<base_type&>(*this), static_cast<base_type&>(other));
 					std::swap(d_buckets, other.d_buckets);
 					std::swap(d_hash_mask, other.d_hash_mask);
 					std::swap(d_hash_len, other.d_hash_len);
-- 
2.43.0


From 6f6acf8d04332c8bf235635274be99876cf9e7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 033/119] fix: ordered hash tables: rehash(n) with n too small
 for the elements looped forever, and a table rehashed for one element lost it

---
 seq/ordered_map.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index a2d964c..2bd669d 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -578,10 +578,14 @@ namespace seq
 
 				const bool null_size = (size == 0);
 
-				if (null_size)
-					size = static_cast<size_t>(static_cast<double>(this->size()) / static_cast<double>(d_load_factor));
+				// The elements must fit for the maximum load factor
+				const size_t min_size = static_cast<size_t>(static_cast<double>(this->size()) / static_cast<double>(d_load_factor));
+				if (size < min_size)
+					size = min_size;
 				if (size == 0)
 					return rehash(63, 6, d_seq.end(), d_seq.end()); // Minimum size is 64
+				if (size == 1)
+					size = 2; // a null mask means no table
 				size_t new_hash_mask;
 				size_t new_hash_len;
 				if ((size & (size - 1ULL)) == 0ULL)
-- 
2.43.0


From 8982a32ec8fabe9ebd18135b5e6559374a2d0ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 034/119] fix: ordered hash tables: rehash with duplicates
 removal probed past the end of the table

---
 seq/ordered_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 2bd669d..a395e32 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -429,7 +429,7 @@ namespace seq
 						node_type n = node_type(static_cast<tiny_hash>(h), static_cast<dist_type>(dist), it.as_uint());
 						std::swap(n, d_buckets[index]);
 						if (dist)
-							start_insert(d_buckets, bsize, index, static_cast<dist_type>(dist), n);
+							start_insert(d_buckets, new_hash_mask, index, static_cast<dist_type>(dist), n);
 					}
 					++it;
 				}
-- 
2.43.0


From c821f1ff7724ab5ae412d36262586d7f4d94e28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 035/119] fix: ordered hash tables: with linear probing, a key
 located after a tombstone was inserted twice and a lookup without empty
 bucket never ended

---
 seq/ordered_map.hpp | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index a395e32..77ec779 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -637,6 +637,21 @@ namespace seq
 				return d_hash_mask + 1;
 			}
 
+			template<class K>
+			SEQ_NOINLINE(auto)
+			find_linear(tiny_hash h, const node_type* it, const K& key) const -> const_iterator
+			{
+				// Key lookup with linear probing.
+				// All buckets might be either used or tombstones: visit each one at most once.
+				const auto* end = d_buckets + d_hash_mask;
+				for (size_t i = 0; i <= d_hash_mask && it->distance() != -1; ++i) {
+					if (h == it->hash() && (*this)(extract_key::key(sequence_node_value(*it)), key))
+						return const_iterator(it->node(), it->pos());
+					it = it == end ? d_buckets : it + 1;
+				}
+				return d_seq.end();
+			}
+
 			template<class K>
 			SEQ_ALWAYS_INLINE auto find_hash(size_t hash, const K& key) const -> const_iterator
 			{
@@ -648,22 +663,21 @@ namespace seq
 				const auto* end = d_buckets + d_hash_mask;
 				dist_type dist = 0;
 
-				// Combination of linear and robin-hood probing in the same loop.
 				// An empty node has a distance of -1 and break the probe chain.
-				// A tombstone has a value 127 and never break the probe chain
-				// (it is superior to node_type::max_distance which is 126, and dist is never incremented when tombstones are present: linear situation)
+				// A tombstone (only used for linear probing) has a value 127 and never break the probe chain.
 				// A tombstone value is never checked as its tiny hash is 0 (which is invalid).
 
-				if SEQ_UNLIKELY(!robin_hood)
+				if SEQ_UNLIKELY(!robin_hood) {
 					check_hash_operation();
+					return find_linear(h, it, key);
+				}
 
 				while (!(dist > it->distance())) {
 					// Check for equality (first the hash part and then the key itself).
 					if (h == it->hash() && (*this)(extract_key::key(sequence_node_value(*it)), key))
 						return const_iterator(it->node(), it->pos());
 					it = it == end ? d_buckets : it + 1;
-					if SEQ_LIKELY(robin_hood)
-						++dist;
+					++dist;
 				}
 				// Failed lookup
 				return d_seq.end();
@@ -685,13 +699,21 @@ namespace seq
 				size_t index = mask_hash(hash, d_hash_mask, d_hash_len);
 				const tiny_hash h = node_type::small_hash(hash);
 
-				// Pure linear hashing
-				while (!d_buckets[index].null() && !d_buckets[index].is_tombstone()) {
-					if (d_buckets[index].hash() == h && (*this)(extract_key::key(sequence_node_value(d_buckets[index])), extract_key::key(key)))
+				// Pure linear hashing: look for the key up to an empty bucket (the key might be located after a tombstone),
+				// and insert in the first tombstone if any
+				size_t tombstone = bucket_size();
+				for (size_t i = 0; i < bucket_size() && d_buckets[index].distance() != -1; ++i) {
+					if (d_buckets[index].is_tombstone()) {
+						if (tombstone == bucket_size())
+							tombstone = index;
+					}
+					else if (d_buckets[index].hash() == h && (*this)(extract_key::key(sequence_node_value(d_buckets[index])), extract_key::key(key)))
 						return std::pair<iterator, bool>(iterator(d_buckets[index].node(), d_buckets[index].pos()), false);
 					if SEQ_UNLIKELY(++index == bucket_size())
 						index = 0;
 				}
+				if (tombstone != bucket_size())
+					index = tombstone;
 
 				iterator tmp_it = Policy::emplace(d_seq, std::forward<K>(key), std::forward<Args>(args)...);
 				d_buckets[index] = node_type(h, index == mask_hash(hash, d_hash_mask, d_hash_len) ? 0 : node_type::max_distance, tmp_it.as_uint());
-- 
2.43.0


From 210db373dd74d660042366d1e8073a7003f9b4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 036/119] fix: ordered hash tables: copy assignment kept the
 old buckets when their count did not change, and the old hash and equality
 functors

---
 seq/ordered_map.hpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 77ec779..0f5580c 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -547,6 +547,23 @@ namespace seq
 				}
 			}
 
+			void assign(const SparseFlatNodeHashTable& other)
+			{
+				// Copy elements, functors and maximum load factor.
+				// Drop the buckets first: they reference the old elements and belong to the current allocator.
+				free_buckets(d_buckets);
+				d_buckets = null_node();
+				d_hash_mask = d_hash_len = d_next_target = 0;
+				mark_dirty();
+
+				static_cast<base_type&>(*this) = static_cast<const base_type&>(other);
+				d_seq = other.d_seq;
+				d_load_factor = other.d_load_factor;
+				if (!other.dirty())
+					d_max_dist = 1;
+				rehash(0, true);
+			}
+
 			SEQ_ALWAYS_INLINE bool dirty() const noexcept
 			{
 				// check for dirty
@@ -1187,11 +1204,7 @@ namespace seq
 		auto operator=(const ordered_set& other) -> ordered_set&
 		{
 			if (this != std::addressof(other)) {
-				this->d_seq = other.sequence();
-				if (other.dirty())
-					this->mark_dirty();
-				max_load_factor(other.max_load_factor());
-				rehash();
+				base_type::assign(other);
 			}
 			return *this;
 		}
@@ -1653,11 +1666,7 @@ namespace seq
 		auto operator=(const ordered_map& other) -> ordered_map&
 		{
 			if (this != std::addressof(other)) {
-				this->d_seq = other.sequence();
-				if (other.dirty())
-					this->mark_dirty();
-				max_load_factor(other.max_load_factor());
-				rehash();
+				base_type::assign(other);
 			}
 			return *this;
 		}
-- 
2.43.0


From 024c91ea1e7a8b06649f29dbfc746418f4290025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 037/119] fix: ordered hash tables: a hash, equality or
 predicate throwing during rehash() or erase_if() left dangling buckets, and
 constructors terminated on bad_alloc

---
 seq/ordered_map.hpp | 63 +++++++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 0f5580c..44d6cce 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -302,13 +302,32 @@ namespace seq
 					d_next_target = d_hash_mask = d_hash_len = 0;
 					d_max_dist = 1;
 					d_buckets = make_buckets((new_hash_mask + 1ULL));
+					d_hash_mask = new_hash_mask;
+					d_hash_len = new_hash_len;
+					fill_buckets(new_hash_mask, new_hash_len, first, last);
 				}
 				catch (...) {
 					// mark as dirty
-					mark_dirty();
+					drop_buckets();
 					throw;
 				}
 
+				d_next_target = static_cast<size_t>(static_cast<double>(bucket_size()) * static_cast<double>(d_load_factor));
+			}
+
+			void drop_buckets() noexcept
+			{
+				// Get back to an empty hash table and mark it as dirty
+				free_buckets(d_buckets);
+				d_buckets = null_node();
+				d_next_target = d_hash_mask = d_hash_len = 0;
+				mark_dirty();
+			}
+
+			template<class Iter>
+			void fill_buckets(size_t new_hash_mask, size_t new_hash_len, Iter first, Iter last)
+			{
+				// Insert all values in an empty hash table
 				size_t hash, index;
 				size_t hmask = new_hash_mask;
 				typename node_type::dist_type dist = 0;
@@ -354,10 +373,6 @@ namespace seq
 					// Insert
 					d_buckets[index] = node_type(node_type::small_hash(hash), index == mask_hash(hash, new_hash_mask, new_hash_len) ? 0 : node_type::max_distance, first.as_uint());
 				}
-
-				d_hash_mask = new_hash_mask;
-				d_hash_len = new_hash_len;
-				d_next_target = static_cast<size_t>(static_cast<double>(bucket_size()) * static_cast<double>(d_load_factor));
 			}
 
 			template<class Iter>
@@ -373,12 +388,22 @@ namespace seq
 					d_next_target = d_hash_mask = d_hash_len = 0;
 					d_max_dist = 1;
 					d_buckets = make_buckets((new_hash_mask + 1ULL));
+					d_hash_mask = new_hash_mask;
+					d_hash_len = new_hash_len;
+					fill_buckets_remove_duplicates(new_hash_mask, new_hash_len, first, last);
 				}
 				catch (...) {
-					mark_dirty();
+					drop_buckets();
 					throw;
 				}
 
+				d_next_target = static_cast<size_t>(static_cast<double>(bucket_size()) * static_cast<double>(d_load_factor));
+			}
+
+			template<class Iter>
+			void fill_buckets_remove_duplicates(size_t new_hash_mask, size_t new_hash_len, Iter first, Iter last)
+			{
+				// Insert all values in an empty hash table, and erase duplicates from the sequence object
 				size_t hash, index, dist;
 				size_t bsize = new_hash_mask + 1ULL;
 
@@ -433,10 +458,6 @@ namespace seq
 					}
 					++it;
 				}
-
-				d_hash_mask = new_hash_mask;
-				d_hash_len = new_hash_len;
-				d_next_target = static_cast<size_t>(static_cast<double>(bucket_size()) * static_cast<double>(d_load_factor));
 			}
 
 			SEQ_ALWAYS_INLINE void start_insert(node_type* buckets, size_t hash_mask, size_t index, typename node_type::dist_type dist, node_type node) noexcept
@@ -1098,7 +1119,7 @@ namespace seq
 		/// @param hash hash function to use
 		/// @param equal comparison function to use for all key comparisons of this container
 		/// @param alloc allocator to use for all memory allocations of this container
-		ordered_set(const Hash& hash = Hash(), const KeyEqual& equal = KeyEqual(), const Allocator& alloc = Allocator()) noexcept
+		ordered_set(const Hash& hash = Hash(), const KeyEqual& equal = KeyEqual(), const Allocator& alloc = Allocator())
 		  : base_type(hash, equal, alloc)
 		{
 		}
@@ -1602,7 +1623,7 @@ namespace seq
 		using pointer = typename std::allocator_traits<Allocator>::pointer;
 		using const_pointer = typename std::allocator_traits<Allocator>::const_pointer;
 
-		ordered_map(const Hash& hash = Hash(), const KeyEqual& equal = KeyEqual(), const Allocator& alloc = Allocator()) noexcept
+		ordered_map(const Hash& hash = Hash(), const KeyEqual& equal = KeyEqual(), const Allocator& alloc = Allocator())
 		  : base_type(hash, equal, alloc)
 		{
 		}
@@ -2068,17 +2089,16 @@ namespace seq
 		size_t count = 0;
 		for (auto it = seq.begin(); it != seq.end();) {
 			if (p(*it)) {
+				if (count++ == 0)
+					// flag as dirty
+					set.sequence();
 				it = seq.erase(it);
-				++count;
 			}
 			else
 				++it;
 		}
-		if (count) {
-			// flag as dirty and rehash
-			set.sequence();
+		if (count)
 			set.rehash();
-		}
 		return count;
 	}
 
@@ -2119,17 +2139,16 @@ namespace seq
 		size_t count = 0;
 		for (auto it = seq.begin(); it != seq.end();) {
 			if (p(*it)) {
+				if (count++ == 0)
+					// flag as dirty
+					set.sequence();
 				it = seq.erase(it);
-				++count;
 			}
 			else
 				++it;
 		}
-		if (count) {
-			// flag as dirty and rehash
-			set.sequence();
+		if (count)
 			set.rehash();
-		}
 		return count;
 	}
 
-- 
2.43.0


From 17748415173c1191ffd80efee6778808c0c8476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 038/119] fix: net_sort terminated when exchanging elements
 throws

---
 seq/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index 7abde31..039153f 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -810,7 +810,7 @@ namespace seq
 		}
 
 		template<class T>
-		SEQ_ALWAYS_INLINE void swap_branchless(T&& a, T&& b, bool b_is_less) noexcept
+		SEQ_ALWAYS_INLINE void swap_branchless(T&& a, T&& b, bool b_is_less) noexcept(is_relocatable<T>::value || std::is_nothrow_swappable_v<std::remove_reference_t<T>>)
 		{
 			// Swap elements based on is_less.
 			// Uses branchless swap for relocatable types.
-- 
2.43.0


From ffe6ded3aba23461ffa4d25f335aa1460b2acee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 039/119] fix: debug check of merge_adaptive_n used operator<
 instead of the comparator

---
 seq/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index 039153f..f918319 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -642,7 +642,7 @@ namespace seq
 			// Recurse on each range
 			merge_adaptive_n<true>(f0_0, n0_0, f0_1, n0_1, iter_next(f0_1, n0_1), r, buffer);
 			merge_adaptive_n<true>(f1_0, n1_0, f1_1, n1_1, iter_next(f1_1, n1_1), r, buffer);
-			SEQ_ALGO_ASSERT_DEBUG(std::is_sorted(f0, e1), "");
+			SEQ_ALGO_ASSERT_DEBUG(std::is_sorted(f0, e1, r), "");
 		}
 
 		template<class Iter, class Cmp>
-- 
2.43.0


From cf602b324f78c6a7c691ce2b8864e06f252ec3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 040/119] fix: inplace_merge of a list of ranges read outside
 the range when one of them is empty

---
 seq/algorithm.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index f918319..3b8f39d 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -712,9 +712,10 @@ namespace seq
 			// Ping pong merge 4 sorted ranges using provided buffer.
 
 			if ((size_t)(it4 - it0) <= tmp.size) {
-				const bool s0 = !c(*it1, *iter_prev(it1));
-				const bool s1 = !c(*it2, *iter_prev(it2));
-				const bool s2 = !c(*it3, *iter_prev(it3));
+				// Empty ranges are already in order
+				const bool s0 = it0 == it1 || it1 == it2 || !c(*it1, *iter_prev(it1));
+				const bool s1 = it0 == it2 || it2 == it4 || !c(*it2, *iter_prev(it2));
+				const bool s2 = it2 == it3 || it3 == it4 || !c(*it3, *iter_prev(it3));
 				if (s0 && s1 && s2)
 					return;
 
@@ -731,7 +732,7 @@ namespace seq
 					auto dst = std::move((it2), (it3), middle);
 					end = std::move((it3), (it4), dst);
 				}
-				if (c(*middle, *iter_prev(middle)))
+				if (middle != tmp.first && middle != end && c(*middle, *iter_prev(middle)))
 					merge_move_bidirectional<Unspecified>(tmp.first, (middle), (middle), (end), it0, c, &it4);
 				else {
 					auto dst = std::move((tmp.first), (middle), it0);
@@ -750,8 +751,9 @@ namespace seq
 			// Ping pong merge 3 sorted ranges using provided buffer.
 
 			if ((size_t)(it2 - it0) <= tmp.size) {
-				const bool s0 = !c(*it1, *iter_prev(it1));
-				const bool s1 = !c(*it2, *iter_prev(it2));
+				// Empty ranges are already in order
+				const bool s0 = it0 == it1 || it1 == it2 || !c(*it1, *iter_prev(it1));
+				const bool s1 = it0 == it2 || it2 == it3 || !c(*it2, *iter_prev(it2));
 				if (s0 && s1)
 					return;
 
@@ -762,7 +764,7 @@ namespace seq
 					auto dst = std::move((it0), (it1), tmp.first);
 					middle = std::move((it1), (it2), dst);
 				}
-				if (c(*it2, *iter_prev(middle)))
+				if (middle != tmp.first && it2 != it3 && c(*it2, *iter_prev(middle)))
 					merge_forward<true>(std::make_move_iterator(tmp.first), std::make_move_iterator(middle), std::make_move_iterator(it2), std::make_move_iterator(it3), it0, c);
 				else
 					std::move((tmp.first), (middle), it0);
-- 
2.43.0


From eb7226b04bfaf34eb0e39a81e299b82c62a4dace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 041/119] fix: unique compared and hashed moved-from elements
 once a duplicate was found

---
 seq/algorithm.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index 3b8f39d..ebae552 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -1427,10 +1427,13 @@ namespace seq
 
 		auto loc = first++;
 		for (; first != last; ++first) {
-			if (!set.emplace(std::addressof(*first))) {
+			if (set.contains(std::addressof(*first))) {
 				continue;
 			}
-			*loc++ = std::move(*first);
+			// Register the final location, as the element is moved
+			*loc = std::move(*first);
+			set.emplace(std::addressof(*loc));
+			++loc;
 		}
 		return loc;
 	}
-- 
2.43.0


From a3a648f83cfdeb46d2c1181cd4ed66aefcf5d2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 042/119] fix: flat containers could not insert or assign a
 range of non random access iterators

---
 seq/flat_map.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index c357539..09bc224 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -477,7 +477,7 @@ namespace seq
 					++count;
 				}
 				while (first != last) {
-					push_back(*first);
+					d_deque.push_back(*first);
 					if (sorted) {
 						if ((*this)(*first, *prev))
 							sorted = false;
@@ -491,7 +491,7 @@ namespace seq
 				}
 
 				// Resize if the tiered_vector was bigger
-				resize(count);
+				d_deque.resize(count);
 
 				// Sort if necessary, remove non unique values if necessary
 				if (!sorted)
@@ -751,15 +751,11 @@ namespace seq
 					d_deque.resize(std::distance(first, last) + size_before);
 
 				// Append input to tiered_vector
-				auto dit = d_deque.begin() + static_cast<difference_type>(size_before);
 				if constexpr (is_random_access_v<InputIt>)
-					std::copy(first, last, dit);
+					std::copy(first, last, d_deque.begin() + static_cast<difference_type>(size_before));
 				else {
-					while (first != last) {
-						*dit = *first;
-						++first;
-						++dit;
-					}
+					for (; first != last; ++first)
+						d_deque.push_back(*first);
 				}
 
 				if constexpr (!std::is_same_v<Tag, sorted_unique_t> && !std::is_same_v<Tag, sorted_equivalent_t>)
-- 
2.43.0


From f8a7124095285e4189762292491afef8490231d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 043/119] fix: flat containers could not insert an initializer
 list

---
 seq/flat_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 09bc224..4e437cd 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -773,7 +773,7 @@ namespace seq
 				d_deque.manager()->update_all_back_values();
 			}
 
-			template<class InputIt, class Tag>
+			template<class Tag>
 			void insert(std::initializer_list<value_type> ilist, Tag t)
 			{
 				insert(ilist.begin(), ilist.end(), t);
-- 
2.43.0


From 2467b053f00ef4679e90c857e6f0e98b0aeae934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 044/119] fix: flat_multiset and flat_multimap could not be
 assigned an initializer list

---
 seq/flat_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 4e437cd..fa2bd70 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -1626,7 +1626,7 @@ namespace seq
 		}
 		auto operator=(const std::initializer_list<value_type>& init) -> flat_multiset&
 		{
-			static_cast<base_type&>(this) = init;
+			static_cast<base_type&>(*this) = init;
 			return *this;
 		}
 
@@ -2188,7 +2188,7 @@ namespace seq
 		}
 		auto operator=(const std::initializer_list<value_type>& init) -> flat_multimap&
 		{
-			static_cast<base_type&>(this) = init;
+			static_cast<base_type&>(*this) = init;
 			return *this;
 		}
 
-- 
2.43.0


From b4667bf1cb4198426884d2dfa2d4d538485fe965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 045/119] fix: merge of flat containers compared with
 operator== and left lookups inconsistent, and did not compile for maps and
 multisets

---
 seq/flat_map.hpp | 176 ++++++++++++++++++++++++++---------------------
 1 file changed, 96 insertions(+), 80 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index fa2bd70..c1f28ab 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -328,81 +328,52 @@ namespace seq
 
 		/**
 		 * \internal
-		 * Merge 2 sorted ranges into a single array (or tiered_vector).
-		 * the 2 sequences must be sorted without consecutive equal values.
-		 * This method is stable: if the 2 ranges contain equal values, only the values from the first range are inserted.
+		 * Merge 2 sorted ranges into a single tiered_vector.
+		 * The first sequence must not contain equivalent values.
+		 * If the 2 ranges contain equivalent values, only the value from the first range is inserted. Of several equivalent values of the
+		 * second range, only the first one is inserted. The values that are not inserted are moved to remaining, in order.
+		 * Both outputs must be large enough, and are shrunk to fit the result.
 		 *
 		 */
-		template<class Deque, class InputIt1, class InputIt2, class Less, class Deque2 = Deque>
-		void unique_merge_move(Deque& out, InputIt1 first1, InputIt1 last1, InputIt2 first2, InputIt2 last2, Less less, Deque2* remaining = NULL)
-		{
-
-			if constexpr (is_random_access_v<InputIt1> && is_random_access_v<InputIt2>) {
-				size_t len1 = std::distance(first1, last1);
-				size_t len2 = std::distance(first2, last2);
-				out.resize(len1 + len2);
-				typename Deque::iterator it_rem;
-				if (remaining) {
-					remaining->resize(len2);
-					it_rem = remaining->begin();
-				}
-				auto it = out.begin();
-				while (!(first1 == last1 && first2 == last2)) {
-
-					while (first2 != last2 && (first1 == last1 || less(*first2, *first1))) {
-						*it = std::move(*first2);
-						++it;
+		template<class Deque, class InputIt1, class InputIt2, class Less, class Deque2>
+		void unique_merge_move(Deque& out, InputIt1 first1, InputIt1 last1, InputIt2 first2, InputIt2 last2, Less less, Deque2& remaining)
+		{
+			auto it = out.begin();
+			auto it_rem = remaining.begin();
+			auto prev = it;
+			bool has_prev = false; // prev is the last inserted value, and comes from the second range
+
+			while (first2 != last2) {
+				if (first1 != last1 && !less(*first2, *first1)) {
+					if (!less(*first1, *first2)) {
+						// equivalent to a value of the first range
+						*it_rem = std::move(*first2);
+						++it_rem;
 						++first2;
 					}
-					if (first1 != last1) {
-						// skip equals elements
-						while (first2 != last2 && *first2 == *first1) {
-							if (remaining) {
-								*it_rem = std::move(*first2);
-								++it_rem;
-							}
-							++first2;
-						}
-						*it = std::move(*first1);
-						++it;
-						first1++;
-					}
-					while (first1 != last1 && (first2 == last2 || less(*first1, *first2))) {
+					else {
 						*it = std::move(*first1);
 						++it;
 						++first1;
+						has_prev = false;
 					}
 				}
-				if (remaining)
-					remaining->erase(it_rem, remaining->end());
-				out.erase(it, out.end());
-				return;
-			}
-			else {
-
-				while (!(first1 == last1 && first2 == last2)) {
-
-					while (first2 != last2 && (first1 == last1 || less(*first2, *first1))) {
-						out.push_back(std::move(*first2));
-						++first2;
-					}
-					if (first1 != last1) {
-						// skip equals elements
-						while (first2 != last2 && *first2 == *first1) {
-							if (remaining) {
-								remaining->push_back(std::move(*first2));
-							}
-							++first2;
-						}
-						out.push_back(std::move(*first1));
-						first1++;
-					}
-					while (first1 != last1 && (first2 == last2 || less(*first1, *first2))) {
-						out.push_back(std::move(*first1));
-						++first1;
-					}
+				else if (has_prev && !less(*prev, *first2)) {
+					*it_rem = std::move(*first2);
+					++it_rem;
+					++first2;
+				}
+				else {
+					prev = it;
+					has_prev = true;
+					*it = std::move(*first2);
+					++it;
+					++first2;
 				}
 			}
+			it = std::move(first1, last1, it);
+			remaining.erase(it_rem, remaining.end());
+			out.erase(it, out.end());
 		}
 
 		/// @brief Base class for flat_map/set
@@ -910,22 +881,61 @@ namespace seq
 				return std::pair<size_t, size_t>(low, up);
 			}
 
-			template<class C2, bool Unique2>
-			void merge(flat_tree<Key, Key, C2, Allocator, Unique2>& source)
+			template<class C2, bool Stable2, bool Unique2>
+			void merge(flat_tree<Key, Value, C2, Allocator, Stable2, Unique2>& source)
 			{
-				if (Unique) {
-					container_type out;
-					typename flat_tree<Key, Key, C2, Allocator, Unique2>::container_type rem;
-					detail::unique_merge_move(out, begin(), end(), source.begin(), source.end(), base(), &rem);
-					d_deque = std::move(out);
-					source.d_deque = std::move(rem);
+				if (static_cast<const void*>(this) == static_cast<const void*>(std::addressof(source)) || source.empty())
+					return;
+
+				// Allocate everything before moving any value
+				const size_t before_size = size();
+				container_type out(get_allocator());
+				container_type rem(source.get_allocator());
+				if constexpr (Unique) {
+					out.resize(before_size + source.size());
+					rem.resize(source.size());
 				}
 				else {
-					// add elements from source to this tiered_vector
-					size_t before_size = size();
-					d_deque.insert(d_deque.end(), source.begin(), source.end());
-					std::inplace_merge(d_deque.begin(), d_deque.begin() + before_size, d_deque.end(), base());
+					try {
+						d_deque.resize(before_size + source.size());
+					}
+					catch (...) {
+						d_deque.resize(before_size);
+						throw;
+					}
+				}
+
+				try {
+					// The source might be sorted differently
+					if (!std::is_sorted(source.begin(), source.end(), base()))
+						net_sort(source.begin(), source.end(), base());
+
+					if constexpr (Unique) {
+						detail::unique_merge_move(out, begin(), end(), source.begin(), source.end(), base(), rem);
+
+						if (!std::is_sorted(rem.begin(), rem.end(), source.base()))
+							net_sort(rem.begin(), rem.end(), source.base());
+						if (out.manager())
+							out.manager()->update_all_back_values();
+						if (rem.manager())
+							rem.manager()->update_all_back_values();
+						d_deque = std::move(out);
+						source.d_deque = std::move(rem);
+					}
+					else {
+						// add elements from source to this tiered_vector
+						auto middle = d_deque.begin() + static_cast<difference_type>(before_size);
+						std::move(source.begin(), source.end(), middle);
+						std::inplace_merge(d_deque.begin(), middle, d_deque.end(), base());
+						d_deque.manager()->update_all_back_values();
+						source.clear();
+					}
+				}
+				catch (...) {
+					// Values might have been moved already
+					clear();
 					source.clear();
+					throw;
 				}
 			}
 
@@ -1061,6 +1071,9 @@ namespace seq
 		using flat_tree_type = detail::flat_tree<Key, Key, Compare, Allocator, Stable, Unique>;
 		flat_tree_type d_tree;
 
+		template<class K, class Cmp, class Al, bool S, bool U>
+		friend class flat_set;
+
 		using Policy = detail::BuildValue<Key, has_is_transparent<Compare>::value>;
 
 	public:
@@ -1495,8 +1508,8 @@ namespace seq
 		/// @brief Attempts to extract each element in source and insert it into this using the comparison object of this.
 		/// If there is an element in this with key equivalent to the key of an element from source, then that element is not extracted from source.
 		/// Note that elements from source are moved to this.
-		template<class C2>
-		SEQ_ALWAYS_INLINE void merge(flat_set<Key, C2, Allocator>& source)
+		template<class C2, bool Stable2, bool Unique2>
+		SEQ_ALWAYS_INLINE void merge(flat_set<Key, C2, Allocator, Stable2, Unique2>& source)
 		{
 			d_tree.merge(source.d_tree);
 		}
@@ -1687,6 +1700,9 @@ namespace seq
 		using flat_tree_type = detail::flat_tree<Key, std::pair<Key, T>, Compare, Allocator, Stable, Unique>;
 		flat_tree_type d_tree;
 
+		template<class K, class U, class Cmp, class Al, bool S, bool Un>
+		friend class flat_map;
+
 		using Policy = detail::BuildValue<std::pair<Key, T>, has_is_transparent<Compare>::value>;
 
 	public:
@@ -2067,8 +2083,8 @@ namespace seq
 		}
 		SEQ_ALWAYS_INLINE auto equal_range_pos(const Key& x) const -> std::pair<size_t, size_t> { return d_tree.equal_range_pos(x); }
 
-		template<class C2>
-		SEQ_ALWAYS_INLINE void merge(flat_map<Key, T, C2, Allocator>& source)
+		template<class C2, bool Stable2, bool Unique2>
+		SEQ_ALWAYS_INLINE void merge(flat_map<Key, T, C2, Allocator, Stable2, Unique2>& source)
 		{
 			d_tree.merge(source.d_tree);
 		}
-- 
2.43.0


From 7cb8a5dc0d0d613e66f02895dde76c0ad74a471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 046/119] fix: flat_multiset could not insert a sorted range

---
 seq/flat_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index c1f28ab..3351966 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -1657,11 +1657,11 @@ namespace seq
 		template<class InputIt>
 		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, InputIt first, InputIt last)
 		{
-			base_type::insert(sorted_equivalent_t{}, first, last);
+			base_type::insert(sorted_unique_t{}, first, last);
 		}
 
 		SEQ_ALWAYS_INLINE void insert(std::initializer_list<value_type> ilist) { base_type::insert(ilist); }
-		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, std::initializer_list<value_type> ilist) { base_type::insert(sorted_equivalent_t{}, ilist); }
+		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, std::initializer_list<value_type> ilist) { base_type::insert(sorted_unique_t{}, ilist); }
 
 		SEQ_ALWAYS_INLINE auto insert_pos(const value_type& value) -> size_t { return base_type::insert_pos(value).first; }
 		SEQ_ALWAYS_INLINE auto insert_pos(value_type&& value) -> size_t { return base_type::insert_pos(std::move(value)).first; }
-- 
2.43.0


From e3d9edcd4fc6b2ff7b77429c793d3d6829996ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 047/119] fix: equal_range of unique flat containers returned a
 neighbour of an absent key, and did not compile on const containers

---
 seq/flat_map.hpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 3351966..4218708 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -850,24 +850,14 @@ namespace seq
 			template<class K>
 			SEQ_INLINE_BINARY_SEARCH auto equal_range(const K& x) -> std::pair<iterator, iterator>
 			{
-				iterator low = lower_bound(x);
-				if (low == end())
-					return std::pair<iterator, iterator>(low, low);
-				if constexpr (Unique)
-					return std::pair<iterator, iterator>(low, low + 1);
-				iterator up = upper_bound(x);
-				return std::pair<iterator, iterator>(low, up);
+				auto p = equal_range_pos(x);
+				return std::pair<iterator, iterator>(iterator_at(p.first), iterator_at(p.second));
 			}
 			template<class K>
 			SEQ_INLINE_BINARY_SEARCH auto equal_range(const K& x) const -> std::pair<const_iterator, const_iterator>
 			{
-				const_iterator low = lower_bound(x);
-				if (low == end())
-					return std::pair<iterator, iterator>(low, low);
-				if constexpr (Unique)
-					return std::pair<iterator, iterator>(low, low + 1);
-				const_iterator up = upper_bound(x);
-				return std::pair<iterator, iterator>(low, up);
+				auto p = equal_range_pos(x);
+				return std::pair<const_iterator, const_iterator>(iterator_at(p.first), iterator_at(p.second));
 			}
 			template<class K>
 			SEQ_INLINE_BINARY_SEARCH auto equal_range_pos(const K& x) const -> std::pair<size_t, size_t>
@@ -876,7 +866,7 @@ namespace seq
 				if (low == size())
 					return std::pair<size_t, size_t>(low, low);
 				if constexpr (Unique)
-					return std::pair<size_t, size_t>(low, low + 1);
+					return std::pair<size_t, size_t>(low, (*this)(x, d_deque[low]) ? low : low + 1);
 				size_t up = upper_bound_pos(x);
 				return std::pair<size_t, size_t>(low, up);
 			}
-- 
2.43.0


From 00e3636e9d596c59ab2bb473ad004a9044e30582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 048/119] fix: erase_if on a flat container without storage, or
 removing everything, dereferenced a null pointer

---
 seq/flat_map.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 4218708..e5a9e37 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -2285,10 +2285,13 @@ namespace seq
 		using container_type = typename flat_set<Key, Compare, Al1, S1, U1>::container_type;
 		// use const_cast to avoid flagging the flat_set as dirty
 		container_type& d = const_cast<container_type&>(s1.container());
+		if (d.empty())
+			return 0;
 		auto it = std::remove_if(d.begin(), d.end(), p);
 		size_t res = d.end() - it;
 		d.erase(it, d.end());
-		d.manager()->update_all_back_values();
+		if (d.manager())
+			d.manager()->update_all_back_values();
 		return res;
 	}
 
@@ -2320,10 +2323,13 @@ namespace seq
 		using container_type = typename flat_map<Key, T, Compare, Al1, S1, U1>::container_type;
 		// use const_cast to avoid flagging the flat_set as dirty
 		container_type& d = const_cast<container_type&>(s1.container());
+		if (d.empty())
+			return 0;
 		auto it = std::remove_if(d.begin(), d.end(), p);
 		size_t res = d.end() - it;
 		d.erase(it, d.end());
-		d.manager()->update_all_back_values();
+		if (d.manager())
+			d.manager()->update_all_back_values();
 		return res;
 	}
 
-- 
2.43.0


From ef23c5d83ef32aa910188fa5ce6fe1730c100962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 049/119] fix: lookups in an emptied flat container read a
 destroyed element

---
 seq/flat_map.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index e5a9e37..7e7150d 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -224,7 +224,8 @@ namespace seq
 		SEQ_INLINE_BINARY_SEARCH auto tvector_lower_bound(const Deque& d, const U& value, const Less& le) noexcept(noexcept(le(std::declval<typename Deque::value_type&>(), value)))
 		  -> std::pair<size_t, bool>
 		{
-			if SEQ_UNLIKELY (!d.manager())
+			// An empty tiered_vector might own an empty bucket that has no back value
+			if SEQ_UNLIKELY (d.empty())
 				return { 0, false };
 
 			using T = typename Deque::value_type;
-- 
2.43.0


From a42eb4eefac053c7c802780f53923b2cc57730c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:07 +0000
Subject: [PATCH 050/119] fix: flat containers assigned through move iterators
 were left unsorted

---
 seq/flat_map.hpp | 114 ++++++++++++-----------------------------------
 1 file changed, 29 insertions(+), 85 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 7e7150d..f49e5a3 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -413,110 +413,54 @@ namespace seq
 			// tiered_vector object
 			container_type d_deque;
 
-			template<class Iter, class Cat>
-			void assign_cat(Iter first, Iter last, Cat /*unused*/)
+			// Sort the values just assigned if necessary, remove non unique values if necessary.
+			// Look at the stored values only: the input range might be single pass or moved from.
+			void finish_assign()
 			{
-				iterator it = d_deque.begin();
-				iterator en = d_deque.end();
 				bool sorted = true;
 				bool unique = true;
-
-				// Copy the range [first,last) to the tiered_vector using already allocated memory
-
-				Iter prev = first;
-				size_type count = 1;
-				if (d_deque.size() > 0) {
-					*it = *first;
-					++it;
-					++first;
-				}
-				else {
-					d_deque.push_back(*first);
-					++first;
-				}
-
-				while (it != en && first != last) {
-					*it = *first;
-					if (sorted) {
-						if ((*this)(*first, *prev))
-							sorted = false;
-						else if (Unique && !(*this)(*prev, *first))
-							unique = false;
-					}
-					++it;
-					prev = first;
-					++first;
-					++count;
-				}
-				while (first != last) {
-					d_deque.push_back(*first);
-					if (sorted) {
-						if ((*this)(*first, *prev))
-							sorted = false;
-						else if (Unique && !(*this)(*prev, *first))
-							unique = false;
-						prev = first;
-					}
-
-					++first;
-					++count;
+				auto prev = d_deque.cbegin();
+				auto it = prev;
+				for (++it; it != d_deque.cend() && sorted; ++it, ++prev) {
+					if ((*this)(*it, *prev))
+						sorted = false;
+					else if (Unique && !(*this)(*prev, *it))
+						unique = false;
 				}
 
-				// Resize if the tiered_vector was bigger
-				d_deque.resize(count);
-
-				// Sort if necessary, remove non unique values if necessary
 				if (!sorted)
 					sort_full_deque<Stable>(d_deque, base());
 				if constexpr (Unique)
 					if ((!sorted || !unique)) {
-						iterator it =
+						iterator l =
 						  std::unique(d_deque.begin(), d_deque.end(), [this](const auto& l, const auto& r) { return !this->base()(extract_key::key(l), extract_key::key(r)); });
-						d_deque.erase(it, d_deque.end());
+						d_deque.erase(l, d_deque.end());
 					}
 				d_deque.manager()->update_all_back_values();
 			}
 
-			template<class Iter>
-			void assign_cat(Iter first, Iter last, std::random_access_iterator_tag /*unused*/)
+			template<class Iter, class Cat>
+			void assign_cat(Iter first, Iter last, Cat /*unused*/)
 			{
-				// d_deque.clear();
-				d_deque.resize(static_cast<size_t>(last - first));
-				auto it = d_deque.begin();
-				bool sorted = true;
-				bool unique = true;
-
-				Iter prev = first;
-				*it = *first;
-				++it;
-				++first;
-				while (first != last && sorted) {
+				// Copy the range [first,last) to the tiered_vector using already allocated memory
+				size_type count = 0;
+				for (auto it = d_deque.begin(); it != d_deque.end() && first != last; ++it, ++first, ++count)
 					*it = *first;
 
-					if ((*this)(*first, *prev))
-						sorted = false;
-					else if (Unique && !(*this)(*prev, *first))
-						unique = false;
-					prev = first;
+				// Resize if the tiered_vector was bigger
+				d_deque.resize(count);
+				for (; first != last; ++first)
+					d_deque.push_back(*first);
 
-					++it;
-					++first;
-				}
-				while (first != last) {
-					*it = *first;
-					++it;
-					++first;
-				}
+				finish_assign();
+			}
 
-				if (!sorted)
-					sort_full_deque<Stable>(d_deque, base());
-				if constexpr (Unique)
-					if ((!sorted || !unique)) {
-						iterator l =
-						  std::unique(d_deque.begin(), d_deque.end(), [this](const auto& l, const auto& r) { return !this->base()(extract_key::key(l), extract_key::key(r)); });
-						d_deque.erase(l, d_deque.end());
-					}
-				d_deque.manager()->update_all_back_values();
+			template<class Iter>
+			void assign_cat(Iter first, Iter last, std::random_access_iterator_tag /*unused*/)
+			{
+				d_deque.resize(static_cast<size_t>(last - first));
+				std::copy(first, last, d_deque.begin());
+				finish_assign();
 			}
 
 			flat_tree()
-- 
2.43.0


From bd0e3cdaae863929b882990300012e1cf2846e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 051/119] fix: sorting a tiered_vector whose back bucket is
 emptied by the process read a null iterator

---
 seq/tiered_vector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 290690f..129dc19 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2461,8 +2461,6 @@ namespace seq
 					return 0;
 
 				size_t bucket_idx = (size_t)this->indexes(start_idx).first;
-				size_t bucket_count = d_buckets.size() - bucket_idx;
-
 				size_t size_before = 0;
 				if (bucket_idx)
 					size_before = d_buckets[0].bucket->size + (bucket_idx - 1) * d_bucket_size;
@@ -2488,6 +2486,9 @@ namespace seq
 					}
 				}
 
+				// Filling the front bucket might have removed the back ones
+				size_t bucket_count = d_buckets.size() - bucket_idx;
+
 				// Create buffer to sort buckets
 				std::vector<T> buf(count / 2);
 
-- 
2.43.0


From 3af4e1789ea819c58e8e70ac09ef227e79cf9732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 052/119] fix: inserting a range in a flat container could
 replace existing elements by equivalent ones

---
 seq/flat_map.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index f49e5a3..0d8f574 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -675,8 +675,9 @@ namespace seq
 				}
 
 				if constexpr (!std::is_same_v<Tag, sorted_unique_t> && !std::is_same_v<Tag, sorted_equivalent_t>)
-					// Sort new values
-					size_before = sort_deque<Stable>(d_deque, size_before, base());
+					// Sort new values.
+					// For unique containers, do not mix the new values with the previous ones that must be kept.
+					size_before = sort_deque<Stable || Unique>(d_deque, size_before, base());
 
 				// Merge
 				std::inplace_merge(d_deque.begin(), d_deque.begin() + static_cast<difference_type>(size_before), d_deque.end(), base());
-- 
2.43.0


From 38a25ffc3cbebc46e24c6daf935fe3449c36aa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:00 +0000
Subject: [PATCH 053/119] fix: an exception while inserting or assigning a
 range left flat containers unsorted

---
 seq/flat_map.hpp | 48 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 0d8f574..0fa7b03 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -662,18 +662,39 @@ namespace seq
 
 				size_t size_before = d_deque.size();
 
-				if constexpr (is_random_access_v<InputIt>)
-					// Resize tiered_vector
-					d_deque.resize(std::distance(first, last) + size_before);
+				try {
+					if constexpr (is_random_access_v<InputIt>)
+						// Resize tiered_vector
+						d_deque.resize(std::distance(first, last) + size_before);
 
-				// Append input to tiered_vector
-				if constexpr (is_random_access_v<InputIt>)
-					std::copy(first, last, d_deque.begin() + static_cast<difference_type>(size_before));
-				else {
-					for (; first != last; ++first)
-						d_deque.push_back(*first);
+					// Append input to tiered_vector
+					if constexpr (is_random_access_v<InputIt>)
+						std::copy(first, last, d_deque.begin() + static_cast<difference_type>(size_before));
+					else {
+						for (; first != last; ++first)
+							d_deque.push_back(*first);
+					}
+				}
+				catch (...) {
+					// Remove the values appended so far, which are not sorted
+					d_deque.resize(size_before);
+					throw;
 				}
 
+				try {
+					merge_appended<Tag>(size_before);
+				}
+				catch (...) {
+					// Not sorted anymore
+					d_deque.clear();
+					throw;
+				}
+			}
+
+			// Merge values appended at position size_before
+			template<class Tag>
+			void merge_appended(size_t size_before)
+			{
 				if constexpr (!std::is_same_v<Tag, sorted_unique_t> && !std::is_same_v<Tag, sorted_equivalent_t>)
 					// Sort new values.
 					// For unique containers, do not mix the new values with the previous ones that must be kept.
@@ -703,7 +724,14 @@ namespace seq
 					d_deque.clear();
 					return;
 				}
-				assign_cat(first, last, typename std::iterator_traits<Iter>::iterator_category());
+				try {
+					assign_cat(first, last, typename std::iterator_traits<Iter>::iterator_category());
+				}
+				catch (...) {
+					// Not sorted anymore
+					d_deque.clear();
+					throw;
+				}
 			}
 			void erase_pos(size_type pos) { d_deque.erase(pos); }
 			auto erase(const_iterator pos) -> iterator { return d_deque.erase(pos); }
-- 
2.43.0


From 9bf1c99809e1da7049d23ab05c6db27127da9918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:00 +0000
Subject: [PATCH 054/119] fix: an exception in the predicate of erase_if left
 flat containers with moved-from values

---
 seq/flat_map.hpp | 55 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 0fa7b03..e6c0957 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -377,6 +377,43 @@ namespace seq
 			out.erase(it, out.end());
 		}
 
+		// Remove the values satisfying given predicate.
+		// If the predicate throws, values that were not visited yet are kept.
+		template<class Deque, class Pred>
+		size_t erase_if_deque(Deque& d, Pred& p)
+		{
+			auto it = d.begin();
+			auto out = it;
+			auto end = d.end();
+
+			auto remove_tail = [&]() {
+				size_t res = static_cast<size_t>(end - out);
+				if (res)
+					d.erase(out, end);
+				if (d.manager())
+					d.manager()->update_all_back_values();
+				return res;
+			};
+
+			if (d.empty())
+				return 0;
+
+			try {
+				for (; it != end; ++it)
+					if (!p(*it)) {
+						if (out != it)
+							*out = std::move(*it);
+						++out;
+					}
+			}
+			catch (...) {
+				out = out != it ? std::move(it, end, out) : end;
+				remove_tail();
+				throw;
+			}
+			return remove_tail();
+		}
+
 		/// @brief Base class for flat_map/set
 		/// Uses a seq::tiered_vector to store the values and provide faster insertion/deletion of unique elements.
 		template<class Key, class Value = Key, class Compare = std::less<>, class Allocator = std::allocator<Value>, bool Stable = true, bool Unique = true>
@@ -2259,14 +2296,7 @@ namespace seq
 		using container_type = typename flat_set<Key, Compare, Al1, S1, U1>::container_type;
 		// use const_cast to avoid flagging the flat_set as dirty
 		container_type& d = const_cast<container_type&>(s1.container());
-		if (d.empty())
-			return 0;
-		auto it = std::remove_if(d.begin(), d.end(), p);
-		size_t res = d.end() - it;
-		d.erase(it, d.end());
-		if (d.manager())
-			d.manager()->update_all_back_values();
-		return res;
+		return detail::erase_if_deque(d, p);
 	}
 
 	/// @brief Checks if the contents of s1 and s2 are equal, that is, they have the same number of elements and each element in s1 compares equal with the element in s2 at the same position.
@@ -2297,14 +2327,7 @@ namespace seq
 		using container_type = typename flat_map<Key, T, Compare, Al1, S1, U1>::container_type;
 		// use const_cast to avoid flagging the flat_set as dirty
 		container_type& d = const_cast<container_type&>(s1.container());
-		if (d.empty())
-			return 0;
-		auto it = std::remove_if(d.begin(), d.end(), p);
-		size_t res = d.end() - it;
-		d.erase(it, d.end());
-		if (d.manager())
-			d.manager()->update_all_back_values();
-		return res;
+		return detail::erase_if_deque(d, p);
 	}
 
 } // end namespace seq
-- 
2.43.0


From 2387a08f1643154e01d3afa544d7245503720842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:04 +0000
Subject: [PATCH 055/119] fix: flat containers were filled with default values
 when the allocation of an inserted range failed

---
 seq/flat_map.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index e6c0957..f60590b 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -713,8 +713,7 @@ namespace seq
 					}
 				}
 				catch (...) {
-					// Remove the values appended so far, which are not sorted
-					d_deque.resize(size_before);
+					remove_appended(size_before);
 					throw;
 				}
 
@@ -728,6 +727,16 @@ namespace seq
 				}
 			}
 
+			// Remove values (not sorted) appended at position size_before after an exception
+			void remove_appended(size_t size_before) noexcept
+			{
+				if (size_before && d_deque.size() > size_before)
+					d_deque.manager()->resize(size_before);
+				else if (d_deque.size() != size_before)
+					// No previous values, or the tiered_vector itself lost some of them (basic exception guarantee)
+					d_deque.clear();
+			}
+
 			// Merge values appended at position size_before
 			template<class Tag>
 			void merge_appended(size_t size_before)
@@ -901,7 +910,7 @@ namespace seq
 						d_deque.resize(before_size + source.size());
 					}
 					catch (...) {
-						d_deque.resize(before_size);
+						remove_appended(before_size);
 						throw;
 					}
 				}
-- 
2.43.0


From 3919fadd79353708e63b4f1f60fe22dfd914ff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:04 +0000
Subject: [PATCH 056/119] fix: tiered_vector kept a stale back value when the
 insertion of a bucket failed

---
 seq/tiered_vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 129dc19..6bd9f33 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1977,6 +1977,9 @@ namespace seq
 					// insert into full first bucket
 					// Might throw, fine
 					T tmp = d_buckets[0]->insert_pop_front(index, std::forward<Args>(args)...);
+					// In case create_front_bucket() throws
+					if (StoreBackValues)
+						d_buckets[0].update();
 					try {
 						create_front_bucket()->emplace_back(std::move(tmp));
 					}
-- 
2.43.0


From 47efbf18071b6b67643b528859e117053603886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 057/119] fix: tagged_pointer::set_tag changed the pointer when
 the tag was out of range

---
 seq/tagged_pointer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/tagged_pointer.hpp b/seq/tagged_pointer.hpp
index 2a982c8..9b7bca5 100644
--- a/seq/tagged_pointer.hpp
+++ b/seq/tagged_pointer.hpp
@@ -126,7 +126,7 @@ namespace seq
 		/// @brief Set the tag value
 		SEQ_ALWAYS_INLINE auto set_tag(tag_type tag) noexcept -> tag_type
 		{
-			d_ptr = tag | (d_ptr & mask_high);
+			d_ptr = (tag & mask_low) | (d_ptr & mask_high);
 			return tag;
 		}
 
@@ -189,7 +189,7 @@ namespace seq
 		SEQ_ALWAYS_INLINE void set_ptr(pointer ptr) noexcept { d_ptr = tag() | reinterpret_cast<tag_type>(ptr); }
 		SEQ_ALWAYS_INLINE auto set_tag(tag_type tag) noexcept -> tag_type
 		{
-			d_ptr = tag | (d_ptr & mask_high);
+			d_ptr = (tag & mask_low) | (d_ptr & mask_high);
 			return tag;
 		}
 		SEQ_ALWAYS_INLINE void set(pointer ptr, tag_type tag) noexcept { d_ptr = reinterpret_cast<uintptr_t>(ptr) | (tag & mask_low); }
-- 
2.43.0


From cf689729acac848399d7a19ef76423b10ba44487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 058/119] fix: hasher<float> and hasher<double> gave different
 hashes to positive and negative zeros

---
 seq/hash.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seq/hash.hpp b/seq/hash.hpp
index 8374568..59675ff 100644
--- a/seq/hash.hpp
+++ b/seq/hash.hpp
@@ -207,7 +207,8 @@ namespace seq
 				float fv;
 				std::uint32_t uv;
 			};
-			fv = v;
+			// positive and negative zeros compare equal
+			fv = v == 0.f ? 0.f : v;
 			return hash_finalize(uv);
 		}
 	};
@@ -223,7 +224,8 @@ namespace seq
 				double fv;
 				std::uint64_t uv;
 			};
-			fv = v;
+			// positive and negative zeros compare equal
+			fv = v == 0. ? 0. : v;
 			return hash_finalize(static_cast<size_t>(uv));
 		}
 	};
-- 
2.43.0


From 7e1f8c1d336f99ed2ea42bc532bdd6fa240776c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 059/119] fix: hash_bytes_murmur64 read out of bounds for an
 empty range given by a null pointer

---
 seq/internal/hash_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/internal/hash_impl.hpp b/seq/internal/hash_impl.hpp
index 4f526db..860ae3f 100644
--- a/seq/internal/hash_impl.hpp
+++ b/seq/internal/hash_impl.hpp
@@ -44,7 +44,8 @@ namespace seq
 
 			const unsigned char* ptr = static_cast<const unsigned char*>(_ptr);
 			std::uint64_t h = seed ^ (len * m);
-			const std::uint8_t* end = ptr + len - (sizeof(std::uint64_t) - 1);
+			// do not compute an address before the buffer
+			const std::uint8_t* end = ptr + (len & ~static_cast<size_t>(sizeof(std::uint64_t) - 1));
 			while (ptr < end) {
 				auto k = read_64(ptr);
 
-- 
2.43.0


From f7d47ded9b4aef9f0d2ec96d52782f93d8211fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 060/119] fix: radix trees stored their elements at misaligned
 addresses

---
 seq/internal/radix_tree.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 3c129f2..e3755a1 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -921,7 +921,11 @@ namespace seq
 			static constexpr unsigned max_capacity = Sorted ? 64 : 96;
 
 			// returns size of header and tiny hash values
-			static unsigned hash_for_size(unsigned /*size*/, unsigned capacity) noexcept { return header_size + capacity; }
+			// (padded in order to properly align the values)
+			static SEQ_ALWAYS_INLINE unsigned hash_for_size(unsigned /*size*/, unsigned capacity) noexcept
+			{
+				return (header_size + capacity + static_cast<unsigned>(alignof(T)) - 1u) & ~(static_cast<unsigned>(alignof(T)) - 1u);
+			}
 			// returns the capacity for a given size
 			static unsigned capacity_for_size(unsigned size) noexcept
 			{
@@ -948,8 +952,8 @@ namespace seq
 			SEQ_ALWAYS_INLINE const std::uint8_t* hashs() const noexcept { return reinterpret_cast<const std::uint8_t*>(toint32() + 2); }
 			SEQ_ALWAYS_INLINE std::uint8_t* hashs() noexcept { return reinterpret_cast<std::uint8_t*>(toint32() + 2); }
 			SEQ_ALWAYS_INLINE unsigned count() const noexcept { return *size(); }
-			SEQ_ALWAYS_INLINE T* values() noexcept { return reinterpret_cast<T*>(hashs() + *capacity()); }
-			SEQ_ALWAYS_INLINE const T* values() const noexcept { return reinterpret_cast<const T*>(hashs() + *capacity()); }
+			SEQ_ALWAYS_INLINE T* values() noexcept { return reinterpret_cast<T*>(reinterpret_cast<std::uint8_t*>(this) + hash_for_size(*size(), *capacity())); }
+			SEQ_ALWAYS_INLINE const T* values() const noexcept { return reinterpret_cast<const T*>(reinterpret_cast<const std::uint8_t*>(this) + hash_for_size(*size(), *capacity())); }
 			SEQ_ALWAYS_INLINE const T& back() const noexcept { return values()[count() - 1]; }
 			SEQ_ALWAYS_INLINE std::uint8_t get_tiny_hash(unsigned pos) const { return hashs()[pos]; }
 
-- 
2.43.0


From 9c2e396f11cb60d06673e1d8cb68a6644df569f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 061/119] fix: heterogeneous lookups in radix_set and radix_map
 used a destroyed copy of the key

---
 seq/radix_map.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/seq/radix_map.hpp b/seq/radix_map.hpp
index e4ef92c..1adcfb2 100644
--- a/seq/radix_map.hpp
+++ b/seq/radix_map.hpp
@@ -49,9 +49,14 @@ namespace seq
 		{
 			SEQ_ALWAYS_INLINE const radix_key_type& operator()(const radix_key_type& p) const noexcept { return p; }
 			template<class U>
-			SEQ_ALWAYS_INLINE auto operator()(const U& p) const noexcept
+			SEQ_ALWAYS_INLINE decltype(auto) operator()(const U& p) const noexcept
 			{
-				return ExtractKey{}(p);
+				// Do not return a copy of the key: the radix tree keeps a pointer on its data
+				using rtype = typename radix_detail::ExtractKeyResultType<ExtractKey, U>::rtype;
+				if constexpr (std::is_array_v<typename std::remove_reference<rtype>::type>)
+					return static_cast<typename std::decay<rtype>::type>(ExtractKey{}(p));
+				else
+					return ExtractKey{}(p);
 			}
 		};
 
@@ -486,9 +491,14 @@ namespace seq
 			}
 			SEQ_ALWAYS_INLINE const radix_key_type& operator()(const radix_key_type& p) const noexcept { return p; }
 			template<class U>
-			SEQ_ALWAYS_INLINE auto operator()(const U& p) const noexcept
+			SEQ_ALWAYS_INLINE decltype(auto) operator()(const U& p) const noexcept
 			{
-				return ExtractKey{}(p);
+				// Do not return a copy of the key: the radix tree keeps a pointer on its data
+				using rtype = typename radix_detail::ExtractKeyResultType<ExtractKey, U>::rtype;
+				if constexpr (std::is_array_v<typename std::remove_reference<rtype>::type>)
+					return static_cast<typename std::decay<rtype>::type>(ExtractKey{}(p));
+				else
+					return ExtractKey{}(p);
 			}
 		};
 
-- 
2.43.0


From 6586d59aa4a5ff2dea4ecf28c1bea20ac518b349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 062/119] fix: negate_if_signed and abs overflowed for the
 smallest value of a signed type

---
 seq/type_traits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/type_traits.hpp b/seq/type_traits.hpp
index de4ab82..9675448 100644
--- a/seq/type_traits.hpp
+++ b/seq/type_traits.hpp
@@ -93,7 +93,7 @@ namespace seq
 	auto negate_if_signed(T v) -> typename integer_abs_return<T>::type
 	{
 		if constexpr (std::is_signed_v<T>)
-			return static_cast<std::make_unsigned_t<T>>(-v);
+			return static_cast<std::make_unsigned_t<T>>(0U - static_cast<std::make_unsigned_t<T>>(v));
 		else
 			return v;
 	}
@@ -102,7 +102,7 @@ namespace seq
 	auto abs(T v) -> typename integer_abs_return<T>::type
 	{
 		if constexpr (std::is_signed_v<T>)
-			return static_cast<std::make_unsigned_t<T>>(v < 0 ? -v : v);
+			return v < 0 ? negate_if_signed(v) : static_cast<std::make_unsigned_t<T>>(v);
 		else
 			return v;
 	}
-- 
2.43.0


From 3fb8897fd465bddcea965c2feaf987198891f8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 063/119] fix: to_chars wrote before its temporary buffer for
 wide minimum widths

---
 seq/charconv.hpp | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index ef2c0d3..4495af7 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -271,9 +271,11 @@ namespace seq
 			}
 			SEQ_ALWAYS_INLINE auto add_size(size_t count) const noexcept -> Char*
 			{
-				const Char* tmp = pos;
+				if SEQ_UNLIKELY (count > static_cast<size_t>(end - pos))
+					return nullptr;
+				Char* tmp = pos;
 				const_cast<char_range*>(this)->pos += count;
-				return (pos > end) ? nullptr : const_cast<Char*>(tmp);
+				return tmp;
 			}
 			SEQ_ALWAYS_INLINE auto current() const noexcept -> Char* { return const_cast<Char*>(pos); } // current position
 			SEQ_ALWAYS_INLINE auto end_ptr() const noexcept -> Char* { return const_cast<Char*>(end); } // end ptr for error
@@ -1134,10 +1136,8 @@ namespace seq
 					return { dst, std::errc() };
 				}
 				const char* chars = fmt.upper_case ? upper_chars : lower_chars;
-				int min_width = static_cast<int>(fmt.integral_min_width);
 				char tmp[66];
-				int index = 65;
-				tmp[index] = 0;
+				unsigned index = 66;
 				unsigned neg = 0;
 
 				using uint_type = typename integer_abs_return<T>::type;
@@ -1157,27 +1157,24 @@ namespace seq
 					tmp[--index] = chars[rem];
 					val = _new;
 				}
-				if (min_width >= 0) {
-					int count = 65 - index;
-					while (min_width-- > count && index > 0) {
-						tmp[--index] = '0';
-					}
-				}
-				if (base == 16 && fmt.hex_prefix) {
-					tmp[--index] = 'x';
-					tmp[--index] = '0';
-				}
-				if (std::is_signed_v<T> && neg) {
-					tmp[--index] = '-';
-				}
 
-				size_t size = sizeof(tmp) - static_cast<size_t>(index) - 1;
-				Char* dst = range.add_size(size);
+				const unsigned digits = 66U - index;
+				const unsigned zeros = fmt.integral_min_width > digits ? fmt.integral_min_width - digits : 0U;
+				const bool prefix = base == 16 && fmt.hex_prefix;
+
+				Char* dst = range.add_size(neg + (prefix ? 2U : 0U) + zeros + digits);
 				if SEQ_UNLIKELY (!dst) {
 					return { range.end_ptr(), std::errc::value_too_large };
 				}
-				std::copy(tmp + index, tmp + index + size, dst);
-				return { dst + size, std::errc() };
+				if (neg)
+					*dst++ = (Char)('-');
+				if (prefix) {
+					*dst++ = (Char)('0');
+					*dst++ = (Char)('x');
+				}
+				dst = std::fill_n(dst, zeros, (Char)('0'));
+				dst = std::copy(tmp + index, tmp + 66, dst);
+				return { dst, std::errc() };
 			}
 		}
 
-- 
2.43.0


From 8c1fabbfdfda4db2e4b7692bcd30655a9653155e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 064/119] fix: integer parsing accepted lone signs and invalid
 digits, and mishandled the end of the text

---
 seq/charconv.hpp | 172 +++++++++++++++++++++++++----------------------
 1 file changed, 91 insertions(+), 81 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 4495af7..0e21981 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -415,8 +415,13 @@ namespace seq
 		}
 		static SEQ_ALWAYS_INLINE auto to_digit_hex(int c) -> unsigned
 		{
-			c = to_upper(c);
-			return (c < ':' && c > '/') ? static_cast<unsigned>(c - '0') : ((c >= 'A' && c <= 'Z') ? static_cast<unsigned>(c - 'A' + 10) : static_cast<unsigned>(-1));
+			if (c >= '0' && c <= '9')
+				return static_cast<unsigned>(c - '0');
+			if (c >= 'A' && c <= 'Z')
+				return static_cast<unsigned>(c - 'A' + 10);
+			if (c >= 'a' && c <= 'z')
+				return static_cast<unsigned>(c - 'a' + 10);
+			return static_cast<unsigned>(-1);
 		}
 
 		//////////////////////////////////////////////////////////////////////////////
@@ -484,56 +489,79 @@ namespace seq
 			return static_cast<long double>(get_pow_double(exp));
 		}
 
+		/// Tells if c, that was just read from the stream, stands for the end of the stream instead of
+		/// being a character with the same representation as EOF.
+		template<class Stream>
+		SEQ_ALWAYS_INLINE auto is_end_of_file(const Stream& str, typename Stream::char_type c) noexcept -> bool
+		{
+			return c == static_cast<typename Stream::char_type>(EOF) && !str;
+		}
+
+		/// Read the next character of a stream as an integer.
+		/// Returns EOF only at the end of the stream: a character with the same representation as EOF
+		/// is returned as another value that is not part of any pattern.
+		template<class Stream>
+		SEQ_ALWAYS_INLINE auto next_char(Stream& str) -> int
+		{
+			using Char = typename Stream::char_type;
+			const Char c = static_cast<Char>(str.getc());
+			if SEQ_UNLIKELY (c == static_cast<Char>(EOF))
+				return is_end_of_file(str, c) ? EOF : EOF - 1;
+			return static_cast<int>(c);
+		}
+
+		/// Unsigned type used to accumulate the digits of an integer of type T
+		template<class T>
+		using integral_accumulator = typename std::conditional<(sizeof(T) < sizeof(unsigned)), std::common_type<unsigned>, std::make_unsigned<T>>::type::type;
+
 		template<class T, class Stream>
 		auto read_integral_base_10(Stream& str) -> T
 		{
 			// Fast decimal integral reading
 
+			using unsigned_type = integral_accumulator<T>;
+
 			str.reset();
 
 			typename Stream::streamsize saved = str.tell();
-			T x = 0;
-			int sign = 1;
+			unsigned_type x = 0;
+			bool neg = false;
 
 			// get first character
-			int first = (int)str.getc();
+			int first = next_char(str);
 
 			// skip spaces
 			while (is_space(first))
-				first = (int)str.getc();
+				first = next_char(str);
 
 			// check EOF
 			if SEQ_UNLIKELY (first == EOF)
 				return 0;
 
 			// check sign
-			if (first == '+') {
-				sign = 1;
-				first = (int)str.getc();
-			}
+			if (first == '+')
+				first = next_char(str);
 			else if (first == '-') {
 				if (!std::is_signed_v<T>)
 					goto error;
-				sign = -1;
-				first = (int)str.getc();
+				neg = true;
+				first = next_char(str);
 			}
-			else if SEQ_UNLIKELY (!is_digit(first))
+
+			// at least one digit
+			if SEQ_UNLIKELY (!is_digit(first))
 				goto error;
-			else {
-				x = static_cast<T>(first - '0');
-				first = (int)str.getc();
-			}
 
-			while (is_digit(first)) {
-				x = (x * static_cast<T>(10)) + static_cast<T>(first - '0');
-				first = (int)str.getc();
-			}
+			do {
+				x = (x * 10U) + static_cast<unsigned_type>(first - '0');
+				first = next_char(str);
+			} while (is_digit(first));
 			if (first != EOF)
 				str.back();
 
 			str.reset();
 
-			return sign_value(x, sign);
+			return static_cast<T>(neg ? unsigned_type(0) - x : x);
 
 		error:
 			if (str)
@@ -553,80 +581,62 @@ namespace seq
 
 			SEQ_ASSERT_DEBUG(base <= 36, "invalid 'base' value");
 
+			using unsigned_type = integral_accumulator<T>;
+
 			str.reset();
 
 			typename Stream::streamsize saved = str.tell();
-			T x = 0;
-			int sign = 1;
+			unsigned_type x = 0;
+			bool neg = false;
 			unsigned val;
 			// get frist character
-			int first = (int)str.getc();
+			int first = next_char(str);
 
 			// skip spaces
 			while (is_space(first))
-				first = (int)str.getc();
+				first = next_char(str);
 
 			// check EOF
 			if SEQ_UNLIKELY (first == EOF)
 				return 0;
 
 			// check sign
-			if (first == '+') {
-				sign = 1;
-				first = (int)str.getc();
-			}
+			if (first == '+')
+				first = next_char(str);
 			else if (first == '-') {
 				if SEQ_UNLIKELY (!std::is_signed_v<T>)
 					goto error;
-				sign = -1;
-				first = (int)str.getc();
+				neg = true;
+				first = next_char(str);
 			}
 
-			{
-				// read first digit
-				val = to_digit_hex(first);
-				if SEQ_UNLIKELY (val >= base)
+			// read first digit
+			val = to_digit_hex(first);
+			if SEQ_UNLIKELY (val >= base)
+				goto error;
+			x = static_cast<unsigned_type>(val);
+
+			// read second one
+			first = next_char(str);
+			if (base == 16 && x == 0 && (first == 'x' || first == 'X')) {
+				// hexadecimal starting with '0x' or '0X'
+				first = next_char(str);
+				if SEQ_UNLIKELY (to_digit_hex(first) >= base)
+					// next char after '0x' is not a valid hex digit
 					goto error;
-				x = static_cast<T>(val);
-
-				// read second one
-				first = (int)str.getc();
-				if (base == 16 && to_upper(first) == 'X') {
-					// hexadecimal starting with '0x' or '0X'
-					if (x != 0) {
-						// X after non 0 digit, return
-						str.back();
-						return sign_value(x, sign); // sign == -1 ? -x : x;
-					}
-					first = (int)str.getc();
-					val = to_digit_hex(first);
-					if SEQ_UNLIKELY (val >= base)
-						// next char after '0x' is not a valid hex digit
-						goto error;
-				}
-				else
-					val = to_digit_hex(first);
-
-				if SEQ_UNLIKELY (val >= base) {
-					// invalid char
-					str.back();
-					return sign_value(x, sign); // sign == -1 ? -x : x;
-				}
-				x = (x * static_cast<T>(base)) + static_cast<T>(val);
-				first = (int)str.getc();
-				val = to_digit_hex(first);
 			}
 
+			val = to_digit_hex(first);
 			while (val < base) {
-				x = (x * static_cast<T>(base)) + static_cast<T>(val);
-				first = (int)str.getc();
+				x = (x * static_cast<unsigned_type>(base)) + static_cast<unsigned_type>(val);
+				first = next_char(str);
 				val = to_digit_hex(first);
 			}
 			if (first != EOF)
 				str.back();
 
 			str.reset();
-			return sign_value(x, sign); // sign == -1 ? -x : x;
+			return static_cast<T>(neg ? unsigned_type(0) - x : x);
 
 		error:
 			if (str)
@@ -1036,26 +1046,26 @@ namespace seq
 			// Read a string object (std::string or seq::tiny_string) from input stream
 			str.reset();
 
-			int first = (int)str.getc();
+			StreamChar first = static_cast<StreamChar>(str.getc());
 
 			// skip spaces
-			while (is_space(first))
-				first = (int)str.getc();
+			while (is_space(static_cast<int>(first)))
+				first = static_cast<StreamChar>(str.getc());
 			// check EOF
-			if SEQ_UNLIKELY (first == EOF)
+			if SEQ_UNLIKELY (is_end_of_file(str, first))
 				return T();
 
 			T res;
 			res.push_back(static_cast<StringChar>(first));
 			for (;;) {
-				first = (int)str.getc();
-				if (!is_space(first) && first != EOF)
+				first = static_cast<StreamChar>(str.getc());
+				if (!is_space(static_cast<int>(first)) && !is_end_of_file(str, first))
 					res.push_back((StringChar)first);
 				else
 					break;
 			}
 
-			if (first != EOF) {
+			if (!is_end_of_file(str, first)) {
 				str.back();
 			}
 			str.reset();
@@ -1072,27 +1082,27 @@ namespace seq
 			// Read a line (std::string or seq::tiny_string) from input stream
 			str.reset();
 
-			int first = (int)str.getc();
+			StreamChar first = static_cast<StreamChar>(str.getc());
 
 			// skip spaces
-			while (is_space(first)) {
-				first = (int)str.getc();
+			while (is_space(static_cast<int>(first))) {
+				first = static_cast<StreamChar>(str.getc());
 			}
 			// check EOF
-			if SEQ_UNLIKELY (first == EOF)
+			if SEQ_UNLIKELY (is_end_of_file(str, first))
 				return T();
 
 			T res;
 			res.push_back(static_cast<StringChar>(first));
 			for (;;) {
-				first = (int)str.getc();
-				if (!is_eol(first) && first != EOF)
+				first = static_cast<StreamChar>(str.getc());
+				if (!is_eol(static_cast<int>(first)) && !is_end_of_file(str, first))
 					res.push_back((StringChar)first);
 				else
 					break;
 			}
 
-			if (first != EOF) {
+			if (!is_end_of_file(str, first)) {
 				str.back();
 			}
 			str.reset();
-- 
2.43.0


From 235c1d207ea395856e0a398ff1629589b4babb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 065/119] fix: input streams lost their position after read()
 and when opened from a FILE

---
 seq/charconv.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 0e21981..4d9f99a 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -2044,7 +2044,7 @@ namespace seq
 		{
 			streamsize rem = d_len - d_pos;
 			streamsize to_read = std::min(size, rem);
-			memcpy(dst, d_buff + d_pos, to_read);
+			memcpy(dst, d_buff + d_pos, to_read * sizeof(Char));
 			if (size > rem) {
 				set_eof();
 			}
@@ -2212,6 +2212,8 @@ namespace seq
 				dst += from_buffer;
 			}
 			if (size > from_buffer) {
+				// the buffer does not precede the read position anymore
+				d_buff_pos = d_buff_end = NULL;
 				size -= from_buffer;
 				d_file->read(dst, size);
 				read_vals += d_file->gcount();
@@ -2292,7 +2294,7 @@ namespace seq
 		/// @brief Construct from a FILE object.
 		/// If 'own' is true, closing the stream will also close the FILE object.
 		explicit file_input_stream(FILE* file, bool own) noexcept
-		  : d_file(file)
+		  : d_file(NULL)
 		  , d_pos(0)
 		  , d_buff_pos(NULL)
 		  , d_buff_end(NULL)
@@ -2414,6 +2416,8 @@ namespace seq
 				dst += from_buffer;
 			}
 			if (size > from_buffer) {
+				// the buffer does not precede the read position anymore
+				d_buff_pos = d_buff_end = NULL;
 				size -= from_buffer;
 				streamsize _fread = fread(dst, 1, size, d_file);
 				read_vals += _fread;
-- 
2.43.0


From 27b9cb12e614e121b55d92462b89f6aba30d4e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 066/119] fix: radix containers lost or ignored the state of
 hash and comparison functors

---
 seq/internal/radix_tree.hpp |  8 +++++---
 seq/radix_hash_map.hpp      | 12 ++++++------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index e3755a1..52a6451 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1969,6 +1969,7 @@ namespace seq
 				if (std::addressof(other) != this) {
 					clear();
 					assign_allocator<Allocator>(*this, other);
+					static_cast<Hash&>(*this) = other;
 					insert(other.begin(), other.end(), false);
 				}
 				return *this;
@@ -2035,6 +2036,7 @@ namespace seq
 			{
 				std::swap(d_data, other.d_data);
 				std::swap(d_root, other.d_root);
+				std::swap(static_cast<Hash&>(*this), static_cast<Hash&>(other));
 				if (swap_alloc)
 					swap_allocator<Allocator>(*this, other);
 			}
@@ -2738,7 +2740,7 @@ namespace seq
 			insert_in_leaf(directory* dir, node* child, size_t hash_bits, unsigned pos, const_hash_ref hash, std::uint8_t th, Policy policy, K&& key, Args&&... args)
 			{
 				// find key in node
-				auto found = child->template find_insert<EnsureSorted, extract_key_type, Equal, Less>(Equal{}, hash_bits, th, ExtractKey{}(key));
+				auto found = child->template find_insert<EnsureSorted, extract_key_type, Equal, Less>(Equal(*this), hash_bits, th, ExtractKey{}(key));
 
 				if (found.first)
 					// key already exists!
@@ -3181,7 +3183,7 @@ namespace seq
 							return find_in_vector(d, bit_pos, pos, d->children()[pos].to_vector(), key);
 
 						case directory::IsLeaf:
-							th = d->children()[pos].to_node()->template find<extract_key_type, Equal, Less>(Equal{}, bit_pos, static_cast<std::uint8_t>(th), key);
+							th = d->children()[pos].to_node()->template find<extract_key_type, Equal, Less>(Equal(*this), bit_pos, static_cast<std::uint8_t>(th), key);
 							if (th != static_cast<unsigned>(-1))
 								return const_iterator(d_data, d, pos, th, bit_pos);
 							return cend();
@@ -3225,7 +3227,7 @@ namespace seq
 							return find_in_vector_ptr(d, bit_pos, pos, d->children()[pos].to_vector(), key);
 
 						case directory::IsLeaf:
-							th = d->children()[pos].to_node()->template find<extract_key_type, Equal, Less>(Equal{}, bit_pos, static_cast<std::uint8_t>(th), key);
+							th = d->children()[pos].to_node()->template find<extract_key_type, Equal, Less>(Equal(*this), bit_pos, static_cast<std::uint8_t>(th), key);
 							if (th != static_cast<unsigned>(-1))
 								return d->children()[pos].to_node()->values() + th;
 							return nullptr;
diff --git a/seq/radix_hash_map.hpp b/seq/radix_hash_map.hpp
index ecf36a8..da77e63 100644
--- a/seq/radix_hash_map.hpp
+++ b/seq/radix_hash_map.hpp
@@ -248,9 +248,9 @@ namespace seq
 		/// @brief Returns the container allocator object
 		SEQ_ALWAYS_INLINE auto get_allocator() const noexcept -> const allocator_type& { return d_tree.get_allocator(); }
 		/// @brief Returns the hash function
-		SEQ_ALWAYS_INLINE auto hash_function() const noexcept -> const hasher& { return d_tree.hash_function(); }
+		SEQ_ALWAYS_INLINE auto hash_function() const noexcept -> const hasher& { return static_cast<const radix_hash&>(d_tree); }
 		/// @brief Returns the equality comparison function
-		SEQ_ALWAYS_INLINE auto key_eq() const noexcept -> key_equal { return key_equal{}; }
+		SEQ_ALWAYS_INLINE auto key_eq() const noexcept -> const key_equal& { return static_cast<const radix_hash&>(d_tree); }
 
 		/// @brief Returns an iterator to the first element of the container.
 		SEQ_ALWAYS_INLINE auto end() noexcept -> iterator { return d_tree.end(); }
@@ -661,8 +661,8 @@ namespace seq
 		  : d_tree(std::move(other.d_tree), alloc)
 		{
 		}
-		radix_hash_map(std::initializer_list<value_type> init, const Hash& hash = Hash(), const key_equal& = key_equal(), const Allocator& alloc = Allocator())
-		  : radix_hash_map(init.begin(), init.end(), hash, key_equal(), alloc)
+		radix_hash_map(std::initializer_list<value_type> init, const Hash& hash = Hash(), const key_equal& eq = key_equal(), const Allocator& alloc = Allocator())
+		  : radix_hash_map(init.begin(), init.end(), hash, eq, alloc)
 		{
 		}
 		radix_hash_map(std::initializer_list<value_type> init, const Hash& hash, const Allocator& alloc)
@@ -696,8 +696,8 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto get_allocator() noexcept -> allocator_type& { return this->d_tree.get_allocator(); }
 		SEQ_ALWAYS_INLINE auto get_allocator() const noexcept -> const allocator_type& { return this->d_tree.get_allocator(); }
 
-		SEQ_ALWAYS_INLINE auto hash_function() const -> hasher { return this->d_tree.hash_function(); }
-		SEQ_ALWAYS_INLINE auto key_eq() const -> key_equal { return KeyEqual{}; }
+		SEQ_ALWAYS_INLINE auto hash_function() const -> const hasher& { return static_cast<const radix_hash&>(d_tree); }
+		SEQ_ALWAYS_INLINE auto key_eq() const -> const key_equal& { return static_cast<const radix_hash&>(d_tree); }
 
 		SEQ_ALWAYS_INLINE auto end() noexcept -> iterator { return this->d_tree.end(); }
 		SEQ_ALWAYS_INLINE auto end() const noexcept -> const_iterator { return this->d_tree.end(); }
-- 
2.43.0


From be437323ef7c7f70bbe20c0f25076f4e771be6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 067/119] fix: radix sorted containers: merge() did not compile

---
 seq/internal/radix_tree.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 52a6451..206627f 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1994,9 +1994,13 @@ namespace seq
 			{
 				SEQ_ASSERT_DEBUG(get_allocator() == other.get_allocator(), "");
 
+				if (std::addressof(other) == this)
+					return;
+
 				auto it = other.begin();
 				while (it != other.end()) {
-					if (this->insert(std::move(const_cast<value_type&>(*it))).second)
+					// the value is only moved if the key is not already there
+					if (this->emplace(std::move(*it)).second)
 						it = other.erase(it);
 					else
 						++it;
-- 
2.43.0


From 64f52ca49dcae7dc5ef85cd898a004dc184381ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 068/119] fix: radix trees leaked a vector node when erasing
 its last element

---
 seq/internal/radix_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 206627f..8b6c25f 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -3054,7 +3054,7 @@ namespace seq
 
 					if (v->size() == 0) {
 						// destroy empty vector
-						destroy_ptr(v);
+						d_data->base.destroy_vector(v);
 						d->children()[dpos] = child_ptr();
 						d->child_count--;
 					}
-- 
2.43.0


From 89b55faa6e5c9831da7c926544f4e9997fa1693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 069/119] fix: radix sorted containers: bounds accept any type
 that find() accepts

---
 seq/internal/radix_tree.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 8b6c25f..6e46a05 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -3253,7 +3253,8 @@ namespace seq
 				return find_ptr_hash(hash_key(k), k);
 			}
 
-			const_iterator lower_bound_in_vector(const directory* d, unsigned pos, size_t bit_pos, const key_type& key) const
+			template<class U>
+			const_iterator lower_bound_in_vector(const directory* d, unsigned pos, size_t bit_pos, const U& key) const
 			{
 				const vector_type* v = d->children()[pos].to_vector();
 				unsigned p = static_cast<unsigned>(v->lower_bound(key));
@@ -3263,7 +3264,8 @@ namespace seq
 			}
 
 			/// @brief Find key based on its hash value
-			SEQ_ALWAYS_INLINE const_iterator lower_bound_hash(const_hash_ref hash, const key_type& key) const
+			template<class U>
+			SEQ_ALWAYS_INLINE const_iterator lower_bound_hash(const_hash_ref hash, const U& key) const
 			{
 				// start directory
 				const directory* d = d_root;
@@ -3284,7 +3286,7 @@ namespace seq
 						// check directory prefix
 						if (d->prefix_len) {
 							if (!check_prefix(hash, bit_pos, d)) {
-								bool less = Less{}(ExtractKey{}(d->any_child()), key);
+								bool less = Less{}(d->any_child(), key);
 								auto tmp = const_iterator::find_next(
 								  less ? d->parent : d, less ? d->parent_pos + 1 : 0, less ? bit_pos - d->parent->hash_len : bit_pos + d->prefix_len);
 
@@ -3324,10 +3326,11 @@ namespace seq
 				return lower_bound_hash(hash_key(k), k);
 			}
 
-			SEQ_ALWAYS_INLINE const_iterator upper_bound_hash(const_hash_ref hash, const key_type& key) const
+			template<class U>
+			SEQ_ALWAYS_INLINE const_iterator upper_bound_hash(const_hash_ref hash, const U& key) const
 			{
 				const_iterator it = lower_bound_hash(hash, key);
-				if (it != end() && ExtractKey{}(*it) == key)
+				if (it != end() && !Less{}(key, *it))
 					++it;
 				return it;
 			}
-- 
2.43.0


From e51a557be6a6d15a4a738d6e303f30fca79e4076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 070/119] fix: radix trees: rebalancing copied the values of
 vector nodes

---
 seq/internal/radix_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 6e46a05..d6e70a1 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -3011,7 +3011,7 @@ namespace seq
 							auto* vec = dir->child(pos).to_vector();
 							for (unsigned i = 0; i < vec->size(); ++i) {
 								if (it.dir != dir || it.child != pos || it.node_pos != i)
-									this->emplace(std::move(vec->at(i)));
+									this->emplace(std::move(const_cast<T&>(vec->at(i))));
 							}
 						}
 					});
-- 
2.43.0


From 023491d447998dc7aba11e396ff6137f45a3c9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 071/119] fix: radix_hash containers: reserve() with a small
 count used the logarithm of zero

---
 seq/internal/radix_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index d6e70a1..30dfa19 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -2056,8 +2056,8 @@ namespace seq
 
 				// Update its root size
 				capacity = (capacity / (node::max_capacity));
-				unsigned bits = bit_scan_reverse_64(capacity) + 1;
-				bits = std::min(bits, 26U); // maximum 26 bits for a directory
+				unsigned bits = capacity ? bit_scan_reverse_64(capacity) + 1 : 0;
+				bits = std::min(std::max(bits, start_arity + 0U), 26U); // maximum 26 bits for a directory
 				other.make_data(bits);
 
 				// Move all values inside the new tree
-- 
2.43.0


From 2d2199143f90eaef9f0b2c61e5d286dfe025c263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 072/119] fix: radix trees leaked the values when a constructor
 throws

---
 seq/internal/radix_tree.hpp | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 30dfa19..b131a28 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1906,20 +1906,13 @@ namespace seq
 			}
 
 			RadixTree(const RadixTree& other)
-			  : Hash(other)
-			  , Allocator(copy_allocator(other.get_allocator()))
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(other, copy_allocator(other.get_allocator()))
 			{
-				if (other.size())
-					insert(other.begin(), other.end(), false);
 			}
 			RadixTree(const RadixTree& other, const Allocator& al)
-			  : Hash(other)
-			  , Allocator(al)
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(static_cast<const Hash&>(other), al)
 			{
+				// delegating constructor: the destructor is called if the insertion throws
 				if (other.size())
 					insert(other.begin(), other.end(), false);
 			}
@@ -1933,22 +1926,19 @@ namespace seq
 				swap(other, false);
 			}
 			RadixTree(RadixTree&& other, const Allocator& alloc)
-			  : Hash(other)
-			  , Allocator(alloc)
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(static_cast<const Hash&>(other), alloc)
 			{
 				if (alloc == other.get_allocator())
 					swap(other, false);
-				else if (other.size())
+				else if (other.size()) {
 					insert(make_move_iterator(other.begin()), make_move_iterator(other.end()), false);
+					other.clear();
+				}
 			}
 
 			template<class Iter>
 			RadixTree(Iter first, Iter last, const Allocator& alloc = Allocator())
-			  : Allocator(alloc)
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(alloc)
 			{
 				insert(first, last);
 			}
-- 
2.43.0


From 9d4bd4759ce77892e0de176d8a510ad32974294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 073/119] fix: radix maps: try_emplace and insert_or_assign
 lost the arguments when the key is in a vector node

---
 seq/internal/radix_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index b131a28..5aee812 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -693,6 +693,10 @@ namespace seq
 			template<class Vector, class K, class... Args>
 			static std::pair<size_t, bool> emplace_vector(Vector& v, K&& key, Args&&... args)
 			{
+				// the arguments are left untouched if the key already exists
+				const size_t found = v.find(key);
+				if (found != v.size())
+					return std::pair<size_t, bool>(found, false);
 				return v.emplace(
 				  typename Vector::value_type(std::piecewise_construct, std::forward_as_tuple(std::forward<K>(key)), std::forward_as_tuple(std::forward<Args>(args)...)));
 			}
-- 
2.43.0


From 60f966e33393a83f2bd7db976de874f3a82c6015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 074/119] fix: radix trees: insertion of values that refer to
 an element of the tree, position of new vector nodes

---
 seq/internal/radix_tree.hpp | 83 ++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 33 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 5aee812..1f588b5 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -749,44 +749,57 @@ namespace seq
 			}
 		}
 
-		/// @brief Insert element at src position while moving elements to the right at dst.
+		/// @brief Temporary value built by an insertion policy
+		template<class T>
+		struct TmpValue
+		{
+			alignas(T) unsigned char storage[sizeof(T)];
+			bool owned = true;
+
+			template<class Policy, class... Args>
+			TmpValue(Policy, Args&&... args)
+			{
+				Policy::emplace(ptr(), std::forward<Args>(args)...);
+			}
+			TmpValue(const TmpValue&) = delete;
+			TmpValue& operator=(const TmpValue&) = delete;
+			~TmpValue()
+			{
+				if (owned)
+					ptr()->~T();
+			}
+			T* ptr() noexcept { return reinterpret_cast<T*>(storage); }
+			void release() noexcept { owned = false; }
+		};
+
+		/// @brief Insert element at src position while moving elements to the right by one.
 		/// Basic exception guarantee.
 		template<class U, class Policy, class... Args>
-		static void SEQ_ALWAYS_INLINE insert_move_right(U* dst, U* src, unsigned count, Policy, Args&&... args)
+		static void SEQ_ALWAYS_INLINE insert_move_right(U* src, unsigned count, Policy p, Args&&... args)
 		{
-			// Move src to the right
-			// In case of exception, values are in undefined state, but no new value created (basic exception guarantee)
+			// Build the new value first, as this might throw, and as the arguments might refer to a moved value
+			TmpValue<U> tmp(p, std::forward<Args>(args)...);
 
 			if constexpr (is_relocatable<U>::value) {
 				if (count)
-					memmove(static_cast<void*>(dst), static_cast<void*>(src), count * sizeof(U));
-				try {
-					Policy::emplace(src, std::forward<Args>(args)...);
-				}
-				catch (...) {
-					// move back to the left
-					memmove(static_cast<void*>(src), static_cast<const void*>(dst), count * sizeof(U));
-					throw;
-				}
+					memmove(static_cast<void*>(src + 1), static_cast<void*>(src), count * sizeof(U));
+				memcpy(static_cast<void*>(src), static_cast<void*>(tmp.ptr()), sizeof(U));
+				tmp.release();
 			}
-			else {
+			else if (count) {
+				new (src + count) U(std::move(src[count - 1]));
 				try {
-					if (count) {
-						new (dst + count - 1) U();
-						std::move_backward(src, src + count, dst + count);
-						src->~U();
-						Policy::emplace(src, std::forward<Args>(args)...);
-					}
-					else
-						Policy::emplace(src, std::forward<Args>(args)...);
+					std::move_backward(src, src + count - 1, src + count);
+					*src = std::move(*tmp.ptr());
 				}
 				catch (...) {
-					// destroy created element
-					if (count)
-						(dst + count - 1)->~U();
+					// Values are in undefined state, but no new value created (basic exception guarantee)
+					src[count].~U();
 					throw;
 				}
 			}
+			else
+				new (src) U(std::move(*tmp.ptr()));
 		}
 
 		/// @brief Erase element at pos in src.
@@ -1065,8 +1078,8 @@ namespace seq
 				}
 
 				if (Sorted && pos != size) {
-					insert_move_right(hashs() + pos + 1, hashs() + pos, (size - pos), EmplacePolicy{}, th);
-					insert_move_right(values() + pos + 1, values() + pos, (size - pos), p, std::forward<K>(key), std::forward<Args>(args)...);
+					insert_move_right(values() + pos, (size - pos), p, std::forward<K>(key), std::forward<Args>(args)...);
+					insert_move_right(hashs() + pos, (size - pos), EmplacePolicy{}, th);
 				}
 				else {
 					Policy::emplace((values() + size), std::forward<K>(key), std::forward<Args>(args)...);
@@ -2478,17 +2491,19 @@ namespace seq
 
 			/// @brief Move all elements within given leaf into a newly created vector, and insert given new value
 			template<class Policy, class K, class... Args>
-			const_iterator insert_in_vector(directory* dir, size_t bit_pos, node* child, unsigned pos, Policy, K&& key, Args&&... args)
+			const_iterator insert_in_vector(directory* dir, size_t bit_pos, node* child, unsigned pos, Policy policy, K&& key, Args&&... args)
 			{
 				// turn node into a vector and move values
 				vector_type* vec = d_data->base.make_vector(*this);
 				unsigned position = 0;
 				try {
+					// build the new value first as the arguments might refer to an element of this leaf
+					TmpValue<T> value(policy, std::forward<K>(key), std::forward<Args>(args)...);
 					T* vals = child->values();
 					unsigned count = child->count();
 					for (unsigned i = 0; i < count; ++i)
 						vec->emplace_no_check(std::move(vals[i]));
-					position = Policy::emplace_vector_no_check(*vec, std::forward<K>(key), std::forward<Args>(args)...);
+					position = EmplacePolicy::emplace_vector_no_check(*vec, std::move(*value.ptr()));
 				}
 				catch (...) {
 					d_data->base.destroy_vector(vec);
@@ -2534,7 +2549,10 @@ namespace seq
 
 				if ((!variable_length && hash_bits > Hash::max_bits - start_arity) || (variable_length && get_depth(dir) > MaxDepth))
 					// We exhausted all available bits, no choice but to turn this leaf into a vector
-					return insert_in_vector(dir, hash_bits, child, pos, policy, std::forward<K>(key), std::forward<Args>(args)...);
+					return insert_in_vector(dir, hash_bits - dir->hash_len, child, pos, policy, std::forward<K>(key), std::forward<Args>(args)...);
+
+				// build the new value first as the arguments might refer to an element of this leaf
+				TmpValue<T> value(policy, std::forward<K>(key), std::forward<Args>(args)...);
 
 				// create new child directory, might throw, fine
 				directory* child_dir = directory::make(d_data->base, start_arity);
@@ -2599,7 +2617,7 @@ namespace seq
 				if (dir->dir_count == dir->size()) {
 					if (merge_dir(dir, prev_hash_bits)) {
 						// directory merging succeded, now insert the new value starting from the root
-						return this->insert_hash_with_tiny<EnsureSorted>(d_data->base.root, 0, hash, th, policy, std::forward<K>(key), std::forward<Args>(args)...).first;
+						return this->insert_hash_with_tiny<EnsureSorted>(d_data->base.root, 0, hash_key(*value.ptr()), th, EmplacePolicy{}, std::move(*value.ptr())).first;
 					}
 				}
 
@@ -2608,8 +2626,7 @@ namespace seq
 					dir->invalidate_first_valid();
 
 				// insert new value starting from dir
-				return this->insert_hash_with_tiny<EnsureSorted>(dir, prev_hash_bits - dir->hash_len, hash_key((key)), th, policy, std::forward<K>(key), std::forward<Args>(args)...)
-				  .first;
+				return this->insert_hash_with_tiny<EnsureSorted>(dir, prev_hash_bits - dir->hash_len, hash_key(*value.ptr()), th, EmplacePolicy{}, std::move(*value.ptr())).first;
 			}
 
 			/// @brief Insert value in an empty position within dir
-- 
2.43.0


From ed1fc99a0b24903deadbfbe0484cd5382c01b90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 075/119] fix: radix containers of bool did not compile

---
 seq/internal/radix_tree.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 1f588b5..e8ba7ab 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -197,9 +197,13 @@ namespace seq
 
 		template<class T>
 		struct make_unsigned_or_bool : std::make_unsigned<T>
+		{
+		};
+		template<>
+		struct make_unsigned_or_bool<bool>
 		{
 			// make_unsigned that also work on bool type
-			using type = typename std::conditional<std::is_same_v<T, bool>, bool, typename std::make_unsigned<T>::type>::type;
+			using type = bool;
 		};
 		template<class T>
 		struct make_unsigned_from_float
-- 
2.43.0


From 620edf7b2c3e00dceb60ce31c43a530301c2f239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 076/119] fix: radix containers dereferenced the null data of
 empty keys

---
 seq/internal/radix_tree.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index e8ba7ab..e480c11 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -428,7 +428,9 @@ namespace seq
 				if constexpr (sizeof(type) == 1) {
 					// Comparison for one byte string
 					using unsigned_char = typename std::make_unsigned<type>::type;
-					if (l && *v1 != *v2)
+					if (l == 0)
+						return l1 < l2; // the pointers might be null
+					if (*v1 != *v2)
 						return (static_cast<unsigned_char>(*v1) < static_cast<unsigned_char>(*v2));
 					const type* end = v1 + l;
 					while ((v1 < end - (8 - 1))) {
@@ -481,10 +483,12 @@ namespace seq
 			{
 				if (l1 != l2)
 					return false;
+				if (l1 == 0)
+					return true; // the pointers might be null
 
 				if constexpr (sizeof(type) == 1) {
 					// using unsigned_char = typename std::make_unsigned<type>::type;
-					if (l1 && *v1 != *v2)
+					if (*v1 != *v2)
 						return false;
 					const type* end = v1 + l1;
 					while ((v1 < end - (8 - 1))) {
@@ -509,7 +513,7 @@ namespace seq
 						return false;
 				}
 				else {
-					if (l1 && *v1 != *v2)
+					if (*v1 != *v2)
 						return false;
 					for (size_t i = 1; i < l1; ++i)
 						if (v1[i] != v2[i])
-- 
2.43.0


From c47cd0e529b8420aa1f7259c008e4d63bba254a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 077/119] fix: radix containers stored -0 and 0 as different
 keys

---
 seq/internal/radix_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index e480c11..1df91a8 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -171,7 +171,7 @@ namespace seq
 			{
 				float d;
 				std::uint32_t u;
-			} u = { k };
+			} u = { k == 0.f ? 0.f : k }; // -0 and 0 are the same key
 			// Flip all except top if top bit is set.
 			u.u ^= ((static_cast<unsigned>((static_cast<int>(u.u)) >> 31)) >> 1);
 			// Flip top bit.
@@ -184,7 +184,7 @@ namespace seq
 			{
 				double d;
 				std::uint64_t u;
-			} u = { k };
+			} u = { k == 0. ? 0. : k }; // -0 and 0 are the same key
 			// Flip all except top if top bit is set.
 			u.u ^= ((static_cast<std::uint64_t>((static_cast<std::int64_t>(u.u)) >> 63ll)) >> 1ll);
 			// Flip top bit.
-- 
2.43.0


From 0bee2883fda6e21c794df15fceb99f4f8fddfc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 078/119] fix: radix containers misordered keys that are arrays
 of signed, floating point or 8 byte elements

---
 seq/internal/radix_tree.hpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 1df91a8..5c8fd09 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -388,22 +388,19 @@ namespace seq
 					type* p = reinterpret_cast<type*>(&hash);
 					unsigned_type* up = reinterpret_cast<unsigned_type*>(&hash);
 					static_assert(!std::is_const_v<T>, " const type!");
-					if constexpr (sizeof(type) == 2) {
-						up[0] = swap_b(to_uint(p[0]));
-						up[1] = swap_b(to_uint(p[1]));
-						up[2] = swap_b(to_uint(p[2]));
-						up[3] = swap_b(to_uint(p[3]));
-						hash = swap_b(hash);
-					}
-					else if constexpr (sizeof(type) == 4) {
-						up[0] = swap_b(to_uint(p[0]));
-						up[1] = swap_b(to_uint(p[1]));
+					// number of elements read: the missing ones must remain null in order to be the smallest
+					const size_t count_read = char_offset < size ? std::min(size - char_offset, static_cast<size_t>(8U / sizeof(type))) : 0;
+					if constexpr (sizeof(type) <= 4) {
+						for (size_t i = 0; i < count_read; ++i)
+							up[i] = swap_b(static_cast<unsigned_type>(to_uint(p[i])));
 						hash = swap_b(hash);
 					}
 					else {
 						// no byte swap here, just plain old bits manipulation
-						up[0] = to_uint(p[0]);
-						if (shift > 32 && (char_offset + 1) < size) {
+						if (count_read)
+							up[0] = to_uint(p[0]);
+						// the bits might overlap the next element if not starting at an element boundary
+						if (byte_offset != 0 && (char_offset + 1) < size) {
 							auto hash2 = to_uint(data[char_offset + 1]);
 							hash = (hash << (byte_offset << 3u)) | (hash2 >> (64u - (byte_offset << 3u)));
 							return static_cast<unsigned>((hash << bit_offset) >> (64u - count));
-- 
2.43.0


From 178496242ae694d13b664a33e4c6b83ef7768284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 079/119] fix: empty tiny_string objects were not null
 terminated

---
 seq/tiny_string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index b380671..9d702df 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -550,7 +550,8 @@ namespace seq
 
 			SEQ_STR_INLINE_STRONG void reset() noexcept
 			{
-				// Initialize with SSO string of size 0
+				// Initialize with null terminated SSO string of size 0
+				d_union.sso.data[0] = 0;
 				last_sso_char() = static_cast<unsigned_char>(sso_mask);
 			}
 		};
-- 
2.43.0


From 2e1af44ff9d3cf524a4955122883316490f3a45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 080/119] fix: tiny_string replace() and compare() used wrong
 lengths for parts that go past the end

---
 seq/tiny_string.hpp | 60 +++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 9d702df..fd0ea01 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1152,7 +1152,7 @@ namespace seq
 		tiny_string(const tiny_string& other, size_t pos, size_t len, const Allocator& al = Allocator())
 		  : d_data(al)
 		{
-			if (len == npos || pos + len > other.size())
+			if (len > other.size() - pos)
 				len = other.size() - pos;
 			memcpy(initialize(len), other.data() + pos, len * sizeof(Char));
 		}
@@ -1277,7 +1277,7 @@ namespace seq
 		/// @brief Assign a sub-part of other to this string
 		auto assign(const tiny_string& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			internal_resize(sublen, false, true);
 			memcpy(this->data(), str.data() + subpos, sublen * sizeof(Char));
@@ -1545,7 +1545,7 @@ namespace seq
 		template<size_t Ss, class Al>
 		auto append(const tiny_string<Char, Traits, Al, Ss>& str, size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			return append(str.data() + subpos, sublen);
 		}
@@ -1553,7 +1553,7 @@ namespace seq
 		template<class Al>
 		auto append(const std::basic_string<Char, Traits, Al>& str, size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			return append(str.data() + subpos, sublen);
 		}
@@ -1561,7 +1561,7 @@ namespace seq
 		/// @brief Append the sub-part of str to this string
 		auto append(const std::basic_string_view<Char, Traits>& str, size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			return append(str.data() + subpos, sublen);
 		}
@@ -1643,7 +1643,7 @@ namespace seq
 		/// @brief Inserts a sub-part of str at position pos
 		auto insert(size_t pos, const tiny_string& str, size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			insert(begin() + pos, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
@@ -1691,7 +1691,7 @@ namespace seq
 		/// @brief Removes up to sublen character starting from subpos
 		auto erase(size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > size())
+			if (sublen > size() - subpos)
 				sublen = size() - subpos;
 			erase_internal(subpos, subpos + sublen);
 			return *this;
@@ -1715,7 +1715,7 @@ namespace seq
 		template<class Al>
 		auto replace(size_t pos, size_t len, const std::basic_string<Char, Traits, Al>& str) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			replace_internal(pos, len, str.begin(), str.end());
 			return *this;
@@ -1724,7 +1724,7 @@ namespace seq
 		/// @brief Replace up to len character starting from pos by str
 		auto replace(size_t pos, size_t len, const std::basic_string_view<Char, Traits>& str) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			replace_internal(pos, len, str.begin(), str.end());
 			return *this;
@@ -1749,7 +1749,7 @@ namespace seq
 		template<class Al, size_t S>
 		auto replace(size_t pos, size_t len, const tiny_string<Char, Traits, Al, S>& str) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			replace_internal(pos, len, str.begin(), str.end());
 			return *this;
@@ -1766,10 +1766,10 @@ namespace seq
 		template<class Al, size_t S>
 		auto replace(size_t pos, size_t len, const tiny_string<Char, Traits, Al, S>& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
-			if (sublen == npos || subpos + sublen > str.size())
-				sublen = size() - subpos;
+			if (sublen > str.size() - subpos)
+				sublen = str.size() - subpos;
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
 		}
@@ -1777,10 +1777,10 @@ namespace seq
 		template<class Al>
 		auto replace(size_t pos, size_t len, const std::basic_string<Char, Traits, Al>& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
-			if (sublen == npos || subpos + sublen > str.size())
-				sublen = size() - subpos;
+			if (sublen > str.size() - subpos)
+				sublen = str.size() - subpos;
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
 		}
@@ -1788,10 +1788,10 @@ namespace seq
 		/// @brief Replace up to len character starting from pos by a sub-part of str
 		auto replace(size_t pos, size_t len, const std::basic_string_view<Char, Traits>& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
-			if (sublen == npos || subpos + sublen > str.size())
-				sublen = size() - subpos;
+			if (sublen > str.size() - subpos)
+				sublen = str.size() - subpos;
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
 		}
@@ -1799,6 +1799,8 @@ namespace seq
 		/// @brief Replace up to len character starting from pos by s
 		auto replace(size_t pos, size_t len, const Char* s) -> tiny_string&
 		{
+			if (len > size() - pos)
+				len = size() - pos;
 			size_t l = Traits::length(s);
 			replace_internal(pos, len, s, s + l);
 			return *this;
@@ -1813,6 +1815,8 @@ namespace seq
 		/// @brief Replace up to len character starting from pos by buffer s of size n
 		auto replace(size_t pos, size_t len, const Char* s, size_t n) -> tiny_string&
 		{
+			if (len > size() - pos)
+				len = size() - pos;
 			replace_internal(pos, len, s, s + n);
 			return *this;
 		}
@@ -1826,6 +1830,8 @@ namespace seq
 		/// @brief Replace up to len character starting from pos by n copies of c
 		auto replace(size_t pos, size_t len, size_t n, Char c) -> tiny_string&
 		{
+			if (len > size() - pos)
+				len = size() - pos;
 			replace_internal(pos, len, cvalue_iterator<Char>(0, c), cvalue_iterator<Char>(n));
 			return *this;
 		}
@@ -1923,7 +1929,7 @@ namespace seq
 		{
 			if (pos > size())
 				throw std::out_of_range("tiny_string::copy out of range");
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			memcpy(s, data() + pos, len * sizeof(Char));
 			return len;
@@ -1934,7 +1940,7 @@ namespace seq
 		{
 			if (pos > size())
 				throw std::out_of_range("tiny_string::substr out of range");
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			return tiny_string<Char, Traits, view_allocator<Char>, 0>(begin() + pos, len);
 		}
@@ -2062,7 +2068,7 @@ namespace seq
 		template<class Al, size_t S>
 		auto compare(size_t pos, size_t len, const tiny_string<Char, Traits, Al, S>& str, size_t subpos, size_t sublen) const noexcept -> int
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			return compare(pos, len, str.data() + subpos, sublen);
 		}
@@ -2070,7 +2076,7 @@ namespace seq
 		auto compare(size_t pos, size_t len, const Char* s) const noexcept -> int { return compare(pos, len, s, Traits::length(s)); }
 		auto compare(size_t pos, size_t len, const Char* _s, size_t n) const noexcept -> int
 		{
-			if (len == npos) //|| pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			return detail::traits_string_compare<Traits>(data() + pos, len, _s, n);
 		}
@@ -2312,7 +2318,7 @@ namespace seq
 			if (pos > size()) {
 				throw std::out_of_range("tiny_string::copy out of range");
 			}
-			if (len == npos || pos + len > size()) {
+			if (len > size() - pos) {
 				len = size() - pos;
 			}
 			memcpy(s, data() + pos, len * sizeof(Char));
@@ -2324,7 +2330,7 @@ namespace seq
 			if (pos > size()) {
 				throw std::out_of_range("tiny_string::substr out of range");
 			}
-			if (len == npos || pos + len > size()) {
+			if (len > size() - pos) {
 				len = size() - pos;
 			}
 			return { begin() + pos, len };
@@ -2454,7 +2460,7 @@ namespace seq
 		template<class A, size_t S>
 		auto compare(size_t pos, size_t len, const tiny_string<Char, Traits, A, S>& str, size_t subpos, size_t sublen) const noexcept -> int
 		{
-			if (sublen == npos || subpos + sublen > str.size()) {
+			if (sublen > str.size() - subpos) {
 				sublen = str.size() - subpos;
 			}
 			return compare(pos, len, str.data() + subpos, sublen);
@@ -2464,7 +2470,7 @@ namespace seq
 		auto compare(size_t pos, size_t len, const Char* _s, size_t n) const noexcept -> int
 		{
 
-			if (len == npos) //|| pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			return detail::traits_string_compare<Traits>(data() + pos, len, _s, n);
 		}
-- 
2.43.0


From ea13cb4aab2e2f1aa96a1fecb3d731db1da793e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 081/119] fix: comparing a default constructed tstring_view
 read from a null pointer

---
 seq/tiny_string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index fd0ea01..ee01c87 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -138,7 +138,7 @@ namespace seq
 #ifndef SEQ_NO_FAST_BSWAP
 			if constexpr (sizeof(Char) == 1) {
 				const Char* end = v1 + l;
-				while ((v1 < end - (8 - 1))) {
+				while (end - v1 >= 8) {
 					std::uint64_t r1 = read_64(v1);
 					std::uint64_t r2 = read_64(v2);
 					if (r1 != r2) {
@@ -151,7 +151,7 @@ namespace seq
 					v1 += 8;
 					v2 += 8;
 				}
-				if ((v1 < (end - 3))) {
+				if (end - v1 >= 4) {
 					std::uint32_t r1 = read_32(v1);
 					std::uint32_t r2 = read_32(v2);
 					if (r1 != r2) {
@@ -164,7 +164,7 @@ namespace seq
 					v1 += 4;
 					v2 += 4;
 				}
-				if ((v1 < (end - 1))) {
+				if (end - v1 >= 2) {
 					std::uint16_t r1 = read_16(v1);
 					std::uint16_t r2 = read_16(v2);
 					if (r1 != r2) {
-- 
2.43.0


From 7678c7f2272b84e5230c8270649a15889d72fce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 082/119] fix: tiny_string find functions with an empty pattern
 or a position past the end

---
 seq/tiny_string.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index ee01c87..dd172b7 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -363,10 +363,10 @@ namespace seq
 		template<class Traits, class Char>
 		inline auto traits_string_find(const Char* data, size_t pos, size_t size, const Char* s, size_t n, size_t npos) noexcept -> size_t
 		{
-			if (n > size || pos + n > size)
+			if (pos > size || n > size - pos)
 				return npos;
 			if (n == 0)
-				return 0;
+				return pos;
 
 			const Char* in = data + pos;
 			const Char* end = in + (size - pos - n) + 1;
@@ -1962,6 +1962,8 @@ namespace seq
 		auto find(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_find<Traits>(data(), pos, size(), s, n, npos); }
 		auto find(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* p = Traits::find(data() + pos, size() - pos, c);
 			return p == NULL ? npos : p - begin();
 		}
@@ -2011,7 +2013,7 @@ namespace seq
 		auto find_first_not_of(Char c, size_t pos = 0) const noexcept -> size_t
 		{
 			const Char* e = end();
-			for (const Char* p = data() + pos; p != e; ++p)
+			for (const Char* p = data() + (pos < size() ? pos : size()); p != e; ++p)
 				if (*p != c)
 					return p - data();
 			return npos;
@@ -2353,6 +2355,8 @@ namespace seq
 		auto find(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_find<Traits>(data(), pos, size(), s, n, npos); }
 		auto find(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* p = Traits::find(data() + pos, size() - pos, c);
 			return p == nullptr ? npos : static_cast<size_t>(p - begin());
 		}
@@ -2402,7 +2406,7 @@ namespace seq
 		auto find_first_not_of(Char c, size_t pos = 0) const noexcept -> size_t
 		{
 			const Char* e = end();
-			for (const Char* p = data() + pos; p != e; ++p) {
+			for (const Char* p = data() + (pos < size() ? pos : size()); p != e; ++p) {
 				if (*p != c) {
 					return static_cast<size_t>(p - data());
 				}
-- 
2.43.0


From bb642a824e7c12bd620c3db2ac074bf029fc99c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 083/119] fix: reverse find functions of tstring_view and
 tiny_string did not compile or were ambiguous

---
 seq/tiny_string.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index dd172b7..35b9426 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -2000,7 +2000,7 @@ namespace seq
 			return find_last_of(str.data(), pos, str.size());
 		}
 		auto find_last_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_of(s, pos, Traits::length(s)); }
-		auto find_last_of(const Char* s, size_t pos, size_t n = npos) const noexcept -> size_t { return detail::traits_string_find_last_of<Traits>(data(), pos, size(), s, n, npos); }
+		auto find_last_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_of(Char c, size_t pos = npos) const noexcept -> size_t { return rfind(c, pos); }
 
 		template<class Al, size_t S>
@@ -2025,7 +2025,7 @@ namespace seq
 			return find_last_not_of(str.data(), pos, str.size());
 		}
 		auto find_last_not_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_not_of(s, pos, Traits::length(s)); }
-		auto find_last_not_of(const Char* s, size_t pos, size_t n = npos) const noexcept -> size_t { return detail::traits_string_find_last_not_of<Traits>(data(), pos, size(), s, n, npos); }
+		auto find_last_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_not_of(Char c, size_t pos = npos) const noexcept -> size_t
 		{
 			if (size() == 0)
@@ -2375,7 +2375,7 @@ namespace seq
 		auto rfind(const std::basic_string_view<Char, Traits>& str, size_t pos = npos) const noexcept -> size_t { return rfind(str.data(), pos, str.size()); }
 
 		auto rfind(const Char* s, size_t pos = npos) const noexcept -> size_t { return rfind(s, pos, Traits::length(s)); }
-		auto rfind(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_rfind(data(), pos, size(), s, n, npos); }
+		auto rfind(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_rfind<Traits>(data(), pos, size(), s, n, npos); }
 		auto rfind(Char c, size_t pos = npos) const noexcept -> size_t { return std::basic_string_view<Char, Traits>(data(), size()).rfind(c, pos); }
 
 		auto find_first_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_first_of<Traits>(data(), pos, size(), s, n, npos); }
@@ -2393,7 +2393,7 @@ namespace seq
 			return find_last_of(str.data(), pos, str.size());
 		}
 		auto find_last_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_of(s, pos, Traits::length(s)); }
-		auto find_last_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_of(data(), pos, size(), s, n, npos); }
+		auto find_last_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_of(Char c, size_t pos = npos) const noexcept -> size_t { return rfind(c, pos); }
 
 		template<class A, size_t S>
@@ -2420,7 +2420,7 @@ namespace seq
 			return find_last_not_of(str.data(), pos, str.size());
 		}
 		auto find_last_not_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_not_of(s, pos, Traits::length(s)); }
-		auto find_last_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_not_of(data(), pos, size(), s, n, npos); }
+		auto find_last_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_not_of(Char c, size_t pos = npos) const noexcept -> size_t
 		{
 			if (size() == 0) {
-- 
2.43.0


From 4ec9705156446e3dad3c8cdc09d707259fd9b671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 084/119] fix: concatenation of tiny_string with other wide
 strings did not compile

---
 seq/tiny_string.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 35b9426..90ba431 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -2781,45 +2781,45 @@ namespace seq
 	template<class Char, class Traits, size_t Size, class Al, class Al2>
 	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, const std::basic_string<Char, Traits, Al2>& rhs)
 	{
-		return lhs + tstring_view(rhs.data(), rhs.size());
+		return lhs + basic_tstring_view<Char>(rhs.data(), rhs.size());
 	}
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, const std::basic_string_view<Char, Traits>& rhs)
 	{
-		return lhs + tstring_view(rhs.data(), rhs.size());
+		return lhs + basic_tstring_view<Char>(rhs.data(), rhs.size());
 	}
 
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, const Char* rhs)
 	{
-		return lhs + tstring_view(rhs);
+		return lhs + basic_tstring_view<Char>(rhs);
 	}
 	template<class Char, class Traits, size_t Size, class Al>
-	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, char rhs)
+	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, Char rhs)
 	{
-		return lhs + tstring_view(&rhs, 1);
+		return lhs + basic_tstring_view<Char>(&rhs, 1);
 	}
 
 	template<class Char, class Traits, size_t Size, class Al, class Al2>
 	SEQ_STR_INLINE auto operator+(const std::basic_string<Char, Traits, Al2>& lhs, const tiny_string<Char, Traits, Al, Size>& rhs)
 	{
-		return tstring_view(lhs.data(), lhs.size()) + rhs;
+		return basic_tstring_view<Char>(lhs.data(), lhs.size()) + rhs;
 	}
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(const std::basic_string_view<Char, Traits>& lhs, const tiny_string<Char, Traits, Al, Size>& rhs)
 	{
-		return tstring_view(lhs.data(), lhs.size()) + rhs;
+		return basic_tstring_view<Char>(lhs.data(), lhs.size()) + rhs;
 	}
 
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(const Char* lhs, const tiny_string<Char, Traits, Al, Size>& rhs)
 	{
-		return tstring_view(lhs) + rhs;
+		return basic_tstring_view<Char>(lhs) + rhs;
 	}
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(Char lhs, const tiny_string<Char, Traits, Al, Size>& rhs)
 	{
-		return tstring_view(&lhs, 1) + rhs;
+		return basic_tstring_view<Char>(&lhs, 1) + rhs;
 	}
 
 	/// @brief Returns the string data (const char*) for given string object
-- 
2.43.0


From b5d5d5cfa426dcd38fca433a69a070a1d5a328af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 085/119] fix: tiny_string::shrink_to_fit() crashed when going
 back to the in-place storage

---
 seq/tiny_string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 90ba431..147b17d 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1398,8 +1398,10 @@ namespace seq
 			if (!is_sso() && capacity_internal() != s + 1) {
 				Char* p = d_data.d_union.non_sso.data;
 				if (is_sso(s)) {
+					// the in-place characters overlap the pointer
+					const size_t capacity = capacity_internal();
 					memcpy(d_data.d_union.sso.data, p + char_offset, (s + 1) * sizeof(Char));
-					d_data.deallocate(p, capacity_internal() + char_offset);
+					d_data.deallocate(p, capacity + char_offset);
 				}
 				else {
 					Char* _new = d_data.allocate(s + char_offset + 1);
-- 
2.43.0


From cdbf21d65477c437917f4b0218283e03d258013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 086/119] fix: tiny_string lost its allocator in
 resize_front(), replace() and assign()

---
 seq/tiny_string.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 147b17d..ce748b6 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -900,7 +900,7 @@ namespace seq
 		void assign_cat(Iter first, Iter last, Cat /*unused*/)
 		{
 			// assign range for non random access iterators
-			tiny_string tmp;
+			tiny_string tmp(get_allocator());
 			while (first != last) {
 				tmp.push_back(*first);
 				++first;
@@ -1002,7 +1002,7 @@ namespace seq
 			}
 
 			// otherwise, create a new string and fill it (might throw)
-			tiny_string other(new_size, 0);
+			tiny_string other(new_size, 0, get_allocator());
 			Char* op = other.data();
 			// first part
 			memcpy(op, data(), pos * sizeof(Char));
@@ -1017,7 +1017,7 @@ namespace seq
 		void replace_cat(size_t pos, size_t len, Iter first, Iter last, Cat c)
 		{
 			// otherwise, create a new string and fill it
-			tiny_string other;
+			tiny_string other(get_allocator());
 			// first part
 			other.append(data(), pos);
 			// middle part
@@ -1366,7 +1366,7 @@ namespace seq
 				return;
 			}
 
-			tiny_string other(n, 0);
+			tiny_string other(n, 0, get_allocator());
 			if (n > old_size) {
 				std::fill_n(other.data(), n - old_size, c);
 				memcpy(other.data() + n - old_size, data(), old_size * sizeof(Char));
-- 
2.43.0


From 1a7db6f24f88ba346e1cab627700baa3a8da7958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 087/119] fix: tiny_string: arguments that are part of the
 string itself

---
 seq/tiny_string.hpp | 58 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index ce748b6..dd4c3ac 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -30,6 +30,7 @@
 #include <vector>
 #include <string>
 #include <algorithm>
+#include <functional>
 #include <iterator>
 #include <climits>
 #include <cstdint>
@@ -896,6 +897,18 @@ namespace seq
 			d_data.setSize(len);
 		}
 
+		// Tells if s points to a character of this string
+		bool is_inside(const Char* s) const noexcept
+		{
+			return !std::less<const Char*>()(s, data()) && std::less<const Char*>()(s, data() + size());
+		}
+		template<class Iter>
+		bool is_inside(Iter /*unused*/) const noexcept
+		{
+			return false;
+		}
+		bool is_inside(Char* s) const noexcept { return is_inside(static_cast<const Char*>(s)); }
+
 		template<class Iter, class Cat>
 		void assign_cat(Iter first, Iter last, Cat /*unused*/)
 		{
@@ -911,6 +924,10 @@ namespace seq
 		void assign_cat(Iter first, Iter last, std::random_access_iterator_tag /*unused*/)
 		{
 			// assign range for random access iterators
+			if (first != last && is_inside(first)) {
+				*this = tiny_string(first, last, get_allocator());
+				return;
+			}
 			internal_resize(static_cast<size_t>(last - first), false, true);
 			std::copy(first, last, data());
 		}
@@ -938,6 +955,10 @@ namespace seq
 			SEQ_ASSERT_DEBUG(pos <= size(), "invalid insert position");
 			if (first == last)
 				return;
+			if (is_inside(first)) {
+				const tiny_string tmp(first, last, get_allocator());
+				return insert_cat(pos, tmp.begin(), tmp.end(), std::random_access_iterator_tag());
+			}
 
 			if (pos < size() / 2) {
 				size_type to_insert = static_cast<size_t>(last - first);
@@ -986,6 +1007,10 @@ namespace seq
 		template<class Iter>
 		void replace_cat(size_t pos, size_t len, Iter first, Iter last, std::random_access_iterator_tag /*unused*/)
 		{
+			if (first != last && is_inside(first)) {
+				const tiny_string tmp(first, last, get_allocator());
+				return replace_cat(pos, len, tmp.begin(), tmp.end(), std::random_access_iterator_tag());
+			}
 			size_t input_size = (last - first);
 			size_t new_size = size() - len + input_size;
 			if (new_size <= capacity()) {
@@ -1255,9 +1280,8 @@ namespace seq
 		template<class OtherAlloc, size_t OtherMaxStaticSize>
 		auto assign(const tiny_string<Char, Traits, OtherAlloc, OtherMaxStaticSize>& other) -> tiny_string&
 		{
-			internal_resize(other.size(), false, true);
-			memcpy(this->data(), other.c_str(), other.size() * sizeof(Char));
-			return *this;
+			// might be a view on this string
+			return assign(other.data(), other.size());
 		}
 		/// @brief Assign the content of other to this string
 		template<class Al>
@@ -1270,30 +1294,29 @@ namespace seq
 		/// @brief Assign the content of other to this string
 		auto assign(const std::basic_string_view<Char, Traits>& other) -> tiny_string&
 		{
-			internal_resize(other.size(), false, true);
-			memcpy(this->data(), other.data(), other.size() * sizeof(Char));
-			return *this;
+			return assign(other.data(), other.size());
 		}
 		/// @brief Assign a sub-part of other to this string
 		auto assign(const tiny_string& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
 			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
-			internal_resize(sublen, false, true);
-			memcpy(this->data(), str.data() + subpos, sublen * sizeof(Char));
-			return *this;
+			return assign(str.data() + subpos, sublen);
 		}
 		/// @brief Assign a null-terminated buffer to this string
 		auto assign(const Char* s) -> tiny_string&
 		{
-			size_t len = Traits::length(s);
-			internal_resize(len, false, true);
-			memcpy(this->data(), s, len * sizeof(Char));
-			return *this;
+			return assign(s, Traits::length(s));
 		}
 		/// @brief Assign a buffer to this string
 		auto assign(const Char* s, size_t n) -> tiny_string&
 		{
+			if SEQ_UNLIKELY (is_inside(s)) {
+				// part of this string: no reallocation needed
+				memmove(this->data(), s, n * sizeof(Char));
+				internal_resize(n, true, true);
+				return *this;
+			}
 			internal_resize(n, false, true);
 			memcpy(this->data(), s, n * sizeof(Char));
 			return *this;
@@ -1578,7 +1601,12 @@ namespace seq
 				return *this;
 			size_t old_size = size();
 			size_t new_size = old_size + n;
+			const bool inside = is_inside(s);
+			const size_t offset = inside ? static_cast<size_t>(s - data()) : 0;
 			Char* d = resize_grow(new_size);
+			if SEQ_UNLIKELY (inside)
+				// part of this string, which might have been reallocated
+				s = d + offset;
 			memcpy(d + old_size, s, n * sizeof(Char));
 			d[new_size] = 0;
 			return *this;
@@ -1601,6 +1629,10 @@ namespace seq
 		{
 			if (first == last)
 				return *this;
+			if (is_inside(first)) {
+				const tiny_string tmp(first, last, get_allocator());
+				return append(tmp.data(), tmp.size());
+			}
 			if (std::is_same_v<typename std::iterator_traits<Iter>::iterator_category, std::random_access_iterator_tag>) {
 				size_t n = std::distance(first, last);
 				size_t old_size = size();
-- 
2.43.0


From 38e8176b6c84750e0af96dc6c549e699e9477a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:20 +0000
Subject: [PATCH 088/119] fix: tiny_string append() and insert() of input
 ranges left a part of the range behind on failure

---
 seq/tiny_string.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index dd4c3ac..6e4ada3 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -940,12 +940,9 @@ namespace seq
 			if (first == last)
 				return;
 
-			// push back, might throw
-			size_type prev_size = size();
-			for (; first != last; ++first)
-				push_back(*first);
 			// Might throw, fine
-			std::rotate(begin() + pos, begin() + prev_size, end());
+			const tiny_string tmp(first, last, get_allocator());
+			insert_cat(pos, tmp.begin(), tmp.end(), std::random_access_iterator_tag());
 		}
 
 		template<class Iter>
@@ -1642,9 +1639,16 @@ namespace seq
 				d[new_size] = 0;
 			}
 			else {
-				while (first != last) {
-					push_back(*first);
-					++first;
+				const size_t old_size = size();
+				try {
+					while (first != last) {
+						push_back(*first);
+						++first;
+					}
+				}
+				catch (...) {
+					resize(old_size);
+					throw;
 				}
 			}
 			return *this;
-- 
2.43.0


From a78fec8674e10dfcae577660bbe007dc65374449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 089/119] fix: tiny_string::replace() moved too few bytes of
 wide characters

---
 seq/tiny_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 6e4ada3..1c002a6 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1013,7 +1013,7 @@ namespace seq
 			if (new_size <= capacity()) {
 				// do everything inplace
 				if (input_size != len)
-					memmove(data() + pos + input_size, data() + pos + len, size() - (pos + len));
+					memmove(data() + pos + input_size, data() + pos + len, (size() - (pos + len)) * sizeof(Char));
 
 				// copy input
 				std::copy(first, last, data() + pos);
-- 
2.43.0


From 17f82e2f3a69789d397b5c9981da92e5f8f6a0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:53 +0000
Subject: [PATCH 090/119] fix: tiny_string::count() was ambiguous for a pattern
 and a position

---
 seq/tiny_string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 1c002a6..002cfbf 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1923,7 +1923,7 @@ namespace seq
 		}
 
 		/// @brief Returns the count of non-overlapping occurrences of 'str' starting from position start
-		auto count(const Char* str, size_t n, size_t start = 0) const noexcept -> size_t
+		auto count(const Char* str, size_t n, size_t start) const noexcept -> size_t
 		{
 			if (length() == 0)
 				return 0;
@@ -2324,7 +2324,7 @@ namespace seq
 		/**
 		 * Convenient function, returns the count of non-overlapping occurrences of 'str'
 		 */
-		auto count(const Char* str, size_t n, size_t start = 0) const noexcept -> size_t
+		auto count(const Char* str, size_t n, size_t start) const noexcept -> size_t
 		{
 			if (length() == 0)
 				return 0;
-- 
2.43.0


From 32d32e82a2de612245cdcc9df43c17baa2739b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:47 +0000
Subject: [PATCH 091/119] fix: order of tiny_string of wchar_t that start with
 negative characters

---
 seq/tiny_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 002cfbf..deeabd1 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -134,7 +134,7 @@ namespace seq
 
 			size_t l = l1 < l2 ? l1 : l2;
 			if (l && *v1 != *v2)
-				return (static_cast<unsigned_char>(*v1) < static_cast<unsigned_char>(*v2)) ? -1 : 1;
+				return Traits::lt(*v1, *v2) ? -1 : 1;
 
 #ifndef SEQ_NO_FAST_BSWAP
 			if constexpr (sizeof(Char) == 1) {
-- 
2.43.0


From 383df0b9fc02503aea3ec7c149ffb39aca87127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 092/119] fix: concurrent_map/set visit_all() on a non const
 table ignored the visitor asking to stop

---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 6346148..6a3712f 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -487,7 +487,7 @@ namespace seq
 			bool for_each_until(ConcurrentValueNode<T>* n, F&& f) noexcept(noexcept(std::forward<F>(f)(std::declval<std::uint8_t*>(), 0, std::declval<T&>())))
 			{
 				return static_cast<const ConcurrentHashNode*>(this)->for_each_until(
-				  n, [&f](const std::uint8_t* hs, unsigned i, const T& v) { std::forward<F>(f)(const_cast<std::uint8_t*>(hs), i, const_cast<T&>(v)); });
+				  n, [&f](const std::uint8_t* hs, unsigned i, const T& v) { return std::forward<F>(f)(const_cast<std::uint8_t*>(hs), i, const_cast<T&>(v)); });
 			}
 		};
 
-- 
2.43.0


From e664a40d99ee23dec560fcf0fc4c85046adbefc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 093/119] fix: erase_if(concurrent_map/set, predicate) returned
 no value

---
 seq/concurrent_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/concurrent_map.hpp b/seq/concurrent_map.hpp
index 253e0ee..8ccdd34 100644
--- a/seq/concurrent_map.hpp
+++ b/seq/concurrent_map.hpp
@@ -424,7 +424,7 @@ namespace seq
 	template<class Key, class Hash, class Equal, class Allocator, unsigned Shards, class Predicate>
 	typename concurrent_set<Key, Hash, Equal, Allocator, Shards>::size_type erase_if(concurrent_set<Key, Hash, Equal, Allocator, Shards>& set, Predicate pred)
 	{
-		set.erase_if(pred);
+		return set.erase_if(pred);
 	}
 
 	template<class Key, class T, class Hash = hasher<Key>, class Equal = std::equal_to<>, class Allocator = std::allocator<std::pair<Key, T>>, unsigned Shards = seq::medium_concurrency>
@@ -919,7 +919,7 @@ namespace seq
 	template<class Key, class T, class Hash, class Equal, class Allocator, unsigned Shards, class Predicate>
 	typename concurrent_map<Key, T, Hash, Equal, Allocator, Shards>::size_type erase_if(concurrent_map<Key, T, Hash, Equal, Allocator, Shards>& set, Predicate pred)
 	{
-		set.erase_if(pred);
+		return set.erase_if(pred);
 	}
 
 }
-- 
2.43.0


From b4d171edc154a7779e66e513b10c4077f7f1cb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:51 +0000
Subject: [PATCH 094/119] fix: concurrent_map/set emplace_or_visit() from
 several arguments or without transparent functors did not compile

---
 seq/concurrent_map.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seq/concurrent_map.hpp b/seq/concurrent_map.hpp
index 8ccdd34..a6490dd 100644
--- a/seq/concurrent_map.hpp
+++ b/seq/concurrent_map.hpp
@@ -54,7 +54,7 @@ namespace seq
 			template<class F, class... A>
 			bool operator()(F&& f, A&&... a)
 			{
-				return _this->base_type::template emplace_policy<detail::InsertConcurrentPolicy>(std::forward<F>(f), std::forward<A>(a)...);
+				return _this->base_type::template emplace_policy<detail::InsertConcurrentPolicy>(std::forward<F>(f), Policy::make(std::forward<A>(a)...));
 			}
 		};
 		struct emplace_or_cvisit_impl
@@ -63,7 +63,7 @@ namespace seq
 			template<class F, class... A>
 			bool operator()(F&& f, A&&... a)
 			{
-				return _this->base_type::template emplace_policy<detail::InsertConcurrentPolicy>([&](const auto& v) { std::forward<F>(f)(v); }, std::forward<A>(a)...);
+				return _this->base_type::template emplace_policy<detail::InsertConcurrentPolicy>([&](const auto& v) { std::forward<F>(f)(v); }, Policy::make(std::forward<A>(a)...));
 			}
 		};
 
@@ -450,7 +450,7 @@ namespace seq
 			template<class F, class... A>
 			bool operator()(F&& f, A&&... a)
 			{
-				return _this->base_type::template emplace_policy<detail::InsertConcurrentPolicy>(std::forward<F>(f), std::forward<A>(a)...);
+				return _this->base_type::template emplace_policy<detail::InsertConcurrentPolicy>(std::forward<F>(f), Policy::make(std::forward<A>(a)...));
 			}
 		};
 		struct emplace_or_cvisit_impl
@@ -459,7 +459,7 @@ namespace seq
 			template<class F, class... A>
 			bool operator()(F&& f, A&&... a)
 			{
-				return _this->base_type::template emplace_policy<detail::InsertConcurrentPolicy>([&](const auto& v) { std::forward<F>(f)(v); }, std::forward<A>(a)...);
+				return _this->base_type::template emplace_policy<detail::InsertConcurrentPolicy>([&](const auto& v) { std::forward<F>(f)(v); }, Policy::make(std::forward<A>(a)...));
 			}
 		};
 
-- 
2.43.0


From a593c1e0a712a791d333ce4005c881d0441486ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 095/119] fix: any_cast of a pointer to an any with a custom
 buffer returned null

---
 seq/any.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index ed1d39c..c9da691 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -2280,7 +2280,7 @@ namespace seq
 	template<class T, class Interface, size_t S, size_t A, bool R>
 	SEQ_ALWAYS_INLINE auto any_cast(const hold_any<Interface, S, A, R>* operand) noexcept -> const T*
 	{
-		if (operand->type() == hold_any<Interface>::template get_type<T>())
+		if (operand && operand->type() == hold_any<Interface, S, A, R>::template get_type<T>())
 			return static_cast<const T*>(operand->data());
 		return nullptr;
 	}
@@ -2288,7 +2288,7 @@ namespace seq
 	template<class T, class Interface, size_t S, size_t A, bool R>
 	SEQ_ALWAYS_INLINE auto any_cast(hold_any<Interface, S, A, R>* operand) noexcept -> T*
 	{
-		if (operand->type() == hold_any<Interface>::template get_type<T>())
+		if (operand && operand->type() == hold_any<Interface, S, A, R>::template get_type<T>())
 			return static_cast<T*>(operand->data());
 		return nullptr;
 	}
-- 
2.43.0


From d297808e787f45049a4cb3db03134103c7996f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 096/119] fix: copying a relocatable any that holds a small non
 relocatable object, and emplacing a throwing one

---
 seq/any.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index c9da691..af629dc 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1608,7 +1608,7 @@ namespace seq
 				}
 				catch (...) {
 					// free memory chunk if needed
-					if (d && sizeof(type) > static_size)
+					if (d && (this->d_type_info.tag() & detail::big_size))
 						SEQ_ANY_FREE(d);
 					// reset type info pointer and tags
 					this->d_type_info.set_full(0);
@@ -1673,7 +1673,7 @@ namespace seq
 			}
 			else {
 				// copy data, might throw
-				other.type()->copy_any(other.type(), other.data(), nullptr, &this->d_storage, static_size);
+				other.type()->copy_any(other.type(), other.data(), nullptr, &this->d_storage, other.big_size() ? 0 : static_size);
 			}
 			// copy type info
 			this->d_type_info = other.d_type_info;
@@ -1756,7 +1756,7 @@ namespace seq
 			}
 			else {
 				// copy any type, might throw
-				o_t->copy_any(o_t, other.data(), i_t, &this->d_storage, static_size);
+				o_t->copy_any(o_t, other.data(), i_t, &this->d_storage, other.big_size() ? 0 : static_size);
 			}
 			this->d_type_info = other.d_type_info;
 
-- 
2.43.0


From 2a29fb0299b158ba7b4675bdaa6beebd5c51e1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 097/119] fix: assigning to an any a part of the object it
 holds used the destroyed part

---
 seq/any.hpp | 64 ++++++++++++++++++++++++++---------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index af629dc..c59d47d 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1621,6 +1621,22 @@ namespace seq
 			return *out;
 		}
 
+		/// @brief Replace the held object by the one of \a other, which must not be a part of it
+		void replace(hold_any&& other) noexcept(Relocatable)
+		{
+			reset();
+			if (Relocatable || other.big_size() || !other.non_relocatable()) {
+				memcpy(&this->d_storage, &other.d_storage, static_size);
+				this->d_type_info = other.d_type_info;
+				other.d_type_info.set_full(0);
+			}
+			else {
+				// move construct, might throw
+				other.type()->move_any(other.type(), other.data(), nullptr, &this->d_storage, static_size);
+				this->d_type_info = other.d_type_info;
+			}
+		}
+
 	public:
 		/// Base public type
 		using base_type =
@@ -1745,9 +1761,10 @@ namespace seq
 			const auto* o_t = other.type();
 
 			if (i_t != o_t) {
-				// reset this object content if its type is different than other's type
-				reset();
-				i_t = nullptr;
+				// different types: other might be a part of the held object, copy it first
+				hold_any tmp(other);
+				replace(std::move(tmp));
+				return *this;
 			}
 
 			if (!other.big_size() && !other.complex_copy()) {
@@ -1768,8 +1785,9 @@ namespace seq
 		{
 			if constexpr (Relocatable) {
 				// Move assignment is much more simple with relocatable hold_any
-				std::swap(this->d_storage, other.d_storage);
-				std::swap(this->d_type_info, other.d_type_info);
+				// other might be a part of the held object: take its content first
+				hold_any tmp(std::move(other));
+				replace(std::move(tmp));
 				return *this;
 			}
 			else {
@@ -1785,8 +1803,9 @@ namespace seq
 				if (i_t == o_t) {
 					// same non null type
 					if (!other.non_relocatable()) {
-						// relocatable: just swap storage
-						std::swap(this->d_storage, other.d_storage);
+						// relocatable: just take the storage
+						hold_any tmp(std::move(other));
+						replace(std::move(tmp));
 					}
 					else {
 						// move, might throw
@@ -1794,12 +1813,9 @@ namespace seq
 					}
 				}
 				else {
-					// different type, clear this object
-					reset();
-					// move, might throw
-					o_t->move_any(o_t, other.data(), nullptr, &this->d_storage, static_size);
-					// copy type info with tags
-					this->d_type_info = other.d_type_info;
+					// different types: other might be a part of the held object, move it first
+					hold_any tmp(std::move(other));
+					replace(std::move(tmp));
 				}
 
 				return *this;
@@ -1819,25 +1835,9 @@ namespace seq
 				*static_cast<type*>(this->data()) = std::forward<T>(value);
 			}
 			else {
-				// different types, clear this object
-				reset();
-				// set type info pointer
-				this->d_type_info = o_t;
-				void* d = nullptr;
-				try {
-					// create memory chunk and tags, might throw
-					d = this->template alloc<type>();
-					// copy, might throw
-					new (d) type(std::forward<T>(value));
-				}
-				catch (...) {
-					// free memory chunk if needed
-					if (d && (this->d_type_info.tag() & detail::big_size))
-						SEQ_ANY_FREE(d);
-					// reset type info pointer and tags
-					this->d_type_info.set_full(0);
-					throw;
-				}
+				// different types: value might be a part of the held object, build the new one first
+				hold_any tmp(std::forward<T>(value));
+				replace(std::move(tmp));
 			}
 
 			return *this;
-- 
2.43.0


From 153fdab218e00b5920c83b87fdd9344d3bc730ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 098/119] fix: a value compared less than an empty any

---
 seq/any.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index c59d47d..0461208 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1977,7 +1977,7 @@ namespace seq
 			using type = typename std::decay<T>::type;
 
 			if (this->empty())
-				return true;
+				return false;
 
 			const type_info_type* otype = get_type<type>();
 
-- 
2.43.0


From f938d95040ff48ff08479e0a8986898a62e2d85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:43 +0000
Subject: [PATCH 099/119] fix: any objects of signed and unsigned types were
 not ordered consistently

---
 seq/any.hpp | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 0461208..71c2633 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -409,6 +409,15 @@ namespace seq
 			}
 		}
 
+		/// @brief Returns true if b is a negative number
+		template<class T>
+		bool is_negative(const T& b)
+		{
+			if constexpr (std::is_arithmetic_v<T> && std::is_signed_v<T>)
+				return b < 0;
+			else
+				return false;
+		}
 		/// @brief Less than comparison for hold_any::less_than
 		template<class T, class Cast, class U>
 		bool less_arithmetic(const U& a, const T& b)
@@ -1621,6 +1630,9 @@ namespace seq
 			return *out;
 		}
 
+		/// @brief Returns true if this object holds a negative number
+		auto negative() const -> bool { return this->template cast<long double>() < 0; }
+
 		/// @brief Replace the held object by the one of \a other, which must not be a part of it
 		void replace(hold_any&& other) noexcept(Relocatable)
 		{
@@ -1947,10 +1959,10 @@ namespace seq
 			// arithmetic comparison
 			if (is_arithmetic_type(a_id) && std::is_arithmetic_v<type>) {
 				if (is_integral_type(a_id) && std::is_integral_v<type>) {
-					if (is_signed_integral_type(a_id) != std::is_signed_v<type> || is_unsigned_integral_type(a_id)) // different sign: convert to unsigned integral
-						return detail::less_arithmetic<type, unsigned long long>(this->template cast<unsigned long long>(), other);
-					else
-						return detail::less_arithmetic<type, long long>(this->template cast<long long>(), other);
+					// compare negative and positive values of any types
+					if (this->negative() != detail::is_negative<type>(other))
+						return this->negative();
+					return detail::less_arithmetic<type, unsigned long long>(this->template cast<unsigned long long>(), other);
 				}
 				return detail::less_arithmetic<type, long double>(this->template cast<long double>(), other);
 			}
@@ -1990,10 +2002,10 @@ namespace seq
 			// arithmetic comparison
 			if (is_arithmetic_type(a_id) && std::is_arithmetic_v<type>) {
 				if (is_integral_type(a_id) && std::is_integral_v<type>) {
-					if (is_signed_integral_type(a_id) != std::is_signed_v<type> || is_unsigned_integral_type(a_id)) // different sign: convert to unsigned integral
-						return detail::greater_arithmetic<type, unsigned long long>(this->template cast<unsigned long long>(), other);
-					else
-						return detail::greater_arithmetic<type, long long>(this->template cast<long long>(), other);
+					// compare negative and positive values of any types
+					if (this->negative() != detail::is_negative<type>(other))
+						return !this->negative();
+					return detail::greater_arithmetic<type, unsigned long long>(this->template cast<unsigned long long>(), other);
 				}
 				return detail::greater_arithmetic<type, long double>(this->template cast<long double>(), other);
 			}
@@ -2074,10 +2086,10 @@ namespace seq
 			// arithmetic comparison
 			if (is_arithmetic_type(a_id) && is_arithmetic_type(b_id)) {
 				if (is_integral_type(a_id) && is_integral_type(b_id)) {
-					if (is_signed_integral_type(a_id) != is_signed_integral_type(b_id) || is_unsigned_integral_type(a_id)) // different sign: convert to unsigned integral
-						return this->template cast<unsigned long long>() < other.template cast<unsigned long long>();
-					else
-						return this->template cast<long long>() < other.template cast<long long>();
+					// compare negative and positive values of any types
+					if (this->negative() != other.negative())
+						return this->negative();
+					return this->template cast<unsigned long long>() < other.template cast<unsigned long long>();
 				}
 				return this->template cast<long double>() < other.template cast<long double>();
 			}
-- 
2.43.0


From d2eae5cebf17c54fa0cf83011e2696513058bf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:43 +0000
Subject: [PATCH 100/119] fix: comparing an any that holds a pointer to an
 array used the array as a pointer

---
 seq/any.hpp | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 71c2633..7b3ac5f 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1906,6 +1906,7 @@ namespace seq
 		auto equal_to(T&& other) const -> bool
 		{
 			using type = typename std::decay<T>::type;
+			const type& value = other; // arrays decay to pointers
 
 			// one empty: return false
 			if (this->empty())
@@ -1915,18 +1916,18 @@ namespace seq
 
 			// same type: use equal_any
 			if (this->type() == otype)
-				return this->type()->equal_any(this->data(), &other);
+				return this->type()->equal_any(this->data(), &value);
 
 			int a_id = this->type_id();
 
 			// arithmetic comparison
 			if (is_arithmetic_type(a_id) && std::is_arithmetic_v<type>) {
-				return detail::compare_equal_arithmetic(this->template cast<long double>(), std::forward<T>(other));
+				return detail::compare_equal_arithmetic(this->template cast<long double>(), value);
 			}
 
 			// string comparison
 			if (is_string_type(a_id) && is_generic_char_string<type>::value) {
-				return detail::compare_string<type>(this->template cast<tstring_view>(), std::forward<T>(other)) == 0;
+				return detail::compare_string<type>(this->template cast<tstring_view>(), value) == 0;
 			}
 
 			// use registered comparison
@@ -1936,7 +1937,7 @@ namespace seq
 			int b_id = get_type_id<type>();
 			if (b_id >= static_cast<int>(converts.size()) || !converts[static_cast<size_t>(b_id)])
 				return false;
-			return converts[static_cast<size_t>(b_id)](this->data(), &other);
+			return converts[static_cast<size_t>(b_id)](this->data(), &value);
 		}
 
 		/// @brief Returns true if underlying object compares less than other
@@ -1944,6 +1945,7 @@ namespace seq
 		auto less_than(T&& other) const -> bool
 		{
 			using type = typename std::decay<T>::type;
+			const type& value = other; // arrays decay to pointers
 
 			if (this->empty())
 				return true;
@@ -1952,7 +1954,7 @@ namespace seq
 
 			// same type: use less_any
 			if (this->type() == otype)
-				return otype->less_any(this->data(), &other);
+				return otype->less_any(this->data(), &value);
 
 			int a_id = this->type_id();
 
@@ -1960,16 +1962,16 @@ namespace seq
 			if (is_arithmetic_type(a_id) && std::is_arithmetic_v<type>) {
 				if (is_integral_type(a_id) && std::is_integral_v<type>) {
 					// compare negative and positive values of any types
-					if (this->negative() != detail::is_negative<type>(other))
+					if (this->negative() != detail::is_negative<type>(value))
 						return this->negative();
-					return detail::less_arithmetic<type, unsigned long long>(this->template cast<unsigned long long>(), other);
+					return detail::less_arithmetic<type, unsigned long long>(this->template cast<unsigned long long>(), value);
 				}
-				return detail::less_arithmetic<type, long double>(this->template cast<long double>(), other);
+				return detail::less_arithmetic<type, long double>(this->template cast<long double>(), value);
 			}
 
 			// string comparison
 			if (is_string_type(a_id) && is_generic_char_string<type>::value) {
-				return detail::compare_string<type>(this->template cast<tstring_view>(), other) < 0;
+				return detail::compare_string<type>(this->template cast<tstring_view>(), value) < 0;
 			}
 
 			// use registered comparison
@@ -1979,7 +1981,7 @@ namespace seq
 			const auto& converts = detail::get_less_comparison()[static_cast<size_t>(a_id)]; // info->d_convert;
 			if (b_id >= static_cast<int>(converts.size()) || !converts[static_cast<size_t>(b_id)])
 				return a_id < b_id;
-			return converts[static_cast<size_t>(b_id)](this->data(), &other);
+			return converts[static_cast<size_t>(b_id)](this->data(), &value);
 		}
 
 		/// @brief Returns true if underlying object compares greater than other
@@ -1987,6 +1989,7 @@ namespace seq
 		auto greater_than(T&& other) const -> bool
 		{
 			using type = typename std::decay<T>::type;
+			const type& value = other; // arrays decay to pointers
 
 			if (this->empty())
 				return false;
@@ -1995,7 +1998,7 @@ namespace seq
 
 			// same type: use less_any
 			if (this->type() == otype)
-				return otype->less_any(&other, this->data());
+				return otype->less_any(&value, this->data());
 
 			int a_id = this->type_id();
 
@@ -2003,16 +2006,16 @@ namespace seq
 			if (is_arithmetic_type(a_id) && std::is_arithmetic_v<type>) {
 				if (is_integral_type(a_id) && std::is_integral_v<type>) {
 					// compare negative and positive values of any types
-					if (this->negative() != detail::is_negative<type>(other))
+					if (this->negative() != detail::is_negative<type>(value))
 						return !this->negative();
-					return detail::greater_arithmetic<type, unsigned long long>(this->template cast<unsigned long long>(), other);
+					return detail::greater_arithmetic<type, unsigned long long>(this->template cast<unsigned long long>(), value);
 				}
-				return detail::greater_arithmetic<type, long double>(this->template cast<long double>(), other);
+				return detail::greater_arithmetic<type, long double>(this->template cast<long double>(), value);
 			}
 
 			// string comparison
 			if (is_string_type(a_id) && is_generic_char_string<type>::value) {
-				return detail::compare_string<type>(this->template cast<tstring_view>(), other) > 0;
+				return detail::compare_string<type>(this->template cast<tstring_view>(), value) > 0;
 			}
 
 			// use registered comparison
@@ -2022,7 +2025,7 @@ namespace seq
 			const auto& converts = detail::get_less_comparison()[static_cast<size_t>(b_id)]; // info->d_convert;
 			if (a_id >= static_cast<int>(converts.size()) || !converts[static_cast<size_t>(a_id)])
 				return b_id < a_id;
-			return converts[static_cast<size_t>(a_id)](&other, this->data());
+			return converts[static_cast<size_t>(a_id)](&value, this->data());
 		}
 
 		/// @brief Equality comparison operator
-- 
2.43.0


From 2b0733a52ee6ea18a5fceed8a00284c0126efe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:51 +0000
Subject: [PATCH 101/119] fix: any objects of a type without assignment
 operator leaked it on assignment, or did not compile

---
 seq/any.hpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 7b3ac5f..798e3a2 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -581,6 +581,15 @@ namespace seq
 				// might throw, fine
 				assign_value(*static_cast<T*>(dst), *static_cast<const T*>(in));
 			}
+			else if (in_p == out_p) {
+				// same type without assignment operator: replace the object by a copy
+				if constexpr (!std::is_copy_assignable_v<T> && std::is_copy_constructible_v<T>) {
+					T tmp(*static_cast<const T*>(in));
+					T* dst = static_cast<T*>(sizeof(T) > out_storage_size ? read_void_p(out_storage) : out_storage);
+					dst->~T();
+					new (dst) T(std::move(tmp));
+				}
+			}
 			else {
 				void* dst = out_storage;
 				if (sizeof(T) > out_storage_size) {
@@ -1601,7 +1610,13 @@ namespace seq
 			if (o_t == i_t) {
 				// same type
 				out = static_cast<type*>(this->data());
-				*out = type(std::forward<Args>(args)...);
+				if constexpr (std::is_move_assignable_v<type>)
+					*out = type(std::forward<Args>(args)...);
+				else {
+					hold_any tmp(type(std::forward<Args>(args)...));
+					replace(std::move(tmp));
+					out = static_cast<type*>(this->data());
+				}
 			}
 			else {
 				// different types, clear this object
@@ -1844,7 +1859,12 @@ namespace seq
 
 			if (o_t == i_t) {
 				// same type
-				*static_cast<type*>(this->data()) = std::forward<T>(value);
+				if constexpr (std::is_assignable_v<type&, T&&>)
+					*static_cast<type*>(this->data()) = std::forward<T>(value);
+				else {
+					hold_any tmp(std::forward<T>(value));
+					replace(std::move(tmp));
+				}
 			}
 			else {
 				// different types: value might be a part of the held object, build the new one first
-- 
2.43.0


From 159a9f95cdf41116fdb218f9f68c77b103377f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:51 +0000
Subject: [PATCH 102/119] fix: equal any objects of different arithmetic types
 had different hash values

---
 seq/any.hpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 798e3a2..aba97e0 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -172,9 +172,9 @@ namespace seq
 		return id >= get_type_id<float>() && id <= get_type_id<long double>();
 	}
 	/// @brief Returns true if given type id corresponds to an arithmetic type (floating point or integral)
-	SEQ_ALWAYS_INLINE auto is_arithmetic_type(int id) noexcept -> bool
+	SEQ_ALWAYS_INLINE constexpr auto is_arithmetic_type(int id) noexcept -> bool
 	{
-		return id != 0 && id <= get_type_id<long double>();
+		return id != 0 && id <= get_base_type_id<long double>();
 	}
 	/// @brief Returns true if given type id corresponds to a string type (std::string, tstring, tstring_view or const char*)
 	SEQ_ALWAYS_INLINE auto is_string_type(int id) noexcept -> bool
@@ -208,6 +208,23 @@ namespace seq
 		//
 		//////////////////////////////////////////////////////////////////////////////////////////////////////////
 
+		/// @brief Hash arithmetic value independently of its type
+		template<class T>
+		auto hash_arithmetic(const T& value) -> size_t
+		{
+			if constexpr (std::is_integral_v<T>)
+				return hasher<unsigned long long>{}(static_cast<unsigned long long>(value));
+			else {
+				// floating point value that might be equal to an integral one
+				if (value >= static_cast<T>(-9223372036854775808.) && value < static_cast<T>(18446744073709551616.)) {
+					const auto i = value < 0 ? static_cast<unsigned long long>(static_cast<long long>(value)) : static_cast<unsigned long long>(value);
+					if (value == (value < 0 ? static_cast<T>(static_cast<long long>(i)) : static_cast<T>(i)))
+						return hasher<unsigned long long>{}(i);
+				}
+				return hasher<long double>{}(static_cast<long double>(value));
+			}
+		}
+
 		/// @brief Hash value only if is_hashable<T>::value is true,
 		/// otherwise throw bad_any_function_call
 		template<class T>
@@ -224,6 +241,9 @@ namespace seq
 					using char_type = typename T::value_type;
 					return hasher<basic_tstring_view<char_type>>{}(*static_cast<const T*>(in));
 				}
+				else if constexpr (is_arithmetic_type(get_base_type_id<T>()))
+					// equal values of different types have the same hash value
+					return hash_arithmetic(*static_cast<const T*>(in));
 				else
 					return hasher<T>{}(*static_cast<const T*>(in));
 			}
-- 
2.43.0


From 47ea2d79094005596b3f5bff0d7ee0ecc089b87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:26 +0000
Subject: [PATCH 103/119] fix: any objects of bool and wchar_t were not handled
 as arithmetic values

---
 seq/any.hpp | 56 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index aba97e0..d3e9044 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -98,38 +98,42 @@ namespace seq
 			return 5;
 		else if constexpr (std::is_same_v<long long, T>)
 			return 6;
-		else if constexpr (std::is_same_v<unsigned char, T>)
+		else if constexpr (std::is_same_v<wchar_t, T>)
 			return 7;
-		else if constexpr (std::is_same_v<char16_t, T>)
+		else if constexpr (std::is_same_v<unsigned char, T>)
 			return 8;
-		else if constexpr (std::is_same_v<char32_t, T>)
+		else if constexpr (std::is_same_v<bool, T>)
 			return 9;
-		else if constexpr (std::is_same_v<unsigned short, T>)
+		else if constexpr (std::is_same_v<char16_t, T>)
 			return 10;
-		else if constexpr (std::is_same_v<unsigned int, T>)
+		else if constexpr (std::is_same_v<char32_t, T>)
 			return 11;
-		else if constexpr (std::is_same_v<unsigned long, T>)
+		else if constexpr (std::is_same_v<unsigned short, T>)
 			return 12;
-		else if constexpr (std::is_same_v<unsigned long long, T>)
+		else if constexpr (std::is_same_v<unsigned int, T>)
 			return 13;
-		else if constexpr (std::is_same_v<float, T>)
+		else if constexpr (std::is_same_v<unsigned long, T>)
 			return 14;
-		else if constexpr (std::is_same_v<double, T>)
+		else if constexpr (std::is_same_v<unsigned long long, T>)
 			return 15;
-		else if constexpr (std::is_same_v<long double, T>)
+		else if constexpr (std::is_same_v<float, T>)
 			return 16;
-		else if constexpr (std::is_same_v<std::string, T>)
+		else if constexpr (std::is_same_v<double, T>)
 			return 17;
-		else if constexpr (std::is_same_v<tstring, T>)
+		else if constexpr (std::is_same_v<long double, T>)
 			return 18;
-		else if constexpr (std::is_same_v<tstring_view, T>)
+		else if constexpr (std::is_same_v<std::string, T>)
 			return 19;
-		else if constexpr (std::is_same_v<const char*, T>)
+		else if constexpr (std::is_same_v<tstring, T>)
 			return 20;
-		else if constexpr (std::is_same_v<char*, T>)
+		else if constexpr (std::is_same_v<tstring_view, T>)
 			return 21;
-		else if constexpr (std::is_same_v<std::string_view, T>)
+		else if constexpr (std::is_same_v<const char*, T>)
 			return 22;
+		else if constexpr (std::is_same_v<char*, T>)
+			return 23;
+		else if constexpr (std::is_same_v<std::string_view, T>)
+			return 24;
 		else {
 			return 0;
 		}
@@ -145,7 +149,7 @@ namespace seq
 		if constexpr (v != 0)
 			return v;
 		else {
-			static constexpr int last_id = 22;
+			static constexpr int last_id = 24;
 			static int id = detail::build_type_id<last_id + 1>();
 			return id;
 		}
@@ -154,12 +158,12 @@ namespace seq
 	/// @brief Returns true if given type id corresponds to a signed integral type
 	SEQ_ALWAYS_INLINE auto is_signed_integral_type(int id) noexcept -> bool
 	{
-		return id != 0 && id <= get_type_id<long long>();
+		return id != 0 && (id <= get_type_id<long long>() || (id == get_type_id<wchar_t>() && std::is_signed_v<wchar_t>));
 	}
 	/// @brief Returns true if given type id corresponds to an unsigned integral type
 	SEQ_ALWAYS_INLINE auto is_unsigned_integral_type(int id) noexcept -> bool
 	{
-		return id >= get_type_id<unsigned char>() && id <= get_type_id<unsigned long long>();
+		return (id >= get_type_id<unsigned char>() && id <= get_type_id<unsigned long long>()) || (id == get_type_id<wchar_t>() && !std::is_signed_v<wchar_t>);
 	}
 	/// @brief Returns true if given type id corresponds to an integral type
 	SEQ_ALWAYS_INLINE auto is_integral_type(int id) noexcept -> bool
@@ -290,6 +294,10 @@ namespace seq
 						return static_cast<T>(*static_cast<const signed char*>(in));
 					case get_base_type_id<unsigned char>():
 						return static_cast<T>(*static_cast<const unsigned char*>(in));
+					case get_base_type_id<wchar_t>():
+						return static_cast<T>(*static_cast<const wchar_t*>(in));
+					case get_base_type_id<bool>():
+						return static_cast<T>(*static_cast<const bool*>(in));
 					case get_base_type_id<char16_t>():
 						return static_cast<T>(*static_cast<const char16_t*>(in));
 					case get_base_type_id<char32_t>():
@@ -328,10 +336,12 @@ namespace seq
 		T arithmetic_from_string(const String& in)
 		{
 			if constexpr (std::is_arithmetic_v<T>) {
-				T res;
+				// types not supported by from_chars() are read as integers
+				constexpr bool as_integer = std::is_same_v<T, bool> || std::is_same_v<T, wchar_t> || std::is_same_v<T, char16_t> || std::is_same_v<T, char32_t>;
+				std::conditional_t<as_integer, long long, T> res;
 				if (from_chars(string_data(in), string_data(in) + string_size(in), res).ec != std::errc())
 					throw std::bad_cast();
-				return res;
+				return static_cast<T>(res);
 			}
 			else {
 				throw std::bad_cast();
@@ -352,6 +362,10 @@ namespace seq
 						return fmt(*static_cast<const signed char*>(in)).append(res);
 					case get_base_type_id<unsigned char>():
 						return fmt(*static_cast<const unsigned char*>(in)).append(res);
+					case get_base_type_id<wchar_t>():
+						return fmt(*static_cast<const wchar_t*>(in)).append(res);
+					case get_base_type_id<bool>():
+						return fmt(*static_cast<const bool*>(in)).append(res);
 					case get_base_type_id<char16_t>():
 						return fmt(*static_cast<const char16_t*>(in)).append(res);
 					case get_base_type_id<char32_t>():
-- 
2.43.0


From e5157196d181450cd3f4b87886a52c80811a77de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:43 +0000
Subject: [PATCH 104/119] fix: casting an any to a type without default
 constructor did not compile

---
 seq/any.hpp | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index d3e9044..15dd0ec 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -284,7 +284,6 @@ namespace seq
 		{
 			if constexpr (!std::is_arithmetic_v<T>) {
 				throw std::bad_cast();
-				return T();
 			}
 			else {
 				switch (in_p->type_id()) {
@@ -326,7 +325,6 @@ namespace seq
 						return static_cast<T>(*static_cast<const long double*>(in));
 					default:
 						throw std::bad_cast();
-						return T();
 				}
 			}
 		}
@@ -345,7 +343,6 @@ namespace seq
 			}
 			else {
 				throw std::bad_cast();
-				return T();
 			}
 		}
 
@@ -400,7 +397,6 @@ namespace seq
 			}
 			else {
 				throw std::bad_cast();
-				return String();
 			}
 		}
 
@@ -412,7 +408,6 @@ namespace seq
 				return String(string_data(str), string_size(str));
 			else {
 				throw std::bad_cast();
-				return String();
 			}
 		}
 
@@ -428,7 +423,6 @@ namespace seq
 			}
 			else {
 				throw std::bad_cast();
-				return String();
 			}
 		}
 
@@ -439,7 +433,6 @@ namespace seq
 				return static_cast<OutPtr>(const_cast<void*>(ptr));
 			else {
 				throw std::bad_cast();
-				return OutPtr();
 			}
 		}
 
@@ -897,15 +890,6 @@ namespace seq
 		auto convert(const TypeInfo* /*unused*/, const TypeInfo* /*unused*/, std::uintptr_t /*unused*/) const -> T
 		{
 			throw std::bad_cast();
-#ifdef __clang__
-#pragma clang diagnostic push
-#pragma clang diagnostic ignored "-Wexit-time-destructors"
-#endif
-			static typename std::decay<T>::type ref;
-#ifdef __clang__
-#pragma clang diagnostic pop
-#endif
-			return ref;
 		}
 
 		template<class T, class = typename std::enable_if<!std::is_reference_v<T>, void>::type>
@@ -979,9 +963,13 @@ namespace seq
 			if (out_id >= static_cast<int>(converts.size()) || !converts[static_cast<size_t>(out_id)])
 				throw std::bad_cast();
 
-			type out;
-			converts[static_cast<size_t>(out_id)](this->data(), &out);
-			return out;
+			if constexpr (std::is_default_constructible_v<type>) {
+				type out;
+				converts[static_cast<size_t>(out_id)](this->data(), &out);
+				return out;
+			}
+			else
+				throw std::bad_cast();
 		}
 
 	public:
@@ -1671,8 +1659,6 @@ namespace seq
 					// reset type info pointer and tags
 					this->d_type_info.set_full(0);
 					throw;
-					// just to remove cppcheck warning
-					out = get_null_out<type>();
 				}
 			}
 
-- 
2.43.0


From 98e0512f02fb6858ba1201a0ec2863d8c2106b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:35 +0000
Subject: [PATCH 105/119] fix: compiler warning in hold_any::emplace()

---
 seq/any.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 15dd0ec..7ccadca 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1654,8 +1654,10 @@ namespace seq
 				}
 				catch (...) {
 					// free memory chunk if needed
-					if (d && (this->d_type_info.tag() & detail::big_size))
-						SEQ_ANY_FREE(d);
+					if constexpr (detail::need_separate_storage<type, sizeof(this->d_storage), Relocatable>::value) {
+						if (d)
+							SEQ_ANY_FREE(d);
+					}
 					// reset type info pointer and tags
 					this->d_type_info.set_full(0);
 					throw;
-- 
2.43.0


From 52c7f09bf61421a6112749016bf04e49a23fd3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 106/119] fix: an any that holds a pointer compared equal to
 the array it points to

---
 seq/any.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 7ccadca..f87dc31 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1957,8 +1957,13 @@ namespace seq
 			const type_info_type* otype = get_type<type>();
 
 			// same type: use equal_any
-			if (this->type() == otype)
-				return this->type()->equal_any(this->data(), &value);
+			if (this->type() == otype) {
+				// an array never equals a pointer, even to its first element
+				if constexpr (std::is_array_v<typename std::remove_reference<T>::type>)
+					return false;
+				else
+					return this->type()->equal_any(this->data(), &value);
+			}
 
 			int a_id = this->type_id();
 
-- 
2.43.0


From c84f5f46a288beae2ef8689eacfa9d3b617a209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 107/119] fix: join() of an initializer_list kept a pointer to
 its own argument

---
 seq/format.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seq/format.hpp b/seq/format.hpp
index 42583de..31dc83b 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -787,6 +787,10 @@ namespace seq
 		struct inline_value_storage : std::false_type
 		{
 		};
+		template<class T>
+		struct inline_value_storage<std::initializer_list<T>> : std::true_type
+		{
+		};
 
 		/// @brief Tells if T is one of format library basic type (arithmetic or tstring_view types)
 		template<class T, bool IsBasicType = (std::is_arithmetic_v<T> || is_tiny_string<T>::value || inline_value_storage<T>::value)>
-- 
2.43.0


From c5d783ad59f128052de316fbc72330782f2a0b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 108/119] fix: str() of several numerical values did not
 compile

---
 seq/format.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index 31dc83b..156ac69 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -2287,7 +2287,7 @@ namespace seq
 				return std::copy(tmp.begin(), tmp.end(), dst);
 			}
 
-			template<class String = std::basic_string<char_type>>
+			template<class String = std::basic_string<valid_char_type>>
 			auto str() const -> String
 			{
 				// convert this formatting object to string-like object
-- 
2.43.0


From 60f4438f1b125144e02bbccb3df29cddea999094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 109/119] fix: join() of a container with a wide separator
 could not be written to a stream or string

---
 seq/format.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index 156ac69..889d9ca 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -2817,6 +2817,7 @@ namespace seq
 
 	public:
 		using char_type = Char;
+		using valid_char_type = Char;
 
 		basic_tstring_view<Char> separator;
 		width_format wfmt;
@@ -2835,6 +2836,13 @@ namespace seq
 			this->set_numeric_format(wf.numeric_fmt());
 		}
 
+		/// @brief Convert the formatting object to String
+		template<class String = std::basic_string<Char>>
+		auto str() const -> String
+		{
+			return base_type::template str<String>();
+		}
+
 		template<class String>
 		size_t to_string(String& out) const
 		{
@@ -2848,7 +2856,7 @@ namespace seq
 			auto last = this->value().end();
 
 			if (first == last)
-				return prev;
+				return 0;
 
 			auto f = seq::fmt<val_type>();
 			f.set_numeric_format(this->numeric_fmt());
-- 
2.43.0


From 5f4ad238d5be91c0cf5f2cad7dd963e0cfd5223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 110/119] fix: split() never skipped the last part, replace()
 dropped leading and adjacent matches

---
 seq/format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index 889d9ca..7597efc 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -3177,7 +3177,7 @@ namespace seq
 					if SEQ_UNLIKELY (found == view_type::npos) {
 						// last occurence
 						current = source.substr(start, source.size() - start);
-						start = view_type::npos - 1;
+						start = Skip::skip(current.data(), current.size()) ? view_type::npos : view_type::npos - 1;
 						return;
 					}
 					else {
@@ -3242,7 +3242,7 @@ namespace seq
 	template<class Out, class Str1, class Str2, class Str3>
 	inline auto replace(const Str1& src, const Str2& match, const Str3& _new)
 	{
-		auto r = split(src, by_string(match), skip_empty{});
+		auto r = split(src, by_string(match), no_skip{});
 		return Out(join(_new, r));
 	}
 
-- 
2.43.0


From 5a253db62319b97f9ab232350c1d6ee8fe852cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:05 +0000
Subject: [PATCH 111/119] fix: formatting a value whose stream operator uses
 fmt() lost the text written before

---
 seq/format.hpp | 47 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index 7597efc..431fbb8 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -752,6 +752,25 @@ namespace seq
 			return tmp;
 		}
 
+		/// @brief Takes the content of a thread local buffer and gives it back at destruction.
+		/// A nested formatting (for instance within the stream operator of a custom type) uses its own buffer.
+		template<class Char>
+		struct borrow_buffer
+		{
+			std::basic_string<Char>& source;
+			std::basic_string<Char> buffer;
+
+			explicit borrow_buffer(std::basic_string<Char>& src) noexcept
+			  : source(src)
+			  , buffer(std::move(src))
+			{
+				buffer.clear();
+			}
+			borrow_buffer(const borrow_buffer&) = delete;
+			borrow_buffer& operator=(const borrow_buffer&) = delete;
+			~borrow_buffer() noexcept { source.swap(buffer); }
+		};
+
 		// Helper function, append a ostream_format to a string
 		template<class String, class Ostream>
 		static auto append_to_string(String& out, const Ostream& d) -> String&
@@ -1284,8 +1303,8 @@ namespace seq
 		auto to_chars(Char* dst) -> Char*
 		{
 			this->template assert_char<Char>();
-			auto& tmp = detail::to_chars_buffer<Char>();
-			tmp.clear();
+			detail::borrow_buffer<Char> borrowed(detail::to_chars_buffer<Char>());
+			auto& tmp = borrowed.buffer;
 			this->append(tmp);
 			detail::memcpy_char(dst, tmp.data(), tmp.size());
 			return dst + tmp.size();
@@ -1297,8 +1316,8 @@ namespace seq
 		auto to_chars(Char* dst, size_t max) -> std::pair<Char*, size_t>
 		{
 			this->template assert_char<Char>();
-			auto& tmp = detail::to_chars_buffer<Char>();
-			tmp.clear();
+			detail::borrow_buffer<Char> borrowed(detail::to_chars_buffer<Char>());
+			auto& tmp = borrowed.buffer;
 			this->append(tmp);
 			if (tmp.size() > max) {
 				detail::memcpy_char(dst, tmp.data(), max);
@@ -1314,8 +1333,8 @@ namespace seq
 		{
 			using Char = typename std::iterator_traits<Iter>::value_type;
 			this->template assert_char<Char>();
-			auto& tmp = detail::to_chars_buffer<Char>();
-			tmp.clear();
+			detail::borrow_buffer<Char> borrowed(detail::to_chars_buffer<Char>());
+			auto& tmp = borrowed.buffer;
 			this->append(tmp);
 			return std::copy(tmp.begin(), tmp.end(), dst);
 		}
@@ -1669,8 +1688,8 @@ namespace seq
 	{
 		using valid_char_type = typename ostream_format<T, S>::valid_char_type;
 		static_assert(std::is_same_v<valid_char_type, Elem>, "output to stream: cannot mix different character types");
-		auto& tmp = detail::ostream_buffer<Elem>();
-		tmp.clear();
+		detail::borrow_buffer<Elem> borrowed(detail::ostream_buffer<Elem>());
+		auto& tmp = borrowed.buffer;
 		size_t s = val.to_string(tmp);
 		if (!ostream_format<T, S>::auto_width_format) {
 			// non default ostream_format, the width formatting must be applied
@@ -2264,8 +2283,8 @@ namespace seq
 			template<class C>
 			auto to_chars(C* dst, size_t max) -> std::pair<C*, size_t>
 			{
-				auto& tmp = detail::to_chars_buffer<C>();
-				tmp.clear();
+				detail::borrow_buffer<C> borrowed(detail::to_chars_buffer<C>());
+				auto& tmp = borrowed.buffer;
 				reserve_string(tmp);
 				this->append(tmp);
 				if (tmp.size() > max) {
@@ -2280,8 +2299,8 @@ namespace seq
 			auto to_iter(Iter dst) -> Iter
 			{
 				using C = typename std::iterator_traits<Iter>::value_type;
-				auto& tmp = detail::to_chars_buffer<C>();
-				tmp.clear();
+				detail::borrow_buffer<C> borrowed(detail::to_chars_buffer<C>());
+				auto& tmp = borrowed.buffer;
 				reserve_string(tmp);
 				this->append(tmp);
 				return std::copy(tmp.begin(), tmp.end(), dst);
@@ -2957,8 +2976,8 @@ namespace seq
 	inline auto operator<<(std::basic_ostream<Elem, Traits>& oss, const detail::mutli_ostream_format<T, C, HS, P, S>& val) -> std::basic_ostream<Elem, Traits>&
 	{
 		static_assert(std::is_void_v<C> || std::is_same_v<Elem, C>, "cannot mix different character types");
-		auto& tmp = detail::multi_ostream_buffer<Elem>();
-		tmp.clear();
+		detail::borrow_buffer<Elem> borrowed(detail::multi_ostream_buffer<Elem>());
+		auto& tmp = borrowed.buffer;
 		val.append(tmp);
 		oss.rdbuf()->sputn(tmp.data(), static_cast<std::streamsize>(tmp.size()));
 		return oss;
-- 
2.43.0


From 15a2eacf4e50489f8ce1fe6139ec6ee33e597d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:05 +0000
Subject: [PATCH 112/119] fix: a number with a width but no alignment was
 followed by uninitialised characters

---
 seq/format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index 431fbb8..e56ff03 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -1568,7 +1568,7 @@ namespace seq
 				size = static_cast<size_t>(f.ptr - tmp.data());
 			}
 
-			if (val.width() > size) {
+			if (val.width() > size && val.alignment() != width_format::align_none) {
 				detail::format_width(tmp, size, val.width_fmt());
 				size = val.width();
 			}
@@ -1603,7 +1603,7 @@ namespace seq
 			}
 #endif
 			size_t size = static_cast<size_t>(f.ptr - tmp.data());
-			if (val.width() > size) {
+			if (val.width() > size && val.alignment() != width_format::align_none) {
 				detail::format_width(tmp, size, val.width_fmt());
 				size = val.width();
 			}
-- 
2.43.0


From 740790b4d852dc5e43d931c1ef5dde911e8799bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:52 +0000
Subject: [PATCH 113/119] fix: extended move constructors of sequences needed
 default constructible elements

---
 seq/devector.hpp      | 5 +++--
 seq/sequence.hpp      | 4 ++--
 seq/tiered_vector.hpp | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index f7ba0a2..c4a2d0c 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -743,8 +743,9 @@ namespace seq
 				swap(other);
 			}
 			else {
-				resize(other.size());
-				std::move(other.begin(), other.end(), begin());
+				reserve(other.size());
+				for (auto& v : other)
+					push_back(std::move(v));
 			}
 		}
 		/// @brief Constructs the container with the contents of the initializer list init
diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 1c0d065..4822764 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1446,8 +1446,8 @@ namespace seq
 			if (alloc == other.get_allocator())
 				std::swap(other.d_data, d_data);
 			else {
-				resize(other.size());
-				std::move(other.begin(), other.end(), begin());
+				for (auto& v : other)
+					push_back(std::move(v));
 			}
 		}
 		/// @brief Constructs the sequence with the contents of the initializer list \a lst
diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 6bd9f33..5a8dcea 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2961,8 +2961,8 @@ namespace seq
 				std::swap(d_manager, other.d_manager);
 			}
 			else {
-				resize(other.size());
-				std::move(other.begin(), other.end(), begin());
+				for (auto& v : other)
+					push_back(std::move(v));
 			}
 		}
 		/// @brief Constructs the container with the contents of the initializer list \a init.
-- 
2.43.0


From 42f9932dbc5ba64a3fc3c9517a83c650c83bf845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:52 +0000
Subject: [PATCH 114/119] fix: copy assignment of a sequence leaked its
 elements when another allocator propagates

---
 seq/sequence.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 4822764..c38c001 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1480,10 +1480,8 @@ namespace seq
 			if (this != std::addressof(other)) {
 
 				if constexpr (assign_alloc<Allocator>::value) {
-					if (get_allocator() != other.get_allocator()) {
-						destroy_data(d_data);
-						d_data = nullptr;
-					}
+					if (get_allocator() != other.get_allocator())
+						clear();
 				}
 				assign_allocator(get_allocator(), other.get_allocator());
 
-- 
2.43.0


From 682a16551e5f83864c263a15b908855a1a3cf96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:52 +0000
Subject: [PATCH 115/119] fix: extended move constructor of radix containers
 did not compile

---
 seq/internal/radix_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 5c8fd09..4547069 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1953,7 +1953,7 @@ namespace seq
 				if (alloc == other.get_allocator())
 					swap(other, false);
 				else if (other.size()) {
-					insert(make_move_iterator(other.begin()), make_move_iterator(other.end()), false);
+					insert(std::make_move_iterator(other.begin()), std::make_move_iterator(other.end()), false);
 					other.clear();
 				}
 			}
-- 
2.43.0


From 30a013d5469110c4d6f009bd101de8a13a3ccdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:52 +0000
Subject: [PATCH 116/119] fix: extended move constructors left moved-from keys
 in the source

---
 seq/flat_map.hpp                       | 2 ++
 seq/internal/concurrent_hash_table.hpp | 2 ++
 seq/ordered_map.hpp                    | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index f60590b..9737941 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -546,6 +546,8 @@ namespace seq
 			  : base_type(std::move(other))
 			  , d_deque(std::move(other.d_deque), alloc)
 			{
+				// drop moved-from elements
+				other.clear();
 			}
 			flat_tree(std::initializer_list<value_type> init, const Compare& comp = Compare(), const Allocator& alloc = Allocator())
 			  : flat_tree(init.begin(), init.end(), comp, alloc)
diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 6a3712f..8616a11 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1695,6 +1695,8 @@ namespace seq
 				else {
 					this->reserve(other.size());
 					other.visit_all([&](Value& v) { this->emplace_policy_no_check<InsertConcurrentPolicy>(std::move(v)); });
+					// drop moved-from elements
+					other.clear();
 				}
 			}
 			ConcurrentHashTable(ConcurrentHashTable&& other) noexcept(std::is_nothrow_move_constructible_v<Alloc> && std::is_nothrow_copy_constructible_v<base_hash_equal>)
diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 44d6cce..ee95545 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -548,6 +548,8 @@ namespace seq
 					// rehash
 					d_buckets = null_node();
 					rehash(0, true);
+					// drop moved-from elements
+					other.clear();
 				}
 			}
 
-- 
2.43.0


From d8733beab6fb6f92e3832d6b5ebc1237aecede8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:52 +0000
Subject: [PATCH 117/119] fix: move assignment of flat containers did not
 exchange the functors

---
 seq/flat_map.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 9737941..5f53225 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -561,8 +561,9 @@ namespace seq
 			auto operator=(flat_tree&& other) noexcept(std::is_nothrow_move_assignable_v<base_type> && std::is_nothrow_move_assignable_v<container_type>) -> flat_tree&
 			{
 				if (this != std::addressof(other)) {
+					// the functor goes with the elements it organises
 					d_deque = std::move(other.d_deque);
-					base() = std::move(other.base());
+					base().swap(other.base());
 				}
 				return *this;
 			}
-- 
2.43.0


From 50285f1c1155f0aa77a04f06829e95f774a4e207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:52 +0000
Subject: [PATCH 118/119] fix: copy assignment of short strings did not
 propagate the allocator

---
 seq/tiny_string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index deeabd1..9ce5ead 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1258,8 +1258,10 @@ namespace seq
 		/// @brief Assign the content of other to this string
 		auto assign(const tiny_string& other) -> tiny_string&
 		{
-			if (is_sso() && other.is_sso())
+			if (is_sso() && other.is_sso()) {
+				assign_allocator(get_allocator(), other.get_allocator());
 				memcpy(&d_data.d_union, &other.d_data.d_union, sizeof(d_data.d_union));
+			}
 			else {
 				if constexpr (assign_alloc<Allocator>::value) {
 					if (get_allocator() != other.get_allocator()) {
-- 
2.43.0


From 2ac59a386b79afa035981b3e2519a2fb789bcd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:52 +0000
Subject: [PATCH 119/119] fix: move assignment exchanged storages of unequal
 allocators

---
 seq/concurrent_map.hpp                 |  8 ++---
 seq/devector.hpp                       | 19 ++++++++----
 seq/internal/concurrent_hash_table.hpp | 32 +++++++++++++++++--
 seq/internal/radix_tree.hpp            |  4 +--
 seq/ordered_map.hpp                    | 43 +++++++++++++++++++-------
 seq/sequence.hpp                       |  4 +--
 seq/tiered_vector.hpp                  |  4 +--
 seq/tiny_string.hpp                    | 13 ++++++--
 seq/utils.hpp                          | 29 +++++++++++++++++
 9 files changed, 125 insertions(+), 31 deletions(-)

diff --git a/seq/concurrent_map.hpp b/seq/concurrent_map.hpp
index a6490dd..13b049c 100644
--- a/seq/concurrent_map.hpp
+++ b/seq/concurrent_map.hpp
@@ -184,9 +184,9 @@ namespace seq
 			static_cast<base_type&>(*this) = static_cast<const base_type&>(other);
 			return *this;
 		}
-		auto operator=(concurrent_set&& other) noexcept(noexcept(std::declval<base_type&>().swap(std::declval<base_type&>()))) -> concurrent_set&
+		auto operator=(concurrent_set&& other) noexcept(std::is_nothrow_move_assignable_v<base_type>) -> concurrent_set&
 		{
-			base_type::swap(other);
+			base_type::operator=(std::move(static_cast<base_type&>(other)));
 			return *this;
 		}
 
@@ -600,9 +600,9 @@ namespace seq
 			static_cast<base_type&>(*this) = static_cast<const base_type&>(other);
 			return *this;
 		}
-		auto operator=(concurrent_map&& other) noexcept(noexcept(std::declval<base_type&>().swap(std::declval<base_type&>()))) -> concurrent_map&
+		auto operator=(concurrent_map&& other) noexcept(std::is_nothrow_move_assignable_v<base_type>) -> concurrent_map&
 		{
-			base_type::swap(other);
+			base_type::operator=(std::move(static_cast<base_type&>(other)));
 			return *this;
 		}
 
diff --git a/seq/devector.hpp b/seq/devector.hpp
index c4a2d0c..4331afe 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -1062,16 +1062,23 @@ namespace seq
 		/// @return Iterator following the last removed element.
 		auto erase(const_iterator pos) -> const_iterator { return erase(pos, pos + 1); }
 
+	private:
+		void swap_storage(devector& other) noexcept
+		{
+			std::swap(base_type::data, other.base_type::data);
+			std::swap(base_type::start, other.base_type::start);
+			std::swap(base_type::end, other.base_type::end);
+			std::swap(base_type::capacity, other.base_type::capacity);
+		}
+
+	public:
 		/// @brief Swap this container with other
 		/// Does not invalidated iterators, including end() iterator.
 		void swap(devector& other) noexcept(noexcept(swap_allocator(std::declval<Allocator&>(), std::declval<Allocator&>())))
 		{
 			if (this != std::addressof(other)) {
 				swap_allocator(get_allocator(), other.get_allocator());
-				std::swap(base_type::data, other.base_type::data);
-				std::swap(base_type::start, other.base_type::start);
-				std::swap(base_type::end, other.base_type::end);
-				std::swap(base_type::capacity, other.base_type::capacity);
+				swap_storage(other);
 			}
 		}
 
@@ -1232,9 +1239,9 @@ namespace seq
 			return *this;
 		}
 		/// @brief Move assignment operator
-		auto operator=(devector&& other) noexcept(noexcept(std::declval<devector&>().swap(std::declval<devector&>()))) -> devector&
+		auto operator=(devector&& other) noexcept(move_steals<Allocator>::value) -> devector&
 		{
-			swap(other);
+			move_container<Allocator>(*this, other, [](devector& l, devector& r) { l.swap_storage(r); });
 			return *this;
 		}
 	};
diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 8616a11..089a02a 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1740,9 +1740,21 @@ namespace seq
 				}
 				return *this;
 			}
-			ConcurrentHashTable& operator=(ConcurrentHashTable&& other) noexcept(noexcept(std::declval<ConcurrentHashTable&>().swap(std::declval<ConcurrentHashTable&>())))
+			ConcurrentHashTable& operator=(ConcurrentHashTable&& other) noexcept(move_steals<Alloc>::value && noexcept(std::declval<base_hash_equal&>().swap(std::declval<base_hash_equal&>())))
 			{
-				swap(other);
+				if (this != std::addressof(other)) {
+					if constexpr (move_steals<Alloc>::value)
+						swap_storage<std::allocator_traits<Alloc>::propagate_on_container_move_assignment::value>(other);
+					else {
+						const Alloc al = get_safe_allocator();
+						if (al == other.get_safe_allocator())
+							swap_storage<false>(other);
+						else {
+							ConcurrentHashTable tmp(std::move(other), al);
+							swap_storage<false>(tmp);
+						}
+					}
+				}
 				return *this;
 			}
 
@@ -1854,6 +1866,22 @@ namespace seq
 				f /= PrivateData::map_count;
 				return f;
 			}
+			// Swap everything, including allocators if SwapAlloc is true
+			template<bool SwapAlloc>
+			void swap_storage(ConcurrentHashTable& other) noexcept(noexcept(std::declval<base_hash_equal&>().swap(std::declval<base_hash_equal&>())))
+			{
+				if constexpr (is_concurrent)
+					std::lock(d_data_lock, other.d_data_lock);
+				LockUnique<data_lock_type> l1(&d_data_lock, true);
+				LockUnique<data_lock_type> l2(&other.d_data_lock, true);
+
+				PrivateData* odata = AtomicLoad(other.d_data);
+				other.d_data = (AtomicLoad(d_data));
+				d_data = (odata);
+				if constexpr (SwapAlloc)
+					std::swap(static_cast<Alloc&>(*this), static_cast<Alloc&>(other));
+				static_cast<base_hash_equal&>(*this).swap(other);
+			}
 			void swap(ConcurrentHashTable& other, bool swap_alloc = true) noexcept(noexcept(swap_allocator<Alloc>(std::declval<Alloc&>(), std::declval<Alloc&>())) &&
 											       noexcept(std::declval<base_hash_equal&>().swap(std::declval<base_hash_equal&>())))
 			{
diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 4547069..395a5b9 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1970,9 +1970,9 @@ namespace seq
 
 			// Assignment operators/functions
 
-			auto operator=(RadixTree&& other) noexcept(noexcept(std::declval<RadixTree&>().swap(std::declval<RadixTree&>()))) -> RadixTree&
+			auto operator=(RadixTree&& other) noexcept(move_steals<Allocator>::value) -> RadixTree&
 			{
-				swap(other);
+				move_container<Allocator>(*this, other, [](RadixTree& l, RadixTree& r) { l.swap(r, false); });
 				return *this;
 			}
 
diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index ee95545..d4af6e6 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -559,14 +559,35 @@ namespace seq
 			  noexcept(std::declval<sequence_type&>().swap(std::declval<sequence_type&>())) && noexcept(std::declval<base_type&>().swap(std::declval<base_type&>())))
 			{
 				if (this != std::addressof(other)) {
-					std::swap(d_buckets, other.d_buckets);
-					std::swap(d_hash_mask, other.d_hash_mask);
-					std::swap(d_hash_len, other.d_hash_len);
-					std::swap(d_next_target, other.d_next_target);
-					std::swap(d_max_dist, other.d_max_dist);
-					std::swap(d_load_factor, other.d_load_factor);
+					swap_buckets(other);
 					d_seq.swap(other.d_seq);
-					base_type::swap(other);
+				}
+			}
+
+			// Swap everything except the elements
+			void swap_buckets(SparseFlatNodeHashTable& other) noexcept(noexcept(std::declval<base_type&>().swap(std::declval<base_type&>())))
+			{
+				std::swap(d_buckets, other.d_buckets);
+				std::swap(d_hash_mask, other.d_hash_mask);
+				std::swap(d_hash_len, other.d_hash_len);
+				std::swap(d_next_target, other.d_next_target);
+				std::swap(d_max_dist, other.d_max_dist);
+				std::swap(d_load_factor, other.d_load_factor);
+				base_type::swap(other);
+			}
+
+			void move_assign(SparseFlatNodeHashTable& other) noexcept(move_steals<Allocator>::value)
+			{
+				if (this == std::addressof(other))
+					return;
+				if (move_steals<Allocator>::value || d_seq.get_allocator() == other.d_seq.get_allocator()) {
+					swap_buckets(other);
+					d_seq = std::move(other.d_seq);
+				}
+				else {
+					SparseFlatNodeHashTable tmp(std::move(other), d_seq.get_allocator());
+					swap_buckets(tmp);
+					d_seq = std::move(tmp.d_seq);
 				}
 			}
 
@@ -1233,9 +1254,9 @@ namespace seq
 		}
 
 		/// @brief Move assignment operator
-		auto operator=(ordered_set&& other) noexcept(noexcept(std::declval<base_type&>().swap(std::declval<base_type&>()))) -> ordered_set&
+		auto operator=(ordered_set&& other) noexcept(noexcept(std::declval<base_type&>().move_assign(std::declval<base_type&>()))) -> ordered_set&
 		{
-			base_type::swap(other);
+			base_type::move_assign(other);
 			return *this;
 		}
 
@@ -1693,9 +1714,9 @@ namespace seq
 			}
 			return *this;
 		}
-		auto operator=(ordered_map&& other) noexcept(noexcept(std::declval<base_type&>().swap(std::declval<base_type&>()))) -> ordered_map&
+		auto operator=(ordered_map&& other) noexcept(noexcept(std::declval<base_type&>().move_assign(std::declval<base_type&>()))) -> ordered_map&
 		{
-			base_type::swap(other);
+			base_type::move_assign(other);
 			return *this;
 		}
 
diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index c38c001..918b5ad 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1497,9 +1497,9 @@ namespace seq
 		/// @brief Move assignment operator
 		/// @param other input sequence object
 		/// @return reference to this
-		auto operator=(sequence&& other) noexcept(noexcept(std::declval<sequence&>().swap(std::declval<sequence&>()))) -> sequence&
+		auto operator=(sequence&& other) noexcept(move_steals<Allocator>::value) -> sequence&
 		{
-			this->swap(other);
+			move_container<Allocator>(*this, other, [](sequence& l, sequence& r) { std::swap(l.d_data, r.d_data); });
 			return *this;
 		}
 
diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 5a8dcea..d9732e6 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2991,9 +2991,9 @@ namespace seq
 		/// @brief Move assignment operator.
 		/// @param other another container to use as data source
 		/// @return reference to this
-		auto operator=(tiered_vector&& other) noexcept(noexcept(std::declval<tiered_vector&>().swap(std::declval<tiered_vector&>()))) -> tiered_vector&
+		auto operator=(tiered_vector&& other) noexcept(move_steals<Allocator>::value) -> tiered_vector&
 		{
-			this->swap(other);
+			move_container<Allocator>(*this, other, [](tiered_vector& l, tiered_vector& r) { std::swap(l.d_manager, r.d_manager); });
 			return *this;
 		}
 
diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 9ce5ead..2f9b668 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1330,8 +1330,17 @@ namespace seq
 		/// @brief Assign to this string the initializer list il
 		auto assign(std::initializer_list<Char> il) -> tiny_string& { return assign(il.begin(), il.end()); }
 		/// @brief Move the content of other to this string. Equivalent to tiny_string::operator=.
-		SEQ_STR_INLINE_STRONG auto assign(tiny_string&& other) noexcept(noexcept(std::declval<internal_data&>().swap(std::declval<internal_data&>()))) -> tiny_string&
-		{
+		SEQ_STR_INLINE_STRONG auto assign(tiny_string&& other) noexcept(move_steals<Allocator>::value && noexcept(std::declval<internal_data&>().swap(std::declval<internal_data&>())))
+		  -> tiny_string&
+		{
+			if constexpr (!move_steals<Allocator>::value) {
+				if (get_allocator() != other.get_allocator()) {
+					// cannot take the storage of other
+					assign(static_cast<const Char*>(other.data()), other.size());
+					other.clear();
+					return *this;
+				}
+			}
 			if constexpr (sizeof(tiny_string) <= 16 || !noexcept(move_allocator(std::declval<Allocator&>(), std::declval<Allocator&>())))
 				// Use internal_data.swap() for small static size or if moving allocator is NOT noexcept
 				d_data.swap(other.d_data);
diff --git a/seq/utils.hpp b/seq/utils.hpp
index 2880f28..0da6776 100644
--- a/seq/utils.hpp
+++ b/seq/utils.hpp
@@ -598,6 +598,35 @@ namespace seq
 		static constexpr bool value = std::allocator_traits<Allocator>::propagate_on_container_move_assignment::type && !is_always_equal<Allocator>::value;
 	};
 
+	// Returns whether a move assignment can always take the storage of the other container
+	template<class Allocator>
+	struct move_steals
+	{
+		static constexpr bool value = std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value || is_always_equal<Allocator>::value;
+	};
+
+	/// @brief Container move assignment.
+	/// Exchange the storages if the allocator propagates or if allocators compare equal, otherwise move elements.
+	/// @param swap_storage exchange all data members of 2 containers except their allocators
+	template<class Allocator, class Container, class Swap>
+	void move_container(Container& left, Container& right, Swap swap_storage) noexcept(move_steals<Allocator>::value)
+	{
+		if (std::addressof(left) == std::addressof(right))
+			return;
+		if constexpr (move_steals<Allocator>::value) {
+			swap_storage(left, right);
+			if constexpr (std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value)
+				std::swap(static_cast<Allocator&>(left.get_allocator()), static_cast<Allocator&>(right.get_allocator()));
+		}
+		else if (left.get_allocator() == right.get_allocator())
+			swap_storage(left, right);
+		else {
+			Container tmp(std::move(right), left.get_allocator());
+			swap_storage(left, tmp);
+			right.clear();
+		}
+	}
+
 } // end namespace seq
 
 #endif
-- 
2.43.0

