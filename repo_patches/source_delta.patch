From bea5f2fa00307705ae077918bc3dad60e65ac22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:57 +0000
Subject: [PATCH 01/93] fix: define Name::Concat after Name is complete

Name was used as an incomplete type inside its own nested template, which is
ill-formed and rejected by clang.
---
 src/korin/core/public/templates/name.h | 59 ++++++++++++++------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/src/korin/core/public/templates/name.h b/src/korin/core/public/templates/name.h
index 2e11194..4e5f006 100644
--- a/src/korin/core/public/templates/name.h
+++ b/src/korin/core/public/templates/name.h
@@ -103,34 +103,7 @@ public:
 	 * @param names list of names
 	 * 	to concatenate
 	 */
-	template<const Name & ...names>
-	struct Concat
-	{
-		static constexpr auto concat() noexcept
-		{
-			StaticArrayT<length + 1> buffer{};
-
-			auto copyBuffer = [i = 0, &buffer](auto const & name) mutable {
-
-				for (sizet idx = 0; idx < name.getLength(); ++idx)
-				{
-					buffer[i++] = name[idx];
-				}
-			};
-			(copyBuffer(names), ...);
-
-			return buffer;
-		}
-
-		/// Output name length
-		static constexpr sizet length = (names.getLength() + ... + 0);
-		
-		/// Output static buffer
-		static constexpr auto buffer = concat();
-
-		/// Output name object
-		static constexpr Name name{buffer};
-	};
+	template<const Name & ...names> struct Concat;
 
 protected:
 	/// Pointer to static buffer
@@ -140,6 +113,36 @@ protected:
 	const sizet length;
 };
 
+// Defined here because it needs a complete name
+template<const Name & ...names>
+struct Name::Concat
+{
+	static constexpr auto concat() noexcept
+	{
+		StaticArrayT<length + 1> buffer{};
+
+		auto copyBuffer = [i = 0, &buffer](auto const & name) mutable {
+
+			for (sizet idx = 0; idx < name.getLength(); ++idx)
+			{
+				buffer[i++] = name[idx];
+			}
+		};
+		(copyBuffer(names), ...);
+
+		return buffer;
+	}
+
+	/// Output name length
+	static constexpr sizet length = (names.getLength() + ... + 0);
+	
+	/// Output static buffer
+	static constexpr auto buffer = concat();
+
+	/// Output name object
+	static constexpr Name name{buffer};
+};
+
 /**
  * Quick macro for String concatenation.
  */
-- 
2.43.0


From 2595a8ac46dcc0237440392c3df9bb8739356ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:57 +0000
Subject: [PATCH 02/93] fix: declare the Vec3<float32> constants before their
 first use

Specializing the static members after they were implicitly instantiated is
ill-formed and rejected by clang.
---
 src/korin/core/public/math/vec3.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/korin/core/public/math/vec3.h b/src/korin/core/public/math/vec3.h
index 7331ced..e3a24b9 100644
--- a/src/korin/core/public/math/vec3.h
+++ b/src/korin/core/public/math/vec3.h
@@ -411,6 +411,16 @@ struct Vec3
 // Floating-point specialization
 //////////////////////////////////////////////////
 
+// Defined in math.cpp
+template<> const Vec3<float32> Vec3<float32>::zero;
+template<> const Vec3<float32> Vec3<float32>::unit;
+template<> const Vec3<float32> Vec3<float32>::right;
+template<> const Vec3<float32> Vec3<float32>::left;
+template<> const Vec3<float32> Vec3<float32>::up;
+template<> const Vec3<float32> Vec3<float32>::down;
+template<> const Vec3<float32> Vec3<float32>::forward;
+template<> const Vec3<float32> Vec3<float32>::backward;
+
 template<>
 FORCE_INLINE float32 Vec3<float32>::getSize() const
 {
-- 
2.43.0


From fecdc916461a8978db466e851acb63c691100d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 03/93] fix: forward each element with its own type in
 List::pushBack/pushFront packs

---
 src/korin/core/public/containers/list.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 0542e89..9070f7a 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -464,7 +464,7 @@ public:
 	template<typename ...DataListT>
 	FORCE_INLINE void pushBack(DataListT && ... datas)
 	{
-		(pushBack(forward<DataT>(datas)), ...);
+		(pushBack(forward<DataListT>(datas)), ...);
 	}
 	/** @} */
 
@@ -512,7 +512,7 @@ public:
 	template<typename ...DataListT>
 	FORCE_INLINE void pushFront(DataListT && ... datas)
 	{
-		(... ,pushFront(forward<DataT>(datas)));
+		(... ,pushFront(forward<DataListT>(datas)));
 	}
 	/** @} */
 
-- 
2.43.0


From 1336ee35bb1619eadbfcc7e6a5846b002c894478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 04/93] fix: clear the neighbour's link when List::remove takes
 out head or tail

---
 src/korin/core/public/containers/list.h | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 9070f7a..10ef96a 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -521,19 +521,14 @@ public:
 	 */
 	void remove(LinkT * link)
 	{
-		if (link != head && link != tail)
-		{
-			LinkT * prev = link->prev;
-			LinkT * next = link->next;
-			
-			if (prev) prev->next = next;
-			if (next) next->prev = prev;
-		}
-		else
-		{
-			if (link == head) head = head->next;
-			if (link == tail) tail = tail->prev;
-		}
+		LinkT * prev = link->prev;
+		LinkT * next = link->next;
+
+		if (prev) prev->next = next;
+		if (next) next->prev = prev;
+
+		if (link == head) head = next;
+		if (link == tail) tail = prev;
 
 		--length;
 
-- 
2.43.0


From 2973eba0abbf0838cf28fa1de2b9babb9fa3c9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 05/93] fix: update List length when copy assignment drops
 surplus links

---
 src/korin/core/public/containers/list.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 10ef96a..c5be0ca 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -318,6 +318,7 @@ public:
 				LinkT * link = it;
 				it = it->next;
 				destroyLink(link);
+				--length;
 			}
 
 			// Push remaining objects
-- 
2.43.0


From 86629bb127d87211ee5081b87836e9da21025da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 06/93] fix: return *this from List move assignment

---
 src/korin/core/public/containers/list.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index c5be0ca..e6390dc 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -351,6 +351,8 @@ public:
 
 		other.head = other.tail = nullptr;
 		other.length = 0;
+
+		return *this;
 	}
 
 	/**
-- 
2.43.0


From 304a3b1ad990fba21489f8da681ee7b3ef81a8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 07/93] fix: release List links before the managed allocator is
 destroyed

---
 src/korin/core/public/containers/list.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index e6390dc..c64248e 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -701,6 +701,15 @@ public:
 		//
 	}
 
+	/**
+	 * Destroys all links before the
+	 * managed allocator goes away.
+	 */
+	FORCE_INLINE ~List()
+	{
+		Base::destroy();
+	}
+
 protected:
 	/// Managed allocator
 	MallocT autoMalloc;
-- 
2.43.0


From a123bb8fc8440a264ca966d4989e10f7027db3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:24 +0000
Subject: [PATCH 08/93] fix: let BinaryNode::getNumNodes walk a const tree

---
 src/korin/core/public/containers/tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index db39000..43052f2 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -140,7 +140,7 @@ struct BinaryNode
 	 * 	spawning from root node
 	 * @{
 	 */
-	static FORCE_INLINE uint64 getTreeSize(BinaryNode * root)
+	static FORCE_INLINE uint64 getTreeSize(const BinaryNode * root)
 	{
 		return root ? 1 + getTreeSize(root->right) + getTreeSize(root->left) : 0;
 	}
-- 
2.43.0


From 8a7a7e9af65d010572c475c80e04fc60dec01c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:24 +0000
Subject: [PATCH 09/93] fix: copy constructing from an empty BinaryTree yields
 an empty tree

---
 src/korin/core/public/containers/tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index 43052f2..18375df 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -1100,7 +1100,7 @@ public:
 	FORCE_INLINE BinaryTree(const BinaryTree & other)
 		: BinaryTree{}
 	{
-		root = cloneSubtree(other.root);
+		if (other.root) root = cloneSubtree(other.root);
 		numNodes = other.numNodes;
 	}	
 	
-- 
2.43.0


From 9c33eddc3c3f310b98cbb569ed89dca7a0816473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:24 +0000
Subject: [PATCH 10/93] fix: BinaryTree::end(arg) const works on const nodes

---
 src/korin/core/public/containers/tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index 18375df..02172fc 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -1320,7 +1320,7 @@ public:
 	{
 		if (root)
 		{
-			NodeT * last = root->findMax(arg);
+			const NodeT * last = root->findMax(arg);
 			return ConstIterator{last ? last->next : nullptr};
 		}
 		else return ConstIterator{nullptr};
-- 
2.43.0


From c97bebbfd42d83826c40b8310ee5bce10b0c39d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:52 +0000
Subject: [PATCH 11/93] fix: Set::any also looks for its first key

---
 src/korin/core/public/containers/set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index dd73b06..74f29cd 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -223,7 +223,7 @@ public:
 	template<typename KeyT, typename ...KeyListT>
 	FORCE_INLINE bool any(const KeyT & key, KeyListT && ...keys) const
 	{
-		return (get(keys) || ... || false);
+		return get(key) || (get(keys) || ... || false);
 	}
 
 	/**
-- 
2.43.0


From 47c14f4142231ae5e1849c733fb6df849824f087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:52 +0000
Subject: [PATCH 12/93] fix: Set::get(key, outValue) const hands out the value

---
 src/korin/core/public/containers/set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index 74f29cd..12c5e38 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -185,10 +185,10 @@ public:
 	}
 
 	template<typename KeyT>
-	FORCE_INLINE bool get(const KeyT & key, T const & outValue) const
+	FORCE_INLINE bool get(const KeyT & key, T & outValue) const
 	{
 		// Get node to fetch value
-		if (NodeT * node = tree.findNode(key))
+		if (const NodeT * node = tree.findNode(key))
 		{
 			outValue = node->data;
 			return true;
-- 
2.43.0


From aa98719071b39fd963f799e5a9f3fb034e511807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:52 +0000
Subject: [PATCH 13/93] fix: Set strict subset compares when the larger set
 differs only at its end

---
 src/korin/core/public/containers/set.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index 12c5e38..6dc7d11 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -648,7 +648,7 @@ public:
 		}
 		
 		// Return true only if other still has elements
-		return !it && !eq;
+		return !it && (!eq || jt);
 	}
 
 	/**
@@ -697,8 +697,8 @@ public:
 			}
 		}
 		
-		// Return true only if other still has elements
-		return !jt && !eq;
+		// Return true only if this still has elements
+		return !jt && (!eq || it);
 	}
 
 private:
-- 
2.43.0


From 1b1315ef65ed8d577e169c25aa5302190964c1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:52 +0000
Subject: [PATCH 14/93] fix: subtracting a Set from itself empties it

---
 src/korin/core/public/containers/set.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index 6dc7d11..3f26c3c 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -412,6 +412,9 @@ public:
 	 */
 	Set & operator-=(const Set & other)
 	{
+		// Nothing is left, and nodes of other must not be removed below
+		if (this == &other) return tree.empty(), *this;
+
 		NodeT * it = tree.getMin();
 		const NodeT * jt = other.tree.getMin();
 
-- 
2.43.0


From 12d67c066aa4375b409b6f425d105dc84f6a6c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:52 +0000
Subject: [PATCH 15/93] fix: ThreeWayCompare on pointers compares what they
 point to

---
 src/korin/core/public/templates/functional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/functional.h b/src/korin/core/public/templates/functional.h
index a887d1c..27b0811 100644
--- a/src/korin/core/public/templates/functional.h
+++ b/src/korin/core/public/templates/functional.h
@@ -41,6 +41,6 @@ struct ThreeWayCompare
 	template<typename A, typename B>
 	FORCE_INLINE int32 operator()(const A * a, const B * b) const
 	{
-		return *this(forward<A>(*a), forward<B>(*b));
+		return (*this)(*a, *b);
 	}
 };
\ No newline at end of file
-- 
2.43.0


From 6a9f63751838797f3766d0c56d9d74cc99407866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:46 +0000
Subject: [PATCH 16/93] fix: Pair comparison operators compare keys instead of
 calling themselves

---
 src/korin/core/public/containers/pair.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/containers/pair.h b/src/korin/core/public/containers/pair.h
index d73c9b4..82354cf 100644
--- a/src/korin/core/public/containers/pair.h
+++ b/src/korin/core/public/containers/pair.h
@@ -113,7 +113,7 @@ struct Pair
 	 */
 	FORCE_INLINE bool operator==(const Pair & other) const
 	{
-		return CompareT{}(*this, other) == 0;
+		return FindPair{}(*this, other) == 0;
 	}
 
 	FORCE_INLINE bool operator!=(const Pair & other) const
@@ -123,12 +123,12 @@ struct Pair
 
 	FORCE_INLINE bool operator<(const Pair & other) const
 	{
-		return CompareT{}(*this, other) < 0;
+		return FindPair{}(*this, other) < 0;
 	}
 
 	FORCE_INLINE bool operator>(const Pair & other) const
 	{
-		return CompareT{}(*this, other) > 0;
+		return FindPair{}(*this, other) > 0;
 	}
 
 	FORCE_INLINE bool operator<=(const Pair & other) const
-- 
2.43.0


From 36740cb417a17cdfd970cb9ede155d1655e838c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:25 +0000
Subject: [PATCH 17/93] fix: Memory::copyElements counts its own index

---
 src/korin/core/public/generic/generic_platform_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index b5bd1fa..809d432 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -112,7 +112,7 @@ struct GenericPlatformMemory
 	template<typename TT>
 	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<TT>::value>::Type copyElements(TT * RESTRICT dst, const TT * RESTRICT src, uint64 n)
 	{
-		for (uint64 i = 0; i < n; ++n, ++dst, ++src)
+		for (uint64 i = 0; i < n; ++i, ++dst, ++src)
 			// Non overlapping required
 			*dst = *src;
 	}
-- 
2.43.0


From 6ecfd8ba28bfa8570085043eb77d95d397600ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:33 +0000
Subject: [PATCH 18/93] fix: Memory::moveElements moves up from the last
 element

---
 src/korin/core/public/generic/generic_platform_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index 809d432..e57fd78 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -145,7 +145,7 @@ struct GenericPlatformMemory
 				dst[i] = move(src[i]);
 			}
 		}
-		else if (LIKELY(src > dst))
+		else if (LIKELY(src < dst))
 		{
 			// Copy right to left
 			for (uint64 i = 1; i <= n; ++i)
-- 
2.43.0


From 3d727a07eb384707ac1f2b893093ffe9ce176bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:40 +0000
Subject: [PATCH 19/93] fix: Memory::constructCopyElements copies bytes only of
 trivially copyable types

---
 src/korin/core/public/generic/generic_platform_memory.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index e57fd78..e1b862c 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -77,7 +77,7 @@ struct GenericPlatformMemory
 
 	/**
 	 * Copy elements from source to destination.
-	 * If elements are not trivially constructible
+	 * If elements are not trivially copyable
 	 * invoke copy constructor on each element,
 	 * otherwise a simple memory copy is performed.
 	 * 
@@ -86,14 +86,14 @@ struct GenericPlatformMemory
 	 * @param m num of elements
 	 */
 	template<typename T>
-	static FORCE_INLINE typename EnableIf<!IsTriviallyConstructible<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
 	{
-		for (uint32 i = 0; i < n; ++i)
+		for (uint64 i = 0; i < n; ++i)
 			new (dst + i) T{src[i]};
 	}
 
 	template<typename T>
-	static FORCE_INLINE typename EnableIf<IsTriviallyConstructible<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<IsTriviallyCopyable<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
 	{
 		memcpy(dst, src, n * sizeof(T));
 	}
-- 
2.43.0


From 26a6b4b58fa00c1ad6c957e14ef2e0751d8e133b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:47 +0000
Subject: [PATCH 20/93] fix: Array destroys its elements in the old buffer when
 it grows

---
 src/korin/core/public/containers/array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index e3d46b2..7b35efe 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -319,6 +319,7 @@ protected:
 			if (buffer)
 			{
 				Memory::constructCopyElements(inBuffer, buffer, count);
+				Memory::destroyElements(buffer, buffer + count);
 				malloc.free(buffer);
 			}
 
-- 
2.43.0


From 8cd68b86d905ca1d11a2b08e66f124dd29b2ed1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:53 +0000
Subject: [PATCH 21/93] fix: construct each element of an Array once when
 copying a buffer

---
 src/korin/core/public/containers/array.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 7b35efe..39f6879 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -389,12 +389,16 @@ public:
 	 * @param slack extra space required
 	 */
 	FORCE_INLINE Array(const T * inBuffer, uint64 inCount, uint64 slack = 0)
-		: Array{inCount + slack, inCount}
+		: Array{inCount + slack, inBuffer ? 0 : inCount}
 	{
 		CHECK(buffer != nullptr)
 
 		// Copy source buffer to destination
-		if (inBuffer && count > 0) Memory::constructCopyElements(buffer, inBuffer, count);
+		if (inBuffer)
+		{
+			Memory::constructCopyElements(buffer, inBuffer, inCount);
+			count = inCount;
+		}
 	}
 
 	/**
-- 
2.43.0


From 7b721f5f727db1fa0f83bc7a63d66924ff3d3a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:12 +0000
Subject: [PATCH 22/93] fix: Array insertion moves elements into constructed
 slots only

---
 src/korin/core/public/containers/array.h | 61 +++++++++++++-----------
 1 file changed, 33 insertions(+), 28 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 39f6879..2ae23b4 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -656,6 +656,33 @@ protected:
 		insertNoResize(idx + 1, forward<ItemListT>(items) ...);
 	}
 
+	/**
+	 * Make room for new items, moving items
+	 * after them. New positions are left not
+	 * constructed, positions between the last
+	 * item and the new ones are default
+	 * constructed.
+	 * 
+	 * @param idx position of first new item
+	 * @param num number of new items
+	 */
+	void makeRoom(uint64 idx, uint64 num)
+	{
+		const uint64 newCount = (idx < count ? count : idx) + num;
+		resizeIfNecessary(newCount);
+
+		// Move items up, last to first
+		for (uint64 i = count; i > idx; --i)
+		{
+			new (buffer + i + num - 1) T{move(buffer[i - 1])};
+			Memory::destroyElements(buffer + i - 1, buffer + i);
+		}
+
+		if (idx > count) Memory::constructDefaultElements(buffer + count, buffer + idx);
+
+		count = newCount;
+	}
+
 public:
 	/**
 	 * Insert item(s) at position.
@@ -668,18 +695,9 @@ public:
 	template<typename ItemT>
 	T & insertAt(uint64 idx, ItemT && item)
 	{
-		const uint64 j = idx + 1;
+		// Move elements up to accomodate
+		makeRoom(idx, 1);
 
-		if (idx < count)
-		{
-			resizeIfNecessary(count + 1);
-
-			// Move elements up to accomodate
-			Memory::moveElements(buffer + j, buffer + idx, count - idx);
-			++count;
-		}
-		else resizeIfNecessary(count = j);
-		
 		// Copy construct element
 		return insertNoResize(idx, forward<ItemT>(item));
 	}
@@ -689,18 +707,10 @@ public:
 	{
 		// Number of elements to insert
 		constexpr uint64 numArgs = 1 + sizeof... (ItemListT);
-		const uint64 j = idx + numArgs;
 
-		if (idx < count)
-		{
-			resizeIfNecessary(count + numArgs);
+		// Move elements up to accomodate
+		makeRoom(idx, numArgs);
 
-			// Move element up to accomodate
-			Memory::moveElements(buffer + j, buffer + idx, count - idx);
-			count += numArgs;
-		}
-		else resizeIfNecessary((count = j));
-		
 		// Copy construct elements
 		insertNoResize(idx, forward<ItemT>(item), forward<ItemListT>(items) ...);
 	}
@@ -717,11 +727,8 @@ public:
 	template<typename ItemT>
 	T & insertFirst(ItemT && item)
 	{
-		resizeIfNecessary(count + 1);
-
 		// Move elements up
-		Memory::moveElements(buffer + 1, buffer, count);
-		++count;
+		makeRoom(0, 1);
 
 		// Copy construct element
 		return insertNoResize(0, forward<ItemT>(item));
@@ -733,9 +740,7 @@ public:
 		constexpr uint64 numArgs = 1 + sizeof... (items);
 
 		// Resize and move elements up
-		resizeIfNecessary(count + numArgs);
-		Memory::moveElements(buffer + numArgs, buffer, count);
-		count += numArgs;
+		makeRoom(0, numArgs);
 
 		insertNoResize(0, forward<ItemT>(item), forward<ItemListT>(items) ...);
 	}
-- 
2.43.0


From 68976f839fed78a788b8fff3b32f1c315ec3b108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:36 +0000
Subject: [PATCH 23/93] fix: Array::removeAt moves the tail down before
 destroying elements

---
 src/korin/core/public/containers/array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 2ae23b4..37d736f 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -789,12 +789,12 @@ public:
 	{
 		if (num > 0)
 		{
-			// Destroy element
-			Memory::destroyElements(buffer + idx, buffer + idx + num);
-
 			// Move elements to the left
 			Memory::moveElements(buffer + idx, buffer + idx + num, count - (idx + num));
 
+			// Destroy elements left at the end
+			Memory::destroyElements(buffer + count - num, buffer + count);
+
 			// Decrement count
 			count -= num;
 		}
-- 
2.43.0


From ebfd56a4318a6c7ce0e14d7e9d577fb0f4cdc5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:42 +0000
Subject: [PATCH 24/93] fix: Array::removeLast destroys the removed element

---
 src/korin/core/public/containers/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 37d736f..b89a639 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -817,7 +817,7 @@ public:
 		--count;
 
 		// Destroy element
-		Memory::destroyElements(buffer + count, buffer + count);
+		Memory::destroyElements(buffer + count, buffer + count + 1);
 	}
 
 	/**
-- 
2.43.0


From 7a766fb258222a49bacba9485cb7d3a8a7a0a62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:47 +0000
Subject: [PATCH 25/93] fix: Array call operator constructs the items it skips

---
 src/korin/core/public/containers/array.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index b89a639..5288f5a 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -578,6 +578,9 @@ public:
 	{
 		// Resize to fit idx
 		resizeIfNecessary(idx + 1);
+
+		// Default construct skipped items
+		if (idx > count) Memory::constructDefaultElements(buffer + count, buffer + idx);
 		count = PlatformMath::max(count, idx + 1);
 
 		return buffer[idx];
@@ -588,10 +591,10 @@ public:
 	{
 		if (idx >= count)
 		{
-			return *(new (&(operator()(idx))) T{forward<ItemT>(initValue)});
+			return insertAt(idx, forward<ItemT>(initValue));
 		}
 		
-		return operator()(idx);
+		return buffer[idx];
 	}
 	/** @} */
 
-- 
2.43.0


From 3099a06c2a5cd9c85517ab4f862524e973305eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 26/93] fix: String of given capacity starts empty

---
 src/korin/core/public/containers/string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 025f45c..a9a59dd 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -32,7 +32,7 @@ public:
 	 * @param n string capacity
 	 */
 	explicit FORCE_INLINE StringBase(sizet n)
-		: array{nullptr, n + 1}
+		: array{n + 1, uint64(1)}
 	{
 		array[0] = '\0';
 	}
@@ -64,7 +64,7 @@ public:
 	 * @param len source length (in Bytes)
 	 */
 	FORCE_INLINE StringBase(const CharT * src, sizet n)
-		: StringBase{n}
+		: array{nullptr, n + 1}
 	{
 		// Copy source and terminate string
 		Memory::memcpy(*array, src, n);
-- 
2.43.0


From f7f647e1bab9b733f24ddee913d88fcb925884c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 27/93] fix: appending a String to itself reads the resized
 buffer

---
 src/korin/core/public/containers/string.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index a9a59dd..6116b0d 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -303,10 +303,14 @@ private:
 	StringBase & appendString(const CharT * src, sizet len)
 	{
 		const sizet currLen = getLength();
+
+		// Source could be part of this string
+		const bool bInside = *array <= src && src <= *array + currLen;
+		const sizet offset = bInside ? src - *array : 0;
 		
 		// Resize buffer and copy string content
 		array(currLen + len) = '\0';
-		Memory::memcpy(*array + currLen, src, len);
+		Memory::memcpy(*array + currLen, bInside ? *array + offset : src, len);
 
 		return *this;
 	}
-- 
2.43.0


From 14a91c28c69dce1199aceb8eb9a4a9330dc26280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 28/93] fix: String::appendFormat handles text of any length

---
 src/korin/core/public/containers/string.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 6116b0d..abfcb3e 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -325,15 +325,18 @@ private:
 	template<typename... Args>
 	StringBase & appendFormat(const CharT * format, Args &&... args)
 	{
-		// We have an overhead due to the fact that we
-		// don't know the size of the formatted string
-		// a priori
-		constexpr size_t maxlen = 1024;
-		CharT buff[maxlen] = {};
+		// Get length of the formatted string
+		const int32 len = snprintf(nullptr, 0, format, args...);
 
-		// Print in buffer and append
-		int32 len = snprintf(buff, maxlen, format, forward<Args>(args)...);
-		return appendString(buff, len);
+		if (len > 0)
+		{
+			// Resize buffer and print at the end
+			const sizet currLen = getLength();
+			array(currLen + len) = '\0';
+			snprintf(*array + currLen, len + 1, format, forward<Args>(args)...);
+		}
+
+		return *this;
 	}
 	
 public:
-- 
2.43.0


From 74c7dc867af6155f3c562cc93f791e3be1e7f837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 29/93] fix: String::format handles text of any length

---
 src/korin/core/public/containers/string.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index abfcb3e..2795cbd 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -556,13 +556,9 @@ public:
 	template<typename... Args>
 	static FORCE_INLINE StringBase format(const char * format, Args &&... args)
 	{
-		// We don't know string length a priori
-		constexpr sizet maxlen = 1024;
-		char buff[maxlen] = {};
-
-		// Print and return new string
-		int32 len = snprintf(buff, maxlen, format, forward<Args>(args)...);
-		return StringBase{buff, (sizet)len};
+		StringBase out{};
+		out.appendFormat(format, forward<Args>(args)...);
+		return out;
 	}
 
 	/**
-- 
2.43.0


From 40c6fd93aefd41e4fbca1fe5bb85f39a59f97249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 30/93] fix: String::printFormat handles text of any length

---
 src/korin/core/public/containers/string.h | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 2795cbd..75d77e4 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -469,15 +469,7 @@ private:
 	template<typename... Args>
 	StringBase & printFormat(const char * format, Args &&... args)
 	{
-		// We have an overhead due to the fact that we
-		// don't know the size of the formatted string
-		// a priori
-		constexpr sizet maxlen = 1024;
-		CharT buff[maxlen] = {};
-
-		// Print in buffer
-		const sizet len = snprintf(buff, maxlen, format, forward<Args>(args)...);
-		return printString(buff, len);
+		return *this = StringBase::format(format, forward<Args>(args)...);
 	}
 
 public:
-- 
2.43.0


From 310807053ece9867a40b7a86559f4032da0892e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 31/93] fix: String::printString returns the string and drops
 the old content

---
 src/korin/core/public/containers/string.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 75d77e4..f724dd1 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -455,8 +455,7 @@ private:
 	 */
 	StringBase & printString(const CharT * src, sizet len)
 	{
-		array(len) = '\0';
-		Memory::memcpy(*array, src, len);
+		return *this = StringBase{src, len};
 	}
 
 	/**
-- 
2.43.0


From 6cb6816069a0da792706cce55578f3715fea7899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 32/93] fix: splice part of a String into itself

---
 src/korin/core/public/containers/string.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index f724dd1..53e3d20 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -571,6 +571,14 @@ private:
 	 */
 	StringBase & splice(sizet subPos, sizet subLen, const CharT * replSrc, sizet replLen)
 	{
+		if (*array <= replSrc && replSrc <= *array + getLength())
+		{
+			// Replacement is part of this string, that is
+			// going to change
+			const StringBase repl{replSrc, replLen};
+			return splice(subPos, subLen, *repl, replLen);
+		}
+
 		if (replLen <= subLen)
 		{
 			// Since replacement string is smaller
-- 
2.43.0


From 9e51a1ff874a3ee088dfb86de106b504f4f19a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 33/93] fix: String::findIndex stays inside the string when it
 starts past the end

---
 src/korin/core/public/containers/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 53e3d20..6a3b3a4 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -648,7 +648,7 @@ public:
 		patternLen = patternLen ? patternLen : PlatformStrings::getLength(pattern);
 
 		// Check pattern length doesn't exceed string length
-		if (patternLen > getLength() - startPos) return -1;
+		if (startPos > getLength() || patternLen > getLength() - startPos) return -1;
 
 		for (sizet idx = startPos, lastIdx = getLength() - patternLen; idx <= lastIdx; ++idx)
 		{
-- 
2.43.0


From d4002a290a3c703f0abcdd2a275ad524997f5280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 34/93] fix: String::replaceAll ends when the pattern is empty

---
 src/korin/core/public/containers/string.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 6a3b3a4..4aa1d99 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -712,6 +712,9 @@ public:
 		sizet replacementLen = replacement.getLength();
 		int64 startPos = 0;
 
+		// An empty pattern would match forever
+		if (patternLen == 0) return *this;
+
 		while ((startPos = findIndex(pattern, startPos)) != -1)
 		{
 			// Occurence found, needs replacing
-- 
2.43.0


From 5533beadeafd6ff5dd6a176f4fe2901959b6a03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 35/93] fix: Memory::memcmp keeps the sign of the comparison

---
 src/korin/core/public/generic/generic_platform_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index e1b862c..f76508d 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -51,7 +51,7 @@ struct GenericPlatformMemory
 	 * 	mem0 is greater than the corresponding
 	 * 	byte in mem1
 	 */
-	static FORCE_INLINE bool memcmp(const void * mem0, const void * mem1, sizet size)
+	static FORCE_INLINE int32 memcmp(const void * mem0, const void * mem1, sizet size)
 	{
 		return ::memcmp(mem0, mem1, size);
 	}
-- 
2.43.0


From daeb7b7d8c08ccd11c41858fea03c98163e0f99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 36/93] fix: Optional destroys its value only when it has one

---
 src/korin/core/public/templates/optional.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 0b8b08d..6a8c79e 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -183,7 +183,7 @@ struct Optional
 		if (engaged)
 		{
 			engaged = false;
-			storage.~OptionalStorage();
+			storage.value.~T();
 		}
 	}
 
@@ -271,11 +271,12 @@ protected:
 		}
 
 		/**
-		 * Destructor.
+		 * Destructor, value is destroyed
+		 * by the optional itself.
 		 */
 		~OptionalStorage()
 		{
-			value.~U();
+			//
 		}
 
 		/// Empty byte
-- 
2.43.0


From a6c052c1bd53e8f73c58cb181dc0095333351d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 37/93] fix: Optional::emplace destroys the previous value

---
 src/korin/core/public/templates/optional.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 6a8c79e..4acaca7 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -130,6 +130,9 @@ struct Optional
 	template<typename ...ArgsT>
 	FORCE_INLINE void emplace(ArgsT && ...args)
 	{
+		// Destroy previous object
+		reset();
+
 		engaged = true;
 		new (&storage.value) T{forward<ArgsT>(args)...};
 	}
-- 
2.43.0


From a35f84b6df737cde3d3a6e612dcd3c2727f4fe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 38/93] fix: moving from an Optional destroys the value left
 behind

---
 src/korin/core/public/templates/optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 4acaca7..8905ea3 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -79,13 +79,13 @@ struct Optional
 		{
 			// Move object
 			storage.value = move(*other);
-			other.engaged = false;
+			other.reset();
 		}
 		else if (other.engaged && !this->engaged)
 		{
 			// Move costruct object
 			emplace(move(*other));
-			other.engaged = false;
+			other.reset();
 		}
 		else if (!other.engaged && this->engaged)
 		{
-- 
2.43.0


From df7be0577b7f64888cee58a7fa04fb7a7b163059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 39/93] fix: Function stores its own copy of a callable passed
 by reference

---
 src/korin/core/public/templates/function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index c6273d2..fba340e 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -171,7 +171,7 @@ struct FunctionStorage : FunctionStorageBase
 	template<typename FunctorT>
 	typename DecayType<FunctorT>::Type * bind(FunctorT && fn)
 	{
-		using OwnedT = FunctionOwnedObject<FunctorT>;
+		using OwnedT = FunctionOwnedObject<typename DecayType<FunctorT>::Type>;
 
 		// TODO: Use global allocator
 		heap = MallocAnsi{}.alloc(sizeof(OwnedT), alignof(OwnedT));
-- 
2.43.0


From b2e752646c06ef7105b46e39a6fe13ad2e1bed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 40/93] fix: copying a Function copies its callable

---
 src/korin/core/public/templates/function.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index fba340e..615feda 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -47,6 +47,11 @@ struct FunctionOwnedObjectInterface
 	 */
 	virtual void * getAddress() = 0;
 
+	/**
+	 * Returns a copy of the object
+	 */
+	virtual FunctionOwnedObjectInterface * clone() const = 0;
+
 	/**
 	 * 
 	 */
@@ -110,6 +115,11 @@ struct FunctionOwnedObject : public FunctionOwnedObjectHeap
 	{
 		return &object;
 	}
+
+	virtual FORCE_INLINE FunctionOwnedObjectInterface * clone() const override
+	{
+		return new (MallocAnsi{}.alloc(sizeof(FunctionOwnedObject), alignof(FunctionOwnedObject))) FunctionOwnedObject{object};
+	}
 };
 
 /**
@@ -179,6 +189,14 @@ struct FunctionStorage : FunctionStorageBase
 
 		return &object->object;
 	}
+
+	/**
+	 * Bind a copy of the object owned by another storage
+	 */
+	FORCE_INLINE void bindCopy(const FunctionStorage & other)
+	{
+		heap = other.getOwnedObject()->clone();
+	}
 };
 
 /**
@@ -239,7 +257,7 @@ struct FunctionBase<StorageT, RetT(Args...)>
 		: callable{other.callable}
 	{
 		// Copy storage
-		//if (callable) storage.bindCopy(other.storage);
+		if (callable) storage.bindCopy(other.storage);
 	}
 
 	/**
-- 
2.43.0


From 707d7335642ace4ba325ef8bc95bb719d588aa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 41/93] fix: Function assignments compile and terminate

---
 src/korin/core/public/templates/function.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index 615feda..e01d2ec 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -353,8 +353,7 @@ public:
 	 */
 	FORCE_INLINE Function & operator=(const Function & other)
 	{
-		swap(*this, Function{other});
-		return *this;
+		return *this = Function{other};
 	}
 
 	/**
@@ -362,7 +361,8 @@ public:
 	 */
 	FORCE_INLINE Function & operator=(Function && other)
 	{
-		swap(*this, other);
+		swap(this->callable, other.callable);
+		swap(this->storage.heap, other.storage.heap);
 		return *this;
 	}
 
-- 
2.43.0


From c3e75141d7039a5bb4c0c587558e80f10bd2a091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 42/93] fix: function.h includes the allocator it uses

---
 src/korin/core/public/templates/function.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index e01d2ec..058b23b 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "core_types.h"
+#include "hal/malloc_ansi.h"
 #include "templates/types.h"
 #include "templates/utility.h"
 
-- 
2.43.0


From f5b9612c23d318f8eb93fd0c3082b5af4c262e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 43/93] fix: Atomic assignment returns the assigned value

---
 src/korin/core/public/templates/atomic.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/atomic.h b/src/korin/core/public/templates/atomic.h
index 8aeadd8..3a479cd 100644
--- a/src/korin/core/public/templates/atomic.h
+++ b/src/korin/core/public/templates/atomic.h
@@ -265,7 +265,9 @@ struct Atomic final : public ChooseAtomicTypeT<AtomicT>
 	 */
 	FORCE_INLINE AtomicT operator=(const AtomicT & inValue)
 	{
-		return (this->store(inValue), this->value);
+		const AtomicT assigned = inValue;
+		this->store(assigned);
+		return assigned;
 	}
 
 private:
-- 
2.43.0


From 7dc51cb22e7cbfe7807632eda52f9f090f2b65b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 44/93] fix: atomic pointers move by elements

---
 src/korin/core/public/unix/unix_platform_atomics.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/korin/core/public/unix/unix_platform_atomics.h b/src/korin/core/public/unix/unix_platform_atomics.h
index f49b00f..9988b34 100644
--- a/src/korin/core/public/unix/unix_platform_atomics.h
+++ b/src/korin/core/public/unix/unix_platform_atomics.h
@@ -27,6 +27,13 @@ struct UnixPlatformAtomics : public GenericPlatformAtomics
 		return __sync_fetch_and_add(value, amount);
 	}
 
+	template<typename T, typename IntT>
+	static FORCE_INLINE T * add(T * volatile * value, IntT amount)
+	{
+		// Platform adds bytes
+		return __atomic_fetch_add(value, amount * sizeof(T), __ATOMIC_SEQ_CST);
+	}
+
 	/**
 	 * 
 	 */
@@ -36,6 +43,13 @@ struct UnixPlatformAtomics : public GenericPlatformAtomics
 		return __sync_fetch_and_sub(value, amount);
 	}
 
+	template<typename T, typename IntT>
+	static FORCE_INLINE T * sub(T * volatile * value, IntT amount)
+	{
+		// Platform subtracts bytes
+		return __atomic_fetch_sub(value, amount * sizeof(T), __ATOMIC_SEQ_CST);
+	}
+
 	/**
 	 * 
 	 */
-- 
2.43.0


From fc0f35622f65e435265ce12ec20517b2f4cf87a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 45/93] fix: IsPointer recognises qualified pointers

---
 src/korin/core/public/templates/types.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index d925316..7174256 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -41,7 +41,10 @@ struct IsPointer
 	enum {value = false};
 };
 
-template<typename T> struct IsPointer<T*> { enum {value = true}; };
+template<typename T> struct IsPointer<T*>					{ enum {value = true}; };
+template<typename T> struct IsPointer<T* const>				{ enum {value = true}; };
+template<typename T> struct IsPointer<T* volatile>			{ enum {value = true}; };
+template<typename T> struct IsPointer<T* const volatile>	{ enum {value = true}; };
 /// @}
 
 /**
-- 
2.43.0


From 428eed4a74562a8a518466e54678120fae4300a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 46/93] fix: DecayType of an array is a pointer to its elements

---
 src/korin/core/public/templates/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index 7174256..d4f3b64 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -357,7 +357,7 @@ class DecayType
 public:
 	using Type = typename ChooseType<
 		IsArray<U>::value,
-		typename RemoveArray<U>::Type, // If is array
+		typename AddPointer<typename RemoveArray<U>::Type>::Type, // If is array
 		typename ChooseType<
 			IsCFunction<U>::value,
 			typename AddPointer<U>::Type,
-- 
2.43.0


From 81582fbf57c1230e7851b0e20035e68b4863add3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 47/93] fix: assert.h includes the stdio it uses

---
 src/korin/core/public/misc/assert.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/korin/core/public/misc/assert.h b/src/korin/core/public/misc/assert.h
index dd4fbc0..2a07ff7 100644
--- a/src/korin/core/public/misc/assert.h
+++ b/src/korin/core/public/misc/assert.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <stdio.h>
+
 /**
  * CHECK prints a warning if condition evaluates
  * to false. CHECKF prints a formatted warning
-- 
2.43.0


From 658c65f372f2c3c5350ca05e4d1ce79597af9347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 48/93] fix: ASSERT and ASSERTF expand to a check

---
 src/korin/core/public/misc/assert.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/misc/assert.h b/src/korin/core/public/misc/assert.h
index 2a07ff7..4346fe1 100644
--- a/src/korin/core/public/misc/assert.h
+++ b/src/korin/core/public/misc/assert.h
@@ -20,5 +20,5 @@
 #endif
 
 #define CHECK(expr) CHECKF(expr, #expr)
-#define ASSERTF(expr, format, ...) CHECKF(expr, format, __VA_ARGS_)
-#define ASSERT(expr) ASSERT(expr, #expr)
+#define ASSERTF(expr, format, ...) CHECKF(expr, format, ##__VA_ARGS__)
+#define ASSERT(expr) ASSERTF(expr, #expr)
-- 
2.43.0


From 80f9461b1085f199d0108de24f69169bad552489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 49/93] fix: copy a StaticArray that is not const

---
 src/korin/core/public/templates/array.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/korin/core/public/templates/array.h b/src/korin/core/public/templates/array.h
index 455dfbe..4eeb2ec 100644
--- a/src/korin/core/public/templates/array.h
+++ b/src/korin/core/public/templates/array.h
@@ -30,6 +30,24 @@ struct StaticArray
 		//
 	}
 
+	/**
+	 * Copy and move constructors, without
+	 * these an array is taken for an item.
+	 * @{
+	 */
+	StaticArray(const StaticArray & other) = default;
+	StaticArray(StaticArray && other) = default;
+
+	constexpr FORCE_INLINE StaticArray(StaticArray & other)
+		: StaticArray{static_cast<const StaticArray&>(other)}
+	{
+		//
+	}
+
+	StaticArray & operator=(const StaticArray & other) = default;
+	StaticArray & operator=(StaticArray && other) = default;
+	/** @} */
+
 	/**
 	 * 
 	 */
-- 
2.43.0


From 50b582ffc110806008913df8abc3c2d973c686c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 50/93] fix: RemoveAllPointers looks through qualified pointers

---
 src/korin/core/public/templates/types.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index d4f3b64..aee1274 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -244,7 +244,10 @@ struct RemoveAllPointers
 	using Type = T;
 };
 
-template<typename T> struct RemoveAllPointers<T*> { using Type = typename RemoveAllPointers<T>::Type; };
+template<typename T> struct RemoveAllPointers<T*>					{ using Type = typename RemoveAllPointers<T>::Type; };
+template<typename T> struct RemoveAllPointers<T* const>				{ using Type = typename RemoveAllPointers<T>::Type; };
+template<typename T> struct RemoveAllPointers<T* volatile>			{ using Type = typename RemoveAllPointers<T>::Type; };
+template<typename T> struct RemoveAllPointers<T* const volatile>	{ using Type = typename RemoveAllPointers<T>::Type; };
 /// @}
 
 /**
-- 
2.43.0


From 3c55d07f87ff29a7d8d90055e288dd528b0600da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 51/93] fix: MemoryPool without blocks or whose buffer cannot
 be allocated is exhausted, not a null dereference

---
 src/korin/core/private/hal/malloc_pool.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 32e0f86..d1f10a0 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -20,9 +20,9 @@ MemoryPool::MemoryPool(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockAlign
 	if (bHasOwnBuffer)
 	{
 	#if PLATFORM_UNIX
-		if (UNLIKELY(::posix_memalign(&buffer, blockAlignment, bufferSize) != 0))	
-			// TODO: handle error
-			;
+		if (UNLIKELY(::posix_memalign(&buffer, blockAlignment, bufferSize) != 0))
+			// Pool has no blocks
+			buffer = nullptr;
 	#else
 		// TODO: Windows code
 	#endif
@@ -34,7 +34,7 @@ MemoryPool::MemoryPool(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockAlign
 	
 	// Init linked list
 	void ** link = nullptr;
-	while ((uintp)head < (uintp)buffer + bufferSize)
+	while (buffer && (uintp)head < (uintp)buffer + bufferSize)
 	{
 		link = getBlockLink(head);
 		head = (void*)((uintp)head + logicalBlockSize);
@@ -42,8 +42,16 @@ MemoryPool::MemoryPool(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockAlign
 	}
 	
 	// Reset head and last link
-	head = buffer;
-	*link = nullptr;
+	if (LIKELY(link))
+	{
+		head = buffer;
+		*link = nullptr;
+	}
+	else
+	{
+		head = nullptr;
+		numFreeBlocks = 0;
+	}
 }
 
 void * MemoryPool::acquireBlock()
-- 
2.43.0


From 18d86fc5ab394e0d21d38dc95655840017d43745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 52/93] fix: MemoryPool block links are aligned when the block
 size is not a multiple of the pointer size

---
 src/korin/core/public/hal/malloc_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/hal/malloc_pool.h b/src/korin/core/public/hal/malloc_pool.h
index 3a9c1a6..1e4512a 100644
--- a/src/korin/core/public/hal/malloc_pool.h
+++ b/src/korin/core/public/hal/malloc_pool.h
@@ -125,7 +125,7 @@ protected:
 	 */
 	void ** getBlockLink(void * block) const
 	{
-		return (void**)((uintp)block + blockSize);
+		return (void**)((uintp)block + logicalBlockSize - blockLinkSize);
 	}
 
 	/**
-- 
2.43.0


From 152ad3b5a986cfd86222952d6785a1554b476c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 53/93] fix: MallocPool::realloc must not release the block it
 returns when the size exceeds the block size

---
 src/korin/core/private/hal/malloc_pool.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index d1f10a0..314a0f6 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -111,10 +111,9 @@ void * MallocPool::realloc(void * orig, sizet size, sizet alignment)
 
 	if (LIKELY(pool.hasBlock(orig)))
 	{
-		if (size > pool.blockSize)
-		{
-			pool.releaseBlock(orig);
-		}
+		// Block cannot grow, original block is left untouched
+		if (size > pool.blockSize || alignment > pool.blockAlignment)
+			out = nullptr;
 		else
 			; // Return original block
 	}
-- 
2.43.0


From c57f2b782525c09d64d0a66674f69a43c00be44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 54/93] fix: MallocPooled::realloc must not return a block
 smaller than the requested size

---
 src/korin/core/private/hal/malloc_pool.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 314a0f6..d3b948b 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -237,6 +237,10 @@ void * MallocPooled::realloc(void * orig, sizet size, sizet alignment)
 	CHECKF(size <= poolInfo.blockSize, "requested size exceed pool block max size, backup allocator will be used (pool block size is 0x%llx, requested size is 0x%llx)", poolInfo.blockSize, size)
 	CHECKF(alignment <= poolInfo.blockAlignment, "requested alignment exceeds pool block alignment, backup allocator will be used (pool block alignment is 0x%llx, requested alignment is 0x%llx)", poolInfo.blockAlignment, alignment)
 
+	// Block cannot grow, original block is left untouched
+	if (size > poolInfo.blockSize || alignment > poolInfo.blockAlignment)
+		return nullptr;
+
 	return orig;
 }
 
-- 
2.43.0


From d7e854ffa178158459c94f56622b9b4c40c12482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 55/93] fix: MallocPooled sizes its buffers with the block
 alignment that the pools use

---
 src/korin/core/private/hal/malloc_pool.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index d3b948b..02f46ab 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -142,8 +142,8 @@ MallocPooled::MallocPooled(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockA
 	, poolInfo{
 		inNumBlocks,
 		inBlockSize,
-		inBlockAlignment,
-		inNumBlocks * MemoryPool::computeLogicalBlockSize(inBlockSize, inBlockAlignment)
+		PlatformMath::max(inBlockAlignment, MIN_ALIGNMENT),
+		inNumBlocks * MemoryPool::computeLogicalBlockSize(inBlockSize, PlatformMath::max(inBlockAlignment, MIN_ALIGNMENT))
 	}
 	, poolAllocSize{0}
 {
@@ -157,7 +157,7 @@ MallocPooled::MallocPooled(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockA
 	for (uint32 poolIdx = 0; poolIdx < initialNumPools; ++poolIdx)
 	{
 		void * buffer = nullptr;
-		if (posix_memalign(&buffer, PlatformMath::max(poolInfo.blockAlignment, MIN_ALIGNMENT), poolAllocSize) == 0)
+		if (posix_memalign(&buffer, poolInfo.blockAlignment, poolAllocSize) == 0)
 			createPool(buffer);
 	}
 
-- 
2.43.0


From 66f590b0adef5dbced4562f9d3e3da2feff4cdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 56/93] fix: MallocPooled without pools must not dereference
 null, growth failure returns null

---
 src/korin/core/private/hal/malloc_pool.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 02f46ab..d22ec64 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -161,12 +161,12 @@ MallocPooled::MallocPooled(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockA
 			createPool(buffer);
 	}
 
-	CHECK(head != nullptr && root != nullptr)
+	CHECK(initialNumPools == 0 || (head != nullptr && root != nullptr))
 }
 
 MallocPooled::~MallocPooled()
 {
-	Node * next = root->getMin(), * prev = nullptr;
+	Node * next = root ? root->getMin() : nullptr, * prev = nullptr;
 	while (next)
 	{
 		prev = next;
@@ -207,14 +207,16 @@ void * MallocPooled::alloc(sizet size, sizet alignment)
 
 	if (size <= poolInfo.blockSize && alignment <= poolInfo.blockAlignment)
 	{
-		MemoryPool * pool = head->data;
+		MemoryPool * pool = head ? head->data : nullptr;
 
 		// Create a new pool if necessary
-		if (pool->isExhausted())
+		if (pool == nullptr || pool->isExhausted())
 		{
 			void * buffer = nullptr;
 			if (posix_memalign(&buffer, poolInfo.blockAlignment, poolAllocSize) == 0)
 				pool = createPool(buffer);
+			else
+				return nullptr;
 		}
 
 		// Acquire block from pool
-- 
2.43.0


From 6c126c1b02f179d4eccb93c76cb5a48ea3c0dd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 57/93] fix: MallocPooled moves a freed pool back to the front
 so that its blocks are used again

---
 src/korin/core/private/hal/malloc_pool.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index d22ec64..2506b9c 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -264,5 +264,23 @@ void MallocPooled::free(void * orig)
 	}
 
 	// Release block, return to pool
-	if (it) it->data->releaseBlock(orig);
+	if (it)
+	{
+		MemoryPool * pool = it->data;
+		pool->releaseBlock(orig);
+
+		// Move pool back to front
+		Link * link = reinterpret_cast<Link*>(reinterpret_cast<Node*>(pool + 1) + 1);
+		if (link != head)
+		{
+			link->prev->next = link->next;
+			link->next->prev = link->prev;
+
+			link->next = head;
+			link->prev = head->prev;
+			link->next->prev = link;
+			link->prev->next = link;
+			head = link;
+		}
+	}
 }
\ No newline at end of file
-- 
2.43.0


From 3e120e729070d7a034ec5b6053ff4ff8132d5d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 58/93] fix: MallocBinned destroys its buckets

---
 src/korin/core/private/hal/malloc_binned.cpp | 6 ++++++
 src/korin/core/public/hal/malloc_binned.h    | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/src/korin/core/private/hal/malloc_binned.cpp b/src/korin/core/private/hal/malloc_binned.cpp
index 9c1964c..bc296d3 100644
--- a/src/korin/core/private/hal/malloc_binned.cpp
+++ b/src/korin/core/private/hal/malloc_binned.cpp
@@ -23,6 +23,12 @@ MallocBinned::MallocBinned(const BucketInfo & inInfo, sizet inPoolAlign)
 	}
 }
 
+MallocBinned::~MallocBinned()
+{
+	for (uint32 i = 0; i < numBuckets; ++i)
+		delete buckets[i];
+}
+
 void * MallocBinned::alloc(sizet size, sizet alignment)
 {
 	// Find bucket
diff --git a/src/korin/core/public/hal/malloc_binned.h b/src/korin/core/public/hal/malloc_binned.h
index bef2ccd..d9667a8 100644
--- a/src/korin/core/public/hal/malloc_binned.h
+++ b/src/korin/core/public/hal/malloc_binned.h
@@ -50,6 +50,11 @@ public:
 	 */
 	MallocBinned(const BucketInfo & inInfo = {1ull << 16ull/* 1 MB */, 1ull << 3ull, 1ull << 18ull, 1ull << 3ull}, sizet inPoolAlign = DEFAULT_ALIGNMENT);
 
+	/**
+	 * Destructor, destroys all buckets.
+	 */
+	virtual ~MallocBinned();
+
 protected:
 	/**
 	 * Compute bucket index from requested
-- 
2.43.0


From 40b02be249d3ccb33977caf1e53b0ca547e8ec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 59/93] fix: MallocBinned bucket index accounts for the minimum
 unit size, bucket of the smallest sizes is the first

---
 src/korin/core/public/hal/malloc_binned.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/hal/malloc_binned.h b/src/korin/core/public/hal/malloc_binned.h
index d9667a8..69fb5b1 100644
--- a/src/korin/core/public/hal/malloc_binned.h
+++ b/src/korin/core/public/hal/malloc_binned.h
@@ -68,8 +68,10 @@ protected:
 	{
 		CHECK(size != 0);
 
+		if (size <= bucketInfo.allocUnitMinSize) return 0;
+
 		// Get power of two index
-		return PlatformMath::log2(size - 1) / PlatformMath::log2(bucketInfo.allocUnitIncrement);
+		return PlatformMath::log2((size - 1) / bucketInfo.allocUnitMinSize) / PlatformMath::log2(bucketInfo.allocUnitIncrement) + 1;
 	}
 
 public:
-- 
2.43.0


From ea6ab338a8ea0f4e9e2317855039a166972b4872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 60/93] fix: MallocBinned::realloc returns a block of the
 requested size with the original content

---
 src/korin/core/private/hal/malloc_binned.cpp | 25 +++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/private/hal/malloc_binned.cpp b/src/korin/core/private/hal/malloc_binned.cpp
index bc296d3..3b677eb 100644
--- a/src/korin/core/private/hal/malloc_binned.cpp
+++ b/src/korin/core/private/hal/malloc_binned.cpp
@@ -49,7 +49,30 @@ void * MallocBinned::alloc(sizet size, sizet alignment)
 
 void * MallocBinned::realloc(void * orig, sizet size, sizet alignment)
 {
-	// TODO
+	if (!orig) return alloc(size, alignment);
+
+	// Find the bucket that allocated the block
+	for (uint32 i = 0; i < numBuckets; ++i)
+	{
+		MallocPooled * bucket = buckets[i];
+		if (bucket->hasBlock(orig))
+		{
+			const sizet blockSize = bucket->poolInfo.blockSize;
+
+			// Block is large enough
+			if (size <= blockSize && alignment <= bucket->poolInfo.blockAlignment) return orig;
+
+			void * out = alloc(size, alignment);
+			if (out)
+			{
+				Memory::memcpy(out, orig, PlatformMath::min(size, blockSize));
+				bucket->free(orig);
+			}
+
+			return out;
+		}
+	}
+
 	return nullptr;
 }
 
-- 
2.43.0


From c57760ff41a16e9387226b72bd9db958145d5945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 61/93] fix: NonCopyable and NonMovable can be used as base
 classes, MallocObject with its own allocator compiles

---
 src/korin/core/public/templates/types.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index aee1274..43f9551 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -374,6 +374,9 @@ public:
  */
 struct NonCopyable
 {
+protected:
+	NonCopyable() = default;
+
 private:
 	NonCopyable(const NonCopyable&) = delete;
 	NonCopyable& operator=(const NonCopyable&) = delete;
@@ -384,6 +387,9 @@ private:
  */
 struct NonMovable
 {
+protected:
+	NonMovable() = default;
+
 private:
 	NonMovable(NonMovable&&) = delete;
 	NonMovable& operator=(NonMovable&&) = delete;
-- 
2.43.0


From 4c84812100f684495f286b157d0979d228550f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 62/93] fix: scalar minus vector and scalar over vector are
 computed in that order, scalar-vector operators of Vec4 compile

---
 src/korin/core/public/math/vec2.h | 4 ++--
 src/korin/core/public/math/vec3.h | 4 ++--
 src/korin/core/public/math/vec4.h | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/korin/core/public/math/vec2.h b/src/korin/core/public/math/vec2.h
index 2047bc6..92502a2 100644
--- a/src/korin/core/public/math/vec2.h
+++ b/src/korin/core/public/math/vec2.h
@@ -252,7 +252,7 @@ struct alignas(2 * sizeof(T)) Vec2
 
 	friend FORCE_INLINE Vec2 operator-(T s, Vec2 v)
 	{
-		return v -= s;
+		return Vec2{s} - v;
 	}
 
 	friend FORCE_INLINE Vec2 operator*(T s, Vec2 v)
@@ -262,7 +262,7 @@ struct alignas(2 * sizeof(T)) Vec2
 
 	friend FORCE_INLINE Vec2 operator/(T s, Vec2 v)
 	{
-		return v /= s;
+		return Vec2{s} / v;
 	}
 	/// @}
 
diff --git a/src/korin/core/public/math/vec3.h b/src/korin/core/public/math/vec3.h
index e3a24b9..c33d44d 100644
--- a/src/korin/core/public/math/vec3.h
+++ b/src/korin/core/public/math/vec3.h
@@ -270,7 +270,7 @@ struct Vec3
 
 	friend FORCE_INLINE Vec3 operator-(T s, const Vec3 & v)
 	{
-		return v - s;
+		return Vec3{s} - v;
 	}
 
 	friend FORCE_INLINE Vec3 operator*(T s, const Vec3 & v)
@@ -280,7 +280,7 @@ struct Vec3
 
 	friend FORCE_INLINE Vec3 operator/(T s, const Vec3 & v)
 	{
-		return v / s;
+		return Vec3{s} / v;
 	}
 	/// @}
 
diff --git a/src/korin/core/public/math/vec4.h b/src/korin/core/public/math/vec4.h
index 26cbc68..948d2c7 100644
--- a/src/korin/core/public/math/vec4.h
+++ b/src/korin/core/public/math/vec4.h
@@ -262,22 +262,22 @@ struct Vec4
 
 	friend FORCE_INLINE Vec4 operator+(T s, const Vec4 & v)
 	{
-		return v += s;
+		return v + s;
 	}
 
 	friend FORCE_INLINE Vec4 operator-(T s, const Vec4 & v)
 	{
-		return v -= s;
+		return Vec4{s} - v;
 	}
 
 	friend FORCE_INLINE Vec4 operator*(T s, const Vec4 & v)
 	{
-		return v *= s;
+		return v * s;
 	}
 
 	friend FORCE_INLINE Vec4 operator/(T s, const Vec4 & v)
 	{
-		return v /= s;
+		return Vec4{s} / v;
 	}
 	/// @}
 
-- 
2.43.0


From a10b8ffa7b8d3b2cfe0d5926378361b6e15751b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 63/93] fix: cross product of integer Vec2 does not narrow
 floating-point zeros

---
 src/korin/core/public/math/vec2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/vec2.h b/src/korin/core/public/math/vec2.h
index 92502a2..05b057e 100644
--- a/src/korin/core/public/math/vec2.h
+++ b/src/korin/core/public/math/vec2.h
@@ -285,7 +285,7 @@ struct alignas(2 * sizeof(T)) Vec2
 	 */
 	FORCE_INLINE Vec3<T> operator^(Vec2 other) const
 	{
-		return Vec3<T>{0.f, 0.f, x * other.y - y * other.x};
+		return Vec3<T>{T(0), T(0), x * other.y - y * other.x};
 	}
 
 	/**
-- 
2.43.0


From 498a3238efc46d16d46e33f6315b28ded0790423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:42 +0000
Subject: [PATCH 64/93] fix: getSize() of non floating-point vectors returns a
 value

---
 src/korin/core/public/math/vec2.h | 1 +
 src/korin/core/public/math/vec3.h | 1 +
 src/korin/core/public/math/vec4.h | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/korin/core/public/math/vec2.h b/src/korin/core/public/math/vec2.h
index 05b057e..968b9b6 100644
--- a/src/korin/core/public/math/vec2.h
+++ b/src/korin/core/public/math/vec2.h
@@ -96,6 +96,7 @@ struct alignas(2 * sizeof(T)) Vec2
 	FORCE_INLINE T getSize() const
 	{
 		CHECKF(false, "getSize() is implemented only for floating-point types")
+		return T(0);
 	}
 
 	/**
diff --git a/src/korin/core/public/math/vec3.h b/src/korin/core/public/math/vec3.h
index c33d44d..128d8b2 100644
--- a/src/korin/core/public/math/vec3.h
+++ b/src/korin/core/public/math/vec3.h
@@ -112,6 +112,7 @@ struct Vec3
 	FORCE_INLINE T getSize() const
 	{
 		CHECKF(false, "getSize() implemented only for floating-point types")
+		return T(0);
 	}
 
 	/**
diff --git a/src/korin/core/public/math/vec4.h b/src/korin/core/public/math/vec4.h
index 948d2c7..8df5e5a 100644
--- a/src/korin/core/public/math/vec4.h
+++ b/src/korin/core/public/math/vec4.h
@@ -109,6 +109,7 @@ struct Vec4
 	FORCE_INLINE T getSize() const
 	{
 		CHECKF(false, "getSize() implemented only for floating-point types")
+		return T(0);
 	}
 
 	/**
-- 
2.43.0


From 47f60eddbfc43594fe07acec31e50cde3092f2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 65/93] fix: static values of Vec2, Vec4 and of non float Vec3
 are defined

---
 src/korin/core/public/math/vec2.h |  4 ++++
 src/korin/core/public/math/vec3.h | 10 ++++++++++
 src/korin/core/public/math/vec4.h |  4 ++++
 3 files changed, 18 insertions(+)

diff --git a/src/korin/core/public/math/vec2.h b/src/korin/core/public/math/vec2.h
index 968b9b6..018dbb9 100644
--- a/src/korin/core/public/math/vec2.h
+++ b/src/korin/core/public/math/vec2.h
@@ -377,6 +377,10 @@ struct alignas(2 * sizeof(T)) Vec2
 	}
 };
 
+// Static values definition
+template<typename T> const Vec2<T> Vec2<T>::zero = {T(0)};
+template<typename T> const Vec2<T> Vec2<T>::unit = {T(1)};
+
 //////////////////////////////////////////////////
 // Floating-point specialization
 //////////////////////////////////////////////////
diff --git a/src/korin/core/public/math/vec3.h b/src/korin/core/public/math/vec3.h
index 128d8b2..177229b 100644
--- a/src/korin/core/public/math/vec3.h
+++ b/src/korin/core/public/math/vec3.h
@@ -408,6 +408,16 @@ struct Vec3
 	}
 };
 
+// Static values definition
+template<typename T> const Vec3<T> Vec3<T>::zero = {T(0)};
+template<typename T> const Vec3<T> Vec3<T>::unit = {T(1)};
+template<typename T> const Vec3<T> Vec3<T>::right = {T(1), T(0), T(0)};
+template<typename T> const Vec3<T> Vec3<T>::left = {T(-1), T(0), T(0)};
+template<typename T> const Vec3<T> Vec3<T>::up = {T(0), T(1), T(0)};
+template<typename T> const Vec3<T> Vec3<T>::down = {T(0), T(-1), T(0)};
+template<typename T> const Vec3<T> Vec3<T>::forward = {T(0), T(0), T(1)};
+template<typename T> const Vec3<T> Vec3<T>::backward = {T(0), T(0), T(-1)};
+
 //////////////////////////////////////////////////
 // Floating-point specialization
 //////////////////////////////////////////////////
diff --git a/src/korin/core/public/math/vec4.h b/src/korin/core/public/math/vec4.h
index 8df5e5a..c48494c 100644
--- a/src/korin/core/public/math/vec4.h
+++ b/src/korin/core/public/math/vec4.h
@@ -391,6 +391,10 @@ struct Vec4
 	}
 };
 
+// Static values definition
+template<typename T> const Vec4<T> Vec4<T>::zero = {T(0)};
+template<typename T> const Vec4<T> Vec4<T>::unit = {T(1)};
+
 //////////////////////////////////////////////////
 // Floating-point specialization
 //////////////////////////////////////////////////
-- 
2.43.0


From d82624c1d3180397c416b120f315bfd303826956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 66/93] fix: Quat::getAngleAndAxis returns the z component of
 the axis

---
 src/korin/core/public/math/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index 72aa05c..d48acc5 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -72,7 +72,7 @@ public:
 		float32 s = 1.f / PlatformMath::sin(a);
 
 		outAngle = a * 2.f;
-		outAxis = Vec3<float32>(this->x * s, this->y * s, this->w * s);
+		outAxis = Vec3<float32>(this->x * s, this->y * s, this->z * s);
 	}
 
 	/**
-- 
2.43.0


From d9ece75e297773b7ad9673b19d7b2bb193ec61d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 67/93] fix: Quat product applies the second rotation first, as
 documented

---
 src/korin/core/public/math/quat.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index d48acc5..a6fc20f 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -110,9 +110,9 @@ public:
 		// thus everything is inverted
 		
 		return Quat{
-			this->w * other.x + this->x * other.w - this->y * other.z + this->z * other.y,
-			this->w * other.y + this->x * other.z + this->y * other.w - this->z * other.x,
-			this->w * other.z - this->x * other.y + this->y * other.x + this->z * other.w,
+			this->w * other.x + this->x * other.w + this->y * other.z - this->z * other.y,
+			this->w * other.y - this->x * other.z + this->y * other.w + this->z * other.x,
+			this->w * other.z + this->x * other.y - this->y * other.x + this->z * other.w,
 			this->w * other.w - this->x * other.x - this->y * other.y - this->z * other.z
 		};
 	}
-- 
2.43.0


From b69eb29543503a4016ac1f5cca04ea87d804ffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 68/93] fix: Quat of a null rotation vector is the identity

---
 src/korin/core/public/math/quat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index a6fc20f..5e82e08 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -52,7 +52,8 @@ public:
 		float32 alpha = v.getSize();
 		float32 a = alpha * 0.5f;
 
-		v *= PlatformMath::sin(a) / alpha;
+		// A null vector is a null rotation
+		if (alpha > 0.f) v *= PlatformMath::sin(a) / alpha;
 
 		this->x = v.x;
 		this->y = v.y;
-- 
2.43.0


From ee6fd3b73eccdb4ff6032c40079e6b71c13866e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 69/93] fix: integer power with a negative exponent terminates

---
 src/korin/core/public/generic/generic_platform_math.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/generic/generic_platform_math.h b/src/korin/core/public/generic/generic_platform_math.h
index 86d18e8..1b02989 100644
--- a/src/korin/core/public/generic/generic_platform_math.h
+++ b/src/korin/core/public/generic/generic_platform_math.h
@@ -34,6 +34,7 @@ struct GenericPlatformMath
 	static FORCE_INLINE typename EnableIf<IsIntegral<U>::value, T>::Type pow(const T & x, const U & y)
 	{
 		if (y == 0) return T{1};
+		if (y < 0) return T{1} / pow(x, -y);
 		T z = pow(x, y >> 1);
 		return y & 0x1 ? z * z * x : z * z;
 	}
-- 
2.43.0


From b92dfd17a4dd5a3b1a34f16e6d9aa5d78b507876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 70/93] fix: Vector4 load of single components keeps their
 order

---
 src/korin/core/public/math/simd_float.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/simd_float.h b/src/korin/core/public/math/simd_float.h
index 2d2380c..248d784 100644
--- a/src/korin/core/public/math/simd_float.h
+++ b/src/korin/core/public/math/simd_float.h
@@ -31,7 +31,7 @@ struct Vector4<float32>
 
 	static FORCE_INLINE Type load(T a, T b, T c, T d)
 	{
-		return _mm_set_ps(a, b, c, d);
+		return _mm_setr_ps(a, b, c, d);
 	}
 
 	static FORCE_INLINE Type load(T s)
-- 
2.43.0


From c38f9bbb5c7e9b7619dd9c384819ed482c753d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 71/93] fix: Vector4 masked store compiles without AVX-512

---
 src/korin/core/public/math/simd_float.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/simd_float.h b/src/korin/core/public/math/simd_float.h
index 248d784..7da4430 100644
--- a/src/korin/core/public/math/simd_float.h
+++ b/src/korin/core/public/math/simd_float.h
@@ -60,7 +60,7 @@ struct Vector4<float32>
 	template<uint8 mask = 0xf>
 	static FORCE_INLINE void store(T * ptr, Type v)
 	{
-		_mm_mask_store_ps(ptr, mask, v);
+		_mm_maskstore_ps(ptr, _mm_setr_epi32(-(mask & 1), -(mask >> 1 & 1), -(mask >> 2 & 1), -(mask >> 3 & 1)), v);
 	}
 
 	/**
-- 
2.43.0


From f8bc6906d330d39317a77a70a56104312d8ded2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 72/93] fix: Quat from a rotation vector is not ambiguous with
 the inherited Vec4 constructor

---
 src/korin/core/public/math/quat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/math/quat.h b/src/korin/core/public/math/quat.h
index 5e82e08..f64b5be 100644
--- a/src/korin/core/public/math/quat.h
+++ b/src/korin/core/public/math/quat.h
@@ -47,8 +47,9 @@ public:
 	/**
 	 * Constructs from physics rotation vector
 	 */
-	FORCE_INLINE Quat(Vec3<float32> v)
+	FORCE_INLINE Quat(const Vec3<float32> & inVec)
 	{
+		Vec3<float32> v{inVec};
 		float32 alpha = v.getSize();
 		float32 a = alpha * 0.5f;
 
-- 
2.43.0


From 31d11abf4e58a2e95dbb81b8377cb2a969365f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 73/93] fix: regex states have a virtual destructor, members of
 derived states are released

---
 src/korin/core/public/regex/state.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index e0d31ef..fb99fd8 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -75,6 +75,12 @@ namespace Re
 			//
 		}
 
+		/**
+		 * Virtual destructor, states are
+		 * destroyed through base pointers.
+		 */
+		virtual ~StateBase() = default;
+
 		/**
 		 * Returns the immutable set of
 		 * next states (i.e. a set of states
-- 
2.43.0


From d608945ec343ed2a453946106321a8e3cd66bf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 74/93] fix: regex states never consume the terminal symbol

---
 src/korin/core/private/regex/regex.cpp | 6 +++---
 src/korin/core/public/regex/state.h    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index 9ed8bc1..f8da01a 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -107,7 +107,7 @@ namespace Re
 				// Matches any single non-digit character
 				builder.pushState<LambdaT>([](const ansichar * input, int32 & outNumRead, int32 /* numRead */) -> bool {
 
-					return outNumRead = !isDigit(*input);
+					return outNumRead = *input != '\0' && !isDigit(*input);
 				}, "NonDigit");
 				break;
 			}
@@ -127,7 +127,7 @@ namespace Re
 				// Matches any single non-whitespace character
 				builder.pushState<LambdaT>([](const ansichar * input, int32 & outNumRead, int32 /* numRead */) -> bool {
 
-					return outNumRead = !isWhiteSpace(*input);
+					return outNumRead = *input != '\0' && !isWhiteSpace(*input);
 				}, "NonWhiteSpace");
 				break;
 			}
@@ -147,7 +147,7 @@ namespace Re
 				// Matches any single non-word character
 				builder.pushState<LambdaT>([](const ansichar * input, int32 & outNumRead, int32 /* numRead */) -> bool {
 
-					return outNumRead = !isWord(*input);
+					return outNumRead = *input != '\0' && !isWord(*input);
 				}, "NonWord");
 				break;
 			}
diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index fb99fd8..096eb5d 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -436,7 +436,7 @@ namespace Re
 	template<typename AlphaT>
 	FORCE_INLINE bool StateSymbol<AlphaT>::enterState(const AlphaStringT & input, int32 & outNumRead, int32 /* numRead */) const
 	{
-		return outNumRead = (*input == symbol);
+		return outNumRead = (*input != AlphabetTraitsT::terminalSymbol && *input == symbol);
 	}
 
 	template<typename AlphaT>
@@ -491,7 +491,7 @@ namespace Re
 	template<typename AlphaT>
 	FORCE_INLINE bool StateRange<AlphaT>::enterState(const AlphaStringT & input, int32 & outNumRead, int32 /* numRead */) const
 	{
-		return outNumRead = (*input >= min && *input <= max);
+		return outNumRead = (*input != AlphabetTraitsT::terminalSymbol && *input >= min && *input <= max);
 	}
 
 	template<typename AlphaT>
-- 
2.43.0


From 9bcf9db47878e0eae656394d6885a3a215996d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 75/93] fix: a cloned regex group continues from the clone of
 its end state

---
 src/korin/core/public/regex/automaton.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 3966be5..4b03ab5 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -360,6 +360,11 @@ namespace Re
 					prevState->addNextState(currentState);
 				}
 			} while (visitQueue.popBack(currVisit));
+
+			// The clone continues from the clone
+			// of the end state, whichever state
+			// was visited last
+			visitedStates.find(endState, currentState);
 		}
 
 	public:
-- 
2.43.0


From 5026c3d52ac114a6d40234ffa272949d0a2f7994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 76/93] fix: regex lookahead states do not require the input to
 end with the match

---
 src/korin/core/public/regex/state.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index 096eb5d..8098d1a 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -688,8 +688,10 @@ namespace Re
 	template<typename AlphaT>
 	bool StatePositiveLookahed<AlphaT>::execute(ExecutorT && executor, int32 & outNumRead) const
 	{
+		// Stop as soon as the accepted state is
+		// reached, the input may go on after it
 		bool isAccepted = false;
-		while (!executor.step(isAccepted));
+		while (!executor.step(isAccepted) && !(isAccepted = executor.isAcceptedState()));
 
 		outNumRead = 0;
 		return isAccepted;
@@ -719,8 +721,10 @@ namespace Re
 	template<typename AlphaT>
 	bool StateNegativeLookahed<AlphaT>::execute(ExecutorT && executor, int32 & outNumRead) const
 	{
+		// Stop as soon as the accepted state is
+		// reached, the input may go on after it
 		bool isAccepted = false;
-		while (!executor.step(isAccepted));
+		while (!executor.step(isAccepted) && !(isAccepted = executor.isAcceptedState()));
 
 		outNumRead = 0;
 		return !isAccepted;
-- 
2.43.0


From 7878552657b3c07ded5c54a85865821258c484c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:04 +0000
Subject: [PATCH 77/93] fix: Executor::reset starts over with the given input,
 getCurrentState compiles

---
 src/korin/core/public/regex/executor.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index 447e0ae..93095c6 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -64,7 +64,7 @@ namespace Re
 			return currVisit.template get<0>();
 		}
 
-		FORCE_INLINE StateT * getCurrentState()
+		FORCE_INLINE const StateT * getCurrentState()
 		{
 			return currVisit.template get<0>();
 		}
@@ -137,10 +137,10 @@ namespace Re
 
 		FORCE_INLINE void reset(const AlphaStringT & inInput)
 		{
-			reset();
-
 			// Change input string
 			input = inInput;
+
+			reset();
 		}
 		/** @} */
 
-- 
2.43.0


From 864d7c27f5211f12957e6fb53b0a4540ee88bcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 78/93] fix: a quantifier with nothing to repeat is ignored

---
 src/korin/core/public/regex/automaton.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 4b03ab5..17a689d 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -437,6 +437,9 @@ namespace Re
 				groupStart[currentGroup] = startState;
 				groupEnd[currentGroup] = endState;
 				currentGroup += 1;
+
+				// Nothing to repeat yet
+				groupStart[currentGroup] = groupEnd[currentGroup] = nullptr;
 			}
 			else ; // TODO: Error
 
@@ -490,6 +493,7 @@ namespace Re
 			currentGroup += 2;
 			groupStart[currentGroup - 1] = startState;
 			groupEnd[currentGroup - 1] = acceptedState;
+			groupStart[currentGroup] = groupEnd[currentGroup] = nullptr;
 
 			// Set start state as current state
 			currentState = startState;
@@ -538,6 +542,9 @@ namespace Re
 			currentState->addNextState(groupEnd[currentGroup - 1]);
 			currentState = groupStart[currentGroup - 1];
 
+			// Nothing to repeat yet
+			groupStart[currentGroup] = groupEnd[currentGroup] = nullptr;
+
 			return *this;
 		}
 
@@ -574,6 +581,9 @@ namespace Re
 		 */
 		FORCE_INLINE AutomatonBuilder & pushSkip()
 		{
+			// Nothing to skip
+			if (!groupStart[currentGroup]) return *this;
+
 			// We need an epsilon state to
 			// skip the current group
 			StateT * epsilon = automaton.template pushState<typename State::EpsilonT>();
@@ -606,6 +616,9 @@ namespace Re
 		 */
 		FORCE_INLINE AutomatonBuilder & pushJump()
 		{
+			// Nothing to repeat
+			if (!groupStart[currentGroup]) return *this;
+
 			// Jump from end of current group
 			// to the beginning of the group
 			groupEnd[currentGroup]->addNextState(groupStart[currentGroup]);
@@ -636,6 +649,9 @@ namespace Re
 		 */
 		FORCE_INLINE AutomatonBuilder & pushRepeat(int32 minRepeats = 1, int32 maxRepeats = 1)
 		{
+			// Nothing to repeat
+			if (!groupStart[currentGroup]) return *this;
+
 			// Create epsilon state as future group end
 			// and also to skip groups
 			StateT * epsilon = automaton.template pushState<typename State::EpsilonT>();
-- 
2.43.0


From d15ed9be78139c3926c178471aaf94a207d5074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 79/93] fix: AutomatonBuilder::pushBranch outside of every
 group is ignored

---
 src/korin/core/public/regex/automaton.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 17a689d..fe81008 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -536,6 +536,9 @@ namespace Re
 		 */
 		FORCE_INLINE AutomatonBuilder & pushBranch()
 		{
+			// Not inside a group
+			if (currentGroup <= 0) return *this;
+
 			// Terminate and push current branch
 			// by linking current state to end
 			// of current group.
-- 
2.43.0


From a929508fefd64243e95b7f024e0700914526fccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:40 +0000
Subject: [PATCH 80/93] fix: AutomatonBuilder macros stay inside the groups
 buffers

---
 src/korin/core/public/regex/automaton.h | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index fe81008..e1b9fa3 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -489,11 +489,14 @@ namespace Re
 			pushState<MacroAnyT>(startState, acceptedState);
 
 			// Create macro frame
-			// TODO: Check max groups
-			currentGroup += 2;
-			groupStart[currentGroup - 1] = startState;
-			groupEnd[currentGroup - 1] = acceptedState;
-			groupStart[currentGroup] = groupEnd[currentGroup] = nullptr;
+			if (currentGroup < maxNumGroups - 2)
+			{
+				currentGroup += 2;
+				groupStart[currentGroup - 1] = startState;
+				groupEnd[currentGroup - 1] = acceptedState;
+				groupStart[currentGroup] = groupEnd[currentGroup] = nullptr;
+			}
+			else ; // TODO: Error
 
 			// Set start state as current state
 			currentState = startState;
@@ -512,9 +515,13 @@ namespace Re
 			// Terminate macro automaton
 			endGroup();
 
-			// Pop macro frame and set macro state as current
-			currentGroup -= 1;
-			currentState = groupEnd[currentGroup];
+			if (currentGroup > 0)
+			{
+				// Pop macro frame and set macro state as current
+				currentGroup -= 1;
+				currentState = groupEnd[currentGroup];
+			}
+			else ; // TODO: Error
 
 			return *this;
 		}
-- 
2.43.0


From 80fffdb218bbe87e138bb6dd0321ac57e54ba501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:46 +0000
Subject: [PATCH 81/93] fix: the shortcut of an optional group belongs to the
 group, it is cloned with it

---
 src/korin/core/private/regex/regex.cpp  | 2 +-
 src/korin/core/public/regex/automaton.h | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index f8da01a..25751c1 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -403,8 +403,8 @@ namespace Re
 				{
 					// Essentially a combination of
 					// jump and skip
-					builder.pushSkip();
 					builder.pushJump();
+					builder.pushSkip();
 					break;
 				}
 
diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index e1b9fa3..bc4de46 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -604,6 +604,9 @@ namespace Re
 			// Create shortcut
 			groupStart[currentGroup]->addNextState(epsilon);
 
+			// The shortcut is part of the group
+			groupEnd[currentGroup] = epsilon;
+
 			return *this;
 		}
 
-- 
2.43.0


From 1103f061bb5268a78ad90d9d456d00bc0a48e202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:51 +0000
Subject: [PATCH 82/93] fix: pushRepeat with a minimum of zero or one
 repetitions

---
 src/korin/core/public/regex/automaton.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index bc4de46..472a33c 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -668,7 +668,8 @@ namespace Re
 			// Create epsilon state as future group end
 			// and also to skip groups
 			StateT * epsilon = automaton.template pushState<typename State::EpsilonT>();
-			StateT * prevState;
+			StateT * firstState = groupStart[currentGroup];
+			StateT * prevState = firstState;
 
 			for (int32 repeatIdx = 1; repeatIdx < minRepeats; ++repeatIdx)
 			{
@@ -694,7 +695,8 @@ namespace Re
 			{
 				CHECK(minRepeats <= maxRepeats);
 
-				for (int32 repeatIdx = minRepeats; repeatIdx < maxRepeats; ++repeatIdx)
+				// The first repetition is always there
+				for (int32 repeatIdx = minRepeats > 1 ? minRepeats : 1; repeatIdx < maxRepeats; ++repeatIdx)
 				{
 					// Groups here can be skipped.
 					currentState->addNextState(epsilon);
@@ -710,6 +712,12 @@ namespace Re
 			// it
 			groupEnd[currentGroup] = currentState = currentState->addNextState(epsilon);
 
+			if (minRepeats == 0)
+			{
+				// Zero repetitions, skip the first too
+				firstState->addNextState(epsilon);
+			}
+
 			return *this;
 		}
 
-- 
2.43.0


From 3674a84e48292c102ac1ecb281a1e0bb9ebc6b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 83/93] fix: regex quantifiers {0} and {0,0} match the empty
 string only

---
 src/korin/core/private/regex/regex.cpp  | 10 ++++++++--
 src/korin/core/public/regex/automaton.h | 20 ++++++++++++++++++++
 src/korin/core/public/regex/state.h     | 14 ++++++++++++++
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index 25751c1..6a0199e 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -339,7 +339,10 @@ namespace Re
 					if (idx == closeBracketPos)
 					{
 						// Exact repetition
-						builder.pushRepeat(min, min);
+						if (min > 0)
+							builder.pushRepeat(min, min);
+						else
+							builder.pushDrop();
 						break;
 					}
 
@@ -375,7 +378,10 @@ namespace Re
 					}
 
 					// At least min, at most max repetitions
-					builder.pushRepeat(min, max);
+					if (max > 0)
+						builder.pushRepeat(min, max);
+					else
+						builder.pushDrop();
 					break;
 					
 					break;
diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 472a33c..54d8f4d 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -721,6 +721,26 @@ namespace Re
 			return *this;
 		}
 
+		/**
+		 * Repeats the last inserted state or
+		 * group zero times (equivalent to
+		 * `{0}` in regex syntax).
+		 * 
+		 * @return ref to self
+		 */
+		FORCE_INLINE AutomatonBuilder & pushDrop()
+		{
+			// Nothing to drop
+			if (!groupStart[currentGroup]) return *this;
+
+			// Replace the group with an epsilon state
+			StateT * epsilon = automaton.template pushState<typename State::EpsilonT>();
+			groupStart[currentGroup]->removeNextStates();
+			groupEnd[currentGroup] = currentState = groupStart[currentGroup]->addNextState(epsilon);
+
+			return *this;
+		}
+
 	protected:
 		/// Max number of groups
 		static constexpr sizet maxNumGroups = 127;
diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index 8098d1a..0bc61aa 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -122,6 +122,20 @@ namespace Re
 			return other;
 		}
 
+		/**
+		 * Remove all the states from the
+		 * set of next states.
+		 */
+		FORCE_INLINE void removeNextStates()
+		{
+			for (StateBase * nextState : nextStates)
+			{
+				nextState->prevStates.remove(this);
+			}
+
+			nextStates = SetT{};
+		}
+
 		/**
 		 * Merge this state into the next
 		 * state. The state must have
-- 
2.43.0


From f61d9079362748b010e3c9c89fed0072f2d30ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 84/93] fix: an executor terminates on cycles that do not
 consume input

---
 src/korin/core/public/regex/executor.h | 29 ++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index 93095c6..a4753ef 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -1,6 +1,8 @@
 #pragma once
 
 #include "core_types.h"
+#include "containers/list.h"
+#include "containers/set.h"
 #include "containers/tuple.h"
 #include "./regex_types.h"
 
@@ -28,6 +30,22 @@ namespace Re
 		using AlphaSymbolT = typename StateT::AlphaSymbolT;
 		using AlphaStringT = typename StateT::AlphaStringT;
 		using VisitT = Tuple<const StateT* /* currentState */, AlphaStringT /* input */, int32 /* totRead */>;
+		using SeenT = Tuple<const StateT* /* state */, int32 /* totRead */>;
+
+		/**
+		 * Compare type used to order
+		 * the pairs already visited.
+		 */
+		struct FindSeen
+		{
+			FORCE_INLINE int32 operator()(const SeenT & a, const SeenT & b) const
+			{
+				const int32 order = ThreeWayCompare{}(a.template get<1>(), b.template get<1>());
+				return order != 0 ? order : FindStateT{}(a.template get<0>(), b.template get<0>());
+			}
+		};
+
+		using SeenSetT = Set<SeenT, FindSeen>;
 
 	public:
 		Executor() = delete;
@@ -50,6 +68,7 @@ namespace Re
 			, acceptedState{inAcceptedState}
 			, input{inInput}
 			, visitQueue{}
+			, seenStates{}
 			, currVisit{inStartState, inInput, inNumRead}
 		{
 			//
@@ -129,6 +148,7 @@ namespace Re
 		{
 			// Empty visit queue
 			visitQueue.empty();
+			seenStates = SeenSetT{};
 
 			// Reset current visit with
 			// start state and input
@@ -169,6 +189,9 @@ namespace Re
 		/// Queue of states to visit
 		List<VisitT> visitQueue;
 
+		/// States already visited, with the number of symbols read then
+		SeenSetT seenStates;
+
 		/// Current visited state and input
 		VisitT currVisit;
 	};
@@ -189,6 +212,12 @@ namespace Re
 		{
 			for (const StateT * nextState : currState->getNextStates())
 			{
+				// The same state at the same position
+				// cannot change the outcome
+				const SeenT seen{nextState, currNumRead + numRead};
+				if (seenStates.get(seen)) continue;
+
+				seenStates.set(seen);
 				visitQueue.pushBack(VisitT{nextState, AlphabetTraitsT::consumeInput(currInput, numRead), currNumRead + numRead});
 			}
 		}
-- 
2.43.0


From 9ba1e2c943295d3fde1f178df974112b8eae1edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:40 +0000
Subject: [PATCH 85/93] fix: an automaton owns its states, it is not copied

---
 src/korin/core/public/regex/automaton.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 54d8f4d..d7104ee 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -115,6 +115,15 @@ namespace Re
 		 */
 		Automaton();
 
+		/**
+		 * An automaton owns its states,
+		 * it cannot be copied.
+		 * @{
+		 */
+		Automaton(const Automaton&) = delete;
+		Automaton & operator=(const Automaton&) = delete;
+		/** @} */
+
 		/**
 		 * Destroy automaton. Deallocates
 		 * all states.
-- 
2.43.0


From 897ba5626fb6e71980e69db3adba1cd71a5b0a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 86/93] fix: Sort::partition returns the end of the smaller
 elements

---
 src/korin/core/public/algorithm/sort.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/korin/core/public/algorithm/sort.h b/src/korin/core/public/algorithm/sort.h
index 11452b7..54ef229 100644
--- a/src/korin/core/public/algorithm/sort.h
+++ b/src/korin/core/public/algorithm/sort.h
@@ -37,6 +37,8 @@ struct Sort
 		It i = begin, j = begin;
 		for (; i != end; ++i)
 			if (cmp(*i, pivot) < 0) swap(*i, *j), ++j;
+
+		return j;
 	}
 
 	/**
-- 
2.43.0


From d60cd74c414e90d5296cd198b4e09fb5c14a3d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 87/93] fix: ArrayIteratorBase::operator-= returns a reference
 to the iterator

---
 src/korin/core/public/containers/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 5288f5a..c8eba4a 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -168,7 +168,7 @@ struct ArrayIteratorBase : public IteratorTraitsT
 	 * @param n decrement amount
 	 * @return ref to self
 	 */
-	FORCE_INLINE ArrayIteratorBase operator-=(uint64 n)
+	FORCE_INLINE ArrayIteratorBase & operator-=(uint64 n)
 	{
 		idx -= n;
 		return *this;
-- 
2.43.0


From 1d1c44728656c5abf14aeeaabe01eac91196ca32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 88/93] fix: IsTriviallyCopyable requires that no copy, move or
 assignment is user defined, such objects are copied byte by byte

---
 src/korin/core/public/templates/types.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index 43f9551..d1be969 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -188,13 +188,13 @@ struct IsTriviallyDestructible
 };
 
 /**
- * Sets value to true if T has trivial
- * copy constructor
+ * Sets value to true if T can be copied
+ * (and moved and assigned) byte by byte
  */
 template<typename T>
 struct IsTriviallyCopyable
 {
-	enum {value = __has_trivial_copy(T)};
+	enum {value = __is_trivially_copyable(T)};
 };
 
 /**
-- 
2.43.0


From d31b5d4fed38754a4ebaf152652fcc0849e11829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 89/93] fix: IsTriviallyAssignable is false for types that
 cannot be assigned

---
 src/korin/core/public/templates/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index d1be969..ecd2615 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -204,7 +204,7 @@ struct IsTriviallyCopyable
 template<typename T>
 struct IsTriviallyAssignable
 {
-	enum {value = __has_trivial_assign(T)};
+	enum {value = __is_trivially_assignable(T&, const T&)};
 };
 
 /**
-- 
2.43.0


From 076a2e42ab35af823458b1bf4afb824f8e6237d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 90/93] fix: recursive functions are not forced inline, release
 builds with gcc compile

---
 src/korin/core/public/containers/tree.h            | 14 +++++++-------
 .../core/public/generic/generic_platform_math.h    |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index 02172fc..fa68bd5 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -91,12 +91,12 @@ struct BinaryNode
 	 * Returns root of tree.
 	 * @{
 	 */
-	FORCE_INLINE BinaryNode * getRoot()
+	inline BinaryNode * getRoot()
 	{
 		return parent ? parent->getRoot() : this;
 	}
 
-	FORCE_INLINE const BinaryNode * getRoot() const
+	inline const BinaryNode * getRoot() const
 	{
 		return parent ? parent->getRoot() : this;
 	}
@@ -106,12 +106,12 @@ struct BinaryNode
 	 * Returns leftmost node of subtree.
 	 * @{
 	 */
-	FORCE_INLINE BinaryNode * getMin()
+	inline BinaryNode * getMin()
 	{
 		return left ? left->getMin() : this;
 	}
 
-	FORCE_INLINE const BinaryNode * getMin() const
+	inline const BinaryNode * getMin() const
 	{
 		return left ? left->getMin() : this;
 	}
@@ -121,12 +121,12 @@ struct BinaryNode
 	 * Returns rightmost node of subtree.
 	 * @{
 	 */
-	FORCE_INLINE BinaryNode * getMax()
+	inline BinaryNode * getMax()
 	{
 		return right ? right->getMax() : this;
 	}
 
-	FORCE_INLINE const BinaryNode * getMax() const
+	inline const BinaryNode * getMax() const
 	{
 		return right ? right->getMax() : this;
 	}
@@ -140,7 +140,7 @@ struct BinaryNode
 	 * 	spawning from root node
 	 * @{
 	 */
-	static FORCE_INLINE uint64 getTreeSize(const BinaryNode * root)
+	static inline uint64 getTreeSize(const BinaryNode * root)
 	{
 		return root ? 1 + getTreeSize(root->right) + getTreeSize(root->left) : 0;
 	}
diff --git a/src/korin/core/public/generic/generic_platform_math.h b/src/korin/core/public/generic/generic_platform_math.h
index 1b02989..41471a9 100644
--- a/src/korin/core/public/generic/generic_platform_math.h
+++ b/src/korin/core/public/generic/generic_platform_math.h
@@ -31,7 +31,7 @@ struct GenericPlatformMath
 	 * Integer power
 	 */
 	template<typename T, typename U>
-	static FORCE_INLINE typename EnableIf<IsIntegral<U>::value, T>::Type pow(const T & x, const U & y)
+	static inline typename EnableIf<IsIntegral<U>::value, T>::Type pow(const T & x, const U & y)
 	{
 		if (y == 0) return T{1};
 		if (y < 0) return T{1} / pow(x, -y);
-- 
2.43.0


From 1dcb68174c3664b4b23def51fce5665c697d843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 91/93] fix: assert.h includes the platform macros it uses

---
 src/korin/core/public/misc/assert.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/misc/assert.h b/src/korin/core/public/misc/assert.h
index 4346fe1..d03118e 100644
--- a/src/korin/core/public/misc/assert.h
+++ b/src/korin/core/public/misc/assert.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <stdio.h>
+#include "core_types.h"
 
 /**
  * CHECK prints a warning if condition evaluates
-- 
2.43.0


From 82b4fbbfe1cdc842bf159db0602b5c612671cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:02 +0000
Subject: [PATCH 92/93] fix: optional.h includes <new> for the placement new it
 uses

---
 src/korin/core/public/templates/optional.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 8905ea3..6416836 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <new>
 #include "core_types.h"
 #include "misc/assert.h"
 #include "./utility.h"
-- 
2.43.0


From 2b1ad0a622c6fa1e46ded89cf4524cc6e34f6ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:15 +0000
Subject: [PATCH 93/93] fix: Set::remove accepts every key that the set can be
 searched with

---
 src/korin/core/public/containers/set.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index 3f26c3c..4069a8c 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -281,7 +281,12 @@ public:
 	template<typename KeyT>
 	FORCE_INLINE bool remove(const KeyT & key)
 	{
-		return tree.remove(key);
+		if (NodeT * node = tree.findNode(key))
+		{
+			return tree.removeNode(node), true;
+		}
+
+		return false;
 	}
 
 	template<typename KeyT>
-- 
2.43.0

