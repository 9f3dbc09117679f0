From 724d395b2a2120a474c0a3e6eeb92155a5643c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:55 +0000
Subject: [PATCH 001/103] fix: static_vector iterator += may reach the end of a
 full vector

---
 include/wordring/static_vector/static_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/static_vector/static_vector.hpp b/include/wordring/static_vector/static_vector.hpp
index b7ca210..39dcc49 100644
--- a/include/wordring/static_vector/static_vector.hpp
+++ b/include/wordring/static_vector/static_vector.hpp
@@ -158,7 +158,7 @@ namespace wordring::detail
 		static_vector_iterator& operator+=(size_t n)
 		{
 			m_position += n;
-			assert(static_cast<std::make_unsigned_t<difference_type>>(m_position) < m_container->size());
+			assert(static_cast<std::make_unsigned_t<difference_type>>(m_position) <= m_container->size());
 			return *this;
 		}
 
-- 
2.43.0


From e71d45959e6148da847f3ec33a289f8f6c06d615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:25 +0000
Subject: [PATCH 002/103] fix: static_vector erase of an empty range at the end

---
 include/wordring/static_vector/static_vector.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/wordring/static_vector/static_vector.hpp b/include/wordring/static_vector/static_vector.hpp
index 39dcc49..24b268b 100644
--- a/include/wordring/static_vector/static_vector.hpp
+++ b/include/wordring/static_vector/static_vector.hpp
@@ -515,7 +515,6 @@ namespace wordring
 
 		iterator erase(const_iterator first, const_iterator last)
 		{
-			assert(first != cend());
 			assert(first <= last);
 
 			std::copy(last, cend(), iterator(m_container, first.m_position));
-- 
2.43.0


From 04336e30ab400c90e3bf3307077c3eeb187f3678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:12 +0000
Subject: [PATCH 003/103] fix: static_vector insert of one of its own elements

---
 include/wordring/static_vector/static_vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/wordring/static_vector/static_vector.hpp b/include/wordring/static_vector/static_vector.hpp
index 24b268b..6712890 100644
--- a/include/wordring/static_vector/static_vector.hpp
+++ b/include/wordring/static_vector/static_vector.hpp
@@ -437,8 +437,9 @@ namespace wordring
 		{
 			assert(size() < N);
 
+			value_type v = value; // valueは移動される要素を指すかもしれない
 			std::copy_backward(pos, cend(), end() + 1);
-			*(m_container.data() + pos.m_position) = value;
+			*(m_container.data() + pos.m_position) = std::move(v);
 			++m_size;
 
 			return iterator(m_container, pos.m_position);
@@ -459,10 +460,11 @@ namespace wordring
 		{
 			assert(size() + count <= N);
 
+			value_type v = value; // valueは移動される要素を指すかもしれない
 			std::copy_backward(pos, cend(), end() + count);
 
 			iterator p(m_container, pos.m_position);
-			for (const_iterator last = pos + count; p != last; ++p) *p = value;
+			for (const_iterator last = pos + count; p != last; ++p) *p = v;
 			
 			m_size += count;
 
-- 
2.43.0


From ca518aba5dd08e53c9b140495a700ec45fcf2be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:17 +0000
Subject: [PATCH 004/103] fix: tree decrement with several roots

---
 include/wordring/tree/tree.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/wordring/tree/tree.hpp b/include/wordring/tree/tree.hpp
index e56c677..aa3be2a 100644
--- a/include/wordring/tree/tree.hpp
+++ b/include/wordring/tree/tree.hpp
@@ -157,19 +157,15 @@ namespace wordring::detail
 
 			if (m_index != 0) // prevがある場合(end以外はある)
 			{
-				assert(m_parent != 0 && (d + m_parent)->m_child != m_index); // 先頭をデクリメントしようとしている。
+				assert((d + m_parent)->m_child != m_index); // 先頭をデクリメントしようとしている。
 				m_index = (d + m_index)->m_prev;
 			}
-			else if (m_parent != 0) // prevが無い(endは無い)且つ根以外の場合
+			else // prevが無い(endは無い)場合
 			{
 				index_type child = (d + m_parent)->m_child; // begin
+				assert(child != 0); // 子が無いのにデクリメントしようとしている。
 				m_index = (d + child)->m_prev; // endの前はtail
 			}
-			else // 根の終端
-			{
-				m_index = d->m_child;
-				assert(m_index != 0); // 空のツリーで根をデクリメントしようとしている。
-			}
 
 			return *this;
 		}
-- 
2.43.0


From 5a647919e41c639f5b628c3d0599e75ad4e1815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:17 +0000
Subject: [PATCH 005/103] fix: tree move to the end of its own descendants
 makes a cycle

---
 include/wordring/tree/tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wordring/tree/tree.hpp b/include/wordring/tree/tree.hpp
index aa3be2a..04aa2a0 100644
--- a/include/wordring/tree/tree.hpp
+++ b/include/wordring/tree/tree.hpp
@@ -669,7 +669,8 @@ namespace wordring
 		{
 			node_type* d = m_c.data();
 
-			for (index_type i = pos.m_index; i != 0; i = (d + i)->m_parent)
+			index_type first = (pos.m_index != 0) ? pos.m_index : pos.m_parent; // 終端の場合、親から始める
+			for (index_type i = first; i != 0; i = (d + i)->m_parent)
 			{
 				if (i == sub.m_index) throw std::invalid_argument("");
 			}
-- 
2.43.0


From 21f0973baf7aa06ffb836f2a76ecb93e22df3a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:24 +0000
Subject: [PATCH 006/103] fix: tree subtree copy lost nesting and looped when
 copied into itself

---
 include/wordring/tree/tree.hpp | 67 ++++++++--------------------------
 1 file changed, 15 insertions(+), 52 deletions(-)

diff --git a/include/wordring/tree/tree.hpp b/include/wordring/tree/tree.hpp
index 04aa2a0..6026917 100644
--- a/include/wordring/tree/tree.hpp
+++ b/include/wordring/tree/tree.hpp
@@ -577,68 +577,31 @@ namespace wordring
 		* @internal
 		* <hr>
 		*
-		* @par 二つのスタックを使って部分木をコピーするアルゴリズム
+		* @par 部分木をコピーするアルゴリズム
 		*
-		* スタックを使った一般的な木探索アルゴリズムは、木の構造を保持しないため、
-		* POPしたノードを「どこに挿入するか？」という情報を取り出せない。
-		* そこで、挿入地点を記録する「<b>親スタック</b>」を使う。
-		*
-		* <b>探索スタック</b>から値をPOPするとき、子が有ればすべて<b>探索スタック</b>にPUSHする。
-		* 同時に、親を<b>親スタック</b>にPUSHする。
-		* <b>親スタック</b>にPUSHするとき、スタックTOPが挿入しようとするノードの親であるか検査する。
-		* 親でない場合、POPしてからノードをPUSHする。
-		*
-		* 以上の操作で、<b>親スタック</b>のTOPは常に挿入地点となる。
-		*
-		* ところで、以上のアルゴリズムは、引数の部分木について親を記録する。
-		* 実際に必要なのは、挿入先の親である。
-		* そこで、<b>親スタック</b>には、挿入先の親も一緒に記録する。
-		*
-		* @image html tree_node_insert_8.svg
-		*
-		* @par 実装
-		*
-		* - 根の挿入位置は <b>pos</b> だが、それ以外は親スタックTOPの <b>%end()</b> 。
-		*   従って、根だけ特別扱いが必要。
-		* .
-		*
-		* @todo スタックはインデックスが有れば十分で、イテレータを入れておくのは冗長。
-		* 	  今後、性能を改良するときに考慮する必要がある。
+		* 挿入を始める前に、コピー元のノードをすべてレベル順に列挙し、それぞれの親の位置と共に記録する。
+		* 挿入によってコピー元が変化しても（挿入位置が部分木の中にあっても）影響を受けない。
 		*/
 		iterator insert(const_iterator pos, const_iterator sub)
 		{
-			std::vector<std::array<const_iterator, 2>> x; // 親スタック [pos, sub]
-			std::vector<const_iterator> v;                // 探索スタック
+			std::vector<const_iterator> v(1, sub); // コピー元のノード（レベル順）
+			std::vector<std::size_t> x(1, 0);      // v における親の位置
 
-			// 根を特別扱い
-			iterator ret = insert(pos, *sub);
-			x.push_back({ ret, sub });
+			for (std::size_t i = 0; i < v.size(); ++i)
 			{
-				auto it1 = sub.rbegin();
-				auto it2 = sub.rend();
-				while (it1 != it2) v.push_back((++it1).base());
-			}
-
-			// 根以外
-			while (!v.empty())
-			{
-				const_iterator it = v.back();
-				v.pop_back();
-
-				if (it.parent() != x.back()[1]) x.pop_back();
-				const_iterator p = insert(x.back()[0].end(), *it);
-
-				if (it.begin() != it.end()) // 子がある
+				const_iterator it2 = v[i].end();
+				for (const_iterator it1 = v[i].begin(); it1 != it2; ++it1)
 				{
-					auto it1 = it.rbegin();
-					auto it2 = it.rend();
-					while(it1 != it2)  v.push_back((++it1).base());
-
-					x.push_back({ p, it });
+					v.push_back(it1);
+					x.push_back(i);
 				}
 			}
 
-			return ret;
+			std::vector<iterator> w; // 挿入されたノード
+			w.push_back(insert(pos, *sub));
+			for (std::size_t i = 1; i < v.size(); ++i) w.push_back(insert(w[x[i]].end(), *v[i]));
+
+			return w.front();
 		}
 
 		template <typename... Args>
-- 
2.43.0


From 52e53b4f4edeeb3901343ab40171c46039a94d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:03 +0000
Subject: [PATCH 007/103] fix: tag_tree character iterator stops at empty text
 nodes

---
 include/wordring/tag_tree/character_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wordring/tag_tree/character_iterator.hpp b/include/wordring/tag_tree/character_iterator.hpp
index 35ff16e..b792a77 100644
--- a/include/wordring/tag_tree/character_iterator.hpp
+++ b/include/wordring/tag_tree/character_iterator.hpp
@@ -182,7 +182,7 @@ namespace wordring::detail
 		{
 			auto it1 = m_it;
 			auto it2 = base_type();
-			while (it1 != it2 && !node_traits::is_text(it1)) --it1;
+			while (it1 != it2 && !(node_traits::is_text(it1) && !node_traits::data(it1).empty())) --it1;
 
 			return it1;
 		}
@@ -195,7 +195,7 @@ namespace wordring::detail
 		{
 			auto it1 = m_it;
 			auto it2 = base_type();
-			while (it1 != it2 && !node_traits::is_text(it1)) ++it1;
+			while (it1 != it2 && !(node_traits::is_text(it1) && !node_traits::data(it1).empty())) ++it1;
 
 			return it1;
 		}
-- 
2.43.0


From f6c4a141e4d6f0f8e9658308ed66059e9dff936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:03 +0000
Subject: [PATCH 008/103] fix: tag_tree move of a node to where it already is
 breaks the links

---
 include/wordring/tag_tree/tag_tree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/wordring/tag_tree/tag_tree.hpp b/include/wordring/tag_tree/tag_tree.hpp
index f651e90..d7c2d19 100644
--- a/include/wordring/tag_tree/tag_tree.hpp
+++ b/include/wordring/tag_tree/tag_tree.hpp
@@ -185,6 +185,9 @@ namespace wordring
 			std::uint32_t sub_tail = (d + sub_head)->m_tail == 0 ? sub_head : (d + sub_head)->m_tail;
 			std::uint32_t sub_after = (d + sub_tail)->m_next;
 
+			// 既に pos の前に在る場合、何もしない
+			if (pos_idx == sub_head || pos_idx == sub_after) return iterator(m_c.get(), sub_head);
+
 			(d + pos_before)->m_next = sub_head;
 			(d + sub_head)->m_prev = pos_before;
 			
-- 
2.43.0


From 7737d727a22129c7abd3b66734c392b644fcc8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:43 +0000
Subject: [PATCH 009/103] fix: trie assign treats a list sorted by signed
 labels as sorted

---
 include/wordring/trie/trie_base.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/wordring/trie/trie_base.hpp b/include/wordring/trie/trie_base.hpp
index 0d52f5d..75f0023 100644
--- a/include/wordring/trie/trie_base.hpp
+++ b/include/wordring/trie/trie_base.hpp
@@ -211,7 +211,14 @@ namespace wordring::detail
 
 			clear();
 
-			if (!std::is_sorted(first, last) || std::adjacent_find(first, last) != last)
+			// ラベルは符号無し8ビットとして並ぶ
+			auto less = [](auto const& a, auto const& b)
+			{
+				return std::lexicographical_compare(std::begin(a), std::end(a), std::begin(b), std::end(b),
+					[](auto c, auto d) { return static_cast<std::uint8_t>(c) < static_cast<std::uint8_t>(d); });
+			};
+
+			if (!std::is_sorted(first, last, less) || std::adjacent_find(first, last) != last)
 			{
 				while (first != last)
 				{
-- 
2.43.0


From f4349cf3b697b1f737952d05dfd7d2d5550915d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:42 +0000
Subject: [PATCH 010/103] fix: trie erase resets the value of a key that
 becomes a leaf

---
 include/wordring/trie/trie_base.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wordring/trie/trie_base.hpp b/include/wordring/trie/trie_base.hpp
index 75f0023..6c761a5 100644
--- a/include/wordring/trie/trie_base.hpp
+++ b/include/wordring/trie/trie_base.hpp
@@ -554,8 +554,9 @@ namespace wordring::detail
 					index_type i = (m_c.data() + idx)->m_base + null_value;
 					assert((m_c.data() + i)->m_check == idx);
 
+					index_type val = (m_c.data() + i)->m_base; // 空遷移先に格納されていた葉の値
 					free(i);
-					if (!has_child(idx)) (m_c.data() + idx)->m_base = 0;
+					if (!has_child(idx)) (m_c.data() + idx)->m_base = val;
 
 					break;
 				}
-- 
2.43.0


From 44863c1ac73dfb4ff2b039a9353e3554bb1ccc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:42 +0000
Subject: [PATCH 011/103] fix: trie assign of a key list kept the old keys for
 multi-byte labels

---
 include/wordring/trie/trie.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/wordring/trie/trie.hpp b/include/wordring/trie/trie.hpp
index d9fa1b8..7af5101 100644
--- a/include/wordring/trie/trie.hpp
+++ b/include/wordring/trie/trie.hpp
@@ -336,6 +336,8 @@ namespace wordring
 			if constexpr (coefficient == 1) base_type::assign(first, last);
 			else
 			{
+				clear();
+
 				while (first != last)
 				{
 					insert(*first);
-- 
2.43.0


From a66b634f59a2f694e7fb8b15c9f99ec62871f93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:40 +0000
Subject: [PATCH 012/103] fix: trie iterator spells labels wider than 32 bits
 wrongly

---
 include/wordring/trie/trie_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/trie/trie_iterator.hpp b/include/wordring/trie/trie_iterator.hpp
index bbba1e6..8736546 100644
--- a/include/wordring/trie/trie_iterator.hpp
+++ b/include/wordring/trie/trie_iterator.hpp
@@ -104,7 +104,7 @@ namespace wordring::detail
 					index_type base = (d + parent)->m_base;
 					assert(1 <= base && base < limit());
 
-					result += (idx - base) << (i * 8);
+					result += static_cast<unsigned_type>(idx - base) << (i * 8);
 
 					idx = parent;
 				}
-- 
2.43.0


From 18b31958cf1b03a3858c648bd0f42cef62cfc593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:18 +0000
Subject: [PATCH 013/103] fix: trie iterator operator[] reads beyond the array
 for multi-byte labels

---
 include/wordring/trie/trie_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/trie/trie_iterator.hpp b/include/wordring/trie/trie_iterator.hpp
index 8736546..15418d2 100644
--- a/include/wordring/trie/trie_iterator.hpp
+++ b/include/wordring/trie/trie_iterator.hpp
@@ -161,7 +161,7 @@ namespace wordring::detail
 
 					idx = base + ch;
 
-					if ((d + idx)->m_check != parent)
+					if (limit() <= idx || (d + idx)->m_check != parent)
 					{
 						idx = 0;
 						break;
-- 
2.43.0


From 5f0ca835b8d62d83c2a24018c37760fbf18b4627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:09 +0000
Subject: [PATCH 014/103] fix: trie assign from serialised 16 bit integers

---
 include/wordring/trie/trie_heap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/wordring/trie/trie_heap.hpp b/include/wordring/trie/trie_heap.hpp
index 23d7a50..954b01b 100644
--- a/include/wordring/trie/trie_heap.hpp
+++ b/include/wordring/trie/trie_heap.hpp
@@ -283,8 +283,9 @@ namespace wordring::detail
 				}
 				else
 				{
-					for (std::uint32_t j = 0; j < n && first != last; ++j) base = (base << 8) + static_cast<unsigned_type>(*first++);
-					for (std::uint32_t j = 0; j < n && first != last; ++j) check = (check << 8) + static_cast<unsigned_type>(*first++);
+					std::uint32_t constexpr w = sizeof(value_type) * 8;
+					for (std::uint32_t j = 0; j < n && first != last; ++j) base = (base << w) + static_cast<unsigned_type>(*first++);
+					for (std::uint32_t j = 0; j < n && first != last; ++j) check = (check << w) + static_cast<unsigned_type>(*first++);
 				}
 
 				m_c.push_back(node_type{ static_cast<index_type>(base), static_cast<index_type>(check) });
-- 
2.43.0


From edea3811be7d6347af640ca6df002f3f3edeaec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:14 +0000
Subject: [PATCH 015/103] fix: reading a trie from a stream consumes what
 follows it

---
 include/wordring/trie/trie_heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/wordring/trie/trie_heap.hpp b/include/wordring/trie/trie_heap.hpp
index 954b01b..b6e8b78 100644
--- a/include/wordring/trie/trie_heap.hpp
+++ b/include/wordring/trie/trie_heap.hpp
@@ -853,6 +853,7 @@ namespace wordring::detail
 
 		std::uint64_t n;
 		it1 = deserialize(it1, it2, n);
+		n /= sizeof(trie_node); // バイト数からノード数へ
 
 		for (std::uint64_t i = 0; i < n && it1 != it2; ++i)
 		{
-- 
2.43.0


From c5aebe4378dd7b421977078f66fca97d3211f176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:14 +0000
Subject: [PATCH 016/103] fix: trie assign counts an empty string as a key

---
 include/wordring/trie/trie_base.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/wordring/trie/trie_base.hpp b/include/wordring/trie/trie_base.hpp
index 6c761a5..ef1ed27 100644
--- a/include/wordring/trie/trie_base.hpp
+++ b/include/wordring/trie/trie_base.hpp
@@ -228,6 +228,9 @@ namespace wordring::detail
 				return;
 			}
 
+			// 空文字列は格納されない
+			if (first != last && std::begin(*first) == std::end(*first)) ++first;
+
 			using list_iterator = const_list_trie_iterator<ForwardIterator>;
 			using construct_iterator = trie_construct_iterator<list_iterator>;
 
-- 
2.43.0


From 0fe694c01ab74a8cdb2cde2544ff14d91b425360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:33 +0000
Subject: [PATCH 017/103] fix: atom_set at() of an unknown id must return the
 empty atom

---
 include/wordring/string/atom.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/wordring/string/atom.hpp b/include/wordring/string/atom.hpp
index 3888215..8df15be 100644
--- a/include/wordring/string/atom.hpp
+++ b/include/wordring/string/atom.hpp
@@ -473,9 +473,11 @@ namespace wordring
 		{
 			typename base_type::node_type const* d = base_type::m_c.data();
 
-			typename base_type::index_type idx = (d + id)->m_check;
-			assert(1 < idx && idx < static_cast<int>(base_type::m_c.size()));
-			assert((d + idx)->m_base + base_type::null_value == id);
+			typename base_type::index_type idx = 0;
+
+			if (id < base_type::m_c.size()) idx = (d + id)->m_check;
+			// idと対応するアトムが無い場合
+			if (idx <= 1 || static_cast<std::int64_t>((d + idx)->m_base) + base_type::null_value != id) idx = 0;
 
 			return value_type(base_type::m_c, idx);
 		}
-- 
2.43.0


From e034c8c2988253c83af006dbf737976c6068b769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:33 +0000
Subject: [PATCH 018/103] fix: atom_set assign of a string list kept the old
 strings

---
 include/wordring/string/atom.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/wordring/string/atom.hpp b/include/wordring/string/atom.hpp
index 8df15be..370e605 100644
--- a/include/wordring/string/atom.hpp
+++ b/include/wordring/string/atom.hpp
@@ -440,6 +440,8 @@ namespace wordring
 		template <typename InputIterator, typename std::enable_if_t<std::negation_v<std::is_integral<typename std::iterator_traits<InputIterator>::value_type>>, std::nullptr_t> = nullptr>
 		void assign(InputIterator first, InputIterator last)
 		{
+			clear();
+
 			while (first != last) insert(*first++);
 		}
 
-- 
2.43.0


From 2c805470cbbfbd5d9c69bfeb5cb494932eea1e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:21 +0000
Subject: [PATCH 019/103] fix: a decoding error in replacement mode must output
 U+FFFD

Coder is always the coder variant here, so is_base_of<decoder, Coder> was
never true and malformed input silently vanished.
---
 include/wordring/whatwg/encoding/encoding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/encoding/encoding.hpp b/include/wordring/whatwg/encoding/encoding.hpp
index c94bbfe..b230b23 100644
--- a/include/wordring/whatwg/encoding/encoding.hpp
+++ b/include/wordring/whatwg/encoding/encoding.hpp
@@ -127,7 +127,7 @@ namespace wordring::whatwg::encoding
 			{
 			case error_mode_name::Replacement:
 				// Warning 抑制用の if()
-				if constexpr (std::is_base_of_v<decoder, Coder>) out.push(U'\xFFFD');
+				if constexpr (sizeof(typename OutQueue::character_type) == sizeof(char32_t)) out.push(U'\xFFFD');
 				break;
 			case error_mode_name::Html:
 			{
-- 
2.43.0


From 8fbd9e5fdd92835a7db4709a57b63ac0db13bf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:21 +0000
Subject: [PATCH 020/103] fix: Big5 decoder rejects trail bytes 0xA1 to 0xFE

---
 include/wordring/whatwg/encoding/coder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/encoding/coder.hpp b/include/wordring/whatwg/encoding/coder.hpp
index c9cb3fd..c710c87 100644
--- a/include/wordring/whatwg/encoding/coder.hpp
+++ b/include/wordring/whatwg/encoding/coder.hpp
@@ -636,7 +636,7 @@ namespace wordring::whatwg::encoding
 				// 3.1.
 				std::uint32_t offset = byte < 0x7Fu ? 0x40u : 0x62u;
 				// 3.2.
-				if (0x40u <= byte && byte <= 0x7Eu)
+				if ((0x40u <= byte && byte <= 0x7Eu) || (0xA1u <= byte && byte <= 0xFEu))
 				{
 					pointer = (lead - 0x81u) * 157 + (byte - offset);
 				// 3.3.
-- 
2.43.0


From aa6d0d847dbefcb86b233f2a2b4af07d06cc1a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:21 +0000
Subject: [PATCH 021/103] fix: UTF-16 decoder corrupts the code unit after an
 unpaired lead surrogate

---
 include/wordring/whatwg/encoding/coder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/encoding/coder.hpp b/include/wordring/whatwg/encoding/coder.hpp
index c710c87..ecd2f52 100644
--- a/include/wordring/whatwg/encoding/coder.hpp
+++ b/include/wordring/whatwg/encoding/coder.hpp
@@ -1421,7 +1421,7 @@ namespace wordring::whatwg::encoding
 				if (0xDC00u <= code_unit && code_unit <= 0xDFFFu)
 					return result_code_point{ 0x10000u + ((lead_surrogate - 0xD800u) << 10) + (code_unit - 0xDC00u) };
 				// 5.2.
-				std::uint8_t byte1 = code_unit > 8;
+				std::uint8_t byte1 = code_unit >> 8;
 				// 5.3.
 				std::uint8_t byte2 = code_unit & 0x00FF;
 				// 5.4.
-- 
2.43.0


From 7e66957c88df27770cefb81cfebf740644077309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:21 +0000
Subject: [PATCH 022/103] fix: ISO-2022-JP encoder never terminates on an
 unmappable code point

Only the jis0208 state switches to ASCII before reporting the error.
---
 include/wordring/whatwg/encoding/coder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/encoding/coder.hpp b/include/wordring/whatwg/encoding/coder.hpp
index ecd2f52..6980d94 100644
--- a/include/wordring/whatwg/encoding/coder.hpp
+++ b/include/wordring/whatwg/encoding/coder.hpp
@@ -1101,7 +1101,7 @@ namespace wordring::whatwg::encoding
 			// 11.
 			if (!pointer.has_value())
 			{
-				if (ISO_2022_JP_encoder_state != state::jis0208)
+				if (ISO_2022_JP_encoder_state == state::jis0208)
 				{
 					in.prepend(cp);
 					ISO_2022_JP_encoder_state = state::ASCII;
-- 
2.43.0


From 750fd3cde0c8313460fbe1c1584331d2a7fbf7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:22 +0000
Subject: [PATCH 023/103] fix: ISO-2022-JP decoder asserts when input ends
 inside an escape sequence

---
 include/wordring/whatwg/encoding/coder.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/wordring/whatwg/encoding/coder.hpp b/include/wordring/whatwg/encoding/coder.hpp
index 6980d94..94fbb2d 100644
--- a/include/wordring/whatwg/encoding/coder.hpp
+++ b/include/wordring/whatwg/encoding/coder.hpp
@@ -992,11 +992,16 @@ namespace wordring::whatwg::encoding
 				break;
 			case state::Escape:
 			{
-				// state::Escape になるときは必ずbyteがprependされている。
-				assert(!item.m_eoq);
-				byte = static_cast<std::uint8_t>(item.m_value);
 				std::uint8_t lead = ISO_2022_JP_lead;
 				ISO_2022_JP_lead = 0;
+				if (item.m_eoq)
+				{
+					in.prepend(lead);
+					ISO_2022_JP_output_flag = false;
+					ISO_2022_JP_decoder_state = ISO_2022_JP_decoder_output_state;
+					return result_error{};
+				}
+				byte = static_cast<std::uint8_t>(item.m_value);
 				std::optional<state> st{};
 				if (lead == 0x28u && byte == 0x42u) st = state::ASCII;
 				else if (lead == 0x28u && byte == 0x4Au) st = state::Roman;
-- 
2.43.0


From 441cff31660bc9f35c25f06a5bdeceb19841e3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:22 +0000
Subject: [PATCH 024/103] fix: gb18030 ranges lookup fails beyond the last
 range start

Every supplementary code point except U+10000 lies in the last range, where
lower_bound() returns the end of the table.
---
 include/wordring/whatwg/encoding/coder.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/wordring/whatwg/encoding/coder.hpp b/include/wordring/whatwg/encoding/coder.hpp
index 94fbb2d..af55d53 100644
--- a/include/wordring/whatwg/encoding/coder.hpp
+++ b/include/wordring/whatwg/encoding/coder.hpp
@@ -42,15 +42,15 @@ namespace wordring::whatwg::encoding
 		// 2.
 		if (pointer == 7457u) return std::make_optional<std::uint32_t>(0xE7C7u);
 		// 3.
-		std::multimap<std::uint32_t, std::uint32_t>::const_iterator it = index_code_point_gb18030_ranges.lower_bound(pointer);
+		std::multimap<std::uint32_t, std::uint32_t>::const_iterator it = index_code_point_gb18030_ranges.upper_bound(pointer);
 		// 表引きできなかった時のための追加コード
-		if (it == index_code_point_gb18030_ranges.cend())
+		if (it == index_code_point_gb18030_ranges.cbegin())
 		{
 			assert(false);
 			return std::optional<std::uint32_t>{};
 		}
 
-		if (it->first != pointer) --it;
+		--it;
 		std::uint32_t offset = it->first;
 		std::uint32_t code_point_offset = it->second;
 		// 4.
@@ -68,15 +68,15 @@ namespace wordring::whatwg::encoding
 		if (code_point == 0xE7C7u) return std::make_optional<std::uint32_t>(7457u); // これは間違いではない
 
 		// 2.
-		std::multimap<std::uint32_t, std::uint32_t>::const_iterator it = index_pointer_gb18030_ranges.lower_bound(code_point);
+		std::multimap<std::uint32_t, std::uint32_t>::const_iterator it = index_pointer_gb18030_ranges.upper_bound(code_point);
 		// 表引きできなかった時のための追加コード
-		if (it == index_pointer_gb18030_ranges.cend())
+		if (it == index_pointer_gb18030_ranges.cbegin())
 		{
 			assert(false);
 			return std::optional<std::uint32_t>{};
 		}
 
-		if (it->first != code_point) --it;
+		--it;
 		std::uint32_t offset = it->first;
 		std::uint32_t pointer_offset = it->second;
 
-- 
2.43.0


From 2f1ba0d91090294dc2a3f296417d169f6ac4f51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:10 +0000
Subject: [PATCH 025/103] fix: gb18030 pointer of U+10000 was truncated to 16
 bits

The generator stored pointers as uint16_t, so that every supplementary code
point was encoded as a BMP code point.
---
 generator/whatwg/encoding/index_table.cpp | 2 +-
 lib/whatwg/encoding/indexes_pointer.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/whatwg/encoding/index_table.cpp b/generator/whatwg/encoding/index_table.cpp
index 1a0cb41..ffb5867 100644
--- a/generator/whatwg/encoding/index_table.cpp
+++ b/generator/whatwg/encoding/index_table.cpp
@@ -28,7 +28,7 @@ struct range
 struct pointer
 {
 	std::string name;
-	std::multimap<uint32_t, uint16_t> data;
+	std::multimap<uint32_t, uint32_t> data;
 };
 
 int main()
diff --git a/lib/whatwg/encoding/indexes_pointer.cpp b/lib/whatwg/encoding/indexes_pointer.cpp
index 6a39414..93aa847 100644
--- a/lib/whatwg/encoding/indexes_pointer.cpp
+++ b/lib/whatwg/encoding/indexes_pointer.cpp
@@ -101,7 +101,7 @@ std::vector<uint16_t> const wordring::whatwg::encoding::index_pointer_windows_12
 std::vector<uint32_t> const wordring::whatwg::encoding::index_pointer_x_mac_cyrillic_0 { 160u, 163u, 167u, 169u, 171u, 172u, 174u, 176u, 177u, 181u, 182u, 187u, 247u, 402u, 1025u, 1026u, 1027u, 1028u, 1029u, 1030u, 1031u, 1032u, 1033u, 1034u, 1035u, 1036u, 1038u, 1039u, 1040u, 1041u, 1042u, 1043u, 1044u, 1045u, 1046u, 1047u, 1048u, 1049u, 1050u, 1051u, 1052u, 1053u, 1054u, 1055u, 1056u, 1057u, 1058u, 1059u, 1060u, 1061u, 1062u, 1063u, 1064u, 1065u, 1066u, 1067u, 1068u, 1069u, 1070u, 1071u, 1072u, 1073u, 1074u, 1075u, 1076u, 1077u, 1078u, 1079u, 1080u, 1081u, 1082u, 1083u, 1084u, 1085u, 1086u, 1087u, 1088u, 1089u, 1090u, 1091u, 1092u, 1093u, 1094u, 1095u, 1096u, 1097u, 1098u, 1099u, 1100u, 1101u, 1102u, 1103u, 1105u, 1106u, 1107u, 1108u, 1109u, 1110u, 1111u, 1112u, 1113u, 1114u, 1115u, 1116u, 1118u, 1119u, 1168u, 1169u, 8211u, 8212u, 8216u, 8217u, 8220u, 8221u, 8222u, 8224u, 8226u, 8230u, 8364u, 8470u, 8482u, 8710u, 8730u, 8734u, 8776u, 8800u, 8804u, 8805u, };
 std::vector<uint16_t> const wordring::whatwg::encoding::index_pointer_x_mac_cyrillic_1 { 74u, 35u, 36u, 41u, 71u, 66u, 40u, 33u, 49u, 53u, 38u, 72u, 86u, 68u, 93u, 43u, 46u, 56u, 65u, 39u, 58u, 55u, 60u, 62u, 75u, 77u, 88u, 90u, 0u, 1u, 2u, 3u, 4u, 5u, 6u, 7u, 8u, 9u, 10u, 11u, 12u, 13u, 14u, 15u, 16u, 17u, 18u, 19u, 20u, 21u, 22u, 23u, 24u, 25u, 26u, 27u, 28u, 29u, 30u, 31u, 96u, 97u, 98u, 99u, 100u, 101u, 102u, 103u, 104u, 105u, 106u, 107u, 108u, 109u, 110u, 111u, 112u, 113u, 114u, 115u, 116u, 117u, 118u, 119u, 120u, 121u, 122u, 123u, 124u, 125u, 126u, 95u, 94u, 44u, 47u, 57u, 79u, 52u, 59u, 64u, 61u, 63u, 76u, 78u, 89u, 91u, 34u, 54u, 80u, 81u, 84u, 85u, 82u, 83u, 87u, 32u, 37u, 73u, 127u, 92u, 42u, 70u, 67u, 48u, 69u, 45u, 50u, 51u, };
 
-std::multimap<uint32_t, uint32_t> const wordring::whatwg::encoding::index_pointer_gb18030_ranges {{ { 128u, 0u }, { 165u, 36u }, { 169u, 38u }, { 178u, 45u }, { 184u, 50u }, { 216u, 81u }, { 226u, 89u }, { 235u, 95u }, { 238u, 96u }, { 244u, 100u }, { 248u, 103u }, { 251u, 104u }, { 253u, 105u }, { 258u, 109u }, { 276u, 126u }, { 284u, 133u }, { 300u, 148u }, { 325u, 172u }, { 329u, 175u }, { 334u, 179u }, { 364u, 208u }, { 463u, 306u }, { 465u, 307u }, { 467u, 308u }, { 469u, 309u }, { 471u, 310u }, { 473u, 311u }, { 475u, 312u }, { 477u, 313u }, { 506u, 341u }, { 594u, 428u }, { 610u, 443u }, { 712u, 544u }, { 716u, 545u }, { 730u, 558u }, { 930u, 741u }, { 938u, 742u }, { 962u, 749u }, { 970u, 750u }, { 1026u, 805u }, { 1104u, 819u }, { 1106u, 820u }, { 8209u, 7922u }, { 8215u, 7924u }, { 8218u, 7925u }, { 8222u, 7927u }, { 8231u, 7934u }, { 8241u, 7943u }, { 8244u, 7944u }, { 8246u, 7945u }, { 8252u, 7950u }, { 8365u, 8062u }, { 8452u, 8148u }, { 8454u, 8149u }, { 8458u, 8152u }, { 8471u, 8164u }, { 8482u, 8174u }, { 8556u, 8236u }, { 8570u, 8240u }, { 8596u, 8262u }, { 8602u, 8264u }, { 8713u, 8374u }, { 8720u, 8380u }, { 8722u, 8381u }, { 8726u, 8384u }, { 8731u, 8388u }, { 8737u, 8390u }, { 8740u, 8392u }, { 8742u, 8393u }, { 8748u, 8394u }, { 8751u, 8396u }, { 8760u, 8401u }, { 8766u, 8406u }, { 8777u, 8416u }, { 8781u, 8419u }, { 8787u, 8424u }, { 8802u, 8437u }, { 8808u, 8439u }, { 8816u, 8445u }, { 8854u, 8482u }, { 8858u, 8485u }, { 8870u, 8496u }, { 8896u, 8521u }, { 8979u, 8603u }, { 9322u, 8936u }, { 9372u, 8946u }, { 9548u, 9046u }, { 9588u, 9050u }, { 9616u, 9063u }, { 9622u, 9066u }, { 9634u, 9076u }, { 9652u, 9092u }, { 9662u, 9100u }, { 9672u, 9108u }, { 9676u, 9111u }, { 9680u, 9113u }, { 9702u, 9131u }, { 9735u, 9162u }, { 9738u, 9164u }, { 9793u, 9218u }, { 9795u, 9219u }, { 11906u, 11329u }, { 11909u, 11331u }, { 11913u, 11334u }, { 11917u, 11336u }, { 11928u, 11346u }, { 11944u, 11361u }, { 11947u, 11363u }, { 11951u, 11366u }, { 11956u, 11370u }, { 11960u, 11372u }, { 11964u, 11375u }, { 11979u, 11389u }, { 12284u, 11682u }, { 12292u, 11686u }, { 12312u, 11687u }, { 12319u, 11692u }, { 12330u, 11694u }, { 12351u, 11714u }, { 12436u, 11716u }, { 12447u, 11723u }, { 12535u, 11725u }, { 12543u, 11730u }, { 12586u, 11736u }, { 12842u, 11982u }, { 12850u, 11989u }, { 12964u, 12102u }, { 13200u, 12336u }, { 13215u, 12348u }, { 13218u, 12350u }, { 13253u, 12384u }, { 13263u, 12393u }, { 13267u, 12395u }, { 13270u, 12397u }, { 13384u, 12510u }, { 13428u, 12553u }, { 13727u, 12851u }, { 13839u, 12962u }, { 13851u, 12973u }, { 14617u, 13738u }, { 14703u, 13823u }, { 14801u, 13919u }, { 14816u, 13933u }, { 14964u, 14080u }, { 15183u, 14298u }, { 15471u, 14585u }, { 15585u, 14698u }, { 16471u, 15583u }, { 16736u, 15847u }, { 17208u, 16318u }, { 17325u, 16434u }, { 17330u, 16438u }, { 17374u, 16481u }, { 17623u, 16729u }, { 17997u, 17102u }, { 18018u, 17122u }, { 18212u, 17315u }, { 18218u, 17320u }, { 18301u, 17402u }, { 18318u, 17418u }, { 18760u, 17859u }, { 18811u, 17909u }, { 18814u, 17911u }, { 18820u, 17915u }, { 18823u, 17916u }, { 18844u, 17936u }, { 18848u, 17939u }, { 18872u, 17961u }, { 19576u, 18664u }, { 19620u, 18703u }, { 19738u, 18814u }, { 19887u, 18962u }, { 40870u, 19043u }, { 59244u, 33469u }, { 59336u, 33470u }, { 59367u, 33471u }, { 59413u, 33484u }, { 59417u, 33485u }, { 59423u, 33490u }, { 59431u, 33497u }, { 59437u, 33501u }, { 59443u, 33505u }, { 59452u, 33513u }, { 59460u, 33520u }, { 59478u, 33536u }, { 59493u, 33550u }, { 63789u, 37845u }, { 63866u, 37921u }, { 63894u, 37948u }, { 63976u, 38029u }, { 63986u, 38038u }, { 64016u, 38064u }, { 64018u, 38065u }, { 64021u, 38066u }, { 64025u, 38069u }, { 64034u, 38075u }, { 64037u, 38076u }, { 64042u, 38078u }, { 65074u, 39108u }, { 65093u, 39109u }, { 65107u, 39113u }, { 65112u, 39114u }, { 65127u, 39115u }, { 65132u, 39116u }, { 65375u, 39265u }, { 65510u, 39394u }, { 65536u, 57928u },  }};
+std::multimap<uint32_t, uint32_t> const wordring::whatwg::encoding::index_pointer_gb18030_ranges {{ { 128u, 0u }, { 165u, 36u }, { 169u, 38u }, { 178u, 45u }, { 184u, 50u }, { 216u, 81u }, { 226u, 89u }, { 235u, 95u }, { 238u, 96u }, { 244u, 100u }, { 248u, 103u }, { 251u, 104u }, { 253u, 105u }, { 258u, 109u }, { 276u, 126u }, { 284u, 133u }, { 300u, 148u }, { 325u, 172u }, { 329u, 175u }, { 334u, 179u }, { 364u, 208u }, { 463u, 306u }, { 465u, 307u }, { 467u, 308u }, { 469u, 309u }, { 471u, 310u }, { 473u, 311u }, { 475u, 312u }, { 477u, 313u }, { 506u, 341u }, { 594u, 428u }, { 610u, 443u }, { 712u, 544u }, { 716u, 545u }, { 730u, 558u }, { 930u, 741u }, { 938u, 742u }, { 962u, 749u }, { 970u, 750u }, { 1026u, 805u }, { 1104u, 819u }, { 1106u, 820u }, { 8209u, 7922u }, { 8215u, 7924u }, { 8218u, 7925u }, { 8222u, 7927u }, { 8231u, 7934u }, { 8241u, 7943u }, { 8244u, 7944u }, { 8246u, 7945u }, { 8252u, 7950u }, { 8365u, 8062u }, { 8452u, 8148u }, { 8454u, 8149u }, { 8458u, 8152u }, { 8471u, 8164u }, { 8482u, 8174u }, { 8556u, 8236u }, { 8570u, 8240u }, { 8596u, 8262u }, { 8602u, 8264u }, { 8713u, 8374u }, { 8720u, 8380u }, { 8722u, 8381u }, { 8726u, 8384u }, { 8731u, 8388u }, { 8737u, 8390u }, { 8740u, 8392u }, { 8742u, 8393u }, { 8748u, 8394u }, { 8751u, 8396u }, { 8760u, 8401u }, { 8766u, 8406u }, { 8777u, 8416u }, { 8781u, 8419u }, { 8787u, 8424u }, { 8802u, 8437u }, { 8808u, 8439u }, { 8816u, 8445u }, { 8854u, 8482u }, { 8858u, 8485u }, { 8870u, 8496u }, { 8896u, 8521u }, { 8979u, 8603u }, { 9322u, 8936u }, { 9372u, 8946u }, { 9548u, 9046u }, { 9588u, 9050u }, { 9616u, 9063u }, { 9622u, 9066u }, { 9634u, 9076u }, { 9652u, 9092u }, { 9662u, 9100u }, { 9672u, 9108u }, { 9676u, 9111u }, { 9680u, 9113u }, { 9702u, 9131u }, { 9735u, 9162u }, { 9738u, 9164u }, { 9793u, 9218u }, { 9795u, 9219u }, { 11906u, 11329u }, { 11909u, 11331u }, { 11913u, 11334u }, { 11917u, 11336u }, { 11928u, 11346u }, { 11944u, 11361u }, { 11947u, 11363u }, { 11951u, 11366u }, { 11956u, 11370u }, { 11960u, 11372u }, { 11964u, 11375u }, { 11979u, 11389u }, { 12284u, 11682u }, { 12292u, 11686u }, { 12312u, 11687u }, { 12319u, 11692u }, { 12330u, 11694u }, { 12351u, 11714u }, { 12436u, 11716u }, { 12447u, 11723u }, { 12535u, 11725u }, { 12543u, 11730u }, { 12586u, 11736u }, { 12842u, 11982u }, { 12850u, 11989u }, { 12964u, 12102u }, { 13200u, 12336u }, { 13215u, 12348u }, { 13218u, 12350u }, { 13253u, 12384u }, { 13263u, 12393u }, { 13267u, 12395u }, { 13270u, 12397u }, { 13384u, 12510u }, { 13428u, 12553u }, { 13727u, 12851u }, { 13839u, 12962u }, { 13851u, 12973u }, { 14617u, 13738u }, { 14703u, 13823u }, { 14801u, 13919u }, { 14816u, 13933u }, { 14964u, 14080u }, { 15183u, 14298u }, { 15471u, 14585u }, { 15585u, 14698u }, { 16471u, 15583u }, { 16736u, 15847u }, { 17208u, 16318u }, { 17325u, 16434u }, { 17330u, 16438u }, { 17374u, 16481u }, { 17623u, 16729u }, { 17997u, 17102u }, { 18018u, 17122u }, { 18212u, 17315u }, { 18218u, 17320u }, { 18301u, 17402u }, { 18318u, 17418u }, { 18760u, 17859u }, { 18811u, 17909u }, { 18814u, 17911u }, { 18820u, 17915u }, { 18823u, 17916u }, { 18844u, 17936u }, { 18848u, 17939u }, { 18872u, 17961u }, { 19576u, 18664u }, { 19620u, 18703u }, { 19738u, 18814u }, { 19887u, 18962u }, { 40870u, 19043u }, { 59244u, 33469u }, { 59336u, 33470u }, { 59367u, 33471u }, { 59413u, 33484u }, { 59417u, 33485u }, { 59423u, 33490u }, { 59431u, 33497u }, { 59437u, 33501u }, { 59443u, 33505u }, { 59452u, 33513u }, { 59460u, 33520u }, { 59478u, 33536u }, { 59493u, 33550u }, { 63789u, 37845u }, { 63866u, 37921u }, { 63894u, 37948u }, { 63976u, 38029u }, { 63986u, 38038u }, { 64016u, 38064u }, { 64018u, 38065u }, { 64021u, 38066u }, { 64025u, 38069u }, { 64034u, 38075u }, { 64037u, 38076u }, { 64042u, 38078u }, { 65074u, 39108u }, { 65093u, 39109u }, { 65107u, 39113u }, { 65112u, 39114u }, { 65127u, 39115u }, { 65132u, 39116u }, { 65375u, 39265u }, { 65510u, 39394u }, { 65536u, 189000u },  }};
 
 std::vector<uint32_t> const wordring::whatwg::encoding::index_pointer_Shift_JIS_0 { 167u, 168u, 176u, 177u, 180u, 182u, 215u, 247u, 913u, 914u, 915u, 916u, 917u, 918u, 919u, 920u, 921u, 922u, 923u, 924u, 925u, 926u, 927u, 928u, 929u, 931u, 932u, 933u, 934u, 935u, 936u, 937u, 945u, 946u, 947u, 948u, 949u, 950u, 951u, 952u, 953u, 954u, 955u, 956u, 957u, 958u, 959u, 960u, 961u, 963u, 964u, 965u, 966u, 967u, 968u, 969u, 1025u, 1040u, 1041u, 1042u, 1043u, 1044u, 1045u, 1046u, 1047u, 1048u, 1049u, 1050u, 1051u, 1052u, 1053u, 1054u, 1055u, 1056u, 1057u, 1058u, 1059u, 1060u, 1061u, 1062u, 1063u, 1064u, 1065u, 1066u, 1067u, 1068u, 1069u, 1070u, 1071u, 1072u, 1073u, 1074u, 1075u, 1076u, 1077u, 1078u, 1079u, 1080u, 1081u, 1082u, 1083u, 1084u, 1085u, 1086u, 1087u, 1088u, 1089u, 1090u, 1091u, 1092u, 1093u, 1094u, 1095u, 1096u, 1097u, 1098u, 1099u, 1100u, 1101u, 1102u, 1103u, 1105u, 8208u, 8213u, 8216u, 8217u, 8220u, 8221u, 8224u, 8225u, 8229u, 8230u, 8240u, 8242u, 8243u, 8251u, 8451u, 8470u, 8481u, 8491u, 8544u, 8545u, 8546u, 8547u, 8548u, 8549u, 8550u, 8551u, 8552u, 8553u, 8560u, 8561u, 8562u, 8563u, 8564u, 8565u, 8566u, 8567u, 8568u, 8569u, 8592u, 8593u, 8594u, 8595u, 8658u, 8660u, 8704u, 8706u, 8707u, 8711u, 8712u, 8715u, 8721u, 8730u, 8733u, 8734u, 8735u, 8736u, 8741u, 8743u, 8744u, 8745u, 8746u, 8747u, 8748u, 8750u, 8756u, 8757u, 8765u, 8786u, 8800u, 8801u, 8806u, 8807u, 8810u, 8811u, 8834u, 8835u, 8838u, 8839u, 8869u, 8895u, 8978u, 9312u, 9313u, 9314u, 9315u, 9316u, 9317u, 9318u, 9319u, 9320u, 9321u, 9322u, 9323u, 9324u, 9325u, 9326u, 9327u, 9328u, 9329u, 9330u, 9331u, 9472u, 9473u, 9474u, 9475u, 9484u, 9487u, 9488u, 9491u, 9492u, 9495u, 9496u, 9499u, 9500u, 9501u, 9504u, 9507u, 9508u, 9509u, 9512u, 9515u, 9516u, 9519u, 9520u, 9523u, 9524u, 9527u, 9528u, 9531u, 9532u, 9535u, 9538u, 9547u, 9632u, 9633u, 9650u, 9651u, 9660u, 9661u, 9670u, 9671u, 9675u, 9678u, 9679u, 9711u, 9733u, 9734u, 9792u, 9794u, 9834u, 9837u, 9839u, 12288u, 12289u, 12290u, 12291u, 12293u, 12294u, 12295u, 12296u, 12297u, 12298u, 12299u, 12300u, 12301u, 12302u, 12303u, 12304u, 12305u, 12306u, 12307u, 12308u, 12309u, 12317u, 12319u, 12353u, 12354u, 12355u, 12356u, 12357u, 12358u, 12359u, 12360u, 12361u, 12362u, 12363u, 12364u, 12365u, 12366u, 12367u, 12368u, 12369u, 12370u, 12371u, 12372u, 12373u, 12374u, 12375u, 12376u, 12377u, 12378u, 12379u, 12380u, 12381u, 12382u, 12383u, 12384u, 12385u, 12386u, 12387u, 12388u, 12389u, 12390u, 12391u, 12392u, 12393u, 12394u, 12395u, 12396u, 12397u, 12398u, 12399u, 12400u, 12401u, 12402u, 12403u, 12404u, 12405u, 12406u, 12407u, 12408u, 12409u, 12410u, 12411u, 12412u, 12413u, 12414u, 12415u, 12416u, 12417u, 12418u, 12419u, 12420u, 12421u, 12422u, 12423u, 12424u, 12425u, 12426u, 12427u, 12428u, 12429u, 12430u, 12431u, 12432u, 12433u, 12434u, 12435u, 12443u, 12444u, 12445u, 12446u, 12449u, 12450u, 12451u, 12452u, 12453u, 12454u, 12455u, 12456u, 12457u, 12458u, 12459u, 12460u, 12461u, 12462u, 12463u, 12464u, 12465u, 12466u, 12467u, 12468u, 12469u, 12470u, 12471u, 12472u, 12473u, 12474u, 12475u, 12476u, 12477u, 12478u, 12479u, 12480u, 12481u, 12482u, 12483u, 12484u, 12485u, 12486u, 12487u, 12488u, 12489u, 12490u, 12491u, 12492u, 12493u, 12494u, 12495u, 12496u, 12497u, 12498u, 12499u, 12500u, 12501u, 12502u, 12503u, 12504u, 12505u, 12506u, 12507u, 12508u, 12509u, 12510u, 12511u, 12512u, 12513u, 12514u, 12515u, 12516u, 12517u, 12518u, 12519u, 12520u, 12521u, 12522u, 12523u, 12524u, 12525u, 12526u, 12527u, 12528u, 12529u, 12530u, 12531u, 12532u, 12533u, 12534u, 12539u, 12540u, 12541u, 12542u, 12849u, 12850u, 12857u, 12964u, 12965u, 12966u, 12967u, 12968u, 13059u, 13069u, 13076u, 13080u, 13090u, 13091u, 13094u, 13095u, 13099u, 13110u, 13115u, 13129u, 13130u, 13133u, 13137u, 13143u, 13179u, 13180u, 13181u, 13182u, 13198u, 13199u, 13212u, 13213u, 13214u, 13217u, 13252u, 13261u, 19968u, 19969u, 19971u, 19975u, 19976u, 19977u, 19978u, 19979u, 19981u, 19982u, 19984u, 19985u, 19988u, 19989u, 19990u, 19991u, 19992u, 19993u, 19998u, 20001u, 20006u, 20008u, 20010u, 20013u, 20017u, 20018u, 20022u, 20024u, 20025u, 20027u, 20028u, 20031u, 20034u, 20035u, 20037u, 20043u, 20045u, 20046u, 20047u, 20053u, 20054u, 20055u, 20056u, 20057u, 20061u, 20062u, 20063u, 20066u, 20081u, 20083u, 20094u, 20096u, 20098u, 20101u, 20102u, 20104u, 20105u, 20106u, 20107u, 20108u, 20110u, 20113u, 20114u, 20116u, 20117u, 20120u, 20121u, 20123u, 20124u, 20126u, 20127u, 20128u, 20129u, 20130u, 20132u, 20133u, 20134u, 20136u, 20139u, 20140u, 20141u, 20142u, 20144u, 20147u, 20150u, 20154u, 20160u, 20161u, 20162u, 20164u, 20166u, 20167u, 20170u, 20171u, 20173u, 20174u, 20175u, 20180u, 20181u, 20182u, 20183u, 20184u, 20185u, 20189u, 20190u, 20191u, 20193u, 20195u, 20196u, 20197u, 20205u, 20206u, 20208u, 20210u, 20214u, 20215u, 20219u, 20220u, 20224u, 20225u, 20227u, 20233u, 20234u, 20237u, 20238u, 20239u, 20240u, 20241u, 20250u, 20252u, 20253u, 20271u, 20272u, 20276u, 20278u, 20280u, 20281u, 20282u, 20284u, 20285u, 20291u, 20294u, 20295u, 20301u, 20302u, 20303u, 20304u, 20305u, 20307u, 20309u, 20310u, 20311u, 20313u, 20314u, 20315u, 20316u, 20317u, 20318u, 20329u, 20335u, 20336u, 20339u, 20341u, 20342u, 20347u, 20348u, 20351u, 20355u, 20358u, 20360u, 20362u, 20363u, 20365u, 20367u, 20369u, 20370u, 20372u, 20374u, 20376u, 20378u, 20379u, 20381u, 20384u, 20385u, 20395u, 20397u, 20398u, 20399u, 20405u, 20406u, 20415u, 20418u, 20419u, 20420u, 20425u, 20426u, 20429u, 20430u, 20432u, 20433u, 20436u, 20439u, 20440u, 20442u, 20443u, 20445u, 20447u, 20449u, 20451u, 20452u, 20453u, 20462u, 20463u, 20467u, 20469u, 20470u, 20472u, 20474u, 20478u, 20479u, 20485u, 20486u, 20489u, 20491u, 20493u, 20495u, 20497u, 20498u, 20500u, 20502u, 20505u, 20506u, 20510u, 20511u, 20513u, 20514u, 20515u, 20516u, 20517u, 20518u, 20520u, 20521u, 20522u, 20523u, 20524u, 20525u, 20534u, 20537u, 20544u, 20546u, 20547u, 20550u, 20551u, 20552u, 20553u, 20559u, 20560u, 20565u, 20566u, 20570u, 20572u, 20581u, 20588u, 20592u, 20594u, 20596u, 20597u, 20598u, 20600u, 20605u, 20608u, 20613u, 20621u, 20625u, 20628u, 20632u, 20633u, 20634u, 20652u, 20653u, 20658u, 20659u, 20660u, 20661u, 20663u, 20670u, 20674u, 20677u, 20681u, 20682u, 20685u, 20687u, 20689u, 20693u, 20694u, 20696u, 20698u, 20702u, 20707u, 20709u, 20711u, 20717u, 20718u, 20724u, 20725u, 20729u, 20731u, 20736u, 20737u, 20738u, 20740u, 20745u, 20754u, 20756u, 20757u, 20758u, 20760u, 20762u, 20767u, 20769u, 20778u, 20786u, 20791u, 20794u, 20795u, 20796u, 20799u, 20800u, 20801u, 20803u, 20804u, 20805u, 20806u, 20807u, 20808u, 20809u, 20810u, 20811u, 20812u, 20813u, 20814u, 20816u, 20818u, 20820u, 20826u, 20828u, 20834u, 20836u, 20837u, 20840u, 20841u, 20842u, 20843u, 20844u, 20845u, 20846u, 20849u, 20853u, 20854u, 20855u, 20856u, 20860u, 20864u, 20866u, 20869u, 20870u, 20873u, 20874u, 20876u, 20877u, 20879u, 20880u, 20881u, 20882u, 20883u, 20885u, 20886u, 20887u, 20889u, 20893u, 20896u, 20898u, 20900u, 20901u, 20902u, 20904u, 20905u, 20906u, 20907u, 20908u, 20912u, 20913u, 20914u, 20915u, 20916u, 20917u, 20918u, 20919u, 20925u, 20926u, 20932u, 20933u, 20934u, 20937u, 20939u, 20940u, 20941u, 20950u, 20955u, 20956u, 20957u, 20960u, 20961u, 20966u, 20967u, 20969u, 20970u, 20972u, 20973u, 20976u, 20977u, 20981u, 20982u, 20984u, 20985u, 20986u, 20989u, 20990u, 20992u, 20995u, 20996u, 20998u, 20999u, 21000u, 21002u, 21003u, 21006u, 21009u, 21012u, 21013u, 21015u, 21021u, 21028u, 21029u, 21031u, 21033u, 21034u, 21038u, 21040u, 21043u, 21046u, 21047u, 21048u, 21049u, 21050u, 21051u, 21059u, 21060u, 21063u, 21066u, 21067u, 21068u, 21069u, 21071u, 21076u, 21078u, 21083u, 21086u, 21091u, 21092u, 21093u, 21097u, 21098u, 21103u, 21104u, 21105u, 21106u, 21107u, 21108u, 21109u, 21117u, 21119u, 21123u, 21127u, 21128u, 21129u, 21133u, 21137u, 21138u, 21140u, 21147u, 21148u, 21151u, 21152u, 21155u, 21158u, 21161u, 21162u, 21163u, 21164u, 21165u, 21167u, 21169u, 21172u, 21173u, 21177u, 21180u, 21182u, 21184u, 21185u, 21187u, 21189u, 21191u, 21193u, 21197u, 21202u, 21205u, 21207u, 21208u, 21209u, 21211u, 21213u, 21214u, 21215u, 21216u, 21218u, 21219u, 21220u, 21222u, 21223u, 21234u, 21235u, 21237u, 21240u, 21241u, 21242u, 21246u, 21247u, 21248u, 21249u, 21250u, 21253u, 21254u, 21255u, 21256u, 21261u, 21263u, 21264u, 21269u, 21270u, 21271u, 21273u, 21274u, 21277u, 21280u, 21281u, 21283u, 21284u, 21290u, 21295u, 21297u, 21299u, 21304u, 21305u, 21306u, 21307u, 21311u, 21312u, 21313u, 21315u, 21317u, 21318u, 21319u, 21320u, 21321u, 21322u, 21325u, 21329u, 21330u, 21331u, 21332u, 21335u, 21336u, 21338u, 21340u, 21342u, 21344u, 21350u, 21353u, 21358u, 21359u, 21360u, 21361u, 21362u, 21363u, 21364u, 21365u, 21367u, 21368u, 21371u, 21375u, 21378u, 21380u, 21395u, 21398u, 21400u, 21402u, 21407u, 21408u, 21413u, 21414u, 21416u, 21417u, 21421u, 21422u, 21424u, 21426u, 21427u, 21430u, 21435u, 21442u, 21443u, 21448u, 21449u, 21450u, 21451u, 21452u, 21453u, 21454u, 21460u, 21462u, 21463u, 21465u, 21467u, 21469u, 21471u, 21473u, 21474u, 21475u, 21476u, 21477u, 21480u, 21481u, 21482u, 21483u, 21484u, 21485u, 21486u, 21487u, 21488u, 21489u, 21490u, 21491u, 21494u, 21495u, 21496u, 21498u, 21505u, 21507u, 21508u, 21512u, 21513u, 21514u, 21515u, 21516u, 21517u, 21518u, 21519u, 21520u, 21521u, 21531u, 21533u, 21535u, 21536u, 21542u, 21545u, 21547u, 21548u, 21549u, 21550u, 21558u, 21560u, 21561u, 21563u, 21564u, 21565u, 21566u, 21568u, 21570u, 21574u, 21576u, 21577u, 21578u, 21582u, 21585u, 21599u, 21608u, 21610u, 21616u, 21617u, 21619u, 21621u, 21622u, 21623u, 21627u, 21628u, 21629u, 21632u, 21636u, 21638u, 21642u, 21643u, 21644u, 21646u, 21647u, 21648u, 21650u, 21660u, 21666u, 21668u, 21669u, 21672u, 21673u, 21675u, 21676u, 21679u, 21682u, 21683u, 21688u, 21692u, 21693u, 21694u, 21696u, 21697u, 21698u, 21700u, 21703u, 21704u, 21705u, 21720u, 21729u, 21730u, 21733u, 21734u, 21736u, 21737u, 21741u, 21742u, 21746u, 21754u, 21757u, 21759u, 21764u, 21766u, 21767u, 21775u, 21776u, 21780u, 21782u, 21806u, 21807u, 21809u, 21811u, 21816u, 21817u, 21822u, 21824u, 21828u, 21829u, 21830u, 21836u, 21839u, 21843u, 21846u, 21847u, 21852u, 21853u, 21859u, 21883u, 21884u, 21886u, 21888u, 21891u, 21892u, 21894u, 21895u, 21897u, 21898u, 21899u, 21912u, 21913u, 21914u, 21916u, 21917u, 21918u, 21919u, 21927u, 21928u, 21929u, 21930u, 21931u, 21932u, 21934u, 21936u, 21942u, 21956u, 21957u, 21959u, 21972u, 21978u, 21980u, 21983u, 21987u, 21988u, 22007u, 22009u, 22013u, 22014u, 22022u, 22025u, 22036u, 22038u, 22039u, 22040u, 22043u, 22057u, 22063u, 22065u, 22066u, 22068u, 22070u, 22072u, 22082u, 22092u, 22094u, 22096u, 22107u, 22116u, 22120u, 22122u, 22123u, 22124u, 22132u, 22136u, 22138u, 22144u, 22150u, 22151u, 22154u, 22159u, 22164u, 22176u, 22178u, 22181u, 22190u, 22196u, 22198u, 22204u, 22208u, 22209u, 22210u, 22211u, 22216u, 22222u, 22225u, 22227u, 22231u, 22232u, 22234u, 22235u, 22238u, 22240u, 22243u, 22254u, 22256u, 22258u, 22259u, 22265u, 22266u, 22269u, 22271u, 22272u, 22275u, 22276u, 22280u, 22281u, 22283u, 22285u, 22287u, 22290u, 22291u, 22294u, 22296u, 22300u, 22303u, 22310u, 22311u, 22312u, 22317u, 22320u, 22327u, 22328u, 22331u, 22336u, 22338u, 22343u, 22346u, 22350u, 22351u, 22352u, 22353u, 22361u, 22369u, 22372u, 22373u, 22374u, 22377u, 22378u, 22399u, 22402u, 22408u, 22409u, 22411u, 22419u, 22432u, 22434u, 22435u, 22436u, 22442u, 22444u, 22448u, 22451u, 22464u, 22467u, 22470u, 22471u, 22472u, 22475u, 22478u, 22482u, 22483u, 22484u, 22486u, 22492u, 22495u, 22496u, 22499u, 22516u, 22519u, 22521u, 22522u, 22524u, 22528u, 22530u, 22533u, 22534u, 22538u, 22539u, 22549u, 22553u, 22557u, 22561u, 22564u, 22570u, 22575u, 22576u, 22577u, 22580u, 22581u, 22586u, 22589u, 22592u, 22593u, 22602u, 22603u, 22609u, 22610u, 22612u, 22615u, 22616u, 22617u, 22618u, 22622u, 22626u, 22633u, 22635u, 22640u, 22642u, 22645u, 22649u, 22654u, 22659u, 22661u, 22675u, 22679u, 22684u, 22686u, 22687u, 22696u, 22699u, 22702u, 22706u, 22707u, 22712u, 22713u, 22714u, 22715u, 22718u, 22721u, 22725u, 22727u, 22730u, 22732u, 22737u, 22739u, 22741u, 22743u, 22744u, 22745u, 22748u, 22750u, 22751u, 22756u, 22757u, 22763u, 22764u, 22766u, 22767u, 22768u, 22769u, 22770u, 22775u, 22777u, 22778u, 22779u, 22780u, 22781u, 22786u, 22793u, 22794u, 22795u, 22799u, 22800u, 22805u, 22806u, 22808u, 22809u, 22810u, 22811u, 22812u, 22818u, 22821u, 22823u, 22825u, 22826u, 22827u, 22828u, 22829u, 22830u, 22833u, 22834u, 22839u, 22840u, 22846u, 22852u, 22855u, 22856u, 22857u, 22862u, 22863u, 22864u, 22865u, 22867u, 22868u, 22869u, 22871u, 22872u, 22874u, 22875u, 22877u, 22880u, 22882u, 22883u, 22885u, 22887u, 22888u, 22889u, 22890u, 22892u, 22894u, 22899u, 22900u, 22904u, 22909u, 22913u, 22914u, 22915u, 22916u, 22922u, 22925u, 22931u, 22934u, 22937u, 22939u, 22941u, 22947u, 22948u, 22949u, 22952u, 22956u, 22962u, 22969u, 22970u, 22971u, 22974u, 22982u, 22985u, 22987u, 22992u, 22993u, 22995u, 22996u, 23001u, 23002u, 23004u, 23013u, 23014u, 23016u, 23018u, 23019u, 23030u, 23035u, 23039u, 23041u, 23043u, 23049u, 23057u, 23064u, 23066u, 23068u, 23071u, 23072u, 23077u, 23081u, 23087u, 23093u, 23094u, 23100u, 23104u, 23105u, 23110u, 23113u, 23130u, 23138u, 23142u, 23146u, 23148u, 23167u, 23186u, 23194u, 23195u, 23228u, 23229u, 23230u, 23233u, 23234u, 23241u, 23243u, 23244u, 23248u, 23254u, 23255u, 23265u, 23267u, 23270u, 23273u, 23290u, 23291u, 23305u, 23307u, 23308u, 23318u, 23330u, 23338u, 23340u, 23344u, 23346u, 23350u, 23358u, 23360u, 23363u, 23365u, 23376u, 23377u, 23380u, 23381u, 23382u, 23383u, 23384u, 23386u, 23387u, 23388u, 23389u, 23391u, 23395u, 23396u, 23397u, 23398u, 23401u, 23403u, 23408u, 23409u, 23411u, 23413u, 23416u, 23418u, 23424u, 23427u, 23429u, 23431u, 23432u, 23433u, 23435u, 23436u, 23437u, 23439u, 23445u, 23447u, 23448u, 23449u, 23450u, 23451u, 23452u, 23453u, 23455u, 23458u, 23459u, 23460u, 23461u, 23462u, 23470u, 23472u, 23475u, 23476u, 23477u, 23478u, 23480u, 23481u, 23487u, 23488u, 23490u, 23491u, 23492u, 23493u, 23494u, 23495u, 23497u, 23500u, 23504u, 23506u, 23507u, 23508u, 23512u, 23515u, 23517u, 23518u, 23519u, 23521u, 23522u, 23524u, 23525u, 23526u, 23527u, 23528u, 23529u, 23531u, 23532u, 23534u, 23536u, 23539u, 23541u, 23542u, 23544u, 23546u, 23550u, 23551u, 23553u, 23554u, 23556u, 23557u, 23558u, 23559u, 23560u, 23561u, 23562u, 23563u, 23565u, 23566u, 23567u, 23569u, 23571u, 23574u, 23578u, 23582u, 23584u, 23586u, 23588u, 23592u, 23597u, 23601u, 23608u, 23609u, 23610u, 23611u, 23612u, 23613u, 23614u, 23615u, 23616u, 23617u, 23621u, 23622u, 23624u, 23626u, 23627u, 23629u, 23630u, 23631u, 23632u, 23633u, 23635u, 23637u, 23646u, 23648u, 23649u, 23652u, 23653u, 23660u, 23662u, 23663u, 23665u, 23670u, 23673u, 23692u, 23696u, 23697u, 23700u, 23713u, 23718u, 23720u, 23721u, 23723u, 23724u, 23729u, 23731u, 23734u, 23735u, 23736u, 23738u, 23739u, 23740u, 23742u, 23749u, 23751u, 23769u, 23776u, 23777u, 23784u, 23785u, 23786u, 23789u, 23791u, 23792u, 23797u, 23798u, 23802u, 23803u, 23805u, 23815u, 23819u, 23822u, 23825u, 23828u, 23829u, 23830u, 23831u, 23832u, 23833u, 23834u, 23835u, 23839u, 23842u, 23847u, 23849u, 23874u, 23883u, 23884u, 23886u, 23888u, 23890u, 23891u, 23900u, 23913u, 23916u, 23917u, 23919u, 23923u, 23926u, 23938u, 23940u, 23943u, 23947u, 23948u, 23952u, 23965u, 23970u, 23980u, 23982u, 23991u, 23992u, 23993u, 23994u, 23996u, 23997u, 24009u, 24012u, 24013u, 24016u, 24018u, 24019u, 24022u, 24027u, 24029u, 24030u, 24033u, 24035u, 24037u, 24038u, 24039u, 24040u, 24043u, 24046u, 24049u, 24050u, 24051u, 24052u, 24053u, 24055u, 24059u, 24061u, 24062u, 24066u, 24067u, 24070u, 24075u, 24076u, 24081u, 24086u, 24089u, 24090u, 24091u, 24093u, 24101u, 24107u, 24109u, 24111u, 24112u, 24115u, 24118u, 24119u, 24120u, 24125u, 24128u, 24131u, 24132u, 24133u, 24135u, 24140u, 24142u, 24148u, 24149u, 24151u, 24159u, 24161u, 24162u, 24163u, 24164u, 24178u, 24179u, 24180u, 24181u, 24182u, 24184u, 24185u, 24186u, 24187u, 24188u, 24189u, 24190u, 24191u, 24193u, 24195u, 24196u, 24199u, 24202u, 24207u, 24213u, 24214u, 24215u, 24218u, 24220u, 24224u, 24230u, 24231u, 24235u, 24237u, 24245u, 24246u, 24247u, 24248u, 24257u, 24258u, 24259u, 24264u, 24265u, 24266u, 24271u, 24272u, 24275u, 24278u, 24282u, 24283u, 24285u, 24287u, 24288u, 24289u, 24290u, 24291u, 24296u, 24297u, 24300u, 24304u, 24305u, 24307u, 24308u, 24310u, 24311u, 24312u, 24314u, 24315u, 24316u, 24318u, 24319u, 24321u, 24323u, 24324u, 24329u, 24330u, 24331u, 24332u, 24333u, 24335u, 24336u, 24337u, 24339u, 24340u, 24341u, 24342u, 24343u, 24344u, 24347u, 24351u, 24353u, 24357u, 24358u, 24359u, 24361u, 24365u, 24367u, 24369u, 24372u, 24373u, 24375u, 24376u, 24380u, 24382u, 24385u, 24389u, 24392u, 24394u, 24396u, 24398u, 24401u, 24403u, 24406u, 24407u, 24409u, 24412u, 24413u, 24417u, 24418u, 24422u, 24423u, 24425u, 24426u, 24427u, 24428u, 24429u, 24432u, 24433u, 24435u, 24439u, 24441u, 24444u, 24447u, 24448u, 24449u, 24450u, 24451u, 24452u, 24453u, 24455u, 24456u, 24458u, 24459u, 24460u, 24464u, 24465u, 24466u, 24467u, 24471u, 24472u, 24473u, 24478u, 24480u, 24481u, 24488u, 24489u, 24490u, 24493u, 24494u, 24499u, 24500u, 24503u, 24505u, 24508u, 24509u, 24515u, 24517u, 24524u, 24525u, 24534u, 24535u, 24536u, 24537u, 24540u, 24541u, 24542u, 24544u, 24548u, 24555u, 24560u, 24561u, 24565u, 24568u, 24571u, 24573u, 24575u, 24590u, 24591u, 24592u, 24594u, 24597u, 24598u, 24601u, 24603u, 24604u, 24605u, 24608u, 24609u, 24613u, 24614u, 24615u, 24616u, 24617u, 24618u, 24619u, 24623u, 24625u, 24634u, 24641u, 24642u, 24643u, 24646u, 24650u, 24651u, 24653u, 24656u, 24658u, 24661u, 24665u, 24666u, 24669u, 24671u, 24672u, 24674u, 24675u, 24676u, 24677u, 24680u, 24681u, 24682u, 24683u, 24684u, 24685u, 24687u, 24688u, 24693u, 24695u, 24705u, 24707u, 24708u, 24709u, 24713u, 24714u, 24715u, 24716u, 24717u, 24722u, 24724u, 24726u, 24727u, 24730u, 24731u, 24735u, 24736u, 24739u, 24742u, 24743u, 24745u, 24746u, 24754u, 24755u, 24756u, 24757u, 24758u, 24760u, 24764u, 24765u, 24773u, 24774u, 24775u, 24785u, 24787u, 24789u, 24792u, 24794u, 24796u, 24798u, 24799u, 24800u, 24801u, 24803u, 24807u, 24808u, 24816u, 24817u, 24818u, 24819u, 24820u, 24822u, 24823u, 24825u, 24826u, 24827u, 24832u, 24833u, 24835u, 24838u, 24840u, 24841u, 24845u, 24846u, 24847u, 24849u, 24853u, 24858u, 24859u, 24863u, 24864u, 24865u, 24871u, 24872u, 24876u, 24880u, 24884u, 24887u, 24892u, 24893u, 24894u, 24895u, 24898u, 24900u, 24903u, 24904u, 24906u, 24907u, 24908u, 24909u, 24910u, 24915u, 24917u, 24920u, 24921u, 24922u, 24925u, 24927u, 24930u, 24931u, 24933u, 24935u, 24936u, 24939u, 24942u, 24943u, 24944u, 24945u, 24947u, 24948u, 24949u, 24950u, 24951u, 24958u, 24962u, 24967u, 24970u, 24974u, 24976u, 24977u, 24980u, 24982u, 24984u, 24985u, 24986u, 24996u, 24999u, 25001u, 25003u, 25004u, 25006u, 25010u, 25014u, 25018u, 25022u, 25027u, 25030u, 25031u, 25032u, 25033u, 25034u, 25035u, 25036u, 25037u, 25040u, 25059u, 25062u, 25074u, 25076u, 25078u, 25079u, 25080u, 25082u, 25084u, 25085u, 25086u, 25087u, 25088u, 25096u, 25097u, 25098u, 25100u, 25101u, 25102u, 25104u, 25105u, 25106u, 25107u, 25108u, 25110u, 25114u, 25115u, 25117u, 25118u, 25119u, 25121u, 25126u, 25130u, 25134u, 25135u, 25136u, 25138u, 25139u, 25140u, 25144u, 25147u, 25151u, 25152u, 25153u, 25159u, 25160u, 25161u, 25163u, 25165u, 25166u, 25171u, 25173u, 25176u, 25179u, 25182u, 25184u, 25187u, 25192u, 25198u, 25201u, 25206u, 25209u, 25212u, 25214u, 25215u, 25216u, 25218u, 25219u, 25220u, 25225u, 25226u, 25233u, 25234u, 25235u, 25236u, 25237u, 25238u, 25239u, 25240u, 25243u, 25244u, 25246u, 25254u, 25259u, 25260u, 25265u, 25269u, 25273u, 25275u, 25276u, 25277u, 25282u, 25285u, 25286u, 25287u, 25288u, 25289u, 25290u, 25292u, 25293u, 25295u, 25296u, 25297u, 25298u, 25299u, 25300u, 25303u, 25304u, 25305u, 25307u, 25308u, 25309u, 25312u, 25313u, 25324u, 25325u, 25326u, 25327u, 25329u, 25331u, 25333u, 25334u, 25335u, 25342u, 25343u, 25345u, 25346u, 25351u, 25352u, 25353u, 25356u, 25361u, 25369u, 25375u, 25383u, 25384u, 25387u, 25391u, 25402u, 25405u, 25406u, 25407u, 25417u, 25420u, 25421u, 25423u, 25424u, 25429u, 25431u, 25436u, 25447u, 25448u, 25449u, 25451u, 25454u, 25458u, 25462u, 25463u, 25466u, 25467u, 25472u, 25475u, 25480u, 25481u, 25484u, 25486u, 25487u, 25490u, 25494u, 25496u, 25499u, 25503u, 25504u, 25505u, 25506u, 25507u, 25509u, 25511u, 25512u, 25513u, 25514u, 25515u, 25516u, 25522u, 25524u, 25525u, 25531u, 25534u, 25536u, 25539u, 25540u, 25542u, 25545u, 25551u, 25552u, 25554u, 25558u, 25562u, 25563u, 25569u, 25571u, 25577u, 25582u, 25588u, 25589u, 25590u, 25594u, 25606u, 25613u, 25615u, 25619u, 25622u, 25623u, 25628u, 25638u, 25640u, 25644u, 25645u, 25652u, 25654u, 25658u, 25662u, 25666u, 25678u, 25688u, 25696u, 25703u, 25705u, 25711u, 25718u, 25720u, 25722u, 25731u, 25736u, 25746u, 25747u, 25749u, 25754u, 25757u, 25758u, 25764u, 25765u, 25769u, 25771u, 25773u, 25774u, 25776u, 25778u, 25785u, 25787u, 25788u, 25793u, 25794u, 25797u, 25799u, 25805u, 25806u, 25810u, 25812u, 25816u, 25818u, 25824u, 25825u, 25826u, 25827u, 25830u, 25831u, 25836u, 25839u, 25841u, 25842u, 25844u, 25846u, 25850u, 25853u, 25854u, 25856u, 25861u, 25880u, 25884u, 25885u, 25891u, 25892u, 25898u, 25899u, 25900u, 25903u, 25908u, 25909u, 25910u, 25911u, 25912u, 25913u, 25915u, 25918u, 25919u, 25925u, 25928u, 25933u, 25934u, 25935u, 25937u, 25941u, 25942u, 25943u, 25944u, 25945u, 25949u, 25950u, 25954u, 25955u, 25958u, 25964u, 25968u, 25970u, 25972u, 25973u, 25975u, 25976u, 25986u, 25987u, 25991u, 25992u, 25993u, 25996u, 25998u, 26000u, 26001u, 26007u, 26009u, 26011u, 26012u, 26015u, 26017u, 26020u, 26021u, 26023u, 26027u, 26028u, 26029u, 26031u, 26032u, 26039u, 26041u, 26044u, 26045u, 26049u, 26051u, 26052u, 26053u, 26054u, 26059u, 26060u, 26063u, 26066u, 26071u, 26073u, 26075u, 26080u, 26081u, 26082u, 26085u, 26086u, 26087u, 26088u, 26089u, 26092u, 26093u, 26097u, 26106u, 26107u, 26112u, 26114u, 26115u, 26118u, 26119u, 26121u, 26122u, 26124u, 26126u, 26127u, 26131u, 26132u, 26133u, 26140u, 26142u, 26143u, 26144u, 26148u, 26149u, 26151u, 26152u, 26157u, 26158u, 26159u, 26161u, 26164u, 26165u, 26166u, 26171u, 26172u, 26175u, 26177u, 26178u, 26179u, 26180u, 26185u, 26187u, 26191u, 26194u, 26199u, 26201u, 26205u, 26206u, 26207u, 26210u, 26212u, 26213u, 26214u, 26215u, 26216u, 26217u, 26222u, 26223u, 26224u, 26227u, 26228u, 26230u, 26234u, 26241u, 26243u, 26244u, 26247u, 26248u, 26249u, 26254u, 26257u, 26262u, 26263u, 26264u, 26265u, 26269u, 26272u, 26274u, 26278u, 26283u, 26286u, 26290u, 26292u, 26296u, 26297u, 26300u, 26302u, 26303u, 26305u, 26308u, 26311u, 26313u, 26326u, 26329u, 26330u, 26332u, 26333u, 26336u, 26342u, 26345u, 26352u, 26354u, 26355u, 26356u, 26357u, 26359u, 26360u, 26361u, 26362u, 26363u, 26364u, 26365u, 26366u, 26367u, 26368u, 26371u, 26376u, 26377u, 26379u, 26381u, 26382u, 26383u, 26388u, 26389u, 26390u, 26391u, 26395u, 26397u, 26398u, 26399u, 26406u, 26407u, 26408u, 26410u, 26411u, 26412u, 26413u, 26414u, 26417u, 26420u, 26422u, 26423u, 26424u, 26426u, 26429u, 26431u, 26433u, 26438u, 26441u, 26446u, 26447u, 26448u, 26449u, 26451u, 26454u, 26457u, 26460u, 26462u, 26463u, 26464u, 26465u, 26466u, 26467u, 26468u, 26469u, 26470u, 26474u, 26477u, 26479u, 26480u, 26481u, 26482u, 26483u, 26485u, 26487u, 26492u, 26494u, 26495u, 26501u, 26503u, 26505u, 26507u, 26508u, 26512u, 26517u, 26519u, 26522u, 26524u, 26525u, 26528u, 26529u, 26530u, 26534u, 26537u, 26543u, 26547u, 26548u, 26550u, 26551u, 26552u, 26553u, 26555u, 26560u, 26561u, 26564u, 26566u, 26570u, 26574u, 26575u, 26576u, 26577u, 26579u, 26580u, 26584u, 26586u, 26589u, 26590u, 26594u, 26596u, 26599u, 26601u, 26604u, 26606u, 26607u, 26609u, 26611u, 26612u, 26613u, 26619u, 26622u, 26623u, 26625u, 26626u, 26627u, 26628u, 26643u, 26646u, 26647u, 26654u, 26657u, 26658u, 26665u, 26666u, 26667u, 26674u, 26676u, 26680u, 26681u, 26684u, 26685u, 26688u, 26689u, 26690u, 26691u, 26692u, 26694u, 26696u, 26701u, 26702u, 26704u, 26705u, 26706u, 26707u, 26708u, 26713u, 26716u, 26717u, 26719u, 26723u, 26727u, 26740u, 26742u, 26743u, 26750u, 26751u, 26753u, 26755u, 26757u, 26765u, 26767u, 26771u, 26772u, 26775u, 26779u, 26781u, 26783u, 26784u, 26786u, 26790u, 26791u, 26792u, 26797u, 26799u, 26800u, 26801u, 26803u, 26805u, 26806u, 26809u, 26810u, 26812u, 26820u, 26822u, 26824u, 26825u, 26826u, 26827u, 26829u, 26831u, 26834u, 26836u, 26837u, 26839u, 26840u, 26842u, 26847u, 26848u, 26849u, 26851u, 26855u, 26862u, 26863u, 26866u, 26873u, 26874u, 26880u, 26881u, 26884u, 26885u, 26888u, 26891u, 26892u, 26893u, 26894u, 26895u, 26898u, 26905u, 26906u, 26907u, 26908u, 26913u, 26914u, 26915u, 26917u, 26918u, 26920u, 26922u, 26928u, 26932u, 26934u, 26937u, 26941u, 26943u, 26954u, 26963u, 26964u, 26965u, 26969u, 26970u, 26972u, 26973u, 26974u, 26976u, 26977u, 26978u, 26984u, 26986u, 26987u, 26989u, 26990u, 26991u, 26995u, 26996u, 26997u, 26999u, 27000u, 27001u, 27004u, 27005u, 27006u, 27009u, 27010u, 27018u, 27022u, 27025u, 27028u, 27029u, 27032u, 27035u, 27036u, 27040u, 27047u, 27054u, 27057u, 27058u, 27060u, 27067u, 27070u, 27071u, 27073u, 27075u, 27079u, 27082u, 27083u, 27084u, 27085u, 27086u, 27088u, 27091u, 27096u, 27097u, 27101u, 27102u, 27106u, 27111u, 27112u, 27115u, 27117u, 27122u, 27129u, 27131u, 27133u, 27135u, 27138u, 27141u, 27146u, 27147u, 27148u, 27154u, 27155u, 27156u, 27159u, 27161u, 27163u, 27166u, 27167u, 27169u, 27170u, 27171u, 27177u, 27178u, 27179u, 27182u, 27184u, 27189u, 27190u, 27192u, 27193u, 27194u, 27197u, 27204u, 27206u, 27207u, 27208u, 27211u, 27224u, 27225u, 27231u, 27233u, 27234u, 27238u, 27243u, 27250u, 27251u, 27256u, 27262u, 27263u, 27264u, 27268u, 27277u, 27278u, 27280u, 27287u, 27292u, 27296u, 27298u, 27299u, 27306u, 27308u, 27310u, 27315u, 27320u, 27323u, 27329u, 27330u, 27331u, 27345u, 27347u, 27354u, 27355u, 27358u, 27359u, 27362u, 27364u, 27368u, 27370u, 27386u, 27387u, 27396u, 27397u, 27402u, 27410u, 27414u, 27421u, 27423u, 27424u, 27425u, 27427u, 27431u, 27442u, 27447u, 27448u, 27449u, 27450u, 27453u, 27454u, 27459u, 27463u, 27465u, 27468u, 27470u, 27472u, 27475u, 27476u, 27481u, 27483u, 27487u, 27489u, 27490u, 27491u, 27492u, 27494u, 27497u, 27498u, 27503u, 27507u, 27508u, 27512u, 27513u, 27515u, 27519u, 27520u, 27523u, 27524u, 27526u, 27529u, 27530u, 27531u, 27533u, 27541u, 27542u, 27544u, 27550u, 27556u, 27562u, 27563u, 27567u, 27569u, 27570u, 27571u, 27572u, 27573u, 27575u, 27578u, 27579u, 27580u, 27583u, 27584u, 27589u, 27590u, 27595u, 27597u, 27598u, 27602u, 27603u, 27604u, 27606u, 27608u, 27611u, 27615u, 27627u, 27628u, 27631u, 27635u, 27656u, 27663u, 27665u, 27667u, 27668u, 27671u, 27675u, 27683u, 27684u, 27700u, 27703u, 27704u, 27710u, 27711u, 27712u, 27713u, 27714u, 27726u, 27728u, 27733u, 27735u, 27738u, 27740u, 27741u, 27742u, 27743u, 27744u, 27746u, 27752u, 27754u, 27759u, 27760u, 27762u, 27763u, 27770u, 27773u, 27774u, 27777u, 27778u, 27779u, 27782u, 27784u, 27788u, 27789u, 27792u, 27794u, 27795u, 27798u, 27801u, 27802u, 27803u, 27809u, 27810u, 27819u, 27822u, 27825u, 27827u, 27832u, 27833u, 27834u, 27835u, 27836u, 27837u, 27838u, 27839u, 27841u, 27844u, 27845u, 27849u, 27850u, 27852u, 27859u, 27861u, 27863u, 27865u, 27866u, 27867u, 27869u, 27873u, 27874u, 27875u, 27877u, 27880u, 27882u, 27887u, 27888u, 27889u, 27891u, 27908u, 27915u, 27916u, 27922u, 27927u, 27929u, 27931u, 27934u, 27935u, 27941u, 27945u, 27946u, 27947u, 27954u, 27955u, 27957u, 27958u, 27960u, 27963u, 27965u, 27966u, 27969u, 27972u, 27973u, 27993u, 27994u, 27996u, 28003u, 28004u, 28006u, 28009u, 28010u, 28012u, 28014u, 28015u, 28020u, 28023u, 28024u, 28025u, 28037u, 28039u, 28040u, 28044u, 28046u, 28051u, 28053u, 28054u, 28057u, 28059u, 28060u, 28076u, 28079u, 28082u, 28085u, 28088u, 28092u, 28096u, 28101u, 28102u, 28103u, 28107u, 28108u, 28111u, 28113u, 28114u, 28117u, 28120u, 28121u, 28126u, 28129u, 28132u, 28134u, 28136u, 28138u, 28139u, 28140u, 28142u, 28145u, 28146u, 28147u, 28149u, 28151u, 28152u, 28153u, 28154u, 28155u, 28156u, 28165u, 28167u, 28168u, 28169u, 28170u, 28171u, 28179u, 28181u, 28185u, 28186u, 28187u, 28189u, 28191u, 28192u, 28193u, 28195u, 28196u, 28197u, 28198u, 28199u, 28201u, 28203u, 28204u, 28205u, 28206u, 28207u, 28216u, 28217u, 28218u, 28220u, 28222u, 28227u, 28234u, 28237u, 28238u, 28246u, 28248u, 28251u, 28252u, 28255u, 28263u, 28267u, 28270u, 28271u, 28274u, 28278u, 28286u, 28287u, 28288u, 28290u, 28300u, 28303u, 28304u, 28310u, 28312u, 28316u, 28317u, 28319u, 28322u, 28325u, 28330u, 28335u, 28338u, 28342u, 28343u, 28346u, 28349u, 28351u, 28354u, 28356u, 28357u, 28361u, 28363u, 28364u, 28369u, 28371u, 28372u, 28373u, 28381u, 28382u, 28396u, 28399u, 28402u, 28404u, 28407u, 28408u, 28414u, 28415u, 28417u, 28418u, 28422u, 28425u, 28431u, 28433u, 28435u, 28436u, 28437u, 28448u, 28450u, 28451u, 28459u, 28460u, 28465u, 28466u, 28472u, 28478u, 28479u, 28481u, 28485u, 28500u, 28504u, 28507u, 28508u, 28511u, 28516u, 28518u, 28525u, 28526u, 28527u, 28528u, 28532u, 28536u, 28538u, 28540u, 28544u, 28545u, 28546u, 28548u, 28550u, 28552u, 28558u, 28561u, 28567u, 28577u, 28579u, 28580u, 28586u, 28593u, 28595u, 28597u, 28601u, 28608u, 28609u, 28610u, 28611u, 28614u, 28628u, 28629u, 28632u, 28635u, 28639u, 28640u, 28641u, 28644u, 28651u, 28652u, 28654u, 28655u, 28657u, 28659u, 28661u, 28662u, 28666u, 28670u, 28673u, 28677u, 28679u, 28681u, 28683u, 28687u, 28689u, 28693u, 28696u, 28698u, 28699u, 28701u, 28702u, 28703u, 28710u, 28711u, 28712u, 28716u, 28720u, 28722u, 28734u, 28748u, 28753u, 28760u, 28771u, 28779u, 28783u, 28784u, 28792u, 28796u, 28797u, 28805u, 28809u, 28810u, 28814u, 28818u, 28825u, 28843u, 28844u, 28845u, 28846u, 28847u, 28851u, 28856u, 28857u, 28858u, 28859u, 28872u, 28875u, 28879u, 28889u, 28893u, 28895u, 28913u, 28921u, 28925u, 28932u, 28937u, 28943u, 28948u, 28953u, 28954u, 28956u, 28961u, 28966u, 28982u, 28988u, 28998u, 28999u, 29001u, 29004u, 29006u, 29013u, 29014u, 29017u, 29020u, 29026u, 29028u, 29029u, 29030u, 29031u, 29033u, 29036u, 29038u, 29053u, 29060u, 29064u, 29066u, 29071u, 29076u, 29077u, 29081u, 29087u, 29096u, 29100u, 29105u, 29113u, 29118u, 29121u, 29123u, 29128u, 29129u, 29134u, 29136u, 29138u, 29140u, 29141u, 29143u, 29151u, 29152u, 29157u, 29158u, 29159u, 29164u, 29165u, 29166u, 29173u, 29177u, 29179u, 29180u, 29182u, 29183u, 29190u, 29197u, 29200u, 29211u, 29224u, 29226u, 29228u, 29229u, 29232u, 29234u, 29237u, 29238u, 29242u, 29243u, 29244u, 29245u, 29246u, 29247u, 29248u, 29254u, 29255u, 29256u, 29259u, 29260u, 29266u, 29272u, 29273u, 29275u, 29277u, 29279u, 29281u, 29282u, 29287u, 29289u, 29298u, 29300u, 29305u, 29309u, 29310u, 29312u, 29313u, 29314u, 29319u, 29330u, 29334u, 29344u, 29346u, 29351u, 29356u, 29359u, 29361u, 29362u, 29366u, 29369u, 29374u, 29378u, 29379u, 29380u, 29382u, 29390u, 29392u, 29394u, 29399u, 29401u, 29403u, 29408u, 29409u, 29410u, 29417u, 29420u, 29421u, 29431u, 29432u, 29433u, 29436u, 29437u, 29450u, 29462u, 29463u, 29467u, 29468u, 29469u, 29471u, 29476u, 29477u, 29481u, 29482u, 29483u, 29486u, 29487u, 29492u, 29494u, 29495u, 29502u, 29503u, 29508u, 29509u, 29518u, 29519u, 29527u, 29539u, 29544u, 29546u, 29552u, 29554u, 29557u, 29559u, 29560u, 29562u, 29563u, 29572u, 29575u, 29577u, 29579u, 29590u, 29609u, 29618u, 29619u, 29627u, 29629u, 29632u, 29634u, 29640u, 29641u, 29642u, 29645u, 29646u, 29650u, 29654u, 29662u, 29664u, 29667u, 29669u, 29674u, 29677u, 29678u, 29681u, 29685u, 29688u, 29694u, 29699u, 29701u, 29702u, 29703u, 29705u, 29730u, 29733u, 29734u, 29737u, 29738u, 29742u, 29746u, 29747u, 29748u, 29749u, 29750u, 29754u, 29759u, 29761u, 29781u, 29785u, 29786u, 29787u, 29788u, 29790u, 29791u, 29792u, 29794u, 29795u, 29796u, 29801u, 29802u, 29807u, 29808u, 29811u, 29814u, 29822u, 29827u, 29833u, 29835u, 29854u, 29855u, 29858u, 29863u, 29872u, 29885u, 29898u, 29903u, 29908u, 29916u, 29920u, 29922u, 29923u, 29926u, 29927u, 29929u, 29934u, 29936u, 29937u, 29938u, 29942u, 29943u, 29944u, 29953u, 29955u, 29956u, 29957u, 29964u, 29965u, 29966u, 29969u, 29971u, 29973u, 29976u, 29978u, 29980u, 29982u, 29983u, 29987u, 29989u, 29990u, 29992u, 29995u, 29996u, 29999u, 30000u, 30001u, 30002u, 30003u, 30007u, 30008u, 30010u, 30011u, 30012u, 30020u, 30022u, 30025u, 30026u, 30027u, 30028u, 30029u, 30031u, 30033u, 30036u, 30041u, 30042u, 30043u, 30044u, 30045u, 30048u, 30050u, 30052u, 30053u, 30054u, 30055u, 30057u, 30058u, 30059u, 30061u, 30063u, 30064u, 30067u, 30068u, 30070u, 30071u, 30072u, 30079u, 30082u, 30086u, 30087u, 30089u, 30090u, 30091u, 30094u, 30095u, 30097u, 30100u, 30106u, 30109u, 30115u, 30117u, 30123u, 30129u, 30130u, 30131u, 30133u, 30136u, 30137u, 30140u, 30141u, 30142u, 30146u, 30147u, 30149u, 30151u, 30154u, 30157u, 30162u, 30164u, 30165u, 30168u, 30169u, 30171u, 30174u, 30178u, 30179u, 30185u, 30192u, 30194u, 30195u, 30196u, 30202u, 30204u, 30206u, 30207u, 30209u, 30217u, 30219u, 30221u, 30239u, 30240u, 30241u, 30242u, 30244u, 30247u, 30256u, 30260u, 30267u, 30274u, 30278u, 30279u, 30280u, 30284u, 30290u, 30294u, 30296u, 30300u, 30305u, 30306u, 30311u, 30312u, 30313u, 30314u, 30316u, 30320u, 30322u, 30326u, 30328u, 30330u, 30331u, 30332u, 30333u, 30334u, 30336u, 30338u, 30339u, 30340u, 30342u, 30343u, 30344u, 30347u, 30350u, 30352u, 30355u, 30358u, 30361u, 30362u, 30363u, 30364u, 30366u, 30374u, 30382u, 30384u, 30388u, 30391u, 30392u, 30393u, 30394u, 30399u, 30402u, 30403u, 30406u, 30408u, 30410u, 30413u, 30418u, 30422u, 30423u, 30427u, 30428u, 30430u, 30431u, 30433u, 30435u, 30436u, 30437u, 30439u, 30442u, 30446u, 30450u, 30452u, 30456u, 30459u, 30462u, 30465u, 30468u, 30471u, 30472u, 30473u, 30475u, 30476u, 30491u, 30494u, 30495u, 30496u, 30500u, 30501u, 30502u, 30505u, 30519u, 30520u, 30522u, 30524u, 30528u, 30534u, 30535u, 30554u, 30555u, 30561u, 30563u, 30565u, 30566u, 30568u, 30571u, 30585u, 30590u, 30591u, 30603u, 30606u, 30609u, 30622u, 30624u, 30629u, 30636u, 30637u, 30640u, 30643u, 30646u, 30649u, 30651u, 30652u, 30653u, 30655u, 30663u, 30669u, 30679u, 30682u, 30683u, 30684u, 30690u, 30691u, 30693u, 30695u, 30697u, 30701u, 30702u, 30703u, 30707u, 30716u, 30722u, 30732u, 30738u, 30740u, 30741u, 30752u, 30753u, 30757u, 30758u, 30759u, 30770u, 30772u, 30778u, 30783u, 30789u, 30798u, 30813u, 30820u, 30827u, 30828u, 30831u, 30834u, 30836u, 30842u, 30844u, 30849u, 30854u, 30855u, 30860u, 30861u, 30862u, 30865u, 30867u, 30869u, 30871u, 30874u, 30883u, 30887u, 30889u, 30890u, 30895u, 30901u, 30906u, 30908u, 30910u, 30913u, 30917u, 30918u, 30922u, 30923u, 30928u, 30929u, 30932u, 30938u, 30951u, 30952u, 30956u, 30959u, 30964u, 30973u, 30977u, 30983u, 30990u, 30993u, 30994u, 31001u, 31014u, 31018u, 31019u, 31020u, 31024u, 31034u, 31036u, 31038u, 31040u, 31041u, 31047u, 31048u, 31049u, 31056u, 31059u, 31061u, 31062u, 31063u, 31066u, 31069u, 31070u, 31071u, 31072u, 31074u, 31077u, 31080u, 31085u, 31095u, 31098u, 31103u, 31104u, 31105u, 31108u, 31109u, 31114u, 31117u, 31118u, 31119u, 31124u, 31131u, 31133u, 31142u, 31143u, 31146u, 31150u, 31152u, 31155u, 31161u, 31162u, 31165u, 31166u, 31167u, 31168u, 31169u, 31177u, 31179u, 31185u, 31186u, 31189u, 31192u, 31199u, 31201u, 31203u, 31204u, 31206u, 31207u, 31209u, 31212u, 31216u, 31227u, 31232u, 31240u, 31243u, 31245u, 31246u, 31252u, 31255u, 31256u, 31257u, 31258u, 31260u, 31263u, 31264u, 31278u, 31281u, 31282u, 31287u, 31291u, 31292u, 31293u, 31294u, 31295u, 31296u, 31298u, 31299u, 31302u, 31305u, 31309u, 31310u, 31311u, 31312u, 31319u, 31329u, 31330u, 31331u, 31337u, 31339u, 31344u, 31348u, 31350u, 31353u, 31354u, 31357u, 31359u, 31361u, 31363u, 31364u, 31368u, 31378u, 31379u, 31381u, 31382u, 31383u, 31384u, 31391u, 31401u, 31402u, 31406u, 31407u, 31408u, 31414u, 31418u, 31423u, 31427u, 31428u, 31429u, 31431u, 31432u, 31434u, 31435u, 31437u, 31439u, 31441u, 31442u, 31443u, 31445u, 31449u, 31450u, 31452u, 31453u, 31455u, 31456u, 31457u, 31458u, 31459u, 31461u, 31462u, 31463u, 31466u, 31467u, 31469u, 31471u, 31472u, 31478u, 31480u, 31481u, 31482u, 31487u, 31490u, 31492u, 31494u, 31496u, 31498u, 31499u, 31503u, 31505u, 31512u, 31513u, 31515u, 31518u, 31520u, 31525u, 31526u, 31528u, 31532u, 31539u, 31541u, 31542u, 31545u, 31557u, 31558u, 31560u, 31561u, 31563u, 31564u, 31565u, 31567u, 31568u, 31569u, 31570u, 31572u, 31574u, 31581u, 31589u, 31591u, 31596u, 31598u, 31600u, 31601u, 31604u, 31605u, 31610u, 31622u, 31623u, 31627u, 31629u, 31631u, 31634u, 31636u, 31637u, 31639u, 31640u, 31641u, 31642u, 31644u, 31645u, 31646u, 31647u, 31649u, 31658u, 31661u, 31665u, 31668u, 31672u, 31680u, 31681u, 31684u, 31686u, 31687u, 31689u, 31691u, 31692u, 31695u, 31709u, 31712u, 31716u, 31717u, 31718u, 31721u, 31725u, 31731u, 31734u, 31735u, 31744u, 31751u, 31757u, 31761u, 31762u, 31763u, 31764u, 31767u, 31775u, 31777u, 31779u, 31783u, 31786u, 31787u, 31799u, 31800u, 31805u, 31806u, 31807u, 31808u, 31811u, 31820u, 31821u, 31823u, 31824u, 31828u, 31830u, 31832u, 31839u, 31840u, 31844u, 31845u, 31852u, 31859u, 31861u, 31870u, 31873u, 31874u, 31875u, 31881u, 31883u, 31885u, 31888u, 31890u, 31893u, 31895u, 31896u, 31899u, 31903u, 31905u, 31906u, 31908u, 31909u, 31911u, 31912u, 31915u, 31917u, 31918u, 31921u, 31922u, 31923u, 31929u, 31933u, 31934u, 31936u, 31938u, 31941u, 31946u, 31950u, 31954u, 31958u, 31960u, 31964u, 31966u, 31967u, 31968u, 31970u, 31975u, 31983u, 31986u, 31988u, 31990u, 31992u, 31994u, 31995u, 31998u, 32000u, 32002u, 32004u, 32005u, 32006u, 32010u, 32011u, 32013u, 32016u, 32020u, 32021u, 32023u, 32024u, 32025u, 32026u, 32027u, 32028u, 32032u, 32033u, 32034u, 32043u, 32044u, 32046u, 32047u, 32048u, 32050u, 32051u, 32053u, 32057u, 32058u, 32063u, 32066u, 32067u, 32068u, 32069u, 32070u, 32072u, 32075u, 32076u, 32078u, 32079u, 32080u, 32086u, 32091u, 32092u, 32094u, 32097u, 32098u, 32099u, 32102u, 32104u, 32110u, 32113u, 32114u, 32115u, 32117u, 32118u, 32121u, 32125u, 32137u, 32143u, 32147u, 32153u, 32154u, 32155u, 32156u, 32159u, 32160u, 32162u, 32163u, 32171u, 32172u, 32173u, 32174u, 32175u, 32176u, 32177u, 32178u, 32180u, 32181u, 32183u, 32184u, 32186u, 32187u, 32189u, 32190u, 32191u, 32199u, 32202u, 32203u, 32207u, 32209u, 32210u, 32213u, 32214u, 32216u, 32218u, 32220u, 32221u, 32222u, 32224u, 32225u, 32228u, 32232u, 32233u, 32236u, 32239u, 32242u, 32244u, 32251u, 32257u, 32260u, 32261u, 32265u, 32266u, 32267u, 32274u, 32283u, 32286u, 32287u, 32289u, 32290u, 32291u, 32294u, 32299u, 32302u, 32305u, 32306u, 32309u, 32311u, 32313u, 32314u, 32315u, 32317u, 32318u, 32321u, 32323u, 32326u, 32330u, 32331u, 32333u, 32338u, 32340u, 32341u, 32342u, 32345u, 32346u, 32349u, 32350u, 32358u, 32359u, 32361u, 32362u, 32365u, 32368u, 32377u, 32379u, 32380u, 32381u, 32383u, 32386u, 32387u, 32392u, 32393u, 32394u, 32396u, 32398u, 32399u, 32400u, 32402u, 32403u, 32404u, 32406u, 32411u, 32412u, 32566u, 32568u, 32570u, 32581u, 32583u, 32588u, 32589u, 32590u, 32592u, 32593u, 32596u, 32597u, 32600u, 32607u, 32608u, 32615u, 32616u, 32617u, 32618u, 32619u, 32622u, 32624u, 32626u, 32629u, 32631u, 32632u, 32633u, 32642u, 32643u, 32645u, 32646u, 32647u, 32648u, 32650u, 32652u, 32654u, 32660u, 32666u, 32669u, 32670u, 32673u, 32675u, 32676u, 32680u, 32681u, 32686u, 32687u, 32690u, 32694u, 32696u, 32697u, 32701u, 32705u, 32709u, 32710u, 32714u, 32716u, 32722u, 32724u, 32725u, 32736u, 32737u, 32742u, 32745u, 32747u, 32752u, 32755u, 32761u, 32763u, 32764u, 32768u, 32769u, 32771u, 32772u, 32773u, 32774u, 32779u, 32780u, 32784u, 32786u, 32789u, 32791u, 32792u, 32793u, 32796u, 32801u, 32808u, 32819u, 32822u, 32827u, 32829u, 32831u, 32838u, 32842u, 32850u, 32854u, 32856u, 32858u, 32862u, 32863u, 32865u, 32866u, 32872u, 32879u, 32880u, 32882u, 32883u, 32884u, 32886u, 32887u, 32889u, 32893u, 32894u, 32895u, 32900u, 32901u, 32902u, 32903u, 32905u, 32907u, 32908u, 32915u, 32918u, 32920u, 32922u, 32923u, 32925u, 32929u, 32930u, 32933u, 32937u, 32938u, 32940u, 32941u, 32943u, 32945u, 32946u, 32948u, 32954u, 32963u, 32964u, 32966u, 32972u, 32974u, 32982u, 32985u, 32986u, 32987u, 32989u, 32990u, 32993u, 32996u, 32997u, 33007u, 33009u, 33012u, 33016u, 33020u, 33021u, 33026u, 33029u, 33030u, 33031u, 33032u, 33033u, 33034u, 33050u, 33051u, 33059u, 33065u, 33071u, 33073u, 33075u, 33081u, 33086u, 33094u, 33099u, 33102u, 33104u, 33105u, 33107u, 33108u, 33109u, 33119u, 33125u, 33126u, 33131u, 33134u, 33136u, 33137u, 33140u, 33144u, 33145u, 33146u, 33151u, 33152u, 33154u, 33155u, 33160u, 33162u, 33167u, 33171u, 33173u, 33178u, 33180u, 33181u, 33184u, 33187u, 33188u, 33192u, 33193u, 33200u, 33203u, 33205u, 33208u, 33210u, 33213u, 33214u, 33215u, 33216u, 33218u, 33222u, 33224u, 33225u, 33229u, 33233u, 33235u, 33240u, 33241u, 33242u, 33247u, 33248u, 33251u, 33253u, 33255u, 33256u, 33258u, 33261u, 33267u, 33268u, 33274u, 33275u, 33276u, 33278u, 33281u, 33282u, 33285u, 33287u, 33288u, 33289u, 33290u, 33292u, 33293u, 33294u, 33296u, 33298u, 33302u, 33303u, 33304u, 33307u, 33308u, 33310u, 33311u, 33321u, 33322u, 33323u, 33324u, 33326u, 33331u, 33333u, 33334u, 33335u, 33336u, 33337u, 33344u, 33351u, 33368u, 33369u, 33370u, 33373u, 33375u, 33378u, 33380u, 33382u, 33384u, 33386u, 33387u, 33390u, 33391u, 33393u, 33394u, 33398u, 33399u, 33400u, 33406u, 33419u, 33421u, 33426u, 33433u, 33437u, 33439u, 33445u, 33446u, 33451u, 33452u, 33453u, 33455u, 33457u, 33459u, 33464u, 33465u, 33467u, 33469u, 33477u, 33489u, 33490u, 33491u, 33492u, 33495u, 33497u, 33499u, 33500u, 33502u, 33503u, 33505u, 33507u, 33509u, 33510u, 33511u, 33515u, 33521u, 33523u, 33524u, 33529u, 33530u, 33531u, 33537u, 33538u, 33539u, 33540u, 33541u, 33542u, 33545u, 33550u, 33558u, 33559u, 33560u, 33564u, 33571u, 33576u, 33579u, 33583u, 33585u, 33586u, 33588u, 33589u, 33590u, 33592u, 33593u, 33600u, 33605u, 33609u, 33610u, 33615u, 33616u, 33618u, 33624u, 33634u, 33651u, 33653u, 33655u, 33659u, 33660u, 33663u, 33669u, 33671u, 33673u, 33674u, 33678u, 33683u, 33686u, 33690u, 33694u, 33695u, 33696u, 33698u, 33704u, 33706u, 33707u, 33713u, 33717u, 33725u, 33729u, 33733u, 33735u, 33738u, 33740u, 33742u, 33747u, 33750u, 33752u, 33756u, 33759u, 33760u, 33769u, 33771u, 33775u, 33776u, 33777u, 33778u, 33780u, 33782u, 33783u, 33787u, 33789u, 33795u, 33796u, 33799u, 33803u, 33804u, 33805u, 33806u, 33811u, 33824u, 33826u, 33833u, 33834u, 33836u, 33841u, 33845u, 33848u, 33852u, 33853u, 33862u, 33864u, 33865u, 33870u, 33879u, 33883u, 33889u, 33890u, 33891u, 33894u, 33897u, 33899u, 33900u, 33901u, 33902u, 33903u, 33905u, 33909u, 33911u, 33913u, 33914u, 33922u, 33924u, 33931u, 33936u, 33940u, 33945u, 33948u, 33951u, 33953u, 33965u, 33970u, 33972u, 33976u, 33977u, 33979u, 33980u, 33983u, 33985u, 33988u, 33990u, 33993u, 33994u, 33995u, 33997u, 34000u, 34001u, 34006u, 34009u, 34010u, 34012u, 34028u, 34030u, 34036u, 34044u, 34047u, 34048u, 34054u, 34065u, 34067u, 34068u, 34069u, 34071u, 34072u, 34074u, 34079u, 34081u, 34086u, 34092u, 34093u, 34101u, 34109u, 34112u, 34113u, 34115u, 34120u, 34121u, 34122u, 34123u, 34126u, 34131u, 34133u, 34135u, 34136u, 34137u, 34138u, 34147u, 34152u, 34153u, 34154u, 34155u, 34157u, 34167u, 34174u, 34176u, 34180u, 34183u, 34184u, 34186u, 34192u, 34193u, 34196u, 34199u, 34201u, 34203u, 34204u, 34212u, 34214u, 34216u, 34217u, 34218u, 34219u, 34220u, 34222u, 34223u, 34224u, 34233u, 34234u, 34241u, 34249u, 34253u, 34255u, 34256u, 34261u, 34268u, 34269u, 34276u, 34277u, 34281u, 34282u, 34295u, 34297u, 34298u, 34299u, 34302u, 34306u, 34310u, 34311u, 34314u, 34315u, 34323u, 34326u, 34327u, 34330u, 34338u, 34349u, 34351u, 34352u, 34367u, 34381u, 34382u, 34384u, 34388u, 34389u, 34394u, 34396u, 34398u, 34399u, 34407u, 34411u, 34417u, 34425u, 34427u, 34442u, 34443u, 34444u, 34451u, 34453u, 34467u, 34468u, 34473u, 34474u, 34475u, 34479u, 34480u, 34486u, 34500u, 34502u, 34503u, 34505u, 34507u, 34509u, 34510u, 34516u, 34521u, 34523u, 34526u, 34527u, 34532u, 34537u, 34540u, 34541u, 34542u, 34543u, 34552u, 34553u, 34555u, 34558u, 34560u, 34562u, 34563u, 34566u, 34568u, 34569u, 34570u, 34573u, 34577u, 34578u, 34584u, 34586u, 34588u, 34597u, 34601u, 34612u, 34615u, 34619u, 34623u, 34633u, 34635u, 34636u, 34638u, 34643u, 34645u, 34647u, 34649u, 34655u, 34656u, 34659u, 34662u, 34664u, 34666u, 34670u, 34676u, 34678u, 34680u, 34687u, 34690u, 34701u, 34719u, 34722u, 34731u, 34735u, 34739u, 34746u, 34747u, 34749u, 34752u, 34756u, 34758u, 34759u, 34763u, 34768u, 34770u, 34784u, 34799u, 34802u, 34806u, 34807u, 34809u, 34811u, 34814u, 34821u, 34823u, 34829u, 34830u, 34831u, 34833u, 34837u, 34838u, 34849u, 34850u, 34851u, 34855u, 34865u, 34870u, 34873u, 34875u, 34880u, 34882u, 34884u, 34886u, 34892u, 34893u, 34898u, 34899u, 34903u, 34905u, 34907u, 34909u, 34910u, 34913u, 34914u, 34915u, 34920u, 34923u, 34928u, 34930u, 34933u, 34935u, 34941u, 34942u, 34943u, 34945u, 34946u, 34952u, 34955u, 34957u, 34962u, 34966u, 34967u, 34969u, 34974u, 34978u, 34980u, 34987u, 34990u, 34992u, 34993u, 34996u, 34997u, 34999u, 35007u, 35009u, 35010u, 35011u, 35012u, 35013u, 35023u, 35028u, 35029u, 35032u, 35033u, 35036u, 35037u, 35039u, 35041u, 35048u, 35058u, 35059u, 35060u, 35061u, 35064u, 35065u, 35068u, 35069u, 35070u, 35074u, 35076u, 35079u, 35082u, 35084u, 35088u, 35090u, 35091u, 35100u, 35101u, 35102u, 35109u, 35114u, 35115u, 35126u, 35128u, 35131u, 35137u, 35139u, 35140u, 35148u, 35149u, 35158u, 35166u, 35167u, 35168u, 35172u, 35174u, 35178u, 35181u, 35183u, 35186u, 35188u, 35191u, 35198u, 35199u, 35201u, 35203u, 35206u, 35207u, 35208u, 35210u, 35211u, 35215u, 35219u, 35222u, 35223u, 35224u, 35226u, 35233u, 35238u, 35239u, 35241u, 35242u, 35244u, 35247u, 35250u, 35251u, 35258u, 35261u, 35263u, 35264u, 35282u, 35290u, 35292u, 35293u, 35299u, 35302u, 35303u, 35316u, 35320u, 35328u, 35330u, 35331u, 35336u, 35338u, 35340u, 35342u, 35344u, 35346u, 35347u, 35350u, 35351u, 35352u, 35355u, 35357u, 35359u, 35363u, 35365u, 35370u, 35373u, 35377u, 35379u, 35380u, 35382u, 35383u, 35386u, 35387u, 35388u, 35393u, 35398u, 35400u, 35408u, 35409u, 35410u, 35412u, 35413u, 35419u, 35422u, 35424u, 35426u, 35427u, 35430u, 35433u, 35435u, 35436u, 35437u, 35438u, 35440u, 35441u, 35442u, 35443u, 35449u, 35452u, 35458u, 35460u, 35461u, 35463u, 35465u, 35468u, 35469u, 35473u, 35475u, 35477u, 35480u, 35482u, 35486u, 35488u, 35489u, 35491u, 35492u, 35493u, 35494u, 35495u, 35496u, 35500u, 35501u, 35504u, 35506u, 35513u, 35516u, 35518u, 35519u, 35522u, 35524u, 35527u, 35531u, 35532u, 35533u, 35535u, 35538u, 35542u, 35546u, 35547u, 35548u, 35550u, 35551u, 35552u, 35553u, 35554u, 35556u, 35558u, 35559u, 35563u, 35565u, 35566u, 35569u, 35571u, 35574u, 35575u, 35576u, 35578u, 35582u, 35584u, 35585u, 35586u, 35588u, 35591u, 35596u, 35598u, 35600u, 35604u, 35606u, 35607u, 35609u, 35610u, 35611u, 35613u, 35616u, 35617u, 35622u, 35624u, 35627u, 35628u, 35635u, 35641u, 35646u, 35649u, 35657u, 35660u, 35662u, 35663u, 35667u, 35670u, 35672u, 35674u, 35675u, 35676u, 35679u, 35686u, 35691u, 35692u, 35695u, 35696u, 35697u, 35698u, 35700u, 35703u, 35709u, 35711u, 35712u, 35715u, 35722u, 35724u, 35726u, 35728u, 35730u, 35731u, 35734u, 35737u, 35738u, 35895u, 35898u, 35903u, 35905u, 35910u, 35912u, 35914u, 35916u, 35918u, 35920u, 35925u, 35930u, 35937u, 35938u, 35946u, 35947u, 35948u, 35960u, 35961u, 35962u, 35964u, 35970u, 35973u, 35977u, 35978u, 35980u, 35981u, 35982u, 35988u, 35992u, 35997u, 35998u, 36000u, 36001u, 36002u, 36007u, 36008u, 36009u, 36010u, 36011u, 36012u, 36013u, 36014u, 36015u, 36016u, 36018u, 36019u, 36020u, 36022u, 36023u, 36024u, 36027u, 36028u, 36029u, 36031u, 36032u, 36033u, 36034u, 36035u, 36036u, 36039u, 36040u, 36042u, 36045u, 36046u, 36049u, 36051u, 36058u, 36059u, 36060u, 36062u, 36064u, 36066u, 36067u, 36068u, 36070u, 36074u, 36077u, 36080u, 36084u, 36090u, 36091u, 36092u, 36093u, 36100u, 36101u, 36103u, 36104u, 36106u, 36107u, 36109u, 36111u, 36112u, 36114u, 36115u, 36116u, 36118u, 36196u, 36198u, 36199u, 36203u, 36205u, 36208u, 36209u, 36211u, 36212u, 36214u, 36215u, 36225u, 36229u, 36234u, 36249u, 36259u, 36264u, 36275u, 36282u, 36286u, 36290u, 36299u, 36300u, 36303u, 36310u, 36314u, 36315u, 36317u, 36319u, 36321u, 36323u, 36328u, 36330u, 36331u, 36335u, 36339u, 36341u, 36348u, 36351u, 36360u, 36361u, 36362u, 36367u, 36368u, 36381u, 36382u, 36383u, 36394u, 36400u, 36404u, 36405u, 36418u, 36420u, 36423u, 36424u, 36425u, 36426u, 36428u, 36432u, 36437u, 36441u, 36447u, 36448u, 36451u, 36452u, 36466u, 36468u, 36470u, 36476u, 36481u, 36484u, 36485u, 36487u, 36490u, 36491u, 36493u, 36497u, 36499u, 36500u, 36505u, 36513u, 36522u, 36523u, 36524u, 36527u, 36528u, 36529u, 36542u, 36549u, 36550u, 36552u, 36554u, 36555u, 36556u, 36557u, 36559u, 36562u, 36571u, 36575u, 36578u, 36579u, 36587u, 36600u, 36603u, 36604u, 36605u, 36606u, 36611u, 36613u, 36617u, 36618u, 36620u, 36626u, 36627u, 36628u, 36629u, 36633u, 36635u, 36636u, 36637u, 36639u, 36646u, 36649u, 36650u, 36655u, 36659u, 36664u, 36665u, 36667u, 36670u, 36671u, 36674u, 36676u, 36677u, 36678u, 36681u, 36684u, 36685u, 36686u, 36695u, 36700u, 36703u, 36705u, 36706u, 36707u, 36708u, 36763u, 36764u, 36766u, 36767u, 36771u, 36775u, 36776u, 36781u, 36782u, 36783u, 36784u, 36785u, 36786u, 36791u, 36794u, 36795u, 36796u, 36799u, 36802u, 36804u, 36805u, 36814u, 36817u, 36820u, 36826u, 36834u, 36837u, 36838u, 36841u, 36842u, 36843u, 36845u, 36847u, 36848u, 36852u, 36855u, 36856u, 36857u, 36858u, 36861u, 36864u, 36865u, 36867u, 36869u, 36870u, 36875u, 36877u, 36878u, 36879u, 36880u, 36881u, 36883u, 36884u, 36885u, 36886u, 36887u, 36889u, 36890u, 36893u, 36894u, 36895u, 36896u, 36897u, 36898u, 36899u, 36903u, 36910u, 36913u, 36914u, 36917u, 36918u, 36920u, 36921u, 36924u, 36926u, 36929u, 36930u, 36933u, 36935u, 36937u, 36938u, 36939u, 36941u, 36942u, 36943u, 36944u, 36945u, 36946u, 36947u, 36948u, 36949u, 36950u, 36952u, 36953u, 36956u, 36958u, 36960u, 36961u, 36963u, 36965u, 36967u, 36968u, 36969u, 36973u, 36974u, 36975u, 36978u, 36981u, 36982u, 36983u, 36984u, 36986u, 36988u, 36989u, 36991u, 36992u, 36993u, 36994u, 36995u, 36996u, 36999u, 37001u, 37002u, 37007u, 37009u, 37027u, 37030u, 37032u, 37034u, 37039u, 37041u, 37045u, 37048u, 37057u, 37066u, 37070u, 37083u, 37086u, 37089u, 37090u, 37092u, 37096u, 37101u, 37109u, 37111u, 37117u, 37122u, 37138u, 37141u, 37145u, 37159u, 37165u, 37168u, 37170u, 37193u, 37194u, 37195u, 37196u, 37197u, 37198u, 37202u, 37204u, 37206u, 37208u, 37218u, 37219u, 37221u, 37225u, 37226u, 37228u, 37234u, 37235u, 37237u, 37239u, 37240u, 37250u, 37255u, 37257u, 37259u, 37261u, 37264u, 37266u, 37271u, 37276u, 37282u, 37284u, 37290u, 37291u, 37295u, 37300u, 37301u, 37304u, 37306u, 37312u, 37313u, 37318u, 37319u, 37320u, 37321u, 37323u, 37324u, 37325u, 37326u, 37327u, 37328u, 37329u, 37334u, 37335u, 37336u, 37338u, 37339u, 37340u, 37341u, 37342u, 37343u, 37345u, 37347u, 37348u, 37349u, 37350u, 37351u, 37357u, 37358u, 37365u, 37366u, 37372u, 37375u, 37382u, 37386u, 37389u, 37390u, 37392u, 37393u, 37396u, 37397u, 37406u, 37417u, 37420u, 37428u, 37431u, 37433u, 37434u, 37436u, 37439u, 37440u, 37444u, 37445u, 37448u, 37449u, 37451u, 37454u, 37456u, 37457u, 37463u, 37465u, 37466u, 37467u, 37470u, 37474u, 37476u, 37478u, 37479u, 37489u, 37495u, 37496u, 37502u, 37504u, 37507u, 37509u, 37512u, 37521u, 37523u, 37525u, 37526u, 37528u, 37530u, 37531u, 37532u, 37543u, 37549u, 37559u, 37561u, 37583u, 37584u, 37586u, 37587u, 37589u, 37591u, 37593u, 37600u, 37604u, 37607u, 37609u, 37610u, 37613u, 37618u, 37619u, 37624u, 37625u, 37626u, 37627u, 37628u, 37631u, 37634u, 37638u, 37647u, 37648u, 37656u, 37657u, 37658u, 37661u, 37662u, 37664u, 37665u, 37666u, 37667u, 37669u, 37670u, 37672u, 37675u, 37676u, 37678u, 37679u, 37682u, 37685u, 37690u, 37691u, 37700u, 37704u, 37707u, 37709u, 37716u, 37718u, 37719u, 37723u, 37724u, 37728u, 37740u, 37742u, 37744u, 37749u, 37756u, 37758u, 37772u, 37780u, 37782u, 37783u, 37786u, 37796u, 37799u, 37804u, 37805u, 37806u, 37808u, 37817u, 37827u, 37830u, 37832u, 37840u, 37841u, 37846u, 37847u, 37848u, 37853u, 37854u, 37857u, 37860u, 37861u, 37864u, 37880u, 37891u, 37895u, 37904u, 37907u, 37908u, 37912u, 37913u, 37914u, 37921u, 37931u, 37937u, 37941u, 37942u, 37944u, 37946u, 37953u, 37956u, 37957u, 37960u, 37969u, 37970u, 37971u, 37978u, 37979u, 37982u, 37984u, 37986u, 37994u, 38000u, 38005u, 38007u, 38012u, 38013u, 38014u, 38015u, 38017u, 38263u, 38272u, 38274u, 38275u, 38279u, 38281u, 38282u, 38283u, 38287u, 38289u, 38290u, 38291u, 38292u, 38294u, 38296u, 38297u, 38304u, 38306u, 38307u, 38308u, 38309u, 38311u, 38312u, 38317u, 38322u, 38329u, 38331u, 38332u, 38334u, 38339u, 38343u, 38346u, 38348u, 38349u, 38356u, 38357u, 38358u, 38360u, 38364u, 38369u, 38370u, 38373u, 38428u, 38433u, 38440u, 38442u, 38446u, 38447u, 38450u, 38459u, 38463u, 38464u, 38466u, 38468u, 38475u, 38476u, 38477u, 38479u, 38480u, 38491u, 38492u, 38493u, 38494u, 38495u, 38498u, 38499u, 38500u, 38501u, 38502u, 38506u, 38508u, 38512u, 38514u, 38515u, 38517u, 38518u, 38519u, 38520u, 38522u, 38525u, 38533u, 38534u, 38536u, 38538u, 38539u, 38541u, 38542u, 38543u, 38548u, 38549u, 38551u, 38552u, 38553u, 38555u, 38556u, 38557u, 38560u, 38563u, 38567u, 38568u, 38570u, 38575u, 38576u, 38577u, 38578u, 38580u, 38582u, 38583u, 38584u, 38585u, 38587u, 38588u, 38592u, 38593u, 38596u, 38597u, 38598u, 38599u, 38601u, 38603u, 38604u, 38605u, 38606u, 38609u, 38613u, 38614u, 38617u, 38619u, 38620u, 38626u, 38627u, 38632u, 38634u, 38635u, 38640u, 38642u, 38646u, 38647u, 38649u, 38651u, 38656u, 38660u, 38662u, 38663u, 38664u, 38666u, 38669u, 38670u, 38671u, 38673u, 38675u, 38678u, 38681u, 38684u, 38686u, 38692u, 38695u, 38698u, 38704u, 38706u, 38707u, 38712u, 38713u, 38715u, 38717u, 38718u, 38722u, 38723u, 38724u, 38726u, 38728u, 38729u, 38733u, 38735u, 38737u, 38738u, 38741u, 38742u, 38745u, 38748u, 38750u, 38752u, 38753u, 38754u, 38756u, 38758u, 38760u, 38761u, 38763u, 38765u, 38769u, 38772u, 38777u, 38778u, 38780u, 38785u, 38788u, 38789u, 38790u, 38795u, 38797u, 38799u, 38800u, 38808u, 38812u, 38816u, 38819u, 38822u, 38824u, 38827u, 38829u, 38835u, 38836u, 38851u, 38854u, 38856u, 38859u, 38867u, 38876u, 38893u, 38894u, 38898u, 38899u, 38901u, 38902u, 38907u, 38911u, 38913u, 38914u, 38915u, 38917u, 38918u, 38920u, 38924u, 38927u, 38928u, 38929u, 38930u, 38931u, 38935u, 38936u, 38938u, 38945u, 38948u, 38956u, 38957u, 38964u, 38967u, 38968u, 38971u, 38972u, 38973u, 38982u, 38987u, 38988u, 38989u, 38990u, 38991u, 38996u, 38997u, 38999u, 39000u, 39003u, 39006u, 39013u, 39015u, 39019u, 39023u, 39024u, 39025u, 39027u, 39028u, 39080u, 39082u, 39087u, 39089u, 39094u, 39107u, 39108u, 39110u, 39131u, 39132u, 39135u, 39138u, 39145u, 39147u, 39149u, 39150u, 39151u, 39154u, 39156u, 39164u, 39165u, 39166u, 39171u, 39173u, 39177u, 39178u, 39180u, 39184u, 39186u, 39187u, 39188u, 39192u, 39197u, 39198u, 39200u, 39201u, 39204u, 39207u, 39208u, 39212u, 39214u, 39229u, 39230u, 39234u, 39237u, 39241u, 39243u, 39244u, 39248u, 39249u, 39250u, 39253u, 39255u, 39318u, 39319u, 39320u, 39321u, 39326u, 39333u, 39336u, 39340u, 39341u, 39342u, 39347u, 39348u, 39356u, 39361u, 39364u, 39365u, 39366u, 39368u, 39376u, 39377u, 39378u, 39381u, 39384u, 39387u, 39389u, 39391u, 39394u, 39405u, 39406u, 39409u, 39410u, 39416u, 39419u, 39423u, 39425u, 39429u, 39438u, 39439u, 39442u, 39443u, 39449u, 39464u, 39467u, 39472u, 39479u, 39486u, 39488u, 39490u, 39491u, 39493u, 39501u, 39502u, 39509u, 39511u, 39514u, 39515u, 39519u, 39522u, 39524u, 39525u, 39529u, 39530u, 39531u, 39592u, 39597u, 39600u, 39608u, 39612u, 39616u, 39620u, 39631u, 39633u, 39635u, 39636u, 39640u, 39641u, 39644u, 39646u, 39647u, 39650u, 39651u, 39654u, 39658u, 39659u, 39661u, 39662u, 39663u, 39665u, 39668u, 39671u, 39675u, 39686u, 39704u, 39706u, 39711u, 39714u, 39715u, 39717u, 39719u, 39720u, 39721u, 39722u, 39726u, 39727u, 39729u, 39730u, 39739u, 39740u, 39745u, 39746u, 39747u, 39748u, 39749u, 39757u, 39758u, 39759u, 39761u, 39764u, 39768u, 39770u, 39791u, 39794u, 39796u, 39797u, 39811u, 39822u, 39823u, 39825u, 39826u, 39827u, 39830u, 39831u, 39839u, 39840u, 39848u, 39850u, 39851u, 39853u, 39854u, 39857u, 39860u, 39865u, 39867u, 39872u, 39878u, 39881u, 39882u, 39887u, 39889u, 39890u, 39892u, 39894u, 39899u, 39905u, 39906u, 39907u, 39908u, 39912u, 39920u, 39921u, 39922u, 39925u, 39936u, 39940u, 39942u, 39944u, 39945u, 39946u, 39948u, 39949u, 39952u, 39954u, 39955u, 39956u, 39957u, 39963u, 39969u, 39972u, 39973u, 39981u, 39982u, 39983u, 39984u, 39986u, 39993u, 39994u, 39995u, 39998u, 40006u, 40007u, 40008u, 40018u, 40023u, 40026u, 40032u, 40039u, 40054u, 40056u, 40165u, 40167u, 40169u, 40171u, 40172u, 40176u, 40179u, 40180u, 40182u, 40195u, 40198u, 40199u, 40200u, 40201u, 40206u, 40210u, 40213u, 40219u, 40223u, 40227u, 40230u, 40232u, 40234u, 40235u, 40236u, 40251u, 40254u, 40255u, 40257u, 40260u, 40262u, 40264u, 40272u, 40273u, 40281u, 40284u, 40285u, 40286u, 40288u, 40289u, 40292u, 40299u, 40300u, 40303u, 40304u, 40306u, 40314u, 40327u, 40329u, 40335u, 40346u, 40356u, 40361u, 40363u, 40367u, 40370u, 40372u, 40376u, 40378u, 40379u, 40385u, 40386u, 40388u, 40390u, 40399u, 40403u, 40409u, 40422u, 40429u, 40431u, 40434u, 40440u, 40441u, 40442u, 40445u, 40473u, 40474u, 40475u, 40478u, 40565u, 40568u, 40569u, 40573u, 40575u, 40577u, 40584u, 40587u, 40588u, 40593u, 40594u, 40595u, 40597u, 40599u, 40605u, 40607u, 40613u, 40614u, 40617u, 40618u, 40621u, 40632u, 40633u, 40634u, 40635u, 40636u, 40638u, 40639u, 40644u, 40652u, 40653u, 40654u, 40655u, 40656u, 40657u, 40658u, 40660u, 40664u, 40665u, 40667u, 40668u, 40669u, 40670u, 40672u, 40677u, 40680u, 40687u, 40692u, 40694u, 40695u, 40697u, 40699u, 40700u, 40701u, 40711u, 40712u, 40718u, 40723u, 40725u, 40736u, 40737u, 40748u, 40763u, 40766u, 40778u, 40779u, 40782u, 40783u, 40786u, 40788u, 40799u, 40800u, 40801u, 40802u, 40803u, 40806u, 40807u, 40810u, 40812u, 40818u, 40822u, 40823u, 40845u, 40853u, 40860u, 40861u, 40864u, 63785u, 63964u, 64014u, 64015u, 64016u, 64017u, 64018u, 64019u, 64020u, 64021u, 64022u, 64023u, 64024u, 64025u, 64026u, 64027u, 64028u, 64029u, 64030u, 64031u, 64032u, 64033u, 64034u, 64035u, 64036u, 64037u, 64038u, 64039u, 64040u, 64041u, 64042u, 64043u, 64044u, 64045u, 65281u, 65282u, 65283u, 65284u, 65285u, 65286u, 65287u, 65288u, 65289u, 65290u, 65291u, 65292u, 65293u, 65294u, 65295u, 65296u, 65297u, 65298u, 65299u, 65300u, 65301u, 65302u, 65303u, 65304u, 65305u, 65306u, 65307u, 65308u, 65309u, 65310u, 65311u, 65312u, 65313u, 65314u, 65315u, 65316u, 65317u, 65318u, 65319u, 65320u, 65321u, 65322u, 65323u, 65324u, 65325u, 65326u, 65327u, 65328u, 65329u, 65330u, 65331u, 65332u, 65333u, 65334u, 65335u, 65336u, 65337u, 65338u, 65339u, 65340u, 65341u, 65342u, 65343u, 65344u, 65345u, 65346u, 65347u, 65348u, 65349u, 65350u, 65351u, 65352u, 65353u, 65354u, 65355u, 65356u, 65357u, 65358u, 65359u, 65360u, 65361u, 65362u, 65363u, 65364u, 65365u, 65366u, 65367u, 65368u, 65369u, 65370u, 65371u, 65372u, 65373u, 65374u, 65504u, 65505u, 65506u, 65507u, 65508u, 65509u, };
 std::vector<uint16_t> const wordring::whatwg::encoding::index_pointer_Shift_JIS_1 { 87u, 14u, 74u, 61u, 12u, 182u, 62u, 63u, 470u, 471u, 472u, 473u, 474u, 475u, 476u, 477u, 478u, 479u, 480u, 481u, 482u, 483u, 484u, 485u, 486u, 487u, 488u, 489u, 490u, 491u, 492u, 493u, 502u, 503u, 504u, 505u, 506u, 507u, 508u, 509u, 510u, 511u, 512u, 513u, 514u, 515u, 516u, 517u, 518u, 519u, 520u, 521u, 522u, 523u, 524u, 525u, 570u, 564u, 565u, 566u, 567u, 568u, 569u, 571u, 572u, 573u, 574u, 575u, 576u, 577u, 578u, 579u, 580u, 581u, 582u, 583u, 584u, 585u, 586u, 587u, 588u, 589u, 590u, 591u, 592u, 593u, 594u, 595u, 596u, 612u, 613u, 614u, 615u, 616u, 617u, 619u, 620u, 621u, 622u, 623u, 624u, 625u, 626u, 627u, 628u, 629u, 630u, 631u, 632u, 633u, 634u, 635u, 636u, 637u, 638u, 639u, 640u, 641u, 642u, 643u, 644u, 618u, 29u, 28u, 37u, 38u, 39u, 40u, 180u, 181u, 36u, 35u, 176u, 75u, 76u, 101u, 77u, 1193u, 1195u, 175u, 1148u, 1149u, 1150u, 1151u, 1152u, 1153u, 1154u, 1155u, 1156u, 1157u, 8634u, 8635u, 8636u, 8637u, 8638u, 8639u, 8640u, 8641u, 8642u, 8643u, 104u, 105u, 103u, 106u, 138u, 139u, 140u, 156u, 141u, 157u, 119u, 120u, 1211u, 162u, 164u, 70u, 1215u, 153u, 33u, 135u, 136u, 126u, 125u, 166u, 167u, 1210u, 71u, 165u, 163u, 159u, 65u, 158u, 68u, 69u, 160u, 161u, 123u, 124u, 121u, 122u, 154u, 1216u, 155u, 1128u, 1129u, 1130u, 1131u, 1132u, 1133u, 1134u, 1135u, 1136u, 1137u, 1138u, 1139u, 1140u, 1141u, 1142u, 1143u, 1144u, 1145u, 1146u, 1147u, 658u, 669u, 659u, 670u, 660u, 671u, 661u, 672u, 663u, 674u, 662u, 673u, 664u, 685u, 680u, 675u, 666u, 687u, 682u, 677u, 665u, 681u, 686u, 676u, 667u, 683u, 688u, 678u, 668u, 684u, 689u, 679u, 96u, 95u, 98u, 97u, 100u, 99u, 94u, 93u, 90u, 92u, 91u, 187u, 89u, 88u, 73u, 72u, 179u, 178u, 177u, 0u, 1u, 2u, 22u, 24u, 25u, 26u, 49u, 50u, 51u, 52u, 53u, 54u, 55u, 56u, 57u, 58u, 102u, 107u, 43u, 44u, 1191u, 1192u, 282u, 283u, 284u, 285u, 286u, 287u, 288u, 289u, 290u, 291u, 292u, 293u, 294u, 295u, 296u, 297u, 298u, 299u, 300u, 301u, 302u, 303u, 304u, 305u, 306u, 307u, 308u, 309u, 310u, 311u, 312u, 313u, 314u, 315u, 316u, 317u, 318u, 319u, 320u, 321u, 322u, 323u, 324u, 325u, 326u, 327u, 328u, 329u, 330u, 331u, 332u, 333u, 334u, 335u, 336u, 337u, 338u, 339u, 340u, 341u, 342u, 343u, 344u, 345u, 346u, 347u, 348u, 349u, 350u, 351u, 352u, 353u, 354u, 355u, 356u, 357u, 358u, 359u, 360u, 361u, 362u, 363u, 364u, 10u, 11u, 20u, 21u, 376u, 377u, 378u, 379u, 380u, 381u, 382u, 383u, 384u, 385u, 386u, 387u, 388u, 389u, 390u, 391u, 392u, 393u, 394u, 395u, 396u, 397u, 398u, 399u, 400u, 401u, 402u, 403u, 404u, 405u, 406u, 407u, 408u, 409u, 410u, 411u, 412u, 413u, 414u, 415u, 416u, 417u, 418u, 419u, 420u, 421u, 422u, 423u, 424u, 425u, 426u, 427u, 428u, 429u, 430u, 431u, 432u, 433u, 434u, 435u, 436u, 437u, 438u, 439u, 440u, 441u, 442u, 443u, 444u, 445u, 446u, 447u, 448u, 449u, 450u, 451u, 452u, 453u, 454u, 455u, 456u, 457u, 458u, 459u, 460u, 461u, 5u, 27u, 18u, 19u, 1201u, 1202u, 1203u, 1196u, 1197u, 1198u, 1199u, 1200u, 1165u, 1169u, 1160u, 1163u, 1161u, 1171u, 1170u, 1164u, 1172u, 1166u, 1174u, 1159u, 1173u, 1162u, 1167u, 1168u, 1190u, 1206u, 1205u, 1204u, 1178u, 1179u, 1175u, 1176u, 1177u, 1181u, 1180u, 1194u, 1485u, 3285u, 2560u, 4039u, 2795u, 2459u, 2794u, 1625u, 3811u, 4166u, 4419u, 1518u, 1769u, 4420u, 2917u, 4639u, 1933u, 3879u, 2796u, 4259u, 3887u, 8284u, 4421u, 3265u, 4422u, 2063u, 4423u, 1846u, 3211u, 2608u, 4424u, 4425u, 4426u, 3592u, 1934u, 3594u, 3544u, 2196u, 3966u, 6808u, 4427u, 2797u, 4428u, 1618u, 2042u, 2241u, 4114u, 4987u, 4215u, 3570u, 1790u, 1900u, 4429u, 4430u, 4256u, 4164u, 3079u, 4432u, 2529u, 3560u, 4435u, 1533u, 2224u, 2223u, 1479u, 4366u, 4365u, 2368u, 1410u, 4436u, 4437u, 4438u, 3967u, 4439u, 2243u, 1480u, 4029u, 1971u, 1972u, 1973u, 3355u, 4257u, 4440u, 4441u, 4442u, 2864u, 2657u, 2865u, 4447u, 4445u, 4446u, 1935u, 2352u, 1677u, 4444u, 4443u, 3862u, 2481u, 2480u, 3131u, 4448u, 3812u, 2984u, 23u, 4449u, 4451u, 8285u, 3170u, 4294u, 1451u, 4450u, 1627u, 2009u, 3266u, 2146u, 4452u, 3575u, 8286u, 8287u, 1860u, 8288u, 4453u, 1452u, 2225u, 1861u, 3849u, 3683u, 1936u, 1678u, 4488u, 3416u, 3647u, 4455u, 3693u, 4295u, 2832u, 8289u, 2482u, 2530u, 1629u, 3338u, 3197u, 4459u, 1453u, 3356u, 2658u, 2369u, 4139u, 3147u, 1628u, 8290u, 4458u, 4165u, 4454u, 4456u, 2427u, 4457u, 4891u, 4465u, 4468u, 4466u, 1631u, 3880u, 4460u, 4464u, 2244u, 2483u, 1791u, 4469u, 4461u, 8292u, 4296u, 2531u, 4462u, 4467u, 8291u, 8294u, 4470u, 4463u, 8293u, 1974u, 1454u, 1975u, 1630u, 4892u, 4036u, 3837u, 2245u, 2834u, 4252u, 3909u, 2091u, 3106u, 1665u, 8277u, 2682u, 8295u, 4474u, 4479u, 4477u, 4472u, 3116u, 4475u, 4478u, 4476u, 3914u, 4473u, 2833u, 4030u, 4480u, 4481u, 2635u, 4494u, 3619u, 3781u, 4489u, 3933u, 1619u, 4493u, 8298u, 4487u, 4496u, 3057u, 2197u, 3631u, 5960u, 4495u, 3444u, 4484u, 2247u, 2246u, 4482u, 8299u, 2595u, 4490u, 8297u, 3932u, 3240u, 4486u, 2148u, 4483u, 4491u, 4485u, 4278u, 4492u, 4356u, 2043u, 2147u, 8296u, 8302u, 4497u, 8300u, 4498u, 4502u, 1455u, 3901u, 4501u, 4500u, 4504u, 4503u, 3357u, 2149u, 4505u, 8301u, 2574u, 3107u, 3358u, 2059u, 4506u, 1901u, 4507u, 4509u, 3968u, 2137u, 8303u, 2460u, 3752u, 4508u, 2386u, 4170u, 4511u, 4514u, 4510u, 2385u, 2724u, 2092u, 4515u, 2020u, 4512u, 4513u, 3492u, 3099u, 1976u, 3992u, 4516u, 8305u, 4258u, 4517u, 4520u, 4518u, 3053u, 4519u, 4521u, 8304u, 4523u, 4522u, 3893u, 1902u, 4525u, 4526u, 1612u, 4524u, 2621u, 4529u, 4528u, 4527u, 4471u, 4530u, 2725u, 4531u, 4140u, 4098u, 4533u, 4532u, 4535u, 4534u, 4536u, 4537u, 1493u, 2182u, 2094u, 2659u, 3286u, 1977u, 2985u, 2248u, 8306u, 2333u, 4539u, 4081u, 3421u, 2532u, 4538u, 4540u, 3445u, 1776u, 4541u, 8307u, 3571u, 3027u, 4543u, 4544u, 3677u, 2249u, 4350u, 4545u, 1979u, 3881u, 3123u, 2054u, 3404u, 2150u, 4546u, 4547u, 3543u, 1566u, 4550u, 2442u, 4549u, 2387u, 4551u, 6563u, 4552u, 3980u, 4553u, 4554u, 4555u, 2798u, 2581u, 8308u, 1792u, 4558u, 4556u, 4070u, 4557u, 3817u, 4559u, 4560u, 4561u, 3446u, 4565u, 4563u, 4564u, 4562u, 2416u, 4566u, 4115u, 4297u, 4567u, 8309u, 2921u, 4568u, 2689u, 4569u, 3287u, 4260u, 3447u, 4642u, 4570u, 7806u, 2010u, 4571u, 4009u, 2703u, 3193u, 4573u, 3545u, 8310u, 4574u, 4575u, 1705u, 4576u, 1980u, 3521u, 1593u, 2679u, 3666u, 4577u, 3448u, 2866u, 4578u, 3865u, 2971u, 1787u, 1794u, 4579u, 4581u, 2093u, 4580u, 8311u, 4312u, 2704u, 3694u, 3897u, 4582u, 4223u, 4583u, 4584u, 3477u, 4585u, 2922u, 2443u, 2151u, 4586u, 2484u, 2334u, 3359u, 4588u, 3108u, 2428u, 4589u, 4590u, 3023u, 4587u, 4592u, 3969u, 2323u, 4591u, 2152u, 2411u, 3648u, 4595u, 4593u, 3850u, 2799u, 4602u, 1759u, 4596u, 4594u, 3054u, 4598u, 4597u, 1727u, 2131u, 4603u, 4242u, 4599u, 4604u, 4601u, 4600u, 4276u, 8312u, 2250u, 1632u, 4313u, 8313u, 2716u, 3439u, 2324u, 4607u, 4608u, 8487u, 4298u, 4334u, 4610u, 2251u, 4609u, 1706u, 8314u, 4611u, 4001u, 3317u, 4141u, 3910u, 4612u, 7478u, 3493u, 4613u, 1795u, 4060u, 8315u, 2726u, 4614u, 3924u, 4618u, 2923u, 4615u, 2021u, 4616u, 1796u, 2081u, 4619u, 4620u, 4621u, 4622u, 2596u, 2252u, 4103u, 8316u, 4113u, 3564u, 3934u, 4623u, 8317u, 4624u, 4626u, 4628u, 4627u, 4629u, 1626u, 3991u, 2441u, 4630u, 3064u, 2727u, 1982u, 4631u, 8318u, 3724u, 4632u, 4633u, 4634u, 4635u, 3763u, 2045u, 1478u, 3508u, 4636u, 2660u, 2986u, 4638u, 4637u, 2728u, 2226u, 4640u, 3695u, 4641u, 3725u, 3121u, 3179u, 1981u, 3555u, 3212u, 3649u, 3993u, 4643u, 2987u, 2088u, 4644u, 4645u, 1515u, 1494u, 1862u, 8319u, 3109u, 1928u, 4216u, 4648u, 1620u, 4647u, 1983u, 4649u, 4122u, 8320u, 4650u, 4279u, 2253u, 2183u, 4651u, 4653u, 4652u, 2882u, 1528u, 1565u, 4654u, 4655u, 8321u, 2184u, 4656u, 1957u, 2461u, 4657u, 4031u, 2370u, 1937u, 4142u, 3055u, 3696u, 2630u, 2670u, 2609u, 2622u, 2717u, 3697u, 8322u, 4660u, 1538u, 3056u, 2254u, 2198u, 2044u, 4664u, 3196u, 3195u, 1984u, 2729u, 4665u, 4663u, 1633u, 3171u, 2561u, 2486u, 1509u, 1771u, 2325u, 2485u, 4666u, 4667u, 1920u, 1729u, 2326u, 1919u, 3352u, 1508u, 3494u, 4071u, 2256u, 4224u, 3422u, 2255u, 2082u, 4676u, 2040u, 3989u, 3726u, 4675u, 1847u, 4670u, 4671u, 4673u, 4674u, 1938u, 2884u, 3866u, 4672u, 4668u, 2228u, 4669u, 4327u, 3935u, 3361u, 2227u, 2335u, 4677u, 3538u, 4681u, 2631u, 2623u, 4684u, 4682u, 4044u, 4679u, 4688u, 4683u, 4686u, 2199u, 4072u, 4687u, 4689u, 4691u, 8325u, 2429u, 4357u, 4680u, 4678u, 4690u, 4685u, 8324u, 4693u, 4702u, 4695u, 4699u, 8326u, 4700u, 4696u, 4729u, 2422u, 1708u, 4694u, 4704u, 1495u, 4703u, 1414u, 3801u, 4701u, 4697u, 4692u, 4698u, 2389u, 4705u, 1496u, 4714u, 4706u, 4707u, 2730u, 4020u, 4712u, 4711u, 3398u, 4713u, 4710u, 8327u, 1523u, 2371u, 2835u, 4708u, 3449u, 4709u, 1411u, 4719u, 4138u, 2732u, 4725u, 4724u, 4715u, 3136u, 4716u, 3180u, 4721u, 2731u, 4718u, 4109u, 2095u, 4722u, 4723u, 4720u, 4726u, 4717u, 4732u, 4737u, 4733u, 4728u, 4738u, 3024u, 8328u, 4740u, 2257u, 4730u, 3288u, 4734u, 4727u, 1798u, 1863u, 1760u, 4735u, 4731u, 2153u, 4741u, 4739u, 3058u, 1921u, 1985u, 4736u, 2057u, 1539u, 4745u, 4743u, 4800u, 4748u, 4742u, 4746u, 4744u, 2487u, 4747u, 4750u, 4755u, 4753u, 4752u, 3213u, 1634u, 4749u, 4751u, 2733u, 1522u, 4754u, 1659u, 4765u, 2817u, 4761u, 4759u, 4760u, 4762u, 1532u, 3032u, 4756u, 4757u, 1781u, 4764u, 1864u, 4767u, 4763u, 4766u, 3867u, 3530u, 3689u, 4769u, 4768u, 1728u, 4770u, 4773u, 4772u, 4771u, 3596u, 4774u, 4775u, 4777u, 4776u, 4779u, 4782u, 4780u, 4778u, 4781u, 4783u, 4784u, 4785u, 4786u, 4787u, 4548u, 2629u, 2488u, 1680u, 1497u, 3231u, 4788u, 2353u, 1456u, 2881u, 4789u, 2200u, 2336u, 4791u, 4790u, 3917u, 4792u, 4794u, 4793u, 4795u, 4796u, 2154u, 1567u, 4797u, 4799u, 4798u, 4801u, 3441u, 4802u, 1430u, 2412u, 2096u, 3242u, 4803u, 4804u, 4806u, 4807u, 2417u, 2022u, 3970u, 4805u, 4808u, 2382u, 2258u, 8329u, 4812u, 2354u, 8330u, 3214u, 4809u, 3347u, 4813u, 2885u, 4811u, 4814u, 2098u, 4815u, 4816u, 2259u, 1723u, 4818u, 4819u, 8331u, 4820u, 4817u, 4810u, 4821u, 4822u, 8333u, 8332u, 4015u, 2800u, 4824u, 4825u, 4823u, 4827u, 3595u, 1481u, 3813u, 4828u, 2818u, 2562u, 3632u, 1865u, 2424u, 4004u, 3495u, 2155u, 3148u, 4826u, 4829u, 3137u, 4830u, 4831u, 4833u, 3362u, 1799u, 7802u, 1568u, 3936u, 2801u, 3423u, 2419u, 4839u, 3882u, 4290u, 1681u, 4835u, 3033u, 4838u, 3450u, 3424u, 3451u, 3690u, 3334u, 2390u, 4834u, 1589u, 3405u, 4836u, 4832u, 2867u, 4840u, 2677u, 1986u, 4841u, 3925u, 3100u, 3327u, 8336u, 4843u, 3994u, 4844u, 4849u, 8337u, 3868u, 4848u, 4842u, 4845u, 4847u, 2355u, 3894u, 4850u, 3232u, 1682u, 2802u, 4852u, 4851u, 2327u, 4853u, 4855u, 4854u, 4857u, 4846u, 4859u, 4858u, 4856u, 2489u, 2868u, 3059u, 4860u, 2941u, 1486u, 3639u, 3348u, 4862u, 4861u, 4863u, 4864u, 4865u, 4866u, 3902u, 4867u, 8338u, 1635u, 4868u, 4163u, 1707u, 4646u, 2671u, 3132u, 4869u, 4116u, 4061u, 4871u, 3172u, 3406u, 3133u, 3814u, 4872u, 4873u, 1594u, 2563u, 4874u, 1457u, 4875u, 4876u, 1569u, 1866u, 3541u, 3937u, 4880u, 3060u, 4879u, 2099u, 8339u, 4006u, 4878u, 3452u, 4882u, 4881u, 8340u, 8341u, 4884u, 4883u, 8342u, 1595u, 4885u, 2734u, 4887u, 3200u, 4886u, 3872u, 2718u, 3442u, 4888u, 2260u, 4889u, 3572u, 3727u, 4090u, 3576u, 4898u, 1903u, 4172u, 4056u, 4993u, 4890u, 4893u, 8343u, 3138u, 3971u, 3425u, 4894u, 4016u, 8344u, 2391u, 2735u, 4895u, 2491u, 2490u, 1434u, 2201u, 2924u, 1458u, 4899u, 4900u, 4897u, 1527u, 1800u, 4896u, 4078u, 3776u, 1417u, 1498u, 2492u, 1459u, 1412u, 4905u, 4903u, 4069u, 4906u, 4904u, 4902u, 2836u, 4901u, 3911u, 2229u, 4910u, 4911u, 2736u, 4907u, 4335u, 3615u, 4909u, 2356u, 4912u, 3815u, 4913u, 4908u, 4068u, 3633u, 4914u, 3777u, 4915u, 4919u, 4916u, 1636u, 4918u, 2564u, 4917u, 2156u, 4931u, 4924u, 4921u, 3263u, 4920u, 4922u, 4923u, 4925u, 4926u, 1867u, 4928u, 4927u, 4929u, 2803u, 4932u, 3349u, 1540u, 4930u, 4933u, 4934u, 4937u, 4935u, 4936u, 2493u, 4938u, 2261u, 4939u, 8345u, 2533u, 3125u, 4940u, 4941u, 2501u, 2262u, 4091u, 1887u, 2202u, 4942u, 1747u, 4943u, 3126u, 4944u, 4984u, 4945u, 4946u, 4947u, 4949u, 4950u, 4951u, 3181u, 1510u, 2610u, 1443u, 3062u, 1801u, 2558u, 2263u, 3453u, 2632u, 1802u, 3267u, 3363u, 1433u, 1904u, 3938u, 2571u, 1929u, 2988u, 2565u, 4143u, 4952u, 1939u, 2392u, 1709u, 1570u, 2737u, 1637u, 4953u, 4173u, 2672u, 8346u, 2605u, 4954u, 1868u, 3527u, 4050u, 4955u, 4956u, 3816u, 4958u, 1793u, 2060u, 4957u, 8348u, 1803u, 2837u, 4962u, 2444u, 1638u, 4961u, 4959u, 4963u, 4960u, 3582u, 5590u, 2838u, 4964u, 8349u, 4261u, 4965u, 4967u, 3289u, 4966u, 2916u, 2534u, 3149u, 2624u, 3844u, 2989u, 2582u, 4968u, 2738u, 4969u, 4970u, 1460u, 3127u, 2869u, 4971u, 3496u, 2739u, 2740u, 4972u, 2990u, 2741u, 8350u, 4973u, 4974u, 4105u, 4975u, 2011u, 2633u, 4976u, 4977u, 2597u, 2831u, 3561u, 2871u, 3753u, 3573u, 2014u, 4978u, 1958u, 4979u, 2067u, 3524u, 1613u, 2494u, 4980u, 4983u, 4982u, 2066u, 4981u, 3407u, 3117u, 3426u, 2577u, 3063u, 4225u, 4985u, 4986u, 3531u, 2462u, 4988u, 4989u, 4990u, 1869u, 4991u, 4992u, 1609u, 8351u, 3034u, 1853u, 4994u, 4049u, 3151u, 1748u, 4996u, 4998u, 1848u, 8352u, 4995u, 4997u, 5000u, 4999u, 5001u, 5002u, 3506u, 1987u, 1666u, 5003u, 5008u, 5006u, 3940u, 3939u, 8353u, 3454u, 5005u, 2683u, 5004u, 2901u, 5009u, 2423u, 5015u, 5016u, 5010u, 1710u, 5011u, 5020u, 5019u, 5018u, 5014u, 5013u, 5017u, 8354u, 3941u, 8357u, 5024u, 5021u, 5023u, 4217u, 5022u, 8355u, 5012u, 2902u, 5025u, 8358u, 2372u, 5026u, 5027u, 5030u, 5029u, 5028u, 3455u, 5007u, 5036u, 5032u, 5031u, 5033u, 5034u, 5037u, 8359u, 8360u, 4299u, 5038u, 5035u, 5039u, 1849u, 5040u, 8361u, 5042u, 5041u, 5043u, 5044u, 2991u, 2634u, 2699u, 3074u, 2264u, 2373u, 2265u, 1959u, 5045u, 2374u, 2203u, 5046u, 4047u, 3606u, 5047u, 2266u, 1797u, 3202u, 2023u, 2495u, 3818u, 3698u, 5048u, 1870u, 5051u, 3290u, 5050u, 5049u, 5052u, 3364u, 2886u, 2496u, 2955u, 3152u, 1881u, 3291u, 5053u, 5054u, 2804u, 3972u, 5057u, 5056u, 5055u, 3852u, 5064u, 4005u, 5058u, 5060u, 4022u, 5059u, 5061u, 3673u, 5062u, 3883u, 5063u, 1804u, 3884u, 3586u, 5065u, 5066u, 2267u, 1805u, 5067u, 2185u, 4171u, 4144u, 1871u, 5069u, 3292u, 2268u, 2742u, 3728u, 2743u, 2719u, 3365u, 3942u, 3408u, 2269u, 3819u, 5070u, 3440u, 2383u, 2204u, 3366u, 1444u, 2709u, 2270u, 4174u, 5071u, 5072u, 3620u, 5073u, 4316u, 4336u, 5075u, 5074u, 1730u, 5076u, 5079u, 5080u, 5078u, 3791u, 2744u, 5082u, 5081u, 5077u, 5083u, 5084u, 5085u, 5088u, 5086u, 5087u, 5089u, 1571u, 3367u, 5090u, 2157u, 1683u, 3593u, 5091u, 3568u, 3912u, 5092u, 4337u, 5093u, 3885u, 5096u, 4418u, 4434u, 2553u, 3562u, 5097u, 1940u, 3293u, 1499u, 5098u, 3859u, 2271u, 3243u, 3368u, 8362u, 4120u, 2186u, 2205u, 5099u, 5100u, 5106u, 2606u, 8363u, 3294u, 1988u, 5101u, 3770u, 3233u, 5102u, 8283u, 5103u, 1989u, 5104u, 5105u, 5107u, 3469u, 5108u, 5109u, 5110u, 5095u, 5094u, 5111u, 2100u, 3766u, 8364u, 2393u, 3782u, 3295u, 3802u, 5112u, 2745u, 1541u, 5113u, 5114u, 4123u, 3729u, 5117u, 1596u, 2925u, 5116u, 5115u, 2101u, 3153u, 5121u, 5119u, 5118u, 4236u, 2230u, 2720u, 5120u, 3427u, 2661u, 3509u, 5124u, 5123u, 5122u, 5125u, 2231u, 5126u, 3851u, 2690u, 5127u, 3754u, 3510u, 3296u, 8365u, 3399u, 5128u, 1890u, 2839u, 3771u, 1872u, 3577u, 5129u, 2497u, 3973u, 3974u, 1597u, 5134u, 8366u, 3268u, 5131u, 1684u, 5182u, 5133u, 3587u, 5132u, 5130u, 2345u, 5136u, 5142u, 5148u, 5140u, 3443u, 5145u, 3820u, 5139u, 5144u, 4300u, 2498u, 3154u, 5137u, 1941u, 5147u, 2926u, 1572u, 5141u, 1685u, 5146u, 1990u, 5143u, 5149u, 5151u, 5161u, 5159u, 5156u, 5155u, 4317u, 5157u, 1991u, 2272u, 2721u, 5164u, 5150u, 8367u, 5154u, 5138u, 1687u, 5158u, 5160u, 3244u, 2357u, 1621u, 5152u, 5163u, 5162u, 1992u, 3110u, 1761u, 2102u, 5153u, 5165u, 5168u, 5170u, 8368u, 2566u, 8369u, 5176u, 3369u, 5166u, 5174u, 1686u, 5172u, 5173u, 5169u, 5171u, 2232u, 4145u, 1806u, 1560u, 5175u, 3597u, 1422u, 3730u, 5135u, 5181u, 5185u, 4110u, 5178u, 3456u, 5183u, 2805u, 5184u, 3532u, 4362u, 5180u, 8371u, 5186u, 2346u, 2956u, 8370u, 1461u, 5179u, 5177u, 3065u, 5167u, 2463u, 3139u, 5198u, 8373u, 3066u, 5193u, 5190u, 5191u, 2607u, 5194u, 5197u, 5192u, 2636u, 5195u, 5189u, 4133u, 4132u, 5199u, 5200u, 1462u, 8374u, 5188u, 2055u, 1415u, 1807u, 8372u, 5196u, 5204u, 5203u, 5208u, 8376u, 5209u, 8375u, 5207u, 5210u, 5202u, 5206u, 5211u, 5212u, 5201u, 2535u, 5205u, 3155u, 2273u, 5187u, 2840u, 5225u, 3926u, 5215u, 5216u, 5217u, 5224u, 5223u, 4040u, 1808u, 5221u, 2104u, 1711u, 5218u, 4253u, 5220u, 1463u, 5222u, 5213u, 5219u, 5226u, 2103u, 5214u, 4196u, 4146u, 5229u, 5233u, 3101u, 4318u, 5234u, 5231u, 5228u, 8377u, 5227u, 5232u, 3869u, 3497u, 2105u, 5235u, 5230u, 5236u, 2158u, 1614u, 5244u, 1809u, 5242u, 5243u, 2358u, 5241u, 5239u, 5238u, 5245u, 5237u, 5247u, 1688u, 5249u, 5248u, 3297u, 5252u, 5250u, 5240u, 2159u, 5251u, 5255u, 5254u, 5256u, 5253u, 5257u, 5258u, 5259u, 3927u, 5261u, 5260u, 2662u, 2927u, 1667u, 1689u, 8378u, 5262u, 1440u, 2957u, 5263u, 7084u, 5264u, 2132u, 5265u, 2992u, 5266u, 5267u, 1905u, 5268u, 5269u, 5270u, 3156u, 2206u, 4106u, 3975u, 2705u, 5271u, 2993u, 7266u, 3731u, 2611u, 2394u, 5272u, 3140u, 3860u, 3182u, 5275u, 5273u, 5276u, 5274u, 5277u, 3870u, 1432u, 3821u, 3732u, 5278u, 5281u, 2746u, 1906u, 5279u, 5286u, 2747u, 5280u, 3607u, 4197u, 5282u, 5283u, 5287u, 3457u, 5284u, 2274u, 2975u, 5301u, 3685u, 3183u, 8379u, 3733u, 5370u, 3943u, 3370u, 4032u, 5290u, 1598u, 3269u, 5299u, 3215u, 5293u, 5300u, 5295u, 5302u, 5298u, 5297u, 3650u, 5291u, 1690u, 5289u, 1960u, 3184u, 5285u, 5288u, 2275u, 2972u, 2748u, 5296u, 3621u, 1961u, 1731u, 1762u, 2820u, 5304u, 5309u, 5305u, 2160u, 5310u, 2445u, 2328u, 2637u, 5292u, 2536u, 5307u, 2499u, 5308u, 1445u, 5303u, 3298u, 1962u, 1993u, 5306u, 1416u, 2384u, 2841u, 3371u, 3717u, 5312u, 3069u, 3111u, 2454u, 5313u, 5315u, 5311u, 3918u, 3318u, 3067u, 3944u, 2583u, 5327u, 5326u, 2907u, 2161u, 5320u, 2750u, 3549u, 3588u, 5318u, 3068u, 2625u, 5323u, 2749u, 5317u, 5322u, 3622u, 5316u, 2068u, 1752u, 5324u, 4240u, 2395u, 3216u, 5321u, 2973u, 2276u, 2887u, 1573u, 3035u, 5319u, 1916u, 2106u, 3336u, 5325u, 3070u, 5328u, 5330u, 3124u, 5336u, 5331u, 5333u, 3792u, 3372u, 5334u, 4147u, 4175u, 1810u, 1423u, 5332u, 5329u, 1873u, 1574u, 8380u, 5335u, 4176u, 5339u, 3128u, 5346u, 5340u, 5337u, 5344u, 5314u, 5341u, 5345u, 3699u, 3458u, 5338u, 5342u, 2107u, 2430u, 2974u, 5350u, 3389u, 8381u, 5347u, 4011u, 5348u, 5349u, 4087u, 2915u, 2133u, 5356u, 2464u, 5353u, 5352u, 3589u, 8382u, 3498u, 3400u, 5354u, 5355u, 3838u, 3608u, 2446u, 2994u, 3995u, 1732u, 5362u, 5357u, 4177u, 5364u, 5360u, 5361u, 3071u, 8383u, 5359u, 5294u, 5363u, 5358u, 5368u, 5369u, 3390u, 5371u, 2447u, 5366u, 1907u, 5372u, 5365u, 5376u, 5375u, 5374u, 5377u, 5379u, 2806u, 5378u, 5382u, 5380u, 5381u, 5343u, 5384u, 5383u, 5351u, 5385u, 5373u, 2500u, 5386u, 5387u, 5389u, 5388u, 5390u, 1691u, 2277u, 3945u, 2928u, 2207u, 5392u, 5395u, 8384u, 3809u, 1942u, 5394u, 5393u, 3623u, 5396u, 1994u, 5398u, 5397u, 1811u, 2465u, 3533u, 2108u, 2903u, 5399u, 2929u, 3391u, 3822u, 5400u, 5401u, 5402u, 3877u, 4948u, 2951u, 3803u, 2405u, 3734u, 3700u, 3428u, 4262u, 5404u, 2585u, 5405u, 1431u, 2025u, 2958u, 3823u, 5406u, 2477u, 3234u, 2502u, 2842u, 5407u, 3946u, 1590u, 2503u, 5410u, 5408u, 5411u, 4254u, 5409u, 3004u, 5412u, 3119u, 5413u, 1875u, 5415u, 5414u, 5416u, 5417u, 1876u, 3569u, 3217u, 1955u, 2504u, 3072u, 2691u, 1425u, 5418u, 1599u, 5422u, 8385u, 2278u, 5421u, 2360u, 2751u, 8388u, 5420u, 2752u, 4073u, 2359u, 1464u, 2959u, 8386u, 5427u, 8390u, 2930u, 1542u, 8391u, 2684u, 4017u, 2431u, 2753u, 8389u, 2920u, 8279u, 5426u, 5424u, 5425u, 8387u, 3270u, 5457u, 5431u, 2537u, 2279u, 5429u, 5430u, 2843u, 5428u, 2458u, 8393u, 8394u, 5433u, 5432u, 5437u, 5438u, 5434u, 8392u, 1693u, 5435u, 5436u, 3718u, 3824u, 2109u, 5439u, 8396u, 2931u, 2754u, 3245u, 2012u, 5440u, 5444u, 1640u, 5441u, 5443u, 5442u, 2706u, 3235u, 1446u, 5445u, 8397u, 5446u, 8398u, 3299u, 4310u, 2478u, 3928u, 8399u, 3976u, 5453u, 5448u, 5451u, 5450u, 8400u, 5447u, 5452u, 3539u, 5449u, 5454u, 2707u, 5455u, 4178u, 3659u, 5456u, 5458u, 5459u, 5460u, 2015u, 1543u, 2280u, 5461u, 5462u, 2712u, 3073u, 8401u, 8282u, 4661u, 3037u, 3036u, 3157u, 2388u, 4499u, 2145u, 4148u, 3947u, 3853u, 8402u, 5463u, 2432u, 3320u, 5464u, 4338u, 3977u, 3300u, 5465u, 1877u, 5466u, 5467u, 4099u, 4045u, 4033u, 4007u, 2448u, 5469u, 2612u, 3996u, 5471u, 5474u, 5473u, 1874u, 1943u, 5470u, 5472u, 5475u, 2908u, 4226u, 1450u, 2413u, 3129u, 2598u, 2808u, 5478u, 3429u, 5476u, 3112u, 5477u, 2807u, 4102u, 5479u, 5480u, 4207u, 8404u, 5485u, 2281u, 3624u, 5482u, 3459u, 5419u, 5423u, 1926u, 3610u, 5484u, 2755u, 3701u, 5490u, 3755u, 5481u, 5487u, 5486u, 2960u, 4024u, 4280u, 4018u, 1641u, 2505u, 4363u, 5489u, 2904u, 5488u, 5483u, 2208u, 5495u, 5493u, 1642u, 5491u, 5497u, 5503u, 8405u, 8407u, 3141u, 3886u, 5505u, 3761u, 5504u, 3651u, 3978u, 1812u, 3000u, 2663u, 3340u, 4149u, 5500u, 5499u, 5501u, 5498u, 5506u, 5496u, 5494u, 5502u, 5492u, 3271u, 4129u, 2575u, 2433u, 2375u, 4026u, 1724u, 8408u, 3335u, 3519u, 1544u, 2995u, 2933u, 2077u, 5508u, 2282u, 1783u, 5510u, 1775u, 5516u, 5513u, 2996u, 1734u, 2361u, 1733u, 2396u, 5511u, 2136u, 2110u, 3460u, 8409u, 5509u, 1447u, 5512u, 5514u, 2018u, 2079u, 8406u, 1813u, 1922u, 5517u, 2438u, 4028u, 2466u, 5518u, 3775u, 5530u, 1616u, 5519u, 5536u, 5520u, 4263u, 5527u, 3634u, 5535u, 5522u, 1429u, 5524u, 2283u, 5526u, 5525u, 5521u, 5532u, 2756u, 4870u, 2233u, 4227u, 5523u, 3373u, 1694u, 2362u, 5515u, 5531u, 1756u, 5529u, 5533u, 3461u, 1879u, 5563u, 8280u, 4082u, 5538u, 1878u, 5545u, 8410u, 3979u, 5546u, 5548u, 5552u, 5540u, 3205u, 3462u, 5556u, 5543u, 5553u, 5547u, 2844u, 5557u, 2932u, 5555u, 1814u, 4371u, 5537u, 5551u, 1465u, 5539u, 4067u, 5544u, 2821u, 3328u, 5534u, 5550u, 2909u, 5560u, 1772u, 2162u, 5562u, 5541u, 5561u, 5554u, 5542u, 5558u, 5559u, 5576u, 3523u, 5549u, 5572u, 5574u, 3345u, 4179u, 3845u, 5569u, 3143u, 5575u, 3038u, 5566u, 5579u, 5578u, 3556u, 5577u, 3551u, 8412u, 5581u, 5568u, 2013u, 5571u, 2692u, 3635u, 5573u, 2016u, 5565u, 5567u, 5564u, 4339u, 1749u, 5570u, 5580u, 1712u, 2420u, 1564u, 5597u, 4340u, 5600u, 8414u, 2845u, 5599u, 5598u, 5595u, 5583u, 5612u, 5582u, 5601u, 5593u, 5588u, 5585u, 5586u, 5594u, 7803u, 5591u, 2284u, 3329u, 3075u, 5589u, 5584u, 5587u, 4180u, 4021u, 5592u, 5602u, 8415u, 5610u, 5603u, 5616u, 5614u, 5609u, 5608u, 3337u, 3076u, 5606u, 5604u, 5611u, 5617u, 3750u, 5623u, 5618u, 5621u, 5615u, 3279u, 3783u, 5605u, 5613u, 2757u, 4088u, 5633u, 5620u, 2163u, 1600u, 1754u, 5596u, 8416u, 2758u, 5625u, 5632u, 2626u, 1773u, 3209u, 5622u, 8418u, 5627u, 5631u, 1995u, 1923u, 5629u, 1880u, 3520u, 5628u, 5630u, 8417u, 5624u, 8419u, 5626u, 8420u, 1755u, 3236u, 5637u, 5635u, 2234u, 5634u, 5640u, 5507u, 5636u, 5638u, 5639u, 5651u, 5647u, 5528u, 5646u, 5645u, 5642u, 5619u, 5644u, 5643u, 5649u, 4329u, 5652u, 2064u, 5648u, 5650u, 8421u, 8422u, 3672u, 5653u, 5657u, 5654u, 4218u, 5655u, 5607u, 5658u, 5659u, 1524u, 5661u, 2138u, 2538u, 2026u, 1601u, 4198u, 5663u, 5662u, 5665u, 1908u, 2027u, 1815u, 5668u, 5667u, 5669u, 1643u, 3218u, 5670u, 1816u, 5672u, 5671u, 5673u, 5674u, 5675u, 2506u, 2934u, 2350u, 3839u, 3919u, 4359u, 2528u, 2397u, 4311u, 5676u, 5677u, 2507u, 5678u, 5679u, 5681u, 5680u, 4003u, 2693u, 2613u, 2479u, 5682u, 5684u, 2822u, 5683u, 5685u, 5686u, 5687u, 5688u, 5689u, 5691u, 5690u, 5692u, 1602u, 3237u, 5693u, 2449u, 1735u, 5694u, 3417u, 4837u, 1882u, 5695u, 5696u, 3929u, 4019u, 3516u, 5697u, 3735u, 8423u, 3756u, 4092u, 5698u, 5700u, 5699u, 5702u, 5701u, 5704u, 2508u, 4058u, 5705u, 5706u, 1883u, 5707u, 5709u, 5708u, 2888u, 3784u, 1545u, 3702u, 8424u, 3374u, 2664u, 1944u, 3703u, 2551u, 5711u, 1817u, 1591u, 8425u, 3559u, 5710u, 2285u, 3246u, 5712u, 5720u, 5713u, 8427u, 3134u, 1945u, 5721u, 2139u, 1884u, 5719u, 5717u, 5714u, 4199u, 8426u, 3321u, 3534u, 5715u, 5723u, 5722u, 2070u, 1610u, 2376u, 5716u, 5718u, 4002u, 3185u, 4034u, 5731u, 5732u, 1644u, 3861u, 4134u, 5734u, 2540u, 2759u, 5727u, 5733u, 1575u, 1996u, 5724u, 5729u, 2997u, 3652u, 3736u, 5726u, 3948u, 5728u, 5737u, 8428u, 5735u, 5730u, 3949u, 3611u, 1946u, 3388u, 3272u, 5738u, 5736u, 3158u, 5725u, 1546u, 8429u, 4181u, 5749u, 5748u, 2999u, 5745u, 4211u, 3499u, 5739u, 3326u, 1547u, 2286u, 5742u, 2638u, 5747u, 5746u, 5741u, 5744u, 1763u, 5743u, 3612u, 4243u, 2809u, 2998u, 5755u, 5753u, 3804u, 5750u, 5752u, 1529u, 2287u, 4341u, 1720u, 3825u, 8431u, 4200u, 1695u, 2846u, 5754u, 5759u, 8430u, 2760u, 4151u, 5756u, 5751u, 5757u, 8432u, 4291u, 3466u, 3511u, 8433u, 1713u, 1556u, 5763u, 5766u, 4264u, 4203u, 5773u, 5767u, 5764u, 4281u, 5770u, 8434u, 2673u, 5772u, 5777u, 3464u, 5775u, 5769u, 3219u, 5776u, 5765u, 5771u, 5778u, 1501u, 5768u, 5779u, 2847u, 8436u, 2694u, 3858u, 2363u, 8435u, 5760u, 5774u, 3409u, 8437u, 2935u, 1764u, 2398u, 2761u, 5762u, 2665u, 2111u, 5761u, 5783u, 2708u, 2187u, 5798u, 5792u, 1963u, 3430u, 5787u, 5796u, 1424u, 1521u, 8440u, 1622u, 5789u, 3113u, 5780u, 5782u, 2288u, 5799u, 8438u, 5794u, 8441u, 5786u, 5793u, 4052u, 5791u, 5795u, 2209u, 2762u, 3220u, 8439u, 5785u, 4150u, 5788u, 5781u, 3465u, 5784u, 5790u, 4372u, 2567u, 4041u, 5800u, 3679u, 5812u, 2188u, 2695u, 5802u, 4244u, 2289u, 5815u, 1487u, 5813u, 5801u, 5807u, 5809u, 4182u, 5804u, 3397u, 5806u, 8442u, 5814u, 5808u, 4080u, 5803u, 2539u, 5827u, 1765u, 5805u, 5810u, 5811u, 3177u, 3159u, 5819u, 5825u, 5823u, 3392u, 5830u, 5820u, 5821u, 5797u, 1968u, 3785u, 2568u, 2342u, 4342u, 5817u, 5829u, 1576u, 3077u, 3660u, 1818u, 4319u, 4042u, 3339u, 5824u, 5826u, 3025u, 5828u, 5822u, 5816u, 1820u, 2140u, 5842u, 5837u, 3001u, 1758u, 2696u, 5846u, 5839u, 3301u, 5836u, 3346u, 5871u, 5833u, 5832u, 5841u, 5835u, 5834u, 5840u, 2914u, 5831u, 8443u, 5843u, 5844u, 1819u, 5849u, 5848u, 5850u, 5853u, 3418u, 5847u, 8444u, 5851u, 2134u, 3190u, 5845u, 3598u, 5852u, 5857u, 5855u, 5858u, 5861u, 5854u, 2329u, 3579u, 5758u, 4219u, 5856u, 5860u, 3186u, 5859u, 5838u, 8445u, 7404u, 5864u, 5868u, 5866u, 8446u, 8447u, 5862u, 5863u, 5867u, 5865u, 3805u, 5873u, 5870u, 5869u, 5872u, 3529u, 5874u, 3280u, 3178u, 8448u, 2918u, 5875u, 5877u, 5876u, 5818u, 5878u, 3548u, 5879u, 1645u, 3467u, 1696u, 1947u, 2599u, 2399u, 8449u, 4330u, 2889u, 1577u, 5881u, 5880u, 8450u, 5884u, 3221u, 5887u, 5882u, 5886u, 5885u, 3415u, 1466u, 8278u, 4314u, 5889u, 1511u, 5891u, 5890u, 5888u, 5883u, 3950u, 5893u, 8452u, 5892u, 8451u, 1578u, 5895u, 3871u, 5894u, 4062u, 2764u, 3026u, 2763u, 8454u, 8455u, 4320u, 5901u, 3002u, 5897u, 5902u, 1579u, 8453u, 5900u, 3636u, 5896u, 5899u, 2765u, 3714u, 5903u, 2586u, 3003u, 5906u, 5898u, 2074u, 5904u, 4183u, 5907u, 7807u, 2678u, 5908u, 5909u, 3585u, 5911u, 5912u, 8457u, 3590u, 3468u, 5914u, 5916u, 4282u, 5913u, 5915u, 1580u, 5910u, 4758u, 5917u, 3078u, 2467u, 5919u, 5918u, 2823u, 4662u, 5920u, 5922u, 5905u, 5921u, 8458u, 5923u, 3661u, 5924u, 5925u, 5926u, 5927u, 3351u, 5929u, 5928u, 5930u, 5931u, 2600u, 3826u, 4117u, 5932u, 5933u, 3061u, 2541u, 5934u, 5935u, 5936u, 3903u, 3704u, 5937u, 3626u, 3302u, 5938u, 1668u, 1956u, 4079u, 4063u, 1617u, 4343u, 3997u, 3863u, 2936u, 5939u, 3512u, 2164u, 5940u, 2401u, 5942u, 5941u, 5943u, 5944u, 5945u, 1909u, 5946u, 5947u, 2165u, 3705u, 8459u, 5949u, 2810u, 5948u, 8460u, 1997u, 5950u, 5952u, 5951u, 5953u, 2210u, 5954u, 2046u, 3039u, 2348u, 5956u, 5957u, 5955u, 2614u, 3517u, 1998u, 5959u, 3207u, 5958u, 4344u, 3637u, 5962u, 5964u, 5961u, 4093u, 5963u, 5965u, 4265u, 8461u, 5969u, 5968u, 3281u, 3584u, 2166u, 5967u, 5966u, 4152u, 4153u, 5970u, 1581u, 2341u, 2509u, 5971u, 5972u, 5974u, 2666u, 5976u, 5975u, 5977u, 1736u, 5979u, 8463u, 5978u, 5981u, 5980u, 2189u, 4237u, 2017u, 1603u, 2047u, 1850u, 4301u, 5983u, 5985u, 8464u, 5986u, 1646u, 5982u, 8465u, 2468u, 3322u, 5984u, 8468u, 8466u, 5989u, 2615u, 8467u, 5987u, 2097u, 3706u, 5988u, 6015u, 8470u, 5994u, 2190u, 1948u, 5991u, 4228u, 8469u, 4245u, 3187u, 5993u, 8471u, 8473u, 8472u, 8474u, 5995u, 4283u, 2028u, 3757u, 3613u, 5996u, 5998u, 6001u, 5997u, 6000u, 2235u, 1548u, 6002u, 2899u, 5999u, 4289u, 8475u, 6005u, 7805u, 6003u, 6006u, 5992u, 6004u, 2377u, 6007u, 6008u, 4229u, 8476u, 6009u, 6010u, 8477u, 5990u, 6011u, 1821u, 2542u, 6012u, 6013u, 6014u, 1530u, 6016u, 3786u, 6017u, 1789u, 6018u, 6019u, 6020u, 6022u, 6023u, 6021u, 3810u, 6025u, 6024u, 8478u, 6027u, 6026u, 6028u, 6029u, 6031u, 6030u, 2344u, 6033u, 6032u, 1822u, 2870u, 3411u, 6034u, 2937u, 2469u, 1592u, 6035u, 4184u, 3920u, 6036u, 8347u, 3419u, 4154u, 2290u, 2848u, 3238u, 4625u, 3303u, 1669u, 6037u, 6038u, 6043u, 6041u, 6040u, 5391u, 1697u, 6039u, 1467u, 3675u, 3707u, 4246u, 6044u, 6042u, 3255u, 2919u, 3676u, 3772u, 6046u, 4241u, 2112u, 6047u, 6045u, 3719u, 6048u, 6049u, 8479u, 1468u, 2811u, 6054u, 6051u, 3554u, 6050u, 1885u, 6057u, 6052u, 6053u, 6056u, 6055u, 3764u, 3041u, 3040u, 1910u, 6058u, 6059u, 6060u, 6062u, 6061u, 1557u, 6070u, 3737u, 6064u, 6066u, 6068u, 2849u, 6069u, 6067u, 2569u, 6063u, 6065u, 3793u, 2766u, 6072u, 6071u, 6073u, 2543u, 2364u, 3470u, 6074u, 3332u, 6076u, 4230u, 6075u, 3080u, 6081u, 6083u, 6084u, 3247u, 6082u, 6079u, 6077u, 6078u, 6080u, 6087u, 6085u, 6086u, 6088u, 6090u, 6091u, 6092u, 6093u, 6089u, 6095u, 6094u, 6096u, 4266u, 6099u, 6097u, 6098u, 1851u, 4135u, 3895u, 6101u, 6100u, 6102u, 6103u, 6107u, 6104u, 6105u, 6106u, 6108u, 6109u, 6110u, 6111u, 6112u, 3680u, 3431u, 6113u, 3653u, 3779u, 6114u, 8480u, 6115u, 3393u, 1698u, 2291u, 6116u, 6117u, 6118u, 2452u, 6120u, 6119u, 6121u, 6122u, 8483u, 8481u, 8482u, 8484u, 3738u, 6123u, 6124u, 7780u, 6125u, 6126u, 6127u, 2457u, 6128u, 3625u, 4010u, 1549u, 1558u, 6129u, 6131u, 6130u, 3463u, 2938u, 5664u, 6132u, 4074u, 6133u, 1823u, 3720u, 6134u, 6135u, 6136u, 4101u, 4094u, 3319u, 3081u, 6138u, 2697u, 2767u, 6141u, 6140u, 6139u, 3758u, 1824u, 2170u, 6147u, 6144u, 2850u, 4059u, 6143u, 6145u, 6146u, 6142u, 6148u, 6149u, 3304u, 1852u, 3264u, 8486u, 6150u, 6151u, 6154u, 2890u, 3513u, 6155u, 3998u, 6152u, 6153u, 6158u, 6157u, 6156u, 6160u, 6159u, 6161u, 6163u, 6162u, 3898u, 2685u, 4267u, 6164u, 3500u, 6165u, 6166u, 6170u, 6168u, 6169u, 6167u, 6171u, 6172u, 6173u, 6174u, 4064u, 6175u, 4121u, 6176u, 3241u, 3645u, 2048u, 3222u, 6177u, 1999u, 2961u, 6178u, 2378u, 6179u, 6180u, 2167u, 2402u, 6182u, 8488u, 3437u, 2403u, 1925u, 3951u, 3614u, 3438u, 2315u, 6184u, 8489u, 2768u, 8490u, 4247u, 2292u, 2168u, 3668u, 6186u, 8491u, 6188u, 2236u, 6187u, 3375u, 6190u, 1714u, 6185u, 3739u, 1519u, 2425u, 4373u, 6189u, 6191u, 3896u, 2970u, 6193u, 6194u, 6192u, 1737u, 6200u, 6199u, 2544u, 6201u, 6196u, 6202u, 6197u, 3721u, 6195u, 6198u, 6205u, 6204u, 4012u, 6203u, 1484u, 6207u, 6206u, 2769u, 6208u, 3042u, 6210u, 6209u, 6211u, 6181u, 6183u, 6213u, 6212u, 8492u, 2545u, 4302u, 2587u, 6214u, 2090u, 1911u, 1886u, 2510u, 4155u, 6220u, 6219u, 3043u, 6216u, 6218u, 2674u, 2851u, 6217u, 6215u, 3581u, 2770u, 3787u, 2404u, 3471u, 6221u, 6222u, 6244u, 2029u, 4352u, 3028u, 6223u, 1647u, 3376u, 3854u, 8496u, 8498u, 6224u, 1969u, 6225u, 6227u, 6228u, 3580u, 6229u, 6230u, 6231u, 2030u, 1648u, 3514u, 2639u, 2511u, 6232u, 2640u, 1639u, 3794u, 6233u, 3740u, 3044u, 6236u, 6237u, 3644u, 2852u, 6234u, 3260u, 6235u, 2771u, 1469u, 1888u, 6238u, 3377u, 6239u, 2952u, 4054u, 3762u, 6240u, 6241u, 3248u, 4268u, 6243u, 6242u, 2616u, 6245u, 1489u, 6248u, 6246u, 1649u, 2113u, 6247u, 2293u, 2337u, 3923u, 6249u, 3999u, 6251u, 2962u, 1550u, 1623u, 1421u, 6250u, 6252u, 6253u, 2812u, 6254u, 1738u, 6256u, 2141u, 1949u, 6257u, 2058u, 6258u, 3005u, 3522u, 2977u, 2434u, 6259u, 3261u, 3082u, 6261u, 6263u, 6260u, 6262u, 2069u, 6264u, 2073u, 1950u, 4185u, 6266u, 6267u, 1517u, 6270u, 1777u, 6269u, 6268u, 6272u, 6265u, 6273u, 4238u, 6274u, 6275u, 8499u, 4877u, 6277u, 6276u, 6278u, 6279u, 4250u, 6280u, 7504u, 2772u, 6281u, 6282u, 2686u, 3501u, 6283u, 8500u, 3203u, 8502u, 6284u, 3223u, 6285u, 1978u, 4542u, 3256u, 2556u, 1825u, 6286u, 6299u, 6289u, 1951u, 6288u, 6301u, 6287u, 2773u, 6291u, 6292u, 3394u, 6293u, 1753u, 2877u, 3827u, 6295u, 3173u, 6290u, 6294u, 6296u, 2440u, 6303u, 3773u, 3671u, 3472u, 2031u, 6302u, 6300u, 3686u, 6297u, 3257u, 3474u, 3473u, 2435u, 6321u, 6305u, 6307u, 6310u, 6311u, 6308u, 6309u, 6306u, 6304u, 6298u, 3900u, 1650u, 6318u, 6315u, 6320u, 6319u, 3654u, 4048u, 2470u, 6313u, 6322u, 6317u, 6316u, 6312u, 8503u, 6314u, 1826u, 3224u, 3006u, 3667u, 6327u, 3669u, 2978u, 6324u, 3712u, 6328u, 3904u, 3254u, 6323u, 6325u, 6326u, 6329u, 2573u, 3515u, 6334u, 6333u, 6330u, 4345u, 6339u, 6343u, 6340u, 6336u, 6337u, 6342u, 6331u, 4658u, 6338u, 6332u, 6341u, 6347u, 1827u, 6344u, 6345u, 6346u, 6349u, 6348u, 3751u, 6350u, 4321u, 3930u, 6355u, 6352u, 6351u, 2963u, 6354u, 6356u, 6353u, 6360u, 6357u, 6358u, 6335u, 6359u, 6361u, 6362u, 3891u, 6363u, 4107u, 2019u, 2076u, 6364u, 3873u, 2891u, 4057u, 6365u, 4248u, 3655u, 3045u, 3591u, 2676u, 1441u, 6370u, 6368u, 6366u, 1786u, 2774u, 6371u, 6369u, 6367u, 6375u, 6374u, 6373u, 6372u, 6376u, 6377u, 2939u, 6378u, 6380u, 6379u, 2211u, 3031u, 6382u, 3475u, 6381u, 6383u, 3874u, 3083u, 2294u, 6384u, 4269u, 6386u, 6387u, 6388u, 6389u, 2512u, 6390u, 2114u, 1953u, 1889u, 6392u, 4124u, 2295u, 6391u, 6395u, 4111u, 3599u, 3778u, 2698u, 6394u, 2588u, 2296u, 2513u, 1952u, 3875u, 6393u, 3046u, 3981u, 2436u, 2514u, 3350u, 6398u, 4292u, 2406u, 6399u, 2853u, 6401u, 2775u, 2365u, 6400u, 2641u, 2191u, 3047u, 6396u, 6402u, 8505u, 6397u, 2115u, 6405u, 6409u, 2142u, 6404u, 6413u, 8506u, 2297u, 4212u, 1437u, 6410u, 1954u, 6407u, 6408u, 3476u, 6406u, 6403u, 1699u, 2981u, 2169u, 6415u, 6412u, 6414u, 6411u, 2116u, 3120u, 6416u, 3085u, 6429u, 8508u, 6425u, 6419u, 6423u, 2627u, 1470u, 6418u, 6426u, 6430u, 2298u, 4095u, 3343u, 6420u, 8507u, 6428u, 6417u, 3225u, 6422u, 1438u, 4083u, 6421u, 2032u, 3741u, 3084u, 4277u, 2710u, 6469u, 8509u, 6431u, 3007u, 6427u, 6432u, 6434u, 3378u, 6437u, 6433u, 3905u, 1828u, 4084u, 1471u, 6436u, 4322u, 6435u, 1582u, 3553u, 6438u, 6445u, 6439u, 6446u, 6442u, 3662u, 2579u, 6444u, 6441u, 6447u, 6440u, 2667u, 3952u, 2675u, 6443u, 6455u, 6451u, 6454u, 6452u, 6456u, 6450u, 6424u, 2964u, 3708u, 6453u, 6448u, 3008u, 2117u, 2642u, 8510u, 2824u, 3029u, 6459u, 6461u, 6462u, 6458u, 6460u, 6449u, 6457u, 6465u, 6464u, 4037u, 2078u, 6463u, 6467u, 6466u, 6470u, 6472u, 2471u, 6468u, 6473u, 6474u, 8272u, 6475u, 6481u, 3410u, 6477u, 6476u, 6478u, 6479u, 6480u, 6482u, 6483u, 1829u, 6484u, 6485u, 6486u, 8511u, 6487u, 6488u, 6489u, 6490u, 6491u, 6493u, 6492u, 6494u, 6495u, 6496u, 6499u, 6497u, 6498u, 2414u, 2118u, 3249u, 3684u, 2711u, 3616u, 3742u, 6500u, 5246u, 6501u, 6503u, 4204u, 6502u, 6505u, 6504u, 4186u, 6506u, 3759u, 6507u, 6510u, 6509u, 6508u, 8512u, 6511u, 2085u, 3009u, 1912u, 6515u, 6512u, 6513u, 6516u, 6517u, 6514u, 1512u, 1604u, 6519u, 6520u, 6521u, 4201u, 2643u, 6523u, 6522u, 2892u, 6524u, 6525u, 6526u, 1854u, 1830u, 6527u, 6528u, 4008u, 4202u, 4187u, 4346u, 2300u, 6531u, 2589u, 6530u, 6532u, 2546u, 3150u, 6533u, 2299u, 4096u, 6534u, 6535u, 6536u, 6537u, 6538u, 2547u, 4118u, 6540u, 3226u, 6539u, 6542u, 6541u, 6543u, 2940u, 6544u, 6545u, 3878u, 6546u, 3086u, 6547u, 6548u, 4323u, 6551u, 6550u, 6549u, 3305u, 6552u, 2825u, 6553u, 6554u, 4347u, 6555u, 6556u, 6558u, 6557u, 3670u, 3566u, 4353u, 3674u, 6560u, 2776u, 3769u, 6561u, 6559u, 1831u, 2213u, 2515u, 3743u, 2171u, 3982u, 6564u, 6562u, 2301u, 2302u, 1482u, 2421u, 3628u, 1472u, 6569u, 3227u, 3627u, 3160u, 6571u, 6567u, 6570u, 6565u, 6568u, 3953u, 2214u, 1502u, 6566u, 6573u, 6574u, 3502u, 2000u, 6585u, 3600u, 2516u, 2001u, 2953u, 4361u, 4055u, 6572u, 2965u, 1930u, 6575u, 6577u, 6576u, 6578u, 3201u, 3601u, 3306u, 6582u, 6581u, 6579u, 2872u, 3828u, 6584u, 6583u, 2303u, 4374u, 6600u, 6588u, 6589u, 2617u, 6587u, 2343u, 6586u, 6590u, 3307u, 3855u, 3010u, 3161u, 6594u, 6595u, 6591u, 6592u, 6593u, 2304u, 6601u, 6597u, 3829u, 4023u, 3767u, 6596u, 6599u, 6598u, 3983u, 6602u, 6603u, 3030u, 6604u, 6606u, 6610u, 6607u, 6605u, 3602u, 6608u, 6609u, 1615u, 6616u, 6611u, 6612u, 6613u, 3102u, 6615u, 6614u, 6617u, 6618u, 6619u, 2854u, 1670u, 6620u, 4284u, 2548u, 2644u, 2517u, 3250u, 6621u, 6622u, 1520u, 6623u, 6624u, 6625u, 6626u, 6627u, 2002u, 5367u, 6628u, 2982u, 6629u, 2580u, 6630u, 4433u, 6631u, 3915u, 1845u, 3011u, 2687u, 3840u, 2645u, 6632u, 2305u, 6633u, 3709u, 6647u, 6635u, 3142u, 3656u, 2192u, 6634u, 3012u, 6636u, 3379u, 6638u, 6637u, 6640u, 6639u, 6641u, 6643u, 6642u, 1832u, 6644u, 6645u, 6646u, 2366u, 4270u, 6648u, 2826u, 1583u, 6649u, 6650u, 6651u, 1491u, 6652u, 6653u, 3830u, 2576u, 6655u, 1700u, 1427u, 6654u, 6657u, 3617u, 2855u, 1651u, 3954u, 2128u, 2033u, 6656u, 1671u, 1788u, 1584u, 6661u, 4303u, 3162u, 3795u, 6673u, 1652u, 6671u, 6669u, 6660u, 6658u, 6659u, 2604u, 2049u, 3282u, 3526u, 1552u, 6663u, 6662u, 6668u, 6664u, 6667u, 8514u, 4089u, 6666u, 1653u, 1784u, 6670u, 6672u, 2119u, 6676u, 6685u, 6686u, 1420u, 6693u, 1490u, 6684u, 6683u, 6678u, 6677u, 6675u, 6674u, 3262u, 3192u, 6680u, 6679u, 6682u, 3087u, 2120u, 1536u, 6681u, 2306u, 3088u, 8515u, 6699u, 6700u, 1654u, 1611u, 6697u, 8516u, 6687u, 6695u, 6702u, 6696u, 6694u, 6665u, 6692u, 6688u, 1833u, 6690u, 6701u, 6691u, 6703u, 6689u, 3663u, 4208u, 6698u, 6720u, 6712u, 2910u, 8517u, 1917u, 2034u, 6707u, 1656u, 2777u, 6710u, 2407u, 3432u, 6715u, 3931u, 6706u, 1655u, 2215u, 3768u, 6716u, 6704u, 8518u, 6713u, 6723u, 6708u, 6709u, 3503u, 6714u, 6711u, 3955u, 6717u, 1473u, 6705u, 6719u, 6718u, 3646u, 6725u, 6736u, 1785u, 6739u, 6721u, 6726u, 4213u, 6735u, 8519u, 4188u, 4239u, 3283u, 1766u, 3841u, 6741u, 3478u, 1426u, 6734u, 6730u, 3089u, 6724u, 6732u, 6737u, 3583u, 1419u, 6729u, 6738u, 3847u, 6733u, 6728u, 2778u, 2646u, 2549u, 4097u, 3798u, 6744u, 6753u, 6731u, 1778u, 8520u, 2813u, 6742u, 6747u, 3090u, 6743u, 6750u, 3258u, 6751u, 4189u, 6740u, 1715u, 6746u, 6749u, 4053u, 6752u, 6745u, 6748u, 8276u, 3956u, 4324u, 6756u, 6763u, 6755u, 2572u, 6722u, 3899u, 4043u, 6762u, 6761u, 6757u, 6758u, 1525u, 6760u, 6754u, 3342u, 6759u, 1503u, 3103u, 3888u, 6764u, 6768u, 3722u, 6767u, 2779u, 2578u, 6770u, 2003u, 8521u, 6771u, 3848u, 6766u, 8522u, 6727u, 6765u, 4370u, 3479u, 3842u, 8523u, 6778u, 6784u, 6785u, 6772u, 3657u, 6782u, 6774u, 6776u, 6786u, 6775u, 6779u, 1585u, 3546u, 6780u, 6783u, 6773u, 3013u, 6777u, 2450u, 2856u, 2083u, 4125u, 4130u, 2713u, 8525u, 6790u, 6788u, 4369u, 6787u, 4220u, 6789u, 6791u, 6792u, 6795u, 6793u, 3480u, 6794u, 3710u, 6781u, 2714u, 6796u, 6801u, 3091u, 6800u, 6769u, 6802u, 3048u, 6797u, 6799u, 6798u, 5656u, 5641u, 6804u, 6803u, 4221u, 6137u, 6805u, 6806u, 6807u, 2216u, 1931u, 6809u, 4572u, 1964u, 4255u, 2056u, 6810u, 6811u, 3273u, 6812u, 3567u, 1435u, 1664u, 6817u, 6818u, 6813u, 2472u, 6814u, 3605u, 6815u, 6816u, 6826u, 6820u, 6823u, 6819u, 6821u, 6822u, 2593u, 6824u, 3228u, 2121u, 1725u, 6827u, 1722u, 6832u, 6828u, 6831u, 3691u, 6829u, 6830u, 3799u, 3723u, 6833u, 3194u, 6843u, 6839u, 1672u, 6837u, 3957u, 6838u, 6835u, 6836u, 6841u, 6844u, 6842u, 6840u, 6834u, 3251u, 6851u, 4051u, 6849u, 6850u, 6845u, 6847u, 6848u, 6846u, 2983u, 4348u, 6855u, 6856u, 6862u, 2829u, 6858u, 6861u, 6853u, 6852u, 6863u, 1657u, 6859u, 6864u, 6860u, 6857u, 3308u, 6854u, 3643u, 6868u, 4162u, 6867u, 6866u, 6875u, 6869u, 6877u, 4205u, 6880u, 6871u, 6872u, 6876u, 6879u, 6878u, 6870u, 6873u, 6890u, 6883u, 6881u, 6882u, 6887u, 6888u, 1701u, 1913u, 6886u, 6865u, 8528u, 6885u, 6889u, 6884u, 6891u, 6893u, 6892u, 6895u, 6894u, 6825u, 6899u, 6896u, 6897u, 6898u, 6900u, 2143u, 6902u, 6901u, 2647u, 2307u, 5740u, 6903u, 2680u, 1716u, 6904u, 1553u, 2780u, 6905u, 2308u, 6906u, 1474u, 3788u, 6907u, 2893u, 6914u, 6911u, 3274u, 6912u, 6909u, 2035u, 6908u, 6915u, 2089u, 3163u, 6921u, 6917u, 3122u, 6916u, 6919u, 6910u, 6920u, 6922u, 3744u, 6918u, 6923u, 6925u, 2212u, 6913u, 1442u, 6924u, 2408u, 4315u, 6926u, 6927u, 3092u, 4231u, 6928u, 4156u, 6929u, 6930u, 3921u, 6931u, 2381u, 4232u, 6936u, 6937u, 2781u, 6935u, 8529u, 4206u, 6932u, 6934u, 2942u, 2913u, 6933u, 6938u, 3856u, 6940u, 6939u, 1767u, 3958u, 6941u, 8273u, 6953u, 6943u, 6944u, 6945u, 6946u, 6950u, 6951u, 6949u, 6947u, 6942u, 6948u, 6952u, 7448u, 1605u, 6955u, 2036u, 6954u, 6957u, 6956u, 6959u, 6958u, 6960u, 2648u, 6961u, 6962u, 6963u, 2943u, 4190u, 6964u, 3857u, 3609u, 6965u, 6966u, 2172u, 1891u, 6967u, 2518u, 3604u, 6968u, 1739u, 6969u, 6971u, 4222u, 6970u, 2857u, 6972u, 6973u, 6974u, 1834u, 6975u, 6976u, 6977u, 6978u, 1740u, 6979u, 6980u, 6981u, 1679u, 2827u, 6982u, 6983u, 6984u, 2193u, 3380u, 6985u, 2122u, 2873u, 6988u, 3481u, 6987u, 8530u, 2084u, 6986u, 3188u, 1892u, 6989u, 6990u, 2782u, 2144u, 6991u, 3959u, 2976u, 1965u, 4126u, 3049u, 6992u, 8531u, 2858u, 3275u, 2783u, 6993u, 6996u, 6997u, 2379u, 3135u, 6995u, 2784u, 3789u, 6994u, 2519u, 1554u, 7001u, 2123u, 2521u, 2520u, 4368u, 7000u, 6999u, 3014u, 1924u, 4358u, 1717u, 2785u, 8532u, 6998u, 7003u, 7004u, 7002u, 2217u, 4167u, 2522u, 3578u, 7007u, 2945u, 3229u, 4157u, 7010u, 2237u, 2944u, 7006u, 7011u, 2238u, 7008u, 7009u, 8533u, 7005u, 2979u, 3518u, 3210u, 1658u, 3745u, 1914u, 8534u, 3309u, 7014u, 7012u, 3239u, 2946u, 1835u, 7013u, 2878u, 4271u, 4355u, 7015u, 7026u, 3310u, 7025u, 8535u, 7022u, 7030u, 7023u, 7019u, 3381u, 7018u, 7016u, 4136u, 2523u, 7020u, 7017u, 8537u, 7024u, 2715u, 2194u, 3191u, 3984u, 1561u, 1475u, 3482u, 7028u, 7027u, 3547u, 7032u, 7021u, 7031u, 7033u, 2173u, 7029u, 2309u, 2590u, 7034u, 4191u, 7037u, 7040u, 7038u, 3780u, 7035u, 2037u, 7039u, 7041u, 7045u, 7042u, 7044u, 7043u, 8538u, 7046u, 2554u, 7048u, 7047u, 3831u, 7050u, 2124u, 7049u, 7051u, 7052u, 1915u, 6518u, 2814u, 7053u, 2239u, 7054u, 8539u, 7055u, 2473u, 5403u, 7056u, 7057u, 2649u, 7058u, 7059u, 7060u, 7061u, 7062u, 3206u, 7063u, 7065u, 7064u, 3483u, 7066u, 3960u, 7067u, 7068u, 7069u, 7070u, 3535u, 2786u, 7071u, 2330u, 4431u, 7072u, 7073u, 3790u, 7074u, 7082u, 7075u, 7077u, 7076u, 7078u, 3985u, 7079u, 7080u, 7081u, 7083u, 1704u, 3360u, 3832u, 2415u, 2310u, 3806u, 1660u, 3711u, 7086u, 1836u, 2966u, 7085u, 7090u, 3284u, 4108u, 7088u, 7089u, 1893u, 7091u, 3638u, 3164u, 3746u, 3412u, 7087u, 3986u, 1673u, 7093u, 4331u, 3323u, 4360u, 2524u, 7092u, 3118u, 7109u, 3015u, 3565u, 3807u, 7096u, 2474u, 2525u, 2787u, 3640u, 2174u, 7095u, 7094u, 3833u, 2570u, 3433u, 8540u, 8541u, 7098u, 7099u, 2311u, 7097u, 7100u, 7101u, 7103u, 3104u, 7102u, 1855u, 7105u, 7104u, 7106u, 8542u, 7108u, 7110u, 7111u, 2967u, 2584u, 7112u, 1741u, 7113u, 3093u, 7114u, 7115u, 3834u, 8543u, 1894u, 7116u, 3311u, 1562u, 7117u, 2618u, 2905u, 3114u, 7120u, 7119u, 7118u, 7126u, 7124u, 7121u, 7123u, 7122u, 7125u, 1966u, 7129u, 2968u, 7130u, 2218u, 7127u, 7128u, 4332u, 3312u, 3016u, 7131u, 7134u, 7132u, 7133u, 4192u, 3484u, 7137u, 7135u, 7136u, 7138u, 7152u, 7141u, 7142u, 7140u, 7139u, 3382u, 7144u, 7148u, 7145u, 7143u, 7146u, 7147u, 7154u, 7149u, 2969u, 7151u, 7153u, 7150u, 7156u, 2650u, 7155u, 7157u, 7158u, 7161u, 7160u, 7159u, 7163u, 7162u, 4127u, 7165u, 7164u, 7166u, 7167u, 7169u, 7168u, 2859u, 7170u, 2050u, 7171u, 7173u, 7174u, 7175u, 7172u, 7176u, 2591u, 7177u, 1895u, 2086u, 8545u, 2175u, 7178u, 3557u, 3413u, 7179u, 7182u, 2557u, 7181u, 7180u, 2125u, 7183u, 1742u, 7185u, 2409u, 7184u, 7193u, 7187u, 7189u, 3922u, 7186u, 7188u, 7192u, 7190u, 1896u, 7191u, 7194u, 3629u, 4285u, 2651u, 7195u, 4137u, 7197u, 7196u, 7200u, 4168u, 7199u, 1768u, 7198u, 7203u, 7202u, 7201u, 3401u, 7204u, 7205u, 7206u, 2331u, 2072u, 7207u, 7208u, 7209u, 2860u, 7210u, 2550u, 7211u, 7212u, 4606u, 4605u, 7213u, 6471u, 7214u, 3199u, 2830u, 3603u, 7215u, 3906u, 3341u, 2349u, 3204u, 1513u, 4035u, 2874u, 2129u, 2038u, 3907u, 7216u, 7218u, 7217u, 1661u, 3563u, 7219u, 3658u, 3402u, 7220u, 2681u, 7222u, 4075u, 7237u, 7224u, 7225u, 3330u, 3165u, 3094u, 3485u, 7223u, 1932u, 7232u, 7229u, 7242u, 3486u, 3259u, 7226u, 3383u, 3434u, 7227u, 7231u, 2883u, 3642u, 3333u, 2947u, 7230u, 3115u, 3105u, 7228u, 1418u, 4325u, 7233u, 3166u, 2652u, 2861u, 7235u, 7234u, 1488u, 7236u, 3774u, 7244u, 3536u, 2894u, 3252u, 2061u, 7243u, 4158u, 1534u, 3908u, 1662u, 7238u, 7239u, 7240u, 7241u, 3504u, 3198u, 1476u, 7245u, 7246u, 7804u, 3130u, 7247u, 1586u, 3051u, 2176u, 4193u, 8548u, 7248u, 3395u, 3095u, 2592u, 7249u, 7252u, 2700u, 7250u, 3018u, 3017u, 1477u, 4272u, 7254u, 3747u, 7256u, 7255u, 7253u, 6271u, 1837u, 7221u, 7258u, 7257u, 7259u, 4159u, 3542u, 3961u, 7260u, 2594u, 7261u, 7262u, 7263u, 3384u, 1483u, 2312u, 4349u, 7267u, 8549u, 2087u, 7264u, 7265u, 3843u, 1743u, 4160u, 2004u, 3435u, 7268u, 7269u, 8551u, 7270u, 8552u, 3385u, 7272u, 7271u, 3528u, 7273u, 2653u, 2601u, 3630u, 3276u, 2619u, 2895u, 7274u, 7275u, 2880u, 7276u, 7277u, 7278u, 4214u, 2654u, 7280u, 7279u, 2313u, 2338u, 2475u, 7283u, 2701u, 7282u, 7281u, 3174u, 2240u, 2948u, 3681u, 2656u, 7284u, 2788u, 7287u, 7285u, 7286u, 7289u, 7288u, 2815u, 7290u, 7291u, 7292u, 3713u, 2400u, 2602u, 7293u, 7294u, 4233u, 2668u, 4119u, 4273u, 7295u, 2039u, 7296u, 8554u, 3386u, 8553u, 7299u, 1779u, 2862u, 8555u, 7297u, 7298u, 3353u, 8558u, 8559u, 4000u, 2065u, 8556u, 8557u, 7301u, 7302u, 7300u, 7304u, 8560u, 8562u, 3540u, 1726u, 8561u, 7308u, 7305u, 7307u, 7303u, 7378u, 7306u, 4304u, 2219u, 8569u, 8563u, 8565u, 7316u, 8564u, 3403u, 7311u, 7314u, 7312u, 7317u, 8566u, 7318u, 8568u, 7310u, 8567u, 7323u, 1587u, 7309u, 3678u, 7313u, 2789u, 8570u, 2314u, 8572u, 8573u, 3987u, 2041u, 2669u, 3505u, 8275u, 3020u, 7321u, 7315u, 7320u, 4076u, 3313u, 7322u, 7319u, 8571u, 3019u, 7326u, 7325u, 7324u, 8577u, 3962u, 8581u, 8579u, 8575u, 8576u, 8580u, 2722u, 8574u, 7327u, 3916u, 1555u, 3797u, 3277u, 1967u, 8281u, 7329u, 8584u, 2316u, 8587u, 8589u, 2455u, 7328u, 2896u, 2897u, 7332u, 7334u, 8588u, 8586u, 2816u, 8583u, 7333u, 7335u, 8582u, 2024u, 3796u, 2603u, 4326u, 7331u, 2437u, 4354u, 7337u, 7336u, 7338u, 7330u, 8274u, 3550u, 3436u, 3344u, 7343u, 8591u, 3230u, 7339u, 7340u, 2080u, 7342u, 8590u, 2177u, 7341u, 2790u, 1780u, 7347u, 2380u, 3096u, 3331u, 8592u, 1718u, 7345u, 7346u, 3324u, 7344u, 7348u, 7354u, 8593u, 7357u, 7356u, 3396u, 7349u, 7350u, 7353u, 7355u, 8594u, 2005u, 7358u, 7352u, 7351u, 8595u, 7362u, 7363u, 7364u, 7361u, 7360u, 2791u, 3487u, 7359u, 7368u, 7366u, 8596u, 7367u, 7365u, 3189u, 7369u, 7370u, 7372u, 8597u, 8598u, 1838u, 7371u, 4131u, 7383u, 7373u, 7376u, 7374u, 7375u, 7377u, 7379u, 7380u, 7381u, 7384u, 7382u, 7385u, 7387u, 7386u, 3314u, 4112u, 7388u, 3021u, 7389u, 3889u, 7390u, 1702u, 1531u, 1840u, 8599u, 1839u, 7391u, 7392u, 7393u, 7394u, 7395u, 1841u, 1744u, 2317u, 3687u, 7397u, 7396u, 7398u, 1563u, 7401u, 7400u, 7399u, 7402u, 7405u, 1448u, 7403u, 7407u, 7406u, 7409u, 7408u, 7410u, 3491u, 7411u, 7412u, 7414u, 7413u, 3835u, 7415u, 7416u, 2418u, 7417u, 7418u, 3988u, 3050u, 1413u, 3144u, 7419u, 3836u, 7422u, 7420u, 2318u, 7421u, 2195u, 3890u, 7424u, 7426u, 7425u, 7427u, 1504u, 2875u, 2723u, 1842u, 7428u, 3641u, 7430u, 1505u, 7429u, 3325u, 4274u, 3488u, 7423u, 4235u, 2178u, 4194u, 2062u, 4249u, 2075u, 3167u, 6580u, 7431u, 1703u, 2898u, 1745u, 7433u, 7434u, 7432u, 2135u, 2410u, 2792u, 8602u, 1506u, 4286u, 7436u, 7251u, 7435u, 8603u, 7439u, 7437u, 7438u, 7440u, 7441u, 4305u, 7442u, 7443u, 2954u, 3692u, 2912u, 1856u, 4161u, 1674u, 2655u, 2220u, 7446u, 7445u, 2526u, 7447u, 7444u, 2451u, 7451u, 6874u, 4659u, 2906u, 7449u, 4234u, 3558u, 1514u, 2980u, 2559u, 3876u, 1535u, 4306u, 4210u, 7452u, 3420u, 2628u, 7453u, 7454u, 2863u, 7455u, 4307u, 7450u, 7457u, 7459u, 7458u, 7456u, 7460u, 7461u, 3097u, 1663u, 7462u, 4065u, 7463u, 7464u, 4333u, 8604u, 5468u, 7465u, 8605u, 7466u, 7467u, 7471u, 8606u, 7468u, 7469u, 7470u, 7472u, 8607u, 8608u, 8609u, 2949u, 8610u, 4128u, 2950u, 7473u, 3748u, 7474u, 7758u, 4085u, 7475u, 7476u, 7477u, 1746u, 7479u, 2876u, 7480u, 2071u, 7481u, 7485u, 7483u, 7484u, 1774u, 7482u, 7486u, 7487u, 1449u, 7488u, 7489u, 2793u, 7490u, 1918u, 7493u, 7492u, 7491u, 7036u, 3913u, 7494u, 7495u, 7496u, 7497u, 7498u, 7499u, 1843u, 7500u, 7501u, 3574u, 7503u, 1624u, 7506u, 7505u, 1507u, 2006u, 3892u, 3315u, 2351u, 2319u, 2702u, 2879u, 7508u, 7507u, 4169u, 1857u, 3715u, 3537u, 2911u, 4275u, 2126u, 7511u, 7510u, 3990u, 3489u, 1551u, 7512u, 7509u, 3808u, 4209u, 7513u, 7514u, 7516u, 3175u, 1750u, 1751u, 7515u, 1858u, 2179u, 8611u, 1859u, 3414u, 4293u, 8612u, 2221u, 7517u, 7518u, 7519u, 7520u, 7522u, 7521u, 3846u, 7523u, 7524u, 7525u, 7526u, 7528u, 7527u, 7529u, 3749u, 6529u, 2828u, 1897u, 7530u, 7531u, 4617u, 5666u, 3716u, 1500u, 1436u, 2527u, 3963u, 2819u, 7532u, 4104u, 7533u, 4195u, 1537u, 2476u, 7534u, 1675u, 7535u, 7536u, 7538u, 7539u, 7541u, 7537u, 7540u, 8615u, 1844u, 7542u, 7543u, 7544u, 7545u, 7546u, 7548u, 7547u, 7550u, 7553u, 7549u, 7551u, 7552u, 7554u, 2007u, 2620u, 7555u, 7556u, 2320u, 8617u, 7557u, 1721u, 3618u, 7558u, 7559u, 3253u, 3552u, 7560u, 3664u, 3145u, 1559u, 2051u, 2052u, 3278u, 7565u, 2053u, 1676u, 7564u, 7562u, 7563u, 7561u, 7575u, 7566u, 7567u, 7568u, 7569u, 7571u, 7570u, 2688u, 7572u, 7574u, 1898u, 7573u, 3098u, 2180u, 7576u, 3146u, 7577u, 3490u, 7578u, 7583u, 7581u, 7580u, 7582u, 7579u, 7585u, 8618u, 7584u, 7587u, 2008u, 7586u, 7588u, 7589u, 7591u, 7590u, 7592u, 7594u, 7593u, 2347u, 7595u, 7596u, 1719u, 7597u, 7598u, 2900u, 7599u, 7600u, 7601u, 7602u, 2321u, 8619u, 8620u, 7603u, 7604u, 7605u, 7606u, 7607u, 3682u, 7609u, 3765u, 7610u, 7608u, 7612u, 7611u, 7613u, 7614u, 7615u, 7616u, 7617u, 7618u, 7619u, 7620u, 7621u, 7622u, 7623u, 7624u, 7625u, 7626u, 7627u, 5660u, 7628u, 6385u, 1899u, 1692u, 2367u, 7630u, 7629u, 4046u, 7632u, 7633u, 7631u, 7634u, 4013u, 7635u, 1970u, 4328u, 8622u, 7636u, 8621u, 7638u, 1439u, 8623u, 7639u, 3864u, 7637u, 7640u, 7641u, 7642u, 7643u, 7644u, 4025u, 2456u, 2439u, 3022u, 8624u, 7645u, 7648u, 8625u, 7646u, 7649u, 2242u, 7647u, 7650u, 7651u, 7652u, 7656u, 2453u, 3169u, 7657u, 7654u, 7653u, 7655u, 2130u, 7661u, 7660u, 7659u, 1428u, 8626u, 7671u, 7667u, 7668u, 7664u, 7670u, 7666u, 1757u, 4367u, 7669u, 7665u, 7663u, 7662u, 7673u, 7676u, 7675u, 7674u, 3800u, 7672u, 1492u, 7677u, 7679u, 1770u, 7658u, 1526u, 7681u, 7680u, 7678u, 3208u, 4027u, 4287u, 7682u, 7683u, 7684u, 7685u, 7686u, 3316u, 7687u, 3688u, 7692u, 7688u, 7689u, 3964u, 4077u, 3525u, 7693u, 7694u, 3507u, 7691u, 7690u, 1607u, 7702u, 7701u, 1588u, 7699u, 7698u, 7696u, 1782u, 7695u, 2555u, 1606u, 2322u, 7705u, 7704u, 7703u, 7700u, 7706u, 7707u, 7712u, 7711u, 7713u, 1516u, 7708u, 7709u, 2339u, 4066u, 7710u, 8628u, 3965u, 7718u, 8627u, 7714u, 7719u, 7716u, 7715u, 2127u, 7720u, 7721u, 7722u, 7717u, 7697u, 7723u, 3354u, 7727u, 7728u, 7726u, 7725u, 7731u, 7724u, 7729u, 7730u, 7733u, 7732u, 7735u, 7736u, 7737u, 4364u, 7734u, 3176u, 2426u, 7738u, 8630u, 7739u, 7740u, 7741u, 7742u, 2181u, 7743u, 7744u, 2552u, 7745u, 7746u, 7747u, 7748u, 7751u, 7749u, 4351u, 7750u, 4308u, 7752u, 4288u, 7753u, 3665u, 7754u, 7756u, 7757u, 7755u, 2332u, 4086u, 4014u, 5068u, 5703u, 4038u, 1608u, 7759u, 1927u, 7760u, 7761u, 7762u, 8631u, 2340u, 7763u, 5973u, 4100u, 3168u, 7764u, 7766u, 7765u, 7767u, 7768u, 7769u, 7770u, 7771u, 7772u, 7773u, 7774u, 7775u, 7776u, 7777u, 7778u, 7779u, 3387u, 2222u, 7781u, 3052u, 7782u, 7783u, 3760u, 7784u, 7785u, 6226u, 7107u, 7502u, 7786u, 7787u, 7789u, 7790u, 7791u, 4309u, 7788u, 7792u, 7793u, 7795u, 7794u, 7797u, 7798u, 7796u, 4251u, 7799u, 7800u, 6255u, 7801u, 8403u, 8600u, 8323u, 8334u, 8335u, 8356u, 8395u, 8411u, 8413u, 8456u, 8462u, 8485u, 8493u, 8494u, 8495u, 8497u, 8501u, 8504u, 8513u, 8524u, 8526u, 8527u, 8536u, 8544u, 8546u, 8547u, 8550u, 8578u, 8585u, 8601u, 8613u, 8614u, 8616u, 8629u, 9u, 8647u, 83u, 79u, 82u, 84u, 8646u, 41u, 42u, 85u, 59u, 3u, 60u, 4u, 30u, 203u, 204u, 205u, 206u, 207u, 208u, 209u, 210u, 211u, 212u, 6u, 7u, 66u, 64u, 67u, 8u, 86u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 228u, 229u, 230u, 231u, 232u, 233u, 234u, 235u, 236u, 237u, 238u, 239u, 240u, 241u, 242u, 243u, 244u, 245u, 45u, 31u, 46u, 15u, 17u, 13u, 252u, 253u, 254u, 255u, 256u, 257u, 258u, 259u, 260u, 261u, 262u, 263u, 264u, 265u, 266u, 267u, 268u, 269u, 270u, 271u, 272u, 273u, 274u, 275u, 276u, 277u, 47u, 34u, 48u, 32u, 80u, 81u, 137u, 16u, 8645u, 78u, };
-- 
2.43.0


From 6af5514f0b37e869ba736e618868c64f6c638187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:10 +0000
Subject: [PATCH 026/103] fix: Big5 encoder must use the last pointer of a
 duplicated code point

The table only keeps duplicates for the six code points for which the
standard asks for the last pointer.
---
 include/wordring/whatwg/encoding/coder.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/encoding/coder.hpp b/include/wordring/whatwg/encoding/coder.hpp
index af55d53..22ed25c 100644
--- a/include/wordring/whatwg/encoding/coder.hpp
+++ b/include/wordring/whatwg/encoding/coder.hpp
@@ -91,7 +91,10 @@ namespace wordring::whatwg::encoding
 
 	inline std::optional<std::uint16_t> get_index_big5_pointer(std::uint32_t code_point)
 	{
-		return get_index_pointer<index_pointer_big5_0, index_pointer_big5_1>(code_point);
+		// 重複するコードポイントは、最後のポインタを返す
+		auto it = std::upper_bound(index_pointer_big5_0.cbegin(), index_pointer_big5_0.cend(), code_point);
+		if (it == index_pointer_big5_0.cbegin() || *--it != code_point) return std::optional<std::uint16_t>{};
+		return *(index_pointer_big5_1.cbegin() + (it - index_pointer_big5_0.cbegin()));
 	}
 
 	
-- 
2.43.0


From 9d1d8636633961a0993a330c6f906ba2f14f4520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:47 +0000
Subject: [PATCH 027/103] fix: Shift_JIS encoder must not use pointers 8272 to
 8835

373 code points were encoded to the NEC selected IBM extensions, which the
standard excludes, instead of the IBM extensions.
---
 generator/whatwg/encoding/index_table.cpp | 18 ++++++++++++++----
 lib/whatwg/encoding/indexes_pointer.cpp   |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/generator/whatwg/encoding/index_table.cpp b/generator/whatwg/encoding/index_table.cpp
index ffb5867..1c75062 100644
--- a/generator/whatwg/encoding/index_table.cpp
+++ b/generator/whatwg/encoding/index_table.cpp
@@ -219,13 +219,23 @@ int main()
 		cpp << " }};" << std::endl;
 		cpp << std::endl;
 
-		auto it = std::find_if(indexes_pointer.begin(), indexes_pointer.end(), [](pointer const& p) { return p.name == "jis0208"; });
-		assert(it != indexes_pointer.end());
+		// ポインタ 8272 から 8835 は Shift_JIS の符号化に使用しない
+		auto it = std::find_if(indexes_code_point.begin(), indexes_code_point.end(), [](index_data const& d) { return d.name == "jis0208"; });
+		assert(it != indexes_code_point.end());
+		pointer shift_jis{};
+		for (uint32_t i = 0; i < it->data.size(); i++)
+		{
+			if (8272 <= i && i <= 8835) continue;
+			uint32_t cp = static_cast<uint32_t>(std::stoul(it->data.at(i)));
+			if (cp == 0xFFFFFFFFu) continue;
+			if (shift_jis.data.find(cp) != shift_jis.data.end()) continue;
+			shift_jis.data.emplace(cp, i);
+		}
 		cpp << "std::vector<uint32_t> const wordring::whatwg::encoding::index_pointer_Shift_JIS_0 { ";
-		for (auto const& pair : it->data) cpp << pair.first << "u, ";
+		for (auto const& pair : shift_jis.data) cpp << pair.first << "u, ";
 		cpp << "};" << std::endl;
 		cpp << "std::vector<uint16_t> const wordring::whatwg::encoding::index_pointer_Shift_JIS_1 { ";
-		for (auto const& pair : it->data) cpp << pair.second << "u, ";
+		for (auto const& pair : shift_jis.data) cpp << pair.second << "u, ";
 		cpp << "};" << std::endl;
 		cpp << std::endl;
 	}
diff --git a/lib/whatwg/encoding/indexes_pointer.cpp b/lib/whatwg/encoding/indexes_pointer.cpp
index 93aa847..14fb25a 100644
--- a/lib/whatwg/encoding/indexes_pointer.cpp
+++ b/lib/whatwg/encoding/indexes_pointer.cpp
@@ -104,5 +104,5 @@ std::vector<uint16_t> const wordring::whatwg::encoding::index_pointer_x_mac_cyri
 std::multimap<uint32_t, uint32_t> const wordring::whatwg::encoding::index_pointer_gb18030_ranges {{ { 128u, 0u }, { 165u, 36u }, { 169u, 38u }, { 178u, 45u }, { 184u, 50u }, { 216u, 81u }, { 226u, 89u }, { 235u, 95u }, { 238u, 96u }, { 244u, 100u }, { 248u, 103u }, { 251u, 104u }, { 253u, 105u }, { 258u, 109u }, { 276u, 126u }, { 284u, 133u }, { 300u, 148u }, { 325u, 172u }, { 329u, 175u }, { 334u, 179u }, { 364u, 208u }, { 463u, 306u }, { 465u, 307u }, { 467u, 308u }, { 469u, 309u }, { 471u, 310u }, { 473u, 311u }, { 475u, 312u }, { 477u, 313u }, { 506u, 341u }, { 594u, 428u }, { 610u, 443u }, { 712u, 544u }, { 716u, 545u }, { 730u, 558u }, { 930u, 741u }, { 938u, 742u }, { 962u, 749u }, { 970u, 750u }, { 1026u, 805u }, { 1104u, 819u }, { 1106u, 820u }, { 8209u, 7922u }, { 8215u, 7924u }, { 8218u, 7925u }, { 8222u, 7927u }, { 8231u, 7934u }, { 8241u, 7943u }, { 8244u, 7944u }, { 8246u, 7945u }, { 8252u, 7950u }, { 8365u, 8062u }, { 8452u, 8148u }, { 8454u, 8149u }, { 8458u, 8152u }, { 8471u, 8164u }, { 8482u, 8174u }, { 8556u, 8236u }, { 8570u, 8240u }, { 8596u, 8262u }, { 8602u, 8264u }, { 8713u, 8374u }, { 8720u, 8380u }, { 8722u, 8381u }, { 8726u, 8384u }, { 8731u, 8388u }, { 8737u, 8390u }, { 8740u, 8392u }, { 8742u, 8393u }, { 8748u, 8394u }, { 8751u, 8396u }, { 8760u, 8401u }, { 8766u, 8406u }, { 8777u, 8416u }, { 8781u, 8419u }, { 8787u, 8424u }, { 8802u, 8437u }, { 8808u, 8439u }, { 8816u, 8445u }, { 8854u, 8482u }, { 8858u, 8485u }, { 8870u, 8496u }, { 8896u, 8521u }, { 8979u, 8603u }, { 9322u, 8936u }, { 9372u, 8946u }, { 9548u, 9046u }, { 9588u, 9050u }, { 9616u, 9063u }, { 9622u, 9066u }, { 9634u, 9076u }, { 9652u, 9092u }, { 9662u, 9100u }, { 9672u, 9108u }, { 9676u, 9111u }, { 9680u, 9113u }, { 9702u, 9131u }, { 9735u, 9162u }, { 9738u, 9164u }, { 9793u, 9218u }, { 9795u, 9219u }, { 11906u, 11329u }, { 11909u, 11331u }, { 11913u, 11334u }, { 11917u, 11336u }, { 11928u, 11346u }, { 11944u, 11361u }, { 11947u, 11363u }, { 11951u, 11366u }, { 11956u, 11370u }, { 11960u, 11372u }, { 11964u, 11375u }, { 11979u, 11389u }, { 12284u, 11682u }, { 12292u, 11686u }, { 12312u, 11687u }, { 12319u, 11692u }, { 12330u, 11694u }, { 12351u, 11714u }, { 12436u, 11716u }, { 12447u, 11723u }, { 12535u, 11725u }, { 12543u, 11730u }, { 12586u, 11736u }, { 12842u, 11982u }, { 12850u, 11989u }, { 12964u, 12102u }, { 13200u, 12336u }, { 13215u, 12348u }, { 13218u, 12350u }, { 13253u, 12384u }, { 13263u, 12393u }, { 13267u, 12395u }, { 13270u, 12397u }, { 13384u, 12510u }, { 13428u, 12553u }, { 13727u, 12851u }, { 13839u, 12962u }, { 13851u, 12973u }, { 14617u, 13738u }, { 14703u, 13823u }, { 14801u, 13919u }, { 14816u, 13933u }, { 14964u, 14080u }, { 15183u, 14298u }, { 15471u, 14585u }, { 15585u, 14698u }, { 16471u, 15583u }, { 16736u, 15847u }, { 17208u, 16318u }, { 17325u, 16434u }, { 17330u, 16438u }, { 17374u, 16481u }, { 17623u, 16729u }, { 17997u, 17102u }, { 18018u, 17122u }, { 18212u, 17315u }, { 18218u, 17320u }, { 18301u, 17402u }, { 18318u, 17418u }, { 18760u, 17859u }, { 18811u, 17909u }, { 18814u, 17911u }, { 18820u, 17915u }, { 18823u, 17916u }, { 18844u, 17936u }, { 18848u, 17939u }, { 18872u, 17961u }, { 19576u, 18664u }, { 19620u, 18703u }, { 19738u, 18814u }, { 19887u, 18962u }, { 40870u, 19043u }, { 59244u, 33469u }, { 59336u, 33470u }, { 59367u, 33471u }, { 59413u, 33484u }, { 59417u, 33485u }, { 59423u, 33490u }, { 59431u, 33497u }, { 59437u, 33501u }, { 59443u, 33505u }, { 59452u, 33513u }, { 59460u, 33520u }, { 59478u, 33536u }, { 59493u, 33550u }, { 63789u, 37845u }, { 63866u, 37921u }, { 63894u, 37948u }, { 63976u, 38029u }, { 63986u, 38038u }, { 64016u, 38064u }, { 64018u, 38065u }, { 64021u, 38066u }, { 64025u, 38069u }, { 64034u, 38075u }, { 64037u, 38076u }, { 64042u, 38078u }, { 65074u, 39108u }, { 65093u, 39109u }, { 65107u, 39113u }, { 65112u, 39114u }, { 65127u, 39115u }, { 65132u, 39116u }, { 65375u, 39265u }, { 65510u, 39394u }, { 65536u, 189000u },  }};
 
 std::vector<uint32_t> const wordring::whatwg::encoding::index_pointer_Shift_JIS_0 { 167u, 168u, 176u, 177u, 180u, 182u, 215u, 247u, 913u, 914u, 915u, 916u, 917u, 918u, 919u, 920u, 921u, 922u, 923u, 924u, 925u, 926u, 927u, 928u, 929u, 931u, 932u, 933u, 934u, 935u, 936u, 937u, 945u, 946u, 947u, 948u, 949u, 950u, 951u, 952u, 953u, 954u, 955u, 956u, 957u, 958u, 959u, 960u, 961u, 963u, 964u, 965u, 966u, 967u, 968u, 969u, 1025u, 1040u, 1041u, 1042u, 1043u, 1044u, 1045u, 1046u, 1047u, 1048u, 1049u, 1050u, 1051u, 1052u, 1053u, 1054u, 1055u, 1056u, 1057u, 1058u, 1059u, 1060u, 1061u, 1062u, 1063u, 1064u, 1065u, 1066u, 1067u, 1068u, 1069u, 1070u, 1071u, 1072u, 1073u, 1074u, 1075u, 1076u, 1077u, 1078u, 1079u, 1080u, 1081u, 1082u, 1083u, 1084u, 1085u, 1086u, 1087u, 1088u, 1089u, 1090u, 1091u, 1092u, 1093u, 1094u, 1095u, 1096u, 1097u, 1098u, 1099u, 1100u, 1101u, 1102u, 1103u, 1105u, 8208u, 8213u, 8216u, 8217u, 8220u, 8221u, 8224u, 8225u, 8229u, 8230u, 8240u, 8242u, 8243u, 8251u, 8451u, 8470u, 8481u, 8491u, 8544u, 8545u, 8546u, 8547u, 8548u, 8549u, 8550u, 8551u, 8552u, 8553u, 8560u, 8561u, 8562u, 8563u, 8564u, 8565u, 8566u, 8567u, 8568u, 8569u, 8592u, 8593u, 8594u, 8595u, 8658u, 8660u, 8704u, 8706u, 8707u, 8711u, 8712u, 8715u, 8721u, 8730u, 8733u, 8734u, 8735u, 8736u, 8741u, 8743u, 8744u, 8745u, 8746u, 8747u, 8748u, 8750u, 8756u, 8757u, 8765u, 8786u, 8800u, 8801u, 8806u, 8807u, 8810u, 8811u, 8834u, 8835u, 8838u, 8839u, 8869u, 8895u, 8978u, 9312u, 9313u, 9314u, 9315u, 9316u, 9317u, 9318u, 9319u, 9320u, 9321u, 9322u, 9323u, 9324u, 9325u, 9326u, 9327u, 9328u, 9329u, 9330u, 9331u, 9472u, 9473u, 9474u, 9475u, 9484u, 9487u, 9488u, 9491u, 9492u, 9495u, 9496u, 9499u, 9500u, 9501u, 9504u, 9507u, 9508u, 9509u, 9512u, 9515u, 9516u, 9519u, 9520u, 9523u, 9524u, 9527u, 9528u, 9531u, 9532u, 9535u, 9538u, 9547u, 9632u, 9633u, 9650u, 9651u, 9660u, 9661u, 9670u, 9671u, 9675u, 9678u, 9679u, 9711u, 9733u, 9734u, 9792u, 9794u, 9834u, 9837u, 9839u, 12288u, 12289u, 12290u, 12291u, 12293u, 12294u, 12295u, 12296u, 12297u, 12298u, 12299u, 12300u, 12301u, 12302u, 12303u, 12304u, 12305u, 12306u, 12307u, 12308u, 12309u, 12317u, 12319u, 12353u, 12354u, 12355u, 12356u, 12357u, 12358u, 12359u, 12360u, 12361u, 12362u, 12363u, 12364u, 12365u, 12366u, 12367u, 12368u, 12369u, 12370u, 12371u, 12372u, 12373u, 12374u, 12375u, 12376u, 12377u, 12378u, 12379u, 12380u, 12381u, 12382u, 12383u, 12384u, 12385u, 12386u, 12387u, 12388u, 12389u, 12390u, 12391u, 12392u, 12393u, 12394u, 12395u, 12396u, 12397u, 12398u, 12399u, 12400u, 12401u, 12402u, 12403u, 12404u, 12405u, 12406u, 12407u, 12408u, 12409u, 12410u, 12411u, 12412u, 12413u, 12414u, 12415u, 12416u, 12417u, 12418u, 12419u, 12420u, 12421u, 12422u, 12423u, 12424u, 12425u, 12426u, 12427u, 12428u, 12429u, 12430u, 12431u, 12432u, 12433u, 12434u, 12435u, 12443u, 12444u, 12445u, 12446u, 12449u, 12450u, 12451u, 12452u, 12453u, 12454u, 12455u, 12456u, 12457u, 12458u, 12459u, 12460u, 12461u, 12462u, 12463u, 12464u, 12465u, 12466u, 12467u, 12468u, 12469u, 12470u, 12471u, 12472u, 12473u, 12474u, 12475u, 12476u, 12477u, 12478u, 12479u, 12480u, 12481u, 12482u, 12483u, 12484u, 12485u, 12486u, 12487u, 12488u, 12489u, 12490u, 12491u, 12492u, 12493u, 12494u, 12495u, 12496u, 12497u, 12498u, 12499u, 12500u, 12501u, 12502u, 12503u, 12504u, 12505u, 12506u, 12507u, 12508u, 12509u, 12510u, 12511u, 12512u, 12513u, 12514u, 12515u, 12516u, 12517u, 12518u, 12519u, 12520u, 12521u, 12522u, 12523u, 12524u, 12525u, 12526u, 12527u, 12528u, 12529u, 12530u, 12531u, 12532u, 12533u, 12534u, 12539u, 12540u, 12541u, 12542u, 12849u, 12850u, 12857u, 12964u, 12965u, 12966u, 12967u, 12968u, 13059u, 13069u, 13076u, 13080u, 13090u, 13091u, 13094u, 13095u, 13099u, 13110u, 13115u, 13129u, 13130u, 13133u, 13137u, 13143u, 13179u, 13180u, 13181u, 13182u, 13198u, 13199u, 13212u, 13213u, 13214u, 13217u, 13252u, 13261u, 19968u, 19969u, 19971u, 19975u, 19976u, 19977u, 19978u, 19979u, 19981u, 19982u, 19984u, 19985u, 19988u, 19989u, 19990u, 19991u, 19992u, 19993u, 19998u, 20001u, 20006u, 20008u, 20010u, 20013u, 20017u, 20018u, 20022u, 20024u, 20025u, 20027u, 20028u, 20031u, 20034u, 20035u, 20037u, 20043u, 20045u, 20046u, 20047u, 20053u, 20054u, 20055u, 20056u, 20057u, 20061u, 20062u, 20063u, 20066u, 20081u, 20083u, 20094u, 20096u, 20098u, 20101u, 20102u, 20104u, 20105u, 20106u, 20107u, 20108u, 20110u, 20113u, 20114u, 20116u, 20117u, 20120u, 20121u, 20123u, 20124u, 20126u, 20127u, 20128u, 20129u, 20130u, 20132u, 20133u, 20134u, 20136u, 20139u, 20140u, 20141u, 20142u, 20144u, 20147u, 20150u, 20154u, 20160u, 20161u, 20162u, 20164u, 20166u, 20167u, 20170u, 20171u, 20173u, 20174u, 20175u, 20180u, 20181u, 20182u, 20183u, 20184u, 20185u, 20189u, 20190u, 20191u, 20193u, 20195u, 20196u, 20197u, 20205u, 20206u, 20208u, 20210u, 20214u, 20215u, 20219u, 20220u, 20224u, 20225u, 20227u, 20233u, 20234u, 20237u, 20238u, 20239u, 20240u, 20241u, 20250u, 20252u, 20253u, 20271u, 20272u, 20276u, 20278u, 20280u, 20281u, 20282u, 20284u, 20285u, 20291u, 20294u, 20295u, 20301u, 20302u, 20303u, 20304u, 20305u, 20307u, 20309u, 20310u, 20311u, 20313u, 20314u, 20315u, 20316u, 20317u, 20318u, 20329u, 20335u, 20336u, 20339u, 20341u, 20342u, 20347u, 20348u, 20351u, 20355u, 20358u, 20360u, 20362u, 20363u, 20365u, 20367u, 20369u, 20370u, 20372u, 20374u, 20376u, 20378u, 20379u, 20381u, 20384u, 20385u, 20395u, 20397u, 20398u, 20399u, 20405u, 20406u, 20415u, 20418u, 20419u, 20420u, 20425u, 20426u, 20429u, 20430u, 20432u, 20433u, 20436u, 20439u, 20440u, 20442u, 20443u, 20445u, 20447u, 20449u, 20451u, 20452u, 20453u, 20462u, 20463u, 20467u, 20469u, 20470u, 20472u, 20474u, 20478u, 20479u, 20485u, 20486u, 20489u, 20491u, 20493u, 20495u, 20497u, 20498u, 20500u, 20502u, 20505u, 20506u, 20510u, 20511u, 20513u, 20514u, 20515u, 20516u, 20517u, 20518u, 20520u, 20521u, 20522u, 20523u, 20524u, 20525u, 20534u, 20537u, 20544u, 20546u, 20547u, 20550u, 20551u, 20552u, 20553u, 20559u, 20560u, 20565u, 20566u, 20570u, 20572u, 20581u, 20588u, 20592u, 20594u, 20596u, 20597u, 20598u, 20600u, 20605u, 20608u, 20613u, 20621u, 20625u, 20628u, 20632u, 20633u, 20634u, 20652u, 20653u, 20658u, 20659u, 20660u, 20661u, 20663u, 20670u, 20674u, 20677u, 20681u, 20682u, 20685u, 20687u, 20689u, 20693u, 20694u, 20696u, 20698u, 20702u, 20707u, 20709u, 20711u, 20717u, 20718u, 20724u, 20725u, 20729u, 20731u, 20736u, 20737u, 20738u, 20740u, 20745u, 20754u, 20756u, 20757u, 20758u, 20760u, 20762u, 20767u, 20769u, 20778u, 20786u, 20791u, 20794u, 20795u, 20796u, 20799u, 20800u, 20801u, 20803u, 20804u, 20805u, 20806u, 20807u, 20808u, 20809u, 20810u, 20811u, 20812u, 20813u, 20814u, 20816u, 20818u, 20820u, 20826u, 20828u, 20834u, 20836u, 20837u, 20840u, 20841u, 20842u, 20843u, 20844u, 20845u, 20846u, 20849u, 20853u, 20854u, 20855u, 20856u, 20860u, 20864u, 20866u, 20869u, 20870u, 20873u, 20874u, 20876u, 20877u, 20879u, 20880u, 20881u, 20882u, 20883u, 20885u, 20886u, 20887u, 20889u, 20893u, 20896u, 20898u, 20900u, 20901u, 20902u, 20904u, 20905u, 20906u, 20907u, 20908u, 20912u, 20913u, 20914u, 20915u, 20916u, 20917u, 20918u, 20919u, 20925u, 20926u, 20932u, 20933u, 20934u, 20937u, 20939u, 20940u, 20941u, 20950u, 20955u, 20956u, 20957u, 20960u, 20961u, 20966u, 20967u, 20969u, 20970u, 20972u, 20973u, 20976u, 20977u, 20981u, 20982u, 20984u, 20985u, 20986u, 20989u, 20990u, 20992u, 20995u, 20996u, 20998u, 20999u, 21000u, 21002u, 21003u, 21006u, 21009u, 21012u, 21013u, 21015u, 21021u, 21028u, 21029u, 21031u, 21033u, 21034u, 21038u, 21040u, 21043u, 21046u, 21047u, 21048u, 21049u, 21050u, 21051u, 21059u, 21060u, 21063u, 21066u, 21067u, 21068u, 21069u, 21071u, 21076u, 21078u, 21083u, 21086u, 21091u, 21092u, 21093u, 21097u, 21098u, 21103u, 21104u, 21105u, 21106u, 21107u, 21108u, 21109u, 21117u, 21119u, 21123u, 21127u, 21128u, 21129u, 21133u, 21137u, 21138u, 21140u, 21147u, 21148u, 21151u, 21152u, 21155u, 21158u, 21161u, 21162u, 21163u, 21164u, 21165u, 21167u, 21169u, 21172u, 21173u, 21177u, 21180u, 21182u, 21184u, 21185u, 21187u, 21189u, 21191u, 21193u, 21197u, 21202u, 21205u, 21207u, 21208u, 21209u, 21211u, 21213u, 21214u, 21215u, 21216u, 21218u, 21219u, 21220u, 21222u, 21223u, 21234u, 21235u, 21237u, 21240u, 21241u, 21242u, 21246u, 21247u, 21248u, 21249u, 21250u, 21253u, 21254u, 21255u, 21256u, 21261u, 21263u, 21264u, 21269u, 21270u, 21271u, 21273u, 21274u, 21277u, 21280u, 21281u, 21283u, 21284u, 21290u, 21295u, 21297u, 21299u, 21304u, 21305u, 21306u, 21307u, 21311u, 21312u, 21313u, 21315u, 21317u, 21318u, 21319u, 21320u, 21321u, 21322u, 21325u, 21329u, 21330u, 21331u, 21332u, 21335u, 21336u, 21338u, 21340u, 21342u, 21344u, 21350u, 21353u, 21358u, 21359u, 21360u, 21361u, 21362u, 21363u, 21364u, 21365u, 21367u, 21368u, 21371u, 21375u, 21378u, 21380u, 21395u, 21398u, 21400u, 21402u, 21407u, 21408u, 21413u, 21414u, 21416u, 21417u, 21421u, 21422u, 21424u, 21426u, 21427u, 21430u, 21435u, 21442u, 21443u, 21448u, 21449u, 21450u, 21451u, 21452u, 21453u, 21454u, 21460u, 21462u, 21463u, 21465u, 21467u, 21469u, 21471u, 21473u, 21474u, 21475u, 21476u, 21477u, 21480u, 21481u, 21482u, 21483u, 21484u, 21485u, 21486u, 21487u, 21488u, 21489u, 21490u, 21491u, 21494u, 21495u, 21496u, 21498u, 21505u, 21507u, 21508u, 21512u, 21513u, 21514u, 21515u, 21516u, 21517u, 21518u, 21519u, 21520u, 21521u, 21531u, 21533u, 21535u, 21536u, 21542u, 21545u, 21547u, 21548u, 21549u, 21550u, 21558u, 21560u, 21561u, 21563u, 21564u, 21565u, 21566u, 21568u, 21570u, 21574u, 21576u, 21577u, 21578u, 21582u, 21585u, 21599u, 21608u, 21610u, 21616u, 21617u, 21619u, 21621u, 21622u, 21623u, 21627u, 21628u, 21629u, 21632u, 21636u, 21638u, 21642u, 21643u, 21644u, 21646u, 21647u, 21648u, 21650u, 21660u, 21666u, 21668u, 21669u, 21672u, 21673u, 21675u, 21676u, 21679u, 21682u, 21683u, 21688u, 21692u, 21693u, 21694u, 21696u, 21697u, 21698u, 21700u, 21703u, 21704u, 21705u, 21720u, 21729u, 21730u, 21733u, 21734u, 21736u, 21737u, 21741u, 21742u, 21746u, 21754u, 21757u, 21759u, 21764u, 21766u, 21767u, 21775u, 21776u, 21780u, 21782u, 21806u, 21807u, 21809u, 21811u, 21816u, 21817u, 21822u, 21824u, 21828u, 21829u, 21830u, 21836u, 21839u, 21843u, 21846u, 21847u, 21852u, 21853u, 21859u, 21883u, 21884u, 21886u, 21888u, 21891u, 21892u, 21894u, 21895u, 21897u, 21898u, 21899u, 21912u, 21913u, 21914u, 21916u, 21917u, 21918u, 21919u, 21927u, 21928u, 21929u, 21930u, 21931u, 21932u, 21934u, 21936u, 21942u, 21956u, 21957u, 21959u, 21972u, 21978u, 21980u, 21983u, 21987u, 21988u, 22007u, 22009u, 22013u, 22014u, 22022u, 22025u, 22036u, 22038u, 22039u, 22040u, 22043u, 22057u, 22063u, 22065u, 22066u, 22068u, 22070u, 22072u, 22082u, 22092u, 22094u, 22096u, 22107u, 22116u, 22120u, 22122u, 22123u, 22124u, 22132u, 22136u, 22138u, 22144u, 22150u, 22151u, 22154u, 22159u, 22164u, 22176u, 22178u, 22181u, 22190u, 22196u, 22198u, 22204u, 22208u, 22209u, 22210u, 22211u, 22216u, 22222u, 22225u, 22227u, 22231u, 22232u, 22234u, 22235u, 22238u, 22240u, 22243u, 22254u, 22256u, 22258u, 22259u, 22265u, 22266u, 22269u, 22271u, 22272u, 22275u, 22276u, 22280u, 22281u, 22283u, 22285u, 22287u, 22290u, 22291u, 22294u, 22296u, 22300u, 22303u, 22310u, 22311u, 22312u, 22317u, 22320u, 22327u, 22328u, 22331u, 22336u, 22338u, 22343u, 22346u, 22350u, 22351u, 22352u, 22353u, 22361u, 22369u, 22372u, 22373u, 22374u, 22377u, 22378u, 22399u, 22402u, 22408u, 22409u, 22411u, 22419u, 22432u, 22434u, 22435u, 22436u, 22442u, 22444u, 22448u, 22451u, 22464u, 22467u, 22470u, 22471u, 22472u, 22475u, 22478u, 22482u, 22483u, 22484u, 22486u, 22492u, 22495u, 22496u, 22499u, 22516u, 22519u, 22521u, 22522u, 22524u, 22528u, 22530u, 22533u, 22534u, 22538u, 22539u, 22549u, 22553u, 22557u, 22561u, 22564u, 22570u, 22575u, 22576u, 22577u, 22580u, 22581u, 22586u, 22589u, 22592u, 22593u, 22602u, 22603u, 22609u, 22610u, 22612u, 22615u, 22616u, 22617u, 22618u, 22622u, 22626u, 22633u, 22635u, 22640u, 22642u, 22645u, 22649u, 22654u, 22659u, 22661u, 22675u, 22679u, 22684u, 22686u, 22687u, 22696u, 22699u, 22702u, 22706u, 22707u, 22712u, 22713u, 22714u, 22715u, 22718u, 22721u, 22725u, 22727u, 22730u, 22732u, 22737u, 22739u, 22741u, 22743u, 22744u, 22745u, 22748u, 22750u, 22751u, 22756u, 22757u, 22763u, 22764u, 22766u, 22767u, 22768u, 22769u, 22770u, 22775u, 22777u, 22778u, 22779u, 22780u, 22781u, 22786u, 22793u, 22794u, 22795u, 22799u, 22800u, 22805u, 22806u, 22808u, 22809u, 22810u, 22811u, 22812u, 22818u, 22821u, 22823u, 22825u, 22826u, 22827u, 22828u, 22829u, 22830u, 22833u, 22834u, 22839u, 22840u, 22846u, 22852u, 22855u, 22856u, 22857u, 22862u, 22863u, 22864u, 22865u, 22867u, 22868u, 22869u, 22871u, 22872u, 22874u, 22875u, 22877u, 22880u, 22882u, 22883u, 22885u, 22887u, 22888u, 22889u, 22890u, 22892u, 22894u, 22899u, 22900u, 22904u, 22909u, 22913u, 22914u, 22915u, 22916u, 22922u, 22925u, 22931u, 22934u, 22937u, 22939u, 22941u, 22947u, 22948u, 22949u, 22952u, 22956u, 22962u, 22969u, 22970u, 22971u, 22974u, 22982u, 22985u, 22987u, 22992u, 22993u, 22995u, 22996u, 23001u, 23002u, 23004u, 23013u, 23014u, 23016u, 23018u, 23019u, 23030u, 23035u, 23039u, 23041u, 23043u, 23049u, 23057u, 23064u, 23066u, 23068u, 23071u, 23072u, 23077u, 23081u, 23087u, 23093u, 23094u, 23100u, 23104u, 23105u, 23110u, 23113u, 23130u, 23138u, 23142u, 23146u, 23148u, 23167u, 23186u, 23194u, 23195u, 23228u, 23229u, 23230u, 23233u, 23234u, 23241u, 23243u, 23244u, 23248u, 23254u, 23255u, 23265u, 23267u, 23270u, 23273u, 23290u, 23291u, 23305u, 23307u, 23308u, 23318u, 23330u, 23338u, 23340u, 23344u, 23346u, 23350u, 23358u, 23360u, 23363u, 23365u, 23376u, 23377u, 23380u, 23381u, 23382u, 23383u, 23384u, 23386u, 23387u, 23388u, 23389u, 23391u, 23395u, 23396u, 23397u, 23398u, 23401u, 23403u, 23408u, 23409u, 23411u, 23413u, 23416u, 23418u, 23424u, 23427u, 23429u, 23431u, 23432u, 23433u, 23435u, 23436u, 23437u, 23439u, 23445u, 23447u, 23448u, 23449u, 23450u, 23451u, 23452u, 23453u, 23455u, 23458u, 23459u, 23460u, 23461u, 23462u, 23470u, 23472u, 23475u, 23476u, 23477u, 23478u, 23480u, 23481u, 23487u, 23488u, 23490u, 23491u, 23492u, 23493u, 23494u, 23495u, 23497u, 23500u, 23504u, 23506u, 23507u, 23508u, 23512u, 23515u, 23517u, 23518u, 23519u, 23521u, 23522u, 23524u, 23525u, 23526u, 23527u, 23528u, 23529u, 23531u, 23532u, 23534u, 23536u, 23539u, 23541u, 23542u, 23544u, 23546u, 23550u, 23551u, 23553u, 23554u, 23556u, 23557u, 23558u, 23559u, 23560u, 23561u, 23562u, 23563u, 23565u, 23566u, 23567u, 23569u, 23571u, 23574u, 23578u, 23582u, 23584u, 23586u, 23588u, 23592u, 23597u, 23601u, 23608u, 23609u, 23610u, 23611u, 23612u, 23613u, 23614u, 23615u, 23616u, 23617u, 23621u, 23622u, 23624u, 23626u, 23627u, 23629u, 23630u, 23631u, 23632u, 23633u, 23635u, 23637u, 23646u, 23648u, 23649u, 23652u, 23653u, 23660u, 23662u, 23663u, 23665u, 23670u, 23673u, 23692u, 23696u, 23697u, 23700u, 23713u, 23718u, 23720u, 23721u, 23723u, 23724u, 23729u, 23731u, 23734u, 23735u, 23736u, 23738u, 23739u, 23740u, 23742u, 23749u, 23751u, 23769u, 23776u, 23777u, 23784u, 23785u, 23786u, 23789u, 23791u, 23792u, 23797u, 23798u, 23802u, 23803u, 23805u, 23815u, 23819u, 23822u, 23825u, 23828u, 23829u, 23830u, 23831u, 23832u, 23833u, 23834u, 23835u, 23839u, 23842u, 23847u, 23849u, 23874u, 23883u, 23884u, 23886u, 23888u, 23890u, 23891u, 23900u, 23913u, 23916u, 23917u, 23919u, 23923u, 23926u, 23938u, 23940u, 23943u, 23947u, 23948u, 23952u, 23965u, 23970u, 23980u, 23982u, 23991u, 23992u, 23993u, 23994u, 23996u, 23997u, 24009u, 24012u, 24013u, 24016u, 24018u, 24019u, 24022u, 24027u, 24029u, 24030u, 24033u, 24035u, 24037u, 24038u, 24039u, 24040u, 24043u, 24046u, 24049u, 24050u, 24051u, 24052u, 24053u, 24055u, 24059u, 24061u, 24062u, 24066u, 24067u, 24070u, 24075u, 24076u, 24081u, 24086u, 24089u, 24090u, 24091u, 24093u, 24101u, 24107u, 24109u, 24111u, 24112u, 24115u, 24118u, 24119u, 24120u, 24125u, 24128u, 24131u, 24132u, 24133u, 24135u, 24140u, 24142u, 24148u, 24149u, 24151u, 24159u, 24161u, 24162u, 24163u, 24164u, 24178u, 24179u, 24180u, 24181u, 24182u, 24184u, 24185u, 24186u, 24187u, 24188u, 24189u, 24190u, 24191u, 24193u, 24195u, 24196u, 24199u, 24202u, 24207u, 24213u, 24214u, 24215u, 24218u, 24220u, 24224u, 24230u, 24231u, 24235u, 24237u, 24245u, 24246u, 24247u, 24248u, 24257u, 24258u, 24259u, 24264u, 24265u, 24266u, 24271u, 24272u, 24275u, 24278u, 24282u, 24283u, 24285u, 24287u, 24288u, 24289u, 24290u, 24291u, 24296u, 24297u, 24300u, 24304u, 24305u, 24307u, 24308u, 24310u, 24311u, 24312u, 24314u, 24315u, 24316u, 24318u, 24319u, 24321u, 24323u, 24324u, 24329u, 24330u, 24331u, 24332u, 24333u, 24335u, 24336u, 24337u, 24339u, 24340u, 24341u, 24342u, 24343u, 24344u, 24347u, 24351u, 24353u, 24357u, 24358u, 24359u, 24361u, 24365u, 24367u, 24369u, 24372u, 24373u, 24375u, 24376u, 24380u, 24382u, 24385u, 24389u, 24392u, 24394u, 24396u, 24398u, 24401u, 24403u, 24406u, 24407u, 24409u, 24412u, 24413u, 24417u, 24418u, 24422u, 24423u, 24425u, 24426u, 24427u, 24428u, 24429u, 24432u, 24433u, 24435u, 24439u, 24441u, 24444u, 24447u, 24448u, 24449u, 24450u, 24451u, 24452u, 24453u, 24455u, 24456u, 24458u, 24459u, 24460u, 24464u, 24465u, 24466u, 24467u, 24471u, 24472u, 24473u, 24478u, 24480u, 24481u, 24488u, 24489u, 24490u, 24493u, 24494u, 24499u, 24500u, 24503u, 24505u, 24508u, 24509u, 24515u, 24517u, 24524u, 24525u, 24534u, 24535u, 24536u, 24537u, 24540u, 24541u, 24542u, 24544u, 24548u, 24555u, 24560u, 24561u, 24565u, 24568u, 24571u, 24573u, 24575u, 24590u, 24591u, 24592u, 24594u, 24597u, 24598u, 24601u, 24603u, 24604u, 24605u, 24608u, 24609u, 24613u, 24614u, 24615u, 24616u, 24617u, 24618u, 24619u, 24623u, 24625u, 24634u, 24641u, 24642u, 24643u, 24646u, 24650u, 24651u, 24653u, 24656u, 24658u, 24661u, 24665u, 24666u, 24669u, 24671u, 24672u, 24674u, 24675u, 24676u, 24677u, 24680u, 24681u, 24682u, 24683u, 24684u, 24685u, 24687u, 24688u, 24693u, 24695u, 24705u, 24707u, 24708u, 24709u, 24713u, 24714u, 24715u, 24716u, 24717u, 24722u, 24724u, 24726u, 24727u, 24730u, 24731u, 24735u, 24736u, 24739u, 24742u, 24743u, 24745u, 24746u, 24754u, 24755u, 24756u, 24757u, 24758u, 24760u, 24764u, 24765u, 24773u, 24774u, 24775u, 24785u, 24787u, 24789u, 24792u, 24794u, 24796u, 24798u, 24799u, 24800u, 24801u, 24803u, 24807u, 24808u, 24816u, 24817u, 24818u, 24819u, 24820u, 24822u, 24823u, 24825u, 24826u, 24827u, 24832u, 24833u, 24835u, 24838u, 24840u, 24841u, 24845u, 24846u, 24847u, 24849u, 24853u, 24858u, 24859u, 24863u, 24864u, 24865u, 24871u, 24872u, 24876u, 24880u, 24884u, 24887u, 24892u, 24893u, 24894u, 24895u, 24898u, 24900u, 24903u, 24904u, 24906u, 24907u, 24908u, 24909u, 24910u, 24915u, 24917u, 24920u, 24921u, 24922u, 24925u, 24927u, 24930u, 24931u, 24933u, 24935u, 24936u, 24939u, 24942u, 24943u, 24944u, 24945u, 24947u, 24948u, 24949u, 24950u, 24951u, 24958u, 24962u, 24967u, 24970u, 24974u, 24976u, 24977u, 24980u, 24982u, 24984u, 24985u, 24986u, 24996u, 24999u, 25001u, 25003u, 25004u, 25006u, 25010u, 25014u, 25018u, 25022u, 25027u, 25030u, 25031u, 25032u, 25033u, 25034u, 25035u, 25036u, 25037u, 25040u, 25059u, 25062u, 25074u, 25076u, 25078u, 25079u, 25080u, 25082u, 25084u, 25085u, 25086u, 25087u, 25088u, 25096u, 25097u, 25098u, 25100u, 25101u, 25102u, 25104u, 25105u, 25106u, 25107u, 25108u, 25110u, 25114u, 25115u, 25117u, 25118u, 25119u, 25121u, 25126u, 25130u, 25134u, 25135u, 25136u, 25138u, 25139u, 25140u, 25144u, 25147u, 25151u, 25152u, 25153u, 25159u, 25160u, 25161u, 25163u, 25165u, 25166u, 25171u, 25173u, 25176u, 25179u, 25182u, 25184u, 25187u, 25192u, 25198u, 25201u, 25206u, 25209u, 25212u, 25214u, 25215u, 25216u, 25218u, 25219u, 25220u, 25225u, 25226u, 25233u, 25234u, 25235u, 25236u, 25237u, 25238u, 25239u, 25240u, 25243u, 25244u, 25246u, 25254u, 25259u, 25260u, 25265u, 25269u, 25273u, 25275u, 25276u, 25277u, 25282u, 25285u, 25286u, 25287u, 25288u, 25289u, 25290u, 25292u, 25293u, 25295u, 25296u, 25297u, 25298u, 25299u, 25300u, 25303u, 25304u, 25305u, 25307u, 25308u, 25309u, 25312u, 25313u, 25324u, 25325u, 25326u, 25327u, 25329u, 25331u, 25333u, 25334u, 25335u, 25342u, 25343u, 25345u, 25346u, 25351u, 25352u, 25353u, 25356u, 25361u, 25369u, 25375u, 25383u, 25384u, 25387u, 25391u, 25402u, 25405u, 25406u, 25407u, 25417u, 25420u, 25421u, 25423u, 25424u, 25429u, 25431u, 25436u, 25447u, 25448u, 25449u, 25451u, 25454u, 25458u, 25462u, 25463u, 25466u, 25467u, 25472u, 25475u, 25480u, 25481u, 25484u, 25486u, 25487u, 25490u, 25494u, 25496u, 25499u, 25503u, 25504u, 25505u, 25506u, 25507u, 25509u, 25511u, 25512u, 25513u, 25514u, 25515u, 25516u, 25522u, 25524u, 25525u, 25531u, 25534u, 25536u, 25539u, 25540u, 25542u, 25545u, 25551u, 25552u, 25554u, 25558u, 25562u, 25563u, 25569u, 25571u, 25577u, 25582u, 25588u, 25589u, 25590u, 25594u, 25606u, 25613u, 25615u, 25619u, 25622u, 25623u, 25628u, 25638u, 25640u, 25644u, 25645u, 25652u, 25654u, 25658u, 25662u, 25666u, 25678u, 25688u, 25696u, 25703u, 25705u, 25711u, 25718u, 25720u, 25722u, 25731u, 25736u, 25746u, 25747u, 25749u, 25754u, 25757u, 25758u, 25764u, 25765u, 25769u, 25771u, 25773u, 25774u, 25776u, 25778u, 25785u, 25787u, 25788u, 25793u, 25794u, 25797u, 25799u, 25805u, 25806u, 25810u, 25812u, 25816u, 25818u, 25824u, 25825u, 25826u, 25827u, 25830u, 25831u, 25836u, 25839u, 25841u, 25842u, 25844u, 25846u, 25850u, 25853u, 25854u, 25856u, 25861u, 25880u, 25884u, 25885u, 25891u, 25892u, 25898u, 25899u, 25900u, 25903u, 25908u, 25909u, 25910u, 25911u, 25912u, 25913u, 25915u, 25918u, 25919u, 25925u, 25928u, 25933u, 25934u, 25935u, 25937u, 25941u, 25942u, 25943u, 25944u, 25945u, 25949u, 25950u, 25954u, 25955u, 25958u, 25964u, 25968u, 25970u, 25972u, 25973u, 25975u, 25976u, 25986u, 25987u, 25991u, 25992u, 25993u, 25996u, 25998u, 26000u, 26001u, 26007u, 26009u, 26011u, 26012u, 26015u, 26017u, 26020u, 26021u, 26023u, 26027u, 26028u, 26029u, 26031u, 26032u, 26039u, 26041u, 26044u, 26045u, 26049u, 26051u, 26052u, 26053u, 26054u, 26059u, 26060u, 26063u, 26066u, 26071u, 26073u, 26075u, 26080u, 26081u, 26082u, 26085u, 26086u, 26087u, 26088u, 26089u, 26092u, 26093u, 26097u, 26106u, 26107u, 26112u, 26114u, 26115u, 26118u, 26119u, 26121u, 26122u, 26124u, 26126u, 26127u, 26131u, 26132u, 26133u, 26140u, 26142u, 26143u, 26144u, 26148u, 26149u, 26151u, 26152u, 26157u, 26158u, 26159u, 26161u, 26164u, 26165u, 26166u, 26171u, 26172u, 26175u, 26177u, 26178u, 26179u, 26180u, 26185u, 26187u, 26191u, 26194u, 26199u, 26201u, 26205u, 26206u, 26207u, 26210u, 26212u, 26213u, 26214u, 26215u, 26216u, 26217u, 26222u, 26223u, 26224u, 26227u, 26228u, 26230u, 26234u, 26241u, 26243u, 26244u, 26247u, 26248u, 26249u, 26254u, 26257u, 26262u, 26263u, 26264u, 26265u, 26269u, 26272u, 26274u, 26278u, 26283u, 26286u, 26290u, 26292u, 26296u, 26297u, 26300u, 26302u, 26303u, 26305u, 26308u, 26311u, 26313u, 26326u, 26329u, 26330u, 26332u, 26333u, 26336u, 26342u, 26345u, 26352u, 26354u, 26355u, 26356u, 26357u, 26359u, 26360u, 26361u, 26362u, 26363u, 26364u, 26365u, 26366u, 26367u, 26368u, 26371u, 26376u, 26377u, 26379u, 26381u, 26382u, 26383u, 26388u, 26389u, 26390u, 26391u, 26395u, 26397u, 26398u, 26399u, 26406u, 26407u, 26408u, 26410u, 26411u, 26412u, 26413u, 26414u, 26417u, 26420u, 26422u, 26423u, 26424u, 26426u, 26429u, 26431u, 26433u, 26438u, 26441u, 26446u, 26447u, 26448u, 26449u, 26451u, 26454u, 26457u, 26460u, 26462u, 26463u, 26464u, 26465u, 26466u, 26467u, 26468u, 26469u, 26470u, 26474u, 26477u, 26479u, 26480u, 26481u, 26482u, 26483u, 26485u, 26487u, 26492u, 26494u, 26495u, 26501u, 26503u, 26505u, 26507u, 26508u, 26512u, 26517u, 26519u, 26522u, 26524u, 26525u, 26528u, 26529u, 26530u, 26534u, 26537u, 26543u, 26547u, 26548u, 26550u, 26551u, 26552u, 26553u, 26555u, 26560u, 26561u, 26564u, 26566u, 26570u, 26574u, 26575u, 26576u, 26577u, 26579u, 26580u, 26584u, 26586u, 26589u, 26590u, 26594u, 26596u, 26599u, 26601u, 26604u, 26606u, 26607u, 26609u, 26611u, 26612u, 26613u, 26619u, 26622u, 26623u, 26625u, 26626u, 26627u, 26628u, 26643u, 26646u, 26647u, 26654u, 26657u, 26658u, 26665u, 26666u, 26667u, 26674u, 26676u, 26680u, 26681u, 26684u, 26685u, 26688u, 26689u, 26690u, 26691u, 26692u, 26694u, 26696u, 26701u, 26702u, 26704u, 26705u, 26706u, 26707u, 26708u, 26713u, 26716u, 26717u, 26719u, 26723u, 26727u, 26740u, 26742u, 26743u, 26750u, 26751u, 26753u, 26755u, 26757u, 26765u, 26767u, 26771u, 26772u, 26775u, 26779u, 26781u, 26783u, 26784u, 26786u, 26790u, 26791u, 26792u, 26797u, 26799u, 26800u, 26801u, 26803u, 26805u, 26806u, 26809u, 26810u, 26812u, 26820u, 26822u, 26824u, 26825u, 26826u, 26827u, 26829u, 26831u, 26834u, 26836u, 26837u, 26839u, 26840u, 26842u, 26847u, 26848u, 26849u, 26851u, 26855u, 26862u, 26863u, 26866u, 26873u, 26874u, 26880u, 26881u, 26884u, 26885u, 26888u, 26891u, 26892u, 26893u, 26894u, 26895u, 26898u, 26905u, 26906u, 26907u, 26908u, 26913u, 26914u, 26915u, 26917u, 26918u, 26920u, 26922u, 26928u, 26932u, 26934u, 26937u, 26941u, 26943u, 26954u, 26963u, 26964u, 26965u, 26969u, 26970u, 26972u, 26973u, 26974u, 26976u, 26977u, 26978u, 26984u, 26986u, 26987u, 26989u, 26990u, 26991u, 26995u, 26996u, 26997u, 26999u, 27000u, 27001u, 27004u, 27005u, 27006u, 27009u, 27010u, 27018u, 27022u, 27025u, 27028u, 27029u, 27032u, 27035u, 27036u, 27040u, 27047u, 27054u, 27057u, 27058u, 27060u, 27067u, 27070u, 27071u, 27073u, 27075u, 27079u, 27082u, 27083u, 27084u, 27085u, 27086u, 27088u, 27091u, 27096u, 27097u, 27101u, 27102u, 27106u, 27111u, 27112u, 27115u, 27117u, 27122u, 27129u, 27131u, 27133u, 27135u, 27138u, 27141u, 27146u, 27147u, 27148u, 27154u, 27155u, 27156u, 27159u, 27161u, 27163u, 27166u, 27167u, 27169u, 27170u, 27171u, 27177u, 27178u, 27179u, 27182u, 27184u, 27189u, 27190u, 27192u, 27193u, 27194u, 27197u, 27204u, 27206u, 27207u, 27208u, 27211u, 27224u, 27225u, 27231u, 27233u, 27234u, 27238u, 27243u, 27250u, 27251u, 27256u, 27262u, 27263u, 27264u, 27268u, 27277u, 27278u, 27280u, 27287u, 27292u, 27296u, 27298u, 27299u, 27306u, 27308u, 27310u, 27315u, 27320u, 27323u, 27329u, 27330u, 27331u, 27345u, 27347u, 27354u, 27355u, 27358u, 27359u, 27362u, 27364u, 27368u, 27370u, 27386u, 27387u, 27396u, 27397u, 27402u, 27410u, 27414u, 27421u, 27423u, 27424u, 27425u, 27427u, 27431u, 27442u, 27447u, 27448u, 27449u, 27450u, 27453u, 27454u, 27459u, 27463u, 27465u, 27468u, 27470u, 27472u, 27475u, 27476u, 27481u, 27483u, 27487u, 27489u, 27490u, 27491u, 27492u, 27494u, 27497u, 27498u, 27503u, 27507u, 27508u, 27512u, 27513u, 27515u, 27519u, 27520u, 27523u, 27524u, 27526u, 27529u, 27530u, 27531u, 27533u, 27541u, 27542u, 27544u, 27550u, 27556u, 27562u, 27563u, 27567u, 27569u, 27570u, 27571u, 27572u, 27573u, 27575u, 27578u, 27579u, 27580u, 27583u, 27584u, 27589u, 27590u, 27595u, 27597u, 27598u, 27602u, 27603u, 27604u, 27606u, 27608u, 27611u, 27615u, 27627u, 27628u, 27631u, 27635u, 27656u, 27663u, 27665u, 27667u, 27668u, 27671u, 27675u, 27683u, 27684u, 27700u, 27703u, 27704u, 27710u, 27711u, 27712u, 27713u, 27714u, 27726u, 27728u, 27733u, 27735u, 27738u, 27740u, 27741u, 27742u, 27743u, 27744u, 27746u, 27752u, 27754u, 27759u, 27760u, 27762u, 27763u, 27770u, 27773u, 27774u, 27777u, 27778u, 27779u, 27782u, 27784u, 27788u, 27789u, 27792u, 27794u, 27795u, 27798u, 27801u, 27802u, 27803u, 27809u, 27810u, 27819u, 27822u, 27825u, 27827u, 27832u, 27833u, 27834u, 27835u, 27836u, 27837u, 27838u, 27839u, 27841u, 27844u, 27845u, 27849u, 27850u, 27852u, 27859u, 27861u, 27863u, 27865u, 27866u, 27867u, 27869u, 27873u, 27874u, 27875u, 27877u, 27880u, 27882u, 27887u, 27888u, 27889u, 27891u, 27908u, 27915u, 27916u, 27922u, 27927u, 27929u, 27931u, 27934u, 27935u, 27941u, 27945u, 27946u, 27947u, 27954u, 27955u, 27957u, 27958u, 27960u, 27963u, 27965u, 27966u, 27969u, 27972u, 27973u, 27993u, 27994u, 27996u, 28003u, 28004u, 28006u, 28009u, 28010u, 28012u, 28014u, 28015u, 28020u, 28023u, 28024u, 28025u, 28037u, 28039u, 28040u, 28044u, 28046u, 28051u, 28053u, 28054u, 28057u, 28059u, 28060u, 28076u, 28079u, 28082u, 28085u, 28088u, 28092u, 28096u, 28101u, 28102u, 28103u, 28107u, 28108u, 28111u, 28113u, 28114u, 28117u, 28120u, 28121u, 28126u, 28129u, 28132u, 28134u, 28136u, 28138u, 28139u, 28140u, 28142u, 28145u, 28146u, 28147u, 28149u, 28151u, 28152u, 28153u, 28154u, 28155u, 28156u, 28165u, 28167u, 28168u, 28169u, 28170u, 28171u, 28179u, 28181u, 28185u, 28186u, 28187u, 28189u, 28191u, 28192u, 28193u, 28195u, 28196u, 28197u, 28198u, 28199u, 28201u, 28203u, 28204u, 28205u, 28206u, 28207u, 28216u, 28217u, 28218u, 28220u, 28222u, 28227u, 28234u, 28237u, 28238u, 28246u, 28248u, 28251u, 28252u, 28255u, 28263u, 28267u, 28270u, 28271u, 28274u, 28278u, 28286u, 28287u, 28288u, 28290u, 28300u, 28303u, 28304u, 28310u, 28312u, 28316u, 28317u, 28319u, 28322u, 28325u, 28330u, 28335u, 28338u, 28342u, 28343u, 28346u, 28349u, 28351u, 28354u, 28356u, 28357u, 28361u, 28363u, 28364u, 28369u, 28371u, 28372u, 28373u, 28381u, 28382u, 28396u, 28399u, 28402u, 28404u, 28407u, 28408u, 28414u, 28415u, 28417u, 28418u, 28422u, 28425u, 28431u, 28433u, 28435u, 28436u, 28437u, 28448u, 28450u, 28451u, 28459u, 28460u, 28465u, 28466u, 28472u, 28478u, 28479u, 28481u, 28485u, 28500u, 28504u, 28507u, 28508u, 28511u, 28516u, 28518u, 28525u, 28526u, 28527u, 28528u, 28532u, 28536u, 28538u, 28540u, 28544u, 28545u, 28546u, 28548u, 28550u, 28552u, 28558u, 28561u, 28567u, 28577u, 28579u, 28580u, 28586u, 28593u, 28595u, 28597u, 28601u, 28608u, 28609u, 28610u, 28611u, 28614u, 28628u, 28629u, 28632u, 28635u, 28639u, 28640u, 28641u, 28644u, 28651u, 28652u, 28654u, 28655u, 28657u, 28659u, 28661u, 28662u, 28666u, 28670u, 28673u, 28677u, 28679u, 28681u, 28683u, 28687u, 28689u, 28693u, 28696u, 28698u, 28699u, 28701u, 28702u, 28703u, 28710u, 28711u, 28712u, 28716u, 28720u, 28722u, 28734u, 28748u, 28753u, 28760u, 28771u, 28779u, 28783u, 28784u, 28792u, 28796u, 28797u, 28805u, 28809u, 28810u, 28814u, 28818u, 28825u, 28843u, 28844u, 28845u, 28846u, 28847u, 28851u, 28856u, 28857u, 28858u, 28859u, 28872u, 28875u, 28879u, 28889u, 28893u, 28895u, 28913u, 28921u, 28925u, 28932u, 28937u, 28943u, 28948u, 28953u, 28954u, 28956u, 28961u, 28966u, 28982u, 28988u, 28998u, 28999u, 29001u, 29004u, 29006u, 29013u, 29014u, 29017u, 29020u, 29026u, 29028u, 29029u, 29030u, 29031u, 29033u, 29036u, 29038u, 29053u, 29060u, 29064u, 29066u, 29071u, 29076u, 29077u, 29081u, 29087u, 29096u, 29100u, 29105u, 29113u, 29118u, 29121u, 29123u, 29128u, 29129u, 29134u, 29136u, 29138u, 29140u, 29141u, 29143u, 29151u, 29152u, 29157u, 29158u, 29159u, 29164u, 29165u, 29166u, 29173u, 29177u, 29179u, 29180u, 29182u, 29183u, 29190u, 29197u, 29200u, 29211u, 29224u, 29226u, 29228u, 29229u, 29232u, 29234u, 29237u, 29238u, 29242u, 29243u, 29244u, 29245u, 29246u, 29247u, 29248u, 29254u, 29255u, 29256u, 29259u, 29260u, 29266u, 29272u, 29273u, 29275u, 29277u, 29279u, 29281u, 29282u, 29287u, 29289u, 29298u, 29300u, 29305u, 29309u, 29310u, 29312u, 29313u, 29314u, 29319u, 29330u, 29334u, 29344u, 29346u, 29351u, 29356u, 29359u, 29361u, 29362u, 29366u, 29369u, 29374u, 29378u, 29379u, 29380u, 29382u, 29390u, 29392u, 29394u, 29399u, 29401u, 29403u, 29408u, 29409u, 29410u, 29417u, 29420u, 29421u, 29431u, 29432u, 29433u, 29436u, 29437u, 29450u, 29462u, 29463u, 29467u, 29468u, 29469u, 29471u, 29476u, 29477u, 29481u, 29482u, 29483u, 29486u, 29487u, 29492u, 29494u, 29495u, 29502u, 29503u, 29508u, 29509u, 29518u, 29519u, 29527u, 29539u, 29544u, 29546u, 29552u, 29554u, 29557u, 29559u, 29560u, 29562u, 29563u, 29572u, 29575u, 29577u, 29579u, 29590u, 29609u, 29618u, 29619u, 29627u, 29629u, 29632u, 29634u, 29640u, 29641u, 29642u, 29645u, 29646u, 29650u, 29654u, 29662u, 29664u, 29667u, 29669u, 29674u, 29677u, 29678u, 29681u, 29685u, 29688u, 29694u, 29699u, 29701u, 29702u, 29703u, 29705u, 29730u, 29733u, 29734u, 29737u, 29738u, 29742u, 29746u, 29747u, 29748u, 29749u, 29750u, 29754u, 29759u, 29761u, 29781u, 29785u, 29786u, 29787u, 29788u, 29790u, 29791u, 29792u, 29794u, 29795u, 29796u, 29801u, 29802u, 29807u, 29808u, 29811u, 29814u, 29822u, 29827u, 29833u, 29835u, 29854u, 29855u, 29858u, 29863u, 29872u, 29885u, 29898u, 29903u, 29908u, 29916u, 29920u, 29922u, 29923u, 29926u, 29927u, 29929u, 29934u, 29936u, 29937u, 29938u, 29942u, 29943u, 29944u, 29953u, 29955u, 29956u, 29957u, 29964u, 29965u, 29966u, 29969u, 29971u, 29973u, 29976u, 29978u, 29980u, 29982u, 29983u, 29987u, 29989u, 29990u, 29992u, 29995u, 29996u, 29999u, 30000u, 30001u, 30002u, 30003u, 30007u, 30008u, 30010u, 30011u, 30012u, 30020u, 30022u, 30025u, 30026u, 30027u, 30028u, 30029u, 30031u, 30033u, 30036u, 30041u, 30042u, 30043u, 30044u, 30045u, 30048u, 30050u, 30052u, 30053u, 30054u, 30055u, 30057u, 30058u, 30059u, 30061u, 30063u, 30064u, 30067u, 30068u, 30070u, 30071u, 30072u, 30079u, 30082u, 30086u, 30087u, 30089u, 30090u, 30091u, 30094u, 30095u, 30097u, 30100u, 30106u, 30109u, 30115u, 30117u, 30123u, 30129u, 30130u, 30131u, 30133u, 30136u, 30137u, 30140u, 30141u, 30142u, 30146u, 30147u, 30149u, 30151u, 30154u, 30157u, 30162u, 30164u, 30165u, 30168u, 30169u, 30171u, 30174u, 30178u, 30179u, 30185u, 30192u, 30194u, 30195u, 30196u, 30202u, 30204u, 30206u, 30207u, 30209u, 30217u, 30219u, 30221u, 30239u, 30240u, 30241u, 30242u, 30244u, 30247u, 30256u, 30260u, 30267u, 30274u, 30278u, 30279u, 30280u, 30284u, 30290u, 30294u, 30296u, 30300u, 30305u, 30306u, 30311u, 30312u, 30313u, 30314u, 30316u, 30320u, 30322u, 30326u, 30328u, 30330u, 30331u, 30332u, 30333u, 30334u, 30336u, 30338u, 30339u, 30340u, 30342u, 30343u, 30344u, 30347u, 30350u, 30352u, 30355u, 30358u, 30361u, 30362u, 30363u, 30364u, 30366u, 30374u, 30382u, 30384u, 30388u, 30391u, 30392u, 30393u, 30394u, 30399u, 30402u, 30403u, 30406u, 30408u, 30410u, 30413u, 30418u, 30422u, 30423u, 30427u, 30428u, 30430u, 30431u, 30433u, 30435u, 30436u, 30437u, 30439u, 30442u, 30446u, 30450u, 30452u, 30456u, 30459u, 30462u, 30465u, 30468u, 30471u, 30472u, 30473u, 30475u, 30476u, 30491u, 30494u, 30495u, 30496u, 30500u, 30501u, 30502u, 30505u, 30519u, 30520u, 30522u, 30524u, 30528u, 30534u, 30535u, 30554u, 30555u, 30561u, 30563u, 30565u, 30566u, 30568u, 30571u, 30585u, 30590u, 30591u, 30603u, 30606u, 30609u, 30622u, 30624u, 30629u, 30636u, 30637u, 30640u, 30643u, 30646u, 30649u, 30651u, 30652u, 30653u, 30655u, 30663u, 30669u, 30679u, 30682u, 30683u, 30684u, 30690u, 30691u, 30693u, 30695u, 30697u, 30701u, 30702u, 30703u, 30707u, 30716u, 30722u, 30732u, 30738u, 30740u, 30741u, 30752u, 30753u, 30757u, 30758u, 30759u, 30770u, 30772u, 30778u, 30783u, 30789u, 30798u, 30813u, 30820u, 30827u, 30828u, 30831u, 30834u, 30836u, 30842u, 30844u, 30849u, 30854u, 30855u, 30860u, 30861u, 30862u, 30865u, 30867u, 30869u, 30871u, 30874u, 30883u, 30887u, 30889u, 30890u, 30895u, 30901u, 30906u, 30908u, 30910u, 30913u, 30917u, 30918u, 30922u, 30923u, 30928u, 30929u, 30932u, 30938u, 30951u, 30952u, 30956u, 30959u, 30964u, 30973u, 30977u, 30983u, 30990u, 30993u, 30994u, 31001u, 31014u, 31018u, 31019u, 31020u, 31024u, 31034u, 31036u, 31038u, 31040u, 31041u, 31047u, 31048u, 31049u, 31056u, 31059u, 31061u, 31062u, 31063u, 31066u, 31069u, 31070u, 31071u, 31072u, 31074u, 31077u, 31080u, 31085u, 31095u, 31098u, 31103u, 31104u, 31105u, 31108u, 31109u, 31114u, 31117u, 31118u, 31119u, 31124u, 31131u, 31133u, 31142u, 31143u, 31146u, 31150u, 31152u, 31155u, 31161u, 31162u, 31165u, 31166u, 31167u, 31168u, 31169u, 31177u, 31179u, 31185u, 31186u, 31189u, 31192u, 31199u, 31201u, 31203u, 31204u, 31206u, 31207u, 31209u, 31212u, 31216u, 31227u, 31232u, 31240u, 31243u, 31245u, 31246u, 31252u, 31255u, 31256u, 31257u, 31258u, 31260u, 31263u, 31264u, 31278u, 31281u, 31282u, 31287u, 31291u, 31292u, 31293u, 31294u, 31295u, 31296u, 31298u, 31299u, 31302u, 31305u, 31309u, 31310u, 31311u, 31312u, 31319u, 31329u, 31330u, 31331u, 31337u, 31339u, 31344u, 31348u, 31350u, 31353u, 31354u, 31357u, 31359u, 31361u, 31363u, 31364u, 31368u, 31378u, 31379u, 31381u, 31382u, 31383u, 31384u, 31391u, 31401u, 31402u, 31406u, 31407u, 31408u, 31414u, 31418u, 31423u, 31427u, 31428u, 31429u, 31431u, 31432u, 31434u, 31435u, 31437u, 31439u, 31441u, 31442u, 31443u, 31445u, 31449u, 31450u, 31452u, 31453u, 31455u, 31456u, 31457u, 31458u, 31459u, 31461u, 31462u, 31463u, 31466u, 31467u, 31469u, 31471u, 31472u, 31478u, 31480u, 31481u, 31482u, 31487u, 31490u, 31492u, 31494u, 31496u, 31498u, 31499u, 31503u, 31505u, 31512u, 31513u, 31515u, 31518u, 31520u, 31525u, 31526u, 31528u, 31532u, 31539u, 31541u, 31542u, 31545u, 31557u, 31558u, 31560u, 31561u, 31563u, 31564u, 31565u, 31567u, 31568u, 31569u, 31570u, 31572u, 31574u, 31581u, 31589u, 31591u, 31596u, 31598u, 31600u, 31601u, 31604u, 31605u, 31610u, 31622u, 31623u, 31627u, 31629u, 31631u, 31634u, 31636u, 31637u, 31639u, 31640u, 31641u, 31642u, 31644u, 31645u, 31646u, 31647u, 31649u, 31658u, 31661u, 31665u, 31668u, 31672u, 31680u, 31681u, 31684u, 31686u, 31687u, 31689u, 31691u, 31692u, 31695u, 31709u, 31712u, 31716u, 31717u, 31718u, 31721u, 31725u, 31731u, 31734u, 31735u, 31744u, 31751u, 31757u, 31761u, 31762u, 31763u, 31764u, 31767u, 31775u, 31777u, 31779u, 31783u, 31786u, 31787u, 31799u, 31800u, 31805u, 31806u, 31807u, 31808u, 31811u, 31820u, 31821u, 31823u, 31824u, 31828u, 31830u, 31832u, 31839u, 31840u, 31844u, 31845u, 31852u, 31859u, 31861u, 31870u, 31873u, 31874u, 31875u, 31881u, 31883u, 31885u, 31888u, 31890u, 31893u, 31895u, 31896u, 31899u, 31903u, 31905u, 31906u, 31908u, 31909u, 31911u, 31912u, 31915u, 31917u, 31918u, 31921u, 31922u, 31923u, 31929u, 31933u, 31934u, 31936u, 31938u, 31941u, 31946u, 31950u, 31954u, 31958u, 31960u, 31964u, 31966u, 31967u, 31968u, 31970u, 31975u, 31983u, 31986u, 31988u, 31990u, 31992u, 31994u, 31995u, 31998u, 32000u, 32002u, 32004u, 32005u, 32006u, 32010u, 32011u, 32013u, 32016u, 32020u, 32021u, 32023u, 32024u, 32025u, 32026u, 32027u, 32028u, 32032u, 32033u, 32034u, 32043u, 32044u, 32046u, 32047u, 32048u, 32050u, 32051u, 32053u, 32057u, 32058u, 32063u, 32066u, 32067u, 32068u, 32069u, 32070u, 32072u, 32075u, 32076u, 32078u, 32079u, 32080u, 32086u, 32091u, 32092u, 32094u, 32097u, 32098u, 32099u, 32102u, 32104u, 32110u, 32113u, 32114u, 32115u, 32117u, 32118u, 32121u, 32125u, 32137u, 32143u, 32147u, 32153u, 32154u, 32155u, 32156u, 32159u, 32160u, 32162u, 32163u, 32171u, 32172u, 32173u, 32174u, 32175u, 32176u, 32177u, 32178u, 32180u, 32181u, 32183u, 32184u, 32186u, 32187u, 32189u, 32190u, 32191u, 32199u, 32202u, 32203u, 32207u, 32209u, 32210u, 32213u, 32214u, 32216u, 32218u, 32220u, 32221u, 32222u, 32224u, 32225u, 32228u, 32232u, 32233u, 32236u, 32239u, 32242u, 32244u, 32251u, 32257u, 32260u, 32261u, 32265u, 32266u, 32267u, 32274u, 32283u, 32286u, 32287u, 32289u, 32290u, 32291u, 32294u, 32299u, 32302u, 32305u, 32306u, 32309u, 32311u, 32313u, 32314u, 32315u, 32317u, 32318u, 32321u, 32323u, 32326u, 32330u, 32331u, 32333u, 32338u, 32340u, 32341u, 32342u, 32345u, 32346u, 32349u, 32350u, 32358u, 32359u, 32361u, 32362u, 32365u, 32368u, 32377u, 32379u, 32380u, 32381u, 32383u, 32386u, 32387u, 32392u, 32393u, 32394u, 32396u, 32398u, 32399u, 32400u, 32402u, 32403u, 32404u, 32406u, 32411u, 32412u, 32566u, 32568u, 32570u, 32581u, 32583u, 32588u, 32589u, 32590u, 32592u, 32593u, 32596u, 32597u, 32600u, 32607u, 32608u, 32615u, 32616u, 32617u, 32618u, 32619u, 32622u, 32624u, 32626u, 32629u, 32631u, 32632u, 32633u, 32642u, 32643u, 32645u, 32646u, 32647u, 32648u, 32650u, 32652u, 32654u, 32660u, 32666u, 32669u, 32670u, 32673u, 32675u, 32676u, 32680u, 32681u, 32686u, 32687u, 32690u, 32694u, 32696u, 32697u, 32701u, 32705u, 32709u, 32710u, 32714u, 32716u, 32722u, 32724u, 32725u, 32736u, 32737u, 32742u, 32745u, 32747u, 32752u, 32755u, 32761u, 32763u, 32764u, 32768u, 32769u, 32771u, 32772u, 32773u, 32774u, 32779u, 32780u, 32784u, 32786u, 32789u, 32791u, 32792u, 32793u, 32796u, 32801u, 32808u, 32819u, 32822u, 32827u, 32829u, 32831u, 32838u, 32842u, 32850u, 32854u, 32856u, 32858u, 32862u, 32863u, 32865u, 32866u, 32872u, 32879u, 32880u, 32882u, 32883u, 32884u, 32886u, 32887u, 32889u, 32893u, 32894u, 32895u, 32900u, 32901u, 32902u, 32903u, 32905u, 32907u, 32908u, 32915u, 32918u, 32920u, 32922u, 32923u, 32925u, 32929u, 32930u, 32933u, 32937u, 32938u, 32940u, 32941u, 32943u, 32945u, 32946u, 32948u, 32954u, 32963u, 32964u, 32966u, 32972u, 32974u, 32982u, 32985u, 32986u, 32987u, 32989u, 32990u, 32993u, 32996u, 32997u, 33007u, 33009u, 33012u, 33016u, 33020u, 33021u, 33026u, 33029u, 33030u, 33031u, 33032u, 33033u, 33034u, 33050u, 33051u, 33059u, 33065u, 33071u, 33073u, 33075u, 33081u, 33086u, 33094u, 33099u, 33102u, 33104u, 33105u, 33107u, 33108u, 33109u, 33119u, 33125u, 33126u, 33131u, 33134u, 33136u, 33137u, 33140u, 33144u, 33145u, 33146u, 33151u, 33152u, 33154u, 33155u, 33160u, 33162u, 33167u, 33171u, 33173u, 33178u, 33180u, 33181u, 33184u, 33187u, 33188u, 33192u, 33193u, 33200u, 33203u, 33205u, 33208u, 33210u, 33213u, 33214u, 33215u, 33216u, 33218u, 33222u, 33224u, 33225u, 33229u, 33233u, 33235u, 33240u, 33241u, 33242u, 33247u, 33248u, 33251u, 33253u, 33255u, 33256u, 33258u, 33261u, 33267u, 33268u, 33274u, 33275u, 33276u, 33278u, 33281u, 33282u, 33285u, 33287u, 33288u, 33289u, 33290u, 33292u, 33293u, 33294u, 33296u, 33298u, 33302u, 33303u, 33304u, 33307u, 33308u, 33310u, 33311u, 33321u, 33322u, 33323u, 33324u, 33326u, 33331u, 33333u, 33334u, 33335u, 33336u, 33337u, 33344u, 33351u, 33368u, 33369u, 33370u, 33373u, 33375u, 33378u, 33380u, 33382u, 33384u, 33386u, 33387u, 33390u, 33391u, 33393u, 33394u, 33398u, 33399u, 33400u, 33406u, 33419u, 33421u, 33426u, 33433u, 33437u, 33439u, 33445u, 33446u, 33451u, 33452u, 33453u, 33455u, 33457u, 33459u, 33464u, 33465u, 33467u, 33469u, 33477u, 33489u, 33490u, 33491u, 33492u, 33495u, 33497u, 33499u, 33500u, 33502u, 33503u, 33505u, 33507u, 33509u, 33510u, 33511u, 33515u, 33521u, 33523u, 33524u, 33529u, 33530u, 33531u, 33537u, 33538u, 33539u, 33540u, 33541u, 33542u, 33545u, 33550u, 33558u, 33559u, 33560u, 33564u, 33571u, 33576u, 33579u, 33583u, 33585u, 33586u, 33588u, 33589u, 33590u, 33592u, 33593u, 33600u, 33605u, 33609u, 33610u, 33615u, 33616u, 33618u, 33624u, 33634u, 33651u, 33653u, 33655u, 33659u, 33660u, 33663u, 33669u, 33671u, 33673u, 33674u, 33678u, 33683u, 33686u, 33690u, 33694u, 33695u, 33696u, 33698u, 33704u, 33706u, 33707u, 33713u, 33717u, 33725u, 33729u, 33733u, 33735u, 33738u, 33740u, 33742u, 33747u, 33750u, 33752u, 33756u, 33759u, 33760u, 33769u, 33771u, 33775u, 33776u, 33777u, 33778u, 33780u, 33782u, 33783u, 33787u, 33789u, 33795u, 33796u, 33799u, 33803u, 33804u, 33805u, 33806u, 33811u, 33824u, 33826u, 33833u, 33834u, 33836u, 33841u, 33845u, 33848u, 33852u, 33853u, 33862u, 33864u, 33865u, 33870u, 33879u, 33883u, 33889u, 33890u, 33891u, 33894u, 33897u, 33899u, 33900u, 33901u, 33902u, 33903u, 33905u, 33909u, 33911u, 33913u, 33914u, 33922u, 33924u, 33931u, 33936u, 33940u, 33945u, 33948u, 33951u, 33953u, 33965u, 33970u, 33972u, 33976u, 33977u, 33979u, 33980u, 33983u, 33985u, 33988u, 33990u, 33993u, 33994u, 33995u, 33997u, 34000u, 34001u, 34006u, 34009u, 34010u, 34012u, 34028u, 34030u, 34036u, 34044u, 34047u, 34048u, 34054u, 34065u, 34067u, 34068u, 34069u, 34071u, 34072u, 34074u, 34079u, 34081u, 34086u, 34092u, 34093u, 34101u, 34109u, 34112u, 34113u, 34115u, 34120u, 34121u, 34122u, 34123u, 34126u, 34131u, 34133u, 34135u, 34136u, 34137u, 34138u, 34147u, 34152u, 34153u, 34154u, 34155u, 34157u, 34167u, 34174u, 34176u, 34180u, 34183u, 34184u, 34186u, 34192u, 34193u, 34196u, 34199u, 34201u, 34203u, 34204u, 34212u, 34214u, 34216u, 34217u, 34218u, 34219u, 34220u, 34222u, 34223u, 34224u, 34233u, 34234u, 34241u, 34249u, 34253u, 34255u, 34256u, 34261u, 34268u, 34269u, 34276u, 34277u, 34281u, 34282u, 34295u, 34297u, 34298u, 34299u, 34302u, 34306u, 34310u, 34311u, 34314u, 34315u, 34323u, 34326u, 34327u, 34330u, 34338u, 34349u, 34351u, 34352u, 34367u, 34381u, 34382u, 34384u, 34388u, 34389u, 34394u, 34396u, 34398u, 34399u, 34407u, 34411u, 34417u, 34425u, 34427u, 34442u, 34443u, 34444u, 34451u, 34453u, 34467u, 34468u, 34473u, 34474u, 34475u, 34479u, 34480u, 34486u, 34500u, 34502u, 34503u, 34505u, 34507u, 34509u, 34510u, 34516u, 34521u, 34523u, 34526u, 34527u, 34532u, 34537u, 34540u, 34541u, 34542u, 34543u, 34552u, 34553u, 34555u, 34558u, 34560u, 34562u, 34563u, 34566u, 34568u, 34569u, 34570u, 34573u, 34577u, 34578u, 34584u, 34586u, 34588u, 34597u, 34601u, 34612u, 34615u, 34619u, 34623u, 34633u, 34635u, 34636u, 34638u, 34643u, 34645u, 34647u, 34649u, 34655u, 34656u, 34659u, 34662u, 34664u, 34666u, 34670u, 34676u, 34678u, 34680u, 34687u, 34690u, 34701u, 34719u, 34722u, 34731u, 34735u, 34739u, 34746u, 34747u, 34749u, 34752u, 34756u, 34758u, 34759u, 34763u, 34768u, 34770u, 34784u, 34799u, 34802u, 34806u, 34807u, 34809u, 34811u, 34814u, 34821u, 34823u, 34829u, 34830u, 34831u, 34833u, 34837u, 34838u, 34849u, 34850u, 34851u, 34855u, 34865u, 34870u, 34873u, 34875u, 34880u, 34882u, 34884u, 34886u, 34892u, 34893u, 34898u, 34899u, 34903u, 34905u, 34907u, 34909u, 34910u, 34913u, 34914u, 34915u, 34920u, 34923u, 34928u, 34930u, 34933u, 34935u, 34941u, 34942u, 34943u, 34945u, 34946u, 34952u, 34955u, 34957u, 34962u, 34966u, 34967u, 34969u, 34974u, 34978u, 34980u, 34987u, 34990u, 34992u, 34993u, 34996u, 34997u, 34999u, 35007u, 35009u, 35010u, 35011u, 35012u, 35013u, 35023u, 35028u, 35029u, 35032u, 35033u, 35036u, 35037u, 35039u, 35041u, 35048u, 35058u, 35059u, 35060u, 35061u, 35064u, 35065u, 35068u, 35069u, 35070u, 35074u, 35076u, 35079u, 35082u, 35084u, 35088u, 35090u, 35091u, 35100u, 35101u, 35102u, 35109u, 35114u, 35115u, 35126u, 35128u, 35131u, 35137u, 35139u, 35140u, 35148u, 35149u, 35158u, 35166u, 35167u, 35168u, 35172u, 35174u, 35178u, 35181u, 35183u, 35186u, 35188u, 35191u, 35198u, 35199u, 35201u, 35203u, 35206u, 35207u, 35208u, 35210u, 35211u, 35215u, 35219u, 35222u, 35223u, 35224u, 35226u, 35233u, 35238u, 35239u, 35241u, 35242u, 35244u, 35247u, 35250u, 35251u, 35258u, 35261u, 35263u, 35264u, 35282u, 35290u, 35292u, 35293u, 35299u, 35302u, 35303u, 35316u, 35320u, 35328u, 35330u, 35331u, 35336u, 35338u, 35340u, 35342u, 35344u, 35346u, 35347u, 35350u, 35351u, 35352u, 35355u, 35357u, 35359u, 35363u, 35365u, 35370u, 35373u, 35377u, 35379u, 35380u, 35382u, 35383u, 35386u, 35387u, 35388u, 35393u, 35398u, 35400u, 35408u, 35409u, 35410u, 35412u, 35413u, 35419u, 35422u, 35424u, 35426u, 35427u, 35430u, 35433u, 35435u, 35436u, 35437u, 35438u, 35440u, 35441u, 35442u, 35443u, 35449u, 35452u, 35458u, 35460u, 35461u, 35463u, 35465u, 35468u, 35469u, 35473u, 35475u, 35477u, 35480u, 35482u, 35486u, 35488u, 35489u, 35491u, 35492u, 35493u, 35494u, 35495u, 35496u, 35500u, 35501u, 35504u, 35506u, 35513u, 35516u, 35518u, 35519u, 35522u, 35524u, 35527u, 35531u, 35532u, 35533u, 35535u, 35538u, 35542u, 35546u, 35547u, 35548u, 35550u, 35551u, 35552u, 35553u, 35554u, 35556u, 35558u, 35559u, 35563u, 35565u, 35566u, 35569u, 35571u, 35574u, 35575u, 35576u, 35578u, 35582u, 35584u, 35585u, 35586u, 35588u, 35591u, 35596u, 35598u, 35600u, 35604u, 35606u, 35607u, 35609u, 35610u, 35611u, 35613u, 35616u, 35617u, 35622u, 35624u, 35627u, 35628u, 35635u, 35641u, 35646u, 35649u, 35657u, 35660u, 35662u, 35663u, 35667u, 35670u, 35672u, 35674u, 35675u, 35676u, 35679u, 35686u, 35691u, 35692u, 35695u, 35696u, 35697u, 35698u, 35700u, 35703u, 35709u, 35711u, 35712u, 35715u, 35722u, 35724u, 35726u, 35728u, 35730u, 35731u, 35734u, 35737u, 35738u, 35895u, 35898u, 35903u, 35905u, 35910u, 35912u, 35914u, 35916u, 35918u, 35920u, 35925u, 35930u, 35937u, 35938u, 35946u, 35947u, 35948u, 35960u, 35961u, 35962u, 35964u, 35970u, 35973u, 35977u, 35978u, 35980u, 35981u, 35982u, 35988u, 35992u, 35997u, 35998u, 36000u, 36001u, 36002u, 36007u, 36008u, 36009u, 36010u, 36011u, 36012u, 36013u, 36014u, 36015u, 36016u, 36018u, 36019u, 36020u, 36022u, 36023u, 36024u, 36027u, 36028u, 36029u, 36031u, 36032u, 36033u, 36034u, 36035u, 36036u, 36039u, 36040u, 36042u, 36045u, 36046u, 36049u, 36051u, 36058u, 36059u, 36060u, 36062u, 36064u, 36066u, 36067u, 36068u, 36070u, 36074u, 36077u, 36080u, 36084u, 36090u, 36091u, 36092u, 36093u, 36100u, 36101u, 36103u, 36104u, 36106u, 36107u, 36109u, 36111u, 36112u, 36114u, 36115u, 36116u, 36118u, 36196u, 36198u, 36199u, 36203u, 36205u, 36208u, 36209u, 36211u, 36212u, 36214u, 36215u, 36225u, 36229u, 36234u, 36249u, 36259u, 36264u, 36275u, 36282u, 36286u, 36290u, 36299u, 36300u, 36303u, 36310u, 36314u, 36315u, 36317u, 36319u, 36321u, 36323u, 36328u, 36330u, 36331u, 36335u, 36339u, 36341u, 36348u, 36351u, 36360u, 36361u, 36362u, 36367u, 36368u, 36381u, 36382u, 36383u, 36394u, 36400u, 36404u, 36405u, 36418u, 36420u, 36423u, 36424u, 36425u, 36426u, 36428u, 36432u, 36437u, 36441u, 36447u, 36448u, 36451u, 36452u, 36466u, 36468u, 36470u, 36476u, 36481u, 36484u, 36485u, 36487u, 36490u, 36491u, 36493u, 36497u, 36499u, 36500u, 36505u, 36513u, 36522u, 36523u, 36524u, 36527u, 36528u, 36529u, 36542u, 36549u, 36550u, 36552u, 36554u, 36555u, 36556u, 36557u, 36559u, 36562u, 36571u, 36575u, 36578u, 36579u, 36587u, 36600u, 36603u, 36604u, 36605u, 36606u, 36611u, 36613u, 36617u, 36618u, 36620u, 36626u, 36627u, 36628u, 36629u, 36633u, 36635u, 36636u, 36637u, 36639u, 36646u, 36649u, 36650u, 36655u, 36659u, 36664u, 36665u, 36667u, 36670u, 36671u, 36674u, 36676u, 36677u, 36678u, 36681u, 36684u, 36685u, 36686u, 36695u, 36700u, 36703u, 36705u, 36706u, 36707u, 36708u, 36763u, 36764u, 36766u, 36767u, 36771u, 36775u, 36776u, 36781u, 36782u, 36783u, 36784u, 36785u, 36786u, 36791u, 36794u, 36795u, 36796u, 36799u, 36802u, 36804u, 36805u, 36814u, 36817u, 36820u, 36826u, 36834u, 36837u, 36838u, 36841u, 36842u, 36843u, 36845u, 36847u, 36848u, 36852u, 36855u, 36856u, 36857u, 36858u, 36861u, 36864u, 36865u, 36867u, 36869u, 36870u, 36875u, 36877u, 36878u, 36879u, 36880u, 36881u, 36883u, 36884u, 36885u, 36886u, 36887u, 36889u, 36890u, 36893u, 36894u, 36895u, 36896u, 36897u, 36898u, 36899u, 36903u, 36910u, 36913u, 36914u, 36917u, 36918u, 36920u, 36921u, 36924u, 36926u, 36929u, 36930u, 36933u, 36935u, 36937u, 36938u, 36939u, 36941u, 36942u, 36943u, 36944u, 36945u, 36946u, 36947u, 36948u, 36949u, 36950u, 36952u, 36953u, 36956u, 36958u, 36960u, 36961u, 36963u, 36965u, 36967u, 36968u, 36969u, 36973u, 36974u, 36975u, 36978u, 36981u, 36982u, 36983u, 36984u, 36986u, 36988u, 36989u, 36991u, 36992u, 36993u, 36994u, 36995u, 36996u, 36999u, 37001u, 37002u, 37007u, 37009u, 37027u, 37030u, 37032u, 37034u, 37039u, 37041u, 37045u, 37048u, 37057u, 37066u, 37070u, 37083u, 37086u, 37089u, 37090u, 37092u, 37096u, 37101u, 37109u, 37111u, 37117u, 37122u, 37138u, 37141u, 37145u, 37159u, 37165u, 37168u, 37170u, 37193u, 37194u, 37195u, 37196u, 37197u, 37198u, 37202u, 37204u, 37206u, 37208u, 37218u, 37219u, 37221u, 37225u, 37226u, 37228u, 37234u, 37235u, 37237u, 37239u, 37240u, 37250u, 37255u, 37257u, 37259u, 37261u, 37264u, 37266u, 37271u, 37276u, 37282u, 37284u, 37290u, 37291u, 37295u, 37300u, 37301u, 37304u, 37306u, 37312u, 37313u, 37318u, 37319u, 37320u, 37321u, 37323u, 37324u, 37325u, 37326u, 37327u, 37328u, 37329u, 37334u, 37335u, 37336u, 37338u, 37339u, 37340u, 37341u, 37342u, 37343u, 37345u, 37347u, 37348u, 37349u, 37350u, 37351u, 37357u, 37358u, 37365u, 37366u, 37372u, 37375u, 37382u, 37386u, 37389u, 37390u, 37392u, 37393u, 37396u, 37397u, 37406u, 37417u, 37420u, 37428u, 37431u, 37433u, 37434u, 37436u, 37439u, 37440u, 37444u, 37445u, 37448u, 37449u, 37451u, 37454u, 37456u, 37457u, 37463u, 37465u, 37466u, 37467u, 37470u, 37474u, 37476u, 37478u, 37479u, 37489u, 37495u, 37496u, 37502u, 37504u, 37507u, 37509u, 37512u, 37521u, 37523u, 37525u, 37526u, 37528u, 37530u, 37531u, 37532u, 37543u, 37549u, 37559u, 37561u, 37583u, 37584u, 37586u, 37587u, 37589u, 37591u, 37593u, 37600u, 37604u, 37607u, 37609u, 37610u, 37613u, 37618u, 37619u, 37624u, 37625u, 37626u, 37627u, 37628u, 37631u, 37634u, 37638u, 37647u, 37648u, 37656u, 37657u, 37658u, 37661u, 37662u, 37664u, 37665u, 37666u, 37667u, 37669u, 37670u, 37672u, 37675u, 37676u, 37678u, 37679u, 37682u, 37685u, 37690u, 37691u, 37700u, 37704u, 37707u, 37709u, 37716u, 37718u, 37719u, 37723u, 37724u, 37728u, 37740u, 37742u, 37744u, 37749u, 37756u, 37758u, 37772u, 37780u, 37782u, 37783u, 37786u, 37796u, 37799u, 37804u, 37805u, 37806u, 37808u, 37817u, 37827u, 37830u, 37832u, 37840u, 37841u, 37846u, 37847u, 37848u, 37853u, 37854u, 37857u, 37860u, 37861u, 37864u, 37880u, 37891u, 37895u, 37904u, 37907u, 37908u, 37912u, 37913u, 37914u, 37921u, 37931u, 37937u, 37941u, 37942u, 37944u, 37946u, 37953u, 37956u, 37957u, 37960u, 37969u, 37970u, 37971u, 37978u, 37979u, 37982u, 37984u, 37986u, 37994u, 38000u, 38005u, 38007u, 38012u, 38013u, 38014u, 38015u, 38017u, 38263u, 38272u, 38274u, 38275u, 38279u, 38281u, 38282u, 38283u, 38287u, 38289u, 38290u, 38291u, 38292u, 38294u, 38296u, 38297u, 38304u, 38306u, 38307u, 38308u, 38309u, 38311u, 38312u, 38317u, 38322u, 38329u, 38331u, 38332u, 38334u, 38339u, 38343u, 38346u, 38348u, 38349u, 38356u, 38357u, 38358u, 38360u, 38364u, 38369u, 38370u, 38373u, 38428u, 38433u, 38440u, 38442u, 38446u, 38447u, 38450u, 38459u, 38463u, 38464u, 38466u, 38468u, 38475u, 38476u, 38477u, 38479u, 38480u, 38491u, 38492u, 38493u, 38494u, 38495u, 38498u, 38499u, 38500u, 38501u, 38502u, 38506u, 38508u, 38512u, 38514u, 38515u, 38517u, 38518u, 38519u, 38520u, 38522u, 38525u, 38533u, 38534u, 38536u, 38538u, 38539u, 38541u, 38542u, 38543u, 38548u, 38549u, 38551u, 38552u, 38553u, 38555u, 38556u, 38557u, 38560u, 38563u, 38567u, 38568u, 38570u, 38575u, 38576u, 38577u, 38578u, 38580u, 38582u, 38583u, 38584u, 38585u, 38587u, 38588u, 38592u, 38593u, 38596u, 38597u, 38598u, 38599u, 38601u, 38603u, 38604u, 38605u, 38606u, 38609u, 38613u, 38614u, 38617u, 38619u, 38620u, 38626u, 38627u, 38632u, 38634u, 38635u, 38640u, 38642u, 38646u, 38647u, 38649u, 38651u, 38656u, 38660u, 38662u, 38663u, 38664u, 38666u, 38669u, 38670u, 38671u, 38673u, 38675u, 38678u, 38681u, 38684u, 38686u, 38692u, 38695u, 38698u, 38704u, 38706u, 38707u, 38712u, 38713u, 38715u, 38717u, 38718u, 38722u, 38723u, 38724u, 38726u, 38728u, 38729u, 38733u, 38735u, 38737u, 38738u, 38741u, 38742u, 38745u, 38748u, 38750u, 38752u, 38753u, 38754u, 38756u, 38758u, 38760u, 38761u, 38763u, 38765u, 38769u, 38772u, 38777u, 38778u, 38780u, 38785u, 38788u, 38789u, 38790u, 38795u, 38797u, 38799u, 38800u, 38808u, 38812u, 38816u, 38819u, 38822u, 38824u, 38827u, 38829u, 38835u, 38836u, 38851u, 38854u, 38856u, 38859u, 38867u, 38876u, 38893u, 38894u, 38898u, 38899u, 38901u, 38902u, 38907u, 38911u, 38913u, 38914u, 38915u, 38917u, 38918u, 38920u, 38924u, 38927u, 38928u, 38929u, 38930u, 38931u, 38935u, 38936u, 38938u, 38945u, 38948u, 38956u, 38957u, 38964u, 38967u, 38968u, 38971u, 38972u, 38973u, 38982u, 38987u, 38988u, 38989u, 38990u, 38991u, 38996u, 38997u, 38999u, 39000u, 39003u, 39006u, 39013u, 39015u, 39019u, 39023u, 39024u, 39025u, 39027u, 39028u, 39080u, 39082u, 39087u, 39089u, 39094u, 39107u, 39108u, 39110u, 39131u, 39132u, 39135u, 39138u, 39145u, 39147u, 39149u, 39150u, 39151u, 39154u, 39156u, 39164u, 39165u, 39166u, 39171u, 39173u, 39177u, 39178u, 39180u, 39184u, 39186u, 39187u, 39188u, 39192u, 39197u, 39198u, 39200u, 39201u, 39204u, 39207u, 39208u, 39212u, 39214u, 39229u, 39230u, 39234u, 39237u, 39241u, 39243u, 39244u, 39248u, 39249u, 39250u, 39253u, 39255u, 39318u, 39319u, 39320u, 39321u, 39326u, 39333u, 39336u, 39340u, 39341u, 39342u, 39347u, 39348u, 39356u, 39361u, 39364u, 39365u, 39366u, 39368u, 39376u, 39377u, 39378u, 39381u, 39384u, 39387u, 39389u, 39391u, 39394u, 39405u, 39406u, 39409u, 39410u, 39416u, 39419u, 39423u, 39425u, 39429u, 39438u, 39439u, 39442u, 39443u, 39449u, 39464u, 39467u, 39472u, 39479u, 39486u, 39488u, 39490u, 39491u, 39493u, 39501u, 39502u, 39509u, 39511u, 39514u, 39515u, 39519u, 39522u, 39524u, 39525u, 39529u, 39530u, 39531u, 39592u, 39597u, 39600u, 39608u, 39612u, 39616u, 39620u, 39631u, 39633u, 39635u, 39636u, 39640u, 39641u, 39644u, 39646u, 39647u, 39650u, 39651u, 39654u, 39658u, 39659u, 39661u, 39662u, 39663u, 39665u, 39668u, 39671u, 39675u, 39686u, 39704u, 39706u, 39711u, 39714u, 39715u, 39717u, 39719u, 39720u, 39721u, 39722u, 39726u, 39727u, 39729u, 39730u, 39739u, 39740u, 39745u, 39746u, 39747u, 39748u, 39749u, 39757u, 39758u, 39759u, 39761u, 39764u, 39768u, 39770u, 39791u, 39794u, 39796u, 39797u, 39811u, 39822u, 39823u, 39825u, 39826u, 39827u, 39830u, 39831u, 39839u, 39840u, 39848u, 39850u, 39851u, 39853u, 39854u, 39857u, 39860u, 39865u, 39867u, 39872u, 39878u, 39881u, 39882u, 39887u, 39889u, 39890u, 39892u, 39894u, 39899u, 39905u, 39906u, 39907u, 39908u, 39912u, 39920u, 39921u, 39922u, 39925u, 39936u, 39940u, 39942u, 39944u, 39945u, 39946u, 39948u, 39949u, 39952u, 39954u, 39955u, 39956u, 39957u, 39963u, 39969u, 39972u, 39973u, 39981u, 39982u, 39983u, 39984u, 39986u, 39993u, 39994u, 39995u, 39998u, 40006u, 40007u, 40008u, 40018u, 40023u, 40026u, 40032u, 40039u, 40054u, 40056u, 40165u, 40167u, 40169u, 40171u, 40172u, 40176u, 40179u, 40180u, 40182u, 40195u, 40198u, 40199u, 40200u, 40201u, 40206u, 40210u, 40213u, 40219u, 40223u, 40227u, 40230u, 40232u, 40234u, 40235u, 40236u, 40251u, 40254u, 40255u, 40257u, 40260u, 40262u, 40264u, 40272u, 40273u, 40281u, 40284u, 40285u, 40286u, 40288u, 40289u, 40292u, 40299u, 40300u, 40303u, 40304u, 40306u, 40314u, 40327u, 40329u, 40335u, 40346u, 40356u, 40361u, 40363u, 40367u, 40370u, 40372u, 40376u, 40378u, 40379u, 40385u, 40386u, 40388u, 40390u, 40399u, 40403u, 40409u, 40422u, 40429u, 40431u, 40434u, 40440u, 40441u, 40442u, 40445u, 40473u, 40474u, 40475u, 40478u, 40565u, 40568u, 40569u, 40573u, 40575u, 40577u, 40584u, 40587u, 40588u, 40593u, 40594u, 40595u, 40597u, 40599u, 40605u, 40607u, 40613u, 40614u, 40617u, 40618u, 40621u, 40632u, 40633u, 40634u, 40635u, 40636u, 40638u, 40639u, 40644u, 40652u, 40653u, 40654u, 40655u, 40656u, 40657u, 40658u, 40660u, 40664u, 40665u, 40667u, 40668u, 40669u, 40670u, 40672u, 40677u, 40680u, 40687u, 40692u, 40694u, 40695u, 40697u, 40699u, 40700u, 40701u, 40711u, 40712u, 40718u, 40723u, 40725u, 40736u, 40737u, 40748u, 40763u, 40766u, 40778u, 40779u, 40782u, 40783u, 40786u, 40788u, 40799u, 40800u, 40801u, 40802u, 40803u, 40806u, 40807u, 40810u, 40812u, 40818u, 40822u, 40823u, 40845u, 40853u, 40860u, 40861u, 40864u, 63785u, 63964u, 64014u, 64015u, 64016u, 64017u, 64018u, 64019u, 64020u, 64021u, 64022u, 64023u, 64024u, 64025u, 64026u, 64027u, 64028u, 64029u, 64030u, 64031u, 64032u, 64033u, 64034u, 64035u, 64036u, 64037u, 64038u, 64039u, 64040u, 64041u, 64042u, 64043u, 64044u, 64045u, 65281u, 65282u, 65283u, 65284u, 65285u, 65286u, 65287u, 65288u, 65289u, 65290u, 65291u, 65292u, 65293u, 65294u, 65295u, 65296u, 65297u, 65298u, 65299u, 65300u, 65301u, 65302u, 65303u, 65304u, 65305u, 65306u, 65307u, 65308u, 65309u, 65310u, 65311u, 65312u, 65313u, 65314u, 65315u, 65316u, 65317u, 65318u, 65319u, 65320u, 65321u, 65322u, 65323u, 65324u, 65325u, 65326u, 65327u, 65328u, 65329u, 65330u, 65331u, 65332u, 65333u, 65334u, 65335u, 65336u, 65337u, 65338u, 65339u, 65340u, 65341u, 65342u, 65343u, 65344u, 65345u, 65346u, 65347u, 65348u, 65349u, 65350u, 65351u, 65352u, 65353u, 65354u, 65355u, 65356u, 65357u, 65358u, 65359u, 65360u, 65361u, 65362u, 65363u, 65364u, 65365u, 65366u, 65367u, 65368u, 65369u, 65370u, 65371u, 65372u, 65373u, 65374u, 65504u, 65505u, 65506u, 65507u, 65508u, 65509u, };
-std::vector<uint16_t> const wordring::whatwg::encoding::index_pointer_Shift_JIS_1 { 87u, 14u, 74u, 61u, 12u, 182u, 62u, 63u, 470u, 471u, 472u, 473u, 474u, 475u, 476u, 477u, 478u, 479u, 480u, 481u, 482u, 483u, 484u, 485u, 486u, 487u, 488u, 489u, 490u, 491u, 492u, 493u, 502u, 503u, 504u, 505u, 506u, 507u, 508u, 509u, 510u, 511u, 512u, 513u, 514u, 515u, 516u, 517u, 518u, 519u, 520u, 521u, 522u, 523u, 524u, 525u, 570u, 564u, 565u, 566u, 567u, 568u, 569u, 571u, 572u, 573u, 574u, 575u, 576u, 577u, 578u, 579u, 580u, 581u, 582u, 583u, 584u, 585u, 586u, 587u, 588u, 589u, 590u, 591u, 592u, 593u, 594u, 595u, 596u, 612u, 613u, 614u, 615u, 616u, 617u, 619u, 620u, 621u, 622u, 623u, 624u, 625u, 626u, 627u, 628u, 629u, 630u, 631u, 632u, 633u, 634u, 635u, 636u, 637u, 638u, 639u, 640u, 641u, 642u, 643u, 644u, 618u, 29u, 28u, 37u, 38u, 39u, 40u, 180u, 181u, 36u, 35u, 176u, 75u, 76u, 101u, 77u, 1193u, 1195u, 175u, 1148u, 1149u, 1150u, 1151u, 1152u, 1153u, 1154u, 1155u, 1156u, 1157u, 8634u, 8635u, 8636u, 8637u, 8638u, 8639u, 8640u, 8641u, 8642u, 8643u, 104u, 105u, 103u, 106u, 138u, 139u, 140u, 156u, 141u, 157u, 119u, 120u, 1211u, 162u, 164u, 70u, 1215u, 153u, 33u, 135u, 136u, 126u, 125u, 166u, 167u, 1210u, 71u, 165u, 163u, 159u, 65u, 158u, 68u, 69u, 160u, 161u, 123u, 124u, 121u, 122u, 154u, 1216u, 155u, 1128u, 1129u, 1130u, 1131u, 1132u, 1133u, 1134u, 1135u, 1136u, 1137u, 1138u, 1139u, 1140u, 1141u, 1142u, 1143u, 1144u, 1145u, 1146u, 1147u, 658u, 669u, 659u, 670u, 660u, 671u, 661u, 672u, 663u, 674u, 662u, 673u, 664u, 685u, 680u, 675u, 666u, 687u, 682u, 677u, 665u, 681u, 686u, 676u, 667u, 683u, 688u, 678u, 668u, 684u, 689u, 679u, 96u, 95u, 98u, 97u, 100u, 99u, 94u, 93u, 90u, 92u, 91u, 187u, 89u, 88u, 73u, 72u, 179u, 178u, 177u, 0u, 1u, 2u, 22u, 24u, 25u, 26u, 49u, 50u, 51u, 52u, 53u, 54u, 55u, 56u, 57u, 58u, 102u, 107u, 43u, 44u, 1191u, 1192u, 282u, 283u, 284u, 285u, 286u, 287u, 288u, 289u, 290u, 291u, 292u, 293u, 294u, 295u, 296u, 297u, 298u, 299u, 300u, 301u, 302u, 303u, 304u, 305u, 306u, 307u, 308u, 309u, 310u, 311u, 312u, 313u, 314u, 315u, 316u, 317u, 318u, 319u, 320u, 321u, 322u, 323u, 324u, 325u, 326u, 327u, 328u, 329u, 330u, 331u, 332u, 333u, 334u, 335u, 336u, 337u, 338u, 339u, 340u, 341u, 342u, 343u, 344u, 345u, 346u, 347u, 348u, 349u, 350u, 351u, 352u, 353u, 354u, 355u, 356u, 357u, 358u, 359u, 360u, 361u, 362u, 363u, 364u, 10u, 11u, 20u, 21u, 376u, 377u, 378u, 379u, 380u, 381u, 382u, 383u, 384u, 385u, 386u, 387u, 388u, 389u, 390u, 391u, 392u, 393u, 394u, 395u, 396u, 397u, 398u, 399u, 400u, 401u, 402u, 403u, 404u, 405u, 406u, 407u, 408u, 409u, 410u, 411u, 412u, 413u, 414u, 415u, 416u, 417u, 418u, 419u, 420u, 421u, 422u, 423u, 424u, 425u, 426u, 427u, 428u, 429u, 430u, 431u, 432u, 433u, 434u, 435u, 436u, 437u, 438u, 439u, 440u, 441u, 442u, 443u, 444u, 445u, 446u, 447u, 448u, 449u, 450u, 451u, 452u, 453u, 454u, 455u, 456u, 457u, 458u, 459u, 460u, 461u, 5u, 27u, 18u, 19u, 1201u, 1202u, 1203u, 1196u, 1197u, 1198u, 1199u, 1200u, 1165u, 1169u, 1160u, 1163u, 1161u, 1171u, 1170u, 1164u, 1172u, 1166u, 1174u, 1159u, 1173u, 1162u, 1167u, 1168u, 1190u, 1206u, 1205u, 1204u, 1178u, 1179u, 1175u, 1176u, 1177u, 1181u, 1180u, 1194u, 1485u, 3285u, 2560u, 4039u, 2795u, 2459u, 2794u, 1625u, 3811u, 4166u, 4419u, 1518u, 1769u, 4420u, 2917u, 4639u, 1933u, 3879u, 2796u, 4259u, 3887u, 8284u, 4421u, 3265u, 4422u, 2063u, 4423u, 1846u, 3211u, 2608u, 4424u, 4425u, 4426u, 3592u, 1934u, 3594u, 3544u, 2196u, 3966u, 6808u, 4427u, 2797u, 4428u, 1618u, 2042u, 2241u, 4114u, 4987u, 4215u, 3570u, 1790u, 1900u, 4429u, 4430u, 4256u, 4164u, 3079u, 4432u, 2529u, 3560u, 4435u, 1533u, 2224u, 2223u, 1479u, 4366u, 4365u, 2368u, 1410u, 4436u, 4437u, 4438u, 3967u, 4439u, 2243u, 1480u, 4029u, 1971u, 1972u, 1973u, 3355u, 4257u, 4440u, 4441u, 4442u, 2864u, 2657u, 2865u, 4447u, 4445u, 4446u, 1935u, 2352u, 1677u, 4444u, 4443u, 3862u, 2481u, 2480u, 3131u, 4448u, 3812u, 2984u, 23u, 4449u, 4451u, 8285u, 3170u, 4294u, 1451u, 4450u, 1627u, 2009u, 3266u, 2146u, 4452u, 3575u, 8286u, 8287u, 1860u, 8288u, 4453u, 1452u, 2225u, 1861u, 3849u, 3683u, 1936u, 1678u, 4488u, 3416u, 3647u, 4455u, 3693u, 4295u, 2832u, 8289u, 2482u, 2530u, 1629u, 3338u, 3197u, 4459u, 1453u, 3356u, 2658u, 2369u, 4139u, 3147u, 1628u, 8290u, 4458u, 4165u, 4454u, 4456u, 2427u, 4457u, 4891u, 4465u, 4468u, 4466u, 1631u, 3880u, 4460u, 4464u, 2244u, 2483u, 1791u, 4469u, 4461u, 8292u, 4296u, 2531u, 4462u, 4467u, 8291u, 8294u, 4470u, 4463u, 8293u, 1974u, 1454u, 1975u, 1630u, 4892u, 4036u, 3837u, 2245u, 2834u, 4252u, 3909u, 2091u, 3106u, 1665u, 8277u, 2682u, 8295u, 4474u, 4479u, 4477u, 4472u, 3116u, 4475u, 4478u, 4476u, 3914u, 4473u, 2833u, 4030u, 4480u, 4481u, 2635u, 4494u, 3619u, 3781u, 4489u, 3933u, 1619u, 4493u, 8298u, 4487u, 4496u, 3057u, 2197u, 3631u, 5960u, 4495u, 3444u, 4484u, 2247u, 2246u, 4482u, 8299u, 2595u, 4490u, 8297u, 3932u, 3240u, 4486u, 2148u, 4483u, 4491u, 4485u, 4278u, 4492u, 4356u, 2043u, 2147u, 8296u, 8302u, 4497u, 8300u, 4498u, 4502u, 1455u, 3901u, 4501u, 4500u, 4504u, 4503u, 3357u, 2149u, 4505u, 8301u, 2574u, 3107u, 3358u, 2059u, 4506u, 1901u, 4507u, 4509u, 3968u, 2137u, 8303u, 2460u, 3752u, 4508u, 2386u, 4170u, 4511u, 4514u, 4510u, 2385u, 2724u, 2092u, 4515u, 2020u, 4512u, 4513u, 3492u, 3099u, 1976u, 3992u, 4516u, 8305u, 4258u, 4517u, 4520u, 4518u, 3053u, 4519u, 4521u, 8304u, 4523u, 4522u, 3893u, 1902u, 4525u, 4526u, 1612u, 4524u, 2621u, 4529u, 4528u, 4527u, 4471u, 4530u, 2725u, 4531u, 4140u, 4098u, 4533u, 4532u, 4535u, 4534u, 4536u, 4537u, 1493u, 2182u, 2094u, 2659u, 3286u, 1977u, 2985u, 2248u, 8306u, 2333u, 4539u, 4081u, 3421u, 2532u, 4538u, 4540u, 3445u, 1776u, 4541u, 8307u, 3571u, 3027u, 4543u, 4544u, 3677u, 2249u, 4350u, 4545u, 1979u, 3881u, 3123u, 2054u, 3404u, 2150u, 4546u, 4547u, 3543u, 1566u, 4550u, 2442u, 4549u, 2387u, 4551u, 6563u, 4552u, 3980u, 4553u, 4554u, 4555u, 2798u, 2581u, 8308u, 1792u, 4558u, 4556u, 4070u, 4557u, 3817u, 4559u, 4560u, 4561u, 3446u, 4565u, 4563u, 4564u, 4562u, 2416u, 4566u, 4115u, 4297u, 4567u, 8309u, 2921u, 4568u, 2689u, 4569u, 3287u, 4260u, 3447u, 4642u, 4570u, 7806u, 2010u, 4571u, 4009u, 2703u, 3193u, 4573u, 3545u, 8310u, 4574u, 4575u, 1705u, 4576u, 1980u, 3521u, 1593u, 2679u, 3666u, 4577u, 3448u, 2866u, 4578u, 3865u, 2971u, 1787u, 1794u, 4579u, 4581u, 2093u, 4580u, 8311u, 4312u, 2704u, 3694u, 3897u, 4582u, 4223u, 4583u, 4584u, 3477u, 4585u, 2922u, 2443u, 2151u, 4586u, 2484u, 2334u, 3359u, 4588u, 3108u, 2428u, 4589u, 4590u, 3023u, 4587u, 4592u, 3969u, 2323u, 4591u, 2152u, 2411u, 3648u, 4595u, 4593u, 3850u, 2799u, 4602u, 1759u, 4596u, 4594u, 3054u, 4598u, 4597u, 1727u, 2131u, 4603u, 4242u, 4599u, 4604u, 4601u, 4600u, 4276u, 8312u, 2250u, 1632u, 4313u, 8313u, 2716u, 3439u, 2324u, 4607u, 4608u, 8487u, 4298u, 4334u, 4610u, 2251u, 4609u, 1706u, 8314u, 4611u, 4001u, 3317u, 4141u, 3910u, 4612u, 7478u, 3493u, 4613u, 1795u, 4060u, 8315u, 2726u, 4614u, 3924u, 4618u, 2923u, 4615u, 2021u, 4616u, 1796u, 2081u, 4619u, 4620u, 4621u, 4622u, 2596u, 2252u, 4103u, 8316u, 4113u, 3564u, 3934u, 4623u, 8317u, 4624u, 4626u, 4628u, 4627u, 4629u, 1626u, 3991u, 2441u, 4630u, 3064u, 2727u, 1982u, 4631u, 8318u, 3724u, 4632u, 4633u, 4634u, 4635u, 3763u, 2045u, 1478u, 3508u, 4636u, 2660u, 2986u, 4638u, 4637u, 2728u, 2226u, 4640u, 3695u, 4641u, 3725u, 3121u, 3179u, 1981u, 3555u, 3212u, 3649u, 3993u, 4643u, 2987u, 2088u, 4644u, 4645u, 1515u, 1494u, 1862u, 8319u, 3109u, 1928u, 4216u, 4648u, 1620u, 4647u, 1983u, 4649u, 4122u, 8320u, 4650u, 4279u, 2253u, 2183u, 4651u, 4653u, 4652u, 2882u, 1528u, 1565u, 4654u, 4655u, 8321u, 2184u, 4656u, 1957u, 2461u, 4657u, 4031u, 2370u, 1937u, 4142u, 3055u, 3696u, 2630u, 2670u, 2609u, 2622u, 2717u, 3697u, 8322u, 4660u, 1538u, 3056u, 2254u, 2198u, 2044u, 4664u, 3196u, 3195u, 1984u, 2729u, 4665u, 4663u, 1633u, 3171u, 2561u, 2486u, 1509u, 1771u, 2325u, 2485u, 4666u, 4667u, 1920u, 1729u, 2326u, 1919u, 3352u, 1508u, 3494u, 4071u, 2256u, 4224u, 3422u, 2255u, 2082u, 4676u, 2040u, 3989u, 3726u, 4675u, 1847u, 4670u, 4671u, 4673u, 4674u, 1938u, 2884u, 3866u, 4672u, 4668u, 2228u, 4669u, 4327u, 3935u, 3361u, 2227u, 2335u, 4677u, 3538u, 4681u, 2631u, 2623u, 4684u, 4682u, 4044u, 4679u, 4688u, 4683u, 4686u, 2199u, 4072u, 4687u, 4689u, 4691u, 8325u, 2429u, 4357u, 4680u, 4678u, 4690u, 4685u, 8324u, 4693u, 4702u, 4695u, 4699u, 8326u, 4700u, 4696u, 4729u, 2422u, 1708u, 4694u, 4704u, 1495u, 4703u, 1414u, 3801u, 4701u, 4697u, 4692u, 4698u, 2389u, 4705u, 1496u, 4714u, 4706u, 4707u, 2730u, 4020u, 4712u, 4711u, 3398u, 4713u, 4710u, 8327u, 1523u, 2371u, 2835u, 4708u, 3449u, 4709u, 1411u, 4719u, 4138u, 2732u, 4725u, 4724u, 4715u, 3136u, 4716u, 3180u, 4721u, 2731u, 4718u, 4109u, 2095u, 4722u, 4723u, 4720u, 4726u, 4717u, 4732u, 4737u, 4733u, 4728u, 4738u, 3024u, 8328u, 4740u, 2257u, 4730u, 3288u, 4734u, 4727u, 1798u, 1863u, 1760u, 4735u, 4731u, 2153u, 4741u, 4739u, 3058u, 1921u, 1985u, 4736u, 2057u, 1539u, 4745u, 4743u, 4800u, 4748u, 4742u, 4746u, 4744u, 2487u, 4747u, 4750u, 4755u, 4753u, 4752u, 3213u, 1634u, 4749u, 4751u, 2733u, 1522u, 4754u, 1659u, 4765u, 2817u, 4761u, 4759u, 4760u, 4762u, 1532u, 3032u, 4756u, 4757u, 1781u, 4764u, 1864u, 4767u, 4763u, 4766u, 3867u, 3530u, 3689u, 4769u, 4768u, 1728u, 4770u, 4773u, 4772u, 4771u, 3596u, 4774u, 4775u, 4777u, 4776u, 4779u, 4782u, 4780u, 4778u, 4781u, 4783u, 4784u, 4785u, 4786u, 4787u, 4548u, 2629u, 2488u, 1680u, 1497u, 3231u, 4788u, 2353u, 1456u, 2881u, 4789u, 2200u, 2336u, 4791u, 4790u, 3917u, 4792u, 4794u, 4793u, 4795u, 4796u, 2154u, 1567u, 4797u, 4799u, 4798u, 4801u, 3441u, 4802u, 1430u, 2412u, 2096u, 3242u, 4803u, 4804u, 4806u, 4807u, 2417u, 2022u, 3970u, 4805u, 4808u, 2382u, 2258u, 8329u, 4812u, 2354u, 8330u, 3214u, 4809u, 3347u, 4813u, 2885u, 4811u, 4814u, 2098u, 4815u, 4816u, 2259u, 1723u, 4818u, 4819u, 8331u, 4820u, 4817u, 4810u, 4821u, 4822u, 8333u, 8332u, 4015u, 2800u, 4824u, 4825u, 4823u, 4827u, 3595u, 1481u, 3813u, 4828u, 2818u, 2562u, 3632u, 1865u, 2424u, 4004u, 3495u, 2155u, 3148u, 4826u, 4829u, 3137u, 4830u, 4831u, 4833u, 3362u, 1799u, 7802u, 1568u, 3936u, 2801u, 3423u, 2419u, 4839u, 3882u, 4290u, 1681u, 4835u, 3033u, 4838u, 3450u, 3424u, 3451u, 3690u, 3334u, 2390u, 4834u, 1589u, 3405u, 4836u, 4832u, 2867u, 4840u, 2677u, 1986u, 4841u, 3925u, 3100u, 3327u, 8336u, 4843u, 3994u, 4844u, 4849u, 8337u, 3868u, 4848u, 4842u, 4845u, 4847u, 2355u, 3894u, 4850u, 3232u, 1682u, 2802u, 4852u, 4851u, 2327u, 4853u, 4855u, 4854u, 4857u, 4846u, 4859u, 4858u, 4856u, 2489u, 2868u, 3059u, 4860u, 2941u, 1486u, 3639u, 3348u, 4862u, 4861u, 4863u, 4864u, 4865u, 4866u, 3902u, 4867u, 8338u, 1635u, 4868u, 4163u, 1707u, 4646u, 2671u, 3132u, 4869u, 4116u, 4061u, 4871u, 3172u, 3406u, 3133u, 3814u, 4872u, 4873u, 1594u, 2563u, 4874u, 1457u, 4875u, 4876u, 1569u, 1866u, 3541u, 3937u, 4880u, 3060u, 4879u, 2099u, 8339u, 4006u, 4878u, 3452u, 4882u, 4881u, 8340u, 8341u, 4884u, 4883u, 8342u, 1595u, 4885u, 2734u, 4887u, 3200u, 4886u, 3872u, 2718u, 3442u, 4888u, 2260u, 4889u, 3572u, 3727u, 4090u, 3576u, 4898u, 1903u, 4172u, 4056u, 4993u, 4890u, 4893u, 8343u, 3138u, 3971u, 3425u, 4894u, 4016u, 8344u, 2391u, 2735u, 4895u, 2491u, 2490u, 1434u, 2201u, 2924u, 1458u, 4899u, 4900u, 4897u, 1527u, 1800u, 4896u, 4078u, 3776u, 1417u, 1498u, 2492u, 1459u, 1412u, 4905u, 4903u, 4069u, 4906u, 4904u, 4902u, 2836u, 4901u, 3911u, 2229u, 4910u, 4911u, 2736u, 4907u, 4335u, 3615u, 4909u, 2356u, 4912u, 3815u, 4913u, 4908u, 4068u, 3633u, 4914u, 3777u, 4915u, 4919u, 4916u, 1636u, 4918u, 2564u, 4917u, 2156u, 4931u, 4924u, 4921u, 3263u, 4920u, 4922u, 4923u, 4925u, 4926u, 1867u, 4928u, 4927u, 4929u, 2803u, 4932u, 3349u, 1540u, 4930u, 4933u, 4934u, 4937u, 4935u, 4936u, 2493u, 4938u, 2261u, 4939u, 8345u, 2533u, 3125u, 4940u, 4941u, 2501u, 2262u, 4091u, 1887u, 2202u, 4942u, 1747u, 4943u, 3126u, 4944u, 4984u, 4945u, 4946u, 4947u, 4949u, 4950u, 4951u, 3181u, 1510u, 2610u, 1443u, 3062u, 1801u, 2558u, 2263u, 3453u, 2632u, 1802u, 3267u, 3363u, 1433u, 1904u, 3938u, 2571u, 1929u, 2988u, 2565u, 4143u, 4952u, 1939u, 2392u, 1709u, 1570u, 2737u, 1637u, 4953u, 4173u, 2672u, 8346u, 2605u, 4954u, 1868u, 3527u, 4050u, 4955u, 4956u, 3816u, 4958u, 1793u, 2060u, 4957u, 8348u, 1803u, 2837u, 4962u, 2444u, 1638u, 4961u, 4959u, 4963u, 4960u, 3582u, 5590u, 2838u, 4964u, 8349u, 4261u, 4965u, 4967u, 3289u, 4966u, 2916u, 2534u, 3149u, 2624u, 3844u, 2989u, 2582u, 4968u, 2738u, 4969u, 4970u, 1460u, 3127u, 2869u, 4971u, 3496u, 2739u, 2740u, 4972u, 2990u, 2741u, 8350u, 4973u, 4974u, 4105u, 4975u, 2011u, 2633u, 4976u, 4977u, 2597u, 2831u, 3561u, 2871u, 3753u, 3573u, 2014u, 4978u, 1958u, 4979u, 2067u, 3524u, 1613u, 2494u, 4980u, 4983u, 4982u, 2066u, 4981u, 3407u, 3117u, 3426u, 2577u, 3063u, 4225u, 4985u, 4986u, 3531u, 2462u, 4988u, 4989u, 4990u, 1869u, 4991u, 4992u, 1609u, 8351u, 3034u, 1853u, 4994u, 4049u, 3151u, 1748u, 4996u, 4998u, 1848u, 8352u, 4995u, 4997u, 5000u, 4999u, 5001u, 5002u, 3506u, 1987u, 1666u, 5003u, 5008u, 5006u, 3940u, 3939u, 8353u, 3454u, 5005u, 2683u, 5004u, 2901u, 5009u, 2423u, 5015u, 5016u, 5010u, 1710u, 5011u, 5020u, 5019u, 5018u, 5014u, 5013u, 5017u, 8354u, 3941u, 8357u, 5024u, 5021u, 5023u, 4217u, 5022u, 8355u, 5012u, 2902u, 5025u, 8358u, 2372u, 5026u, 5027u, 5030u, 5029u, 5028u, 3455u, 5007u, 5036u, 5032u, 5031u, 5033u, 5034u, 5037u, 8359u, 8360u, 4299u, 5038u, 5035u, 5039u, 1849u, 5040u, 8361u, 5042u, 5041u, 5043u, 5044u, 2991u, 2634u, 2699u, 3074u, 2264u, 2373u, 2265u, 1959u, 5045u, 2374u, 2203u, 5046u, 4047u, 3606u, 5047u, 2266u, 1797u, 3202u, 2023u, 2495u, 3818u, 3698u, 5048u, 1870u, 5051u, 3290u, 5050u, 5049u, 5052u, 3364u, 2886u, 2496u, 2955u, 3152u, 1881u, 3291u, 5053u, 5054u, 2804u, 3972u, 5057u, 5056u, 5055u, 3852u, 5064u, 4005u, 5058u, 5060u, 4022u, 5059u, 5061u, 3673u, 5062u, 3883u, 5063u, 1804u, 3884u, 3586u, 5065u, 5066u, 2267u, 1805u, 5067u, 2185u, 4171u, 4144u, 1871u, 5069u, 3292u, 2268u, 2742u, 3728u, 2743u, 2719u, 3365u, 3942u, 3408u, 2269u, 3819u, 5070u, 3440u, 2383u, 2204u, 3366u, 1444u, 2709u, 2270u, 4174u, 5071u, 5072u, 3620u, 5073u, 4316u, 4336u, 5075u, 5074u, 1730u, 5076u, 5079u, 5080u, 5078u, 3791u, 2744u, 5082u, 5081u, 5077u, 5083u, 5084u, 5085u, 5088u, 5086u, 5087u, 5089u, 1571u, 3367u, 5090u, 2157u, 1683u, 3593u, 5091u, 3568u, 3912u, 5092u, 4337u, 5093u, 3885u, 5096u, 4418u, 4434u, 2553u, 3562u, 5097u, 1940u, 3293u, 1499u, 5098u, 3859u, 2271u, 3243u, 3368u, 8362u, 4120u, 2186u, 2205u, 5099u, 5100u, 5106u, 2606u, 8363u, 3294u, 1988u, 5101u, 3770u, 3233u, 5102u, 8283u, 5103u, 1989u, 5104u, 5105u, 5107u, 3469u, 5108u, 5109u, 5110u, 5095u, 5094u, 5111u, 2100u, 3766u, 8364u, 2393u, 3782u, 3295u, 3802u, 5112u, 2745u, 1541u, 5113u, 5114u, 4123u, 3729u, 5117u, 1596u, 2925u, 5116u, 5115u, 2101u, 3153u, 5121u, 5119u, 5118u, 4236u, 2230u, 2720u, 5120u, 3427u, 2661u, 3509u, 5124u, 5123u, 5122u, 5125u, 2231u, 5126u, 3851u, 2690u, 5127u, 3754u, 3510u, 3296u, 8365u, 3399u, 5128u, 1890u, 2839u, 3771u, 1872u, 3577u, 5129u, 2497u, 3973u, 3974u, 1597u, 5134u, 8366u, 3268u, 5131u, 1684u, 5182u, 5133u, 3587u, 5132u, 5130u, 2345u, 5136u, 5142u, 5148u, 5140u, 3443u, 5145u, 3820u, 5139u, 5144u, 4300u, 2498u, 3154u, 5137u, 1941u, 5147u, 2926u, 1572u, 5141u, 1685u, 5146u, 1990u, 5143u, 5149u, 5151u, 5161u, 5159u, 5156u, 5155u, 4317u, 5157u, 1991u, 2272u, 2721u, 5164u, 5150u, 8367u, 5154u, 5138u, 1687u, 5158u, 5160u, 3244u, 2357u, 1621u, 5152u, 5163u, 5162u, 1992u, 3110u, 1761u, 2102u, 5153u, 5165u, 5168u, 5170u, 8368u, 2566u, 8369u, 5176u, 3369u, 5166u, 5174u, 1686u, 5172u, 5173u, 5169u, 5171u, 2232u, 4145u, 1806u, 1560u, 5175u, 3597u, 1422u, 3730u, 5135u, 5181u, 5185u, 4110u, 5178u, 3456u, 5183u, 2805u, 5184u, 3532u, 4362u, 5180u, 8371u, 5186u, 2346u, 2956u, 8370u, 1461u, 5179u, 5177u, 3065u, 5167u, 2463u, 3139u, 5198u, 8373u, 3066u, 5193u, 5190u, 5191u, 2607u, 5194u, 5197u, 5192u, 2636u, 5195u, 5189u, 4133u, 4132u, 5199u, 5200u, 1462u, 8374u, 5188u, 2055u, 1415u, 1807u, 8372u, 5196u, 5204u, 5203u, 5208u, 8376u, 5209u, 8375u, 5207u, 5210u, 5202u, 5206u, 5211u, 5212u, 5201u, 2535u, 5205u, 3155u, 2273u, 5187u, 2840u, 5225u, 3926u, 5215u, 5216u, 5217u, 5224u, 5223u, 4040u, 1808u, 5221u, 2104u, 1711u, 5218u, 4253u, 5220u, 1463u, 5222u, 5213u, 5219u, 5226u, 2103u, 5214u, 4196u, 4146u, 5229u, 5233u, 3101u, 4318u, 5234u, 5231u, 5228u, 8377u, 5227u, 5232u, 3869u, 3497u, 2105u, 5235u, 5230u, 5236u, 2158u, 1614u, 5244u, 1809u, 5242u, 5243u, 2358u, 5241u, 5239u, 5238u, 5245u, 5237u, 5247u, 1688u, 5249u, 5248u, 3297u, 5252u, 5250u, 5240u, 2159u, 5251u, 5255u, 5254u, 5256u, 5253u, 5257u, 5258u, 5259u, 3927u, 5261u, 5260u, 2662u, 2927u, 1667u, 1689u, 8378u, 5262u, 1440u, 2957u, 5263u, 7084u, 5264u, 2132u, 5265u, 2992u, 5266u, 5267u, 1905u, 5268u, 5269u, 5270u, 3156u, 2206u, 4106u, 3975u, 2705u, 5271u, 2993u, 7266u, 3731u, 2611u, 2394u, 5272u, 3140u, 3860u, 3182u, 5275u, 5273u, 5276u, 5274u, 5277u, 3870u, 1432u, 3821u, 3732u, 5278u, 5281u, 2746u, 1906u, 5279u, 5286u, 2747u, 5280u, 3607u, 4197u, 5282u, 5283u, 5287u, 3457u, 5284u, 2274u, 2975u, 5301u, 3685u, 3183u, 8379u, 3733u, 5370u, 3943u, 3370u, 4032u, 5290u, 1598u, 3269u, 5299u, 3215u, 5293u, 5300u, 5295u, 5302u, 5298u, 5297u, 3650u, 5291u, 1690u, 5289u, 1960u, 3184u, 5285u, 5288u, 2275u, 2972u, 2748u, 5296u, 3621u, 1961u, 1731u, 1762u, 2820u, 5304u, 5309u, 5305u, 2160u, 5310u, 2445u, 2328u, 2637u, 5292u, 2536u, 5307u, 2499u, 5308u, 1445u, 5303u, 3298u, 1962u, 1993u, 5306u, 1416u, 2384u, 2841u, 3371u, 3717u, 5312u, 3069u, 3111u, 2454u, 5313u, 5315u, 5311u, 3918u, 3318u, 3067u, 3944u, 2583u, 5327u, 5326u, 2907u, 2161u, 5320u, 2750u, 3549u, 3588u, 5318u, 3068u, 2625u, 5323u, 2749u, 5317u, 5322u, 3622u, 5316u, 2068u, 1752u, 5324u, 4240u, 2395u, 3216u, 5321u, 2973u, 2276u, 2887u, 1573u, 3035u, 5319u, 1916u, 2106u, 3336u, 5325u, 3070u, 5328u, 5330u, 3124u, 5336u, 5331u, 5333u, 3792u, 3372u, 5334u, 4147u, 4175u, 1810u, 1423u, 5332u, 5329u, 1873u, 1574u, 8380u, 5335u, 4176u, 5339u, 3128u, 5346u, 5340u, 5337u, 5344u, 5314u, 5341u, 5345u, 3699u, 3458u, 5338u, 5342u, 2107u, 2430u, 2974u, 5350u, 3389u, 8381u, 5347u, 4011u, 5348u, 5349u, 4087u, 2915u, 2133u, 5356u, 2464u, 5353u, 5352u, 3589u, 8382u, 3498u, 3400u, 5354u, 5355u, 3838u, 3608u, 2446u, 2994u, 3995u, 1732u, 5362u, 5357u, 4177u, 5364u, 5360u, 5361u, 3071u, 8383u, 5359u, 5294u, 5363u, 5358u, 5368u, 5369u, 3390u, 5371u, 2447u, 5366u, 1907u, 5372u, 5365u, 5376u, 5375u, 5374u, 5377u, 5379u, 2806u, 5378u, 5382u, 5380u, 5381u, 5343u, 5384u, 5383u, 5351u, 5385u, 5373u, 2500u, 5386u, 5387u, 5389u, 5388u, 5390u, 1691u, 2277u, 3945u, 2928u, 2207u, 5392u, 5395u, 8384u, 3809u, 1942u, 5394u, 5393u, 3623u, 5396u, 1994u, 5398u, 5397u, 1811u, 2465u, 3533u, 2108u, 2903u, 5399u, 2929u, 3391u, 3822u, 5400u, 5401u, 5402u, 3877u, 4948u, 2951u, 3803u, 2405u, 3734u, 3700u, 3428u, 4262u, 5404u, 2585u, 5405u, 1431u, 2025u, 2958u, 3823u, 5406u, 2477u, 3234u, 2502u, 2842u, 5407u, 3946u, 1590u, 2503u, 5410u, 5408u, 5411u, 4254u, 5409u, 3004u, 5412u, 3119u, 5413u, 1875u, 5415u, 5414u, 5416u, 5417u, 1876u, 3569u, 3217u, 1955u, 2504u, 3072u, 2691u, 1425u, 5418u, 1599u, 5422u, 8385u, 2278u, 5421u, 2360u, 2751u, 8388u, 5420u, 2752u, 4073u, 2359u, 1464u, 2959u, 8386u, 5427u, 8390u, 2930u, 1542u, 8391u, 2684u, 4017u, 2431u, 2753u, 8389u, 2920u, 8279u, 5426u, 5424u, 5425u, 8387u, 3270u, 5457u, 5431u, 2537u, 2279u, 5429u, 5430u, 2843u, 5428u, 2458u, 8393u, 8394u, 5433u, 5432u, 5437u, 5438u, 5434u, 8392u, 1693u, 5435u, 5436u, 3718u, 3824u, 2109u, 5439u, 8396u, 2931u, 2754u, 3245u, 2012u, 5440u, 5444u, 1640u, 5441u, 5443u, 5442u, 2706u, 3235u, 1446u, 5445u, 8397u, 5446u, 8398u, 3299u, 4310u, 2478u, 3928u, 8399u, 3976u, 5453u, 5448u, 5451u, 5450u, 8400u, 5447u, 5452u, 3539u, 5449u, 5454u, 2707u, 5455u, 4178u, 3659u, 5456u, 5458u, 5459u, 5460u, 2015u, 1543u, 2280u, 5461u, 5462u, 2712u, 3073u, 8401u, 8282u, 4661u, 3037u, 3036u, 3157u, 2388u, 4499u, 2145u, 4148u, 3947u, 3853u, 8402u, 5463u, 2432u, 3320u, 5464u, 4338u, 3977u, 3300u, 5465u, 1877u, 5466u, 5467u, 4099u, 4045u, 4033u, 4007u, 2448u, 5469u, 2612u, 3996u, 5471u, 5474u, 5473u, 1874u, 1943u, 5470u, 5472u, 5475u, 2908u, 4226u, 1450u, 2413u, 3129u, 2598u, 2808u, 5478u, 3429u, 5476u, 3112u, 5477u, 2807u, 4102u, 5479u, 5480u, 4207u, 8404u, 5485u, 2281u, 3624u, 5482u, 3459u, 5419u, 5423u, 1926u, 3610u, 5484u, 2755u, 3701u, 5490u, 3755u, 5481u, 5487u, 5486u, 2960u, 4024u, 4280u, 4018u, 1641u, 2505u, 4363u, 5489u, 2904u, 5488u, 5483u, 2208u, 5495u, 5493u, 1642u, 5491u, 5497u, 5503u, 8405u, 8407u, 3141u, 3886u, 5505u, 3761u, 5504u, 3651u, 3978u, 1812u, 3000u, 2663u, 3340u, 4149u, 5500u, 5499u, 5501u, 5498u, 5506u, 5496u, 5494u, 5502u, 5492u, 3271u, 4129u, 2575u, 2433u, 2375u, 4026u, 1724u, 8408u, 3335u, 3519u, 1544u, 2995u, 2933u, 2077u, 5508u, 2282u, 1783u, 5510u, 1775u, 5516u, 5513u, 2996u, 1734u, 2361u, 1733u, 2396u, 5511u, 2136u, 2110u, 3460u, 8409u, 5509u, 1447u, 5512u, 5514u, 2018u, 2079u, 8406u, 1813u, 1922u, 5517u, 2438u, 4028u, 2466u, 5518u, 3775u, 5530u, 1616u, 5519u, 5536u, 5520u, 4263u, 5527u, 3634u, 5535u, 5522u, 1429u, 5524u, 2283u, 5526u, 5525u, 5521u, 5532u, 2756u, 4870u, 2233u, 4227u, 5523u, 3373u, 1694u, 2362u, 5515u, 5531u, 1756u, 5529u, 5533u, 3461u, 1879u, 5563u, 8280u, 4082u, 5538u, 1878u, 5545u, 8410u, 3979u, 5546u, 5548u, 5552u, 5540u, 3205u, 3462u, 5556u, 5543u, 5553u, 5547u, 2844u, 5557u, 2932u, 5555u, 1814u, 4371u, 5537u, 5551u, 1465u, 5539u, 4067u, 5544u, 2821u, 3328u, 5534u, 5550u, 2909u, 5560u, 1772u, 2162u, 5562u, 5541u, 5561u, 5554u, 5542u, 5558u, 5559u, 5576u, 3523u, 5549u, 5572u, 5574u, 3345u, 4179u, 3845u, 5569u, 3143u, 5575u, 3038u, 5566u, 5579u, 5578u, 3556u, 5577u, 3551u, 8412u, 5581u, 5568u, 2013u, 5571u, 2692u, 3635u, 5573u, 2016u, 5565u, 5567u, 5564u, 4339u, 1749u, 5570u, 5580u, 1712u, 2420u, 1564u, 5597u, 4340u, 5600u, 8414u, 2845u, 5599u, 5598u, 5595u, 5583u, 5612u, 5582u, 5601u, 5593u, 5588u, 5585u, 5586u, 5594u, 7803u, 5591u, 2284u, 3329u, 3075u, 5589u, 5584u, 5587u, 4180u, 4021u, 5592u, 5602u, 8415u, 5610u, 5603u, 5616u, 5614u, 5609u, 5608u, 3337u, 3076u, 5606u, 5604u, 5611u, 5617u, 3750u, 5623u, 5618u, 5621u, 5615u, 3279u, 3783u, 5605u, 5613u, 2757u, 4088u, 5633u, 5620u, 2163u, 1600u, 1754u, 5596u, 8416u, 2758u, 5625u, 5632u, 2626u, 1773u, 3209u, 5622u, 8418u, 5627u, 5631u, 1995u, 1923u, 5629u, 1880u, 3520u, 5628u, 5630u, 8417u, 5624u, 8419u, 5626u, 8420u, 1755u, 3236u, 5637u, 5635u, 2234u, 5634u, 5640u, 5507u, 5636u, 5638u, 5639u, 5651u, 5647u, 5528u, 5646u, 5645u, 5642u, 5619u, 5644u, 5643u, 5649u, 4329u, 5652u, 2064u, 5648u, 5650u, 8421u, 8422u, 3672u, 5653u, 5657u, 5654u, 4218u, 5655u, 5607u, 5658u, 5659u, 1524u, 5661u, 2138u, 2538u, 2026u, 1601u, 4198u, 5663u, 5662u, 5665u, 1908u, 2027u, 1815u, 5668u, 5667u, 5669u, 1643u, 3218u, 5670u, 1816u, 5672u, 5671u, 5673u, 5674u, 5675u, 2506u, 2934u, 2350u, 3839u, 3919u, 4359u, 2528u, 2397u, 4311u, 5676u, 5677u, 2507u, 5678u, 5679u, 5681u, 5680u, 4003u, 2693u, 2613u, 2479u, 5682u, 5684u, 2822u, 5683u, 5685u, 5686u, 5687u, 5688u, 5689u, 5691u, 5690u, 5692u, 1602u, 3237u, 5693u, 2449u, 1735u, 5694u, 3417u, 4837u, 1882u, 5695u, 5696u, 3929u, 4019u, 3516u, 5697u, 3735u, 8423u, 3756u, 4092u, 5698u, 5700u, 5699u, 5702u, 5701u, 5704u, 2508u, 4058u, 5705u, 5706u, 1883u, 5707u, 5709u, 5708u, 2888u, 3784u, 1545u, 3702u, 8424u, 3374u, 2664u, 1944u, 3703u, 2551u, 5711u, 1817u, 1591u, 8425u, 3559u, 5710u, 2285u, 3246u, 5712u, 5720u, 5713u, 8427u, 3134u, 1945u, 5721u, 2139u, 1884u, 5719u, 5717u, 5714u, 4199u, 8426u, 3321u, 3534u, 5715u, 5723u, 5722u, 2070u, 1610u, 2376u, 5716u, 5718u, 4002u, 3185u, 4034u, 5731u, 5732u, 1644u, 3861u, 4134u, 5734u, 2540u, 2759u, 5727u, 5733u, 1575u, 1996u, 5724u, 5729u, 2997u, 3652u, 3736u, 5726u, 3948u, 5728u, 5737u, 8428u, 5735u, 5730u, 3949u, 3611u, 1946u, 3388u, 3272u, 5738u, 5736u, 3158u, 5725u, 1546u, 8429u, 4181u, 5749u, 5748u, 2999u, 5745u, 4211u, 3499u, 5739u, 3326u, 1547u, 2286u, 5742u, 2638u, 5747u, 5746u, 5741u, 5744u, 1763u, 5743u, 3612u, 4243u, 2809u, 2998u, 5755u, 5753u, 3804u, 5750u, 5752u, 1529u, 2287u, 4341u, 1720u, 3825u, 8431u, 4200u, 1695u, 2846u, 5754u, 5759u, 8430u, 2760u, 4151u, 5756u, 5751u, 5757u, 8432u, 4291u, 3466u, 3511u, 8433u, 1713u, 1556u, 5763u, 5766u, 4264u, 4203u, 5773u, 5767u, 5764u, 4281u, 5770u, 8434u, 2673u, 5772u, 5777u, 3464u, 5775u, 5769u, 3219u, 5776u, 5765u, 5771u, 5778u, 1501u, 5768u, 5779u, 2847u, 8436u, 2694u, 3858u, 2363u, 8435u, 5760u, 5774u, 3409u, 8437u, 2935u, 1764u, 2398u, 2761u, 5762u, 2665u, 2111u, 5761u, 5783u, 2708u, 2187u, 5798u, 5792u, 1963u, 3430u, 5787u, 5796u, 1424u, 1521u, 8440u, 1622u, 5789u, 3113u, 5780u, 5782u, 2288u, 5799u, 8438u, 5794u, 8441u, 5786u, 5793u, 4052u, 5791u, 5795u, 2209u, 2762u, 3220u, 8439u, 5785u, 4150u, 5788u, 5781u, 3465u, 5784u, 5790u, 4372u, 2567u, 4041u, 5800u, 3679u, 5812u, 2188u, 2695u, 5802u, 4244u, 2289u, 5815u, 1487u, 5813u, 5801u, 5807u, 5809u, 4182u, 5804u, 3397u, 5806u, 8442u, 5814u, 5808u, 4080u, 5803u, 2539u, 5827u, 1765u, 5805u, 5810u, 5811u, 3177u, 3159u, 5819u, 5825u, 5823u, 3392u, 5830u, 5820u, 5821u, 5797u, 1968u, 3785u, 2568u, 2342u, 4342u, 5817u, 5829u, 1576u, 3077u, 3660u, 1818u, 4319u, 4042u, 3339u, 5824u, 5826u, 3025u, 5828u, 5822u, 5816u, 1820u, 2140u, 5842u, 5837u, 3001u, 1758u, 2696u, 5846u, 5839u, 3301u, 5836u, 3346u, 5871u, 5833u, 5832u, 5841u, 5835u, 5834u, 5840u, 2914u, 5831u, 8443u, 5843u, 5844u, 1819u, 5849u, 5848u, 5850u, 5853u, 3418u, 5847u, 8444u, 5851u, 2134u, 3190u, 5845u, 3598u, 5852u, 5857u, 5855u, 5858u, 5861u, 5854u, 2329u, 3579u, 5758u, 4219u, 5856u, 5860u, 3186u, 5859u, 5838u, 8445u, 7404u, 5864u, 5868u, 5866u, 8446u, 8447u, 5862u, 5863u, 5867u, 5865u, 3805u, 5873u, 5870u, 5869u, 5872u, 3529u, 5874u, 3280u, 3178u, 8448u, 2918u, 5875u, 5877u, 5876u, 5818u, 5878u, 3548u, 5879u, 1645u, 3467u, 1696u, 1947u, 2599u, 2399u, 8449u, 4330u, 2889u, 1577u, 5881u, 5880u, 8450u, 5884u, 3221u, 5887u, 5882u, 5886u, 5885u, 3415u, 1466u, 8278u, 4314u, 5889u, 1511u, 5891u, 5890u, 5888u, 5883u, 3950u, 5893u, 8452u, 5892u, 8451u, 1578u, 5895u, 3871u, 5894u, 4062u, 2764u, 3026u, 2763u, 8454u, 8455u, 4320u, 5901u, 3002u, 5897u, 5902u, 1579u, 8453u, 5900u, 3636u, 5896u, 5899u, 2765u, 3714u, 5903u, 2586u, 3003u, 5906u, 5898u, 2074u, 5904u, 4183u, 5907u, 7807u, 2678u, 5908u, 5909u, 3585u, 5911u, 5912u, 8457u, 3590u, 3468u, 5914u, 5916u, 4282u, 5913u, 5915u, 1580u, 5910u, 4758u, 5917u, 3078u, 2467u, 5919u, 5918u, 2823u, 4662u, 5920u, 5922u, 5905u, 5921u, 8458u, 5923u, 3661u, 5924u, 5925u, 5926u, 5927u, 3351u, 5929u, 5928u, 5930u, 5931u, 2600u, 3826u, 4117u, 5932u, 5933u, 3061u, 2541u, 5934u, 5935u, 5936u, 3903u, 3704u, 5937u, 3626u, 3302u, 5938u, 1668u, 1956u, 4079u, 4063u, 1617u, 4343u, 3997u, 3863u, 2936u, 5939u, 3512u, 2164u, 5940u, 2401u, 5942u, 5941u, 5943u, 5944u, 5945u, 1909u, 5946u, 5947u, 2165u, 3705u, 8459u, 5949u, 2810u, 5948u, 8460u, 1997u, 5950u, 5952u, 5951u, 5953u, 2210u, 5954u, 2046u, 3039u, 2348u, 5956u, 5957u, 5955u, 2614u, 3517u, 1998u, 5959u, 3207u, 5958u, 4344u, 3637u, 5962u, 5964u, 5961u, 4093u, 5963u, 5965u, 4265u, 8461u, 5969u, 5968u, 3281u, 3584u, 2166u, 5967u, 5966u, 4152u, 4153u, 5970u, 1581u, 2341u, 2509u, 5971u, 5972u, 5974u, 2666u, 5976u, 5975u, 5977u, 1736u, 5979u, 8463u, 5978u, 5981u, 5980u, 2189u, 4237u, 2017u, 1603u, 2047u, 1850u, 4301u, 5983u, 5985u, 8464u, 5986u, 1646u, 5982u, 8465u, 2468u, 3322u, 5984u, 8468u, 8466u, 5989u, 2615u, 8467u, 5987u, 2097u, 3706u, 5988u, 6015u, 8470u, 5994u, 2190u, 1948u, 5991u, 4228u, 8469u, 4245u, 3187u, 5993u, 8471u, 8473u, 8472u, 8474u, 5995u, 4283u, 2028u, 3757u, 3613u, 5996u, 5998u, 6001u, 5997u, 6000u, 2235u, 1548u, 6002u, 2899u, 5999u, 4289u, 8475u, 6005u, 7805u, 6003u, 6006u, 5992u, 6004u, 2377u, 6007u, 6008u, 4229u, 8476u, 6009u, 6010u, 8477u, 5990u, 6011u, 1821u, 2542u, 6012u, 6013u, 6014u, 1530u, 6016u, 3786u, 6017u, 1789u, 6018u, 6019u, 6020u, 6022u, 6023u, 6021u, 3810u, 6025u, 6024u, 8478u, 6027u, 6026u, 6028u, 6029u, 6031u, 6030u, 2344u, 6033u, 6032u, 1822u, 2870u, 3411u, 6034u, 2937u, 2469u, 1592u, 6035u, 4184u, 3920u, 6036u, 8347u, 3419u, 4154u, 2290u, 2848u, 3238u, 4625u, 3303u, 1669u, 6037u, 6038u, 6043u, 6041u, 6040u, 5391u, 1697u, 6039u, 1467u, 3675u, 3707u, 4246u, 6044u, 6042u, 3255u, 2919u, 3676u, 3772u, 6046u, 4241u, 2112u, 6047u, 6045u, 3719u, 6048u, 6049u, 8479u, 1468u, 2811u, 6054u, 6051u, 3554u, 6050u, 1885u, 6057u, 6052u, 6053u, 6056u, 6055u, 3764u, 3041u, 3040u, 1910u, 6058u, 6059u, 6060u, 6062u, 6061u, 1557u, 6070u, 3737u, 6064u, 6066u, 6068u, 2849u, 6069u, 6067u, 2569u, 6063u, 6065u, 3793u, 2766u, 6072u, 6071u, 6073u, 2543u, 2364u, 3470u, 6074u, 3332u, 6076u, 4230u, 6075u, 3080u, 6081u, 6083u, 6084u, 3247u, 6082u, 6079u, 6077u, 6078u, 6080u, 6087u, 6085u, 6086u, 6088u, 6090u, 6091u, 6092u, 6093u, 6089u, 6095u, 6094u, 6096u, 4266u, 6099u, 6097u, 6098u, 1851u, 4135u, 3895u, 6101u, 6100u, 6102u, 6103u, 6107u, 6104u, 6105u, 6106u, 6108u, 6109u, 6110u, 6111u, 6112u, 3680u, 3431u, 6113u, 3653u, 3779u, 6114u, 8480u, 6115u, 3393u, 1698u, 2291u, 6116u, 6117u, 6118u, 2452u, 6120u, 6119u, 6121u, 6122u, 8483u, 8481u, 8482u, 8484u, 3738u, 6123u, 6124u, 7780u, 6125u, 6126u, 6127u, 2457u, 6128u, 3625u, 4010u, 1549u, 1558u, 6129u, 6131u, 6130u, 3463u, 2938u, 5664u, 6132u, 4074u, 6133u, 1823u, 3720u, 6134u, 6135u, 6136u, 4101u, 4094u, 3319u, 3081u, 6138u, 2697u, 2767u, 6141u, 6140u, 6139u, 3758u, 1824u, 2170u, 6147u, 6144u, 2850u, 4059u, 6143u, 6145u, 6146u, 6142u, 6148u, 6149u, 3304u, 1852u, 3264u, 8486u, 6150u, 6151u, 6154u, 2890u, 3513u, 6155u, 3998u, 6152u, 6153u, 6158u, 6157u, 6156u, 6160u, 6159u, 6161u, 6163u, 6162u, 3898u, 2685u, 4267u, 6164u, 3500u, 6165u, 6166u, 6170u, 6168u, 6169u, 6167u, 6171u, 6172u, 6173u, 6174u, 4064u, 6175u, 4121u, 6176u, 3241u, 3645u, 2048u, 3222u, 6177u, 1999u, 2961u, 6178u, 2378u, 6179u, 6180u, 2167u, 2402u, 6182u, 8488u, 3437u, 2403u, 1925u, 3951u, 3614u, 3438u, 2315u, 6184u, 8489u, 2768u, 8490u, 4247u, 2292u, 2168u, 3668u, 6186u, 8491u, 6188u, 2236u, 6187u, 3375u, 6190u, 1714u, 6185u, 3739u, 1519u, 2425u, 4373u, 6189u, 6191u, 3896u, 2970u, 6193u, 6194u, 6192u, 1737u, 6200u, 6199u, 2544u, 6201u, 6196u, 6202u, 6197u, 3721u, 6195u, 6198u, 6205u, 6204u, 4012u, 6203u, 1484u, 6207u, 6206u, 2769u, 6208u, 3042u, 6210u, 6209u, 6211u, 6181u, 6183u, 6213u, 6212u, 8492u, 2545u, 4302u, 2587u, 6214u, 2090u, 1911u, 1886u, 2510u, 4155u, 6220u, 6219u, 3043u, 6216u, 6218u, 2674u, 2851u, 6217u, 6215u, 3581u, 2770u, 3787u, 2404u, 3471u, 6221u, 6222u, 6244u, 2029u, 4352u, 3028u, 6223u, 1647u, 3376u, 3854u, 8496u, 8498u, 6224u, 1969u, 6225u, 6227u, 6228u, 3580u, 6229u, 6230u, 6231u, 2030u, 1648u, 3514u, 2639u, 2511u, 6232u, 2640u, 1639u, 3794u, 6233u, 3740u, 3044u, 6236u, 6237u, 3644u, 2852u, 6234u, 3260u, 6235u, 2771u, 1469u, 1888u, 6238u, 3377u, 6239u, 2952u, 4054u, 3762u, 6240u, 6241u, 3248u, 4268u, 6243u, 6242u, 2616u, 6245u, 1489u, 6248u, 6246u, 1649u, 2113u, 6247u, 2293u, 2337u, 3923u, 6249u, 3999u, 6251u, 2962u, 1550u, 1623u, 1421u, 6250u, 6252u, 6253u, 2812u, 6254u, 1738u, 6256u, 2141u, 1949u, 6257u, 2058u, 6258u, 3005u, 3522u, 2977u, 2434u, 6259u, 3261u, 3082u, 6261u, 6263u, 6260u, 6262u, 2069u, 6264u, 2073u, 1950u, 4185u, 6266u, 6267u, 1517u, 6270u, 1777u, 6269u, 6268u, 6272u, 6265u, 6273u, 4238u, 6274u, 6275u, 8499u, 4877u, 6277u, 6276u, 6278u, 6279u, 4250u, 6280u, 7504u, 2772u, 6281u, 6282u, 2686u, 3501u, 6283u, 8500u, 3203u, 8502u, 6284u, 3223u, 6285u, 1978u, 4542u, 3256u, 2556u, 1825u, 6286u, 6299u, 6289u, 1951u, 6288u, 6301u, 6287u, 2773u, 6291u, 6292u, 3394u, 6293u, 1753u, 2877u, 3827u, 6295u, 3173u, 6290u, 6294u, 6296u, 2440u, 6303u, 3773u, 3671u, 3472u, 2031u, 6302u, 6300u, 3686u, 6297u, 3257u, 3474u, 3473u, 2435u, 6321u, 6305u, 6307u, 6310u, 6311u, 6308u, 6309u, 6306u, 6304u, 6298u, 3900u, 1650u, 6318u, 6315u, 6320u, 6319u, 3654u, 4048u, 2470u, 6313u, 6322u, 6317u, 6316u, 6312u, 8503u, 6314u, 1826u, 3224u, 3006u, 3667u, 6327u, 3669u, 2978u, 6324u, 3712u, 6328u, 3904u, 3254u, 6323u, 6325u, 6326u, 6329u, 2573u, 3515u, 6334u, 6333u, 6330u, 4345u, 6339u, 6343u, 6340u, 6336u, 6337u, 6342u, 6331u, 4658u, 6338u, 6332u, 6341u, 6347u, 1827u, 6344u, 6345u, 6346u, 6349u, 6348u, 3751u, 6350u, 4321u, 3930u, 6355u, 6352u, 6351u, 2963u, 6354u, 6356u, 6353u, 6360u, 6357u, 6358u, 6335u, 6359u, 6361u, 6362u, 3891u, 6363u, 4107u, 2019u, 2076u, 6364u, 3873u, 2891u, 4057u, 6365u, 4248u, 3655u, 3045u, 3591u, 2676u, 1441u, 6370u, 6368u, 6366u, 1786u, 2774u, 6371u, 6369u, 6367u, 6375u, 6374u, 6373u, 6372u, 6376u, 6377u, 2939u, 6378u, 6380u, 6379u, 2211u, 3031u, 6382u, 3475u, 6381u, 6383u, 3874u, 3083u, 2294u, 6384u, 4269u, 6386u, 6387u, 6388u, 6389u, 2512u, 6390u, 2114u, 1953u, 1889u, 6392u, 4124u, 2295u, 6391u, 6395u, 4111u, 3599u, 3778u, 2698u, 6394u, 2588u, 2296u, 2513u, 1952u, 3875u, 6393u, 3046u, 3981u, 2436u, 2514u, 3350u, 6398u, 4292u, 2406u, 6399u, 2853u, 6401u, 2775u, 2365u, 6400u, 2641u, 2191u, 3047u, 6396u, 6402u, 8505u, 6397u, 2115u, 6405u, 6409u, 2142u, 6404u, 6413u, 8506u, 2297u, 4212u, 1437u, 6410u, 1954u, 6407u, 6408u, 3476u, 6406u, 6403u, 1699u, 2981u, 2169u, 6415u, 6412u, 6414u, 6411u, 2116u, 3120u, 6416u, 3085u, 6429u, 8508u, 6425u, 6419u, 6423u, 2627u, 1470u, 6418u, 6426u, 6430u, 2298u, 4095u, 3343u, 6420u, 8507u, 6428u, 6417u, 3225u, 6422u, 1438u, 4083u, 6421u, 2032u, 3741u, 3084u, 4277u, 2710u, 6469u, 8509u, 6431u, 3007u, 6427u, 6432u, 6434u, 3378u, 6437u, 6433u, 3905u, 1828u, 4084u, 1471u, 6436u, 4322u, 6435u, 1582u, 3553u, 6438u, 6445u, 6439u, 6446u, 6442u, 3662u, 2579u, 6444u, 6441u, 6447u, 6440u, 2667u, 3952u, 2675u, 6443u, 6455u, 6451u, 6454u, 6452u, 6456u, 6450u, 6424u, 2964u, 3708u, 6453u, 6448u, 3008u, 2117u, 2642u, 8510u, 2824u, 3029u, 6459u, 6461u, 6462u, 6458u, 6460u, 6449u, 6457u, 6465u, 6464u, 4037u, 2078u, 6463u, 6467u, 6466u, 6470u, 6472u, 2471u, 6468u, 6473u, 6474u, 8272u, 6475u, 6481u, 3410u, 6477u, 6476u, 6478u, 6479u, 6480u, 6482u, 6483u, 1829u, 6484u, 6485u, 6486u, 8511u, 6487u, 6488u, 6489u, 6490u, 6491u, 6493u, 6492u, 6494u, 6495u, 6496u, 6499u, 6497u, 6498u, 2414u, 2118u, 3249u, 3684u, 2711u, 3616u, 3742u, 6500u, 5246u, 6501u, 6503u, 4204u, 6502u, 6505u, 6504u, 4186u, 6506u, 3759u, 6507u, 6510u, 6509u, 6508u, 8512u, 6511u, 2085u, 3009u, 1912u, 6515u, 6512u, 6513u, 6516u, 6517u, 6514u, 1512u, 1604u, 6519u, 6520u, 6521u, 4201u, 2643u, 6523u, 6522u, 2892u, 6524u, 6525u, 6526u, 1854u, 1830u, 6527u, 6528u, 4008u, 4202u, 4187u, 4346u, 2300u, 6531u, 2589u, 6530u, 6532u, 2546u, 3150u, 6533u, 2299u, 4096u, 6534u, 6535u, 6536u, 6537u, 6538u, 2547u, 4118u, 6540u, 3226u, 6539u, 6542u, 6541u, 6543u, 2940u, 6544u, 6545u, 3878u, 6546u, 3086u, 6547u, 6548u, 4323u, 6551u, 6550u, 6549u, 3305u, 6552u, 2825u, 6553u, 6554u, 4347u, 6555u, 6556u, 6558u, 6557u, 3670u, 3566u, 4353u, 3674u, 6560u, 2776u, 3769u, 6561u, 6559u, 1831u, 2213u, 2515u, 3743u, 2171u, 3982u, 6564u, 6562u, 2301u, 2302u, 1482u, 2421u, 3628u, 1472u, 6569u, 3227u, 3627u, 3160u, 6571u, 6567u, 6570u, 6565u, 6568u, 3953u, 2214u, 1502u, 6566u, 6573u, 6574u, 3502u, 2000u, 6585u, 3600u, 2516u, 2001u, 2953u, 4361u, 4055u, 6572u, 2965u, 1930u, 6575u, 6577u, 6576u, 6578u, 3201u, 3601u, 3306u, 6582u, 6581u, 6579u, 2872u, 3828u, 6584u, 6583u, 2303u, 4374u, 6600u, 6588u, 6589u, 2617u, 6587u, 2343u, 6586u, 6590u, 3307u, 3855u, 3010u, 3161u, 6594u, 6595u, 6591u, 6592u, 6593u, 2304u, 6601u, 6597u, 3829u, 4023u, 3767u, 6596u, 6599u, 6598u, 3983u, 6602u, 6603u, 3030u, 6604u, 6606u, 6610u, 6607u, 6605u, 3602u, 6608u, 6609u, 1615u, 6616u, 6611u, 6612u, 6613u, 3102u, 6615u, 6614u, 6617u, 6618u, 6619u, 2854u, 1670u, 6620u, 4284u, 2548u, 2644u, 2517u, 3250u, 6621u, 6622u, 1520u, 6623u, 6624u, 6625u, 6626u, 6627u, 2002u, 5367u, 6628u, 2982u, 6629u, 2580u, 6630u, 4433u, 6631u, 3915u, 1845u, 3011u, 2687u, 3840u, 2645u, 6632u, 2305u, 6633u, 3709u, 6647u, 6635u, 3142u, 3656u, 2192u, 6634u, 3012u, 6636u, 3379u, 6638u, 6637u, 6640u, 6639u, 6641u, 6643u, 6642u, 1832u, 6644u, 6645u, 6646u, 2366u, 4270u, 6648u, 2826u, 1583u, 6649u, 6650u, 6651u, 1491u, 6652u, 6653u, 3830u, 2576u, 6655u, 1700u, 1427u, 6654u, 6657u, 3617u, 2855u, 1651u, 3954u, 2128u, 2033u, 6656u, 1671u, 1788u, 1584u, 6661u, 4303u, 3162u, 3795u, 6673u, 1652u, 6671u, 6669u, 6660u, 6658u, 6659u, 2604u, 2049u, 3282u, 3526u, 1552u, 6663u, 6662u, 6668u, 6664u, 6667u, 8514u, 4089u, 6666u, 1653u, 1784u, 6670u, 6672u, 2119u, 6676u, 6685u, 6686u, 1420u, 6693u, 1490u, 6684u, 6683u, 6678u, 6677u, 6675u, 6674u, 3262u, 3192u, 6680u, 6679u, 6682u, 3087u, 2120u, 1536u, 6681u, 2306u, 3088u, 8515u, 6699u, 6700u, 1654u, 1611u, 6697u, 8516u, 6687u, 6695u, 6702u, 6696u, 6694u, 6665u, 6692u, 6688u, 1833u, 6690u, 6701u, 6691u, 6703u, 6689u, 3663u, 4208u, 6698u, 6720u, 6712u, 2910u, 8517u, 1917u, 2034u, 6707u, 1656u, 2777u, 6710u, 2407u, 3432u, 6715u, 3931u, 6706u, 1655u, 2215u, 3768u, 6716u, 6704u, 8518u, 6713u, 6723u, 6708u, 6709u, 3503u, 6714u, 6711u, 3955u, 6717u, 1473u, 6705u, 6719u, 6718u, 3646u, 6725u, 6736u, 1785u, 6739u, 6721u, 6726u, 4213u, 6735u, 8519u, 4188u, 4239u, 3283u, 1766u, 3841u, 6741u, 3478u, 1426u, 6734u, 6730u, 3089u, 6724u, 6732u, 6737u, 3583u, 1419u, 6729u, 6738u, 3847u, 6733u, 6728u, 2778u, 2646u, 2549u, 4097u, 3798u, 6744u, 6753u, 6731u, 1778u, 8520u, 2813u, 6742u, 6747u, 3090u, 6743u, 6750u, 3258u, 6751u, 4189u, 6740u, 1715u, 6746u, 6749u, 4053u, 6752u, 6745u, 6748u, 8276u, 3956u, 4324u, 6756u, 6763u, 6755u, 2572u, 6722u, 3899u, 4043u, 6762u, 6761u, 6757u, 6758u, 1525u, 6760u, 6754u, 3342u, 6759u, 1503u, 3103u, 3888u, 6764u, 6768u, 3722u, 6767u, 2779u, 2578u, 6770u, 2003u, 8521u, 6771u, 3848u, 6766u, 8522u, 6727u, 6765u, 4370u, 3479u, 3842u, 8523u, 6778u, 6784u, 6785u, 6772u, 3657u, 6782u, 6774u, 6776u, 6786u, 6775u, 6779u, 1585u, 3546u, 6780u, 6783u, 6773u, 3013u, 6777u, 2450u, 2856u, 2083u, 4125u, 4130u, 2713u, 8525u, 6790u, 6788u, 4369u, 6787u, 4220u, 6789u, 6791u, 6792u, 6795u, 6793u, 3480u, 6794u, 3710u, 6781u, 2714u, 6796u, 6801u, 3091u, 6800u, 6769u, 6802u, 3048u, 6797u, 6799u, 6798u, 5656u, 5641u, 6804u, 6803u, 4221u, 6137u, 6805u, 6806u, 6807u, 2216u, 1931u, 6809u, 4572u, 1964u, 4255u, 2056u, 6810u, 6811u, 3273u, 6812u, 3567u, 1435u, 1664u, 6817u, 6818u, 6813u, 2472u, 6814u, 3605u, 6815u, 6816u, 6826u, 6820u, 6823u, 6819u, 6821u, 6822u, 2593u, 6824u, 3228u, 2121u, 1725u, 6827u, 1722u, 6832u, 6828u, 6831u, 3691u, 6829u, 6830u, 3799u, 3723u, 6833u, 3194u, 6843u, 6839u, 1672u, 6837u, 3957u, 6838u, 6835u, 6836u, 6841u, 6844u, 6842u, 6840u, 6834u, 3251u, 6851u, 4051u, 6849u, 6850u, 6845u, 6847u, 6848u, 6846u, 2983u, 4348u, 6855u, 6856u, 6862u, 2829u, 6858u, 6861u, 6853u, 6852u, 6863u, 1657u, 6859u, 6864u, 6860u, 6857u, 3308u, 6854u, 3643u, 6868u, 4162u, 6867u, 6866u, 6875u, 6869u, 6877u, 4205u, 6880u, 6871u, 6872u, 6876u, 6879u, 6878u, 6870u, 6873u, 6890u, 6883u, 6881u, 6882u, 6887u, 6888u, 1701u, 1913u, 6886u, 6865u, 8528u, 6885u, 6889u, 6884u, 6891u, 6893u, 6892u, 6895u, 6894u, 6825u, 6899u, 6896u, 6897u, 6898u, 6900u, 2143u, 6902u, 6901u, 2647u, 2307u, 5740u, 6903u, 2680u, 1716u, 6904u, 1553u, 2780u, 6905u, 2308u, 6906u, 1474u, 3788u, 6907u, 2893u, 6914u, 6911u, 3274u, 6912u, 6909u, 2035u, 6908u, 6915u, 2089u, 3163u, 6921u, 6917u, 3122u, 6916u, 6919u, 6910u, 6920u, 6922u, 3744u, 6918u, 6923u, 6925u, 2212u, 6913u, 1442u, 6924u, 2408u, 4315u, 6926u, 6927u, 3092u, 4231u, 6928u, 4156u, 6929u, 6930u, 3921u, 6931u, 2381u, 4232u, 6936u, 6937u, 2781u, 6935u, 8529u, 4206u, 6932u, 6934u, 2942u, 2913u, 6933u, 6938u, 3856u, 6940u, 6939u, 1767u, 3958u, 6941u, 8273u, 6953u, 6943u, 6944u, 6945u, 6946u, 6950u, 6951u, 6949u, 6947u, 6942u, 6948u, 6952u, 7448u, 1605u, 6955u, 2036u, 6954u, 6957u, 6956u, 6959u, 6958u, 6960u, 2648u, 6961u, 6962u, 6963u, 2943u, 4190u, 6964u, 3857u, 3609u, 6965u, 6966u, 2172u, 1891u, 6967u, 2518u, 3604u, 6968u, 1739u, 6969u, 6971u, 4222u, 6970u, 2857u, 6972u, 6973u, 6974u, 1834u, 6975u, 6976u, 6977u, 6978u, 1740u, 6979u, 6980u, 6981u, 1679u, 2827u, 6982u, 6983u, 6984u, 2193u, 3380u, 6985u, 2122u, 2873u, 6988u, 3481u, 6987u, 8530u, 2084u, 6986u, 3188u, 1892u, 6989u, 6990u, 2782u, 2144u, 6991u, 3959u, 2976u, 1965u, 4126u, 3049u, 6992u, 8531u, 2858u, 3275u, 2783u, 6993u, 6996u, 6997u, 2379u, 3135u, 6995u, 2784u, 3789u, 6994u, 2519u, 1554u, 7001u, 2123u, 2521u, 2520u, 4368u, 7000u, 6999u, 3014u, 1924u, 4358u, 1717u, 2785u, 8532u, 6998u, 7003u, 7004u, 7002u, 2217u, 4167u, 2522u, 3578u, 7007u, 2945u, 3229u, 4157u, 7010u, 2237u, 2944u, 7006u, 7011u, 2238u, 7008u, 7009u, 8533u, 7005u, 2979u, 3518u, 3210u, 1658u, 3745u, 1914u, 8534u, 3309u, 7014u, 7012u, 3239u, 2946u, 1835u, 7013u, 2878u, 4271u, 4355u, 7015u, 7026u, 3310u, 7025u, 8535u, 7022u, 7030u, 7023u, 7019u, 3381u, 7018u, 7016u, 4136u, 2523u, 7020u, 7017u, 8537u, 7024u, 2715u, 2194u, 3191u, 3984u, 1561u, 1475u, 3482u, 7028u, 7027u, 3547u, 7032u, 7021u, 7031u, 7033u, 2173u, 7029u, 2309u, 2590u, 7034u, 4191u, 7037u, 7040u, 7038u, 3780u, 7035u, 2037u, 7039u, 7041u, 7045u, 7042u, 7044u, 7043u, 8538u, 7046u, 2554u, 7048u, 7047u, 3831u, 7050u, 2124u, 7049u, 7051u, 7052u, 1915u, 6518u, 2814u, 7053u, 2239u, 7054u, 8539u, 7055u, 2473u, 5403u, 7056u, 7057u, 2649u, 7058u, 7059u, 7060u, 7061u, 7062u, 3206u, 7063u, 7065u, 7064u, 3483u, 7066u, 3960u, 7067u, 7068u, 7069u, 7070u, 3535u, 2786u, 7071u, 2330u, 4431u, 7072u, 7073u, 3790u, 7074u, 7082u, 7075u, 7077u, 7076u, 7078u, 3985u, 7079u, 7080u, 7081u, 7083u, 1704u, 3360u, 3832u, 2415u, 2310u, 3806u, 1660u, 3711u, 7086u, 1836u, 2966u, 7085u, 7090u, 3284u, 4108u, 7088u, 7089u, 1893u, 7091u, 3638u, 3164u, 3746u, 3412u, 7087u, 3986u, 1673u, 7093u, 4331u, 3323u, 4360u, 2524u, 7092u, 3118u, 7109u, 3015u, 3565u, 3807u, 7096u, 2474u, 2525u, 2787u, 3640u, 2174u, 7095u, 7094u, 3833u, 2570u, 3433u, 8540u, 8541u, 7098u, 7099u, 2311u, 7097u, 7100u, 7101u, 7103u, 3104u, 7102u, 1855u, 7105u, 7104u, 7106u, 8542u, 7108u, 7110u, 7111u, 2967u, 2584u, 7112u, 1741u, 7113u, 3093u, 7114u, 7115u, 3834u, 8543u, 1894u, 7116u, 3311u, 1562u, 7117u, 2618u, 2905u, 3114u, 7120u, 7119u, 7118u, 7126u, 7124u, 7121u, 7123u, 7122u, 7125u, 1966u, 7129u, 2968u, 7130u, 2218u, 7127u, 7128u, 4332u, 3312u, 3016u, 7131u, 7134u, 7132u, 7133u, 4192u, 3484u, 7137u, 7135u, 7136u, 7138u, 7152u, 7141u, 7142u, 7140u, 7139u, 3382u, 7144u, 7148u, 7145u, 7143u, 7146u, 7147u, 7154u, 7149u, 2969u, 7151u, 7153u, 7150u, 7156u, 2650u, 7155u, 7157u, 7158u, 7161u, 7160u, 7159u, 7163u, 7162u, 4127u, 7165u, 7164u, 7166u, 7167u, 7169u, 7168u, 2859u, 7170u, 2050u, 7171u, 7173u, 7174u, 7175u, 7172u, 7176u, 2591u, 7177u, 1895u, 2086u, 8545u, 2175u, 7178u, 3557u, 3413u, 7179u, 7182u, 2557u, 7181u, 7180u, 2125u, 7183u, 1742u, 7185u, 2409u, 7184u, 7193u, 7187u, 7189u, 3922u, 7186u, 7188u, 7192u, 7190u, 1896u, 7191u, 7194u, 3629u, 4285u, 2651u, 7195u, 4137u, 7197u, 7196u, 7200u, 4168u, 7199u, 1768u, 7198u, 7203u, 7202u, 7201u, 3401u, 7204u, 7205u, 7206u, 2331u, 2072u, 7207u, 7208u, 7209u, 2860u, 7210u, 2550u, 7211u, 7212u, 4606u, 4605u, 7213u, 6471u, 7214u, 3199u, 2830u, 3603u, 7215u, 3906u, 3341u, 2349u, 3204u, 1513u, 4035u, 2874u, 2129u, 2038u, 3907u, 7216u, 7218u, 7217u, 1661u, 3563u, 7219u, 3658u, 3402u, 7220u, 2681u, 7222u, 4075u, 7237u, 7224u, 7225u, 3330u, 3165u, 3094u, 3485u, 7223u, 1932u, 7232u, 7229u, 7242u, 3486u, 3259u, 7226u, 3383u, 3434u, 7227u, 7231u, 2883u, 3642u, 3333u, 2947u, 7230u, 3115u, 3105u, 7228u, 1418u, 4325u, 7233u, 3166u, 2652u, 2861u, 7235u, 7234u, 1488u, 7236u, 3774u, 7244u, 3536u, 2894u, 3252u, 2061u, 7243u, 4158u, 1534u, 3908u, 1662u, 7238u, 7239u, 7240u, 7241u, 3504u, 3198u, 1476u, 7245u, 7246u, 7804u, 3130u, 7247u, 1586u, 3051u, 2176u, 4193u, 8548u, 7248u, 3395u, 3095u, 2592u, 7249u, 7252u, 2700u, 7250u, 3018u, 3017u, 1477u, 4272u, 7254u, 3747u, 7256u, 7255u, 7253u, 6271u, 1837u, 7221u, 7258u, 7257u, 7259u, 4159u, 3542u, 3961u, 7260u, 2594u, 7261u, 7262u, 7263u, 3384u, 1483u, 2312u, 4349u, 7267u, 8549u, 2087u, 7264u, 7265u, 3843u, 1743u, 4160u, 2004u, 3435u, 7268u, 7269u, 8551u, 7270u, 8552u, 3385u, 7272u, 7271u, 3528u, 7273u, 2653u, 2601u, 3630u, 3276u, 2619u, 2895u, 7274u, 7275u, 2880u, 7276u, 7277u, 7278u, 4214u, 2654u, 7280u, 7279u, 2313u, 2338u, 2475u, 7283u, 2701u, 7282u, 7281u, 3174u, 2240u, 2948u, 3681u, 2656u, 7284u, 2788u, 7287u, 7285u, 7286u, 7289u, 7288u, 2815u, 7290u, 7291u, 7292u, 3713u, 2400u, 2602u, 7293u, 7294u, 4233u, 2668u, 4119u, 4273u, 7295u, 2039u, 7296u, 8554u, 3386u, 8553u, 7299u, 1779u, 2862u, 8555u, 7297u, 7298u, 3353u, 8558u, 8559u, 4000u, 2065u, 8556u, 8557u, 7301u, 7302u, 7300u, 7304u, 8560u, 8562u, 3540u, 1726u, 8561u, 7308u, 7305u, 7307u, 7303u, 7378u, 7306u, 4304u, 2219u, 8569u, 8563u, 8565u, 7316u, 8564u, 3403u, 7311u, 7314u, 7312u, 7317u, 8566u, 7318u, 8568u, 7310u, 8567u, 7323u, 1587u, 7309u, 3678u, 7313u, 2789u, 8570u, 2314u, 8572u, 8573u, 3987u, 2041u, 2669u, 3505u, 8275u, 3020u, 7321u, 7315u, 7320u, 4076u, 3313u, 7322u, 7319u, 8571u, 3019u, 7326u, 7325u, 7324u, 8577u, 3962u, 8581u, 8579u, 8575u, 8576u, 8580u, 2722u, 8574u, 7327u, 3916u, 1555u, 3797u, 3277u, 1967u, 8281u, 7329u, 8584u, 2316u, 8587u, 8589u, 2455u, 7328u, 2896u, 2897u, 7332u, 7334u, 8588u, 8586u, 2816u, 8583u, 7333u, 7335u, 8582u, 2024u, 3796u, 2603u, 4326u, 7331u, 2437u, 4354u, 7337u, 7336u, 7338u, 7330u, 8274u, 3550u, 3436u, 3344u, 7343u, 8591u, 3230u, 7339u, 7340u, 2080u, 7342u, 8590u, 2177u, 7341u, 2790u, 1780u, 7347u, 2380u, 3096u, 3331u, 8592u, 1718u, 7345u, 7346u, 3324u, 7344u, 7348u, 7354u, 8593u, 7357u, 7356u, 3396u, 7349u, 7350u, 7353u, 7355u, 8594u, 2005u, 7358u, 7352u, 7351u, 8595u, 7362u, 7363u, 7364u, 7361u, 7360u, 2791u, 3487u, 7359u, 7368u, 7366u, 8596u, 7367u, 7365u, 3189u, 7369u, 7370u, 7372u, 8597u, 8598u, 1838u, 7371u, 4131u, 7383u, 7373u, 7376u, 7374u, 7375u, 7377u, 7379u, 7380u, 7381u, 7384u, 7382u, 7385u, 7387u, 7386u, 3314u, 4112u, 7388u, 3021u, 7389u, 3889u, 7390u, 1702u, 1531u, 1840u, 8599u, 1839u, 7391u, 7392u, 7393u, 7394u, 7395u, 1841u, 1744u, 2317u, 3687u, 7397u, 7396u, 7398u, 1563u, 7401u, 7400u, 7399u, 7402u, 7405u, 1448u, 7403u, 7407u, 7406u, 7409u, 7408u, 7410u, 3491u, 7411u, 7412u, 7414u, 7413u, 3835u, 7415u, 7416u, 2418u, 7417u, 7418u, 3988u, 3050u, 1413u, 3144u, 7419u, 3836u, 7422u, 7420u, 2318u, 7421u, 2195u, 3890u, 7424u, 7426u, 7425u, 7427u, 1504u, 2875u, 2723u, 1842u, 7428u, 3641u, 7430u, 1505u, 7429u, 3325u, 4274u, 3488u, 7423u, 4235u, 2178u, 4194u, 2062u, 4249u, 2075u, 3167u, 6580u, 7431u, 1703u, 2898u, 1745u, 7433u, 7434u, 7432u, 2135u, 2410u, 2792u, 8602u, 1506u, 4286u, 7436u, 7251u, 7435u, 8603u, 7439u, 7437u, 7438u, 7440u, 7441u, 4305u, 7442u, 7443u, 2954u, 3692u, 2912u, 1856u, 4161u, 1674u, 2655u, 2220u, 7446u, 7445u, 2526u, 7447u, 7444u, 2451u, 7451u, 6874u, 4659u, 2906u, 7449u, 4234u, 3558u, 1514u, 2980u, 2559u, 3876u, 1535u, 4306u, 4210u, 7452u, 3420u, 2628u, 7453u, 7454u, 2863u, 7455u, 4307u, 7450u, 7457u, 7459u, 7458u, 7456u, 7460u, 7461u, 3097u, 1663u, 7462u, 4065u, 7463u, 7464u, 4333u, 8604u, 5468u, 7465u, 8605u, 7466u, 7467u, 7471u, 8606u, 7468u, 7469u, 7470u, 7472u, 8607u, 8608u, 8609u, 2949u, 8610u, 4128u, 2950u, 7473u, 3748u, 7474u, 7758u, 4085u, 7475u, 7476u, 7477u, 1746u, 7479u, 2876u, 7480u, 2071u, 7481u, 7485u, 7483u, 7484u, 1774u, 7482u, 7486u, 7487u, 1449u, 7488u, 7489u, 2793u, 7490u, 1918u, 7493u, 7492u, 7491u, 7036u, 3913u, 7494u, 7495u, 7496u, 7497u, 7498u, 7499u, 1843u, 7500u, 7501u, 3574u, 7503u, 1624u, 7506u, 7505u, 1507u, 2006u, 3892u, 3315u, 2351u, 2319u, 2702u, 2879u, 7508u, 7507u, 4169u, 1857u, 3715u, 3537u, 2911u, 4275u, 2126u, 7511u, 7510u, 3990u, 3489u, 1551u, 7512u, 7509u, 3808u, 4209u, 7513u, 7514u, 7516u, 3175u, 1750u, 1751u, 7515u, 1858u, 2179u, 8611u, 1859u, 3414u, 4293u, 8612u, 2221u, 7517u, 7518u, 7519u, 7520u, 7522u, 7521u, 3846u, 7523u, 7524u, 7525u, 7526u, 7528u, 7527u, 7529u, 3749u, 6529u, 2828u, 1897u, 7530u, 7531u, 4617u, 5666u, 3716u, 1500u, 1436u, 2527u, 3963u, 2819u, 7532u, 4104u, 7533u, 4195u, 1537u, 2476u, 7534u, 1675u, 7535u, 7536u, 7538u, 7539u, 7541u, 7537u, 7540u, 8615u, 1844u, 7542u, 7543u, 7544u, 7545u, 7546u, 7548u, 7547u, 7550u, 7553u, 7549u, 7551u, 7552u, 7554u, 2007u, 2620u, 7555u, 7556u, 2320u, 8617u, 7557u, 1721u, 3618u, 7558u, 7559u, 3253u, 3552u, 7560u, 3664u, 3145u, 1559u, 2051u, 2052u, 3278u, 7565u, 2053u, 1676u, 7564u, 7562u, 7563u, 7561u, 7575u, 7566u, 7567u, 7568u, 7569u, 7571u, 7570u, 2688u, 7572u, 7574u, 1898u, 7573u, 3098u, 2180u, 7576u, 3146u, 7577u, 3490u, 7578u, 7583u, 7581u, 7580u, 7582u, 7579u, 7585u, 8618u, 7584u, 7587u, 2008u, 7586u, 7588u, 7589u, 7591u, 7590u, 7592u, 7594u, 7593u, 2347u, 7595u, 7596u, 1719u, 7597u, 7598u, 2900u, 7599u, 7600u, 7601u, 7602u, 2321u, 8619u, 8620u, 7603u, 7604u, 7605u, 7606u, 7607u, 3682u, 7609u, 3765u, 7610u, 7608u, 7612u, 7611u, 7613u, 7614u, 7615u, 7616u, 7617u, 7618u, 7619u, 7620u, 7621u, 7622u, 7623u, 7624u, 7625u, 7626u, 7627u, 5660u, 7628u, 6385u, 1899u, 1692u, 2367u, 7630u, 7629u, 4046u, 7632u, 7633u, 7631u, 7634u, 4013u, 7635u, 1970u, 4328u, 8622u, 7636u, 8621u, 7638u, 1439u, 8623u, 7639u, 3864u, 7637u, 7640u, 7641u, 7642u, 7643u, 7644u, 4025u, 2456u, 2439u, 3022u, 8624u, 7645u, 7648u, 8625u, 7646u, 7649u, 2242u, 7647u, 7650u, 7651u, 7652u, 7656u, 2453u, 3169u, 7657u, 7654u, 7653u, 7655u, 2130u, 7661u, 7660u, 7659u, 1428u, 8626u, 7671u, 7667u, 7668u, 7664u, 7670u, 7666u, 1757u, 4367u, 7669u, 7665u, 7663u, 7662u, 7673u, 7676u, 7675u, 7674u, 3800u, 7672u, 1492u, 7677u, 7679u, 1770u, 7658u, 1526u, 7681u, 7680u, 7678u, 3208u, 4027u, 4287u, 7682u, 7683u, 7684u, 7685u, 7686u, 3316u, 7687u, 3688u, 7692u, 7688u, 7689u, 3964u, 4077u, 3525u, 7693u, 7694u, 3507u, 7691u, 7690u, 1607u, 7702u, 7701u, 1588u, 7699u, 7698u, 7696u, 1782u, 7695u, 2555u, 1606u, 2322u, 7705u, 7704u, 7703u, 7700u, 7706u, 7707u, 7712u, 7711u, 7713u, 1516u, 7708u, 7709u, 2339u, 4066u, 7710u, 8628u, 3965u, 7718u, 8627u, 7714u, 7719u, 7716u, 7715u, 2127u, 7720u, 7721u, 7722u, 7717u, 7697u, 7723u, 3354u, 7727u, 7728u, 7726u, 7725u, 7731u, 7724u, 7729u, 7730u, 7733u, 7732u, 7735u, 7736u, 7737u, 4364u, 7734u, 3176u, 2426u, 7738u, 8630u, 7739u, 7740u, 7741u, 7742u, 2181u, 7743u, 7744u, 2552u, 7745u, 7746u, 7747u, 7748u, 7751u, 7749u, 4351u, 7750u, 4308u, 7752u, 4288u, 7753u, 3665u, 7754u, 7756u, 7757u, 7755u, 2332u, 4086u, 4014u, 5068u, 5703u, 4038u, 1608u, 7759u, 1927u, 7760u, 7761u, 7762u, 8631u, 2340u, 7763u, 5973u, 4100u, 3168u, 7764u, 7766u, 7765u, 7767u, 7768u, 7769u, 7770u, 7771u, 7772u, 7773u, 7774u, 7775u, 7776u, 7777u, 7778u, 7779u, 3387u, 2222u, 7781u, 3052u, 7782u, 7783u, 3760u, 7784u, 7785u, 6226u, 7107u, 7502u, 7786u, 7787u, 7789u, 7790u, 7791u, 4309u, 7788u, 7792u, 7793u, 7795u, 7794u, 7797u, 7798u, 7796u, 4251u, 7799u, 7800u, 6255u, 7801u, 8403u, 8600u, 8323u, 8334u, 8335u, 8356u, 8395u, 8411u, 8413u, 8456u, 8462u, 8485u, 8493u, 8494u, 8495u, 8497u, 8501u, 8504u, 8513u, 8524u, 8526u, 8527u, 8536u, 8544u, 8546u, 8547u, 8550u, 8578u, 8585u, 8601u, 8613u, 8614u, 8616u, 8629u, 9u, 8647u, 83u, 79u, 82u, 84u, 8646u, 41u, 42u, 85u, 59u, 3u, 60u, 4u, 30u, 203u, 204u, 205u, 206u, 207u, 208u, 209u, 210u, 211u, 212u, 6u, 7u, 66u, 64u, 67u, 8u, 86u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 228u, 229u, 230u, 231u, 232u, 233u, 234u, 235u, 236u, 237u, 238u, 239u, 240u, 241u, 242u, 243u, 244u, 245u, 45u, 31u, 46u, 15u, 17u, 13u, 252u, 253u, 254u, 255u, 256u, 257u, 258u, 259u, 260u, 261u, 262u, 263u, 264u, 265u, 266u, 267u, 268u, 269u, 270u, 271u, 272u, 273u, 274u, 275u, 276u, 277u, 47u, 34u, 48u, 32u, 80u, 81u, 137u, 16u, 8645u, 78u, };
+std::vector<uint16_t> const wordring::whatwg::encoding::index_pointer_Shift_JIS_1 { 87u, 14u, 74u, 61u, 12u, 182u, 62u, 63u, 470u, 471u, 472u, 473u, 474u, 475u, 476u, 477u, 478u, 479u, 480u, 481u, 482u, 483u, 484u, 485u, 486u, 487u, 488u, 489u, 490u, 491u, 492u, 493u, 502u, 503u, 504u, 505u, 506u, 507u, 508u, 509u, 510u, 511u, 512u, 513u, 514u, 515u, 516u, 517u, 518u, 519u, 520u, 521u, 522u, 523u, 524u, 525u, 570u, 564u, 565u, 566u, 567u, 568u, 569u, 571u, 572u, 573u, 574u, 575u, 576u, 577u, 578u, 579u, 580u, 581u, 582u, 583u, 584u, 585u, 586u, 587u, 588u, 589u, 590u, 591u, 592u, 593u, 594u, 595u, 596u, 612u, 613u, 614u, 615u, 616u, 617u, 619u, 620u, 621u, 622u, 623u, 624u, 625u, 626u, 627u, 628u, 629u, 630u, 631u, 632u, 633u, 634u, 635u, 636u, 637u, 638u, 639u, 640u, 641u, 642u, 643u, 644u, 618u, 29u, 28u, 37u, 38u, 39u, 40u, 180u, 181u, 36u, 35u, 176u, 75u, 76u, 101u, 77u, 1193u, 1195u, 175u, 1148u, 1149u, 1150u, 1151u, 1152u, 1153u, 1154u, 1155u, 1156u, 1157u, 10716u, 10717u, 10718u, 10719u, 10720u, 10721u, 10722u, 10723u, 10724u, 10725u, 104u, 105u, 103u, 106u, 138u, 139u, 140u, 156u, 141u, 157u, 119u, 120u, 1211u, 162u, 164u, 70u, 1215u, 153u, 33u, 135u, 136u, 126u, 125u, 166u, 167u, 1210u, 71u, 165u, 163u, 159u, 65u, 158u, 68u, 69u, 160u, 161u, 123u, 124u, 121u, 122u, 154u, 1216u, 155u, 1128u, 1129u, 1130u, 1131u, 1132u, 1133u, 1134u, 1135u, 1136u, 1137u, 1138u, 1139u, 1140u, 1141u, 1142u, 1143u, 1144u, 1145u, 1146u, 1147u, 658u, 669u, 659u, 670u, 660u, 671u, 661u, 672u, 663u, 674u, 662u, 673u, 664u, 685u, 680u, 675u, 666u, 687u, 682u, 677u, 665u, 681u, 686u, 676u, 667u, 683u, 688u, 678u, 668u, 684u, 689u, 679u, 96u, 95u, 98u, 97u, 100u, 99u, 94u, 93u, 90u, 92u, 91u, 187u, 89u, 88u, 73u, 72u, 179u, 178u, 177u, 0u, 1u, 2u, 22u, 24u, 25u, 26u, 49u, 50u, 51u, 52u, 53u, 54u, 55u, 56u, 57u, 58u, 102u, 107u, 43u, 44u, 1191u, 1192u, 282u, 283u, 284u, 285u, 286u, 287u, 288u, 289u, 290u, 291u, 292u, 293u, 294u, 295u, 296u, 297u, 298u, 299u, 300u, 301u, 302u, 303u, 304u, 305u, 306u, 307u, 308u, 309u, 310u, 311u, 312u, 313u, 314u, 315u, 316u, 317u, 318u, 319u, 320u, 321u, 322u, 323u, 324u, 325u, 326u, 327u, 328u, 329u, 330u, 331u, 332u, 333u, 334u, 335u, 336u, 337u, 338u, 339u, 340u, 341u, 342u, 343u, 344u, 345u, 346u, 347u, 348u, 349u, 350u, 351u, 352u, 353u, 354u, 355u, 356u, 357u, 358u, 359u, 360u, 361u, 362u, 363u, 364u, 10u, 11u, 20u, 21u, 376u, 377u, 378u, 379u, 380u, 381u, 382u, 383u, 384u, 385u, 386u, 387u, 388u, 389u, 390u, 391u, 392u, 393u, 394u, 395u, 396u, 397u, 398u, 399u, 400u, 401u, 402u, 403u, 404u, 405u, 406u, 407u, 408u, 409u, 410u, 411u, 412u, 413u, 414u, 415u, 416u, 417u, 418u, 419u, 420u, 421u, 422u, 423u, 424u, 425u, 426u, 427u, 428u, 429u, 430u, 431u, 432u, 433u, 434u, 435u, 436u, 437u, 438u, 439u, 440u, 441u, 442u, 443u, 444u, 445u, 446u, 447u, 448u, 449u, 450u, 451u, 452u, 453u, 454u, 455u, 456u, 457u, 458u, 459u, 460u, 461u, 5u, 27u, 18u, 19u, 1201u, 1202u, 1203u, 1196u, 1197u, 1198u, 1199u, 1200u, 1165u, 1169u, 1160u, 1163u, 1161u, 1171u, 1170u, 1164u, 1172u, 1166u, 1174u, 1159u, 1173u, 1162u, 1167u, 1168u, 1190u, 1206u, 1205u, 1204u, 1178u, 1179u, 1175u, 1176u, 1177u, 1181u, 1180u, 1194u, 1485u, 3285u, 2560u, 4039u, 2795u, 2459u, 2794u, 1625u, 3811u, 4166u, 4419u, 1518u, 1769u, 4420u, 2917u, 4639u, 1933u, 3879u, 2796u, 4259u, 3887u, 10756u, 4421u, 3265u, 4422u, 2063u, 4423u, 1846u, 3211u, 2608u, 4424u, 4425u, 4426u, 3592u, 1934u, 3594u, 3544u, 2196u, 3966u, 6808u, 4427u, 2797u, 4428u, 1618u, 2042u, 2241u, 4114u, 4987u, 4215u, 3570u, 1790u, 1900u, 4429u, 4430u, 4256u, 4164u, 3079u, 4432u, 2529u, 3560u, 4435u, 1533u, 2224u, 2223u, 1479u, 4366u, 4365u, 2368u, 1410u, 4436u, 4437u, 4438u, 3967u, 4439u, 2243u, 1480u, 4029u, 1971u, 1972u, 1973u, 3355u, 4257u, 4440u, 4441u, 4442u, 2864u, 2657u, 2865u, 4447u, 4445u, 4446u, 1935u, 2352u, 1677u, 4444u, 4443u, 3862u, 2481u, 2480u, 3131u, 4448u, 3812u, 2984u, 23u, 4449u, 4451u, 10757u, 3170u, 4294u, 1451u, 4450u, 1627u, 2009u, 3266u, 2146u, 4452u, 3575u, 10758u, 10759u, 1860u, 10760u, 4453u, 1452u, 2225u, 1861u, 3849u, 3683u, 1936u, 1678u, 4488u, 3416u, 3647u, 4455u, 3693u, 4295u, 2832u, 10761u, 2482u, 2530u, 1629u, 3338u, 3197u, 4459u, 1453u, 3356u, 2658u, 2369u, 4139u, 3147u, 1628u, 10762u, 4458u, 4165u, 4454u, 4456u, 2427u, 4457u, 4891u, 4465u, 4468u, 4466u, 1631u, 3880u, 4460u, 4464u, 2244u, 2483u, 1791u, 4469u, 4461u, 10764u, 4296u, 2531u, 4462u, 4467u, 10763u, 10766u, 4470u, 4463u, 10765u, 1974u, 1454u, 1975u, 1630u, 4892u, 4036u, 3837u, 2245u, 2834u, 4252u, 3909u, 2091u, 3106u, 1665u, 10749u, 2682u, 10767u, 4474u, 4479u, 4477u, 4472u, 3116u, 4475u, 4478u, 4476u, 3914u, 4473u, 2833u, 4030u, 4480u, 4481u, 2635u, 4494u, 3619u, 3781u, 4489u, 3933u, 1619u, 4493u, 10770u, 4487u, 4496u, 3057u, 2197u, 3631u, 5960u, 4495u, 3444u, 4484u, 2247u, 2246u, 4482u, 10771u, 2595u, 4490u, 10769u, 3932u, 3240u, 4486u, 2148u, 4483u, 4491u, 4485u, 4278u, 4492u, 4356u, 2043u, 2147u, 10768u, 10774u, 4497u, 10772u, 4498u, 4502u, 1455u, 3901u, 4501u, 4500u, 4504u, 4503u, 3357u, 2149u, 4505u, 10773u, 2574u, 3107u, 3358u, 2059u, 4506u, 1901u, 4507u, 4509u, 3968u, 2137u, 10775u, 2460u, 3752u, 4508u, 2386u, 4170u, 4511u, 4514u, 4510u, 2385u, 2724u, 2092u, 4515u, 2020u, 4512u, 4513u, 3492u, 3099u, 1976u, 3992u, 4516u, 10777u, 4258u, 4517u, 4520u, 4518u, 3053u, 4519u, 4521u, 10776u, 4523u, 4522u, 3893u, 1902u, 4525u, 4526u, 1612u, 4524u, 2621u, 4529u, 4528u, 4527u, 4471u, 4530u, 2725u, 4531u, 4140u, 4098u, 4533u, 4532u, 4535u, 4534u, 4536u, 4537u, 1493u, 2182u, 2094u, 2659u, 3286u, 1977u, 2985u, 2248u, 10778u, 2333u, 4539u, 4081u, 3421u, 2532u, 4538u, 4540u, 3445u, 1776u, 4541u, 10779u, 3571u, 3027u, 4543u, 4544u, 3677u, 2249u, 4350u, 4545u, 1979u, 3881u, 3123u, 2054u, 3404u, 2150u, 4546u, 4547u, 3543u, 1566u, 4550u, 2442u, 4549u, 2387u, 4551u, 6563u, 4552u, 3980u, 4553u, 4554u, 4555u, 2798u, 2581u, 10780u, 1792u, 4558u, 4556u, 4070u, 4557u, 3817u, 4559u, 4560u, 4561u, 3446u, 4565u, 4563u, 4564u, 4562u, 2416u, 4566u, 4115u, 4297u, 4567u, 10781u, 2921u, 4568u, 2689u, 4569u, 3287u, 4260u, 3447u, 4642u, 4570u, 7806u, 2010u, 4571u, 4009u, 2703u, 3193u, 4573u, 3545u, 10782u, 4574u, 4575u, 1705u, 4576u, 1980u, 3521u, 1593u, 2679u, 3666u, 4577u, 3448u, 2866u, 4578u, 3865u, 2971u, 1787u, 1794u, 4579u, 4581u, 2093u, 4580u, 10783u, 4312u, 2704u, 3694u, 3897u, 4582u, 4223u, 4583u, 4584u, 3477u, 4585u, 2922u, 2443u, 2151u, 4586u, 2484u, 2334u, 3359u, 4588u, 3108u, 2428u, 4589u, 4590u, 3023u, 4587u, 4592u, 3969u, 2323u, 4591u, 2152u, 2411u, 3648u, 4595u, 4593u, 3850u, 2799u, 4602u, 1759u, 4596u, 4594u, 3054u, 4598u, 4597u, 1727u, 2131u, 4603u, 4242u, 4599u, 4604u, 4601u, 4600u, 4276u, 10784u, 2250u, 1632u, 4313u, 10785u, 2716u, 3439u, 2324u, 4607u, 4608u, 10959u, 4298u, 4334u, 4610u, 2251u, 4609u, 1706u, 10786u, 4611u, 4001u, 3317u, 4141u, 3910u, 4612u, 7478u, 3493u, 4613u, 1795u, 4060u, 10787u, 2726u, 4614u, 3924u, 4618u, 2923u, 4615u, 2021u, 4616u, 1796u, 2081u, 4619u, 4620u, 4621u, 4622u, 2596u, 2252u, 4103u, 10788u, 4113u, 3564u, 3934u, 4623u, 10789u, 4624u, 4626u, 4628u, 4627u, 4629u, 1626u, 3991u, 2441u, 4630u, 3064u, 2727u, 1982u, 4631u, 10790u, 3724u, 4632u, 4633u, 4634u, 4635u, 3763u, 2045u, 1478u, 3508u, 4636u, 2660u, 2986u, 4638u, 4637u, 2728u, 2226u, 4640u, 3695u, 4641u, 3725u, 3121u, 3179u, 1981u, 3555u, 3212u, 3649u, 3993u, 4643u, 2987u, 2088u, 4644u, 4645u, 1515u, 1494u, 1862u, 10791u, 3109u, 1928u, 4216u, 4648u, 1620u, 4647u, 1983u, 4649u, 4122u, 10792u, 4650u, 4279u, 2253u, 2183u, 4651u, 4653u, 4652u, 2882u, 1528u, 1565u, 4654u, 4655u, 10793u, 2184u, 4656u, 1957u, 2461u, 4657u, 4031u, 2370u, 1937u, 4142u, 3055u, 3696u, 2630u, 2670u, 2609u, 2622u, 2717u, 3697u, 10794u, 4660u, 1538u, 3056u, 2254u, 2198u, 2044u, 4664u, 3196u, 3195u, 1984u, 2729u, 4665u, 4663u, 1633u, 3171u, 2561u, 2486u, 1509u, 1771u, 2325u, 2485u, 4666u, 4667u, 1920u, 1729u, 2326u, 1919u, 3352u, 1508u, 3494u, 4071u, 2256u, 4224u, 3422u, 2255u, 2082u, 4676u, 2040u, 3989u, 3726u, 4675u, 1847u, 4670u, 4671u, 4673u, 4674u, 1938u, 2884u, 3866u, 4672u, 4668u, 2228u, 4669u, 4327u, 3935u, 3361u, 2227u, 2335u, 4677u, 3538u, 4681u, 2631u, 2623u, 4684u, 4682u, 4044u, 4679u, 4688u, 4683u, 4686u, 2199u, 4072u, 4687u, 4689u, 4691u, 10797u, 2429u, 4357u, 4680u, 4678u, 4690u, 4685u, 10796u, 4693u, 4702u, 4695u, 4699u, 10798u, 4700u, 4696u, 4729u, 2422u, 1708u, 4694u, 4704u, 1495u, 4703u, 1414u, 3801u, 4701u, 4697u, 4692u, 4698u, 2389u, 4705u, 1496u, 4714u, 4706u, 4707u, 2730u, 4020u, 4712u, 4711u, 3398u, 4713u, 4710u, 10799u, 1523u, 2371u, 2835u, 4708u, 3449u, 4709u, 1411u, 4719u, 4138u, 2732u, 4725u, 4724u, 4715u, 3136u, 4716u, 3180u, 4721u, 2731u, 4718u, 4109u, 2095u, 4722u, 4723u, 4720u, 4726u, 4717u, 4732u, 4737u, 4733u, 4728u, 4738u, 3024u, 10800u, 4740u, 2257u, 4730u, 3288u, 4734u, 4727u, 1798u, 1863u, 1760u, 4735u, 4731u, 2153u, 4741u, 4739u, 3058u, 1921u, 1985u, 4736u, 2057u, 1539u, 4745u, 4743u, 4800u, 4748u, 4742u, 4746u, 4744u, 2487u, 4747u, 4750u, 4755u, 4753u, 4752u, 3213u, 1634u, 4749u, 4751u, 2733u, 1522u, 4754u, 1659u, 4765u, 2817u, 4761u, 4759u, 4760u, 4762u, 1532u, 3032u, 4756u, 4757u, 1781u, 4764u, 1864u, 4767u, 4763u, 4766u, 3867u, 3530u, 3689u, 4769u, 4768u, 1728u, 4770u, 4773u, 4772u, 4771u, 3596u, 4774u, 4775u, 4777u, 4776u, 4779u, 4782u, 4780u, 4778u, 4781u, 4783u, 4784u, 4785u, 4786u, 4787u, 4548u, 2629u, 2488u, 1680u, 1497u, 3231u, 4788u, 2353u, 1456u, 2881u, 4789u, 2200u, 2336u, 4791u, 4790u, 3917u, 4792u, 4794u, 4793u, 4795u, 4796u, 2154u, 1567u, 4797u, 4799u, 4798u, 4801u, 3441u, 4802u, 1430u, 2412u, 2096u, 3242u, 4803u, 4804u, 4806u, 4807u, 2417u, 2022u, 3970u, 4805u, 4808u, 2382u, 2258u, 10801u, 4812u, 2354u, 10802u, 3214u, 4809u, 3347u, 4813u, 2885u, 4811u, 4814u, 2098u, 4815u, 4816u, 2259u, 1723u, 4818u, 4819u, 10803u, 4820u, 4817u, 4810u, 4821u, 4822u, 10805u, 10804u, 4015u, 2800u, 4824u, 4825u, 4823u, 4827u, 3595u, 1481u, 3813u, 4828u, 2818u, 2562u, 3632u, 1865u, 2424u, 4004u, 3495u, 2155u, 3148u, 4826u, 4829u, 3137u, 4830u, 4831u, 4833u, 3362u, 1799u, 7802u, 1568u, 3936u, 2801u, 3423u, 2419u, 4839u, 3882u, 4290u, 1681u, 4835u, 3033u, 4838u, 3450u, 3424u, 3451u, 3690u, 3334u, 2390u, 4834u, 1589u, 3405u, 4836u, 4832u, 2867u, 4840u, 2677u, 1986u, 4841u, 3925u, 3100u, 3327u, 10808u, 4843u, 3994u, 4844u, 4849u, 10809u, 3868u, 4848u, 4842u, 4845u, 4847u, 2355u, 3894u, 4850u, 3232u, 1682u, 2802u, 4852u, 4851u, 2327u, 4853u, 4855u, 4854u, 4857u, 4846u, 4859u, 4858u, 4856u, 2489u, 2868u, 3059u, 4860u, 2941u, 1486u, 3639u, 3348u, 4862u, 4861u, 4863u, 4864u, 4865u, 4866u, 3902u, 4867u, 10810u, 1635u, 4868u, 4163u, 1707u, 4646u, 2671u, 3132u, 4869u, 4116u, 4061u, 4871u, 3172u, 3406u, 3133u, 3814u, 4872u, 4873u, 1594u, 2563u, 4874u, 1457u, 4875u, 4876u, 1569u, 1866u, 3541u, 3937u, 4880u, 3060u, 4879u, 2099u, 10811u, 4006u, 4878u, 3452u, 4882u, 4881u, 10812u, 10813u, 4884u, 4883u, 10814u, 1595u, 4885u, 2734u, 4887u, 3200u, 4886u, 3872u, 2718u, 3442u, 4888u, 2260u, 4889u, 3572u, 3727u, 4090u, 3576u, 4898u, 1903u, 4172u, 4056u, 4993u, 4890u, 4893u, 10815u, 3138u, 3971u, 3425u, 4894u, 4016u, 10816u, 2391u, 2735u, 4895u, 2491u, 2490u, 1434u, 2201u, 2924u, 1458u, 4899u, 4900u, 4897u, 1527u, 1800u, 4896u, 4078u, 3776u, 1417u, 1498u, 2492u, 1459u, 1412u, 4905u, 4903u, 4069u, 4906u, 4904u, 4902u, 2836u, 4901u, 3911u, 2229u, 4910u, 4911u, 2736u, 4907u, 4335u, 3615u, 4909u, 2356u, 4912u, 3815u, 4913u, 4908u, 4068u, 3633u, 4914u, 3777u, 4915u, 4919u, 4916u, 1636u, 4918u, 2564u, 4917u, 2156u, 4931u, 4924u, 4921u, 3263u, 4920u, 4922u, 4923u, 4925u, 4926u, 1867u, 4928u, 4927u, 4929u, 2803u, 4932u, 3349u, 1540u, 4930u, 4933u, 4934u, 4937u, 4935u, 4936u, 2493u, 4938u, 2261u, 4939u, 10817u, 2533u, 3125u, 4940u, 4941u, 2501u, 2262u, 4091u, 1887u, 2202u, 4942u, 1747u, 4943u, 3126u, 4944u, 4984u, 4945u, 4946u, 4947u, 4949u, 4950u, 4951u, 3181u, 1510u, 2610u, 1443u, 3062u, 1801u, 2558u, 2263u, 3453u, 2632u, 1802u, 3267u, 3363u, 1433u, 1904u, 3938u, 2571u, 1929u, 2988u, 2565u, 4143u, 4952u, 1939u, 2392u, 1709u, 1570u, 2737u, 1637u, 4953u, 4173u, 2672u, 10818u, 2605u, 4954u, 1868u, 3527u, 4050u, 4955u, 4956u, 3816u, 4958u, 1793u, 2060u, 4957u, 10820u, 1803u, 2837u, 4962u, 2444u, 1638u, 4961u, 4959u, 4963u, 4960u, 3582u, 5590u, 2838u, 4964u, 10821u, 4261u, 4965u, 4967u, 3289u, 4966u, 2916u, 2534u, 3149u, 2624u, 3844u, 2989u, 2582u, 4968u, 2738u, 4969u, 4970u, 1460u, 3127u, 2869u, 4971u, 3496u, 2739u, 2740u, 4972u, 2990u, 2741u, 10822u, 4973u, 4974u, 4105u, 4975u, 2011u, 2633u, 4976u, 4977u, 2597u, 2831u, 3561u, 2871u, 3753u, 3573u, 2014u, 4978u, 1958u, 4979u, 2067u, 3524u, 1613u, 2494u, 4980u, 4983u, 4982u, 2066u, 4981u, 3407u, 3117u, 3426u, 2577u, 3063u, 4225u, 4985u, 4986u, 3531u, 2462u, 4988u, 4989u, 4990u, 1869u, 4991u, 4992u, 1609u, 10823u, 3034u, 1853u, 4994u, 4049u, 3151u, 1748u, 4996u, 4998u, 1848u, 10824u, 4995u, 4997u, 5000u, 4999u, 5001u, 5002u, 3506u, 1987u, 1666u, 5003u, 5008u, 5006u, 3940u, 3939u, 10825u, 3454u, 5005u, 2683u, 5004u, 2901u, 5009u, 2423u, 5015u, 5016u, 5010u, 1710u, 5011u, 5020u, 5019u, 5018u, 5014u, 5013u, 5017u, 10826u, 3941u, 10829u, 5024u, 5021u, 5023u, 4217u, 5022u, 10827u, 5012u, 2902u, 5025u, 10830u, 2372u, 5026u, 5027u, 5030u, 5029u, 5028u, 3455u, 5007u, 5036u, 5032u, 5031u, 5033u, 5034u, 5037u, 10831u, 10832u, 4299u, 5038u, 5035u, 5039u, 1849u, 5040u, 10833u, 5042u, 5041u, 5043u, 5044u, 2991u, 2634u, 2699u, 3074u, 2264u, 2373u, 2265u, 1959u, 5045u, 2374u, 2203u, 5046u, 4047u, 3606u, 5047u, 2266u, 1797u, 3202u, 2023u, 2495u, 3818u, 3698u, 5048u, 1870u, 5051u, 3290u, 5050u, 5049u, 5052u, 3364u, 2886u, 2496u, 2955u, 3152u, 1881u, 3291u, 5053u, 5054u, 2804u, 3972u, 5057u, 5056u, 5055u, 3852u, 5064u, 4005u, 5058u, 5060u, 4022u, 5059u, 5061u, 3673u, 5062u, 3883u, 5063u, 1804u, 3884u, 3586u, 5065u, 5066u, 2267u, 1805u, 5067u, 2185u, 4171u, 4144u, 1871u, 5069u, 3292u, 2268u, 2742u, 3728u, 2743u, 2719u, 3365u, 3942u, 3408u, 2269u, 3819u, 5070u, 3440u, 2383u, 2204u, 3366u, 1444u, 2709u, 2270u, 4174u, 5071u, 5072u, 3620u, 5073u, 4316u, 4336u, 5075u, 5074u, 1730u, 5076u, 5079u, 5080u, 5078u, 3791u, 2744u, 5082u, 5081u, 5077u, 5083u, 5084u, 5085u, 5088u, 5086u, 5087u, 5089u, 1571u, 3367u, 5090u, 2157u, 1683u, 3593u, 5091u, 3568u, 3912u, 5092u, 4337u, 5093u, 3885u, 5096u, 4418u, 4434u, 2553u, 3562u, 5097u, 1940u, 3293u, 1499u, 5098u, 3859u, 2271u, 3243u, 3368u, 10834u, 4120u, 2186u, 2205u, 5099u, 5100u, 5106u, 2606u, 10835u, 3294u, 1988u, 5101u, 3770u, 3233u, 5102u, 10755u, 5103u, 1989u, 5104u, 5105u, 5107u, 3469u, 5108u, 5109u, 5110u, 5095u, 5094u, 5111u, 2100u, 3766u, 10836u, 2393u, 3782u, 3295u, 3802u, 5112u, 2745u, 1541u, 5113u, 5114u, 4123u, 3729u, 5117u, 1596u, 2925u, 5116u, 5115u, 2101u, 3153u, 5121u, 5119u, 5118u, 4236u, 2230u, 2720u, 5120u, 3427u, 2661u, 3509u, 5124u, 5123u, 5122u, 5125u, 2231u, 5126u, 3851u, 2690u, 5127u, 3754u, 3510u, 3296u, 10837u, 3399u, 5128u, 1890u, 2839u, 3771u, 1872u, 3577u, 5129u, 2497u, 3973u, 3974u, 1597u, 5134u, 10838u, 3268u, 5131u, 1684u, 5182u, 5133u, 3587u, 5132u, 5130u, 2345u, 5136u, 5142u, 5148u, 5140u, 3443u, 5145u, 3820u, 5139u, 5144u, 4300u, 2498u, 3154u, 5137u, 1941u, 5147u, 2926u, 1572u, 5141u, 1685u, 5146u, 1990u, 5143u, 5149u, 5151u, 5161u, 5159u, 5156u, 5155u, 4317u, 5157u, 1991u, 2272u, 2721u, 5164u, 5150u, 10839u, 5154u, 5138u, 1687u, 5158u, 5160u, 3244u, 2357u, 1621u, 5152u, 5163u, 5162u, 1992u, 3110u, 1761u, 2102u, 5153u, 5165u, 5168u, 5170u, 10840u, 2566u, 10841u, 5176u, 3369u, 5166u, 5174u, 1686u, 5172u, 5173u, 5169u, 5171u, 2232u, 4145u, 1806u, 1560u, 5175u, 3597u, 1422u, 3730u, 5135u, 5181u, 5185u, 4110u, 5178u, 3456u, 5183u, 2805u, 5184u, 3532u, 4362u, 5180u, 10843u, 5186u, 2346u, 2956u, 10842u, 1461u, 5179u, 5177u, 3065u, 5167u, 2463u, 3139u, 5198u, 10845u, 3066u, 5193u, 5190u, 5191u, 2607u, 5194u, 5197u, 5192u, 2636u, 5195u, 5189u, 4133u, 4132u, 5199u, 5200u, 1462u, 10846u, 5188u, 2055u, 1415u, 1807u, 10844u, 5196u, 5204u, 5203u, 5208u, 10848u, 5209u, 10847u, 5207u, 5210u, 5202u, 5206u, 5211u, 5212u, 5201u, 2535u, 5205u, 3155u, 2273u, 5187u, 2840u, 5225u, 3926u, 5215u, 5216u, 5217u, 5224u, 5223u, 4040u, 1808u, 5221u, 2104u, 1711u, 5218u, 4253u, 5220u, 1463u, 5222u, 5213u, 5219u, 5226u, 2103u, 5214u, 4196u, 4146u, 5229u, 5233u, 3101u, 4318u, 5234u, 5231u, 5228u, 10849u, 5227u, 5232u, 3869u, 3497u, 2105u, 5235u, 5230u, 5236u, 2158u, 1614u, 5244u, 1809u, 5242u, 5243u, 2358u, 5241u, 5239u, 5238u, 5245u, 5237u, 5247u, 1688u, 5249u, 5248u, 3297u, 5252u, 5250u, 5240u, 2159u, 5251u, 5255u, 5254u, 5256u, 5253u, 5257u, 5258u, 5259u, 3927u, 5261u, 5260u, 2662u, 2927u, 1667u, 1689u, 10850u, 5262u, 1440u, 2957u, 5263u, 7084u, 5264u, 2132u, 5265u, 2992u, 5266u, 5267u, 1905u, 5268u, 5269u, 5270u, 3156u, 2206u, 4106u, 3975u, 2705u, 5271u, 2993u, 7266u, 3731u, 2611u, 2394u, 5272u, 3140u, 3860u, 3182u, 5275u, 5273u, 5276u, 5274u, 5277u, 3870u, 1432u, 3821u, 3732u, 5278u, 5281u, 2746u, 1906u, 5279u, 5286u, 2747u, 5280u, 3607u, 4197u, 5282u, 5283u, 5287u, 3457u, 5284u, 2274u, 2975u, 5301u, 3685u, 3183u, 10851u, 3733u, 5370u, 3943u, 3370u, 4032u, 5290u, 1598u, 3269u, 5299u, 3215u, 5293u, 5300u, 5295u, 5302u, 5298u, 5297u, 3650u, 5291u, 1690u, 5289u, 1960u, 3184u, 5285u, 5288u, 2275u, 2972u, 2748u, 5296u, 3621u, 1961u, 1731u, 1762u, 2820u, 5304u, 5309u, 5305u, 2160u, 5310u, 2445u, 2328u, 2637u, 5292u, 2536u, 5307u, 2499u, 5308u, 1445u, 5303u, 3298u, 1962u, 1993u, 5306u, 1416u, 2384u, 2841u, 3371u, 3717u, 5312u, 3069u, 3111u, 2454u, 5313u, 5315u, 5311u, 3918u, 3318u, 3067u, 3944u, 2583u, 5327u, 5326u, 2907u, 2161u, 5320u, 2750u, 3549u, 3588u, 5318u, 3068u, 2625u, 5323u, 2749u, 5317u, 5322u, 3622u, 5316u, 2068u, 1752u, 5324u, 4240u, 2395u, 3216u, 5321u, 2973u, 2276u, 2887u, 1573u, 3035u, 5319u, 1916u, 2106u, 3336u, 5325u, 3070u, 5328u, 5330u, 3124u, 5336u, 5331u, 5333u, 3792u, 3372u, 5334u, 4147u, 4175u, 1810u, 1423u, 5332u, 5329u, 1873u, 1574u, 10852u, 5335u, 4176u, 5339u, 3128u, 5346u, 5340u, 5337u, 5344u, 5314u, 5341u, 5345u, 3699u, 3458u, 5338u, 5342u, 2107u, 2430u, 2974u, 5350u, 3389u, 10853u, 5347u, 4011u, 5348u, 5349u, 4087u, 2915u, 2133u, 5356u, 2464u, 5353u, 5352u, 3589u, 10854u, 3498u, 3400u, 5354u, 5355u, 3838u, 3608u, 2446u, 2994u, 3995u, 1732u, 5362u, 5357u, 4177u, 5364u, 5360u, 5361u, 3071u, 10855u, 5359u, 5294u, 5363u, 5358u, 5368u, 5369u, 3390u, 5371u, 2447u, 5366u, 1907u, 5372u, 5365u, 5376u, 5375u, 5374u, 5377u, 5379u, 2806u, 5378u, 5382u, 5380u, 5381u, 5343u, 5384u, 5383u, 5351u, 5385u, 5373u, 2500u, 5386u, 5387u, 5389u, 5388u, 5390u, 1691u, 2277u, 3945u, 2928u, 2207u, 5392u, 5395u, 10856u, 3809u, 1942u, 5394u, 5393u, 3623u, 5396u, 1994u, 5398u, 5397u, 1811u, 2465u, 3533u, 2108u, 2903u, 5399u, 2929u, 3391u, 3822u, 5400u, 5401u, 5402u, 3877u, 4948u, 2951u, 3803u, 2405u, 3734u, 3700u, 3428u, 4262u, 5404u, 2585u, 5405u, 1431u, 2025u, 2958u, 3823u, 5406u, 2477u, 3234u, 2502u, 2842u, 5407u, 3946u, 1590u, 2503u, 5410u, 5408u, 5411u, 4254u, 5409u, 3004u, 5412u, 3119u, 5413u, 1875u, 5415u, 5414u, 5416u, 5417u, 1876u, 3569u, 3217u, 1955u, 2504u, 3072u, 2691u, 1425u, 5418u, 1599u, 5422u, 10857u, 2278u, 5421u, 2360u, 2751u, 10860u, 5420u, 2752u, 4073u, 2359u, 1464u, 2959u, 10858u, 5427u, 10862u, 2930u, 1542u, 10863u, 2684u, 4017u, 2431u, 2753u, 10861u, 2920u, 10751u, 5426u, 5424u, 5425u, 10859u, 3270u, 5457u, 5431u, 2537u, 2279u, 5429u, 5430u, 2843u, 5428u, 2458u, 10865u, 10866u, 5433u, 5432u, 5437u, 5438u, 5434u, 10864u, 1693u, 5435u, 5436u, 3718u, 3824u, 2109u, 5439u, 10868u, 2931u, 2754u, 3245u, 2012u, 5440u, 5444u, 1640u, 5441u, 5443u, 5442u, 2706u, 3235u, 1446u, 5445u, 10869u, 5446u, 10870u, 3299u, 4310u, 2478u, 3928u, 10871u, 3976u, 5453u, 5448u, 5451u, 5450u, 10872u, 5447u, 5452u, 3539u, 5449u, 5454u, 2707u, 5455u, 4178u, 3659u, 5456u, 5458u, 5459u, 5460u, 2015u, 1543u, 2280u, 5461u, 5462u, 2712u, 3073u, 10873u, 10754u, 4661u, 3037u, 3036u, 3157u, 2388u, 4499u, 2145u, 4148u, 3947u, 3853u, 10874u, 5463u, 2432u, 3320u, 5464u, 4338u, 3977u, 3300u, 5465u, 1877u, 5466u, 5467u, 4099u, 4045u, 4033u, 4007u, 2448u, 5469u, 2612u, 3996u, 5471u, 5474u, 5473u, 1874u, 1943u, 5470u, 5472u, 5475u, 2908u, 4226u, 1450u, 2413u, 3129u, 2598u, 2808u, 5478u, 3429u, 5476u, 3112u, 5477u, 2807u, 4102u, 5479u, 5480u, 4207u, 10876u, 5485u, 2281u, 3624u, 5482u, 3459u, 5419u, 5423u, 1926u, 3610u, 5484u, 2755u, 3701u, 5490u, 3755u, 5481u, 5487u, 5486u, 2960u, 4024u, 4280u, 4018u, 1641u, 2505u, 4363u, 5489u, 2904u, 5488u, 5483u, 2208u, 5495u, 5493u, 1642u, 5491u, 5497u, 5503u, 10877u, 10879u, 3141u, 3886u, 5505u, 3761u, 5504u, 3651u, 3978u, 1812u, 3000u, 2663u, 3340u, 4149u, 5500u, 5499u, 5501u, 5498u, 5506u, 5496u, 5494u, 5502u, 5492u, 3271u, 4129u, 2575u, 2433u, 2375u, 4026u, 1724u, 10880u, 3335u, 3519u, 1544u, 2995u, 2933u, 2077u, 5508u, 2282u, 1783u, 5510u, 1775u, 5516u, 5513u, 2996u, 1734u, 2361u, 1733u, 2396u, 5511u, 2136u, 2110u, 3460u, 10881u, 5509u, 1447u, 5512u, 5514u, 2018u, 2079u, 10878u, 1813u, 1922u, 5517u, 2438u, 4028u, 2466u, 5518u, 3775u, 5530u, 1616u, 5519u, 5536u, 5520u, 4263u, 5527u, 3634u, 5535u, 5522u, 1429u, 5524u, 2283u, 5526u, 5525u, 5521u, 5532u, 2756u, 4870u, 2233u, 4227u, 5523u, 3373u, 1694u, 2362u, 5515u, 5531u, 1756u, 5529u, 5533u, 3461u, 1879u, 5563u, 10752u, 4082u, 5538u, 1878u, 5545u, 10882u, 3979u, 5546u, 5548u, 5552u, 5540u, 3205u, 3462u, 5556u, 5543u, 5553u, 5547u, 2844u, 5557u, 2932u, 5555u, 1814u, 4371u, 5537u, 5551u, 1465u, 5539u, 4067u, 5544u, 2821u, 3328u, 5534u, 5550u, 2909u, 5560u, 1772u, 2162u, 5562u, 5541u, 5561u, 5554u, 5542u, 5558u, 5559u, 5576u, 3523u, 5549u, 5572u, 5574u, 3345u, 4179u, 3845u, 5569u, 3143u, 5575u, 3038u, 5566u, 5579u, 5578u, 3556u, 5577u, 3551u, 10884u, 5581u, 5568u, 2013u, 5571u, 2692u, 3635u, 5573u, 2016u, 5565u, 5567u, 5564u, 4339u, 1749u, 5570u, 5580u, 1712u, 2420u, 1564u, 5597u, 4340u, 5600u, 10886u, 2845u, 5599u, 5598u, 5595u, 5583u, 5612u, 5582u, 5601u, 5593u, 5588u, 5585u, 5586u, 5594u, 7803u, 5591u, 2284u, 3329u, 3075u, 5589u, 5584u, 5587u, 4180u, 4021u, 5592u, 5602u, 10887u, 5610u, 5603u, 5616u, 5614u, 5609u, 5608u, 3337u, 3076u, 5606u, 5604u, 5611u, 5617u, 3750u, 5623u, 5618u, 5621u, 5615u, 3279u, 3783u, 5605u, 5613u, 2757u, 4088u, 5633u, 5620u, 2163u, 1600u, 1754u, 5596u, 10888u, 2758u, 5625u, 5632u, 2626u, 1773u, 3209u, 5622u, 10890u, 5627u, 5631u, 1995u, 1923u, 5629u, 1880u, 3520u, 5628u, 5630u, 10889u, 5624u, 10891u, 5626u, 10892u, 1755u, 3236u, 5637u, 5635u, 2234u, 5634u, 5640u, 5507u, 5636u, 5638u, 5639u, 5651u, 5647u, 5528u, 5646u, 5645u, 5642u, 5619u, 5644u, 5643u, 5649u, 4329u, 5652u, 2064u, 5648u, 5650u, 10893u, 10894u, 3672u, 5653u, 5657u, 5654u, 4218u, 5655u, 5607u, 5658u, 5659u, 1524u, 5661u, 2138u, 2538u, 2026u, 1601u, 4198u, 5663u, 5662u, 5665u, 1908u, 2027u, 1815u, 5668u, 5667u, 5669u, 1643u, 3218u, 5670u, 1816u, 5672u, 5671u, 5673u, 5674u, 5675u, 2506u, 2934u, 2350u, 3839u, 3919u, 4359u, 2528u, 2397u, 4311u, 5676u, 5677u, 2507u, 5678u, 5679u, 5681u, 5680u, 4003u, 2693u, 2613u, 2479u, 5682u, 5684u, 2822u, 5683u, 5685u, 5686u, 5687u, 5688u, 5689u, 5691u, 5690u, 5692u, 1602u, 3237u, 5693u, 2449u, 1735u, 5694u, 3417u, 4837u, 1882u, 5695u, 5696u, 3929u, 4019u, 3516u, 5697u, 3735u, 10895u, 3756u, 4092u, 5698u, 5700u, 5699u, 5702u, 5701u, 5704u, 2508u, 4058u, 5705u, 5706u, 1883u, 5707u, 5709u, 5708u, 2888u, 3784u, 1545u, 3702u, 10896u, 3374u, 2664u, 1944u, 3703u, 2551u, 5711u, 1817u, 1591u, 10897u, 3559u, 5710u, 2285u, 3246u, 5712u, 5720u, 5713u, 10899u, 3134u, 1945u, 5721u, 2139u, 1884u, 5719u, 5717u, 5714u, 4199u, 10898u, 3321u, 3534u, 5715u, 5723u, 5722u, 2070u, 1610u, 2376u, 5716u, 5718u, 4002u, 3185u, 4034u, 5731u, 5732u, 1644u, 3861u, 4134u, 5734u, 2540u, 2759u, 5727u, 5733u, 1575u, 1996u, 5724u, 5729u, 2997u, 3652u, 3736u, 5726u, 3948u, 5728u, 5737u, 10900u, 5735u, 5730u, 3949u, 3611u, 1946u, 3388u, 3272u, 5738u, 5736u, 3158u, 5725u, 1546u, 10901u, 4181u, 5749u, 5748u, 2999u, 5745u, 4211u, 3499u, 5739u, 3326u, 1547u, 2286u, 5742u, 2638u, 5747u, 5746u, 5741u, 5744u, 1763u, 5743u, 3612u, 4243u, 2809u, 2998u, 5755u, 5753u, 3804u, 5750u, 5752u, 1529u, 2287u, 4341u, 1720u, 3825u, 10903u, 4200u, 1695u, 2846u, 5754u, 5759u, 10902u, 2760u, 4151u, 5756u, 5751u, 5757u, 10904u, 4291u, 3466u, 3511u, 10905u, 1713u, 1556u, 5763u, 5766u, 4264u, 4203u, 5773u, 5767u, 5764u, 4281u, 5770u, 10906u, 2673u, 5772u, 5777u, 3464u, 5775u, 5769u, 3219u, 5776u, 5765u, 5771u, 5778u, 1501u, 5768u, 5779u, 2847u, 10908u, 2694u, 3858u, 2363u, 10907u, 5760u, 5774u, 3409u, 10909u, 2935u, 1764u, 2398u, 2761u, 5762u, 2665u, 2111u, 5761u, 5783u, 2708u, 2187u, 5798u, 5792u, 1963u, 3430u, 5787u, 5796u, 1424u, 1521u, 10912u, 1622u, 5789u, 3113u, 5780u, 5782u, 2288u, 5799u, 10910u, 5794u, 10913u, 5786u, 5793u, 4052u, 5791u, 5795u, 2209u, 2762u, 3220u, 10911u, 5785u, 4150u, 5788u, 5781u, 3465u, 5784u, 5790u, 4372u, 2567u, 4041u, 5800u, 3679u, 5812u, 2188u, 2695u, 5802u, 4244u, 2289u, 5815u, 1487u, 5813u, 5801u, 5807u, 5809u, 4182u, 5804u, 3397u, 5806u, 10914u, 5814u, 5808u, 4080u, 5803u, 2539u, 5827u, 1765u, 5805u, 5810u, 5811u, 3177u, 3159u, 5819u, 5825u, 5823u, 3392u, 5830u, 5820u, 5821u, 5797u, 1968u, 3785u, 2568u, 2342u, 4342u, 5817u, 5829u, 1576u, 3077u, 3660u, 1818u, 4319u, 4042u, 3339u, 5824u, 5826u, 3025u, 5828u, 5822u, 5816u, 1820u, 2140u, 5842u, 5837u, 3001u, 1758u, 2696u, 5846u, 5839u, 3301u, 5836u, 3346u, 5871u, 5833u, 5832u, 5841u, 5835u, 5834u, 5840u, 2914u, 5831u, 10915u, 5843u, 5844u, 1819u, 5849u, 5848u, 5850u, 5853u, 3418u, 5847u, 10916u, 5851u, 2134u, 3190u, 5845u, 3598u, 5852u, 5857u, 5855u, 5858u, 5861u, 5854u, 2329u, 3579u, 5758u, 4219u, 5856u, 5860u, 3186u, 5859u, 5838u, 10917u, 7404u, 5864u, 5868u, 5866u, 10918u, 10919u, 5862u, 5863u, 5867u, 5865u, 3805u, 5873u, 5870u, 5869u, 5872u, 3529u, 5874u, 3280u, 3178u, 10920u, 2918u, 5875u, 5877u, 5876u, 5818u, 5878u, 3548u, 5879u, 1645u, 3467u, 1696u, 1947u, 2599u, 2399u, 10921u, 4330u, 2889u, 1577u, 5881u, 5880u, 10922u, 5884u, 3221u, 5887u, 5882u, 5886u, 5885u, 3415u, 1466u, 10750u, 4314u, 5889u, 1511u, 5891u, 5890u, 5888u, 5883u, 3950u, 5893u, 10924u, 5892u, 10923u, 1578u, 5895u, 3871u, 5894u, 4062u, 2764u, 3026u, 2763u, 10926u, 10927u, 4320u, 5901u, 3002u, 5897u, 5902u, 1579u, 10925u, 5900u, 3636u, 5896u, 5899u, 2765u, 3714u, 5903u, 2586u, 3003u, 5906u, 5898u, 2074u, 5904u, 4183u, 5907u, 7807u, 2678u, 5908u, 5909u, 3585u, 5911u, 5912u, 10929u, 3590u, 3468u, 5914u, 5916u, 4282u, 5913u, 5915u, 1580u, 5910u, 4758u, 5917u, 3078u, 2467u, 5919u, 5918u, 2823u, 4662u, 5920u, 5922u, 5905u, 5921u, 10930u, 5923u, 3661u, 5924u, 5925u, 5926u, 5927u, 3351u, 5929u, 5928u, 5930u, 5931u, 2600u, 3826u, 4117u, 5932u, 5933u, 3061u, 2541u, 5934u, 5935u, 5936u, 3903u, 3704u, 5937u, 3626u, 3302u, 5938u, 1668u, 1956u, 4079u, 4063u, 1617u, 4343u, 3997u, 3863u, 2936u, 5939u, 3512u, 2164u, 5940u, 2401u, 5942u, 5941u, 5943u, 5944u, 5945u, 1909u, 5946u, 5947u, 2165u, 3705u, 10931u, 5949u, 2810u, 5948u, 10932u, 1997u, 5950u, 5952u, 5951u, 5953u, 2210u, 5954u, 2046u, 3039u, 2348u, 5956u, 5957u, 5955u, 2614u, 3517u, 1998u, 5959u, 3207u, 5958u, 4344u, 3637u, 5962u, 5964u, 5961u, 4093u, 5963u, 5965u, 4265u, 10933u, 5969u, 5968u, 3281u, 3584u, 2166u, 5967u, 5966u, 4152u, 4153u, 5970u, 1581u, 2341u, 2509u, 5971u, 5972u, 5974u, 2666u, 5976u, 5975u, 5977u, 1736u, 5979u, 10935u, 5978u, 5981u, 5980u, 2189u, 4237u, 2017u, 1603u, 2047u, 1850u, 4301u, 5983u, 5985u, 10936u, 5986u, 1646u, 5982u, 10937u, 2468u, 3322u, 5984u, 10940u, 10938u, 5989u, 2615u, 10939u, 5987u, 2097u, 3706u, 5988u, 6015u, 10942u, 5994u, 2190u, 1948u, 5991u, 4228u, 10941u, 4245u, 3187u, 5993u, 10943u, 10945u, 10944u, 10946u, 5995u, 4283u, 2028u, 3757u, 3613u, 5996u, 5998u, 6001u, 5997u, 6000u, 2235u, 1548u, 6002u, 2899u, 5999u, 4289u, 10947u, 6005u, 7805u, 6003u, 6006u, 5992u, 6004u, 2377u, 6007u, 6008u, 4229u, 10948u, 6009u, 6010u, 10949u, 5990u, 6011u, 1821u, 2542u, 6012u, 6013u, 6014u, 1530u, 6016u, 3786u, 6017u, 1789u, 6018u, 6019u, 6020u, 6022u, 6023u, 6021u, 3810u, 6025u, 6024u, 10950u, 6027u, 6026u, 6028u, 6029u, 6031u, 6030u, 2344u, 6033u, 6032u, 1822u, 2870u, 3411u, 6034u, 2937u, 2469u, 1592u, 6035u, 4184u, 3920u, 6036u, 10819u, 3419u, 4154u, 2290u, 2848u, 3238u, 4625u, 3303u, 1669u, 6037u, 6038u, 6043u, 6041u, 6040u, 5391u, 1697u, 6039u, 1467u, 3675u, 3707u, 4246u, 6044u, 6042u, 3255u, 2919u, 3676u, 3772u, 6046u, 4241u, 2112u, 6047u, 6045u, 3719u, 6048u, 6049u, 10951u, 1468u, 2811u, 6054u, 6051u, 3554u, 6050u, 1885u, 6057u, 6052u, 6053u, 6056u, 6055u, 3764u, 3041u, 3040u, 1910u, 6058u, 6059u, 6060u, 6062u, 6061u, 1557u, 6070u, 3737u, 6064u, 6066u, 6068u, 2849u, 6069u, 6067u, 2569u, 6063u, 6065u, 3793u, 2766u, 6072u, 6071u, 6073u, 2543u, 2364u, 3470u, 6074u, 3332u, 6076u, 4230u, 6075u, 3080u, 6081u, 6083u, 6084u, 3247u, 6082u, 6079u, 6077u, 6078u, 6080u, 6087u, 6085u, 6086u, 6088u, 6090u, 6091u, 6092u, 6093u, 6089u, 6095u, 6094u, 6096u, 4266u, 6099u, 6097u, 6098u, 1851u, 4135u, 3895u, 6101u, 6100u, 6102u, 6103u, 6107u, 6104u, 6105u, 6106u, 6108u, 6109u, 6110u, 6111u, 6112u, 3680u, 3431u, 6113u, 3653u, 3779u, 6114u, 10952u, 6115u, 3393u, 1698u, 2291u, 6116u, 6117u, 6118u, 2452u, 6120u, 6119u, 6121u, 6122u, 10955u, 10953u, 10954u, 10956u, 3738u, 6123u, 6124u, 7780u, 6125u, 6126u, 6127u, 2457u, 6128u, 3625u, 4010u, 1549u, 1558u, 6129u, 6131u, 6130u, 3463u, 2938u, 5664u, 6132u, 4074u, 6133u, 1823u, 3720u, 6134u, 6135u, 6136u, 4101u, 4094u, 3319u, 3081u, 6138u, 2697u, 2767u, 6141u, 6140u, 6139u, 3758u, 1824u, 2170u, 6147u, 6144u, 2850u, 4059u, 6143u, 6145u, 6146u, 6142u, 6148u, 6149u, 3304u, 1852u, 3264u, 10958u, 6150u, 6151u, 6154u, 2890u, 3513u, 6155u, 3998u, 6152u, 6153u, 6158u, 6157u, 6156u, 6160u, 6159u, 6161u, 6163u, 6162u, 3898u, 2685u, 4267u, 6164u, 3500u, 6165u, 6166u, 6170u, 6168u, 6169u, 6167u, 6171u, 6172u, 6173u, 6174u, 4064u, 6175u, 4121u, 6176u, 3241u, 3645u, 2048u, 3222u, 6177u, 1999u, 2961u, 6178u, 2378u, 6179u, 6180u, 2167u, 2402u, 6182u, 10960u, 3437u, 2403u, 1925u, 3951u, 3614u, 3438u, 2315u, 6184u, 10961u, 2768u, 10962u, 4247u, 2292u, 2168u, 3668u, 6186u, 10963u, 6188u, 2236u, 6187u, 3375u, 6190u, 1714u, 6185u, 3739u, 1519u, 2425u, 4373u, 6189u, 6191u, 3896u, 2970u, 6193u, 6194u, 6192u, 1737u, 6200u, 6199u, 2544u, 6201u, 6196u, 6202u, 6197u, 3721u, 6195u, 6198u, 6205u, 6204u, 4012u, 6203u, 1484u, 6207u, 6206u, 2769u, 6208u, 3042u, 6210u, 6209u, 6211u, 6181u, 6183u, 6213u, 6212u, 10964u, 2545u, 4302u, 2587u, 6214u, 2090u, 1911u, 1886u, 2510u, 4155u, 6220u, 6219u, 3043u, 6216u, 6218u, 2674u, 2851u, 6217u, 6215u, 3581u, 2770u, 3787u, 2404u, 3471u, 6221u, 6222u, 6244u, 2029u, 4352u, 3028u, 6223u, 1647u, 3376u, 3854u, 10968u, 10970u, 6224u, 1969u, 6225u, 6227u, 6228u, 3580u, 6229u, 6230u, 6231u, 2030u, 1648u, 3514u, 2639u, 2511u, 6232u, 2640u, 1639u, 3794u, 6233u, 3740u, 3044u, 6236u, 6237u, 3644u, 2852u, 6234u, 3260u, 6235u, 2771u, 1469u, 1888u, 6238u, 3377u, 6239u, 2952u, 4054u, 3762u, 6240u, 6241u, 3248u, 4268u, 6243u, 6242u, 2616u, 6245u, 1489u, 6248u, 6246u, 1649u, 2113u, 6247u, 2293u, 2337u, 3923u, 6249u, 3999u, 6251u, 2962u, 1550u, 1623u, 1421u, 6250u, 6252u, 6253u, 2812u, 6254u, 1738u, 6256u, 2141u, 1949u, 6257u, 2058u, 6258u, 3005u, 3522u, 2977u, 2434u, 6259u, 3261u, 3082u, 6261u, 6263u, 6260u, 6262u, 2069u, 6264u, 2073u, 1950u, 4185u, 6266u, 6267u, 1517u, 6270u, 1777u, 6269u, 6268u, 6272u, 6265u, 6273u, 4238u, 6274u, 6275u, 10971u, 4877u, 6277u, 6276u, 6278u, 6279u, 4250u, 6280u, 7504u, 2772u, 6281u, 6282u, 2686u, 3501u, 6283u, 10972u, 3203u, 10974u, 6284u, 3223u, 6285u, 1978u, 4542u, 3256u, 2556u, 1825u, 6286u, 6299u, 6289u, 1951u, 6288u, 6301u, 6287u, 2773u, 6291u, 6292u, 3394u, 6293u, 1753u, 2877u, 3827u, 6295u, 3173u, 6290u, 6294u, 6296u, 2440u, 6303u, 3773u, 3671u, 3472u, 2031u, 6302u, 6300u, 3686u, 6297u, 3257u, 3474u, 3473u, 2435u, 6321u, 6305u, 6307u, 6310u, 6311u, 6308u, 6309u, 6306u, 6304u, 6298u, 3900u, 1650u, 6318u, 6315u, 6320u, 6319u, 3654u, 4048u, 2470u, 6313u, 6322u, 6317u, 6316u, 6312u, 10975u, 6314u, 1826u, 3224u, 3006u, 3667u, 6327u, 3669u, 2978u, 6324u, 3712u, 6328u, 3904u, 3254u, 6323u, 6325u, 6326u, 6329u, 2573u, 3515u, 6334u, 6333u, 6330u, 4345u, 6339u, 6343u, 6340u, 6336u, 6337u, 6342u, 6331u, 4658u, 6338u, 6332u, 6341u, 6347u, 1827u, 6344u, 6345u, 6346u, 6349u, 6348u, 3751u, 6350u, 4321u, 3930u, 6355u, 6352u, 6351u, 2963u, 6354u, 6356u, 6353u, 6360u, 6357u, 6358u, 6335u, 6359u, 6361u, 6362u, 3891u, 6363u, 4107u, 2019u, 2076u, 6364u, 3873u, 2891u, 4057u, 6365u, 4248u, 3655u, 3045u, 3591u, 2676u, 1441u, 6370u, 6368u, 6366u, 1786u, 2774u, 6371u, 6369u, 6367u, 6375u, 6374u, 6373u, 6372u, 6376u, 6377u, 2939u, 6378u, 6380u, 6379u, 2211u, 3031u, 6382u, 3475u, 6381u, 6383u, 3874u, 3083u, 2294u, 6384u, 4269u, 6386u, 6387u, 6388u, 6389u, 2512u, 6390u, 2114u, 1953u, 1889u, 6392u, 4124u, 2295u, 6391u, 6395u, 4111u, 3599u, 3778u, 2698u, 6394u, 2588u, 2296u, 2513u, 1952u, 3875u, 6393u, 3046u, 3981u, 2436u, 2514u, 3350u, 6398u, 4292u, 2406u, 6399u, 2853u, 6401u, 2775u, 2365u, 6400u, 2641u, 2191u, 3047u, 6396u, 6402u, 10977u, 6397u, 2115u, 6405u, 6409u, 2142u, 6404u, 6413u, 10978u, 2297u, 4212u, 1437u, 6410u, 1954u, 6407u, 6408u, 3476u, 6406u, 6403u, 1699u, 2981u, 2169u, 6415u, 6412u, 6414u, 6411u, 2116u, 3120u, 6416u, 3085u, 6429u, 10980u, 6425u, 6419u, 6423u, 2627u, 1470u, 6418u, 6426u, 6430u, 2298u, 4095u, 3343u, 6420u, 10979u, 6428u, 6417u, 3225u, 6422u, 1438u, 4083u, 6421u, 2032u, 3741u, 3084u, 4277u, 2710u, 6469u, 10981u, 6431u, 3007u, 6427u, 6432u, 6434u, 3378u, 6437u, 6433u, 3905u, 1828u, 4084u, 1471u, 6436u, 4322u, 6435u, 1582u, 3553u, 6438u, 6445u, 6439u, 6446u, 6442u, 3662u, 2579u, 6444u, 6441u, 6447u, 6440u, 2667u, 3952u, 2675u, 6443u, 6455u, 6451u, 6454u, 6452u, 6456u, 6450u, 6424u, 2964u, 3708u, 6453u, 6448u, 3008u, 2117u, 2642u, 10982u, 2824u, 3029u, 6459u, 6461u, 6462u, 6458u, 6460u, 6449u, 6457u, 6465u, 6464u, 4037u, 2078u, 6463u, 6467u, 6466u, 6470u, 6472u, 2471u, 6468u, 6473u, 6474u, 10744u, 6475u, 6481u, 3410u, 6477u, 6476u, 6478u, 6479u, 6480u, 6482u, 6483u, 1829u, 6484u, 6485u, 6486u, 10983u, 6487u, 6488u, 6489u, 6490u, 6491u, 6493u, 6492u, 6494u, 6495u, 6496u, 6499u, 6497u, 6498u, 2414u, 2118u, 3249u, 3684u, 2711u, 3616u, 3742u, 6500u, 5246u, 6501u, 6503u, 4204u, 6502u, 6505u, 6504u, 4186u, 6506u, 3759u, 6507u, 6510u, 6509u, 6508u, 10984u, 6511u, 2085u, 3009u, 1912u, 6515u, 6512u, 6513u, 6516u, 6517u, 6514u, 1512u, 1604u, 6519u, 6520u, 6521u, 4201u, 2643u, 6523u, 6522u, 2892u, 6524u, 6525u, 6526u, 1854u, 1830u, 6527u, 6528u, 4008u, 4202u, 4187u, 4346u, 2300u, 6531u, 2589u, 6530u, 6532u, 2546u, 3150u, 6533u, 2299u, 4096u, 6534u, 6535u, 6536u, 6537u, 6538u, 2547u, 4118u, 6540u, 3226u, 6539u, 6542u, 6541u, 6543u, 2940u, 6544u, 6545u, 3878u, 6546u, 3086u, 6547u, 6548u, 4323u, 6551u, 6550u, 6549u, 3305u, 6552u, 2825u, 6553u, 6554u, 4347u, 6555u, 6556u, 6558u, 6557u, 3670u, 3566u, 4353u, 3674u, 6560u, 2776u, 3769u, 6561u, 6559u, 1831u, 2213u, 2515u, 3743u, 2171u, 3982u, 6564u, 6562u, 2301u, 2302u, 1482u, 2421u, 3628u, 1472u, 6569u, 3227u, 3627u, 3160u, 6571u, 6567u, 6570u, 6565u, 6568u, 3953u, 2214u, 1502u, 6566u, 6573u, 6574u, 3502u, 2000u, 6585u, 3600u, 2516u, 2001u, 2953u, 4361u, 4055u, 6572u, 2965u, 1930u, 6575u, 6577u, 6576u, 6578u, 3201u, 3601u, 3306u, 6582u, 6581u, 6579u, 2872u, 3828u, 6584u, 6583u, 2303u, 4374u, 6600u, 6588u, 6589u, 2617u, 6587u, 2343u, 6586u, 6590u, 3307u, 3855u, 3010u, 3161u, 6594u, 6595u, 6591u, 6592u, 6593u, 2304u, 6601u, 6597u, 3829u, 4023u, 3767u, 6596u, 6599u, 6598u, 3983u, 6602u, 6603u, 3030u, 6604u, 6606u, 6610u, 6607u, 6605u, 3602u, 6608u, 6609u, 1615u, 6616u, 6611u, 6612u, 6613u, 3102u, 6615u, 6614u, 6617u, 6618u, 6619u, 2854u, 1670u, 6620u, 4284u, 2548u, 2644u, 2517u, 3250u, 6621u, 6622u, 1520u, 6623u, 6624u, 6625u, 6626u, 6627u, 2002u, 5367u, 6628u, 2982u, 6629u, 2580u, 6630u, 4433u, 6631u, 3915u, 1845u, 3011u, 2687u, 3840u, 2645u, 6632u, 2305u, 6633u, 3709u, 6647u, 6635u, 3142u, 3656u, 2192u, 6634u, 3012u, 6636u, 3379u, 6638u, 6637u, 6640u, 6639u, 6641u, 6643u, 6642u, 1832u, 6644u, 6645u, 6646u, 2366u, 4270u, 6648u, 2826u, 1583u, 6649u, 6650u, 6651u, 1491u, 6652u, 6653u, 3830u, 2576u, 6655u, 1700u, 1427u, 6654u, 6657u, 3617u, 2855u, 1651u, 3954u, 2128u, 2033u, 6656u, 1671u, 1788u, 1584u, 6661u, 4303u, 3162u, 3795u, 6673u, 1652u, 6671u, 6669u, 6660u, 6658u, 6659u, 2604u, 2049u, 3282u, 3526u, 1552u, 6663u, 6662u, 6668u, 6664u, 6667u, 10986u, 4089u, 6666u, 1653u, 1784u, 6670u, 6672u, 2119u, 6676u, 6685u, 6686u, 1420u, 6693u, 1490u, 6684u, 6683u, 6678u, 6677u, 6675u, 6674u, 3262u, 3192u, 6680u, 6679u, 6682u, 3087u, 2120u, 1536u, 6681u, 2306u, 3088u, 10987u, 6699u, 6700u, 1654u, 1611u, 6697u, 10988u, 6687u, 6695u, 6702u, 6696u, 6694u, 6665u, 6692u, 6688u, 1833u, 6690u, 6701u, 6691u, 6703u, 6689u, 3663u, 4208u, 6698u, 6720u, 6712u, 2910u, 10989u, 1917u, 2034u, 6707u, 1656u, 2777u, 6710u, 2407u, 3432u, 6715u, 3931u, 6706u, 1655u, 2215u, 3768u, 6716u, 6704u, 10990u, 6713u, 6723u, 6708u, 6709u, 3503u, 6714u, 6711u, 3955u, 6717u, 1473u, 6705u, 6719u, 6718u, 3646u, 6725u, 6736u, 1785u, 6739u, 6721u, 6726u, 4213u, 6735u, 10991u, 4188u, 4239u, 3283u, 1766u, 3841u, 6741u, 3478u, 1426u, 6734u, 6730u, 3089u, 6724u, 6732u, 6737u, 3583u, 1419u, 6729u, 6738u, 3847u, 6733u, 6728u, 2778u, 2646u, 2549u, 4097u, 3798u, 6744u, 6753u, 6731u, 1778u, 10992u, 2813u, 6742u, 6747u, 3090u, 6743u, 6750u, 3258u, 6751u, 4189u, 6740u, 1715u, 6746u, 6749u, 4053u, 6752u, 6745u, 6748u, 10748u, 3956u, 4324u, 6756u, 6763u, 6755u, 2572u, 6722u, 3899u, 4043u, 6762u, 6761u, 6757u, 6758u, 1525u, 6760u, 6754u, 3342u, 6759u, 1503u, 3103u, 3888u, 6764u, 6768u, 3722u, 6767u, 2779u, 2578u, 6770u, 2003u, 10993u, 6771u, 3848u, 6766u, 10994u, 6727u, 6765u, 4370u, 3479u, 3842u, 10995u, 6778u, 6784u, 6785u, 6772u, 3657u, 6782u, 6774u, 6776u, 6786u, 6775u, 6779u, 1585u, 3546u, 6780u, 6783u, 6773u, 3013u, 6777u, 2450u, 2856u, 2083u, 4125u, 4130u, 2713u, 10997u, 6790u, 6788u, 4369u, 6787u, 4220u, 6789u, 6791u, 6792u, 6795u, 6793u, 3480u, 6794u, 3710u, 6781u, 2714u, 6796u, 6801u, 3091u, 6800u, 6769u, 6802u, 3048u, 6797u, 6799u, 6798u, 5656u, 5641u, 6804u, 6803u, 4221u, 6137u, 6805u, 6806u, 6807u, 2216u, 1931u, 6809u, 4572u, 1964u, 4255u, 2056u, 6810u, 6811u, 3273u, 6812u, 3567u, 1435u, 1664u, 6817u, 6818u, 6813u, 2472u, 6814u, 3605u, 6815u, 6816u, 6826u, 6820u, 6823u, 6819u, 6821u, 6822u, 2593u, 6824u, 3228u, 2121u, 1725u, 6827u, 1722u, 6832u, 6828u, 6831u, 3691u, 6829u, 6830u, 3799u, 3723u, 6833u, 3194u, 6843u, 6839u, 1672u, 6837u, 3957u, 6838u, 6835u, 6836u, 6841u, 6844u, 6842u, 6840u, 6834u, 3251u, 6851u, 4051u, 6849u, 6850u, 6845u, 6847u, 6848u, 6846u, 2983u, 4348u, 6855u, 6856u, 6862u, 2829u, 6858u, 6861u, 6853u, 6852u, 6863u, 1657u, 6859u, 6864u, 6860u, 6857u, 3308u, 6854u, 3643u, 6868u, 4162u, 6867u, 6866u, 6875u, 6869u, 6877u, 4205u, 6880u, 6871u, 6872u, 6876u, 6879u, 6878u, 6870u, 6873u, 6890u, 6883u, 6881u, 6882u, 6887u, 6888u, 1701u, 1913u, 6886u, 6865u, 11000u, 6885u, 6889u, 6884u, 6891u, 6893u, 6892u, 6895u, 6894u, 6825u, 6899u, 6896u, 6897u, 6898u, 6900u, 2143u, 6902u, 6901u, 2647u, 2307u, 5740u, 6903u, 2680u, 1716u, 6904u, 1553u, 2780u, 6905u, 2308u, 6906u, 1474u, 3788u, 6907u, 2893u, 6914u, 6911u, 3274u, 6912u, 6909u, 2035u, 6908u, 6915u, 2089u, 3163u, 6921u, 6917u, 3122u, 6916u, 6919u, 6910u, 6920u, 6922u, 3744u, 6918u, 6923u, 6925u, 2212u, 6913u, 1442u, 6924u, 2408u, 4315u, 6926u, 6927u, 3092u, 4231u, 6928u, 4156u, 6929u, 6930u, 3921u, 6931u, 2381u, 4232u, 6936u, 6937u, 2781u, 6935u, 11001u, 4206u, 6932u, 6934u, 2942u, 2913u, 6933u, 6938u, 3856u, 6940u, 6939u, 1767u, 3958u, 6941u, 10745u, 6953u, 6943u, 6944u, 6945u, 6946u, 6950u, 6951u, 6949u, 6947u, 6942u, 6948u, 6952u, 7448u, 1605u, 6955u, 2036u, 6954u, 6957u, 6956u, 6959u, 6958u, 6960u, 2648u, 6961u, 6962u, 6963u, 2943u, 4190u, 6964u, 3857u, 3609u, 6965u, 6966u, 2172u, 1891u, 6967u, 2518u, 3604u, 6968u, 1739u, 6969u, 6971u, 4222u, 6970u, 2857u, 6972u, 6973u, 6974u, 1834u, 6975u, 6976u, 6977u, 6978u, 1740u, 6979u, 6980u, 6981u, 1679u, 2827u, 6982u, 6983u, 6984u, 2193u, 3380u, 6985u, 2122u, 2873u, 6988u, 3481u, 6987u, 11002u, 2084u, 6986u, 3188u, 1892u, 6989u, 6990u, 2782u, 2144u, 6991u, 3959u, 2976u, 1965u, 4126u, 3049u, 6992u, 11003u, 2858u, 3275u, 2783u, 6993u, 6996u, 6997u, 2379u, 3135u, 6995u, 2784u, 3789u, 6994u, 2519u, 1554u, 7001u, 2123u, 2521u, 2520u, 4368u, 7000u, 6999u, 3014u, 1924u, 4358u, 1717u, 2785u, 11004u, 6998u, 7003u, 7004u, 7002u, 2217u, 4167u, 2522u, 3578u, 7007u, 2945u, 3229u, 4157u, 7010u, 2237u, 2944u, 7006u, 7011u, 2238u, 7008u, 7009u, 11005u, 7005u, 2979u, 3518u, 3210u, 1658u, 3745u, 1914u, 11006u, 3309u, 7014u, 7012u, 3239u, 2946u, 1835u, 7013u, 2878u, 4271u, 4355u, 7015u, 7026u, 3310u, 7025u, 11007u, 7022u, 7030u, 7023u, 7019u, 3381u, 7018u, 7016u, 4136u, 2523u, 7020u, 7017u, 11009u, 7024u, 2715u, 2194u, 3191u, 3984u, 1561u, 1475u, 3482u, 7028u, 7027u, 3547u, 7032u, 7021u, 7031u, 7033u, 2173u, 7029u, 2309u, 2590u, 7034u, 4191u, 7037u, 7040u, 7038u, 3780u, 7035u, 2037u, 7039u, 7041u, 7045u, 7042u, 7044u, 7043u, 11010u, 7046u, 2554u, 7048u, 7047u, 3831u, 7050u, 2124u, 7049u, 7051u, 7052u, 1915u, 6518u, 2814u, 7053u, 2239u, 7054u, 11011u, 7055u, 2473u, 5403u, 7056u, 7057u, 2649u, 7058u, 7059u, 7060u, 7061u, 7062u, 3206u, 7063u, 7065u, 7064u, 3483u, 7066u, 3960u, 7067u, 7068u, 7069u, 7070u, 3535u, 2786u, 7071u, 2330u, 4431u, 7072u, 7073u, 3790u, 7074u, 7082u, 7075u, 7077u, 7076u, 7078u, 3985u, 7079u, 7080u, 7081u, 7083u, 1704u, 3360u, 3832u, 2415u, 2310u, 3806u, 1660u, 3711u, 7086u, 1836u, 2966u, 7085u, 7090u, 3284u, 4108u, 7088u, 7089u, 1893u, 7091u, 3638u, 3164u, 3746u, 3412u, 7087u, 3986u, 1673u, 7093u, 4331u, 3323u, 4360u, 2524u, 7092u, 3118u, 7109u, 3015u, 3565u, 3807u, 7096u, 2474u, 2525u, 2787u, 3640u, 2174u, 7095u, 7094u, 3833u, 2570u, 3433u, 11012u, 11013u, 7098u, 7099u, 2311u, 7097u, 7100u, 7101u, 7103u, 3104u, 7102u, 1855u, 7105u, 7104u, 7106u, 11014u, 7108u, 7110u, 7111u, 2967u, 2584u, 7112u, 1741u, 7113u, 3093u, 7114u, 7115u, 3834u, 11015u, 1894u, 7116u, 3311u, 1562u, 7117u, 2618u, 2905u, 3114u, 7120u, 7119u, 7118u, 7126u, 7124u, 7121u, 7123u, 7122u, 7125u, 1966u, 7129u, 2968u, 7130u, 2218u, 7127u, 7128u, 4332u, 3312u, 3016u, 7131u, 7134u, 7132u, 7133u, 4192u, 3484u, 7137u, 7135u, 7136u, 7138u, 7152u, 7141u, 7142u, 7140u, 7139u, 3382u, 7144u, 7148u, 7145u, 7143u, 7146u, 7147u, 7154u, 7149u, 2969u, 7151u, 7153u, 7150u, 7156u, 2650u, 7155u, 7157u, 7158u, 7161u, 7160u, 7159u, 7163u, 7162u, 4127u, 7165u, 7164u, 7166u, 7167u, 7169u, 7168u, 2859u, 7170u, 2050u, 7171u, 7173u, 7174u, 7175u, 7172u, 7176u, 2591u, 7177u, 1895u, 2086u, 11017u, 2175u, 7178u, 3557u, 3413u, 7179u, 7182u, 2557u, 7181u, 7180u, 2125u, 7183u, 1742u, 7185u, 2409u, 7184u, 7193u, 7187u, 7189u, 3922u, 7186u, 7188u, 7192u, 7190u, 1896u, 7191u, 7194u, 3629u, 4285u, 2651u, 7195u, 4137u, 7197u, 7196u, 7200u, 4168u, 7199u, 1768u, 7198u, 7203u, 7202u, 7201u, 3401u, 7204u, 7205u, 7206u, 2331u, 2072u, 7207u, 7208u, 7209u, 2860u, 7210u, 2550u, 7211u, 7212u, 4606u, 4605u, 7213u, 6471u, 7214u, 3199u, 2830u, 3603u, 7215u, 3906u, 3341u, 2349u, 3204u, 1513u, 4035u, 2874u, 2129u, 2038u, 3907u, 7216u, 7218u, 7217u, 1661u, 3563u, 7219u, 3658u, 3402u, 7220u, 2681u, 7222u, 4075u, 7237u, 7224u, 7225u, 3330u, 3165u, 3094u, 3485u, 7223u, 1932u, 7232u, 7229u, 7242u, 3486u, 3259u, 7226u, 3383u, 3434u, 7227u, 7231u, 2883u, 3642u, 3333u, 2947u, 7230u, 3115u, 3105u, 7228u, 1418u, 4325u, 7233u, 3166u, 2652u, 2861u, 7235u, 7234u, 1488u, 7236u, 3774u, 7244u, 3536u, 2894u, 3252u, 2061u, 7243u, 4158u, 1534u, 3908u, 1662u, 7238u, 7239u, 7240u, 7241u, 3504u, 3198u, 1476u, 7245u, 7246u, 7804u, 3130u, 7247u, 1586u, 3051u, 2176u, 4193u, 11020u, 7248u, 3395u, 3095u, 2592u, 7249u, 7252u, 2700u, 7250u, 3018u, 3017u, 1477u, 4272u, 7254u, 3747u, 7256u, 7255u, 7253u, 6271u, 1837u, 7221u, 7258u, 7257u, 7259u, 4159u, 3542u, 3961u, 7260u, 2594u, 7261u, 7262u, 7263u, 3384u, 1483u, 2312u, 4349u, 7267u, 11021u, 2087u, 7264u, 7265u, 3843u, 1743u, 4160u, 2004u, 3435u, 7268u, 7269u, 11023u, 7270u, 11024u, 3385u, 7272u, 7271u, 3528u, 7273u, 2653u, 2601u, 3630u, 3276u, 2619u, 2895u, 7274u, 7275u, 2880u, 7276u, 7277u, 7278u, 4214u, 2654u, 7280u, 7279u, 2313u, 2338u, 2475u, 7283u, 2701u, 7282u, 7281u, 3174u, 2240u, 2948u, 3681u, 2656u, 7284u, 2788u, 7287u, 7285u, 7286u, 7289u, 7288u, 2815u, 7290u, 7291u, 7292u, 3713u, 2400u, 2602u, 7293u, 7294u, 4233u, 2668u, 4119u, 4273u, 7295u, 2039u, 7296u, 11026u, 3386u, 11025u, 7299u, 1779u, 2862u, 11027u, 7297u, 7298u, 3353u, 11030u, 11031u, 4000u, 2065u, 11028u, 11029u, 7301u, 7302u, 7300u, 7304u, 11032u, 11034u, 3540u, 1726u, 11033u, 7308u, 7305u, 7307u, 7303u, 7378u, 7306u, 4304u, 2219u, 11041u, 11035u, 11037u, 7316u, 11036u, 3403u, 7311u, 7314u, 7312u, 7317u, 11038u, 7318u, 11040u, 7310u, 11039u, 7323u, 1587u, 7309u, 3678u, 7313u, 2789u, 11042u, 2314u, 11044u, 11045u, 3987u, 2041u, 2669u, 3505u, 10747u, 3020u, 7321u, 7315u, 7320u, 4076u, 3313u, 7322u, 7319u, 11043u, 3019u, 7326u, 7325u, 7324u, 11049u, 3962u, 11053u, 11051u, 11047u, 11048u, 11052u, 2722u, 11046u, 7327u, 3916u, 1555u, 3797u, 3277u, 1967u, 10753u, 7329u, 11056u, 2316u, 11059u, 11061u, 2455u, 7328u, 2896u, 2897u, 7332u, 7334u, 11060u, 11058u, 2816u, 11055u, 7333u, 7335u, 11054u, 2024u, 3796u, 2603u, 4326u, 7331u, 2437u, 4354u, 7337u, 7336u, 7338u, 7330u, 10746u, 3550u, 3436u, 3344u, 7343u, 11063u, 3230u, 7339u, 7340u, 2080u, 7342u, 11062u, 2177u, 7341u, 2790u, 1780u, 7347u, 2380u, 3096u, 3331u, 11064u, 1718u, 7345u, 7346u, 3324u, 7344u, 7348u, 7354u, 11065u, 7357u, 7356u, 3396u, 7349u, 7350u, 7353u, 7355u, 11066u, 2005u, 7358u, 7352u, 7351u, 11067u, 7362u, 7363u, 7364u, 7361u, 7360u, 2791u, 3487u, 7359u, 7368u, 7366u, 11068u, 7367u, 7365u, 3189u, 7369u, 7370u, 7372u, 11069u, 11070u, 1838u, 7371u, 4131u, 7383u, 7373u, 7376u, 7374u, 7375u, 7377u, 7379u, 7380u, 7381u, 7384u, 7382u, 7385u, 7387u, 7386u, 3314u, 4112u, 7388u, 3021u, 7389u, 3889u, 7390u, 1702u, 1531u, 1840u, 11071u, 1839u, 7391u, 7392u, 7393u, 7394u, 7395u, 1841u, 1744u, 2317u, 3687u, 7397u, 7396u, 7398u, 1563u, 7401u, 7400u, 7399u, 7402u, 7405u, 1448u, 7403u, 7407u, 7406u, 7409u, 7408u, 7410u, 3491u, 7411u, 7412u, 7414u, 7413u, 3835u, 7415u, 7416u, 2418u, 7417u, 7418u, 3988u, 3050u, 1413u, 3144u, 7419u, 3836u, 7422u, 7420u, 2318u, 7421u, 2195u, 3890u, 7424u, 7426u, 7425u, 7427u, 1504u, 2875u, 2723u, 1842u, 7428u, 3641u, 7430u, 1505u, 7429u, 3325u, 4274u, 3488u, 7423u, 4235u, 2178u, 4194u, 2062u, 4249u, 2075u, 3167u, 6580u, 7431u, 1703u, 2898u, 1745u, 7433u, 7434u, 7432u, 2135u, 2410u, 2792u, 11074u, 1506u, 4286u, 7436u, 7251u, 7435u, 11075u, 7439u, 7437u, 7438u, 7440u, 7441u, 4305u, 7442u, 7443u, 2954u, 3692u, 2912u, 1856u, 4161u, 1674u, 2655u, 2220u, 7446u, 7445u, 2526u, 7447u, 7444u, 2451u, 7451u, 6874u, 4659u, 2906u, 7449u, 4234u, 3558u, 1514u, 2980u, 2559u, 3876u, 1535u, 4306u, 4210u, 7452u, 3420u, 2628u, 7453u, 7454u, 2863u, 7455u, 4307u, 7450u, 7457u, 7459u, 7458u, 7456u, 7460u, 7461u, 3097u, 1663u, 7462u, 4065u, 7463u, 7464u, 4333u, 11076u, 5468u, 7465u, 11077u, 7466u, 7467u, 7471u, 11078u, 7468u, 7469u, 7470u, 7472u, 11079u, 11080u, 11081u, 2949u, 11082u, 4128u, 2950u, 7473u, 3748u, 7474u, 7758u, 4085u, 7475u, 7476u, 7477u, 1746u, 7479u, 2876u, 7480u, 2071u, 7481u, 7485u, 7483u, 7484u, 1774u, 7482u, 7486u, 7487u, 1449u, 7488u, 7489u, 2793u, 7490u, 1918u, 7493u, 7492u, 7491u, 7036u, 3913u, 7494u, 7495u, 7496u, 7497u, 7498u, 7499u, 1843u, 7500u, 7501u, 3574u, 7503u, 1624u, 7506u, 7505u, 1507u, 2006u, 3892u, 3315u, 2351u, 2319u, 2702u, 2879u, 7508u, 7507u, 4169u, 1857u, 3715u, 3537u, 2911u, 4275u, 2126u, 7511u, 7510u, 3990u, 3489u, 1551u, 7512u, 7509u, 3808u, 4209u, 7513u, 7514u, 7516u, 3175u, 1750u, 1751u, 7515u, 1858u, 2179u, 11083u, 1859u, 3414u, 4293u, 11084u, 2221u, 7517u, 7518u, 7519u, 7520u, 7522u, 7521u, 3846u, 7523u, 7524u, 7525u, 7526u, 7528u, 7527u, 7529u, 3749u, 6529u, 2828u, 1897u, 7530u, 7531u, 4617u, 5666u, 3716u, 1500u, 1436u, 2527u, 3963u, 2819u, 7532u, 4104u, 7533u, 4195u, 1537u, 2476u, 7534u, 1675u, 7535u, 7536u, 7538u, 7539u, 7541u, 7537u, 7540u, 11087u, 1844u, 7542u, 7543u, 7544u, 7545u, 7546u, 7548u, 7547u, 7550u, 7553u, 7549u, 7551u, 7552u, 7554u, 2007u, 2620u, 7555u, 7556u, 2320u, 11089u, 7557u, 1721u, 3618u, 7558u, 7559u, 3253u, 3552u, 7560u, 3664u, 3145u, 1559u, 2051u, 2052u, 3278u, 7565u, 2053u, 1676u, 7564u, 7562u, 7563u, 7561u, 7575u, 7566u, 7567u, 7568u, 7569u, 7571u, 7570u, 2688u, 7572u, 7574u, 1898u, 7573u, 3098u, 2180u, 7576u, 3146u, 7577u, 3490u, 7578u, 7583u, 7581u, 7580u, 7582u, 7579u, 7585u, 11090u, 7584u, 7587u, 2008u, 7586u, 7588u, 7589u, 7591u, 7590u, 7592u, 7594u, 7593u, 2347u, 7595u, 7596u, 1719u, 7597u, 7598u, 2900u, 7599u, 7600u, 7601u, 7602u, 2321u, 11091u, 11092u, 7603u, 7604u, 7605u, 7606u, 7607u, 3682u, 7609u, 3765u, 7610u, 7608u, 7612u, 7611u, 7613u, 7614u, 7615u, 7616u, 7617u, 7618u, 7619u, 7620u, 7621u, 7622u, 7623u, 7624u, 7625u, 7626u, 7627u, 5660u, 7628u, 6385u, 1899u, 1692u, 2367u, 7630u, 7629u, 4046u, 7632u, 7633u, 7631u, 7634u, 4013u, 7635u, 1970u, 4328u, 11094u, 7636u, 11093u, 7638u, 1439u, 11095u, 7639u, 3864u, 7637u, 7640u, 7641u, 7642u, 7643u, 7644u, 4025u, 2456u, 2439u, 3022u, 11096u, 7645u, 7648u, 11097u, 7646u, 7649u, 2242u, 7647u, 7650u, 7651u, 7652u, 7656u, 2453u, 3169u, 7657u, 7654u, 7653u, 7655u, 2130u, 7661u, 7660u, 7659u, 1428u, 11098u, 7671u, 7667u, 7668u, 7664u, 7670u, 7666u, 1757u, 4367u, 7669u, 7665u, 7663u, 7662u, 7673u, 7676u, 7675u, 7674u, 3800u, 7672u, 1492u, 7677u, 7679u, 1770u, 7658u, 1526u, 7681u, 7680u, 7678u, 3208u, 4027u, 4287u, 7682u, 7683u, 7684u, 7685u, 7686u, 3316u, 7687u, 3688u, 7692u, 7688u, 7689u, 3964u, 4077u, 3525u, 7693u, 7694u, 3507u, 7691u, 7690u, 1607u, 7702u, 7701u, 1588u, 7699u, 7698u, 7696u, 1782u, 7695u, 2555u, 1606u, 2322u, 7705u, 7704u, 7703u, 7700u, 7706u, 7707u, 7712u, 7711u, 7713u, 1516u, 7708u, 7709u, 2339u, 4066u, 7710u, 11100u, 3965u, 7718u, 11099u, 7714u, 7719u, 7716u, 7715u, 2127u, 7720u, 7721u, 7722u, 7717u, 7697u, 7723u, 3354u, 7727u, 7728u, 7726u, 7725u, 7731u, 7724u, 7729u, 7730u, 7733u, 7732u, 7735u, 7736u, 7737u, 4364u, 7734u, 3176u, 2426u, 7738u, 11102u, 7739u, 7740u, 7741u, 7742u, 2181u, 7743u, 7744u, 2552u, 7745u, 7746u, 7747u, 7748u, 7751u, 7749u, 4351u, 7750u, 4308u, 7752u, 4288u, 7753u, 3665u, 7754u, 7756u, 7757u, 7755u, 2332u, 4086u, 4014u, 5068u, 5703u, 4038u, 1608u, 7759u, 1927u, 7760u, 7761u, 7762u, 11103u, 2340u, 7763u, 5973u, 4100u, 3168u, 7764u, 7766u, 7765u, 7767u, 7768u, 7769u, 7770u, 7771u, 7772u, 7773u, 7774u, 7775u, 7776u, 7777u, 7778u, 7779u, 3387u, 2222u, 7781u, 3052u, 7782u, 7783u, 3760u, 7784u, 7785u, 6226u, 7107u, 7502u, 7786u, 7787u, 7789u, 7790u, 7791u, 4309u, 7788u, 7792u, 7793u, 7795u, 7794u, 7797u, 7798u, 7796u, 4251u, 7799u, 7800u, 6255u, 7801u, 10875u, 11072u, 10795u, 10806u, 10807u, 10828u, 10867u, 10883u, 10885u, 10928u, 10934u, 10957u, 10965u, 10966u, 10967u, 10969u, 10973u, 10976u, 10985u, 10996u, 10998u, 10999u, 11008u, 11016u, 11018u, 11019u, 11022u, 11050u, 11057u, 11073u, 11085u, 11086u, 11088u, 11101u, 9u, 10739u, 83u, 79u, 82u, 84u, 10738u, 41u, 42u, 85u, 59u, 3u, 60u, 4u, 30u, 203u, 204u, 205u, 206u, 207u, 208u, 209u, 210u, 211u, 212u, 6u, 7u, 66u, 64u, 67u, 8u, 86u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 228u, 229u, 230u, 231u, 232u, 233u, 234u, 235u, 236u, 237u, 238u, 239u, 240u, 241u, 242u, 243u, 244u, 245u, 45u, 31u, 46u, 15u, 17u, 13u, 252u, 253u, 254u, 255u, 256u, 257u, 258u, 259u, 260u, 261u, 262u, 263u, 264u, 265u, 266u, 267u, 268u, 269u, 270u, 271u, 272u, 273u, 274u, 275u, 276u, 277u, 47u, 34u, 48u, 32u, 80u, 81u, 137u, 16u, 10737u, 78u, };
 
-- 
2.43.0


From 56adb84a24e6d0c5bdea221c4e23518b2f351cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:05 +0000
Subject: [PATCH 028/103] fix: io_queue::peek(n) returns more than n items

---
 include/wordring/whatwg/encoding/terminology.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/encoding/terminology.hpp b/include/wordring/whatwg/encoding/terminology.hpp
index 647bea8..87a893d 100644
--- a/include/wordring/whatwg/encoding/terminology.hpp
+++ b/include/wordring/whatwg/encoding/terminology.hpp
@@ -133,7 +133,7 @@ namespace wordring::whatwg::encoding
 			// 3.
 			for (value_type const& p : m_q)
 			{
-				if (p.m_eoq) break;
+				if (p.m_eoq || prefix.size() == n) break;
 				prefix.push_back(p);
 			}
 			// 4.
-- 
2.43.0


From 2bcd898cd1cd5e61851f96cbbc4200ecfaf1fec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:05 +0000
Subject: [PATCH 029/103] fix: io_queue::read(n) waits forever when the queue
 ends before n items

---
 include/wordring/whatwg/encoding/terminology.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wordring/whatwg/encoding/terminology.hpp b/include/wordring/whatwg/encoding/terminology.hpp
index 87a893d..c5be651 100644
--- a/include/wordring/whatwg/encoding/terminology.hpp
+++ b/include/wordring/whatwg/encoding/terminology.hpp
@@ -108,11 +108,11 @@ namespace wordring::whatwg::encoding
 			// 1.
 			std::vector<value_type> readItems;
 			// 規格に追加
-			if (m_q.size() < n) return { readItems, true }; // 待機を返す
+			if (m_q.size() < n && !(!m_q.empty() && m_q.back().m_eoq)) return { readItems, true }; // 待機を返す
 			// 2.
 			for (std::uint32_t i = 0; i < n; ++i) readItems.push_back(*read());
 			// 3.
-			if (readItems.back().m_eoq) readItems.pop_back();
+			while (!readItems.empty() && readItems.back().m_eoq) readItems.pop_back();
 			// 4.
 			return { readItems, false };
 		}
-- 
2.43.0


From 7cc7441e35486ec64d5f643703c6f0a3be80180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:05 +0000
Subject: [PATCH 030/103] fix: label of ISO-8859-15 is iso-8859-15

---
 include/wordring/whatwg/encoding/encoding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/encoding/encoding.hpp b/include/wordring/whatwg/encoding/encoding.hpp
index b230b23..9b5b287 100644
--- a/include/wordring/whatwg/encoding/encoding.hpp
+++ b/include/wordring/whatwg/encoding/encoding.hpp
@@ -185,7 +185,7 @@ namespace wordring::whatwg::encoding
 		case encoding_name::ISO_8859_10:    return U"iso-8859-10";
 		case encoding_name::ISO_8859_13:    return U"iso-8859-13";
 		case encoding_name::ISO_8859_14:    return U"iso-8859-14";
-		case encoding_name::ISO_8859_15:    return U"iso-8859-14";
+		case encoding_name::ISO_8859_15:    return U"iso-8859-15";
 		case encoding_name::ISO_8859_16:    return U"iso-8859-16";
 		case encoding_name::KOI8_R:         return U"koi8-r";
 		case encoding_name::KOI8_U:         return U"koi8-u";
-- 
2.43.0


From 65aa8d825939921827dbf5399fb87d41899320ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:05 +0000
Subject: [PATCH 031/103] fix: stripping a string of only ASCII whitespace runs
 past its end

---
 include/wordring/whatwg/infra/infra.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/infra/infra.hpp b/include/wordring/whatwg/infra/infra.hpp
index bc88773..f1b6cc9 100644
--- a/include/wordring/whatwg/infra/infra.hpp
+++ b/include/wordring/whatwg/infra/infra.hpp
@@ -387,7 +387,7 @@ namespace wordring::whatwg
 		auto left = std::find_if_not(tmp.begin(), tmp.end(), is_ascii_white_space);
 		auto right = std::find_if_not(tmp.crbegin(), tmp.crend(), is_ascii_white_space).base();
 
-		while (left != right) to_string(*left++, output);
+		while (left < right) to_string(*left++, output);
 	}
 
 	template <typename InputIterator, typename OutputIterator>
-- 
2.43.0


From 0bc62839c342a00172c27655d0d94408ae968fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:45 +0000
Subject: [PATCH 032/103] fix: normalize_newlines loses a trailing CR and
 truncates non-ASCII code points

---
 include/wordring/whatwg/infra/infra.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/wordring/whatwg/infra/infra.hpp b/include/wordring/whatwg/infra/infra.hpp
index f1b6cc9..8ee465c 100644
--- a/include/wordring/whatwg/infra/infra.hpp
+++ b/include/wordring/whatwg/infra/infra.hpp
@@ -351,22 +351,23 @@ namespace wordring::whatwg
 				else goto Output;
 				break;
 			case states::Cr:
-				if (cp == 0xDu) *output++ = 0xAu;
+				if (cp == 0xDu) to_string(0xAu, output);
 				else if (cp == 0xAu) goto LineBreak;
 				else
 				{
-					*output++ = 0xAu;
+					to_string(0xAu, output);
 					goto Output;
 				}
 				break;
 			LineBreak:
 				cp = 0xAu;
 			Output:
-				*output++ = cp;
+				to_string(cp, output);
 				state = states::Start;
 				break;
 			}
 		}
+		if (state == states::Cr) to_string(0xAu, output);
 	}
 
 	/*! @brief 前後のASCII空白文字を剥ぎ取る
-- 
2.43.0


From e81e9c9b89168519f6ba09ccd9c1b5f71a7ee969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:01 +0000
Subject: [PATCH 033/103] fix: strict split loses its place after a delimiter
 of more than one code unit

---
 include/wordring/whatwg/infra/infra.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/infra/infra.hpp b/include/wordring/whatwg/infra/infra.hpp
index 8ee465c..2446326 100644
--- a/include/wordring/whatwg/infra/infra.hpp
+++ b/include/wordring/whatwg/infra/infra.hpp
@@ -489,7 +489,8 @@ namespace wordring::whatwg
 				return cp == delimiter;
 			}(first, last, delimiter));
 
-			++first;
+			char32_t cp{};
+			first = to_code_point(first, last, cp);
 			token.clear();
 			first = collect_sequence_of_code_points(first, last, std::back_inserter(token), [delimiter](char32_t cp)->bool { return cp != delimiter; });
 			*output++ = token;
-- 
2.43.0


From 697cec49baa3fc9533f56042b476a1f71f78825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:14 +0000
Subject: [PATCH 034/103] fix: domain_to_ascii applied the strict rules to
 every host

Hosts such as a_b.example, -a.example or a..b are valid for the host parser
(beStrict false), and processing must be nontransitional.
---
 lib/whatwg/url/host.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/whatwg/url/host.cpp b/lib/whatwg/url/host.cpp
index 49e20ab..87ea39c 100644
--- a/lib/whatwg/url/host.cpp
+++ b/lib/whatwg/url/host.cpp
@@ -18,7 +18,8 @@
 
 std::u32string wordring::whatwg::domain_to_ascii(std::u32string const& s, bool beStrict, std::error_code& ec)
 {
-	std::int32_t opt = UIDNA_USE_STD3_RULES | UIDNA_CHECK_BIDI | UIDNA_CHECK_CONTEXTJ | UIDNA_CHECK_CONTEXTO;
+	std::int32_t opt = UIDNA_CHECK_BIDI | UIDNA_CHECK_CONTEXTJ | UIDNA_CHECK_CONTEXTO | UIDNA_NONTRANSITIONAL_TO_ASCII;
+	if (beStrict) opt |= UIDNA_USE_STD3_RULES;
 	UErrorCode u_ec = U_ZERO_ERROR;
 	std::unique_ptr<icu::IDNA> idna(icu::IDNA::createUTS46Instance(opt, u_ec));
 
@@ -28,7 +29,12 @@ std::u32string wordring::whatwg::domain_to_ascii(std::u32string const& s, bool b
 
 	idna->nameToASCII(s1, s2, info, u_ec);
 
-	if (U_FAILURE(u_ec) || info.getErrors()) ec = url_error_name::IdnaTranslationFailed;
+	// CheckHyphens は常に false 、 VerifyDnsLength は beStrict 。
+	std::uint32_t errors = info.getErrors();
+	errors &= ~(UIDNA_ERROR_LEADING_HYPHEN | UIDNA_ERROR_TRAILING_HYPHEN | UIDNA_ERROR_HYPHEN_3_4);
+	if (!beStrict) errors &= ~(UIDNA_ERROR_EMPTY_LABEL | UIDNA_ERROR_LABEL_TOO_LONG | UIDNA_ERROR_DOMAIN_NAME_TOO_LONG);
+
+	if (U_FAILURE(u_ec) || errors || s2.isEmpty()) ec = url_error_name::IdnaTranslationFailed;
 
 	std::u32string tmp;
 	encoding_cast(s2.getBuffer(), s2.getBuffer() + s2.length(), std::back_inserter(tmp));
-- 
2.43.0


From 37d0c45f10eb6a12741e427671bc262f0538b443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:14 +0000
Subject: [PATCH 035/103] fix: IPv4 parser took 8 for an octal digit

---
 lib/whatwg/url/host.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/whatwg/url/host.cpp b/lib/whatwg/url/host.cpp
index 87ea39c..9f4ffe7 100644
--- a/lib/whatwg/url/host.cpp
+++ b/lib/whatwg/url/host.cpp
@@ -236,7 +236,7 @@ wordring::whatwg::parse_ipv4_number(std::u32string s)
 	// 5.
 	if (s.empty()) return std::make_pair(std::optional<std::uint32_t>(), validationError);
 	// 6.
-	std::u32string_view sv = R == 8 ? U"012345678" : (R == 10 ? U"0123456789" : U"0123456789abcdefABCDEF");
+	std::u32string_view sv = R == 8 ? U"01234567" : (R == 10 ? U"0123456789" : U"0123456789abcdefABCDEF");
 	for (char32_t cp : s) if (std::find(sv.begin(), sv.end(), cp) == sv.end())
 	{
 		return std::make_pair(std::optional<std::uint32_t>(), validationError);
-- 
2.43.0


From 721c6a23fd3e372352148b9831d3bcb474265392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:14 +0000
Subject: [PATCH 036/103] fix: IPv4 number 0x denotes zero

---
 lib/whatwg/url/host.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/whatwg/url/host.cpp b/lib/whatwg/url/host.cpp
index 9f4ffe7..449cd20 100644
--- a/lib/whatwg/url/host.cpp
+++ b/lib/whatwg/url/host.cpp
@@ -234,7 +234,7 @@ wordring::whatwg::parse_ipv4_number(std::u32string s)
 		R = 8;
 	}
 	// 5.
-	if (s.empty()) return std::make_pair(std::optional<std::uint32_t>(), validationError);
+	if (s.empty()) return std::make_pair(std::optional<std::uint32_t>(0), validationError);
 	// 6.
 	std::u32string_view sv = R == 8 ? U"01234567" : (R == 10 ? U"0123456789" : U"0123456789abcdefABCDEF");
 	for (char32_t cp : s) if (std::find(sv.begin(), sv.end(), cp) == sv.end())
-- 
2.43.0


From 93d52d79cb94809b260bd7db854453804b9476fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:14 +0000
Subject: [PATCH 037/103] fix: IPv4 numbers beyond 32 bits were indeterminate

---
 include/wordring/whatwg/url/host.hpp |  4 ++--
 lib/whatwg/url/host.cpp              | 24 +++++++++++++-----------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/include/wordring/whatwg/url/host.hpp b/include/wordring/whatwg/url/host.hpp
index f785141..359db49 100644
--- a/include/wordring/whatwg/url/host.hpp
+++ b/include/wordring/whatwg/url/host.hpp
@@ -298,7 +298,7 @@ namespace wordring::whatwg
 	host_base parse_ipv6(std::u32string const& in, std::error_code& ec);
 	host_base parse_opaque_host(std::u32string const& in, std::error_code& ec);
 
-	std::pair<std::optional<std::uint32_t>, bool> parse_ipv4_number(std::u32string s);
+	std::pair<std::optional<std::uint64_t>, bool> parse_ipv4_number(std::u32string s);
 
 	/*! @brief host parser
 	* 
@@ -320,7 +320,7 @@ namespace wordring::whatwg
 	*/
 	host_base parse_ipv4(std::u32string const& in, std::error_code& ec);
 
-	std::pair<std::optional<std::uint32_t>, bool> parse_ipv4_number(std::u32string s);
+	std::pair<std::optional<std::uint64_t>, bool> parse_ipv4_number(std::u32string s);
 
 	/*! @brief IPv6 parser
 	* 
diff --git a/lib/whatwg/url/host.cpp b/lib/whatwg/url/host.cpp
index 449cd20..a558624 100644
--- a/lib/whatwg/url/host.cpp
+++ b/lib/whatwg/url/host.cpp
@@ -10,6 +10,7 @@
 #include <array>
 #include <charconv>
 #include <cmath>
+#include <limits>
 #include <string>
 #include <utility>
 #include <vector>
@@ -168,14 +169,14 @@ wordring::whatwg::host_base wordring::whatwg::parse_ipv4(std::u32string const& i
 	// 4.
 	if (4 < parts.size()) return opaque_host_base{ in };
 	// 5.
-	std::vector<std::uint32_t> numbers;
+	std::vector<std::uint64_t> numbers;
 	// 6.
 	for (std::u32string const& part : parts)
 	{
 		// 6.1.
 		if (part.empty()) return opaque_host_base{ in };
 		// 6.2.
-		std::pair<std::optional<std::uint32_t>, bool> result = parse_ipv4_number(part);
+		std::pair<std::optional<std::uint64_t>, bool> result = parse_ipv4_number(part);
 		// 6.3.
 		if (!result.first) return opaque_host_base{ in };
 		// 6.4.
@@ -186,7 +187,7 @@ wordring::whatwg::host_base wordring::whatwg::parse_ipv4(std::u32string const& i
 	// 7.
 	if (validationError) ec = url_error_name::ValidationError;
 	// 8.
-	for (std::uint32_t n : numbers) if (255 < n) ec = url_error_name::ValidationError;
+	for (std::uint64_t n : numbers) if (255 < n) ec = url_error_name::ValidationError;
 	// 9.
 	for (std::size_t i = 0; i < numbers.size() - 1; ++i) if (255 < numbers.at(i)) return host_base();
 	// 10.
@@ -197,13 +198,13 @@ wordring::whatwg::host_base wordring::whatwg::parse_ipv4(std::u32string const& i
 		return host_base();
 	}
 	// 11.
-	std::uint32_t ipv4 = numbers.back();
+	std::uint32_t ipv4 = static_cast<std::uint32_t>(numbers.back());
 	// 12.
 	numbers.pop_back();
 	// 13.
 	std::uint32_t counter = 0;
 	// 14.
-	for (std::uint32_t n : numbers)
+	for (std::uint64_t n : numbers)
 	{
 		ipv4 += static_cast<std::uint32_t>(n * std::pow(256, 3 - counter));
 		++counter;
@@ -212,7 +213,7 @@ wordring::whatwg::host_base wordring::whatwg::parse_ipv4(std::u32string const& i
 	return host_base(ipv4_address_base{ ipv4 });
 }
 
-std::pair<std::optional<std::uint32_t>, bool>
+std::pair<std::optional<std::uint64_t>, bool>
 wordring::whatwg::parse_ipv4_number(std::u32string s)
 {
 	// 1.
@@ -234,20 +235,21 @@ wordring::whatwg::parse_ipv4_number(std::u32string s)
 		R = 8;
 	}
 	// 5.
-	if (s.empty()) return std::make_pair(std::optional<std::uint32_t>(0), validationError);
+	if (s.empty()) return std::make_pair(std::optional<std::uint64_t>(0), validationError);
 	// 6.
 	std::u32string_view sv = R == 8 ? U"01234567" : (R == 10 ? U"0123456789" : U"0123456789abcdefABCDEF");
 	for (char32_t cp : s) if (std::find(sv.begin(), sv.end(), cp) == sv.end())
 	{
-		return std::make_pair(std::optional<std::uint32_t>(), validationError);
+		return std::make_pair(std::optional<std::uint64_t>(), validationError);
 	}
 	// 7.
 	std::string tmp;
 	for (char32_t ch : s) tmp.push_back(static_cast<std::uint8_t>(ch));
-	std::uint32_t i;
-	std::from_chars(tmp.data(), tmp.data() + tmp.length(), i, R);
+	std::uint64_t i = 0;
+	auto [p, e] = std::from_chars(tmp.data(), tmp.data() + tmp.length(), i, R);
+	if (e == std::errc::result_out_of_range) i = std::numeric_limits<std::uint64_t>::max();
 	// 8.
-	return std::make_pair(std::optional<std::uint32_t>(i), validationError);
+	return std::make_pair(std::optional<std::uint64_t>(i), validationError);
 }
 
 wordring::whatwg::host_base wordring::whatwg::parse_ipv6(std::u32string const& in, std::error_code& ec)
-- 
2.43.0


From 74d46043ab8431692a3a8313379f7462ee50a7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:14 +0000
Subject: [PATCH 038/103] fix: IPv6 parser wrote to an empty optional for an
 embedded IPv4 address

---
 lib/whatwg/url/host.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/whatwg/url/host.cpp b/lib/whatwg/url/host.cpp
index a558624..ab34ceb 100644
--- a/lib/whatwg/url/host.cpp
+++ b/lib/whatwg/url/host.cpp
@@ -350,7 +350,7 @@ wordring::whatwg::host_base wordring::whatwg::parse_ipv6(std::u32string const& i
 					// 1.
 					std::uint32_t number = in[pointer] - U'0';
 					// 2.
-					if (!ipv4Piece) *ipv4Piece = number;
+					if (!ipv4Piece) ipv4Piece = number;
 					else if (*ipv4Piece == 0)
 					{
 						ec = url_error_name::ValidationError;
-- 
2.43.0


From e0f1236fb82239692b570c15ad0c083af2c9e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:14 +0000
Subject: [PATCH 039/103] fix: IPv6 parser did not report an address of more
 than eight pieces

---
 lib/whatwg/url/host.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/whatwg/url/host.cpp b/lib/whatwg/url/host.cpp
index ab34ceb..ad4358c 100644
--- a/lib/whatwg/url/host.cpp
+++ b/lib/whatwg/url/host.cpp
@@ -278,7 +278,11 @@ wordring::whatwg::host_base wordring::whatwg::parse_ipv6(std::u32string const& i
 	while (static_cast<std::uint32_t>(pointer) < in.size())
 	{
 		// 6.1.
-		if (pieceIndex == 8) return host_base();
+		if (pieceIndex == 8)
+		{
+			ec = url_error_name::ValidationError;
+			return host_base();
+		}
 		// 6.2.
 		if (static_cast<std::uint32_t>(pointer) < in.size() && in[pointer] == U':')
 		{
-- 
2.43.0


From 92bbe0bf8c630e4944cf59b9d1b25307a59347c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:14 +0000
Subject: [PATCH 040/103] fix: IPv6 serializer added up separate runs of zero
 pieces

---
 lib/whatwg/url/host.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/whatwg/url/host.cpp b/lib/whatwg/url/host.cpp
index ad4358c..c913f5d 100644
--- a/lib/whatwg/url/host.cpp
+++ b/lib/whatwg/url/host.cpp
@@ -589,8 +589,8 @@ std::u32string wordring::whatwg::serialize_ipv6(wordring::whatwg::host_base cons
 		{
 			tail = i;
 			longer = length;
-			length = 0;
 		}
+		length = 0;
 	}
 	if (2 <= longer) compress = std::make_optional<std::uint32_t>(tail - longer);
 	// 4.
-- 
2.43.0


From c2800378c74259648fd9f370c0ecf1932ee723fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:36 +0000
Subject: [PATCH 041/103] fix: comparing an IP address or empty host with a
 string asserted

file://127.0.0.1/ and the username, password and port setters of a URL whose
host is an address or empty aborted.
---
 include/wordring/whatwg/url/host.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/url/host.hpp b/include/wordring/whatwg/url/host.hpp
index 359db49..6ad8bd2 100644
--- a/include/wordring/whatwg/url/host.hpp
+++ b/include/wordring/whatwg/url/host.hpp
@@ -143,10 +143,11 @@ namespace wordring::whatwg
 			return lhs.get<domain_base>().m_value == rhs;
 		case host_type_name::OpaqueHost:
 			return lhs.get<opaque_host_base>().m_value == rhs;
+		case host_type_name::EmptyHost:
+			return rhs.empty();
 		default:
 			break;
 		}
-		assert(false);
 		return false;
 	}
 
-- 
2.43.0


From 5d0d5f47168559c3bd8ff82fc880141e22498059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:36 +0000
Subject: [PATCH 042/103] fix: a:/ was parsed as a URL that cannot be a base

---
 lib/whatwg/url/url.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/whatwg/url/url.cpp b/lib/whatwg/url/url.cpp
index 4917a5e..871e90b 100644
--- a/lib/whatwg/url/url.cpp
+++ b/lib/whatwg/url/url.cpp
@@ -514,7 +514,7 @@ wordring::whatwg::url_parse_result wordring::whatwg::basic_url_parser::on_scheme
 		// 2.7.
 		else if (is_special(*m_url)) m_state = url_parse_state::SpecialAuthoritySlashesState;
 		// 2.8.
-		else if (2 < std::distance(pointer, m_input.data() + m_input.size()) && *(pointer + 1) == U'/')
+		else if (2 <= std::distance(pointer, m_input.data() + m_input.size()) && *(pointer + 1) == U'/')
 		{
 			m_state = url_parse_state::PathOrAuthorityState;
 			++pointer;
-- 
2.43.0


From 8804a1f94ac920fa82b212c0a30c5af3a1c4abf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:36 +0000
Subject: [PATCH 043/103] fix: port 65535 and ports with leading zeros were
 rejected

---
 lib/whatwg/url/url.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/whatwg/url/url.cpp b/lib/whatwg/url/url.cpp
index 871e90b..58c0776 100644
--- a/lib/whatwg/url/url.cpp
+++ b/lib/whatwg/url/url.cpp
@@ -866,9 +866,9 @@ wordring::whatwg::url_parse_result wordring::whatwg::basic_url_parser::on_port_s
 		{
 			// 2.1.1.
 			std::uint32_t port = 0;
-			for (char32_t cp : buffer) port = port * 10 + (cp - U'0');
+			for (char32_t cp : buffer) if (port <= 0xFFFF) port = port * 10 + (cp - U'0');
 			// 2.1.2.
-			if (5 < buffer.size() || 0xFFFF <= port)
+			if (0xFFFF < port)
 			{
 				*m_ec = url_error_name::ValidationError;
 				return url_parse_result::Failure;
-- 
2.43.0


From cdaca00009e37dfe09cb6ecd7f81aaa1f55856b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:36 +0000
Subject: [PATCH 044/103] fix: setting the host of a file URL read its first
 character twice

---
 lib/whatwg/url/url.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/whatwg/url/url.cpp b/lib/whatwg/url/url.cpp
index 58c0776..19b4940 100644
--- a/lib/whatwg/url/url.cpp
+++ b/lib/whatwg/url/url.cpp
@@ -792,7 +792,7 @@ wordring::whatwg::url_parse_result wordring::whatwg::basic_url_parser::on_hostna
 		m_state = url_parse_state::FileHostState;
 	}
 	// 2.
-	if (c == U':' && insideBrackets == false)
+	else if (c == U':' && insideBrackets == false)
 	{
 		// 2.1.
 		if (buffer.empty())
-- 
2.43.0


From 5e59cc5a8e4801f118af5e05e7e38513df047ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:36 +0000
Subject: [PATCH 045/103] fix: protocol setter dereferenced the missing host of
 a file URL

---
 lib/whatwg/url/url.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/whatwg/url/url.cpp b/lib/whatwg/url/url.cpp
index 19b4940..c52262e 100644
--- a/lib/whatwg/url/url.cpp
+++ b/lib/whatwg/url/url.cpp
@@ -485,7 +485,7 @@ wordring::whatwg::url_parse_result wordring::whatwg::basic_url_parser::on_scheme
 			// 3.
 			if ((includes_credentials(*m_url) || m_url->m_port) && buffer == U"file") return url_parse_result::Return;
 			// 4.
-			if (m_url->m_scheme == U"file" && m_url->m_host->type() == host_type_name::EmptyHost) return url_parse_result::Return;
+			if (m_url->m_scheme == U"file" && (!m_url->m_host || m_url->m_host->type() == host_type_name::EmptyHost)) return url_parse_result::Return;
 		}
 		// 2.2.
 		m_url->m_scheme = buffer;
-- 
2.43.0


From 083d437244d2454763717fede7125976b8a99337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:35 +0000
Subject: [PATCH 046/103] fix: is_valid_ipv4_address_string accepted parts that
 are not shortest decimal numbers

---
 lib/whatwg/url/host.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/whatwg/url/host.cpp b/lib/whatwg/url/host.cpp
index c913f5d..4ba20d7 100644
--- a/lib/whatwg/url/host.cpp
+++ b/lib/whatwg/url/host.cpp
@@ -7,6 +7,7 @@
 #include <boost/algorithm/string/classification.hpp> 
 #include <boost/algorithm/string/split.hpp>
 
+#include <algorithm>
 #include <array>
 #include <charconv>
 #include <cmath>
@@ -97,10 +98,12 @@ bool wordring::whatwg::is_valid_ipv4_address_string(std::u32string const& s)
 	std::string tmp;
 	for (std::u32string const& c : v)
 	{
-		if (!(1 <= c.size() && c.size() <= 4)) return false;
+		if (!(1 <= c.size() && c.size() <= 3)) return false;
+		if (!std::all_of(c.begin(), c.end(), is_ascii_digit)) return false;
+		if (1 < c.size() && c.front() == U'0') return false;
 		tmp.clear();
 		for (char32_t ch : c) tmp.push_back(static_cast<std::uint8_t>(ch));
-		std::uint32_t i;
+		std::uint32_t i = 0;
 		std::from_chars(tmp.data(), tmp.data() + tmp.length(), i);
 
 		if (255 < i) return false;
-- 
2.43.0


From 1c45ee5fa5c14f0e8e5b1075b5f37ab9cac74e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:37 +0000
Subject: [PATCH 047/103] fix: encode_or_fail lost the state of the encoder
 after an error

---
 include/wordring/whatwg/encoding/encoding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/encoding/encoding.hpp b/include/wordring/whatwg/encoding/encoding.hpp
index 9b5b287..8662552 100644
--- a/include/wordring/whatwg/encoding/encoding.hpp
+++ b/include/wordring/whatwg/encoding/encoding.hpp
@@ -567,7 +567,7 @@ namespace wordring::whatwg::encoding
 	* @sa https://triple-underscore.github.io/Encoding-ja.html#encode-or-fail
 	*/
 	template <typename InQueue, typename OutQueue>
-	inline result_value encode_or_fail(InQueue& in, coder c, OutQueue& out)
+	inline result_value encode_or_fail(InQueue& in, coder& c, OutQueue& out)
 	{
 		using value_type = typename OutQueue::value_type;
 		// 1.
-- 
2.43.0


From fd8a2858141a2ab57913da5b73a659064b08faa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:00 +0000
Subject: [PATCH 048/103] fix: CSS tokenizer read past the end of the input
 after '#'

---
 include/wordring/wwwc/css_syntax/tokenization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/css_syntax/tokenization.hpp b/include/wordring/wwwc/css_syntax/tokenization.hpp
index 5b08d80..946fe28 100644
--- a/include/wordring/wwwc/css_syntax/tokenization.hpp
+++ b/include/wordring/wwwc/css_syntax/tokenization.hpp
@@ -143,7 +143,7 @@ namespace wordring::wwwc::css
 			case U'\x22':
 				return consume_string_token(it, last, cp, handler);
 			case U'\x23':
-				if (is_identifier_code_point(*it) || starts_with_valid_escape(it, last))
+				if ((it != last && is_identifier_code_point(*it)) || starts_with_valid_escape(it, last))
 				{
 					// 1.
 					auto token = hash_token();
-- 
2.43.0


From 0253814f16a4acf216de54c5557f602b5722c693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:00 +0000
Subject: [PATCH 049/103] fix: CSS tokenizer looked for a number behind '+',
 '-' and '.' instead of at them

---
 include/wordring/wwwc/css_syntax/tokenization.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/wordring/wwwc/css_syntax/tokenization.hpp b/include/wordring/wwwc/css_syntax/tokenization.hpp
index 946fe28..3dd7ae1 100644
--- a/include/wordring/wwwc/css_syntax/tokenization.hpp
+++ b/include/wordring/wwwc/css_syntax/tokenization.hpp
@@ -163,12 +163,12 @@ namespace wordring::wwwc::css
 			case U'\x29':
 				return { it, close_paren_token() };
 			case U'\x2B':
-				if (starts_with_number(it, last)) return consume_numeric_token(--it, last, handler);
+				if (starts_with_number(std::prev(it), last)) return consume_numeric_token(--it, last, handler);
 				return { it, delim_token{ cp } };
 			case U'\x2C':
 				return { it, comma_token() };
 			case U'\x2D':
-				if (starts_with_number(it, last)) return consume_numeric_token(--it, last, handler);
+				if (starts_with_number(std::prev(it), last)) return consume_numeric_token(--it, last, handler);
 				if (2 <= std::distance(it, last) && *it == U'\x2D' && *std::next(it) == U'\x3E')
 				{
 					std::advance(it, 2);
@@ -177,7 +177,7 @@ namespace wordring::wwwc::css
 				if (starts_with_identifier(it, last)) return consume_ident_like_token(--it, last, handler);
 				return { it, delim_token{ cp } };
 			case U'\x2E':
-				if (starts_with_number(it, last)) return consume_numeric_token(--it, last, handler);
+				if (starts_with_number(std::prev(it), last)) return consume_numeric_token(--it, last, handler);
 				return { it, delim_token{ cp } };
 			case U'\x3A':
 				return { it, colon_token() };
-- 
2.43.0


From e8c2c011561afea620c33698fc1f20921ddfcbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:00 +0000
Subject: [PATCH 050/103] fix: CSS tokenizer looked for an identifier behind
 '-' instead of at it

---
 include/wordring/wwwc/css_syntax/tokenization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/css_syntax/tokenization.hpp b/include/wordring/wwwc/css_syntax/tokenization.hpp
index 3dd7ae1..0a24513 100644
--- a/include/wordring/wwwc/css_syntax/tokenization.hpp
+++ b/include/wordring/wwwc/css_syntax/tokenization.hpp
@@ -174,7 +174,7 @@ namespace wordring::wwwc::css
 					std::advance(it, 2);
 					return { it, CDC_token() };
 				}
-				if (starts_with_identifier(it, last)) return consume_ident_like_token(--it, last, handler);
+				if (starts_with_identifier(std::prev(it), last)) return consume_ident_like_token(--it, last, handler);
 				return { it, delim_token{ cp } };
 			case U'\x2E':
 				if (starts_with_number(std::prev(it), last)) return consume_numeric_token(--it, last, handler);
-- 
2.43.0


From 97b13ce348a91a0e8dca84c7e58fe9d41286ba84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:00 +0000
Subject: [PATCH 051/103] fix: CSS tokenizer read past the end of the input
 after 'url'

---
 include/wordring/wwwc/css_syntax/tokenization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/css_syntax/tokenization.hpp b/include/wordring/wwwc/css_syntax/tokenization.hpp
index 0a24513..4a629ef 100644
--- a/include/wordring/wwwc/css_syntax/tokenization.hpp
+++ b/include/wordring/wwwc/css_syntax/tokenization.hpp
@@ -284,7 +284,7 @@ namespace wordring::wwwc::css
 		auto [it, s] = consume_identifier(first, last, handler);
 
 		std::u32string_view sv = U"url";
-		if (is_ascii_case_insensitive_match(s.begin(), s.end(), sv.begin(), sv.end()) && *it == U'\x28')
+		if (is_ascii_case_insensitive_match(s.begin(), s.end(), sv.begin(), sv.end()) && it != last && *it == U'\x28')
 		{
 			++it;
 			while (2 <= std::distance(it, last) && is_whitespace(*it) && is_whitespace(*std::next(it))) ++it;
-- 
2.43.0


From 329949de5c934ec9b8826e4ade135a468083807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:00 +0000
Subject: [PATCH 052/103] fix: CSS tokenizer reported the parenthesis of
 url("...") twice

---
 include/wordring/wwwc/css_syntax/tokenization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/css_syntax/tokenization.hpp b/include/wordring/wwwc/css_syntax/tokenization.hpp
index 4a629ef..f8c2fd9 100644
--- a/include/wordring/wwwc/css_syntax/tokenization.hpp
+++ b/include/wordring/wwwc/css_syntax/tokenization.hpp
@@ -289,7 +289,7 @@ namespace wordring::wwwc::css
 			++it;
 			while (2 <= std::distance(it, last) && is_whitespace(*it) && is_whitespace(*std::next(it))) ++it;
 			if ((it != last && (*it == U'\x22' || *it == U'\x27'))
-				|| (2 <= std::distance(it, last) && is_whitespace(*it) && (*std::next(it) == U'\x22' || *std::next(it) == U'\x27'))) return { --it, function_token{ std::move(s) } };
+				|| (2 <= std::distance(it, last) && is_whitespace(*it) && (*std::next(it) == U'\x22' || *std::next(it) == U'\x27'))) return { it, function_token{ std::move(s) } };
 			return consume_url_token(it, last, handler);
 		}
 
-- 
2.43.0


From af78cd847cfca1787928618f919360cb76b987b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:00 +0000
Subject: [PATCH 053/103] fix: CSS tokenizer did not accept escapes in unquoted
 URLs

---
 include/wordring/wwwc/css_syntax/tokenization.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/css_syntax/tokenization.hpp b/include/wordring/wwwc/css_syntax/tokenization.hpp
index f8c2fd9..5fc36a0 100644
--- a/include/wordring/wwwc/css_syntax/tokenization.hpp
+++ b/include/wordring/wwwc/css_syntax/tokenization.hpp
@@ -384,10 +384,11 @@ namespace wordring::wwwc::css
 
 			if (cp == U'\x5C')
 			{
-				if (starts_with_valid_escape(first, last))
+				if (starts_with_valid_escape(std::prev(first), last))
 				{
 					auto [it, ch] = consume_escaped_code_point(first, last, handler);
 					url.push_back(ch);
+					first = it;
 				}
 				else
 				{
-- 
2.43.0


From 739d2ab46a963a3402cdf8521145ba2ae5b3153f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:00 +0000
Subject: [PATCH 054/103] fix: a backslash at the end of a style sheet is a
 valid escape

---
 include/wordring/wwwc/css_syntax/tokenization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/css_syntax/tokenization.hpp b/include/wordring/wwwc/css_syntax/tokenization.hpp
index 5fc36a0..f16bddb 100644
--- a/include/wordring/wwwc/css_syntax/tokenization.hpp
+++ b/include/wordring/wwwc/css_syntax/tokenization.hpp
@@ -450,7 +450,7 @@ namespace wordring::wwwc::css
 	template <typename BidirectionalIterator>
 	inline bool starts_with_valid_escape(BidirectionalIterator first, BidirectionalIterator last)
 	{
-		return (2 <= std::distance(first, last) && *first == U'\x5C' && !is_newline(*std::next(first)));
+		return (first != last && *first == U'\x5C' && (std::next(first) == last || !is_newline(*std::next(first))));
 	}
 
 	// --------------------------------------------------------------------------------------------
-- 
2.43.0


From c563209753271cc0e8b7b3404267ea8f01ed7d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:00 +0000
Subject: [PATCH 055/103] fix: CSS numbers with parts above 32 bits were not
 converted

---
 .../wordring/wwwc/css_syntax/tokenization.hpp | 40 ++++++-------------
 1 file changed, 13 insertions(+), 27 deletions(-)

diff --git a/include/wordring/wwwc/css_syntax/tokenization.hpp b/include/wordring/wwwc/css_syntax/tokenization.hpp
index f16bddb..bde575a 100644
--- a/include/wordring/wwwc/css_syntax/tokenization.hpp
+++ b/include/wordring/wwwc/css_syntax/tokenization.hpp
@@ -604,28 +604,18 @@ namespace wordring::wwwc::css
 			++first;
 		}
 		// 2. integer part
-		std::uint32_t i = 0;
-		std::string integer_part;
-		while (first != last && is_digit(*first)) integer_part.push_back(static_cast<std::uint8_t>(*first++));
-		if (!integer_part.empty())
-		{
-			[[maybe_unused]] std::from_chars_result r1 =
-				std::from_chars(integer_part.data(), integer_part.data() + integer_part.size(), i, 10);
-			assert(r1.ec == std::errc());
-		}
+		double i = 0;
+		while (first != last && is_digit(*first)) i = i * 10.0 + static_cast<double>(*first++ - U'0');
 		// 3. decimal point
 		if (first != last && *first == U'\x2E') ++first;
 		// 4. fractional part
 		double d = 0;
-		std::uint32_t f = 0;
-		std::string fractional_part;
-		while (first != last && is_digit(*first)) fractional_part.push_back(static_cast<std::uint8_t>(*first++));
-		d = static_cast<double>(fractional_part.size());
-		if (!fractional_part.empty())
+		double f = 0;
+		for (; first != last && is_digit(*first); ++first)
 		{
-			[[maybe_unused]] std::from_chars_result r2 =
-				std::from_chars(fractional_part.data(), fractional_part.data() + fractional_part.size(), f, 10);
-			assert(r2.ec == std::errc());
+			if (300.0 <= d) continue; // 結果に影響しない桁
+			f = f * 10.0 + static_cast<double>(*first - U'0');
+			d += 1.0;
 		}
 		// 5. exponent_indicator
 		if (first != last && (*first == U'E' || *first == U'e')) ++first;
@@ -638,17 +628,13 @@ namespace wordring::wwwc::css
 			++first;
 		}
 		// 7.exponent
-		std::uint32_t e = 0;
-		std::string exponent;
-		while (first != last && is_digit(*first)) exponent.push_back(static_cast<std::uint8_t>(*first++));
-		if (!exponent.empty())
-		{
-			[[maybe_unused]] std::from_chars_result r3 =
-				std::from_chars(exponent.data(), exponent.data() + exponent.size(), e, 10);
-			assert(r3.ec == std::errc());
-		}
+		double e = 0;
+		while (first != last && is_digit(*first)) e = e * 10.0 + static_cast<double>(*first++ - U'0');
+
+		double n = i + f * std::pow(10.0, -d);
+		if (n == 0) return s * n;
 
-		return s * (i + f * std::pow(10.0, -d)) * std::pow(10.0, t * e);
+		return s * n * std::pow(10.0, t * e);
 	}
 
 	// --------------------------------------------------------------------------------------------
-- 
2.43.0


From e19eada1035688f6bc28e00779fb522ee46a2710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:00 +0000
Subject: [PATCH 056/103] fix: @charset of a UTF-16 label must fall back to
 UTF-8

---
 include/wordring/wwwc/css_syntax/input_stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/wordring/wwwc/css_syntax/input_stream.hpp b/include/wordring/wwwc/css_syntax/input_stream.hpp
index 2d6895a..0caf470 100644
--- a/include/wordring/wwwc/css_syntax/input_stream.hpp
+++ b/include/wordring/wwwc/css_syntax/input_stream.hpp
@@ -83,6 +83,7 @@ namespace wordring::wwwc
 				{
 					encoding_name enc = get_encoding_name(label);
 					if (enc == static_cast<encoding_name>(0)) goto Abort;
+					if (enc == encoding_name::UTF_16BE || enc == encoding_name::UTF_16LE) goto Abort;
 					return enc;
 				}
 				label.push_back('\"');
-- 
2.43.0


From 6a760fac7639817753180525164172ef41eea50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:00 +0000
Subject: [PATCH 057/103] fix: @charset was looked for beyond the first 1024
 bytes

---
 include/wordring/wwwc/css_syntax/input_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/css_syntax/input_stream.hpp b/include/wordring/wwwc/css_syntax/input_stream.hpp
index 0caf470..ba723f0 100644
--- a/include/wordring/wwwc/css_syntax/input_stream.hpp
+++ b/include/wordring/wwwc/css_syntax/input_stream.hpp
@@ -64,7 +64,7 @@ namespace wordring::wwwc
 		std::string_view sv = "@charset \"";
 		for (std::uint32_t i = 0; first != last && i < sv.size(); ++i) { if (sv[i] != *first++) goto Abort; }
 
-		for (std::uint32_t i = 0; first != last && i <= 1014; ++i)
+		for (std::uint32_t i = 0; first != last && i < 1014; ++i)
 		{
 			std::uint8_t ch = *first++;
 			switch (state)
-- 
2.43.0


From 0db1e6ab795ea187e06061d7c45b711bbda868cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:01 +0000
Subject: [PATCH 058/103] fix: looking at the next CSS token after the end of
 the input asserted

---
 include/wordring/wwwc/css_syntax/parsing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/css_syntax/parsing.hpp b/include/wordring/wwwc/css_syntax/parsing.hpp
index c5f03d1..8e573a6 100644
--- a/include/wordring/wwwc/css_syntax/parsing.hpp
+++ b/include/wordring/wwwc/css_syntax/parsing.hpp
@@ -62,7 +62,7 @@ namespace wordring::wwwc::css
 
 		syntax_primitive const& next_input_token()
 		{
-			assert(m_i < int(m_v.size()) - 1);
+			if (static_cast<std::int32_t>(m_v.size()) - 1 <= m_i) return m_v.back();
 			return m_v[m_i + 1];
 		}
 
-- 
2.43.0


From 48809c4ea947ffbd741bd2d6d151882502160528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:01 +0000
Subject: [PATCH 059/103] fix: parse_declaration returned an empty declaration
 instead of a failure

---
 include/wordring/wwwc/css_syntax/parsing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/css_syntax/parsing.hpp b/include/wordring/wwwc/css_syntax/parsing.hpp
index 8e573a6..47571a7 100644
--- a/include/wordring/wwwc/css_syntax/parsing.hpp
+++ b/include/wordring/wwwc/css_syntax/parsing.hpp
@@ -502,7 +502,7 @@ namespace wordring::wwwc::css
 	inline std::optional<declaration> parse_declaration(token_stream& in, ErrorHandler handler)
 	{
 		while (in.next_input_token().type() == syntax_primitive_name::WhitespaceToken) in.consume();
-		if (in.next_input_token().type() != syntax_primitive_name::IdentToken) return std::make_optional<declaration>();
+		if (in.next_input_token().type() != syntax_primitive_name::IdentToken) return std::optional<declaration>();
 
 		std::optional<declaration> decl = consume_declaration(in, handler);
 		if (decl) return decl;
-- 
2.43.0


From 693724374782f137cf0d8947bf5b6243023a0d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:01 +0000
Subject: [PATCH 060/103] fix: looking for !important read before the start of
 the value

---
 include/wordring/wwwc/css_syntax/parsing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/css_syntax/parsing.hpp b/include/wordring/wwwc/css_syntax/parsing.hpp
index 47571a7..935310f 100644
--- a/include/wordring/wwwc/css_syntax/parsing.hpp
+++ b/include/wordring/wwwc/css_syntax/parsing.hpp
@@ -1093,7 +1093,7 @@ namespace wordring::wwwc::css
 		std::u32string_view const sv = U"important";
 
 		std::uint32_t st = 0;
-		for (std::size_t i = v.size() - 1; 0 <= i; --i)
+		for (std::size_t i = v.size(); i-- != 0;)
 		{
 			using wordring::whatwg::is_ascii_case_insensitive_match;
 
-- 
2.43.0


From ec2dd1294c15df264f15d42d6266bd27f5d682cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:01 +0000
Subject: [PATCH 061/103] fix: a bracket of another kind ended a CSS block

---
 include/wordring/wwwc/css_syntax/parsing.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/wordring/wwwc/css_syntax/parsing.hpp b/include/wordring/wwwc/css_syntax/parsing.hpp
index 935310f..412a6b5 100644
--- a/include/wordring/wwwc/css_syntax/parsing.hpp
+++ b/include/wordring/wwwc/css_syntax/parsing.hpp
@@ -1245,6 +1245,7 @@ namespace wordring::wwwc::css
 			case syntax_primitive_name::CloseSquareToken:
 			case syntax_primitive_name::CloseParenToken:
 				if (ending == tkn.type()) return block;
+				break;
 			case syntax_primitive_name::EofToken:
 				if constexpr (std::is_invocable_v<ErrorHandler, token_stream&>) handler(in);
 				return block;
-- 
2.43.0


From b6ffdc475a0ff4c9c0118b081fae0686b1c2a895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:01 +0000
Subject: [PATCH 062/103] fix: a rule after <!-- below the top level was parsed
 as an at-rule

---
 include/wordring/wwwc/css_syntax/parsing.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/wordring/wwwc/css_syntax/parsing.hpp b/include/wordring/wwwc/css_syntax/parsing.hpp
index 412a6b5..19b10d2 100644
--- a/include/wordring/wwwc/css_syntax/parsing.hpp
+++ b/include/wordring/wwwc/css_syntax/parsing.hpp
@@ -858,6 +858,7 @@ namespace wordring::wwwc::css
 					std::optional<qualified_rule> rule = consume_qualified_rule(in, handler);
 					if (rule.has_value()) rules.push_back(std::move(*rule));
 				}
+				continue;
 			case syntax_primitive_name::AtKeywordToken:
 				in.reconsume();
 				rules.push_back(consume_at_rule(in, handler));
-- 
2.43.0


From a60301596c4186b8a3d7777797c52b695c568ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:01 +0000
Subject: [PATCH 063/103] fix: parse_list_of_rules skipped <!-- and --> like a
 style sheet

---
 include/wordring/wwwc/css_syntax/parsing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/css_syntax/parsing.hpp b/include/wordring/wwwc/css_syntax/parsing.hpp
index 19b10d2..6947f9d 100644
--- a/include/wordring/wwwc/css_syntax/parsing.hpp
+++ b/include/wordring/wwwc/css_syntax/parsing.hpp
@@ -381,7 +381,7 @@ namespace wordring::wwwc::css
 	template <typename ErrorHandler>
 	inline std::vector<syntax_primitive> parse_list_of_rules(token_stream& in, ErrorHandler handler)
 	{
-		std::vector<syntax_primitive> v = consume_list_of_rules(in, true, handler);
+		std::vector<syntax_primitive> v = consume_list_of_rules(in, false, handler);
 		return v;
 	}
 
-- 
2.43.0


From 35d49468ac1a56fd89e4e41792018d48ea778136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:01 +0000
Subject: [PATCH 064/103] fix: assigning an at-rule without a block
 dereferenced null

---
 include/wordring/wwwc/css_syntax/token.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/css_syntax/token.hpp b/include/wordring/wwwc/css_syntax/token.hpp
index 219b3ee..372a4bf 100644
--- a/include/wordring/wwwc/css_syntax/token.hpp
+++ b/include/wordring/wwwc/css_syntax/token.hpp
@@ -427,7 +427,7 @@ namespace wordring::wwwc::css
 		{
 			m_name = rhs.m_name;
 			m_prelude = rhs.m_prelude;
-			m_block = std::make_unique<simple_block>(*rhs.m_block);
+			m_block = rhs.m_block ? std::make_unique<simple_block>(*rhs.m_block) : nullptr;
 
 			return *this;
 		}
-- 
2.43.0


From b423fd1d5849045e05a10dfa79cc982cf6eb6398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:02 +0000
Subject: [PATCH 065/103] fix: a selector list ignored trailing input and
 rejected leading white space

---
 lib/wwwc/selectors/grammar.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/wwwc/selectors/grammar.cpp b/lib/wwwc/selectors/grammar.cpp
index 62be076..e010644 100644
--- a/lib/wwwc/selectors/grammar.cpp
+++ b/lib/wwwc/selectors/grammar.cpp
@@ -1024,8 +1024,14 @@ selector_list selector_list::consume(syntax_primitive_stream in, parse_context&
 {
 	const_iterator it0 = in.begin();
 
+	in.skip_whitespace();
 	complex_selector_list csl = complex_selector_list::consume(in, ctx);
-	if (csl) return selector_list(it0, csl.end(), std::move(csl));
+	if (csl)
+	{
+		in.advance(csl.end());
+		in.skip_whitespace();
+		if (!in) return selector_list(it0, in.begin(), std::move(csl)); // 入力が残る場合は無効なセレクタ
+	}
 
 	return selector_list(it0, it0, complex_selector_list());
 }
-- 
2.43.0


From 596daf6c3b8005caeb9370f50ad47210aefdecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:02 +0000
Subject: [PATCH 066/103] fix: an attribute selector ignored what followed its
 value

---
 lib/wwwc/selectors/grammar.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/wwwc/selectors/grammar.cpp b/lib/wwwc/selectors/grammar.cpp
index e010644..329bda4 100644
--- a/lib/wwwc/selectors/grammar.cpp
+++ b/lib/wwwc/selectors/grammar.cpp
@@ -534,7 +534,9 @@ attribute_selector attribute_selector::consume(syntax_primitive_stream in1, pars
 			{
 				in2.advance(m.end());
 				modifier = m.value();
+				in2.skip_whitespace();
 			}
+			if (in2) return attribute_selector(it0, it0, wq_name(), U'\0', U"", U'\0');
 
 			return attribute_selector(it0, in1.begin(), name, matcher.prefix(), value, modifier);
 		}
-- 
2.43.0


From 749bd268962adf8bb7af9c1c1c5bf89cd5926fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:02 +0000
Subject: [PATCH 067/103] fix: a hash token that is not an identifier was
 accepted as an id selector

---
 lib/wwwc/selectors/grammar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/wwwc/selectors/grammar.cpp b/lib/wwwc/selectors/grammar.cpp
index 329bda4..2cca15b 100644
--- a/lib/wwwc/selectors/grammar.cpp
+++ b/lib/wwwc/selectors/grammar.cpp
@@ -193,7 +193,7 @@ id_selector id_selector::consume(syntax_primitive_stream in, parse_context& ctx)
 	const_iterator it0 = in.begin();
 
 	syntax_primitive const& p = in.consume();
-	if (p.type() == syntax_primitive_name::HashToken)
+	if (p.type() == syntax_primitive_name::HashToken && p.get<hash_token>().m_type_flag == hash_token::type_flag_name::id)
 	{
 		return id_selector(it0, in.begin(), p.get<hash_token>().m_value);
 	}
-- 
2.43.0


From 50159df51c6857c99388ed6b42225f45e1250f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:44 +0000
Subject: [PATCH 068/103] fix: the universal selector in front of the column
 combinator was taken for a namespace prefix

---
 lib/wwwc/selectors/grammar.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/wwwc/selectors/grammar.cpp b/lib/wwwc/selectors/grammar.cpp
index 2cca15b..5bd3308 100644
--- a/lib/wwwc/selectors/grammar.cpp
+++ b/lib/wwwc/selectors/grammar.cpp
@@ -628,8 +628,13 @@ type_selector type_selector::consume(syntax_primitive_stream in, parse_context&
 	ns_prefix ns = ns_prefix::consume(in, ctx);
 	if (ns)
 	{
-		opt = std::make_optional<ns_prefix>(std::move(ns));
 		in.advance(ns.end());
+		syntax_primitive const& p1 = in.current();
+		if (p1.type() == syntax_primitive_name::DelimToken && p1.get<delim_token>().m_value == U'*')
+		{
+			opt = std::make_optional<ns_prefix>(std::move(ns));
+		}
+		else in.advance(it0); // 「 *||a 」の「 *| 」は接頭辞ではない
 	}
 
 	syntax_primitive const& p = in.consume();
-- 
2.43.0


From d4aac79d40134108300a524b26dfe2fed4ce7a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:34 +0000
Subject: [PATCH 069/103] fix: a class selector matched any single class and no
 element with several classes

---
 include/wordring/wwwc/selectors/grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/selectors/grammar.hpp b/include/wordring/wwwc/selectors/grammar.hpp
index f58dbbd..c42d62e 100644
--- a/include/wordring/wwwc/selectors/grammar.hpp
+++ b/include/wordring/wwwc/selectors/grammar.hpp
@@ -388,7 +388,7 @@ namespace wordring::wwwc::css
 					{
 						bool matched = (ctx.m_mode_name == document_mode_name::Quirks)
 							? wordring::whatwg::is_ascii_case_insensitive_match(s.begin(), s.end(), m_name.begin(), m_name.end())
-							: s == val;
+							: s == m_name;
 
 						if (matched) return true;
 					}
-- 
2.43.0


From e3c8cf6716f7cfce5982114659ded946e0e45b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:34 +0000
Subject: [PATCH 070/103] fix: an id selector with capitals never matched in
 quirks mode

---
 include/wordring/wwwc/selectors/grammar.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/wordring/wwwc/selectors/grammar.hpp b/include/wordring/wwwc/selectors/grammar.hpp
index c42d62e..6f005b1 100644
--- a/include/wordring/wwwc/selectors/grammar.hpp
+++ b/include/wordring/wwwc/selectors/grammar.hpp
@@ -275,13 +275,10 @@ namespace wordring::wwwc::css
 					if (name == U"id")
 					{
 						std::u32string val = wordring::encoding_cast<std::u32string>(traits::value(*it1));
-						if (ctx.m_mode_name == document_mode_name::Quirks)
-						{
-							std::u32string tmp;
-							wordring::whatwg::to_ascii_lowercase(val.begin(), val.end(), std::back_inserter(tmp));
-							val = std::move(tmp);
-						}
-						if (val == m_value) return true;
+						bool matched = (ctx.m_mode_name == document_mode_name::Quirks)
+							? wordring::whatwg::is_ascii_case_insensitive_match(val.begin(), val.end(), m_value.begin(), m_value.end())
+							: val == m_value;
+						if (matched) return true;
 					}
 					++it1;
 				}
-- 
2.43.0


From be38930afc7661a3fe7f2ca7f76216f0cf69ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:34 +0000
Subject: [PATCH 071/103] fix: matching the universal selector read an empty
 optional

---
 include/wordring/wwwc/selectors/grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/wwwc/selectors/grammar.hpp b/include/wordring/wwwc/selectors/grammar.hpp
index 6f005b1..b9e153f 100644
--- a/include/wordring/wwwc/selectors/grammar.hpp
+++ b/include/wordring/wwwc/selectors/grammar.hpp
@@ -960,7 +960,7 @@ namespace wordring::wwwc::css
 			// 名前空間接頭辞
 			std::optional<ns_prefix> const& opt = (m_value.index() == 0)
 				? std::get_if<wq_name>(&m_value)->prefix()
-				: **std::get_if<std::optional<ns_prefix>>(&m_value);
+				: *std::get_if<std::optional<ns_prefix>>(&m_value);
 
 			std::u32string uri2 = encoding_cast<std::u32string>(traits::get_namespace(np));
 
-- 
2.43.0


From de5228ac764fc296ac4488c17429180625be67c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:34 +0000
Subject: [PATCH 072/103] fix: query_selector without a match read the front of
 an empty vector

---
 include/wordring/css/selector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/css/selector.hpp b/include/wordring/css/selector.hpp
index 825416c..fd51ada 100644
--- a/include/wordring/css/selector.hpp
+++ b/include/wordring/css/selector.hpp
@@ -88,6 +88,6 @@ namespace wordring::css
 	{
 		std::vector<NodePointer> v;
 		query_selector_all(np, selector, std::back_inserter(v));
-		return v.front();
+		return v.empty() ? wordring::html::node_traits<NodePointer>::pointer() : v.front();
 	}
 }
-- 
2.43.0


From dc1e96b347f6923ffba671b6797ab69d87e3e7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:46 +0000
Subject: [PATCH 073/103] fix: a query from a node outside of an html element
 asserted

---
 include/wordring/whatwg/dom/infrastructure.hpp | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/include/wordring/whatwg/dom/infrastructure.hpp b/include/wordring/whatwg/dom/infrastructure.hpp
index 9b210c6..8ac0bd0 100644
--- a/include/wordring/whatwg/dom/infrastructure.hpp
+++ b/include/wordring/whatwg/dom/infrastructure.hpp
@@ -79,22 +79,8 @@ namespace wordring::whatwg::dom
 		using traits = node_traits<NodePointer>;
 
 		// 根を探索
-		NodePointer root = traits::pointer();
-		if (traits::is_document(np))
-		{
-			root = np;
-		}
-		else
-		{
-			for (NodePointer p = np; p != traits::pointer(); p = traits::parent(p))
-			{
-				if (traits::is_root(p))
-				{
-					root = p;
-					break;
-				}
-			}
-		}
+		NodePointer root = np;
+		for (NodePointer p = np; p != traits::pointer(); p = traits::parent(p)) root = p;
 
 		// セレクタを構文解析
 		parse_context pctx;
-- 
2.43.0


From bfc66e7a2debb04fc2babc3e802c19f9cfdfc608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:46 +0000
Subject: [PATCH 074/103] fix: [attr^=''], [attr$=''] and [attr*=''] must not
 match anything

---
 include/wordring/wwwc/selectors/grammar.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/wordring/wwwc/selectors/grammar.hpp b/include/wordring/wwwc/selectors/grammar.hpp
index b9e153f..df5943c 100644
--- a/include/wordring/wwwc/selectors/grammar.hpp
+++ b/include/wordring/wwwc/selectors/grammar.hpp
@@ -799,6 +799,7 @@ namespace wordring::wwwc::css
 			}
 			case U'^': // [attr^=val]
 			{
+				if (m_value.empty()) return false;
 				std::u32string s = encoding_cast<std::u32string>(traits::value(*it1));
 				if (m_modifier == U'i')
 				{
@@ -814,6 +815,7 @@ namespace wordring::wwwc::css
 			}
 			case U'$': // [attr$=val]
 			{
+				if (m_value.empty()) return false;
 				std::u32string s = encoding_cast<std::u32string>(traits::value(*it1));
 				if (s.size() < m_value.size()) return false;
 				if (m_modifier == U'i')
@@ -828,6 +830,7 @@ namespace wordring::wwwc::css
 			}
 			case U'*': // [attr*=val]
 			{
+				if (m_value.empty()) return false;
 				std::u32string s1 = encoding_cast<std::u32string>(traits::value(*it1));
 				std::u32string s2 = m_value;
 				if (m_modifier == U'i')
-- 
2.43.0


From 770666a6b48dbd7fd3007129aca077544689a34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:33 +0000
Subject: [PATCH 075/103] fix: [*|attr=val] compared only the first attribute
 of that name

---
 include/wordring/wwwc/selectors/grammar.hpp | 37 +++++++++++++--------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/include/wordring/wwwc/selectors/grammar.hpp b/include/wordring/wwwc/selectors/grammar.hpp
index df5943c..a0d4805 100644
--- a/include/wordring/wwwc/selectors/grammar.hpp
+++ b/include/wordring/wwwc/selectors/grammar.hpp
@@ -690,9 +690,7 @@ namespace wordring::wwwc::css
 		{
 			using traits = wordring::html::node_traits<NodePointer>;
 			using wordring::whatwg::is_ascii_case_insensitive_match;
-			using wordring::whatwg::split_on_ascii_whitespace;
 			using wordring::encoding_cast;
-			using wordring::whatwg::to_ascii_lowercase;
 
 			assert(!(ctx.m_type_name == document_type_name::Xml
 				&& (ctx.m_mode_name == document_mode_name::LimitedQuirks || ctx.m_mode_name == document_mode_name::Quirks)));
@@ -745,18 +743,31 @@ namespace wordring::wwwc::css
 				// XML はASCII大小区別、HTMLは大小無視
 				if (ctx.m_type_name == document_type_name::Xml)
 				{
-					if (n1 == n2) break;
+					if (n1 == n2 && match_value(traits::value(*it1))) return true;
 				}
 				else
 				{
-					if (is_ascii_case_insensitive_match(n1.begin(), n1.end(), n2.begin(), n2.end())) break;
+					if (is_ascii_case_insensitive_match(n1.begin(), n1.end(), n2.begin(), n2.end())
+						&& match_value(traits::value(*it1))) return true;
 				}
 				
 				++it1;
 			}
-			if (it1 == it2) return false;
-		
-			// 属性値照合
+
+			return false;
+		}
+
+	private:
+		/*! @brief 属性値を照合する
+		*/
+		template <typename String>
+		bool match_value(String const& value) const
+		{
+			using wordring::whatwg::is_ascii_case_insensitive_match;
+			using wordring::whatwg::split_on_ascii_whitespace;
+			using wordring::encoding_cast;
+			using wordring::whatwg::to_ascii_lowercase;
+
 			switch (m_matcher)
 			{
 			case U'\0':// [attr]
@@ -764,13 +775,13 @@ namespace wordring::wwwc::css
 				return true;
 			case U'=': // [attr=val]
 			{
-				std::u32string s = encoding_cast<std::u32string>(traits::value(*it1));
+				std::u32string s = encoding_cast<std::u32string>(value);
 				if (m_modifier == U'i') return is_ascii_case_insensitive_match(m_value.begin(), m_value.end(), s.begin(), s.end());
 				else return m_value == s;
 			}
 			case U'~': // [attr~=val]
 			{
-				std::u32string tmp = encoding_cast<std::u32string>(traits::value(*it1));
+				std::u32string tmp = encoding_cast<std::u32string>(value);
 				std::vector<std::u32string> v;
 				split_on_ascii_whitespace(tmp.begin(), tmp.end(), std::back_inserter(v));
 				for (std::u32string const& s : v)
@@ -782,7 +793,7 @@ namespace wordring::wwwc::css
 			}
 			case U'|': // [attr|=val]
 			{
-				std::u32string s = encoding_cast<std::u32string>(traits::value(*it1));
+				std::u32string s = encoding_cast<std::u32string>(value);
 				if (m_modifier == U'i')
 				{
 					if (m_value.size() < s.size()
@@ -800,7 +811,7 @@ namespace wordring::wwwc::css
 			case U'^': // [attr^=val]
 			{
 				if (m_value.empty()) return false;
-				std::u32string s = encoding_cast<std::u32string>(traits::value(*it1));
+				std::u32string s = encoding_cast<std::u32string>(value);
 				if (m_modifier == U'i')
 				{
 					if (m_value.size() <= s.size()
@@ -816,7 +827,7 @@ namespace wordring::wwwc::css
 			case U'$': // [attr$=val]
 			{
 				if (m_value.empty()) return false;
-				std::u32string s = encoding_cast<std::u32string>(traits::value(*it1));
+				std::u32string s = encoding_cast<std::u32string>(value);
 				if (s.size() < m_value.size()) return false;
 				if (m_modifier == U'i')
 				{
@@ -831,7 +842,7 @@ namespace wordring::wwwc::css
 			case U'*': // [attr*=val]
 			{
 				if (m_value.empty()) return false;
-				std::u32string s1 = encoding_cast<std::u32string>(traits::value(*it1));
+				std::u32string s1 = encoding_cast<std::u32string>(value);
 				std::u32string s2 = m_value;
 				if (m_modifier == U'i')
 				{
-- 
2.43.0


From 5ffc10eab8052ab93b4e799eaf8d3d6d53002c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:14 +0000
Subject: [PATCH 076/103] fix: NUL in a comment was emitted as text in front of
 the comment

---
 include/wordring/whatwg/html/parsing/tokenization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tokenization.hpp b/include/wordring/whatwg/html/parsing/tokenization.hpp
index 12340f3..6d81dff 100644
--- a/include/wordring/whatwg/html/parsing/tokenization.hpp
+++ b/include/wordring/whatwg/html/parsing/tokenization.hpp
@@ -1689,7 +1689,7 @@ namespace wordring::whatwg::html::parsing
 				return;
 			case U'\x0':
 				report_error(error_name::unexpected_null_character);
-				emit_token(U'\xFFFD');
+				current_comment_token().m_data.push_back(U'\xFFFD');
 				return;
 			}
 
-- 
2.43.0


From 25a256ca7b5f66529e4625e59674e0205ed2b208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:14 +0000
Subject: [PATCH 077/103] fix: a tag inside <!-- in a script switched the
 tokenizer to attributes

<script><!--<a> lost the rest of the script or hit an assertion.
---
 include/wordring/whatwg/html/parsing/tokenization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tokenization.hpp b/include/wordring/whatwg/html/parsing/tokenization.hpp
index 6d81dff..9ca8878 100644
--- a/include/wordring/whatwg/html/parsing/tokenization.hpp
+++ b/include/wordring/whatwg/html/parsing/tokenization.hpp
@@ -1047,7 +1047,7 @@ namespace wordring::whatwg::html::parsing
 				case U'/':
 				case U'>':
 					if (m_temporary_buffer == U"script") change_state(script_data_double_escaped_state);
-					else change_state(before_attribute_name_state);
+					else change_state(script_data_escaped_state);
 					emit_token(cp);
 					return;
 				}
-- 
2.43.0


From da8ec3a10bc60a0d8b95075688fcdb0c58ca3297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:14 +0000
Subject: [PATCH 078/103] fix: a numeric character reference left the tokenizer
 one character behind

The end state consumes nothing, so the character after it stayed in the buffer
and the end of file was never processed.
---
 include/wordring/whatwg/html/parsing/tokenization.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/wordring/whatwg/html/parsing/tokenization.hpp b/include/wordring/whatwg/html/parsing/tokenization.hpp
index 9ca8878..eb7fa46 100644
--- a/include/wordring/whatwg/html/parsing/tokenization.hpp
+++ b/include/wordring/whatwg/html/parsing/tokenization.hpp
@@ -2717,6 +2717,7 @@ namespace wordring::whatwg::html::parsing
 				if (cp == U';')
 				{
 					change_state(numeric_character_reference_end_state);
+					on_emit_code_point();
 					return;
 				}
 			}
@@ -2741,6 +2742,7 @@ namespace wordring::whatwg::html::parsing
 				if (cp == U';')
 				{
 					change_state(numeric_character_reference_end_state);
+					on_emit_code_point();
 					return;
 				}
 			}
@@ -2788,6 +2790,7 @@ namespace wordring::whatwg::html::parsing
 			m_temporary_buffer.assign(1, m_character_reference_code);
 			flush_code_points_consumed_as_character_reference();
 			change_state(return_state());
+			flush_code_point();
 		}
 
 		// 状態番号 -----------------------------------------------------------
-- 
2.43.0


From ef25ceaeff028173725a18bfea3d27f8ed79a89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:14 +0000
Subject: [PATCH 079/103] fix: numeric character references with many digits
 wrapped around

---
 include/wordring/whatwg/html/parsing/tokenization.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wordring/whatwg/html/parsing/tokenization.hpp b/include/wordring/whatwg/html/parsing/tokenization.hpp
index eb7fa46..fceb03a 100644
--- a/include/wordring/whatwg/html/parsing/tokenization.hpp
+++ b/include/wordring/whatwg/html/parsing/tokenization.hpp
@@ -2709,7 +2709,7 @@ namespace wordring::whatwg::html::parsing
 					else if (is_ascii_upper_hex_digit(cp)) c -= 0x37;
 					else c -= 0x57;
 
-					m_character_reference_code = (m_character_reference_code * 16) + c;
+					if (m_character_reference_code <= 0x10FFFF) m_character_reference_code = (m_character_reference_code * 16) + c;
 
 					return;
 				}
@@ -2735,7 +2735,7 @@ namespace wordring::whatwg::html::parsing
 			{
 				if (is_ascii_digit(cp))
 				{
-					m_character_reference_code = (m_character_reference_code * 10) + (cp - 0x30);
+					if (m_character_reference_code <= 0x10FFFF) m_character_reference_code = (m_character_reference_code * 10) + (cp - 0x30);
 					return;
 				}
 
-- 
2.43.0


From ceaa0f8b71c76d2e5d9321f0e21f9f7d4dd2218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:14 +0000
Subject: [PATCH 080/103] fix: the tokenizer waited for ever once more than the
 needed look-ahead was buffered

---
 include/wordring/whatwg/html/parsing/input_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/input_stream.hpp b/include/wordring/whatwg/html/parsing/input_stream.hpp
index d1e6792..9072771 100644
--- a/include/wordring/whatwg/html/parsing/input_stream.hpp
+++ b/include/wordring/whatwg/html/parsing/input_stream.hpp
@@ -229,7 +229,7 @@ namespace wordring::whatwg::html::parsing
 		bool fill(std::uint32_t n)
 		{
 			m_fill_length += (n - static_cast<std::uint32_t>(m_c.size()));
-			return m_eof || m_c.size() == n;
+			return m_eof || n <= m_c.size();
 		}
 
 		/*! @brief 次の入力文字を消費する
-- 
2.43.0


From 35e97ebcec0c8348fe6112e4bf85d112bf1c1df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:14 +0000
Subject: [PATCH 081/103] fix: a CR at the end of the input could end the
 document twice

---
 include/wordring/whatwg/html/parsing/input_stream.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/wordring/whatwg/html/parsing/input_stream.hpp b/include/wordring/whatwg/html/parsing/input_stream.hpp
index 9072771..24c4bfd 100644
--- a/include/wordring/whatwg/html/parsing/input_stream.hpp
+++ b/include/wordring/whatwg/html/parsing/input_stream.hpp
@@ -141,14 +141,13 @@ namespace wordring::whatwg::html::parsing
 		{
 			this_type* P = static_cast<this_type*>(this);
 
-			m_eof = true;
-
 			if (m_cr_state)
 			{
-				m_c.push_back(U'\n');
-				P->on_emit_code_point();
+				m_cr_state = false;
+				emit_code_point(U'\n');
 			}
 
+			m_eof = true;
 			P->on_emit_code_point();
 		}
 
-- 
2.43.0


From 0647b5e813ef40e3509ffd80ce3d7ffb4368a5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:27 +0000
Subject: [PATCH 082/103] fix: basic_simple_parser::parse never told the parser
 that the input had ended

Text waiting for look-ahead was lost and the implied html, head and body
elements of short documents were missing.
---
 include/wordring/html/simple_parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/wordring/html/simple_parser.hpp b/include/wordring/html/simple_parser.hpp
index 3e09367..b4fbc2d 100644
--- a/include/wordring/html/simple_parser.hpp
+++ b/include/wordring/html/simple_parser.hpp
@@ -297,6 +297,8 @@ namespace wordring::html
 				}
 			}
 			else assert(false);
+
+			base_type::push_eof();
 		}
 
 		container get()
-- 
2.43.0


From 467b25465e61cf86acc74038768cea9dbbf1e0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 083/103] fix: a second <body> tag was ignored instead of
 adding its attributes

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index 6761a8b..e7d682d 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -2275,7 +2275,7 @@ namespace wordring::whatwg::html::parsing
 				{
 					base_type::report_error();
 					if (m_stack.size() == 1
-						|| is_html_element_of(m_stack[1].m_it, tag_name::Body)
+						|| !is_html_element_of(m_stack[1].m_it, tag_name::Body)
 						|| contains(ns_name::HTML, tag_name::Template)) return;
 
 					m_frameset_ok_flag = false;
-- 
2.43.0


From a510316977eaa24441cad513634478ccca0492fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 084/103] fix: a frameset that follows ignorable body content
 did not replace the body

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp     | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index e7d682d..a53ceb3 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -2298,12 +2298,11 @@ namespace wordring::whatwg::html::parsing
 				{
 					base_type::report_error();
 					if (m_stack.size() == 1
-					 || is_html_element_of(m_stack[1].m_it, tag_name::Body)) return;
+					 || !is_html_element_of(m_stack[1].m_it, tag_name::Body)) return;
 
 					if (m_frameset_ok_flag == false) return;
 
-					node_pointer it = traits::parent(m_stack[1].m_it);
-					if (traits::parent(it) != P->get_document()) P->erase_element(it);
+					P->erase_element(m_stack[1].m_it);
 					while (!is_html_element_of(current_node().m_it, tag_name::Html)) m_stack.pop_back();
 					insert_html_element(token);
 					insertion_mode(mode_name::in_frameset_insertion_mode);
-- 
2.43.0


From 7e6068d4de6bb20af2a1a8e00b9dfc864405d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 085/103] fix: <li> looked only at the current node for the
 item to close

---
 .../parsing/tree_construction_dispatcher.hpp     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index a53ceb3..df13c81 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -2482,18 +2482,18 @@ namespace wordring::whatwg::html::parsing
 						if (is_html_element_of(it, tag_name::Li))
 						{
 							generate_implied_end_tags(tag_name::Li);
-							if (is_html_element_of(current_node().m_it, tag_name::Li)) base_type::report_error();
+							if (!is_html_element_of(current_node().m_it, tag_name::Li)) base_type::report_error();
 							pop_until(ns_name::HTML, tag_name::Li);
 							break;
 						}
-						if (is_special(it) &&
-								(is_html_element_of(it, tag_name::Address)
-							  || is_html_element_of(it, tag_name::Div)
-							  || is_html_element_of(it, tag_name::P))) break;
-						if (in_specific_scope(button_scope, tag_name::P)) close_p_element();
-						insert_html_element(token);
-						return;
+						if (is_special(it)
+							&& !is_html_element_of(it, tag_name::Address)
+							&& !is_html_element_of(it, tag_name::Div)
+							&& !is_html_element_of(it, tag_name::P)) break;
 					}
+					if (in_specific_scope(button_scope, tag_name::P)) close_p_element();
+					insert_html_element(token);
+					return;
 				}
 			}
 
-- 
2.43.0


From 296792ede8bfabc95c31e2640116db2ce87d49f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 086/103] fix: <button> inside of a p emptied the stack of open
 elements

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index df13c81..7028aa1 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -2552,7 +2552,7 @@ namespace wordring::whatwg::html::parsing
 			{
 				if (token.m_tag_name_id == tag_name::Button)
 				{
-					if (in_specific_scope(default_scope, tag_name::P))
+					if (in_specific_scope(default_scope, tag_name::Button))
 					{
 						base_type::report_error();
 						generate_implied_end_tags();
-- 
2.43.0


From 85f944baf85816c188eff17d0bafd7e91c9e430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 087/103] fix: </dd> and </dt> closed an enclosing element of
 the same name as well

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index 7028aa1..29704c9 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -2664,6 +2664,7 @@ namespace wordring::whatwg::html::parsing
 					generate_implied_end_tags(std::make_pair(ns_name::HTML, token.m_tag_name_id));
 					if (!is_html_element_of(current_node().m_it, token.m_tag_name_id)) base_type::report_error();
 					pop_until(ns_name::HTML, token.m_tag_name_id);
+					return;
 				}
 			}
 
-- 
2.43.0


From 215c801445a9495f0cd70717e72c48c803586ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 088/103] fix: attributes of <svg> itself kept their lower case
 names

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index 29704c9..bb0c258 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -3048,7 +3048,7 @@ namespace wordring::whatwg::html::parsing
 				if (token.m_tag_name_id == tag_name::Svg)
 				{
 					reconstruct_formatting_element_list();
-					adjust_mathml_attributes(token);
+					adjust_svg_attributes(token);
 					adjust_foreign_attributes(token);
 					insert_foreign_element(token, ns_name::SVG);
 					if (token.m_self_closing_flag)
-- 
2.43.0


From d868a2f20ba0bb1766f24f25efe4853d7a706f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 089/103] fix: a foreign element kept a table from being
 cleared back to its context

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index bb0c258..25f3088 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -3550,14 +3550,14 @@ namespace wordring::whatwg::html::parsing
 			while (!m_stack.empty())
 			{
 				node_pointer it = current_node().m_it;
-				if (traits::get_namespace_name(it) != ns_name::HTML) return;
 				switch (traits::get_local_name_name(it))
 				{
 				case tag_name::Table: case tag_name::Template: case tag_name::Html:
-					return;
+					if (traits::get_namespace_name(it) == ns_name::HTML) return;
 				default:
-					m_stack.pop_back();
+					break;
 				}
+				m_stack.pop_back();
 			}
 		}
 
-- 
2.43.0


From f0df52a34f62ebf6d5f4041d09bca1bd6cc84250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 090/103] fix: a cell in a template was moved out of the
 template

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index 25f3088..a338eea 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -4019,7 +4019,7 @@ namespace wordring::whatwg::html::parsing
 			{
 				node_pointer it = current_node().m_it;
 				if (is_html_element_of(it, tag_name::Tr)
-				 || is_html_element_of(it, tag_name::Table)
+				 || is_html_element_of(it, tag_name::Template)
 				 || is_html_element_of(it, tag_name::Html)) return;
 
 				m_stack.pop_back();
-- 
2.43.0


From 840fd4818938d2ac3a8690fd39d0e1ad9d6dfd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 091/103] fix: table end tags inside of a select in a table
 were ignored

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index a338eea..2ca6f91 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -4304,7 +4304,7 @@ namespace wordring::whatwg::html::parsing
 				case tag_name::Caption: case tag_name::Table: case tag_name::Tbody: case tag_name::Tfoot: case tag_name::Thead:
 				case tag_name::Tr:      case tag_name::Td:    case tag_name::Th:
 					base_type::report_error();
-					if (!in_specific_scope(select_scope, token.m_tag_name_id)) return;
+					if (!in_specific_scope(table_scope, token.m_tag_name_id)) return;
 					pop_until(ns_name::HTML, tag_name::Select);
 					reset_insertion_mode_appropriately();
 					reprocess_token(token);
-- 
2.43.0


From a65f66f8c40e5de99a673554166b3f094a6c1f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 092/103] fix: <font color> did not break out of foreign
 content

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index 2ca6f91..e1ab8b7 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -4849,9 +4849,9 @@ namespace wordring::whatwg::html::parsing
 				}
 				if (!f && token.m_tag_name_id == tag_name::Font)
 				{
-					if (token.find(U"Color") != token.end()
-					 || token.find(U"Face") != token.end()
-					 || token.find(U"Size") != token.end()) f = true;
+					if (token.find(U"color") != token.end()
+					 || token.find(U"face") != token.end()
+					 || token.find(U"size") != token.end()) f = true;
 				}
 			}
 			if (f)
-- 
2.43.0


From 412ef1b8fd88184ff63c9b8b1e79eb10cb28bae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 093/103] fix: breaking out of foreign content closed one
 element too many

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp         | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index e1ab8b7..08fc887 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -4858,7 +4858,6 @@ namespace wordring::whatwg::html::parsing
 			{
 				base_type::report_error();
 				if(m_fragments_parser) goto AnyOtherStartTag;
-				m_stack.pop_back();
 				while (true)
 				{
 					m_stack.pop_back();
-- 
2.43.0


From ce84e5585220f9cb621b6c062ab57152c1e4862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 094/103] fix: misplaced content of a template without a table
 was moved to the html element

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp     | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index 08fc887..09b9381 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -1265,10 +1265,7 @@ namespace wordring::whatwg::html::parsing
 
 				if (last_template != m_stack.end())
 				{
-					std::int32_t distance = 0;
-					if (last_table != m_stack.end()) distance = static_cast<std::int32_t>(std::distance(last_table, last_template));
-
-					if (0 < distance)
+					if (last_table == m_stack.end() || 0 < std::distance(last_table, last_template))
 					{
 						adjusted_insertion_location = traits::end(last_template->m_it);
 						goto Abort;
-- 
2.43.0


From 6b8be1c8fb2a25ae84cce7af906c8bd5ac93122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 095/103] fix: formatting elements of different names or
 attribute values counted as the same

---
 include/wordring/html/simple_traits.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/wordring/html/simple_traits.hpp b/include/wordring/html/simple_traits.hpp
index 7c7f8ed..386e089 100644
--- a/include/wordring/html/simple_traits.hpp
+++ b/include/wordring/html/simple_traits.hpp
@@ -7,6 +7,7 @@
 #include <wordring/compatibility.hpp>
 #include <wordring/tree/tree.hpp>
 
+#include <algorithm>
 #include <iterator>
 #include <string>
 #include <variant>
@@ -127,7 +128,12 @@ namespace wordring::html
 		*/
 		static bool equals(node_pointer lhs, node_pointer rhs)
 		{
-			return *lhs == *rhs;
+			if (get_namespace(lhs) != get_namespace(rhs) || get_local_name(lhs) != get_local_name(rhs)) return false;
+			if (std::distance(abegin(lhs), aend(lhs)) != std::distance(abegin(rhs), aend(rhs))) return false;
+
+			return std::all_of(abegin(lhs), aend(lhs), [&](attribute_type const& a) {
+				return std::any_of(abegin(rhs), aend(rhs), [&](attribute_type const& b) {
+					return a == b && a.value() == b.value(); }); });
 		}
 
 		/*! @brief 要素ノードから最初の属性を指すイテレータを取得する
-- 
2.43.0


From c79eed94bc1af28895ddcdbdc262b9444b5c5a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 096/103] fix: an attribute could inherit the namespace prefix
 of an earlier one

---
 include/wordring/whatwg/html/parsing/token.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/wordring/whatwg/html/parsing/token.hpp b/include/wordring/whatwg/html/parsing/token.hpp
index 06c00ed..82a5710 100644
--- a/include/wordring/whatwg/html/parsing/token.hpp
+++ b/include/wordring/whatwg/html/parsing/token.hpp
@@ -60,6 +60,7 @@ namespace wordring::whatwg::html::parsing
 		void clear()
 		{
 			m_namespace = static_cast<ns_name>(0);
+			m_prefix.clear();
 			m_name.clear();
 			m_value.clear();
 			m_omitted = false;
-- 
2.43.0


From 6ab49652ac600e94e1fc2d143d2d9b488a86d52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:44 +0000
Subject: [PATCH 097/103] fix: SVG elements such as foreignObject kept their
 lower case names

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index 09b9381..4d85fd9 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -4876,7 +4876,12 @@ namespace wordring::whatwg::html::parsing
 				else if (ns == ns_name::SVG)
 				{
 					auto it1 = svg_elements_conversion_tbl.find(token.m_tag_name);
-					if (it1 != svg_elements_conversion_tbl.end()) token.m_tag_name = it1->second;
+					if (it1 != svg_elements_conversion_tbl.end())
+					{
+						token.m_tag_name = it1->second;
+						auto it2 = tag_atom_tbl.find(token.m_tag_name);
+						token.m_tag_name_id = (it2 == tag_atom_tbl.end()) ? static_cast<tag_name>(0) : it2->second;
+					}
 
 					adjust_svg_attributes(token);
 				}
-- 
2.43.0


From be23e498ee459101adddf0a7c120a86c3285d51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:00 +0000
Subject: [PATCH 098/103] fix: the adoption agency algorithm kept a bookmark to
 a removed list entry

---
 .../whatwg/html/parsing/tree_construction_dispatcher.hpp         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index 4d85fd9..ac59b48 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -3235,6 +3235,7 @@ namespace wordring::whatwg::html::parsing
 				// 14.5.
 				if (3 < inner_loop_counter && find_from_list(node) != m_list.end())
 				{
+					if (bookmark == find_from_list(node)) ++bookmark;
 					remove_from_list(node);
 				}
 				// 14.6.
-- 
2.43.0


From ff4195c6e5583a9de19e75b28a1fc00e67e76da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:46 +0000
Subject: [PATCH 099/103] fix: an empty system identifier counted as a missing
 one when choosing the document mode

---
 include/wordring/whatwg/html/parsing/token.hpp   | 12 +++++++++++-
 .../whatwg/html/parsing/tokenization.hpp         | 16 ++++++++--------
 .../parsing/tree_construction_dispatcher.hpp     |  4 ++--
 3 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/include/wordring/whatwg/html/parsing/token.hpp b/include/wordring/whatwg/html/parsing/token.hpp
index 82a5710..48a3637 100644
--- a/include/wordring/whatwg/html/parsing/token.hpp
+++ b/include/wordring/whatwg/html/parsing/token.hpp
@@ -22,7 +22,8 @@ namespace wordring::whatwg::html::parsing
 	struct DOCTYPE_token
 	{
 		DOCTYPE_token()
-			: m_force_quirks_flag(false)
+			: m_system_identifier_missing(true)
+			, m_force_quirks_flag(false)
 		{
 		}
 
@@ -32,12 +33,21 @@ namespace wordring::whatwg::html::parsing
 			m_public_identifier.clear();
 			m_system_identifier.clear();
 
+			m_system_identifier_missing = true;
 			m_force_quirks_flag = false;
 		}
 
+		/*! @brief システム識別子を空文字列に設定する（欠如ではなくなる） */
+		void start_system_identifier()
+		{
+			m_system_identifier.clear();
+			m_system_identifier_missing = false;
+		}
+
 		std::u32string m_name;
 		std::u32string m_public_identifier;
 		std::u32string m_system_identifier;
+		bool m_system_identifier_missing;
 		bool m_force_quirks_flag;
 
 	};
diff --git a/include/wordring/whatwg/html/parsing/tokenization.hpp b/include/wordring/whatwg/html/parsing/tokenization.hpp
index fceb03a..b438e0d 100644
--- a/include/wordring/whatwg/html/parsing/tokenization.hpp
+++ b/include/wordring/whatwg/html/parsing/tokenization.hpp
@@ -2216,12 +2216,12 @@ namespace wordring::whatwg::html::parsing
 				return;
 			case U'"':
 				report_error(error_name::missing_whitespace_between_doctype_public_and_system_identifiers);
-				current_DOCTYPE_token().m_system_identifier.clear();
+				current_DOCTYPE_token().start_system_identifier();
 				change_state(DOCTYPE_system_identifier_double_quoted_state);
 				return;
 			case U'\'':
 				report_error(error_name::missing_whitespace_between_doctype_public_and_system_identifiers);
-				current_DOCTYPE_token().m_system_identifier.clear();
+				current_DOCTYPE_token().start_system_identifier();
 				change_state(DOCTYPE_system_identifier_single_quoted_state);
 				return;
 			}
@@ -2257,11 +2257,11 @@ namespace wordring::whatwg::html::parsing
 				emit_token(current_DOCTYPE_token());
 				return;
 			case U'"':
-				current_DOCTYPE_token().m_system_identifier.clear();
+				current_DOCTYPE_token().start_system_identifier();
 				change_state(DOCTYPE_system_identifier_double_quoted_state);
 				return;
 			case U'\'':
-				current_DOCTYPE_token().m_system_identifier.clear();
+				current_DOCTYPE_token().start_system_identifier();
 				change_state(DOCTYPE_system_identifier_single_quoted_state);
 				return;
 			}
@@ -2295,12 +2295,12 @@ namespace wordring::whatwg::html::parsing
 				return;
 			case U'"':
 				report_error(error_name::missing_whitespace_after_doctype_system_keyword);
-				current_DOCTYPE_token().m_system_identifier.clear();
+				current_DOCTYPE_token().start_system_identifier();
 				change_state(DOCTYPE_system_identifier_double_quoted_state);
 				return;
 			case U'\'':
 				report_error(error_name::missing_whitespace_after_doctype_system_keyword);
-				current_DOCTYPE_token().m_system_identifier.clear();
+				current_DOCTYPE_token().start_system_identifier();
 				change_state(DOCTYPE_system_identifier_single_quoted_state);
 				return;
 			case U'>':
@@ -2338,11 +2338,11 @@ namespace wordring::whatwg::html::parsing
 			case U'\x20': // SPACE
 				return;
 			case U'"':
-				current_DOCTYPE_token().m_system_identifier.clear();
+				current_DOCTYPE_token().start_system_identifier();
 				change_state(DOCTYPE_system_identifier_double_quoted_state);
 				return;
 			case U'\'':
-				current_DOCTYPE_token().m_system_identifier.clear();
+				current_DOCTYPE_token().start_system_identifier();
 				change_state(DOCTYPE_system_identifier_single_quoted_state);
 				return;
 			case U'>':
diff --git a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
index ac59b48..8c1eb92 100644
--- a/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
+++ b/include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp
@@ -1628,7 +1628,7 @@ namespace wordring::whatwg::html::parsing
 
 			if (quirks_mode_tbl.lookup(ipublic.begin(), ipublic.end()).first) return true;
 
-			if (token.m_system_identifier.empty())
+			if (token.m_system_identifier_missing)
 			{
 				std::u32string_view constexpr sv1(U"-//w3c//dtd html 4.01 frameset//");
 				if (sv1.size() <= ipublic.size() && std::equal(sv1.begin(), sv1.end(), ipublic.begin())) return true;
@@ -1646,7 +1646,7 @@ namespace wordring::whatwg::html::parsing
 			if (istart_with(U"-//w3c//dtd xhtml 1.0 frameset//", token.m_public_identifier)) return true;
 			if (istart_with(U"-//w3c//dtd xhtml 1.0 transitional//", token.m_public_identifier)) return true;
 
-			if (!token.m_system_identifier.empty())
+			if (!token.m_system_identifier_missing)
 			{
 				if (istart_with(U"-//w3c//dtd html 4.01 frameset//", token.m_public_identifier)) return true;
 				if (istart_with(U"-//w3c//dtd html 4.01 transitional//", token.m_public_identifier)) return true;
-- 
2.43.0


From 3ecd64d912108664099946e271b09ab35f874160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:25 +0000
Subject: [PATCH 100/103] fix: serialising a text outside any element asserts

---
 include/wordring/whatwg/html/parsing/serializing.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/wordring/whatwg/html/parsing/serializing.hpp b/include/wordring/whatwg/html/parsing/serializing.hpp
index 2aa49dc..6119a4e 100644
--- a/include/wordring/whatwg/html/parsing/serializing.hpp
+++ b/include/wordring/whatwg/html/parsing/serializing.hpp
@@ -224,11 +224,9 @@ namespace wordring::whatwg::html
 			else if (traits::is_text(current_node))
 			{
 				node_pointer parent = traits::parent(current_node);
-				ns_name  ns  = traits::get_namespace_name(parent);
-				tag_name tag = traits::get_local_name_name(parent);
-				if (ns == ns_name::HTML)
+				if (traits::is_element(parent) && traits::get_namespace_name(parent) == ns_name::HTML)
 				{
-					switch (tag)
+					switch (traits::get_local_name_name(parent))
 					{
 					case tag_name::Style:   case tag_name::Script:   case tag_name::Xmp:       case tag_name::Iframe:
 					case tag_name::Noembed: case tag_name::Noframes: case tag_name::Plaintext:
-- 
2.43.0


From 963947348712994a3eb958e9683fbf416189b9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:25 +0000
Subject: [PATCH 101/103] fix: the children of a void element were serialised
 behind it

---
 include/wordring/whatwg/html/parsing/serializing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wordring/whatwg/html/parsing/serializing.hpp b/include/wordring/whatwg/html/parsing/serializing.hpp
index 6119a4e..f166bce 100644
--- a/include/wordring/whatwg/html/parsing/serializing.hpp
+++ b/include/wordring/whatwg/html/parsing/serializing.hpp
@@ -198,7 +198,7 @@ namespace wordring::whatwg::html
 				it1 = traits::begin(current_node);
 				it2 = traits::end(current_node);
 				pos = y.end();
-				while (it1 != it2) pos = y.insert(pos, it1++);
+				if (!serializes_as_void(current_node)) while (it1 != it2) pos = y.insert(pos, it1++);
 			}
 
 			if (traits::is_element(current_node))
-- 
2.43.0


From 6f2e7181691f0ac465bb07e6e10ff7fe21c92e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:44 +0000
Subject: [PATCH 102/103] fix: a byte order mark did not decide the encoding of
 an HTML document

---
 include/wordring/html/simple_parser.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/wordring/html/simple_parser.hpp b/include/wordring/html/simple_parser.hpp
index b4fbc2d..d708a29 100644
--- a/include/wordring/html/simple_parser.hpp
+++ b/include/wordring/html/simple_parser.hpp
@@ -281,6 +281,17 @@ namespace wordring::html
 			{
 				using namespace wordring::whatwg::encoding;
 
+				// BOM は、指定や文書内の宣言より優先する
+				io_queue<char> head;
+				std::size_t n = 0;
+				for (iterator it = first; it != last && n < 3; ++it, ++n) head.push(static_cast<char>(*it));
+				head.push(io_item<char>{ '\0', true });
+				if (encoding_name bom = *bom_sniff(head); bom != static_cast<encoding_name>(0))
+				{
+					base_type::m_encoding_name = bom;
+					base_type::m_encoding_confidence = encoding_confidence_name::certain;
+				}
+
 				text_decoder dec;
 			Start:
 				if (base_type::m_encoding_name == static_cast<encoding_name>(0)) base_type::m_encoding_name = encoding_name::UTF_8;
-- 
2.43.0


From f4e0ffc153607b4d6f066b780afddeaa28b8f008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:44 +0000
Subject: [PATCH 103/103] fix: parsing throws for a document declaring a
 replacement encoding

---
 include/wordring/html/simple_parser.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/wordring/html/simple_parser.hpp b/include/wordring/html/simple_parser.hpp
index d708a29..7617cee 100644
--- a/include/wordring/html/simple_parser.hpp
+++ b/include/wordring/html/simple_parser.hpp
@@ -295,8 +295,16 @@ namespace wordring::html
 				text_decoder dec;
 			Start:
 				if (base_type::m_encoding_name == static_cast<encoding_name>(0)) base_type::m_encoding_name = encoding_name::UTF_8;
-				dec = text_decoder(base_type::m_encoding_name, false, false);
-				std::u32string s = dec.decode(first, last);
+				std::u32string s;
+				if (base_type::m_encoding_name == encoding_name::replacement)
+				{
+					if (first != last) s.push_back(U'\xFFFD');
+				}
+				else
+				{
+					dec = text_decoder(base_type::m_encoding_name, false, false);
+					s = dec.decode(first, last);
+				}
 				for (auto cp : s)
 				{
 					base_type::push_code_point(cp);
-- 
2.43.0

