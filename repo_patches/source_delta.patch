From fc57b958a912da41be854a933ca153195919af9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 01/55] fix: list::resize(0) removes all elements

---
 ttl/list.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 565cdc5..17fb248 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -360,6 +360,11 @@ namespace ttl
    template<typename T>
    void list<T>::resize(size_type newsize)
    {
+      if (newsize == 0)
+      {
+         clear();
+         return;
+      }
       size_type siz = 0;
       list_node *p;
       for (p = head_.next; p != &head_; p = p->next)
@@ -379,6 +384,11 @@ namespace ttl
    template<typename T>
    void list<T>::resize(size_type newsize, const T &value)
    {
+      if (newsize == 0)
+      {
+         clear();
+         return;
+      }
       size_type siz = 0;
       list_node *p;
       for (p = head_.next; p != &head_; p = p->next)
-- 
2.43.0


From e28bddf8b474d3d0642184056a81e04d52774d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 02/55] fix: list::resize value-initializes the new elements

---
 ttl/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 17fb248..d051a29 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -124,7 +124,7 @@ namespace ttl
       struct node: list_node
       {
          T value;
-         node() {}
+         node(): value() {}
          node(const T &v): value(v) {}
       };
       list_node head_;
-- 
2.43.0


From b8eed5635a90f03262048d3b3adeca9430f402a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 03/55] fix: list::clear leaves a usable list

The head's prev pointer was left pointing to the last deleted node.
---
 ttl/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index d051a29..8ad6471 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -411,7 +411,7 @@ namespace ttl
       while (head_.next != &head_)
       {
          node *p = static_cast<node *>(head_.next);
-         head_.next = head_.next->next;
+         p->unlink();
          delete p;
       }
    }
-- 
2.43.0


From f4da7aaca21fdad3eecfc01c7d905015aec2a925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 04/55] fix: list::splice of an empty range and in front of the
 range's own end

An empty list or range, or a position which already follows the
spliced elements, corrupted the links.
---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 8ad6471..b9defb7 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -35,6 +35,8 @@ namespace ttl
 
       void splice(list_node *first, list_node *last)
       {
+         if (first == last || this == last)
+            return;
          last->prev->next = this;
          first->prev->next = last;
          this->prev->next = first;
-- 
2.43.0


From 950d04fcf9a479c362d3fdae80e277e31e65d99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 05/55] fix: list::swap of two empty lists

---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index b9defb7..eae569e 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -78,6 +78,8 @@ namespace ttl
                t = a, a = b, b = t; // swap
             }
          }
+         else if (b == b->next)
+            return;
          a->prev = b->prev;
          a->next = b->next;
          b->prev->next = b->next->prev = a;
-- 
2.43.0


From 44b64cfee618c41af5b0123a34b4dbfa2732bbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 06/55] fix: list self-assignment keeps the elements

---
 ttl/list.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index eae569e..826d646 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -213,8 +213,11 @@ namespace ttl
 
       list &operator=(const list &other)
       {
-         clear();
-         insert(begin(), other.cbegin(), other.cend());
+         if (this != &other)
+         {
+            clear();
+            insert(begin(), other.cbegin(), other.cend());
+         }
          return *this;
       }
 
-- 
2.43.0


From 3bbce40c63273ddbd7d9ae0e96f32c9ef7a4046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 07/55] fix: list::erase of an empty range erases nothing

It went around the ring and deleted everything, head included.
---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 826d646..34ec00e 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -426,6 +426,8 @@ namespace ttl
    typename list<T>::iterator list<T>::erase(const_iterator pos, const_iterator last)
    {
       list_node *p = const_cast<list_node *>(pos.head_);
+      if (p == last.head_)
+         return iterator(p);
       while (p->next != last.head_)
       {
          node *next = static_cast<node *>(p->next);
-- 
2.43.0


From 15f1e5a3cae46289cb1d39baa609104314388133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 08/55] fix: merging a list into itself does nothing

It used to loop forever or lose elements.
---
 ttl/list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 34ec00e..d46e676 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -488,6 +488,8 @@ namespace ttl
    template<typename T>
    void list<T>::merge(list &other) // merge sorted lists
    {
+      if (this == &other)
+         return;
       list_node *o = other.head_.next;
       for (list_node *i = head_.next; o != &other.head_ && i != &head_;)
       {
@@ -509,6 +511,8 @@ namespace ttl
    template<typename Compare>
    void list<T>::merge(list &other, Compare cmp)
    {
+      if (this == &other)
+         return;
       list_node *o = other.head_.next;
       for (list_node *i = head_.next; o != &other.head_ && i != &head_;)
       {
-- 
2.43.0


From e3f9f09d3d7c990deef141ebbcfd3af80143a465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 09/55] fix: splice_after of the element at the position itself
 changes nothing

---
 ttl/slist_node.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/slist_node.hpp b/ttl/slist_node.hpp
index 1c9b74a..7f147cb 100644
--- a/ttl/slist_node.hpp
+++ b/ttl/slist_node.hpp
@@ -30,6 +30,8 @@ namespace ttl
       void splice_after(slist_node *o)
       {
          slist_node *n = o->next;
+         if (this == o || this == n)
+            return;
          o->next = n->next;
          n->next = next;
          next = n;
-- 
2.43.0


From 7e2779b7ad0458cd57c8f4c9d46fd02c5210bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 10/55] fix: splice_after of an empty range or of the range
 after the position

---
 ttl/slist_node.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/slist_node.hpp b/ttl/slist_node.hpp
index 7f147cb..4741aad 100644
--- a/ttl/slist_node.hpp
+++ b/ttl/slist_node.hpp
@@ -38,6 +38,8 @@ namespace ttl
       }
       void splice_after(slist_node *f, slist_node *l)
       {
+         if (f == l || f->next == l || this == f)
+            return;
          slist_node *n = next;
          next = f->next;
          slist_node *o = f;
-- 
2.43.0


From 4f3286bf4548bc2e8e474c37590bc028802d33d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 11/55] fix: forward_list self-assignment keeps the elements

---
 ttl/forward_list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/forward_list.hpp b/ttl/forward_list.hpp
index df44e9a..86615ac 100644
--- a/ttl/forward_list.hpp
+++ b/ttl/forward_list.hpp
@@ -108,6 +108,8 @@ namespace ttl
 
       forward_list &operator=(const forward_list &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
-- 
2.43.0


From 13b2d984061cde6110cb222c31b5228adcc0391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 12/55] fix: backward_list self-assignment keeps the elements

---
 ttl/backward_list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index f46213f..d70acf2 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -120,6 +120,8 @@ namespace ttl
 
       backward_list &operator=(const backward_list &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
-- 
2.43.0


From ca87e2d7a40e5e3ea071e4aa00ac5ac398e9bbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 13/55] fix: lazy_queue self-assignment keeps the elements

---
 ttl/lazy_queue.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index 446ccec..b9712cb 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -144,6 +144,8 @@ namespace ttl
 
       lazy_queue &operator=(const lazy_queue &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
-- 
2.43.0


From 5faa9b3092465afad137e9341bb85c1d0d17d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 14/55] fix: backward_list range insertion at the end updates
 the tail

---
 ttl/backward_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index d70acf2..d308309 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -268,7 +268,7 @@ namespace ttl
       for ( ; first != last; ++first)
          p = p->insert_after(new node(*first));
       if (pn == tail_)
-         tail_ = pn;
+         tail_ = p;
    }
    template<typename T>
    void backward_list<T>::clear()
-- 
2.43.0


From 68eb290bb9d976fdf11d32d6efb1181d5707a399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 15/55] fix: backward_list::pop_front of the last element
 resets the tail

---
 ttl/backward_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index d308309..ba290f3 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -175,7 +175,7 @@ namespace ttl
       void pop_front()
       {
          delete static_cast<node *>(head_.unlink_next());
-         if (empty())
+         if (!head_.next)
             tail_ = &head_;
       }
 
-- 
2.43.0


From 28eb2e20a20bafa765d13f2b50ab8457216184b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 16/55] fix: backward_list::swap with an empty object keeps the
 tails in their own objects

---
 ttl/backward_list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index ba290f3..517ad34 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -221,6 +221,10 @@ namespace ttl
       {
          ttl::swap(head_.next, other.head_.next);
          ttl::swap(tail_, other.tail_);
+         if (!head_.next)
+            tail_ = &head_;
+         if (!other.head_.next)
+            other.tail_ = &other.head_;
       }
 
       void clear();
-- 
2.43.0


From 0f0a423b92b9fbd17be5bf0af905bcd28b7ce247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 17/55] fix: lazy_queue::swap with an empty object keeps the
 tails in their own objects

---
 ttl/lazy_queue.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index b9712cb..a995462 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -209,6 +209,10 @@ namespace ttl
       {
          ttl::swap(head_.next, other.head_.next);
          ttl::swap(tail_, other.tail_);
+         if (!head_.next)
+            tail_ = &head_;
+         if (!other.head_.next)
+            other.tail_ = &other.head_;
       }
 
       void clear();
-- 
2.43.0


From ff81a8731d26a99d403300d2423557e3f3b401ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 18/55] fix: backward_list::reverse of an empty list keeps the
 tail

---
 ttl/backward_list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index 517ad34..dd0c872 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -294,6 +294,8 @@ namespace ttl
    template<typename T>
    void backward_list<T>::reverse()
    {
+      if (!head_.next)
+         return;
       tail_ = head_.next;
       head_.reverse();
    }
-- 
2.43.0


From 2f1b1e7c1c0cc86cd702ddd518b294de30d56573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 19/55] fix: lazy_queue::cleanup only releases the memory of
 dead nodes

---
 ttl/lazy_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index a995462..ecbf7ff 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -139,7 +139,7 @@ namespace ttl
       void cleanup()
       {
          while (dead_.next)
-            ::delete(static_cast<node *>(dead_.unlink_next()));
+            ::operator delete(static_cast<node *>(dead_.unlink_next()));
       }
 
       lazy_queue &operator=(const lazy_queue &other)
-- 
2.43.0


From 3cc2bf2e7c68f610668732284f6a01f22415f02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 20/55] fix: map::upper_bound of an absent key

---
 ttl/map.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index 1a52ced..c6145a2 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -273,18 +273,12 @@ namespace ttl
    template<typename KT, typename T, typename Compare>
    typename map<KT,T,Compare>::iterator map<KT,T,Compare>::upper_bound(const KT &key)
    {
-      node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return iterator(static_cast<node_type *>(rbtree_base::next_node(lo)));
+      return iterator(rbtree_.upper_bound(key));
    }
    template<typename KT, typename T, typename Compare>
    typename map<KT,T,Compare>::const_iterator map<KT,T,Compare>::upper_bound(const KT &key) const
    {
-      const node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return const_iterator(static_cast<const node_type *>(rbtree_base::next_node(lo)));
+      return const_iterator(rbtree_.upper_bound(key));
    }
 
    template<typename KT, typename T, typename Compare>
-- 
2.43.0


From 41da23919470f1954ae69054de6be82c2b2f490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 21/55] fix: map::equal_range of an absent key

---
 ttl/map.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index c6145a2..691f948 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -286,9 +286,7 @@ namespace ttl
    map<KT,T,Compare>::equal_range(const KT &key)
    {
       node_type *lo = rbtree_.lower_bound(key);
-      node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<node_type *>(rbtree_base::next_node(lo));
+      node_type *up = rbtree_.upper_bound(key);
       return pair<iterator, iterator>(iterator(lo), iterator(up));
    }
    template<typename KT, typename T, typename Compare>
@@ -296,9 +294,7 @@ namespace ttl
    map<KT,T,Compare>::equal_range(const KT &key) const
    {
       const node_type *lo = rbtree_.lower_bound(key);
-      const node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<const node_type *>(rbtree_base::next_node(lo));
+      const node_type *up = rbtree_.upper_bound(key);
       return pair<const_iterator, const_iterator>(const_iterator(lo), const_iterator(up));
    }
 
-- 
2.43.0


From 2bae17f7a6368b40d2fcb7d76ebbb18be4d81eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 22/55] fix: set::upper_bound of an absent key

---
 ttl/set.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ttl/set.hpp b/ttl/set.hpp
index a989355..daa08eb 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -250,18 +250,12 @@ namespace ttl
    template<typename KT, typename Compare>
    typename set<KT,Compare>::iterator set<KT,Compare>::upper_bound(const KT &key)
    {
-      node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return iterator(static_cast<node_type *>(rbtree_base::next_node(lo)));
+      return iterator(rbtree_.upper_bound(key));
    }
    template<typename KT, typename Compare>
    typename set<KT,Compare>::const_iterator set<KT,Compare>::upper_bound(const KT &key) const
    {
-      const node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return const_iterator(static_cast<const node_type *>(rbtree_base::next_node(lo)));
+      return const_iterator(rbtree_.upper_bound(key));
    }
 
    template<typename KT, typename Compare>
-- 
2.43.0


From e9346e03991729a2d01b771d93ef6bfd9d1611f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 23/55] fix: set::equal_range of an absent key

---
 ttl/set.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ttl/set.hpp b/ttl/set.hpp
index daa08eb..646c9b2 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -263,9 +263,7 @@ namespace ttl
    set<KT,Compare>::equal_range(const KT &key)
    {
       node_type *lo = rbtree_.lower_bound(key);
-      node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<node_type *>(rbtree_base::next_node(lo));
+      node_type *up = rbtree_.upper_bound(key);
       return pair<iterator, iterator>(iterator(lo), iterator(up));
    }
    template<typename KT, typename Compare>
@@ -273,9 +271,7 @@ namespace ttl
    set<KT,Compare>::equal_range(const KT &key) const
    {
       const node_type *lo = rbtree_.lower_bound(key);
-      const node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<const node_type *>(rbtree_base::next_node(lo));
+      const node_type *up = rbtree_.upper_bound(key);
       return pair<const_iterator, const_iterator>(const_iterator(lo), const_iterator(up));
    }
 
-- 
2.43.0


From 876f1b7d0a23d9867509179a2396c26faf9f7012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 24/55] fix: rbtree::assign of the tree itself keeps the
 entries

---
 ttl/rbtree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index addb86a..bc51f25 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -332,6 +332,8 @@ namespace ttl
    template <class K, class KV, class KeyOfValue, class Compare>
    void rbtree<K,KV,KeyOfValue,Compare>::assign(const rbtree &other)
    {
+      if (this == &other)
+         return;
       if (root_())
          clear();
       const node *otherroot = other.get_root();
-- 
2.43.0


From aa0b47995e92ae440098713fd1e39b26aa718f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 25/55] fix: map self-assignment keeps the entries

---
 ttl/map.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index 691f948..8d07ba2 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -181,7 +181,6 @@ namespace ttl
 
       map &operator=(const map &other)
       {
-         clear();
          rbtree_.assign(other.rbtree_);
          return *this;
       }
-- 
2.43.0


From bac2fa0f86be0bd5e669204ecc9af9ab579ee18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 26/55] fix: set self-assignment keeps the entries

---
 ttl/set.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ttl/set.hpp b/ttl/set.hpp
index 646c9b2..206c8ec 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -169,7 +169,6 @@ namespace ttl
 
       set &operator=(const set &other)
       {
-         clear();
          rbtree_.assign(other.rbtree_);
          return *this;
       }
-- 
2.43.0


From 0f818bfe8ff5dd410e3ea9eb9b4df8abcbb6fa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 27/55] fix: rbtree::count counts all equal keys

---
 ttl/rbtree.hpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index bc51f25..6cd8783 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -352,20 +352,11 @@ namespace ttl
    template <class K, class KV, class KeyOfValue, class Compare>
    size_t rbtree<K,KV,KeyOfValue,Compare>::count(const K &key) const
    {
-      const rbnode *n = root_();
       size_t c = 0;
-      while (n)
-      {
-         const K &nkey = keyof_(static_cast<const node *>(n)->data);
-         if (is_less_(nkey, key))
-            n = n->right;
-         else
-         {
-            if (nkey == key)
-               ++c;
-            n = n->left;
-         }
-      }
+      for (const rbnode *n = lower_bound(key);
+           n != &header_ && keyof_(static_cast<const node *>(n)->data) == key;
+           n = next_node(n))
+         ++c;
       return c;
    }
 
-- 
2.43.0


From 4c887385e9b6aae235c9e0c1d481a2502ca0c989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:27 +0000
Subject: [PATCH 28/55] fix: rbtree::remove of one of equal keys loses no other
 entry

---
 ttl/rbtree.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index 6cd8783..1e2d8b3 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -485,8 +485,13 @@ namespace ttl
             }
             if ((*root)->right && !is_red((*root)->right) && !is_red((*root)->right->left))
             {
-               *root = move_right(*root);
-               isless = is_less_(key, keyof_(static_cast<const node *>(*root)->data));
+               rbnode *pivot = *root;
+               *root = move_right(pivot);
+               if (*root != pivot) // rotated, continue below the new root
+               {
+                  root = &(*root)->right;
+                  continue;
+               }
             }
             if (key == keyof_(static_cast<const node *>(*root)->data))
             {
-- 
2.43.0


From 6c7fc518df44068d35179ca97e420aa2ef87577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 29/55] fix: vector::reserve of exactly the current capacity
 must not reallocate

---
 ttl/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index fc42799..ab990c0 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -234,7 +234,7 @@ namespace ttl
    template<typename T>
    void vector<T>::reserve(size_type n)
    {
-      if (elements_ + n < end_of_elements_)
+      if (n <= capacity())
          return;
       T *newelements = static_cast<T *>(::operator new(n * sizeof(T)));
       T *o = newelements, *i = elements_;
-- 
2.43.0


From 66f095349874002f0f605929081d3064dab81a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 30/55] fix: vector::erase of an empty range must not touch the
 elements after it

---
 ttl/vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index ab990c0..e8b5895 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -305,6 +305,8 @@ namespace ttl
    {
       difference_type off = first - begin();
       difference_type lastoff = last - begin();
+      if (off == lastoff)
+         return begin() + off;
       for (T *f = elements_ + off, *l = elements_ + lastoff; f != l;)
          (--l)->~T();
       T *o = elements_ + off;
-- 
2.43.0


From a9de7afd10b6bce942335bf98cddb1902e6ced02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 31/55] fix: vector self-assignment must keep the contents

---
 ttl/vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index e8b5895..e182486 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -208,6 +208,8 @@ namespace ttl
    template<typename T>
    vector<T> &vector<T>::operator=(const vector &other)
    {
+      if (this == &other)
+         return *this;
       clear();
       reserve(other.capacity());
       for (const_iterator i = other.cbegin(); i != other.cend(); ++i)
-- 
2.43.0


From 6688206521da1b289d06da537fb2fe832c9fa0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 32/55] fix: fixed_vector::erase of an empty range must not
 touch the elements after it

---
 ttl/fixed_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 61099fe..b5f991c 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -264,6 +264,8 @@ namespace ttl
    {
       difference_type off = first - begin();
       difference_type lastoff = last - begin();
+      if (off == lastoff)
+         return begin() + off;
       for (T *f = elements() + off, *l = elements() + lastoff; f != l;)
          (--l)->~T();
       T *o = elements() + off;
-- 
2.43.0


From 44c5125e4849e34e9225409f87586eab451231ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 33/55] fix: fixed_vector self-assignment must keep the
 contents

---
 ttl/fixed_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index b5f991c..eead4e3 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -167,6 +167,8 @@ namespace ttl
    template<typename T, const unsigned int N>
    fixed_vector<T,N> &fixed_vector<T,N>::operator=(const fixed_vector &other)
    {
+      if (this == &other)
+         return *this;
       clear();
       for (const_iterator i = other.cbegin(); i != other.cend(); ++i)
          ::new(last_++) T(*i);
-- 
2.43.0


From f1efae8a6b7208bbf21b1340149ecfaefa7d326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 34/55] fix: fixed_vector::insert of a huge count must not
 write before the object

---
 ttl/fixed_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index eead4e3..34e20fe 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -201,6 +201,8 @@ namespace ttl
    typename fixed_vector<T,N>::iterator fixed_vector<T,N>::insert(const_iterator pos, size_type n, const value_type &x)
    {
       difference_type dist = pos - cbegin();
+      if (n > N - (size_type)dist)
+         n = N - dist;
       if (n)
       {
          T *o;
-- 
2.43.0


From 3e71d739f9feb08151d76d23862f9422ee0182dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 35/55] fix: fixed_vector::swap with a shorter vector must
 exchange only the common part

---
 ttl/fixed_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 34e20fe..bbc63f8 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -288,7 +288,7 @@ namespace ttl
       const bool this_a = this->size() < x.size();
       fixed_vector &a = this_a ? *this: x;
       fixed_vector &b = this_a ? x: *this;
-      size_type minsiz = this_a ? a.size(): b.size();
+      size_type minsiz = a.size();
       ttl::swap_ranges(a.elements(), a.elements() + minsiz, b.elements());
       T *e = b.elements() + minsiz;
       while (e < b.last_)
-- 
2.43.0


From 2510b23eb4a1ee9a7b7442e209e0307f4fbe60e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 36/55] fix: vector::insert must accept a reference to an own
 element as the value

---
 ttl/vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index e182486..1aee451 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -121,13 +121,15 @@ namespace ttl
 
       iterator insert(const_iterator pos, size_type n, const value_type &x)
       {
-         vc_counter_args args(x);
+         const value_type value(x); // x can be an element of this vector
+         vc_counter_args args(value);
          return insert_values(pos, n, &ttl::vector<T>::vc_counter, args);
       }
 
       iterator insert(const_iterator pos, const value_type &x)
       {
-         vc_counter_args args(x);
+         const value_type value(x); // x can be an element of this vector
+         vc_counter_args args(value);
          return insert_values(pos, 1, &ttl::vector<T>::vc_counter, args);
       }
 
-- 
2.43.0


From a028ae392582ea726594ba30491e76b82ecf6445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 37/55] fix: fixed_vector::insert must accept a reference to an
 own element as the value

---
 ttl/fixed_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index bbc63f8..88447e3 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -208,6 +208,7 @@ namespace ttl
          T *o;
          if (pos < end())
          {
+            const value_type value(x); // x can be an element of this vector
             T *p = elements() + dist, *i = last_;
             for (o = last_ + n; end_of_elements() < o && i != p; --o)
                (--i)->~T();
@@ -220,7 +221,7 @@ namespace ttl
                i->~T();
             }
             for (o = p; n-- && o < end_of_elements();)
-               ::new(o++) T(x);
+               ::new(o++) T(value);
          }
          else
          {
-- 
2.43.0


From f58e8f9b142fff9f7f4de7bac61e2c8a49669d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 38/55] fix: sorted_vector_map::count must be 1 for present
 keys and 0 for absent ones

---
 ttl/sorted_vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index 487b685..592a00a 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -158,7 +158,7 @@ namespace ttl
       iterator find(const KT &key);
       const_iterator find(const KT &key) const;
 
-      size_type count(const KT &key) const { return find(key) == cend(); }
+      size_type count(const KT &key) const { return find(key) != cend(); }
 
       ttl::pair<iterator,iterator> equal_range(const KT &key)
       {
-- 
2.43.0


From bfc22c026717984d2f5797188f11a4004e153401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 39/55] fix: vector_map::count of a present key must terminate

---
 ttl/vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/vector_map.hpp b/ttl/vector_map.hpp
index 711b91d..6b692da 100644
--- a/ttl/vector_map.hpp
+++ b/ttl/vector_map.hpp
@@ -69,7 +69,7 @@ namespace ttl
       size_type count(const KT &key) const
       {
          size_type n = 0;
-         for (const_iterator i = begin(); (i = find_key(i, key)) != end();)
+         for (const_iterator i = begin(); (i = find_key(i, key)) != end(); ++i)
             ++n;
          return n;
       }
-- 
2.43.0


From cdc60f37f42d1c22e7a4e0859e5fdb1b0594dc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 40/55] fix: sorted_vector_map::equal_range of an absent key
 must be its insertion point

---
 ttl/sorted_vector_map.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index 592a00a..39476c0 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -162,19 +162,11 @@ namespace ttl
 
       ttl::pair<iterator,iterator> equal_range(const KT &key)
       {
-         iterator i1 = find(key);
-         iterator i2 = i1;
-         if (i2 != end())
-            ++i2;
-         return ttl::make_pair(i1, i2);
+         return ttl::make_pair(lower_bound(key), upper_bound(key));
       }
       ttl::pair<const_iterator,const_iterator> equal_range(const KT &key) const
       {
-         const_iterator i1 = find(key);
-         const_iterator i2 = i1;
-         if (i2 != cend())
-            ++i2;
-         return ttl::make_pair(i1, i2);
+         return ttl::make_pair(lower_bound(key), upper_bound(key));
       }
 
       iterator lower_bound(const KT &key) { return find_insert_pos(key); }
-- 
2.43.0


From e0fd83902eafab4b5af135fa0cbeb335cf96ef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:09 +0000
Subject: [PATCH 41/55] fix: sorted_vector_map must grow when it was
 preallocated for one element

---
 ttl/sorted_vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index 39476c0..547d9da 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -272,7 +272,7 @@ namespace ttl
          value_type **i;
          size_type newcapacity = end_of_elements_ - elements_;
          newcapacity += newcapacity/2; // temporarily funny...
-         if (!newcapacity)
+         if (newcapacity < 2)
             newcapacity = 2;
          value_type **newelements = o = new value_type *[newcapacity];
          for (i = elements_; i != pos.ptr_;)
-- 
2.43.0


From 8ddda4ed6dc6b3d547000121b0692eb3dec0d479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 42/55] fix: list::remove must accept a reference to an own
 element as the value

---
 ttl/list.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index d46e676..c291da5 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -440,12 +440,17 @@ namespace ttl
    template<typename T>
    void list<T>::remove(const T &value)
    {
+      node *own = 0; // value can be an element of this list, it must be removed last
       for (list_node *p = head_.next, *n = p->next; p != &head_; p = n, n = n->next)
          if (static_cast<const node *>(p)->value == value)
          {
             p->unlink();
-            delete static_cast<node *>(p);
+            if (&static_cast<const node *>(p)->value == &value)
+               own = static_cast<node *>(p);
+            else
+               delete static_cast<node *>(p);
          }
+      delete own;
    }
    template<typename T>
    template<typename Predicate>
-- 
2.43.0


From cf8b87bb2bee1d83f56c1e589c03e5b01918afdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 43/55] fix: bitset::set(pos, false) must clear the bit

---
 ttl/bitset.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 9f95580..27c16f5 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -123,8 +123,8 @@ namespace ttl
       }
       bitset<N> &set(ttl::size_t pos, bool value)
       {
-         const slot_type mask = (slot_type)value << bits_bit(pos);
-         *bits_slot(pos) = (*bits_slot(pos) & ~mask) | mask;
+         const slot_type bit = bits_bit(pos);
+         *bits_slot(pos) = (*bits_slot(pos) & ~(1lu << bit)) | ((slot_type)value << bit);
          return *this;
       }
 
-- 
2.43.0


From c0c632da76c3d05125c4c4745c872015712078e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 44/55] fix: assignment of a bitset reference must change only
 its own bit

---
 ttl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 27c16f5..e6b2055 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -71,7 +71,7 @@ namespace ttl
          ~reference() {}
          reference& operator=(const reference &other)
          {
-            *bits_ = (*bits_ & mask_) | (-other.operator bool() & mask_);
+            *bits_ = (*bits_ & ~mask_) | (-other.operator bool() & mask_);
             return *this;
          }
          operator bool() const { return (*bits_ & mask_) != 0; }
-- 
2.43.0


From f05036976d85d38adc19ed333afc34e25fed614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:06 +0000
Subject: [PATCH 45/55] fix: conversion to a wider bitset must not copy the
 unused bits of the source

---
 ttl/bitset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index e6b2055..0b0f392 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -284,6 +284,8 @@ namespace ttl
       const ttl::size_t n = N < M ? capacity()/(sizeof(slot_type) * CHAR_BIT): other.capacity()/(sizeof(slot_type) * CHAR_BIT);
       for (i = 0; i < n; ++i)
          bits_[i] = other.slot(i);
+      if (i && M < N)
+         bits_[i - 1] &= bitset<M>::last_bits(); // the unused bits of other are not part of its value
       for ( ; i < sizeof(bits_)/sizeof(*bits_); ++i)
          bits_[i] = 0;
       return *this;
-- 
2.43.0


From 27ce4b4e9e663ec899e6a7a08eae05215817f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:06 +0000
Subject: [PATCH 46/55] fix: bitset string constructor must not write beyond
 its width

---
 ttl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 0b0f392..205a3da 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -198,7 +198,7 @@ namespace ttl
    bitset<N>::bitset(const char *bits, ttl::size_t n, char zero, char one)
    {
       ttl::size_t i;
-      for (i = 0; i < n; ++i)
+      for (i = 0; i < n && i < N; ++i)
          if (!(bits[i] == zero || bits[i] == one))
             break;
       for (ttl::size_t s = i / (sizeof(slot_type) * CHAR_BIT); s < sizeof(bits_)/sizeof(*bits_); ++s)
-- 
2.43.0


From 217df7709b19d6e3ec5d0b793106ac4bef1585f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:06 +0000
Subject: [PATCH 47/55] fix: bitset<0> integer constructors must not write
 outside the object

---
 ttl/bitset.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 205a3da..c70677d 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -169,9 +169,8 @@ namespace ttl
    template<ttl::size_t N>
    inline bitset<N>::bitset(unsigned long bits)
    {
-      bits_[0] = bits;
-      for (unsigned i = 1; i < sizeof(bits_)/sizeof(*bits_); ++i)
-         bits_[i] = 0;
+      for (unsigned i = 0; i < sizeof(bits_)/sizeof(*bits_); ++i)
+         bits_[i] = i ? 0: bits;
    }
    template<ttl::size_t N>
    bitset<N>::bitset(unsigned long long bits)
@@ -183,9 +182,8 @@ namespace ttl
          bits >>= sizeof(slot_type) * CHAR_BIT;
       }
 #else
-      bits_[0] = bits;
-      for (unsigned i = 1; i < sizeof(bits_)/sizeof(*bits_); ++i)
-         bits_[i] = 0;
+      for (unsigned i = 0; i < sizeof(bits_)/sizeof(*bits_); ++i)
+         bits_[i] = i ? 0: bits;
 #endif
    }
    template<ttl::size_t N>
-- 
2.43.0


From 3cb5018a1464d404221016e72f1608faae0b82a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:44 +0000
Subject: [PATCH 48/55] fix: algorithm: swap_ranges of two different iterator
 types did not compile

It returns a position in the second range, so its type is that of the second iterator.
---
 ttl/algorithm.hpp    | 2 +-
 ttl/array.hpp        | 2 +-
 ttl/fixed_vector.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index 290cf8d..42954c2 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -304,7 +304,7 @@ namespace ttl
    }
 
    template<class iterator1, class iterator2>
-   inline iterator1 swap_ranges(iterator1 first1, iterator1 last1, iterator2 first2)
+   inline iterator2 swap_ranges(iterator1 first1, iterator1 last1, iterator2 first2)
    {
       for (; first1 != last1; ++first1, ++first2)
          iter_swap(first1, first2);
diff --git a/ttl/array.hpp b/ttl/array.hpp
index ec34191..46b2939 100644
--- a/ttl/array.hpp
+++ b/ttl/array.hpp
@@ -12,7 +12,7 @@
 namespace ttl
 {
    template<class InputIt1, class InputIt2> bool equal(InputIt1, InputIt1, InputIt2, InputIt2);
-   template<class iterator1, class iterator2> iterator1 swap_ranges(iterator1, iterator1, iterator2);
+   template<class iterator1, class iterator2> iterator2 swap_ranges(iterator1, iterator1, iterator2);
    template<typename iterator, typename size_type, typename value_type> iterator fill_n(iterator, size_type count, const value_type &);
 
    template<typename T, const ttl::size_t N>
diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 88447e3..9abbaab 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -17,7 +17,7 @@ namespace ttl
    template<class ForwardIt, class T> pair<ForwardIt,ForwardIt> equal_range(ForwardIt, ForwardIt, const T &);
    template<class InputIt1, class InputIt2> bool equal(InputIt1, InputIt1, InputIt2, InputIt2);
    template<typename T> void swap(T &, T &);
-   template<class iterator1, class iterator2> iterator1 swap_ranges(iterator1, iterator1, iterator2);
+   template<class iterator1, class iterator2> iterator2 swap_ranges(iterator1, iterator1, iterator2);
 
    template<typename T, const unsigned int N>
    class fixed_vector
-- 
2.43.0


From ba65187f991d035f6d2e4157c337efadd73dd633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 49/55] fix: algorithm: search_n with a predicate compared the
 first element with ==

---
 ttl/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index 42954c2..c5a62b6 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -135,7 +135,7 @@ namespace ttl
 
       for(; first != last; ++first)
       {
-         if (*first == value)
+         if (pred(*first, value))
          {
             ForwardIt candidate = first;
             for (Size c = 1;; ++c)
-- 
2.43.0


From f881cd8920c4db3f93acfe67e048702114e21543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 50/55] fix: algorithm: min of two equivalent arguments
 returned the second

Like max and std::min it must return the first one.
---
 ttl/algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index c5a62b6..3e3cf62 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -660,13 +660,13 @@ namespace ttl
    template<class T>
    inline ttl_constexpr const T &min(const T &a, const T &b)
    {
-      return a < b ? a: b;
+      return b < a ? b: a;
    }
 
    template<class T, class Compare>
    inline ttl_constexpr const T &min(const T &a, const T &b, Compare comp)
    {
-      return comp(a, b) ? a: b;
+      return comp(b, a) ? b: a;
    }
 
    template<class T>
-- 
2.43.0


From d090d07ff4dc737100aa67f2d5be9bf1cad3ea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 51/55] fix: algorithm: binary searches failed on ranges of
 more than INT_MAX elements

---
 ttl/algorithm.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index 3e3cf62..c97c0af 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -502,9 +502,9 @@ namespace ttl
    template<class ForwardIt, class T>
    ForwardIt lower_bound(ForwardIt first, ForwardIt last, const T &value)
    {
-      for (int count = last - first; count > 0;)
+      for (ttl::ptrdiff_t count = last - first; count > 0;)
       {
-         int step = count / 2;
+         ttl::ptrdiff_t step = count / 2;
          ForwardIt it = first;
          it = first + step;
          if (*it < value)
@@ -521,9 +521,9 @@ namespace ttl
    template<class ForwardIt, class T, class Compare>
    ForwardIt lower_bound(ForwardIt first, ForwardIt last, const T &value, Compare comp)
    {
-      for (int count = last - first; count > 0;)
+      for (ttl::ptrdiff_t count = last - first; count > 0;)
       {
-         int step = count / 2;
+         ttl::ptrdiff_t step = count / 2;
          ForwardIt it = first;
          it += step;
          if (comp(*it, value))
@@ -540,9 +540,9 @@ namespace ttl
    template<class ForwardIt, class T>
    ForwardIt upper_bound(ForwardIt first, ForwardIt last, const T &value)
    {
-      for (int count = last - first; count > 0;)
+      for (ttl::ptrdiff_t count = last - first; count > 0;)
       {
-         int step = count / 2;
+         ttl::ptrdiff_t step = count / 2;
          ForwardIt it = first;
          it += step;
          if (!(value < *it))
@@ -559,9 +559,9 @@ namespace ttl
    template<class ForwardIt, class T, class Compare>
    ForwardIt upper_bound(ForwardIt first, ForwardIt last, const T &value, Compare comp)
    {
-      for (int count = last - first; count > 0;)
+      for (ttl::ptrdiff_t count = last - first; count > 0;)
       {
-         int step = count / 2;
+         ttl::ptrdiff_t step = count / 2;
          ForwardIt it = first;
          it += step;
          if (!comp(value, *it))
-- 
2.43.0


From 2f3ab592d804759c66729613a7fcb27d66259594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:14 +0000
Subject: [PATCH 52/55] fix: utility: ttl_countof did not compile after the
 countof macro was defined

---
 ttl/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/utility.hpp b/ttl/utility.hpp
index 70697f4..619850f 100644
--- a/ttl/utility.hpp
+++ b/ttl/utility.hpp
@@ -16,7 +16,7 @@ namespace ttl
 #ifndef countof
 #define countof(a) ttl::countof(a)
 #endif
-#define ttl_countof(a) ttl::countof(a)
+#define ttl_countof(a) (ttl::countof)(a)
 #else
    template<typename T, unsigned int N> char (&_char_array_ref(const T (&)[N]))[N];
 #ifndef countof
-- 
2.43.0


From 066b8d6dbb31b7ebf2b5a1b46e42b6d9a782cbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 53/55] fix: type_traits: is_const and is_volatile of an rvalue
 reference did not compile

---
 ttl/type_traits.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ttl/type_traits.hpp b/ttl/type_traits.hpp
index 08ca210..c1c2e76 100644
--- a/ttl/type_traits.hpp
+++ b/ttl/type_traits.hpp
@@ -48,6 +48,9 @@ namespace ttl
    template<typename T> struct is_const: is_const_value<T*> {};
    // is_const is false because T is const, not the reference to T.
    template<typename T> struct is_const<T&>: false_type{};
+#if __cplusplus >= 201103L // C++11
+   template<typename T> struct is_const<T&&>: false_type {};
+#endif
 
    // is_volatile<T>::value == true if and only if T has volatile-qualification.
    template<typename T> struct is_volatile_value: false_type {};
@@ -56,6 +59,9 @@ namespace ttl
    template<typename T> struct is_volatile: is_volatile_value<T*> {};
    // is_const is false because T is const, not the reference to T.
    template <typename T> struct is_volatile<T&>: false_type {};
+#if __cplusplus >= 201103L // C++11
+   template<typename T> struct is_volatile<T&&>: false_type {};
+#endif
 
     // is_signed<T>::value == true if and only if T is one of the following types:
     template<class T> struct is_signed: integral_constant<bool,
-- 
2.43.0


From 01a87b0d7bfdc605860fe71e3d859df37c20ccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:51 +0000
Subject: [PATCH 54/55] fix: fixed_vector storage must have the alignment of
 its elements

---
 ttl/fixed_vector.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 9abbaab..8e3219a 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -34,7 +34,13 @@ namespace ttl
       typedef ttl::ptrdiff_t difference_type;
 
    private:
+#if __cplusplus >= 201103L // C++11
+      union { alignas(T) char b[sizeof(T)]; } bytes_[N];
+#elif defined(__GNUC__)
+      union { char b[sizeof(T)] __attribute__((aligned(__alignof__(T)))); } bytes_[N];
+#else
       union { char b[sizeof(T)]; } bytes_[N];
+#endif
       T *last_;
       T *elements() const { return (T *)bytes_; }
       T *end_of_elements() const { return (T *)(bytes_ + N); }
-- 
2.43.0


From 0e819ef136970cc74f5423ff7ba971f736e79e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:29 +0000
Subject: [PATCH 55/55] fix: bitset: a reference to a bit beyond the last must
 not access memory outside the bitset

---
 ttl/bitset.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index c70677d..39e1205 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -59,7 +59,8 @@ namespace ttl
       private:
          reference(const reference &other); /* none */
          friend class bitset<N>;
-         reference(slot_type *bits, slot_type mask): bits_(bits), mask_(mask) {}
+         // without a bit to refer to (beyond the last bit) only the reference itself is accessed
+         reference(slot_type *bits, slot_type mask): bits_(mask ? bits: &mask_), mask_(mask) {}
          slot_type *bits_;
          slot_type mask_;
       public:
-- 
2.43.0

