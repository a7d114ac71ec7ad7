From 0df64e593b2fdcd4554e4309ca27863ab85fd5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 01/26] fix: xor and or must not share a memo cache key

---
 include/bdd_memo_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_memo_cache.h b/include/bdd_memo_cache.h
index cfa6b39..d5e7f4a 100644
--- a/include/bdd_memo_cache.h
+++ b/include/bdd_memo_cache.h
@@ -25,7 +25,7 @@ namespace BDD {
 
         template<typename T>
         constexpr static node* xor_symb_impl() { return static_cast<T*>(nullptr) + 3; }
-        constexpr static node* xor_symb() { return or_symb_impl<node>(); }
+        constexpr static node* xor_symb() { return xor_symb_impl<node>(); }
 
         bool operator==(const memo_struct& m) const;
         bool operator!=(const memo_struct& m) const;
-- 
2.43.0


From 47ea8f5a1275c308da03dc6ae8f826cc7fa356a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 02/26] fix: xor_rec must branch on the topmost variable

---
 src/bdd_mgr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index af87c96..85c3d85 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -242,7 +242,7 @@ namespace BDD {
         var& vf = vars[f.variable()];
         assert(g.variable() < nr_variables());
         var& vg = vars[g.variable()];
-        var& v = *std::max(&vg,&vf);
+        var& v = *std::min(&vg,&vf);
 
         node_ref r0 = xor_rec(&v == &vf ? f.low() : f, &v == &vg ? g.low() : g);
         assert(r0.ref != nullptr);
-- 
2.43.0


From 2efc7ad4d933812e469850a190b0d3649b12bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 03/26] fix: ite_rec must not follow arcs out of terminal nodes

---
 src/bdd_mgr.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 85c3d85..50f6769 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -287,15 +287,15 @@ namespace BDD {
 
         node_ref r0 = ite_rec(
                 (&vf == &v ? f.low() : f),
-                (&vg == &v ? g.low() : g),
-                (&vh == &v ? h.low() : h)
+                (&vg == &v && !g.is_terminal() ? g.low() : g),
+                (&vh == &v && !h.is_terminal() ? h.low() : h)
                 );
         assert(r0.ref != nullptr);
 
         node_ref r1 = ite_rec(
                 (&vf == &v ? f.high() : f),
-                (&vg == &v ? g.high() : g),
-                (&vh == &v ? h.high() : h)
+                (&vg == &v && !g.is_terminal() ? g.high() : g),
+                (&vh == &v && !h.is_terminal() ? h.high() : h)
                 );
         assert(r1.ref != nullptr);
 
-- 
2.43.0


From 446533ece3170f4f5080c134f03f978ee4dec9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 04/26] fix: at_most must be true when fewer inputs than the
 bound are given

---
 include/bdd_mgr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_mgr.h b/include/bdd_mgr.h
index cbc72b6..689ef8d 100644
--- a/include/bdd_mgr.h
+++ b/include/bdd_mgr.h
@@ -346,7 +346,7 @@ namespace BDD {
             const size_t n = std::distance(begin, end);
 
             if(n < b)
-                return node_cache_.botsink();
+                return node_cache_.topsink();
 
             if(n == 1 && b == 1)
                 return node_cache_.topsink();
-- 
2.43.0


From 420e7c98811ded7e51f0713eb26acbf673c5630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 05/26] fix: nodes_bfs must not follow arcs of a terminal root

---
 src/bdd_node.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index 7518bc8..b1c5a63 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -85,6 +85,9 @@ namespace BDD {
         std::vector<node*> nodes;
         std::deque<node*> dq;
 
+        if(is_terminal()) // terminal nodes have no descendants and are not listed
+            return nodes;
+
         dq.push_back(this);
         this->marked_ = 1;
         while(!dq.empty())
-- 
2.43.0


From 20f42b00c35f970b22b90f21af619741173cc582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 06/26] fix: initialise hash key and mark of the terminal nodes

---
 src/bdd_node.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index b1c5a63..5147d3d 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -121,6 +121,8 @@ namespace BDD {
         this->bdd_mgr_2 = mgr;
         this->xref = 1;
         this->index = botsink_index;
+        this->hash_key = 0;
+        this->marked_ = 0;
     }
 
     bool node::is_botsink() const
@@ -135,6 +137,8 @@ namespace BDD {
         this->bdd_mgr_2 = mgr;
         this->xref = 1;
         this->index = topsink_index;
+        this->hash_key = 1;
+        this->marked_ = 0;
 
     }
 
-- 
2.43.0


From 0196db19987ec866bf2ce38235fc184bc3160a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 07/26] fix: hash key generator must not be shared between
 threads

---
 src/bdd_node.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index 5147d3d..7182918 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -22,9 +22,9 @@ namespace BDD {
         marked_ = 0;
         xref = 0;
 
-        static std::random_device rd;
-        static std::mt19937 unique_table_gen(rd());
-        static std::uniform_int_distribution<std::size_t> unique_table_distribution(0,hashtablesize-1);
+        thread_local std::random_device rd;
+        thread_local std::mt19937 unique_table_gen(rd());
+        thread_local std::uniform_int_distribution<std::size_t> unique_table_distribution(0,hashtablesize-1);
 
         hash_key = unique_table_distribution(unique_table_gen);
 
-- 
2.43.0


From 74ca2a223885c97a94e6fa037121a2c16ad6bbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 08/26] fix: var_struct must not copy indeterminate members

---
 include/bdd_var.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bdd_var.h b/include/bdd_var.h
index ffc5f76..6c560c1 100644
--- a/include/bdd_var.h
+++ b/include/bdd_var.h
@@ -131,10 +131,10 @@ class var_struct {
         constexpr static std::size_t timerinterval = 1024;
         constexpr static double dead_fraction = 1.0;
         //std::array<unique_table_page*, nr_unique_table_pages> base = {}; // base addresses for its pages
-        std::size_t name; // user's name (subscript) for this variable
-        unsigned int timestamp; // time stamp for composition
-        int aux; // flag used by sifting algorithm
-        struct var_struct *up, *down; // the neighboring active variables
+        std::size_t name = 0; // user's name (subscript) for this variable
+        unsigned int timestamp = 0; // time stamp for composition
+        int aux = 0; // flag used by sifting algorithm
+        struct var_struct *up = nullptr, *down = nullptr; // the neighboring active variables
 
         bdd_mgr& bdd_mgr_;
 };
-- 
2.43.0


From 027df690b369bb2467ec2d343a1ed2b9e91dd6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 09/26] fix: unique table pages must come from the pool they
 are returned to

The last doubling could not be served and left the table with a mask that
did not match its page.
---
 src/bdd_var.cpp | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/bdd_var.cpp b/src/bdd_var.cpp
index d0d52f3..3315660 100644
--- a/src/bdd_var.cpp
+++ b/src/bdd_var.cpp
@@ -38,22 +38,22 @@ namespace BDD {
     {
         unique_table_page_caches& cache = bdd_mgr_.get_unique_table_page_cache();
         switch(new_mask) {
-            case 63: return reinterpret_cast<node**>(cache.cache_128.reserve_page()); 
-            case 127: return reinterpret_cast<node**>(cache.cache_256.reserve_page());
-            case 255: return reinterpret_cast<node**>(cache.cache_512.reserve_page());
-            case 511: return reinterpret_cast<node**>(cache.cache_1024.reserve_page());
-            case 1023: return reinterpret_cast<node**>(cache.cache_2048.reserve_page());
-            case 2047: return reinterpret_cast<node**>(cache.cache_4096.reserve_page());
-            case 4095: return reinterpret_cast<node**>(cache.cache_8192.reserve_page());
-            case 8191: return reinterpret_cast<node**>(cache.cache_16384.reserve_page());
-            case 16383: return reinterpret_cast<node**>(cache.cache_32768.reserve_page());
-            case 32767: return reinterpret_cast<node**>(cache.cache_65536.reserve_page());
-            case 65535: return reinterpret_cast<node**>(cache.cache_131072.reserve_page());
-            case 131071:return reinterpret_cast<node**>(cache.cache_262144.reserve_page());
+            case 63: return reinterpret_cast<node**>(cache.cache_64.reserve_page()); 
+            case 127: return reinterpret_cast<node**>(cache.cache_128.reserve_page());
+            case 255: return reinterpret_cast<node**>(cache.cache_256.reserve_page());
+            case 511: return reinterpret_cast<node**>(cache.cache_512.reserve_page());
+            case 1023: return reinterpret_cast<node**>(cache.cache_1024.reserve_page());
+            case 2047: return reinterpret_cast<node**>(cache.cache_2048.reserve_page());
+            case 4095: return reinterpret_cast<node**>(cache.cache_4096.reserve_page());
+            case 8191: return reinterpret_cast<node**>(cache.cache_8192.reserve_page());
+            case 16383: return reinterpret_cast<node**>(cache.cache_16384.reserve_page());
+            case 32767: return reinterpret_cast<node**>(cache.cache_32768.reserve_page());
+            case 65535: return reinterpret_cast<node**>(cache.cache_65536.reserve_page());
+            case 131071:return reinterpret_cast<node**>(cache.cache_131072.reserve_page());
             case 262143:return reinterpret_cast<node**>(cache.cache_262144.reserve_page());
             case 524287:return reinterpret_cast<node**>(cache.cache_524288.reserve_page());
-            case 1048575: throw std::runtime_error("Cannot increase unique table page cache size.");;
-            default: assert(false);
+            case 1048575:return reinterpret_cast<node**>(cache.cache_1048576.reserve_page());
+            default: throw std::runtime_error("Cannot increase unique table page cache size.");
         } 
     }
 
@@ -67,8 +67,9 @@ namespace BDD {
         node** old_page = base;
         const size_t old_mask = mask;
 
-        mask = mask + mask + 1;
-        base = new_page(mask); 
+        const size_t new_mask = mask + mask + 1;
+        base = new_page(new_mask); // may throw, hence mask is only changed afterwards
+        mask = new_mask;
 
         for(size_t i=0; i<=mask; ++i)
             assert(base[i] == nullptr);
-- 
2.43.0


From 126f79ae8c8f8c3c53e0c7b8060189161bbcbcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 10/26] fix: never fill the last slot of a unique table of
 maximum size

---
 src/bdd_var.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bdd_var.cpp b/src/bdd_var.cpp
index 3315660..f7f2252 100644
--- a/src/bdd_var.cpp
+++ b/src/bdd_var.cpp
@@ -318,6 +318,10 @@ namespace BDD {
         if(occupied_rate() > max_unique_table_fill) // double number of base pages for unique table
             double_cache();
 
+        // lookups rely on at least one slot staying empty
+        if(free <= 1)
+            throw std::runtime_error("unique table is full.");
+
         // allocate new node and insert it into unique table
         p = bdd_mgr_.get_node_cache().reserve_node();
         assert(p != nullptr);
-- 
2.43.0


From 9bd2d01e237b22a0de552bec1002bcc9df347a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 11/26] fix: garbage collection must keep the unique tables
 intact

Removing dead nodes lost surviving nodes, corrupted the free slot count and
wrote past the shrunk page.
---
 src/bdd_var.cpp | 85 +++++++++++++++----------------------------------
 1 file changed, 26 insertions(+), 59 deletions(-)

diff --git a/src/bdd_var.cpp b/src/bdd_var.cpp
index f7f2252..c5a86dc 100644
--- a/src/bdd_var.cpp
+++ b/src/bdd_var.cpp
@@ -205,76 +205,43 @@ namespace BDD {
 
     void var_struct::remove_dead_nodes()
     {
-        for(std::size_t k = 0; k < hash_table_size(); ++k)
+        std::vector<node*> live_nodes;
+        live_nodes.reserve(hash_table_size() - free);
+        for(std::size_t k = 0; k <= mask; ++k)
         {
             node* p = fetch_node(k);
-            if(p != nullptr && p->dead())
-            {
-                bdd_mgr_.get_node_cache().free_node(p);
-                store_node(k, nullptr);
-                free++;
-                // move nodes that follow this one back if hash value indicates so
-                size_t first_free_slot = k;
-                for(size_t j = k+1;; ++j)
-                {
-                    const size_t jj = j & mask;
-                    node* p = fetch_node(jj);
-                    if(p == nullptr)
-                    {
-                        k = j;
-                        break;
-                    }
-                    if(p->dead())
-                    {
-                        store_node(jj, nullptr);
-                        free++;
-                    }
-                    else
-                    {
-                        // shift one place up if hash code says so
-                        // TODO: can be made faster.
-                        store_node(next_free_slot(hash_code(p)), p);
-                    }
-                }
-            }
+            if(p != nullptr && !p->dead())
+                live_nodes.push_back(p);
         }
 
         // reduce nr of pages if unique table too sparsely populated
-        if(mask > 63 && occupied_rate() <= min_unique_table_fill)
-        {
-            const size_t new_mask = [&]() {
-                size_t n = (mask+1)/2 - 1;
-                while(n >= 63 && occupied_rate(n) >= min_unique_table_fill)
-                    n /= (mask+1)/2 - 1;
-                return n;
-            }();
+        size_t new_mask = mask;
+        while(new_mask > 63 && double(live_nodes.size()) <= min_unique_table_fill * double(new_mask+1))
+            new_mask = (new_mask+1)/2 - 1;
+        node** new_base = (new_mask != mask) ? new_page(new_mask) : base;
 
-            node** new_base = new_page(new_mask);
-
-            for(std::size_t k = 0; k <= mask; ++k)
-            {
-                node* p = fetch_node(k);
-                if(p != nullptr)
-                {
-                    const size_t next_free_slot = [&]() {
-                        for(size_t l=k;; l++)
-                        {
-                            l = l & new_mask;
-                            if(new_base[k] == nullptr)
-                                return l;
-                        }
-                        assert(false);
-                        return size_t(0);
-                    }();
-
-                    new_base[next_free_slot] = p;
-                } 
-            }
+        for(std::size_t k = 0; k <= mask; ++k)
+        {
+            node* p = fetch_node(k);
+            if(p != nullptr && p->dead())
+                bdd_mgr_.get_node_cache().free_node(p);
+            store_node(k, nullptr);
+        }
 
+        if(new_mask != mask)
+        {
             free_page(base, mask);
             base = new_base;
             mask = new_mask;
         }
+
+        // put surviving nodes back. Probe sequences may have been interrupted by removed nodes, hence all nodes are rehashed.
+        free = hash_table_size();
+        for(node* p : live_nodes)
+        {
+            store_node(next_free_slot(hash_code(p)), p);
+            --free;
+        }
     }
 
     node* var_struct::unique_find(const size_t index, node* l, node* h)
-- 
2.43.0


From 39449aad5df47d833d85acbd486cc9f7fb83f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 12/26] fix: purge memos of all nodes that garbage collection
 frees

---
 src/bdd_memo_cache.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bdd_memo_cache.cpp b/src/bdd_memo_cache.cpp
index ab090f6..da72249 100644
--- a/src/bdd_memo_cache.cpp
+++ b/src/bdd_memo_cache.cpp
@@ -148,11 +148,9 @@ namespace BDD {
     {
         if(r == nullptr)
             return true; // TODO: or false?
-        if(r->xref < 0)
+        if(r->dead() || f->dead() || g->dead())
             return true;
-        if(f->xref < 0)
-            return true;
-        if(h != nullptr && g->xref < 0)
+        if(h != and_symb() && h != or_symb() && h != xor_symb() && h->dead())
             return true;
         return false;
     }
-- 
2.43.0


From 5cd8e07a9223ced763bb6acea223f82de82e05a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 13/26] fix: negation must not take exponential time

---
 src/bdd_mgr.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 50f6769..9370837 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -46,9 +46,18 @@ namespace BDD {
             return node_ref(node_cache_.botsink());
         else
         {
+            // negation is memoized as exclusive or with topsink
+            node* m = memo_.cache_lookup(p.ref, node_cache_.topsink(), memo_struct::xor_symb());
+            if(m != nullptr)
+                return node_ref(m);
+
             const std::size_t v = p.variable();
             assert(v < nr_variables());
-            return node_ref(vars[v].unique_find( negate(p.low()).ref, negate(p.high()).ref));
+            node_ref r0 = negate(p.low());
+            node_ref r1 = negate(p.high());
+            node* r = vars[v].unique_find(r0.ref, r1.ref);
+            memo_.cache_insert(p.ref, node_cache_.topsink(), memo_struct::xor_symb(), r);
+            return node_ref(r);
         }
     }
 
-- 
2.43.0


From c9fea72d734c63f8a034b5b42ff9fd86e4fa8926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 14/26] fix: importing a bdd is not limited to the first 1000
 instructions

---
 src/bdd_mgr.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 9370837..456ad70 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -421,7 +421,6 @@ namespace BDD {
             }
             else
             { 
-                assert(bdd_col.offset(bdd) < 1000); // TODO: remove
                 assert(bdd_map.count(bdd.lo) > 0);
                 node_ref lo = bdd_map.find(bdd.lo)->second;
 
-- 
2.43.0


From 6ae94e3728ed8447914351d3f9293e789def9270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 15/26] fix: variables must not get the index of a terminal
 node

---
 src/bdd_mgr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 456ad70..4626592 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -18,7 +18,7 @@ namespace BDD {
 
     size_t bdd_mgr::add_variable()
     {
-        assert(vars.size() < maxvarsize);
+        assert(vars.size() < node_struct::topsink_index); // indices of terminal nodes cannot be used
         vars.emplace_back(vars.size(), *this);
         return vars.size()-1;
     }
-- 
2.43.0


From a83f5e889bfe5bcfc709528d8b296e4817ec7a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 16/26] fix: limited conjunction must respect the limit for
 terminal operands

---
 src/bdd_mgr.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 4626592..715c970 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -112,23 +112,26 @@ namespace BDD {
     // return
     std::tuple<node_ref,size_t> bdd_mgr::and_rec_limited(node_ref f, node_ref g, const size_t node_limit)
     {
-        if(f == g)
-        {
-            const size_t nr_nodes = f.nr_nodes();
+        // return p together with its number of nodes unless it has too many
+        auto limited = [&](node_ref p) -> std::tuple<node_ref,size_t> {
+            const size_t nr_nodes = p.nr_nodes();
             if(nr_nodes > node_limit)
                return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
-            return {f,nr_nodes};
-        }
+            return {p,nr_nodes};
+        };
+
+        if(f == g)
+            return limited(f);
 
         if(f.ref > g.ref)
             return and_rec_limited(g,f,node_limit);
 
         if(f.ref == node_cache_.topsink())
-            return {g,g.nr_nodes()};
+            return limited(g);
         else if(f.ref == node_cache_.botsink())
             return {node_ref(node_cache_.botsink()),0};
         else if(g.ref == node_cache_.topsink())
-            return {f,f.nr_nodes()};
+            return limited(f);
         else if(g.ref == node_cache_.botsink())
             return {node_ref(node_cache_.botsink()),0};
 
-- 
2.43.0


From e7d098f774164ce0bc9c34daedfd7f30c24ca6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 17/26] fix: rebasing a constant with an empty variable map

---
 include/bdd_mgr.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bdd_mgr.h b/include/bdd_mgr.h
index 689ef8d..918cdd4 100644
--- a/include/bdd_mgr.h
+++ b/include/bdd_mgr.h
@@ -129,9 +129,9 @@ namespace BDD {
     node_ref bdd_mgr::rebase(node_ref p, ITERATOR var_map_begin, ITERATOR var_map_end)
     {
         const size_t nr_vars = std::distance(var_map_begin, var_map_end);
-        assert(p.variables().back() <= nr_vars);
-        const size_t last_var = *std::max_element(var_map_begin, var_map_end);
-        for(size_t i=nr_variables(); i<=last_var; ++i)
+        assert(p.is_terminal() || p.variables().back() < nr_vars);
+        const size_t nr_new_vars = nr_vars == 0 ? 0 : *std::max_element(var_map_begin, var_map_end) + 1;
+        for(size_t i=nr_variables(); i<nr_new_vars; ++i)
             add_variable();
 
         const auto postorder = p.address()->nodes_postorder();
-- 
2.43.0


From 20150184aef1e3b9dda38d1c0fef59af9ef0b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 18/26] fix: conjunction of collection bdds must stop at either
 botsink

---
 src/bdd_collection.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index d9c08ec..308fc18 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -67,12 +67,8 @@ namespace BDD {
                 return 1; //topsink position on stack
             else
                 return 0; //botsink position on stack
-        else if(f.is_terminal() && !g.is_terminal())
-            if(f.is_botsink())
-                return 0; //botsink position on stack
-            else if(!f.is_terminal() && g.is_terminal())
-                if(g.is_botsink())
-                    return 0; //botsink position on stack 
+        else if(f.is_botsink() || g.is_botsink())
+            return 0; //botsink position on stack
 
         // compute lo and hi and see if they are present already. It not, add new branch instruction
         const size_t v = std::min(f.index, g.index);
-- 
2.43.0


From ee6f4f4e41701406488fc843278e5c25a7e835d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 19/26] fix: conjunction of collection bdds must remember all
 visited pairs

---
 src/bdd_collection.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 308fc18..3f29453 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -88,10 +88,17 @@ namespace BDD {
             return std::numeric_limits<size_t>::max();
 
         if(lo == hi)
+        {
+            generated_nodes.insert(std::make_pair(std::array<size_t,2>{f_i,g_i}, lo));
             return lo;
+        }
 
         if(reduction.count({lo,hi,v}) > 0)
-            return reduction.find({lo,hi,v})->second;
+        {
+            const size_t idx = reduction.find({lo,hi,v})->second;
+            generated_nodes.insert(std::make_pair(std::array<size_t,2>{f_i,g_i}, idx));
+            return idx;
+        }
 
         stack.push_back({lo, hi, v});
         if(stack.size() > node_limit)
@@ -260,10 +267,17 @@ namespace BDD {
             return std::numeric_limits<size_t>::max();
 
         if(lo == hi)
+        {
+            generated_nodes.insert(std::make_pair(bdds, lo));
             return lo;
+        }
 
         if(reduction.count({lo,hi,v}) > 0)
-            return reduction.find({lo,hi,v})->second;
+        {
+            const size_t idx = reduction.find({lo,hi,v})->second;
+            generated_nodes.insert(std::make_pair(bdds, idx));
+            return idx;
+        }
 
         stack.push_back({lo, hi, v});
         if(stack.size() > node_limit)
-- 
2.43.0


From e1e6c6ddb54785b95c7dd7c0c41c2af9e1a94812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 20/26] fix: removing bdds must not read past the end of the
 index range

---
 include/bdd_collection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 7d6ff09..cfdaa9c 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -265,7 +265,7 @@ namespace BDD {
             auto bdd_it = bdd_it_begin;
             for(size_t bdd_nr=*bdd_it; bdd_nr<nr_bdds(); ++bdd_nr)
             {
-                if(bdd_nr == *bdd_it) // skip bdd
+                if(bdd_it != bdd_it_end && bdd_nr == *bdd_it) // skip bdd
                 {
                     ++bdd_it;
                 }
-- 
2.43.0


From 4b748863a1adb2496716c30ee16c2b2a7a8932be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 21/26] fix: reducing collection bdds must not write to
 standard output

---
 src/bdd_collection.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 3f29453..4c8185d 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -476,7 +476,6 @@ namespace BDD {
                 instr.hi = bdd_instructions[hi.hi].hi;
             if(instr.lo == instr.hi)
             {
-                std::cout << "remove instr due to same lo and hi\n";
                 remove[idx - bdd_delimiters[bdd_nr]] = true;
             }
         }
@@ -496,7 +495,6 @@ namespace BDD {
             else
             {
                 remove[idx - bdd_delimiters[bdd_nr]] = true;
-                std::cout << "remove due to isomorphic subgraphs\n";
             }
             assert(bdd_map.count(bdd_instructions[instr.lo]) > 0);
             assert(bdd_map.count(bdd_instructions[instr.hi]) > 0);
@@ -525,7 +523,6 @@ namespace BDD {
         }
         new_bdd_instructions.push_back(bdd_instructions[bdd_delimiters[bdd_nr+1]-2]);
         new_bdd_instructions.push_back(bdd_instructions[bdd_delimiters[bdd_nr+1]-1]);
-        std::cout << "new bdd has " << new_bdd_instructions.size() << " nodes\n";
 
         bdd_instructions.resize(bdd_delimiters[bdd_nr]);
         for(const auto instr : new_bdd_instructions)
-- 
2.43.0


From fe9dfe471da4bd406f5f934bc7729446ca891129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 22/26] fix: constant bdds in collections

---
 include/bdd_collection.h |  4 ++--
 src/bdd_collection.cpp   | 23 +++++++++++++++++------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index cfdaa9c..07920e0 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -286,7 +286,7 @@ namespace BDD {
                             new_bdd_instructions.push_back(bdd_instr);
                     }
                     new_bdd_delimiters.push_back(new_bdd_instructions.size());
-                    assert(new_bdd_delimiters.back() - new_bdd_delimiters[ new_bdd_delimiters.size()-2 ] > 2);
+                    assert(new_bdd_delimiters.back() - new_bdd_delimiters[ new_bdd_delimiters.size()-2 ] >= 2);
                 }
             }
             assert(bdd_it == bdd_it_end);
@@ -482,7 +482,7 @@ namespace BDD {
             for(auto [x,y] : cluster_nodes)
                 cluster_nodes2.push_back({x,y});
             std::sort(cluster_nodes2.begin(), cluster_nodes2.end(), [](const auto a, const auto b) { return a[0] < b[0]; });
-            for(size_t c=0; c<cluster_nodes2.size()-1; ++c)
+            for(size_t c=0; c+1<cluster_nodes2.size(); ++c)
                 s << cluster_nodes2[c][1] << " -> " << cluster_nodes2[c+1][1] << " [style=invis];\n";
 
             for(size_t i=bdd_delimiters[bdd_nr]; i<bdd_delimiters[bdd_nr+1]; ++i)
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 4c8185d..aa8fa80 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -29,7 +29,9 @@ namespace BDD {
 
         if(root_idx != std::numeric_limits<size_t>::max())
         {
-            assert(stack.size() > 2);
+            assert(stack.size() >= 2);
+            if(root_idx == 0) // the root comes first, also when it is botsink
+                std::swap(stack[0], stack[1]);
             const size_t offset = bdd_delimiters.back();
             for(ptrdiff_t s = stack.size()-1; s>=0; --s)
             {
@@ -134,7 +136,9 @@ namespace BDD {
 
             if(root_idx != std::numeric_limits<size_t>::max())
             {
-                assert(stack.size() > 2);
+                assert(stack.size() >= 2);
+                if(root_idx == 0) // the root comes first, also when it is botsink
+                    std::swap(stack[0], stack[1]);
                 const size_t offset = bdd_delimiters.back();
                 for(ptrdiff_t s = stack.size()-1; s>=0; --s)
                 {
@@ -303,14 +307,18 @@ namespace BDD {
         }
 
         // TODO: not most efficient, record top and botsink above
-        node_ref_hash.insert({nodes.back().botsink(), bdd_instructions.size()});
+        node_ref_hash.insert({root.botsink(), bdd_instructions.size()});
         bdd_instructions.push_back(bdd_instruction::botsink());
         assert(bdd_instructions.back().is_botsink());
 
-        node_ref_hash.insert({nodes.back().topsink(), bdd_instructions.size()});
+        node_ref_hash.insert({root.topsink(), bdd_instructions.size()});
         bdd_instructions.push_back(bdd_instruction::topsink());
         assert(bdd_instructions.back().is_topsink());
 
+        // the root comes first, also when it is topsink
+        if(root.is_topsink())
+            std::swap(bdd_instructions[bdd_instructions.size()-2], bdd_instructions[bdd_instructions.size()-1]);
+
         const size_t offset = bdd_delimiters.back();
         for(size_t i=0; i<nodes.size(); ++i)
         {
@@ -334,7 +342,11 @@ namespace BDD {
     node_ref bdd_collection::export_bdd(bdd_mgr& mgr, const size_t bdd_nr) const
     {
         assert(bdd_nr < nr_bdds());
-        assert(nr_bdd_nodes(bdd_nr) > 2);
+        assert(nr_bdd_nodes(bdd_nr) >= 2);
+        if(bdd_instructions[bdd_delimiters[bdd_nr]].is_botsink())
+            return mgr.botsink();
+        if(bdd_instructions[bdd_delimiters[bdd_nr]].is_topsink())
+            return mgr.topsink();
         // TODO: use vector and shift indices by offset
         std::unordered_map<size_t, node_ref> bdd_instr_hash;
         assert(bdd_instructions[bdd_delimiters[bdd_nr+1]-2].is_terminal());
@@ -542,7 +554,6 @@ namespace BDD {
             vars.push_back(bdd_instructions[i].index);
         }
 
-        assert(vars.size() > 0);
         std::sort(vars.begin(), vars.end());
         vars.erase( std::unique(vars.begin(), vars.end() ), vars.end());
         return vars;
-- 
2.43.0


From 800f29db35f98b95967addedb9be5b0029f1ee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 23/26] fix: find the terminals of collection bdds in either
 order

---
 src/bdd_collection.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index aa8fa80..95b8e20 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -659,15 +659,19 @@ namespace BDD {
 
     bdd_collection_node bdd_collection_entry::botsink() const
     {
+        // the two terminals come last, in either order
         bdd_collection_node node(bdd_col.bdd_delimiters[bdd_nr+1]-2, *this);
-        assert(node.is_botsink());
+        if(!node.is_botsink())
+            return bdd_collection_node(bdd_col.bdd_delimiters[bdd_nr+1]-1, *this);
         return node;
     }
 
     bdd_collection_node bdd_collection_entry::topsink() const
     {
+        // the two terminals come last, in either order
         bdd_collection_node node(bdd_col.bdd_delimiters[bdd_nr+1]-1, *this);
-        assert(node.is_topsink());
+        if(!node.is_topsink())
+            return bdd_collection_node(bdd_col.bdd_delimiters[bdd_nr+1]-2, *this);
         return node;
     }
 
-- 
2.43.0


From e0b31a4bc94a04a155f2dbd0e6277d10471efcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 24/26] fix: building bdds in a collection node by node

Nodes referred to temporary entries, the bdd under construction had no
extent and terminals were looked up before they exist.
---
 include/bdd_collection.h | 59 +++++++++++++++++++++-------------------
 src/bdd_collection.cpp   | 20 ++++++++++----
 2 files changed, 45 insertions(+), 34 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 07920e0..e7ae5db 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -54,7 +54,34 @@ namespace BDD {
         } 
     };
 
-    class bdd_collection_entry;
+    class bdd_collection;
+    class bdd_collection_node;
+
+    // convenience class to make bdd_collection bdds behave similary to node_ref
+    class bdd_collection_entry 
+    {
+        friend class bdd_collection_node;
+        public:
+            bdd_collection_entry(const size_t _bdd_nr, bdd_collection& _bdd_col);
+            std::vector<size_t> variables();
+            bdd_collection_entry operator&(bdd_collection_entry& o);
+            bdd_collection_node operator[](const size_t i) const;
+            size_t nr_nodes() const;
+            size_t nr_nodes(const size_t variable) const;
+            template<typename ITERATOR>
+                void rebase(ITERATOR var_map_begin, ITERATOR var_map_end);
+            template<typename VAR_MAP>
+                void rebase(const VAR_MAP& var_map);
+
+            bdd_collection_node root_node() const;
+            bdd_collection_node first_node_postorder() const;
+            bdd_collection_node botsink() const;
+            bdd_collection_node topsink() const;
+
+        private:
+            const size_t bdd_nr;
+            bdd_collection& bdd_col;
+    };
 
     // convenience class for wrapping bdd node
     class bdd_collection_node
@@ -84,34 +111,10 @@ namespace BDD {
             void set_lo_to_1_terminal();
 
         private:
-            size_t i; 
-            const bdd_collection_entry& bce;
-    };
-
-    // convenience class to make bdd_collection bdds behave similary to node_ref
-    class bdd_collection_entry 
-    {
-        friend class bdd_collection_node;
-        public:
-            bdd_collection_entry(const size_t _bdd_nr, bdd_collection& _bdd_col);
-            std::vector<size_t> variables();
-            bdd_collection_entry operator&(bdd_collection_entry& o);
-            bdd_collection_node operator[](const size_t i) const;
-            size_t nr_nodes() const;
-            size_t nr_nodes(const size_t variable) const;
-            template<typename ITERATOR>
-                void rebase(ITERATOR var_map_begin, ITERATOR var_map_end);
-            template<typename VAR_MAP>
-                void rebase(const VAR_MAP& var_map);
+            bool under_construction() const;
 
-            bdd_collection_node root_node() const;
-            bdd_collection_node first_node_postorder() const;
-            bdd_collection_node botsink() const;
-            bdd_collection_node topsink() const;
-
-        private:
-            const size_t bdd_nr;
-            bdd_collection& bdd_col;
+            size_t i; 
+            const bdd_collection_entry bce; // by value, entries are temporaries most of the time
     };
 
     class bdd_collection {
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 95b8e20..649c225 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -577,6 +577,7 @@ namespace BDD {
         instr.lo = bdd_instruction::temp_undefined_index;
         instr.hi = bdd_instruction::temp_undefined_index;
         bdd_instructions.push_back(instr);
+        bdd_delimiters.back() = bdd_instructions.size();
         return bdd_collection_node(bdd_instructions.size()-1, bdd_collection_entry(bdd_delimiters.size()-2, *this));
     }
 
@@ -587,7 +588,7 @@ namespace BDD {
         bdd_instructions.push_back(bdd_instruction::botsink());
 
         // go over previous bdd instructions and reroute topsink and botsink entries to correct entries
-        for(size_t idx=bdd_delimiters[bdd_delimiters.size()-2]; idx<bdd_delimiters[bdd_delimiters.size()-1]-2; ++idx)
+        for(size_t idx=bdd_delimiters[bdd_delimiters.size()-2]; idx<bdd_instructions.size()-2; ++idx)
         {
             auto& instr = bdd_instructions[idx];
 
@@ -726,6 +727,13 @@ namespace BDD {
         return bce.bdd_col.bdd_instructions[i].is_terminal();
     }
 
+    // terminals are only added when closing the bdd
+    bool bdd_collection_node::under_construction() const
+    {
+        const bdd_instruction& last = bce.bdd_col.bdd_instructions[bce.bdd_col.bdd_delimiters[bce.bdd_nr+1]-1];
+        return !last.is_botsink() && !last.is_topsink();
+    }
+
     void bdd_collection_node::set_lo_arc(bdd_collection_node& node)
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
@@ -741,25 +749,25 @@ namespace BDD {
     void bdd_collection_node::set_lo_to_0_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.lo = bce.botsink().i;
+        instr.lo = under_construction() ? bdd_instruction::temp_botsink_index : bce.botsink().i;
     }
 
     void bdd_collection_node::set_lo_to_1_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.lo = bce.topsink().i;
+        instr.lo = under_construction() ? bdd_instruction::temp_topsink_index : bce.topsink().i;
     }
 
     void bdd_collection_node::set_hi_to_0_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.hi = bce.botsink().i;
+        instr.hi = under_construction() ? bdd_instruction::temp_botsink_index : bce.botsink().i;
     }
 
     void bdd_collection_node::set_hi_to_1_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.hi = bce.topsink().i;
+        instr.hi = under_construction() ? bdd_instruction::temp_topsink_index : bce.topsink().i;
     }
 
     bdd_collection_node bdd_collection_node::next_postorder() const
@@ -782,7 +790,7 @@ namespace BDD {
 
     bdd_collection_node bdd_collection_node::operator=(const bdd_collection_node& o)
     {
-        assert(&bce == &o.bce);
+        assert(&bce.bdd_col == &o.bce.bdd_col && bce.bdd_nr == o.bce.bdd_nr);
         i = o.i;
         return *this;
     }
-- 
2.43.0


From b6608adddab2edd178274a8fa5eb78fc40862b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 25/26] fix: reduce collection bdds with redundant or
 unreachable nodes

---
 src/bdd_collection.cpp | 56 +++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 649c225..4837024 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -474,48 +474,42 @@ namespace BDD {
         assert(nr_bdds() > 0);
         const size_t bdd_nr = nr_bdds() - 1;
 
-        std::vector<char> remove(nr_bdd_nodes(bdd_nr), false);
+        std::vector<size_t> remove(nr_bdd_nodes(bdd_nr), 0); // summed up below, hence no narrow type
         
-        // remove nodes with identical lo and hi arcs
-        for(std::ptrdiff_t idx=bdd_delimiters[bdd_nr+1]-3; idx>=bdd_delimiters[bdd_nr]; --idx)
+        // remove nodes with identical lo and hi arcs and isomorphic subgraphs, from bottom to top
+        const size_t begin = bdd_delimiters[bdd_nr];
+        std::vector<size_t> representative(nr_bdd_nodes(bdd_nr)); // instruction that takes the place of given one
+        std::unordered_map<bdd_instruction, size_t, bdd_instruction_hasher> bdd_map;
+        for(size_t idx=bdd_delimiters[bdd_nr+1]; idx-->begin;)
         {
             bdd_instruction& instr = bdd_instructions[idx];
-            bdd_instruction& lo = bdd_instructions[instr.lo];
-            bdd_instruction& hi = bdd_instructions[instr.hi];
-            if(!lo.is_terminal() && lo.lo == lo.hi)
-                instr.lo = bdd_instructions[lo.lo].lo;
-            if(!hi.is_terminal() && hi.lo == hi.hi)
-                instr.hi = bdd_instructions[hi.hi].hi;
+            representative[idx - begin] = idx;
+            if(instr.is_botsink() || instr.is_topsink())
+                continue;
+            instr.lo = representative[instr.lo - begin];
+            instr.hi = representative[instr.hi - begin];
             if(instr.lo == instr.hi)
-            {
-                remove[idx - bdd_delimiters[bdd_nr]] = true;
-            }
+                representative[idx - begin] = instr.lo;
+            else
+                representative[idx - begin] = bdd_map.insert({instr, idx}).first->second;
         }
 
-        // remove isomorphic subgraphs
-        std::unordered_map<bdd_instruction, size_t, bdd_instruction_hasher> bdd_map;
-        bdd_map.insert({bdd_instructions[bdd_delimiters[bdd_nr+1]-1], bdd_delimiters[bdd_nr+1]-1});
-        bdd_map.insert({bdd_instructions[bdd_delimiters[bdd_nr+1]-2], bdd_delimiters[bdd_nr+1]-2});
-        for(std::ptrdiff_t idx=bdd_delimiters[bdd_nr+1]-3; idx>=bdd_delimiters[bdd_nr]; --idx)
+        // remove nodes that cannot be reached from root. Keep the terminals always.
+        const size_t root = representative[0];
+        std::fill(remove.begin(), remove.end()-2, 1);
+        remove[root - begin] = 0;
+        for(size_t idx=root; idx<bdd_delimiters[bdd_nr+1]-2; ++idx)
         {
-            if(remove[idx - bdd_delimiters[bdd_nr]])
+            if(remove[idx - begin])
                 continue;
-            bdd_instruction& instr = bdd_instructions[idx];
-            auto it = bdd_map.find(instr);
-            if(it == bdd_map.end())
-                bdd_map.insert({instr, idx});
-            else
-            {
-                remove[idx - bdd_delimiters[bdd_nr]] = true;
-            }
-            assert(bdd_map.count(bdd_instructions[instr.lo]) > 0);
-            assert(bdd_map.count(bdd_instructions[instr.hi]) > 0);
-            instr.lo = bdd_map.find(bdd_instructions[instr.lo])->second;
-            instr.hi = bdd_map.find(bdd_instructions[instr.hi])->second;
+            remove[bdd_instructions[idx].lo - begin] = 0;
+            remove[bdd_instructions[idx].hi - begin] = 0;
         }
+        if(root == bdd_delimiters[bdd_nr+1]-1) // root comes first, also when it is a terminal
+            std::swap(bdd_instructions[root-1], bdd_instructions[root]);
 
         // compactify: remove unused instructions and move remaining ones to contiguous placement
-        const size_t nr_remaining_instructions = std::count(remove.begin(), remove.end(), false);
+        const size_t nr_remaining_instructions = std::count(remove.begin(), remove.end(), 0);
         std::vector<bdd_instruction> new_bdd_instructions;
         new_bdd_instructions.reserve(nr_remaining_instructions);
         std::vector<size_t> address_delta;
-- 
2.43.0


From bbf122ba58801ac0c10aa287be2520f8b7e39251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 26/26] fix: define node_ref::get_bdd_mgr

---
 src/bdd_node.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index 7182918..4ab098b 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -343,6 +343,11 @@ namespace BDD {
         return node_refs;
     }
 
+    bdd_mgr& node_ref::get_bdd_mgr() const
+    {
+        return *ref->find_bdd_mgr();
+    }
+
     node_ref node_ref::botsink() 
     { 
         return node_ref(find_bdd_mgr()->botsink()); 
-- 
2.43.0

