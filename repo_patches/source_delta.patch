From 6ec23997d04e408aa56f6cfe441c365cea0fedbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 01/38] fix: erase the substituted node's own structural-hash
 entry

While a node is substituted, a rewritten gate can get the same children as
the node that is about to be removed.  hash_erase() looked entries up by
their children and could remove the live gate's entry instead, leaving the
dead node findable (create_and then returned or asserted on a dead node).
---
 include/database/network/aig_network.hpp     | 4 ++--
 include/database/network/details/storage.hpp | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/database/network/aig_network.hpp b/include/database/network/aig_network.hpp
index dd47e56..f8ad313 100755
--- a/include/database/network/aig_network.hpp
+++ b/include/database/network/aig_network.hpp
@@ -517,7 +517,7 @@ public:
     const auto old_child1 = signal{node.children[1]};
 
     // erase old node in hash table
-    _storage->hash_erase(node);
+    _storage->hash_erase(n);
 
     // insert updated node into hash table
     node.children[0] = child0;
@@ -565,7 +565,7 @@ public:
     /* delete the node (ignoring it's current fanout_size) */
     auto& nobj = _storage->nodes[n];
     nobj.data[0].h1 = UINT32_C( 0x80000000 ); /* fanout size 0, but dead */
-    _storage->hash_erase(nobj);
+    _storage->hash_erase(n);
 
     for ( auto const& fn : _events->on_delete )
     {
diff --git a/include/database/network/details/storage.hpp b/include/database/network/details/storage.hpp
index 06a1f14..2a20666 100755
--- a/include/database/network/details/storage.hpp
+++ b/include/database/network/details/storage.hpp
@@ -104,16 +104,17 @@ struct storage
     ++num_entries;
   }
 
-  void hash_erase(node_type n)
+  void hash_erase(uint64_t index)
   {
-    uint64_t key = abc_hash(n, hash.size());
+    // match the entry itself: another entry can have equal children while a node is being substituted
+    uint64_t key = abc_hash(nodes[index], hash.size());
     uint64_t cur = hash[key], pre = hash[key];
-    while(!(n == nodes[cur]) && nodes[cur].next != 0)
+    while(cur != index && nodes[cur].next != 0)
     {
       pre = cur;
       cur = nodes[cur].next;
     }
-    assert(n == nodes[cur]);
+    assert(cur == index);
     if(cur == hash[key])
     {
       hash[key] = nodes[cur].next;
-- 
2.43.0


From 58c60c3c50273645e3861cea06aaa24f9c535fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 02/38] fix: keep pending replacements alive in substitute_node

A replacement found by structural hashing could be taken out, or itself be
substituted, before it was used, redirecting gates and outputs to a dead
node.
---
 include/database/network/aig_network.hpp | 29 ++++++++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/include/database/network/aig_network.hpp b/include/database/network/aig_network.hpp
index f8ad313..6c39fe2 100755
--- a/include/database/network/aig_network.hpp
+++ b/include/database/network/aig_network.hpp
@@ -594,13 +594,16 @@ public:
 
   void substitute_node( node const& old_node, signal const& new_signal )
   {
-    std::stack<std::pair<node, signal>> to_substitute;
-    to_substitute.push( {old_node, new_signal} );
+    /* pending replacements hold a reference to their new node, such that it
+       is not taken out before it is used */
+    std::vector<std::pair<node, signal>> to_substitute;
+    to_substitute.push_back( {old_node, new_signal} );
+    incr_fanout_size( new_signal.index );
 
     while ( !to_substitute.empty() )
     {
-      const auto [_old, _new] = to_substitute.top();
-      to_substitute.pop();
+      const auto [_old, _new] = to_substitute.back();
+      to_substitute.pop_back();
 
       for ( auto idx = 1u; idx < _storage->nodes.size(); ++idx )
       {
@@ -609,7 +612,8 @@ public:
 
         if ( const auto repl = replace_in_node( idx, _old, _new ); repl )
         {
-          to_substitute.push( *repl );
+          to_substitute.push_back( *repl );
+          incr_fanout_size( repl->second.index );
         }
       }
 
@@ -619,8 +623,23 @@ public:
       /* recursively reset old node */
       if ( _old != _new.index )
       {
+        /* check pending replacements */
+        for ( auto& s : to_substitute )
+        {
+          if ( s.second.index == _old )
+          {
+            s.second = _new ^ s.second.complement;
+            incr_fanout_size( _new.index );
+          }
+        }
         take_out_node( _old );
       }
+
+      /* release the reference */
+      if ( decr_fanout_size( _new.index ) == 0 && _new.index != new_signal.index )
+      {
+        take_out_node( _new.index );
+      }
     }
   }
 
-- 
2.43.0


From 59e80473b085e0f3fbde04633f54a08f2fa72652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 03/38] fix: evaluate klut nodes with the first fanin as least
 significant bit

---
 include/database/network/klut_network.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/database/network/klut_network.hpp b/include/database/network/klut_network.hpp
index 01071d6..e5138f2 100755
--- a/include/database/network/klut_network.hpp
+++ b/include/database/network/klut_network.hpp
@@ -733,11 +733,11 @@ signal create_maj( signal a, signal b, signal c )
   iterates_over_t<Iterator, bool>
   compute( node const& n, Iterator begin, Iterator end ) const
   {
+    /* the first fanin is the least significant bit, as in the node functions */
     uint32_t index{0};
-    while ( begin != end )
+    for ( uint32_t i = 0u; begin != end; ++i )
     {
-      index <<= 1;
-      index ^= *begin++ ? 1 : 0;
+      index |= ( *begin++ ? 1u : 0u ) << i;
     }
     return kitty::get_bit( _storage->data.cache[_storage->nodes[n].data[1].h1], index );
   }
-- 
2.43.0


From f7f54668f89f29fe0e9d70d6c1316c02a54d9276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 04/38] fix: do not re-initialize the storage of an existing
 klut network

---
 include/database/network/klut_network.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/database/network/klut_network.hpp b/include/database/network/klut_network.hpp
index e5138f2..0cc6812 100755
--- a/include/database/network/klut_network.hpp
+++ b/include/database/network/klut_network.hpp
@@ -84,6 +84,10 @@ public:
 private:
   inline void _init()
   {
+    /* the storage of an existing network is already initialized */
+    if ( _storage->nodes.size() > 1u )
+      return;
+
     /* reserve the second node for constant 1 */
     _storage->nodes.emplace_back();
 
-- 
2.43.0


From 0768dd4bed44fdeea21f2fe21892b9fe5ac2b7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 05/38] fix: keep the klut input kind apart from the
 application value

---
 include/database/network/klut_network.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/database/network/klut_network.hpp b/include/database/network/klut_network.hpp
index 0cc6812..c4ce207 100755
--- a/include/database/network/klut_network.hpp
+++ b/include/database/network/klut_network.hpp
@@ -162,8 +162,6 @@ public:
     _storage->inputs.emplace_back( index );
     _storage->nodes[index].data[1].h1 = 2;
     ++_storage->data.num_pis;
-
-    _storage->nodes[index_to_node(index)].data[0].h2 = 1;
     return index;
   }
 
@@ -188,8 +186,6 @@ public:
     _storage->nodes.emplace_back();
     _storage->inputs.emplace_back( index );
     _storage->nodes[index].data[1].h1 = 2;
-
-    _storage->nodes[index_to_node(index)].data[0].h2 = 3;
     return index;
   }
 
@@ -224,13 +220,13 @@ public:
 
   bool is_ci( node const& n ) const
   {
-    return _storage->nodes[n].data[0].h2 == 1 ||
-           _storage->nodes[n].data[0].h2 == 3;
+    /* not kept in data[0].h2, which holds the application-specific value */
+    return n > 1 && _storage->nodes[n].children.empty();
   }
 
   bool is_pi( node const& n ) const
   {
-    return _storage->nodes[n].data[0].h2 == 1;
+    return is_ci( n ) && !is_ro( n );
   }
 
   bool is_ro( node const& n ) const
-- 
2.43.0


From eba222739a3cae02de4a36a08911b8946dcd16b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 06/38] fix: look up klut input indices instead of reading
 absent fanins

---
 include/database/network/klut_network.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/database/network/klut_network.hpp b/include/database/network/klut_network.hpp
index c4ce207..a960abe 100755
--- a/include/database/network/klut_network.hpp
+++ b/include/database/network/klut_network.hpp
@@ -547,8 +547,9 @@ signal create_maj( signal a, signal b, signal c )
 
   uint32_t ci_index( node const& n ) const
   {
-    assert( _storage->nodes[n].children[0].data == _storage->nodes[n].children[1].data );
-    return static_cast<uint32_t>( _storage->nodes[n].children[0].data );
+    assert( is_ci( n ) );
+    const auto it = std::find( _storage->inputs.begin(), _storage->inputs.end(), n );
+    return static_cast<uint32_t>( it - _storage->inputs.begin() );
   }
 
   uint32_t co_index( signal const& s ) const
@@ -567,8 +568,9 @@ signal create_maj( signal a, signal b, signal c )
 
   uint32_t pi_index( node const& n ) const
   {
-    assert( _storage->nodes[n].children[0].data == _storage->nodes[n].children[1].data );
-    return static_cast<uint32_t>( _storage->nodes[n].children[0].data );
+    assert( is_ci( n ) );
+    const auto it = std::find( _storage->inputs.begin(), _storage->inputs.end(), n );
+    return static_cast<uint32_t>( it - _storage->inputs.begin() );
   }
 
   uint32_t po_index( signal const& s ) const
@@ -587,8 +589,8 @@ signal create_maj( signal a, signal b, signal c )
 
   uint32_t ro_index( node const& n ) const
   {
-    assert( _storage->nodes[n].children[0].data == _storage->nodes[n].children[1].data );
-    return static_cast<uint32_t>( _storage->nodes[n].children[0].data - _storage->data.num_pis );
+    assert( is_ro( n ) );
+    return ci_index( n ) - _storage->data.num_pis;
   }
 
   uint32_t ri_index( signal const& s ) const
@@ -607,7 +609,7 @@ signal create_maj( signal a, signal b, signal c )
 
   signal ro_to_ri( signal const& s ) const
   {
-    return ( _storage->outputs.begin() + _storage->data.num_pos + _storage->nodes[s].children[0].data - _storage->data.num_pis )->index;
+    return ( _storage->outputs.begin() + _storage->data.num_pos + ro_index( s ) )->index;
   }
 
   node ri_to_ro( signal const& s ) const
-- 
2.43.0


From 5f7971f2fb7d0ec18bdbbe6aea8149202bb7fed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:19 +0000
Subject: [PATCH 07/38] fix: do not write past the leaves of a cut when a merge
 fails

---
 include/database/cut/cut.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/database/cut/cut.hpp b/include/database/cut/cut.hpp
index 4ab822e..af8df1f 100644
--- a/include/database/cut/cut.hpp
+++ b/include/database/cut/cut.hpp
@@ -293,10 +293,12 @@ bool cut<MaxLeaves, T>::merge( cut const& that, cut& res, uint32_t cut_size ) co
     }
   }
 
-  auto it = std::set_union( begin(), end(), that.begin(), that.end(), res.begin() );
-  if ( auto length = std::distance( res.begin(), it ); length <= cut_size )
+  /* the union can have more elements than a cut can hold */
+  std::array<uint32_t, 2 * MaxLeaves> leaves;
+  auto it = std::set_union( begin(), end(), that.begin(), that.end(), leaves.begin() );
+  if ( auto length = std::distance( leaves.begin(), it ); length <= cut_size )
   {
-    res._cend = res._end = it;
+    res._cend = res._end = std::copy( leaves.begin(), it, res.begin() );
     res._length = static_cast<uint32_t>( length );
     res._signature = _signature | that._signature;
     return true;
-- 
2.43.0


From eef7c7b0b71ec2969b6de21cf0e31e183c667229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 08/38] fix: keep depth_view event handlers from outliving the
 view

---
 include/database/views/depth_view.hpp | 41 ++++++++++++++++++++++-----
 include/utils/node_map.hpp            |  7 +++++
 2 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/include/database/views/depth_view.hpp b/include/database/views/depth_view.hpp
index be6400d..1ee3159 100644
--- a/include/database/views/depth_view.hpp
+++ b/include/database/views/depth_view.hpp
@@ -18,6 +18,7 @@
 #pragma once
 
 #include <cstdint>
+#include <memory>
 #include <vector>
 
 #include "utils/traits.hpp"
@@ -109,7 +110,7 @@ public:
     static_assert( has_foreach_po_v<Ntk>, "Ntk does not implement the foreach_po method" );
     static_assert( has_foreach_fanin_v<Ntk>, "Ntk does not implement the foreach_fanin method" );
 
-    Ntk::events().on_add.push_back( [this]( auto const& n ) { on_add( n ); } );
+    register_on_add();
   }
 
   /*! \brief Standard constructor.
@@ -120,8 +121,8 @@ public:
   explicit depth_view( Ntk const& ntk, NodeCostFn const& cost_fn = {}, depth_view_params const& ps = {} )
       : Ntk( ntk ),
         _ps( ps ),
-        _levels( ntk ),
-        _crit_path( ntk ),
+        _levels( *this ),
+        _crit_path( *this ),
         _cost_fn( cost_fn )
   {
     static_assert( is_network_type_v<Ntk>, "Ntk is not a network type" );
@@ -135,12 +136,25 @@ public:
 
     update_levels();
 
-    Ntk::events().on_add.push_back( [this]( auto const& n ) { on_add( n ); } );
+    register_on_add();
+  }
+
+  /*! \brief Copy constructor.
+   *
+   * The copy has its own levels and its own event handler.
+   */
+  depth_view( depth_view const& other )
+      : Ntk( other ),
+        _ps( other._ps ),
+        _levels( *this, other._levels ),
+        _crit_path( *this, other._crit_path ),
+        _depth( other._depth ),
+        _cost_fn( other._cost_fn )
+  {
+    register_on_add();
   }
 
-  // We should add these or make sure that members are properly copied
-  //depth_view( depth_view<Ntk> const& ) = delete;
-  //depth_view<Ntk> operator=( depth_view<Ntk> const& ) = delete;
+  depth_view& operator=( depth_view const& ) = delete;
 
   uint32_t depth() const
   {
@@ -189,6 +203,18 @@ public:
   }
 
 private:
+  /* the handler stays in the event list of the (shared) network, it must not
+     touch the view after the view's lifetime */
+  void register_on_add()
+  {
+    Ntk::events().on_add.push_back( [this, alive = std::weak_ptr<bool>( _alive )]( auto const& n ) {
+      if ( !alive.expired() )
+      {
+        on_add( n );
+      }
+    } );
+  }
+
   uint32_t compute_levels( node const& n )
   {
     if ( this->visited( n ) == this->trav_id() )
@@ -279,6 +305,7 @@ private:
   node_map<uint32_t, Ntk> _crit_path;
   uint32_t _depth{};
   NodeCostFn _cost_fn;
+  std::shared_ptr<bool> _alive{std::make_shared<bool>( true )};
 };
 
 template<class T>
diff --git a/include/utils/node_map.hpp b/include/utils/node_map.hpp
index 48ba113..14d09d0 100644
--- a/include/utils/node_map.hpp
+++ b/include/utils/node_map.hpp
@@ -106,6 +106,13 @@ public:
     static_assert( has_node_to_index_v<Ntk>, "Ntk does not implement the node_to_index method" );
   }
 
+  /*! \brief Copies the values of another map for the network `ntk`. */
+  node_map( Ntk const& ntk, node_map const& other )
+      : ntk( ntk ),
+        data( std::make_shared<std::vector<T>>( *other.data ) )
+  {
+  }
+
   /*! \brief Mutable access to value by node. */
   reference operator[]( node const& n )
   {
-- 
2.43.0


From f309ac0dd5656d1a2b5e679fa970854e2df4e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 09/38] fix: size the levels of a depth_view before reading an
 output's level

---
 include/database/views/depth_view.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/database/views/depth_view.hpp b/include/database/views/depth_view.hpp
index 1ee3159..49378fe 100644
--- a/include/database/views/depth_view.hpp
+++ b/include/database/views/depth_view.hpp
@@ -198,7 +198,8 @@ public:
   uint32_t create_po( signal const& f, std::string const& name = std::string() )
   {
     auto po = Ntk::create_po( f, name );
-    _depth = std::max( _depth, _levels[f] );
+    _levels.resize();
+    _depth = std::max( _depth, _levels[f] + ( _ps.count_complements && this->is_complemented( f ) ? 1u : 0u ) );
     return po;
   }
 
-- 
2.43.0


From 3fff8174b38f067050210af382d5d6256dc250fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 10/38] fix: mark the nodes of a depth_view's critical path

---
 include/database/views/depth_view.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/database/views/depth_view.hpp b/include/database/views/depth_view.hpp
index 49378fe..e51d3fe 100644
--- a/include/database/views/depth_view.hpp
+++ b/include/database/views/depth_view.hpp
@@ -254,13 +254,14 @@ private:
       _depth = std::max( _depth, clevel );
     } );
 
-    // this->foreach_po( [&]( auto const& f ) {
-    //   const auto n = this->get_node( f );
-    //   if ( _levels[n] == _depth )
-    //   {
-    //     set_critical_path( n );
-    //   }
-    // } );
+    this->foreach_po( [&]( auto const& f ) {
+      const auto n = this->get_node( f );
+      const auto offset = _ps.count_complements && this->is_complemented( f ) ? 1u : 0u;
+      if ( _levels[n] + offset == _depth && !_crit_path[n] )
+      {
+        set_critical_path( n );
+      }
+    } );
   }
 
   void set_critical_path( node const& n )
@@ -287,6 +288,7 @@ private:
   void on_add( node const& n )
   {
     _levels.resize();
+    _crit_path.resize();
 
     uint32_t level{0};
     this->foreach_fanin( n, [&]( auto const& f ) {
-- 
2.43.0


From 593c3fcdb85f354ba4c89c8e9f811a388695cd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 11/38] fix: accept the empty cut of a constant node in a cut
 set

---
 include/database/cut/cut_set.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/database/cut/cut_set.hpp b/include/database/cut/cut_set.hpp
index 5f680c9..1e80e29 100644
--- a/include/database/cut/cut_set.hpp
+++ b/include/database/cut/cut_set.hpp
@@ -141,7 +141,6 @@ public:
    */
   void insert(CutType const& cut)
   {
-    assert(cut.size());
     _pcend = _pend = std::stable_partition( _pcuts.begin(), _pend, [&cut]( auto const* other ) { return !cut.dominates( *other ); } );
     auto ipos = std::lower_bound( _pcuts.begin(), _pend, &cut, []( auto a, auto b ) { return *a < *b; } );
 
-- 
2.43.0


From 78f577d1bc7bfffb43900197b215016f94d5871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 12/38] fix: skip only the trivial cut of a node when balancing

---
 include/operations/optimization/balancing.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/operations/optimization/balancing.hpp b/include/operations/optimization/balancing.hpp
index d2f18ac..4195559 100644
--- a/include/operations/optimization/balancing.hpp
+++ b/include/operations/optimization/balancing.hpp
@@ -163,10 +163,16 @@ struct balancing_impl
       uint32_t best_size{};
       for ( auto& cut : cuts.cuts( ntk_.node_to_index( n ) ) )
       {
-        if ( cut->size() == 1u || kitty::is_const0( cuts.truth_table( *cut ) ) )
+        /* skip the trivial cut of the node itself */
+        if ( cut->size() == 1u && *cut->begin() == ntk_.node_to_index( n ) )
         {
           continue;
         }
+        if ( kitty::is_const0( cuts.truth_table( *cut ) ) )
+        {
+          best = {dest.get_constant( false ), 0u};
+          break;
+        }
 
         std::vector<arrival_time_pair<Ntk>> arrival_times( cut->size() );
         std::transform( cut->begin(), cut->end(), arrival_times.begin(), [&]( auto leaf ) { return old_to_new[ntk_.index_to_node( leaf )]; });
-- 
2.43.0


From 9470f78c77b1aa1a89552fe8f6417ab674faa332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 13/38] fix: refactor networks with gates outside of the output
 cones

refactor computed depths only for nodes in the cones of the outputs and
dereferenced the end of the map for any other gate it met (dangling gates
of the input, gates left dangling by an earlier replacement).
---
 include/operations/optimization/refactor.hpp | 32 ++++++++++++++++----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/operations/optimization/refactor.hpp b/include/operations/optimization/refactor.hpp
index 2a45a3f..4a25783 100644
--- a/include/operations/optimization/refactor.hpp
+++ b/include/operations/optimization/refactor.hpp
@@ -81,7 +81,7 @@ namespace detail
       _ntk.foreach_gate([&](auto const &n)
                         {
         // skip the nodes with many fanouts and nodes with no fanout
-        if (_ntk.is_dead(n) || _ntk.fanout_size(n) > 1000)
+        if (_ntk.is_dead(n) || _ntk.fanout_size(n) == 0 || _ntk.fanout_size(n) > 1000)
         {
           return;
         }
@@ -150,6 +150,24 @@ namespace detail
       } });
     }
 
+    /**
+     * @brief depth of a node, computed here for the nodes outside of the cones of the POs
+     */
+    uint32_t get_depth(node<Ntk> n)
+    {
+      auto iter = _depth_map.find(n);
+      if (iter != _depth_map.end())
+      {
+        return iter->second;
+      }
+
+      uint32_t depth = 0;
+      _ntk.foreach_fanin(n, [&](auto const &f)
+                         { depth = std::max(depth, 1 + get_depth(_ntk.get_node(f))); });
+      _depth_map.insert(std::make_pair(n, depth));
+      return depth;
+    }
+
     /**
      * @brief Computes reverse levels for each node(length of the farthest path from n to POs)
      */
@@ -236,7 +254,7 @@ namespace detail
       for (auto leaf : _leaves_nodes)
       {
         cur_cost = compute_leaf_cost(leaf);
-        int cur_level = _depth_map.find(leaf)->second;
+        int cur_level = get_depth(leaf);
 
         if (cur_cost < best_cost || (cur_cost == best_cost && cur_level > best_fanin_level))
         {
@@ -437,7 +455,9 @@ namespace detail
         int gain = num_nodes_save - num_nodes_added;
 
         // compute depth
-        auto reuqire_depth = _depth_max + 1 - _r_depth_map.find(root)->second;
+        auto r_depth_iter = _r_depth_map.find(root);
+        // a root outside of the cones of the POs has no entry, and cannot exceed the depth of _ntk
+        auto reuqire_depth = _depth_max + 1 - (r_depth_iter == _r_depth_map.end() ? 1u : r_depth_iter->second);
         auto cur_depth = update_depth(_ntk.get_node(f_new));
 
         if ((gain > 0 || (_params.allow_zero_gain && gain == 0)) // area
@@ -500,7 +520,7 @@ namespace detail
                          {
       auto child = _ntk.get_node( s );
       if ( leaves_set.find( child ) != leaves_set.end() ) {  // leaves node
-        cur_depth = std::max( cur_depth, 1 + _depth_map.find( child )->second );
+        cur_depth = std::max( cur_depth, 1 + get_depth( child ) );
       } else {  // internal node
         cur_depth = std::max( cur_depth, 1 + recursive_update_depth( child, leaves_set ) );
       } });
@@ -560,11 +580,11 @@ namespace detail
       }
 
       auto fanouts_set = fanouts_iter->second;
-      auto root_dp = _depth_map.find(root)->second;
+      auto root_dp = get_depth(root);
       for (auto fanout : fanouts_set)
       {
         auto depth_iter = _depth_map.find(fanout);
-        if (depth_iter->second < root_dp + 1)
+        if (depth_iter != _depth_map.end() && depth_iter->second < root_dp + 1)
         {
           depth_iter->second = root_dp + 1;
           recursive_update_fanouts_depth(fanout);
-- 
2.43.0


From d36e82798e91485b9cf330fd59062f53b4ebad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 14/38] fix: leave nodes alone that wait for their replacement
 in substitute_node

A node that became trivial keeps its old children until its replacement is
processed. Replacing another of its children meanwhile used the dead one as
its new value and brought a dead node back into the network.
---
 include/database/network/aig_network.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/database/network/aig_network.hpp b/include/database/network/aig_network.hpp
index 6c39fe2..3ad9ab6 100755
--- a/include/database/network/aig_network.hpp
+++ b/include/database/network/aig_network.hpp
@@ -610,6 +610,11 @@ public:
         if ( is_ci( idx ) || is_dead( idx ) )
           continue; /* ignore CIs */
 
+        /* a node that waits for its replacement keeps its children, which may be dead by now */
+        if ( ( _storage->nodes[idx].children[0].index == _old || _storage->nodes[idx].children[1].index == _old ) &&
+             std::any_of( to_substitute.begin(), to_substitute.end(), [&]( auto const& s ) { return s.first == idx; } ) )
+          continue;
+
         if ( const auto repl = replace_in_node( idx, _old, _new ); repl )
         {
           to_substitute.push_back( *repl );
-- 
2.43.0


From 0cfaf7a14d8196369f4b0c235129c16018863758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 15/38] fix: replace rewritten nodes consistently

local_replacement redirected only the first output of a node and, when there
was one, none of its gates; gates that became trivial turned into AND(x,x),
which the network takes for an input, so that outputs got the wrong function.
Candidates were also applied after earlier replacements had removed their
gain, increasing the number of gates. Substitute the node through the
network, and only if the replacement still pays off and creates no cycle.
Also visit each padded node once instead of exponentially often.
---
 include/operations/optimization/rewrite.hpp | 172 ++++++++++++--------
 1 file changed, 107 insertions(+), 65 deletions(-)

diff --git a/include/operations/optimization/rewrite.hpp b/include/operations/optimization/rewrite.hpp
index db6f73b..63f084c 100644
--- a/include/operations/optimization/rewrite.hpp
+++ b/include/operations/optimization/rewrite.hpp
@@ -138,13 +138,17 @@ class rewrite_impl
     if(_ps.verbose) {
       printf("perform local replacement ing\n");
     }
-    // uint i = 0;
-    // size = best_replacement.size();
+    bool outdated = true;
     for(auto cand : best_replacement){
-      // printf("processing at [%d/%d]\n", ++i, size);
-      if(cand.first == _ntk.get_node(cand.second))
+      const auto new_n = _ntk.get_node(cand.second);
+      if(cand.first == new_n || _ntk.is_dead(cand.first) || _ntk.is_dead(new_n))
         continue;
-      local_replacement(cand.first, cand.second);
+      if(outdated) {
+        update_reference();
+        update_depth();
+        outdated = false;
+      }
+      outdated = local_replacement(cand.first, cand.second);
     }
 
     return cleanup_dangling(_ntk);
@@ -152,25 +156,10 @@ class rewrite_impl
 
  private:
   void initialize() {
-    initialize_fanouts();
     initialize_reference();
     initialize_depth();
   }
 
-  void initialize_fanouts() {
-    _ntk.foreach_gate([&](auto const& n){
-      _ntk.foreach_fanin(n, [&](auto const& sc){
-        auto nc = _ntk.get_node(sc);
-        _fanouts[nc].emplace_back( signal_t(n, _ntk.is_complemented(sc)) );
-      });
-    });
-
-    _ntk.foreach_po([&](auto const& po){
-      auto npo = _ntk.get_node(po);
-      _fanouts[npo].emplace_back( po );
-    });
-  }
-
   /**
    * @brief initialize the reference count of each node
   */
@@ -185,7 +174,7 @@ class rewrite_impl
    * @brief initialize the arrive depth and require depth for each node
   */
   void initialize_depth() {
-    int depth_max = 0;
+    _depth_max = 0;
     // set arrive depth first
     _ntk.foreach_node([&](auto const& n){
       _depth_arrive[n] = -1;     // init each arrive depth be -1
@@ -201,11 +190,11 @@ class rewrite_impl
 
     // set the require depth
     _ntk.foreach_po([&](auto const& po){
-      depth_max = std::max(depth_max, _depth_arrive[_ntk.get_node(po)]);
+      _depth_max = std::max(_depth_max, _depth_arrive[_ntk.get_node(po)]);
     });
 
     _ntk.foreach_po([&](auto const& po){
-      _depth_require[_ntk.get_node(po)] = depth_max;
+      _depth_require[_ntk.get_node(po)] = _depth_max;
       compute_require_depth_rec( _ntk.get_node(po) );
     });
   }
@@ -234,18 +223,14 @@ class rewrite_impl
    * @return depth for n
   */
   int update_arrive_depth(node_t const& n, std::vector<node_t> const& leaves) {
+    if(std::find(leaves.begin(), leaves.end(), n) != leaves.end()) {
+      return _depth_arrive[n];
+    }
     int res = 0;
     _ntk.foreach_fanin(n, [&](auto const& sc){
-      auto nc = _ntk.get_node(sc);
-      if(std::find(leaves.begin(), leaves.end(), nc) != leaves.end()) {
-        res = std::max(res, _depth_arrive[nc] + 1);
-        _depth_arrive[n] = std::max(_depth_arrive[n], _depth_arrive[nc] + 1);
-      }
-      else {
-        res = std::max(res, update_arrive_depth(nc, leaves) + 1);
-        _depth_arrive[n] = std::max(_depth_arrive[n], update_arrive_depth(nc, leaves) + 1);
-      }
+      res = std::max(res, update_arrive_depth(_ntk.get_node(sc), leaves) + 1);
     });
+    _depth_arrive[n] = std::max(_depth_arrive[n], res);
     return res;
   }
 
@@ -292,44 +277,101 @@ class rewrite_impl
   }
 
   /**
-   * @brief perform the local placement
-   * @param old_n
-   * @param new_s
-   * @param leaves
+   * @brief recount the references among the nodes in the cones of the POs
+  */
+  void update_reference() {
+    _ntk.clear_values();
+    topo_view<Ntk>(_ntk).foreach_node([&](auto const& n){
+      _ntk.foreach_fanin(n, [&](auto const& sc){
+        _ntk.incr_value(_ntk.get_node(sc));
+      });
+    });
+    _ntk.foreach_po([&](auto const& po){
+      _ntk.incr_value(_ntk.get_node(po));
+    });
+  }
+
+  /**
+   * @brief recompute the arrive depth and require depth of the nodes in the cones of the POs
   */
-  void local_replacement(node_t const& old_n, signal_t const& new_s) {
-    // deref + ref
-    auto new_n = _ntk.get_node(new_s);
-    deref_node_recursive(_ntk, old_n);
-    ref_node_recursive(_ntk, old_n);
-
-    // refanouts
-    // reset po signal
-    bool is_po = false;
-    _ntk.foreach_po([&](auto const& po, auto const& index){
-      if(is_po)
+  void update_depth() {
+    std::vector<node_t> order;
+    _depth_arrive.clear();
+    _depth_require.clear();
+    topo_view<Ntk>(_ntk).foreach_node([&](auto const& n){
+      order.push_back(n);
+      int arrive = 0;
+      _ntk.foreach_fanin(n, [&](auto const& sc){
+        arrive = std::max(arrive, _depth_arrive[_ntk.get_node(sc)] + 1);
+      });
+      _depth_arrive[n]  = arrive;
+      _depth_require[n] = _depth_max;
+    });
+    for(auto it = order.rbegin(); it != order.rend(); ++it) {
+      const int require = _depth_require[*it] - 1;
+      _ntk.foreach_fanin(*it, [&](auto const& sc){
+        auto& require_c = _depth_require[_ntk.get_node(sc)];
+        require_c = std::min(require_c, require);
+      });
+    }
+  }
+
+  /**
+   * @brief the arrive depth of a node, or -1 when the node depends on old_n
+  */
+  int compute_arrive_depth(node_t const& n, node_t const& old_n, std::unordered_map<node_t, int>& arrive) {
+    if(n == old_n) {
+      return -1;
+    }
+    if(auto it = arrive.find(n); it != arrive.end()) {
+      return it->second;
+    }
+    int res = 0;
+    _ntk.foreach_fanin(n, [&](auto const& sc){
+      if(res < 0)
         return;
-      auto npo = _ntk.get_node(po);
-      if(npo == old_n) {
-        auto new_po = signal_t(new_n, _ntk.is_complemented(po)^_ntk.is_complemented(new_s) );
-        _ntk.set_po_at(index, new_po);
-        is_po = true;
-      }
+      const int arrive_c = compute_arrive_depth(_ntk.get_node(sc), old_n, arrive);
+      res = arrive_c < 0 ? -1 : std::max(res, arrive_c + 1);
     });
+    arrive[n] = res;
+    return res;
+  }
 
-    if( !is_po ) {
-      for(auto sfo : _fanouts[old_n]) {
-        auto nfo = _ntk.get_node(sfo);
-        auto sc0 = _ntk.get_child0(nfo);
-        auto sc1 = _ntk.get_child1(nfo);
-        if(_ntk.get_node(sc0) == old_n) {
-          _ntk.set_child0(nfo, signal_t(new_n, _ntk.is_complemented(new_s)^_ntk.is_complemented(sc0)));
-        }
-        if(_ntk.get_node(sc1) == old_n) {
-          _ntk.set_child1(nfo, signal_t(new_n, _ntk.is_complemented(new_s)^_ntk.is_complemented(sc1)));
-        }
+  /**
+   * @brief perform the local placement, if it (still) pays off: earlier replacements have changed the network
+   *        since the candidate was evaluated
+   * @param old_n
+   * @param new_s
+   * @return whether the node was replaced
+  */
+  bool local_replacement(node_t const& old_n, signal_t const& new_s) {
+    const auto new_n = _ntk.get_node(new_s);
+    if(_ntk.value(old_n) == 0) { // outside of the cones of the POs
+      return false;
+    }
+
+    // the new signal must not depend on the replaced node
+    std::unordered_map<node_t, int> arrive;
+    const int arrive_new = compute_arrive_depth(new_n, old_n, arrive);
+    if(arrive_new < 0 || (_ps.b_preserve_depth && arrive_new > _depth_require[old_n])) {
+      return false;
+    }
+
+    int gain = deref_node_recursive(_ntk, old_n);
+    const bool is_unused = _ntk.value(new_n) == 0;
+    if(is_unused) {
+      gain -= ref_node_recursive(_ntk, new_n);
+    }
+    if(gain < 0 || (!_ps.b_use_zero_gain && gain == 0)) {
+      if(is_unused) {
+        deref_node_recursive(_ntk, new_n);
       }
+      ref_node_recursive(_ntk, old_n);
+      return false;
     }
+
+    _ntk.substitute_node(old_n, new_s);
+    return true;
   }
 
  private:
@@ -337,9 +379,9 @@ class rewrite_impl
   RewritingFn const&    _rewriting_fn;
   rewrite_params const& _ps;
 
-  std::unordered_map<node_t, std::vector<signal_t>> _fanouts;
   std::unordered_map<node_t, int> _depth_arrive;
   std::unordered_map<node_t, int> _depth_require;
+  int _depth_max{ 0 };
 };  // end class rewrite_impl
 
 };  // end namespace detail
-- 
2.43.0


From 847d6fcfe6d974536547ea88a6507eaeb784410e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 16/38] fix: do not erase from the substitution list while it
 is being filtered

Deleting the replacement of a removed node re-entered clean_substitutions
inside std::remove_if on the same list (use after free).
---
 include/database/network/aig_network.hpp | 49 ++++++++++++------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/include/database/network/aig_network.hpp b/include/database/network/aig_network.hpp
index 3ad9ab6..20fe546 100755
--- a/include/database/network/aig_network.hpp
+++ b/include/database/network/aig_network.hpp
@@ -652,30 +652,31 @@ public:
   {
     auto clean_substitutions = [&]( node const& n )
     {
-      substitutions.erase( std::remove_if( std::begin( substitutions ), std::end( substitutions ),
-                                           [&]( auto const& s ){
-                                             if ( s.first == n )
-                                             {
-                                               node const nn = get_node( s.second );
-                                               if ( is_dead( nn ) )
-                                                 return true;
-
-                                               /* deref fanout_size of the node */
-                                               if ( fanout_size( nn ) > 0 )
-                                               {
-                                                 decr_fanout_size( nn );
-                                               }
-                                               /* remove the node if it's fanout_size becomes 0 */
-                                               if ( fanout_size( nn ) == 0 )
-                                               {
-                                                 take_out_node( nn );
-                                               }
-                                               /* remove substitution from list */
-                                               return true;
-                                             }
-                                             return false; /* keep */
-                                           } ),
-                           std::end( substitutions ) );
+      /* take each entry off the list first: deleting its replacement calls this function again */
+      for ( ;; )
+      {
+        auto const it = std::find_if( std::begin( substitutions ), std::end( substitutions ),
+                                      [&]( auto const& s ){ return s.first == n; } );
+        if ( it == std::end( substitutions ) )
+          break;
+
+        node const nn = get_node( it->second );
+        substitutions.erase( it );
+
+        if ( is_dead( nn ) )
+          continue;
+
+        /* deref fanout_size of the node */
+        if ( fanout_size( nn ) > 0 )
+        {
+          decr_fanout_size( nn );
+        }
+        /* remove the node if it's fanout_size becomes 0 */
+        if ( fanout_size( nn ) == 0 )
+        {
+          take_out_node( nn );
+        }
+      }
     };
 
     /* register event to delete substitutions if their right-hand side
-- 
2.43.0


From 0fb5b58a00b42d00e7e6517de253378c0ac496a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 17/38] fix: convert mapped networks whose outputs need no LUT

---
 .../operations/algorithms/network_to_klut.hpp | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/operations/algorithms/network_to_klut.hpp b/include/operations/algorithms/network_to_klut.hpp
index fc90b82..447ad9d 100644
--- a/include/operations/algorithms/network_to_klut.hpp
+++ b/include/operations/algorithms/network_to_klut.hpp
@@ -27,6 +27,25 @@ iFPGA_NAMESPACE_HEADER_START
 
 namespace detail
 {
+/* a mapping without cells is complete when no gate drives an output */
+template<class NtkSource>
+bool covers_outputs( NtkSource const& ntk )
+{
+  if ( ntk.has_mapping() )
+  {
+    return true;
+  }
+  bool covered = true;
+  ntk.foreach_po( [&]( auto const& f ) {
+    auto const n = ntk.get_node( f );
+    if ( !ntk.is_constant( n ) && !ntk.is_pi( n ) )
+    {
+      covered = false;
+    }
+  } );
+  return covered;
+}
+
 template<class NtkDest, class NtkSource>
 class collapse_mapped_network_impl
 {
@@ -383,7 +402,7 @@ class collapse_mapped_choice_impl
 template<class NtkDest, class NtkSource>
 std::optional<NtkDest> network_to_klut( NtkSource const& ntk )
 {
-  if ( !ntk.has_mapping() && ntk.num_gates() > 0 )
+  if ( !detail::covers_outputs( ntk ) )
   {
     return std::nullopt;
   }
@@ -399,7 +418,7 @@ std::optional<NtkDest> network_to_klut( NtkSource const& ntk )
 template<class NtkDest, class NtkSource>
 bool network_to_klut( NtkDest& dest, NtkSource const& ntk )
 {
-  if ( !ntk.has_mapping() && ntk.num_gates() > 0 )
+  if ( !detail::covers_outputs( ntk ) )
   {
     return false;
   }
@@ -415,7 +434,7 @@ bool network_to_klut( NtkDest& dest, NtkSource const& ntk )
 template<class NtkDest, class NtkSource>
 std::optional<NtkDest> choice_to_klut( NtkSource const& ntk )
 {
-  if ( !ntk.has_mapping() && ntk.num_gates() > 0 )
+  if ( !detail::covers_outputs( ntk ) )
   {
     return std::nullopt;
   }
@@ -431,7 +450,7 @@ std::optional<NtkDest> choice_to_klut( NtkSource const& ntk )
 template<class NtkDest, class NtkSource>
 bool choice_to_klut( NtkDest& dest, NtkSource const& ntk )
 {
-  if ( !ntk.has_mapping() && ntk.num_gates() > 0 )
+  if ( !detail::covers_outputs( ntk ) )
   {
     return false;
   }
-- 
2.43.0


From 0429af1c249dbf03e7eb9f59e968105607070633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 18/38] fix: report the delay of the final LUT cover

---
 .../operations/algorithms/klut_mapping.hpp    | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/operations/algorithms/klut_mapping.hpp b/include/operations/algorithms/klut_mapping.hpp
index ee87933..addf877 100644
--- a/include/operations/algorithms/klut_mapping.hpp
+++ b/include/operations/algorithms/klut_mapping.hpp
@@ -585,9 +585,24 @@ class klut_mapping_impl
 
       clear_refs();
       _ntk.foreach_po( [&]( auto s){
-        const auto n = _ntk.get_node(s);
-        tmp_delay = std::max( tmp_delay, _storage->arrival_times[n]);   // compute current delay
-        mark_ref_rec(n);
+        mark_ref_rec( _ntk.get_node(s) );
+      });
+
+      // a best cut that was kept may be older than the best cuts of its leaves, so compute the delay of the final cover
+      for( auto n : _storage->topo_order )
+      {
+        if( _storage->refs[n] == 0u || _ntk.is_ci(n) || _ntk.is_constant(n) )
+          continue;
+
+        float arrival = 0.0f;
+        for( auto leaf : _cut_network.get_best_cut(n) )
+        {
+          arrival = std::max( arrival, _storage->arrival_times[leaf] );
+        }
+        _storage->arrival_times[n] = arrival + 1.0f;
+      }
+      _ntk.foreach_po( [&]( auto s){
+        tmp_delay = std::max( tmp_delay, _storage->arrival_times[ _ntk.get_node(s) ]);   // compute current delay
       });
 
       for(auto it = _storage->topo_order.rbegin(); it != _storage->topo_order.rend(); ++it)
-- 
2.43.0


From 09bf38d2920a7d7e869d4621986d73f1399667a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 19/38] fix: count registers as inputs in topo_view

---
 include/database/views/topo_view.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/database/views/topo_view.hpp b/include/database/views/topo_view.hpp
index 38378d0..4d50c97 100644
--- a/include/database/views/topo_view.hpp
+++ b/include/database/views/topo_view.hpp
@@ -135,7 +135,7 @@ public:
   /*! \brief Reimplementation of `num_gates`. */
   auto num_gates() const
   {
-    uint32_t const offset = 1u + this->num_pis() + ( this->get_node( this->get_constant( true ) ) != this->get_node( this->get_constant( false ) ) ); 
+    uint32_t const offset = 1u + this->num_cis() + ( this->get_node( this->get_constant( true ) ) != this->get_node( this->get_constant( false ) ) ); 
     return static_cast<uint32_t>( topo_order.size() - offset );
   }
 
@@ -164,7 +164,7 @@ public:
   template<typename Fn>
   void foreach_gate( Fn&& fn ) const
   {
-    uint32_t const offset = 1u + this->num_pis() + ( this->get_node( this->get_constant( true ) ) != this->get_node( this->get_constant( false ) ) ); 
+    uint32_t const offset = 1u + this->num_cis() + ( this->get_node( this->get_constant( true ) ) != this->get_node( this->get_constant( false ) ) ); 
     detail::foreach_element( topo_order.begin() + offset,
                              topo_order.end(),
                              fn );
-- 
2.43.0


From f4b44ef9bd8e95505e851a674c30b8e7585071ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 20/38] fix: reference the cone in ref_node_recursive_contained

---
 include/operations/algorithms/ref_deref.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/operations/algorithms/ref_deref.hpp b/include/operations/algorithms/ref_deref.hpp
index d3d1b49..c1c0c64 100644
--- a/include/operations/algorithms/ref_deref.hpp
+++ b/include/operations/algorithms/ref_deref.hpp
@@ -79,11 +79,11 @@ std::tuple<int, bool> ref_node_recursive_contained(Ntk& ntk, node<Ntk> const& n,
   if( ntk.is_constant(n) || ntk.is_pi(n) )
     return {0, false};
   
-  int value = 0;
+  int value = unit_cost<Ntk>{}(ntk, n);
   bool contains = ( n == replaced_node);
   ntk.foreach_fanin(n, [&](auto const& s){
     contains = contains || (ntk.get_node(s) == replaced_node);
-    if(ntk.decr_value( ntk.get_node(s)) == 0 )
+    if(ntk.incr_value( ntk.get_node(s)) == 0 )
     {
       const auto tmp_res = ref_node_recursive_contained(ntk, ntk.get_node(s), replaced_node);
       value += std::get<0>(tmp_res);
-- 
2.43.0


From 29df5c616ee281ff0a3275309e58ab5bd5e48ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 21/38] fix: reject truncated and inconsistent binary AIGER
 files

---
 libs/lorina/lorina/aiger.hpp | 123 ++++++++++++++++++++++++++++-------
 1 file changed, 98 insertions(+), 25 deletions(-)

diff --git a/libs/lorina/lorina/aiger.hpp b/libs/lorina/lorina/aiger.hpp
index 8b20d85..e084e74 100644
--- a/libs/lorina/lorina/aiger.hpp
+++ b/libs/lorina/lorina/aiger.hpp
@@ -35,6 +35,9 @@
 #include "common.hpp"
 #include "diagnostics.hpp"
 #include "detail/utils.hpp"
+#include <algorithm>
+#include <cstdint>
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include <regex>
@@ -731,6 +734,16 @@ inline return_code read_aiger( std::istream& in, const aiger_reader& reader, dia
     _c = header.size() > 7 ? header[7u] : 0u;
     _j = header.size() > 8 ? header[8u] : 0u;
     _f = header.size() > 9 ? header[9u] : 0u;
+
+    if ( uint64_t( _m ) != uint64_t( _i ) + _l + _a )
+    {
+      if ( diag )
+      {
+        diag->report( diagnostic_level::fatal,
+                      fmt::format( "inconsistent number of variables in AIGER header `{0}`", header_line ) );
+      }
+      return return_code::parse_error;
+    }
     reader.on_header( _m, _i, _l, _o, _a, _b, _c, _j, _f );
   }
   else
@@ -745,6 +758,33 @@ inline return_code read_aiger( std::istream& in, const aiger_reader& reader, dia
 
   std::string line;
 
+  const auto invalid = [&]( std::string const& what ) {
+    if ( diag )
+    {
+      diag->report( diagnostic_level::fatal, fmt::format( "could not parse {0} `{1}`", what, line ) );
+    }
+    return return_code::parse_error;
+  };
+
+  /* reads a line, fails at the end of the file */
+  const auto next_line = [&]() {
+    detail::getline( in, line );
+    return !line.empty();
+  };
+
+  /* parses the literal of a variable that is declared by the header */
+  const auto parse_literal = [&]( std::string const& token, uint32_t& lit ) {
+    if ( token.empty() || token.size() > 10u || !std::all_of( token.begin(), token.end(), []( unsigned char c ) { return c >= '0' && c <= '9'; } ) )
+    {
+      return false;
+    }
+    const uint64_t value = std::strtoull( token.c_str(), nullptr, 10 );
+    lit = static_cast<uint32_t>( value );
+    return value <= 2ull * _m + 1u;
+  };
+
+  uint32_t lit = 0u;
+
   /* inputs */
   for ( auto i = 0u; i < _i; ++i )
   {
@@ -754,9 +794,16 @@ inline return_code read_aiger( std::istream& in, const aiger_reader& reader, dia
   /* latches */
   for ( auto i = 0u; i < _l; ++i )
   {
-    detail::getline( in, line );
+    if ( !next_line() )
+    {
+      return invalid( "declaration of LATCH" );
+    }
     const auto tokens = detail::split( line, " " );
-    const auto next = std::atoi( tokens[0u].c_str() );
+    if ( tokens.empty() || !parse_literal( tokens[0u], lit ) )
+    {
+      return invalid( "declaration of LATCH" );
+    }
+    const auto next = lit;
     aiger_reader::latch_init_value init_value = aiger_reader::latch_init_value::NONDETERMINISTIC;
     if ( tokens.size() == 2u )
     {
@@ -775,29 +822,41 @@ inline return_code read_aiger( std::istream& in, const aiger_reader& reader, dia
 
   for ( auto i = 0u; i < _o; ++i )
   {
-    detail::getline( in, line );
-    reader.on_output( i, std::atol( line.c_str() ) );
+    if ( !next_line() || !parse_literal( line, lit ) )
+    {
+      return invalid( "declaration of OUTPUT" );
+    }
+    reader.on_output( i, lit );
   }
 
   /* bad state properties */
   for ( auto i = 0u; i < _b; ++i )
   {
-    detail::getline( in, line );
-    reader.on_bad_state( i, std::atol( line.c_str() ) );
+    if ( !next_line() || !parse_literal( line, lit ) )
+    {
+      return invalid( "declaration of BAD STATE" );
+    }
+    reader.on_bad_state( i, lit );
   }
 
   /* constraints */
   for ( auto i = 0u; i < _c; ++i )
   {
-    detail::getline( in, line );
-    reader.on_constraint( i, std::atol( line.c_str() ) );
+    if ( !next_line() || !parse_literal( line, lit ) )
+    {
+      return invalid( "declaration of CONSTRAINT" );
+    }
+    reader.on_constraint( i, lit );
   }
 
   /* justice properties */
   std::vector<uint64_t> justice_sizes;
   for ( auto i = 0u; i < _j; ++i )
   {
-    detail::getline( in, line );
+    if ( !next_line() )
+    {
+      return invalid( "declaration of JUSTICE" );
+    }
     const auto justice_size = std::atol( line.c_str() );
     justice_sizes.emplace_back( justice_size );
     reader.on_justice_header( i, justice_size );
@@ -808,8 +867,10 @@ inline return_code read_aiger( std::istream& in, const aiger_reader& reader, dia
     std::vector<uint32_t> lits;
     for ( auto j = 0u; j < justice_sizes[i]; ++j )
     {
-      detail::getline( in, line );
-      const auto lit = std::atol( line.c_str() );
+      if ( !next_line() || !parse_literal( line, lit ) )
+      {
+        return invalid( "declaration of JUSTICE" );
+      }
       lits.emplace_back( lit );
     }
     reader.on_justice( i, lits );
@@ -818,32 +879,44 @@ inline return_code read_aiger( std::istream& in, const aiger_reader& reader, dia
   /* fairness */
   for ( auto i = 0u; i < _f; ++i )
   {
-    detail::getline( in, line );
-    reader.on_fairness( i, std::atol( line.c_str() ) );
+    if ( !next_line() || !parse_literal( line, lit ) )
+    {
+      return invalid( "declaration of FAIRNESS" );
+    }
+    reader.on_fairness( i, lit );
   }
 
-  const auto decode = [&]() {
-    auto i = 0;
-    auto res = 0;
-    while ( true )
+  /* decodes a delta, fails at the end of the file and if the delta exceeds 32 bits */
+  const auto decode = [&]( uint32_t& res ) {
+    uint64_t value = 0u;
+    for ( auto shift = 0u; shift < 35u; shift += 7u )
     {
-      auto c = in.get();
+      const auto c = in.get();
+      if ( c == std::istream::traits_type::eof() )
+      {
+        return false;
+      }
 
-      res |= ( ( c & 0x7f ) << ( 7 * i ) );
+      value |= static_cast<uint64_t>( c & 0x7f ) << shift;
       if ( ( c & 0x80 ) == 0 )
-        break;
-
-      ++i;
+      {
+        res = static_cast<uint32_t>( value );
+        return value <= UINT32_MAX;
+      }
     }
-    return res;
+    return false;
   };
 
   /* and gates */
   for ( auto i = _i + _l + 1; i < _i + _l + _a + 1; ++i )
   {
-    const auto d1 = decode();
-    const auto d2 = decode();
+    uint32_t d1 = 0u, d2 = 0u;
     const auto g = i << 1;
+    if ( !decode( d1 ) || !decode( d2 ) || d1 == 0u || d1 > g || d2 > g - d1 )
+    {
+      line = std::to_string( g );
+      return invalid( "declaration of AND gate" );
+    }
     reader.on_and( i, ( g - d1 ), ( g - d1 - d2 ) );
   }
 
-- 
2.43.0


From b0ffc846f30a7abfb82eb17501d9cbf913d543e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 22/38] fix: ignore literals and symbol table entries without a
 signal in aiger_reader

---
 include/operations/io/detail/aiger_reader.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/operations/io/detail/aiger_reader.hpp b/include/operations/io/detail/aiger_reader.hpp
index 125e4d7..6576046 100644
--- a/include/operations/io/detail/aiger_reader.hpp
+++ b/include/operations/io/detail/aiger_reader.hpp
@@ -135,6 +135,8 @@ public:
     for ( auto out : outputs )
     {
       auto const lit = std::get<0>( out );
+      if ( ( lit >> 1 ) >= signals.size() ) /* the gate is missing, reading was aborted */
+        continue;
       auto signal = signals[lit >> 1];
       if ( lit & 1 )
       {
@@ -152,6 +154,8 @@ public:
         auto const lit = std::get<0>( latch );
         auto const reset = std::get<1>( latch );
 
+        if ( ( lit >> 1 ) >= signals.size() ) /* the gate is missing, reading was aborted */
+          continue;
         auto signal = signals[lit >> 1];
         if ( lit & 1 )
         {
@@ -196,7 +200,7 @@ public:
 
   void on_input_name( unsigned index, const std::string& name ) const override
   {
-    if ( _names )
+    if ( _names && index < _num_inputs )
     {
       _names->insert( signals[1 + index], name );
     }
@@ -204,13 +208,16 @@ public:
 
   void on_output_name( unsigned index, const std::string& name ) const override
   {
-    std::get<1>( outputs[index] ) = name;
+    if ( index < outputs.size() )
+      std::get<1>( outputs[index] ) = name;
   }
 
   void on_latch_name( unsigned index, const std::string& name ) const override
   {
     if constexpr ( has_create_ri_v<Ntk> && has_create_ro_v<Ntk> )
     {
+      if ( index >= latches.size() )
+        return;
       if ( _names )
       {
         _names->insert( signals[1 + _num_inputs + index], name );
-- 
2.43.0


From 7e8274f93067f48f6aae02db72cd0e3bb972b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:15 +0000
Subject: [PATCH 23/38] fix: report a missing input file instead of aborting in
 Reader

---
 include/operations/io/reader.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/operations/io/reader.hpp b/include/operations/io/reader.hpp
index 61a2d2d..e60b71c 100755
--- a/include/operations/io/reader.hpp
+++ b/include/operations/io/reader.hpp
@@ -117,8 +117,6 @@ public:
   Reader( std::string path_in , Ntk& aig ,write_verilog_params& portnames,FileType type = FileType::aag)
     : _path_in(path_in) , _type(type) , _state(false)
   {
-    assert( isFileExist(path_in) );
-
     /// way1: use NameMap
     NameMap<Ntk> nameMap;
     auto const result = lorina::read_aiger( path_in , aiger_reader<Ntk>{_aig, &nameMap});
-- 
2.43.0


From 742f3551c6ec5aeb984e3c6b4abca6618ac54795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:15 +0000
Subject: [PATCH 24/38] fix: keep port names with their ports in Reader

---
 include/operations/io/reader.hpp | 94 ++++++++++++++++++++++++--------
 1 file changed, 70 insertions(+), 24 deletions(-)

diff --git a/include/operations/io/reader.hpp b/include/operations/io/reader.hpp
index e60b71c..3eab24e 100755
--- a/include/operations/io/reader.hpp
+++ b/include/operations/io/reader.hpp
@@ -22,6 +22,8 @@
 #include <sstream>
 #include <cctype>
 #include <algorithm>
+#include <set>
+#include <vector>
 
 #include "utils/ifpga_namespaces.hpp"
 #include "network/aig_network.hpp"
@@ -99,6 +101,51 @@ public:
   }
 }; 
 
+/**
+ * @brief reader that keeps the names of the ports by their position
+ */
+template<typename Ntk>
+class port_name_reader : public aiger_reader<Ntk>
+{
+public:
+  explicit port_name_reader( Ntk& ntk, NameMap<Ntk>* names, std::vector<std::string>& input_names, std::vector<std::string>& output_names )
+    : aiger_reader<Ntk>::aiger_reader( ntk, names ), _input_names( input_names ), _output_names( output_names )
+  {}
+
+  void on_header( uint64_t m, uint64_t num_inputs, uint64_t num_latches, uint64_t num_outputs, uint64_t num_ands ) const override
+  {
+    this->aiger_reader<Ntk>::on_header( m, num_inputs, num_latches, num_outputs, num_ands );
+    _num_inputs = num_inputs;
+    _num_outputs = num_outputs;
+  }
+
+  void on_input_name( unsigned index, const std::string& name ) const override
+  {
+    this->aiger_reader<Ntk>::on_input_name( index, name );
+    set_name( _input_names, _num_inputs, index, name );
+  }
+
+  void on_output_name( unsigned index, const std::string& name ) const override
+  {
+    this->aiger_reader<Ntk>::on_output_name( index, name );
+    set_name( _output_names, _num_outputs, index, name );
+  }
+
+private:
+  static void set_name( std::vector<std::string>& names, uint64_t size, unsigned index, const std::string& name )
+  {
+    if ( index >= size )
+      return;
+    if ( names.size() <= index )
+      names.resize( index + 1 );
+    names[index] = name;
+  }
+
+  std::vector<std::string>& _input_names;
+  std::vector<std::string>& _output_names;
+  mutable uint64_t _num_inputs = 0;
+  mutable uint64_t _num_outputs = 0;
+};
 
 enum FileType{
   aag = 0,
@@ -119,7 +166,8 @@ public:
   {
     /// way1: use NameMap
     NameMap<Ntk> nameMap;
-    auto const result = lorina::read_aiger( path_in , aiger_reader<Ntk>{_aig, &nameMap});
+    std::vector<std::string> input_names, output_names;
+    auto const result = lorina::read_aiger( path_in , port_name_reader<Ntk>{_aig, &nameMap, input_names, output_names});
 
     /// way2: use inherited class 
     //aig_reader<iFPGA_NAMESPACE::aig_network> reader(_aig);
@@ -130,32 +178,30 @@ public:
       // std::cout<< "\tINFO: read the aig file SUCCESS, path from: "<< path_in << std::endl;
       _state = true;
       aig = _aig;
-      /// Network + NameMap -> write_verilog_params
+      /// port names -> write_verilog_params, either all ports have a name or none has
+      input_names.resize( aig.num_pis() );
+      output_names.resize( aig.num_pos() );
+      auto const is_named = []( std::string const& name ) { return !name.empty(); };
+      if ( std::any_of( input_names.begin(), input_names.end(), is_named ) ||
+           std::any_of( output_names.begin(), output_names.end(), is_named ) )
       {
-        using signal = typename Ntk::signal;
-        std::map<uint64_t, uint32_t> signalCount; // for one signal has multiple names
-        for(auto input: aig._storage->inputs)
-        {
-          signal s = signal{input, 0};
-          auto names = nameMap[s];
-          if(!names.empty())
-          {
-            auto name = names[signalCount[s.data]++];
-            if(!name.empty())
-              portnames.input_names.emplace_back(std::make_pair(to_escaped_identifier(name), 0));
-          }
-        }
-        for(auto output : aig._storage->outputs)
-        {
-          signal s = signal{output.index, output.weight};
-          auto names = nameMap[s];
-          if(!names.empty())
+        std::set<std::string> used( input_names.begin(), input_names.end() );
+        used.insert( output_names.begin(), output_names.end() );
+        auto const complete = [&]( std::vector<std::string> const& names, std::string const& prefix, auto& port_names ) {
+          for ( auto i = 0u; i < names.size(); ++i )
           {
-            auto name = names[signalCount[s.data]++];
-            if(!name.empty())
-              portnames.output_names.emplace_back(std::make_pair(to_escaped_identifier(name), 0));
+            auto name = names[i];
+            if ( name.empty() )
+            {
+              name = prefix + std::to_string( i );
+              while ( !used.insert( name ).second )
+                name += "_";
+            }
+            port_names.emplace_back( std::make_pair( to_escaped_identifier( name ), 0 ) );
           }
-        }
+        };
+        complete( input_names, "x", portnames.input_names );
+        complete( output_names, "y", portnames.output_names );
       }
     }
     else
-- 
2.43.0


From 3c9b8abde6066955f1460855ea1af276dae817c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:34 +0000
Subject: [PATCH 25/38] fix: keep internal wires apart from port names in
 write_verilog

---
 .../operations/io/detail/write_verilog.hpp    | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/include/operations/io/detail/write_verilog.hpp b/include/operations/io/detail/write_verilog.hpp
index 231bb62..0875729 100644
--- a/include/operations/io/detail/write_verilog.hpp
+++ b/include/operations/io/detail/write_verilog.hpp
@@ -17,6 +17,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <fstream>
 #include <iostream>
@@ -49,6 +50,27 @@ format_fanin( Ntk const& ntk, node<Ntk> const& n, node_map<std::string, Ntk>& no
   return children;
 }
 
+/* returns a prefix such that no port is named by the prefix and a number followed by `suffix`,
+   the escaped identifier `\n1 ` is the same name as `n1` */
+inline std::string unused_prefix( std::string prefix, std::string const& suffix, std::vector<std::string> const& inputs, std::vector<std::string> const& outputs )
+{
+  auto const is_used = [&]( std::string name ) {
+    if ( !name.empty() && name.front() == '\\' )
+    {
+      name.erase( 0u, 1u );
+      while ( !name.empty() && name.back() == ' ' )
+        name.pop_back();
+    }
+    if ( name.size() <= prefix.size() + suffix.size() || name.compare( 0u, prefix.size(), prefix ) != 0 ||
+         name.compare( name.size() - suffix.size(), suffix.size(), suffix ) != 0 )
+      return false;
+    return name.find_first_not_of( "0123456789", prefix.size() ) >= name.size() - suffix.size();
+  };
+  while ( std::any_of( inputs.begin(), inputs.end(), is_used ) || std::any_of( outputs.begin(), outputs.end(), is_used ) )
+    prefix += "_";
+  return prefix;
+}
+
 } // namespace detail
 
 struct write_verilog_params
@@ -171,9 +193,10 @@ void write_verilog( Ntk const& ntk, std::ostream& os, write_verilog_params const
     }
   }
 
+  auto const wire_prefix = detail::unused_prefix( "n", "", inputs, outputs );
   std::vector<std::string> ws;
   ntk.foreach_gate( [&]( auto const& n ) {
-    ws.emplace_back( fmt::format( "n{}", ntk.node_to_index( n ) ) );
+    ws.emplace_back( fmt::format( "{}{}", wire_prefix, ntk.node_to_index( n ) ) );
   } );
 
   lorina::verilog_writer writer( os );
@@ -235,7 +258,7 @@ void write_verilog( Ntk const& ntk, std::ostream& os, write_verilog_params const
       return true;
 
     /* assign a name */
-    node_names[n] = fmt::format( "n{}", ntk.node_to_index( n ) );
+    node_names[n] = fmt::format( "{}{}", wire_prefix, ntk.node_to_index( n ) );
 
     if ( ntk.is_and( n ) )
     {
-- 
2.43.0


From 6b7ad22c37e01aafdcda526d0f342865a69b22c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 26/38] fix: keep internal wires and LUTs apart from port names
 in write_lut

---
 include/operations/io/detail/writer_lut.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/operations/io/detail/writer_lut.hpp b/include/operations/io/detail/writer_lut.hpp
index 9cb953a..c0d0a69 100644
--- a/include/operations/io/detail/writer_lut.hpp
+++ b/include/operations/io/detail/writer_lut.hpp
@@ -30,6 +30,7 @@
 #include <kitty/print.hpp>
 
 #include "utils/util.hpp"
+#include "write_verilog.hpp"
 
 iFPGA_NAMESPACE_HEADER_START
 
@@ -114,6 +115,9 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
     }
   }
 
+  auto const wire_prefix = detail::unused_prefix( "_w", "_", vec_pis, vec_pos );
+  auto const lut_prefix = detail::unused_prefix( "name", "", vec_pis, vec_pos );
+
   std::vector< LUT > vec_LUTs;
   std::unordered_set<uint32_t> uset_wires;    // using the set to flag the already exsit node.
   ntk.foreach_node( [&]( auto const& n ) {
@@ -129,15 +133,15 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
       }
       std::string tmp_fanin;
       if( uset_wires.count(  ntk.node_to_index( ntk.get_node( c ) )  ) )
-        tmp_fanin =  fmt::format( "_w{}_", ntk.node_to_index( ntk.get_node( c ) ) );
+        tmp_fanin =  fmt::format( "{}{}_", wire_prefix, ntk.node_to_index( ntk.get_node( c ) ) );
       else if (pi_map.count(ntk.node_to_index(ntk.get_node(c))))
         tmp_fanin =  fmt::format( "{}", pi_map[ntk.node_to_index( ntk.get_node( c ) )] );
       else
         assert(0);
       tmp_lut.fanins.emplace_back( tmp_fanin );
     } );
-    tmp_lut.name = fmt::format( "name{}", vec_LUTs.size() );
-    tmp_lut.fanout = fmt::format( "_w{}_", ntk.node_to_index( n ) );  // should be node , not output
+    tmp_lut.name = fmt::format( "{}{}", lut_prefix, vec_LUTs.size() );
+    tmp_lut.fanout = fmt::format( "{}{}_", wire_prefix, ntk.node_to_index( n ) );  // should be node , not output
     vec_LUTs.emplace_back( tmp_lut );
   } );
 
@@ -168,7 +172,7 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
   }
   for(auto wire : uset_wires)
   {
-    os << fmt::format( "\twire _w{}_ ;\n", wire );
+    os << fmt::format( "\twire {}{}_ ;\n", wire_prefix, wire );
   }
   
   for(auto lut : vec_LUTs)
@@ -205,8 +209,9 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
     }
     else
     {
-      os << fmt::format( "\tassign {} = _w{}_ ;\n",
+      os << fmt::format( "\tassign {} = {}{}_ ;\n",
                          vec_pos[i],
+                         wire_prefix,
                          ntk.node_to_index( ntk.get_node( s ) ) );
     }
   } );
-- 
2.43.0


From c3ba1008bb37dded7623b9d941c1af6fe6b5091e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 27/38] fix: separate ports by commas in write_lut when there
 is no input

---
 include/operations/io/detail/writer_lut.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/operations/io/detail/writer_lut.hpp b/include/operations/io/detail/writer_lut.hpp
index c0d0a69..65ddfc9 100644
--- a/include/operations/io/detail/writer_lut.hpp
+++ b/include/operations/io/detail/writer_lut.hpp
@@ -159,7 +159,13 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
   }
   for (auto po : vec_pos)
   {
-    os << fmt::format( ", {}", po );
+    if(first)
+    {
+      first = false;
+      os << po;
+    }
+    else
+      os << fmt::format( ", {}", po );
   }
   os << ");\n";
   for(auto pi : vec_pis)
-- 
2.43.0


From 73e9b2ac6d7abc3fe43cf9d696c7ff1e4a6e7eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:31 +0000
Subject: [PATCH 28/38] fix: respect the conflict limit in equivalence_checking

---
 include/operations/algorithms/equivalence_checking.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operations/algorithms/equivalence_checking.hpp b/include/operations/algorithms/equivalence_checking.hpp
index 96d91cc..5d1e242 100644
--- a/include/operations/algorithms/equivalence_checking.hpp
+++ b/include/operations/algorithms/equivalence_checking.hpp
@@ -90,7 +90,7 @@ public:
       solver.add_clause( clause );
     } )[0];
 
-    const auto res = solver.solve( &output, &output + 1, 0 );
+    const auto res = solver.solve( &output, &output + 1, ps_.conflict_limit );
 
     switch ( res )
     {
-- 
2.43.0


From 92fb3a5caff9cbb96928c42cd444f347f59d1443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:31 +0000
Subject: [PATCH 29/38] fix: keep a copy of the parameters in circuit_validator

---
 include/operations/algorithms/circuit_validator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operations/algorithms/circuit_validator.hpp b/include/operations/algorithms/circuit_validator.hpp
index 39e6b66..ac6ac88 100644
--- a/include/operations/algorithms/circuit_validator.hpp
+++ b/include/operations/algorithms/circuit_validator.hpp
@@ -680,7 +680,7 @@ private:
 private:
   Ntk const& ntk;
 
-  validator_params const& ps;
+  validator_params ps;
 
   node_map<bill::lit_type, Ntk> literals;
   unordered_node_map<bool, Ntk> constructed;
-- 
2.43.0


From 38816437bb657231d9dfbad47a3f1dfac48a8f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:31 +0000
Subject: [PATCH 30/38] fix: keep circuit_validator event handlers from
 outliving the validator

---
 include/operations/algorithms/circuit_validator.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/operations/algorithms/circuit_validator.hpp b/include/operations/algorithms/circuit_validator.hpp
index ac6ac88..c5a0b7f 100644
--- a/include/operations/algorithms/circuit_validator.hpp
+++ b/include/operations/algorithms/circuit_validator.hpp
@@ -17,6 +17,8 @@
 
 #pragma once
 
+#include <memory>
+
 #include "utils/node_map.hpp"
 #include "cnf.hpp"
 #include <bill/sat/interface/abc_bsat2.hpp>
@@ -119,9 +121,14 @@ public:
       static_assert( has_foreach_fanout_v<Ntk>, "Ntk does not implement the foreach_fanout method" );
     }
 
-    ntk._events->on_add.emplace_back( [&]( const auto& n ) {
+    /* the handler stays in the event list of the network, it must not touch
+       the validator after the validator's lifetime */
+    ntk._events->on_add.emplace_back( [this, alive = std::weak_ptr<bool>( _alive )]( const auto& n ) {
       (void)n;
-      literals.resize();
+      if ( !alive.expired() )
+      {
+        literals.resize();
+      }
     });
 
     /* constants are mapped to var 0 */
@@ -692,6 +699,8 @@ private:
   bool between_push_pop = false;
   std::vector<node> tmp;
 
+  std::shared_ptr<bool> _alive{std::make_shared<bool>( true )};
+
 public:
   std::vector<bool> cex;
 };
-- 
2.43.0


From 04fc556c02470c3b394a65ffebf94d9861aebac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:31 +0000
Subject: [PATCH 31/38] fix: withdraw blocked patterns when generate_pattern
 returns

---
 include/operations/algorithms/circuit_validator.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/operations/algorithms/circuit_validator.hpp b/include/operations/algorithms/circuit_validator.hpp
index c5a0b7f..5b5e5e0 100644
--- a/include/operations/algorithms/circuit_validator.hpp
+++ b/include/operations/algorithms/circuit_validator.hpp
@@ -321,12 +321,15 @@ public:
 
     push();
 
+    /* `bsat2` may keep short clauses over older variables in `pop`, hence the
+       blocking clauses only hold when `guard` is assumed */
+    auto const guard = bill::lit_type( solver.add_variable(), bill::lit_type::polarities::positive );
     for ( auto const& pattern : block_patterns )
     {
-      block_pattern( pattern );
+      block_pattern( pattern, ~guard );
     }
 
-    std::vector<bill::lit_type> assumptions( {lit_not_cond( literals[root], !value )} );
+    std::vector<bill::lit_type> assumptions( {guard, lit_not_cond( literals[root], !value )} );
     if constexpr ( use_odc )
     {
       if ( ps.odc_levels != 0 )
@@ -348,7 +351,7 @@ public:
       else /* SAT */
       {
         generated.emplace_back( cex );
-        block_pattern( cex );
+        block_pattern( cex, ~guard );
       }
     }
 
@@ -575,10 +578,10 @@ private:
     return res;
   }
 
-  void block_pattern( std::vector<bool> const& pattern )
+  void block_pattern( std::vector<bool> const& pattern, bill::lit_type const& guard )
   {
     assert( pattern.size() == ntk.num_pis() );
-    std::vector<bill::lit_type> clause;
+    std::vector<bill::lit_type> clause( {guard} );
     ntk.foreach_pi( [&]( auto const& n, auto i ) {
       clause.emplace_back( lit_not_cond( literals[n] , pattern[i] ) );
     } );
-- 
2.43.0


From 9352fc38183058a5b12d06872545276f742eed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:28 +0000
Subject: [PATCH 32/38] fix: make room for the documented number of priority
 cuts

---
 include/database/cut/cut_enumeration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/database/cut/cut_enumeration.hpp b/include/database/cut/cut_enumeration.hpp
index b6e11c9..37c4326 100755
--- a/include/database/cut/cut_enumeration.hpp
+++ b/include/database/cut/cut_enumeration.hpp
@@ -155,7 +155,7 @@ template<typename Ntk, bool ComputeTruth, typename CutData>
 struct network_cuts
 {
 public:
-  static constexpr uint32_t max_cut_num = 12;
+  static constexpr uint32_t max_cut_num = 26;
   using cut_t     = cut_type<ComputeTruth, CutData>;
   using cut_set_t = cut_set<cut_t, max_cut_num>;
 
-- 
2.43.0


From cf6b20704a9308601de701f2d3b3b0b0d63900fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:28 +0000
Subject: [PATCH 33/38] fix: stop write_aiger when there is no network

---
 cli/command/io/write_aiger.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/command/io/write_aiger.hpp b/cli/command/io/write_aiger.hpp
index 574a20f..cf6d183 100644
--- a/cli/command/io/write_aiger.hpp
+++ b/cli/command/io/write_aiger.hpp
@@ -18,6 +18,7 @@ protected:
     void execute() {
         if( store<iFPGA::aig_network>().empty() ) {    // clear the previous store
             printf("WARN: there is no any stored AIG file, please refer to the command \"read_aiger\"\n");
+            return;
         }
         iFPGA::write_aiger( store<iFPGA::aig_network>().current(), filename);
     }
-- 
2.43.0


From f29ba87fc27f8f0946b7b2cd4a4627931e35535c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:28 +0000
Subject: [PATCH 34/38] fix: keep the history command usable once the history
 is full

---
 cli/command/history.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/cli/command/history.hpp b/cli/command/history.hpp
index 2fde652..d0a7227 100644
--- a/cli/command/history.hpp
+++ b/cli/command/history.hpp
@@ -24,14 +24,11 @@ protected:
             return;
         }
 
-        if (cadd && history_index + 1 <= max_size) {
+        if (cadd && history_index + 1 < max_size) {
             iFPGA::aig_network aig = store<iFPGA::aig_network>().current()._storage;
             store<iFPGA::aig_network>()[++history_index] = aig;
-        }
-
-        if (history_index + 1 > max_size) {
+        } else if (cadd) {
             printf("WARN: the max history size is %d, please refer to the command \"history -h\"\n", max_size);
-            return;
         }
 
         // using current AIG to replace the indexed history AIG
-- 
2.43.0


From b3ef338a9f719c3c8cacf0786f56006684fa5250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:28 +0000
Subject: [PATCH 35/38] fix: record copies of the current AIG in the history

---
 cli/command/history.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/command/history.hpp b/cli/command/history.hpp
index d0a7227..2b1bbb7 100644
--- a/cli/command/history.hpp
+++ b/cli/command/history.hpp
@@ -25,7 +25,7 @@ protected:
         }
 
         if (cadd && history_index + 1 < max_size) {
-            iFPGA::aig_network aig = store<iFPGA::aig_network>().current()._storage;
+            iFPGA::aig_network aig( std::make_shared<iFPGA::aig_storage>( *store<iFPGA::aig_network>().current()._storage ) ); // a copy of its own, the commands modify the current AIG in place
             store<iFPGA::aig_network>()[++history_index] = aig;
         } else if (cadd) {
             printf("WARN: the max history size is %d, please refer to the command \"history -h\"\n", max_size);
@@ -37,7 +37,7 @@ protected:
         } else if (index_replace > history_index || index_replace < -1) {
             printf("WARN: the replace index is out of range, please refer to the command \"history -h\"\n");
         } else {
-            iFPGA::aig_network aig = store<iFPGA::aig_network>().current()._storage;
+            iFPGA::aig_network aig( std::make_shared<iFPGA::aig_storage>( *store<iFPGA::aig_network>().current()._storage ) ); // a copy of its own, the commands modify the current AIG in place
             store<iFPGA::aig_network>()[index_replace] = aig; // replace the AIG file
         }
 
-- 
2.43.0


From 3093278e5dc10683d9780c1a7c69df89d50ec206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:28 +0000
Subject: [PATCH 36/38] fix: map without choices when no history AIG has gates

---
 cli/command/map_fpga.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/command/map_fpga.hpp b/cli/command/map_fpga.hpp
index 6e9b3a2..b3ceaaf 100644
--- a/cli/command/map_fpga.hpp
+++ b/cli/command/map_fpga.hpp
@@ -74,7 +74,12 @@ protected:
         param_mapping.uAreaIters = iAreaIter;
         param_mapping.verbose = verbose;
         
-        if(type == 1 && store<iFPGA::aig_network>().size() < 2) {
+        bool has_history = false;
+        for(int i = store<iFPGA::aig_network>().size() - 2; i >= 0; i--) {
+            has_history |= store<iFPGA::aig_network>()[i].num_gates() > 0;
+        }
+
+        if(type == 1 && !has_history) {
             printf("WARN: there is no another history AIG files, please refer to the command \"history\"\n");
             type = 0;
         }
-- 
2.43.0


From b32f6f1b8e1c3fdb0f1da54d38c6a120b017bab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:28 +0000
Subject: [PATCH 37/38] fix: refuse refactoring cones with fewer than two
 inputs

---
 cli/command/refactor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cli/command/refactor.hpp b/cli/command/refactor.hpp
index a24fee5..cb04e64 100644
--- a/cli/command/refactor.hpp
+++ b/cli/command/refactor.hpp
@@ -10,7 +10,7 @@ class refactor_command : public command
 public:
     explicit refactor_command(const environment::ptr& env) : command(env, "performs technology-independent refactoring of AIG") 
     {
-        add_option("--max_input_size, -I", input_size, "set the max input size of the cone, <= 12 [default=10]");
+        add_option("--max_input_size, -I", input_size, "set the max input size of the cone, [2, 12] [default=10]");
         add_option("--max_cone_size, -C", cone_size, "set the max node size in the cone, <=20 [default=16]");
         add_flag("--level_preserve, -l", preserve_level, "toggles of preserving the leves [default=yes]");
         add_flag("--zero_gain, -z", zero_gain, "toggles of using zero-cost local replacement [default=no]");
@@ -26,8 +26,8 @@ protected:
             return;
         }
 
-        if( input_size > 12u ) {
-            printf("WARN: the max input size of the cone should be <= 12, please refer to the command \"refactor -h\"\n");
+        if( input_size < 2u || input_size > 12u ) {
+            printf("WARN: the max input size of the cone should be in the range [2, 12], please refer to the command \"refactor -h\"\n");
             return;
         }
 
-- 
2.43.0


From b6717ee7d5e92f63f088a2338bdcc8568c624023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:59 +0000
Subject: [PATCH 38/38] fix: keep the trivial cut from becoming the best cut of
 a choice node

---
 include/operations/algorithms/klut_mapping.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/operations/algorithms/klut_mapping.hpp b/include/operations/algorithms/klut_mapping.hpp
index addf877..dc688a1 100644
--- a/include/operations/algorithms/klut_mapping.hpp
+++ b/include/operations/algorithms/klut_mapping.hpp
@@ -383,6 +383,11 @@ class klut_mapping_impl
       }
 
       auto& cuts_repr = _cut_network.cuts(n);
+      // the trival cut has no cost and must not compete with the choice cuts, it is added again below
+      if( cuts_repr.size() > 1 && cuts_repr[cuts_repr.size() - 1].size() == 1 )
+      {
+        cuts_repr.resize( cuts_repr.size() - 1 );
+      }
       auto next_choice_node = _ntk.get_equiv_node(n);
 
       while(next_choice_node != AIG_NULL)
-- 
2.43.0

