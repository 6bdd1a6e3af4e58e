From fd24e1e2f0830c65638929a1d23cbd77743e5da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 01/32] verify: proof annotations for PriorityFlood_Original
 and PriorityFlood_Barnes2014 (guard RICHDEM_VERIFY)

---
 include/richdem/common/Array2D.hpp         |  5 +-
 include/richdem/common/contracts.hpp       | 36 +++++++++
 include/richdem/depressions/Barnes2014.hpp | 86 ++++++++++++++++++++++
 3 files changed, 126 insertions(+), 1 deletion(-)
 create mode 100644 include/richdem/common/contracts.hpp

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 46fd58e..e1f1bc3 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -6,6 +6,7 @@
 */
 #pragma once
 
+#include <richdem/common/contracts.hpp>
 #include <richdem/common/Array3D.hpp>
 #include <richdem/common/logger.hpp>
 #include <richdem/common/version.hpp>
@@ -837,8 +838,10 @@ class Array2D {
     @param[in]   val      Value to change the cells to
   */
   void setAll(const T val){
-    for(i_t i=0;i<size();i++)
+    for(i_t i=0;i<size();i++){
+      RDV_INV(forall j. 0 <= j < i -> this.data.elts j = val);
       _data[i] = val;
+    }
   }
 
   /**
diff --git a/include/richdem/common/contracts.hpp b/include/richdem/common/contracts.hpp
new file mode 100644
index 0000000..2fa776b
--- /dev/null
+++ b/include/richdem/common/contracts.hpp
@@ -0,0 +1,36 @@
+/**
+  @file
+  @brief Proof annotations: loop invariants and ghost state for a deductive verifier.
+
+  The arguments are specifications, not C++. They are visible only to a verifier that reads the syntax tree with
+  RICHDEM_VERIFY defined; in every other build the macros expand to nothing.
+*/
+#ifndef _richdem_contracts_hpp_
+#define _richdem_contracts_hpp_
+
+#ifdef RICHDEM_VERIFY
+void rdv_spec_inv(const char*);
+void rdv_spec_variant(const char*);
+void rdv_spec_assert(const char*);
+void rdv_spec_ghost(const char*);
+void rdv_spec_ghost_let(const char*);
+void rdv_spec_lemma(const char*);
+void rdv_spec_label(const char*);
+#define RDV_INV(...)       ::rdv_spec_inv(#__VA_ARGS__)
+#define RDV_VARIANT(...)   ::rdv_spec_variant(#__VA_ARGS__)
+#define RDV_ASSERT(...)    ::rdv_spec_assert(#__VA_ARGS__)
+#define RDV_GHOST(...)     ::rdv_spec_ghost(#__VA_ARGS__)
+#define RDV_GHOST_LET(...) ::rdv_spec_ghost_let(#__VA_ARGS__)
+#define RDV_LEMMA(...)     ::rdv_spec_lemma(#__VA_ARGS__)
+#define RDV_LABEL(...)     ::rdv_spec_label(#__VA_ARGS__)
+#else
+#define RDV_INV(...)
+#define RDV_VARIANT(...)
+#define RDV_ASSERT(...)
+#define RDV_GHOST(...)
+#define RDV_GHOST_LET(...)
+#define RDV_LEMMA(...)
+#define RDV_LABEL(...)
+#endif
+
+#endif
diff --git a/include/richdem/depressions/Barnes2014.hpp b/include/richdem/depressions/Barnes2014.hpp
index db97e2d..02b7a68 100644
--- a/include/richdem/depressions/Barnes2014.hpp
+++ b/include/richdem/depressions/Barnes2014.hpp
@@ -7,6 +7,7 @@
 #ifndef _richdem_priority_flood_hpp_
 #define _richdem_priority_flood_hpp_
 
+#include <richdem/common/contracts.hpp>
 #include <richdem/common/logger.hpp>
 #include <richdem/common/Array2D.hpp>
 #include <richdem/common/grid_cell.hpp>
@@ -135,6 +136,7 @@ bool HasDepressions(const Array2D<elev_t> &elevations){
 */
 template <Topology topo, class elev_t>
 void PriorityFlood_Original(Array2D<elev_t> &elevations){
+  RDV_GHOST_LET(z_ = elevations.data.elts);
   GridCellZ_pq<elev_t> open;
   uint64_t processed_cells = 0;
   uint64_t pitc            = 0;
@@ -158,26 +160,56 @@ void PriorityFlood_Original(Array2D<elev_t> &elevations){
 
   RDLOG_PROGRESS<<"Adding perimeter cells to the priority queue...";
   for(int x=0;x<elevations.width();x++){
+    RDV_INV(pf_init elevations.view_width elevations.view_height z_ closed.data.elts open.st);
+    RDV_INV(forall c. cellok elevations.view_width elevations.view_height c -> ix elevations.view_width c < x -> (iy elevations.view_width c = 0 || iy elevations.view_width c = elevations.view_height - 1) -> closed.data.elts c <> 0);
+    RDV_GHOST_LET(cl0_ = closed.data.elts);
+    RDV_GHOST_LET(st0_ = open.st);
     open.emplace(x,0,elevations(x,0) );
     open.emplace(x,elevations.height()-1,elevations(x,elevations.height()-1) );
     closed(x,0)=true;
     closed(x,elevations.height()-1)=true;
+    RDV_LEMMA(init_add2 elevations.view_width elevations.view_height z_ cl0_ closed.data.elts st0_ open.st x 0 x (elevations.view_height-1));
   }
   for(int y=1;y<elevations.height()-1;y++){
+    RDV_INV(pf_init elevations.view_width elevations.view_height z_ closed.data.elts open.st);
+    RDV_INV(forall c. cellok elevations.view_width elevations.view_height c -> edge elevations.view_width elevations.view_height c -> (iy elevations.view_width c < y || iy elevations.view_width c = elevations.view_height - 1) -> closed.data.elts c <> 0);
+    RDV_GHOST_LET(cl0_ = closed.data.elts);
+    RDV_GHOST_LET(st0_ = open.st);
     open.emplace(0,y,elevations(0,y)  );
     open.emplace(elevations.width()-1,y,elevations(elevations.width()-1,y) );
     closed(0,y)=true;
     closed(elevations.width()-1,y)=true;
+    RDV_LEMMA(init_add2 elevations.view_width elevations.view_height z_ cl0_ closed.data.elts st0_ open.st 0 y (elevations.view_width-1) y);
   }
 
   RDLOG_PROGRESS<<"Performing the original Priority Flood...";
   progress.start( elevations.size() );
+  RDV_GHOST_LET(ref done_ = no_cell);
+  RDV_GHOST_LET(ref rank_ = zero_rank);
+  RDV_GHOST_LET(ref par_ = zero_rank);
+  RDV_GHOST_LET(ref cnt_ = 1);
   while(open.size()>0){
+    RDV_INV(pf_state elevations.view_width elevations.view_height z_ elevations.data.elts closed.data.elts open.st done_);
+    RDV_INV(pf_tree nmax elevations.view_width elevations.view_height z_ elevations.data.elts closed.data.elts done_ rank_ par_ cnt_ && 0 <= cnt_);
+    RDV_INV(pf_nb nmax elevations.view_width elevations.view_height z_ elevations.data.elts closed.data.elts done_ (-1) 0);
+    RDV_GHOST_LET(st0_ = open.st);
     GridCellZ<elev_t> c=open.top();
     open.pop();
     processed_cells++;
+    RDV_GHOST_LET(ci_ = idx elevations.view_width c.zx c.zy);
+    RDV_LEMMA(pf_pop elevations.view_width elevations.view_height z_ elevations.data.elts closed.data.elts st0_ open.st done_ c);
+    RDV_LEMMA(nb_start nmax elevations.view_width elevations.view_height z_ elevations.data.elts closed.data.elts done_ ci_);
+    RDV_GHOST(done_ <- Map.set done_ ci_ true);
 
     for(int n=1;n<=nmax;n++){
+      RDV_INV(pf_state elevations.view_width elevations.view_height z_ elevations.data.elts closed.data.elts open.st done_);
+      RDV_INV(pf_tree nmax elevations.view_width elevations.view_height z_ elevations.data.elts closed.data.elts done_ rank_ par_ cnt_ && 0 <= cnt_);
+      RDV_INV(pf_nb nmax elevations.view_width elevations.view_height z_ elevations.data.elts closed.data.elts done_ ci_ n);
+      RDV_INV(elevations.data.elts ci_ = c.zz && done_ ci_ && (forall q. mem q open.st -> c.zz <=. q.zz) && (forall d. cellok elevations.view_width elevations.view_height d -> done_ d -> elevations.data.elts d <=. c.zz));
+      RDV_GHOST_LET(f0_ = elevations.data.elts);
+      RDV_GHOST_LET(cl0_ = closed.data.elts);
+      RDV_GHOST_LET(st1_ = open.st);
+      RDV_LEMMA(nb_skip nmax elevations.view_width elevations.view_height z_ f0_ cl0_ done_ rank_ par_ cnt_ ci_ n);
       int nx = c.x+dx[n];
       int ny = c.y+dy[n];
       if(!elevations.inGrid(nx,ny)) continue;
@@ -189,9 +221,18 @@ void PriorityFlood_Original(Array2D<elev_t> &elevations){
         ++pitc;
       elevations(nx,ny) = std::max(elevations(nx,ny),elevations(c.x,c.y));
       open.emplace(nx,ny,elevations(nx,ny));
+      RDV_GHOST_LET(ni_ = nbr nmax elevations.view_width ci_ n);
+      RDV_ASSERT(hasn nmax elevations.view_width elevations.view_height ci_ n && ni_ = idx elevations.view_width nx ny && ix elevations.view_width ni_ = nx && iy elevations.view_width ni_ = ny);
+      RDV_ASSERT(elevations.data.elts ni_ = rmaxl (z_ ni_) c.zz);
+      RDV_LEMMA(pf_add elevations.view_width elevations.view_height z_ f0_ elevations.data.elts cl0_ closed.data.elts st1_ open.st done_ ni_);
+      RDV_LEMMA(tree_add nmax elevations.view_width elevations.view_height z_ f0_ elevations.data.elts cl0_ closed.data.elts done_ rank_ par_ cnt_ ci_ n);
+      RDV_LEMMA(nb_add nmax elevations.view_width elevations.view_height z_ f0_ elevations.data.elts cl0_ closed.data.elts done_ ci_ n);
+      RDV_GHOST(rank_ <- Map.set rank_ ni_ cnt_; cnt_ <- cnt_ + 1; par_ <- Map.set par_ ni_ ci_);
     }
+    RDV_LEMMA(nb_end nmax elevations.view_width elevations.view_height z_ elevations.data.elts closed.data.elts done_ ci_ (nmax+1));
     progress.update(processed_cells);
   }
+  RDV_LEMMA(pf_witness nmax elevations.view_width elevations.view_height z_ elevations.data.elts closed.data.elts done_ rank_ par_ cnt_);
   RDLOG_TIME_USE<<"Succeeded in    = "<<progress.stop() <<" s";
   RDLOG_MISC    <<"Cells processed = "<<processed_cells;
   RDLOG_MISC    <<"Cells in pits   = "<<pitc;
@@ -229,6 +270,7 @@ void PriorityFlood_Original(Array2D<elev_t> &elevations){
 */
 template <Topology topo, class elev_t>
 void PriorityFlood_Barnes2014(Array2D<elev_t> &elevations){
+  RDV_GHOST_LET(z_ = elevations.data.elts);
   GridCellZ_pq<elev_t> open;
   std::queue<GridCellZ<elev_t> > pit;
   uint64_t processed_cells = 0;
@@ -254,21 +296,41 @@ void PriorityFlood_Barnes2014(Array2D<elev_t> &elevations){
   RDLOG_PROGRESS<<"Adding cells to the priority queue...";
 
   for(int x=0;x<elevations.width();x++){
+    RDV_INV(pf_init elevations.view_width elevations.view_height z_ closed.data.elts open.st);
+    RDV_INV(forall c. cellok elevations.view_width elevations.view_height c -> ix elevations.view_width c < x -> (iy elevations.view_width c = 0 || iy elevations.view_width c = elevations.view_height - 1) -> closed.data.elts c <> 0);
+    RDV_GHOST_LET(cl0_ = closed.data.elts);
+    RDV_GHOST_LET(st0_ = open.st);
     open.emplace(x,0,elevations(x,0) );
     open.emplace(x,elevations.height()-1,elevations(x,elevations.height()-1) );
     closed(x,0)=true;
     closed(x,elevations.height()-1)=true;
+    RDV_LEMMA(init_add2 elevations.view_width elevations.view_height z_ cl0_ closed.data.elts st0_ open.st x 0 x (elevations.view_height-1));
   }
   for(int y=1;y<elevations.height()-1;y++){
+    RDV_INV(pf_init elevations.view_width elevations.view_height z_ closed.data.elts open.st);
+    RDV_INV(forall c. cellok elevations.view_width elevations.view_height c -> edge elevations.view_width elevations.view_height c -> (iy elevations.view_width c < y || iy elevations.view_width c = elevations.view_height - 1) -> closed.data.elts c <> 0);
+    RDV_GHOST_LET(cl0_ = closed.data.elts);
+    RDV_GHOST_LET(st0_ = open.st);
     open.emplace(0,y,elevations(0,y)  );
     open.emplace(elevations.width()-1,y,elevations(elevations.width()-1,y) );
     closed(0,y)=true;
     closed(elevations.width()-1,y)=true;
+    RDV_LEMMA(init_add2 elevations.view_width elevations.view_height z_ cl0_ closed.data.elts st0_ open.st 0 y (elevations.view_width-1) y);
   }
 
   RDLOG_PROGRESS<<"Performing the improved Priority-Flood...";
   progress.start( elevations.size() );
+  RDV_GHOST_LET(ref done_ = no_cell);
+  RDV_GHOST_LET(ref rank_ = zero_rank);
+  RDV_GHOST_LET(ref par_ = zero_rank);
+  RDV_GHOST_LET(ref cnt_ = 1);
+  RDV_GHOST_LET(ref level_ = if PF.size open.st > 0 then (PF.top open.st).zz else 0.0);
   while(open.size()>0 || pit.size()>0){
+    RDV_INV(pb_state elevations.view_width elevations.view_height z_ elevations.data.elts closed.data.elts open.st pit.qel pit.hd pit.tl level_ done_);
+    RDV_INV(pf_tree nmax elevations.view_width elevations.view_height z_ elevations.data.elts closed.data.elts done_ rank_ par_ cnt_ && 0 <= cnt_);
+    RDV_INV(pf_nb nmax elevations.view_width elevations.view_height z_ elevations.data.elts closed.data.elts done_ (-1) 0);
+    RDV_GHOST_LET(st0_ = open.st);
+    RDV_GHOST_LET(hd0_ = pit.hd);
     GridCellZ<elev_t> c;
     if(pit.size()>0){
       c=pit.front();
@@ -278,8 +340,23 @@ void PriorityFlood_Barnes2014(Array2D<elev_t> &elevations){
       open.pop();
     }
     processed_cells++;
+    RDV_LEMMA(pb_pop elevations.view_width elevations.view_height z_ elevations.data.elts closed.data.elts st0_ open.st pit.qel hd0_ pit.hd pit.tl level_ done_ c);
+    RDV_GHOST(level_ <- c.zz);
+    RDV_GHOST_LET(ci_ = idx elevations.view_width c.zx c.zy);
+    RDV_LEMMA(nb_start nmax elevations.view_width elevations.view_height z_ elevations.data.elts closed.data.elts done_ ci_);
+    RDV_GHOST(done_ <- Map.set done_ ci_ true);
 
     for(int n=1;n<=nmax;n++){
+      RDV_INV(pb_state elevations.view_width elevations.view_height z_ elevations.data.elts closed.data.elts open.st pit.qel pit.hd pit.tl level_ done_);
+      RDV_INV(pf_tree nmax elevations.view_width elevations.view_height z_ elevations.data.elts closed.data.elts done_ rank_ par_ cnt_ && 0 <= cnt_);
+      RDV_INV(pf_nb nmax elevations.view_width elevations.view_height z_ elevations.data.elts closed.data.elts done_ ci_ n);
+      RDV_INV(elevations.data.elts ci_ = c.zz && level_ = c.zz && done_ ci_);
+      RDV_GHOST_LET(f0_ = elevations.data.elts);
+      RDV_GHOST_LET(cl0_ = closed.data.elts);
+      RDV_GHOST_LET(st1_ = open.st);
+      RDV_GHOST_LET(pit1_ = pit.qel);
+      RDV_GHOST_LET(tl1_ = pit.tl);
+      RDV_LEMMA(nb_skip nmax elevations.view_width elevations.view_height z_ f0_ cl0_ done_ rank_ par_ cnt_ ci_ n);
       int nx=c.x+dx[n];
       int ny=c.y+dy[n];
       if(!elevations.inGrid(nx,ny)) continue;
@@ -295,9 +372,18 @@ void PriorityFlood_Barnes2014(Array2D<elev_t> &elevations){
         pit.push(GridCellZ<elev_t>(nx,ny,c.z));
       } else
         open.emplace(nx,ny,elevations(nx,ny));
+      RDV_GHOST_LET(ni_ = nbr nmax elevations.view_width ci_ n);
+      RDV_ASSERT(hasn nmax elevations.view_width elevations.view_height ci_ n && ni_ = idx elevations.view_width nx ny && ix elevations.view_width ni_ = nx && iy elevations.view_width ni_ = ny);
+      RDV_ASSERT(elevations.data.elts ni_ = rmaxl (z_ ni_) c.zz);
+      RDV_LEMMA(pb_add elevations.view_width elevations.view_height z_ f0_ elevations.data.elts cl0_ closed.data.elts st1_ open.st pit1_ pit.qel pit.hd tl1_ pit.tl level_ done_ ni_);
+      RDV_LEMMA(tree_add nmax elevations.view_width elevations.view_height z_ f0_ elevations.data.elts cl0_ closed.data.elts done_ rank_ par_ cnt_ ci_ n);
+      RDV_LEMMA(nb_add nmax elevations.view_width elevations.view_height z_ f0_ elevations.data.elts cl0_ closed.data.elts done_ ci_ n);
+      RDV_GHOST(rank_ <- Map.set rank_ ni_ cnt_; cnt_ <- cnt_ + 1; par_ <- Map.set par_ ni_ ci_);
     }
+    RDV_LEMMA(nb_end nmax elevations.view_width elevations.view_height z_ elevations.data.elts closed.data.elts done_ ci_ (nmax+1));
     progress.update(processed_cells);
   }
+  RDV_LEMMA(pf_witness nmax elevations.view_width elevations.view_height z_ elevations.data.elts closed.data.elts done_ rank_ par_ cnt_);
   RDLOG_TIME_USE<<"Succeeded in "<<std::fixed<<std::setprecision(1)<<progress.stop()<<" s";
   RDLOG_MISC    <<"Cells processed = "<<processed_cells;
   RDLOG_MISC    <<"Cells in pits = "  <<pitc;
-- 
2.43.0


From 84d7cba96c3600108290bfa152256c6fa3032e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 02/32] verify: proof annotations for HasDepressions and
 pit_mask (guard RICHDEM_VERIFY)

---
 include/richdem/depressions/Barnes2014.hpp | 90 ++++++++++++++++++++++
 1 file changed, 90 insertions(+)

diff --git a/include/richdem/depressions/Barnes2014.hpp b/include/richdem/depressions/Barnes2014.hpp
index 02b7a68..de2eca1 100644
--- a/include/richdem/depressions/Barnes2014.hpp
+++ b/include/richdem/depressions/Barnes2014.hpp
@@ -43,6 +43,7 @@ namespace richdem {
 */
 template <Topology topo, class elev_t>
 bool HasDepressions(const Array2D<elev_t> &elevations){
+  RDV_GHOST_LET(z_ = elevations.data.elts);
   GridCellZ_pq<elev_t> open;
   ProgressBar progress;
 
@@ -64,26 +65,55 @@ bool HasDepressions(const Array2D<elev_t> &elevations){
 
   RDLOG_PROGRESS<<"Adding perimeter cells to the priority queue...";
   for(int x=0;x<elevations.width();x++){
+    RDV_INV(pf_init elevations.view_width elevations.view_height z_ closed.data.elts open.st);
+    RDV_INV(forall c. cellok elevations.view_width elevations.view_height c -> ix elevations.view_width c < x -> (iy elevations.view_width c = 0 || iy elevations.view_width c = elevations.view_height - 1) -> closed.data.elts c <> 0);
+    RDV_GHOST_LET(cl0_ = closed.data.elts);
+    RDV_GHOST_LET(st0_ = open.st);
     open.emplace(x,0,elevations(x,0) );
     open.emplace(x,elevations.height()-1,elevations(x,elevations.height()-1) );
     closed(x,0)=true;
     closed(x,elevations.height()-1)=true;
+    RDV_LEMMA(init_add2 elevations.view_width elevations.view_height z_ cl0_ closed.data.elts st0_ open.st x 0 x (elevations.view_height-1));
   }
   for(int y=1;y<elevations.height()-1;y++){
+    RDV_INV(pf_init elevations.view_width elevations.view_height z_ closed.data.elts open.st);
+    RDV_INV(forall c. cellok elevations.view_width elevations.view_height c -> edge elevations.view_width elevations.view_height c -> (iy elevations.view_width c < y || iy elevations.view_width c = elevations.view_height - 1) -> closed.data.elts c <> 0);
+    RDV_GHOST_LET(cl0_ = closed.data.elts);
+    RDV_GHOST_LET(st0_ = open.st);
     open.emplace(0,y,elevations(0,y)  );
     open.emplace(elevations.width()-1,y,elevations(elevations.width()-1,y) );
     closed(0,y)=true;
     closed(elevations.width()-1,y)=true;
+    RDV_LEMMA(init_add2 elevations.view_width elevations.view_height z_ cl0_ closed.data.elts st0_ open.st 0 y (elevations.view_width-1) y);
   }
 
   RDLOG_PROGRESS<<"Searching for depressions...";
   progress.start( elevations.size() );
+  RDV_GHOST_LET(ref done_ = no_cell);
+  RDV_GHOST_LET(ref rank_ = zero_rank);
+  RDV_GHOST_LET(ref par_ = zero_rank);
+  RDV_GHOST_LET(ref cnt_ = 1);
   while(open.size()>0){
+    RDV_INV(pf_state elevations.view_width elevations.view_height z_ z_ closed.data.elts open.st done_);
+    RDV_INV(pf_tree nmax elevations.view_width elevations.view_height z_ z_ closed.data.elts done_ rank_ par_ cnt_ && 0 <= cnt_);
+    RDV_INV(pf_nb nmax elevations.view_width elevations.view_height z_ z_ closed.data.elts done_ (-1) 0);
+    RDV_GHOST_LET(st0_ = open.st);
     GridCellZ<elev_t> c=open.top();
     open.pop();
     ++progress;
+    RDV_GHOST_LET(ci_ = idx elevations.view_width c.zx c.zy);
+    RDV_LEMMA(pf_pop elevations.view_width elevations.view_height z_ z_ closed.data.elts st0_ open.st done_ c);
+    RDV_LEMMA(nb_start nmax elevations.view_width elevations.view_height z_ z_ closed.data.elts done_ ci_);
+    RDV_GHOST(done_ <- Map.set done_ ci_ true);
 
     for(int n=1;n<=nmax;n++){
+      RDV_INV(pf_state elevations.view_width elevations.view_height z_ z_ closed.data.elts open.st done_);
+      RDV_INV(pf_tree nmax elevations.view_width elevations.view_height z_ z_ closed.data.elts done_ rank_ par_ cnt_ && 0 <= cnt_);
+      RDV_INV(pf_nb nmax elevations.view_width elevations.view_height z_ z_ closed.data.elts done_ ci_ n);
+      RDV_INV(z_ ci_ = c.zz && done_ ci_ && (forall q. mem q open.st -> c.zz <=. q.zz) && (forall d. cellok elevations.view_width elevations.view_height d -> done_ d -> z_ d <=. c.zz));
+      RDV_GHOST_LET(cl0_ = closed.data.elts);
+      RDV_GHOST_LET(st1_ = open.st);
+      RDV_LEMMA(nb_skip nmax elevations.view_width elevations.view_height z_ z_ cl0_ done_ rank_ par_ cnt_ ci_ n);
       int nx = c.x+dx[n];
       int ny = c.y+dy[n];
       if(!elevations.inGrid(nx,ny)) continue;
@@ -91,14 +121,24 @@ bool HasDepressions(const Array2D<elev_t> &elevations){
         continue;
 
       closed(nx,ny) = true;
+      RDV_GHOST_LET(ni_ = nbr nmax elevations.view_width ci_ n);
+      RDV_ASSERT(hasn nmax elevations.view_width elevations.view_height ci_ n && ni_ = idx elevations.view_width nx ny && ix elevations.view_width ni_ = nx && iy elevations.view_width ni_ = ny);
       if(elevations(nx,ny)<elevations(c.x,c.y)){
         RDLOG_TIME_USE<<"Succeeded in    = "<<progress.stop() <<" s";
         RDLOG_MISC<<"Depression found.";
+        RDV_LEMMA(found_depression nmax elevations.view_width elevations.view_height z_ cl0_ st1_ done_ ci_ n c.zz ni_);
         return true;
       }
       open.emplace(nx,ny,elevations(nx,ny));
+      RDV_LEMMA(pf_add elevations.view_width elevations.view_height z_ z_ z_ cl0_ closed.data.elts st1_ open.st done_ ni_);
+      RDV_LEMMA(tree_add nmax elevations.view_width elevations.view_height z_ z_ z_ cl0_ closed.data.elts done_ rank_ par_ cnt_ ci_ n);
+      RDV_LEMMA(nb_add nmax elevations.view_width elevations.view_height z_ z_ z_ cl0_ closed.data.elts done_ ci_ n);
+      RDV_GHOST(rank_ <- Map.set rank_ ni_ cnt_; cnt_ <- cnt_ + 1; par_ <- Map.set par_ ni_ ci_);
     }
+    RDV_LEMMA(nb_end nmax elevations.view_width elevations.view_height z_ z_ closed.data.elts done_ ci_ (nmax+1));
   }
+  RDV_LEMMA(pf_witness nmax elevations.view_width elevations.view_height z_ z_ closed.data.elts done_ rank_ par_ cnt_);
+  RDV_LEMMA(no_depression nmax elevations.view_width elevations.view_height z_);
   RDLOG_TIME_USE<<"t Succeeded in    = "<<progress.stop() <<" s";
   RDLOG_MISC<<"No depressions found.";
   return false;
@@ -678,6 +718,7 @@ void PriorityFloodFlowdirs_Barnes2014(const Array2D<elev_t> &elevations, Array2D
 //TODO: Can I use a smaller data type?
 template <Topology topo, class elev_t>
 void pit_mask(const Array2D<elev_t> &elevations, Array2D<uint8_t> &pit_mask){
+  RDV_GHOST_LET(z_ = elevations.data.elts);
   GridCellZ_pq<elev_t> open;
   std::queue<GridCellZ<elev_t> > pit;
   uint64_t processed_cells = 0;
@@ -706,21 +747,43 @@ void pit_mask(const Array2D<elev_t> &elevations, Array2D<uint8_t> &pit_mask){
 
   RDLOG_PROGRESS<<"Adding cells to the priority queue...";
   for(int x=0;x<elevations.width();x++){
+    RDV_INV(pf_init elevations.view_width elevations.view_height z_ closed.data.elts open.st);
+    RDV_INV(forall c. cellok elevations.view_width elevations.view_height c -> ix elevations.view_width c < x -> (iy elevations.view_width c = 0 || iy elevations.view_width c = elevations.view_height - 1) -> closed.data.elts c <> 0);
+    RDV_GHOST_LET(cl0_ = closed.data.elts);
+    RDV_GHOST_LET(st0_ = open.st);
     open.emplace(x,0,elevations(x,0) );
     open.emplace(x,elevations.height()-1,elevations(x,elevations.height()-1) );
     closed(x,0)=true;
     closed(x,elevations.height()-1)=true;
+    RDV_LEMMA(init_add2 elevations.view_width elevations.view_height z_ cl0_ closed.data.elts st0_ open.st x 0 x (elevations.view_height-1));
   }
   for(int y=1;y<elevations.height()-1;y++){
+    RDV_INV(pf_init elevations.view_width elevations.view_height z_ closed.data.elts open.st);
+    RDV_INV(forall c. cellok elevations.view_width elevations.view_height c -> edge elevations.view_width elevations.view_height c -> (iy elevations.view_width c < y || iy elevations.view_width c = elevations.view_height - 1) -> closed.data.elts c <> 0);
+    RDV_GHOST_LET(cl0_ = closed.data.elts);
+    RDV_GHOST_LET(st0_ = open.st);
     open.emplace(0,y,elevations(0,y)  );
     open.emplace(elevations.width()-1,y,elevations(elevations.width()-1,y) );
     closed(0,y)=true;
     closed(elevations.width()-1,y)=true;
+    RDV_LEMMA(init_add2 elevations.view_width elevations.view_height z_ cl0_ closed.data.elts st0_ open.st 0 y (elevations.view_width-1) y);
   }
 
   RDLOG_PROGRESS<<"Performing the pit mask...";
   progress.start( elevations.size() );
+  RDV_GHOST_LET(ref f_ = z_);
+  RDV_GHOST_LET(ref done_ = no_cell);
+  RDV_GHOST_LET(ref rank_ = zero_rank);
+  RDV_GHOST_LET(ref par_ = zero_rank);
+  RDV_GHOST_LET(ref cnt_ = 1);
+  RDV_GHOST_LET(ref level_ = if PF.size open.st > 0 then (PF.top open.st).zz else 0.0);
   while(open.size()>0 || pit.size()>0){
+    RDV_INV(pb_state elevations.view_width elevations.view_height z_ f_ closed.data.elts open.st pit.qel pit.hd pit.tl level_ done_);
+    RDV_INV(pf_tree nmax elevations.view_width elevations.view_height z_ f_ closed.data.elts done_ rank_ par_ cnt_ && 0 <= cnt_);
+    RDV_INV(pf_nb nmax elevations.view_width elevations.view_height z_ f_ closed.data.elts done_ (-1) 0);
+    RDV_INV(mask_ok elevations.view_width elevations.view_height z_ f_ elevations.no_data closed.data.elts done_ pit_mask.data.elts);
+    RDV_GHOST_LET(st0_ = open.st);
+    RDV_GHOST_LET(hd0_ = pit.hd);
     GridCellZ<elev_t> c;
     if(pit.size()>0){
       c=pit.front();
@@ -730,8 +793,25 @@ void pit_mask(const Array2D<elev_t> &elevations, Array2D<uint8_t> &pit_mask){
       open.pop();
     }
     processed_cells++;
+    RDV_LEMMA(pb_pop elevations.view_width elevations.view_height z_ f_ closed.data.elts st0_ open.st pit.qel hd0_ pit.hd pit.tl level_ done_ c);
+    RDV_GHOST(level_ <- c.zz);
+    RDV_GHOST_LET(ci_ = idx elevations.view_width c.zx c.zy);
+    RDV_LEMMA(nb_start nmax elevations.view_width elevations.view_height z_ f_ closed.data.elts done_ ci_);
+    RDV_GHOST_LET(done0_ = done_);
+    RDV_GHOST(done_ <- Map.set done_ ci_ true);
 
     for(int n=1;n<=nmax;n++){
+      RDV_INV(pb_state elevations.view_width elevations.view_height z_ f_ closed.data.elts open.st pit.qel pit.hd pit.tl level_ done_);
+      RDV_INV(pf_tree nmax elevations.view_width elevations.view_height z_ f_ closed.data.elts done_ rank_ par_ cnt_ && 0 <= cnt_);
+      RDV_INV(pf_nb nmax elevations.view_width elevations.view_height z_ f_ closed.data.elts done_ ci_ n);
+      RDV_INV(mask_ok elevations.view_width elevations.view_height z_ f_ elevations.no_data closed.data.elts done0_ pit_mask.data.elts);
+      RDV_INV(f_ ci_ = c.zz && level_ = c.zz && done_ ci_ && closed.data.elts ci_ <> 0);
+      RDV_GHOST_LET(f0_ = f_);
+      RDV_GHOST_LET(cl0_ = closed.data.elts);
+      RDV_GHOST_LET(st1_ = open.st);
+      RDV_GHOST_LET(pit1_ = pit.qel);
+      RDV_GHOST_LET(tl1_ = pit.tl);
+      RDV_LEMMA(nb_skip nmax elevations.view_width elevations.view_height z_ f0_ cl0_ done_ rank_ par_ cnt_ ci_ n);
       int nx = c.x+dx[n];
       int ny = c.y+dy[n];
       if(!elevations.inGrid(nx,ny)) continue;
@@ -749,13 +829,23 @@ void pit_mask(const Array2D<elev_t> &elevations, Array2D<uint8_t> &pit_mask){
         pit_mask(nx,ny)=0;
         open.emplace(nx,ny,elevations(nx,ny));
       }
+      RDV_GHOST_LET(ni_ = nbr nmax elevations.view_width ci_ n);
+      RDV_GHOST(f_ <- Map.set f_ ni_ (if z_ ni_ <. c.zz then c.zz else z_ ni_));
+      RDV_ASSERT(hasn nmax elevations.view_width elevations.view_height ci_ n && ni_ = idx elevations.view_width nx ny && ix elevations.view_width ni_ = nx && iy elevations.view_width ni_ = ny);
+      RDV_LEMMA(pb_add elevations.view_width elevations.view_height z_ f0_ f_ cl0_ closed.data.elts st1_ open.st pit1_ pit.qel pit.hd tl1_ pit.tl level_ done_ ni_);
+      RDV_LEMMA(tree_add nmax elevations.view_width elevations.view_height z_ f0_ f_ cl0_ closed.data.elts done_ rank_ par_ cnt_ ci_ n);
+      RDV_LEMMA(nb_add nmax elevations.view_width elevations.view_height z_ f0_ f_ cl0_ closed.data.elts done_ ci_ n);
+      RDV_GHOST(rank_ <- Map.set rank_ ni_ cnt_; cnt_ <- cnt_ + 1; par_ <- Map.set par_ ni_ ci_);
     }
+    RDV_LEMMA(nb_end nmax elevations.view_width elevations.view_height z_ f_ closed.data.elts done_ ci_ (nmax+1));
 
     if(elevations.isNoData(c.x,c.y))
       pit_mask(c.x,c.y) = pit_mask.noData();
 
     progress.update(processed_cells);
   }
+  RDV_LEMMA(pf_witness nmax elevations.view_width elevations.view_height z_ f_ closed.data.elts done_ rank_ par_ cnt_);
+  RDV_LEMMA(mask_final nmax elevations.view_width elevations.view_height z_ f_ elevations.no_data closed.data.elts done_ pit_mask.data.elts);
   RDLOG_TIME_USE<<"Succeeded in "<<progress.stop()<<" s";
   RDLOG_MISC<<"Cells processed = "<<processed_cells;
   RDLOG_MISC<<"Cells in depressions = "  <<pitc;
-- 
2.43.0


From 364885963a3bfe5cd992a505e37ca607d5134019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:02 +0000
Subject: [PATCH 03/32] verify: proof annotations for
 PriorityFloodEpsilon_Barnes2014 (guard RICHDEM_VERIFY)

---
 include/richdem/depressions/Barnes2014.hpp | 48 ++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/include/richdem/depressions/Barnes2014.hpp b/include/richdem/depressions/Barnes2014.hpp
index de2eca1..1a9e8ef 100644
--- a/include/richdem/depressions/Barnes2014.hpp
+++ b/include/richdem/depressions/Barnes2014.hpp
@@ -460,6 +460,7 @@ void PriorityFlood_Barnes2014(Array2D<elev_t> &elevations){
 */
 template <Topology topo, class elev_t>
 void PriorityFloodEpsilon_Barnes2014(Array2D<elev_t> &elevations){
+  RDV_GHOST_LET(z_ = elevations.data.elts);
   GridCellZ_pq<elev_t> open;
   std::queue<GridCellZ<elev_t> > pit;
   ProgressBar progress;
@@ -482,21 +483,41 @@ void PriorityFloodEpsilon_Barnes2014(Array2D<elev_t> &elevations){
 
   RDLOG_PROGRESS<<"Adding cells to the priority queue...";
   for(int x=0;x<elevations.width();x++){
+    RDV_INV(pf_init elevations.view_width elevations.view_height z_ closed.data.elts open.st);
+    RDV_INV(forall c. cellok elevations.view_width elevations.view_height c -> ix elevations.view_width c < x -> (iy elevations.view_width c = 0 || iy elevations.view_width c = elevations.view_height - 1) -> closed.data.elts c <> 0);
+    RDV_GHOST_LET(cl0_ = closed.data.elts);
+    RDV_GHOST_LET(st0_ = open.st);
     open.emplace(x,0,elevations(x,0) );
     open.emplace(x,elevations.height()-1,elevations(x,elevations.height()-1) );
     closed(x,0)=true;
     closed(x,elevations.height()-1)=true;
+    RDV_LEMMA(init_add2 elevations.view_width elevations.view_height z_ cl0_ closed.data.elts st0_ open.st x 0 x (elevations.view_height-1));
   }
   for(int y=1;y<elevations.height()-1;y++){
+    RDV_INV(pf_init elevations.view_width elevations.view_height z_ closed.data.elts open.st);
+    RDV_INV(forall c. cellok elevations.view_width elevations.view_height c -> edge elevations.view_width elevations.view_height c -> (iy elevations.view_width c < y || iy elevations.view_width c = elevations.view_height - 1) -> closed.data.elts c <> 0);
+    RDV_GHOST_LET(cl0_ = closed.data.elts);
+    RDV_GHOST_LET(st0_ = open.st);
     open.emplace(0,y,elevations(0,y)  );
     open.emplace(elevations.width()-1,y,elevations(elevations.width()-1,y) );
     closed(0,y)=true;
     closed(elevations.width()-1,y)=true;
+    RDV_LEMMA(init_add2 elevations.view_width elevations.view_height z_ cl0_ closed.data.elts st0_ open.st 0 y (elevations.view_width-1) y);
   }
 
   RDLOG_PROGRESS<<"Performing Priority-Flood+Epsilon...";
   progress.start( elevations.size() );
+  RDV_GHOST_LET(ref done_ = no_cell);
+  RDV_GHOST_LET(ref rank_ = zero_rank);
+  RDV_GHOST_LET(ref par_ = zero_rank);
+  RDV_GHOST_LET(ref cnt_ = 1);
   while(open.size()>0 || pit.size()>0){
+    RDV_INV(wl_state elevations.view_width elevations.view_height elevations.data.elts closed.data.elts open.st pit.qel pit.hd pit.tl done_);
+    RDV_INV(tree nmax elevations.view_width elevations.view_height closed.data.elts done_ rank_ par_ cnt_);
+    RDV_INV(cov nmax elevations.view_width elevations.view_height closed.data.elts done_ (-1) 0);
+    RDV_INV(eps_part elevations.view_width elevations.view_height elevations.no_data z_ elevations.data.elts closed.data.elts done_ par_);
+    RDV_GHOST_LET(st0_ = open.st);
+    RDV_GHOST_LET(hd0_ = pit.hd);
     GridCellZ<elev_t> c;
     if(pit.size()>0 && open.size()>0 && open.top().z==pit.front().z){
       c=open.top();
@@ -513,8 +534,23 @@ void PriorityFloodEpsilon_Barnes2014(Array2D<elev_t> &elevations){
       PitTop=elevations.noData();
     }
     processed_cells++;
+    RDV_LEMMA(wl_pop elevations.view_width elevations.view_height elevations.data.elts closed.data.elts st0_ open.st pit.qel hd0_ pit.hd pit.tl done_ c);
+    RDV_GHOST_LET(ci_ = idx elevations.view_width c.zx c.zy);
+    RDV_LEMMA(cov_start nmax elevations.view_width elevations.view_height closed.data.elts done_ ci_);
+    RDV_GHOST(done_ <- Map.set done_ ci_ true);
 
     for(int n=1;n<=nmax;n++){
+      RDV_INV(wl_state elevations.view_width elevations.view_height elevations.data.elts closed.data.elts open.st pit.qel pit.hd pit.tl done_);
+      RDV_INV(tree nmax elevations.view_width elevations.view_height closed.data.elts done_ rank_ par_ cnt_);
+      RDV_INV(cov nmax elevations.view_width elevations.view_height closed.data.elts done_ ci_ n);
+      RDV_INV(eps_part elevations.view_width elevations.view_height elevations.no_data z_ elevations.data.elts closed.data.elts done_ par_);
+      RDV_INV(elevations.data.elts ci_ = c.zz && done_ ci_ && closed.data.elts ci_ <> 0);
+      RDV_GHOST_LET(f0_ = elevations.data.elts);
+      RDV_GHOST_LET(cl0_ = closed.data.elts);
+      RDV_GHOST_LET(st1_ = open.st);
+      RDV_GHOST_LET(pit1_ = pit.qel);
+      RDV_GHOST_LET(tl1_ = pit.tl);
+      RDV_LEMMA(cov_skip nmax elevations.view_width elevations.view_height cl0_ done_ ci_ n);
       int nx=c.x+dx[n];
       int ny=c.y+dy[n];
 
@@ -535,9 +571,21 @@ void PriorityFloodEpsilon_Barnes2014(Array2D<elev_t> &elevations){
         pit.emplace(nx,ny,elevations(nx,ny));
       } else
         open.emplace(nx,ny,elevations(nx,ny));
+      RDV_GHOST_LET(ni_ = nbr nmax elevations.view_width ci_ n);
+      RDV_ASSERT(hasn nmax elevations.view_width elevations.view_height ci_ n && ni_ = idx elevations.view_width nx ny && ix elevations.view_width ni_ = nx && iy elevations.view_width ni_ = ny);
+      RDV_ASSERT(cl0_ ni_ = 0 && f0_ ni_ = z_ ni_ && f0_ ci_ = c.zz);
+      RDV_ASSERT(if z_ ni_ = elevations.no_data then elevations.data.elts ni_ = z_ ni_ else if z_ ni_ <=. nextl c.zz infl then elevations.data.elts ni_ = nextl c.zz infl else elevations.data.elts ni_ = z_ ni_);
+      RDV_LEMMA(wl_add elevations.view_width elevations.view_height f0_ elevations.data.elts cl0_ closed.data.elts st1_ open.st pit1_ pit.qel pit.hd tl1_ pit.tl done_ ni_);
+      RDV_LEMMA(tree_grow nmax elevations.view_width elevations.view_height cl0_ closed.data.elts done_ rank_ par_ cnt_ ci_ n);
+      RDV_LEMMA(cov_add nmax elevations.view_width elevations.view_height cl0_ closed.data.elts done_ ci_ n);
+      RDV_LEMMA(eps_grow elevations.view_width elevations.view_height elevations.no_data z_ f0_ elevations.data.elts cl0_ closed.data.elts done_ par_ ci_ ni_);
+      RDV_GHOST(rank_ <- Map.set rank_ ni_ cnt_; cnt_ <- cnt_ + 1; par_ <- Map.set par_ ni_ ci_);
     }
+    RDV_LEMMA(cov_end nmax elevations.view_width elevations.view_height closed.data.elts done_ ci_ (nmax+1));
     progress.update(processed_cells);
   }
+  RDV_LEMMA(wl_end nmax elevations.view_width elevations.view_height elevations.data.elts closed.data.elts open.st pit.qel pit.hd pit.tl done_);
+  RDV_LEMMA(eps_final nmax elevations.view_width elevations.view_height elevations.no_data z_ elevations.data.elts closed.data.elts done_ rank_ par_ cnt_);
   RDLOG_TIME_USE<<"succeeded in "<<progress.stop()<<" s";
   RDLOG_MISC<<"Cells processed = "<<processed_cells;
   RDLOG_MISC<<"Cells in pits = "  <<pitc           ;
-- 
2.43.0


From 7ecbe5544b928b9e5b1dfd72e366bceb50b71c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 04/32] verify: proof annotations for flow directions and
 watershed labels of Priority-Flood (guard RICHDEM_VERIFY)

---
 include/richdem/common/contracts.hpp       |   3 +
 include/richdem/depressions/Barnes2014.hpp | 127 +++++++++++++++++++++
 2 files changed, 130 insertions(+)

diff --git a/include/richdem/common/contracts.hpp b/include/richdem/common/contracts.hpp
index 2fa776b..1c825dd 100644
--- a/include/richdem/common/contracts.hpp
+++ b/include/richdem/common/contracts.hpp
@@ -16,6 +16,7 @@ void rdv_spec_ghost(const char*);
 void rdv_spec_ghost_let(const char*);
 void rdv_spec_lemma(const char*);
 void rdv_spec_label(const char*);
+void rdv_spec_join(const char*);
 #define RDV_INV(...)       ::rdv_spec_inv(#__VA_ARGS__)
 #define RDV_VARIANT(...)   ::rdv_spec_variant(#__VA_ARGS__)
 #define RDV_ASSERT(...)    ::rdv_spec_assert(#__VA_ARGS__)
@@ -23,6 +24,7 @@ void rdv_spec_label(const char*);
 #define RDV_GHOST_LET(...) ::rdv_spec_ghost_let(#__VA_ARGS__)
 #define RDV_LEMMA(...)     ::rdv_spec_lemma(#__VA_ARGS__)
 #define RDV_LABEL(...)     ::rdv_spec_label(#__VA_ARGS__)
+#define RDV_JOIN(...)      ::rdv_spec_join(#__VA_ARGS__)
 #else
 #define RDV_INV(...)
 #define RDV_VARIANT(...)
@@ -31,6 +33,7 @@ void rdv_spec_label(const char*);
 #define RDV_GHOST_LET(...)
 #define RDV_LEMMA(...)
 #define RDV_LABEL(...)
+#define RDV_JOIN(...)
 #endif
 
 #endif
diff --git a/include/richdem/depressions/Barnes2014.hpp b/include/richdem/depressions/Barnes2014.hpp
index 1a9e8ef..0f2298a 100644
--- a/include/richdem/depressions/Barnes2014.hpp
+++ b/include/richdem/depressions/Barnes2014.hpp
@@ -656,6 +656,7 @@ void PriorityFloodEpsilon_Barnes2014(Array2D<int32_t>& /*elevations*/){
 */
 template <class elev_t>
 void PriorityFloodFlowdirs_Barnes2014(const Array2D<elev_t> &elevations, Array2D<d8_flowdir_t> &flowdirs){
+  RDV_GHOST_LET(z_ = elevations.data.elts);
   GridCellZk_low_pq<elev_t> open;
   uint64_t processed_cells = 0;
   ProgressBar progress;
@@ -675,22 +676,42 @@ void PriorityFloodFlowdirs_Barnes2014(const Array2D<elev_t> &elevations, Array2D
 
   RDLOG_PROGRESS<<"Adding cells to the priority queue...";
   for(int x=0;x<elevations.width();x++){
+    RDV_INV(pf_init elevations.view_width elevations.view_height z_ closed.data.elts open.st);
+    RDV_INV(forall c. cellok elevations.view_width elevations.view_height c -> ix elevations.view_width c < x -> (iy elevations.view_width c = 0 || iy elevations.view_width c = elevations.view_height - 1) -> closed.data.elts c <> 0);
+    RDV_INV(x > 0 -> PF.size open.st > 0);
+    RDV_INV(fd_top elevations.view_width elevations.view_height flowdirs.data.elts x);
+    RDV_GHOST_LET(dir0_ = flowdirs.data.elts);
+    RDV_GHOST_LET(cl0_ = closed.data.elts);
+    RDV_GHOST_LET(st0_ = open.st);
     open.emplace(x,0,elevations(x,0));
     open.emplace(x,elevations.height()-1,elevations(x,elevations.height()-1));
     flowdirs(x,0)=3;
     flowdirs(x,elevations.height()-1)=7;
     closed(x,0)=true;
     closed(x,elevations.height()-1)=true;
+    RDV_LEMMA(init_add2 elevations.view_width elevations.view_height z_ cl0_ closed.data.elts st0_ open.st x 0 x (elevations.view_height-1));
+    RDV_LEMMA(fd_top_add elevations.view_width elevations.view_height dir0_ flowdirs.data.elts x 3 7);
   }
   for(int y=1;y<elevations.height()-1;y++){
+    RDV_INV(pf_init elevations.view_width elevations.view_height z_ closed.data.elts open.st);
+    RDV_INV(forall c. cellok elevations.view_width elevations.view_height c -> edge elevations.view_width elevations.view_height c -> (iy elevations.view_width c < y || iy elevations.view_width c = elevations.view_height - 1) -> closed.data.elts c <> 0);
+    RDV_INV(PF.size open.st > 0);
+    RDV_INV(fd_sides elevations.view_width elevations.view_height flowdirs.data.elts y);
+    RDV_GHOST_LET(dir0_ = flowdirs.data.elts);
+    RDV_GHOST_LET(cl0_ = closed.data.elts);
+    RDV_GHOST_LET(st0_ = open.st);
     open.emplace(0,y,elevations(0,y) );
     open.emplace(elevations.width()-1,y,elevations(elevations.width()-1,y) );
     flowdirs(0,y)=1;
     flowdirs(elevations.width()-1,y)=5;
     closed(0,y)=true;
     closed(elevations.width()-1,y)=true;
+    RDV_LEMMA(init_add2 elevations.view_width elevations.view_height z_ cl0_ closed.data.elts st0_ open.st 0 y (elevations.view_width-1) y);
+    RDV_LEMMA(fd_side_add elevations.view_width elevations.view_height dir0_ flowdirs.data.elts y 1 5);
   }
 
+  RDV_ASSERT(fd_edges elevations.view_width elevations.view_height flowdirs.data.elts);
+  RDV_GHOST_LET(dir0_ = flowdirs.data.elts);
   flowdirs(0,0)=2;
   flowdirs(flowdirs.width()-1,0)=4;
   flowdirs(0,flowdirs.height()-1)=8;
@@ -699,13 +720,43 @@ void PriorityFloodFlowdirs_Barnes2014(const Array2D<elev_t> &elevations, Array2D
   const int d8_order[9]={0,1,3,5,7,2,4,6,8};
   RDLOG_PROGRESS<<"Performing Priority-Flood+Flow Directions...";
   progress.start( elevations.size() );
+  RDV_LEMMA(fd_corners elevations.view_width elevations.view_height dir0_ flowdirs.data.elts);
+  RDV_LEMMA(fd_init elevations.view_width elevations.view_height z_ closed.data.elts open.st);
+  RDV_GHOST_LET(ref level_ = (PF.top open.st).zz);
+  RDV_GHOST_LET(ref f_ = z_);
+  RDV_GHOST_LET(ref done_ = no_cell);
+  RDV_GHOST_LET(ref rank_ = zero_rank);
+  RDV_GHOST_LET(ref par_ = zero_rank);
+  RDV_GHOST_LET(ref cnt_ = 1);
   while(open.size()>0){
+    RDV_INV(fd_state elevations.view_width elevations.view_height z_ f_ closed.data.elts open.st level_ done_);
+    RDV_INV(pf_tree 8 elevations.view_width elevations.view_height z_ f_ closed.data.elts done_ rank_ par_ cnt_ && 0 <= cnt_);
+    RDV_INV(pf_nb 8 elevations.view_width elevations.view_height z_ f_ closed.data.elts done_ (-1) 0);
+    RDV_INV(fd_dirs elevations.view_width elevations.view_height z_ elevations.no_data flowdirs.data.elts closed.data.elts par_);
+    RDV_GHOST_LET(st0_ = open.st);
     auto c=open.top();
     open.pop();
     processed_cells++;
+    RDV_LEMMA(fd_pop elevations.view_width elevations.view_height z_ f_ closed.data.elts st0_ open.st level_ done_ c);
+    RDV_GHOST(level_ <- if level_ <. c.zz then c.zz else level_);
+    RDV_GHOST_LET(ci_ = idx elevations.view_width c.zx c.zy);
+    RDV_ASSERT(ix elevations.view_width ci_ = c.zx && iy elevations.view_width ci_ = c.zy && cellok elevations.view_width elevations.view_height ci_);
+    RDV_LEMMA(fd_nb_start elevations.view_width elevations.view_height z_ f_ closed.data.elts done_ ci_);
+    RDV_GHOST(done_ <- Map.set done_ ci_ true);
 
     for(int no=1;no<=8;no++){
+      RDV_INV(fd_state elevations.view_width elevations.view_height z_ f_ closed.data.elts open.st level_ done_);
+      RDV_INV(pf_tree 8 elevations.view_width elevations.view_height z_ f_ closed.data.elts done_ rank_ par_ cnt_ && 0 <= cnt_);
+      RDV_INV(fd_nb elevations.view_width elevations.view_height z_ f_ closed.data.elts done_ ci_ no);
+      RDV_INV(fd_dirs elevations.view_width elevations.view_height z_ elevations.no_data flowdirs.data.elts closed.data.elts par_);
+      RDV_INV(f_ ci_ = level_ && z_ ci_ = c.zz && done_ ci_ && closed.data.elts ci_ <> 0);
+      RDV_GHOST_LET(f0_ = f_);
+      RDV_GHOST_LET(cl0_ = closed.data.elts);
+      RDV_GHOST_LET(st1_ = open.st);
+      RDV_GHOST_LET(dir0_ = flowdirs.data.elts);
       int n=d8_order[no];
+      RDV_ASSERT(1 <= n <= 8 && fd_pos n = no && to_u64 n = n);
+      RDV_LEMMA(fd_nb_skip elevations.view_width elevations.view_height z_ f0_ cl0_ done_ rank_ par_ cnt_ ci_ no n);
       int nx=c.x+d8x[n];
       int ny=c.y+d8y[n];
       if(!elevations.inGrid(nx,ny))
@@ -721,9 +772,20 @@ void PriorityFloodFlowdirs_Barnes2014(const Array2D<elev_t> &elevations, Array2D
         flowdirs(nx,ny)=d8_inverse[n];
 
       open.emplace(nx,ny,elevations(nx,ny));
+      RDV_GHOST_LET(ni_ = nbr 8 elevations.view_width ci_ n);
+      RDV_GHOST(f_ <- Map.set f_ ni_ (if z_ ni_ <. level_ then level_ else z_ ni_));
+      RDV_ASSERT(hasn 8 elevations.view_width elevations.view_height ci_ n && ni_ = idx elevations.view_width nx ny && ix elevations.view_width ni_ = nx && iy elevations.view_width ni_ = ny);
+      RDV_LEMMA(fd_add elevations.view_width elevations.view_height z_ f0_ f_ cl0_ closed.data.elts st1_ open.st level_ done_ ni_);
+      RDV_LEMMA(tree_add 8 elevations.view_width elevations.view_height z_ f0_ f_ cl0_ closed.data.elts done_ rank_ par_ cnt_ ci_ n);
+      RDV_LEMMA(fd_nb_add elevations.view_width elevations.view_height z_ f0_ f_ cl0_ closed.data.elts done_ ci_ no n);
+      RDV_LEMMA(fd_dir_add elevations.view_width elevations.view_height z_ elevations.no_data dir0_ flowdirs.data.elts cl0_ closed.data.elts par_ ci_ n);
+      RDV_GHOST(rank_ <- Map.set rank_ ni_ cnt_; cnt_ <- cnt_ + 1; par_ <- Map.set par_ ni_ ci_);
     }
+    RDV_LEMMA(fd_nb_end elevations.view_width elevations.view_height z_ f_ closed.data.elts done_ ci_ 9);
     progress.update(processed_cells);
   }
+  RDV_LEMMA(pf_witness 8 elevations.view_width elevations.view_height z_ f_ closed.data.elts done_ rank_ par_ cnt_);
+  RDV_LEMMA(fd_final elevations.view_width elevations.view_height z_ f_ elevations.no_data flowdirs.data.elts closed.data.elts rank_ par_);
   RDLOG_TIME_USE<<"succeeded in "<<progress.stop()<<" s";
   RDLOG_MISC<<"Cells processed = "<<processed_cells;
 }
@@ -938,6 +1000,7 @@ template <Topology topo, class elev_t>
 void PriorityFloodWatersheds_Barnes2014(
   Array2D<elev_t> &elevations, Array2D<int32_t> &labels, bool alter_elevations
 ){
+  RDV_GHOST_LET(z_ = elevations.data.elts);
   GridCellZ_pq<elev_t> open;
   std::queue<GridCellZ<elev_t> > pit;
   unsigned long processed_cells=0;
@@ -967,21 +1030,46 @@ void PriorityFloodWatersheds_Barnes2014(
 
   RDLOG_PROGRESS<<"Adding cells to the priority queue...";
   for(int x=0;x<elevations.width();x++){
+    RDV_INV(pf_init elevations.view_width elevations.view_height z_ closed.data.elts open.st);
+    RDV_INV(forall c. cellok elevations.view_width elevations.view_height c -> ix elevations.view_width c < x -> (iy elevations.view_width c = 0 || iy elevations.view_width c = elevations.view_height - 1) -> closed.data.elts c <> 0);
+    RDV_GHOST_LET(cl0_ = closed.data.elts);
+    RDV_GHOST_LET(st0_ = open.st);
     open.emplace(x,0,elevations(x,0) );
     open.emplace(x,elevations.height()-1,elevations(x,elevations.height()-1) );
     closed(x,0)=true;
     closed(x,elevations.height()-1)=true;
+    RDV_LEMMA(init_add2 elevations.view_width elevations.view_height z_ cl0_ closed.data.elts st0_ open.st x 0 x (elevations.view_height-1));
   }
   for(int y=1;y<elevations.height()-1;y++){
+    RDV_INV(pf_init elevations.view_width elevations.view_height z_ closed.data.elts open.st);
+    RDV_INV(forall c. cellok elevations.view_width elevations.view_height c -> edge elevations.view_width elevations.view_height c -> (iy elevations.view_width c < y || iy elevations.view_width c = elevations.view_height - 1) -> closed.data.elts c <> 0);
+    RDV_GHOST_LET(cl0_ = closed.data.elts);
+    RDV_GHOST_LET(st0_ = open.st);
     open.emplace(0,y,elevations(0,y)  );
     open.emplace(elevations.width()-1,y,elevations(elevations.width()-1,y) );
     closed(0,y)=true;
     closed(elevations.width()-1,y)=true;
+    RDV_LEMMA(init_add2 elevations.view_width elevations.view_height z_ cl0_ closed.data.elts st0_ open.st 0 y (elevations.view_width-1) y);
   }
 
   RDLOG_PROGRESS<<"Performing Priority-Flood+Watershed Labels...";
   progress.start( elevations.size() );
+  RDV_GHOST_LET(ref f_ = z_);
+  RDV_GHOST_LET(ref done_ = no_cell);
+  RDV_GHOST_LET(ref rank_ = zero_rank);
+  RDV_GHOST_LET(ref par_ = zero_rank);
+  RDV_GHOST_LET(ref cnt_ = 1);
+  RDV_GHOST_LET(ref level_ = if PF.size open.st > 0 then (PF.top open.st).zz else 0.0);
   while(open.size()>0 || pit.size()>0){
+    RDV_INV(pb_state elevations.view_width elevations.view_height z_ f_ closed.data.elts open.st pit.qel pit.hd pit.tl level_ done_);
+    RDV_INV(pf_tree nmax elevations.view_width elevations.view_height z_ f_ closed.data.elts done_ rank_ par_ cnt_ && 0 <= cnt_);
+    RDV_INV(pf_nb nmax elevations.view_width elevations.view_height z_ f_ closed.data.elts done_ (-1) 0);
+    RDV_INV(ws_elev elevations.view_width elevations.view_height z_ f_ elevations.data.elts closed.data.elts alter_elevations);
+    RDV_INV(ws_ok elevations.view_width elevations.view_height (seen alter_elevations z_ f_) elevations.no_data labels.data.elts closed.data.elts done_ par_ clabel);
+    RDV_GHOST_LET(st0_ = open.st);
+    RDV_GHOST_LET(hd0_ = pit.hd);
+    RDV_GHOST_LET(lab0_ = labels.data.elts);
+    RDV_GHOST_LET(k0_ = clabel);
     GridCellZ<elev_t> c;
     if(pit.size()>0){
       c=pit.front();
@@ -992,7 +1080,16 @@ void PriorityFloodWatersheds_Barnes2014(
       open.pop();
       openc++;
     }
+    RDV_JOIN((hd0_ < pit.tl && pit.hd = hd0_ + 1 && c = pit.qel hd0_ && open.st = st0_) || (hd0_ = pit.tl && pit.hd = hd0_ && popped st0_ open.st c));
     processed_cells++;
+    RDV_GHOST_LET(done0_ = done_);
+    RDV_LEMMA(pb_pop elevations.view_width elevations.view_height z_ f_ closed.data.elts st0_ open.st pit.qel hd0_ pit.hd pit.tl level_ done_ c);
+    RDV_GHOST(level_ <- c.zz);
+    RDV_GHOST_LET(ci_ = idx elevations.view_width c.zx c.zy);
+    RDV_LEMMA(nb_start nmax elevations.view_width elevations.view_height z_ f_ closed.data.elts done_ ci_);
+    RDV_GHOST(done_ <- Map.set done_ ci_ true);
+
+    RDV_ASSERT(ix elevations.view_width ci_ = c.zx && iy elevations.view_width ci_ = c.zy && cellok elevations.view_width elevations.view_height ci_ && elevations.data.elts ci_ = seen alter_elevations z_ f_ ci_);
 
     //Since all interior cells will be flowing into a cell which has already
     //been processed, the following line identifies only the edge cells of the
@@ -1000,8 +1097,23 @@ void PriorityFloodWatersheds_Barnes2014(
     //be many small watersheds/basins around the edge of the DEM.
     if(labels(c.x,c.y)==labels.noData() && elevations(c.x,c.y)!=elevations.noData())  //Implies a cell without a label which borders the edge of the DEM or a region of no_data
       labels(c.x,c.y)=clabel++;
+    RDV_JOIN((valid labels) && ((lab0_ ci_ = -1 && seen alter_elevations z_ f_ ci_ <> elevations.no_data && labels.data.elts = Map.set lab0_ ci_ k0_ && clabel = k0_ + 1) || (not (lab0_ ci_ = -1 && seen alter_elevations z_ f_ ci_ <> elevations.no_data) && labels.data.elts = lab0_ && clabel = k0_)));
+    RDV_LEMMA(ws_label nmax elevations.view_width elevations.view_height z_ f_ (seen alter_elevations z_ f_) elevations.no_data lab0_ labels.data.elts closed.data.elts done0_ rank_ par_ cnt_ k0_ clabel ci_);
 
     for(int n=1;n<=nmax;n++){
+      RDV_INV(pb_state elevations.view_width elevations.view_height z_ f_ closed.data.elts open.st pit.qel pit.hd pit.tl level_ done_);
+      RDV_INV(pf_tree nmax elevations.view_width elevations.view_height z_ f_ closed.data.elts done_ rank_ par_ cnt_ && 0 <= cnt_);
+      RDV_INV(pf_nb nmax elevations.view_width elevations.view_height z_ f_ closed.data.elts done_ ci_ n);
+      RDV_INV(ws_elev elevations.view_width elevations.view_height z_ f_ elevations.data.elts closed.data.elts alter_elevations);
+      RDV_INV(ws_ok elevations.view_width elevations.view_height (seen alter_elevations z_ f_) elevations.no_data labels.data.elts closed.data.elts done_ par_ clabel);
+      RDV_INV(f_ ci_ = c.zz && level_ = c.zz && done_ ci_ && closed.data.elts ci_ <> 0);
+      RDV_GHOST_LET(f0_ = f_);
+      RDV_GHOST_LET(cl0_ = closed.data.elts);
+      RDV_GHOST_LET(st1_ = open.st);
+      RDV_GHOST_LET(pit1_ = pit.qel);
+      RDV_GHOST_LET(tl1_ = pit.tl);
+      RDV_GHOST_LET(lab1_ = labels.data.elts);
+      RDV_LEMMA(nb_skip nmax elevations.view_width elevations.view_height z_ f0_ cl0_ done_ rank_ par_ cnt_ ci_ n);
       int nx=c.x+dx[n];
       int ny=c.y+dy[n];
       if(!elevations.inGrid(nx,ny)) continue;
@@ -1010,6 +1122,9 @@ void PriorityFloodWatersheds_Barnes2014(
 
       //Since the neighbouring cell is not closed, its flow is directed to this
       //cell. Therefore, it is part of the same watershed/basin as this cell.
+      RDV_GHOST_LET(e1_ = elevations.data.elts);
+      RDV_GHOST_LET(ni_ = nbr nmax elevations.view_width ci_ n);
+      RDV_ASSERT(hasn nmax elevations.view_width elevations.view_height ci_ n && ni_ = idx elevations.view_width nx ny && ix elevations.view_width ni_ = nx && iy elevations.view_width ni_ = ny && e1_ ni_ = z_ ni_);
       labels(nx,ny)=labels(c.x,c.y);
 
       closed(nx,ny)=true;
@@ -1019,10 +1134,22 @@ void PriorityFloodWatersheds_Barnes2014(
         pit.push(GridCellZ<elev_t>(nx,ny,c.z));
       } else
         open.push(GridCellZ<elev_t>(nx,ny,elevations(nx,ny)));
+      RDV_JOIN((valid elevations) && elevations.data.elts = (if alter_elevations && z_ ni_ <=. c.zz then Map.set e1_ ni_ c.zz else e1_) && ((z_ ni_ <=. c.zz && pit.tl = tl1_ + 1 && pit.qel = Map.set pit1_ tl1_ { zx = nx; zy = ny; zz = c.zz } && open.st = st1_) || (c.zz <. z_ ni_ && pit.tl = tl1_ && pit.qel = pit1_ && pushed st1_ open.st { zx = nx; zy = ny; zz = z_ ni_ })));
+      RDV_GHOST(f_ <- Map.set f_ ni_ (if z_ ni_ <. c.zz then c.zz else z_ ni_));
+      RDV_LEMMA(ws_elev_add elevations.view_width elevations.view_height z_ f0_ f_ e1_ elevations.data.elts cl0_ closed.data.elts alter_elevations c.zz ni_);
+      RDV_LEMMA(pb_add elevations.view_width elevations.view_height z_ f0_ f_ cl0_ closed.data.elts st1_ open.st pit1_ pit.qel pit.hd tl1_ pit.tl level_ done_ ni_);
+      RDV_LEMMA(ws_add nmax elevations.view_width elevations.view_height z_ f0_ (seen alter_elevations z_ f0_) (seen alter_elevations z_ f_) elevations.no_data lab1_ labels.data.elts cl0_ closed.data.elts done_ rank_ par_ cnt_ clabel ci_ ni_);
+      RDV_LEMMA(tree_add nmax elevations.view_width elevations.view_height z_ f0_ f_ cl0_ closed.data.elts done_ rank_ par_ cnt_ ci_ n);
+      RDV_LEMMA(nb_add nmax elevations.view_width elevations.view_height z_ f0_ f_ cl0_ closed.data.elts done_ ci_ n);
+      RDV_GHOST(rank_ <- Map.set rank_ ni_ cnt_; cnt_ <- cnt_ + 1; par_ <- Map.set par_ ni_ ci_);
     }
+    RDV_LEMMA(nb_end nmax elevations.view_width elevations.view_height z_ f_ closed.data.elts done_ ci_ (nmax+1));
     progress.update(processed_cells);
   }
 
+  RDV_LEMMA(pf_witness nmax elevations.view_width elevations.view_height z_ f_ closed.data.elts done_ rank_ par_ cnt_);
+  RDV_LEMMA(ws_alter nmax elevations.view_width elevations.view_height z_ f_ elevations.data.elts elevations.no_data closed.data.elts alter_elevations);
+  RDV_LEMMA(ws_final nmax elevations.view_width elevations.view_height z_ f_ (seen alter_elevations z_ f_) elevations.no_data labels.data.elts closed.data.elts done_ rank_ par_ clabel);
   RDLOG_TIME_USE<<"succeeded in "<<progress.stop()<<" s";
 
   RDLOG_MISC<<"Cells processed   = "  <<processed_cells;
-- 
2.43.0


From ee9211fcdf9b7847cb2615969faf09d78b7764ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 05/32] fix: compute raster sizes without signed 32-bit
 overflow

Array2D::size() and Array3D::size() multiplied two int32 values: from 2^31 cells on
(e.g. 65535x65535, which the 32-bit index allows) this overflowed, and Array3D::size()
returned a huge 64-bit number. The wrapping Array3D constructor had the same overflow.
---
 include/richdem/common/Array2D.hpp | 2 +-
 include/richdem/common/Array3D.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index e1f1bc3..9fc7573 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -491,7 +491,7 @@ class Array2D {
   const T* data() const { return _data.data(); }
 
   ///@brief Number of cells in the DEM
-  i_t size() const { return view_width*view_height; }
+  i_t size() const { return (i_t)view_width*(i_t)view_height; }
 
   ///Width of the raster
   xy_t width() const { return view_width; }
diff --git a/include/richdem/common/Array3D.hpp b/include/richdem/common/Array3D.hpp
index e1d3b47..5974e6c 100644
--- a/include/richdem/common/Array3D.hpp
+++ b/include/richdem/common/Array3D.hpp
@@ -116,7 +116,7 @@ class Array3D {
     @param[in] height  Height of the data
   */
   Array3D(T *data0, const xy_t width, const xy_t height) : Array3D() {
-    data        = ManagedVector<T>(data0, 9*width*height);
+    data        = ManagedVector<T>(data0, (i_t)9*(i_t)width*(i_t)height);
     view_width  = width;
     view_height = height;
   }
@@ -165,7 +165,7 @@ class Array3D {
   T* getData() { return data.data(); }
 
   ///@brief Number of cells in the DEM
-  i_t size() const { return view_width*view_height; }
+  i_t size() const { return (i_t)view_width*(i_t)view_height; }
 
   ///Width of the raster
   xy_t width() const { return view_width; }
-- 
2.43.0


From 1db2347c72b905afe99add409676d3cf7426d172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 06/32] fix: Array2D::flipHorz stays inside its row

The end pointer was one past the last cell of the row, so that every row was exchanged with the first cell
of the following one and the last row wrote past the end of the raster.
---
 include/richdem/common/Array2D.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 9fc7573..ffef288 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -723,9 +723,11 @@ class Array2D {
     @brief Flips the raster from side-to-side
   */
   void flipHorz(){
+    if(view_width==0)
+      return;
     for(xy_t y=0;y<view_height;y++){
       T* start = &_data[xyToI(0,y)];
-      T* end   = &_data[xyToI(view_width,y)];
+      T* end   = &_data[xyToI(view_width-1,y)];
       while(start<end){
         std::swap(*start,*end);
         start++;
-- 
2.43.0


From 5f5526d5d53a929f4dfadf9d4fc85b585413ffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 07/32] fix: Array2D::transpose moves each cell to its
 transposed place

Cells were exchanged in place, which undoes or scrambles earlier exchanges, the scratch copy was never used
and the neighbour offsets kept the old width.
---
 include/richdem/common/Array2D.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index ffef288..529b691 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -741,11 +741,14 @@ class Array2D {
   */
   void transpose(){
     RDLOG_WARN<<"transpose() is an experimental feature.";
-    std::vector<T> new_data(view_width*view_height);
+    std::vector<T> new_data(size());
     for(xy_t y=0;y<view_height;y++)
     for(xy_t x=0;x<view_width;x++)
-      std::swap(_data[(i_t)x*(i_t)view_height+(i_t)y], _data[xyToI(x,y)]);
+      new_data[(i_t)x*(i_t)view_height+(i_t)y] = _data[xyToI(x,y)];
+    for(i_t i=0;i<size();i++)
+      _data[i] = new_data[i];
     std::swap(view_width,view_height);
+    _nshift     = {{0,-1,-view_width-1,-view_width,-view_width+1,1,view_width+1,view_width,view_width-1}};
     //TODO: Offsets?
   }
 
-- 
2.43.0


From fe15f8f5f154b5db2793079651bb406ab355a13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 08/32] fix: ManagedVector move assignment does not free memory
 it only wraps

Assigning to a ManagedVector that wraps external memory freed that memory through the unique_ptr.
---
 include/richdem/common/ManagedVector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/richdem/common/ManagedVector.hpp b/include/richdem/common/ManagedVector.hpp
index 69b9d7c..06fad52 100644
--- a/include/richdem/common/ManagedVector.hpp
+++ b/include/richdem/common/ManagedVector.hpp
@@ -111,6 +111,10 @@ class ManagedVector {
   template<class U>
   ManagedVector<T>& operator=(ManagedVector<U>&& other) noexcept {
     //std::cerr<<"ManagedVector move assignment of "<<((void*)other._data.get())<<std::endl;
+    if((const void*)this==(const void*)&other)
+      return *this;
+    if(!_owned)
+      _data.release(); //We do not own this memory, so it is not ours to free
     _size        = other.size();
     _data        = std::move(other._data);
     _owned       = other._owned;
-- 
2.43.0


From 77bd88e8adf05517b0ee38a8dd9232a4338f52f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 09/32] fix: Array3D::countDataCells looks at each cell once

It read the first size() numbers of the flat storage, which hold nine numbers for each cell.
---
 include/richdem/common/Array3D.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/Array3D.hpp b/include/richdem/common/Array3D.hpp
index 5974e6c..c942226 100644
--- a/include/richdem/common/Array3D.hpp
+++ b/include/richdem/common/Array3D.hpp
@@ -322,8 +322,8 @@ class Array3D {
   */
   void countDataCells() const {
     num_data_cells = 0;
-    for(unsigned int i=0;i<size();i++)
-      if(data[i]!=no_data)
+    for(i_t i=0;i<size();i++)
+      if(!isNoData(i))
         num_data_cells++;
   }
 
-- 
2.43.0


From a3e9c6a941fda25bef1ddc5df86f4af152f84ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:06 +0000
Subject: [PATCH 10/32] verify: contract annotation for Array3D::setAll (guard
 RICHDEM_VERIFY)

---
 include/richdem/common/Array3D.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/Array3D.hpp b/include/richdem/common/Array3D.hpp
index c942226..7240046 100644
--- a/include/richdem/common/Array3D.hpp
+++ b/include/richdem/common/Array3D.hpp
@@ -28,6 +28,7 @@
 #include <richdem/common/version.hpp>
 #include <richdem/common/constants.hpp>
 #include <richdem/common/ManagedVector.hpp>
+#include <richdem/common/contracts.hpp>
 
 
 namespace richdem {
@@ -284,8 +285,10 @@ class Array3D {
     @param[in]   val      Value to change the cells to
   */
   void setAll(const T val){
-    for(i_t i=0;i<data.size();i++)
+    for(i_t i=0;i<data.size();i++){
+      RDV_INV(forall j. 0 <= j < i -> this.pdata.elts j = val);
       data[i] = val;
+    }
   }
 
   /**
-- 
2.43.0


From 90b35e4b94e145bc43c116bbad1c65f9fc884bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 11/32] fix: Array2D::expand indexes the old cells without
 signed 32-bit overflow

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 529b691..d4479f8 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -918,7 +918,7 @@ class Array2D {
 
     for(xy_t y=0;y<old_height;y++)
     for(xy_t x=0;x<old_width;x++)
-      _data[y*new_width+x] = old_data[y*old_width+x];
+      _data[y*new_width+x] = old_data[(uint64_t)y*(uint64_t)old_width+x];
   }
 
   /**
-- 
2.43.0


From 8ad8a5f7cc109c65dec7c8536baf4707d5251c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 12/32] verify: proof annotations for the bulk operations of
 Array2D (guard RICHDEM_VERIFY)

---
 include/richdem/common/Array2D.hpp | 89 +++++++++++++++++++++++++-----
 1 file changed, 74 insertions(+), 15 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index d4479f8..5be136b 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -517,6 +517,8 @@ class Array2D {
   T min() const {
     T minval = std::numeric_limits<T>::max();
     for(unsigned int i=0;i<size();i++){
+      RDV_INV(forall j. 0 <= j < i -> this.data.elts j <> this.no_data -> minval <=. this.data.elts j);
+      RDV_INV(minval = flt_maxl || exists j. 0 <= j < i && this.data.elts j <> this.no_data && this.data.elts j = minval);
       if(_data[i]==no_data)
         continue;
       minval = std::min(minval,_data[i]);
@@ -528,6 +530,8 @@ class Array2D {
   T max() const {
     T maxval = std::numeric_limits<T>::lowest();
     for(unsigned int i=0;i<size();i++){
+      RDV_INV(forall j. 0 <= j < i -> this.data.elts j <> this.no_data -> maxval >=. this.data.elts j);
+      RDV_INV(maxval = -. flt_maxl || exists j. 0 <= j < i && this.data.elts j <> this.no_data && this.data.elts j = maxval);
       if(_data[i]==no_data)
         continue;
       maxval = std::max(maxval,_data[i]);
@@ -543,9 +547,13 @@ class Array2D {
     @param[in] newval   Value to replace 'oldval' with
   */
   void replace(const T oldval, const T newval){
-    for(unsigned int i=0;i<size();i++)
+    RDV_GHOST_LET(z_ = this.data.elts);
+    for(unsigned int i=0;i<size();i++){
+      RDV_INV(forall j. i <= j -> this.data.elts j = z_ j);
+      RDV_INV(forall j. 0 <= j < i -> this.data.elts j = if z_ j = oldval then newval else z_ j);
       if(_data[i]==oldval)
         _data[i] = newval;
+    }
   }
 
   /**
@@ -559,9 +567,12 @@ class Array2D {
   */
   i_t countval(const T val) const {
     i_t count=0;
-    for(unsigned int i=0;i<size();i++)
+    for(unsigned int i=0;i<size();i++){
+      RDV_INV(count = occ this.data.elts val i);
+      RDV_INV(0 <= count <= i);
       if(_data[i]==val)
         count++;
+    }
     return count;
   }
 
@@ -652,9 +663,11 @@ class Array2D {
       return false;
     if(noData()!=o.noData())
       return false;
-    for(auto i=i0();i<o.size();i++)
+    for(auto i=i0();i<o.size();i++){
+      RDV_INV(forall j. 0 <= j < i -> this.data.elts j = o.data.elts j);
       if(_data[i]!=o._data[i])
         return false;
+    }
     return true;
   }
 
@@ -714,9 +727,14 @@ class Array2D {
     @brief Flips the raster from top to bottom
   */
   void flipVert(){
-    for(xy_t y=0;y<view_height/2;y++)
-    for(xy_t x=0;x<view_width;x++)
+    RDV_GHOST_LET(z_ = this.data.elts);
+    for(xy_t y=0;y<view_height/2;y++){
+    RDV_INV(vflipped this.data.elts z_ this.view_width this.view_height 0 y);
+    for(xy_t x=0;x<view_width;x++){
+      RDV_INV(vflipped this.data.elts z_ this.view_width this.view_height x y);
       std::swap(_data[xyToI(x,y)], _data[xyToI(x,view_height-1-y)]);
+    }
+    }
   }
 
   /**
@@ -725,10 +743,18 @@ class Array2D {
   void flipHorz(){
     if(view_width==0)
       return;
+    RDV_GHOST_LET(z_ = this.data.elts);
     for(xy_t y=0;y<view_height;y++){
+      RDV_INV(hflipped this.data.elts z_ this.view_width this.view_height 0 y);
       T* start = &_data[xyToI(0,y)];
       T* end   = &_data[xyToI(view_width-1,y)];
+      RDV_LEMMA(idx_row this.view_width (this.view_width - 1) y);
       while(start<end){
+        RDV_INV(hflip_at start end this.view_width y);
+        RDV_INV(hflipped this.data.elts z_ this.view_width this.view_height (start - idx this.view_width 0 y) y);
+        RDV_VARIANT(end - start + 1);
+        RDV_LEMMA(idx_row this.view_width (start - idx this.view_width 0 y) y);
+        RDV_LEMMA(idx_row this.view_width (end - idx this.view_width 0 y) y);
         std::swap(*start,*end);
         start++;
         end--;
@@ -742,12 +768,24 @@ class Array2D {
   void transpose(){
     RDLOG_WARN<<"transpose() is an experimental feature.";
     std::vector<T> new_data(size());
-    for(xy_t y=0;y<view_height;y++)
-    for(xy_t x=0;x<view_width;x++)
+    RDV_LEMMA(area_comm this.view_width this.view_height);
+    for(xy_t y=0;y<view_height;y++){
+    RDV_INV(transposed new_data.elts this.data.elts this.view_width this.view_height 0 y);
+    for(xy_t x=0;x<view_width;x++){
+      RDV_INV(transposed new_data.elts this.data.elts this.view_width this.view_height x y);
+      RDV_LEMMA(idx_u32 this.view_height this.view_width y x);
       new_data[(i_t)x*(i_t)view_height+(i_t)y] = _data[xyToI(x,y)];
-    for(i_t i=0;i<size();i++)
+    }
+    }
+    RDV_GHOST_LET(z_ = this.data.elts);
+    RDV_ASSERT(transposed new_data.elts z_ this.view_width this.view_height 0 this.view_height);
+    for(i_t i=0;i<size();i++){
+      RDV_INV(forall j. 0 <= j < i -> this.data.elts j = new_data.elts j);
       _data[i] = new_data[i];
+    }
+    RDV_ASSERT(transposed this.data.elts z_ this.view_width this.view_height 0 this.view_height);
     std::swap(view_width,view_height);
+    RDV_ASSERT(forall a b. ing this.view_width this.view_height a b -> cell this a b = z_ (idx this.view_height b a));
     _nshift     = {{0,-1,-view_width-1,-view_width,-view_width+1,1,view_width+1,view_width,view_width-1}};
     //TODO: Offsets?
   }
@@ -916,9 +954,15 @@ class Array2D {
 
     resize(new_width,new_height,val);
 
-    for(xy_t y=0;y<old_height;y++)
-    for(xy_t x=0;x<old_width;x++)
+    for(xy_t y=0;y<old_height;y++){
+    RDV_INV(expanded this.data.elts old_data.elts old_width new_width new_height 0 y val);
+    for(xy_t x=0;x<old_width;x++){
+      RDV_INV(expanded this.data.elts old_data.elts old_width new_width new_height x y val);
+      RDV_LEMMA(idx_u64 new_width new_height x y);
+      RDV_LEMMA(idx_u64 old_width old_height x y);
       _data[y*new_width+x] = old_data[(uint64_t)y*(uint64_t)old_width+x];
+    }
+    }
   }
 
   /**
@@ -926,9 +970,12 @@ class Array2D {
   */
   void countDataCells() const {
     num_data_cells = 0;
-    for(unsigned int i=0;i<size();i++)
+    for(unsigned int i=0;i<size();i++){
+      RDV_INV(this.num_data_cells = i - occ this.data.elts this.no_data i);
+      RDV_INV(0 <= this.num_data_cells <= i);
       if(_data[i]!=no_data)
         num_data_cells++;
+    }
   }
 
   /**
@@ -1045,8 +1092,11 @@ class Array2D {
     @param[in] val    The value to set the row to
   */
   void setRow(xy_t y, const T &val){
-    for(xy_t x=0;x<view_width;x++)
+    RDV_GHOST_LET(z_ = this.data.elts);
+    for(xy_t x=0;x<view_width;x++){
+      RDV_INV(forall a b. ing this.view_width this.view_height a b -> cell this a b = if b = y && a < x then val else z_ (idx this.view_width a b));
       _data[xyToI(x,y)] = val;
+    }
   }
 
   /**
@@ -1056,8 +1106,11 @@ class Array2D {
     @param[in] val    The value to set the column to
   */
   void setCol(xy_t x, const T &val){
-    for(xy_t y=0;y<view_height;y++)
+    RDV_GHOST_LET(z_ = this.data.elts);
+    for(xy_t y=0;y<view_height;y++){
+      RDV_INV(forall a b. ing this.view_width this.view_height a b -> cell this a b = if a = x && b < y then val else z_ (idx this.view_width a b));
       _data[xyToI(x,y)] = val;
+    }
   }
 
   /**
@@ -1092,8 +1145,10 @@ class Array2D {
   */
   std::vector<T> getColData(xy_t x) const {
     std::vector<T> temp(view_height);
-    for(xy_t y=0;y<view_height;y++)
+    for(xy_t y=0;y<view_height;y++){
+      RDV_INV(forall b. 0 <= b < y -> temp.elts b = cell this x b);
       temp[y]=_data[xyToI(x,y)];
+    }
     return temp;
   }
 
@@ -1412,9 +1467,13 @@ class Array2D {
     @param[in]     x     Value to multiply array by
   */
   void scale(const double x) {
-    for(i_t i=0;i<size();i++)
+    RDV_GHOST_LET(z_ = this.data.elts);
+    for(i_t i=0;i<size();i++){
+      RDV_INV(forall j. i <= j -> this.data.elts j = z_ j);
+      RDV_INV(forall j. 0 <= j < i -> this.data.elts j = if z_ j = this.no_data then z_ j else z_ j *. x);
       if(_data[i]!=no_data)
         _data[i] *= x;
+    }
   }
 
   //TODO
-- 
2.43.0


From 91be1856b612f47c251be3a8141abadda3f32de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:27 +0000
Subject: [PATCH 13/32] verify: proof annotations for ManagedVector (guard
 RICHDEM_VERIFY)

---
 include/richdem/common/ManagedVector.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/richdem/common/ManagedVector.hpp b/include/richdem/common/ManagedVector.hpp
index 06fad52..d7621c5 100644
--- a/include/richdem/common/ManagedVector.hpp
+++ b/include/richdem/common/ManagedVector.hpp
@@ -2,6 +2,8 @@
 #define _richdem_managed_vector_hpp_
 
 #include <memory>
+
+#include <richdem/common/contracts.hpp>
 //#include <iostream>
 
 namespace richdem {
@@ -27,8 +29,12 @@ class ManagedVector {
   ManagedVector(std::size_t size, T default_val=T()){
     _size = size;
     _data.reset(new T[size]);   //Create unique pointer to newly allocated memory
-    for(std::size_t i=0;i<size;i++)  //Initialize all members to default value
+    RDV_GHOST_LET(h_ = hsnap heap);
+    for(std::size_t i=0;i<size;i++){  //Initialize all members to default value
+      RDV_INV(0 <= i <= size && kept h_ heap this.data.p);
+      RDV_INV(forall j. 0 <= j < i -> heap.blk this.data.p j = default_val);
       _data[i] = default_val;
+    }
     //std::cerr<<"ManagedVector construct with owned data at "<<((void*)_data.get())<<std::endl;
   }
 
@@ -49,8 +55,12 @@ class ManagedVector {
     //std::cerr<<"Copying ManagedVector from U"<<std::endl;
     _size = other.size();
      _data.reset(new T[other.size()]);
-    for(std::size_t i=0;i<other.size();i++)
+    RDV_GHOST_LET(h_ = hsnap heap);
+    for(std::size_t i=0;i<other.size();i++){
+      RDV_INV(0 <= i <= other.size && kept h_ heap this.data.p);
+      RDV_INV(forall j. 0 <= j < i -> heap.blk this.data.p j = heap.blk other.data.p j);
       _data[i] = other._data[i];
+    }
   }
 
   //TODO: Should this clear old data?
@@ -59,8 +69,12 @@ class ManagedVector {
     //std::cerr<<"Copying ManagedVector from T"<<std::endl;
     _size = other.size();
     _data.reset(new T[other.size()]);
-    for(std::size_t i=0;i<other.size();i++)
+    RDV_GHOST_LET(h_ = hsnap heap);
+    for(std::size_t i=0;i<other.size();i++){
+      RDV_INV(0 <= i <= other.size && kept h_ heap this.data.p);
+      RDV_INV(forall j. 0 <= j < i -> heap.blk this.data.p j = heap.blk other.data.p j);
       _data[i] = other._data[i];
+    }
   }
 
   //TODO: Should this clear old data?
-- 
2.43.0


From e514c54fbd2a0954345c7c052962764ec4ae6388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 14/32] fix: stable queues number their cells with 64 bits

Insertion numbers were counted in 64 bits but stored in an int, so that after 2^31 insertions cells of equal
elevation were returned in the wrong order.
---
 include/richdem/common/grid_cell.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/richdem/common/grid_cell.hpp b/include/richdem/common/grid_cell.hpp
index 6a8dfaf..07b8052 100644
--- a/include/richdem/common/grid_cell.hpp
+++ b/include/richdem/common/grid_cell.hpp
@@ -10,6 +10,7 @@
 #include <vector>
 #include <queue>
 #include <cmath>
+#include <cstdint>
 #include <functional>
 
 namespace richdem {
@@ -73,8 +74,8 @@ struct GridCellZ<float>: public GridCell {
 ///@brief Stores the (x,y,z) coordinates of a grid cell and a priority indicator k; used by \ref GridCellZk_pq to return cells in order of elevation from lowest to highest. If elevations are equal then the cell added first is popped from the priority queue.
 template<class elev_t>
 struct GridCellZk_low : public GridCellZ<elev_t> {
-    int k;           ///< Used to store an integer to make sorting stable
-    GridCellZk_low(int x0, int y0, elev_t z0, int k0): GridCellZ<elev_t>(x0,y0,z0), k(k0) {}
+    uint64_t k;      ///< Used to store an integer to make sorting stable
+    GridCellZk_low(int x0, int y0, elev_t z0, uint64_t k0): GridCellZ<elev_t>(x0,y0,z0), k(k0) {}
     GridCellZk_low() = default;
     //TODO: Is it possible to do this relying on inheriting the std::isnan checks from the GridCellZ specialization?
     bool operator> (const GridCellZk_low<elev_t>& a) const { return GridCellZk_low<elev_t>::z> a.z || (!GridCellZk_low<elev_t>::isnan() &&  a.isnan()) || (GridCellZk_low<elev_t>::z==a.z && k>a.k) || (GridCellZk_low<elev_t>::isnan() && a.isnan() && k>a.k); }
@@ -83,8 +84,8 @@ struct GridCellZk_low : public GridCellZ<elev_t> {
 ///@brief Stores the (x,y,z) coordinates of a grid cell and a priority indicator k; used by \ref GridCellZk_pq to return cells in order of elevation from lowest to highest. If elevations are equal then the cell added last is popped from the priority queue.
 template<class elev_t>
 struct GridCellZk_high : public GridCellZ<elev_t> {
-    int k;           ///< Used to store an integer to make sorting stable
-    GridCellZk_high(int x0, int y0, elev_t z0, int k0): GridCellZ<elev_t>(x0,y0,z0), k(k0) {}
+    uint64_t k;      ///< Used to store an integer to make sorting stable
+    GridCellZk_high(int x0, int y0, elev_t z0, uint64_t k0): GridCellZ<elev_t>(x0,y0,z0), k(k0) {}
     GridCellZk_high(){}
     //TODO: Is it possible to do this relying on inheriting the std::isnan checks from the GridCellZ specialization?
     bool operator> (const GridCellZk_high<elev_t>& a) const { return GridCellZk_high<elev_t>::z> a.z || (!GridCellZk_high<elev_t>::isnan() &&  a.isnan()) || (GridCellZk_high<elev_t>::z==a.z && k<a.k) || (GridCellZk_high<elev_t>::isnan() && a.isnan() && k<a.k); }
-- 
2.43.0


From afe3b3a6b444150684041184b8c5ffbd7c7b4543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 15/32] fix: DisjointDenseIntSet::mergeAintoB merges the whole
 set of A

Only A itself was attached to B: if A was not the representative of its set the rest of the set was left behind,
and merging two members of one set could make a cycle of parents that findSet never leaves.
---
 .../richdem/common/disjoint_dense_int_set.hpp  | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/richdem/common/disjoint_dense_int_set.hpp b/include/richdem/common/disjoint_dense_int_set.hpp
index 632c091..edd951e 100644
--- a/include/richdem/common/disjoint_dense_int_set.hpp
+++ b/include/richdem/common/disjoint_dense_int_set.hpp
@@ -125,16 +125,20 @@ class DisjointDenseIntSet {
 
   //Using `unionSet` merges two sets in a way which does not allow us to decide
   //which set is the parent; however, `unionSet` helps guarantee fast queries.
-  //`mergeAintoB` sacrifices speed but preserves parenthood by always making A a
-  //child of B, regardless of the height of `B`.
+  //`mergeAintoB` sacrifices speed but preserves parenthood by always making A's
+  //set part of B's, with B's representative, regardless of the height of `B`.
   void mergeAintoB(unsigned int a, unsigned int b){
     checkSize(a);
     checkSize(b);
-    parent[a] = b;
-    if(rank[a]==rank[b]){
-      rank[b]++;
-    } else if(rank[a]>rank[b]){
-      rank[b] = rank[a]+1;
+    const auto roota = findSet(a); //It is the whole set of A that becomes part of the set of B
+    const auto rootb = findSet(b);
+    if(roota==rootb)
+      return;
+    parent[roota] = rootb;
+    if(rank[roota]==rank[rootb]){
+      rank[rootb]++;
+    } else if(rank[roota]>rank[rootb]){
+      rank[rootb] = rank[roota]+1;
     } else {
       //If `rank[b]>rank[a]` then making A a child of B does not increase B's
       //height.
-- 
2.43.0


From fb90a81cf5897dbf7efedc0e8b2a9c0906484b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:10 +0000
Subject: [PATCH 16/32] verify: proof annotations for DisjointDenseIntSet
 (guard RICHDEM_VERIFY)

---
 .../richdem/common/disjoint_dense_int_set.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/disjoint_dense_int_set.hpp b/include/richdem/common/disjoint_dense_int_set.hpp
index edd951e..5130033 100644
--- a/include/richdem/common/disjoint_dense_int_set.hpp
+++ b/include/richdem/common/disjoint_dense_int_set.hpp
@@ -6,6 +6,8 @@
 #include <vector>
 #include <cassert>
 
+#include <richdem/common/contracts.hpp>
+
 
 //A disjoint-set/union-find class. Starting from a collection of sets, this data
 //structure efficiently keeps track of which sets have been merged. It is
@@ -29,6 +31,9 @@ class DisjointDenseIntSet {
       return;                          //Yup.
                                        //Nope.
     const auto old_size = rank.size(); //Get old maximum set value
+    RDV_GHOST_LET(p_ = this.parent.elts);
+    RDV_GHOST_LET(r_ = this.rep);
+    RDV_GHOST_LET(m_ = this.mes);
 
     //Resize so that `newN` is a valid value. None of the new sets have
     //children.
@@ -39,8 +44,12 @@ class DisjointDenseIntSet {
 
     //Ensure that each new set is its own parent since they have not yet been
     //merged.
-    for(auto i=old_size;i<newN+1;i++)
+    for(auto i=old_size;i<newN+1;i++){
+      RDV_INV(own_parents this.parent.elts p_ old_size i && this.parent.len = newN + 1 && old_size <= i <= newN + 1);
       parent[i] = i;
+    }
+    RDV_GHOST(this.rep <- extend_rep r_ old_size);
+    RDV_GHOST(this.mes <- extend_mes m_ old_size);
   }
 
  public:
@@ -53,8 +62,10 @@ class DisjointDenseIntSet {
   DisjointDenseIntSet(unsigned int N){
     rank.resize(N,0);
     parent.resize(N);
-    for(unsigned int i=0;i<N;i++)
+    for(unsigned int i=0;i<N;i++){
+      RDV_INV(0 <= i <= N && forall j. 0 <= j < i -> this.parent.elts j = j);
       parent[i] = i;
+    }
   }
 
   //Explicitly creates a set. May incidentally create several intermediate sets
@@ -115,10 +126,13 @@ class DisjointDenseIntSet {
 
     if(rank[roota]<rank[rootb]){          //Is A shorter?
       parent[roota] = rootb;              //Make A a child of B.
+      RDV_GHOST(link this roota rootb);
     } else if(rank[roota]>rank[rootb]) {  //Is B shorter?
       parent[rootb] = roota;              //Make B a child of A.
+      RDV_GHOST(link this rootb roota);
     } else {                              //A and B are the same height
       parent[rootb] = roota;              //Arbitrarily make B a child of A
+      RDV_GHOST(link this rootb roota);
       rank[roota]++;                      //Increase A's height.
     }
   }
@@ -135,6 +149,7 @@ class DisjointDenseIntSet {
     if(roota==rootb)
       return;
     parent[roota] = rootb;
+    RDV_GHOST(link this roota rootb);
     if(rank[roota]==rank[rootb]){
       rank[rootb]++;
     } else if(rank[roota]>rank[rootb]){
-- 
2.43.0


From 9d2191b96a0c32b8b43c6943a332af56beb7b76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:34 +0000
Subject: [PATCH 17/32] fix: radix_heap::min forgets the minimum of an emptied
 first bucket

pull() moves the next keys into bucket 0 but kept the minimum of the keys popped from it before, so that min()
returned a key that was no longer in the heap. pair_radix_heap already resets it.
---
 include/richdem/common/radix_heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/richdem/common/radix_heap.hpp b/include/richdem/common/radix_heap.hpp
index 774f41f..43ab395 100644
--- a/include/richdem/common/radix_heap.hpp
+++ b/include/richdem/common/radix_heap.hpp
@@ -229,6 +229,7 @@ class radix_heap {
   void pull() {
     assert(size_ > 0);
     if (!buckets_[0].empty()) return;
+    buckets_min_[0] = std::numeric_limits<unsigned_key_type>::max();
 
     const size_t i = bucket_flags_.find_first_non_empty();
     last_ = buckets_min_[i];
-- 
2.43.0


From 99c470fe424ec2e72d52300b780087f1191ed4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:44 +0000
Subject: [PATCH 18/32] fix: LRU::insert must not skip an item because it
 equals the unset or evicted last item

---
 include/richdem/tiled/lru.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/tiled/lru.hpp b/include/richdem/tiled/lru.hpp
index a81faf7..b0a3f67 100644
--- a/include/richdem/tiled/lru.hpp
+++ b/include/richdem/tiled/lru.hpp
@@ -41,7 +41,7 @@ class LRU {
   void insert(const T &entry){
     //Used to quickly move on if we've seen this item before (TODO: Should use a
     //pointer in case T is not a POD.)
-    if(entry==last)
+    if(len>0 && entry==last)
       return;
 
     if(visited.count(entry)){                     //Item is already in the queue
-- 
2.43.0


From 136555f64ab4016bf5b87ab33156a74d06f5571d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 19/32] verify: proof annotations for LRU

---
 include/richdem/tiled/lru.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/richdem/tiled/lru.hpp b/include/richdem/tiled/lru.hpp
index b0a3f67..8ee5213 100644
--- a/include/richdem/tiled/lru.hpp
+++ b/include/richdem/tiled/lru.hpp
@@ -7,6 +7,7 @@
 #ifndef _lru_hpp_
 #define _lru_hpp_
 
+#include <richdem/common/contracts.hpp>
 #include <list>
 #include <unordered_map>
 
@@ -39,6 +40,8 @@ class LRU {
   ///
   ///@param entry The item to add to the queue.
   void insert(const T &entry){
+    RDV_GHOST(this.tm <- set this.tm entry this.clk);
+    RDV_GHOST(this.clk <- this.clk + 1);
     //Used to quickly move on if we've seen this item before (TODO: Should use a
     //pointer in case T is not a POD.)
     if(len>0 && entry==last)
@@ -96,8 +99,18 @@ class LRU {
   void prune(){
     if(maxlen == -1) return;
 
-    while(size()>maxlen)
+    RDV_GHOST_LET(len_ = this.ulen);
+    RDV_GHOST_LET(max_ = this.maxlen);
+    RDV_GHOST_LET(tm_ = this.tm);
+    RDV_GHOST_LET(clk_ = this.clk);
+    RDV_GHOST_LET(items_ = pure { fun j -> item this j });
+    while(size()>maxlen){
+      RDV_INV(lruok this && this.maxlen = max_ && this.tm = tm_ && this.clk = clk_);
+      RDV_INV(this.ulen <= len_ && (this.ulen >= max_ || this.ulen = len_));
+      RDV_INV(forall j. 0 <= j < this.ulen -> item this j = items_ j);
+      RDV_VARIANT(this.ulen);
       pop_back();
+    }
   }
 };
 
-- 
2.43.0


From 21c0b5baaad70871c8b90e6ece65e7528eb8b839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:03 +0000
Subject: [PATCH 20/32] verify: proof annotations for D8 flow directions

---
 include/richdem/flowmet/d8_flowdirs.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/richdem/flowmet/d8_flowdirs.hpp b/include/richdem/flowmet/d8_flowdirs.hpp
index 7d01a28..45f2549 100644
--- a/include/richdem/flowmet/d8_flowdirs.hpp
+++ b/include/richdem/flowmet/d8_flowdirs.hpp
@@ -7,6 +7,7 @@
 #ifndef _richdem_d8_flowdirs_hpp_
 #define _richdem_d8_flowdirs_hpp_
 
+#include <richdem/common/contracts.hpp>
 #include <richdem/common/logger.hpp>
 #include <richdem/common/Array2D.hpp>
 #include <richdem/common/ProgressBar.hpp>
@@ -60,7 +61,8 @@ static int d8_FlowDir(const Array2D<T> &elevations, const int x, const int y){
   number, such that all water which makes it to the edge of the DEM's region
   of defined elevations is sucked directly off the grid, rather than piling up
   on the edges.*/
-  for(int n=1;n<=8;n++)
+  for(int n=1;n<=8;n++){
+    RDV_INV(low_upto elevations.view_width elevations.data.elts x y flowdir n minimum_elevation);
     if(
       elevations(x+d8x[n],y+d8y[n])<minimum_elevation
       || (elevations(x+d8x[n],y+d8y[n])==minimum_elevation
@@ -69,6 +71,7 @@ static int d8_FlowDir(const Array2D<T> &elevations, const int x, const int y){
       minimum_elevation=elevations(x+d8x[n],y+d8y[n]);
       flowdir=n;
     }
+  }
 
   return flowdir;
 }
@@ -112,12 +115,18 @@ void d8_flow_directions(
   progress.start( elevations.width()*elevations.height() );
   #pragma omp parallel for
   for(int y=0;y<elevations.height();y++){
+    RDV_INV(valid flowdirs && samedim flowdirs elevations && flowdirs.no_data = 255);
+    RDV_INV(dirs elevations.view_width elevations.view_height elevations.data.elts elevations.no_data flowdirs.data.elts y);
     progress.update( y*elevations.width() );
-    for(int x=0;x<elevations.width();x++)
+    for(int x=0;x<elevations.width();x++){
+      RDV_INV(valid flowdirs && samedim flowdirs elevations && flowdirs.no_data = 255);
+      RDV_INV(dirs elevations.view_width elevations.view_height elevations.data.elts elevations.no_data flowdirs.data.elts y);
+      RDV_INV(forall i. 0 <= i < x -> if elevations.data.elts (idx elevations.view_width i y) = elevations.no_data then flowdirs.data.elts (idx elevations.view_width i y) = 255 else d8_dir elevations.view_width elevations.view_height elevations.data.elts i y (flowdirs.data.elts (idx elevations.view_width i y)));
       if(elevations(x,y)==elevations.noData())
         flowdirs(x,y) = flowdirs.noData();
       else
         flowdirs(x,y) = d8_FlowDir(elevations,x,y);
+    }
   }
   RDLOG_TIME_USE<<"Succeeded in = "<<progress.stop()<<" s";
 }
-- 
2.43.0


From 23137d371cd826e3d35bc99b46cee969784a50d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:17 +0000
Subject: [PATCH 21/32] fix: d8_flow_accum must count dependencies atomically,
 rows of different threads share neighbours

---
 include/richdem/methods/d8_methods.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/richdem/methods/d8_methods.hpp b/include/richdem/methods/d8_methods.hpp
index f2010c6..5925b0e 100644
--- a/include/richdem/methods/d8_methods.hpp
+++ b/include/richdem/methods/d8_methods.hpp
@@ -87,6 +87,7 @@ void d8_flow_accum(const Array2D<T> &flowdirs, Array2D<U> &area){
 
       //Neighbour is valid and is part of the grid. The neighbour depends on this
       //cell, so increment its dependency count.
+      #pragma omp atomic
       ++dependency(nx,ny);
     }
   }
-- 
2.43.0


From c2e20f619fbaa8cf531b0b13875b16a1be48e552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:09 +0000
Subject: [PATCH 22/32] verify: proof annotations for flow accumulation

---
 include/richdem/methods/d8_methods.hpp        | 76 +++++++++++++++++-
 .../methods/flow_accumulation_generic.hpp     | 78 +++++++++++++++++--
 2 files changed, 145 insertions(+), 9 deletions(-)

diff --git a/include/richdem/methods/d8_methods.hpp b/include/richdem/methods/d8_methods.hpp
index 5925b0e..99cb613 100644
--- a/include/richdem/methods/d8_methods.hpp
+++ b/include/richdem/methods/d8_methods.hpp
@@ -9,6 +9,7 @@
 
 #include <richdem/common/Array2D.hpp>
 #include <richdem/common/constants.hpp>
+#include <richdem/common/contracts.hpp>
 #include <richdem/common/grid_cell.hpp>
 #include <richdem/common/logger.hpp>
 #include <richdem/common/ProgressBar.hpp>
@@ -65,10 +66,22 @@ void d8_flow_accum(const Array2D<T> &flowdirs, Array2D<U> &area){
 
   RDLOG_PROGRESS<<"Calculating dependency matrix & setting noData() cells...";
   progress.start( flowdirs.size() );
+  RDV_LEMMA(use_area flowdirs.view_width flowdirs.view_height);
+  RDV_LEMMA(cnt_start flowdirs.view_width flowdirs.view_height (dfl flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data) (ddat flowdirs.data.elts flowdirs.no_data) dependency.data.elts 0 0);
   #pragma omp parallel for
   for(int y=0;y<flowdirs.height();y++){
+    RDV_INV(cnt flowdirs.view_width flowdirs.view_height (dfl flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data) (ddat flowdirs.data.elts flowdirs.no_data) dependency.data.elts 0 y 1);
+    RDV_INV(valid dependency && samedim dependency flowdirs && valid area && samedim area flowdirs);
+    RDV_INV(area0 flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data area.data.elts area.no_data 0 y);
     progress.update( y*flowdirs.width() );
     for(int x=0;x<flowdirs.width();x++){
+      RDV_INV(cnt flowdirs.view_width flowdirs.view_height (dfl flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data) (ddat flowdirs.data.elts flowdirs.no_data) dependency.data.elts x y 1);
+      RDV_INV(valid dependency && samedim dependency flowdirs && valid area && samedim area flowdirs);
+      RDV_INV(area0 flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data area.data.elts area.no_data x y);
+      RDV_GHOST_LET(d0_ = dependency.data.elts);
+      RDV_GHOST_LET(ci_ = idx flowdirs.view_width x y);
+      RDV_ASSERT(cellok flowdirs.view_width flowdirs.view_height ci_ && ix flowdirs.view_width ci_ = x && iy flowdirs.view_width ci_ = y);
+      RDV_LEMMA(if pure { not (dfl flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data) ci_ (flowdirs.data.elts ci_) } then cnt_none flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data dependency.data.elts x y);
       if(flowdirs.isNoData(x,y)){
         area(x,y) = area.noData();
         continue;
@@ -89,29 +102,68 @@ void d8_flow_accum(const Array2D<T> &flowdirs, Array2D<U> &area){
       //cell, so increment its dependency count.
       #pragma omp atomic
       ++dependency(nx,ny);
+      RDV_LEMMA(cnt_one flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data d0_ dependency.data.elts x y);
     }
+    RDV_LEMMA(cnt_row flowdirs.view_width flowdirs.view_height (dfl flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data) (ddat flowdirs.data.elts flowdirs.no_data) dependency.data.elts flowdirs.view_width 0 y);
   }
   RDLOG_TIME_USE<<"Dependency calculation time = "<<progress.stop()<<" s";
 
   RDLOG_PROGRESS<<"Locating source cells...";
-  for(int y=0;y<flowdirs.height();y++)
-  for(int x=0;x<flowdirs.width();x++)
+  RDV_LEMMA(use_idx flowdirs.view_width 0 0);
+  RDV_LEMMA(cnt_end flowdirs.view_width flowdirs.view_height (dfl flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data) (ddat flowdirs.data.elts flowdirs.no_data) dependency.data.elts 0 flowdirs.view_height);
+  for(int y=0;y<flowdirs.height();y++){
+  RDV_INV(srcs flowdirs.view_width flowdirs.view_height (ddat flowdirs.data.elts flowdirs.no_data) dependency.data.elts (gq flowdirs.view_width sources.qel) sources.hd sources.tl (idx flowdirs.view_width 0 y));
+  RDV_INV(gqok flowdirs.view_width flowdirs.view_height sources.qel sources.hd sources.tl && sources.hd <= sources.tl);
+  for(int x=0;x<flowdirs.width();x++){
+    RDV_INV(srcs flowdirs.view_width flowdirs.view_height (ddat flowdirs.data.elts flowdirs.no_data) dependency.data.elts (gq flowdirs.view_width sources.qel) sources.hd sources.tl (idx flowdirs.view_width x y));
+    RDV_INV(gqok flowdirs.view_width flowdirs.view_height sources.qel sources.hd sources.tl && sources.hd <= sources.tl);
+    RDV_GHOST_LET(q0_ = sources.qel);
+    RDV_GHOST_LET(tl0_ = sources.tl);
+    RDV_LEMMA(use_idx flowdirs.view_width x y);
+    RDV_LEMMA(use_idx flowdirs.view_width (x + 1) y);
+    RDV_ASSERT(cellok flowdirs.view_width flowdirs.view_height (idx flowdirs.view_width x y));
     if(dependency(x,y)==0 && !flowdirs.isNoData(x,y))
       sources.emplace(x,y);
+    RDV_LEMMA(srcs_step flowdirs.view_width flowdirs.view_height (ddat flowdirs.data.elts flowdirs.no_data) dependency.data.elts (gq flowdirs.view_width q0_) (gq flowdirs.view_width sources.qel) sources.hd tl0_ sources.tl (idx flowdirs.view_width x y));
+  }
+  RDV_LEMMA(row_end flowdirs.view_width y);
+  }
+  RDV_GHOST_LET(ref own_ = pure { zeror });
+  RDV_GHOST_LET(ref sent_ = pure { none_sent });
+  RDV_GHOST_LET(ref st_ = pure { st0 (ddat flowdirs.data.elts flowdirs.no_data) dependency.data.elts });
+  RDV_LEMMA(last_row flowdirs.view_width flowdirs.view_height);
+  RDV_LEMMA(acc_start flowdirs.view_width flowdirs.view_height (dfl flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data) one2 (ddat flowdirs.data.elts flowdirs.no_data) own_ area.data.elts dependency.data.elts (gq flowdirs.view_width sources.qel) sources.hd sources.tl);
 
   RDLOG_PROGRESS<<"Calculating flow accumulation areas...";
   progress.start(flowdirs.numDataCells());
   long int ccount=0;
   while(sources.size()>0){
+    RDV_INV(accst flowdirs.view_width flowdirs.view_height (dfl flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data) one2 (ddat flowdirs.data.elts flowdirs.no_data) own_ area.data.elts dependency.data.elts sent_ st_);
+    RDV_INV(accq flowdirs.view_width flowdirs.view_height st_ (gq flowdirs.view_width sources.qel) sources.hd sources.tl && sources.hd <= sources.tl);
+    RDV_INV(gqok flowdirs.view_width flowdirs.view_height sources.qel sources.hd sources.tl);
+    RDV_INV(handed flowdirs.view_width flowdirs.view_height (dfl flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data) sent_ st_ (-1) 9);
+    RDV_INV(valid dependency && samedim dependency flowdirs && valid area && samedim area flowdirs);
+    RDV_INV(ownst flowdirs.view_width flowdirs.view_height own_ st_);
+    RDV_INV(forall c. cellok flowdirs.view_width flowdirs.view_height c -> not (ddat flowdirs.data.elts flowdirs.no_data) c -> area.data.elts c = area.no_data);
+    RDV_GHOST_LET(hd0_ = sources.hd);
+    RDV_GHOST_LET(a0_ = area.data.elts);
+    RDV_GHOST_LET(own0_ = own_);
+    RDV_GHOST_LET(st0_ = st_);
     GridCell c=sources.front();
     sources.pop();
+    RDV_GHOST_LET(ci_ = idx flowdirs.view_width c.gx c.gy);
+    RDV_ASSERT(ing flowdirs.view_width flowdirs.view_height c.gx c.gy && ix flowdirs.view_width ci_ = c.gx && iy flowdirs.view_width ci_ = c.gy && cellok flowdirs.view_width flowdirs.view_height ci_);
 
     ccount++;
     progress.update(ccount);
 
     area(c.x,c.y)++;
+    RDV_GHOST(own_ <- Map.set own_ ci_ 1.0; st_ <- Map.set st_ ci_ 2);
+    RDV_LEMMA(acc_pop flowdirs.view_width flowdirs.view_height (dfl flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data) one2 (ddat flowdirs.data.elts flowdirs.no_data) own0_ own_ a0_ area.data.elts dependency.data.elts sent_ st0_ st_ (gq flowdirs.view_width sources.qel) hd0_ sources.tl ci_);
+    RDV_ASSERT(ownst flowdirs.view_width flowdirs.view_height own_ st_);
 
     int n = flowdirs(c.x,c.y);
+    RDV_LEMMA(if pure { not (dfl flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data) ci_ n } then hand_none flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data sent_ st_ ci_);
 
     if(n==NO_FLOW)
       continue;
@@ -124,12 +176,30 @@ void d8_flow_accum(const Array2D<T> &flowdirs, Array2D<U> &area){
     if(flowdirs.isNoData(nx,ny))
       continue;
 
+    RDV_GHOST_LET(ni_ = idx flowdirs.view_width nx ny);
+    RDV_ASSERT(ni_ = nb flowdirs.view_width ci_ n && (dfl flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data) ci_ n && cellok flowdirs.view_width flowdirs.view_height ni_ && ix flowdirs.view_width ni_ = nx && iy flowdirs.view_width ni_ = ny && (ddat flowdirs.data.elts flowdirs.no_data) ni_);
+    RDV_LEMMA(deps_rng flowdirs.view_width flowdirs.view_height (dfl flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data) (ddat flowdirs.data.elts flowdirs.no_data) dependency.data.elts sent_ ni_);
+    RDV_LEMMA(hand_jump flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data sent_ st_ ci_ n);
+    RDV_LEMMA(use_share 1.0 (area.data.elts ci_));
+    RDV_GHOST_LET(a1_ = area.data.elts);
+    RDV_GHOST_LET(d0_ = dependency.data.elts);
+    RDV_GHOST_LET(q0_ = sources.qel);
+    RDV_GHOST_LET(tl0_ = sources.tl);
+    RDV_GHOST_LET(s0_ = sent_);
+    RDV_GHOST_LET(t0_ = st_);
     area(nx,ny)+=area(c.x,c.y);
     --dependency(nx,ny);
 
-    if(dependency(nx,ny)==0)
+    if(dependency(nx,ny)==0){
       sources.emplace(nx,ny);
+      RDV_GHOST(st_ <- Map.set st_ ni_ 1);
+    }
+    RDV_GHOST(sent_ <- Map.set sent_ ci_ (Map.set (sent_ ci_) n true));
+    RDV_LEMMA(acc_send flowdirs.view_width flowdirs.view_height (dfl flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data) one2 (ddat flowdirs.data.elts flowdirs.no_data) own_ a1_ area.data.elts d0_ dependency.data.elts s0_ sent_ t0_ st_ (gq flowdirs.view_width q0_) (gq flowdirs.view_width sources.qel) sources.hd tl0_ sources.tl ci_ n);
+    RDV_LEMMA(hand_end flowdirs.view_width flowdirs.view_height (dfl flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data) sent_ st_ ci_ (n+1));
   }
+  RDV_LEMMA(acc_end flowdirs.view_width flowdirs.view_height (dfl flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data) one2 (ddat flowdirs.data.elts flowdirs.no_data) own_ area.data.elts dependency.data.elts sent_ st_ (gq flowdirs.view_width sources.qel) sources.hd sources.tl);
+  RDV_LEMMA(balanced_ext flowdirs.view_width flowdirs.view_height (dfl flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data) one2 (ddat flowdirs.data.elts flowdirs.no_data) own_ ones area.data.elts area.data.elts);
   RDLOG_TIME_USE<<"Flow accumulation calculation time = "<<progress.stop()<<" s";
 
   //TODO: Explain this better
diff --git a/include/richdem/methods/flow_accumulation_generic.hpp b/include/richdem/methods/flow_accumulation_generic.hpp
index fa7846f..4521b84 100644
--- a/include/richdem/methods/flow_accumulation_generic.hpp
+++ b/include/richdem/methods/flow_accumulation_generic.hpp
@@ -2,6 +2,7 @@
 #define _flow_accumulatin_generic_
 
 #include <richdem/common/Array2D.hpp>
+#include <richdem/common/contracts.hpp>
 #include <richdem/common/logger.hpp>
 #include <richdem/common/ProgressBar.hpp>
 #include <queue>
@@ -45,23 +46,51 @@ void FlowAccumulation(const Array3D<float> &props, Array2D<A> &accum){
   //Create dependencies array
   RDLOG_PROGRESS<<"Creating dependencies array..."<<std::endl;
   Array2D<int8_t> deps(props, 0);
-  for(int y=1;y<props.height()-1;y++)
+  RDV_GHOST_LET(own_ = accum.data.elts);
+  RDV_LEMMA(use_area accum.view_width accum.view_height);
+  RDV_LEMMA(cnt_start accum.view_width accum.view_height (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) (pdat props.pdata.elts props.pno_data) deps.data.elts 1 1);
+  for(int y=1;y<props.height()-1;y++){
+  RDV_INV(cnt accum.view_width accum.view_height (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) (pdat props.pdata.elts props.pno_data) deps.data.elts 1 y 1);
+  RDV_INV(valid deps && samedim deps accum);
   for(int x=1;x<props.width()-1;x++){
+    RDV_INV(cnt accum.view_width accum.view_height (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) (pdat props.pdata.elts props.pno_data) deps.data.elts x y 1);
+    RDV_INV(valid deps && samedim deps accum);
     const int ci = accum.xyToI(x,y);
-    if(props.isNoData(ci))
+    if(props.isNoData(ci)){
+      RDV_LEMMA(cnt_cell accum.view_width accum.view_height (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) (pdat props.pdata.elts props.pno_data) deps.data.elts x y 1);
       continue;
-    for(int n=1;n<=8;n++)
+    }
+    for(int n=1;n<=8;n++){
+      RDV_INV(cnt accum.view_width accum.view_height (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) (pdat props.pdata.elts props.pno_data) deps.data.elts x y n);
+      RDV_INV(valid deps && samedim deps accum);
+      RDV_GHOST_LET(d0_ = deps.data.elts);
+      RDV_ASSERT(has accum.view_width accum.view_height ci n && nb accum.view_width ci n = idx accum.view_width (x + d8x n) (y + d8y n) && cellok accum.view_width accum.view_height (nb accum.view_width ci n));
       if(props(x,y,n)>0){
         const int ni = ci + accum.nshift(n);
         deps(ni)++;
       }
+      RDV_LEMMA(cnt_step accum.view_width accum.view_height (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) (pdat props.pdata.elts props.pno_data) d0_ deps.data.elts x y n);
+    }
+    RDV_LEMMA(cnt_cell accum.view_width accum.view_height (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) (pdat props.pdata.elts props.pno_data) deps.data.elts x y 9);
+  }
+  RDV_LEMMA(cnt_row accum.view_width accum.view_height (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) (pdat props.pdata.elts props.pno_data) deps.data.elts (if accum.view_width > 1 then accum.view_width - 1 else 1) 1 y);
   }
+  RDV_LEMMA(cnt_end accum.view_width accum.view_height (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) (pdat props.pdata.elts props.pno_data) deps.data.elts 1 (if accum.view_height > 1 then accum.view_height - 1 else 1));
 
   //Find sources
   std::queue<int> q;
-  for(auto i=deps.i0();i<deps.size();i++)
+  for(auto i=deps.i0();i<deps.size();i++){
+    RDV_INV(srcs accum.view_width accum.view_height (pdat props.pdata.elts props.pno_data) deps.data.elts q.qel q.hd q.tl i);
+    RDV_INV(q.hd <= q.tl);
+    RDV_GHOST_LET(q0_ = q.qel);
+    RDV_GHOST_LET(tl0_ = q.tl);
     if(deps(i)==0 && !props.isNoData(i))
       q.emplace(i);
+    RDV_LEMMA(srcs_step accum.view_width accum.view_height (pdat props.pdata.elts props.pno_data) deps.data.elts q0_ q.qel q.hd tl0_ q.tl i);
+  }
+  RDV_LEMMA(acc_start accum.view_width accum.view_height (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) (pp props.pdata.elts) (pdat props.pdata.elts props.pno_data) own_ accum.data.elts deps.data.elts q.qel q.hd q.tl);
+  RDV_GHOST_LET(ref sent_ = pure { none_sent });
+  RDV_GHOST_LET(ref st_ = pure { st0 (pdat props.pdata.elts props.pno_data) deps.data.elts });
 
   RDLOG_DEBUG<<"Source cells found = "<<q.size(); //TODO: Switch log target
 
@@ -69,6 +98,11 @@ void FlowAccumulation(const Array3D<float> &props, Array2D<A> &accum){
   ProgressBar progress;
   progress.start(props.size());
   while(!q.empty()){
+    RDV_INV(accst accum.view_width accum.view_height (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) (pp props.pdata.elts) (pdat props.pdata.elts props.pno_data) own_ accum.data.elts deps.data.elts sent_ st_);
+    RDV_INV(accq accum.view_width accum.view_height st_ q.qel q.hd q.tl && q.hd <= q.tl);
+    RDV_INV(handed accum.view_width accum.view_height (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) sent_ st_ (-1) 9);
+    RDV_INV(valid deps && samedim deps accum && valid accum);
+    RDV_GHOST_LET(hd0_ = q.hd);
     ++progress;
 
     const auto ci = q.front();
@@ -76,25 +110,57 @@ void FlowAccumulation(const Array3D<float> &props, Array2D<A> &accum){
 
     assert(!props.isNoData(ci));
 
+    RDV_GHOST_LET(st0_ = st_);
+    RDV_GHOST(st_ <- Map.set st_ ci 2);
+    RDV_LEMMA(acc_pop accum.view_width accum.view_height (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) (pp props.pdata.elts) (pdat props.pdata.elts props.pno_data) own_ own_ accum.data.elts accum.data.elts deps.data.elts sent_ st0_ st_ q.qel hd0_ q.tl ci);
     const auto c_accum = accum(ci);
 
     for(int n=1;n<=8;n++){
+      RDV_INV(accst accum.view_width accum.view_height (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) (pp props.pdata.elts) (pdat props.pdata.elts props.pno_data) own_ accum.data.elts deps.data.elts sent_ st_);
+      RDV_INV(accq accum.view_width accum.view_height st_ q.qel q.hd q.tl && q.hd <= q.tl);
+      RDV_INV(handed accum.view_width accum.view_height (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) sent_ st_ ci n);
+      RDV_INV(valid deps && samedim deps accum && valid accum);
+      RDV_INV(st_ ci = 2 && accum.data.elts ci = c_accum);
+      RDV_GHOST_LET(a0_ = accum.data.elts);
+      RDV_GHOST_LET(d0_ = deps.data.elts);
+      RDV_GHOST_LET(q0_ = q.qel);
+      RDV_GHOST_LET(tl0_ = q.tl);
+      RDV_GHOST_LET(s0_ = sent_);
+      RDV_GHOST_LET(t0_ = st_);
+      RDV_LEMMA(if pure { not (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) ci n } then hand_skip accum.view_width accum.view_height (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) sent_ st_ ci n);
       if(props.getIN(ci,n)<=0) //No Flow in this direction or other flags
         continue;
+      RDV_LEMMA(sends accum.view_width accum.view_height props.pdata.elts props.pno_data ci n);
       const int ni = ci+accum.nshift(n);
+      RDV_ASSERT(ni = nb accum.view_width ci n && cellok accum.view_width accum.view_height ni);
       if(props.isNoData(ni))
         continue;
+      RDV_ASSERT(pfl accum.view_width accum.view_height props.pdata.elts props.pno_data ci n);
+      RDV_LEMMA(deps_rng accum.view_width accum.view_height (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) (pdat props.pdata.elts props.pno_data) deps.data.elts sent_ ni);
       accum(ni) += props.getIN(ci,n)*c_accum;
-      if(--deps(ni)==0)
+      if(--deps(ni)==0){
         q.emplace(ni);
+        RDV_GHOST(st_ <- Map.set st_ ni 1);
+      }
+      RDV_GHOST(sent_ <- Map.set sent_ ci (Map.set (sent_ ci) n true));
+      RDV_ASSERT(upi d0_ deps.data.elts (nb accum.view_width ci n) (d0_ (nb accum.view_width ci n) - 1));
+      RDV_ASSERT(upr a0_ accum.data.elts (nb accum.view_width ci n) (a0_ (nb accum.view_width ci n) +. share (pp props.pdata.elts ci n) (a0_ ci)));
+      RDV_LEMMA(acc_send accum.view_width accum.view_height (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) (pp props.pdata.elts) (pdat props.pdata.elts props.pno_data) own_ a0_ accum.data.elts d0_ deps.data.elts s0_ sent_ t0_ st_ q0_ q.qel q.hd tl0_ q.tl ci n);
       assert(deps(ni)>=0);
     }
+    RDV_LEMMA(hand_end accum.view_width accum.view_height (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) sent_ st_ ci 9);
   }
   progress.stop();
 
-  for(auto i=props.i0();i<props.size();i++)
+  RDV_LEMMA(acc_end accum.view_width accum.view_height (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) (pp props.pdata.elts) (pdat props.pdata.elts props.pno_data) own_ accum.data.elts deps.data.elts sent_ st_ q.qel q.hd q.tl);
+  RDV_GHOST_LET(a1_ = accum.data.elts);
+  for(auto i=props.i0();i<props.size();i++){
+    RDV_INV(forall c. cellok accum.view_width accum.view_height c -> accum.data.elts c = if c < i && not (pdat props.pdata.elts props.pno_data) c then accum.no_data else a1_ c);
+    RDV_INV(valid accum);
     if(props.isNoData(i))
       accum(i) = accum.noData();
+  }
+  RDV_LEMMA(balanced_ext accum.view_width accum.view_height (pfl accum.view_width accum.view_height props.pdata.elts props.pno_data) (pp props.pdata.elts) (pdat props.pdata.elts props.pno_data) own_ own_ a1_ accum.data.elts);
 
   RDLOG_TIME_USE<<"Wall-time       = "<<overall.stop()<<" s"     ;
 }
-- 
2.43.0


From e956783ed8207c709ef434476130aaa351dea79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:02 +0000
Subject: [PATCH 23/32] verify: proof annotations for flat detection and
 direction conversion

---
 include/richdem/flats/find_flats.hpp | 14 +++++++++++++-
 include/richdem/misc/conversion.hpp  |  3 +++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/richdem/flats/find_flats.hpp b/include/richdem/flats/find_flats.hpp
index 54456d9..bf292c8 100644
--- a/include/richdem/flats/find_flats.hpp
+++ b/include/richdem/flats/find_flats.hpp
@@ -4,6 +4,7 @@
 #include <richdem/common/logger.hpp>
 #include <richdem/common/ProgressBar.hpp>
 #include <richdem/common/Array2D.hpp>
+#include <richdem/common/contracts.hpp>
 
 namespace richdem {
 
@@ -38,15 +39,22 @@ void FindFlats(
   progress.start( elevations.size() );
 
   #pragma omp parallel for
-  for(int y=0;y<elevations.height();y++)
+  for(int y=0;y<elevations.height();y++){
+  RDV_INV(valid flats && samedim flats elevations && flats.no_data = (-1));
+  RDV_INV(flats_upto elevations.view_width elevations.view_height elevations.data.elts elevations.no_data flats.data.elts 0 y);
   for(int x=0;x<elevations.width();x++){
+    RDV_INV(valid flats && samedim flats elevations && flats.no_data = (-1));
+    RDV_INV(flats_upto elevations.view_width elevations.view_height elevations.data.elts elevations.no_data flats.data.elts x y);
+    RDV_GHOST_LET(f0_ = flats.data.elts);
     if(elevations.isNoData(x,y)){
       flats(x,y) = FLAT_NO_DATA;
+      RDV_LEMMA(flats_step elevations.view_width elevations.view_height elevations.data.elts elevations.no_data f0_ flats.data.elts x y);
       continue;
     }
 
     if(elevations.isEdgeCell(x,y)){
       flats(x,y) = NOT_A_FLAT;
+      RDV_LEMMA(flats_step elevations.view_width elevations.view_height elevations.data.elts elevations.no_data f0_ flats.data.elts x y);
       continue;
     }
 
@@ -54,6 +62,8 @@ void FindFlats(
     flats(x,y) = IS_A_FLAT;
 
     for(int n=1;n<=8;n++){
+      RDV_INV(flats.data.elts = Map.set f0_ (idx elevations.view_width x y) 1 && valid flats && samedim flats elevations && flats.no_data = (-1));
+      RDV_INV(forall k. 1 <= k < n -> not drains elevations.view_width elevations.view_height elevations.data.elts elevations.no_data x y k);
       const int nx = x+d8x[n];
       const int ny = y+d8y[n];
       if(elevations(nx,ny)<elevations(x,y) || elevations.isNoData(nx,ny)){
@@ -63,6 +73,8 @@ void FindFlats(
     }
 
     //We handled the base case just above the for loop
+    RDV_LEMMA(flats_step elevations.view_width elevations.view_height elevations.data.elts elevations.no_data f0_ flats.data.elts x y);
+  }
   }
 
   RDLOG_TIME_USE<<"Succeeded in = "<<progress.stop()<<" s";
diff --git a/include/richdem/misc/conversion.hpp b/include/richdem/misc/conversion.hpp
index 54be429..74149ff 100644
--- a/include/richdem/misc/conversion.hpp
+++ b/include/richdem/misc/conversion.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <richdem/common/constants.hpp>
+#include <richdem/common/contracts.hpp>
 #include <richdem/common/Array2D.hpp>
 
 #include <stdexcept>
@@ -16,6 +17,8 @@ void convert_arc_flowdirs_to_richdem_d8(
   assert(arc_flowdirs.height() == rd_flowdirs.height());
 
   for(auto i=arc_flowdirs.i0();i<arc_flowdirs.size();i++){
+    RDV_INV(valid rd_flowdirs && samedim rd_flowdirs arc_flowdirs);
+    RDV_INV(forall j. 0 <= j < i -> arc_means (arc_flowdirs.data.elts j) (rd_flowdirs.data.elts j));
     switch(arc_flowdirs(i)){
       case 0:   rd_flowdirs(i) = 0; break;
       case 1:   rd_flowdirs(i) = 5; break;
-- 
2.43.0


From c084bde23d8fcab1140828def0106ae7d82654fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:48 +0000
Subject: [PATCH 24/32] fix: cell-count Perimeter must count cells bordering
 NoData, as documented

---
 include/richdem/misc/misc_methods.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/misc/misc_methods.hpp b/include/richdem/misc/misc_methods.hpp
index 445ba0c..f90f922 100644
--- a/include/richdem/misc/misc_methods.hpp
+++ b/include/richdem/misc/misc_methods.hpp
@@ -210,7 +210,7 @@ double Perimeter(
 
       if(perim_type==PerimType::CELL_COUNT){
         for(int n=1;n<=8;n++){
-          if(!arr.inGrid(x+d8x[n],y+d8y[n])){
+          if(!arr.inGrid(x+d8x[n],y+d8y[n]) || arr.isNoData(x+d8x[n],y+d8y[n])){
             cell_edges++;
             break;
           }
-- 
2.43.0


From 0c126672809f5bfdcfed04fcfae9bd25bbe04555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:42 +0000
Subject: [PATCH 25/32] verify: proof annotations for bucket fills and
 perimeters

---
 include/richdem/misc/misc_methods.hpp | 42 +++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/include/richdem/misc/misc_methods.hpp b/include/richdem/misc/misc_methods.hpp
index f90f922..129d5b9 100644
--- a/include/richdem/misc/misc_methods.hpp
+++ b/include/richdem/misc/misc_methods.hpp
@@ -11,6 +11,7 @@
 #define _richdem_dinf_methods_hpp_
 
 #include <richdem/common/Array2D.hpp>
+#include <richdem/common/contracts.hpp>
 #include <richdem/common/constants.hpp>
 #include <richdem/common/ProgressBar.hpp>
 
@@ -201,15 +202,24 @@ double Perimeter(
 
   //TODO: This algorithm would benefit from GPU integration
   progress.start(arr.size());
+  RDV_LEMMA(per_ends arr.view_width arr.view_height);
   #pragma omp parallel for reduction(+:cell_edges) reduction(+:vertical_edges) reduction(+:horizontal_edges)
   for(int y=0;y<arr.height();y++){
+    RDV_INV(per_sums arr.view_width arr.view_height arr.data.elts arr.no_data perim_type cell_edges vertical_edges horizontal_edges (idx arr.view_width 0 y));
+    RDV_LEMMA(row_start arr.view_width arr.view_height y);
     progress.update( y*arr.width() );
     for(int x=0;x<arr.width();x++){
+      RDV_INV(per_sums arr.view_width arr.view_height arr.data.elts arr.no_data perim_type cell_edges vertical_edges horizontal_edges (idx arr.view_width x y));
+      RDV_GHOST_LET(ce0_ = cell_edges);
+      RDV_GHOST_LET(ve0_ = vertical_edges);
+      RDV_GHOST_LET(he0_ = horizontal_edges);
+      RDV_LEMMA(per_step arr.view_width arr.view_height arr.data.elts arr.no_data x y);
       if(arr.isNoData(x,y))
         continue;
 
       if(perim_type==PerimType::CELL_COUNT){
         for(int n=1;n<=8;n++){
+          RDV_INV(cell_edges = ce0_ && (forall k. 1 <= k < n -> not outside arr.view_width arr.view_height arr.data.elts arr.no_data x y k));
           if(!arr.inGrid(x+d8x[n],y+d8y[n]) || arr.isNoData(x+d8x[n],y+d8y[n])){
             cell_edges++;
             break;
@@ -217,6 +227,7 @@ double Perimeter(
         }
       } else if(perim_type==PerimType::SQUARE_EDGE){
         for(int n=1;n<=8;n++){
+          RDV_INV(vertical_edges = ve0_ + sides arr.view_width arr.view_height arr.data.elts arr.no_data x y 1 5 n && horizontal_edges = he0_ + sides arr.view_width arr.view_height arr.data.elts arr.no_data x y 3 7 n);
           if(!arr.inGrid(x+d8x[n],y+d8y[n]) || arr.isNoData(x+d8x[n],y+d8y[n])){
             if(d8x[n]==0) //Pointing at a cell above or below, so horizontal edge
               horizontal_edges++;
@@ -231,6 +242,9 @@ double Perimeter(
   }
   std::cerr<<"p Succeeded in = "<<progress.stop()<<" s"<<std::endl;
 
+  RDV_ASSERT(per_sums arr.view_width arr.view_height arr.data.elts arr.no_data perim_type cell_edges vertical_edges horizontal_edges (area arr.view_width arr.view_height));
+  RDV_ASSERT(perim_type <> 0 -> horizontal_edges = sumto (up_down arr.view_width arr.view_height arr.data.elts arr.no_data) (area arr.view_width arr.view_height));
+  RDV_ASSERT(perim_type <> 0 -> vertical_edges = sumto (left_right arr.view_width arr.view_height arr.data.elts arr.no_data) (area arr.view_width arr.view_height));
   if(perim_type==PerimType::CELL_COUNT)
     return cell_edges;
   else if(perim_type==PerimType::SQUARE_EDGE)
@@ -272,9 +286,18 @@ void BucketFill(
   constexpr auto dy = get_dy_for_topology<topo>();
   constexpr auto nmax = get_nmax_for_topology<topo>();
 
+  RDV_GHOST_LET(s0_ = set_raster.data.elts);
+  RDV_GHOST_LET(snd_ = set_raster.no_data);
+  RDV_GHOST_LET(seed_ = pure { stkset seeds.elts seeds.len });
+  RDV_LEMMA(bf_start nmax check_raster.view_width check_raster.view_height check_raster.data.elts check_value s0_ set_value seeds.elts seeds.len);
   while(!seeds.empty()){
+    RDV_INV(valid set_raster && samedim set_raster check_raster && set_raster.no_data = snd_);
+    RDV_INV(bf_state nmax check_raster.view_width check_raster.view_height check_raster.data.elts check_value s0_ set_value set_raster.data.elts seed_ seeds.elts seeds.len (-1) 0);
+    RDV_GHOST_LET(l0_ = seeds.len);
+    RDV_GHOST_LET(s1_ = set_raster.data.elts);
     const auto c = seeds.back();
     seeds.pop_back();
+    RDV_LEMMA(bf_pop nmax check_raster.view_width check_raster.view_height check_raster.data.elts check_value s0_ set_value s1_ seed_ seeds.elts l0_);
 
     if(check_raster(c)!=check_value || set_raster(c)==set_value){
       continue;
@@ -285,7 +308,13 @@ void BucketFill(
     int cx,cy;
     check_raster.iToxy(c,cx,cy);
 
+    RDV_LEMMA(bf_fill nmax check_raster.view_width check_raster.view_height check_raster.data.elts check_value s0_ set_value s1_ set_raster.data.elts seed_ seeds.elts seeds.len c);
     for(int n=1;n<=nmax;n++){
+      RDV_INV(valid set_raster && samedim set_raster check_raster && set_raster.no_data = snd_);
+      RDV_INV(bf_state nmax check_raster.view_width check_raster.view_height check_raster.data.elts check_value s0_ set_value set_raster.data.elts seed_ seeds.elts seeds.len c n && bok check_raster.data.elts check_value s0_ set_value c && set_raster.data.elts c = set_value && bf nmax check_raster.view_width check_raster.view_height check_raster.data.elts check_value s0_ set_value seed_ c);
+      RDV_GHOST_LET(e0_ = seeds.elts);
+      RDV_GHOST_LET(l1_ = seeds.len);
+      RDV_LEMMA(bf_skip nmax check_raster.view_width check_raster.view_height check_raster.data.elts check_value s0_ set_value set_raster.data.elts seed_ seeds.elts seeds.len c n);
       if(!check_raster.inGrid(cx+dx[n],cy+dy[n]))
         continue;
 
@@ -293,8 +322,12 @@ void BucketFill(
 
       if(check_raster(ni)==check_value && set_raster(ni)!=set_value)
         seeds.emplace_back(ni);
+      RDV_ASSERT(hasn nmax check_raster.view_width check_raster.view_height c n && ni = nbr nmax check_raster.view_width c n);
+      RDV_LEMMA(bf_next nmax check_raster.view_width check_raster.view_height check_raster.data.elts check_value s0_ set_value set_raster.data.elts seed_ e0_ l1_ seeds.elts seeds.len c n);
     }
+    RDV_LEMMA(bf_end nmax check_raster.view_width check_raster.view_height check_raster.data.elts check_value s0_ set_value set_raster.data.elts seed_ seeds.elts seeds.len c);
   }
+  RDV_LEMMA(bf_final nmax check_raster.view_width check_raster.view_height check_raster.data.elts check_value s0_ set_value set_raster.data.elts seed_ seeds.elts seeds.len);
 }
 
 
@@ -323,13 +356,22 @@ void BucketFillFromEdges(
   std::vector<size_t> seeds;
   seeds.reserve(2*check_raster.width()+2*check_raster.height());
   for(int y=0;y<check_raster.height();y++){
+    RDV_INV(es_y check_raster.view_width check_raster.view_height seeds.elts seeds.len y && seeds.len = 2*y);
+    RDV_GHOST_LET(e0_ = seeds.elts);
+    RDV_GHOST_LET(l0_ = seeds.len);
     seeds.emplace_back(check_raster.xyToI(0,y));
     seeds.emplace_back(check_raster.xyToI(check_raster.width()-1,y));
+    RDV_LEMMA(es_ystep check_raster.view_width check_raster.view_height e0_ l0_ seeds.elts y);
   }
   for(int x=0;x<check_raster.width();x++){
+    RDV_INV(es_y check_raster.view_width check_raster.view_height seeds.elts seeds.len check_raster.view_height && es_x check_raster.view_width check_raster.view_height seeds.elts seeds.len x && 0 <= seeds.len);
+    RDV_GHOST_LET(e0_ = seeds.elts);
+    RDV_GHOST_LET(l0_ = seeds.len);
     seeds.emplace_back(check_raster.xyToI(x,0));
     seeds.emplace_back(check_raster.xyToI(x,check_raster.height()-1));
+    RDV_LEMMA(es_xstep check_raster.view_width check_raster.view_height e0_ l0_ seeds.elts x);
   }
+  RDV_LEMMA(es_final check_raster.view_width check_raster.view_height seeds.elts seeds.len);
   BucketFill<topo>(check_raster, set_raster, check_value, set_value, seeds);
 }
 
-- 
2.43.0


From 62de6ce2d38d41d94a0563fe3bfd14e470f9daa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:04 +0000
Subject: [PATCH 26/32] fix: saveToCache must not read six coefficients from an
 unset geotransform

---
 include/richdem/common/Array2D.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 5be136b..de78c72 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -233,7 +233,10 @@ class Array2D {
     out.write(reinterpret_cast<const char*>(&num_data_cells), sizeof(i_t));
     out.write(reinterpret_cast<const char*>(&no_data),        sizeof(T  ));
 
-    out.write(reinterpret_cast<const char*>(geotransform.data()), 6*sizeof(double));
+    //The format holds six coefficients. An unset geotransform is stored as zeros.
+    std::vector<double> coefficients = geotransform;
+    coefficients.resize(6);
+    out.write(reinterpret_cast<const char*>(coefficients.data()), 6*sizeof(double));
     std::string::size_type projection_size = projection.size();
     out.write(reinterpret_cast<const char*>(&projection_size), sizeof(std::string::size_type));
     out.write(reinterpret_cast<const char*>(projection.data()), projection.size()*sizeof(const char));
@@ -269,6 +272,8 @@ class Array2D {
     in.read(reinterpret_cast<char*>(&no_data),        sizeof(T  ));
     geotransform.resize(6);
     in.read(reinterpret_cast<char*>(geotransform.data()), 6*sizeof(double));
+    if(geotransform==std::vector<double>(6))
+      geotransform.clear(); //Was unset when the raster was saved
 
     std::string::size_type projection_size;
     in.read(reinterpret_cast<char*>(&projection_size), sizeof(std::string::size_type));
-- 
2.43.0


From 35b7f40667123ea314f2aacfce698744adfa9ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:04 +0000
Subject: [PATCH 27/32] fix: saveToCache must report a cache file that could
 not be written, dumpData purges the raster afterwards

---
 include/richdem/common/Array2D.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index de78c72..ff4a408 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -242,6 +242,11 @@ class Array2D {
     out.write(reinterpret_cast<const char*>(projection.data()), projection.size()*sizeof(const char));
 
     out.write(reinterpret_cast<const char*>(_data.data()), size()*sizeof(T));
+
+    out.flush();
+    if(!out.good()){
+      throw std::runtime_error("Failed to write cache file '"+filename+"'.");
+    }
   }
 
  private:
-- 
2.43.0


From 703d9f8520a1a5dc075f8114c4ccfa5152d1b6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:43 +0000
Subject: [PATCH 28/32] verify: contracts for the terrain attributes

---
 .../richdem/methods/terrain_attributes.hpp    | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/richdem/methods/terrain_attributes.hpp b/include/richdem/methods/terrain_attributes.hpp
index 97635a6..05618cc 100644
--- a/include/richdem/methods/terrain_attributes.hpp
+++ b/include/richdem/methods/terrain_attributes.hpp
@@ -4,6 +4,7 @@
 #include <richdem/common/logger.hpp>
 #include <richdem/common/Array2D.hpp>
 #include <richdem/common/constants.hpp>
+#include <richdem/common/contracts.hpp>
 #include <richdem/common/ProgressBar.hpp>
 
 namespace richdem {
@@ -190,6 +191,16 @@ static inline TA_Setup_Vars TerrainSetup(const Array2D<T> &elevations, const int
   if(elevations.inGrid(x+1,y  ) && elevations(x+1,y  )!=elevations.noData()) tsv.f = elevations(x+1,y  );
   if(elevations.inGrid(x+1,y+1) && elevations(x+1,y+1)!=elevations.noData()) tsv.i = elevations(x+1,y+1);
 
+  RDV_ASSERT(tsv.ta = nb1 elevations.data.elts elevations.no_data elevations.view_width elevations.view_height x y (-1) (-1));
+  RDV_ASSERT(tsv.tb = nb1 elevations.data.elts elevations.no_data elevations.view_width elevations.view_height x y (0) (-1));
+  RDV_ASSERT(tsv.tc = nb1 elevations.data.elts elevations.no_data elevations.view_width elevations.view_height x y (1) (-1));
+  RDV_ASSERT(tsv.td = nb1 elevations.data.elts elevations.no_data elevations.view_width elevations.view_height x y (-1) (0));
+  RDV_ASSERT(tsv.te = nb1 elevations.data.elts elevations.no_data elevations.view_width elevations.view_height x y (0) (0));
+  RDV_ASSERT(tsv.tf = nb1 elevations.data.elts elevations.no_data elevations.view_width elevations.view_height x y (1) (0));
+  RDV_ASSERT(tsv.tg = nb1 elevations.data.elts elevations.no_data elevations.view_width elevations.view_height x y (-1) (1));
+  RDV_ASSERT(tsv.th = nb1 elevations.data.elts elevations.no_data elevations.view_width elevations.view_height x y (0) (1));
+  RDV_ASSERT(tsv.ti = nb1 elevations.data.elts elevations.no_data elevations.view_width elevations.view_height x y (1) (1));
+
   tsv.a *= zscale;
   tsv.b *= zscale;
   tsv.c *= zscale;
@@ -337,18 +348,24 @@ static inline void TerrainProcessor(F func, const Array2D<T> &elevations, const
   if(elevations.getCellLengthX()!=elevations.getCellLengthY())
     RDLOG_WARN<<"Cell X and Y dimensions are not equal!";
 
+  RDV_GHOST_LET(nd_ = output.no_data);
   output.resize(elevations);
   ProgressBar progress;
 
   progress.start(elevations.size());
   #pragma omp parallel for
   for(int y=0;y<elevations.height();y++){
+    RDV_INV(0 <= y && valid output && samedim output elevations && output.no_data = nd_);
+    RDV_INV(attr_done func elevations.data.elts elevations.no_data elevations.view_width elevations.view_height zscale output.data.elts output.no_data 0 y);
     progress.update(y*elevations.width());
-    for(int x=0;x<elevations.width();x++)
+    for(int x=0;x<elevations.width();x++){
+      RDV_INV(0 <= x && valid output && samedim output elevations && output.no_data = nd_);
+      RDV_INV(attr_done func elevations.data.elts elevations.no_data elevations.view_width elevations.view_height zscale output.data.elts output.no_data x y);
       if(elevations.isNoData(x,y))
         output(x,y) = output.noData();
       else
         output(x,y) = func(elevations,x,y,zscale);
+    }
   }
   RDLOG_TIME_USE<<"Wall-time = "<<progress.stop();
 }
-- 
2.43.0


From 53703b84de6f41a04c7333655b9aef273e5201e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:01 +0000
Subject: [PATCH 29/32] fix: Rho8/Rho4 must let a cell flow to its lower
 neighbour when the random draw is zero

---
 include/richdem/flowmet/Fairfield1991.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/richdem/flowmet/Fairfield1991.hpp b/include/richdem/flowmet/Fairfield1991.hpp
index 3452927..63267cc 100644
--- a/include/richdem/flowmet/Fairfield1991.hpp
+++ b/include/richdem/flowmet/Fairfield1991.hpp
@@ -56,13 +56,15 @@ void FM_FairfieldLeymarie(const Array2D<elev_t> &elevations, Array3D<float> &pro
       if(ne>=e)
         continue;
 
-      double rho_slope = (e-ne);
+      double rho_slope = static_cast<double>(e)-static_cast<double>(ne);
       if(topo==Topology::D8 && n8_diag[n])
         rho_slope *= 1/(2-uniform_rand_real(0,1));
       else if(topo==Topology::D4 && (n==D4_NORTH || n==D4_SOUTH))
         rho_slope *= 1/(1/uniform_rand_real(0,1)-1);
 
-      if(rho_slope>greatest_slope){
+      //A draw of zero makes the slope towards a lower neighbour zero: it still
+      //beats having no neighbour at all
+      if(greatest_n==0 || rho_slope>greatest_slope){
         greatest_n     = n;
         greatest_slope = rho_slope;
       }
-- 
2.43.0


From f5c1b8d016d5adf85fc6c73018c2cfcefa033cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:01 +0000
Subject: [PATCH 30/32] fix: Freeman and Holmgren proportions must not overflow
 or vanish for large exponents

---
 include/richdem/flowmet/Freeman1991.hpp  | 26 ++++++++++++++++++++--
 include/richdem/flowmet/Holmgren1994.hpp | 28 +++++++++++++++++++++---
 2 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/include/richdem/flowmet/Freeman1991.hpp b/include/richdem/flowmet/Freeman1991.hpp
index f6b9013..9e221ee 100644
--- a/include/richdem/flowmet/Freeman1991.hpp
+++ b/include/richdem/flowmet/Freeman1991.hpp
@@ -40,6 +40,28 @@ void FM_Freeman(
 
     const E e    = elevations(x,y);
 
+    //Steepest gradient: the others are taken relative to it, so that raising
+    //them to a power neither overflows nor makes all of them vanish
+    double max_grad = 0;
+    for(int n=1;n<=8;n++){
+      const int nx = x+d8x[n];
+      const int ny = y+d8y[n];
+
+      if(!elevations.inGrid(nx,ny))
+        continue;
+      if(elevations.isNoData(nx,ny))
+        continue;
+
+      const E ne = elevations(nx,ny);
+
+      if(ne<e){
+        const double rise = static_cast<double>(e)-static_cast<double>(ne);
+        const double grad = rise/dr[n];
+        if(grad>max_grad)
+          max_grad = grad;
+      }
+    }
+
     double C = 0;
     for(int n=1;n<=8;n++){
       const int nx = x+d8x[n];
@@ -53,10 +75,10 @@ void FM_Freeman(
       const E ne = elevations(nx,ny);
 
       if(ne<e){
-        const double rise = e-ne;
+        const double rise = static_cast<double>(e)-static_cast<double>(ne);
         const double run  = dr[n];
         const double grad = rise/run;
-        const auto cval   = std::pow(grad,xparam);
+        const auto cval   = std::pow(grad/max_grad,xparam);
         props(x,y,n)      = cval;
         C                += cval;
       }
diff --git a/include/richdem/flowmet/Holmgren1994.hpp b/include/richdem/flowmet/Holmgren1994.hpp
index bc8e84b..48178ca 100644
--- a/include/richdem/flowmet/Holmgren1994.hpp
+++ b/include/richdem/flowmet/Holmgren1994.hpp
@@ -44,6 +44,28 @@ void FM_Holmgren(
 
     const E e = elevations(x,y);
 
+    //Steepest gradient: the others are taken relative to it, so that raising
+    //them to a power neither overflows nor makes all of them vanish
+    double max_grad = 0;
+    for(int n=1;n<=8;n++){
+      const int nx = x+d8x[n];
+      const int ny = y+d8y[n];
+
+      if(!elevations.inGrid(nx,ny))
+        continue;
+      if(elevations.isNoData(nx,ny))
+        continue;
+
+      const E ne = elevations(nx,ny);
+
+      if(ne<e){
+        const double rise = static_cast<double>(e)-static_cast<double>(ne);
+        const double grad = rise/dr[n]*L[n];
+        if(grad>max_grad)
+          max_grad = grad;
+      }
+    }
+
     double C = 0;
 
     for(int n=1;n<=8;n++){
@@ -58,10 +80,10 @@ void FM_Holmgren(
       const E ne = elevations(nx,ny);
 
       if(ne<e){
-        const double rise = e-ne;
+        const double rise = static_cast<double>(e)-static_cast<double>(ne);
         const double run  = dr[n];
-        const double grad = rise/run;
-        props(x,y,n)      = std::pow(grad * L[n],xparam);
+        const double grad = rise/run*L[n];
+        props(x,y,n)      = std::pow(grad/max_grad,xparam);
         C                += props(x,y,n);
       }
     }
-- 
2.43.0


From 5d8598c5cb4daaf1f831cccdee358ffd23b2d82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:57 +0000
Subject: [PATCH 31/32] fix: D-infinity must give the larger share to the
 neighbour closer to the flow direction

---
 include/richdem/flowmet/Tarboton1997.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/richdem/flowmet/Tarboton1997.hpp b/include/richdem/flowmet/Tarboton1997.hpp
index 54bf8dd..5f2aaed 100644
--- a/include/richdem/flowmet/Tarboton1997.hpp
+++ b/include/richdem/flowmet/Tarboton1997.hpp
@@ -136,8 +136,10 @@ void FM_Tarboton(
     } else if(rmax==dang){
       props(x,y,nwrap(nmax+1)) = 1;
     } else {
-      props(x,y,nmax)          = rmax/(M_PI/4.);
-      props(x,y,nwrap(nmax+1)) = 1-rmax/(M_PI/4.);      
+      //rmax is the angle from the direction of neighbour nmax: the closer the
+      //flow is to a neighbour the more of it the neighbour gets
+      props(x,y,nmax)          = 1-rmax/(M_PI/4.);
+      props(x,y,nwrap(nmax+1)) = rmax/(M_PI/4.);
     }
   }
   progress.stop();
-- 
2.43.0


From d2ed0866818c817fff3c1f0582eec1e4b7024977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:27 +0000
Subject: [PATCH 32/32] verify: contracts for the flow metrics

---
 include/richdem/flowmet/Fairfield1991.hpp  | 31 ++++++++++--
 include/richdem/flowmet/Freeman1991.hpp    | 58 ++++++++++++++++++++--
 include/richdem/flowmet/Holmgren1994.hpp   | 58 ++++++++++++++++++++--
 include/richdem/flowmet/OCallaghan1984.hpp | 34 +++++++++++--
 include/richdem/flowmet/Tarboton1997.hpp   | 40 +++++++++++++--
 5 files changed, 206 insertions(+), 15 deletions(-)

diff --git a/include/richdem/flowmet/Fairfield1991.hpp b/include/richdem/flowmet/Fairfield1991.hpp
index 63267cc..55fd4f7 100644
--- a/include/richdem/flowmet/Fairfield1991.hpp
+++ b/include/richdem/flowmet/Fairfield1991.hpp
@@ -2,6 +2,7 @@
 #define _richdem_Fairfield1991_hpp_
 
 #include <richdem/common/constants.hpp>
+#include <richdem/common/contracts.hpp>
 #include <richdem/common/logger.hpp>
 #include <richdem/common/Array2D.hpp>
 #include <richdem/common/Array3D.hpp>
@@ -26,23 +27,40 @@ void FM_FairfieldLeymarie(const Array2D<elev_t> &elevations, Array3D<float> &pro
   progress.start(elevations.size());
 
   #pragma omp parallel for collapse(2)
-  for(int y=0;y<elevations.height();y++)
+  for(int y=0;y<elevations.height();y++){
+  RDV_INV(0 <= y && valid3 props && props.pw = elevations.view_width && props.ph = elevations.view_height && props.pno_data = -. 2.0);
+  RDV_INV(sd_upto False nmax elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts 0 y);
+  RDV_INV(fresh_from elevations.view_width elevations.view_height props.pdata.elts 0 y);
   for(int x=0;x<elevations.width();x++){
+    RDV_INV(0 <= x);
+    RDV_INV(0 <= y && valid3 props && props.pw = elevations.view_width && props.ph = elevations.view_height && props.pno_data = -. 2.0);
+    RDV_INV(sd_upto False nmax elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts x y);
+    RDV_INV(fresh_from elevations.view_width elevations.view_height props.pdata.elts x y);
+    RDV_GHOST_LET(p0_ = props.pdata.elts);
+    RDV_LEMMA(use_idx elevations.view_width x y);
+    RDV_LEMMA(fresh_here elevations.view_width elevations.view_height p0_ x y);
     ++progress;
 
     if(elevations.isNoData(x,y)){
       props(x,y,0) = NO_DATA_GEN;
+      RDV_LEMMA(fresh_step elevations.view_width elevations.view_height p0_ props.pdata.elts x y);
+      RDV_LEMMA(sd_step False nmax elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p0_ props.pdata.elts x y);
       continue;
     }
 
-    if(elevations.isEdgeCell(x,y))
+    if(elevations.isEdgeCell(x,y)){
+      RDV_LEMMA(fresh_step elevations.view_width elevations.view_height p0_ props.pdata.elts x y);
+      RDV_LEMMA(sd_step False nmax elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p0_ props.pdata.elts x y);
       continue;
+    }
 
     const elev_t e    = elevations(x,y);
 
     int    greatest_n     = 0; //TODO: Use a constant
     double greatest_slope = 0;
     for(int n=1;n<=nmax;n++){
+      RDV_INV(0 <= greatest_n < n);
+      RDV_INV(if greatest_n = 0 then forall k. 1 <= k < n -> not lower nmax elevations.view_width elevations.view_height elevations.data.elts elevations.no_data x y k else lower nmax elevations.view_width elevations.view_height elevations.data.elts elevations.no_data x y greatest_n);
       const int nx = x+dx[n];
       const int ny = y+dy[n];
 
@@ -70,13 +88,20 @@ void FM_FairfieldLeymarie(const Array2D<elev_t> &elevations, Array3D<float> &pro
       }
     }
 
-    if(greatest_n==0)
+    if(greatest_n==0){
+      RDV_LEMMA(fresh_step elevations.view_width elevations.view_height p0_ props.pdata.elts x y);
+      RDV_LEMMA(sd_step False nmax elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p0_ props.pdata.elts x y);
       continue;
+    }
 
     props(x,y,0)          = HAS_FLOW_GEN;
     props(x,y,greatest_n) = 1;
+    RDV_ASSERT(single False nmax elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts x y greatest_n);
 
     assert(elevations(x,y)>=elevations(x+dx[greatest_n],y+dy[greatest_n])); //Ensure flow goes downhill
+    RDV_LEMMA(fresh_step elevations.view_width elevations.view_height p0_ props.pdata.elts x y);
+    RDV_LEMMA(sd_step False nmax elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p0_ props.pdata.elts x y);
+  }
   }
   progress.stop();
 }
diff --git a/include/richdem/flowmet/Freeman1991.hpp b/include/richdem/flowmet/Freeman1991.hpp
index 9e221ee..b9f4111 100644
--- a/include/richdem/flowmet/Freeman1991.hpp
+++ b/include/richdem/flowmet/Freeman1991.hpp
@@ -2,6 +2,7 @@
 #define _richdem_Freeman1991_hpp_
 
 #include <richdem/common/constants.hpp>
+#include <richdem/common/contracts.hpp>
 #include <richdem/common/logger.hpp>
 #include <richdem/common/Array2D.hpp>
 #include <richdem/common/Array3D.hpp>
@@ -26,24 +27,42 @@ void FM_Freeman(
   progress.start(elevations.size());
 
   #pragma omp parallel for collapse(2)
-  for(int y=0;y<elevations.height();y++)
+  for(int y=0;y<elevations.height();y++){
+  RDV_INV(0 <= y && valid3 props && props.pw = elevations.view_width && props.ph = elevations.view_height && props.pno_data = -. 2.0);
+  RDV_INV(md_upto False xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts 0 y);
+  RDV_INV(fresh_from elevations.view_width elevations.view_height props.pdata.elts 0 y);
   for(int x=0;x<elevations.width();x++){
+    RDV_INV(0 <= x);
+    RDV_INV(0 <= y && valid3 props && props.pw = elevations.view_width && props.ph = elevations.view_height && props.pno_data = -. 2.0);
+    RDV_INV(md_upto False xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts x y);
+    RDV_INV(fresh_from elevations.view_width elevations.view_height props.pdata.elts x y);
+    RDV_GHOST_LET(p0_ = props.pdata.elts);
+    RDV_LEMMA(use_idx elevations.view_width x y);
+    RDV_LEMMA(fresh_here elevations.view_width elevations.view_height p0_ x y);
     ++progress;
 
     if(elevations.isNoData(x,y)){
       props(x,y,0) = NO_DATA_GEN;
+      RDV_LEMMA(fresh_step elevations.view_width elevations.view_height p0_ props.pdata.elts x y);
+      RDV_LEMMA(md_step False xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p0_ props.pdata.elts x y);
       continue;
     }
 
-    if(elevations.isEdgeCell(x,y))
+    if(elevations.isEdgeCell(x,y)){
+      RDV_LEMMA(fresh_step elevations.view_width elevations.view_height p0_ props.pdata.elts x y);
+      RDV_LEMMA(md_step False xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p0_ props.pdata.elts x y);
       continue;
+    }
 
     const E e    = elevations(x,y);
 
     //Steepest gradient: the others are taken relative to it, so that raising
     //them to a power neither overflows nor makes all of them vanish
     double max_grad = 0;
+    RDV_GHOST_LET(ref best_ = 0);
     for(int n=1;n<=8;n++){
+      RDV_INV(greatest False elevations.view_width elevations.view_height elevations.data.elts elevations.no_data x y max_grad n);
+      RDV_INV(max_grad <> 0.0 -> lower 8 elevations.view_width elevations.view_height elevations.data.elts elevations.no_data x y best_ && gr False elevations.view_width elevations.data.elts x y best_ = max_grad);
       const int nx = x+d8x[n];
       const int ny = y+d8y[n];
 
@@ -57,13 +76,29 @@ void FM_Freeman(
       if(ne<e){
         const double rise = static_cast<double>(e)-static_cast<double>(ne);
         const double grad = rise/dr[n];
-        if(grad>max_grad)
+        RDV_ASSERT(grad = gr False elevations.view_width elevations.data.elts x y n);
+        RDV_LEMMA(gr_pos False elevations.view_width elevations.data.elts x y n);
+        if(grad>max_grad){
           max_grad = grad;
+          RDV_GHOST(best_ <- n);
+        }
       }
     }
 
     double C = 0;
+    RDV_GHOST_LET(ref wt_ = zeros);
+    RDV_GHOST_LET(ref wf_ = zeros);
+    RDV_LEMMA(raw_start False xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p0_ x y max_grad);
     for(int n=1;n<=8;n++){
+      RDV_INV(valid3 props && props.pw = elevations.view_width && props.ph = elevations.view_height && props.pno_data = -. 2.0);
+      RDV_INV(raw_upto False xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts x y max_grad wt_ n);
+      RDV_INV(rounded wt_ wf_);
+      RDV_INV(frame1 (idx elevations.view_width x y) p0_ props.pdata.elts && pv props.pdata.elts (idx elevations.view_width x y) 0 = -. 1.0);
+      RDV_INV(C = wsum wt_ n);
+      RDV_LEMMA(raw_skip False xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts x y max_grad wt_ wf_ n);
+      RDV_GHOST_LET(p1_ = props.pdata.elts);
+      RDV_GHOST_LET(wt0_ = wt_);
+      RDV_GHOST_LET(wf0_ = wf_);
       const int nx = x+d8x[n];
       const int ny = y+d8y[n];
 
@@ -81,22 +116,39 @@ void FM_Freeman(
         const auto cval   = std::pow(grad/max_grad,xparam);
         props(x,y,n)      = cval;
         C                += cval;
+        RDV_ASSERT(grad = gr False elevations.view_width elevations.data.elts x y n);
+        RDV_GHOST(wt_ <- Map.set wt_ n (powl (quotl grad max_grad) xparam); wf_ <- Map.set wf_ n (to_f32 (powl (quotl grad max_grad) xparam)));
+        RDV_LEMMA(raw_set False xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p1_ props.pdata.elts x y max_grad wt0_ wt_ n);
+        RDV_LEMMA(rounded_set wt0_ wt_ wf0_ wf_ n (powl (quotl grad max_grad) xparam));
       }
     }
+    RDV_LEMMA(raw_total False xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts x y max_grad wt_ wf_ best_);
+    RDV_GHOST_LET(c_ = C);
+    RDV_GHOST_LET(p2_ = props.pdata.elts);
 
     if(C>0){
       props(x,y,0) = HAS_FLOW_GEN;
 
       C = 1/C; //TODO
 
+      RDV_LEMMA(fin_start False xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p2_ props.pdata.elts x y max_grad wt_);
       for(int n=1;n<=8;n++){
+        RDV_INV(valid3 props && props.pw = elevations.view_width && props.ph = elevations.view_height && props.pno_data = -. 2.0);
+        RDV_INV(fin_upto elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts x y wt_ (wsum wt_ 9) n);
+        RDV_INV(frame1 (idx elevations.view_width x y) p0_ props.pdata.elts && pv props.pdata.elts (idx elevations.view_width x y) 0 = 0.0);
+        RDV_GHOST_LET(p3_ = props.pdata.elts);
         auto &this_por = props(x,y,n);
         if(this_por>0)
           this_por *= C;
         else
           this_por = 0;
+        RDV_LEMMA(fin_set elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p3_ props.pdata.elts x y wt_ c_ C n (props.pdata.elts (9 * idx elevations.view_width x y + n)));
       }
+      RDV_LEMMA(fin_law False xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p2_ props.pdata.elts x y max_grad wt_ best_);
     }
+    RDV_LEMMA(fresh_step elevations.view_width elevations.view_height p0_ props.pdata.elts x y);
+    RDV_LEMMA(md_step False xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p0_ props.pdata.elts x y);
+  }
   }
   progress.stop();
 }
diff --git a/include/richdem/flowmet/Holmgren1994.hpp b/include/richdem/flowmet/Holmgren1994.hpp
index 48178ca..b8b6351 100644
--- a/include/richdem/flowmet/Holmgren1994.hpp
+++ b/include/richdem/flowmet/Holmgren1994.hpp
@@ -2,6 +2,7 @@
 #define _richdem_Holmgren1994_
 
 #include <richdem/common/constants.hpp>
+#include <richdem/common/contracts.hpp>
 #include <richdem/common/logger.hpp>
 #include <richdem/common/Array2D.hpp>
 #include <richdem/common/Array3D.hpp>
@@ -30,24 +31,42 @@ void FM_Holmgren(
   progress.start(elevations.size());
 
   #pragma omp parallel for collapse(2)
-  for(int y=0;y<elevations.height();y++)
+  for(int y=0;y<elevations.height();y++){
+  RDV_INV(0 <= y && valid3 props && props.pw = elevations.view_width && props.ph = elevations.view_height && props.pno_data = -. 2.0);
+  RDV_INV(md_upto True xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts 0 y);
+  RDV_INV(fresh_from elevations.view_width elevations.view_height props.pdata.elts 0 y);
   for(int x=0;x<elevations.width();x++){
+    RDV_INV(0 <= x);
+    RDV_INV(0 <= y && valid3 props && props.pw = elevations.view_width && props.ph = elevations.view_height && props.pno_data = -. 2.0);
+    RDV_INV(md_upto True xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts x y);
+    RDV_INV(fresh_from elevations.view_width elevations.view_height props.pdata.elts x y);
+    RDV_GHOST_LET(p0_ = props.pdata.elts);
+    RDV_LEMMA(use_idx elevations.view_width x y);
+    RDV_LEMMA(fresh_here elevations.view_width elevations.view_height p0_ x y);
     ++progress;
 
     if(elevations.isNoData(x,y)){
       props(x,y,0) = NO_DATA_GEN;
+      RDV_LEMMA(fresh_step elevations.view_width elevations.view_height p0_ props.pdata.elts x y);
+      RDV_LEMMA(md_step True xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p0_ props.pdata.elts x y);
       continue;
     }
 
-    if(elevations.isEdgeCell(x,y))
+    if(elevations.isEdgeCell(x,y)){
+      RDV_LEMMA(fresh_step elevations.view_width elevations.view_height p0_ props.pdata.elts x y);
+      RDV_LEMMA(md_step True xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p0_ props.pdata.elts x y);
       continue;
+    }
 
     const E e = elevations(x,y);
 
     //Steepest gradient: the others are taken relative to it, so that raising
     //them to a power neither overflows nor makes all of them vanish
     double max_grad = 0;
+    RDV_GHOST_LET(ref best_ = 0);
     for(int n=1;n<=8;n++){
+      RDV_INV(greatest True elevations.view_width elevations.view_height elevations.data.elts elevations.no_data x y max_grad n);
+      RDV_INV(max_grad <> 0.0 -> lower 8 elevations.view_width elevations.view_height elevations.data.elts elevations.no_data x y best_ && gr True elevations.view_width elevations.data.elts x y best_ = max_grad);
       const int nx = x+d8x[n];
       const int ny = y+d8y[n];
 
@@ -61,14 +80,30 @@ void FM_Holmgren(
       if(ne<e){
         const double rise = static_cast<double>(e)-static_cast<double>(ne);
         const double grad = rise/dr[n]*L[n];
-        if(grad>max_grad)
+        RDV_ASSERT(grad = gr True elevations.view_width elevations.data.elts x y n);
+        RDV_LEMMA(gr_pos True elevations.view_width elevations.data.elts x y n);
+        if(grad>max_grad){
           max_grad = grad;
+          RDV_GHOST(best_ <- n);
+        }
       }
     }
 
     double C = 0;
+    RDV_GHOST_LET(ref wt_ = zeros);
+    RDV_GHOST_LET(ref wf_ = zeros);
+    RDV_LEMMA(raw_start True xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p0_ x y max_grad);
 
     for(int n=1;n<=8;n++){
+      RDV_INV(valid3 props && props.pw = elevations.view_width && props.ph = elevations.view_height && props.pno_data = -. 2.0);
+      RDV_INV(raw_upto True xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts x y max_grad wt_ n);
+      RDV_INV(rounded wt_ wf_);
+      RDV_INV(frame1 (idx elevations.view_width x y) p0_ props.pdata.elts && pv props.pdata.elts (idx elevations.view_width x y) 0 = -. 1.0);
+      RDV_INV(C = wsum wf_ n);
+      RDV_LEMMA(raw_skip True xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts x y max_grad wt_ wf_ n);
+      RDV_GHOST_LET(p1_ = props.pdata.elts);
+      RDV_GHOST_LET(wt0_ = wt_);
+      RDV_GHOST_LET(wf0_ = wf_);
       const int nx = x+d8x[n];
       const int ny = y+d8y[n];
 
@@ -85,21 +120,38 @@ void FM_Holmgren(
         const double grad = rise/run*L[n];
         props(x,y,n)      = std::pow(grad/max_grad,xparam);
         C                += props(x,y,n);
+        RDV_ASSERT(grad = gr True elevations.view_width elevations.data.elts x y n);
+        RDV_GHOST(wt_ <- Map.set wt_ n (powl (quotl grad max_grad) xparam); wf_ <- Map.set wf_ n (to_f32 (powl (quotl grad max_grad) xparam)));
+        RDV_LEMMA(raw_set True xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p1_ props.pdata.elts x y max_grad wt0_ wt_ n);
+        RDV_LEMMA(rounded_set wt0_ wt_ wf0_ wf_ n (powl (quotl grad max_grad) xparam));
       }
     }
+    RDV_LEMMA(raw_total True xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts x y max_grad wt_ wf_ best_);
+    RDV_GHOST_LET(c_ = C);
+    RDV_GHOST_LET(p2_ = props.pdata.elts);
 
     if(C>0){
       props(x,y,0) = HAS_FLOW_GEN;
 
       C = 1/C;
 
+      RDV_LEMMA(fin_start True xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p2_ props.pdata.elts x y max_grad wt_);
       for(int n=1;n<=8;n++){
+        RDV_INV(valid3 props && props.pw = elevations.view_width && props.ph = elevations.view_height && props.pno_data = -. 2.0);
+        RDV_INV(fin_upto elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts x y wt_ (wsum wt_ 9) n);
+        RDV_INV(frame1 (idx elevations.view_width x y) p0_ props.pdata.elts && pv props.pdata.elts (idx elevations.view_width x y) 0 = 0.0);
+        RDV_GHOST_LET(p3_ = props.pdata.elts);
         if(props(x,y,n)>0)
           props(x,y,n) *= C;
         else
           props(x,y,n) = 0;
+        RDV_LEMMA(fin_set elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p3_ props.pdata.elts x y wt_ c_ C n (props.pdata.elts (9 * idx elevations.view_width x y + n)));
       }
+      RDV_LEMMA(fin_law True xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p2_ props.pdata.elts x y max_grad wt_ best_);
     }
+    RDV_LEMMA(fresh_step elevations.view_width elevations.view_height p0_ props.pdata.elts x y);
+    RDV_LEMMA(md_step True xparam elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p0_ props.pdata.elts x y);
+  }
   }
   progress.stop();
 }
diff --git a/include/richdem/flowmet/OCallaghan1984.hpp b/include/richdem/flowmet/OCallaghan1984.hpp
index 148e5d9..b912ba6 100644
--- a/include/richdem/flowmet/OCallaghan1984.hpp
+++ b/include/richdem/flowmet/OCallaghan1984.hpp
@@ -2,6 +2,7 @@
 #define _richdem_OCallaghan1984_hpp_
 
 #include <richdem/common/constants.hpp>
+#include <richdem/common/contracts.hpp>
 #include <richdem/common/logger.hpp>
 #include <richdem/common/Array2D.hpp>
 #include <richdem/common/Array3D.hpp>
@@ -30,23 +31,43 @@ void FM_OCallaghan(
   progress.start(elevations.size());
 
   #pragma omp parallel for collapse(2)
-  for(int y=0;y<elevations.height();y++)
+  for(int y=0;y<elevations.height();y++){
+  RDV_INV(0 <= y && valid3 props && props.pw = elevations.view_width && props.ph = elevations.view_height && props.pno_data = -. 2.0);
+  RDV_INV(sd_upto True nmax elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts 0 y);
+  RDV_INV(fresh_from elevations.view_width elevations.view_height props.pdata.elts 0 y);
   for(int x=0;x<elevations.width();x++){
+    RDV_INV(0 <= x);
+    RDV_INV(0 <= y && valid3 props && props.pw = elevations.view_width && props.ph = elevations.view_height && props.pno_data = -. 2.0);
+    RDV_INV(sd_upto True nmax elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts x y);
+    RDV_INV(fresh_from elevations.view_width elevations.view_height props.pdata.elts x y);
+    RDV_GHOST_LET(p0_ = props.pdata.elts);
+    RDV_LEMMA(use_idx elevations.view_width x y);
+    RDV_LEMMA(fresh_here elevations.view_width elevations.view_height p0_ x y);
     ++progress;
 
     if(elevations.isNoData(x,y)){
       props(x,y,0) = NO_DATA_GEN;
+      RDV_LEMMA(fresh_step elevations.view_width elevations.view_height p0_ props.pdata.elts x y);
+      RDV_LEMMA(sd_step True nmax elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p0_ props.pdata.elts x y);
       continue;
     }
 
-    if(elevations.isEdgeCell(x,y))
+    if(elevations.isEdgeCell(x,y)){
+      RDV_LEMMA(fresh_step elevations.view_width elevations.view_height p0_ props.pdata.elts x y);
+      RDV_LEMMA(sd_step True nmax elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p0_ props.pdata.elts x y);
       continue;
+    }
 
     const elev_t   e  = elevations(x,y);
 
     int lowest_n      = 0;
     elev_t   lowest_n_elev = std::numeric_limits<elev_t>::max();
     for(int n=1;n<=nmax;n++){
+      RDV_INV(0 <= lowest_n < n);
+      RDV_INV(if lowest_n = 0 then forall k. 1 <= k < n -> not lower nmax elevations.view_width elevations.view_height elevations.data.elts elevations.no_data x y k else lower nmax elevations.view_width elevations.view_height elevations.data.elts elevations.no_data x y lowest_n);
+      RDV_INV(lowest_n <> 0 -> lowest_n_elev = elevations.data.elts (idx elevations.view_width (x + tx nmax lowest_n) (y + ty nmax lowest_n)));
+      RDV_INV(lowest_n <> 0 -> forall k. 1 <= k < n -> lower nmax elevations.view_width elevations.view_height elevations.data.elts elevations.no_data x y k -> lowest_n_elev <=. elevations.data.elts (idx elevations.view_width (x + tx nmax k) (y + ty nmax k)));
+      RDV_INV(lowest_n = 0 -> lowest_n_elev = flt_maxl);
       const int nx = x + dx[n];
       const int ny = y + dy[n];
 
@@ -64,14 +85,21 @@ void FM_OCallaghan(
       }
     }
 
-    if(lowest_n==0)
+    if(lowest_n==0){
+      RDV_LEMMA(fresh_step elevations.view_width elevations.view_height p0_ props.pdata.elts x y);
+      RDV_LEMMA(sd_step True nmax elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p0_ props.pdata.elts x y);
       continue;
+    }
 
     props(x,y,0) = HAS_FLOW_GEN;
 
     assert(elevations(ci)>=elevations(ci+elevations.nshift(lowest_n))); //Ensure flow goes downhill
 
     props(x,y,lowest_n) = 1;
+    RDV_ASSERT(single True nmax elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts x y lowest_n);
+    RDV_LEMMA(fresh_step elevations.view_width elevations.view_height p0_ props.pdata.elts x y);
+    RDV_LEMMA(sd_step True nmax elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p0_ props.pdata.elts x y);
+  }
   }
   progress.stop();
 }
diff --git a/include/richdem/flowmet/Tarboton1997.hpp b/include/richdem/flowmet/Tarboton1997.hpp
index 5f2aaed..ee24e1a 100644
--- a/include/richdem/flowmet/Tarboton1997.hpp
+++ b/include/richdem/flowmet/Tarboton1997.hpp
@@ -2,6 +2,7 @@
 #define _flowdirs_Tarboton1997_hpp_
 
 #include <richdem/common/constants.hpp>
+#include <richdem/common/contracts.hpp>
 #include <richdem/common/logger.hpp>
 #include <richdem/common/Array2D.hpp>
 #include <richdem/common/Array3D.hpp>
@@ -56,23 +57,41 @@ void FM_Tarboton(
   progress.start(elevations.size());
 
   #pragma omp parallel for collapse(2)
-  for(int y=0;y<elevations.height();y++)
+  for(int y=0;y<elevations.height();y++){
+  RDV_INV(0 <= y && valid3 props && props.pw = elevations.view_width && props.ph = elevations.view_height && props.pno_data = -. 2.0);
+  RDV_INV(tb_upto elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts 0 y);
+  RDV_INV(fresh_from elevations.view_width elevations.view_height props.pdata.elts 0 y);
   for(int x=0;x<elevations.width();x++){
+    RDV_INV(0 <= x);
+    RDV_INV(0 <= y && valid3 props && props.pw = elevations.view_width && props.ph = elevations.view_height && props.pno_data = -. 2.0);
+    RDV_INV(tb_upto elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts x y);
+    RDV_INV(fresh_from elevations.view_width elevations.view_height props.pdata.elts x y);
+    RDV_GHOST_LET(p0_ = props.pdata.elts);
+    RDV_LEMMA(use_idx elevations.view_width x y);
+    RDV_LEMMA(fresh_here elevations.view_width elevations.view_height p0_ x y);
     ++progress;
 
     if(elevations.isNoData(x,y)){
       props(x,y,0) = NO_DATA_GEN;
+      RDV_LEMMA(fresh_step elevations.view_width elevations.view_height p0_ props.pdata.elts x y);
+      RDV_LEMMA(tb_step elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p0_ props.pdata.elts x y);
       continue;
     }
 
-    if(elevations.isEdgeCell(x,y))
+    if(elevations.isEdgeCell(x,y)){
+      RDV_LEMMA(fresh_step elevations.view_width elevations.view_height p0_ props.pdata.elts x y);
+      RDV_LEMMA(tb_step elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p0_ props.pdata.elts x y);
       continue;
+    }
 
     int8_t nmax = -1;
     double smax = 0;
     float  rmax = 0;
 
+    RDV_LEMMA(unit_arith ());
     for(int n=1;n<=8;n++){
+      RDV_INV(if nmax = (-1) then smax = 0.0 else 1 <= nmax < n && usable elevations.view_width elevations.view_height elevations.data.elts elevations.no_data x y nmax && smax = fs elevations.view_width elevations.data.elts x y nmax && smax >. 0.0 && rmax = to_f32 (fr elevations.view_width elevations.data.elts x y nmax));
+      RDV_INV(forall k [fs elevations.view_width elevations.data.elts x y k]. 1 <= k < n -> usable elevations.view_width elevations.view_height elevations.data.elts elevations.no_data x y k -> fs elevations.view_width elevations.data.elts x y k <=. smax);
       if(!elevations.inGrid (x+dx_e1[n],y+dy_e1[n]))
         continue;
       if(elevations.isNoData(x+dx_e1[n],y+dy_e1[n]))
@@ -106,6 +125,9 @@ void FM_Tarboton(
         s = sqrt(s1*s1+s2*s2);
       }
 
+      RDV_ASSERT(usable elevations.view_width elevations.view_height elevations.data.elts elevations.no_data x y n);
+      RDV_ASSERT(s1 = zz elevations.view_width elevations.data.elts x y 0 -. zz elevations.view_width elevations.data.elts x y (fa n) && s2 = zz elevations.view_width elevations.data.elts x y (fa n) -. zz elevations.view_width elevations.data.elts x y (fb n));
+      RDV_ASSERT(s = fs elevations.view_width elevations.data.elts x y n && r = fr elevations.view_width elevations.data.elts x y n);
       if(s>smax){
         smax = s;
         nmax = n;
@@ -113,8 +135,14 @@ void FM_Tarboton(
       }
     }
 
-    if(nmax==-1)
+    if(nmax==-1){
+      RDV_LEMMA(tb_none elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts x y);
+      RDV_LEMMA(fresh_step elevations.view_width elevations.view_height p0_ props.pdata.elts x y);
+      RDV_LEMMA(tb_step elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p0_ props.pdata.elts x y);
       continue;
+    }
+    RDV_ASSERT(steepest elevations.view_width elevations.view_height elevations.data.elts elevations.no_data x y nmax);
+    RDV_LEMMA(facet elevations.view_width elevations.data.elts x y nmax);
 
     props(x,y,0) = HAS_FLOW_GEN;
 
@@ -125,6 +153,8 @@ void FM_Tarboton(
     else if(af[nmax]==1)
       rmax = M_PI/4-rmax;
 
+    RDV_ASSERT(rmax = turned nmax (to_f32 (fr elevations.view_width elevations.data.elts x y nmax)));
+
     //Code used by Tarboton to calculate the angle Rg. This should give the same
     //result despite the rearranged table
     // double rg = NO_FLOW;
@@ -141,6 +171,10 @@ void FM_Tarboton(
       props(x,y,nmax)          = 1-rmax/(M_PI/4.);
       props(x,y,nwrap(nmax+1)) = rmax/(M_PI/4.);
     }
+    RDV_LEMMA(tb_done elevations.view_width elevations.view_height elevations.data.elts elevations.no_data props.pdata.elts x y nmax rmax);
+    RDV_LEMMA(fresh_step elevations.view_width elevations.view_height p0_ props.pdata.elts x y);
+    RDV_LEMMA(tb_step elevations.view_width elevations.view_height elevations.data.elts elevations.no_data p0_ props.pdata.elts x y);
+  }
   }
   progress.stop();
 }
-- 
2.43.0

