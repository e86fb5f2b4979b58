From 91a3c1ec0914d57426e3fa32f91525897d5c8a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:18 +0000
Subject: [PATCH 01/49] fix: detach a grid from its old data when another grid
 is assigned to it

The assignment operators of the single array allocation policies left the
updater registered with the previous data. A later resize of a grid that still
used the old data then changed the size of the re-assigned grid, and called
into freed memory once that grid had been destroyed.
---
 src/grid/gridstorage/single-array-allocation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grid/gridstorage/single-array-allocation.hpp b/src/grid/gridstorage/single-array-allocation.hpp
index fd0084e..c2906bf 100644
--- a/src/grid/gridstorage/single-array-allocation.hpp
+++ b/src/grid/gridstorage/single-array-allocation.hpp
@@ -296,6 +296,7 @@ namespace schnek
     template <typename T, size_t rank>
     SingleArrayInstantAllocation<T, rank> &SingleArrayInstantAllocation<T, rank>::operator=(const SingleArrayInstantAllocation<T, rank> &other) 
     {
+        this->data->removeUpdater(this);
         this->data = other.data;
         this->size = other.size;
         this->range = other.range;
@@ -401,6 +402,7 @@ namespace schnek
     template <typename T, size_t rank>
     SingleArrayLazyAllocation<T, rank> &SingleArrayLazyAllocation<T, rank>::operator=(const SingleArrayLazyAllocation<T, rank> &other) 
     {
+        this->data->removeUpdater(this);
         this->data = other.data;
         this->size = other.size;
         this->range = other.range;
-- 
2.43.0


From 28a1e99b9c84e27ed6a01b9efce1b52e0edce5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:18 +0000
Subject: [PATCH 02/49] fix: use signed grid indices in the lazy allocation
 policy

Grids with LazyArrayGridStorage could not be compiled because the allocation
policy used a different index type than the storage built on top of it.
---
 src/grid/gridstorage/single-array-allocation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grid/gridstorage/single-array-allocation.hpp b/src/grid/gridstorage/single-array-allocation.hpp
index c2906bf..3818934 100644
--- a/src/grid/gridstorage/single-array-allocation.hpp
+++ b/src/grid/gridstorage/single-array-allocation.hpp
@@ -186,10 +186,10 @@ namespace schnek
     {
     public:
         /// The grid index type
-        typedef Array<size_t, rank> IndexType;
+        typedef Array<int, rank> IndexType;
 
         /// The grid range type
-        typedef Range<size_t, rank> RangeType;
+        typedef Range<int, rank> RangeType;
     protected:
         struct SizeInfo {
             IndexType lo;
-- 
2.43.0


From c9986c8d960fa9e177aed8883018bce982f20068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:18 +0000
Subject: [PATCH 03/49] fix: copy the buffer size when assigning lazily
 allocated grids

The assigned grid kept its own buffer size with the other grid's data, so that a
later resize could be served from a buffer that was too small.
---
 src/grid/gridstorage/single-array-allocation.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/grid/gridstorage/single-array-allocation.hpp b/src/grid/gridstorage/single-array-allocation.hpp
index 3818934..20e0da7 100644
--- a/src/grid/gridstorage/single-array-allocation.hpp
+++ b/src/grid/gridstorage/single-array-allocation.hpp
@@ -407,6 +407,10 @@ namespace schnek
         this->size = other.size;
         this->range = other.range;
         this->dims = other.dims;
+        this->bufSize = other.bufSize;
+        this->avgSize = other.avgSize;
+        this->avgVar = other.avgVar;
+        this->r = other.r;
         this->data->addUpdater(this, [this](const SizeInfo& sizeInfo) { this->updateSizeInfo(sizeInfo); });
         return *this;
     };
-- 
2.43.0


From 1e386b6bef40b007d98108d7ea6ab22e6216cbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:59 +0000
Subject: [PATCH 04/49] fix: keep copies of Kokkos grids consistent on resize
 and assignment

A resize replaced the view of one copy only while all copies changed their index
range, so that the others accessed their old view out of bounds. Assignment
shared the list of updaters without registering with it.
---
 src/grid/gridstorage/kokkos-storage.hpp | 41 ++++++++++++++++++-------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/grid/gridstorage/kokkos-storage.hpp b/src/grid/gridstorage/kokkos-storage.hpp
index 0a1b22a..4416cf5 100644
--- a/src/grid/gridstorage/kokkos-storage.hpp
+++ b/src/grid/gridstorage/kokkos-storage.hpp
@@ -75,7 +75,8 @@ namespace schnek {
         /// The grid range type
         typedef Range<int, rank> RangeType;
     private:
-        typedef std::function<void(const RangeType&)> UpdaterType;
+        typedef Kokkos::View<typename internal::KokkosViewType<T, rank>::type, ViewProperties...> ViewType;
+        typedef std::function<void(const RangeType&, const ViewType&)> UpdaterType;
         typedef std::map<void *, UpdaterType> UpdaterMapType;
 
         /// The lowest and highest coordinates in the grid (inclusive)
@@ -84,7 +85,7 @@ namespace schnek {
         /// The dimensions of the grid `dims = high - low + 1`
         IndexType dims;
 
-        Kokkos::View<typename internal::KokkosViewType<T, rank>::type, ViewProperties...> view;
+        ViewType view;
 
         /// A map of updaters that are called when the grid is resized
         std::shared_ptr<UpdaterMapType> updaters;
@@ -112,6 +113,11 @@ namespace schnek {
          */
         KokkosGridStorage(const RangeType &range);
 
+        /**
+         * @brief Assignment operator
+         */
+        KokkosGridStorage &operator=(const KokkosGridStorage &);
+
         /// Destructor frees any allocated memory
         ~KokkosGridStorage();
 
@@ -201,14 +207,15 @@ namespace schnek {
             return getFromViewImpl(pos, std::make_index_sequence<rank>{});
         }
 
-        void update(const RangeType& range) {
+        void update(const RangeType& range, const ViewType& view) {
             for (auto& updater: *updaters) {
-                updater.second(range);
+                updater.second(range, view);
             }
         }
 
-        void updateSizeInfo(const RangeType &range) {
+        void updateSizeInfo(const RangeType &range, const ViewType& view) {
             this->range = range;
+            this->view = view;
             for (size_t i = 0; i < rank; ++i)
             {
                 dims[i] = range.getHi(i) - range.getLo(i) + 1;
@@ -229,7 +236,7 @@ namespace schnek {
           dims{0},
           updaters{new UpdaterMapType}
     {
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -238,7 +245,7 @@ namespace schnek {
           dims{other.dims}, view{other.view},
           updaters{other.updaters}
     {
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -248,7 +255,7 @@ namespace schnek {
     {
         dims = hi - lo + 1;
         view = createKokkosView(dims);
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -258,7 +265,20 @@ namespace schnek {
     {
         dims = range.getHi() - range.getLo() + 1;
         view = createKokkosView(dims);
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
+    }
+
+    template <typename T, size_t rank, class ...ViewProperties>
+    KokkosGridStorage<T, rank, ViewProperties...> &KokkosGridStorage<T, rank, ViewProperties...>::operator=(const KokkosGridStorage &other)
+    {
+        if (this == &other) return *this;
+        updaters->erase(this);
+        range = other.range;
+        dims = other.dims;
+        view = other.view;
+        updaters = other.updaters;
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
+        return *this;
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -293,8 +313,7 @@ namespace schnek {
     void KokkosGridStorage<T, rank, ViewProperties...>::resize(const IndexType &lo, const IndexType &hi)
     {
         IndexType dims = hi - lo + 1;
-        this->view = createKokkosView(dims);
-        update(RangeType{lo, hi});
+        update(RangeType{lo, hi}, createKokkosView(dims));
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
-- 
2.43.0


From 9fdacee93a35343f68538a95177598d84085fc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:59 +0000
Subject: [PATCH 05/49] fix: getSize of Kokkos grids could not be compiled

---
 src/grid/gridstorage/kokkos-storage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grid/gridstorage/kokkos-storage.hpp b/src/grid/gridstorage/kokkos-storage.hpp
index 4416cf5..6f22e21 100644
--- a/src/grid/gridstorage/kokkos-storage.hpp
+++ b/src/grid/gridstorage/kokkos-storage.hpp
@@ -159,7 +159,7 @@ namespace schnek {
         SCHNEK_INLINE int getDims(int k) const { return this->dims[k]; }
 
         /// Get the length of the allocated array
-        SCHNEK_INLINE int getSize() const { return this->size; }
+        SCHNEK_INLINE int getSize() const { return this->view.size(); }
 
         /**
          * @brief resizes to grid with lower indices low[0],...,low[rank-1]
-- 
2.43.0


From 0dece184f803b6189f6404f16e35c50e7d6e6f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:55 +0000
Subject: [PATCH 06/49] fix: indexing a grid with an array expression could not
 be compiled

The overloads deduced the length of the expression as int while ArrayExpression
takes a size_t.
---
 src/grid/grid.hpp | 4 ++--
 src/grid/grid.t   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/grid/grid.hpp b/src/grid/grid.hpp
index 27f153e..bbb9d67 100644
--- a/src/grid/grid.hpp
+++ b/src/grid/grid.hpp
@@ -96,10 +96,10 @@ namespace schnek {
         SCHNEK_INLINE T  operator[](const Array<int,rank,ArrayCheckingPolicy>& pos) const; // read
 
         /** index operator, writing */
-        template<class Operator, int Length>
+        template<class Operator, size_t Length>
         SCHNEK_INLINE T& operator[](const ArrayExpression<Operator, Length>& pos); // write
         /** index operator, reading */
-        template<class Operator, int Length>
+        template<class Operator, size_t Length>
         SCHNEK_INLINE T  operator[](const ArrayExpression<Operator, Length>& pos) const; // read
 
         /** index operator, for 1D grids, writing */
diff --git a/src/grid/grid.t b/src/grid/grid.t
index 3618f59..91edafd 100644
--- a/src/grid/grid.t
+++ b/src/grid/grid.t
@@ -118,7 +118,7 @@ template<
   class CheckingPolicy,
   class StoragePolicy
 >
-template<class Operator, int Length>
+template<class Operator, size_t Length>
 SCHNEK_INLINE T& GridBase<T, rank, CheckingPolicy, StoragePolicy>
   ::operator[](const ArrayExpression<Operator, Length>& pos)
 {
@@ -131,7 +131,7 @@ template<
   class CheckingPolicy,
   class StoragePolicy
 >
-template<class Operator, int Length>
+template<class Operator, size_t Length>
 SCHNEK_INLINE T GridBase<T, rank, CheckingPolicy, StoragePolicy>
   ::operator[](const ArrayExpression<Operator, Length>& pos) const
 {
-- 
2.43.0


From ce1ef93c1c311044944d9423afb798735e270582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:55 +0000
Subject: [PATCH 07/49] fix: make SubGrid usable and keep its dimensions on
 resize

SubGrid and Boundary::getGhostBoundary could not be compiled: the storage lacked
the range type, the default constructor and the const iterators were ill formed
and the boundary passed an array checking policy as a grid checking policy. A
resize changed the bounds of the sub grid but not its dimensions.
---
 src/grid/boundary.hpp | 4 ++--
 src/grid/boundary.t   | 8 ++++----
 src/grid/range.hpp    | 4 ++--
 src/grid/subgrid.hpp  | 5 +++--
 src/grid/subgrid.t    | 4 +++-
 5 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/grid/boundary.hpp b/src/grid/boundary.hpp
index 0870125..f58a68b 100644
--- a/src/grid/boundary.hpp
+++ b/src/grid/boundary.hpp
@@ -134,7 +134,7 @@ class Boundary
      * @return A sub-grid containing ghost cells
      */
     template<class GridType>
-    SubGrid<GridType, CheckingPolicy> getGhostBoundary(size_t dim, bound b, GridType &grid);
+    SubGrid<GridType> getGhostBoundary(size_t dim, bound b, GridType &grid);
 
     /** Returns sub-grid containing only the boundary domain.
      * The bounadry domain has a thickness determined by the number of ghost cells.
@@ -150,7 +150,7 @@ class Boundary
       template<size_t> class CheckingPolicy2,
       template<typename, size_t> class StoragePolicy
     >
-    SubGrid<Field<T,rank,CheckingPolicy2,StoragePolicy>, CheckingPolicy>
+    SubGrid<Field<T,rank,CheckingPolicy2,StoragePolicy> >
       getGhostBoundary(size_t dim, bound b, Field<T,rank,CheckingPolicy2,StoragePolicy> &field);
 };
 
diff --git a/src/grid/boundary.t b/src/grid/boundary.t
index 96bd12c..3d7ba43 100644
--- a/src/grid/boundary.t
+++ b/src/grid/boundary.t
@@ -141,10 +141,10 @@ template<
   template<size_t> class CheckingPolicy
 >
 template<class GridType>
-SubGrid<GridType, CheckingPolicy> Boundary<rank,CheckingPolicy>::getGhostBoundary(size_t dim, bound b, GridType &grid)
+SubGrid<GridType> Boundary<rank,CheckingPolicy>::getGhostBoundary(size_t dim, bound b, GridType &grid)
 {
         DomainType bounds = getGhostDomain(dim, b);
-        return SubGrid<GridType, CheckingPolicy>(bounds.getLo(), bounds.getHi(), grid);
+        return SubGrid<GridType>(bounds.getLo(), bounds.getHi(), grid);
 }
 
 template<
@@ -156,11 +156,11 @@ template<
   template<size_t> class CheckingPolicy2,
   template<typename, size_t> class StoragePolicy
 >
-SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy>, CheckingPolicy>
+SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy> >
   Boundary<rank,CheckingPolicy>::getGhostBoundary(size_t dim, bound b, Field<T,rank,CheckingPolicy2,StoragePolicy> &field)
 {
         DomainType bounds = getBoundaryDomain(dim, b, field.getStagger()[dim]);
-        return SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy>, CheckingPolicy>(bounds.getLo(), bounds.getHi(), field);
+        return SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy> >(bounds.getLo(), bounds.getHi(), field);
 }
 
 } // namespace schnek
diff --git a/src/grid/range.hpp b/src/grid/range.hpp
index fcf1129..b6fda0b 100644
--- a/src/grid/range.hpp
+++ b/src/grid/range.hpp
@@ -349,12 +349,12 @@ class Range {
     };
 
     /// Creates an iterator pointing to the beginning of the rectangle
-    iterator begin() {
+    iterator begin() const {
       return iterator(*this, this->getLo());
     }
 
     /// Creates an iterator pointing to a position after the end of the rectangle
-    iterator end() {
+    iterator end() const {
       return iterator(*this, this->getLo(), true);
     }
 };
diff --git a/src/grid/subgrid.hpp b/src/grid/subgrid.hpp
index aad8191..24c6acf 100644
--- a/src/grid/subgrid.hpp
+++ b/src/grid/subgrid.hpp
@@ -41,6 +41,7 @@ class SubGridStorage {
   public:
     typedef Array<int,rank> IndexType;
     typedef BaseGrid BaseGridType;
+    typedef Range<int, rank> RangeType;
     typedef Range<int, rank> DomainType;
   protected:
     BaseGridType *baseGrid;
@@ -133,8 +134,8 @@ class SubGridStorage {
     storage_iterator begin() { return storage_iterator(domain.begin(), baseGrid); }
     storage_iterator end() { return storage_iterator(domain.end(), baseGrid); }
 
-    const_storage_iterator cbegin() const { return const_storage_iterator(domain.cbegin(), baseGrid); }
-    const_storage_iterator cend() const { return const_storage_iterator(domain.cend(), baseGrid); }
+    const_storage_iterator cbegin() const { return const_storage_iterator(domain.begin(), baseGrid); }
+    const_storage_iterator cend() const { return const_storage_iterator(domain.end(), baseGrid); }
 
     void setBaseGrid(BaseGridType &baseGrid_) { baseGrid = &baseGrid_; }
 
diff --git a/src/grid/subgrid.t b/src/grid/subgrid.t
index c7b2563..a76b7dd 100644
--- a/src/grid/subgrid.t
+++ b/src/grid/subgrid.t
@@ -33,7 +33,7 @@ template<
   class BaseGrid
 >
 SubGridStorage<T, rank, BaseGrid>::SubGridStorage()
-  : baseGrid(NULL), domain(0,0), dims(0)
+  : baseGrid(NULL), domain(), dims(0)
 {}
 
 template<
@@ -56,6 +56,8 @@ template<
 void SubGridStorage<T, rank, BaseGrid>::resize(const IndexType &low_, const IndexType &high_)
 {
     domain = DomainType(low_, high_);
+    for (size_t d = 0; d < rank; d++)
+      dims[d] = high_[d] - low_[d] + 1;
 }
 
 template<
-- 
2.43.0


From f37f306fab9af27af159024451d1c2d74af9449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:55 +0000
Subject: [PATCH 08/49] fix: make GridTransform usable

The class template could not be instantiated: it declared its rank and checking
policy parameters with int instead of size_t, lacked the range type and stored
the value type of the base grid instead of that of the transformation.
---
 src/grid/gridtransform.hpp | 15 ++++++++-------
 src/grid/gridtransform.t   |  6 +++---
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/grid/gridtransform.hpp b/src/grid/gridtransform.hpp
index fc50cf1..c0e1cc1 100644
--- a/src/grid/gridtransform.hpp
+++ b/src/grid/gridtransform.hpp
@@ -34,13 +34,14 @@ namespace schnek {
 
 template<
   typename T,
-  int rank,
+  size_t rank,
   class BaseGrid,
   typename Transformation
 >
 class GridTransformStorage {
   public:
     typedef Array<int,rank> IndexType;
+    typedef Range<int,rank> RangeType;
     typedef BaseGrid BaseGridType;
     typedef Transformation TransformationType;
   protected:
@@ -52,9 +53,9 @@ class GridTransformStorage {
       protected:
         typedef typename BaseGridType::const_storage_iterator BaseIter;
         BaseIter baseIter;
-        GridTransformStorage &storage;
+        const GridTransformStorage &storage;
 
-        const_storage_iterator(BaseIter baseIter, GridTransformStorage &storage)
+        const_storage_iterator(BaseIter baseIter, const GridTransformStorage &storage)
           : baseIter(baseIter), storage(storage) {}
 
         friend class GridTransformStorage;
@@ -128,7 +129,7 @@ class GridTransformStorage {
 template<
   class BaseGrid,
   typename Transformation,
-  template<int> class CheckingPolicy = GridNoArgCheck
+  template<size_t> class CheckingPolicy = GridNoArgCheck
 >
 class GridTransform
   : public internal::GridBase
@@ -137,7 +138,7 @@ class GridTransform
       BaseGrid::Rank,
       CheckingPolicy<BaseGrid::Rank>,
       GridTransformStorage<
-        typename BaseGrid::value_type,
+        typename Transformation::value_type,
         BaseGrid::Rank,
         BaseGrid,
         Transformation
@@ -151,7 +152,7 @@ class GridTransform
           BaseGrid::Rank,
           CheckingPolicy<BaseGrid::Rank>,
           GridTransformStorage<
-            typename BaseGrid::value_type,
+            typename Transformation::value_type,
             BaseGrid::Rank,
             BaseGrid,
             Transformation
@@ -185,7 +186,7 @@ class TypeCastTransform
   public:
     typedef DestType value_type;
   public:
-    DestType operator()(SrcType x) {return (DestType)x; }
+    DestType operator()(SrcType x) const {return (DestType)x; }
 };
 
 } // namespace schnek
diff --git a/src/grid/gridtransform.t b/src/grid/gridtransform.t
index d644fed..696e500 100644
--- a/src/grid/gridtransform.t
+++ b/src/grid/gridtransform.t
@@ -29,7 +29,7 @@ namespace schnek
 
 template<
   typename T,
-  int rank,
+  size_t rank,
   class BaseGrid,
   typename Transformation
 >
@@ -40,7 +40,7 @@ GridTransformStorage<T, rank, BaseGrid, Transformation>::GridTransformStorage()
 template<
   class BaseGrid,
   typename Transformation,
-  template<int> class CheckingPolicy
+  template<size_t> class CheckingPolicy
 >
 GridTransform<BaseGrid, Transformation, CheckingPolicy>::GridTransform()
   : ParentType()
@@ -49,7 +49,7 @@ GridTransform<BaseGrid, Transformation, CheckingPolicy>::GridTransform()
 template<
   class BaseGrid,
   typename Transformation,
-  template<int> class CheckingPolicy
+  template<size_t> class CheckingPolicy
 >
 GridTransform<BaseGrid, Transformation, CheckingPolicy>::GridTransform(BaseGridType &baseGrid_)
   : ParentType()
-- 
2.43.0


From 099ace48b8a1b55d273c49f882d5a659805be013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:23 +0000
Subject: [PATCH 09/49] fix: iterating over an empty range must not visit any
 point

---
 src/grid/range.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grid/range.hpp b/src/grid/range.hpp
index b6fda0b..35a320f 100644
--- a/src/grid/range.hpp
+++ b/src/grid/range.hpp
@@ -350,7 +350,9 @@ class Range {
 
     /// Creates an iterator pointing to the beginning of the rectangle
     iterator begin() const {
-      return iterator(*this, this->getLo());
+      bool empty = false;
+      for (size_t i=0; i<rank; ++i) empty = empty || (hi[i] < lo[i]);
+      return iterator(*this, this->getLo(), empty);
     }
 
     /// Creates an iterator pointing to a position after the end of the rectangle
-- 
2.43.0


From 5aac458ec66f2d8533770a2b05b4c04c45c3b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:03 +0000
Subject: [PATCH 10/49] fix: getInnerRange of a field could not be compiled

---
 src/grid/field.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grid/field.hpp b/src/grid/field.hpp
index 58de237..2bffa31 100644
--- a/src/grid/field.hpp
+++ b/src/grid/field.hpp
@@ -104,7 +104,7 @@ class Field : public Grid<T, rank, CheckingPolicy, StoragePolicy>
     IndexType getInnerHi() { return this->getHi() - ghostCells; }
 
     /** Get the range the inner grid range */
-    RangeType getInnerRange() { return RangeType{this->getLo() + ghostCells, this->getHi() - ghostCells}; }
+    RangeType getInnerRange() { return RangeType{getInnerLo(), getInnerHi()}; }
 
     /** Calculates index and offset from a position on the field
      *
-- 
2.43.0


From 08e54d0034d6cc1ad233f17e2e47bd5a123bcf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:52 +0000
Subject: [PATCH 11/49] fix: MPICartSubdivision must respect the lower bound of
 the global domain

---
 src/grid/mpisubdivision.t | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grid/mpisubdivision.t b/src/grid/mpisubdivision.t
index 3b87a65..e5b8a66 100644
--- a/src/grid/mpisubdivision.t
+++ b/src/grid/mpisubdivision.t
@@ -104,17 +104,17 @@ void MPICartSubdivision<GridType>::init(const LimitType &lo, const LimitType &hi
     errorCode = MPI_Cart_shift(comm,i,1,&prevcoord[i],&nextcoord[i]);
     SCHNEK_ASSERT(errorCode == MPI_SUCCESS, "Could not shift Cartesian coordinates ("+boost::lexical_cast<std::string>(errorCode)+")");
 
-    width[i] = (High[i]-1.)/double(dims[i]);
+    width[i] = (High[i]-Low[i]-1.)/double(dims[i]);
 
     if (mycoord[i]>0)
-      Low[i] = int(width[i]*mycoord[i])-delta+1;
+      Low[i] = lo[i]+int(width[i]*mycoord[i])-delta+1;
     else
-      Low[i] = -delta;
+      Low[i] = lo[i]-delta;
 
     if (mycoord[i]<(dims[i]-1))
-      High[i] = int(width[i]*(mycoord[i]+1))+delta;
+      High[i] = lo[i]+int(width[i]*(mycoord[i]+1))+delta;
     else
-      High[i] = High[i]+delta;
+      High[i] = hi[i]+delta;
 
     exchangeSizeProduct *= (High[i]-Low[i]+1);
   }
-- 
2.43.0


From cdd8eda4ec42476cf755a5e31607bcfcd758dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:52 +0000
Subject: [PATCH 12/49] fix: getInnerExtent must be relative to the lower bound
 of the global domain

---
 src/grid/domainsubdivision.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grid/domainsubdivision.hpp b/src/grid/domainsubdivision.hpp
index cbc227d..2cf5ce9 100644
--- a/src/grid/domainsubdivision.hpp
+++ b/src/grid/domainsubdivision.hpp
@@ -141,8 +141,8 @@ class DomainSubdivision {
       {
         const T &lo = globalExtent.getLo()[i];
         T dx = (globalExtent.getHi()[i]-lo) / (T)(globalGridSize.getHi()[i] - globalGridSize.getLo()[i] + 1);
-        localDomainMin[i] = lo + this->getInnerLo()[i]*dx;
-        localDomainMax[i] = lo + (this->getInnerHi()[i] + 1)*dx;
+        localDomainMin[i] = lo + (this->getInnerLo()[i] - globalGridSize.getLo()[i])*dx;
+        localDomainMax[i] = lo + (this->getInnerHi()[i] - globalGridSize.getLo()[i] + 1)*dx;
       }
       return Range<T, Rank, CheckingPolicy>(localDomainMin,localDomainMax);
     }
-- 
2.43.0


From 4d4b0a1549923d4c51043398aafc4dcb38fbca63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:52 +0000
Subject: [PATCH 13/49] fix: global domain of the serial subdivision must
 exclude the ghost cells

---
 src/grid/domainsubdivision.hpp | 5 ++++-
 src/grid/domainsubdivision.t   | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/grid/domainsubdivision.hpp b/src/grid/domainsubdivision.hpp
index 2cf5ce9..5748a1e 100644
--- a/src/grid/domainsubdivision.hpp
+++ b/src/grid/domainsubdivision.hpp
@@ -250,6 +250,9 @@ class SerialSubdivision : public DomainSubdivision<GridType>
 
     /// The positions of the upper corner of the local piece of the grid
     LimitType High;
+
+    /// The global domain excluding ghost cells
+    DomainType globalDomain;
   public:
     using DomainSubdivision<GridType>::init;
     using DomainSubdivision<GridType>::exchange;
@@ -267,7 +270,7 @@ class SerialSubdivision : public DomainSubdivision<GridType>
     void init(const LimitType &low, const LimitType &high, int delta);
 
     /// Return the global domain size excluding ghost cells
-    const DomainType &getGlobalDomain() const { return this->bounds->getDomain(); }
+    const DomainType &getGlobalDomain() const { return globalDomain; }
 
     /** @brief Exchanges the boundaries in direction specified by dim.
      *
diff --git a/src/grid/domainsubdivision.t b/src/grid/domainsubdivision.t
index cd6206e..c2aa70e 100644
--- a/src/grid/domainsubdivision.t
+++ b/src/grid/domainsubdivision.t
@@ -40,6 +40,7 @@ template<class GridType>
 void SerialSubdivision<GridType>::init(const LimitType &low, const LimitType &high, int delta)
 {
   this->bounds = std::make_shared<BoundaryType>(low, high, delta);
+  globalDomain = this->bounds->getInnerDomain();
 }
 
 template<class GridType>
-- 
2.43.0


From 0da8ac48bde8ee3bb9d0d06e0f1017177a3e4327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:52 +0000
Subject: [PATCH 14/49] fix: accumulate over all dimensions was hidden in the
 subdivision classes

---
 src/grid/domainsubdivision.hpp | 1 +
 src/grid/mpisubdivision.hpp    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/grid/domainsubdivision.hpp b/src/grid/domainsubdivision.hpp
index 5748a1e..afa66a0 100644
--- a/src/grid/domainsubdivision.hpp
+++ b/src/grid/domainsubdivision.hpp
@@ -256,6 +256,7 @@ class SerialSubdivision : public DomainSubdivision<GridType>
   public:
     using DomainSubdivision<GridType>::init;
     using DomainSubdivision<GridType>::exchange;
+    using DomainSubdivision<GridType>::accumulate;
 
     SerialSubdivision();
 
diff --git a/src/grid/mpisubdivision.hpp b/src/grid/mpisubdivision.hpp
index e143eb3..643f9a1 100644
--- a/src/grid/mpisubdivision.hpp
+++ b/src/grid/mpisubdivision.hpp
@@ -85,6 +85,7 @@ class MPICartSubdivision : public DomainSubdivision<GridType>
   public:
     using DomainSubdivision<GridType>::init;
     using DomainSubdivision<GridType>::exchange;
+    using DomainSubdivision<GridType>::accumulate;
     ///default constructor
     MPICartSubdivision();
 
-- 
2.43.0


From 5e1a0d64fa5a57a8e448dbd87d2f7419ffb33f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:04 +0000
Subject: [PATCH 15/49] fix: buffers exchanged by the serial subdivision must
 not share their data

---
 src/grid/domainsubdivision.t | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/grid/domainsubdivision.t b/src/grid/domainsubdivision.t
index c2aa70e..800c75c 100644
--- a/src/grid/domainsubdivision.t
+++ b/src/grid/domainsubdivision.t
@@ -24,6 +24,7 @@
  *
  */
 
+#include <algorithm>
 #include <memory>
 
 namespace schnek {
@@ -114,7 +115,10 @@ void SerialSubdivision<GridType>::accumulate(GridType &grid, size_t dim)
 template<class GridType>
 void SerialSubdivision<GridType>::exchangeData(size_t, int, BufferType &in, BufferType &out)
 {
-  out = in;
+  if (in.getRawData() == out.getRawData()) return;
+  // copy the data, assigning the grid would make both buffers share it
+  out.resize(in.getLo(), in.getHi());
+  std::copy(in.cbegin(), in.cend(), out.begin());
 }
 
 } // namespace schnek
-- 
2.43.0


From e1635e2d481f712410ee9362a69fad220fa85333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:33 +0000
Subject: [PATCH 16/49] fix: report a division by an integer zero in a setup
 file instead of crashing

---
 src/variables/operators.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/variables/operators.hpp b/src/variables/operators.hpp
index 0557af6..1a3c4f2 100644
--- a/src/variables/operators.hpp
+++ b/src/variables/operators.hpp
@@ -211,6 +211,13 @@ namespace expression {
   }
 
 
+  template<>
+  inline int OperatorDivide<int>::eval(int val1, int val2)
+  {
+      if (val2 == 0) throw EvaluationException("Division by zero");
+      return val1 / val2;
+  }
+
   template<>
   inline std::string OperatorNeg<std::string>::eval(std::string) { return ""; }
 
-- 
2.43.0


From b004300b3031b5a171482bbc5d3e485a39d3263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:33 +0000
Subject: [PATCH 17/49] fix: sums and products in setup files must be evaluated
 from left to right

Mixed integer and floating point operands were combined from the right, so
that 1.5-2-3 evaluated to 1.5-(2-3).
---
 parser/deckgrammar.y       |  12 +-
 src/parser/deckgrammar.inc | 400 +++++++++++++++++--------------------
 2 files changed, 192 insertions(+), 220 deletions(-)

diff --git a/parser/deckgrammar.y b/parser/deckgrammar.y
index b5bad7b..078dbcb 100644
--- a/parser/deckgrammar.y
+++ b/parser/deckgrammar.y
@@ -42,20 +42,16 @@ declaration ::= error.
 
 assignment(LHS) ::= IDENTIFIER(iden) EQUAL expression(expr). { SCHNEK_TRACE_LOG(5,"Parser: Rule 10"<< toString(expr.getType()) << " " << expr.getString()); LHS.evaluateExpression(iden,expr); }   // --done--
 
-expression(LHS) ::= signed_term_expression(A) PLUS unsigned_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 11"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorAdd>(A,B); }  // --done--
-expression(LHS) ::= signed_term_expression(A) MINUS unsigned_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 12"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorSubtract>(A,B); }  // --done--
+expression(LHS) ::= expression(A) PLUS term_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 11"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorAdd>(A,B); }  // --done--
+expression(LHS) ::= expression(A) MINUS term_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 12"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorSubtract>(A,B); }  // --done--
 expression(LHS) ::= signed_term_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 13"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
 
-unsigned_expression(LHS) ::= term_expression(A) PLUS unsigned_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 14"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorAdd>(A,B); }  // --done--
-unsigned_expression(LHS) ::= term_expression(A) MINUS unsigned_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 15"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorSubtract>(A,B); }  // --done--
-unsigned_expression(LHS) ::= term_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 16"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
-
 signed_term_expression(LHS) ::= PLUS term_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 17"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
 signed_term_expression(LHS) ::= MINUS term_expression(A). { SCHNEK_TRACE_LOG(5,"Parser: Rule 18"<< toString(A.getType()) << " " << A.getString()); LHS.assignUnaryOperator<expression::OperatorNeg>(A); }  // --done--
 signed_term_expression(LHS) ::= term_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 19"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
 
-term_expression(LHS) ::= exp_expression(A) TIMES term_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 20"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorMultiply>(A,B); }  // --done--
-term_expression(LHS) ::= exp_expression(A) DIVIDE term_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 21"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorDivide>(A,B); }  // --done--
+term_expression(LHS) ::= term_expression(A) TIMES exp_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 20"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorMultiply>(A,B); }  // --done--
+term_expression(LHS) ::= term_expression(A) DIVIDE exp_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 21"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorDivide>(A,B); }  // --done--
 term_expression(LHS) ::= exp_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 22"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
 exp_expression(LHS) ::= atomic_expression(A) EXPONENT signed_atomic_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 23"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorExponent>(A,B); }  // --done--
 exp_expression(LHS) ::= atomic_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 23b"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
diff --git a/src/parser/deckgrammar.inc b/src/parser/deckgrammar.inc
index cd5d02f..42d2212 100644
--- a/src/parser/deckgrammar.inc
+++ b/src/parser/deckgrammar.inc
@@ -60,7 +60,7 @@
 **                       defined, then do no error processing.
 */
 #define YYCODETYPE unsigned char
-#define YYNOCODE 41
+#define YYNOCODE 40
 #define YYACTIONTYPE unsigned char
 #define ParseTOKENTYPE ParserToken
 struct YYMINORTYPE {
@@ -69,7 +69,7 @@ struct YYMINORTYPE {
   YYMINORTYPE(int yyinit_, ParseTOKENTYPE yy0_=ParseTOKENTYPE()) : yyinit(yyinit_), yy0(yy0_) {}
   YYMINORTYPE(ParseTOKENTYPE yy0_=ParseTOKENTYPE()) : yyinit(0), yy0(yy0_) {}
   YYMINORTYPE &operator=(const YYMINORTYPE &rhs) { yyinit = rhs.yyinit; yy0 = rhs.yy0; return *this;}
-  int yy81;
+  int yy79;
 };
 #ifndef YYSTACKDEPTH
 #define YYSTACKDEPTH 100
@@ -78,10 +78,10 @@ struct YYMINORTYPE {
 #define ParseARG_PDECL
 #define ParseARG_FETCH
 #define ParseARG_STORE
-#define YYNSTATE 74
-#define YYNRULE 48
+#define YYNSTATE 69
+#define YYNRULE 45
 #define YYERRORSYMBOL 22
-#define YYERRSYMDT yy81
+#define YYERRSYMDT yy79
 #define YY_NO_ACTION      (YYNSTATE+YYNRULE+2)
 #define YY_ACCEPT_ACTION  (YYNSTATE+YYNRULE+1)
 #define YY_ERROR_ACTION   (YYNSTATE+YYNRULE)
@@ -151,66 +151,63 @@ static const YYMINORTYPE yyzerominor(0);
 **  yy_default[]       Default action for each state.
 */
 static const YYACTIONTYPE yy_action[] = {
- /*     0 */    13,   12,   69,   23,   21,   31,    3,   58,   54,   32,
- /*    10 */    15,   17,   18,    4,   62,   55,   56,   57,   58,   44,
- /*    20 */    32,    1,   13,   12,    4,   16,   55,   56,   57,   58,
- /*    30 */    30,   32,   73,   66,   50,    4,   54,   55,   56,   57,
- /*    40 */     6,    7,   28,   63,   24,   74,   59,   21,   31,   33,
- /*    50 */    22,   54,   27,   37,   35,   19,   68,   23,   21,   31,
- /*    60 */    65,  124,   54,   54,   39,   40,   41,   64,   36,  123,
- /*    70 */     5,   42,   14,  124,   26,   34,   27,   36,   35,   19,
- /*    80 */    43,   14,    2,   26,   34,   60,    9,    8,   39,   40,
- /*    90 */    41,  124,   47,   23,   21,   31,   61,   24,   54,   59,
- /*   100 */    21,   31,   46,   24,   54,   59,   21,   31,   25,   24,
- /*   110 */    54,   59,   21,   31,  124,   58,   54,   32,  124,   29,
- /*   120 */    38,    4,    3,   55,   56,   57,   48,   23,   21,   31,
- /*   130 */    10,   11,   54,   53,   21,   31,  124,  124,   54,   67,
- /*   140 */    21,   31,  124,   71,   54,   49,   21,   31,   71,   70,
- /*   150 */    54,   45,   51,   20,   70,   54,   72,  124,   52,   21,
- /*   160 */    31,  124,  124,   54,
+ /*     0 */     8,    9,   21,   41,   44,   30,   45,   49,   45,   31,
+ /*    10 */    29,    8,    9,    3,   51,   46,   47,   48,   49,   37,
+ /*    20 */    31,    2,   15,   16,    3,   14,   46,   47,   48,   49,
+ /*    30 */    22,   31,   44,   30,    1,    3,   45,   46,   47,   48,
+ /*    40 */    62,  115,    5,   68,   10,   11,   32,   60,   23,   26,
+ /*    50 */    43,   44,   30,   69,   27,   45,   33,   58,   61,   18,
+ /*    60 */    33,   59,   61,   18,   54,   40,   34,   45,   65,   66,
+ /*    70 */    67,  116,   65,   66,   67,   20,   26,   43,   44,   30,
+ /*    80 */     6,    7,   45,   17,   26,   43,   44,   30,   13,   12,
+ /*    90 */    45,   28,   26,   43,   44,   30,  116,  116,   45,   49,
+ /*   100 */    63,   31,   39,   30,  116,    3,   45,   46,   47,   48,
+ /*   110 */    62,   42,   30,   36,   10,   45,   32,   60,   24,   53,
+ /*   120 */    44,   30,   45,  116,   45,   25,   56,   44,   30,  116,
+ /*   130 */    56,   45,   55,  116,   38,   19,   55,  116,   57,  116,
+ /*   140 */     6,    7,   35,   64,  116,    2,  116,    4,  116,  116,
+ /*   150 */    50,  116,  116,  116,   52,
 };
 static const YYCODETYPE yy_lookahead[] = {
- /*     0 */     1,    2,   33,   34,   35,   36,   13,    8,   39,   10,
- /*    10 */     5,    1,    2,   14,   15,   16,   17,   18,    8,    6,
- /*    20 */    10,   14,    1,    2,   14,   12,   16,   17,   18,    8,
- /*    30 */    10,   10,    6,   36,   37,   14,   39,   16,   17,   18,
- /*    40 */     1,    2,    8,   31,   32,    0,   34,   35,   36,    6,
- /*    50 */    38,   39,    7,   11,    9,   10,   33,   34,   35,   36,
- /*    60 */    36,   40,   39,   39,   19,   20,   21,   15,   22,   23,
- /*    70 */    24,   25,   26,   40,   28,   29,    7,   22,    9,   10,
- /*    80 */    25,   26,   12,   28,   29,   15,    1,    2,   19,   20,
- /*    90 */    21,   40,   33,   34,   35,   36,   31,   32,   39,   34,
- /*   100 */    35,   36,   31,   32,   39,   34,   35,   36,   31,   32,
- /*   110 */    39,   34,   35,   36,   40,    8,   39,   10,   40,   10,
- /*   120 */    11,   14,   13,   16,   17,   18,   33,   34,   35,   36,
- /*   130 */     3,    4,   39,   34,   35,   36,   40,   40,   39,   34,
- /*   140 */    35,   36,   40,   22,   39,   34,   35,   36,   22,   28,
- /*   150 */    39,   30,   36,   27,   28,   39,   30,   40,   34,   35,
- /*   160 */    36,   40,   40,   39,
+ /*     0 */     1,    2,   32,   35,   34,   35,   38,    8,   38,   10,
+ /*    10 */    10,    1,    2,   14,   15,   16,   17,   18,    8,    6,
+ /*    20 */    10,   13,    1,    2,   14,   12,   16,   17,   18,    8,
+ /*    30 */    32,   10,   34,   35,   14,   14,   38,   16,   17,   18,
+ /*    40 */    22,   23,   24,   25,   26,    5,   28,   29,   31,   32,
+ /*    50 */    33,   34,   35,    0,   37,   38,    7,    6,    9,   10,
+ /*    60 */     7,    6,    9,   10,   35,   36,    8,   38,   19,   20,
+ /*    70 */    21,   39,   19,   20,   21,   31,   32,   33,   34,   35,
+ /*    80 */     1,    2,   38,   31,   32,   33,   34,   35,    3,    4,
+ /*    90 */    38,   31,   32,   33,   34,   35,   39,   39,   38,    8,
+ /*   100 */    11,   10,   34,   35,   39,   14,   38,   16,   17,   18,
+ /*   110 */    22,   34,   35,   25,   26,   38,   28,   29,   32,   35,
+ /*   120 */    34,   35,   38,   39,   38,   32,   22,   34,   35,   39,
+ /*   130 */    22,   38,   28,   39,   30,   27,   28,   39,   30,   39,
+ /*   140 */     1,    2,   10,   11,   39,   13,   39,   12,   39,   39,
+ /*   150 */    15,   39,   39,   39,   15,
 };
-#define YY_SHIFT_USE_DFLT (-8)
-#define YY_SHIFT_MAX 32
-static const signed char yy_shift_ofst[] = {
- /*     0 */    69,   -1,   21,   21,   21,   45,  107,  107,  107,  107,
- /*    10 */   107,  107,  107,  107,   20,   10,   20,  107,  107,  109,
- /*    20 */    13,  127,   70,   39,   85,   52,   26,   34,   43,   42,
- /*    30 */    -7,    5,    7,
+#define YY_SHIFT_USE_DFLT (-2)
+#define YY_SHIFT_MAX 35
+static const short yy_shift_ofst[] = {
+ /*     0 */    49,   -1,   10,   10,   10,   53,   91,   91,   91,   91,
+ /*    10 */     0,   21,   91,   91,    0,   91,   91,  139,  132,   13,
+ /*    20 */    79,   85,   85,   79,   85,   85,   85,  135,   79,    8,
+ /*    30 */    40,   20,   51,   58,   55,   89,
 };
-#define YY_REDUCE_USE_DFLT (-32)
-#define YY_REDUCE_MAX 18
+#define YY_REDUCE_USE_DFLT (-33)
+#define YY_REDUCE_MAX 16
 static const signed char yy_reduce_ofst[] = {
- /*     0 */    46,   12,   65,   71,   77,   55,   93,   23,  -31,   59,
- /*    10 */   105,  111,   99,  124,  126,   -3,  121,  116,   24,
+ /*     0 */    18,   17,   44,   52,   60,   88,  -30,   -2,   86,   93,
+ /*    10 */   108,   29,   68,   77,  104,  -32,   84,
 };
 static const YYACTIONTYPE yy_default[] = {
- /*     0 */   122,  122,  122,  122,  122,  122,  122,  122,  122,  122,
- /*    10 */   122,  122,  122,  122,  122,  122,  122,  122,  122,  122,
- /*    20 */   122,  102,  122,   96,   93,  122,  122,  122,  122,  122,
- /*    30 */    87,  104,  115,   79,   80,   81,   82,   83,   84,  119,
- /*    40 */   120,  121,   76,   75,   77,   85,   90,   91,   94,  100,
- /*    50 */   103,  105,   97,   98,  111,  114,  116,  117,  118,   99,
- /*    60 */   109,  112,  110,  113,  108,  106,  107,  101,   95,   92,
- /*    70 */    88,   89,   86,   78,
+ /*     0 */   114,  114,  114,  114,  114,  114,  114,  114,  114,  114,
+ /*    10 */   114,  114,  114,  114,  114,  114,  114,  114,  114,  114,
+ /*    20 */    85,   86,   87,  105,   89,   90,   91,  114,  104,   82,
+ /*    30 */    96,  107,  114,  114,  114,  114,   70,   72,   80,   92,
+ /*    40 */    95,   97,   93,   88,   94,  103,  106,  108,  109,  110,
+ /*    50 */   101,  102,  100,   98,   99,   83,   84,   81,   73,   74,
+ /*    60 */    75,   76,   77,   78,   79,  111,  112,  113,   71,
 };
 #define YY_SZ_ACTTAB (int)(sizeof(yy_action)/sizeof(yy_action[0]))
 
@@ -312,8 +309,8 @@ static const char *const yyTokenName[] = {
   "FLOAT_DECL",    "STRING_DECL",   "error",         "deck",        
   "statementlist",  "statement",     "typedecl",      "decllist",    
   "assignment",    "startblock",    "declaration",   "expression",  
-  "signed_term_expression",  "unsigned_expression",  "term_expression",  "exp_expression",
-  "atomic_expression",  "signed_atomic_expression",  "expressionlist",  "value",       
+  "term_expression",  "signed_term_expression",  "exp_expression",  "atomic_expression",
+  "signed_atomic_expression",  "expressionlist",  "value",       
 };
 #endif /* NDEBUG */
 
@@ -338,37 +335,34 @@ static const char *const yyRuleName[] = {
  /*  14 */ "declaration ::= assignment",
  /*  15 */ "declaration ::= error",
  /*  16 */ "assignment ::= IDENTIFIER EQUAL expression",
- /*  17 */ "expression ::= signed_term_expression PLUS unsigned_expression",
- /*  18 */ "expression ::= signed_term_expression MINUS unsigned_expression",
+ /*  17 */ "expression ::= expression PLUS term_expression",
+ /*  18 */ "expression ::= expression MINUS term_expression",
  /*  19 */ "expression ::= signed_term_expression",
- /*  20 */ "unsigned_expression ::= term_expression PLUS unsigned_expression",
- /*  21 */ "unsigned_expression ::= term_expression MINUS unsigned_expression",
- /*  22 */ "unsigned_expression ::= term_expression",
- /*  23 */ "signed_term_expression ::= PLUS term_expression",
- /*  24 */ "signed_term_expression ::= MINUS term_expression",
- /*  25 */ "signed_term_expression ::= term_expression",
- /*  26 */ "term_expression ::= exp_expression TIMES term_expression",
- /*  27 */ "term_expression ::= exp_expression DIVIDE term_expression",
- /*  28 */ "term_expression ::= exp_expression",
- /*  29 */ "exp_expression ::= atomic_expression EXPONENT signed_atomic_expression",
- /*  30 */ "exp_expression ::= atomic_expression",
- /*  31 */ "signed_atomic_expression ::= PLUS atomic_expression",
- /*  32 */ "signed_atomic_expression ::= MINUS atomic_expression",
- /*  33 */ "signed_atomic_expression ::= atomic_expression",
- /*  34 */ "atomic_expression ::= LBRACKET expression RBRACKET",
- /*  35 */ "atomic_expression ::= IDENTIFIER LBRACKET expressionlist RBRACKET",
- /*  36 */ "atomic_expression ::= IDENTIFIER LBRACKET RBRACKET",
- /*  37 */ "atomic_expression ::= value",
- /*  38 */ "expressionlist ::= expressionlist COMMA expression",
- /*  39 */ "expressionlist ::= expression",
- /*  40 */ "value ::= PATHIDENTIFIER",
- /*  41 */ "value ::= IDENTIFIER",
- /*  42 */ "value ::= INTEGER",
- /*  43 */ "value ::= FLOAT",
- /*  44 */ "value ::= STRING",
- /*  45 */ "typedecl ::= INT_DECL",
- /*  46 */ "typedecl ::= FLOAT_DECL",
- /*  47 */ "typedecl ::= STRING_DECL",
+ /*  20 */ "signed_term_expression ::= PLUS term_expression",
+ /*  21 */ "signed_term_expression ::= MINUS term_expression",
+ /*  22 */ "signed_term_expression ::= term_expression",
+ /*  23 */ "term_expression ::= term_expression TIMES exp_expression",
+ /*  24 */ "term_expression ::= term_expression DIVIDE exp_expression",
+ /*  25 */ "term_expression ::= exp_expression",
+ /*  26 */ "exp_expression ::= atomic_expression EXPONENT signed_atomic_expression",
+ /*  27 */ "exp_expression ::= atomic_expression",
+ /*  28 */ "signed_atomic_expression ::= PLUS atomic_expression",
+ /*  29 */ "signed_atomic_expression ::= MINUS atomic_expression",
+ /*  30 */ "signed_atomic_expression ::= atomic_expression",
+ /*  31 */ "atomic_expression ::= LBRACKET expression RBRACKET",
+ /*  32 */ "atomic_expression ::= IDENTIFIER LBRACKET expressionlist RBRACKET",
+ /*  33 */ "atomic_expression ::= IDENTIFIER LBRACKET RBRACKET",
+ /*  34 */ "atomic_expression ::= value",
+ /*  35 */ "expressionlist ::= expressionlist COMMA expression",
+ /*  36 */ "expressionlist ::= expression",
+ /*  37 */ "value ::= PATHIDENTIFIER",
+ /*  38 */ "value ::= IDENTIFIER",
+ /*  39 */ "value ::= INTEGER",
+ /*  40 */ "value ::= FLOAT",
+ /*  41 */ "value ::= STRING",
+ /*  42 */ "typedecl ::= INT_DECL",
+ /*  43 */ "typedecl ::= FLOAT_DECL",
+ /*  44 */ "typedecl ::= STRING_DECL",
 };
 #endif /* NDEBUG */
 
@@ -691,31 +685,28 @@ static const struct {
   { 31, 3 },
   { 31, 3 },
   { 31, 1 },
-  { 33, 3 },
-  { 33, 3 },
+  { 33, 2 },
+  { 33, 2 },
   { 33, 1 },
-  { 32, 2 },
-  { 32, 2 },
+  { 32, 3 },
+  { 32, 3 },
   { 32, 1 },
   { 34, 3 },
-  { 34, 3 },
   { 34, 1 },
+  { 36, 2 },
+  { 36, 2 },
+  { 36, 1 },
+  { 35, 3 },
+  { 35, 4 },
   { 35, 3 },
   { 35, 1 },
-  { 37, 2 },
-  { 37, 2 },
+  { 37, 3 },
   { 37, 1 },
-  { 36, 3 },
-  { 36, 4 },
-  { 36, 3 },
-  { 36, 1 },
-  { 38, 3 },
   { 38, 1 },
-  { 39, 1 },
-  { 39, 1 },
-  { 39, 1 },
-  { 39, 1 },
-  { 39, 1 },
+  { 38, 1 },
+  { 38, 1 },
+  { 38, 1 },
+  { 38, 1 },
   { 26, 1 },
   { 26, 1 },
   { 26, 1 },
@@ -776,207 +767,192 @@ static void yy_reduce(
       case 3: /* statement ::= typedecl decllist SEMICOLON */
 #line 26 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 1"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yymsp[-1].minor.yy0.storeVariable(yymsp[-2].minor.yy0); }
-#line 780 "deckgrammar.c"
+#line 771 "deckgrammar.c"
         break;
       case 4: /* statement ::= assignment SEMICOLON */
 #line 27 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 2"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yymsp[-1].minor.yy0.updateVariable(); }
-#line 785 "deckgrammar.c"
+#line 776 "deckgrammar.c"
         break;
       case 7: /* statement ::= RBRACE */
 #line 30 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 3"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yymsp[0].minor.yy0.endBlock(); }
-#line 790 "deckgrammar.c"
+#line 781 "deckgrammar.c"
         break;
       case 9: /* startblock ::= IDENTIFIER IDENTIFIER LBRACE */
 #line 33 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 4"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yymsp[-2].minor.yy0.createBlock(yymsp[-1].minor.yy0); }
-#line 795 "deckgrammar.c"
+#line 786 "deckgrammar.c"
         break;
       case 10: /* startblock ::= IDENTIFIER LBRACE */
 #line 34 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 5"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yymsp[-1].minor.yy0.createBlock(yymsp[-1].minor.yy0); }
-#line 800 "deckgrammar.c"
+#line 791 "deckgrammar.c"
         break;
       case 11: /* decllist ::= decllist COMMA declaration */
 #line 36 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 6"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yymsp[0].minor.yy0.append(yymsp[-2].minor.yy0); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 805 "deckgrammar.c"
+#line 796 "deckgrammar.c"
         break;
       case 12: /* decllist ::= declaration */
 #line 37 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 7"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 810 "deckgrammar.c"
+#line 801 "deckgrammar.c"
         break;
       case 13: /* declaration ::= IDENTIFIER */
 #line 39 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 8"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 815 "deckgrammar.c"
+#line 806 "deckgrammar.c"
         break;
       case 14: /* declaration ::= assignment */
 #line 40 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 9"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 820 "deckgrammar.c"
+#line 811 "deckgrammar.c"
         break;
       case 16: /* assignment ::= IDENTIFIER EQUAL expression */
 #line 43 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 10"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.evaluateExpression(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 825 "deckgrammar.c"
+#line 816 "deckgrammar.c"
         break;
-      case 17: /* expression ::= signed_term_expression PLUS unsigned_expression */
+      case 17: /* expression ::= expression PLUS term_expression */
 #line 45 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 11"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorAdd>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 830 "deckgrammar.c"
+#line 821 "deckgrammar.c"
         break;
-      case 18: /* expression ::= signed_term_expression MINUS unsigned_expression */
+      case 18: /* expression ::= expression MINUS term_expression */
 #line 46 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 12"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorSubtract>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 835 "deckgrammar.c"
+#line 826 "deckgrammar.c"
         break;
       case 19: /* expression ::= signed_term_expression */
 #line 47 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 13"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 840 "deckgrammar.c"
+#line 831 "deckgrammar.c"
         break;
-      case 20: /* unsigned_expression ::= term_expression PLUS unsigned_expression */
+      case 20: /* signed_term_expression ::= PLUS term_expression */
 #line 49 "deckgrammar.y"
-{ SCHNEK_TRACE_LOG(5,"Parser: Rule 14"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorAdd>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 845 "deckgrammar.c"
-        break;
-      case 21: /* unsigned_expression ::= term_expression MINUS unsigned_expression */
-#line 50 "deckgrammar.y"
-{ SCHNEK_TRACE_LOG(5,"Parser: Rule 15"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorSubtract>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 850 "deckgrammar.c"
-        break;
-      case 22: /* unsigned_expression ::= term_expression */
-#line 51 "deckgrammar.y"
-{ SCHNEK_TRACE_LOG(5,"Parser: Rule 16"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 855 "deckgrammar.c"
-        break;
-      case 23: /* signed_term_expression ::= PLUS term_expression */
-#line 53 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 17"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 860 "deckgrammar.c"
+#line 836 "deckgrammar.c"
         break;
-      case 24: /* signed_term_expression ::= MINUS term_expression */
-#line 54 "deckgrammar.y"
+      case 21: /* signed_term_expression ::= MINUS term_expression */
+#line 50 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 18"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorNeg>(yymsp[0].minor.yy0); }
-#line 865 "deckgrammar.c"
+#line 841 "deckgrammar.c"
         break;
-      case 25: /* signed_term_expression ::= term_expression */
-#line 55 "deckgrammar.y"
+      case 22: /* signed_term_expression ::= term_expression */
+#line 51 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 19"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 870 "deckgrammar.c"
+#line 846 "deckgrammar.c"
         break;
-      case 26: /* term_expression ::= exp_expression TIMES term_expression */
-#line 57 "deckgrammar.y"
+      case 23: /* term_expression ::= term_expression TIMES exp_expression */
+#line 53 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 20"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorMultiply>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 875 "deckgrammar.c"
+#line 851 "deckgrammar.c"
         break;
-      case 27: /* term_expression ::= exp_expression DIVIDE term_expression */
-#line 58 "deckgrammar.y"
+      case 24: /* term_expression ::= term_expression DIVIDE exp_expression */
+#line 54 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 21"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorDivide>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 880 "deckgrammar.c"
+#line 856 "deckgrammar.c"
         break;
-      case 28: /* term_expression ::= exp_expression */
-#line 59 "deckgrammar.y"
+      case 25: /* term_expression ::= exp_expression */
+#line 55 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 22"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 885 "deckgrammar.c"
+#line 861 "deckgrammar.c"
         break;
-      case 29: /* exp_expression ::= atomic_expression EXPONENT signed_atomic_expression */
-#line 60 "deckgrammar.y"
+      case 26: /* exp_expression ::= atomic_expression EXPONENT signed_atomic_expression */
+#line 56 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 23"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorExponent>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 890 "deckgrammar.c"
+#line 866 "deckgrammar.c"
         break;
-      case 30: /* exp_expression ::= atomic_expression */
-#line 61 "deckgrammar.y"
+      case 27: /* exp_expression ::= atomic_expression */
+#line 57 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 23b"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 895 "deckgrammar.c"
+#line 871 "deckgrammar.c"
         break;
-      case 31: /* signed_atomic_expression ::= PLUS atomic_expression */
-#line 63 "deckgrammar.y"
+      case 28: /* signed_atomic_expression ::= PLUS atomic_expression */
+#line 59 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 24"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 900 "deckgrammar.c"
+#line 876 "deckgrammar.c"
         break;
-      case 32: /* signed_atomic_expression ::= MINUS atomic_expression */
-#line 64 "deckgrammar.y"
+      case 29: /* signed_atomic_expression ::= MINUS atomic_expression */
+#line 60 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 25"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorNeg>(yymsp[0].minor.yy0); }
-#line 905 "deckgrammar.c"
+#line 881 "deckgrammar.c"
         break;
-      case 33: /* signed_atomic_expression ::= atomic_expression */
-#line 65 "deckgrammar.y"
+      case 30: /* signed_atomic_expression ::= atomic_expression */
+#line 61 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 26"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 910 "deckgrammar.c"
+#line 886 "deckgrammar.c"
         break;
-      case 34: /* atomic_expression ::= LBRACKET expression RBRACKET */
-#line 67 "deckgrammar.y"
+      case 31: /* atomic_expression ::= LBRACKET expression RBRACKET */
+#line 63 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 27"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorId>(yymsp[-1].minor.yy0); }
-#line 915 "deckgrammar.c"
+#line 891 "deckgrammar.c"
         break;
-      case 35: /* atomic_expression ::= IDENTIFIER LBRACKET expressionlist RBRACKET */
-#line 68 "deckgrammar.y"
+      case 32: /* atomic_expression ::= IDENTIFIER LBRACKET expressionlist RBRACKET */
+#line 64 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 28"<< toString(yymsp[-3].minor.yy0.getType()) << " " << yymsp[-3].minor.yy0.getString()<< " "<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yygotominor.yy0.assignFunction(yymsp[-3].minor.yy0,yymsp[-1].minor.yy0); }
-#line 920 "deckgrammar.c"
+#line 896 "deckgrammar.c"
         break;
-      case 36: /* atomic_expression ::= IDENTIFIER LBRACKET RBRACKET */
-#line 69 "deckgrammar.y"
+      case 33: /* atomic_expression ::= IDENTIFIER LBRACKET RBRACKET */
+#line 65 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 28b"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignFunction(yymsp[-2].minor.yy0); }
-#line 925 "deckgrammar.c"
+#line 901 "deckgrammar.c"
         break;
-      case 37: /* atomic_expression ::= value */
-#line 71 "deckgrammar.y"
+      case 34: /* atomic_expression ::= value */
+#line 67 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 29"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorId>(yymsp[0].minor.yy0); }
-#line 930 "deckgrammar.c"
+#line 906 "deckgrammar.c"
         break;
-      case 38: /* expressionlist ::= expressionlist COMMA expression */
-#line 73 "deckgrammar.y"
+      case 35: /* expressionlist ::= expressionlist COMMA expression */
+#line 69 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 30"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yymsp[0].minor.yy0.append(yymsp[-2].minor.yy0); yygotominor.yy0=yymsp[0].minor.yy0; }
-#line 935 "deckgrammar.c"
+#line 911 "deckgrammar.c"
         break;
-      case 39: /* expressionlist ::= expression */
-#line 74 "deckgrammar.y"
+      case 36: /* expressionlist ::= expression */
+#line 70 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 31"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; yygotominor.yy0.makeExpressionList(); }
-#line 940 "deckgrammar.c"
+#line 916 "deckgrammar.c"
         break;
-      case 40: /* value ::= PATHIDENTIFIER */
-#line 76 "deckgrammar.y"
+      case 37: /* value ::= PATHIDENTIFIER */
+#line 72 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 32"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignIdentifier(yymsp[0].minor.yy0); }
-#line 945 "deckgrammar.c"
+#line 921 "deckgrammar.c"
         break;
-      case 41: /* value ::= IDENTIFIER */
-#line 77 "deckgrammar.y"
+      case 38: /* value ::= IDENTIFIER */
+#line 73 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 33"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignIdentifier(yymsp[0].minor.yy0); }
-#line 950 "deckgrammar.c"
+#line 926 "deckgrammar.c"
         break;
-      case 42: /* value ::= INTEGER */
-#line 78 "deckgrammar.y"
+      case 39: /* value ::= INTEGER */
+#line 74 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 34"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignInteger(yymsp[0].minor.yy0); }
-#line 955 "deckgrammar.c"
+#line 931 "deckgrammar.c"
         break;
-      case 43: /* value ::= FLOAT */
-#line 79 "deckgrammar.y"
+      case 40: /* value ::= FLOAT */
+#line 75 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 35"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignFloat(yymsp[0].minor.yy0); }
-#line 960 "deckgrammar.c"
+#line 936 "deckgrammar.c"
         break;
-      case 44: /* value ::= STRING */
-#line 80 "deckgrammar.y"
+      case 41: /* value ::= STRING */
+#line 76 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 36"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignString(yymsp[0].minor.yy0); }
-#line 965 "deckgrammar.c"
+#line 941 "deckgrammar.c"
         break;
-      case 45: /* typedecl ::= INT_DECL */
-#line 82 "deckgrammar.y"
+      case 42: /* typedecl ::= INT_DECL */
+#line 78 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 37"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 970 "deckgrammar.c"
+#line 946 "deckgrammar.c"
         break;
-      case 46: /* typedecl ::= FLOAT_DECL */
-#line 83 "deckgrammar.y"
+      case 43: /* typedecl ::= FLOAT_DECL */
+#line 79 "deckgrammar.y"
 {  SCHNEK_TRACE_LOG(5,"Parser: Rule 38"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 975 "deckgrammar.c"
+#line 951 "deckgrammar.c"
         break;
-      case 47: /* typedecl ::= STRING_DECL */
-#line 84 "deckgrammar.y"
+      case 44: /* typedecl ::= STRING_DECL */
+#line 80 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 39 "<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 980 "deckgrammar.c"
+#line 956 "deckgrammar.c"
         break;
       default:
       /* (0) deck ::= statementlist */ yytestcase(yyruleno==0);
@@ -1048,7 +1024,7 @@ static void yy_syntax_error(
 #line 17 "deckgrammar.y"
 
   throw ParserInternalError();
-#line 1052 "deckgrammar.c"
+#line 1028 "deckgrammar.c"
   ParseARG_STORE; /* Suppress warning about unused %extra_argument variable */
 }
 
-- 
2.43.0


From 50eb4bb34d3adde5939c379e111ba1ec8758b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:39 +0000
Subject: [PATCH 18/49] fix: long tokens and comments must not hang the setup
 file scanner

---
 parser/deckscanner.rl               | 23 +++++++++++++----------
 src/parser/internal/deckscanner.cpp | 23 +++++++++++++----------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index ebacad4..f88dead 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -7,6 +7,7 @@
 #include <string>
 #include <cstring>
 #include <cstdio>
+#include <vector>
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
@@ -103,7 +104,7 @@ using namespace schnek;
     
 void DeckScanner::do_scan(TokenList &tlist)
 {
-  static char buf[BUFSIZE];
+  std::vector<char> buf(BUFSIZE);
   int cs; 
   int act; 
   int have = 0;
@@ -115,16 +116,18 @@ void DeckScanner::do_scan(TokenList &tlist)
   %% write init;
 
   while ( !done ) {
-    char *p = buf + have, *pe, *eof = 0;
-    int len, space = BUFSIZE - have;
-    
-    if ( space == 0 ) {
+    if ( have == (int)buf.size() ) {
       /* We've used up the entire buffer storing an already-parsed token
        * prefix that must be preserved. */
-      std::cerr << "OUT OF BUFFER SPACE\n";
-      // exit(1);
+      std::ptrdiff_t te_offset = te - ts;
+      buf.resize(2*buf.size());
+      ts = &buf[0];
+      te = ts + te_offset;
     }
 
+    char *p = &buf[0] + have, *pe, *eof = 0;
+    int len, space = buf.size() - have;
+
     input->read(p,space);
     len = input->gcount();
     //len = fread( p, 1, space, *input );
@@ -148,9 +151,9 @@ void DeckScanner::do_scan(TokenList &tlist)
     else {
       /* There is a prefix to preserve, shift it over. */
       have = pe - ts;
-      memmove( buf, ts, have );
-      te = buf + (te-ts);
-      ts = buf;
+      memmove( &buf[0], ts, have );
+      te = &buf[0] + (te-ts);
+      ts = &buf[0];
     }
   }
 }
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index aa6c180..8f55274 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -9,6 +9,7 @@
 #include <string>
 #include <cstring>
 #include <cstdio>
+#include <vector>
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
@@ -216,7 +217,7 @@ static const int deck_en_main = 10;
     
 void DeckScanner::do_scan(TokenList &tlist)
 {
-  static char buf[BUFSIZE];
+  std::vector<char> buf(BUFSIZE);
   int cs; 
   int act; 
   int have = 0;
@@ -237,16 +238,18 @@ void DeckScanner::do_scan(TokenList &tlist)
 
 
   while ( !done ) {
-    char *p = buf + have, *pe, *eof = 0;
-    int len, space = BUFSIZE - have;
-    
-    if ( space == 0 ) {
+    if ( have == (int)buf.size() ) {
       /* We've used up the entire buffer storing an already-parsed token
        * prefix that must be preserved. */
-      std::cerr << "OUT OF BUFFER SPACE\n";
-      // exit(1);
+      std::ptrdiff_t te_offset = te - ts;
+      buf.resize(2*buf.size());
+      ts = &buf[0];
+      te = ts + te_offset;
     }
 
+    char *p = &buf[0] + have, *pe, *eof = 0;
+    int len, space = buf.size() - have;
+
     input->read(p,space);
     len = input->gcount();
     //len = fread( p, 1, space, *input );
@@ -557,9 +560,9 @@ _again:
     else {
       /* There is a prefix to preserve, shift it over. */
       have = pe - ts;
-      memmove( buf, ts, have );
-      te = buf + (te-ts);
-      ts = buf;
+      memmove( &buf[0], ts, have );
+      te = &buf[0] + (te-ts);
+      ts = &buf[0];
     }
   }
 }
-- 
2.43.0


From 2dd3faf5e05a859de3a553c26f46f94f573afba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:39 +0000
Subject: [PATCH 19/49] fix: a comment at the end of a setup file does not need
 a newline

---
 parser/deckscanner.rl               | 2 ++
 src/parser/internal/deckscanner.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index f88dead..753b778 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -135,6 +135,8 @@ void DeckScanner::do_scan(TokenList &tlist)
 
     /* Check if this is the end of file. */
     if ( len < space ) {
+      /* Terminate the last line, it might end with a comment. */
+      *pe++ = '\n';
       eof = pe;
       done = 1;
     }
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index 8f55274..453c6ff 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -257,6 +257,8 @@ void DeckScanner::do_scan(TokenList &tlist)
 
     /* Check if this is the end of file. */
     if ( len < space ) {
+      /* Terminate the last line, it might end with a comment. */
+      *pe++ = '\n';
       eof = pe;
       done = 1;
     }
-- 
2.43.0


From 0dd44a3e42f25acf93de584b62a1e3ad7ee8ed47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:20 +0000
Subject: [PATCH 20/49] fix: report characters that are not part of the setup
 file language as an error

The scanner printed a message and ignored the rest of the file.
---
 parser/deckscanner.rl               | 10 ++++++----
 src/parser/internal/deckscanner.cpp | 10 ++++++----
 src/parser/tokenlist.hpp            |  6 ++++++
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index 753b778..123f9e0 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -11,6 +11,7 @@
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
+#include "../parsertoken.hpp"
 
 using namespace schnek;
 
@@ -143,10 +144,11 @@ void DeckScanner::do_scan(TokenList &tlist)
             
     %% write exec;
 
-    if ( cs == deck_error ) {
-      std::cerr << "TOKENISER ERROR " << cur_line << "\n";
-      break;
-    }
+    if ( cs == deck_error )
+      throw ParserError("Unexpected character", Token(tlist.getFilename(), cur_line, 0));
+
+    if ( done && (cs != deck_start) )
+      throw ParserError("Unexpected end of file", Token(tlist.getFilename(), cur_line, 0));
 
     if ( ts == 0 )
       have = 0;
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index 453c6ff..21c6994 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -13,6 +13,7 @@
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
+#include "../parsertoken.hpp"
 
 using namespace schnek;
 
@@ -552,10 +553,11 @@ _again:
 
 
 
-    if ( cs == deck_error ) {
-      std::cerr << "TOKENISER ERROR " << cur_line << "\n";
-      break;
-    }
+    if ( cs == deck_error )
+      throw ParserError("Unexpected character", Token(tlist.getFilename(), cur_line, 0));
+
+    if ( done && (cs != deck_start) )
+      throw ParserError("Unexpected end of file", Token(tlist.getFilename(), cur_line, 0));
 
     if ( ts == 0 )
       have = 0;
diff --git a/src/parser/tokenlist.hpp b/src/parser/tokenlist.hpp
index 7dfcecd..e902f92 100644
--- a/src/parser/tokenlist.hpp
+++ b/src/parser/tokenlist.hpp
@@ -161,6 +161,12 @@ class TokenList
       tlist.insert(tlist.begin(), tokens.begin(), tokens.end());
     }
 
+    /// Returns the name of the file from which the tokens are read
+    std::string getFilename() const
+    {
+      return filename;
+    }
+
     /// Returns an iterator to the beginning of the list
     const_iterator begin() const
     {
-- 
2.43.0


From 05e7d2ce0806944df38841c738b9e38bfc085fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:20 +0000
Subject: [PATCH 21/49] fix: a name starting with e followed by a sign is not a
 number

---
 parser/deckscanner.rl               | 2 +-
 src/parser/internal/deckscanner.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index 123f9e0..fd2703e 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -93,7 +93,7 @@ using namespace schnek;
 	# Match a floating point number.
 	float_exp = [eE] [+\-]? digit+;
 	float_dec = '.' digit* float_exp?;
-	digit* (float_dec | float_exp) { tlist.insert(cur_line, FLOAT,ts,te-ts); };
+	(digit* float_dec | digit+ float_exp) { tlist.insert(cur_line, FLOAT,ts,te-ts); };
 
 	*|;
 }%%
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index 21c6994..04a9c34 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -126,7 +126,7 @@ static const char _deck_indicies[] = {
 	32, 20, 18, 43, 43, 27, 42, 10, 
 	42, 45, 12, 44, 27, 43, 43, 29, 
 	46, 47, 32, 32, 32, 32, 8, 47, 
-	47, 47, 47, 48, 9, 9, 47, 32, 
+	47, 47, 47, 48, 49, 49, 47, 32, 
 	50, 32, 32, 49, 47, 32, 50, 32, 
 	32, 49, 47, 32, 51, 32, 32, 32, 
 	49, 47, 32, 52, 32, 32, 32, 49, 
-- 
2.43.0


From 0529505a5c521448927560ffb68b8d3027fb8c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:53 +0000
Subject: [PATCH 22/49] fix: a syntax error at the end of a setup file is a
 parser error

---
 src/parser/parser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.cpp b/src/parser/parser.cpp
index e2fc8df..702f426 100644
--- a/src/parser/parser.cpp
+++ b/src/parser/parser.cpp
@@ -80,6 +80,7 @@ pBlock Parser::parse(std::istream &input, std::string filename)
     context.blockTree->moveDown();
   }
 
+  Token lastToken(filename, 1, 0);
   for(Token tok: tokens)
   {
     try{
@@ -88,9 +89,15 @@ pBlock Parser::parse(std::istream &input, std::string filename)
     catch (ParserInternalError & e) {
       throw ParserError("Syntax Error", tok);
     }
+    lastToken = tok;
   }
 
-  Parse(pParser, 0, ParserToken());
+  try{
+    Parse(pParser, 0, ParserToken());
+  }
+  catch (ParserInternalError & e) {
+    throw ParserError("Syntax Error", lastToken);
+  }
 
   ParseFree(pParser);
 
-- 
2.43.0


From d839173b23802b55b26ea58ab476120aa61c89f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:53 +0000
Subject: [PATCH 23/49] fix: report a number in a setup file that can not be
 represented as a parser error

---
 src/parser/parsertoken.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/parser/parsertoken.cpp b/src/parser/parsertoken.cpp
index 14db956..2bf36ca 100644
--- a/src/parser/parsertoken.cpp
+++ b/src/parser/parsertoken.cpp
@@ -96,8 +96,15 @@ void ParserToken::assignInteger(ParserToken &parTok)
   if (parTok.getType() != atom) throw ParserError("Can't convert non-atom token to integer", atomTok);
   if (atomTok.getToken() != INTEGER) throw ParserError("Can't convert non-integer atom to integer", atomTok);
 
-  pIntExpression pI(new Value<int>(boost::lexical_cast<int>(atomTok.getString())));
-  data = pI;
+  try
+  {
+    pIntExpression pI(new Value<int>(boost::lexical_cast<int>(atomTok.getString())));
+    data = pI;
+  }
+  catch (boost::bad_lexical_cast&)
+  {
+    throw ParserError("Can't represent number '"+atomTok.getString()+"'", atomTok);
+  }
   type = int_type;
   // std::cerr << "Read Integer " << atomTok.getString() << "\n";
 }
@@ -110,8 +117,15 @@ void ParserToken::assignFloat(ParserToken &parTok)
   if (parTok.getType() != atom) throw ParserError("Can't convert non-atom token to integer", atomTok);
   if (atomTok.getToken() != FLOAT) throw ParserError("Can't convert non-float atom to float", atomTok);
 
-  pFloatExpression pF(new Value<double>(boost::lexical_cast<double>(atomTok.getString())));
-  data = pF;
+  try
+  {
+    pFloatExpression pF(new Value<double>(boost::lexical_cast<double>(atomTok.getString())));
+    data = pF;
+  }
+  catch (boost::bad_lexical_cast&)
+  {
+    throw ParserError("Can't represent number '"+atomTok.getString()+"'", atomTok);
+  }
   type = float_type;
   // std::cerr << "Read Float " << atomTok.getString() << "\n";
 }
-- 
2.43.0


From c615d386310e39f1c3fa374be0974504807aa9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:53 +0000
Subject: [PATCH 24/49] fix: initAll must find the root block from any depth

---
 src/variables/block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/block.cpp b/src/variables/block.cpp
index dab2ed1..638ff97 100644
--- a/src/variables/block.cpp
+++ b/src/variables/block.cpp
@@ -137,7 +137,7 @@ void Block::postInitHierarchy()
 void Block::initAll()
 {
   Block *b = this;
-  while (b->parent) b = &(*parent);
+  while (b->parent) b = b->parent.get();
 
   b->evaluateParameters();
   b->registerHierarchy();
-- 
2.43.0


From a99ec920ed697b8b2cc813410f7dd3dd5feb3a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:53 +0000
Subject: [PATCH 25/49] fix: BlockVariables::exists must use the search pattern
 of getVariable

---
 src/variables/variables.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variables/variables.cpp b/src/variables/variables.cpp
index ef872e9..52dedab 100644
--- a/src/variables/variables.cpp
+++ b/src/variables/variables.cpp
@@ -146,7 +146,7 @@ bool BlockVariables::exists(std::list<std::string> path, bool upward)
   {
     if (vars.count(name)>0) return true;
   }
-  if (upward && (parent.get()==0)) return parent->exists(path, true);
+  if (upward && parent) return parent->exists(path, true);
 
   return false;
 }
@@ -154,7 +154,7 @@ bool BlockVariables::exists(std::list<std::string> path, bool upward)
 bool BlockVariables::exists(std::string name)
 {
   std::list<std::string> path;
-  boost::split(path, name, boost::is_any_of("."));
+  boost::split(path, name, boost::is_any_of(":"));
   return exists(path, true);
 }
 
-- 
2.43.0


From e425a72b5d72292781d4ae49539d974726d72f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:53 +0000
Subject: [PATCH 26/49] fix: ParametersGroup::hasElements erased elements of
 another set

---
 src/variables/blockparameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/blockparameters.cpp b/src/variables/blockparameters.cpp
index 8f58e99..b551acf 100644
--- a/src/variables/blockparameters.cpp
+++ b/src/variables/blockparameters.cpp
@@ -51,7 +51,7 @@ bool ParametersGroup::isElement(pVariable v)
 
 bool ParametersGroup::hasElements(std::set<long> &ids)
 {
-  ids.erase(parameters.begin(), parameters.end());
+  for (long id: parameters) ids.erase(id);
   return ids.empty();
 }
 
-- 
2.43.0


From 46b1d88508221bdef53bad1d9595e56a7670ea40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:53 +0000
Subject: [PATCH 27/49] fix: report variables that depend on each other as an
 error

---
 src/variables/dependencies.cpp | 682 ++++++++++++++++-----------------
 1 file changed, 341 insertions(+), 341 deletions(-)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index e6db25e..eb95e24 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -1,341 +1,341 @@
-/*
- * dependencies.cpp
- *
- * Created on: 10 Jul 2012
- * Author: Holger Schmitz
- * Email: holger@notjustphysics.com
- *
- * Copyright 2012 Holger Schmitz
- *
- * This file is part of Schnek.
- *
- * Schnek is free software: you can redistribute it and/or modify
- * it under the terms of the GNU General Public License as published by
- * the Free Software Foundation, either version 3 of the License, or
- * (at your option) any later version.
- *
- * Schnek is distributed in the hope that it will be useful,
- * but WITHOUT ANY WARRANTY; without even the implied warranty of
- * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- * GNU General Public License for more details.
- *
- * You should have received a copy of the GNU General Public License
- * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
- *
- */
-
-#include "dependencies.hpp"
-#include "expression.hpp"
-#include "../exception.hpp"
-#include "../util/logger.hpp"
-
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
-
-#include <boost/variant/apply_visitor.hpp>
-
-#pragma GCC diagnostic pop
-
-#include <cassert>
-
-#undef LOGLEVEL
-#define LOGLEVEL 0
-
-using namespace schnek;
-
-DependencyMap::DependencyMap(const pBlockVariables vars)
-{
-
-  static int dummyInt = 0;
-  typedef std::shared_ptr<Expression<int> > ParExpression;
-  ParExpression pexp(new ExternalValue<int>(&dummyInt));
-  pVariable tmp(new Variable(pexp, true, true));
-  dummyVar = tmp;
-
-  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
-  //dependencies[-1] = dummyInfo;
-  dependencies[dummyVar->getId()] = dummyInfo;
-//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
-
-  blockVars = vars;
-  constructMap(vars);
-}
-
-void DependencyMap::constructMapRecursive(const pBlockVariables vars)
-{
-  for(VariableMap::value_type it: vars->getVariables())
-  {
-    pVariable v=it.second;
-    if (!v->isConstant())
-    {
-      SCHNEK_TRACE_LOG(3,"Adding variable " << it.first << " " << v->getId());
-      DependenciesGetter depGet;
-      DependencySet dep = boost::apply_visitor(depGet, v->getExpression());
-      if (dep.count(-1)>0)
-      {
-        dep.erase(-1);
-        dep.insert(dummyVar->getId());
-      }
-
-      long id = v->getId();
-      if (dependencies.count(id)>0) throw SchnekException();
-      dependencies[id] = VarInfo(v, dep, DependencySet());
-    }
-  }
-
-  for(pBlockVariables ch: vars->getChildren())
-  {
-    constructMapRecursive(ch);
-  }
-}
-void DependencyMap::constructMap(const pBlockVariables vars)
-{
-  SCHNEK_TRACE_ENTER_FUNCTION(3);
-
-
-  constructMapRecursive(vars);
-
-  for(DepMap::value_type entry: dependencies)
-  {
-    SCHNEK_TRACE_LOG(3,"Setting Dependency " << entry.first << " " << entry.second.v->getId());
-    for(long id: entry.second.dependsOn)
-    {
-      if (dependencies.count(id)>0) {
-        SCHNEK_TRACE_LOG(3,"Adding to modifies of " << id);
-        dependencies[id].modifies.insert(entry.first);
-      }
-    }
-  }
-
-  SCHNEK_TRACE_EXIT_FUNCTION(3);
-}
-
-void DependencyMap::resetCounters()
-{
-  for(DepMap::value_type entry: dependencies)
-  {
-    entry.second.counter = entry.second.dependsOn.size();
-  }
-}
-
-void DependencyMap::makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList)
-{
-  pRefDepMap reverseDeps = makeUpdatePredecessors(independentVars, dependentVars);
-  pRefDepMap deps = makeUpdateFollowers(independentVars, reverseDeps);
-  makeUpdateOrder(deps, updateList);
-}
-
-DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSet &independentVars,
-                                                                const VariableSet &dependentVars)
-{
-  std::list<VarInfo*> workingSet;
-  pRefDepMap predecessors_p(new RefDepMap());
-  RefDepMap &predecessors = *predecessors_p; // only used for more readable code
-
-  // first initialise the working set and also add the variables to the predecessors
-  for(pVariable v: dependentVars)
-  {
-    long id=v->getId();
-    VarInfo *vi = &(dependencies[id]);
-    workingSet.push_back(vi);
-    predecessors[id] = vi;
-  }
-
-  // take elements out of the working set and analyse their predecessors
-  while (!workingSet.empty())
-  {
-    VarInfo *vi = workingSet.front();
-    workingSet.pop_front();
-
-    for(long id: vi->dependsOn)
-    {
-      // check if we already considered this variable
-      if (predecessors.count(id) > 0) continue;
-
-      // A negative id signals that the expression should be re-evaluated for every change.
-      // To do this we add all independent variables to the predecessors list.
-      if (id<0)
-      {
-        for(pVariable indVar: independentVars)
-        {
-          long indId = indVar->getId();
-          if (predecessors.count(indId) == 0)
-          {
-            // if not, put predecessors in the working set and in the map
-            VarInfo *pred = &(dependencies[indId]);
-            workingSet.push_back(pred);
-            predecessors[indId] = pred;
-          }
-        }
-      }
-      else
-      {
-        // if not, put predecessors in the working set and in the map
-        VarInfo *pred = &(dependencies[id]);
-        workingSet.push_back(pred);
-        predecessors[id] = pred;
-      }
-    }
-  }
-
-  // The map now contains all the predecessors of the dependent variables but note
-  // that the VarInfo::modifies sets are not restricted to this map.
-  return predecessors_p;
-
-}
-
-DependencyMap::pRefDepMap DependencyMap::makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap predecessors_p)
-{
-  std::list<VarInfo*> workingSet;
-  pRefDepMap followers_p(new RefDepMap());
-  RefDepMap &followers = *followers_p;
-  RefDepMap &predecessors = *predecessors_p;
-
-  // first initialise the working set and also add the variables to the followers
-  for(pVariable v: independentVars)
-  {
-    long id=v->getId();
-    // the variable is not needed if it is not in the predecessors
-    if (predecessors.count(id) == 0) continue;
-    VarInfo *vi = predecessors[id];
-    workingSet.push_back(vi);
-    followers[id] = vi;
-  }
-
-  // take elements out of the working set and analyse their predecessors
-  while (!workingSet.empty())
-  {
-    VarInfo *vi = workingSet.front();
-    workingSet.pop_front();
-
-    for(long id: vi->modifies)
-    {
-      // check if we already considered this variable or if we need it at all
-      if ((followers.count(id) > 0) || (predecessors.count(id) == 0)) continue;
-
-      // if not, put predecessors in the working set and in the map
-      VarInfo *foll = predecessors[id];
-      workingSet.push_back(foll);
-      followers[id] = foll;
-    }
-  }
-
-  // The map now contains all the predecessors of the dependent variables but note
-  // that the VarInfo::modifies sets are not restricted to this map.
-  return followers_p;
-
-}
-
-void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
-{
-  typedef std::list<VarInfo*>::iterator WorkIter;
-
-  std::list<VarInfo*> workingSet;
-  RefDepMap &deps = *deps_p;
-
-  updateList.clear();
-
-  // first initialise the counters
-  for(RefDepMap::value_type entry: deps)
-  {
-
-    int count = 0;
-    VarInfo *vi = entry.second;
-    workingSet.push_back(vi);
-    for(long id: vi->dependsOn)
-    {
-      if (deps.count(id) > 0) ++count;
-    }
-    entry.second->counter = count;
-  }
-
-  while (!workingSet.empty())
-  {
-    VarInfo *nextEval = 0;
-    WorkIter it = workingSet.begin();
-    while ((nextEval==0) && (it!=workingSet.end()))
-    {
-      if ((*it)->counter==0) nextEval=*it;
-      else ++it;
-    }
-
-    assert(nextEval != 0);
-
-    workingSet.erase(it);
-    updateList.push_back(nextEval->v);
-
-    for(long id: nextEval->modifies)
-    {
-      if (deps.count(id) == 0) continue;
-      VarInfo *vi = deps[id];
-      --(vi->counter);
-      assert(vi->counter >= 0);
-    }
-  }
-}
-
-pBlockVariables DependencyMap::getBlockVariables()
-{
-  return blockVars;
-}
-
-void DependencyMap::updateAll()
-{
-  pRefDepMap deps(new RefDepMap());
-  for(DepMap::value_type &entry: dependencies)
-  {
-    deps->insert(RefDepMap::value_type(entry.first, &entry.second));
-  }
-
-  VariableList updateList;
-
-  makeUpdateOrder(deps, updateList);
-
-  for(pVariable v: updateList) {
-    try
-    {
-      v->evaluateExpression();
-    }
-    catch(...)
-    {
-      // no-op, bulkhead
-    }
-  }
-}
-
-
-DependencyUpdater::DependencyUpdater(pDependencyMap dependencies_)
-  : dependencies(dependencies_), isValid(true)
-{
-  assert(dependencies->dummyVar->isReadOnly());
-  independentVars.insert(dependencies->dummyVar);
-}
-
-
-void DependencyUpdater::addIndependent(pParameter p)
-{
-  assert(p->getVariable()->isReadOnly());
-  independentVars.insert(p->getVariable());
-  isValid = false;
-}
-
-void DependencyUpdater::addDependent(pParameter p)
-{
-  assert(!!p);
-  // only non-constant variables have to be updated using the DependencyUpdater
-  if (p->getVariable()->isConstant())
-  {
-    p->update();
-    return;
-  }
-  dependentParameters.insert(p);
-  dependentVars.insert(p->getVariable());
-  isValid = false;
-}
-
-void DependencyUpdater::clearDependent()
-{
-  dependentParameters.clear();
-  dependentVars.clear();
-  isValid = false;
-}
+/*
+ * dependencies.cpp
+ *
+ * Created on: 10 Jul 2012
+ * Author: Holger Schmitz
+ * Email: holger@notjustphysics.com
+ *
+ * Copyright 2012 Holger Schmitz
+ *
+ * This file is part of Schnek.
+ *
+ * Schnek is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ *
+ * Schnek is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ *
+ * You should have received a copy of the GNU General Public License
+ * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
+ *
+ */
+
+#include "dependencies.hpp"
+#include "expression.hpp"
+#include "../exception.hpp"
+#include "../util/logger.hpp"
+
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
+
+#include <boost/variant/apply_visitor.hpp>
+
+#pragma GCC diagnostic pop
+
+#include <cassert>
+
+#undef LOGLEVEL
+#define LOGLEVEL 0
+
+using namespace schnek;
+
+DependencyMap::DependencyMap(const pBlockVariables vars)
+{
+
+  static int dummyInt = 0;
+  typedef std::shared_ptr<Expression<int> > ParExpression;
+  ParExpression pexp(new ExternalValue<int>(&dummyInt));
+  pVariable tmp(new Variable(pexp, true, true));
+  dummyVar = tmp;
+
+  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
+  //dependencies[-1] = dummyInfo;
+  dependencies[dummyVar->getId()] = dummyInfo;
+//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
+
+  blockVars = vars;
+  constructMap(vars);
+}
+
+void DependencyMap::constructMapRecursive(const pBlockVariables vars)
+{
+  for(VariableMap::value_type it: vars->getVariables())
+  {
+    pVariable v=it.second;
+    if (!v->isConstant())
+    {
+      SCHNEK_TRACE_LOG(3,"Adding variable " << it.first << " " << v->getId());
+      DependenciesGetter depGet;
+      DependencySet dep = boost::apply_visitor(depGet, v->getExpression());
+      if (dep.count(-1)>0)
+      {
+        dep.erase(-1);
+        dep.insert(dummyVar->getId());
+      }
+
+      long id = v->getId();
+      if (dependencies.count(id)>0) throw SchnekException();
+      dependencies[id] = VarInfo(v, dep, DependencySet());
+    }
+  }
+
+  for(pBlockVariables ch: vars->getChildren())
+  {
+    constructMapRecursive(ch);
+  }
+}
+void DependencyMap::constructMap(const pBlockVariables vars)
+{
+  SCHNEK_TRACE_ENTER_FUNCTION(3);
+
+
+  constructMapRecursive(vars);
+
+  for(DepMap::value_type entry: dependencies)
+  {
+    SCHNEK_TRACE_LOG(3,"Setting Dependency " << entry.first << " " << entry.second.v->getId());
+    for(long id: entry.second.dependsOn)
+    {
+      if (dependencies.count(id)>0) {
+        SCHNEK_TRACE_LOG(3,"Adding to modifies of " << id);
+        dependencies[id].modifies.insert(entry.first);
+      }
+    }
+  }
+
+  SCHNEK_TRACE_EXIT_FUNCTION(3);
+}
+
+void DependencyMap::resetCounters()
+{
+  for(DepMap::value_type entry: dependencies)
+  {
+    entry.second.counter = entry.second.dependsOn.size();
+  }
+}
+
+void DependencyMap::makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList)
+{
+  pRefDepMap reverseDeps = makeUpdatePredecessors(independentVars, dependentVars);
+  pRefDepMap deps = makeUpdateFollowers(independentVars, reverseDeps);
+  makeUpdateOrder(deps, updateList);
+}
+
+DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSet &independentVars,
+                                                                const VariableSet &dependentVars)
+{
+  std::list<VarInfo*> workingSet;
+  pRefDepMap predecessors_p(new RefDepMap());
+  RefDepMap &predecessors = *predecessors_p; // only used for more readable code
+
+  // first initialise the working set and also add the variables to the predecessors
+  for(pVariable v: dependentVars)
+  {
+    long id=v->getId();
+    VarInfo *vi = &(dependencies[id]);
+    workingSet.push_back(vi);
+    predecessors[id] = vi;
+  }
+
+  // take elements out of the working set and analyse their predecessors
+  while (!workingSet.empty())
+  {
+    VarInfo *vi = workingSet.front();
+    workingSet.pop_front();
+
+    for(long id: vi->dependsOn)
+    {
+      // check if we already considered this variable
+      if (predecessors.count(id) > 0) continue;
+
+      // A negative id signals that the expression should be re-evaluated for every change.
+      // To do this we add all independent variables to the predecessors list.
+      if (id<0)
+      {
+        for(pVariable indVar: independentVars)
+        {
+          long indId = indVar->getId();
+          if (predecessors.count(indId) == 0)
+          {
+            // if not, put predecessors in the working set and in the map
+            VarInfo *pred = &(dependencies[indId]);
+            workingSet.push_back(pred);
+            predecessors[indId] = pred;
+          }
+        }
+      }
+      else
+      {
+        // if not, put predecessors in the working set and in the map
+        VarInfo *pred = &(dependencies[id]);
+        workingSet.push_back(pred);
+        predecessors[id] = pred;
+      }
+    }
+  }
+
+  // The map now contains all the predecessors of the dependent variables but note
+  // that the VarInfo::modifies sets are not restricted to this map.
+  return predecessors_p;
+
+}
+
+DependencyMap::pRefDepMap DependencyMap::makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap predecessors_p)
+{
+  std::list<VarInfo*> workingSet;
+  pRefDepMap followers_p(new RefDepMap());
+  RefDepMap &followers = *followers_p;
+  RefDepMap &predecessors = *predecessors_p;
+
+  // first initialise the working set and also add the variables to the followers
+  for(pVariable v: independentVars)
+  {
+    long id=v->getId();
+    // the variable is not needed if it is not in the predecessors
+    if (predecessors.count(id) == 0) continue;
+    VarInfo *vi = predecessors[id];
+    workingSet.push_back(vi);
+    followers[id] = vi;
+  }
+
+  // take elements out of the working set and analyse their predecessors
+  while (!workingSet.empty())
+  {
+    VarInfo *vi = workingSet.front();
+    workingSet.pop_front();
+
+    for(long id: vi->modifies)
+    {
+      // check if we already considered this variable or if we need it at all
+      if ((followers.count(id) > 0) || (predecessors.count(id) == 0)) continue;
+
+      // if not, put predecessors in the working set and in the map
+      VarInfo *foll = predecessors[id];
+      workingSet.push_back(foll);
+      followers[id] = foll;
+    }
+  }
+
+  // The map now contains all the predecessors of the dependent variables but note
+  // that the VarInfo::modifies sets are not restricted to this map.
+  return followers_p;
+
+}
+
+void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
+{
+  typedef std::list<VarInfo*>::iterator WorkIter;
+
+  std::list<VarInfo*> workingSet;
+  RefDepMap &deps = *deps_p;
+
+  updateList.clear();
+
+  // first initialise the counters
+  for(RefDepMap::value_type entry: deps)
+  {
+
+    int count = 0;
+    VarInfo *vi = entry.second;
+    workingSet.push_back(vi);
+    for(long id: vi->dependsOn)
+    {
+      if (deps.count(id) > 0) ++count;
+    }
+    entry.second->counter = count;
+  }
+
+  while (!workingSet.empty())
+  {
+    VarInfo *nextEval = 0;
+    WorkIter it = workingSet.begin();
+    while ((nextEval==0) && (it!=workingSet.end()))
+    {
+      if ((*it)->counter==0) nextEval=*it;
+      else ++it;
+    }
+
+    if (nextEval == 0) throw EvaluationException("Variables depend on each other");
+
+    workingSet.erase(it);
+    updateList.push_back(nextEval->v);
+
+    for(long id: nextEval->modifies)
+    {
+      if (deps.count(id) == 0) continue;
+      VarInfo *vi = deps[id];
+      --(vi->counter);
+      assert(vi->counter >= 0);
+    }
+  }
+}
+
+pBlockVariables DependencyMap::getBlockVariables()
+{
+  return blockVars;
+}
+
+void DependencyMap::updateAll()
+{
+  pRefDepMap deps(new RefDepMap());
+  for(DepMap::value_type &entry: dependencies)
+  {
+    deps->insert(RefDepMap::value_type(entry.first, &entry.second));
+  }
+
+  VariableList updateList;
+
+  makeUpdateOrder(deps, updateList);
+
+  for(pVariable v: updateList) {
+    try
+    {
+      v->evaluateExpression();
+    }
+    catch(...)
+    {
+      // no-op, bulkhead
+    }
+  }
+}
+
+
+DependencyUpdater::DependencyUpdater(pDependencyMap dependencies_)
+  : dependencies(dependencies_), isValid(true)
+{
+  assert(dependencies->dummyVar->isReadOnly());
+  independentVars.insert(dependencies->dummyVar);
+}
+
+
+void DependencyUpdater::addIndependent(pParameter p)
+{
+  assert(p->getVariable()->isReadOnly());
+  independentVars.insert(p->getVariable());
+  isValid = false;
+}
+
+void DependencyUpdater::addDependent(pParameter p)
+{
+  assert(!!p);
+  // only non-constant variables have to be updated using the DependencyUpdater
+  if (p->getVariable()->isConstant())
+  {
+    p->update();
+    return;
+  }
+  dependentParameters.insert(p);
+  dependentVars.insert(p->getVariable());
+  isValid = false;
+}
+
+void DependencyUpdater::clearDependent()
+{
+  dependentParameters.clear();
+  dependentVars.clear();
+  isValid = false;
+}
-- 
2.43.0


From 81a44511a361c38eae0e04361b86cfcc7c620da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:53 +0000
Subject: [PATCH 28/49] fix: DependencyMap::recreate must start from an empty
 map

---
 src/variables/dependencies.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index eb95e24..ff2df29 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -52,11 +52,6 @@ DependencyMap::DependencyMap(const pBlockVariables vars)
   pVariable tmp(new Variable(pexp, true, true));
   dummyVar = tmp;
 
-  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
-  //dependencies[-1] = dummyInfo;
-  dependencies[dummyVar->getId()] = dummyInfo;
-//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
-
   blockVars = vars;
   constructMap(vars);
 }
@@ -92,6 +87,11 @@ void DependencyMap::constructMap(const pBlockVariables vars)
 {
   SCHNEK_TRACE_ENTER_FUNCTION(3);
 
+  dependencies.clear();
+  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
+  //dependencies[-1] = dummyInfo;
+  dependencies[dummyVar->getId()] = dummyInfo;
+//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
 
   constructMapRecursive(vars);
 
-- 
2.43.0


From 8f1db06d1e78342f914c46e46b89ed8aa11184e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:06 +0000
Subject: [PATCH 29/49] fix: constants no longer enter the dependency map when
 an update list is made

Looking up the predecessors of a variable inserted empty entries for the
constants it refers to. They were counted as pending but never resolved, so
that a later updateAll() on the same map reported a circular dependency.
---
 src/variables/dependencies.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index ff2df29..8e33823 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -170,8 +170,12 @@ DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSe
       }
       else
       {
+        // constant variables are not part of the dependency map and never need updating
+        DepMap::iterator pos = dependencies.find(id);
+        if (pos == dependencies.end()) continue;
+
         // if not, put predecessors in the working set and in the map
-        VarInfo *pred = &(dependencies[id]);
+        VarInfo *pred = &(pos->second);
         workingSet.push_back(pred);
         predecessors[id] = pred;
       }
-- 
2.43.0


From 978ad2069638ee29fbd6e0bbe19fd618d8b2f9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:22 +0000
Subject: [PATCH 30/49] fix: diagnostics leave the DiagnosticManager when they
 are destroyed

---
 src/diagnostic/diagnostic.cpp | 20 ++++++++++++++++++++
 src/diagnostic/diagnostic.hpp |  6 ++++++
 2 files changed, 26 insertions(+)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index 106c62c..2e5429c 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -99,6 +99,11 @@ IntervalDiagnostic::IntervalDiagnostic() : interval(100)
   DiagnosticManager::instance().addIntervalDiagnostic(this);
 }
 
+IntervalDiagnostic::~IntervalDiagnostic()
+{
+  DiagnosticManager::instance().removeIntervalDiagnostic(this);
+}
+
 void IntervalDiagnostic::execute(bool master, int rank, int timeCounter)
 {
   SCHNEK_TRACE_LOG(2, "IntervalDiagnostic::execute" << fname << " " << rank)
@@ -128,6 +133,11 @@ DeltaTimeDiagnostic::DeltaTimeDiagnostic() : deltaTime(1.0), nextOutput(0.0), co
   DiagnosticManager::instance().addDeltaTimeDiagnostic(this);
 }
 
+DeltaTimeDiagnostic::~DeltaTimeDiagnostic()
+{
+  DiagnosticManager::instance().removeDeltaTimeDiagnostic(this);
+}
+
 void DeltaTimeDiagnostic::execute(bool master, int rank, double physicalTime)
 {
   SCHNEK_TRACE_LOG(2, "DeltaTimeDiagnostic::execute" << fname << " " << rank)
@@ -199,6 +209,16 @@ void DiagnosticManager::addDeltaTimeDiagnostic(DeltaTimeDiagnostic *diag)
   deltaTimeDiags.push_back(diag);
 }
 
+void DiagnosticManager::removeIntervalDiagnostic(IntervalDiagnostic *diag)
+{
+  intervalDiags.remove(diag);
+}
+
+void DiagnosticManager::removeDeltaTimeDiagnostic(DeltaTimeDiagnostic *diag)
+{
+  deltaTimeDiags.remove(diag);
+}
+
 void DiagnosticManager::execute()
 {
 
diff --git a/src/diagnostic/diagnostic.hpp b/src/diagnostic/diagnostic.hpp
index c5f7457..ee91e82 100644
--- a/src/diagnostic/diagnostic.hpp
+++ b/src/diagnostic/diagnostic.hpp
@@ -79,6 +79,8 @@ class IntervalDiagnostic : public DiagnosticInterface
     int interval;
   public:
     IntervalDiagnostic();
+    /// Destructor, removes the diagnostic from the DiagnosticManager
+    virtual ~IntervalDiagnostic();
     void execute(bool master, int rank, int timeCounter);
     int getInterval();
   protected:
@@ -94,6 +96,8 @@ class DeltaTimeDiagnostic : public DiagnosticInterface
     int count;
   public:
     DeltaTimeDiagnostic();
+    /// Destructor, removes the diagnostic from the DiagnosticManager
+    virtual ~DeltaTimeDiagnostic();
     void execute(bool master, int rank, double physicalTime);
     double getNextOutput();
     double getDeltaTime();
@@ -122,6 +126,8 @@ class DiagnosticManager : public Singleton<DiagnosticManager>
   public:
     void addIntervalDiagnostic(IntervalDiagnostic*);
     void addDeltaTimeDiagnostic(DeltaTimeDiagnostic*);
+    void removeIntervalDiagnostic(IntervalDiagnostic*);
+    void removeDeltaTimeDiagnostic(DeltaTimeDiagnostic*);
     void execute();
 
     void setTimeCounter(int *timecounter);
-- 
2.43.0


From 8a1f50f742985daa1a30086df667573528ddc812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:22 +0000
Subject: [PATCH 31/49] fix: report a missing clock of the DiagnosticManager
 instead of dereferencing it

---
 src/diagnostic/diagnostic.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index 2e5429c..8ee1644 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -228,6 +228,9 @@ void DiagnosticManager::execute()
   if ((!usePhysicalTime && !timecounter) || (usePhysicalTime && !physicalTime))
     throw schnek::VariableNotInitialisedException("In DiagnosticManager: A time counter or physical time must be specified!");
 
+  if ((!intervalDiags.empty() && !timecounter) || (!deltaTimeDiags.empty() && !physicalTime))
+    throw schnek::VariableNotInitialisedException("In DiagnosticManager: The time used by a diagnostic must be specified!");
+
   for(IntervalDiagnostic *diag: intervalDiags)
   {
     diag->execute(master, rank, *timecounter);
@@ -244,6 +247,8 @@ double DiagnosticManager::adjustDeltaT(double deltaT)
 {
   double adjustedDt = deltaT;
 
+  if (!deltaTimeDiags.empty() && !physicalTime)
+    throw schnek::VariableNotInitialisedException("In DiagnosticManager: The physical time must be specified!");
 
   for(DeltaTimeDiagnostic *diag: deltaTimeDiags)
   {
-- 
2.43.0


From cbf5c2345520f8d2b24fd9f2daa51d2f8b35816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:22 +0000
Subject: [PATCH 32/49] fix: open the file of an appending diagnostic before
 its first output, whenever that is

---
 src/diagnostic/diagnostic.cpp | 18 ++++++++++++------
 src/diagnostic/diagnostic.hpp |  4 ++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index 8ee1644..0f7d68d 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -34,7 +34,7 @@
 using namespace schnek;
 
 DiagnosticInterface::DiagnosticInterface() :
-  fname(""), append(false)
+  fname(""), append(false), appendOpened(false)
 {
 }
 
@@ -51,6 +51,13 @@ bool DiagnosticInterface::appending()
   return bool(append);
 }
 
+void DiagnosticInterface::openForAppending()
+{
+  if (appendOpened) return;
+  open(fname);
+  appendOpened = true;
+}
+
 std::string DiagnosticInterface::parsedFileName(int rank, int timeCounter)
 {
 
@@ -109,10 +116,10 @@ void IntervalDiagnostic::execute(bool master, int rank, int timeCounter)
   SCHNEK_TRACE_LOG(2, "IntervalDiagnostic::execute" << fname << " " << rank)
   if (singleOut() && !master) return;
 
-  if ((0 == timeCounter) && appending()) open(fname);
   if ((timeCounter < 0) || ((timeCounter % interval) == 0))
   {
-    if (!appending()) open(parsedFileName(rank, timeCounter));
+    if (appending()) openForAppending();
+    else open(parsedFileName(rank, timeCounter));
     write();
     if (!appending()) close();
   }
@@ -143,11 +150,10 @@ void DeltaTimeDiagnostic::execute(bool master, int rank, double physicalTime)
   SCHNEK_TRACE_LOG(2, "DeltaTimeDiagnostic::execute" << fname << " " << rank)
   if (singleOut() && !master) return;
 
-  if ((0.0 == physicalTime) && appending()) open(fname);
-
   if (physicalTime >= nextOutput)
   {
-    if (!appending()) open(parsedFileName(rank, count));
+    if (appending()) openForAppending();
+    else open(parsedFileName(rank, count));
     write();
     if (!appending()) close();
     nextOutput += deltaTime;
diff --git a/src/diagnostic/diagnostic.hpp b/src/diagnostic/diagnostic.hpp
index ee91e82..5a15829 100644
--- a/src/diagnostic/diagnostic.hpp
+++ b/src/diagnostic/diagnostic.hpp
@@ -51,6 +51,8 @@ class DiagnosticInterface : public Block
     std::string fname;
     /// Append data at every write to the same file?
     int append;
+    /// Has the file been opened for appending?
+    bool appendOpened;
   public:
     /// Default constructor
     DiagnosticInterface();
@@ -68,6 +70,8 @@ class DiagnosticInterface : public Block
     void initParameters(BlockParameters&);
 
     bool appending();
+    /// Open the file for appending, unless this has been done before
+    void openForAppending();
     std::string parsedFileName(int rank, int timeCounter);
     std::string parsedFileName(int rank, double physicalTime);
 };
-- 
2.43.0


From 577b7c0d89e16cae966e53a5d1edfa28d343eafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:22 +0000
Subject: [PATCH 33/49] fix: keep the schedule of a single output diagnostic
 the same on all processes

---
 src/diagnostic/diagnostic.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index 0f7d68d..7d212f7 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -148,14 +148,17 @@ DeltaTimeDiagnostic::~DeltaTimeDiagnostic()
 void DeltaTimeDiagnostic::execute(bool master, int rank, double physicalTime)
 {
   SCHNEK_TRACE_LOG(2, "DeltaTimeDiagnostic::execute" << fname << " " << rank)
-  if (singleOut() && !master) return;
 
   if (physicalTime >= nextOutput)
   {
-    if (appending()) openForAppending();
-    else open(parsedFileName(rank, count));
-    write();
-    if (!appending()) close();
+    if (master || !singleOut())
+    {
+      if (appending()) openForAppending();
+      else open(parsedFileName(rank, count));
+      write();
+      if (!appending()) close();
+    }
+    // the schedule must advance on all processes, also those that don't write
     nextOutput += deltaTime;
     ++count;
   }
-- 
2.43.0


From fed490d19b95c6992692514e2e3c71d817f93445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:16 +0000
Subject: [PATCH 34/49] fix: flush appended diagnostic output, blocks are not
 destroyed at the end of a run

---
 src/diagnostic/diagnostic.t | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diagnostic/diagnostic.t b/src/diagnostic/diagnostic.t
index d0b61bd..6842eb5 100644
--- a/src/diagnostic/diagnostic.t
+++ b/src/diagnostic/diagnostic.t
@@ -64,6 +64,7 @@ template<class Type, typename PointerType, class DiagnosticType>
 void SimpleFileDiagnostic<Type, PointerType, DiagnosticType>::write()
 {
   output << *(this->field);
+  output.flush();
 }
 
 template<class Type, typename PointerType, class DiagnosticType>
-- 
2.43.0


From 29eb637826b8dc3774f3ba99caf549c318f09973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:17 +0000
Subject: [PATCH 35/49] fix: the unary operators could not be applied to array
 expressions

---
 src/grid/arrayexpression.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/grid/arrayexpression.hpp b/src/grid/arrayexpression.hpp
index 819b1aa..cdeda0f 100644
--- a/src/grid/arrayexpression.hpp
+++ b/src/grid/arrayexpression.hpp
@@ -441,16 +441,11 @@ SCHNEK_INLINE operator symbol (
 
 /* Operator for a Array and a ArrayExpression object */
 #define UNARY_EXPR(op, symbol)                                                  \
-template<                                                                       \
-  class exp,                                                                    \
-  class T,                                                                      \
-  size_t length,                                                                   \
-  template<size_t> class CheckingPolicy                                            \
->                                                                               \
+template<class exp, size_t length>                                              \
 ArrayExpression<                                                                \
   ArrayUnaryOp<                                                                 \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<typename exp::value_type>                                                \
   >,                                                                            \
   length                                                                        \
 >                                                                               \
@@ -460,7 +455,7 @@ SCHNEK_INLINE operator symbol (
 {                                                                               \
   typedef ArrayUnaryOp<                                                         \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<typename exp::value_type>                                                \
   > OperatorType;                                                               \
                                                                                 \
   return ArrayExpression<OperatorType, length> (OperatorType(A));               \
-- 
2.43.0


From 567742736af1d191ffb7d53cb11a677635d9d079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:05 +0000
Subject: [PATCH 36/49] fix: array expressions of mixed types are evaluated in
 their common type

---
 src/grid/arrayexpression.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/grid/arrayexpression.hpp b/src/grid/arrayexpression.hpp
index cdeda0f..8c2a991 100644
--- a/src/grid/arrayexpression.hpp
+++ b/src/grid/arrayexpression.hpp
@@ -30,13 +30,14 @@
 #include "array.hpp"
 
 #include <iostream>
+#include <type_traits>
 
 namespace schnek {
 
 /**Expression template for the Array class.
  * This template will be created when adding or subtracting Arrays and
  * will allow performing expressions without temporary variables.
- * @todo Handle type promotion
+ * The elements of an expression of mixed types have their common type.
  */
 template<class Operator, size_t Length>
 class ArrayExpression {
@@ -216,7 +217,7 @@ struct ArrayOpUnaryMinus {
     ArrayBinaryOp<                                                              \
       ArrayExpression<exp1, length>,                                            \
       ArrayExpression<exp2, length>,                                            \
-      op<typename exp1::value_type>                                             \
+      op<typename std::common_type<typename exp1::value_type, typename exp2::value_type>::type>\
     >,                                                                          \
     length                                                                      \
   >                                                                             \
@@ -228,7 +229,7 @@ struct ArrayOpUnaryMinus {
     <                                                                           \
       ArrayExpression<exp1, length>,                                            \
       ArrayExpression<exp2, length>,                                            \
-      op<typename exp1::value_type>                                             \
+      op<typename std::common_type<typename exp1::value_type, typename exp2::value_type>::type>\
     >  OperatorType;                                                            \
                                                                                 \
     return ArrayExpression<OperatorType, length>(OperatorType(A,B));            \
@@ -276,7 +277,7 @@ ArrayExpression<
   ArrayBinaryOp<                                                                \
     ArrayExpression<exp, length>,                                               \
     ArrayExpression< Array<T,length,CheckingPolicy>, length >,                  \
-    op<T>                                                                       \
+    op<typename std::common_type<typename exp::value_type, T>::type>            \
   >,                                                                            \
   length                                                                        \
 >                                                                               \
@@ -288,7 +289,7 @@ SCHNEK_INLINE operator symbol (
   typedef ArrayBinaryOp<                                                        \
     ArrayExpression<exp, length>,                                               \
     ArrayExpression< Array<T,length,CheckingPolicy>, length >,                  \
-    op<T>                                                                       \
+    op<typename std::common_type<typename exp::value_type, T>::type>            \
   > OperatorType;                                                               \
                                                                                 \
   return ArrayExpression<OperatorType, length> (OperatorType(A,B));             \
@@ -307,7 +308,7 @@ ArrayExpression<
   ArrayBinaryOp<                                                                \
     ArrayExpression< Array<T,length,CheckingPolicy>, length >,                  \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<typename std::common_type<typename exp::value_type, T>::type>            \
   >,                                                                            \
   length                                                                        \
 >                                                                               \
@@ -319,7 +320,7 @@ SCHNEK_INLINE operator symbol (
   typedef ArrayBinaryOp<                                                        \
     ArrayExpression< Array<T,length,CheckingPolicy>, length >,                  \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<typename std::common_type<typename exp::value_type, T>::type>            \
   > OperatorType;                                                               \
                                                                                 \
   return ArrayExpression<OperatorType, length> (OperatorType(A,B));             \
@@ -332,7 +333,7 @@ ArrayExpression<
   ArrayBinaryOp<                                                                \
     ArrayConstantExp<T>,                                                        \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<typename std::common_type<typename exp::value_type, T>::type>            \
   >,                                                                            \
   length                                                                        \
 >                                                                               \
@@ -341,7 +342,7 @@ SCHNEK_INLINE operator symbol (const T &A, const ArrayExpression<exp, length> &B
   typedef ArrayBinaryOp<                                                        \
     ArrayConstantExp<T>,                                                        \
     ArrayExpression<exp, length>,                                               \
-    op<T>                                                                       \
+    op<typename std::common_type<typename exp::value_type, T>::type>            \
   > OperatorType;                                                               \
                                                                                 \
   return ArrayExpression<OperatorType, length> (OperatorType(A,B));             \
@@ -354,7 +355,7 @@ ArrayExpression<
   ArrayBinaryOp<                                                                \
     ArrayExpression<exp, length>,                                               \
     ArrayConstantExp<T>,                                                        \
-    op<T>                                                                       \
+    op<typename std::common_type<typename exp::value_type, T>::type>            \
   >,                                                                            \
   length                                                                        \
 >                                                                               \
@@ -363,7 +364,7 @@ SCHNEK_INLINE operator symbol (const ArrayExpression<exp, length> &A, const T &B
   typedef ArrayBinaryOp<                                                        \
     ArrayExpression<exp, length>,                                               \
     ArrayConstantExp<T>,                                                        \
-    op<T>                                                                       \
+    op<typename std::common_type<typename exp::value_type, T>::type>            \
   > OperatorType;                                                               \
                                                                                 \
   return ArrayExpression<OperatorType, length> (OperatorType(A,B));             \
-- 
2.43.0


From 494e56128484fa7276e19b43ab716650ad98b4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:26 +0000
Subject: [PATCH 37/49] fix: FieldFiller::set used the coordinates, updater and
 fields of its first call for ever

---
 src/tools/fieldtools.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools/fieldtools.hpp b/src/tools/fieldtools.hpp
index f5f429a..42687b2 100644
--- a/src/tools/fieldtools.hpp
+++ b/src/tools/fieldtools.hpp
@@ -142,10 +142,9 @@ class FieldFiller
       size_t rank,
       template<size_t> class ArrayCheckingPolicy
     >
-    fieldAdder<rank,ArrayCheckingPolicy> &set(Array<double, rank, ArrayCheckingPolicy> &coords, DependencyUpdater &updater)
+    fieldAdder<rank,ArrayCheckingPolicy> set(Array<double, rank, ArrayCheckingPolicy> &coords, DependencyUpdater &updater)
     {
-        static fieldAdder<rank,ArrayCheckingPolicy> adder(coords, updater, implementations);
-        return adder;
+        return fieldAdder<rank,ArrayCheckingPolicy>(coords, updater, implementations);
     }
 
     void clear() { implementations.clear(); }
-- 
2.43.0


From 0529223e5625106e81a60b82486e9038b9ef6831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:40 +0000
Subject: [PATCH 38/49] fix: store the organization and school of a reference
 in their own fields

---
 src/tools/literature.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools/literature.hpp b/src/tools/literature.hpp
index 4e363ca..f5c5920 100644
--- a/src/tools/literature.hpp
+++ b/src/tools/literature.hpp
@@ -597,7 +597,7 @@ class LiteratureInProceedings : public LiteratureReference
       setPages(pages);
       setAddress(address);
       setMonth(month);
-      setEdition(organization);
+      setOrganization(organization);
       setPublisher(publisher);
       setNote(note);
       setKey(key);
@@ -617,7 +617,7 @@ class LiteratureManual : public LiteratureReference
 
       setTitle(title);
       setAuthor(author);
-      setEdition(organization);
+      setOrganization(organization);
       setAddress(address);
       setEdition(edition);
       setYear(year);
@@ -639,7 +639,7 @@ class LiteratureMastersThesis : public LiteratureReference
 
       setAuthor(author);
       setTitle(title);
-      setEdition(school);
+      setSchool(school);
       setYear(year);
       setType(type);
       setAddress(address);
@@ -683,7 +683,7 @@ class LiteraturePhdThesis : public LiteratureReference
 
       setAuthor(author);
       setTitle(title);
-      setEdition(school);
+      setSchool(school);
       setYear(year);
       setType(type);
       setAddress(address);
@@ -713,7 +713,7 @@ class LiteratureProceedings : public LiteratureReference
       setSeries(series);
       setAddress(address);
       setMonth(month);
-      setEdition(organization);
+      setOrganization(organization);
       setPublisher(publisher);
       setNote(note);
       setKey(key);
-- 
2.43.0


From 25115723a4c591c6729a429e7cead2a725075c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:26 +0000
Subject: [PATCH 39/49] fix: define the constructor of HDFGridReader

---
 src/diagnostic/hdfdiagnostic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index 47a4420..b379fb1 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -296,7 +296,7 @@ class HDFGridReader : public Block
     std::string fileName;
   public:
     /// Default constructor
-    HDFGridReader();
+    HDFGridReader() {}
     /// Virtual destructor
     virtual ~HDFGridReader() {}
   protected:
-- 
2.43.0


From 4d689cac190cb4d1e455c401433b53d117609b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:11 +0000
Subject: [PATCH 40/49] fix: HdfOStream::open did not close the file that was
 open before

---
 src/diagnostic/hdfdiagnostic.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 5107595..86179f2 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -268,6 +268,7 @@ HdfOStream::HdfOStream(const char* fname)
 }
 
 int HdfOStream::open(const char* fname) {
+  close();
   sets_count = 0;
 
 #if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-- 
2.43.0


From c219ab347851f0d1cccf86262a222e98a9238ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:11 +0000
Subject: [PATCH 41/49] fix: HDF5 attributes were only created on the first
 process

---
 src/diagnostic/hdfdiagnostic.t | 46 +++++++++++++++-------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index cc6051a..26381ff 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -294,32 +294,26 @@ void HdfOStream::writeGrid(GridContainer<FieldType> &g)
 
   /* now write the attributes */
 
-  int mpi_rank = 0;
-#if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-  MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
-#endif
-
-  if (mpi_rank==0) {
-    /* Create the data space for the attribute. */
-    typedef std::pair<std::string, HdfAttributes::pInfo> attPair;
-    for(attPair p: attributes->attributes) {
-      HdfAttributes::Info &info = *(p.second);
-
-      const hid_t dataspace_id = H5Screate_simple(1, &info.dims, NULL);
-      /* Create a dataset attribute. */
-      const hid_t attribute_id = H5Acreate2 (dataset, p.first.c_str(), info.type, dataspace_id,
-                                             H5P_DEFAULT, H5P_DEFAULT);
-
-      /* Write the attribute data. */
-      ret = H5Awrite(attribute_id, info.type, info.buffer);
-      assert(ret != -1);
-
-      /* Close the attribute. */
-      H5Aclose(attribute_id);
-
-      /* Close the dataspace. */
-      H5Sclose(dataspace_id);
-    }
+  /* creating attributes is a collective operation, all active processes must take part */
+  /* Create the data space for the attribute. */
+  typedef std::pair<std::string, HdfAttributes::pInfo> attPair;
+  for(attPair p: attributes->attributes) {
+    HdfAttributes::Info &info = *(p.second);
+
+    const hid_t dataspace_id = H5Screate_simple(1, &info.dims, NULL);
+    /* Create a dataset attribute. */
+    const hid_t attribute_id = H5Acreate2 (dataset, p.first.c_str(), info.type, dataspace_id,
+                                           H5P_DEFAULT, H5P_DEFAULT);
+
+    /* Write the attribute data. */
+    ret = H5Awrite(attribute_id, info.type, info.buffer);
+    assert(ret != -1);
+
+    /* Close the attribute. */
+    H5Aclose(attribute_id);
+
+    /* Close the dataspace. */
+    H5Sclose(dataspace_id);
   }
 
   /* close dataset collectively */
-- 
2.43.0


From 7f6eadeff9259f686c85490b652885d112ba1c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:11 +0000
Subject: [PATCH 42/49] fix: processes in which an HdfIStream is not active
 tried to read

---
 src/diagnostic/hdfdiagnostic.t | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index 26381ff..8b063aa 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -53,6 +53,10 @@ void HdfAttributes::set(std::string name, const T &value, hsize_t dims) {
 template<typename FieldType>
 void HdfIStream::readGrid(GridContainer<FieldType> &g)
 {
+  if (!active) {
+    return;
+  }
+
   std::string dset_name = getNextBlockName();
 
   typedef typename FieldType::IndexType IndexType;
-- 
2.43.0


From 6373b206794fbbb3fb4cf6dc769b0783f94545bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:27 +0000
Subject: [PATCH 43/49] fix: opening a second file with an HDF stream that is
 active in some processes deadlocked

---
 src/diagnostic/hdfdiagnostic.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 86179f2..d822c9e 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -170,6 +170,7 @@ void HdfStream::makeMPIGroup()
   delete[] activeArr;
   delete[] inputArr;
 
+  commSet = true;
   activeModified = false;
 }
 #endif
-- 
2.43.0


From 6e76cc9fe1fae036a769f82a5b5a097bcb4016d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:43 +0000
Subject: [PATCH 44/49] fix: HdfOStream kept the communicator of its first file
 and held it after MPI_Finalize

---
 src/diagnostic/hdfdiagnostic.cpp | 48 +++++++++++++++++---------------
 src/diagnostic/hdfdiagnostic.hpp |  4 ---
 2 files changed, 25 insertions(+), 27 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index d822c9e..801c138 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -284,39 +284,41 @@ int HdfOStream::open(const char* fname) {
     int rank;
     MPI_Comm_rank(MPI_COMM_WORLD, &rank);
 
-    if (!initialised) {
-      /* setup file access template */
-
-      plist_id = H5Pcreate(H5P_FILE_ACCESS);
+    /* setup file access template */
+    hid_t plist_id = H5Pcreate(H5P_FILE_ACCESS);
 
-      H5Pset_sieve_buf_size(plist_id, sieve_buf_size);
-      H5Pset_alignment(plist_id, align_threshold, alignment);
+    H5Pset_sieve_buf_size(plist_id, sieve_buf_size);
+    H5Pset_alignment(plist_id, align_threshold, alignment);
 
-      MPI_Info_create(&mpi_info);
+    MPI_Info mpi_info;
+    MPI_Info_create(&mpi_info);
 
-      // MPI
-      const char access_style[]         = "access_style";
-      const char write_once[]           = "write_once";
-      const char collective_buffering[] = "collective_buffering";
-      const char strue[]                = "true";
-      const char cb_block_size[]        = "cb_block_size";
-      const char n1048576[]             = "1048576";
-      const char cb_buffer_size[]       = "cb_buffer_size";
-      const char n4194304[]             = "4194304";
+    // MPI
+    const char access_style[]         = "access_style";
+    const char write_once[]           = "write_once";
+    const char collective_buffering[] = "collective_buffering";
+    const char strue[]                = "true";
+    const char cb_block_size[]        = "cb_block_size";
+    const char n1048576[]             = "1048576";
+    const char cb_buffer_size[]       = "cb_buffer_size";
+    const char n4194304[]             = "4194304";
 
-      MPI_Info_set(mpi_info, access_style, write_once);
-      MPI_Info_set(mpi_info, collective_buffering, strue);
-      MPI_Info_set(mpi_info, cb_block_size, n1048576);
-      MPI_Info_set(mpi_info, cb_buffer_size, n4194304);
+    MPI_Info_set(mpi_info, access_style, write_once);
+    MPI_Info_set(mpi_info, collective_buffering, strue);
+    MPI_Info_set(mpi_info, cb_block_size, n1048576);
+    MPI_Info_set(mpi_info, cb_buffer_size, n4194304);
 
-      /* set Parallel access with communicator */
-      H5Pset_fapl_mpio(plist_id, mpiComm, mpi_info);
-    }
+    /* set Parallel access with communicator */
+    H5Pset_fapl_mpio(plist_id, mpiComm, mpi_info);
 
     /* open the file collectively */
     //H5Pset_fapl_mpiposix(plist_id, mpiComm, 0);
     file_id = H5Fcreate (fname, H5F_ACC_TRUNC, H5P_DEFAULT, plist_id);
 
+    /* Release file-access template */
+    MPI_Info_free(&mpi_info);
+    H5Pclose(plist_id);
+
     if (!initialised) {
       dxpl_id = H5Pcreate(H5P_DATASET_XFER);
       SCHNEK_TRACE_LOG(3,"Data Transfer Property List Id (0) " << dxpl_id)
diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index b379fb1..d811497 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -205,10 +205,6 @@ class HdfIStream : public HdfStream {
 class HdfOStream : public HdfStream {
   private:
     hid_t dxpl_id;
-#if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-    MPI_Info mpi_info;
-#endif
-    hid_t plist_id;
     bool initialised;
   public:
     /// constructor
-- 
2.43.0


From 1af08741c4f822c665454fe8ac5973e51a9c121e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:43 +0000
Subject: [PATCH 45/49] fix: copies of an HDF stream closed each other's files

---
 src/diagnostic/hdfdiagnostic.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 801c138..b15969d 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -59,15 +59,22 @@ HdfStream::HdfStream(const HdfStream& hdf)
     blockname(hdf.blockname),
     attributes(hdf.attributes),
     sets_count(hdf.sets_count),
-    active(true),
-    activeModified(false)
+    active(hdf.active),
+    activeModified(hdf.activeModified)
 #if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-    , commSet(false)
+    , mpiComm(hdf.mpiComm),
+    commSet(hdf.commSet)
 #endif
-{}
+{
+  // the file stays open until all copies of the stream have closed it
+  if (file_id >= 0) H5Iinc_ref(file_id);
+}
 
 HdfStream &HdfStream::operator=(const HdfStream& hdf)
 {
+  if (this == &hdf) return *this;
+  close();
+  if (hdf.file_id >= 0) H5Iinc_ref(hdf.file_id);
   file_id = hdf.file_id;
   status = hdf.status;
   sets_count = hdf.sets_count;
@@ -259,7 +266,7 @@ HdfOStream::HdfOStream()
 {}
 
 HdfOStream::HdfOStream(const HdfOStream& hdf)
-  : HdfStream(hdf), initialised(hdf.initialised)
+  : HdfStream(hdf), dxpl_id(hdf.dxpl_id), initialised(hdf.initialised)
 {}
 
 HdfOStream::HdfOStream(const char* fname)
-- 
2.43.0


From a6b2e505e99596d2459858086f45c86cb60768c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:11 +0000
Subject: [PATCH 46/49] fix: HDFGridDiagnostic with append failed at its second
 output

---
 src/diagnostic/hdfdiagnostic.hpp | 2 ++
 src/diagnostic/hdfdiagnostic.t   | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index d811497..e831476 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -233,6 +233,8 @@ class HDFGridDiagnostic : public SimpleDiagnostic<Type, Type, DiagnosticType> {
   protected:
     HdfOStream output;
     GridContainer<Type> container;
+    /// The name of the data sets since the file was opened or the name changed
+    std::string currentDatasetName;
   protected:
     /// Open the output file
     void open(const std::string &);
diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index 8b063aa..8f3dba9 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -386,12 +386,18 @@ template<typename Type, class DiagnosticType>
 void HDFGridDiagnostic<Type, DiagnosticType>::open(const std::string &fname)
 {
   output.open(fname.c_str());
+  currentDatasetName = "";
 }
 
 template<typename Type, class DiagnosticType>
 void HDFGridDiagnostic<Type, DiagnosticType>::write()
 {
-  output.setBlockName(this->getDatasetName());
+  std::string datasetName = this->getDatasetName();
+  // when appending, the stream numbers the data sets of the same name
+  if (datasetName != currentDatasetName) {
+    output.setBlockName(datasetName);
+    currentDatasetName = datasetName;
+  }
   output.setAttributes(this->getAttributes());
   output.writeGrid(container);
 }
-- 
2.43.0


From 20b73fc26e89b8e23880e6224adcd0bedc0f00e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:11 +0000
Subject: [PATCH 47/49] fix: attributes set from temporary values were written
 from dead memory

---
 src/diagnostic/hdfdiagnostic.hpp | 2 ++
 src/diagnostic/hdfdiagnostic.t   | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index e831476..09d37e0 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -41,6 +41,7 @@
 #endif
 
 #include <map>
+#include <vector>
 
 namespace schnek {
 
@@ -84,6 +85,7 @@ struct HdfAttributes {
       hid_t type;
       hsize_t dims;
       const void *buffer;
+      std::shared_ptr<void> copy;
     };
     typedef std::shared_ptr<Info> pInfo;
 
diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index 8f3dba9..77dd5db 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -45,7 +45,10 @@ template<typename T>
 void HdfAttributes::set(std::string name, const T &value, hsize_t dims) {
   pInfo info(new Info);
   info->type = H5DataType<T>::type;
-  info->buffer = &value;
+  // the reference may be to a temporary, keep a copy of the data
+  std::shared_ptr<std::vector<T> > data = std::make_shared<std::vector<T> >(&value, &value + dims);
+  info->copy = data;
+  info->buffer = data->data();
   info->dims = dims;
   this->attributes[name] = info;
 }
-- 
2.43.0


From 4e2d61d9398645a0ec0b852d70fe10519c560627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:43 +0000
Subject: [PATCH 48/49] fix: grids in Fortran order were written to and read
 from HDF5 files as if in C order

---
 src/diagnostic/hdfdiagnostic.t | 54 ++++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index 77dd5db..ef7b918 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -53,6 +53,37 @@ void HdfAttributes::set(std::string name, const T &value, hsize_t dims) {
   this->attributes[name] = info;
 }
 
+/**
+ * HDF5 expects the data in memory in C-order. This returns true if the grid
+ * storage is ordered like this.
+ */
+template<typename FieldType>
+bool isHdfOrdered(FieldType &grid) {
+  ptrdiff_t expected = 1;
+  for (int i=int(FieldType::Rank)-1; i>=0; --i) {
+    if (grid.getDims(i) > 1 && grid.stride(i) != expected) return false;
+    expected *= grid.getDims(i);
+  }
+  return true;
+}
+
+/**
+ * Call func(grid position, C-order offset) for all the cells of the grid
+ */
+template<typename FieldType, typename Func>
+void forEachHdfOrdered(FieldType &grid, Func func) {
+  typename FieldType::IndexType pos;
+  size_t size = grid.getSize();
+  for (size_t offset=0; offset<size; ++offset) {
+    size_t rest = offset;
+    for (int i=int(FieldType::Rank)-1; i>=0; --i) {
+      pos[i] = grid.getLo(i) + int(rest % grid.getDims(i));
+      rest /= grid.getDims(i);
+    }
+    func(pos, offset);
+  }
+}
+
 template<typename FieldType>
 void HdfIStream::readGrid(GridContainer<FieldType> &g)
 {
@@ -108,7 +139,15 @@ void HdfIStream::readGrid(GridContainer<FieldType> &g)
     }
   }
 
-  T *data = g.grid.getRawData();
+  // grids that are not stored in C-order are read through a buffer
+  const bool ordered = isHdfOrdered(g.grid);
+  std::vector<T> buffer;
+  if (!ordered) {
+    buffer.resize(g.grid.getSize());
+    forEachHdfOrdered(g.grid, [&](const IndexType &pos, size_t offset) { buffer[offset] = g.grid[pos]; });
+  }
+
+  T *data = ordered ? g.grid.getRawData() : buffer.data();
   hid_t ret;
 
   /* open the dataset collectively */
@@ -165,6 +204,9 @@ void HdfIStream::readGrid(GridContainer<FieldType> &g)
   ret=H5Dclose(dataset);
   assert(ret != -1);
 
+  if (!ordered) {
+    forEachHdfOrdered(g.grid, [&](const IndexType &pos, size_t offset) { g.grid[pos] = buffer[offset]; });
+  }
 }
 
 template<typename FieldType>
@@ -226,7 +268,15 @@ void HdfOStream::writeGrid(GridContainer<FieldType> &g)
     }
   }
 
-  const T *data = g.grid.getRawData();
+  // grids that are not stored in C-order are written through a buffer
+  const bool ordered = isHdfOrdered(g.grid);
+  std::vector<T> buffer;
+  if (!ordered) {
+    buffer.resize(g.grid.getSize());
+    forEachHdfOrdered(g.grid, [&](const IndexType &pos, size_t offset) { buffer[offset] = g.grid[pos]; });
+  }
+
+  const T *data = ordered ? g.grid.getRawData() : buffer.data();
   hid_t ret;
 
   /* setup dimensionality object */
-- 
2.43.0


From 127722e72eadd133408eb75c416af88ed50026b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:08 +0000
Subject: [PATCH 49/49] fix: restore the line endings of dependencies.cpp

---
 src/variables/dependencies.cpp | 690 ++++++++++++++++-----------------
 1 file changed, 345 insertions(+), 345 deletions(-)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index 8e33823..0ca0c77 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -1,345 +1,345 @@
-/*
- * dependencies.cpp
- *
- * Created on: 10 Jul 2012
- * Author: Holger Schmitz
- * Email: holger@notjustphysics.com
- *
- * Copyright 2012 Holger Schmitz
- *
- * This file is part of Schnek.
- *
- * Schnek is free software: you can redistribute it and/or modify
- * it under the terms of the GNU General Public License as published by
- * the Free Software Foundation, either version 3 of the License, or
- * (at your option) any later version.
- *
- * Schnek is distributed in the hope that it will be useful,
- * but WITHOUT ANY WARRANTY; without even the implied warranty of
- * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- * GNU General Public License for more details.
- *
- * You should have received a copy of the GNU General Public License
- * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
- *
- */
-
-#include "dependencies.hpp"
-#include "expression.hpp"
-#include "../exception.hpp"
-#include "../util/logger.hpp"
-
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
-
-#include <boost/variant/apply_visitor.hpp>
-
-#pragma GCC diagnostic pop
-
-#include <cassert>
-
-#undef LOGLEVEL
-#define LOGLEVEL 0
-
-using namespace schnek;
-
-DependencyMap::DependencyMap(const pBlockVariables vars)
-{
-
-  static int dummyInt = 0;
-  typedef std::shared_ptr<Expression<int> > ParExpression;
-  ParExpression pexp(new ExternalValue<int>(&dummyInt));
-  pVariable tmp(new Variable(pexp, true, true));
-  dummyVar = tmp;
-
-  blockVars = vars;
-  constructMap(vars);
-}
-
-void DependencyMap::constructMapRecursive(const pBlockVariables vars)
-{
-  for(VariableMap::value_type it: vars->getVariables())
-  {
-    pVariable v=it.second;
-    if (!v->isConstant())
-    {
-      SCHNEK_TRACE_LOG(3,"Adding variable " << it.first << " " << v->getId());
-      DependenciesGetter depGet;
-      DependencySet dep = boost::apply_visitor(depGet, v->getExpression());
-      if (dep.count(-1)>0)
-      {
-        dep.erase(-1);
-        dep.insert(dummyVar->getId());
-      }
-
-      long id = v->getId();
-      if (dependencies.count(id)>0) throw SchnekException();
-      dependencies[id] = VarInfo(v, dep, DependencySet());
-    }
-  }
-
-  for(pBlockVariables ch: vars->getChildren())
-  {
-    constructMapRecursive(ch);
-  }
-}
-void DependencyMap::constructMap(const pBlockVariables vars)
-{
-  SCHNEK_TRACE_ENTER_FUNCTION(3);
-
-  dependencies.clear();
-  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
-  //dependencies[-1] = dummyInfo;
-  dependencies[dummyVar->getId()] = dummyInfo;
-//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
-
-  constructMapRecursive(vars);
-
-  for(DepMap::value_type entry: dependencies)
-  {
-    SCHNEK_TRACE_LOG(3,"Setting Dependency " << entry.first << " " << entry.second.v->getId());
-    for(long id: entry.second.dependsOn)
-    {
-      if (dependencies.count(id)>0) {
-        SCHNEK_TRACE_LOG(3,"Adding to modifies of " << id);
-        dependencies[id].modifies.insert(entry.first);
-      }
-    }
-  }
-
-  SCHNEK_TRACE_EXIT_FUNCTION(3);
-}
-
-void DependencyMap::resetCounters()
-{
-  for(DepMap::value_type entry: dependencies)
-  {
-    entry.second.counter = entry.second.dependsOn.size();
-  }
-}
-
-void DependencyMap::makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList)
-{
-  pRefDepMap reverseDeps = makeUpdatePredecessors(independentVars, dependentVars);
-  pRefDepMap deps = makeUpdateFollowers(independentVars, reverseDeps);
-  makeUpdateOrder(deps, updateList);
-}
-
-DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSet &independentVars,
-                                                                const VariableSet &dependentVars)
-{
-  std::list<VarInfo*> workingSet;
-  pRefDepMap predecessors_p(new RefDepMap());
-  RefDepMap &predecessors = *predecessors_p; // only used for more readable code
-
-  // first initialise the working set and also add the variables to the predecessors
-  for(pVariable v: dependentVars)
-  {
-    long id=v->getId();
-    VarInfo *vi = &(dependencies[id]);
-    workingSet.push_back(vi);
-    predecessors[id] = vi;
-  }
-
-  // take elements out of the working set and analyse their predecessors
-  while (!workingSet.empty())
-  {
-    VarInfo *vi = workingSet.front();
-    workingSet.pop_front();
-
-    for(long id: vi->dependsOn)
-    {
-      // check if we already considered this variable
-      if (predecessors.count(id) > 0) continue;
-
-      // A negative id signals that the expression should be re-evaluated for every change.
-      // To do this we add all independent variables to the predecessors list.
-      if (id<0)
-      {
-        for(pVariable indVar: independentVars)
-        {
-          long indId = indVar->getId();
-          if (predecessors.count(indId) == 0)
-          {
-            // if not, put predecessors in the working set and in the map
-            VarInfo *pred = &(dependencies[indId]);
-            workingSet.push_back(pred);
-            predecessors[indId] = pred;
-          }
-        }
-      }
-      else
-      {
-        // constant variables are not part of the dependency map and never need updating
-        DepMap::iterator pos = dependencies.find(id);
-        if (pos == dependencies.end()) continue;
-
-        // if not, put predecessors in the working set and in the map
-        VarInfo *pred = &(pos->second);
-        workingSet.push_back(pred);
-        predecessors[id] = pred;
-      }
-    }
-  }
-
-  // The map now contains all the predecessors of the dependent variables but note
-  // that the VarInfo::modifies sets are not restricted to this map.
-  return predecessors_p;
-
-}
-
-DependencyMap::pRefDepMap DependencyMap::makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap predecessors_p)
-{
-  std::list<VarInfo*> workingSet;
-  pRefDepMap followers_p(new RefDepMap());
-  RefDepMap &followers = *followers_p;
-  RefDepMap &predecessors = *predecessors_p;
-
-  // first initialise the working set and also add the variables to the followers
-  for(pVariable v: independentVars)
-  {
-    long id=v->getId();
-    // the variable is not needed if it is not in the predecessors
-    if (predecessors.count(id) == 0) continue;
-    VarInfo *vi = predecessors[id];
-    workingSet.push_back(vi);
-    followers[id] = vi;
-  }
-
-  // take elements out of the working set and analyse their predecessors
-  while (!workingSet.empty())
-  {
-    VarInfo *vi = workingSet.front();
-    workingSet.pop_front();
-
-    for(long id: vi->modifies)
-    {
-      // check if we already considered this variable or if we need it at all
-      if ((followers.count(id) > 0) || (predecessors.count(id) == 0)) continue;
-
-      // if not, put predecessors in the working set and in the map
-      VarInfo *foll = predecessors[id];
-      workingSet.push_back(foll);
-      followers[id] = foll;
-    }
-  }
-
-  // The map now contains all the predecessors of the dependent variables but note
-  // that the VarInfo::modifies sets are not restricted to this map.
-  return followers_p;
-
-}
-
-void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
-{
-  typedef std::list<VarInfo*>::iterator WorkIter;
-
-  std::list<VarInfo*> workingSet;
-  RefDepMap &deps = *deps_p;
-
-  updateList.clear();
-
-  // first initialise the counters
-  for(RefDepMap::value_type entry: deps)
-  {
-
-    int count = 0;
-    VarInfo *vi = entry.second;
-    workingSet.push_back(vi);
-    for(long id: vi->dependsOn)
-    {
-      if (deps.count(id) > 0) ++count;
-    }
-    entry.second->counter = count;
-  }
-
-  while (!workingSet.empty())
-  {
-    VarInfo *nextEval = 0;
-    WorkIter it = workingSet.begin();
-    while ((nextEval==0) && (it!=workingSet.end()))
-    {
-      if ((*it)->counter==0) nextEval=*it;
-      else ++it;
-    }
-
-    if (nextEval == 0) throw EvaluationException("Variables depend on each other");
-
-    workingSet.erase(it);
-    updateList.push_back(nextEval->v);
-
-    for(long id: nextEval->modifies)
-    {
-      if (deps.count(id) == 0) continue;
-      VarInfo *vi = deps[id];
-      --(vi->counter);
-      assert(vi->counter >= 0);
-    }
-  }
-}
-
-pBlockVariables DependencyMap::getBlockVariables()
-{
-  return blockVars;
-}
-
-void DependencyMap::updateAll()
-{
-  pRefDepMap deps(new RefDepMap());
-  for(DepMap::value_type &entry: dependencies)
-  {
-    deps->insert(RefDepMap::value_type(entry.first, &entry.second));
-  }
-
-  VariableList updateList;
-
-  makeUpdateOrder(deps, updateList);
-
-  for(pVariable v: updateList) {
-    try
-    {
-      v->evaluateExpression();
-    }
-    catch(...)
-    {
-      // no-op, bulkhead
-    }
-  }
-}
-
-
-DependencyUpdater::DependencyUpdater(pDependencyMap dependencies_)
-  : dependencies(dependencies_), isValid(true)
-{
-  assert(dependencies->dummyVar->isReadOnly());
-  independentVars.insert(dependencies->dummyVar);
-}
-
-
-void DependencyUpdater::addIndependent(pParameter p)
-{
-  assert(p->getVariable()->isReadOnly());
-  independentVars.insert(p->getVariable());
-  isValid = false;
-}
-
-void DependencyUpdater::addDependent(pParameter p)
-{
-  assert(!!p);
-  // only non-constant variables have to be updated using the DependencyUpdater
-  if (p->getVariable()->isConstant())
-  {
-    p->update();
-    return;
-  }
-  dependentParameters.insert(p);
-  dependentVars.insert(p->getVariable());
-  isValid = false;
-}
-
-void DependencyUpdater::clearDependent()
-{
-  dependentParameters.clear();
-  dependentVars.clear();
-  isValid = false;
-}
+/*
+ * dependencies.cpp
+ *
+ * Created on: 10 Jul 2012
+ * Author: Holger Schmitz
+ * Email: holger@notjustphysics.com
+ *
+ * Copyright 2012 Holger Schmitz
+ *
+ * This file is part of Schnek.
+ *
+ * Schnek is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ *
+ * Schnek is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ *
+ * You should have received a copy of the GNU General Public License
+ * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
+ *
+ */
+
+#include "dependencies.hpp"
+#include "expression.hpp"
+#include "../exception.hpp"
+#include "../util/logger.hpp"
+
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
+
+#include <boost/variant/apply_visitor.hpp>
+
+#pragma GCC diagnostic pop
+
+#include <cassert>
+
+#undef LOGLEVEL
+#define LOGLEVEL 0
+
+using namespace schnek;
+
+DependencyMap::DependencyMap(const pBlockVariables vars)
+{
+
+  static int dummyInt = 0;
+  typedef std::shared_ptr<Expression<int> > ParExpression;
+  ParExpression pexp(new ExternalValue<int>(&dummyInt));
+  pVariable tmp(new Variable(pexp, true, true));
+  dummyVar = tmp;
+
+  blockVars = vars;
+  constructMap(vars);
+}
+
+void DependencyMap::constructMapRecursive(const pBlockVariables vars)
+{
+  for(VariableMap::value_type it: vars->getVariables())
+  {
+    pVariable v=it.second;
+    if (!v->isConstant())
+    {
+      SCHNEK_TRACE_LOG(3,"Adding variable " << it.first << " " << v->getId());
+      DependenciesGetter depGet;
+      DependencySet dep = boost::apply_visitor(depGet, v->getExpression());
+      if (dep.count(-1)>0)
+      {
+        dep.erase(-1);
+        dep.insert(dummyVar->getId());
+      }
+
+      long id = v->getId();
+      if (dependencies.count(id)>0) throw SchnekException();
+      dependencies[id] = VarInfo(v, dep, DependencySet());
+    }
+  }
+
+  for(pBlockVariables ch: vars->getChildren())
+  {
+    constructMapRecursive(ch);
+  }
+}
+void DependencyMap::constructMap(const pBlockVariables vars)
+{
+  SCHNEK_TRACE_ENTER_FUNCTION(3);
+
+  dependencies.clear();
+  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
+  //dependencies[-1] = dummyInfo;
+  dependencies[dummyVar->getId()] = dummyInfo;
+//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
+
+  constructMapRecursive(vars);
+
+  for(DepMap::value_type entry: dependencies)
+  {
+    SCHNEK_TRACE_LOG(3,"Setting Dependency " << entry.first << " " << entry.second.v->getId());
+    for(long id: entry.second.dependsOn)
+    {
+      if (dependencies.count(id)>0) {
+        SCHNEK_TRACE_LOG(3,"Adding to modifies of " << id);
+        dependencies[id].modifies.insert(entry.first);
+      }
+    }
+  }
+
+  SCHNEK_TRACE_EXIT_FUNCTION(3);
+}
+
+void DependencyMap::resetCounters()
+{
+  for(DepMap::value_type entry: dependencies)
+  {
+    entry.second.counter = entry.second.dependsOn.size();
+  }
+}
+
+void DependencyMap::makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList)
+{
+  pRefDepMap reverseDeps = makeUpdatePredecessors(independentVars, dependentVars);
+  pRefDepMap deps = makeUpdateFollowers(independentVars, reverseDeps);
+  makeUpdateOrder(deps, updateList);
+}
+
+DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSet &independentVars,
+                                                                const VariableSet &dependentVars)
+{
+  std::list<VarInfo*> workingSet;
+  pRefDepMap predecessors_p(new RefDepMap());
+  RefDepMap &predecessors = *predecessors_p; // only used for more readable code
+
+  // first initialise the working set and also add the variables to the predecessors
+  for(pVariable v: dependentVars)
+  {
+    long id=v->getId();
+    VarInfo *vi = &(dependencies[id]);
+    workingSet.push_back(vi);
+    predecessors[id] = vi;
+  }
+
+  // take elements out of the working set and analyse their predecessors
+  while (!workingSet.empty())
+  {
+    VarInfo *vi = workingSet.front();
+    workingSet.pop_front();
+
+    for(long id: vi->dependsOn)
+    {
+      // check if we already considered this variable
+      if (predecessors.count(id) > 0) continue;
+
+      // A negative id signals that the expression should be re-evaluated for every change.
+      // To do this we add all independent variables to the predecessors list.
+      if (id<0)
+      {
+        for(pVariable indVar: independentVars)
+        {
+          long indId = indVar->getId();
+          if (predecessors.count(indId) == 0)
+          {
+            // if not, put predecessors in the working set and in the map
+            VarInfo *pred = &(dependencies[indId]);
+            workingSet.push_back(pred);
+            predecessors[indId] = pred;
+          }
+        }
+      }
+      else
+      {
+        // constant variables are not part of the dependency map and never need updating
+        DepMap::iterator pos = dependencies.find(id);
+        if (pos == dependencies.end()) continue;
+
+        // if not, put predecessors in the working set and in the map
+        VarInfo *pred = &(pos->second);
+        workingSet.push_back(pred);
+        predecessors[id] = pred;
+      }
+    }
+  }
+
+  // The map now contains all the predecessors of the dependent variables but note
+  // that the VarInfo::modifies sets are not restricted to this map.
+  return predecessors_p;
+
+}
+
+DependencyMap::pRefDepMap DependencyMap::makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap predecessors_p)
+{
+  std::list<VarInfo*> workingSet;
+  pRefDepMap followers_p(new RefDepMap());
+  RefDepMap &followers = *followers_p;
+  RefDepMap &predecessors = *predecessors_p;
+
+  // first initialise the working set and also add the variables to the followers
+  for(pVariable v: independentVars)
+  {
+    long id=v->getId();
+    // the variable is not needed if it is not in the predecessors
+    if (predecessors.count(id) == 0) continue;
+    VarInfo *vi = predecessors[id];
+    workingSet.push_back(vi);
+    followers[id] = vi;
+  }
+
+  // take elements out of the working set and analyse their predecessors
+  while (!workingSet.empty())
+  {
+    VarInfo *vi = workingSet.front();
+    workingSet.pop_front();
+
+    for(long id: vi->modifies)
+    {
+      // check if we already considered this variable or if we need it at all
+      if ((followers.count(id) > 0) || (predecessors.count(id) == 0)) continue;
+
+      // if not, put predecessors in the working set and in the map
+      VarInfo *foll = predecessors[id];
+      workingSet.push_back(foll);
+      followers[id] = foll;
+    }
+  }
+
+  // The map now contains all the predecessors of the dependent variables but note
+  // that the VarInfo::modifies sets are not restricted to this map.
+  return followers_p;
+
+}
+
+void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
+{
+  typedef std::list<VarInfo*>::iterator WorkIter;
+
+  std::list<VarInfo*> workingSet;
+  RefDepMap &deps = *deps_p;
+
+  updateList.clear();
+
+  // first initialise the counters
+  for(RefDepMap::value_type entry: deps)
+  {
+
+    int count = 0;
+    VarInfo *vi = entry.second;
+    workingSet.push_back(vi);
+    for(long id: vi->dependsOn)
+    {
+      if (deps.count(id) > 0) ++count;
+    }
+    entry.second->counter = count;
+  }
+
+  while (!workingSet.empty())
+  {
+    VarInfo *nextEval = 0;
+    WorkIter it = workingSet.begin();
+    while ((nextEval==0) && (it!=workingSet.end()))
+    {
+      if ((*it)->counter==0) nextEval=*it;
+      else ++it;
+    }
+
+    if (nextEval == 0) throw EvaluationException("Variables depend on each other");
+
+    workingSet.erase(it);
+    updateList.push_back(nextEval->v);
+
+    for(long id: nextEval->modifies)
+    {
+      if (deps.count(id) == 0) continue;
+      VarInfo *vi = deps[id];
+      --(vi->counter);
+      assert(vi->counter >= 0);
+    }
+  }
+}
+
+pBlockVariables DependencyMap::getBlockVariables()
+{
+  return blockVars;
+}
+
+void DependencyMap::updateAll()
+{
+  pRefDepMap deps(new RefDepMap());
+  for(DepMap::value_type &entry: dependencies)
+  {
+    deps->insert(RefDepMap::value_type(entry.first, &entry.second));
+  }
+
+  VariableList updateList;
+
+  makeUpdateOrder(deps, updateList);
+
+  for(pVariable v: updateList) {
+    try
+    {
+      v->evaluateExpression();
+    }
+    catch(...)
+    {
+      // no-op, bulkhead
+    }
+  }
+}
+
+
+DependencyUpdater::DependencyUpdater(pDependencyMap dependencies_)
+  : dependencies(dependencies_), isValid(true)
+{
+  assert(dependencies->dummyVar->isReadOnly());
+  independentVars.insert(dependencies->dummyVar);
+}
+
+
+void DependencyUpdater::addIndependent(pParameter p)
+{
+  assert(p->getVariable()->isReadOnly());
+  independentVars.insert(p->getVariable());
+  isValid = false;
+}
+
+void DependencyUpdater::addDependent(pParameter p)
+{
+  assert(!!p);
+  // only non-constant variables have to be updated using the DependencyUpdater
+  if (p->getVariable()->isConstant())
+  {
+    p->update();
+    return;
+  }
+  dependentParameters.insert(p);
+  dependentVars.insert(p->getVariable());
+  isValid = false;
+}
+
+void DependencyUpdater::clearDependent()
+{
+  dependentParameters.clear();
+  dependentVars.clear();
+  isValid = false;
+}
-- 
2.43.0

