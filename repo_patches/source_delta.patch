From 77194d7623ac3598c25e173ef06a27c7d88f5680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 001/153] fix: FastSequence: copies and assignments kept a heap
 capacity for inline storage

---
 .../opengm/datastructures/fast_sequence.hxx   | 21 +++++++------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/include/opengm/datastructures/fast_sequence.hxx b/include/opengm/datastructures/fast_sequence.hxx
index d5ada69..47fe545 100644
--- a/include/opengm/datastructures/fast_sequence.hxx
+++ b/include/opengm/datastructures/fast_sequence.hxx
@@ -117,7 +117,7 @@ FastSequence<T, MAX_STACK>::FastSequence
    const  FastSequence<T, MAX_STACK> & other
 )
 :  size_(other.size_),
-   capacity_(other.capacity_)
+   capacity_(other.size_>MAX_STACK?other.size_:MAX_STACK)
 {
    OPENGM_ASSERT(size_<=capacity_);
    OPENGM_ASSERT(capacity_>=MAX_STACK);
@@ -152,23 +152,16 @@ FastSequence<T, MAX_STACK> & FastSequence<T, MAX_STACK>::operator=
       // capacity_=other.capacity_;
       // OPENGM_ASSERT(size_<=capacity_);
       // OPENGM_ASSERT(capacity_>=MAX_STACK);
-      if(other.size_>MAX_STACK) {
+      if(other.size_>capacity_) {
+         T * tmp = new T[other.size_];
          // delete old sequence
-         if(size_>MAX_STACK) {
+         if(capacity_>MAX_STACK) {
             delete [] pointerToSequence_;
-            pointerToSequence_ = new T[other.size_];
          }
-         // nothing to delete
-         else{
-            pointerToSequence_ = new T[other.size_];
-         }
-         size_=other.size_;
-         capacity_=size_;
-      }
-      else{
-         pointerToSequence_=stackSequence_;
-         size_=other.size_;
+         pointerToSequence_ = tmp;
+         capacity_ = other.size_;
       }
+      size_=other.size_;
       std::copy(other.pointerToSequence_, other.pointerToSequence_+size_, pointerToSequence_);
    }
    return *this;
-- 
2.43.0


From 699d100ba9e3306b3bf6740a18175255f87c2516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 002/153] fix: BufferVector: the buffer pointer of an empty
 vector was uninitialised and later deleted

---
 include/opengm/datastructures/buffer_vector.hxx | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/opengm/datastructures/buffer_vector.hxx b/include/opengm/datastructures/buffer_vector.hxx
index b997815..acf652c 100644
--- a/include/opengm/datastructures/buffer_vector.hxx
+++ b/include/opengm/datastructures/buffer_vector.hxx
@@ -73,7 +73,8 @@ namespace opengm{
       const size_t size
    )
    :  size_(size),
-      capacity_(size) {
+      capacity_(size),
+      data_(NULL) {
       if(size_!=0) {
       data_ = new T[size];
       }
@@ -89,9 +90,12 @@ namespace opengm{
       const T & value
    )
    :  size_(size),
-      capacity_(size) {
-      data_ = new T[size];
-      std::fill(data_,data_+size_,value);
+      capacity_(size),
+      data_(NULL) {
+      if(size_!=0) {
+         data_ = new T[size];
+         std::fill(data_,data_+size_,value);
+      }
    }
    
    
@@ -103,7 +107,8 @@ namespace opengm{
       const  BufferVector<T> & other
    )
    :  size_(other.size_),
-      capacity_(other.size_)
+      capacity_(other.size_),
+      data_(NULL)
    {
       if(size_!=0) {
          data_ = new T[size_];
-- 
2.43.0


From 7cb21af0b52e339fca9cbe865a110ec51da30d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 003/153] fix: BufferVector::reserve must not change the size

---
 include/opengm/datastructures/buffer_vector.hxx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/opengm/datastructures/buffer_vector.hxx b/include/opengm/datastructures/buffer_vector.hxx
index acf652c..f724195 100644
--- a/include/opengm/datastructures/buffer_vector.hxx
+++ b/include/opengm/datastructures/buffer_vector.hxx
@@ -296,7 +296,6 @@ namespace opengm{
          else{
             data_=new T[size];
          }
-         size_=size;
          capacity_=size;
       }
       //size_=size;
-- 
2.43.0


From 2b6588923795040838bf447a9825043c0a643cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 004/153] fix: BufferVector: growing an emptied vector leaked
 its buffer

---
 include/opengm/datastructures/buffer_vector.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/datastructures/buffer_vector.hxx b/include/opengm/datastructures/buffer_vector.hxx
index f724195..dfe5528 100644
--- a/include/opengm/datastructures/buffer_vector.hxx
+++ b/include/opengm/datastructures/buffer_vector.hxx
@@ -269,6 +269,7 @@ namespace opengm{
             data_=tmp;
          }
          else{
+            delete[] data_;
             data_=new T[size];
             capacity_=size;
          }
@@ -294,6 +295,7 @@ namespace opengm{
             data_=tmp;
          }
          else{
+            delete[] data_;
             data_=new T[size];
          }
          capacity_=size;
-- 
2.43.0


From eab9826a670a6ae8c75fc553ff0808b33e7029ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 005/153] fix: assigning a model with another list of function
 types did not compile (functions() is protected)

---
 include/opengm/graphicalmodel/graphicalmodel.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel.hxx b/include/opengm/graphicalmodel/graphicalmodel.hxx
index 4bd5cd6..497032e 100755
--- a/include/opengm/graphicalmodel/graphicalmodel.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel.hxx
@@ -194,6 +194,10 @@ template<size_t>
    friend struct detail_graphical_model::FunctionWrapper;
 template<size_t, size_t , bool>
    friend struct detail_graphical_model::FunctionWrapperExecutor;
+template<size_t, size_t>
+   friend struct detail_graphical_model::CopyFunctions;
+template<bool>
+   friend struct detail_graphical_model::MaybeCopyFunctionVector;
 template<typename GM>
    friend void opengm::hdf5::save(const GM&, const std::string&, const std::string&);
 template<typename GM>
-- 
2.43.0


From 3a36a617fe4d96bcc556c9fde8b0828bb2879107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 006/153] fix: maxNumberOfLabels did not compile when index and
 label types differ

---
 include/opengm/graphicalmodel/graphicalmodel.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel.hxx b/include/opengm/graphicalmodel/graphicalmodel.hxx
index 497032e..6ec1bd4 100755
--- a/include/opengm/graphicalmodel/graphicalmodel.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel.hxx
@@ -159,7 +159,7 @@ public:
    LabelType maxNumberOfLabels()const{
         LabelType mx=0;
         for(size_t i=0; i<numberOfVariables(); ++i)
-            mx = std::max(numberOfLabels(i), mx);
+            mx = std::max(static_cast<LabelType>(numberOfLabels(i)), mx);
         return mx;
    }
 
-- 
2.43.0


From 202eb557911c8e4416745a2e8f380d5b8814585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:03 +0000
Subject: [PATCH 007/153] fix: FunctionIdentification: ordering operators were
 not a strict weak order across function types

---
 include/opengm/graphicalmodel/graphicalmodel.hxx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel.hxx b/include/opengm/graphicalmodel/graphicalmodel.hxx
index 6ec1bd4..a853920 100755
--- a/include/opengm/graphicalmodel/graphicalmodel.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel.hxx
@@ -885,8 +885,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType < rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType < rhs.functionType;
    else 
        return functionIndex < rhs.functionIndex;
 }
@@ -898,8 +898,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType >rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType > rhs.functionType;
    else 
        return functionIndex > rhs.functionIndex;
 }
@@ -911,8 +911,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType <= rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType < rhs.functionType;
    else 
        return functionIndex <= rhs.functionIndex;
 }
@@ -924,8 +924,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType >=rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType > rhs.functionType;
    else 
        return functionIndex >= rhs.functionIndex;
 }
-- 
2.43.0


From 27b4bfeb90a3aeb6111c6c9bf8da1846e9ad01ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:03 +0000
Subject: [PATCH 008/153] fix: assigning a model with fewer function types kept
 the functions of the others

---
 include/opengm/graphicalmodel/graphicalmodel.hxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel.hxx b/include/opengm/graphicalmodel/graphicalmodel.hxx
index a853920..f5ab424 100755
--- a/include/opengm/graphicalmodel/graphicalmodel.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel.hxx
@@ -813,9 +813,8 @@ GraphicalModel<T, OPERATOR, FUNCTION_TYPE_LIST, SPACE>::operator=
     typedef GraphicalModel<T, OPERATOR, OTHER_TL, SPACE> OtherGm;
     this->space_ = gm.space_;
 
-    //this->functionDataField_=gm.functionDataField_;
-
-    
+    // discard functions of types that the other model does not know
+    this->functionDataField_ = meta::Field<FunctionTypeList, detail_graphical_model::FunctionDataUnit>();
 
     std::vector<int> srcFidToTarget(OtherGm::NrOfFunctionTypes,-1);
     detail_graphical_model::CopyFunctions<0, OtherGm::NrOfFunctionTypes >::op(gm, *this,srcFidToTarget);
-- 
2.43.0


From 55c8f30e077a1560176a2ce9419e6258a0b47f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 009/153] fix: factorAdjacencyList used the position of a
 variable in the factor as its index

---
 include/opengm/graphicalmodel/graphviews/factorgraph.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
index 5ffdac3..f4e7509 100644
--- a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
+++ b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
@@ -927,8 +927,9 @@ FactorGraph<S,I>::templatedFactorAdjacencyList
    out.resize(numberOfFactors());
    for(size_t f=0; f<numberOfFactors(); ++f) {
       for(size_t v=0 ;v<numberOfVariables(f); ++v) {
-         for(size_t ff=0;ff<numberOfFactors(v);++ff) {
-            const size_t fOfVar=factorOfVariable(v,ff);
+         const size_t variable=variableOfFactor(f,v);
+         for(size_t ff=0;ff<numberOfFactors(variable);++ff) {
+            const size_t fOfVar=factorOfVariable(variable,ff);
             if(f!=fOfVar) {
                out[f].insert(fOfVar);
             }
-- 
2.43.0


From d6b877a14a003665ec026cbd867c6ec44800e118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 010/153] fix: isConnected read out of range for constant
 (order 0) factors

---
 include/opengm/graphicalmodel/graphviews/factorgraph.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
index f4e7509..7c7c0cf 100644
--- a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
+++ b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
@@ -403,7 +403,10 @@ FactorGraph<S,I>::isConnected(marray::Vector<size_t>& representatives) const
       // iterate over all connected variables of factor and merge them to one partition
       const ConstVariableIterator variablesBegin = variablesOfFactorBegin(i);
       const ConstVariableIterator variablesEnd = variablesOfFactorEnd(i);
-      OPENGM_ASSERT(variablesBegin != variablesEnd);
+      if(variablesBegin == variablesEnd) {
+         // a constant factor connects nothing
+         continue;
+      }
 
       for(ConstVariableIterator iter = variablesBegin + 1; iter != variablesEnd; iter++) {
          connectedComponents.merge(*(iter - 1), *iter);
-- 
2.43.0


From 05edb47e56118ddd358308edca85a06f84ba6fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 011/153] fix: isGrid picked the wrong diagonal corner and
 accepted graphs that are not grids

---
 .../graphicalmodel/graphviews/factorgraph.hxx | 32 ++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
index 7c7c0cf..5a411d4 100644
--- a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
+++ b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
@@ -607,7 +607,7 @@ FactorGraph<S,I>::isGrid(marray::Matrix<size_t>& gridIDs) const {
    // find diagonal corner
    size_t diagonalCorner = 1;
    for(size_t i = 1; i < 4; i++) {
-      if(shortestPaths[i - 1].size() > shortestPaths[diagonalCorner].size()) {
+      if(shortestPaths[i - 1].size() > shortestPaths[diagonalCorner - 1].size()) {
          diagonalCorner = i;
       }
    }
@@ -707,6 +707,36 @@ FactorGraph<S,I>::isGrid(marray::Matrix<size_t>& gridIDs) const {
       }
    }
 
+   // check that the second order factors are exactly the edges of the grid:
+   // every variable occurs once, neighbors are connected, and there are no further factors
+   if(dimension[0] * dimension[1] != numberOfVariables()) {
+      return false;
+   }
+   size_t numberOfSecondOrderFactors = 0;
+   for(size_t i = 0; i < numberOfFactors(); i++) {
+      if(numberOfVariables(i) == 2) {
+         numberOfSecondOrderFactors++;
+      }
+   }
+   if(numberOfSecondOrderFactors != dimension[0] * (dimension[1] - 1) + dimension[1] * (dimension[0] - 1)) {
+      return false;
+   }
+   std::vector<bool> variableFound(numberOfVariables(), false);
+   for(size_t i = 0; i < dimension[0]; i++) {
+      for(size_t j = 0; j < dimension[1]; j++) {
+         if(variableFound[gridIDs(i, j)]) {
+            return false;
+         }
+         variableFound[gridIDs(i, j)] = true;
+         if(i > 0 && !variableVariableConnection(gridIDs(i - 1, j), gridIDs(i, j))) {
+            return false;
+         }
+         if(j > 0 && !variableVariableConnection(gridIDs(i, j - 1), gridIDs(i, j))) {
+            return false;
+         }
+      }
+   }
+
    return true;
 }
 
-- 
2.43.0


From 894ed04b964b30a35f947d3381d37864e6171c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 012/153] fix: SparseFunction: strides overflowed with narrow
 label types

---
 include/opengm/datastructures/sparsemarray/sparsemarray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/sparsemarray/sparsemarray.hxx b/include/opengm/datastructures/sparsemarray/sparsemarray.hxx
index b0cd979..e1f8eb3 100755
--- a/include/opengm/datastructures/sparsemarray/sparsemarray.hxx
+++ b/include/opengm/datastructures/sparsemarray/sparsemarray.hxx
@@ -44,7 +44,7 @@ public:
         shape_.resize(dimension_);
         strides_.resize(dimension_);
         // compute strides
-        LabelType strideVal=1;
+        size_t strideVal=1;
         for(unsigned short  dim=0;dim<dimension_;++dim){
             shape_[dim]=*shapeBegin;
             strides_[dim]=strideVal;
-- 
2.43.0


From 5dcca2c7329e7bb889843717a5fab1ea8f96a560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 013/153] fix: ConstantFunction, PottsNFunction,
 PottsGFunction: the size overflowed with narrow shape iterators

---
 include/opengm/functions/constant.hxx | 2 +-
 include/opengm/functions/pottsg.hxx   | 4 ++--
 include/opengm/functions/pottsn.hxx   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/opengm/functions/constant.hxx b/include/opengm/functions/constant.hxx
index 00b8cf6..2c295a7 100644
--- a/include/opengm/functions/constant.hxx
+++ b/include/opengm/functions/constant.hxx
@@ -91,7 +91,7 @@ ConstantFunction<T, I, L>::ConstantFunction
 )
 :  value_(value),
    shape_(shapeBegin, shapeEnd),
-   size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<ITERATOR>::value_type >()))
+   size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>()))
 {}
 
 template <class T, class I, class L>
diff --git a/include/opengm/functions/pottsg.hxx b/include/opengm/functions/pottsg.hxx
index 8985555..cbe8d5a 100644
--- a/include/opengm/functions/pottsg.hxx
+++ b/include/opengm/functions/pottsg.hxx
@@ -101,7 +101,7 @@ PottsGFunction<T, I, L>::PottsGFunction
    ITERATOR shapeEnd
 )
 :  shape_(shapeBegin, shapeEnd),
-   size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<ITERATOR>::value_type >()))
+   size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>()))
 {
 
    OPENGM_ASSERT(shape_.size() <= MaximalOrder_);
@@ -124,7 +124,7 @@ PottsGFunction<T, I, L>::PottsGFunction
    ITERATOR2 valuesBegin
 )
 :  shape_(shapeBegin, shapeEnd),
-   size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<ITERATOR>::value_type >()))
+   size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>()))
 {  
    OPENGM_ASSERT(shape_.size() <= MaximalOrder_); 
    if(shape_.size()<=4){
diff --git a/include/opengm/functions/pottsn.hxx b/include/opengm/functions/pottsn.hxx
index a45f01f..fe8022e 100644
--- a/include/opengm/functions/pottsn.hxx
+++ b/include/opengm/functions/pottsn.hxx
@@ -78,7 +78,7 @@ PottsNFunction<T, I, L>::PottsNFunction
    const T valueNotEqual
 )
 :  shape_(shapeBegin, shapeEnd),
-   size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<ITERATOR>::value_type >())),
+   size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
    valueEqual_(valueEqual),
    valueNotEqual_(valueNotEqual)
 {
-- 
2.43.0


From b270ecc6e78a75536402584511c2018fc15bdf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 014/153] fix: FoEFunction::setDefault stored the experts
 transposed

---
 include/opengm/functions/fieldofexperts.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/functions/fieldofexperts.hxx b/include/opengm/functions/fieldofexperts.hxx
index 6c18af4..6a11642 100644
--- a/include/opengm/functions/fieldofexperts.hxx
+++ b/include/opengm/functions/fieldofexperts.hxx
@@ -101,7 +101,7 @@ public:
          alphas_[e] =  a_alpha[e]; 
          OPENGM_ASSERT(   alphas_[e] ==  a_alpha[e]);
          for(size_t i=0; i<4;++i){
-            experts_[e+i*3] = a_expert[e][i];
+            experts_[e*4+i] = a_expert[e][i];
          }
       }
       numLabels_= 256;
-- 
2.43.0


From fc98553c242376cf661f6ee4685c075b7ca93d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 015/153] fix: constraint functions: the size overflowed with
 narrow shape iterators

---
 .../constraint_functions/linear_constraint_function.hxx       | 4 ++--
 .../constraint_functions/num_labels_limitation_function.hxx   | 2 +-
 .../soft_constraint_functions/label_cost_function.hxx         | 4 ++--
 .../soft_constraint_functions/sum_constraint_function.hxx     | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/opengm/functions/constraint_functions/linear_constraint_function.hxx b/include/opengm/functions/constraint_functions/linear_constraint_function.hxx
index 6fde8f2..a5ee790 100644
--- a/include/opengm/functions/constraint_functions/linear_constraint_function.hxx
+++ b/include/opengm/functions/constraint_functions/linear_constraint_function.hxx
@@ -439,7 +439,7 @@ template<class VALUE_TYPE, class INDEX_TYPE, class LABEL_TYPE>
 template <class SHAPE_ITERATOR_TYPE>
 inline LinearConstraintFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LinearConstraintFunction(SHAPE_ITERATOR_TYPE shapeBegin, SHAPE_ITERATOR_TYPE shapeEnd, const LinearConstraintsContainerType& constraints, const ValueType returnValid, const ValueType returnInvalid)
    : shape_(shapeBegin, shapeEnd),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
      constraints_(constraints), violatedConstraintsIds_(constraints_.size()),
      violatedConstraintsWeights_(constraints_.size()),
      returnValid_(returnValid), returnInvalid_(returnInvalid),
@@ -457,7 +457,7 @@ template<class VALUE_TYPE, class INDEX_TYPE, class LABEL_TYPE>
 template <class SHAPE_ITERATOR_TYPE, class CONSTRAINTS_ITERATOR_TYPE>
 inline LinearConstraintFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LinearConstraintFunction(SHAPE_ITERATOR_TYPE shapeBegin, SHAPE_ITERATOR_TYPE shapeEnd, CONSTRAINTS_ITERATOR_TYPE constraintsBegin, CONSTRAINTS_ITERATOR_TYPE constraintsEnd, const ValueType returnValid, const ValueType returnInvalid)
    : shape_(shapeBegin, shapeEnd),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
      constraints_(constraintsBegin, constraintsEnd),
      violatedConstraintsIds_(constraints_.size()),
      violatedConstraintsWeights_(constraints_.size()),
diff --git a/include/opengm/functions/constraint_functions/num_labels_limitation_function.hxx b/include/opengm/functions/constraint_functions/num_labels_limitation_function.hxx
index 735e3fd..ba4cd4f 100644
--- a/include/opengm/functions/constraint_functions/num_labels_limitation_function.hxx
+++ b/include/opengm/functions/constraint_functions/num_labels_limitation_function.hxx
@@ -456,7 +456,7 @@ inline NumLabelsLimitationFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::NumLabel
   useSameNumLabels_(numVariables_ > 0 ? std::equal(shape_.begin() + 1, shape_.end(), shape_.begin()) : true),
   maxNumLabels_(numVariables_ > 0 ? *std::max_element(shape_.begin(), shape_.end()) : 0),
   maxNumUsedLabels_(maxNumUsedLabels),
-  size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+  size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
   returnValid_(returnValid), returnInvalid_(returnInvalid),
   constraints_(1), violatedConstraintsIds_(1), violatedConstraintsWeights_(1),
   indicatorVariableList_(maxNumLabels_) {
diff --git a/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx b/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx
index 11a1ba1..f811bee 100644
--- a/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx
+++ b/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx
@@ -294,7 +294,7 @@ inline LabelCostFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LabelCostFunction(
    : shape_(shapeBegin, shapeEnd), numVariables_(shape_.size()),
      maxNumLabels_(numVariables_ > 0 ? *std::max_element(shape_.begin(), shape_.end()) : 0),
      useSameNumLabels_(numVariables_ > 0 ? std::equal(shape_.begin() + 1, shape_.end(), shape_.begin()) : true),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
      costs_(costsBegin, costsEnd), useSingleCost_(false), singleLabel_(),
      singleCost_() {
    OPENGM_ASSERT(costs_.size() >= maxNumLabels_);
@@ -306,7 +306,7 @@ inline LabelCostFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LabelCostFunction(
    : shape_(shapeBegin, shapeEnd), numVariables_(shape_.size()),
      maxNumLabels_(numVariables_ > 0 ? *std::max_element(shape_.begin(), shape_.end()) : 0),
      useSameNumLabels_(numVariables_ > 0 ? std::equal(shape_.begin() + 1, shape_.end(), shape_.begin()) : true),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
      costs_(), useSingleCost_(true), singleLabel_(label), singleCost_(cost) {
    OPENGM_ASSERT(singleLabel_ < maxNumLabels_);
 }
diff --git a/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx b/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx
index 74c233f..7459633 100644
--- a/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx
+++ b/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx
@@ -312,7 +312,7 @@ inline SumConstraintFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::SumConstraintF
    : shape_(shapeBegin, shapeEnd), numVariables_(shape_.size()),
      useSameNumLabels_(numVariables_ > 0 ? std::equal(shape_.begin() + 1, shape_.end(), shape_.begin()) : true),
      maxNumLabels_(numVariables_ > 0 ? *std::max_element(shape_.begin(), shape_.end()) : 0),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
      coefficients_(coefficientsBegin, coefficientsEnd),
      shareCoefficients_(shareCoefficients), coefficientsOffsets_(),
      lambda_(lambda), bound_(bound) {
-- 
2.43.0


From 3ff0fdfa4fee97e2c17f0d3a08ce95729768e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 016/153] fix: DynamicSingleSiteFunction: assigning to or
 resizing an empty function deleted an indeterminate pointer

---
 include/opengm/functions/singlesitefunction.hxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/opengm/functions/singlesitefunction.hxx b/include/opengm/functions/singlesitefunction.hxx
index 2d02123..0bd4161 100644
--- a/include/opengm/functions/singlesitefunction.hxx
+++ b/include/opengm/functions/singlesitefunction.hxx
@@ -141,7 +141,7 @@ public:
    typedef T value_type;
 
    DynamicSingleSiteFunction(const size_t size = 0)
-      :  size_(size)
+      :  dataPointer_(0), size_(size)
       {
          if(size_ != 0){
             dataPointer_ = new T[size];
@@ -149,7 +149,7 @@ public:
       }
 
    DynamicSingleSiteFunction(const size_t size, ValueType value)
-      :  size_(size)
+      :  dataPointer_(0), size_(size)
       {
          if(size_ != 0) {
             dataPointer_ = new T[size];
@@ -165,6 +165,7 @@ public:
       }
 
    DynamicSingleSiteFunction(const DynamicSingleSiteFunction & other)
+      :  dataPointer_(0), size_(0)
       {
          if(other.size_ != 0) {
             dataPointer_ = new T[other.size_];
@@ -181,12 +182,14 @@ public:
          if(this != &other) {
             if(other.size_ > size_) {
                delete[] dataPointer_;
+               dataPointer_ = 0;
                dataPointer_ = new T[other.size_];
                size_ = other.size_;
                std::copy(other.dataPointer_, other.dataPointer_ + size_, dataPointer_);
             }
             else if(other.size_ < size_) {
                delete[] dataPointer_;
+               dataPointer_ = 0;
                if(other.size_!= 0) {
                   dataPointer_= new T[other.size_];
                   size_ = other.size_;
@@ -207,6 +210,7 @@ public:
       {
          if(size_ != size){
             delete[] dataPointer_;
+            dataPointer_ = 0;
             if(size != 0){
                dataPointer_ = new T[size];
                size_=size;
@@ -221,6 +225,7 @@ public:
       {
          if(size_ != size){
             delete[] dataPointer_;
+            dataPointer_ = 0;
             if(size != 0) {
                dataPointer_ = new T[size];
                size_ = size;
-- 
2.43.0


From e3423b60fa9fda83a2b05fce186b8ca7c2c65239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 017/153] fix: isGeneralizedPotts evaluated labels out of range
 if a variable has few labels

---
 .../functions/function_properties_base.hxx    | 118 ++++--------------
 1 file changed, 23 insertions(+), 95 deletions(-)

diff --git a/include/opengm/functions/function_properties_base.hxx b/include/opengm/functions/function_properties_base.hxx
index 68882d5..509a67e 100644
--- a/include/opengm/functions/function_properties_base.hxx
+++ b/include/opengm/functions/function_properties_base.hxx
@@ -397,107 +397,35 @@ template<class FUNCTION, class VALUE, class INDEX, class LABEL>
 inline bool 
 FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isGeneralizedPotts() const {
    const FunctionType& f=*static_cast<FunctionType const *>(this);
-   if(f.dimension()==2) {
-      LABEL l[] = {0, 1};
-      VALUE v0 = f(l);
-      l[1]=0;
-      VALUE v1 = f(l);
-      for(l[0]=0;l[0]<f.shape(0);++l[0]) {
-         for(l[1]=0;l[1]<f.shape(1);++l[1]) {
-            if((l[0]==l[1] && f(l)!=v1) || ((l[0]!=l[1] && f(l)!=v0)) ) return false;
-         }
-      }
-      return true;
+   if(f.dimension()<2 || f.dimension()>4) {
+      return false;
    }
-   else  if(f.dimension()==3) {
-      LABEL l[] = {0, 1, 2};
-      VALUE v000 = f(l);
-      l[2]=0; l[1]=1; l[0]=1;
-      VALUE v001 = f(l);
-      l[2]=1; l[1]=0; l[0]=1;
-      VALUE v010 = f(l);
-      l[2]=1; l[1]=1; l[0]=0;
-      VALUE v100 = f(l); 
-      l[2]=0; l[1]=0; l[0]=0;
-      VALUE v111 = f(l);
-      for(l[0]=0;l[0]<f.shape(0);++l[0]) {
-         for(l[1]=0;l[1]<f.shape(1);++l[1]) { 
-            for(l[2]=0;l[2]<f.shape(2);++l[2]) {
-               if((l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v000) ) return false;
-               if((l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v001) ) return false;
-               if((l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v010) ) return false;
-               if((l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v100) ) return false;
-               if((l[1]==l[2] && l[0]==l[2]  && l[0]==l[1] && f(l)!=v111) ) return false;
+   // the value may depend only on which pairs of labels are equal
+   const size_t numberOfPairPatterns = 64;
+   VALUE values[numberOfPairPatterns];
+   bool known[numberOfPairPatterns] = {false};
+   ShapeWalker<FunctionShapeIteratorType> shapeWalker(f.functionShapeBegin(), f.dimension());
+   for(size_t n=0;n<f.size();++n, ++shapeWalker) {
+      size_t pattern = 0;
+      size_t bit = 1;
+      for(size_t i=1;i<f.dimension();++i) {
+         for(size_t j=0;j<i;++j) {
+            if(shapeWalker.coordinateTuple()[i]==shapeWalker.coordinateTuple()[j]) {
+               pattern += bit;
             }
+            bit *= 2;
          }
       }
-      return true;
-   } 
-   else  if(f.dimension()==4) {
-      LABEL l[] = {0, 1, 2, 3};
-      VALUE v000000 = f(l);
-      l[3]=2; l[2]=1; l[1]=0;l[0]=0;
-      VALUE v000001 = f(l);
-      l[3]=2; l[2]=0; l[1]=1;l[0]=0;
-      VALUE v000010 = f(l);
-      l[3]=2; l[2]=0; l[1]=0;l[0]=1;
-      VALUE v000100 = f(l); 
-      l[3]=1; l[2]=0; l[1]=0;l[0]=0; //3-1
-      VALUE v000111 = f(l);
-      l[3]=0; l[2]=1; l[1]=2; l[0]=0;
-      VALUE v001000 = f(l);
-      l[3]=0; l[2]=1; l[1]=1; l[0]=0;
-      VALUE v001100 = f(l);
-      l[3]=0; l[2]=1; l[1]=0; l[0]=0; //3-1
-      VALUE v011001 = f(l);
-      l[3]=0; l[2]=0; l[1]=0; l[0]=1; //3-1
-      VALUE v110100 = f(l); 
-      l[3]=0; l[2]=0; l[1]=0; l[0]=0;
-      VALUE v111111 = f(l);
-      l[3]=1; l[2]=1; l[1]=0; l[0]=0;
-      VALUE v100001 = f(l); 
-      l[3]=1; l[2]=0; l[1]=1; l[0]=0;
-      VALUE v010010 = f(l); 
-      l[3]=0; l[2]=0; l[1]=1; l[0]=2;
-      VALUE v100000 = f(l); 
-      l[3]=0; l[2]=1; l[1]=0; l[0]=2;
-      VALUE v010000 = f(l);
-      l[3]=0; l[2]=0; l[1]=1; l[0]=0; //3-1
-      VALUE v101010 = f(l); 
-
-
-      for(l[0]=0;l[0]<f.shape(0);++l[0]) {
-         for(l[1]=0;l[1]<f.shape(1);++l[1]) { 
-            for(l[2]=0;l[2]<f.shape(2);++l[2]) { 
-               for(l[3]=0;l[3]<f.shape(3);++l[3]) {
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v000000) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v000001) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v000010) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v000100) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]==l[2] && l[0]==l[2]  && l[0]==l[1] && f(l)!=v000111) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]==l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v001000) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]==l[3] && l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v001100) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]!=l[3] && l[1]==l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v010010) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]==l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v010000) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]==l[3] && l[0]==l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v011001) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]==l[3] && l[1]==l[3] && l[0]!=l[3] && l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v110100) ) {std::cout<<"1"; return false;}
-                  if((l[2]==l[3] && l[1]==l[3] && l[0]==l[3] && l[1]==l[2] && l[0]==l[2]  && l[0]==l[1] && f(l)!=v111111) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]==l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v100001) ) {std::cout<<"1"; return false;}
-                  if((l[2]==l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v100000) ) {std::cout<<"1"; return false;}
-                  if((l[2]==l[3] && l[1]!=l[3] && l[0]==l[3] && l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v101010) ) {std::cout<<"1"; return false;}
-               }
-            }
-         }
+      const VALUE v = f(shapeWalker.coordinateTuple().begin());
+      if(!known[pattern]) {
+         known[pattern] = true;
+         values[pattern] = v;
+      }
+      else if(values[pattern]!=v) {
+         return false;
       }
-      return true;
-   }
-   else{
-      return false;
    }
+   return true;
 }
 
 template<class FUNCTION, class VALUE, class INDEX, class LABEL>
-- 
2.43.0


From 7503ccd5d6ebee5552c4745c2a02f5b577a5464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 018/153] fix: truncated difference predicates: wrong for more
 labels in the second variable, negative weights and partly truncated tables

---
 .../functions/function_properties_base.hxx    | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/opengm/functions/function_properties_base.hxx b/include/opengm/functions/function_properties_base.hxx
index 509a67e..d7ebc76 100644
--- a/include/opengm/functions/function_properties_base.hxx
+++ b/include/opengm/functions/function_properties_base.hxx
@@ -302,15 +302,22 @@ FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isTruncatedSquaredDifference() cons
       //get possible weight
       VALUE weight=f(c);
       //get possible truncation (compute the biggest possible distance => value is the truncation value)
-      c[0]=f.shape(0)-static_cast<LABEL>(1);
-      VALUE truncated=f(c);
+      if(f.shape(1)>f.shape(0)) {
+         c[0]=0;
+         c[1]=f.shape(1)-static_cast<LABEL>(1);
+      }
+      else{
+         c[0]=f.shape(0)-static_cast<LABEL>(1);
+      }
+      const VALUE truncated=f(c);
       for( c[1]=0;c[1]<f.shape(1);++c[1]) {
          for( c[0]=0;c[0]<f.shape(0);++c[0]) {
             VALUE d= static_cast<VALUE> (c[0]<c[1] ? c[1]-c[0]:c[0]-c[1]);
             d*=d;
             const VALUE fval=f(c);
-            const VALUE compare=d*weight;
-            if( isNumericEqual(fval, compare  )==false && ((isNumericEqual(fval, truncated) && truncated<compare)==false)) {
+            const VALUE distance=d*weight;
+            const VALUE compare=(weight<0 ? truncated>distance : truncated<distance) ? truncated : distance;
+            if( isNumericEqual(fval, compare  )==false) {
                return false;
             }
          } 
@@ -351,14 +358,21 @@ FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isTruncatedAbsoluteDifference() con
       //get possible weight
       VALUE weight=f(c);
       //get possible truncation (compute the biggest possible distance => value is the truncation value)
-      c[0]=f.shape(0)-static_cast<LABEL>(1);
-      VALUE truncated=f(c);
+      if(f.shape(1)>f.shape(0)) {
+         c[0]=0;
+         c[1]=f.shape(1)-static_cast<LABEL>(1);
+      }
+      else{
+         c[0]=f.shape(0)-static_cast<LABEL>(1);
+      }
+      const VALUE truncated=f(c);
       for( c[1]=0;c[1]<f.shape(1);++c[1]) {
          for( c[0]=0;c[0]<f.shape(0);++c[0]) {
             VALUE d= static_cast<VALUE> (c[0]<c[1] ? c[1]-c[0]:c[0]-c[1]);
             const VALUE fval=f(c);
-            const VALUE compare=d*weight;
-            if( isNumericEqual(fval, compare  )==false && ((isNumericEqual(fval, truncated) && truncated<compare)==false)) {
+            const VALUE distance=d*weight;
+            const VALUE compare=(weight<0 ? truncated>distance : truncated<distance) ? truncated : distance;
+            if( isNumericEqual(fval, compare  )==false) {
                return false;
             }
          } 
-- 
2.43.0


From 6fa4412ab39c41fab03a2a38c71e969e577098e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 019/153] fix: PottsFunction: extrema of a function with a
 single labeling included the value that never occurs

---
 include/opengm/functions/potts.hxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/opengm/functions/potts.hxx b/include/opengm/functions/potts.hxx
index c182463..601c50b 100644
--- a/include/opengm/functions/potts.hxx
+++ b/include/opengm/functions/potts.hxx
@@ -254,14 +254,14 @@ template<class T, class I, class L>
 inline typename PottsFunction<T, I, L>::ValueType
 PottsFunction<T, I, L>::min() const
 {
-   return valueEqual_<valueNotEqual_ ? valueEqual_ :valueNotEqual_;
+   return valueEqual_<valueNotEqual_ || size()==1 ? valueEqual_ :valueNotEqual_;
 }
 
 template<class T, class I, class L>
 inline typename PottsFunction<T, I, L>::ValueType
 PottsFunction<T, I, L>::max() const
 {
-   return valueNotEqual_>valueEqual_ ? valueNotEqual_ :valueEqual_;
+   return valueNotEqual_>valueEqual_ && size()!=1 ? valueNotEqual_ :valueEqual_;
 }
 
 template<class T, class I, class L>
@@ -292,7 +292,10 @@ template<class T, class I, class L>
 inline MinMaxFunctor<typename PottsFunction<T, I, L>::ValueType>
 PottsFunction<T, I, L>::minMax() const
 {
-   if(valueEqual_<valueNotEqual_) {
+   if(size()==1) {
+      return MinMaxFunctor<T>(valueEqual_, valueEqual_);
+   }
+   else if(valueEqual_<valueNotEqual_) {
       return MinMaxFunctor<T>(valueEqual_, valueNotEqual_);
    }
    else {
-- 
2.43.0


From 095861907929641e3da2d928209b220a6d412e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 020/153] fix: ShapeWalkerSwitchedOrder wrote out of range when
 walking a function of order 0

---
 include/opengm/utilities/indexing.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/utilities/indexing.hxx b/include/opengm/utilities/indexing.hxx
index f85bc40..1f1f367 100644
--- a/include/opengm/utilities/indexing.hxx
+++ b/include/opengm/utilities/indexing.hxx
@@ -166,6 +166,9 @@ namespace opengm {
       coordinateTuple_(dimension, 0),
       dimension_(dimension) { }
       ShapeWalkerSwitchedOrder & operator++() {
+         if(dimension_ == 0) {
+            return *this;
+         }
          for(size_t d = dimension_-1; true; --d) {
             if( size_t(coordinateTuple_[d]) != (size_t(shapeBegin_[d]) - size_t(1)) ) {
                ++coordinateTuple_[d];
-- 
2.43.0


From fe553f36b23f7c6f0e1cf9b5cd852ec1f7351b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 021/153] fix: Factor::gmToFactorLabelsBegin did not compile

---
 include/opengm/graphicalmodel/graphicalmodel_factor.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
index b2fa38b..bc7723e 100755
--- a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
@@ -205,6 +205,7 @@ public:
     typename GmToFactorLabelIter<LABEL_ITER>::Iter
     gmToFactorLabelsBegin(LABEL_ITER gmLabelsBegin)const{
         typedef typename GmToFactorLabelIter<LABEL_ITER>::Accessor Accessor;
+        typedef typename GmToFactorLabelIter<LABEL_ITER>::Iter Iter;
         Accessor accessor(variableIndicesBegin(),variableIndicesEnd(), gmLabelsBegin);
         return Iter(accessor, 0);
     }
-- 
2.43.0


From 7738870b76d3be40be43f56b8e61084da3bdd6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 022/153] fix: assigning a factor to a default constructed
 factor left it without a model

---
 include/opengm/graphicalmodel/graphicalmodel_factor.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
index bc7723e..e5de079 100755
--- a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
@@ -485,6 +485,7 @@ Factor<GRAPHICAL_MODEL>::operator=
 )
 {
    if(&src != this) {
+      gm_ = src.gm_;
       functionTypeId_ = src.functionTypeId_;
       functionIndex_ = src.functionIndex_;
       //variableIndices_ = src.variableIndices_;
-- 
2.43.0


From 8b4f236b438eeffc28ac2c044c15f35b097154b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:35 +0000
Subject: [PATCH 023/153] fix: ViewFixVariablesFunction required the fixed
 positions in ascending order without saying so

---
 .../functions/view_fix_variables_function.hxx | 46 +++++++++----------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/include/opengm/functions/view_fix_variables_function.hxx b/include/opengm/functions/view_fix_variables_function.hxx
index ddeda76..8917bc4 100644
--- a/include/opengm/functions/view_fix_variables_function.hxx
+++ b/include/opengm/functions/view_fix_variables_function.hxx
@@ -40,6 +40,8 @@ public:
    IndexType size()const;
 
 private:
+   void computeLookUp();
+
    FactorType const* factor_;
    std::vector<PositionAndLabel<IndexType, LabelType> > positionAndLabels_;
    mutable std::vector<LabelType> iteratorBuffer_;
@@ -86,15 +88,7 @@ ViewFixVariablesFunction<GM>::ViewFixVariablesFunction
          OPENGM_ASSERT(positionAndLabels_[i].label_ < factor_->numberOfLabels(positionAndLabels_[i].position_));
       }
    }
-   for(size_t ind=0; ind<lookUp_.size(); ++ind) {
-      size_t add=0;
-      for(IndexType i=0; i<positionAndLabels_.size(); ++i) {
-         if( positionAndLabels_[i].position_ <= ind+add) {
-            ++add;
-         }
-      }
-      lookUp_[ind]=ind+add;
-   }
+   computeLookUp();
 }
 
 /// constructor
@@ -121,14 +115,24 @@ ViewFixVariablesFunction<GM>::ViewFixVariablesFunction
          OPENGM_ASSERT(positionAndLabels_[i].label_ < factor_->numberOfLabels(positionAndLabels_[i].position_));
       }
    }
-   for(size_t ind=0; ind<lookUp_.size(); ++ind) {
-      size_t add = 0;
-      for(IndexType i=0; i<positionAndLabels_.size(); ++i) {
-         if( positionAndLabels_[i].position_ <= ind+add) {
-            ++add;
-         }
+   computeLookUp();
+}
+
+/// positions of the variables that are not fixed (the fixed positions may be given in any order)
+template<class GM>
+inline void
+ViewFixVariablesFunction<GM>::computeLookUp()
+{
+   std::vector<bool> fixed(factor_->numberOfVariables(), false);
+   for(size_t i=0; i<positionAndLabels_.size(); ++i) {
+      fixed[positionAndLabels_[i].position_] = true;
+   }
+   size_t ind = 0;
+   for(size_t i=0; i<fixed.size(); ++i) {
+      if(!fixed[i]) {
+         lookUp_[ind] = i;
+         ++ind;
       }
-      lookUp_[ind]=ind+add;
    }
 }
 
@@ -160,14 +164,8 @@ ViewFixVariablesFunction<GM>::shape
 ) const
 {
    OPENGM_ASSERT(factor_ != NULL);
-   size_t add = 0;
-   for(IndexType i=0; i<positionAndLabels_.size(); ++i) {
-      if( positionAndLabels_[i].position_ <= index+add) {
-         ++add;
-      }
-   }
-   OPENGM_ASSERT(index + add < factor_->numberOfVariables());
-   return factor_->numberOfLabels(index + add);
+   OPENGM_ASSERT(index < lookUp_.size());
+   return factor_->numberOfLabels(lookUp_[index]);
 }
 
 template<class GM>
-- 
2.43.0


From dd58e2ba0a19d7a88d5128de58df7905bbe2d2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 024/153] fix: Integrator: the inverse operation with two
 arguments did nothing

---
 include/opengm/operations/integrator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/operations/integrator.hxx b/include/opengm/operations/integrator.hxx
index aa2305f..1b7be65 100644
--- a/include/opengm/operations/integrator.hxx
+++ b/include/opengm/operations/integrator.hxx
@@ -44,7 +44,7 @@ struct Integrator
    /// inverse operation (in-place)
    template<class T1, class T2>
       static void iop(const T1& in1,  T2& out)
-         { out - in1; }
+         { out -= in1; }
 
    /// inverse operation (call by reference)
    template<class T1,class T2,class T3>
-- 
2.43.0


From f53616a43fa58e4f56f3dd737de639c20fac30da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 025/153] fix: Minimizer, Maximizer: the neutral element of
 value types without infinity was zero

---
 include/opengm/operations/maximizer.hxx | 8 ++++----
 include/opengm/operations/minimizer.hxx | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/opengm/operations/maximizer.hxx b/include/opengm/operations/maximizer.hxx
index 7eb545d..bd0753a 100644
--- a/include/opengm/operations/maximizer.hxx
+++ b/include/opengm/operations/maximizer.hxx
@@ -12,22 +12,22 @@ struct Maximizer
    /// neutral element (with return)
    template<class T>
    static T neutral()
-      { return -std::numeric_limits<T>::infinity(); }
+      { return std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::min(); }
 
    /// neutral element (call by reference)
    template<class T>
    static void neutral(T& out)
-      { out = -std::numeric_limits<T>::infinity(); }
+      { out = std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::min(); }
 
    /// inverse neutral element (with return)
    template<class T>
    static T ineutral()
-      { return std::numeric_limits<T>::infinity(); }
+      { return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); }
 
    /// inverse neutral element (call by reference)
    template<class T>
    static void ineutral(T& out)
-      { out = std::numeric_limits<T>::infinity(); }
+      { out = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); }
 
    /// operation (in-place)
    template<class T1, class T2>
diff --git a/include/opengm/operations/minimizer.hxx b/include/opengm/operations/minimizer.hxx
index d8bd555..83e0c2b 100644
--- a/include/opengm/operations/minimizer.hxx
+++ b/include/opengm/operations/minimizer.hxx
@@ -14,20 +14,20 @@ struct Minimizer
    /// neutral element (with return)
    template<class T>
    static T neutral()
-      { return std::numeric_limits<T>::infinity(); }
+      { return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); }
    /// neutral element (call by reference)
    template<class T>
    static void neutral(T& out)
-      { out = std::numeric_limits<T>::infinity(); }
+      { out = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); }
 
    /// inverse neutral element (with return)
    template<class T>
    static T ineutral()
-      { return -std::numeric_limits<T>::infinity(); }
+      { return std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::min(); }
    /// inverse neutral element (call by reference)
    template<class T>
    static void ineutral(T& out)
-      { out = -std::numeric_limits<T>::infinity(); }
+      { out = std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::min(); }
       
    /// operation (in-place)
    template<class T1, class T2>
-- 
2.43.0


From 483a3762964a06166f32bce9f2b10d9907b8d940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 026/153] fix: Logsumexp: the operation with three arguments
 ignored the second one

---
 include/opengm/operations/logsumexp.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/operations/logsumexp.hxx b/include/opengm/operations/logsumexp.hxx
index 87f4d70..f8d9e9c 100644
--- a/include/opengm/operations/logsumexp.hxx
+++ b/include/opengm/operations/logsumexp.hxx
@@ -47,8 +47,8 @@ struct Logsumexp
       static void op(const T1 in1, const T2 in2, T3& out)
 //         { out = log(exp(in1) + exp(in2)); }
    {
-      T2 theMax = std::max(in1, out);
-      T2 theMin = std::min(in1, out);
+      T2 theMax = std::max(in1, in2);
+      T2 theMin = std::min(in1, in2);
       out = theMax + log(1 + exp(theMin - theMax));  // numerically better
    }
 
-- 
2.43.0


From 2684ce7a8fb1760f3ad8e69f7f36cc67784acdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 027/153] fix: Accumulation: no state was recorded if no value
 was better than the neutral element

---
 include/opengm/utilities/accumulation.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/utilities/accumulation.hxx b/include/opengm/utilities/accumulation.hxx
index 61039aa..90bcf19 100644
--- a/include/opengm/utilities/accumulation.hxx
+++ b/include/opengm/utilities/accumulation.hxx
@@ -110,7 +110,7 @@ Accumulation<Value, State, Accumulator>::operator()
    const ValueType& value,
    const opengm::FastSequence<size_t>& state
 ) {
-   if(Accumulator::bop(value, value_)) {
+   if(state_.size() != state.size() || Accumulator::bop(value, value_)) {
       state_ = state;
       OPENGM_ASSERT(state_.size()==state.size());
    }
@@ -127,7 +127,7 @@ Accumulation<Value, State, Accumulator>::operator()
    const CONTAINER & state
 )
 {
-   if(Accumulator::bop(value, value_)) {
+   if(state_.size() != state.size() || Accumulator::bop(value, value_)) {
       state_.resize(state.size());
       for(size_t i=0;i<state.size();++i) {
          state_[i] = state[i];
-- 
2.43.0


From de2af6535a8dc6a2263f2380c59bfbe786a8fecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:47 +0000
Subject: [PATCH 028/153] fix: IndependentFactor::subtractOffset did not
 compile for label types other than size_t

---
 include/opengm/graphicalmodel/graphicalmodel_factor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
index e5de079..234337a 100755
--- a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
@@ -1328,7 +1328,7 @@ IndependentFactor<T, I, L> ::subtractOffset() {
    }
    else {
       T v;
-      std::vector<size_t> states;
+      std::vector<LabelType> states;
       opengm::accumulate<Minimizer>(*this, v, states);
       (*this) -= v;
    }
-- 
2.43.0


From 7f3da6d4b12ad4112f476f8a857e17358a88e84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 029/153] fix: Marray::resize to a scalar ignored the initial
 value

---
 include/opengm/datastructures/marray/marray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index 0c91d2f..becb2dd 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -3894,7 +3894,7 @@ Marray<T, A>::resize
        *this=Marray<T,A>((*this).operator()(0));
        }
        else{
-          *this=Marray<T,A>(T());
+          *this=Marray<T,A>(value);
        }
 
     }
-- 
2.43.0


From 0ee384a11e74f242c454b8fc87bb2533f3cab4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 030/153] fix: operations on constant (order 0) functions
 produced an empty array of order 1

---
 include/opengm/functions/operations/operator.hxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/opengm/functions/operations/operator.hxx b/include/opengm/functions/operations/operator.hxx
index 56cda43..60e0107 100644
--- a/include/opengm/functions/operations/operator.hxx
+++ b/include/opengm/functions/operations/operator.hxx
@@ -182,7 +182,6 @@ void BinaryOperationImpl<A, B, C, OP>::op
    }
    else if(dimA == 0 && dimB == 0) {
       const size_t scalarIndex=0;
-      c.resize(&scalarIndex, &scalarIndex+1);
       c(&scalarIndex) = op(a(&scalarIndex), b(&scalarIndex));
    }
    else if(dimA == 0) {
@@ -252,7 +251,6 @@ void BinaryOperationInplaceImpl<A, B, OP>::op
       }
       else {
          const size_t scalarIndex=0;
-         a.resize(&scalarIndex, &scalarIndex+1);
          a(&scalarIndex) = op(a(&scalarIndex), b(&scalarIndex));
          via.assign(viaNew.begin(),viaNew.end());
       }
@@ -299,7 +297,7 @@ void UnaryOperationImpl<A, B, OP>::op
    }
    else {
       const size_t scalarIndex=0;
-      b.resize(&scalarIndex, &scalarIndex+1);
+      b.resize(&scalarIndex, &scalarIndex);
       b(&scalarIndex) = op(a(&scalarIndex));
    }
 }
-- 
2.43.0


From b2e6ce1eddaf55f5a722a28581d8307feff207a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 031/153] fix: accumulating a constant (order 0) function used
 zero instead of its value

---
 include/opengm/functions/operations/accumulator.hxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/opengm/functions/operations/accumulator.hxx b/include/opengm/functions/operations/accumulator.hxx
index 2e12443..3bcb31b 100644
--- a/include/opengm/functions/operations/accumulator.hxx
+++ b/include/opengm/functions/operations/accumulator.hxx
@@ -198,8 +198,7 @@ void AccumulateSomeImpl<A, B, ACC>::op
    else {
       Accumulation<ValueType, LabelType, ACC> acc;
       size_t indexSequenceToScalar[] = {0};
-      ValueType accRes=static_cast<ValueType>(0.0);
-      acc(accRes);
+      acc(a(indexSequenceToScalar));
       size_t shapeToScalarArray[] = {0};
       b.resize(shapeToScalarArray, shapeToScalarArray);
       b(indexSequenceToScalar) = acc.value();
@@ -290,10 +289,9 @@ void AccumulateSomeInplaceImpl<A, ACC>::op
    }
    else {
       Accumulation<ValueType, LabelType, ACC> acc;
-      ValueType accRes=static_cast<ValueType>(0.0);
-      acc(accRes);
-      a.assign();
-      a(0) = acc.value();
+      size_t indexSequenceToScalar[] = {0};
+      acc(a(indexSequenceToScalar));
+      a(indexSequenceToScalar) = acc.value();
    }
    OPENGM_ASSERT(a.dimension() == viA.size());
    OPENGM_ASSERT(a.dimension() != 0 || (a.dimension() == 0 && a.size() == 1));
-- 
2.43.0


From bb5e4f10079266ba1b47390b1a65892cca86e54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 032/153] fix: AStar: the fast heuristic ignored constant
 factors, so that the bound was wrong

---
 include/opengm/inference/astar.hxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index d1a19e6..2363815 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -533,6 +533,8 @@ namespace opengm {
       for(size_t i=0;i<conf.size();++i) {
          nodeLabel[parameter_.nodeOrder_[i]] = conf[i];
       }
+      ValueType constant;
+      OperatorType::neutral(constant);
       //First run:
       // * add unarry function
       // * add pairwise functions with at least one observed node
@@ -540,6 +542,11 @@ namespace opengm {
       for(size_t i=0; i<gm_.numberOfFactors(); ++i) {
          const FactorType & f    = gm_[i];
          size_t nvar = f.numberOfVariables();
+         //constant factors
+         if(nvar==0) {
+            LabelType coordinates[]={0};
+            OperatorType::op(f(coordinates), constant);
+         }
          //factors depending from 1 variable can be include
          if(nvar==1) {
             int index = f.variableIndex(0);
@@ -687,7 +694,7 @@ namespace opengm {
       //Evaluate
       ValueType result;
       ValueType min;
-      OperatorType::neutral(result);
+      result = constant;
       std::vector<ValueType > bound;
       for(size_t i=0;i<numNodes_;++i) {
          if(i==nextNode) continue;
-- 
2.43.0


From 5e45468074b69bd685bc1630533667d2f3795838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 033/153] fix: AStar: the fast heuristic evaluated factors of
 order three and more with uninitialised labels

---
 include/opengm/inference/astar.hxx | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 2363815..cb10b3e 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -617,15 +617,21 @@ namespace opengm {
          }
          if(nvar>2) {
             bool covered = true;
-            std::vector<size_t> state(nvar);
+            std::vector<LabelType> state(nvar);
             for(size_t j=0; j<nvar; ++j) {
-               if(nodeLabel[f.variableIndex(j)]<0) {
-                  state[j] = nodeLabel[f.variableIndex(j)];
+               if(nodeLabel[f.variableIndex(j)]<0)
                   covered = false;
-               }
+               else
+                  state[j] = static_cast<LabelType>(nodeLabel[f.variableIndex(j)]);
+            }
+            if(covered || nodeLabel[f.variableIndex(0)]>=0) {
+               const size_t index = f.variableIndex(0);
+               nodeEnergy[index].resize(1);
+               if(covered)
+                  OperatorType::op(f(state.begin()), nodeEnergy[index][0]);
+               else
+                  OperatorType::op(optimizedFactor_[i](state.begin()), nodeEnergy[index][0]);
             }
-            if(covered)
-               nodeEnergy[f.variableIndex(0)][0] = f(state.begin());
             else{
                for(size_t j=0;j<numStates_[f.variableIndex(0)];++j) {
                   //nodeEnergy[f.variableIndex(0)][j] = operation(optimizedFactor_[i](j), nodeEnergy[f.variableIndex(0)][j]);
-- 
2.43.0


From f6b3364b693b3599b8d83e325e8330fa91f28cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 034/153] fix: AStar: the standard heuristic attached optimized
 factors of fixed variables to another variable

---
 include/opengm/inference/astar.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index cb10b3e..d4c8cad 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -449,6 +449,10 @@ namespace opengm {
                   fixedStates[i]=fixVariableLabel[ gm_[f].variableIndex(i)];
                }     
                GM::OperatorType::op(gm_[f](fixedStates.begin()),constant);       
+            }else if(MVars.size()>=2 && !isTreeFactor_[f] && fixVariable[gm_[f].variableIndex(0)]){
+               // the optimized factor depends on a fixed variable
+               const LabelType label = fixVariableLabel[gm_[f].variableIndex(0)];
+               GM::OperatorType::op(optimizedFactor_[f](&label),constant);
             }else{
                if(MVars.size()<2 || isTreeFactor_[f]){
                   const ViewFixVariablesFunction<GM> func(gm_[f], fixedVars);
-- 
2.43.0


From 099447da2bd1db3ae6ab539b841a11e30dac77bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 035/153] fix: AStar did not terminate if two factors connect
 the same pair of variables

---
 include/opengm/inference/astar.hxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index d4c8cad..230dba6 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -235,12 +235,16 @@ namespace opengm {
       }
       //Check FactorIds
       if(parameter_.treeFactorIds_.size()==0) {
-         //Select tree factors
+         //Select tree factors (at most one for each pair of variables)
+         std::set<IndexType> neighbors;
          for(size_t i=0; i<gm_.numberOfFactors(); ++i) {
             if((gm_[i].numberOfVariables()==2) &&
                (gm_[i].variableIndex(0)==parameter_.nodeOrder_.back() || gm_[i].variableIndex(1)==parameter_.nodeOrder_.back())
-               )
-               parameter_.addTreeFactorId(i);
+               ) {
+               const IndexType neighbor = gm_[i].variableIndex(0)==parameter_.nodeOrder_.back() ? gm_[i].variableIndex(1) : gm_[i].variableIndex(0);
+               if(neighbors.insert(neighbor).second)
+                  parameter_.addTreeFactorId(i);
+            }
          }
       }
       for(size_t i=0; i<parameter_.treeFactorIds_.size(); ++i)
-- 
2.43.0


From 1b918cc50cf9aec5e8aa4f69e457edc6fc94f3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 036/153] fix: AStar::infer returned UNKNOWN after finding all
 requested labelings if no other labeling is left

---
 include/opengm/inference/astar.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 230dba6..f891179 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -345,7 +345,7 @@ namespace opengm {
          array_.pop_back();
       }
       visitor.end(*this);     
-      return UNKNOWN;
+      return parameter_.numberOfOpt_ == optConf_.size() ? NORMAL : UNKNOWN;
    } 
 
    template<class GM, class ACC>
-- 
2.43.0


From caeebe1220b232f88fa0cd3fc6fbe87fb9c1a486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 037/153] fix: AStar: converting parameters left the heuristic
 uninitialised

---
 include/opengm/inference/astar.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index f891179..ebcee35 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -110,6 +110,7 @@ namespace opengm {
         :   maxHeapSize_(p.maxHeapSize_),
             numberOfOpt_(p.numberOfOpt_),
             objectiveBound_(p.objectiveBound_),
+            heuristic_(p.heuristic_),
             nodeOrder_(p.nodeOrder_),
             treeFactorIds_(p.treeFactorIds_){
         }
-- 
2.43.0


From 1c96f989e95303c1d1a1c6f7680af3bdaf223603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 038/153] fix: DynamicProgramming skipped variables that are
 not connected to the given roots

---
 include/opengm/inference/dynamicprogramming.hxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/opengm/inference/dynamicprogramming.hxx b/include/opengm/inference/dynamicprogramming.hxx
index 436c36e..7247161 100644
--- a/include/opengm/inference/dynamicprogramming.hxx
+++ b/include/opengm/inference/dynamicprogramming.hxx
@@ -117,11 +117,13 @@ namespace opengm {
         nodeList.push_back(para_.roots_[rootCounter]);
         ++rootCounter;
       }
-      else if(nodeOrder_[varCount]==std::numeric_limits<std::size_t>::max()){
-        nodeOrder_[varCount] = orderCount++;
-        nodeList.push_back(varCount);
+      else{
+        if(nodeOrder_[varCount]==std::numeric_limits<std::size_t>::max()){
+          nodeOrder_[varCount] = orderCount++;
+          nodeList.push_back(varCount);
+        }
+        ++varCount;
       }
-      ++varCount;
       while(nodeList.size()>0){
         size_t node = nodeList.back();
         nodeList.pop_back();
-- 
2.43.0


From 3e1407c95272e364181f019aef08c5e7cd408fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 039/153] fix: DynamicProgramming returned labels out of range
 if all values of a variable are infinite

---
 include/opengm/inference/dynamicprogramming.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/dynamicprogramming.hxx b/include/opengm/inference/dynamicprogramming.hxx
index 7247161..87fff58 100644
--- a/include/opengm/inference/dynamicprogramming.hxx
+++ b/include/opengm/inference/dynamicprogramming.hxx
@@ -212,7 +212,7 @@ namespace opengm {
           size_t vec[] = {0,0};
           if(factor.variableIndex(0) == node && nodeOrder_[factor.variableIndex(1)]>nodeOrder_[node] ){
             const size_t node2 = factor.variableIndex(1);
-            MyStateType s;
+            MyStateType s = 0;
             MyValueType v,v2;
             for(vec[0]=0; vec[0]<gm_.numberOfLabels(node); ++vec[0]){
               ACC::neutral(v);
@@ -232,7 +232,7 @@ namespace opengm {
           }
           if(factor.variableIndex(1) == node && nodeOrder_[factor.variableIndex(0)]>nodeOrder_[node]){ 
             const size_t node2 = factor.variableIndex(0);
-            MyStateType s;
+            MyStateType s = 0;
             MyValueType v,v2;
             for(vec[1]=0; vec[1]<gm_.numberOfLabels(node); ++vec[1]){
               ACC::neutral(v);
@@ -279,6 +279,7 @@ namespace opengm {
          while(var < gm_.numberOfVariables()){
            if(arg[var]==std::numeric_limits<LabelType>::max()){
              MyValueType v; ACC::neutral(v);
+             arg[var] = 0;
              for(size_t i=0; i<gm_.numberOfLabels(var); ++i){
                if(ACC::bop(valueBuffers_[var][i], v)){
                  v = valueBuffers_[var][i];
-- 
2.43.0


From 503ac15a8c66ca46b4c58f55799bade3e8207b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 040/153] fix: AStar: the fast heuristic was not exact for
 complete labelings with factors of order three and more

---
 include/opengm/inference/astar.hxx | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index ebcee35..ac1dc6d 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -625,18 +625,28 @@ namespace opengm {
             }
          }
          if(nvar>2) {
-            bool covered = true;
+            size_t free = 0;
+            size_t freePosition = 0;
             std::vector<LabelType> state(nvar);
             for(size_t j=0; j<nvar; ++j) {
-               if(nodeLabel[f.variableIndex(j)]<0)
-                  covered = false;
+               if(nodeLabel[f.variableIndex(j)]<0) {
+                  ++free;
+                  freePosition = j;
+               }
                else
                   state[j] = static_cast<LabelType>(nodeLabel[f.variableIndex(j)]);
             }
-            if(covered || nodeLabel[f.variableIndex(0)]>=0) {
+            if(free==1) {
+               const size_t index = f.variableIndex(freePosition);
+               for(size_t j=0;j<numStates_[index];++j) {
+                  state[freePosition] = static_cast<LabelType>(j);
+                  OperatorType::op(f(state.begin()), nodeEnergy[index][j]);
+               }
+            }
+            else if(free==0 || nodeLabel[f.variableIndex(0)]>=0) {
                const size_t index = f.variableIndex(0);
                nodeEnergy[index].resize(1);
-               if(covered)
+               if(free==0)
                   OperatorType::op(f(state.begin()), nodeEnergy[index][0]);
                else
                   OperatorType::op(optimizedFactor_[i](state.begin()), nodeEnergy[index][0]);
-- 
2.43.0


From b9271acd4a1260d029c0f9a7f482d33fb0df3bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:00 +0000
Subject: [PATCH 041/153] fix: MessagePassing::propagate did not compile: the
 variable hulls need the model

---
 include/opengm/inference/messagepassing/messagepassing.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/messagepassing/messagepassing.hxx b/include/opengm/inference/messagepassing/messagepassing.hxx
index 56a854b..40f4b01 100644
--- a/include/opengm/inference/messagepassing/messagepassing.hxx
+++ b/include/opengm/inference/messagepassing/messagepassing.hxx
@@ -395,7 +395,7 @@ inline void MessagePassing<GM, ACC, UPDATE_RULES, DIST>::propagate
    const ValueType& damping
 ) {
    for (size_t i = 0; i < variableHulls_.size(); ++i) {
-      variableHulls_[i].propagateAll(damping, false);
+      variableHulls_[i].propagateAll(gm_, damping, false);
    }
    for (size_t i = 0; i < factorHulls_.size(); ++i) {
       factorHulls_[i].propagateAll(damping, parameter_.useNormalization_);
-- 
2.43.0


From 6c918c8585f7918ad44804318d539e26ed996eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 042/153] fix: GraphCut connected the wrong nodes for factors
 of order three

---
 include/opengm/inference/graphcut.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/opengm/inference/graphcut.hxx b/include/opengm/inference/graphcut.hxx
index 314babd..1f1519e 100644
--- a/include/opengm/inference/graphcut.hxx
+++ b/include/opengm/inference/graphcut.hxx
@@ -253,7 +253,7 @@ inline void GraphCut<GM, ACC, MINSTCUT>::addFactor
    else if(numberOfVariables == 3) {
       const size_t var0 = factor.variableIndex(0);
       const size_t var1 = factor.variableIndex(1);
-      const size_t var2 = factor.variableIndex(1);
+      const size_t var2 = factor.variableIndex(2);
       OPENGM_ASSERT(var0 < numVariables_);
       OPENGM_ASSERT(var1 < numVariables_);
       OPENGM_ASSERT(var2 < numVariables_);
@@ -279,7 +279,7 @@ inline void GraphCut<GM, ACC, MINSTCUT>::addFactor
             if(G-E>=0) addEdgeCapacity(0, var1+2, G - E);
             else       addEdgeCapacity(var1+2, 1, E - G);
             if(D-C>=0) addEdgeCapacity(0, var2+2, D - C);
-            else       addEdgeCapacity(var2+2, 0, C - D);
+            else       addEdgeCapacity(var2+2, 1, C - D);
 
             addEdgeCapacity(var1+2, var2+2, B + C - A - D);
             addEdgeCapacity(var2+2, var0+2, B + E - A - F);
@@ -288,7 +288,7 @@ inline void GraphCut<GM, ACC, MINSTCUT>::addFactor
             addEdgeCapacity(var0 + 2, id + 2, P);
             addEdgeCapacity(var1 + 2, id + 2, P);
             addEdgeCapacity(var2 + 2, id + 2, P);
-            addEdgeCapacity(id, 1, P);
+            addEdgeCapacity(id + 2, 1, P);
          }
          else {
             if(C-G>=0) addEdgeCapacity(var0+2, 1, C - G);
@@ -354,7 +354,7 @@ GraphCut<GM, ACC, MINSTCUT>::tripleId
       if(triple[0] == (*it)[0] && triple[1] == (*it)[1] && triple[2] == (*it)[2]) {
          return counter;
       }
-      numVariables_++;
+      counter++;
    }
    // add triple to list
    tripleList.push_back(triple);
-- 
2.43.0


From 26c430c0036bfe06325f7f03a47ba05ff293a7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 043/153] fix: Movemaker: optimal moves of an empty set of
 variables did not terminate

---
 include/opengm/inference/movemaker.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/opengm/inference/movemaker.hxx b/include/opengm/inference/movemaker.hxx
index 468115c..0d190a9 100644
--- a/include/opengm/inference/movemaker.hxx
+++ b/include/opengm/inference/movemaker.hxx
@@ -381,6 +381,9 @@ Movemaker<GM>::moveOptimally
    IndexIterator variableIndices,
    IndexIterator variableIndicesEnd
 ) {
+   if(variableIndices == variableIndicesEnd) {
+      return energy_;
+   }
    // determine factors to recompute
    std::set<size_t> factorsToRecompute;
    for (IndexIterator it = variableIndices; it != variableIndicesEnd; ++it) {
@@ -474,6 +477,9 @@ Movemaker<GM>::moveOptimallyWithAllLabelsChanging
    IndexIterator variableIndices,
    IndexIterator variableIndicesEnd
 ) {
+   if(variableIndices == variableIndicesEnd) {
+      return energy_;
+   }
    // determine factors to recompute
    std::set<size_t> factorsToRecompute;
    for (IndexIterator it = variableIndices; it != variableIndicesEnd; ++it) {
-- 
2.43.0


From 3a7df8bcd26fbba7ebbe53144f59706c59eb13b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:06 +0000
Subject: [PATCH 044/153] fix: Movemaker::moveOptimallyWithAllLabelsChanging
 left wrong labels in its buffer if a variable has one label

---
 include/opengm/inference/movemaker.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/movemaker.hxx b/include/opengm/inference/movemaker.hxx
index 0d190a9..b1dba8a 100644
--- a/include/opengm/inference/movemaker.hxx
+++ b/include/opengm/inference/movemaker.hxx
@@ -503,7 +503,8 @@ Movemaker<GM>::moveOptimallyWithAllLabelsChanging
       if(gm_.space().numberOfLabels(variableIndices[j]) == 1) {
          // restore stateBuffer_
          for(size_t k=0; k<j; ++k) {
-            stateBuffer_[k] = state_[k];
+            const size_t vk = variableIndices[k];
+            stateBuffer_[vk] = state_[vk];
          }
          return energy_;
       }
-- 
2.43.0


From 6800f57eb399f956152ea8ccd6265f600c47583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 045/153] fix: ICM with factor moves stopped before all factors
 were locally optimal

---
 include/opengm/inference/icm.hxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/icm.hxx b/include/opengm/inference/icm.hxx
index 7b70ac9..e39a1d4 100644
--- a/include/opengm/inference/icm.hxx
+++ b/include/opengm/inference/icm.hxx
@@ -248,8 +248,15 @@ InferenceTermination ICM<GM,ACC>::infer
                   for(v=0;v<gm_[f].numberOfVariables();++v) {
                      const size_t varIndex=gm_[f].variableIndex(v);
                      if(stateBuffer[v]!=movemaker_.state(varIndex)) {
+                        // the best move of every factor that shares a factor with this variable may have changed
                         for(ff=0;ff<gm_.numberOfFactors(varIndex);++ff) {
-                           isLocalOptimal[gm_.factorOfVariable(varIndex,ff)]=false;
+                           const FactorType& influenced=gm_[gm_.factorOfVariable(varIndex,ff)];
+                           for(size_t vv=0;vv<influenced.numberOfVariables();++vv) {
+                              const size_t neighbor=influenced.variableIndex(vv);
+                              for(size_t fff=0;fff<gm_.numberOfFactors(neighbor);++fff) {
+                                 isLocalOptimal[gm_.factorOfVariable(neighbor,fff)]=false;
+                              }
+                           }
                         }
                      }
                   }
-- 
2.43.0


From 19fb96ca1e34d076d89b29b2467d3668e9b1bf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 046/153] fix: LazyFlipper did not search subgraphs of more
 than one variable in a second run

---
 include/opengm/inference/lazyflipper.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opengm/inference/lazyflipper.hxx b/include/opengm/inference/lazyflipper.hxx
index 53689ab..bedde73 100644
--- a/include/opengm/inference/lazyflipper.hxx
+++ b/include/opengm/inference/lazyflipper.hxx
@@ -763,6 +763,10 @@ LazyFlipper<GM, ACC>::infer(
    VisitorType& visitor
 )
 {
+   // forget the subgraphs of an earlier run
+   subgraphForest_ = SubgraphForest();
+   deactivateAllVariables(0);
+   deactivateAllVariables(1);
    bool multiLabel;
    if(this->useMultilabelInference_ == true) {
       multiLabel = true;
-- 
2.43.0


From c2b70a1127e062875e45170137d859862ad7fbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 047/153] fix: GreedyGremlin ignored all but the first
 connected component and failed without variables

---
 include/opengm/inference/greedygremlin.hxx | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/opengm/inference/greedygremlin.hxx b/include/opengm/inference/greedygremlin.hxx
index a282bcd..fc5ca64 100644
--- a/include/opengm/inference/greedygremlin.hxx
+++ b/include/opengm/inference/greedygremlin.hxx
@@ -128,14 +128,20 @@ namespace opengm {
    {
       std::vector<bool>       nodeColor(gm_.numberOfVariables(),false);
       std::vector<IndexType>  waitingList(gm_.numberOfVariables());
-      waitingList[0] = 0;
-      nodeColor[0]   = true;
+      IndexType nextSeed         = 0;
       IndexType waitingListFirst = 0;
-      IndexType waitingListLast  = 0;
+      IndexType waitingListEnd   = 0;
       visitor.begin(*this);    
       const ValueType neutral = GM::OperatorType::template neutral<ValueType>();
       while(waitingListFirst<waitingList.size()){
-         OPENGM_ASSERT(waitingListFirst<=waitingListLast);
+         if(waitingListFirst==waitingListEnd) {
+            // start with the next connected component
+            while(nodeColor[nextSeed]) {
+               ++nextSeed;
+            }
+            nodeColor[nextSeed] = true;
+            waitingList[waitingListEnd++] = nextSeed;
+         }
          IndexType var = waitingList[waitingListFirst++];
          std::vector<ValueType> vals(gm_.numberOfLabels(var),neutral);
          //for all neigboured factors
@@ -174,7 +180,7 @@ namespace opengm {
             for(typename GM::ConstVariableIterator vit=gm_.variablesOfFactorBegin(*fit); vit!=gm_.variablesOfFactorEnd(*fit); ++vit){
                if(nodeColor[*vit]==false){
                   nodeColor[*vit]=true;
-                  waitingList[++waitingListLast] = *vit;
+                  waitingList[waitingListEnd++] = *vit;
                }
             }
          }
-- 
2.43.0


From 258e8fc3d86c6e168967e5e74e20d8f7a70e58b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:23 +0000
Subject: [PATCH 048/153] fix: GreedyGremlin used labels of variables that were
 not fixed yet

---
 include/opengm/inference/greedygremlin.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/greedygremlin.hxx b/include/opengm/inference/greedygremlin.hxx
index fc5ca64..d5a2aee 100644
--- a/include/opengm/inference/greedygremlin.hxx
+++ b/include/opengm/inference/greedygremlin.hxx
@@ -127,6 +127,7 @@ namespace opengm {
    InferenceTermination GreedyGremlin<GM,ACC>::infer(VisitorType& visitor)
    {
       std::vector<bool>       nodeColor(gm_.numberOfVariables(),false);
+      std::vector<bool>       isFixed(gm_.numberOfVariables(),false);
       std::vector<IndexType>  waitingList(gm_.numberOfVariables());
       IndexType nextSeed         = 0;
       IndexType waitingListFirst = 0;
@@ -148,7 +149,7 @@ namespace opengm {
          for(typename GM::ConstFactorIterator fit=gm_.factorsOfVariableBegin(var); fit!=gm_.factorsOfVariableEnd(var); ++fit){
             bool useIt = true;
             for(typename GM::ConstVariableIterator vit=gm_.variablesOfFactorBegin(*fit); vit!=gm_.variablesOfFactorEnd(*fit); ++vit){
-               if(nodeColor[*vit]==false){
+               if(*vit!=var && isFixed[*vit]==false){
                   useIt = false;
                   break;
                }
@@ -175,6 +176,8 @@ namespace opengm {
                conf_[var]=i;                    
          }
 
+         isFixed[var] = true;
+
          //add white neighbours to waitingslist
          for(typename GM::ConstFactorIterator fit=gm_.factorsOfVariableBegin(var); fit!=gm_.factorsOfVariableEnd(var); ++fit){
             for(typename GM::ConstVariableIterator vit=gm_.variablesOfFactorBegin(*fit); vit!=gm_.variablesOfFactorEnd(*fit); ++vit){
-- 
2.43.0


From 7831a5b681b33172798f343ed7dab267375d8483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:53 +0000
Subject: [PATCH 049/153] fix: AlphaExpansion did not account for pairwise
 terms between variables with different labels

---
 include/opengm/inference/alphaexpansion.hxx | 25 +++------------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index d5b21e3..1410976 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -305,20 +305,8 @@ AlphaExpansion<GM, INF>::infer
    LabelType vecXA[2];
    LabelType vecXX[2];
    while(it++ < parameter_.maxNumberOfSteps_ && countUnchanged < maxState_ && exitInf == false) {
-      size_t numberOfAuxiliaryNodes = 0;
-      for(size_t k=0 ; k<gm_.numberOfFactors(); ++k) {
-         const FactorType& factor = gm_[k];
-         if(factor.numberOfVariables() == 2) {
-            size_t var1 = factor.variableIndex(0);
-            size_t var2 = factor.variableIndex(1);
-            if(label_[var1] != label_[var2] && label_[var1] != alpha_ && label_[var2] != alpha_ ) {
-               ++numberOfAuxiliaryNodes;
-            }
-         }
-      }
       std::vector<size_t> numFacDim(4, 0);
-      INF inf(numberOfVariables + numberOfAuxiliaryNodes, numFacDim, parameter_.parameter_);
-      size_t varX = numberOfVariables;
+      INF inf(numberOfVariables, numFacDim, parameter_.parameter_);
       size_t countAlphas = 0;
       for (size_t k=0 ; k<gm_.numberOfVariables(); ++k) {
          if (label_[k] == alpha_ ) {
@@ -354,22 +342,15 @@ AlphaExpansion<GM, INF>::infer
                else if(label_[var2]==alpha_) {
                   addUnary(inf, var1, factor(vecAA), factor(vecXA));
                }
-               else if(label_[var1]==label_[var2]) {
-                  addPairwise(inf, var1, var2, factor(vecAA), factor(vecAX), factor(vecXA), factor(vecXX));
-               }
                else{
-                  OPENGM_ASSERT(varX < numberOfVariables + numberOfAuxiliaryNodes);
-                  addPairwise(inf, var1, varX, 0, factor(vecAX), 0, 0);
-                  addPairwise(inf, var2, varX, 0, factor(vecXA), 0, 0);
-                  addUnary(inf, varX, factor(vecAA), factor(vecXX));
-                  ++varX;
+                  addPairwise(inf, var1, var2, factor(vecAA), factor(vecAX), factor(vecXA), factor(vecXX));
                }
             }
          }
          std::vector<LabelType> state;
          inf.infer();
          inf.arg(state);
-         OPENGM_ASSERT(state.size() == numberOfVariables + numberOfAuxiliaryNodes);
+         OPENGM_ASSERT(state.size() == numberOfVariables);
          for(size_t var=0; var<numberOfVariables ; ++var) {
             if (label_[var] != alpha_ && state[var]==0) {
                label_[var] = alpha_;
-- 
2.43.0


From 8c52c168272945b714f01ad695d5e7cb9331dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:53 +0000
Subject: [PATCH 050/153] fix: AlphaExpansion used factor indices as variable
 indices for locally optimal initial labels

---
 include/opengm/inference/alphaexpansion.hxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index 1410976..d28389b 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -445,16 +445,18 @@ AlphaExpansion<GM, INF>::setInitialLabel
 template<class GM, class INF>
 inline void
 AlphaExpansion<GM, INF>::setInitialLabelLocalOptimal() {
-   label_.resize(gm_.numberOfVariables(), 0);
+   label_.assign(gm_.numberOfVariables(), 0);
    std::vector<size_t> accVec;
    for(size_t i=0; i<gm_.numberOfFactors();++i) {
       if(gm_[i].numberOfVariables()==1) {
+         const size_t var = gm_[i].variableIndex(0);
          std::vector<size_t> state(1, 0);
          ValueType value = gm_[i](state.begin());
-         for(state[0]=1; state[0]<gm_.numberOfLabels(i); ++state[0]) {
+         label_[var] = 0;
+         for(state[0]=1; state[0]<gm_.numberOfLabels(var); ++state[0]) {
             if(AccumulationType::bop(gm_[i](state.begin()), value)) {
                value = gm_[i](state.begin());
-               label_[i] = state[0];
+               label_[var] = state[0];
             }
          }
       }
-- 
2.43.0


From e0c1a91c2c77c05c19b1ada2a9fddfa1163011ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:53 +0000
Subject: [PATCH 051/153] fix: AlphaBetaSwap stopped before all pairs of labels
 were tried after the last improvement

---
 include/opengm/inference/alphabetaswap.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index 9a21537..6d7c646 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -296,6 +296,7 @@ AlphaBetaSwap<GM, INF>::infer
       OPENGM_ASSERT(!AccumulationType::ibop(energy2, energy));
       if (AccumulationType::bop(energy2, energy)) {
          energy = energy2;
+         countUnchanged = 0;
       } else {
          ++countUnchanged;
       }
-- 
2.43.0


From 13d3ca94ea69240f66b502f2f3c2f875d318c34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:35 +0000
Subject: [PATCH 052/153] fix: AlphaBetaSwap stopped at labelings that a swap
 could improve after moves without gain

---
 include/opengm/inference/alphabetaswap.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index 6d7c646..3ed1e69 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -279,6 +279,7 @@ AlphaBetaSwap<GM, INF>::infer
       inf.infer();
       inf.arg(state);
       OPENGM_ASSERT(state.size() == counter);
+      const std::vector<LabelType> previousLabel(label_);
       for (size_t var = 0; var < numberOfVariables; ++var) {
          if (label_[var] == alpha_ || label_[var] == beta_) {
             if (state[variable2Node[var]] == 0)
@@ -298,6 +299,7 @@ AlphaBetaSwap<GM, INF>::infer
          energy = energy2;
          countUnchanged = 0;
       } else {
+         label_ = previousLabel; // swaps that have been tried before refer to this labeling
          ++countUnchanged;
       }
    }
-- 
2.43.0


From 54a65ca287d2c61d44d59c21ccf2732d4fbe79a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:47 +0000
Subject: [PATCH 053/153] fix: SelfFusion overwrote the first labeling with
 zeros but kept its value

---
 include/opengm/inference/self_fusion.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/self_fusion.hxx b/include/opengm/inference/self_fusion.hxx
index 9e7e9ea..209950e 100644
--- a/include/opengm/inference/self_fusion.hxx
+++ b/include/opengm/inference/self_fusion.hxx
@@ -111,7 +111,7 @@ struct FusionVisitor{
         ValueType oldValue = value_;
 
         if(iteration_==0 ){         
-            inference.arg(argBest_);
+            inference.arg(argOut_);
             ValueType value = inference.value();
             if(AccumulationType::bop(value,value_)){
                std::copy(argOut_.begin(),argOut_.end(),argBest_.begin());
@@ -459,7 +459,7 @@ InferenceTermination SelfFusion<INFERENCE>::infer
 )
 {
    AccumulationType::ineutral(bound_);
-   AccumulationType::neutral(value_);
+   value_ = gm_.evaluate(argBest_.begin());
 
    visitor.begin(*this);
    visitor.addLog("infValue");
-- 
2.43.0


From e4a7951bb2e295e7eb29965cbddba0a10351f636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:47 +0000
Subject: [PATCH 054/153] fix: SelfFusion ignored the result of algorithms that
 do not report progress

---
 include/opengm/inference/self_fusion.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/self_fusion.hxx b/include/opengm/inference/self_fusion.hxx
index 209950e..9829484 100644
--- a/include/opengm/inference/self_fusion.hxx
+++ b/include/opengm/inference/self_fusion.hxx
@@ -91,6 +91,9 @@ struct FusionVisitor{
     void end(
         INF  & inf
     ){
+        // inference algorithms that never report progress
+        if(iteration_==0)
+            this->fuseVisit(inf);
     }
 
     size_t operator()(
-- 
2.43.0


From 870add8e769c282e16c1ddef7a3fa719ca3a1161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:47 +0000
Subject: [PATCH 055/153] fix: SelfFusion ignored the starting point

---
 include/opengm/inference/self_fusion.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/self_fusion.hxx b/include/opengm/inference/self_fusion.hxx
index 9829484..5e6a051 100644
--- a/include/opengm/inference/self_fusion.hxx
+++ b/include/opengm/inference/self_fusion.hxx
@@ -427,7 +427,8 @@ SelfFusion<INFERENCE>::setStartingPoint
 (
    typename std::vector<typename SelfFusion<INFERENCE>::LabelType>::const_iterator begin
 ) {
-
+   std::copy(begin, begin + gm_.numberOfVariables(), argBest_.begin());
+   value_ = gm_.evaluate(argBest_.begin());
 }
    
 template<class INFERENCE>
-- 
2.43.0


From f05ec439e484a8cf7449b6abaeb19e162c5870f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:46 +0000
Subject: [PATCH 056/153] fix: UpDownGen proposed labels out of range for
 variables with one label

---
 include/opengm/inference/fusion_based_inf.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index 3ef0c3a..1b97b17 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -187,7 +187,10 @@ namespace proposal_gen{
                     direction_[vi]*=-1;
                 }
                 const LabelType d  = direction_[vi];
-                if(d==1){
+                if(numL<2){
+                    proposal[vi] = cl;
+                }
+                else if(d==1){
 
                     if(cl+1<numL){
                         proposal[vi] = cl +1;
-- 
2.43.0


From e036b989b1172e2db1d803c923001e8caa09760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:46 +0000
Subject: [PATCH 057/153] fix: BlurGen proposed labels out of range

---
 include/opengm/inference/fusion_based_inf.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index 1b97b17..d719bd5 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -597,7 +597,7 @@ namespace proposal_gen{
                     int j2 = std::min(w,std::max(0,i-radius+k));
                     val += kernel_[k] * temp[ind(i, j2)];
                  }
-                 bluredLabel_[ind(i,j)] = std::min(double(gm_.numberOfLabels(ind(i,j))),(std::max(0.0,val)));
+                 bluredLabel_[ind(i,j)] = std::min(double(gm_.numberOfLabels(ind(i,j))-1),(std::max(0.0,val)));
               }
            } 
         }
@@ -619,7 +619,7 @@ namespace proposal_gen{
               proposal.resize(gm_.numberOfVariables(),0.0);
               opengm::RandomUniform<double> randomLabel(-param_.sigma_*1.5, param_.sigma_*1.5,currentStep_);
               for(size_t i=0; i<proposal.size();++i){
-                 proposal[i] = std::min(gm_.numberOfLabels(i), (LabelType)(std::max(0.0,bluredLabel_[i] + randomLabel())));
+                 proposal[i] = std::min((LabelType)(gm_.numberOfLabels(i)-1), (LabelType)(std::max(0.0,bluredLabel_[i] + randomLabel())));
               }
            }
            ++currentStep_;
-- 
2.43.0


From d6aa33a6a777a6becf201c6b568ba3b39f216b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:46 +0000
Subject: [PATCH 058/153] fix: EnergyBlurGen wrote beyond its generators and
 proposed labels out of range

---
 include/opengm/inference/fusion_based_inf.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index d719bd5..dea33fb 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -757,7 +757,7 @@ namespace proposal_gen{
                 }
              } 
              if(param_.useLocalMargs_){
-                localMargGens_.reserve(bluredOpt.size());
+                localMargGens_.resize(bluredOpt.size());
                 for(size_t var=0 ; var<bluredOpt.size(); ++var){
                    const ValueType minValue = *std::min_element(margs[var].begin(),margs[var].end());
                    for(LabelType l=0; l<numLabels; ++l){
@@ -769,10 +769,10 @@ namespace proposal_gen{
                    localMargGens_[var]=opengm::RandomDiscreteWeighted<LabelType,ValueType>(margs[var].begin(),margs[var].end(),var);  
                 }
              }else{
-                uniformGens_.reserve(bluredOpt.size());
+                uniformGens_.resize(bluredOpt.size());
                 for(size_t var=0 ; var<bluredOpt.size(); ++var){
                    LabelType minVal = (LabelType)(std::max((double)(0)         , bluredOpt[var]-param_.sigma_*1.5));
-                   LabelType maxVal = (LabelType)(std::min((double)(numLabels) , bluredOpt[var]+param_.sigma_*1.5));
+                   LabelType maxVal = (LabelType)(std::min((double)(numLabels-1) , bluredOpt[var]+param_.sigma_*1.5));
                    uniformGens_[var] = opengm::RandomUniform<LabelType>(minVal, maxVal+1, var);
                 }
              }   
-- 
2.43.0


From a14afd68f6d7c0cd90360ce319d874a7993dda9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:03 +0000
Subject: [PATCH 059/153] fix: QPBO::partialOptimality did not compile

---
 include/opengm/inference/qpbo.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index b31571c..d92e209 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -180,7 +180,7 @@ QPBO<GM,MIN_ST_CUT>::partialOptimality
       } else
          optVec[j] = false;
 
-   return opt/gm_.numerOfVariables();
+   return opt/gm_.numberOfVariables();
 }
 
 template<class GM,class MIN_ST_CUT>
-- 
2.43.0


From c97801c8d98332b85f78aed9f0bfcbdf65fd7d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:28 +0000
Subject: [PATCH 060/153] fix: QPBO did not report the value of its labeling
 (arg did not override the base class)

---
 include/opengm/inference/qpbo.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index d92e209..7727446 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -49,7 +49,7 @@ public:
    InferenceTermination infer();
    template<class VISITOR>
       InferenceTermination infer(VISITOR &);
-   InferenceTermination arg(std::vector<LabelType>&, const size_t& = 1) const;
+   InferenceTermination arg(std::vector<LabelType>&, const size_t = 1) const;
    double partialOptimality(std::vector<bool>&) const;
 
 private:
@@ -144,7 +144,7 @@ inline InferenceTermination
 QPBO<GM,MIN_ST_CUT>::arg
 (
    std::vector<LabelType>& arg,
-   const size_t& n
+   const size_t n
    ) const
 {
    if(n > 1) {
-- 
2.43.0


From 4a1119a7af92df443fed213109d7c8d9576369a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:15 +0000
Subject: [PATCH 061/153] fix: QPBO added edges with negative capacities

---
 include/opengm/inference/qpbo.hxx | 37 ++++++++++++-------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index 7727446..ef3096d 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -193,17 +193,23 @@ QPBO<GM,MIN_ST_CUT>::addEdgeCapacity(size_t v, size_t w, ValueType val)
 template<class GM,class MIN_ST_CUT>
 void
 QPBO<GM,MIN_ST_CUT>::addUnaryFactorType(const FactorType& factor)
+{
+   size_t c[]={0};
+   const ValueType c_nx_i = factor(c);
+   c[0]=1;
+   const ValueType c_x_i  = factor(c);
+   addUnaryFactorType(factor.variableIndex(0), c_nx_i, c_x_i);
+}
+
+template<class GM,class MIN_ST_CUT>
+void
+QPBO<GM,MIN_ST_CUT>::addUnaryFactorType(size_t x_i, ValueType c_nx_i, ValueType c_x_i)
 {
    // indices of literal nodes in graph_
-   size_t x_i  = factor.variableIndex(0);
    size_t nx_i = neg(x_i);
 
    // conversion to normal form on-the-fly: c_[n]x_i are the new
    // values of the unary factor.
-   size_t c[]={0};
-   ValueType c_nx_i = factor(c);
-   c[0]=1;
-   ValueType c_x_i  = factor(c);
 
    // has to be zero
    ValueType delta = std::min(c_nx_i, c_x_i);
@@ -304,24 +310,9 @@ QPBO<GM,MIN_ST_CUT>::addPairwiseFactorType
       addEdgeCapacity(nx_j,  x_i, 0.5*c_x_i_x_j);
    }
 
-   // for every non-zero c_[n]x_{i,j} add two edges to the flow network
-
-   if (delta_c_nx_j != 0) {
-      addEdgeCapacity(x_j,    sink_, 0.5*delta_c_nx_j);
-      addEdgeCapacity(source_, nx_j, 0.5*delta_c_nx_j);
-   }
-   if (delta_c_x_j != 0) {
-      addEdgeCapacity(nx_j,   sink_, 0.5*delta_c_x_j);
-      addEdgeCapacity(source_,  x_j, 0.5*delta_c_x_j);
-   }
-   if (delta_c_nx_i != 0) {
-      addEdgeCapacity(x_i,    sink_, 0.5*delta_c_nx_i);
-      addEdgeCapacity(source_, nx_i, 0.5*delta_c_nx_i);
-   }
-   if (delta_c_x_i != 0) {
-      addEdgeCapacity(nx_i,   sink_, 0.5*delta_c_x_i);
-      addEdgeCapacity(source_,  x_i, 0.5*delta_c_x_i);
-   }
+   // the changes can be negative, the conversion to normal form takes care of that
+   addUnaryFactorType(x_i, delta_c_nx_i, delta_c_x_i);
+   addUnaryFactorType(x_j, delta_c_nx_j, delta_c_x_j);
 }
 
 } // namespace opengm
-- 
2.43.0


From 6eddc0100abe036b57bf9799121f776d4addba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:15 +0000
Subject: [PATCH 062/153] fix: QPBO truncated odd capacities of integer models
 (halving all capacities does not change the cut)

---
 include/opengm/inference/qpbo.hxx | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index ef3096d..c9a993d 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -217,11 +217,11 @@ QPBO<GM,MIN_ST_CUT>::addUnaryFactorType(size_t x_i, ValueType c_nx_i, ValueType
    c_x_i      -= delta;
    constTerm_ += delta;
 
-   addEdgeCapacity(x_i,    sink_, 0.5*c_nx_i);
-   addEdgeCapacity(source_, nx_i, 0.5*c_nx_i);
+   addEdgeCapacity(x_i,    sink_, c_nx_i);
+   addEdgeCapacity(source_, nx_i, c_nx_i);
 
-   addEdgeCapacity(nx_i,   sink_, 0.5*c_x_i);
-   addEdgeCapacity(source_,  x_i, 0.5*c_x_i);
+   addEdgeCapacity(nx_i,   sink_, c_x_i);
+   addEdgeCapacity(source_,  x_i, c_x_i);
 }
 
 template<class GM,class MIN_ST_CUT>
@@ -294,20 +294,20 @@ QPBO<GM,MIN_ST_CUT>::addPairwiseFactorType
    // for every non-zero c_[n]x_i_[n]x_j add two edges to the flow network
 
    if (c_nx_i_nx_j != 0) {
-      addEdgeCapacity(x_i,  nx_j, 0.5*c_nx_i_nx_j);
-      addEdgeCapacity(x_j,  nx_i, 0.5*c_nx_i_nx_j);
+      addEdgeCapacity(x_i,  nx_j, c_nx_i_nx_j);
+      addEdgeCapacity(x_j,  nx_i, c_nx_i_nx_j);
    }
    if (c_nx_i_x_j != 0) {
-      addEdgeCapacity(x_i,   x_j, 0.5*c_nx_i_x_j);
-      addEdgeCapacity(nx_j, nx_i, 0.5*c_nx_i_x_j);
+      addEdgeCapacity(x_i,   x_j, c_nx_i_x_j);
+      addEdgeCapacity(nx_j, nx_i, c_nx_i_x_j);
    }
    if (c_x_i_nx_j != 0) {
-      addEdgeCapacity(nx_i, nx_j, 0.5*c_x_i_nx_j);
-      addEdgeCapacity(x_j,   x_i, 0.5*c_x_i_nx_j);
+      addEdgeCapacity(nx_i, nx_j, c_x_i_nx_j);
+      addEdgeCapacity(x_j,   x_i, c_x_i_nx_j);
    }
    if (c_x_i_x_j != 0) {
-      addEdgeCapacity(nx_i,  x_j, 0.5*c_x_i_x_j);
-      addEdgeCapacity(nx_j,  x_i, 0.5*c_x_i_x_j);
+      addEdgeCapacity(nx_i,  x_j, c_x_i_x_j);
+      addEdgeCapacity(nx_j,  x_i, c_x_i_x_j);
    }
 
    // the changes can be negative, the conversion to normal form takes care of that
-- 
2.43.0


From dc6006a2adc347f68adcd96bfc117b430d04dcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:37 +0000
Subject: [PATCH 063/153] fix: TransportSolver::transpose gave the result the
 shape of its input

---
 include/opengm/inference/auxiliary/transportationsolver.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/transportationsolver.hxx b/include/opengm/inference/auxiliary/transportationsolver.hxx
index f0d3373..9779fe3 100644
--- a/include/opengm/inference/auxiliary/transportationsolver.hxx
+++ b/include/opengm/inference/auxiliary/transportationsolver.hxx
@@ -558,7 +558,7 @@ private:
 template<class T>
 void transpose(const MatrixWrapper<T>& input, MatrixWrapper<T>& result)
 {
- result.resize(input.xsize(),input.ysize());
+ result.resize(input.ysize(),input.xsize());
  for (size_t x=0;x<input.xsize();++x)
   for (size_t y=0;y<input.ysize();++y)
 	  result(y,x)=input(x,y);
-- 
2.43.0


From bece26e1847f00c4fc14605e88b78ff2ba70854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:44 +0000
Subject: [PATCH 064/153] fix: tentacle elimination wrote beyond its flags for
 models with more variables than factors

---
 include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
index 95b0b7c..9dcad43 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
@@ -527,7 +527,7 @@ namespace opengm {
       }
       
       //SETUP LEAFS 
-      std::vector<bool>  pushed2Leafs(gm_.numberOfFactors(), false);
+      std::vector<bool>  pushed2Leafs(gm_.numberOfVariables(), false);
       for(IndexType var=0; var<gm_.numberOfVariables(); ++var){
          if(variableDegree[var] <= 1 && !fixVariable_[var]){
             leafs.push_back(var);
-- 
2.43.0


From 6f2e3e2f0d78a9dfea22ec00592f6b234752c9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:44 +0000
Subject: [PATCH 065/153] fix: GraphicalModelManipulator kept eliminated
 tentacles after unlock

---
 include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
index 9dcad43..26c0319 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
@@ -186,6 +186,11 @@ namespace opengm {
       validSubModels_=false;
       validModel_=false;
       submodels_.clear();
+      tentacleRoots_.clear();
+      tentacleFunctions_.clear();
+      tentacleLabelCandidates_.clear();
+      tentacleVars_.clear();
+      tentacleFactor_.assign(gm_.numberOfFactors(),false);
       freeAllVariables();
    }
 
-- 
2.43.0


From 0fb00f4b4e0a7ce89941cb931ec19c2629fdc6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:44 +0000
Subject: [PATCH 066/153] fix: building a modified model without locking first
 read an empty list of tentacle factors

---
 include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
index 26c0319..e3505f2 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
@@ -138,7 +138,8 @@ namespace opengm {
         mode_(mode),
         validModel_(false), 
         validSubModels_(false),
-        var2subProblem_(std::vector<IndexType>(gm.numberOfVariables(),0))
+        var2subProblem_(std::vector<IndexType>(gm.numberOfVariables(),0)),
+        tentacleFactor_(gm.numberOfFactors(),false)
    {
       return;
    }
-- 
2.43.0


From b76d59d328c4cac39089339a3e1aa2090b6ddbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:21 +0000
Subject: [PATCH 067/153] fix: the spanning tree decomposition of a model
 without factors lost its variables

---
 .../graphicalmodel/decomposition/graphicalmodeldecomposer.hxx  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx b/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx
index f864bba..592a3d5 100644
--- a/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx
+++ b/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx
@@ -138,7 +138,8 @@ decomposeIntoSpanningTrees
       whiteList.push_back(j);
    }
      
-   while(!whiteList.empty()) {
+   // models without factors still need a submodel for their variables
+   while(!whiteList.empty() || decomposition.numberOfSubModels() == 0) {
       size_t subModelId  = decomposition.addSubModel();
       for(size_t variableId=0; variableId<gm.numberOfVariables();++variableId) {
          decomposition.addSubVariable(subModelId,variableId);
-- 
2.43.0


From e67baf05ae1fb5c6032d3de63a7a6130949c6131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:29 +0000
Subject: [PATCH 068/153] fix: the order of indicator variables was no strict
 order (several literals were compared component by component)

---
 .../datastructures/indicator_variable.hxx     | 46 ++-----------------
 1 file changed, 4 insertions(+), 42 deletions(-)

diff --git a/include/opengm/datastructures/indicator_variable.hxx b/include/opengm/datastructures/indicator_variable.hxx
index e151794..07b0e9c 100644
--- a/include/opengm/datastructures/indicator_variable.hxx
+++ b/include/opengm/datastructures/indicator_variable.hxx
@@ -571,18 +571,7 @@ bool operator<(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1,
          return false;
       }
       if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
-         if(indicatorVar1.variableLabelPairs_.size() == 0) {
-            return false;
-         }
-         for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second >= indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
-            }
-         }
+         return indicatorVar1.variableLabelPairs_ < indicatorVar2.variableLabelPairs_;
       }
       return true;
    }
@@ -599,18 +588,7 @@ bool operator>(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1,
          return false;
       }
       if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
-         if(indicatorVar1.variableLabelPairs_.size() == 0) {
-            return false;
-         }
-         for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second <= indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
-            }
-         }
+         return indicatorVar1.variableLabelPairs_ > indicatorVar2.variableLabelPairs_;
       }
       return true;
    }
@@ -627,15 +605,7 @@ bool operator<=(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1
          return false;
       }
       if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
-         for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second > indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
-            }
-         }
+         return indicatorVar1.variableLabelPairs_ <= indicatorVar2.variableLabelPairs_;
       }
       return true;
    }
@@ -652,15 +622,7 @@ bool operator>=(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1
          return false;
       }
       if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
-         for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second < indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
-            }
-         }
+         return indicatorVar1.variableLabelPairs_ >= indicatorVar2.variableLabelPairs_;
       }
       return true;
    }
-- 
2.43.0


From 2eeae3ea6f609a89531ebed41e8a1d4b32556132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:17 +0000
Subject: [PATCH 069/153] fix: deserialising a learnable sum of functions left
 the function unchanged

---
 .../opengm/functions/learnable/lweightedsum_of_functions.hxx   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/functions/learnable/lweightedsum_of_functions.hxx b/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
index 62314f4..0cd7f70 100644
--- a/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
+++ b/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
@@ -257,6 +257,9 @@ FunctionSerialization<opengm::functions::learnable::LWeightedSumOfFunctions<T, I
          ++valueInIterator;
       }
    }   
+   dst.shape_     = shape;
+   dst.weightIDs_ = parameterIDs;
+   dst.feat_      = feat;
 }
 
 } // namespace opengm
-- 
2.43.0


From 68e99e1c41531bcefd71d15f245e0b445883002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:17 +0000
Subject: [PATCH 070/153] fix: weight constraints dropped the bounds they were
 given

---
 include/opengm/graphicalmodel/weights.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/weights.hxx b/include/opengm/graphicalmodel/weights.hxx
index ee3ed2a..5ac683d 100644
--- a/include/opengm/graphicalmodel/weights.hxx
+++ b/include/opengm/graphicalmodel/weights.hxx
@@ -214,7 +214,7 @@ namespace learning{
         }
 
         const std::vector<size_t> & constraintSizes()const{
-            return cLowerBounds_;
+            return cSize_;
         }
         const std::vector<T> & constraintLowerBounds()const{
             return cLowerBounds_;
@@ -244,6 +244,10 @@ namespace learning{
             // store offset / index in 'cIndices_' and 'cCoeff_'
             cStart_.push_back(cOffset_);
 
+            // store the bounds of this constraint
+            cLowerBounds_.push_back(lowerBound);
+            cUpperBounds_.push_back(upperBound);
+
             // increment the cOffset_ for the next constraint which
             // could be added by the user
             cOffset_ +=cSize;
-- 
2.43.0


From 2c0ef1c3448a720c953cdea21d481a380a3e5266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 071/153] fix: the static simple label space did not compile,
 dropped added variables and took a label count for the number of variables

---
 .../graphicalmodel/space/static_simplediscretespace.hxx   | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx b/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
index 793d08a..323f098 100644
--- a/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
+++ b/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
@@ -52,8 +52,7 @@ StaticSimpleDiscreteSpace<LABELS,I, L>::assignDense(
    Iterator begin,
    Iterator end
 ) {
-   numberOfVariables_=std::distance(begin, end);
-   numberOfVariables_=static_cast<L>(*begin);
+   const IndexType numberOfVariables=std::distance(begin, end);
    while(begin!=end) {
       if(LABELS!=static_cast<size_t>(*begin)) {
          throw opengm::RuntimeError("*begin==LABELS_ is violated \
@@ -61,6 +60,7 @@ StaticSimpleDiscreteSpace<LABELS,I, L>::assignDense(
       }
       ++begin;
    }
+   numberOfVariables_=numberOfVariables;
 }
 
 template<size_t LABELS,class I, class L>
@@ -80,6 +80,8 @@ StaticSimpleDiscreteSpace<LABELS,I, L>::addVariable(
       throw opengm::RuntimeError("numberOfLabels==LABELS is violated \
       in StaticSimpleDiscreteSpace::addVariable ");
    }
+   ++numberOfVariables_;
+   return numberOfVariables_-1;
 }
 
 template<size_t LABELS,class I, class L>
@@ -93,7 +95,7 @@ inline typename StaticSimpleDiscreteSpace<LABELS,I, L>::LabelType
 StaticSimpleDiscreteSpace<LABELS,I, L>::numberOfLabels(
    const IndexType dimension
 ) const {
-   return static_cast<L> LABELS;
+   return static_cast<L>(LABELS);
 }
 
 template<size_t LABELS,class I, class L>
-- 
2.43.0


From abce48c4e1bab89cf113078b442821683d90048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 072/153] fix: a rejected dense assignment changed the simple
 label space and an empty one read past the end

---
 .../opengm/graphicalmodel/space/simplediscretespace.hxx   | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/opengm/graphicalmodel/space/simplediscretespace.hxx b/include/opengm/graphicalmodel/space/simplediscretespace.hxx
index 48a8179..f44a797 100644
--- a/include/opengm/graphicalmodel/space/simplediscretespace.hxx
+++ b/include/opengm/graphicalmodel/space/simplediscretespace.hxx
@@ -57,14 +57,16 @@ SimpleDiscreteSpace<I, L>::assignDense
    Iterator begin,
    Iterator end
 ) {
-   numberOfVariables_ = std::distance(begin, end);
-   numberOfLabels_ = static_cast<L>(*begin);
+   const IndexType numberOfVariables = std::distance(begin, end);
+   const LabelType numberOfLabels = begin != end ? static_cast<LabelType>(*begin) : numberOfLabels_;
    while(begin != end) {
-      if(numberOfLabels_ != static_cast<LabelType>(*begin)) {
+      if(numberOfLabels != static_cast<LabelType>(*begin)) {
          throw opengm::RuntimeError("*begin == SimpleDiscreteSpace.numberOfLabels_ is violated in SimpleDiscreteSpace::assignDense");
       }
       ++begin;
    }
+   numberOfVariables_ = numberOfVariables;
+   numberOfLabels_ = numberOfLabels;
 }
 
 template<class I, class L>
-- 
2.43.0


From fd7561e3b7b5a2a8c1c08465e909d804f7553ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 073/153] fix: adding a variable to a view of a space was no
 error and returned no value

---
 include/opengm/graphicalmodel/space/viewspace.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/space/viewspace.hxx b/include/opengm/graphicalmodel/space/viewspace.hxx
index 1aa2da0..4a50eff 100644
--- a/include/opengm/graphicalmodel/space/viewspace.hxx
+++ b/include/opengm/graphicalmodel/space/viewspace.hxx
@@ -63,7 +63,7 @@ ViewSpace<GM>::addVariable(
    const LabelType numberOfLabels
 )
 {
-   opengm::RuntimeError("cannot add Variable with a ViewSpace as a space object");
+   throw opengm::RuntimeError("cannot add Variable with a ViewSpace as a space object");
 }
 
 template<class GM>
@@ -75,7 +75,7 @@ ViewSpace<GM>::numberOfVariables() const
 }
 
 template<class GM>
-inline typename ViewSpace<GM>::IndexType
+inline typename ViewSpace<GM>::LabelType
 ViewSpace<GM>::numberOfLabels
 (
    const IndexType dimension
-- 
2.43.0


From d53e51835ed32bd57f63566bf061f9651a30b05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 074/153] fix: the uniformity test of an empty label space read
 the labels of a variable that does not exist and compared label counts as
 indices

---
 include/opengm/graphicalmodel/space/space_base.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/space/space_base.hxx b/include/opengm/graphicalmodel/space/space_base.hxx
index 1c67f59..b5eed24 100644
--- a/include/opengm/graphicalmodel/space/space_base.hxx
+++ b/include/opengm/graphicalmodel/space/space_base.hxx
@@ -28,8 +28,11 @@ template<class SPACE, class I, class L>
 inline bool
 SpaceBase<SPACE, I, L>::isSimpleSpace() const {
    const IndexType numVar = static_cast<SPACE const*>(this)->numberOfVariables();
-   const IndexType l = static_cast<SPACE const*>(this)->numberOfLabels(0);
-   for(size_t i=1;i<numVar;++i) {
+   if(numVar==0) {
+      return true;
+   }
+   const LabelType l = static_cast<SPACE const*>(this)->numberOfLabels(0);
+   for(IndexType i=1;i<numVar;++i) {
       if(l!=static_cast<SPACE const *>(this)->numberOfLabels(i)) {
          return false;
       }
-- 
2.43.0


From f4917e4bc7b4024b2951ec1dd8719e5a26f51b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 075/153] fix: the number of labels at a grid position was
 declared but not defined

---
 include/opengm/graphicalmodel/space/grid_space.hxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/opengm/graphicalmodel/space/grid_space.hxx b/include/opengm/graphicalmodel/space/grid_space.hxx
index 35cf0b2..843c348 100644
--- a/include/opengm/graphicalmodel/space/grid_space.hxx
+++ b/include/opengm/graphicalmodel/space/grid_space.hxx
@@ -101,6 +101,16 @@ GridSpace<I, L>::numberOfLabels
    return numberOfStates_;
 }
 
+template<class I, class L>
+inline typename GridSpace<I, L>::LabelType
+GridSpace<I, L>::numberOfLabels
+(
+   const typename GridSpace<I, L>::IndexType x,
+   const typename GridSpace<I, L>::IndexType y
+) const{
+   return numberOfStates_;
+}
+
 template<class I, class L>
 inline bool
 GridSpace<I, L>::isSimpleSpace() const{
-- 
2.43.0


From 9f287c93bcff7406ce45eb760e4bc3faf7d105a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 076/153] fix: label counts and table sizes of factors and
 models were truncated to the index type

---
 .../opengm/graphicalmodel/graphicalmodel.hxx  |  4 ++--
 .../graphicalmodel/graphicalmodel_factor.hxx  | 20 +++++++++----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel.hxx b/include/opengm/graphicalmodel/graphicalmodel.hxx
index f5ab424..4a60bf9 100755
--- a/include/opengm/graphicalmodel/graphicalmodel.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel.hxx
@@ -102,7 +102,7 @@ public:
    const SpaceType& space() const;
    IndexType numberOfVariables() const;
    IndexType numberOfVariables(const IndexType) const;
-   IndexType numberOfLabels(const IndexType) const;
+   LabelType numberOfLabels(const IndexType) const;
    IndexType numberOfFunctions(const size_t) const;
    IndexType numberOfFactors() const;
    IndexType numberOfFactors(const IndexType) const;
@@ -409,7 +409,7 @@ GraphicalModel<T, OPERATOR, FUNCTION_TYPE_LIST, SPACE>::numberOfVariables() cons
 
 /// \brief return the number of labels of an indicated variable
 template<class T, class OPERATOR, class FUNCTION_TYPE_LIST, class SPACE>
-inline typename GraphicalModel<T, OPERATOR, FUNCTION_TYPE_LIST, SPACE>::IndexType
+inline typename GraphicalModel<T, OPERATOR, FUNCTION_TYPE_LIST, SPACE>::LabelType
 GraphicalModel<T, OPERATOR, FUNCTION_TYPE_LIST, SPACE>::numberOfLabels
 (
    const IndexType index
diff --git a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
index 234337a..939f494 100755
--- a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
@@ -135,10 +135,10 @@ public:
    template<int FUNCTION_TYPE>
       IndexType size() const;
    */
-   IndexType size() const;
+   size_t size() const;
    IndexType numberOfVariables() const;
-   IndexType numberOfLabels(const IndexType) const;
-   IndexType shape(const IndexType) const;
+   LabelType numberOfLabels(const IndexType) const;
+   LabelType shape(const IndexType) const;
    IndexType variableIndex(const IndexType) const;
    ShapeIteratorType shapeBegin() const;
    ShapeIteratorType shapeEnd() const;
@@ -323,8 +323,8 @@ public:
    template<size_t FUNCTION_TYPE_INDEX>
       const FunctionType& function() const;
    size_t numberOfVariables() const;
-   IndexType numberOfLabels(const IndexType) const;
-   IndexType shape(const size_t dimIndex) const;
+   LabelType numberOfLabels(const IndexType) const;
+   LabelType shape(const size_t dimIndex) const;
    size_t size() const;
    IndexType variableIndex(const size_t) const;
    template<class ITERATOR>
@@ -520,7 +520,7 @@ Factor<GRAPHICAL_MODEL>::variableIndexSequence() const
 
 /// \brief return the number of labels of the j-th variable
 template<class GRAPHICAL_MODEL>
-inline typename Factor<GRAPHICAL_MODEL>::IndexType 
+inline typename Factor<GRAPHICAL_MODEL>::LabelType 
 Factor<GRAPHICAL_MODEL>::numberOfLabels
 (
    const IndexType j
@@ -547,7 +547,7 @@ Factor<GRAPHICAL_MODEL>::variableIndex(
 
 /// \brief return the extension a value table encoding this factor would have in the dimension of the j-th variable
 template<class GRAPHICAL_MODEL>
-inline typename Factor<GRAPHICAL_MODEL>::IndexType
+inline typename Factor<GRAPHICAL_MODEL>::LabelType
 Factor<GRAPHICAL_MODEL>::shape(
    const IndexType j
 ) const 
@@ -930,7 +930,7 @@ Factor<GRAPHICAL_MODEL>::variableIndicesEnd() const {
 }
 
 template<class GRAPHICAL_MODEL>
-inline typename Factor<GRAPHICAL_MODEL>::IndexType
+inline size_t
 Factor<GRAPHICAL_MODEL>::size() const 
 {
    if(vis_.size() != 0) {
@@ -1248,7 +1248,7 @@ IndependentFactor<T, I, L>::numberOfVariables() const
 
 /// \brief return the number of labels of a specific variable 
 template<class T, class I, class L>
-inline typename IndependentFactor<T, I, L>::IndexType
+inline typename IndependentFactor<T, I, L>::LabelType
 IndependentFactor<T, I, L>::numberOfLabels
 (
    const IndexType index
@@ -1268,7 +1268,7 @@ IndependentFactor<T, I, L>::size() const
 
 /// \brief return the extension of the value table of the of the function in a specific dimension
 template<class T, class I, class L>
-inline typename IndependentFactor<T, I, L>::IndexType
+inline typename IndependentFactor<T, I, L>::LabelType
 IndependentFactor<T, I, L>::shape
 (
    const size_t index
-- 
2.43.0


From 18a3383c1be935921f58721d7ec7c50577b82fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 077/153] fix: decrementing the end iterator of a strided view
 moved it to a wrong element

---
 include/opengm/datastructures/marray/marray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index becb2dd..da71751 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -4384,7 +4384,7 @@ Iterator<T, isConst, A>::operator--()
         --pointer_;
     }
     else {
-        if(index_ == view_->size()) {
+        if(index_ + 1 == view_->size()) {
             // decrement from end iterator
             --pointer_;
             if(view_->coordinateOrder() == LastMajorOrder) {
-- 
2.43.0


From 913c8f88b612d748671d14cc5d501f3940be8897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 078/153] fix: moving the end iterator of a view by a negative
 distance had no effect

---
 include/opengm/datastructures/marray/marray.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index da71751..292a4bc 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -4254,6 +4254,9 @@ Iterator<T, isConst, A>::operator+=
 )
 {
     marray_detail::Assert(MARRAY_NO_DEBUG || view_ != 0);
+    if(x < 0) {
+        return *this -= -x;
+    }
     if(index_ < view_->size()) { // view initialized and iterator not at the end
         if(index_ + x < view_->size()) {
             index_ += x;
@@ -4295,6 +4298,9 @@ Iterator<T, isConst, A>::operator-=
 )
 {
     marray_detail::Assert(MARRAY_NO_DEBUG || view_ != 0);
+    if(x <= 0) {
+        return x < 0 ? *this += -x : *this;
+    }
     marray_detail::Assert(MARRAY_NO_ARG_TEST || static_cast<difference_type>(index_) >= x);
     index_ -= x;
     if(view_->isSimple()) {
-- 
2.43.0


From 34b8080b98fb40bf9094fc1ed3aa20a38a655936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 079/153] fix: mutable and constant iterators of a view could
 not be ordered

---
 include/opengm/datastructures/marray/marray.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index 292a4bc..dffc7d8 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -4540,7 +4540,7 @@ Iterator<T, isConst, A>::operator<
 ) const
 {
     marray_detail::Assert(MARRAY_NO_DEBUG || view_ != 0);
-    marray_detail::Assert(MARRAY_NO_ARG_TEST || (it.view_ != 0 && it.view_ == view_));
+    marray_detail::Assert(MARRAY_NO_ARG_TEST || (it.view_ != 0 && (void*)it.view_ == (void*)view_));
     return(index_ < it.index_);
 }
 
@@ -4553,7 +4553,7 @@ Iterator<T, isConst, A>::operator>
 ) const
 {
     marray_detail::Assert(MARRAY_NO_DEBUG || view_ != 0);
-    marray_detail::Assert(MARRAY_NO_ARG_TEST || (it.view_ != 0 && it.view_ == view_));
+    marray_detail::Assert(MARRAY_NO_ARG_TEST || (it.view_ != 0 && (void*)it.view_ == (void*)view_));
     return(index_ > it.index_);
 }
 
@@ -4566,7 +4566,7 @@ Iterator<T, isConst, A>::operator<=
 ) const
 {
     marray_detail::Assert(MARRAY_NO_DEBUG || view_ != 0);
-    marray_detail::Assert(MARRAY_NO_ARG_TEST || (it.view_ != 0 && it.view_ == view_));
+    marray_detail::Assert(MARRAY_NO_ARG_TEST || (it.view_ != 0 && (void*)it.view_ == (void*)view_));
     return(index_ <= it.index_);
 }
 
@@ -4579,7 +4579,7 @@ Iterator<T, isConst, A>::operator>=
 ) const
 {
     marray_detail::Assert(MARRAY_NO_DEBUG || view_ != 0);
-    marray_detail::Assert(MARRAY_NO_ARG_TEST || (it.view_ != 0 && it.view_ == view_));
+    marray_detail::Assert(MARRAY_NO_ARG_TEST || (it.view_ != 0 && (void*)it.view_ == (void*)view_));
     return(index_ >= it.index_);
 }
 
-- 
2.43.0


From b25e297cc52672ecca3fedaea5a7c99d99bf2df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 080/153] fix: reversing the dimensions of a scalar view wrote
 to invalid memory

---
 include/opengm/datastructures/marray/marray.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index dffc7d8..3bd97d5 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -2597,6 +2597,9 @@ void
 View<T, isConst, A>::transpose()
 {
     testInvariant();
+    if(dimension() == 0) {
+        return;
+    }
     for(size_t j=0; j<dimension()/2; ++j) {
         size_t k = dimension()-j-1;
 
-- 
2.43.0


From 46eab074d961c7c49c74296e830e30542d83ebc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:04 +0000
Subject: [PATCH 081/153] fix: squeezing a strided view to a scalar left it
 marked as strided

---
 include/opengm/datastructures/marray/marray.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index 3bd97d5..18168af 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -2425,6 +2425,7 @@ View<T, isConst, A>::squeeze()
             if(newDimension == 0) {
                 geometry_.resize(0);
                 geometry_.size() = 1;
+                geometry_.isSimple() = true;
             }
             else {
                 for(size_t j=0, k=0; j<geometry_.dimension(); ++j) {
-- 
2.43.0


From f3f5a66a6cde5ccc0e593c0dcb8c79ea369945fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:25 +0000
Subject: [PATCH 082/153] fix: operations between views of more than ten
 dimensions with different coordinate orders paired wrong elements

---
 .../opengm/datastructures/marray/marray.hxx   | 36 ++++++++++---------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index 18168af..85ef1ac 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -6335,7 +6335,6 @@ struct AssignmentOperatorHelper<false, TFrom, TTo, AFrom, ATo>
     )
     {
         typedef typename View<TFrom, true, AFrom>::const_iterator FromIterator;
-        typedef typename View<TTo, false, ATo>::iterator ToIterator;
         if(!MARRAY_NO_ARG_TEST) {
             Assert(from.data_ != 0 && from.dimension() == to.dimension());
             for(size_t j=0; j<from.dimension(); ++j) {
@@ -6371,11 +6370,14 @@ struct AssignmentOperatorHelper<false, TFrom, TTo, AFrom, ATo>
             OperateHelperBinary<9, Assign<TTo, TFrom>, TTo, TFrom, true, ATo, AFrom>::operate(to, from, Assign<TTo, TFrom>(), &to(0), &from(0));
         else if(from.dimension() == 10)
             OperateHelperBinary<10, Assign<TTo, TFrom>, TTo, TFrom, true, ATo, AFrom>::operate(to, from, Assign<TTo, TFrom>(), &to(0), &from(0));
+        else if(from.dimension() == 0 && from.size() == 1) // scalar
+            to(0) = static_cast<TTo>(from(0));
         else {
-            FromIterator itFrom = from.begin();
-            ToIterator itTo = to.begin();
-            for(; itFrom.hasMore(); ++itFrom, ++itTo) {
-                *itTo = static_cast<TTo>(*itFrom);
+            // the coordinate orders of the views may differ
+            std::vector<size_t> coordinate(from.dimension());
+            for(FromIterator itFrom = from.begin(); itFrom.hasMore(); ++itFrom) {
+                itFrom.coordinate(coordinate.begin());
+                to(coordinate.begin()) = static_cast<TTo>(*itFrom);
             }
         }
     }
@@ -6391,7 +6393,6 @@ struct AssignmentOperatorHelper<false, TFrom, TTo, AFrom, ATo>
     )
     {
         typedef typename View<TFrom, false, AFrom>::const_iterator FromIterator;
-        typedef typename View<TTo, false, ATo>::iterator ToIterator;
         if(static_cast<const void*>(&from) != static_cast<const void*>(&to)) { // no self-assignment
             if(to.data_ == 0) { // if the view 'to' is not initialized
                 // initialize the view 'to' with source data
@@ -6435,11 +6436,14 @@ struct AssignmentOperatorHelper<false, TFrom, TTo, AFrom, ATo>
                     OperateHelperBinary<9, Assign<TTo, TFrom>, TTo, TFrom, true, ATo, AFrom>::operate(to, from, Assign<TTo, TFrom>(), &to(0), &from(0));
                 else if(from.dimension() == 10)
                     OperateHelperBinary<10, Assign<TTo, TFrom>, TTo, TFrom, true, ATo, AFrom>::operate(to, from, Assign<TTo, TFrom>(), &to(0), &from(0));
+                else if(from.dimension() == 0 && from.size() == 1) // scalar
+                    to(0) = static_cast<TTo>(from(0));
                 else {
-                    FromIterator itFrom = from.begin();
-                    ToIterator itTo = to.begin();
-                    for(; itFrom.hasMore(); ++itFrom, ++itTo) {
-                        *itTo = static_cast<TTo>(*itFrom);
+                    // the coordinate orders of the views may differ
+                    std::vector<size_t> coordinate(from.dimension());
+                    for(FromIterator itFrom = from.begin(); itFrom.hasMore(); ++itFrom) {
+                        itFrom.coordinate(coordinate.begin());
+                        to(coordinate.begin()) = static_cast<TTo>(*itFrom);
                     }
                 }
             }
@@ -6669,13 +6673,13 @@ operate
             else if(v.dimension() == 10)
                 OperateHelperBinary<10, Functor, T1, T2, isConst, A, A>::operate(v, w, f, &v(0), &w(0));
             else {
-                typename View<T1, false>::iterator itV = v.begin();
-                typename View<T2, isConst>::const_iterator itW = w.begin();
-                for(; itV.hasMore(); ++itV, ++itW) {
-                    Assert(MARRAY_NO_DEBUG || itW.hasMore());
-                    f(*itV, *itW);
+                // the coordinate orders of the views may differ
+                typename View<T1, false, A>::iterator itV = v.begin();
+                std::vector<size_t> coordinate(v.dimension());
+                for(; itV.hasMore(); ++itV) {
+                    itV.coordinate(coordinate.begin());
+                    f(*itV, w(coordinate.begin()));
                 }
-                Assert(MARRAY_NO_DEBUG || !itW.hasMore());
             }
         }
     }
-- 
2.43.0


From f0cba8c123d06b4c310d3a81bc5b6d9a667d8999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 083/153] fix: assigning an empty view to a matrix failed its
 argument test

---
 include/opengm/datastructures/marray/marray.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index 85ef1ac..4f0685e 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -5197,10 +5197,10 @@ Matrix<T, A>::operator=
 )
 {
     marray_detail::Assert(MARRAY_NO_ARG_TEST ||
-        in.data_ != 0 || // empty
+        in.data_ == 0 || // empty
         (in.dimension() == 0 && in.size() == 1) || // scalar
         in.dimension() == 2);
-    if(in.dimension() == 0 && in.size() == 1) { // in is a View to a scalar
+    if(in.geometry_.dimension() == 0 && in.geometry_.size() == 1) { // in is a View to a scalar
         // copy data
         if(this->size() != 1) {
             this->dataAllocator_.deallocate(this->data_, this->size());
-- 
2.43.0


From 0d630537cf1de72237ab98ccd099d7bda1edd6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 084/153] fix: reading a hyperslab of another element type left
 the dataset open

---
 include/opengm/datastructures/marray/marray_hdf5.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/datastructures/marray/marray_hdf5.hxx b/include/opengm/datastructures/marray/marray_hdf5.hxx
index fb8ab88..94bcf11 100644
--- a/include/opengm/datastructures/marray/marray_hdf5.hxx
+++ b/include/opengm/datastructures/marray/marray_hdf5.hxx
@@ -654,6 +654,8 @@ void loadHyperslab(
     hid_t datatype = H5Dget_type(dataset);
     
     if(!H5Tequal(datatype, hdf5Type<T>())) {
+        H5Tclose(datatype);
+        H5Dclose(dataset);
         throw std::runtime_error("data type of stored hdf5 dataset and passed array do not match in loadHyperslab");
     }
     
-- 
2.43.0


From 965ee45d0c8a8205486d1a69c69f321a34a92c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 085/153] fix: writing a hyperslab of another element type
 stored its bytes as elements of the dataset

---
 include/opengm/datastructures/marray/marray_hdf5.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/opengm/datastructures/marray/marray_hdf5.hxx b/include/opengm/datastructures/marray/marray_hdf5.hxx
index 94bcf11..0805c13 100644
--- a/include/opengm/datastructures/marray/marray_hdf5.hxx
+++ b/include/opengm/datastructures/marray/marray_hdf5.hxx
@@ -770,6 +770,11 @@ saveHyperslab(
 
     // select dataspace hyperslab
     hid_t datatype = H5Dget_type(dataset);
+    if(!H5Tequal(datatype, hdf5Type<T>())) {
+        H5Tclose(datatype);
+        H5Dclose(dataset);
+        throw std::runtime_error("data type of stored hdf5 dataset and passed array do not match in saveHyperslab");
+    }
     hid_t dataspace = H5Dget_space(dataset);
     herr_t status = H5Sselect_hyperslab(dataspace, H5S_SELECT_SET, 
         &offset[0], NULL, &slabShape[0], NULL);
-- 
2.43.0


From 6337bdf248440f812307a58caa9e9cc9a26671a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:49 +0000
Subject: [PATCH 086/153] fix: hdf5::load into a filled model keeps its old
 order, functions and adjacency

---
 include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index 8baaf4e..e24f58a 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -185,6 +185,7 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
       const opengm::UInt64Type loadValueTypeAs,
       bool oldFormat=false
    ) {
+      gm.template functions<IX>().clear();
       if(useFunction[IX]==true) {
          size_t mappedIndex;
          bool foundIndex=false;
@@ -459,6 +460,10 @@ void load
       }
       //numberOfVariables=serializationIndicies[2];
       //gm.numbersOfStates_.resize(serializationIndicies[2]);
+      // forget what the model contained before
+      gm.factors_.clear();
+      gm.variableFactorAdjaceny_.clear();
+      gm.order_ = 0;
       gm.factors_.resize(serializationIndicies[3], FactorType(&gm));
       numberOfFunctions.resize(serializationIndicies[4]);
       functionIndexLookup.resize(serializationIndicies[4]);
-- 
2.43.0


From 48b0007328385ee8aa0ba1d7523dc49266604fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:49 +0000
Subject: [PATCH 087/153] fix: graphical models without variables cannot be
 saved to HDF5

---
 .../graphicalmodel/graphicalmodel_hdf5.hxx    | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index e24f58a..81e618e 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -395,7 +395,7 @@ void save
    }
 
    // save numbers of states
-   {
+   if(gm.numberOfVariables() != 0) {
       std::string subDatasetName("numbers-of-states");
       serializationIndicies.resize(gm.numberOfVariables());
       for(size_t i=0;i<gm.numberOfVariables();++i) {
@@ -444,7 +444,7 @@ void load
    std::vector<opengm::UInt64Type> functionIndexLookup;
    std::vector<bool> useFunction(GM::NrOfFunctionTypes,false);
    marray::Vector<opengm::UInt64Type> typeRegisterId;
-   //size_t numberOfVariables;
+   size_t numberOfVariables;
    bool oldFormat=false;
    opengm::UInt64Type loadValueTypeAs=0;
    {
@@ -458,7 +458,7 @@ void load
       if(serializationIndicies[0] != 2 || serializationIndicies[1] != 0) {
          throw RuntimeError("This version of the HDF5 file format is not supported by this version of OpenGM.");
       }
-      //numberOfVariables=serializationIndicies[2];
+      numberOfVariables=serializationIndicies[2];
       //gm.numbersOfStates_.resize(serializationIndicies[2]);
       // forget what the model contained before
       gm.factors_.clear();
@@ -509,12 +509,16 @@ void load
          }
       }
    }
-   //if(numberOfVariables != 0) {
-   std::string subDatasetName("numbers-of-states");
-   marray::hdf5::load(group, subDatasetName, serializationIndicies);
-   gm.space_.assignDense(serializationIndicies.begin(), serializationIndicies.end());
-   OPENGM_ASSERT(serializationIndicies.size() == gm.numberOfVariables());
-   //}
+   if(numberOfVariables != 0) {
+      std::string subDatasetName("numbers-of-states");
+      marray::hdf5::load(group, subDatasetName, serializationIndicies);
+      gm.space_.assignDense(serializationIndicies.begin(), serializationIndicies.end());
+      OPENGM_ASSERT(serializationIndicies.size() == gm.numberOfVariables());
+   }
+   else {
+      const std::vector<opengm::UInt64Type> noVariables;
+      gm.space_.assignDense(noVariables.begin(), noVariables.end());
+   }
    SaveAndLoadFunctions<GM, 0, GM::NrOfFunctionTypes, opengm::meta::EqualNumber<GM::NrOfFunctionTypes, 0>::value >::load
    (group, gm, numberOfFunctions,functionIndexLookup,useFunction,loadValueTypeAs,oldFormat);
 
-- 
2.43.0


From aea853f158875af92ebf6ad447c93e1a87cf8125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:49 +0000
Subject: [PATCH 088/153] fix: hdf5::load drops the functions of the first type
 if the file lists a type unknown to the model

---
 include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index 81e618e..0b5deea 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -500,6 +500,10 @@ void load
                break;
             }
          }
+         if(foundId==false) {
+            // not the number of any function type of this model
+            functionIndexLookup[i]=GM::NrOfFunctionTypes;
+         }
          if(foundId==false && numberOfFunctions[i]!=0) {
              std::stringstream ss;
              ss << "The HDF5 file contains the function type "
-- 
2.43.0


From 43a45e0d9ab2e807712655fb5b1e94f35db993bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:25 +0000
Subject: [PATCH 089/153] fix: failed hdf5::save and hdf5::load leave the file
 open

---
 .../graphicalmodel/graphicalmodel_hdf5.hxx    | 44 ++++++++++++++++---
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index 0b5deea..74225e5 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -43,6 +43,32 @@ struct IsValidTypeForHdf5Save {
    };
 };
 
+/// closes a file or group when an exception leaves the scope in which it is open
+class ClosedOnError {
+public:
+   typedef void (*CloseFunction)(const hid_t&);
+
+   ClosedOnError(const hid_t handle, CloseFunction closeFunction)
+   :  handle_(handle), closeFunction_(closeFunction) {}
+   ~ClosedOnError() {
+      if(closeFunction_ != 0) {
+         closeFunction_(handle_);
+      }
+   }
+   void close() {
+      CloseFunction closeFunction = closeFunction_;
+      closeFunction_ = 0;
+      closeFunction(handle_);
+   }
+
+private:
+   ClosedOnError(const ClosedOnError&);
+   ClosedOnError& operator=(const ClosedOnError&);
+
+   hid_t handle_;
+   CloseFunction closeFunction_;
+};
+
 struct StoredValueTypeInfo{
    enum Values{
       AsFloat=0,
@@ -101,6 +127,7 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
          typedef typename meta::TypeAtTypeList<typename GM::FunctionTypeList, IX>::type TypeAtIX;
          ss << "function-id-" << (FunctionRegistration<TypeAtIX>::Id);
          hid_t group = marray::hdf5::createGroup(handle, ss.str());
+         ClosedOnError openGroup(group, &marray::hdf5::closeGroup);
 
          // loop over all functions of this type
          size_t indexCounter = 0;
@@ -166,7 +193,7 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
                marray::hdf5::save(group, std::string("values"), tmpValueVector);
             }
          }
-         marray::hdf5::closeGroup(group);
+         openGroup.close();
       }
 
       // save functions of the next type in the typelist
@@ -206,6 +233,7 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
             typedef typename meta::TypeAtTypeList<typename GM::FunctionTypeList, IX>::type TypeAtIX ;
             ss << "function-id-" << (FunctionRegistration<TypeAtIX>::Id);
             hid_t group = marray::hdf5::openGroup(handle, ss.str());
+            ClosedOnError openGroup(group, &marray::hdf5::closeGroup);
             marray::Vector<typename GM::ValueType> serializationValues;
             marray::Vector<opengm::UInt64Type> serializationIndicies;
             {
@@ -280,7 +308,7 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
                valueIter+=FunctionSerialization<TypeAtIX>::valueSequenceSize(
                   meta::FieldAccess::template byIndex<IX> (gm.functionDataField_).functionData_.functions_[i]);
             }
-            marray::hdf5::closeGroup(group);
+            openGroup.close();
          }
       }
 
@@ -340,7 +368,9 @@ void save
       throw opengm::RuntimeError( std::string("ValueType  has no support for hdf5 export") );
    }
    hid_t file = marray::hdf5::createFile(filepath, marray::hdf5::DEFAULT_HDF5_VERSION);
+   ClosedOnError openFile(file, &marray::hdf5::closeFile);
    hid_t group = marray::hdf5::createGroup(file, datasetName);
+   ClosedOnError openGroup(group, &marray::hdf5::closeGroup);
    std::vector<UInt64Type> serializationIndicies;
    opengm::UInt64Type storeValueTypeAs;
    // float
@@ -423,8 +453,8 @@ void save
       }
       if(serializationIndicies.size() != 0)marray::hdf5::save(group, subDatasetName, serializationIndicies);
    }
-   marray::hdf5::closeGroup(group);
-   marray::hdf5::closeFile(file);
+   openGroup.close();
+   openFile.close();
 }
 
 template<class GM>
@@ -438,7 +468,9 @@ void load
    typedef typename GM::ValueType ValueType;
    typedef typename GM::FactorType FactorType;
    hid_t file = marray::hdf5::openFile(filepath, marray::hdf5::READ_ONLY, marray::hdf5::DEFAULT_HDF5_VERSION);
+   ClosedOnError openFile(file, &marray::hdf5::closeFile);
    hid_t group =marray::hdf5::openGroup(file, datasetName);
+   ClosedOnError openGroup(group, &marray::hdf5::closeGroup);
    marray::Vector<opengm::UInt64Type> serializationIndicies;
    std::vector<opengm::UInt64Type> numberOfFunctions;
    std::vector<opengm::UInt64Type> functionIndexLookup;
@@ -563,8 +595,8 @@ void load
       }
    }
 
-   marray::hdf5::closeGroup(group);
-   marray::hdf5::closeFile(file);
+   openGroup.close();
+   openFile.close();
    gm.variableFactorAdjaceny_.resize(gm.numberOfVariables());
    // adjacenies
 
-- 
2.43.0


From 161922fce54d89c283e2b29bc9b137ef5f12d9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 090/153] fix: an error while closing an HDF5 file was ignored,
 so saving reported success for an incomplete file

---
 include/opengm/datastructures/marray/marray_hdf5.hxx  | 5 ++++-
 include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/opengm/datastructures/marray/marray_hdf5.hxx b/include/opengm/datastructures/marray/marray_hdf5.hxx
index 0805c13..53fed6c 100644
--- a/include/opengm/datastructures/marray/marray_hdf5.hxx
+++ b/include/opengm/datastructures/marray/marray_hdf5.hxx
@@ -890,7 +890,10 @@ inline void closeFile
     const hid_t& handle
 )
 {
-    H5Fclose(handle);
+    // writes that are delayed until now can fail
+    if(H5Fclose(handle) < 0) {
+        throw std::runtime_error("Could not close HDF5 file.");
+    }
 }
 
 /// Create an HDF5 group.
diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index 74225e5..c675623 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -52,7 +52,12 @@ public:
    :  handle_(handle), closeFunction_(closeFunction) {}
    ~ClosedOnError() {
       if(closeFunction_ != 0) {
-         closeFunction_(handle_);
+         try {
+            closeFunction_(handle_);
+         }
+         catch(std::exception&) {
+            // another exception is on its way
+         }
       }
    }
    void close() {
-- 
2.43.0


From 8d33ea90448416e429fd002c405966f76146ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 091/153] fix: creating and opening HDF5 files of the latest
 version leaked a property list

---
 include/opengm/datastructures/marray/marray_hdf5.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/opengm/datastructures/marray/marray_hdf5.hxx b/include/opengm/datastructures/marray/marray_hdf5.hxx
index 53fed6c..897b1cc 100644
--- a/include/opengm/datastructures/marray/marray_hdf5.hxx
+++ b/include/opengm/datastructures/marray/marray_hdf5.hxx
@@ -835,6 +835,9 @@ createFile
     }
 
     hid_t fileHandle = H5Fcreate(filename.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, version);
+    if(version != H5P_DEFAULT) {
+        H5Pclose(version);
+    }
     if(fileHandle < 0) {
         throw std::runtime_error("Could not create HDF5 file: " + filename);
     }
@@ -872,6 +875,9 @@ openFile
     }
 
     hid_t fileHandle = H5Fopen(filename.c_str(), access, version);
+    if(version != H5P_DEFAULT) {
+        H5Pclose(version);
+    }
     if(fileHandle < 0) {
         throw std::runtime_error("Could not open HDF5 file: " + filename);
     }
-- 
2.43.0


From a1e556dfcf2fd79a81898245d4e15950d056573a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:32 +0000
Subject: [PATCH 092/153] fix: elements that could not be written when an HDF5
 dataset was closed were lost without an error

---
 include/opengm/datastructures/marray/marray_hdf5.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/opengm/datastructures/marray/marray_hdf5.hxx b/include/opengm/datastructures/marray/marray_hdf5.hxx
index 897b1cc..e7274a2 100644
--- a/include/opengm/datastructures/marray/marray_hdf5.hxx
+++ b/include/opengm/datastructures/marray/marray_hdf5.hxx
@@ -383,7 +383,9 @@ void save(
     // write
     herr_t status = H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL,
         H5P_DEFAULT, &in(0));
-    H5Dclose(dataset);
+    if(H5Dclose(dataset) < 0) { // elements are written as late as now
+        status = -1;
+    }
     H5Sclose(dataspace);
     H5Tclose(datatype);
     if(status < 0) {
@@ -805,7 +807,9 @@ saveHyperslab(
     H5Sclose(memspace); 
     H5Tclose(datatype);
     H5Sclose(dataspace);
-    H5Dclose(dataset);
+    if(H5Dclose(dataset) < 0) { // elements are written as late as now
+        status = -1;
+    }
     if(status < 0) {
         throw std::runtime_error("Marray cannot write to dataset.");
     }
-- 
2.43.0


From 010c59ff9729779387ca438fe2ce12e0926aee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:19 +0000
Subject: [PATCH 093/153] fix: after a failed hdf5::save the file loaded as
 another model without an error

---
 .../graphicalmodel/graphicalmodel_hdf5.hxx    | 47 ++++++++++---------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index c675623..40bf7ea 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -406,29 +406,6 @@ void save
        throw RuntimeError(std::string("ValueType has no support for hdf5 export"));
    }
    //opengm::UInt64Type
-   // save meta data
-   {
-      std::string subDatasetName("header");
-      serializationIndicies.push_back(VERSION_MAJOR);
-      serializationIndicies.push_back(VERSION_MINOR);
-      serializationIndicies.push_back(gm.numberOfVariables());
-      serializationIndicies.push_back(gm.factors_.size());
-      serializationIndicies.push_back(GM::NrOfFunctionTypes);
-      for(size_t i=0; i<GM::NrOfFunctionTypes; ++i) {
-         const size_t fRegId=GetFunctionRegistration
-         <
-            GM,
-            0,
-            GM::NrOfFunctionTypes,
-            meta::EqualNumber<GM::NrOfFunctionTypes, 0>::value
-         >::get(i);
-         serializationIndicies.push_back(fRegId);
-         serializationIndicies.push_back(gm.numberOfFunctions(i));
-      }
-      serializationIndicies.push_back(storeValueTypeAs);
-      marray::hdf5::save(group, subDatasetName, serializationIndicies);
-   }
-
    // save numbers of states
    if(gm.numberOfVariables() != 0) {
       std::string subDatasetName("numbers-of-states");
@@ -458,6 +435,30 @@ void save
       }
       if(serializationIndicies.size() != 0)marray::hdf5::save(group, subDatasetName, serializationIndicies);
    }
+   serializationIndicies.clear();
+
+   // save meta data, last, such that a file which could not be completed is not loaded
+   {
+      std::string subDatasetName("header");
+      serializationIndicies.push_back(VERSION_MAJOR);
+      serializationIndicies.push_back(VERSION_MINOR);
+      serializationIndicies.push_back(gm.numberOfVariables());
+      serializationIndicies.push_back(gm.factors_.size());
+      serializationIndicies.push_back(GM::NrOfFunctionTypes);
+      for(size_t i=0; i<GM::NrOfFunctionTypes; ++i) {
+         const size_t fRegId=GetFunctionRegistration
+         <
+            GM,
+            0,
+            GM::NrOfFunctionTypes,
+            meta::EqualNumber<GM::NrOfFunctionTypes, 0>::value
+         >::get(i);
+         serializationIndicies.push_back(fRegId);
+         serializationIndicies.push_back(gm.numberOfFunctions(i));
+      }
+      serializationIndicies.push_back(storeValueTypeAs);
+      marray::hdf5::save(group, subDatasetName, serializationIndicies);
+   }
    openGroup.close();
    openFile.close();
 }
-- 
2.43.0


From 1ac72ed4f6065e9e3ac89a956577316034d7f9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 094/153] fix: swendsenwang.hxx includes a header that no
 longer exists and does not compile

---
 include/opengm/inference/swendsenwang.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/swendsenwang.hxx b/include/opengm/inference/swendsenwang.hxx
index e981cb2..a4183f9 100644
--- a/include/opengm/inference/swendsenwang.hxx
+++ b/include/opengm/inference/swendsenwang.hxx
@@ -19,7 +19,8 @@
 #include "opengm/datastructures/randomaccessset.hxx"
 #include "opengm/datastructures/partition.hxx"
 #include "opengm/inference/movemaker.hxx"
-#include "opengm/inference/visitors/visitor.hxx"
+#include "opengm/inference/inference.hxx"
+#include "opengm/inference/visitors/visitors.hxx"
 #include "opengm/functions/view_convert_function.hxx"
 
 namespace opengm {
@@ -121,7 +122,7 @@ public:
    typedef double ProbabilityType;
    typedef SwendsenWangEmptyVisitor<SwendsenWang<GM, ACC> > EmptyVisitorType;
    typedef SwendsenWangVerboseVisitor<SwendsenWang<GM, ACC> > VerboseVisitorType;
-   typedef TimingVisitor<SwendsenWang<GM, ACC> > TimingVisitorType;
+   typedef visitors::TimingVisitor<SwendsenWang<GM, ACC> > TimingVisitorType;
 
    struct Parameter
    {
-- 
2.43.0


From 7471ec5e650ee58d1217edad5033441a3adb60f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 095/153] fix: SwendsenWang forgets its initial state as the
 best labeling so far

---
 include/opengm/inference/swendsenwang.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/swendsenwang.hxx b/include/opengm/inference/swendsenwang.hxx
index a4183f9..e96bb81 100644
--- a/include/opengm/inference/swendsenwang.hxx
+++ b/include/opengm/inference/swendsenwang.hxx
@@ -186,7 +186,7 @@ SwendsenWang<GM, ACC>::SwendsenWang
    movemaker_(param.initialState_.size() == gm.numberOfVariables() ? Movemaker<GM>(gm, param.initialState_.begin()) : Movemaker<GM>(gm)),
    variableAdjacency_(gm.numberOfVariables()),
    edgeProbabilities_(gm.numberOfVariables()),
-   currentBestState_(gm.numberOfVariables()),
+   currentBestState_(movemaker_.stateBegin(), movemaker_.stateEnd()),
    currentBestValue_(movemaker_.value())
 {
    if(parameter_.initialState_.size() != 0 && parameter_.initialState_.size() != gm.numberOfVariables()) {
-- 
2.43.0


From ecbc83adb56d9ef841f7c95695828cb0694c9bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 096/153] fix: Gibbs does not compare with its initial labeling
 and can return a worse one

---
 include/opengm/inference/gibbs.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index 959df70..d0d0cf7 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -192,7 +192,7 @@ Gibbs<GM, ACC>::Gibbs
    currentBestValue_()
 {
    inInference_=false;
-   ACC::ineutral(currentBestValue_);
+   currentBestValue_ = movemaker_.value();
    if(parameter.startPoint_.size() != 0) {
       if(parameter.startPoint_.size() == gm.numberOfVariables()) {
          movemaker_.initialize(parameter.startPoint_.begin());
@@ -221,6 +221,7 @@ Gibbs<GM, ACC>::reset() {
    else {
      movemaker_.reset();
      std::fill(currentBestState_.begin(), currentBestState_.end(), 0);
+     currentBestValue_ = movemaker_.value();
    }
 }
 
-- 
2.43.0


From 776320ff43fd8d752a7cdb3cc8d3c6e9d358a9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 097/153] fix: Gibbs with cyclic proposals only ever proposed
 moves of one variable

---
 include/opengm/inference/gibbs.hxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index d0d0cf7..1aefcc5 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -276,11 +276,11 @@ InferenceTermination Gibbs<GM, ACC>::infer(
    visitor.begin(*this);
    opengm::RandomUniform<size_t> randomVariable(0, gm_.numberOfVariables());
    opengm::RandomUniform<ProbabilityType> randomProb(0, 1);
+   size_t variableIndex = 0;
    
    if(parameter_.useTemp_==false){
       for(size_t iteration = 0; iteration < parameter_.maxNumberOfSamplingSteps_ + parameter_.numberOfBurnInSteps_; ++iteration) {
          // select variable
-         size_t variableIndex = 0;
          if(this->parameter_.variableProposal_ == Parameter::RANDOM) {
             variableIndex = randomVariable();
          }
@@ -330,7 +330,6 @@ InferenceTermination Gibbs<GM, ACC>::infer(
    else {
       for(size_t iteration = 0; iteration < parameter_.maxNumberOfSamplingSteps_ + parameter_.numberOfBurnInSteps_; ++iteration) {
          // select variable
-         size_t variableIndex = 0;
          if(this->parameter_.variableProposal_ == Parameter::RANDOM) {
             variableIndex = randomVariable();
          }
-- 
2.43.0


From 0647be82cfff7fda14ec418764979288bee6f3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 098/153] fix: Gibbs ignores the request of a visitor to stop

---
 include/opengm/inference/gibbs.hxx | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index 1aefcc5..7821ca8 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -277,9 +277,10 @@ InferenceTermination Gibbs<GM, ACC>::infer(
    opengm::RandomUniform<size_t> randomVariable(0, gm_.numberOfVariables());
    opengm::RandomUniform<ProbabilityType> randomProb(0, 1);
    size_t variableIndex = 0;
+   bool continueInf = true;
    
    if(parameter_.useTemp_==false){
-      for(size_t iteration = 0; iteration < parameter_.maxNumberOfSamplingSteps_ + parameter_.numberOfBurnInSteps_; ++iteration) {
+      for(size_t iteration = 0; continueInf && iteration < parameter_.maxNumberOfSamplingSteps_ + parameter_.numberOfBurnInSteps_; ++iteration) {
          // select variable
          if(this->parameter_.variableProposal_ == Parameter::RANDOM) {
             variableIndex = randomVariable();
@@ -305,7 +306,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                      currentBestState_[k] = movemaker_.state(k);
                   }
                }
-               visitor(*this);
+               continueInf = (visitor(*this) == visitors::VisitorReturnFlag::ContinueInf);
                //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
             }
             else {
@@ -315,11 +316,11 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                   >::convert(newValue, oldValue);
                if(randomProb() < pFlip) {
                   movemaker_.move(&variableIndex, &variableIndex + 1, &label); 
-                  visitor(*this);
+                  continueInf = (visitor(*this) == visitors::VisitorReturnFlag::ContinueInf);
                   //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
                }
                else {
-                  visitor(*this);
+                  continueInf = (visitor(*this) == visitors::VisitorReturnFlag::ContinueInf);
                  // visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
                }
             }
@@ -328,7 +329,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
       }
    }
    else {
-      for(size_t iteration = 0; iteration < parameter_.maxNumberOfSamplingSteps_ + parameter_.numberOfBurnInSteps_; ++iteration) {
+      for(size_t iteration = 0; continueInf && iteration < parameter_.maxNumberOfSamplingSteps_ + parameter_.numberOfBurnInSteps_; ++iteration) {
          // select variable
          if(this->parameter_.variableProposal_ == Parameter::RANDOM) {
             variableIndex = randomVariable();
@@ -354,7 +355,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                      currentBestState_[k] = movemaker_.state(k);
                   }
                }
-               visitor(*this);
+               continueInf = (visitor(*this) == visitors::VisitorReturnFlag::ContinueInf);
                //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
             }
             else {
@@ -365,12 +366,12 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                if(randomProb() < pFlip*this->getTemperature(iteration)){
                   //std::cout<<"temp="<<this->getTemperature(iteration)<<"\n";
                   movemaker_.move(&variableIndex, &variableIndex + 1, &label); 
-                  visitor(*this);
+                  continueInf = (visitor(*this) == visitors::VisitorReturnFlag::ContinueInf);
                   //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
                }
                else {
                   //std::cout<<"temp="<<this->getTemperature(iteration)<<"\n";
-                  visitor(*this);
+                  continueInf = (visitor(*this) == visitors::VisitorReturnFlag::ContinueInf);
                   //visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
                }
             }
-- 
2.43.0


From 7c31fdb49107d6b713a315efca3956d6b3e75403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 099/153] fix: GibbsMarginalVisitor cannot be used with Gibbs
 (does not compile)

---
 include/opengm/inference/gibbs.hxx | 36 ++++++++++++++++++------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index 7821ca8..fc21964 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -69,11 +69,11 @@ public:
    template<class VariableIndexIterator>
       size_t addMarginal(VariableIndexIterator, VariableIndexIterator);
    size_t addMarginal(const size_t);
-   void operator()(const GibbsType&, const ValueType, const ValueType, const size_t, const bool, const bool);
+   void begin(const GibbsType&) const {}
+   size_t operator()(const GibbsType&);
+   void end(const GibbsType&) const {}
 
    // query
-   void begin(const GibbsType&, const ValueType, const ValueType) const {}
-   void end(const GibbsType&, const ValueType, const ValueType) const {}
    size_t numberOfSamples() const;
    size_t numberOfAcceptedSamples() const;
    size_t numberOfRejectedSamples() const;
@@ -155,6 +155,8 @@ public:
    ValueType markovValue() const;
    LabelType currentBestState(const size_t) const;
    ValueType currentBestValue() const;
+   bool burningIn() const { return burningIn_; }
+   bool lastMoveAccepted() const { return lastMoveAccepted_; }
 
 private:
    ValueType cosTemp(const ValueType arg,const ValueType periode,const ValueType min,const ValueType max)const{
@@ -176,6 +178,8 @@ private:
    std::vector<size_t> currentBestState_;
    ValueType currentBestValue_;
    bool inInference_;
+   bool burningIn_;
+   bool lastMoveAccepted_;
 };
 
 template<class GM, class ACC>
@@ -192,6 +196,8 @@ Gibbs<GM, ACC>::Gibbs
    currentBestValue_()
 {
    inInference_=false;
+   burningIn_=false;
+   lastMoveAccepted_=false;
    currentBestValue_ = movemaker_.value();
    if(parameter.startPoint_.size() != 0) {
       if(parameter.startPoint_.size() == gm.numberOfVariables()) {
@@ -294,7 +300,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
          const size_t label = randomLabel();
 
          // move
-         const bool burningIn = (iteration < parameter_.numberOfBurnInSteps_);
+         burningIn_ = (iteration < parameter_.numberOfBurnInSteps_);
          if(label != movemaker_.state(variableIndex)) {
             const ValueType oldValue = movemaker_.value();
             const ValueType newValue = movemaker_.valueAfterMove(&variableIndex, &variableIndex + 1, &label);
@@ -306,6 +312,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                      currentBestState_[k] = movemaker_.state(k);
                   }
                }
+               lastMoveAccepted_ = true;
                continueInf = (visitor(*this) == visitors::VisitorReturnFlag::ContinueInf);
                //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
             }
@@ -316,10 +323,12 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                   >::convert(newValue, oldValue);
                if(randomProb() < pFlip) {
                   movemaker_.move(&variableIndex, &variableIndex + 1, &label); 
+                  lastMoveAccepted_ = true;
                   continueInf = (visitor(*this) == visitors::VisitorReturnFlag::ContinueInf);
                   //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
                }
                else {
+                  lastMoveAccepted_ = false;
                   continueInf = (visitor(*this) == visitors::VisitorReturnFlag::ContinueInf);
                  // visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
                }
@@ -343,7 +352,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
          const size_t label = randomLabel();
 
          // move
-         const bool burningIn = (iteration < parameter_.numberOfBurnInSteps_);
+         burningIn_ = (iteration < parameter_.numberOfBurnInSteps_);
          if(label != movemaker_.state(variableIndex)) {
             const ValueType oldValue = movemaker_.value();
             const ValueType newValue = movemaker_.valueAfterMove(&variableIndex, &variableIndex + 1, &label);
@@ -355,6 +364,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                      currentBestState_[k] = movemaker_.state(k);
                   }
                }
+               lastMoveAccepted_ = true;
                continueInf = (visitor(*this) == visitors::VisitorReturnFlag::ContinueInf);
                //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
             }
@@ -366,11 +376,13 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                if(randomProb() < pFlip*this->getTemperature(iteration)){
                   //std::cout<<"temp="<<this->getTemperature(iteration)<<"\n";
                   movemaker_.move(&variableIndex, &variableIndex + 1, &label); 
+                  lastMoveAccepted_ = true;
                   continueInf = (visitor(*this) == visitors::VisitorReturnFlag::ContinueInf);
                   //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
                }
                else {
                   //std::cout<<"temp="<<this->getTemperature(iteration)<<"\n";
+                  lastMoveAccepted_ = false;
                   continueInf = (visitor(*this) == visitors::VisitorReturnFlag::ContinueInf);
                   //visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
                }
@@ -478,18 +490,13 @@ GibbsMarginalVisitor<GIBBS>::assign(
 }
 
 template<class GIBBS>
-inline void
+inline size_t
 GibbsMarginalVisitor<GIBBS>::operator()(
-   const typename GibbsMarginalVisitor<GIBBS>::GibbsType& gibbs, 
-   const typename GibbsMarginalVisitor<GIBBS>::ValueType currentValue, 
-   const typename GibbsMarginalVisitor<GIBBS>::ValueType bestValue, 
-   const size_t iteration, 
-   const bool accepted, 
-   const bool burningIn
+   const typename GibbsMarginalVisitor<GIBBS>::GibbsType& gibbs
 ) {
-   if(!burningIn) {
+   if(!gibbs.burningIn()) {
       ++numberOfSamples_;
-      if(accepted) {
+      if(gibbs.lastMoveAccepted()) {
          ++numberOfAcceptedSamples_;
       }
       else {
@@ -502,6 +509,7 @@ GibbsMarginalVisitor<GIBBS>::operator()(
          ++marginals_[j](stateCache_.begin());
       }
    }
+   return visitors::VisitorReturnFlag::ContinueInf;
 }
 
 template<class GIBBS>
-- 
2.43.0


From b102a0688b41d8eff7c18b8feabbe445347bf08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 100/153] fix: constant and mutable accessor iterators cannot
 be compared (does not compile)

---
 include/opengm/utilities/accessor_iterator.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/utilities/accessor_iterator.hxx b/include/opengm/utilities/accessor_iterator.hxx
index a9bec89..5919c99 100644
--- a/include/opengm/utilities/accessor_iterator.hxx
+++ b/include/opengm/utilities/accessor_iterator.hxx
@@ -113,6 +113,8 @@ public:
       size_t operator-(const AccessorIterator<A, isConstLocal>&) const;
 
 private:
+   template<class, bool> friend class AccessorIterator;
+
    void testInvariant() const;
 
    Accessor accessor_;
-- 
2.43.0


From 5dd80cc0c0112e2bbb40b911159ddce7a0b2ddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 101/153] fix: VectorView that is not const cannot be read
 (does not compile)

---
 include/opengm/utilities/vector_view.hxx | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/include/opengm/utilities/vector_view.hxx b/include/opengm/utilities/vector_view.hxx
index 1c8f4c3..c2f0d24 100644
--- a/include/opengm/utilities/vector_view.hxx
+++ b/include/opengm/utilities/vector_view.hxx
@@ -57,13 +57,6 @@ public:
 	}
 
 
-	iterator begin(){
-		return vectorPtr_->begin()+start_;
-	}
-	iterator end(){
-		return vectorPtr_->begin()+start_+size_;
-	}
-
 	const_iterator begin()const{
 		return vectorPtr_->begin()+start_;
 	}
@@ -78,9 +71,6 @@ public:
 	const ValueType & operator[](const IndexType i)const{
 		return (*vectorPtr_)[start_+i];
 	}
-	ValueType & operator[](const IndexType i){
-		return (*vectorPtr_)[start_+i];
-	}
 
 
 private:
-- 
2.43.0


From 5d53d4979c41bca29a8ddf56cedd59e2f2331898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 102/153] fix: reading through a const AccessorIterator returns
 a reference to a value that is gone

---
 include/opengm/utilities/accessor_iterator.hxx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/opengm/utilities/accessor_iterator.hxx b/include/opengm/utilities/accessor_iterator.hxx
index 5919c99..f711ce4 100644
--- a/include/opengm/utilities/accessor_iterator.hxx
+++ b/include/opengm/utilities/accessor_iterator.hxx
@@ -75,6 +75,12 @@ public:
       >::type,
       value_type&
    >::type reference;
+   typedef typename meta::If
+   <
+      meta::IsFundamental<value_type>::value,
+      const value_type,
+      const value_type&
+   >::type const_reference;
    typedef size_t difference_type;
    typedef std::random_access_iterator_tag iterator_category;
 
@@ -96,9 +102,9 @@ public:
    pointer operator->();
    const value_type* operator->() const;
    reference operator*();
-   const value_type& operator*() const;
+   const_reference operator*() const;
    reference operator[](const size_t);
-   const value_type& operator[](const size_t) const;
+   const_reference operator[](const size_t) const;
 
    AccessorIterator<A, isConst>& operator++();
    AccessorIterator<A, isConst> operator++(int);
@@ -227,7 +233,7 @@ AccessorIterator<A, isConst>::operator->() const
 }
 
 template<class A, bool isConst>
-inline const typename AccessorIterator<A, isConst>::value_type&
+inline typename AccessorIterator<A, isConst>::const_reference
 AccessorIterator<A, isConst>::operator*() const
 {
    OPENGM_ASSERT(index_ < accessor_.size());
@@ -243,7 +249,7 @@ AccessorIterator<A, isConst>::operator*()
 }
 
 template<class A, bool isConst>
-inline const typename AccessorIterator<A, isConst>::value_type&
+inline typename AccessorIterator<A, isConst>::const_reference
 AccessorIterator<A, isConst>::operator[]
 (
    const size_t j
-- 
2.43.0


From be47760a2e93297a9847bfdde66232ce8889860d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 103/153] fix: FactorVariablesAccessor that is not const gives
 numbers of labels instead of variable indices

---
 include/opengm/utilities/shape_accessor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/shape_accessor.hxx b/include/opengm/utilities/shape_accessor.hxx
index 6d9b45e..a398d26 100644
--- a/include/opengm/utilities/shape_accessor.hxx
+++ b/include/opengm/utilities/shape_accessor.hxx
@@ -162,7 +162,7 @@ namespace opengm {
       IndexType size() const 
          { return factor_ == 0 ? 0 : factor_->numberOfVariables(); }
       reference operator[](const size_t j) 
-         { return factor_->numberOfLabels(j); }
+         { return factor_->variableIndex(j); }
       const value_type operator[](const size_t j) const 
          { return factor_->variableIndex(j); }
       bool operator==(const FactorVariablesAccessor<FACTOR> & other) const 
-- 
2.43.0


From 03bea802b00d4b8d8208a60cf3e6733b8783d492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 104/153] fix: GmLabelFactorLabelAccessor cannot be compared
 with its own kind

---
 include/opengm/utilities/shape_accessor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/shape_accessor.hxx b/include/opengm/utilities/shape_accessor.hxx
index a398d26..dc52456 100644
--- a/include/opengm/utilities/shape_accessor.hxx
+++ b/include/opengm/utilities/shape_accessor.hxx
@@ -132,7 +132,7 @@ namespace opengm {
          { return gmLabelIter_[factor_->variableIndex(j)]; }
       const value_type operator[](const size_t j) const 
          { return gmLabelIter_[factor_->variableIndex(j)]; }
-      bool operator==(const FactorShapeAccessor<FACTOR> & other) const 
+      bool operator==(const GmLabelFactorLabelAccessor & other) const 
       { return factor_ == other.factor_ && gmLabelIter_==other.gmLabelIter_; 
       }
    
-- 
2.43.0


From dfd007086804fc867ba87ed4036c9922f8ddf06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 105/153] fix: SubShapeWalker walks over fixed coordinates that
 are not given in ascending order

---
 include/opengm/utilities/indexing.hxx | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/opengm/utilities/indexing.hxx b/include/opengm/utilities/indexing.hxx
index 1f1f367..d378b83 100644
--- a/include/opengm/utilities/indexing.hxx
+++ b/include/opengm/utilities/indexing.hxx
@@ -55,13 +55,12 @@ namespace opengm {
 
       /// increment coordinate in last - coordinate major order  (therefore the first coordinate is incremented first)
       inline SubShapeWalker & operator++() {
-         size_t counter = 0;
          for(size_t d = 0; d < dimension_; ++d) {
             bool atFixedValue = false;
-            for(size_t i = counter; i < fixedCoordinateIndex_.size(); ++i) {
+            for(size_t i = 0; i < fixedCoordinateIndex_.size(); ++i) {
                if(d == fixedCoordinateIndex_[i]) {
                   atFixedValue = true;
-                  ++counter;
+                  break;
                }
             }
             if(atFixedValue == false) {
@@ -91,14 +90,12 @@ namespace opengm {
       /// get the number of elements over which one wants to walk
       size_t subSize() {
          size_t result = 1;
-         size_t counter = 0;
          for(size_t d = 0; d < dimension_; ++d) {
             bool fixedVal = false;
-            for(size_t i = counter; i < fixedCoordinateIndex_.size(); ++i) {
-               if(d == fixedCoordinateIndex_[i]) ///??? replace i with counter for old version
+            for(size_t i = 0; i < fixedCoordinateIndex_.size(); ++i) {
+               if(d == fixedCoordinateIndex_[i])
                {
                   fixedVal = true;
-                  counter++;
                   break;
                }
             }
-- 
2.43.0


From 263a450e97b9fd8a6560e293155391721847a942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 106/153] fix: findInSortedSequence reads in front of an empty
 sequence

---
 include/opengm/utilities/sorting.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/sorting.hxx b/include/opengm/utilities/sorting.hxx
index 22e6f1d..ec36e48 100644
--- a/include/opengm/utilities/sorting.hxx
+++ b/include/opengm/utilities/sorting.hxx
@@ -17,7 +17,7 @@ findInSortedSequence
    const TYPE_TO_FIND & toFind,
    INDEXTYPE & position
 ) {
-   if(toFind>static_cast<TYPE_TO_FIND>(sequenceBegin[sequenceSize-1]))
+   if(sequenceSize == 0 || toFind>static_cast<TYPE_TO_FIND>(sequenceBegin[sequenceSize-1]))
       return false;
    for(INDEXTYPE p=0;p<sequenceSize;++p) {
       if(toFind<static_cast<TYPE_TO_FIND>(sequenceBegin[p]))
-- 
2.43.0


From 559ed924f395c780c60a5cd7c734d1f42b8ef4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 107/153] fix: comparisons of Tribool with false, with states
 and with each other

---
 include/opengm/utilities/tribool.hxx | 34 +++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/include/opengm/utilities/tribool.hxx b/include/opengm/utilities/tribool.hxx
index 30b4706..e79ffbd 100644
--- a/include/opengm/utilities/tribool.hxx
+++ b/include/opengm/utilities/tribool.hxx
@@ -24,7 +24,11 @@ namespace opengm {
       bool operator==(const bool a) const;
       template<class T>
          bool operator==(T a) const;
+      bool operator==(const Tribool& a) const;
       bool operator!=(const bool a) const;
+      template<class T>
+         bool operator!=(T a) const;
+      bool operator!=(const Tribool& a) const;
       operator bool() const;
       bool operator!() const;
       bool maybe() const;
@@ -126,7 +130,35 @@ namespace opengm {
    ) const
    {
       return (value_ != Tribool::True && a == true)
-         || (value_ != Tribool::True && a == false);
+         || (value_ != Tribool::False && a == false);
+   }
+
+   template<class T>
+   inline bool 
+   Tribool::operator!=
+   (
+      T a
+   ) const
+   {
+      return static_cast<int>(a) != value_;
+   }
+
+   inline bool 
+   Tribool::operator==
+   (
+      const Tribool& a
+   ) const
+   {
+      return value_ == a.value_;
+   }
+
+   inline bool 
+   Tribool::operator!=
+   (
+      const Tribool& a
+   ) const
+   {
+      return value_ != a.value_;
    }
 
    inline Tribool::operator bool() const
-- 
2.43.0


From 3d5fdb03b46e35fc82d413ba93bab358598152d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:56 +0000
Subject: [PATCH 108/153] fix: PrimalLPBound::ResetBuffer does not compile

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index cac675b..ccbb4c6 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -86,7 +86,7 @@ public:
 	template<class Matrix>
 	ValueType getFactorVariable(IndexType factorId, Matrix& matrix); //pairwise factor factorId, buffering of the solution is performed
 
-	void ResetBuffer(){_bufferedValues(_gm.numberOfFactors(),ValueTypeNan); _totalValue=ValueTypeNan;}//reset buffer, if you changed potentials of gm and want to take this fact into account
+	void ResetBuffer(){_bufferedValues.assign(_gm.numberOfFactors(),ValueTypeNan); _lastActiveSolver=InvalidIndex; _totalValue=ValueTypeNan;}//reset buffer, if you changed potentials of gm and want to take this fact into account
 	bool IsValueBuffered(IndexType factorId)const{OPENGM_ASSERT(factorId<_bufferedValues.size()); return (_bufferedValues[factorId] != ValueTypeNan);}
 	bool IsFactorVariableBuffered(IndexType factorId)const{return _lastActiveSolver==factorId;}
 	static void CheckDuplicateUnaryFactors(const GM& gm);
-- 
2.43.0


From 6c01d8e871aeb9bfda1173c595e48c995ac4db58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:56 +0000
Subject: [PATCH 109/153] fix: PrimalLPBound does not refuse factors that are
 not pairwise

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index ccbb4c6..d9a9f1b 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -176,7 +176,7 @@ void PrimalLPBound<GM,ACC>::_checkPWFactorID(IndexType factorId, const std::stri
 {
 	OPENGM_ASSERT(factorId < _gm.numberOfFactors());
 	if (_gm[factorId].numberOfVariables() !=2 )
-		std::runtime_error(message_prefix + "Function can be applied to second order factors only!");
+		throw std::runtime_error(message_prefix + "Function can be applied to second order factors only!");
 }
 
 template <class GM,class ACC>
-- 
2.43.0


From 9b7595629ed70623cc9ba9d158d2a2ea92e4da39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:56 +0000
Subject: [PATCH 110/153] fix: PrimalLPBound::getFactorVariable returns the
 solution of another factor or of old values

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index d9a9f1b..ca524d0 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -160,6 +160,7 @@ void PrimalLPBound<GM,ACC>::setVariable(IndexType var, Iterator inputBegin)
 		IndexType factorId=_gm.factorOfVariable(var,i);
 		OPENGM_ASSERT(factorId < _gm.numberOfFactors() );
 		_bufferedValues[factorId] = ValueTypeNan;
+		if (_lastActiveSolver==factorId) _lastActiveSolver=InvalidIndex;//the solution belongs to the old values
 	}
 }
 
@@ -204,7 +205,10 @@ typename PrimalLPBound<GM,ACC>::ValueType PrimalLPBound<GM,ACC>::getFactorVariab
 	_checkPWFactorID(factorId,"PrimalLPBound::getFactorVariable(): ");
 
 	if (_lastActiveSolver!=factorId)
+	{
+		_bufferedValues[factorId]=ValueTypeNan;//the solver holds the solution of another factor
 		getFactorValue(factorId);
+	}
 
 	return _solver.GetSolution(&matrix);
 }
-- 
2.43.0


From 07629024e23df1a978c2e54f4bbd018257d38bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:56 +0000
Subject: [PATCH 111/153] fix: LPReparametrisationStorage reads the first
 variable of constant factors

---
 include/opengm/inference/auxiliary/lp_reparametrization.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/lp_reparametrization.hxx b/include/opengm/inference/auxiliary/lp_reparametrization.hxx
index e67da01..8dce4f8 100644
--- a/include/opengm/inference/auxiliary/lp_reparametrization.hxx
+++ b/include/opengm/inference/auxiliary/lp_reparametrization.hxx
@@ -61,7 +61,7 @@ public:
 		const typename GM::FactorType& factor=_gm[findex];
 
 		ValueType res=0;//factor(it);
-		if (factor.numberOfVariables()>1)
+		if (factor.numberOfVariables()!=1)
 		{
 			res=factor(it);
 			for (IndexType varId=0;varId<factor.numberOfVariables();++varId)
-- 
2.43.0


From 26594da34f188fc256a94306ac8fc8b9f59f61d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:56 +0000
Subject: [PATCH 112/153] fix: getArcConsistency rejects optimal configurations
 when the worst value is zero

---
 include/opengm/inference/auxiliary/lp_reparametrization.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/lp_reparametrization.hxx b/include/opengm/inference/auxiliary/lp_reparametrization.hxx
index 8dce4f8..690eca8 100644
--- a/include/opengm/inference/auxiliary/lp_reparametrization.hxx
+++ b/include/opengm/inference/auxiliary/lp_reparametrization.hxx
@@ -407,7 +407,7 @@ void LPReparametrizer<GM,ACC>::getArcConsistency(std::vector<bool>* pmask,std::v
 //		std::cout <<"worstValue="<<worstValue[factorId] << ", localVarIndex=" <<localVarIndex <<", labeling="<< labeling<<std::endl;
 
 		if (fabs(factor(labeling.begin())-optimalValues[factorId])
-				<factor.numberOfVariables()*fabs(worstValue[factorId])*std::numeric_limits<ValueType>::epsilon()) continue;//!> if it is connected to other optimal labels with eps-optimal hyperedge
+				<=factor.numberOfVariables()*fabs(worstValue[factorId])*std::numeric_limits<ValueType>::epsilon()) continue;//!> if it is connected to other optimal labels with eps-optimal hyperedge
 
 		/** else **/
 //		std::cout << "False:("<<std::endl;
-- 
2.43.0


From e5408f0c543089dae7e64f3c1100ebcbd98e2e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:56 +0000
Subject: [PATCH 113/153] fix: TRWS_Reparametrizer uses positions in a factor
 as variable indices

---
 include/opengm/inference/trws/trws_reparametrization.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/trws_reparametrization.hxx b/include/opengm/inference/trws/trws_reparametrization.hxx
index 4305d6b..4762da6 100644
--- a/include/opengm/inference/trws/trws_reparametrization.hxx
+++ b/include/opengm/inference/trws/trws_reparametrization.hxx
@@ -423,7 +423,7 @@ void TRWS_Reparametrizer<Storage,ACC>::reparametrize(const ImmovableLabelingType
 			  {
 				  IndexType otherVarID=(localVarID==0 ? 1 : 0);
 				  labeling[localVarID]=it.first-it_begin;
-				  for (LabelType label=0;label<gm.numberOfLabels(otherVarID);++label)
+				  for (LabelType label=0;label<gm[factorID].numberOfLabels(otherVarID);++label)
 				  {
 					  labeling[otherVarID]=label;
 
-- 
2.43.0


From 3c8a161d03c2f57e51534a1e629f0b094130e95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:56 +0000
Subject: [PATCH 114/153] fix: CanonicalView multiplies models by zero for
 variables without unary factor

---
 include/opengm/utilities/canonical_view.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/canonical_view.hxx b/include/opengm/utilities/canonical_view.hxx
index cd3a342..622c1c0 100644
--- a/include/opengm/utilities/canonical_view.hxx
+++ b/include/opengm/utilities/canonical_view.hxx
@@ -279,7 +279,7 @@ public:
 			switch (unaryFactors[i].size()) {
 			case 0: { // Create new “empty” factor.
 				LabelType shape[1] = { gm.numberOfLabels(i) };
-				ConstFuncType func(shape, shape+1, 0);
+				ConstFuncType func(shape, shape+1, Parent::OperatorType::template neutral<ValueType>());
 				fid = this->addFunction(func);
 				break;
 			}
-- 
2.43.0


From 6f1592e47bfe051d00c1e8f75aa04cf52d437c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:56 +0000
Subject: [PATCH 115/153] fix: AccumulatedViewFunction has the wrong label type

---
 include/opengm/functions/accumulated_view.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/functions/accumulated_view.hxx b/include/opengm/functions/accumulated_view.hxx
index 7ef010a..3fbac1e 100644
--- a/include/opengm/functions/accumulated_view.hxx
+++ b/include/opengm/functions/accumulated_view.hxx
@@ -40,7 +40,7 @@ class AccumulatedViewFunction : public FunctionBase< AccumulatedViewFunction<GM>
                                                      typename GM::LabelType > {
 public:
 	typedef typename GM::IndexType IndexType;
-	typedef typename GM::IndexType LabelType;
+	typedef typename GM::LabelType LabelType;
 	typedef typename GM::ValueType ValueType;
 	typedef typename GM::FactorType FactorType;
 	typedef typename GM::OperatorType OperatorType;
-- 
2.43.0


From 258eb3d9c375db75200fa036ae3f90d1a83221b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 116/153] fix: PrimalLPBound asserts for variables without
 unary factor

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index ca524d0..103ed1b 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -219,9 +219,9 @@ typename PrimalLPBound<GM,ACC>::ValueType PrimalLPBound<GM,ACC>::getVariableValu
 	OPENGM_ASSERT(varId < _gm.numberOfVariables());
 	OPENGM_ASSERT(varId < _unaryFactors.size());
 	IndexType factorId=_mapping(varId);
-	OPENGM_ASSERT(_mapping(varId) < _gm.numberOfFactors());
 	if (factorId==VariableToFactorMapping<GM>::InvalidIndex)
 		return (ValueType)0;
+	OPENGM_ASSERT(factorId < _gm.numberOfFactors());
 
 	if (_bufferedValues[factorId] != ValueTypeNan)
 		return _bufferedValues[factorId];
-- 
2.43.0


From a5d42a0f3f78a8dc8dd0a5315dd286734015fa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 117/153] fix: EdgeDecomposition does not refuse factors of
 higher order

---
 include/opengm/inference/trws/trws_decomposition.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/trws_decomposition.hxx b/include/opengm/inference/trws/trws_decomposition.hxx
index 2f282f0..90d9933 100644
--- a/include/opengm/inference/trws/trws_decomposition.hxx
+++ b/include/opengm/inference/trws/trws_decomposition.hxx
@@ -142,7 +142,7 @@ public:
 		{
 			if (gm[fId].numberOfVariables()==1) continue;
 			if ((gm[fId].numberOfVariables()>2) || (gm[fId].numberOfVariables()==0))
-				std::runtime_error("EdgeDecomposition<GM>::EdgeDecomposition(): Only factors of order 1 or 2 are supported!");
+				throw std::runtime_error("EdgeDecomposition<GM>::EdgeDecomposition(): Only factors of order 1 or 2 are supported!");
 
 			//factor of order 2:
 			parent::_variableLists[pwFid][0]=gm[fId].variableIndex(0);
-- 
2.43.0


From 5f66ae4a86c7018ed47135a44c945623167f5b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 118/153] fix: LazyFlipper::reset does nothing

---
 include/opengm/inference/lazyflipper.hxx | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/lazyflipper.hxx b/include/opengm/inference/lazyflipper.hxx
index bedde73..7d95e15 100644
--- a/include/opengm/inference/lazyflipper.hxx
+++ b/include/opengm/inference/lazyflipper.hxx
@@ -218,6 +218,7 @@ private:
    SubgraphForest subgraphForest_;
    size_t maxSubgraphSize_;
    Tribool useMultilabelInference_;
+   std::vector<LabelType> startingPoint_;
 };
 
 // implementation of Tagging
@@ -667,15 +668,23 @@ LazyFlipper<GM, ACC>::LazyFlipper(
          }
       }
    }
-   if(param.startingPoint_.size() == gm_.numberOfVariables()) {
-      movemaker_.initialize(param.startingPoint_.begin());
+   startingPoint_ = param.startingPoint_;
+   if(startingPoint_.size() == gm_.numberOfVariables()) {
+      movemaker_.initialize(startingPoint_.begin());
    }
 }
 
 template<class GM, class ACC>
 inline void
 LazyFlipper<GM, ACC>::reset()
-{}
+{
+   if(startingPoint_.size() == gm_.numberOfVariables()) {
+      movemaker_.initialize(startingPoint_.begin());
+   }
+   else {
+      movemaker_.reset();
+   }
+}
 
 ///// \todo next version: get rid of redundancy with other constructor
 //template<class GM, class ACC>
-- 
2.43.0


From 83ad9e83e1865b12d6c466f672e5cdb5b92d0c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 119/153] fix: InfAndFlip::reset does nothing

---
 include/opengm/inference/infandflip.hxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/infandflip.hxx b/include/opengm/inference/infandflip.hxx
index 09820c6..c6e4372 100644
--- a/include/opengm/inference/infandflip.hxx
+++ b/include/opengm/inference/infandflip.hxx
@@ -118,7 +118,12 @@ InfAndFlip<GM, ACC, INF>::InfAndFlip(
 template<class GM, class ACC, class INF>
 inline void
 InfAndFlip<GM, ACC, INF>::reset()
-{}
+{
+   state_.clear();
+   sp_.clear();
+   value_ = ACC::template neutral<ValueType>();
+   bound_ = ACC::template ineutral<ValueType>();
+}
 
 
 template<class GM, class ACC, class INF>
-- 
2.43.0


From b1fbb23940d1a9619b362a5c935cf87bcc884fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 120/153] fix: AStar::reset does nothing and a second run
 continues with the rest of the heap

---
 include/opengm/inference/astar.hxx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index ac1dc6d..a3eddc7 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -291,13 +291,18 @@ namespace opengm {
    ///
    /// \warning  reset assumes that the structure of
    /// the graphical model has not changed
-   ///
-   /// TODO
    template<class GM, class ACC >
    void
    AStar<GM,ACC>::reset()
    {
-      ///todo
+      ACC::ineutral(belowBound_);
+      ACC::neutral(aboveBound_);
+      optConf_.resize(0);
+      //PUSH EMPTY CONFIGURATION TO HEAP
+      AStarNode<IndependentFactorType> a;
+      a.conf.resize(0);
+      a.value = 0;
+      array_.assign(1, a);
    }
 
    template <class GM, class ACC>
@@ -315,7 +320,7 @@ namespace opengm {
    InferenceTermination AStar<GM,ACC>::infer(VisitorType& visitor)
    { 
       size_t exitFlag=0;
-      optConf_.resize(0);
+      reset();
       visitor.begin(*this);    
       while(array_.size()>0 && exitFlag==0) {
          if(parameter_.numberOfOpt_ == optConf_.size()) {
-- 
2.43.0


From ea7f02541fee0d77aad16057d708aaac4c9dd3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 121/153] fix: AlphaExpansion::setStartingPoint keeps the
 position in the label order

---
 include/opengm/inference/alphaexpansion.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index d28389b..0c4e58e 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -144,6 +144,8 @@ AlphaExpansion<GM,INF>::setStartingPoint
 ) {
    try{
       label_.assign(begin, begin+gm_.numberOfVariables());
+      counter_ = 0;
+      alpha_   = labelList_[counter_];
    }
    catch(...) {
       throw RuntimeError("unsuitable starting point");
-- 
2.43.0


From fece69d287f6e642cb14312e2f468d30c96fab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 122/153] fix: converting parameters of AlphaExpansion loses
 the initial labels

---
 include/opengm/inference/alphaexpansion.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index 0c4e58e..b358afc 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -66,7 +66,7 @@ public:
             randSeedOrder_(p.randSeedOrder_),
             randSeedLabel_(p.randSeedLabel_),
             labelOrder_(p.labelOrder_),
-            label_(p.labelOrder_)
+            label_(p.label_)
         {}
 
         InferenceParameter parameter_;
-- 
2.43.0


From f72207ac7ce6be6096ecef2479049426de6a036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 123/153] fix: converting parameters of AlphaExpansionFusion
 loses the initial labels

---
 include/opengm/inference/alphaexpansionfusion.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/alphaexpansionfusion.hxx b/include/opengm/inference/alphaexpansionfusion.hxx
index 9c26741..4c5686f 100644
--- a/include/opengm/inference/alphaexpansionfusion.hxx
+++ b/include/opengm/inference/alphaexpansionfusion.hxx
@@ -68,7 +68,7 @@ public:
             randSeedOrder_(p.randSeedOrder_),
             randSeedLabel_(p.randSeedLabel_),
             labelOrder_(p.labelOrder_),
-            label_(p.labelOrder_)
+            label_(p.label_)
         {}
 
         size_t maxNumberOfSteps_;
-- 
2.43.0


From d54ea2c85051f37fe74b50181ba417d1f7be520c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 124/153] fix: converting parameters of AlphaBetaSwap leaves
 the number of iterations uninitialised

---
 include/opengm/inference/alphabetaswap.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index 3ed1e69..36ead8b 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -43,7 +43,7 @@ public:
         template<class P>
         Parameter(const P & p)
         :   parameter_(p.parameter_),
-            maxNumberOfIterations_(maxNumberOfIterations_){
+            maxNumberOfIterations_(p.maxNumberOfIterations_){
         }
 
         typename InferenceType::Parameter parameter_; 
-- 
2.43.0


From 98e6c5fcb622a408ec145eedd1c019aaed12c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 125/153] fix: AlphaBetaSwap ignores the parameters of its
 binary solver

---
 include/opengm/inference/alphabetaswap.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index 36ead8b..75202c4 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -229,7 +229,7 @@ AlphaBetaSwap<GM, INF>::infer
       if (counter == 0) {
          continue;
       }
-      INF inf(counter, numFacDim);
+      INF inf(counter, numFacDim, parameter_.parameter_);
       vecA[0] = alpha_;
       vecB[0] = beta_;
       vecAA[0] = alpha_;
-- 
2.43.0


From e1b50996a95167a6326abe8c963c72d049cec354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 126/153] fix: converting parameters of ICM does not compile

---
 include/opengm/inference/icm.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/icm.hxx b/include/opengm/inference/icm.hxx
index e39a1d4..18abb5e 100644
--- a/include/opengm/inference/icm.hxx
+++ b/include/opengm/inference/icm.hxx
@@ -68,7 +68,7 @@ public:
        Parameter(const OP & otherParameter)
           {
              moveType_ = otherParameter.moveType_== 0? SINGLE_VARIABLE : FACTOR; 
-             startPoint_(otherParameter.startPoint_); 
+             startPoint_.assign(otherParameter.startPoint_.begin(), otherParameter.startPoint_.end()); 
           }
 
         MoveType moveType_;
-- 
2.43.0


From 428bd3ce5d1a45b23bfcbcbc73d560ddc99b2a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 127/153] fix: converting parameters of MessagePassing loses
 the order of variables

---
 include/opengm/inference/messagepassing/messagepassing.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/messagepassing/messagepassing.hxx b/include/opengm/inference/messagepassing/messagepassing.hxx
index 40f4b01..25eae43 100644
--- a/include/opengm/inference/messagepassing/messagepassing.hxx
+++ b/include/opengm/inference/messagepassing/messagepassing.hxx
@@ -107,6 +107,7 @@ public:
          bound_(p.bound_),
          damping_(p.damping_),
          inferSequential_(p.inferSequential_),
+         sortedNodeList_(p.sortedNodeList_),
          useNormalization_(p.useNormalization_),
          specialParameter_(p.specialParameter_),
          isAcyclic_(p.isAcyclic_)
-- 
2.43.0


From 9520225bb6f297984f96720185ebde0729399bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:53 +0000
Subject: [PATCH 128/153] fix: AStar ignores the request of a visitor to stop
 after a labeling was found

---
 include/opengm/inference/astar.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index a3eddc7..0d23961 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -341,7 +341,8 @@ namespace opengm {
                conf[parameter_.nodeOrder_[n]] = array_.front().conf[n];
             } 
             optConf_.push_back(conf);
-            visitor(*this);
+            if(visitor(*this) != visitors::VisitorReturnFlag::ContinueInf)
+               exitFlag = 1;
             if(ACC::bop(parameter_.objectiveBound_, value)) {
                visitor.end(*this);
                return NORMAL;
-- 
2.43.0


From 73ccf5479120d0ba7c8b804b2e903ff802ad4508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 129/153] fix: GraphCut adds its terminal capacities again in a
 second run

---
 include/opengm/inference/graphcut.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/inference/graphcut.hxx b/include/opengm/inference/graphcut.hxx
index 1f1519e..db30395 100644
--- a/include/opengm/inference/graphcut.hxx
+++ b/include/opengm/inference/graphcut.hxx
@@ -377,6 +377,8 @@ GraphCut<GM, ACC, MINSTCUT>::infer(VISITOR & visitor) {
    for(size_t i=0; i<sEdges_.size(); ++i) {
       minStCut_->addEdge(0, i+2, sEdges_[i]);
       minStCut_->addEdge(i+2, 1, tEdges_[i]);
+      sEdges_[i] = 0; // these capacities are part of the graph now
+      tEdges_[i] = 0;
    }
    minStCut_->calculateCut(state_);
    inferenceDone_=true;
-- 
2.43.0


From d07f86c23e5fecb8f5736b94c7a0a1748f88dce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 130/153] fix: MinSTCutBoost keeps the result of an earlier cut
 with the push relabel algorithm

---
 include/opengm/inference/auxiliary/minstcutboost.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/minstcutboost.hxx b/include/opengm/inference/auxiliary/minstcutboost.hxx
index 3f6642a..14d28ac 100644
--- a/include/opengm/inference/auxiliary/minstcutboost.hxx
+++ b/include/opengm/inference/auxiliary/minstcutboost.hxx
@@ -134,7 +134,7 @@ namespace opengm {
             get(boost::vertex_index_t(), graph_)
             );
          // find (s,t)-cut set 
-         segmentation.resize(num_vertices(graph_), true);
+         segmentation.assign(num_vertices(graph_), true);
          segmentation[S] = false; // source
          segmentation[T] = false; // sink
          typedef typename boost::property_map<graph_type, boost::vertex_index_t>::type VertexIndexMap;
-- 
2.43.0


From 9ef8fad3c1814e23069eb101434020aa04bbb231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 131/153] fix: MessagePassing::reset keeps the messages of the
 last run

---
 include/opengm/inference/messagepassing/messagepassing.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/messagepassing/messagepassing.hxx b/include/opengm/inference/messagepassing/messagepassing.hxx
index 25eae43..61fe948 100644
--- a/include/opengm/inference/messagepassing/messagepassing.hxx
+++ b/include/opengm/inference/messagepassing/messagepassing.hxx
@@ -218,11 +218,11 @@ MessagePassing<GM, ACC, UPDATE_RULES, DIST>::reset()
    UPDATE_RULES::initializeSpecialParameter(gm_,this->parameter_);
 
    // set hulls
-   variableHulls_.resize(gm_.numberOfVariables(), VariableHullType ());
+   variableHulls_.assign(gm_.numberOfVariables(), VariableHullType ());
    for (size_t i = 0; i < gm_.numberOfVariables(); ++i) {
       variableHulls_[i].assign(gm_, i, &parameter_.specialParameter_);
    }
-   factorHulls_.resize(gm_.numberOfFactors(), FactorHullType ());
+   factorHulls_.assign(gm_.numberOfFactors(), FactorHullType ());
    for (size_t i = 0; i < gm_.numberOfFactors(); i++) {
       factorHulls_[i].assign(gm_, i, variableHulls_, &parameter_.specialParameter_);
    }
-- 
2.43.0


From 9e53fe23cc3217232527300350342abb31b90808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:04 +0000
Subject: [PATCH 132/153] fix: QPBO reads labels that are not computed yet when
 a visitor asks for its value

---
 include/opengm/inference/qpbo.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index c9a993d..642c0db 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -150,6 +150,10 @@ QPBO<GM,MIN_ST_CUT>::arg
    if(n > 1) {
       return UNKNOWN;
    }
+   else if(stateBool_.empty()) { // before inference
+      arg.resize(numVars_, 0);
+      return UNKNOWN;
+   }
    else {
       arg.resize(numVars_);
       for(size_t j=0; j<arg.size(); ++j) {
-- 
2.43.0


From 6cc977a24bc41b05e5463402c7f6a5d1bd5261ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 133/153] fix: extra logs of TimingVisitor are not aligned with
 the recorded visits

---
 .../opengm/inference/visitors/visitors.hxx    | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/include/opengm/inference/visitors/visitors.hxx b/include/opengm/inference/visitors/visitors.hxx
index b5443b1..e016368 100644
--- a/include/opengm/inference/visitors/visitors.hxx
+++ b/include/opengm/inference/visitors/visitors.hxx
@@ -3,6 +3,10 @@
 
 #include <iostream>
 #include <map> 
+#include <vector>
+#include <string>
+#include <limits>
+#include <algorithm>
 #include <cmath>
 #include <opengm/opengm.hxx>
 #include <opengm/utilities/timer.hxx>  
@@ -142,7 +146,8 @@ public:
     memLogging_(memLogging),
     timeLimit_(timeLimit),
     gapLimit_(gapLimit),
-    totalTime_(0.0)
+    totalTime_(0.0),
+    recorded_(false)
   {
     // allocate all protocolated items
     ctime_    = & protocolMap_["ctime"]    ;
@@ -176,6 +181,8 @@ public:
       values_->push_back(val);
       bounds_->push_back(bound);
       iterations_->push_back(double(iteration_));
+      padExtraLogs();
+      recorded_=true;
 
       if( memLogging_>0)
          protocolMap_["mem"].push_back(sys::MemoryInfo::usedPhysicalMemMax()/1000.0);
@@ -196,7 +203,8 @@ public:
 
    size_t operator()(INFERENCE & inf){
 
-      if(iteration_%visithNth_==0){
+      recorded_=(iteration_%visithNth_==0);
+      if(recorded_){
          // stop timer
          timer_.toc();
 
@@ -210,9 +218,7 @@ public:
          bounds_->push_back(bound);
          iterations_->push_back(double(iteration_));
          
-         for(size_t el=0;el<extraLogs_.size();++el){
-            protocolMap_[extraLogs_[el]].push_back(  std::numeric_limits<double>::quiet_NaN() );
-         } 
+         padExtraLogs();
 
          if( memLogging_==1)
             protocolMap_["mem"].push_back(std::numeric_limits<double>::quiet_NaN());
@@ -267,6 +273,8 @@ public:
     values_->push_back(val);
     bounds_->push_back(bound);
     iterations_->push_back(double(iteration_)); 
+    padExtraLogs();
+    recorded_=true;
 
     if( memLogging_>0)
        protocolMap_["mem"].push_back(sys::MemoryInfo::usedPhysicalMemMax()/1000.0);
@@ -280,11 +288,15 @@ public:
 
 
   void addLog(const std::string & logName){
-    protocolMap_[logName]=std::vector<double>();
-    extraLogs_.push_back(logName);
+    if(std::find(extraLogs_.begin(),extraLogs_.end(),logName)==extraLogs_.end()){
+      extraLogs_.push_back(logName);
+      padExtraLogs();
+    }
   }
   void log(const std::string & logName,const double logValue){
-    if((iteration_)%visithNth_==0){
+    // the log belongs to the visit before, if that visit has been recorded
+    if(recorded_){
+      addLog(logName);
       timer_.toc();
       if(verbose_){
         std::cout<<logName<<" "<<logValue<<"\n";
@@ -320,6 +332,13 @@ public:
 
 private:
 
+  // each extra log has one entry for each recorded visit
+  void padExtraLogs(){
+    for(size_t el=0;el<extraLogs_.size();++el){
+      protocolMap_[extraLogs_[el]].resize(times_->size(),std::numeric_limits<double>::quiet_NaN());
+    }
+  }
+
   std::map< std::string, std::vector<double  > >  protocolMap_;
   std::vector<std::string> extraLogs_;
   std::vector<double  > * ctime_;
@@ -338,6 +357,7 @@ private:
   double timeLimit_;
   double gapLimit_;
   double totalTime_;
+  bool recorded_; // whether the last visit has been recorded
 };
 
 template<class INFERENCE>
-- 
2.43.0


From b7d2eb348d92748e3ebead5dad78821cd83df4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 134/153] fix: parameters of solvers do not convert between
 models with different label types

---
 include/opengm/inference/alphaexpansion.hxx       | 8 ++++----
 include/opengm/inference/alphaexpansionfusion.hxx | 8 ++++----
 include/opengm/inference/astar.hxx                | 4 ++--
 include/opengm/inference/lazyflipper.hxx          | 2 +-
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index b358afc..172166c 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -61,12 +61,12 @@ public:
         )
         :   parameter_(p.parameter_),
             maxNumberOfSteps_(p.maxNumberOfSteps_),
-            labelInitialType_(p.labelInitialType_),
-            orderType_(p.orderType_),
+            labelInitialType_(static_cast<LabelingIntitialType>(p.labelInitialType_)),
+            orderType_(static_cast<OrderType>(p.orderType_)),
             randSeedOrder_(p.randSeedOrder_),
             randSeedLabel_(p.randSeedLabel_),
-            labelOrder_(p.labelOrder_),
-            label_(p.label_)
+            labelOrder_(p.labelOrder_.begin(), p.labelOrder_.end()),
+            label_(p.label_.begin(), p.label_.end())
         {}
 
         InferenceParameter parameter_;
diff --git a/include/opengm/inference/alphaexpansionfusion.hxx b/include/opengm/inference/alphaexpansionfusion.hxx
index 4c5686f..d8b8288 100644
--- a/include/opengm/inference/alphaexpansionfusion.hxx
+++ b/include/opengm/inference/alphaexpansionfusion.hxx
@@ -63,12 +63,12 @@ public:
             const P & p
         )
         :   maxNumberOfSteps_(p.maxNumberOfSteps_),
-            labelInitialType_(p.labelInitialType_),
-            orderType_(p.orderType_),
+            labelInitialType_(static_cast<LabelingIntitialType>(p.labelInitialType_)),
+            orderType_(static_cast<OrderType>(p.orderType_)),
             randSeedOrder_(p.randSeedOrder_),
             randSeedLabel_(p.randSeedLabel_),
-            labelOrder_(p.labelOrder_),
-            label_(p.label_)
+            labelOrder_(p.labelOrder_.begin(), p.labelOrder_.end()),
+            label_(p.label_.begin(), p.label_.end())
         {}
 
         size_t maxNumberOfSteps_;
diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 0d23961..d4cb41e 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -111,8 +111,8 @@ namespace opengm {
             numberOfOpt_(p.numberOfOpt_),
             objectiveBound_(p.objectiveBound_),
             heuristic_(p.heuristic_),
-            nodeOrder_(p.nodeOrder_),
-            treeFactorIds_(p.treeFactorIds_){
+            nodeOrder_(p.nodeOrder_.begin(), p.nodeOrder_.end()),
+            treeFactorIds_(p.treeFactorIds_.begin(), p.treeFactorIds_.end()){
         }
 
         /// \brief add tree factor id
diff --git a/include/opengm/inference/lazyflipper.hxx b/include/opengm/inference/lazyflipper.hxx
index 7d95e15..8391cf1 100644
--- a/include/opengm/inference/lazyflipper.hxx
+++ b/include/opengm/inference/lazyflipper.hxx
@@ -167,7 +167,7 @@ public:
          const P & p         
       )
       :  maxSubgraphSize_(p.maxSubgraphSize_),
-         startingPoint_(p.startingPoint_),
+         startingPoint_(p.startingPoint_.begin(), p.startingPoint_.end()),
          inferMultilabel_(p.inferMultilabel_)
       {}
 
-- 
2.43.0


From 5fc6f8bbe4ec17bb5c7437366b5ee26cb0879c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:13 +0000
Subject: [PATCH 135/153] fix: SelfFusion ignores the request of a visitor to
 stop at the beginning

---
 include/opengm/inference/self_fusion.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opengm/inference/self_fusion.hxx b/include/opengm/inference/self_fusion.hxx
index 5e6a051..87ad89a 100644
--- a/include/opengm/inference/self_fusion.hxx
+++ b/include/opengm/inference/self_fusion.hxx
@@ -109,6 +109,10 @@ struct FusionVisitor{
 
     size_t fuseVisit(INF & inference){
 
+        // the visitor has already asked to stop
+        if(returnFlag_!=visitors::VisitorReturnFlag::ContinueInf)
+            return returnFlag_;
+
         const typename SelfFusionType::Parameter & param = selfFusion_.parameter();
 
         ValueType oldValue = value_;
-- 
2.43.0


From 59360323d28abb365a982c281bd6a97779b8b1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 136/153] fix: MonotoneChainsDecomposition reads variables of
 constant factors

---
 include/opengm/inference/trws/trws_decomposition.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/trws/trws_decomposition.hxx b/include/opengm/inference/trws/trws_decomposition.hxx
index 90d9933..8117640 100644
--- a/include/opengm/inference/trws/trws_decomposition.hxx
+++ b/include/opengm/inference/trws/trws_decomposition.hxx
@@ -319,8 +319,8 @@ void Decomposition<GM>::_CreateNodeList(const GM & gm,NodeList* pnodeList)
 	varList.resize(gm.numberOfVariables());
 	for (IndexType factorId=0;factorId<gm.numberOfFactors();++factorId)
 	{
-		if (gm[factorId].numberOfVariables()>2)
-			throw std::runtime_error("CreateEdgeList(): Only factors up to order 2 are supported!");
+		if ((gm[factorId].numberOfVariables()>2) || (gm[factorId].numberOfVariables()==0))
+			throw std::runtime_error("CreateEdgeList(): Only factors of order 1 or 2 are supported!");
 
 		if (gm[factorId].numberOfVariables()==1) continue;
 		std::vector<IndexType> varIndices(gm[factorId].variableIndicesBegin(),gm[factorId].variableIndicesEnd());
-- 
2.43.0


From 1d45eb84cce6d44ff2ac394692d11d2e94426174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 137/153] fix: EdgeDecomposition leaves out variables without
 pairwise factors

---
 include/opengm/inference/trws/trws_decomposition.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/trws/trws_decomposition.hxx b/include/opengm/inference/trws/trws_decomposition.hxx
index 8117640..7a7b8eb 100644
--- a/include/opengm/inference/trws/trws_decomposition.hxx
+++ b/include/opengm/inference/trws/trws_decomposition.hxx
@@ -150,6 +150,7 @@ public:
 			parent::_pwFactorLists[pwFid][0]=fId;
 			++pwFid;
 		}
+		parent::CheckForIsolatedNodes(gm);
 	}
 };
 
-- 
2.43.0


From 42390e2a17bb77cca437d59efa43a6f868f8942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 138/153] fix: GridDecomposition accepts models that are not
 grids and reads factors that do not exist

---
 include/opengm/inference/trws/trws_decomposition.hxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/trws/trws_decomposition.hxx b/include/opengm/inference/trws/trws_decomposition.hxx
index 7a7b8eb..d577253 100644
--- a/include/opengm/inference/trws/trws_decomposition.hxx
+++ b/include/opengm/inference/trws/trws_decomposition.hxx
@@ -220,6 +220,7 @@ template<class GM>
 GridDecomposition<GM>::GridDecomposition(const GM& gm,IndexType numSubModels)
 :parent(gm,numSubModels)
  {
+	parent::CheckUnaryFactors(gm);
 	//estimate xsize and ysize
 	_computeGridSizes();
 	parent::_numberOfModels=_xsize+_ysize;
@@ -238,7 +239,8 @@ void GridDecomposition<GM>::_computeGridSizes()
 {
 	IndexType numberOfVars=parent::_gm.numberOfVariables();
 	IndexType numTotal=parent::_gm.numberOfFactors();
-	std::vector<IndexType> ind;
+	_xsize=numberOfVars;
+	_ysize=1;
 	for (IndexType f=numberOfVars;f<numTotal;++f)
 	{
 		std::vector<IndexType> ind(parent::_gm[f].numberOfVariables());
@@ -269,7 +271,10 @@ void GridDecomposition<GM>::_computeGridSizes()
 template<class GM>
 void GridDecomposition<GM>::_CheckGridModel()
 {
-	bool incorrect=false;
+	//check the number of factors
+	bool incorrect=(parent::_gm.numberOfFactors()+_xsize+_ysize!=3*_xysize());
+	if (incorrect)
+		throw std::runtime_error("GridDecomposition::_CheckGridModel():Incorrect grid structure!");
 	//check vertical structure
 	for (IndexType y=0;y<_ysize;++y)
 	 for (IndexType x=0;x<_xsize;++x)
-- 
2.43.0


From 1cc634d51fc6a532b9214c17c674a59f75f91b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 139/153] fix: NesterovAcceleratedGradient does not end the
 visit when the first bound is tight

---
 include/opengm/inference/trws/smooth_nesterov.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/trws/smooth_nesterov.hxx b/include/opengm/inference/trws/smooth_nesterov.hxx
index b135cf6..d154557 100644
--- a/include/opengm/inference/trws/smooth_nesterov.hxx
+++ b/include/opengm/inference/trws/smooth_nesterov.hxx
@@ -293,6 +293,7 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 		parent::_fout << "NesterovAcceleratedGradient::_CheckStoppingCondition(): Precision attained! Problem solved!"<<std::endl;
 	#endif
 
+		 visitor.end();
 		 return NORMAL;
 	}
 
-- 
2.43.0


From 1a9e348a08e12363d0b583cd80d0c9536936341b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 140/153] fix: NesterovAcceleratedGradient with fixed steps
 goes in the wrong direction for maximization

---
 include/opengm/inference/trws/smooth_nesterov.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/trws/smooth_nesterov.hxx b/include/opengm/inference/trws/smooth_nesterov.hxx
index d154557..e0fdf95 100644
--- a/include/opengm/inference/trws/smooth_nesterov.hxx
+++ b/include/opengm/inference/trws/smooth_nesterov.hxx
@@ -326,7 +326,8 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 //===================== begin of internal loop ===========================================
 		for (size_t j=0;j<_parameters.numberOfInternalIterations();++j)
 		{
-		ValueType mul=1.0;
+		ValueType mul;
+		ACC::iop(-1.0,1.0,mul);//!> plus/minus depending on ACC
 
 		counter+=2; ValueType oldObjVal=_evaluateGradient(y,&gradient);
 #ifdef TRWS_DEBUG_OUTPUT
@@ -345,7 +346,6 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 		do
 		{
     		omega*=2.0;
-			ACC::iop(-1.0,1.0,mul);
 			_GradientStep(gradient,y,lambda,mul/omega);//!>lambda=y+gradient/omega; plus/minus depending on ACC
 
 			//newObjVal=_evaluateSmoothObjective(lambda,((j+1)==_parameters.numberOfInternalIterations()));
-- 
2.43.0


From a3109db9590f89fea421d7fdebb732f0ea67facc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:24 +0000
Subject: [PATCH 141/153] fix: dual decomposition divides by the norm of a
 vanishing sub-gradient

---
 .../inference/dualdecomposition/dualdecomposition_base.hxx     | 2 ++
 .../dualdecomposition/dualdecomposition_subgradient.hxx        | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/dualdecomposition/dualdecomposition_base.hxx b/include/opengm/inference/dualdecomposition/dualdecomposition_base.hxx
index 9e0aeb9..84463a2 100644
--- a/include/opengm/inference/dualdecomposition/dualdecomposition_base.hxx
+++ b/include/opengm/inference/dualdecomposition/dualdecomposition_base.hxx
@@ -81,6 +81,8 @@ namespace opengm {
 
       double getStepsize(size_t iteration, double primalDualGap, double subgradientNorm){
          OPENGM_ASSERT(iteration>=0);
+         if(subgradientNorm == 0.0) // sub-models agree
+            return 0.0;
          double stepsize = stepsizeStride_;
          if(stepsizePrimalDualGapStride_){ 
             stepsize *= fabs(primalDualGap) / subgradientNorm / subgradientNorm;
diff --git a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
index ae3247d..5fd600a 100644
--- a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
+++ b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
@@ -214,7 +214,8 @@ namespace opengm {
          }
          else if(para_.useProjectedAdaptiveStepsize_){
             double subgradientNorm = euclideanProjectedSubGradientNorm();
-            stepsize = para_.stepsizeStride_ * fabs(acUpperBound_.value() - lowerBound_) 
+            stepsize = subgradientNorm == 0.0 ? 0.0 // sub-models agree
+                       : para_.stepsizeStride_ * fabs(acUpperBound_.value() - lowerBound_) 
                        /subgradientNorm/subgradientNorm;
          }
          else{
-- 
2.43.0


From c999af4bbea609b8acf30b2fcd1c1e977dad1914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 142/153] fix: DualDecompositionSubGradient accesses empty
 memory for models without dual variables

---
 .../dualdecomposition/dualdecomposition_subgradient.hxx         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
index 5fd600a..c90ab39 100644
--- a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
+++ b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
@@ -149,7 +149,7 @@ namespace opengm {
       else 
          mem_.resize(1,0.0);
       //std::cout << mem_.size() <<std::flush;
-      ValueType *data = &mem_[0];
+      ValueType *data = mem_.empty() ? 0 : &mem_[0];
       for(typename std::vector<DualBlockType>::iterator it=dualBlocks_.begin(); it!=dualBlocks_.end(); ++it){
          for(size_t i=0; i<(*it).duals_.size(); ++i){
             DualVariableType& dv = (*it).duals_[i];
-- 
2.43.0


From decde1d6026d49aa97ce36b12c423baf59b1d2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 143/153] fix: assertion on the duality gap fails for tight
 bounds that are not positive

---
 include/opengm/inference/trws/trws_base.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/trws_base.hxx b/include/opengm/inference/trws/trws_base.hxx
index facdcba..c801de4 100644
--- a/include/opengm/inference/trws/trws_base.hxx
+++ b/include/opengm/inference/trws/trws_base.hxx
@@ -582,7 +582,8 @@ void TRWSPrototype<SubSolver>::_InitSubSolvers()
 template <class SubSolver>
 bool TRWSPrototype<SubSolver>::CheckDualityGap(ValueType primalBound,ValueType dualBound)
 {
-	OPENGM_ASSERT((ACC::bop(-1,1) ? 1 : -1 )*(primalBound-dualBound) >  -dualBound*std::numeric_limits<ValueType>::epsilon());
+	//the primal bound may only be better than the dual one by rounding errors
+	OPENGM_ASSERT((ACC::bop(-1,1) ? 1 : -1 )*(primalBound-dualBound) >= -sqrt(std::numeric_limits<ValueType>::epsilon())*std::max((ValueType)1.0,(ValueType)fabs(dualBound)));
 
 //	_fout << "(ACC::bop(-1,1) ? 1 : -1 )*(primalBound-dualBound)=" << (ACC::bop(-1,1) ? 1 : -1 )*(primalBound-dualBound)
 //			<< ", -dualBound*std::numeric_limits<ValueType>::epsilon()=" << -dualBound*std::numeric_limits<ValueType>::epsilon()<<std::endl;
-- 
2.43.0


From be34f94c9ecf4b5b7fa6d4b4e0e973d6e64d3288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:13 +0000
Subject: [PATCH 144/153] fix: uai2opengm must not loop forever on factors
 without variables

---
 src/converter/uai2opengm.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/converter/uai2opengm.cxx b/src/converter/uai2opengm.cxx
index e828e58..a577cf0 100644
--- a/src/converter/uai2opengm.cxx
+++ b/src/converter/uai2opengm.cxx
@@ -283,6 +283,10 @@ template <class T, class U, class V>
 void ind2sub(T& sub, const U ind, const V& sizes) {
    sub.clear();
    sub.reserve(sizes.size());
+   if(sizes.size() == 0) {
+      // scalar: no subscripts
+      return;
+   }
    U remainingInd = ind;
    for(size_t i = 0; i < sizes.size() - 1; i++) {
       size_t numSubentries = 1;
-- 
2.43.0


From d520e9d64ade85b2939f71f003cb2842ce06955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:13 +0000
Subject: [PATCH 145/153] fix: opengm2wudag must not write an edge for a
 constant factor

---
 src/converter/opengm2wudag.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/converter/opengm2wudag.cxx b/src/converter/opengm2wudag.cxx
index 9a03979..05269b5 100644
--- a/src/converter/opengm2wudag.cxx
+++ b/src/converter/opengm2wudag.cxx
@@ -50,6 +50,7 @@ main(int argc, const char* argv[] ) {
 
    //check model and calculate constant
    ValueType constValue = 0;
+   IndexType numberOfEdges = 0;
    for(IndexType f=0; f<gm.numberOfFactors();++f){
       if(gm[f].numberOfVariables() == 0){
          LabelType l0 =0;
@@ -57,6 +58,7 @@ main(int argc, const char* argv[] ) {
       }
       else if(gm[f].numberOfVariables() == 2){
          constValue += gm[f](l00);
+         ++numberOfEdges;
       }
       else{
          std::cout << "ERROR: Unsupported factor order !!!" << std::endl;
@@ -66,8 +68,11 @@ main(int argc, const char* argv[] ) {
    
    std::ofstream outputFile;
    outputFile.open(outfile.c_str());
-   outputFile << "  "<< gm.numberOfVariables() << " " << gm.numberOfFactors() << " "<< std::setprecision(20) << constValue << std::endl;
+   outputFile << "  "<< gm.numberOfVariables() << " " << numberOfEdges << " "<< std::setprecision(20) << constValue << std::endl;
    for(IndexType f=0; f<gm.numberOfFactors();++f){
+      if(gm[f].numberOfVariables() == 0) {
+         continue;
+      }
       IndexType vars[] = {0,0};
       vars[0] = gm[f].variableIndex(0);
       vars[1] = gm[f].variableIndex(1);
-- 
2.43.0


From 88b416970fbbc761f59db0193071bce86d20c82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:13 +0000
Subject: [PATCH 146/153] fix: matching2opengm-N2N must not process the last
 line twice

---
 src/converter/matching2opengm-N2N.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/converter/matching2opengm-N2N.cxx b/src/converter/matching2opengm-N2N.cxx
index 9e6b9f0..fc6477a 100644
--- a/src/converter/matching2opengm-N2N.cxx
+++ b/src/converter/matching2opengm-N2N.cxx
@@ -86,8 +86,7 @@ int main(int argc, const char* argv[] ) {
 
    size_t countA =0; 
    size_t countE =0;
-   while(!mymatchingfile.eof()) {
-      mymatchingfile >> command;
+   while(mymatchingfile >> command) {
       if(command =='a'){++countA;
          size_t aID, pL, pR;
          ValueType v;
-- 
2.43.0


From 827052cac21a0129cc61120021e7cf29e6f9d447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:13 +0000
Subject: [PATCH 147/153] fix: matching2opengm must not process the last line
 twice

---
 src/converter/matching2opengm.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/converter/matching2opengm.cxx b/src/converter/matching2opengm.cxx
index 64bc2b5..de61b0d 100644
--- a/src/converter/matching2opengm.cxx
+++ b/src/converter/matching2opengm.cxx
@@ -98,8 +98,7 @@ int main(int argc, const char* argv[] ) {
    std::vector<std::vector<size_t> > labels;
 
 
-   while(!mymatchingfile.eof()) {
-      mymatchingfile >> command;
+   while(mymatchingfile >> command) {
       if(command =='a'){
          ++countA;
          int aID, pL, pR;
-- 
2.43.0


From 7752112c0c21d65f22580c62841a36b2e2a5638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 148/153] fix: matching2opengm must allocate the pairwise term
 that an edge is written to

---
 src/converter/matching2opengm.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/converter/matching2opengm.cxx b/src/converter/matching2opengm.cxx
index de61b0d..adebb3a 100644
--- a/src/converter/matching2opengm.cxx
+++ b/src/converter/matching2opengm.cxx
@@ -294,7 +294,10 @@ int main(int argc, const char* argv[] ) {
    }
    for(size_t i=0; i<edges.size(); ++i){
       //std::cout << assignmentsVar[edges[i].first].first << " " << assignmentsVar[edges[i].second].first <<std::endl;
-      Adj[assignmentsVar[edges[i].first].first][assignmentsVar[edges[i].second].first] = 1;
+      const size_t var1 = assignmentsVar[edges[i].first].first;
+      const size_t var2 = assignmentsVar[edges[i].second].first;
+      // pairwise terms are stored with the smaller variable first
+      Adj[std::min(var1, var2)][std::max(var1, var2)] = 1;
    }
 
    for(size_t i=0; i<countKeyLeft; ++i)
-- 
2.43.0


From 7e7494009fb87ea3f90f000a4d2acbd67a6c2981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:01 +0000
Subject: [PATCH 149/153] fix: the fusion caller must use the lazy flipper when
 asked for it

---
 src/interfaces/common/caller/fusion_caller.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaces/common/caller/fusion_caller.hxx b/src/interfaces/common/caller/fusion_caller.hxx
index 353b3b3..55134a5 100644
--- a/src/interfaces/common/caller/fusion_caller.hxx
+++ b/src/interfaces/common/caller/fusion_caller.hxx
@@ -91,7 +91,7 @@ inline void FusionCaller<IO, GM, ACC>::setParam(
    if(selectedFusionType_=="QPBO") 
       param.fusionParam_.fusionSolver_ = INF::FusionMover::QpboFusion;
    if(selectedFusionType_=="LF")   
-      param.fusionParam_.fusionSolver_ = INF::FusionMover::QpboFusion;
+      param.fusionParam_.fusionSolver_ = INF::FusionMover::LazyFlipperFusion;
    if(selectedFusionType_=="ILP")  
       param.fusionParam_.fusionSolver_ = INF::FusionMover::CplexFuison;
 
-- 
2.43.0


From 47cf2fe0dc25ebea7bd88bffdd3efe066a5a1f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:01 +0000
Subject: [PATCH 150/153] fix: the fusion caller must run the random proposal
 generator when asked for it

---
 src/interfaces/common/caller/fusion_caller.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaces/common/caller/fusion_caller.hxx b/src/interfaces/common/caller/fusion_caller.hxx
index 55134a5..e3ed1d4 100644
--- a/src/interfaces/common/caller/fusion_caller.hxx
+++ b/src/interfaces/common/caller/fusion_caller.hxx
@@ -144,7 +144,7 @@ inline void FusionCaller<IO, GM, ACC>::runImpl(GM& model, OutputBase& output, co
       setParam<INF>(para);
       this-> template infer<INF, typename INF::TimingVisitorType, typename INF::Parameter>(model, output, verbose, para);
    }
-   else if(selectedGenType_=="RADOM"){
+   else if(selectedGenType_=="RANDOM"){
       typedef RGen Gen;
       typedef opengm::FusionBasedInf<GM, Gen> INF;
       typename INF::Parameter para;
-- 
2.43.0


From 91783813f07eadd41d61958581700fd3c1fae61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:58 +0000
Subject: [PATCH 151/153] fix: AlphaExpansion stopped at labelings that an
 expansion could improve after moves without gain

---
 include/opengm/inference/alphaexpansion.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index 172166c..414e150 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -310,6 +310,7 @@ AlphaExpansion<GM, INF>::infer
       std::vector<size_t> numFacDim(4, 0);
       INF inf(numberOfVariables, numFacDim, parameter_.parameter_);
       size_t countAlphas = 0;
+      std::vector<LabelType> previousLabel(label_);
       for (size_t k=0 ; k<gm_.numberOfVariables(); ++k) {
          if (label_[k] == alpha_ ) {
             addUnary(inf, k, 0, std::numeric_limits<ValueType>::infinity());
@@ -372,6 +373,7 @@ AlphaExpansion<GM, INF>::infer
          countUnchanged = 0;
       }
       else{
+         label_ = previousLabel; // expansions that have been tried before refer to this labeling
          ++countUnchanged;
       }
       incrementAlpha();
-- 
2.43.0


From 43033825ae5313b8290f35566a235be2e3e185a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:58 +0000
Subject: [PATCH 152/153] fix: messages and marginals of many neighbors were
 not normalized because their total is small

---
 .../messagepassing/messagepassing_operations_withFunctors.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/messagepassing/messagepassing_operations_withFunctors.hxx b/include/opengm/inference/messagepassing/messagepassing_operations_withFunctors.hxx
index b6a500b..adc2952 100644
--- a/include/opengm/inference/messagepassing/messagepassing_operations_withFunctors.hxx
+++ b/include/opengm/inference/messagepassing/messagepassing_operations_withFunctors.hxx
@@ -32,10 +32,10 @@ namespace opengm {
          for(size_t n=0; n<out.size(); ++n)
             ACC::op(out(n),v);
          
-         if( opengm::meta::Compare<OP,opengm::Multiplier>::value && v <= 0.00001)
+         if( opengm::meta::Compare<OP,opengm::Multiplier>::value && v <= 0)
             return;
          if(opengm::meta::Compare<OP,opengm::Multiplier>::value)
-            OPENGM_ASSERT(v > 0.00001); // ??? this should be checked in released code   
+            OPENGM_ASSERT(v > 0); // ??? this should be checked in released code   
          for(size_t n=0; n<out.size();++n ) {
             OP::iop(v,out(n));      
          }
-- 
2.43.0


From fda720d97bc63d5ec0724d4c2f3df8576968e847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:21 +0000
Subject: [PATCH 153/153] fix: factors with small values were not normalized

---
 include/opengm/operations/normalize.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/operations/normalize.hxx b/include/opengm/operations/normalize.hxx
index 50216cf..1258dd0 100644
--- a/include/opengm/operations/normalize.hxx
+++ b/include/opengm/operations/normalize.hxx
@@ -16,11 +16,11 @@ struct Normalization {
    static void normalize(T& out) {
       typename T::ValueType v;
       out.template accumulate<ACC>(v);
-      if(typeid(OP) == typeid(opengm::Multiplier) && v <= 0.00001) {
+      if(typeid(OP) == typeid(opengm::Multiplier) && v <= 0) {
          return;
       }
       if(typeid(OP) == typeid(opengm::Multiplier)) {
-         OPENGM_ASSERT(v > 0.00001); 
+         OPENGM_ASSERT(v > 0); 
       }
       OP::iop(v,out);
    }
-- 
2.43.0

