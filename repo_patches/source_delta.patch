From 9b7c305094efc7918f3c693266c3d0cc43e612e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:59 +0000
Subject: [PATCH 01/30] fix: evaluate the tape at the independents before a
 dense Jacobian with an explicit AD mode

---
 include/cppad/cg/model/model_c_source_gen_jac.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cppad/cg/model/model_c_source_gen_jac.hpp b/include/cppad/cg/model/model_c_source_gen_jac.hpp
index d6f5085..417b09f 100644
--- a/include/cppad/cg/model/model_c_source_gen_jac.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_jac.hpp
@@ -43,10 +43,14 @@ void ModelCSourceGen<Base>::generateJacobianSource() {
     vector<CGBase> jac(n * m);
     if (_jacMode == JacobianADMode::Automatic) {
         jac = _fun.Jacobian(indVars);
-    } else if (_jacMode == JacobianADMode::Forward) {
-        JacobianFor(_fun, indVars, jac);
     } else {
-        JacobianRev(_fun, indVars, jac);
+        // the first-order sweeps use the zero-order coefficients stored in the tape
+        _fun.Forward(0, indVars);
+        if (_jacMode == JacobianADMode::Forward) {
+            JacobianFor(_fun, indVars, jac);
+        } else {
+            JacobianRev(_fun, indVars, jac);
+        }
     }
 
     finishedJob();
-- 
2.43.0


From cd0a09acfedbc2632b0cf1d686706261b5b93394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:59 +0000
Subject: [PATCH 02/30] fix: requested Jacobian/Hessian elements outside the
 sparsity pattern got values of other elements

---
 .../cppad/cg/model/model_c_source_gen_hes.hpp    | 16 ++++++++++++++++
 .../cppad/cg/model/model_c_source_gen_jac.hpp    |  6 ++++++
 2 files changed, 22 insertions(+)

diff --git a/include/cppad/cg/model/model_c_source_gen_hes.hpp b/include/cppad/cg/model/model_c_source_gen_hes.hpp
index 282ed78..b8aad19 100644
--- a/include/cppad/cg/model/model_c_source_gen_hes.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_hes.hpp
@@ -656,6 +656,22 @@ void ModelCSourceGen<Base>::determineHessianSparsity() {
     } else {
         _hessSparsity.rows = _custom_hess.row;
         _hessSparsity.cols = _custom_hess.col;
+
+        // requested elements which are always zero must also be considered by
+        // the coloring, otherwise they would get the value of other elements
+        std::vector<size_t> zeroElements;
+        for (size_t e = 0; e < _hessSparsity.rows.size(); e++) {
+            size_t i = _hessSparsity.rows[e];
+            size_t j = _hessSparsity.cols[e];
+            if (_hessSparsity.sparsity[i].find(j) == _hessSparsity.sparsity[i].end() &&
+                    _hessSparsity.sparsity[j].find(i) == _hessSparsity.sparsity[j].end()) {
+                zeroElements.push_back(e);
+            }
+        }
+        for (size_t e : zeroElements) {
+            _hessSparsity.sparsity[_hessSparsity.rows[e]].insert(_hessSparsity.cols[e]);
+            _hessSparsity.sparsity[_hessSparsity.cols[e]].insert(_hessSparsity.rows[e]);
+        }
     }
 }
 
diff --git a/include/cppad/cg/model/model_c_source_gen_jac.hpp b/include/cppad/cg/model/model_c_source_gen_jac.hpp
index 417b09f..63ff8aa 100644
--- a/include/cppad/cg/model/model_c_source_gen_jac.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_jac.hpp
@@ -478,6 +478,12 @@ void ModelCSourceGen<Base>::determineJacobianSparsity() {
     } else {
         _jacSparsity.rows = _custom_jac.row;
         _jacSparsity.cols = _custom_jac.col;
+
+        // requested elements which are always zero must also be considered by
+        // the coloring, otherwise they would get the value of other elements
+        for (size_t e = 0; e < _jacSparsity.rows.size(); e++) {
+            _jacSparsity.sparsity[_jacSparsity.rows[e]].insert(_jacSparsity.cols[e]);
+        }
     }
 }
 
-- 
2.43.0


From 67cd8daa7ff24038235cf39a41d48d35f2ad3698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:35 +0000
Subject: [PATCH 03/30] fix: sparse forward one/reverse one/reverse two failed
 for variables without any element

---
 include/cppad/cg/model/functor_generic_model.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index c645685..a8cf92a 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -489,6 +489,8 @@ public:
         for (size_t ej = 0; ej < tx1Nnz; ej++) {
             size_t j = idx[ej];
             (*_forwardOneSparsity)(j, &pos, &nnz);
+            if (nnz == 0)
+                continue; // no elements and no function to evaluate
 
             _inHess[1] = &tx1[ej];
             int ret = (*_sparseForwardOne)(j, &_inHess[0], &_out[0], _atomicFuncArg);
@@ -555,6 +557,8 @@ public:
         for (size_t ei = 0; ei < pyNnz; ei++) {
             size_t i = idx[ei];
             (*_reverseOneSparsity)(i, &pos, &nnz);
+            if (nnz == 0)
+                continue; // no elements and no function to evaluate
 
             _inHess[1] = &py[ei];
             int ret = (*_sparseReverseOne)(i, &_inHess[0], &_out[0], _atomicFuncArg);
@@ -627,6 +631,8 @@ public:
         for (size_t ej = 0; ej < tx1Nnz; ej++) {
             size_t j = idx[ej];
             (*_reverseTwoSparsity)(j, &pos, &nnz);
+            if (nnz == 0)
+                continue; // no elements and no function to evaluate
 
             in[1] = &tx1[ej];
             int ret = (*_sparseReverseTwo)(j, &in[0], &_out[0], _atomicFuncArg);
-- 
2.43.0


From dc558baea40fa0113a76d9f8b40fab12868fe557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:42 +0000
Subject: [PATCH 04/30] fix: out-of-bounds read of the custom independent
 variable names

---
 include/cppad/cg/lang/c/lang_c_custom_var_name_gen.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cppad/cg/lang/c/lang_c_custom_var_name_gen.hpp b/include/cppad/cg/lang/c/lang_c_custom_var_name_gen.hpp
index 625a7ec..bf14591 100644
--- a/include/cppad/cg/lang/c/lang_c_custom_var_name_gen.hpp
+++ b/include/cppad/cg/lang/c/lang_c_custom_var_name_gen.hpp
@@ -71,8 +71,8 @@ public:
         size_t index1 = idFirst - 1;
         size_t index2 = idSecond - 1;
 
-        if ((index1 > indepNames_.size() || indepNames_[index1].empty()) &&
-                (index2 > indepNames_.size() || indepNames_[index2].empty())) {
+        if ((index1 >= indepNames_.size() || indepNames_[index1].empty()) &&
+                (index2 >= indepNames_.size() || indepNames_[index2].empty())) {
             return index1 + 1 == index2;
         } else {
             return false; // individual names used (not elements of arrays)
@@ -86,8 +86,8 @@ public:
         size_t index1 = id1 - 1;
         size_t index2 = id2 - 1;
 
-        return (index1 > indepNames_.size() || indepNames_[index1].empty()) &&
-                (index2 > indepNames_.size() || indepNames_[index2].empty());
+        return (index1 >= indepNames_.size() || indepNames_[index1].empty()) &&
+                (index2 >= indepNames_.size() || indepNames_[index2].empty());
     }
 
 };
-- 
2.43.0


From 820a5b641a899d4e05199f2baa7f657d6f1ea3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:56 +0000
Subject: [PATCH 05/30] fix: nodes kept the variable name of a previous source
 generation

---
 include/cppad/cg/lang/c/language_c.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index 11ee40d..f27c309 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -711,9 +711,14 @@ protected:
         }
 
         // generate names for the dependent variables (must be after naming independents)
+        // names must always be created since the nodes might have been used before with a different name/id
+        std::set<const Node*> namedDependents;
         for (size_t i = 0; i < dependent.size(); i++) {
             Node* node = dependent[i].getOperationNode();
-            if (node != nullptr && node->getOperationType() != CGOpCode::LoopEnd && node->getName() == nullptr) {
+            if (node != nullptr &&
+                    node->getOperationType() != CGOpCode::LoopEnd &&
+                    node->getOperationType() != CGOpCode::Inv &&
+                    namedDependents.insert(node).second) { // the first dependent defines the name
                 if (node->getOperationType() == CGOpCode::LoopIndexedDep) {
                     size_t pos = node->getInfo()[0];
                     const IndexPattern* ip = _info->loopDependentIndexPatterns[pos];
@@ -801,6 +806,8 @@ protected:
                         node->setName(_nameGen->generateTemporaryArray(*node, getVariableID(*node)));
                     } else if (op == CGOpCode::SparseArrayCreation) {
                         node->setName(_nameGen->generateTemporarySparseArray(*node, getVariableID(*node)));
+                    } else if (getVariableID(*node) > _independentSize) {
+                        node->clearName(); // a new one is created if it is required
                     }
                 }
             }
-- 
2.43.0


From 567fb8a48c48b3136b0563edc32480503162111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 06/30] fix: compound assignments and pow() accepted operands
 of different code handlers

---
 include/cppad/cg/arithmetic_assign.hpp | 12 ++++--------
 include/cppad/cg/math_other.hpp        |  6 ++----
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/include/cppad/cg/arithmetic_assign.hpp b/include/cppad/cg/arithmetic_assign.hpp
index 78f5a77..0eec249 100644
--- a/include/cppad/cg/arithmetic_assign.hpp
+++ b/include/cppad/cg/arithmetic_assign.hpp
@@ -41,8 +41,7 @@ inline CG<Base>& CG<Base>::operator+=(const CG<Base> &right) {
             handler = node_->getCodeHandler();
 
         } else { // both left and right hand sides are variables
-            CPPADCG_ASSERT_UNKNOWN(node_->getCodeHandler() == right.node_->getCodeHandler());
-            handler = node_->getCodeHandler();
+            handler = getHandler(*this, right);
         }
 
         std::unique_ptr<Base> value;
@@ -74,8 +73,7 @@ inline CG<Base>& CG<Base>::operator-=(const CG<Base> &right) {
             handler = node_->getCodeHandler();
 
         } else { // both left and right hand sides are variables
-            CPPADCG_ASSERT_UNKNOWN(node_->getCodeHandler() == right.node_->getCodeHandler());
-            handler = node_->getCodeHandler();
+            handler = getHandler(*this, right);
         }
 
         std::unique_ptr<Base> value;
@@ -117,8 +115,7 @@ inline CG<Base>& CG<Base>::operator*=(const CG<Base> &right) {
             handler = node_->getCodeHandler();
 
         } else {  // both left and right hand sides are variables
-            CPPADCG_ASSERT_UNKNOWN(node_->getCodeHandler() == right.node_->getCodeHandler());
-            handler = node_->getCodeHandler();
+            handler = getHandler(*this, right);
         }
 
         std::unique_ptr<Base> value;
@@ -154,8 +151,7 @@ inline CG<Base>& CG<Base>::operator/=(const CG<Base> &right) {
             handler = node_->getCodeHandler();
 
         } else {  // both left and right hand sides are variables
-            CPPADCG_ASSERT_UNKNOWN(node_->getCodeHandler() == right.node_->getCodeHandler());
-            handler = node_->getCodeHandler();
+            handler = getHandler(*this, right);
         }
 
         std::unique_ptr<Base> value;
diff --git a/include/cppad/cg/math_other.hpp b/include/cppad/cg/math_other.hpp
index 6c9d90c..a6603b8 100644
--- a/include/cppad/cg/math_other.hpp
+++ b/include/cppad/cg/math_other.hpp
@@ -26,18 +26,16 @@ inline CppAD::cg::CG<Base> pow(const CppAD::cg::CG<Base>& x,
         return CG<Base> (pow(x.getValue(), y.getValue()));
     }
 
-    CodeHandler<Base>* handler;
     if (y.isParameter()) {
         if (y.isIdenticalZero()) {
             return CG<Base> (Base(1.0)); // does not consider that x could be infinity
         } else if (y.isIdenticalOne()) {
             return CG<Base> (x);
         }
-        handler = x.getCodeHandler();
-    } else {
-        handler = y.getCodeHandler();
     }
 
+    CodeHandler<Base>* handler = getHandler(x, y);
+
     CG<Base> result(*handler->makeNode(CGOpCode::Pow,{x.argument(), y.argument()}));
     if (x.isValueDefined() && y.isValueDefined()) {
         result.setValue(pow(x.getValue(), y.getValue()));
-- 
2.43.0


From d4154205bf6a2a69fcf440bd82e9f92514b75d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:23 +0000
Subject: [PATCH 07/30] fix: wrong sign of the coefficient of a subtrahend when
 collecting a variable

---
 include/cppad/cg/collect_variable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/collect_variable.hpp b/include/cppad/cg/collect_variable.hpp
index e4d6953..e4bc462 100644
--- a/include/cppad/cg/collect_variable.hpp
+++ b/include/cppad/cg/collect_variable.hpp
@@ -164,7 +164,7 @@ inline CG<Base> CodeHandler<Base>::collectVariableAddSub(const SourceCodePath& p
                 continue;
 
             } else if (op == CGOpCode::Sub) {
-                if (p[i - 1].argIndex == 1)
+                if (p[i].argIndex == 1)
                     c = -c;
                 else
                     continue;
-- 
2.43.0


From 1367ba61cc493dcfc607a761eba94be47b74ffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 08/30] fix: constant array elements assigned in a loop lost
 digits

---
 include/cppad/cg/lang/c/language_c_arrays.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/lang/c/language_c_arrays.hpp b/include/cppad/cg/lang/c/language_c_arrays.hpp
index 0147a91..b1bbf9e 100644
--- a/include/cppad/cg/lang/c/language_c_arrays.hpp
+++ b/include/cppad/cg/lang/c/language_c_arrays.hpp
@@ -278,7 +278,7 @@ inline size_t LanguageC<Base>::printArrayCreationUsingLoop(size_t startPos,
         if (i - starti < 3)
             return starti;
 
-        arrayAssign << value;
+        writeParameter(value, arrayAssign);
     }
 
     /**
-- 
2.43.0


From 3a51ab8b6b72e652cfe8194ad560306202ab9780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 09/30] fix: zeros wrongly assumed in the second-order reverse
 mode of atomic functions

---
 include/cppad/cg/abstract_atomic_fun.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/abstract_atomic_fun.hpp b/include/cppad/cg/abstract_atomic_fun.hpp
index 4928e99..5c4c948 100644
--- a/include/cppad/cg/abstract_atomic_fun.hpp
+++ b/include/cppad/cg/abstract_atomic_fun.hpp
@@ -275,7 +275,7 @@ public:
 
         vector<std::set<size_t> > rt(m);
         for (size_t i = 0; i < m; i++) {
-            if (!py[i * p1].isIdenticalZero()) {
+            if (!py[i * p1 + p].isIdenticalZero()) {
                 rt[i].insert(0);
             }
         }
@@ -314,7 +314,10 @@ public:
                 }
             }
             for (size_t i = 0; i < m; i++) {
-                s[i] = !py[i * p1 + 1].isIdenticalZero();
+                s[i] = !py[i * p1 + p].isIdenticalZero();
+                if (!py[i * p1 + p - 1].isIdenticalZero()) {
+                    u[i].insert(0);
+                }
             }
 
             this->rev_sparse_hes(vx, s, t, 1, r, u, v, x);
-- 
2.43.0


From e66d4af74febdb69dbb5723c29ebfb514514af27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 10/30] fix: results of sparse forward/reverse passes shared
 memory with the atomic function calls

---
 include/cppad/cg/model/functor_generic_model.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index a8cf92a..91a3bc4 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -49,6 +49,8 @@ protected:
     std::vector<ExternalFunctionWrapper<Base>* > _atomic;
     size_t _missingAtomicFunctions;
     CppAD::vector<Base> _tx, _ty, _px, _py;
+    // results of sparse forward/reverse (must not be used while evaluating atomic functions)
+    CppAD::vector<Base> _compressed;
     // original model function
     void (*_zero)(Base const*const*, Base * const*, LangCAtomicFun);
     // first order forward mode
@@ -480,8 +482,8 @@ public:
         unsigned long const* pos;
         size_t nnz = 0;
 
-        _ty.resize(_m);
-        Base* compressed = &_ty[0];
+        _compressed.resize(_m);
+        Base* compressed = &_compressed[0];
 
         _inHess[0] = x.data();
         _out[0] = compressed;
@@ -548,8 +550,8 @@ public:
         unsigned long const* pos;
         size_t nnz = 0;
 
-        _px.resize(_n);
-        Base* compressed = &_px[0];
+        _compressed.resize(_n);
+        Base* compressed = &_compressed[0];
 
         _inHess[0] = x.data();
         _out[0] = compressed;
@@ -620,8 +622,8 @@ public:
         unsigned long const* pos;
         size_t nnz = 0;
 
-        _px.resize(_n);
-        Base* compressed = &_px[0];
+        _compressed.resize(_n);
+        Base* compressed = &_compressed[0];
 
         const Base * in[3];
         in[0] = x.data();
-- 
2.43.0


From 53d66daf9a6306ed03c016241e124e44d7f0105e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 11/30] fix: first-order partials of atomic functions in
 second-order reverse mode were not computed

---
 include/cppad/cg/abstract_atomic_fun.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/abstract_atomic_fun.hpp b/include/cppad/cg/abstract_atomic_fun.hpp
index 5c4c948..ef30585 100644
--- a/include/cppad/cg/abstract_atomic_fun.hpp
+++ b/include/cppad/cg/abstract_atomic_fun.hpp
@@ -400,10 +400,29 @@ public:
         OperationNode<Base>* atomicOp = handler->makeNode(CGOpCode::AtomicReverse,{id_, p}, args);
         handler->registerAtomicFunction(*this);
 
+        vector<CGB> px1;
+        if (p == 1) {
+            /**
+             * The calls to atomic functions only provide the partials for k=0.
+             * The partials for k=1 are the same as the ones from a
+             * first-order reverse mode:  f'(x)^T py1
+             */
+            vector<CGB> y(m), py1(m);
+            for (size_t i = 0; i < m; i++) {
+                y[i] = ty[i * p1];
+                py1[i] = py[i * p1 + 1];
+            }
+            px1.resize(n);
+            if (!reverse(0, x, y, px1, py1))
+                return false;
+        }
+
         for (size_t k = 0; k < p1; k++) {
             for (size_t j = 0; j < n; j++) {
                 size_t pos = j * p1 + k;
-                if (vxLocal[pos]) {
+                if (p == 1 && k == 1) {
+                    px[pos] = px1[j];
+                } else if (vxLocal[pos]) {
                     px[pos] = CGB(*handler->makeNode(CGOpCode::ArrayElement, {j}, {*pxArray[k], *atomicOp}));
                     if (valuesDefined) {
                         px[pos].setValue(pxb[pos]);
-- 
2.43.0


From d726c3ca654c0c696f150b5763b60445d6613613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:21 +0000
Subject: [PATCH 12/30] fix: array elements used both as dependents and by
 other operations were never assigned

---
 include/cppad/cg/code_handler_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index c4b8217..2f5936b 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -1563,7 +1563,9 @@ void CodeHandler<Base>::checkVariableCreation(Node& root) {
                 }
 
                 // determine if this variable should be temporary/dependent variable
+                // (array elements never create temporaries but they can be dependents)
                 if (_lang->createsNewVariable(arg, getTotalUsageCount(arg), opCount) ||
+                    (aType == CGOpCode::ArrayElement && _varId[arg] != 0) ||
                     _lang->requiresVariableArgument(code.getOperationType(), argIndex)) {
 
                     addToEvaluationQueue(arg);
-- 
2.43.0


From 1ac2dd2f63cd2686d914ec692f564cd593a296da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 13/30] fix: requested Jacobian elements outside the sparsity
 pattern got values of other elements in models with loops

---
 .../cppad/cg/model/patterns/model_c_source_gen_loops_jac.hpp  | 4 ++++
 .../cppad/cg/model/patterns/model_c_source_gen_loops_rev1.hpp | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_jac.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_jac.hpp
index 0ddf79e..62c92c8 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_jac.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_jac.hpp
@@ -108,6 +108,10 @@ void ModelCSourceGen<Base>::analyseSparseJacobianWithLoops(const std::vector<siz
             CPPADCG_ASSERT_UNKNOWN(_funNoLoops != nullptr);
             size_t il = _funNoLoops->getLocalDependentIndex(i);
 
+            const set<size_t>& noLoopRow = _funNoLoops->getJacobianSparsity()[il];
+            if (noLoopRow.find(j) == noLoopRow.end())
+                continue; // always zero
+
             noLoopEvalSparsity[il].insert(j);
             noLoopEvalLocations[il][j].insert(e);
 
diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev1.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev1.hpp
index d8d8f5f..a6fa13e 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev1.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev1.hpp
@@ -136,7 +136,8 @@ void ModelCSourceGen<Base>::prepareSparseReverseOneWithLoops(const std::map<size
 
             // prepare space for the jacobian of the original equations
             std::vector<CGBase>& row = jacNl[i];
-            row.resize(dydx[inl].size());
+            const auto itEl = elements.find(i);
+            row.resize(itEl != elements.end() ? itEl->second.size() : 0);
 
             for (const auto& itjv : dydx[inl]) {
                 size_t j = itjv.first;
-- 
2.43.0


From e8847fd96ffa3a65ed7768a6735dc58659dccbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 14/30] fix: sparse forward/reverse passes of models with loops
 added to uninitialized values

---
 include/cppad/cg/model/functor_generic_model.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index 91a3bc4..275bd5b 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -494,6 +494,8 @@ public:
             if (nnz == 0)
                 continue; // no elements and no function to evaluate
 
+            std::fill(compressed, compressed + nnz, Base(0)); // models with loops only add values
+
             _inHess[1] = &tx1[ej];
             int ret = (*_sparseForwardOne)(j, &_inHess[0], &_out[0], _atomicFuncArg);
 
@@ -562,6 +564,8 @@ public:
             if (nnz == 0)
                 continue; // no elements and no function to evaluate
 
+            std::fill(compressed, compressed + nnz, Base(0)); // models with loops only add values
+
             _inHess[1] = &py[ei];
             int ret = (*_sparseReverseOne)(i, &_inHess[0], &_out[0], _atomicFuncArg);
 
@@ -636,6 +640,8 @@ public:
             if (nnz == 0)
                 continue; // no elements and no function to evaluate
 
+            std::fill(compressed, compressed + nnz, Base(0)); // models with loops only add values
+
             in[1] = &tx1[ej];
             int ret = (*_sparseReverseTwo)(j, &in[0], &_out[0], _atomicFuncArg);
 
-- 
2.43.0


From a4abff53ab48cf803867b130ee8ccb0523dfd627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 15/30] fix: second derivatives of loop temporaries and
 non-indexed variables were looked up with the wrong index

---
 .../cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp
index 09a99b3..eb134ee 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp
@@ -460,7 +460,7 @@ void ModelCSourceGen<Base>::analyseSparseHessianWithLoops(const std::vector<size
                         if (posJ2 != nullptr) {
                             const set<size_t>& hessRow = group.getHessianSparsity()[posK1->tape];
 
-                            if (hessRow.find(j2) != hessRow.end()) {
+                            if (hessRow.find(posJ2->tape) != hessRow.end()) {
                                 if (!jInNonIndexed) {
                                     jInNonIndexed = true;
                                     CPPADCG_ASSERT_KNOWN(loopInfo.nonIndexedNonIndexedPosition.find(orig) == loopInfo.nonIndexedNonIndexedPosition.end(),
-- 
2.43.0


From 1073921477d8be95d6ff2892e3348441d61c1a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 16/30] fix: temporary variables used in several branches of
 loops were not evaluated for all the required iterations

---
 include/cppad/cg/code_handler.hpp      |  17 ++-
 include/cppad/cg/code_handler_impl.hpp | 145 ++++++++++++-------------
 2 files changed, 88 insertions(+), 74 deletions(-)

diff --git a/include/cppad/cg/code_handler.hpp b/include/cppad/cg/code_handler.hpp
index 053acb6..6a1c7bd 100644
--- a/include/cppad/cg/code_handler.hpp
+++ b/include/cppad/cg/code_handler.hpp
@@ -633,9 +633,24 @@ protected:
                                               ScopeIDType oldScope,
                                               ScopeIDType commonScopeColor);
 
+    /**
+     * Determines the iterations for which the operations in a scope can be
+     * evaluated.
+     */
+    inline std::vector<size_t> scopeIterationRanges(ScopeIDType scope);
+
+    /**
+     * Makes sure that the temporary variables which are only evaluated for
+     * some iterations are also evaluated for the iterations where the
+     * provided operation (which can depend on them) is evaluated.
+     */
+    inline void extendConditionalTempVars(Node& code,
+                                          const std::vector<size_t>& iterationRegions);
+
     inline void updateTemporaryVarInDiffScopes(Node& code);
 
-    inline void restoreTemporaryVar(Node& tmp);
+    inline void restoreTemporaryVar(Node& tmp,
+                                    ScopeIDType newScope);
 
     inline void restoreTemporaryVar(Node* tmp,
                                     Node* opClone);
diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index 2f5936b..1f10769 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -820,12 +820,7 @@ void CodeHandler<Base>::markCodeBlockUsed(Node& root) {
                  * evaluation of the expression is only performed for the
                  * required iterations
                  */
-                if (_scope[code] == _currentScopeColor) {
-                    // outside an if (defined for all iterations)
-                    restoreTemporaryVar(code);
-                } else {
-                    updateTemporaryVarInDiffScopes(code);
-                }
+                updateTemporaryVarInDiffScopes(code);
 
             } else if (_scope[code] != _currentScopeColor && op != CGOpCode::LoopIndexedIndep) {
                 ScopeIDType oldScope = _scope[code];
@@ -860,6 +855,8 @@ void CodeHandler<Base>::markCodeBlockUsed(Node& root) {
                         for (size_t a = 0; a < aSize; a++) {
                             updateVarScopeUsage(args[a].getOperation(), newScope, oldScope);
                         }
+
+                        extendConditionalTempVars(code, scopeIterationRanges(newScope));
                     }
                 }
             }
@@ -1062,93 +1059,95 @@ inline void CodeHandler<Base>::replaceWithConditionalTempVar(Node& tmp,
     }
 
     _alteredNodes.push_back(std::make_pair(&tmp, opClone));
+
+    extendConditionalTempVars(*opClone, iterationRegions);
 }
 
 template<class Base>
-inline void CodeHandler<Base>::updateTemporaryVarInDiffScopes(Node& code) {
-    if (_scope[code] != _currentScopeColor) {
-        return; //nothing to change
-    }
+inline std::vector<size_t> CodeHandler<Base>::scopeIterationRanges(ScopeIDType scope) {
+    const ScopePath& path = _scopes[scope];
 
-    /**
-     * does this variable require a condition based on indexes?
-     */
-    if (_currentScopeColor == 0)
-        restoreTemporaryVar(code);
+    for (size_t d = path.size(); d-- > 0;) {
+        Node* end = path[d].end;
+        if (end == nullptr)
+            continue;
 
-    /**
-     * Determine if it should be moved into a different scope
-     * so that it is defined before being used in both
-     * scopes
-     */
-    ScopeIDType oldScope = _scope[code];
+        CGOpCode op = end->getOperationType();
+        if (op == CGOpCode::EndIf || op == CGOpCode::Else || op == CGOpCode::ElseIf) {
+            IndexOperationNode<Base>* iterIndexOp = nullptr;
+            return ifBranchIterationRanges(end->getArguments()[0].getOperation(), iterIndexOp);
+        } else if (op == CGOpCode::LoopEnd) {
+            break;
+        }
+    }
 
-    size_t depth = findFirstDifferentScope(oldScope, _currentScopeColor);
+    return {0, (std::numeric_limits<size_t>::max)()}; // all iterations
+}
 
-    // update the scope where it should be defined
-    ScopeIDType newScope = depth == 0 ? 0 : _scopes[_currentScopeColor][depth - 1].color;
+template<class Base>
+inline void CodeHandler<Base>::extendConditionalTempVars(Node& code,
+                                                         const std::vector<size_t>& iterationRegions) {
+    if (_alteredNodes.empty())
+        return; // nothing to extend
 
-    /**
-     * does this variable require a condition based on indexes?
-     */
-    std::vector<size_t> iterationRegions;
-    Node* bScopeNewEnd = _scopes[_currentScopeColor].back().end;
-    Node* endif = code.getArguments()[0].getOperation();
-    CPPADCG_ASSERT_UNKNOWN(endif->getOperationType() == CGOpCode::EndIf)
-    Node* bScopeOldEnd = _scopes[_scope[*endif]].back().end;
+    std::set<const Node*> visited;
+    std::vector<Node*> stack{&code};
 
-    CGOpCode bNewOp = bScopeNewEnd->getOperationType();
+    while (!stack.empty()) {
+        Node* node = stack.back();
+        stack.pop_back();
 
-    if (bNewOp == CGOpCode::EndIf || bNewOp == CGOpCode::Else || bNewOp == CGOpCode::ElseIf) {
-        // used in 2 different if/else branches
+        if (node->getOperationType() == CGOpCode::Tmp && !node->getInfo().empty()) {
+            Node* endIf = node->getArguments()[1].getOperation();
+            Node* startIf = endIf->getArguments()[0].getOperation();
+            Node* cond = startIf->getArguments()[0].getOperation();
+            CPPADCG_ASSERT_UNKNOWN(cond->getOperationType() == CGOpCode::IndexCondExpr)
 
-        /**
-         * determine the iterations which use this temporary variable
-         */
-        Node* bScopeNew = bScopeNewEnd->getArguments()[0].getOperation();
-        Node* bScopeOld = bScopeOldEnd->getArguments()[0].getOperation();
+            std::vector<size_t> regions = cond->getInfo();
+            combineOverlapingIterationRanges(regions, iterationRegions);
 
-        IndexOperationNode<Base>* newIterIndexOp = nullptr;
-        iterationRegions = ifBranchIterationRanges(bScopeNew, newIterIndexOp);
-        CPPADCG_ASSERT_UNKNOWN(iterationRegions.size() >= 2)
+            if (regions.size() == 2 && regions[0] == 0 && regions[1] == (std::numeric_limits<size_t>::max)()) {
+                // this temporary variable is used by all iterations
+                // there is no need for an 'if'
+                restoreTemporaryVar(*node, _scope[*node]);
+            } else {
+                cond->getInfo() = regions;
+            }
+        }
 
-        IndexOperationNode<Base>* oldIterIndexOp = nullptr;
-        const std::vector<size_t> oldIterRegions = ifBranchIterationRanges(bScopeOld, oldIterIndexOp);
-        combineOverlapingIterationRanges(iterationRegions, oldIterRegions);
-        CPPADCG_ASSERT_UNKNOWN(iterationRegions.size() >= 2)
-        CPPADCG_ASSERT_UNKNOWN(newIterIndexOp != nullptr && newIterIndexOp == oldIterIndexOp)
+        for (const Arg& arg : node->getArguments()) {
+            Node* argNode = arg.getOperation();
+            // nodes outside loops cannot depend on these temporary variables
+            if (argNode != nullptr && _scope[*argNode] != 0 && visited.insert(argNode).second) {
+                stack.push_back(argNode);
+            }
+        }
+    }
+}
 
-        if (iterationRegions.size() == 2 &&
-            (iterationRegions[0] == 0 ||
-             iterationRegions[1] == (std::numeric_limits<size_t>::max)())) {
-            // this temporary variable is used by all iterations
-            // there is no need for an 'if'
-            restoreTemporaryVar(code);
+template<class Base>
+inline void CodeHandler<Base>::updateTemporaryVarInDiffScopes(Node& code) {
+    ScopeIDType oldScope = _scope[code];
 
-        } else if (oldIterRegions != iterationRegions) {
-            Node* cond = bScopeOld->getArguments()[0].getOperation();
-            CPPADCG_ASSERT_UNKNOWN(cond->getOperationType() == CGOpCode::IndexCondExpr)
-            cond->getInfo() = iterationRegions;
-        }
+    size_t depth = findFirstDifferentScope(oldScope, _currentScopeColor);
 
-    }
+    // the scope where it should be defined
+    ScopeIDType newScope = depth == 0 ? 0 : _scopes[_currentScopeColor][depth - 1].color;
 
-    if (oldScope != newScope) {
-        _scope[code] = newScope;
-        /**
-         * Must also update the scope of the arguments used by this operation
-         */
-        const std::vector<Arg>& cargs = code.getArguments();
-        size_t aSize = cargs.size();
-        for (size_t a = 0; a < aSize; a++) {
-            updateVarScopeUsage(cargs[a].getOperation(), newScope, oldScope);
-        }
+    if (newScope == _currentScopeColor || newScope != oldScope) {
+        // outside an if (defined for all iterations)
+        restoreTemporaryVar(code, newScope);
     }
 
+    /**
+     * make sure it is also evaluated for the iterations of the current scope
+     */
+    extendConditionalTempVars(code, scopeIterationRanges(newScope == oldScope ? _currentScopeColor : newScope));
 }
 
 template<class Base>
-inline void CodeHandler<Base>::restoreTemporaryVar(Node& tmp) {
+inline void CodeHandler<Base>::restoreTemporaryVar(Node& tmp,
+                                                   ScopeIDType newScope) {
     CPPADCG_ASSERT_UNKNOWN(tmp.getOperationType() == CGOpCode::Tmp && !tmp.getInfo().empty())
 
     Node* endIf = tmp.getArguments()[1].getOperation();
@@ -1158,7 +1157,7 @@ inline void CodeHandler<Base>::restoreTemporaryVar(Node& tmp) {
     tmp.setOperation(opClone->getOperationType(), opClone->getArguments());
     tmp.getInfo() = opClone->getInfo();
 
-    _scope[tmp] = _currentScopeColor;
+    _scope[tmp] = newScope;
 
     /**
      * Must also update the scope of the arguments used by this operation
@@ -1166,7 +1165,7 @@ inline void CodeHandler<Base>::restoreTemporaryVar(Node& tmp) {
     const std::vector<Arg>& args = tmp.getArguments();
     size_t aSize = args.size();
     for (size_t a = 0; a < aSize; a++) {
-        updateVarScopeUsage(args[a].getOperation(), _currentScopeColor, _scope[*opClone]);
+        updateVarScopeUsage(args[a].getOperation(), newScope, _scope[*opClone]);
     }
 }
 
-- 
2.43.0


From ea5f11188f23e8048f575b1c0f7bf4e2e3e1d681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 17/30] fix: array structures of atomic functions were not
 initialized in all the local functions of split sources

---
 include/cppad/cg/lang/c/language_c.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index f27c309..454a9ec 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -1091,6 +1091,9 @@ protected:
         (*_sources)[funcName + ".c"] = _ss.str();
         localFuncNames.push_back(funcName);
 
+        // the array structures are local variables in each function
+        _atomicFuncArrays.clear();
+
         _code.str("");
         _ss.str("");
     }
-- 
2.43.0


From 887a7d0b1d4a312e6487ee4501f0288a27ffab66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 18/30] fix: array values assigned in other loop iterations or
 if/else branches were assumed to be still defined

---
 include/cppad/cg/lang/c/language_c.hpp        | 22 +++++++++++++++++++
 include/cppad/cg/lang/c/language_c_arrays.hpp |  5 +++++
 2 files changed, 27 insertions(+)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index 454a9ec..62f5eaf 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -1932,6 +1932,8 @@ protected:
                      << jj << " < " << iterationCount << "; "
                      << jj << "++) {\n";
         _indentation += _spaces;
+
+        resetArrayState();
     }
 
     virtual void pushLoopEnd(Node& node) {
@@ -1942,8 +1944,20 @@ protected:
         _streamStack <<_indentation << "}\n";
 
         _currentLoops.pop_back();
+
+        resetArrayState();
     }
 
+    /**
+     * Forgets the values previously assigned to arrays. It must be called
+     * whenever the previously printed operations might not be the last ones
+     * to be executed (loops and if/else branches).
+     */
+    inline void resetArrayState() {
+        _atomicFuncArrays.clear();
+        std::fill(_tmpArrayValues.begin(), _tmpArrayValues.end(), nullptr);
+        std::fill(_tmpSparseArrayValues.begin(), _tmpSparseArrayValues.end(), nullptr);
+    }
 
     virtual size_t printLoopIndexDeps(const std::vector<Node*>& variableOrder,
                                       size_t pos);
@@ -2020,6 +2034,8 @@ protected:
         _streamStack << ") {\n";
 
         _indentation += _spaces;
+
+        resetArrayState();
     }
 
     virtual void pushElseIf(Node& node) {
@@ -2040,6 +2056,8 @@ protected:
         _streamStack << ") {\n";
 
         _indentation += _spaces;
+
+        resetArrayState();
     }
 
     virtual void pushElse(Node& node) {
@@ -2055,6 +2073,8 @@ protected:
         _streamStack <<_indentation << "} else {\n";
 
         _indentation += _spaces;
+
+        resetArrayState();
     }
 
     virtual void pushEndIf(Node& node) {
@@ -2063,6 +2083,8 @@ protected:
         _indentation.resize(_indentation.size() - _spaces.size());
 
         _streamStack <<_indentation << "}\n";
+
+        resetArrayState();
     }
 
     virtual void pushCondResult(Node& node) {
diff --git a/include/cppad/cg/lang/c/language_c_arrays.hpp b/include/cppad/cg/lang/c/language_c_arrays.hpp
index b1bbf9e..97c741d 100644
--- a/include/cppad/cg/lang/c/language_c_arrays.hpp
+++ b/include/cppad/cg/lang/c/language_c_arrays.hpp
@@ -340,6 +340,11 @@ inline void LanguageC<Base>::printArrayStructInit(const std::string& dataArrayNa
     auto itLast = _atomicFuncArrays.find(dataArrayName);
     bool firstTime = itLast == _atomicFuncArrays.end() || itLast->second.scope != _info->scope[array];
     AtomicFuncArray& lastArray = firstTime ? _atomicFuncArrays[dataArrayName] : itLast->second;
+    if (firstTime) {
+        // the values used only by sparse arrays were not defined yet
+        lastArray.nnz = (std::numeric_limits<unsigned long>::max)();
+        lastArray.idx_id = (std::numeric_limits<size_t>::max)();
+    }
 
     bool changed = false;
 
-- 
2.43.0


From bce670410ef4fd4b3caf92af8d05c478e507d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 19/30] fix: invalid source when loop indexes reached the
 maximum number of operations per assignment

---
 include/cppad/cg/lang/c/language_c.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index 62f5eaf..8ed6178 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -1120,7 +1120,9 @@ protected:
                     op == CGOpCode::IndexAssign ||
                     op == CGOpCode::Assign ||
                     opCount >= _maxOperationsPerAssignment) &&
-                    op != CGOpCode::CondResult;
+                    op != CGOpCode::CondResult &&
+                    op != CGOpCode::Index &&
+                    op != CGOpCode::IndexDeclaration;
         }
     }
 
-- 
2.43.0


From 6078beb0f10bb1125d5c99c5894e4bc3d542131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 20/30] fix: expressions already assigned to a variable were
 printed again when added to a dependent

---
 include/cppad/cg/lang/c/language_c.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index 8ed6178..ac5301b 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -1906,7 +1906,15 @@ protected:
             }
 
             if (useArg) {
-                pushAssignment(node, arg); // ignore other arguments!
+                if (arg.getOperation() != nullptr && getVariableID(*arg.getOperation()) > 0) {
+                    // the expression was already assigned to another variable
+                    pushAssignmentStart(node);
+                    _streamStack << createVariableName(*arg.getOperation());
+                    pushAssignmentEnd(node);
+                    _streamStack.flush();
+                } else {
+                    pushAssignment(node, arg); // ignore other arguments!
+                }
                 return 1;
             }
         }
-- 
2.43.0


From 48d8c72a4d24586404c89e76ff3d6542f1f5e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 21/30] fix: infinite recursion when index conditions reached
 the maximum number of operations per assignment

---
 include/cppad/cg/lang/c/language_c.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index ac5301b..fa1c545 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -1122,7 +1122,8 @@ protected:
                     opCount >= _maxOperationsPerAssignment) &&
                     op != CGOpCode::CondResult &&
                     op != CGOpCode::Index &&
-                    op != CGOpCode::IndexDeclaration;
+                    op != CGOpCode::IndexDeclaration &&
+                    op != CGOpCode::IndexCondExpr;
         }
     }
 
-- 
2.43.0


From 2e3b63e52376e29e8d6bf04ffcf964c9793e6823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:39 +0000
Subject: [PATCH 22/30] fix: names of independent variables were overwritten
 when evaluating an operation graph in another handler

---
 include/cppad/cg/evaluator/evaluator_adcg.hpp | 3 ++-
 include/cppad/cg/evaluator/evaluator_cg.hpp   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/evaluator/evaluator_adcg.hpp b/include/cppad/cg/evaluator/evaluator_adcg.hpp
index f28e644..7d60f55 100644
--- a/include/cppad/cg/evaluator/evaluator_adcg.hpp
+++ b/include/cppad/cg/evaluator/evaluator_adcg.hpp
@@ -134,7 +134,8 @@ protected:
         if (node.getName() != nullptr) {
             if(adcgName_ && CppAD::Variable(a)) {
                 ScalarOut a2(CppAD::Value(CppAD::Var2Par(a)));
-                if (a2.getOperationNode() != nullptr) {
+                // independent variables of the output must keep their own names
+                if (a2.getOperationNode() != nullptr && a2.getOperationNode()->getOperationType() != CGOpCode::Inv) {
                     a2.getOperationNode()->setName(*node.getName());
                 }
             }
diff --git a/include/cppad/cg/evaluator/evaluator_cg.hpp b/include/cppad/cg/evaluator/evaluator_cg.hpp
index feff2ab..778af02 100644
--- a/include/cppad/cg/evaluator/evaluator_cg.hpp
+++ b/include/cppad/cg/evaluator/evaluator_cg.hpp
@@ -114,7 +114,8 @@ protected:
     void processActiveOut(const NodeIn& node,
                           ActiveOut& a) {
         if (node.getName() != nullptr) {
-            if (a.getOperationNode() != nullptr) {
+            // independent variables of the output must keep their own names
+            if (a.getOperationNode() != nullptr && a.getOperationNode()->getOperationType() != CGOpCode::Inv) {
                 a.getOperationNode()->setName(*node.getName());
             }
         }
-- 
2.43.0


From ea0e0c0d4cacd7c9b3670b67e79af52858d2118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 23/30] fix: structural index of an ODE was reported as 1

---
 include/cppad/cg/dae_index_reduction/bipartite_graph.hpp | 2 +-
 include/cppad/cg/dae_index_reduction/soares_secchi.hpp   | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
index 5ccd5ae..5c91e43 100644
--- a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
+++ b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
@@ -318,7 +318,7 @@ public:
             bool isDAE = false;
             for (size_t j = 0; j < varInfo_.size(); j++) {
                 const DaeVarInfo& jj = varInfo_[j];
-                if (jj.getDerivative() < 0 && !jj.isIntegratedVariable() && jj.isFunctionOfIntegrated()) {
+                if (jj.getDerivative() < 0 && jj.getAntiDerivative() < 0 && !jj.isIntegratedVariable() && jj.isFunctionOfIntegrated()) {
                     isDAE = true; // found algebraic variable
                     break;
                 }
diff --git a/include/cppad/cg/dae_index_reduction/soares_secchi.hpp b/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
index e52846a..871f490 100644
--- a/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
+++ b/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
@@ -155,7 +155,10 @@ public:
      * @throws CGException
      */
     inline size_t getStructuralIndex() const {
-        return graph_.getStructuralIndex();
+        size_t index = graph_.getStructuralIndex();
+        if (index == 0 && !lastAddEq_.empty())
+            return 1; // equations had to be differentiated (not an ODE)
+        return index;
     }
 
 protected:
-- 
2.43.0


From 434817a0e3406fe0e0e2f447f2d7b6e1b52d1bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 24/30] fix: original variables used by no other equation were
 removed from the graph in the Soares-Secchi method

---
 .../dae_index_reduction/bipartite_graph.hpp   | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
index 5c91e43..d1806f5 100644
--- a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
+++ b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
@@ -438,25 +438,24 @@ public:
             /**
              * remove variable
              */
-            while(j->equations().empty()) {
+            while(j->equations().empty() && j->derivative() == nullptr &&
+                  j->index() >= origTimeDependentCount_) { // variables of the original model must be kept
                 CPPADCG_ASSERT_UNKNOWN(vnodes_[j->index()] == j);
 
-                if (j->derivative() == nullptr) {
-                    vnodes_.erase(vnodes_.cbegin() + j->index());
+                vnodes_.erase(vnodes_.cbegin() + j->index());
 
-                    // update variable indices
-                    for (size_t jj = j->index(); jj < vnodes_.size(); ++jj) {
-                        vnodes_[jj]->setTapeIndex(vnodes_[jj]->tapeIndex() - 1);
-                        vnodes_[jj]->setIndex(vnodes_[jj]->index() - 1);
-                    }
+                // update variable indices
+                for (size_t jj = j->index(); jj < vnodes_.size(); ++jj) {
+                    vnodes_[jj]->setTapeIndex(vnodes_[jj]->tapeIndex() - 1);
+                    vnodes_[jj]->setIndex(vnodes_[jj]->index() - 1);
+                }
 
-                    auto* jOrig = j->antiDerivative();
-                    CPPADCG_ASSERT_UNKNOWN(jOrig != nullptr);
-                    jOrig->setDerivative(nullptr);
+                auto* jOrig = j->antiDerivative();
+                CPPADCG_ASSERT_UNKNOWN(jOrig != nullptr);
+                jOrig->setDerivative(nullptr);
 
-                    delete j; // no longer required
-                    j = jOrig;
-                }
+                delete j; // no longer required
+                j = jOrig;
             }
 
         }
-- 
2.43.0


From e77a060fad852aa81fb3a048c1fbfe14140f31a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 25/30] fix: Pantelides method refused systems of independent
 equations and did not end for some singular systems

---
 .../cppad/cg/dae_index_reduction/pantelides.hpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/include/cppad/cg/dae_index_reduction/pantelides.hpp b/include/cppad/cg/dae_index_reduction/pantelides.hpp
index ad65799..f24dff7 100644
--- a/include/cppad/cg/dae_index_reduction/pantelides.hpp
+++ b/include/cppad/cg/dae_index_reduction/pantelides.hpp
@@ -159,18 +159,13 @@ protected:
                         }
                     }
 
-                    // structural check to avoid infinite recursion
+                    // structural check to avoid infinite recursion:
+                    // no equation of a structurally regular system is differentiated more often
                     for (size_t l = esize; l < enodes.size(); l++) {
-                        ll = enodes[l];
-                        const std::vector<Vnode<Base>*>& nvars = ll->originalVariables();
-                        bool ok = false;
-                        for (Vnode<Base>* js : nvars) {
-                            if (js->equations().size() > 1) {
-                                ok = true;
-                                break;
-                            }
-                        }
-                        if (!ok)
+                        size_t order = 0;
+                        for (const Enode<Base>* e = enodes[l]; e->derivativeOf() != nullptr; e = e->derivativeOf())
+                            order++;
+                        if (order > Ndash + 1)
                             throw CGException("Invalid equation structure. The model appears to be over-defined.");
                     }
 
-- 
2.43.0


From 14ae896536339b7ef7ac4f243ebdfe8ee06d3bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 26/30] fix: stale colors made the Soares-Secchi method refuse
 regular systems

---
 .../cppad/cg/dae_index_reduction/soares_secchi.hpp  | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/cppad/cg/dae_index_reduction/soares_secchi.hpp b/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
index 871f490..864f605 100644
--- a/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
+++ b/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
@@ -196,10 +196,10 @@ protected:
                         // mark colored equations to be differentiated
                         if (ii->isColored() && ii->derivative() == nullptr) {
                             marked.insert(ii);
-
-                            // uncolor equations
-                            ii->uncolor();
                         }
+
+                        // uncolor equations
+                        ii->uncolor();
                     }
 
                     pathFound = augmentPath_->augmentPath(*i);
@@ -209,11 +209,10 @@ protected:
 
                     for (auto* jj: vnodes)
                         jj->uncolor();
-
-                } else {
-                    for (auto* ii: enodes)
-                        ii->uncolor();
                 }
+
+                for (auto* ii: enodes)
+                    ii->uncolor();
             }
 
             if (marked.empty())
-- 
2.43.0


From a4c3721b9978c5d4b0c4298ff20bb7d0df5002ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 27/30] fix: solving an expression which is the variable itself
 returned the variable

---
 include/cppad/cg/solver.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/solver.hpp b/include/cppad/cg/solver.hpp
index 681e654..306735d 100644
--- a/include/cppad/cg/solver.hpp
+++ b/include/cppad/cg/solver.hpp
@@ -26,9 +26,9 @@ inline CG<Base> CodeHandler<Base>::solveFor(OperationNode<Base>& expression,
                                             OperationNode<Base>& var) {
     using std::vector;
 
-    // find code in expression
+    // the expression is the variable itself (var == 0)
     if (&expression == &var)
-        return CG<Base>(var);
+        return CG<Base>(0.0);
 
     size_t bifurcations = (std::numeric_limits<size_t>::max)(); // so that it is possible to enter the loop
 
-- 
2.43.0


From 8e836a48b5ba2a1273fd3fee4ff05ced0379940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 28/30] fix: variables assigned for elimination could remain
 assigned to another equation

---
 include/cppad/cg/dae_index_reduction/dummy_deriv.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp b/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
index 63c9344..0d60bdb 100644
--- a/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
+++ b/include/cppad/cg/dae_index_reduction/dummy_deriv.hpp
@@ -916,6 +916,11 @@ protected:
             for (Vnode<Base>* j : variables) {
                 if (j->assignmentEquation() != nullptr) {
                     int i = j->assignmentEquation()->index();
+                    // it cannot remain assigned to another equation
+                    for (DaeEquationInfo& other : eqInfo) {
+                        if (other.getAssignedVarIndex() == int(j->tapeIndex()))
+                            other.setAssignedVarIndex(-1);
+                    }
                     DaeEquationInfo& eq = eqInfo[i];
 
                     if (eq.getAssignedVarIndex() != int(j->tapeIndex())) {
-- 
2.43.0


From 380c44d3bccdf8a70c5d707b913cd962bcfa6309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 29/30] fix: invalid access when generating code with an
 independent replaced by a constant

---
 include/cppad/cg/code_handler_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index 1f10769..bae769f 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -754,7 +754,8 @@ void CodeHandler<Base>::markCodeBlockUsed(Node& root) {
              * correct usage count at the operation that it points to
              */
             CPPADCG_ASSERT_UNKNOWN(code.getArguments().size() == 1)
-            stack.emplace_back(code, 0, _currentScopeColor);
+            if (code.getArguments()[0].getOperation() != nullptr) // it can also be an alias to a constant
+                stack.emplace_back(code, 0, _currentScopeColor);
 
             return false;
 
-- 
2.43.0


From 3b6b8993cbb2373b7a362937088775ce3f3a7eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:14 +0000
Subject: [PATCH 30/30] fix: invalid source when an independent replaced by an
 expression was kept or used as a dependent

---
 include/cppad/cg/code_handler_impl.hpp |  4 +++-
 include/cppad/cg/graph_mod.hpp         |  1 +
 include/cppad/cg/lang/c/language_c.hpp | 25 ++++++++++++-------------
 3 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index bae769f..b7f1c99 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -319,7 +319,9 @@ void CodeHandler<Base>::generateCode(std::ostream& out,
      */
     size_t n = _independentVariables.size();
     for (size_t j = 0; j < n; j++) {
-        _varId[*_independentVariables[j]] = _idCount++;
+        if (_independentVariables[j]->getOperationType() == CGOpCode::Inv) // it can also be an alias to an expression
+            _varId[*_independentVariables[j]] = _idCount;
+        _idCount++;
     }
 
     size_t m = dependent.size();
diff --git a/include/cppad/cg/graph_mod.hpp b/include/cppad/cg/graph_mod.hpp
index 5ffd31f..e1bdbe9 100644
--- a/include/cppad/cg/graph_mod.hpp
+++ b/include/cppad/cg/graph_mod.hpp
@@ -70,6 +70,7 @@ inline void CodeHandler<Base>::undoSubstituteIndependent(OperationNode<Base>& in
     }
 
     indep.setOperation(CGOpCode::Inv);
+    indep.clearName(); // it might have been used as a dependent
 }
 
 template<class Base>
diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index fa1c545..30a5b07 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -705,7 +705,7 @@ protected:
         //generate names for the independent variables
         for (size_t j = 0; j < _independentSize; j++) {
             Node& op = *_info->independent[j];
-            if (op.getName() == nullptr) {
+            if (op.getName() == nullptr && op.getOperationType() == CGOpCode::Inv) { // it can also be an alias to an expression
                 op.setName(_nameGen->generateIndependent(op, getVariableID(op)));
             }
         }
@@ -1263,7 +1263,7 @@ protected:
     }
 
     virtual unsigned pushExpression(Node& op) {
-        if (getVariableID(op) > 0) {
+        if (getVariableID(op) > 0 && op.getOperationType() != CGOpCode::Alias) { // an alias is never evaluated before being used
             // use variable name
             _streamStack << createVariableName(op);
             return 1;
@@ -1537,17 +1537,20 @@ protected:
     virtual void pushSignFunction(Node& op) {
         CPPADCG_ASSERT_KNOWN(op.getArguments().size() == 1, "Invalid number of arguments for sign() function")
         CPPADCG_ASSERT_UNKNOWN(op.getArguments()[0].getOperation() != nullptr)
-        CPPADCG_ASSERT_UNKNOWN(getVariableID(*op.getArguments()[0].getOperation()) > 0)
 
-        Node& arg = *op.getArguments()[0].getOperation();
-
-        const std::string& argName = createVariableName(arg);
+        const Arg& arg = op.getArguments()[0];
+        // an alias might not refer to a variable
+        const bool alias = arg.getOperation()->getOperationType() == CGOpCode::Alias;
 
-        _streamStack << "(" << argName << " " << _C_COMP_OP_GT << " ";
+        _streamStack << (alias ? "((" : "(");
+        push(arg);
+        _streamStack << (alias ? ") " : " ") << _C_COMP_OP_GT << " ";
         pushParameter(Base(0.0));
         _streamStack << "?";
         pushParameter(Base(1.0));
-        _streamStack << ":(" << argName << " " << _C_COMP_OP_LT << " ";
+        _streamStack << (alias ? ":((" : ":(");
+        push(arg);
+        _streamStack << (alias ? ") " : " ") << _C_COMP_OP_LT << " ";
         pushParameter(Base(0.0));
         _streamStack << "?";
         pushParameter(Base(-1.0));
@@ -1607,8 +1610,6 @@ protected:
 
     inline bool encloseInParenthesesDiv(const Node* node) const {
         while (node != nullptr) {
-            if (getVariableID(*node) != 0)
-                return false;
             if (node->getOperationType() == CGOpCode::Alias)
                 node = node->getArguments()[0].getOperation();
             else
@@ -1647,9 +1648,7 @@ protected:
 
     inline bool encloseInParenthesesMul(const Node* node) const {
         while (node != nullptr) {
-            if (getVariableID(*node) != 0)
-                return false;
-            else if (node->getOperationType() == CGOpCode::Alias)
+            if (node->getOperationType() == CGOpCode::Alias)
                 node = node->getArguments()[0].getOperation();
             else
                 break;
-- 
2.43.0

