From 01aeb56f48ad3dbf1a6b8a120cd7e84010e658bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 01/96] fix: a long or double feature that was never set reads
 as 0

---
 src/cas/uima/lowlevel_fsheap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index a8eb226..5d25ebc 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -490,7 +490,7 @@ namespace uima {
 
       inline INT64 getFSAsLong(TyFS tyFS) const {
         if (tyFS == 0) {
-          return '\n';
+          return 0;
         }
         assert( iv_clTemporary64BitHeap.debugIsValidHeapCell(tyFS) );
         return (INT64) iv_clTemporary64BitHeap.getHeapValue(tyFS);
@@ -498,7 +498,7 @@ namespace uima {
 
       inline double getFSAsDouble(TyFS tyFS) const {
         if (tyFS == 0) {
-          return '\n';
+          return 0;
         }
         assert( iv_clTemporary64BitHeap.debugIsValidHeapCell(tyFS) );
         INT64 int64Val = iv_clTemporary64BitHeap.getHeapValue(tyFS);
-- 
2.43.0


From 775f2fd8d4bf89b587a5cf93e7d1e27c27cd9957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 02/96] fix: createFS refuses string subtypes and array types,
 for which it made broken structures

---
 src/cas/cas.cpp | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 521cc8f..2509916 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -401,26 +401,16 @@ namespace uima {
                         );
     }
     uima::lowlevel::TyFSType tyType = internal::FSPromoter::demoteType(crType);
-    switch (tyType) {
-    case uima::internal::gs_tyIntegerType:
-    case uima::internal::gs_tyFloatType:
-    case uima::internal::gs_tyStringType:
-    case uima::internal::gs_tyBooleanType:
-    case uima::internal::gs_tyByteType:
-    case uima::internal::gs_tyShortType:
-    case uima::internal::gs_tyLongType:
-    case uima::internal::gs_tyDoubleType: {
-        ErrorMessage errMessage(UIMA_MSG_ID_EXC_COULD_NOT_CREATE_FS_FINAL_TYPE );
-        errMessage.addParam( crType.getName() );
-        UIMA_EXC_THROW_NEW(CouldNotCreateFSOfFinalTypeException,
-                           UIMA_ERR_COULD_NOT_CREATE_FS_OF_FINAL_TYPE,
-                           errMessage,
-                           UIMA_MSG_ID_EXCON_CREATING_FS,
-                           ErrorInfo::recoverable
-                          );
-      }
-    default:
-      ;
+    // values and arrays are no plain feature structures (arrays need a length)
+    if (getTypeSystem().isPrimitive(tyType) || getTypeSystem().isArrayType(tyType)) {
+      ErrorMessage errMessage(UIMA_MSG_ID_EXC_COULD_NOT_CREATE_FS_FINAL_TYPE );
+      errMessage.addParam( crType.getName() );
+      UIMA_EXC_THROW_NEW(CouldNotCreateFSOfFinalTypeException,
+                         UIMA_ERR_COULD_NOT_CREATE_FS_OF_FINAL_TYPE,
+                         errMessage,
+                         UIMA_MSG_ID_EXCON_CREATING_FS,
+                         ErrorInfo::recoverable
+                        );
     }
 
     // if new FS is annotation type, set the sofa feature
-- 
2.43.0


From c16ced36531a4eb90fafc26f178646f543540a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 03/96] fix: clone into a type with no common features copies
 nothing instead of reading past the structure

---
 src/cas/featurestructure.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index c5f167d..1baa807 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -256,7 +256,10 @@ namespace uima {
     lowlevel::TyFSType mcst = ts.getMostSpecificCommonSupertype( uima::internal::FSPromoter::demoteType(getType()),
                               uima::internal::FSPromoter::demoteType(t) );
     lowlevel::TyFeatureOffset featNum = ts.getFeatureNumber( mcst );
-    iv_cas->getHeap()->copyFeatures(newFS.iv_tyFS, iv_tyFS, featNum);
+    // 0 would mean all features
+    if (featNum > 0) {
+      iv_cas->getHeap()->copyFeatures(newFS.iv_tyFS, iv_tyFS, featNum);
+    }
     return newFS;
   }
 
-- 
2.43.0


From aa3d47c767ff32c9813c4420063eebf312bb6f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 04/96] fix: setting a feature to an invalid feature structure
 raises an exception instead of crashing

---
 src/cas/featurestructure.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 1baa807..5e8399e 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -302,6 +302,8 @@ namespace uima {
 
   void FeatureStructure::setFSValue(Feature const & f, FeatureStructure const & anFS) {
     checkValidity(UIMA_MSG_ID_EXCON_SETTING_FEATURE_VALUE);
+    checkFeature(f, UIMA_MSG_ID_EXCON_SETTING_FEATURE_VALUE);
+    anFS.checkValidity(UIMA_MSG_ID_EXCON_SETTING_FEATURE_VALUE);
     checkAppropFeature(f, anFS, UIMA_MSG_ID_EXCON_SETTING_FEATURE_VALUE);
     iv_cas->getHeap()->setFSValue(iv_tyFS, internal::FSPromoter::demoteFeature(f), anFS.iv_tyFS);
   }
-- 
2.43.0


From 944d756d849a30f0c49a0a3516c9c665d874019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 05/96] fix: string accessors refuse features that are not
 appropriate for the structure

---
 src/cas/featurestructure.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 5e8399e..cdd5612 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -439,6 +439,7 @@ namespace uima {
 
   UnicodeStringRef  FeatureStructure::getStringValue(Feature const & f) const {
     checkValidity(UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
     checkRangeIsString(f, UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
     lowlevel::TyFSFeature tyFeat =  internal::FSPromoter::demoteFeature( f );
     lowlevel::TyFS tyStringFS = iv_cas->getHeap()->getFSValue(iv_tyFS, tyFeat);
@@ -454,6 +455,7 @@ namespace uima {
 
   void FeatureStructure::setStringValueExternal(Feature const & f, UnicodeStringRef uls) {
     checkValidity(UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
+    checkFeature(f, UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
     checkRangeIsString(f, UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
 
     //!!! Not supporting External at this time. All strings added to StringHeap.
-- 
2.43.0


From 44847e1178dcc0f6e7b83af76108bbb01b9eadba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 06/96] fix: getFSValue refuses boolean, byte, short, long and
 double features

---
 src/cas/featurestructure.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index cdd5612..cf441fa 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -131,10 +131,7 @@ namespace uima {
     assert(EXISTS(iv_cas));
     lowlevel::TypeSystem const & rTS = iv_cas->getHeap()->getTypeSystem();
     uima::lowlevel::TyFSType rangeType = rTS.getRangeType(internal::FSPromoter::demoteFeature(crFeature));
-    if ( rangeType == uima::internal::gs_tyIntegerType
-         || rangeType == uima::internal::gs_tyFloatType
-         || rangeType == uima::internal::gs_tyStringType
-         || rTS.getParentType(rangeType) == uima::internal::gs_tyStringType ) {
+    if ( iv_cas->getTypeSystem().isPrimitive(rangeType) ) {
       ErrorMessage msg( UIMA_MSG_ID_EXC_INCOMPATIBLE_RANGE_TYPE);
       msg.addParam( rTS.getFeatureName( internal::FSPromoter::demoteFeature(crFeature) ) );
       Type t;
-- 
2.43.0


From 213c11a336f3e424ae86ea691d55da28989ca63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 07/96] fix: an FSArray is a value for features whose range is
 TOP or ArrayBase, a primitive value is not

---
 src/cas/featurestructure.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index cf441fa..511ab08 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -162,7 +162,7 @@ namespace uima {
       Type featType;
       f.getRangeType(featType);
       lowlevel::TyFSType featTypeCode = internal::FSPromoter::demoteType(featType);
-      if (aType != featTypeCode && !ts.subsumes(aType,featTypeCode) ) {
+      if (!ts.subsumes(featTypeCode,aType) && !ts.subsumes(aType,featTypeCode) ) {
         ErrorMessage msg( UIMA_MSG_ID_EXC_INCOMPATIBLE_RANGE_TYPE);
         msg.addParam( ts.getFeatureName(internal::FSPromoter::demoteFeature(f)) );
         msg.addParam( ts.getTypeName(aType) );
@@ -173,7 +173,9 @@ namespace uima {
                            ErrorInfo::recoverable
                           );
       }
-    } else if ( !ts.subsumes(ts.getRangeType(internal::FSPromoter::demoteFeature(f)), aType ) ) {
+    } else if ( !ts.subsumes(ts.getRangeType(internal::FSPromoter::demoteFeature(f)), aType )
+                || ( ts.getRangeType(internal::FSPromoter::demoteFeature(f)) == ts.getTopType()
+                     && iv_cas->getTypeSystem().isPrimitive(aType) ) ) {
       ErrorMessage msg( UIMA_MSG_ID_EXC_INCOMPATIBLE_RANGE_TYPE);
       msg.addParam( ts.getFeatureName(internal::FSPromoter::demoteFeature(f)) );
       msg.addParam( ts.getTypeName(aType) );
-- 
2.43.0


From e0c0a145f84319e8881f779fab89a8048788607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 08/96] fix: bulk array copies check the range they copy, not
 just its length

---
 src/cas/arrayfs.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/cas/arrayfs.cpp b/src/cas/arrayfs.cpp
index fd5a85d..6056d71 100644
--- a/src/cas/arrayfs.cpp
+++ b/src/cas/arrayfs.cpp
@@ -91,6 +91,22 @@ namespace uima {
     }
   }
 
+  // checks that the n elements from index start on exist
+  void checkArrayRange(lowlevel::TyFS tyFS, uima::lowlevel::FSHeap * pFSSystem, size_t start, size_t n, TyMessageId tyContext) {
+    size_t uiSize = pFSSystem->getArraySize(tyFS);
+    if (n > uiSize || start > uiSize - n) {
+      ErrorMessage err(UIMA_MSG_ID_EXC_ARRAY_OUT_OF_BOUNDS);
+      err.addParam(start + n);
+      err.addParam(uiSize);
+      UIMA_EXC_THROW_NEW(FSArrayOutOfBoundsException,
+                         UIMA_ERR_FS_ARRAY_OUT_OF_BOUNDS,
+                         err,
+                         ErrorMessage(tyContext),
+                         ErrorInfo::recoverable
+                        );
+    }
+  }
+
   /* ----------------------------------------------------------------------- */
   /*       BasicArrayFS                                                      */
   /* ----------------------------------------------------------------------- */
@@ -170,7 +186,7 @@ namespace uima {
     T* destArray,
     size_t uiDestOffset) const {
       checkValidity(UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
-      checkArraySize(iv_tyFS, iv_cas->getHeap(), uiEnd - uiStart - 1 , UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
+      checkArrayRange(iv_tyFS, iv_cas->getHeap(), uiStart, uiEnd - uiStart, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
       uima::lowlevel::TyFSType typecode = iv_cas->getHeap()->getType(iv_tyFS);
 
 	  size_t srcOffset = uiStart;
@@ -205,12 +221,10 @@ namespace uima {
     size_t uiEnd,
     size_t uiOffset) {
       checkValidity(UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
-      checkArraySize(iv_tyFS, iv_cas->getHeap(), uiEnd - uiStart - 1, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
-      
 	  size_t srcOffset = uiStart;
 	  size_t numelements = uiEnd-uiStart;
 	  size_t destOffset = uiOffset;
-	  checkArraySize(iv_tyFS, iv_cas->getHeap(), destOffset+numelements-1, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
+	  checkArrayRange(iv_tyFS, iv_cas->getHeap(), destOffset, numelements, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
       uima::lowlevel::TyFSType typecode = iv_cas->getHeap()->getType(iv_tyFS);
 
 	  if (typecode== uima::internal::gs_tyIntArrayType || 
-- 
2.43.0


From 39f83ba4be0187ddb166a574f80e7b55c93a1e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 09/96] fix: bulk copies work for string arrays and feature
 structure arrays

---
 src/cas/arrayfs.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/cas/arrayfs.cpp b/src/cas/arrayfs.cpp
index 6056d71..289c2b9 100644
--- a/src/cas/arrayfs.cpp
+++ b/src/cas/arrayfs.cpp
@@ -205,13 +205,10 @@ namespace uima {
 		        typecode== uima::internal::gs_tyDoubleArrayType) {
 		  iv_cas->getHeap()->copyToArray( srcOffset,iv_tyFS,(INT64*) destArray,destOffset,numelements);
       } else {
-      assertWithMsg(false, "Not yet implemented");
-      UIMA_EXC_THROW_NEW(NotYetImplementedException,
-                 UIMA_ERR_NOT_YET_IMPLEMENTED,
-                 UIMA_MSG_ID_EXC_NOT_YET_IMPLEMENTED,
-                 ErrorMessage(UIMA_MSG_ID_EXCON_UNKNOWN_CONTEXT),
-                 ErrorInfo::unrecoverable
-                );
+        // strings and feature structures are converted one by one
+        for (size_t i = 0; i < numelements; ++i) {
+          destArray[destOffset + i] = get(srcOffset + i);
+        }
       }
   }
   template< class T, const uima::lowlevel::TyFSType ARRAY_TYPE >
@@ -244,13 +241,10 @@ namespace uima {
        	iv_cas->getHeap()->copyFromArray(  (INT64 *) sourceArray, srcOffset,  iv_tyFS, destOffset, numelements);
       }
       else {
-        assertWithMsg(false, "Not yet implemented");
-        UIMA_EXC_THROW_NEW(NotYetImplementedException,
-                         UIMA_ERR_NOT_YET_IMPLEMENTED,
-                         UIMA_MSG_ID_EXC_NOT_YET_IMPLEMENTED,
-                         ErrorMessage(UIMA_MSG_ID_EXCON_UNKNOWN_CONTEXT),
-                         ErrorInfo::unrecoverable
-                        );
+        // strings and feature structures are converted one by one
+        for (size_t i = 0; i < numelements; ++i) {
+          set(destOffset + i, sourceArray[srcOffset + i]);
+        }
 
     }
   }
-- 
2.43.0


From 47efe8022103b0d0d10891c8cb31aacdb2ced677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 10/96] fix: append, prepend and setTail refuse every list that
 would become circular

---
 src/cas/listfs.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/cas/listfs.cpp b/src/cas/listfs.cpp
index b8b31fe..21bf6c3 100644
--- a/src/cas/listfs.cpp
+++ b/src/cas/listfs.cpp
@@ -119,15 +119,15 @@ namespace uima {
   BasicListFS<T, LIST_TYPE, ELIST_TYPE, NELIST_TYPE, HEAD_FEATURE, TAIL_FEATURE>::
   checkCircularity(lowlevel::TyFS tyFS1, lowlevel::TyFS tyFS2, TyMessageId tyContext) const {
     assert(EXISTS(iv_cas));
-    if ( tyFS1 == tyFS2 ) {
-      lowlevel::FSHeap const & crHeap = *iv_cas->getHeap();
-      lowlevel::TyFSType tyType1 = crHeap.getType( tyFS1 );
-      lowlevel::TyFSType tyType2 = crHeap.getType( tyFS2 );
-      // if both lists are empty we don't have any problem
-      if (   tyType1 == ELIST_TYPE
-             && tyType2 == ELIST_TYPE) {
-        return;
-      }
+    lowlevel::FSHeap const & crHeap = *iv_cas->getHeap();
+    // if one of the lists is empty we don't have any problem
+    if (   crHeap.getType( tyFS1 ) != NELIST_TYPE
+           || crHeap.getType( tyFS2 ) != NELIST_TYPE) {
+      return;
+    }
+    // lists that share elements share their last one
+    size_t uiSize = 0;
+    if ( getLastListElement(tyFS1, uiSize) == getLastListElement(tyFS2, uiSize) ) {
       UIMA_EXC_THROW_NEW(ListIsCircularException,
                          UIMA_ERR_LIST_IS_CIRCULAR,
                          UIMA_MSG_ID_EXC_LIST_IS_CIRCULAR,
@@ -364,6 +364,19 @@ namespace uima {
     checkNEList(iv_tyFS, UIMA_MSG_ID_EXCON_SETTING_LIST_TAIL);
     assert(EXISTS(iv_cas));
     lowlevel::FSHeap & rHeap = *iv_cas->getHeap();
+    // this element must not be one of the elements of its own tail
+    lowlevel::TyFS tyNext = fs.iv_tyFS;
+    while ( rHeap.getType(tyNext) == NELIST_TYPE ) {
+      if ( tyNext == iv_tyFS ) {
+        UIMA_EXC_THROW_NEW(ListIsCircularException,
+                           UIMA_ERR_LIST_IS_CIRCULAR,
+                           UIMA_MSG_ID_EXC_LIST_IS_CIRCULAR,
+                           ErrorMessage(UIMA_MSG_ID_EXCON_SETTING_LIST_TAIL),
+                           ErrorInfo::recoverable
+                          );
+      }
+      tyNext = rHeap.getFSValue(tyNext, TAIL_FEATURE);
+    }
     assert( rHeap.getType(iv_tyFS) == NELIST_TYPE );
     rHeap.setFSValue(iv_tyFS, TAIL_FEATURE, fs.iv_tyFS);
   }
-- 
2.43.0


From 724c35bb235ef1734a3389160cf15e3d58e86d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 11/96] fix: the list accessors of a feature structure check
 the structure and the feature

---
 src/cas/featurestructure.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 511ab08..6415cc4 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -538,6 +538,8 @@ namespace uima {
   /* ----------------------------------------------------------------------- */
 
   bool FeatureStructure::hasListElements(Feature const & f) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_LIST_ISEMPTY);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_LIST_ISEMPTY);
     Type tRangeType;
     f.getRangeType(tRangeType);
     lowlevel::TyFSFeature tyRangeType = internal::FSPromoter::demoteType(tRangeType);
@@ -569,18 +571,26 @@ namespace uima {
   }
 
   ListFS FeatureStructure::getListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return ListFS::getListFSValue(*this, f);
   }
 
   FloatListFS FeatureStructure::getFloatListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return FloatListFS::getListFSValue(*this, f);
   }
 
   IntListFS FeatureStructure::getIntListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return IntListFS::getListFSValue(*this, f);
   }
 
   StringListFS FeatureStructure::getStringListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return StringListFS::getListFSValue(*this, f);
   }
 
-- 
2.43.0


From 7d04bef70412e5e8a53014fd2c3875f369db72f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 12/96] fix: removing a structure from an index marks the
 caches of supertype indexes as out of date

---
 src/cas/uima/lowlevel_indexrepository.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cas/uima/lowlevel_indexrepository.hpp b/src/cas/uima/lowlevel_indexrepository.hpp
index c4b4ea6..6284978 100644
--- a/src/cas/uima/lowlevel_indexrepository.hpp
+++ b/src/cas/uima/lowlevel_indexrepository.hpp
@@ -41,6 +41,7 @@
 
 #include <map>
 #include <list>
+#include <algorithm>
 #include "uima/lowlevel_fsheap.hpp"
 #include "uima/lowlevel_internal_indexes.hpp"
 #include "uima/lowlevel_indexdefinition.hpp"
@@ -267,8 +268,17 @@ namespace uima {
       assert( iv_bIsInitialized );
       TyFSType type = iv_rFSHeap.getType(fs);
       UIMA_TPRINT("Removing fs of type " << iv_rFSHeap.getTypeSystem().getTypeName(type) << ": " << (int) fs);
+      assert( type < iv_cacheDirtyFlags.size() );
+      iv_cacheDirtyFlags[type].clear();
       assert( type < iv_indexes.size() );
       std::vector<internal::SingleIndex*>& typeIndexes = iv_indexes[type];
+      if (typeIndexes.size() == 0) {
+        std::vector<TyFS>::iterator uit = std::find(iv_undefinedindex.begin(), iv_undefinedindex.end(), fs);
+        if (uit != iv_undefinedindex.end()) {
+          iv_undefinedindex.erase(uit);
+        }
+        return;
+      }
 
       std::vector<internal::SingleIndex*>::iterator it;
       for (it = typeIndexes.begin(); it != typeIndexes.end(); ++it) {
@@ -280,12 +290,14 @@ namespace uima {
 
     inline void IndexRepository::add(TyFS fs, IndexDefinition::TyIndexID const & crID) {
       assert( iv_bIsInitialized );
+      iv_cacheDirtyFlags[iv_rFSHeap.getType(fs)].clear();
       internal::SingleIndex* ix = getSingleIndexForFS(fs, crID);
       ix->add(fs);
     }
 
     inline void IndexRepository::remove(TyFS fs, IndexDefinition::TyIndexID const & crID) {
       assert( iv_bIsInitialized );
+      iv_cacheDirtyFlags[iv_rFSHeap.getType(fs)].clear();
       internal::SingleIndex* ix = getSingleIndexForFS(fs, crID);
       ix->remove(fs);
     }
-- 
2.43.0


From c43d37f586639eb7cda23e59fac6913fd6c4e59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 13/96] fix: removing a structure from an index removes that
 structure, never another one

---
 src/cas/lowlevel_internal_indexes.cpp      | 3 +--
 src/cas/uima/lowlevel_internal_indexes.hpp | 5 ++++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index 38d5d14..ec45d17 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -649,8 +649,7 @@ namespace uima {
       }
 
       void OrderedSingleIndex::remove(TyFS fs) {
-        IndexComparatorLess comp(iv_cpComparator, iv_crFSHeap);
-        TyStructures::iterator it = lower_bound( iv_tyStructures.begin(), iv_tyStructures.end(), fs, comp);
+        TyStructures::iterator it = std::find( iv_tyStructures.begin(), iv_tyStructures.end(), fs );
         if ( it != iv_tyStructures.end() ) {
           iv_tyStructures.erase(it);
         }
diff --git a/src/cas/uima/lowlevel_internal_indexes.hpp b/src/cas/uima/lowlevel_internal_indexes.hpp
index 9abe1c2..dbd263f 100644
--- a/src/cas/uima/lowlevel_internal_indexes.hpp
+++ b/src/cas/uima/lowlevel_internal_indexes.hpp
@@ -206,7 +206,10 @@ namespace uima {
         }
         void remove(TyFS fs) {
           assert( EXISTS(iv_pStructures) );
-          (void) iv_pStructures->erase(fs);
+          TyStructures::iterator it = iv_pStructures->find(fs);
+          if (it != iv_pStructures->end() && *it == fs) {
+            iv_pStructures->erase(it);
+          }
         }
 
         void reset();
-- 
2.43.0


From a19b57f6a5bba260c47801d4ac6e86c8c457ecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 14/96] fix: moveTo goes to the first element not smaller than
 the given one, or beyond the end

---
 src/cas/cas.cpp                       |  8 +++-----
 src/cas/lowlevel_index.cpp            |  4 +++-
 src/cas/lowlevel_internal_indexes.cpp | 24 +++++++++++++-----------
 3 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 2509916..364a180 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1490,11 +1490,9 @@ namespace uima {
 
         moveTo(lastValidFS);
         assert( isValid() );
-
-        if (isValid()) {
-          if (iv_pIterator->get() == iv_tyMoveToFirstFS) {
-            iv_pIterator->moveToPrevious();
-          }
+        // several structures may be equal: go on to the last one passed over
+        while (get() != lastValidFS) {
+          iv_pIterator->moveToNext();
         }
 
 
diff --git a/src/cas/lowlevel_index.cpp b/src/cas/lowlevel_index.cpp
index d071c5c..e4f5fd0 100644
--- a/src/cas/lowlevel_index.cpp
+++ b/src/cas/lowlevel_index.cpp
@@ -172,7 +172,9 @@ namespace uima {
 
       bool moveTo(TyFS fs) {
         assert( EXISTS(iv_pIterator) );
-        return iv_pIterator->moveTo(fs);
+        iv_pIterator->moveTo(fs);
+        moveToNextUnfiltered();
+        return isValid();
       }
 
     };
diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index ec45d17..024b777 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -165,12 +165,19 @@ namespace uima {
 
           if (iv_cpComparator == NULL) {
             cit = find(iv_crStructures.begin(), iv_crStructures.end(), fs);
-            if (cit != iv_crStructures.end()) {
-              ++cit;
-            }
           } else {
-            // first try to find the same fs
+            // first try to find the same fs and go to the first of those equal to it
             cit = find(iv_crStructures.begin(), iv_crStructures.end(), fs);
+            if (cit != iv_crStructures.end()) {
+              while (cit != iv_crStructures.begin()) {
+                typename T::const_iterator prev = cit;
+                --prev;
+                if (iv_cpComparator->compare(iv_heap, *prev, fs) != 0) {
+                  break;
+                }
+                cit = prev;
+              }
+            }
             // if not found, find an equivalent one
             if (cit == iv_crStructures.end()) {
               FSIndexCompare comp( iv_cpComparator, iv_heap );
@@ -178,13 +185,8 @@ namespace uima {
             }
           }
 
-          bool bCanBeSet = ( cit != iv_crStructures.end() );
-          if (bCanBeSet) {
-            iv_it = cit;
-            return true;
-          } else {
-            return false;
-          }
+          iv_it = cit;
+          return ( cit != iv_crStructures.end() );
         }
 
       };
-- 
2.43.0


From bc8f41dc1052b62a78fce10bea7a3f371af80c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 15/96] fix: a subiterator moved back beyond its first
 annotation is invalid

---
 src/cas/cas.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 364a180..bb17db6 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1411,13 +1411,16 @@ namespace uima {
       size_t iv_uiBegPos;
       size_t iv_uiEndPos;
       TyFS   iv_tyMoveToFirstFS;
+      // the first structure of this iterator
+      TyFS   iv_tyFirstFS;
     public:
       SubIterator(uima::lowlevel::FSHeap & heap, size_t uiBeginPos, size_t uiEndPos, IndexIterator* pIterator):
           iv_heap(&heap),
           iv_pIterator(pIterator),
           iv_uiBegPos(uiBeginPos),
           iv_uiEndPos(uiEndPos),
-          iv_tyMoveToFirstFS(0) {
+          iv_tyMoveToFirstFS(0),
+          iv_tyFirstFS(0) {
         assert( EXISTS(iv_heap) );
         TyFSType    tyTAN  = iv_heap->getTypeSystem().getTypeByName(CAS::TYPE_NAME_ANNOTATION);
         // create the longest possible AN starting at uiBeginPos (must be first of all starting there)
@@ -1431,7 +1434,8 @@ namespace uima {
           iv_pIterator(pIterator),
           iv_uiBegPos(iv_heap->getIntValue(tyAn, uima::internal::gs_tyBeginPosFeature)),
           iv_uiEndPos(iv_heap->getIntValue(tyAn, uima::internal::gs_tyEndPosFeature)),
-          iv_tyMoveToFirstFS(tyAn) {}
+          iv_tyMoveToFirstFS(tyAn),
+          iv_tyFirstFS(0) {}
 
       virtual ~SubIterator() {
         assert( EXISTS(iv_pIterator) );
@@ -1449,6 +1453,7 @@ namespace uima {
             iv_pIterator->moveToNext();
           }
         }
+        iv_tyFirstFS = isValid() ? get() : (TyFS) uima::lowlevel::FSHeap::INVALID_FS;
       }
 
       void moveToNext() {
@@ -1465,6 +1470,12 @@ namespace uima {
 
       void moveToPrevious() {
         assert( isValid() );
+        if (iv_pIterator->get() == iv_tyFirstFS) {
+          // what precedes the first structure is not covered, wherever it begins
+          iv_pIterator->moveToLast();
+          iv_pIterator->moveToNext();
+          return;
+        }
         iv_pIterator->moveToPrevious();
         if (isValid()) {
           if (iv_pIterator->get() == iv_tyMoveToFirstFS) {
@@ -1532,7 +1543,8 @@ namespace uima {
         assert( EXISTS(iv_heap) );
         assert( EXISTS(iv_pIterator) );
         // don't call 4-arg constructor here! Pass on the FS to be moved to
-        IndexIterator * pResult = new SubIterator(*iv_heap, iv_tyMoveToFirstFS, iv_pIterator->clone());
+        SubIterator * pResult = new SubIterator(*iv_heap, iv_tyMoveToFirstFS, iv_pIterator->clone());
+        pResult->iv_tyFirstFS = iv_tyFirstFS;
         assert( EXISTS(pResult) );
 
         assert( isValid() == pResult->isValid() );
@@ -1594,7 +1606,9 @@ namespace uima {
       IndexIterator* clone() const {
         assert( EXISTS(iv_heap) );
         assert( EXISTS(iv_pIterator) );
-        return new UnAmbiguousSubIterator(*iv_heap, iv_tyMoveToFirstFS, iv_pIterator->clone());
+        UnAmbiguousSubIterator * pResult = new UnAmbiguousSubIterator(*iv_heap, iv_tyMoveToFirstFS, iv_pIterator->clone());
+        pResult->iv_tyFirstFS = iv_tyFirstFS;
+        return pResult;
       }
 
     }
-- 
2.43.0


From b95953138cff8351af44fa1473a5891e5f4ef594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 16/96] fix: copying an iterator that iterates over nothing
 makes another one

---
 src/cas/fsiterator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cas/fsiterator.cpp b/src/cas/fsiterator.cpp
index deb54e5..b8ca987 100644
--- a/src/cas/fsiterator.cpp
+++ b/src/cas/fsiterator.cpp
@@ -76,7 +76,9 @@ namespace uima {
     }
     iv_pIterator = NULL;
     iv_cas = crOther.iv_cas;
-    iv_pIterator = crOther.iv_pIterator->clone();
+    if (crOther.iv_pIterator != NULL) {
+      iv_pIterator = crOther.iv_pIterator->clone();
+    }
     return *this;
   }
 
-- 
2.43.0


From d077cd05b6c48ec1332e84a3f16e6dfcf9d3a014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 17/96] fix: asking for an index with an unknown label raises
 InvalidIndexIDException instead of crashing

---
 src/cas/fsindexrepository.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cas/fsindexrepository.cpp b/src/cas/fsindexrepository.cpp
index 014c341..4f93ba2 100644
--- a/src/cas/fsindexrepository.cpp
+++ b/src/cas/fsindexrepository.cpp
@@ -113,6 +113,17 @@ namespace uima {
   }
 
   Type FSIndexRepository::getTypeForIndex(icu::UnicodeString const & crLabel) const {
+    if (! isValidIndexID( crLabel ) ) {
+      ErrorMessage msg(UIMA_MSG_ID_EXCON_GETTING_INDEX);
+      msg.addParam(crLabel);
+
+      UIMA_EXC_THROW_NEW(InvalidIndexIDException,
+                         UIMA_ERR_INVALID_INDEX_ID,
+                         UIMA_MSG_ID_EXC_INVALID_INDEX_ID,
+                         msg,
+                         ErrorInfo::recoverable
+                        );
+    }
     uima::lowlevel::TyFSType tyType = getLowlevelIndexRepository().getIndexDefinition().getTypeForIndex(crLabel);
     return uima::internal::FSPromoter::promoteType(tyType, getLowlevelIndexRepository().getFSHeap().getTypeSystem() );
   }
-- 
2.43.0


From 323a114537d9eecf6eccf90d49b46cac6ee23dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 18/96] fix: index keys may be features whose range is a
 subtype of String

---
 src/cas/lowlevel_indexcomparator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_indexcomparator.cpp b/src/cas/lowlevel_indexcomparator.cpp
index bea89cc..749be28 100644
--- a/src/cas/lowlevel_indexcomparator.cpp
+++ b/src/cas/lowlevel_indexcomparator.cpp
@@ -96,7 +96,8 @@ namespace uima {
           iv_appropTypes.push_back( BUILTIN_TYPE_INTEGER );
         } else if (tyAppropType == crTypeSystem.getTypeByName( CAS::TYPE_NAME_FLOAT)) {
           iv_appropTypes.push_back( BUILTIN_TYPE_FLOAT );
-        } else if (tyAppropType == crTypeSystem.getTypeByName( CAS::TYPE_NAME_STRING)) {
+        } else if (tyAppropType == crTypeSystem.getTypeByName( CAS::TYPE_NAME_STRING)
+                   || crTypeSystem.isStringSubType(tyAppropType)) {
           iv_appropTypes.push_back( BUILTIN_TYPE_STRING );
         } else if (tyAppropType == crTypeSystem.getTypeByName( CAS::TYPE_NAME_BOOLEAN)) {
           iv_appropTypes.push_back( BUILTIN_TYPE_BOOLEAN );
-- 
2.43.0


From e01d7ef67677d6fd89d7a7846c1304c374513aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 19/96] fix: the document annotation leaves the indexes before
 its end changes

---
 src/cas/cas.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index bb17db6..bd83ea0 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1017,10 +1017,10 @@ namespace uima {
       if (pDoc.length() > 0) {
         copyDocumentString(pDoc);
         getDocumentAnnotation(); // create DocumentAnnotation if necessary
+        // re-index the annotation: it must leave the indexes before its end, which is a key, changes
+        iv_indexRepository->remove(iv_tyDocumentAnnotation);
         iv_heap->setIntValue( iv_tyDocumentAnnotation, uima::internal::gs_tyEndPosFeature,
                               (int) iv_uiDocumentLength);
-        // re-index the annotation
-        iv_indexRepository->remove(iv_tyDocumentAnnotation);
         iv_indexRepository->add(iv_tyDocumentAnnotation);
       }
     }
-- 
2.43.0


From 8eaec93f763a4e9ee87faa8c010718b8c118a5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 20/96] fix: an annotation made before its view had a Sofa
 belongs to the initial view

---
 src/cas/cas.cpp              | 7 ++++++-
 src/cas/featurestructure.cpp | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index bd83ea0..0b86edb 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1158,7 +1158,8 @@ namespace uima {
                                             internal::FSPromoter::demoteType(internal::FSPromoter::promoteFS(tyCell, *this).getType()))) {
       // an annotation. Check that sofaNum agrees with current CAS
       lowlevel::TyFS annSofaAddr = getHeap()->getFSValue(tyCell, internal::gs_tySofaRefFeature);
-      if ( annSofaAddr != internal::FSPromoter::demoteFS(getSofa())) {
+      if ( annSofaAddr != uima::lowlevel::FSHeap::INVALID_FS &&
+           annSofaAddr != internal::FSPromoter::demoteFS(getSofa())) {
         // does not agree. Get appropriate View for annotation Sofa
         int annSofaNum = getHeap()->getIntValue(annSofaAddr, internal::gs_tySofaNumFeature);
         return *getViewBySofaNum(annSofaNum);
@@ -1281,6 +1282,10 @@ namespace uima {
   CAS * AnnotationFS::getView() {
     assert(EXISTS(iv_cas));
     lowlevel::TyFS annSofaAddr = iv_cas->getHeap()->getFSValue(iv_tyFS, internal::gs_tySofaRefFeature);
+    if (annSofaAddr == uima::lowlevel::FSHeap::INVALID_FS) {
+      // made in the initial view before that had a Sofa
+      return iv_cas->getInitialView();
+    }
     int annSofaNum = iv_cas->getHeap()->getIntValue(annSofaAddr, internal::gs_tySofaNumFeature);
     return iv_cas->getViewBySofaNum(annSofaNum);
   }
diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 6415cc4..1b06cad 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -277,7 +277,8 @@ namespace uima {
             internal::FSPromoter::demoteType(internal::FSPromoter::promoteFS(resultAddr, *iv_cas).getType()))) {
       // an annotation. Check that sofaNum agrees with current CAS
       lowlevel::TyFS annSofaAddr = iv_cas->getHeap()->getFSValue(resultAddr, internal::gs_tySofaRefFeature);
-      if ( annSofaAddr != internal::FSPromoter::demoteFS(iv_cas->getSofa())) {
+      if ( annSofaAddr != uima::lowlevel::FSHeap::INVALID_FS &&
+           annSofaAddr != internal::FSPromoter::demoteFS(iv_cas->getSofa())) {
         // does not agree. Get appropriate View for annotation Sofa
         int annSofaNum = iv_cas->getHeap()->getIntValue(annSofaAddr, internal::gs_tySofaNumFeature);
         CAS* annTcas = iv_cas->getViewBySofaNum(annSofaNum);
-- 
2.43.0


From 4f691a0c39cbd8b8e2bb4d550365d8cf3eed5071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 21/96] fix: the data of a subject of analysis can be set only
 once

---
 src/cas/cas.cpp | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 0b86edb..6233550 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -161,6 +161,7 @@ namespace uima {
 */
 
 namespace uima {
+  static void checkSofaDataNotSet(SofaFS & crSofa);
   UIMA_EXC_CLASSIMPLEMENT( CouldNotCreateFSOfFinalTypeException, CASException );
   UIMA_EXC_CLASSIMPLEMENT( DuplicateSofaNameException, CASException );
   UIMA_EXC_CLASSIMPLEMENT( InvalidBaseCasMethod, CASException );
@@ -671,17 +672,18 @@ namespace uima {
     if (cpDocument == NULL) {
       assert( uiLength == 0 );
     }
+    SofaFS thisSofa = getSofa();
+    if (!thisSofa.isValid()) {
+      thisSofa = createInitialSofa(UnicodeStringRef("text"));
+    }
+    checkSofaDataNotSet(thisSofa);
     if (bCopyToCAS && ( cpDocument != NULL ) ) {
       copyDocumentString(UnicodeStringRef(cpDocument, uiLength));
     } else {
       iv_cpDocument = cpDocument;
       iv_uiDocumentLength = uiLength;
     }
-    SofaFS thisSofa = getSofa();
-    if (!thisSofa.isValid()) {
-      thisSofa = createInitialSofa(UnicodeStringRef("text"));
-    }
-    thisSofa.setLocalSofaData(UnicodeStringRef(iv_cpDocument, iv_uiDocumentLength));
+    thisSofa.setLocalSofaData(UnicodeStringRef(cpDocument, uiLength));
   }
 
   void CAS::setDocumentText(UnicodeStringRef const text) {
@@ -692,6 +694,7 @@ namespace uima {
     if (!thisSofa.isValid()) {
       thisSofa = createInitialSofa(UnicodeStringRef("text"));
     }
+    checkSofaDataNotSet(thisSofa);
     copyDocumentString(text);
     thisSofa.setLocalSofaData(text);
   }
@@ -1172,6 +1175,21 @@ namespace uima {
   /*****************************************************************************/
   /*  SofaFS                                                             */
   /*****************************************************************************/
+  // Once set, Sofa data is immutable until the CAS is reset
+  static void checkSofaDataNotSet(SofaFS & crSofa) {
+    Type sofaType = crSofa.getType();
+    if (!crSofa.isUntouchedFSValue(sofaType.getFeatureByBaseName(CAS::FEATURE_BASE_NAME_SOFASTRING)) ||
+        !crSofa.isUntouchedFSValue(sofaType.getFeatureByBaseName(CAS::FEATURE_BASE_NAME_SOFAARRAY)) ||
+        !crSofa.isUntouchedFSValue(sofaType.getFeatureByBaseName(CAS::FEATURE_BASE_NAME_SOFAURI))) {
+      UIMA_EXC_THROW_NEW(CASException,
+                         UIMA_ERR_DUPLICATE_EXISTS,
+                         ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "the data of this Sofa has been set already"),
+                         UIMA_MSG_ID_EXCON_SETTING_FEATURE_VALUE,
+                         ErrorInfo::recoverable
+                        );
+    }
+  }
+
   SofaFS::SofaFS(FeatureStructure const & fs)
       : FeatureStructure(fs) {
     assert(sizeof(FeatureStructure) == sizeof(SofaFS)); // no additonal data members
@@ -1185,7 +1203,7 @@ namespace uima {
   }
 
   void SofaFS::setLocalSofaData(FeatureStructure aFS) {
-    //TODO NEED TO FAIL THIS IF DATA, STRING, or URI ALREADY SET !!!
+    checkSofaDataNotSet(*this);
     lowlevel::TyFS tySofa = internal::FSPromoter::demoteFS(*this);
     iv_cas->getHeap()->setFSValue(tySofa, internal::gs_tySofaArrayFeature,
                                   internal::FSPromoter::demoteFS(aFS));
@@ -1193,7 +1211,7 @@ namespace uima {
   }
 
   void SofaFS::setLocalSofaData(UnicodeStringRef const aString) {
-    //TODO NEED TO FAIL THIS IF DATA, STRING, or URI ALREADY SET !!!
+    checkSofaDataNotSet(*this);
     this->setStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaStringFeature,
                          iv_cas->getHeap()->getTypeSystem()), aString);
     int sofaNum = this->getIntValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaNumFeature,
@@ -1208,7 +1226,7 @@ namespace uima {
   }
 
   void SofaFS::setRemoteSofaURI(icu::UnicodeString const & aString) {
-    //TODO NEED TO FAIL THIS IF DATA, STRING, or URI ALREADY SET !!!
+    checkSofaDataNotSet(*this);
     this->setStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaURIFeature, iv_cas->getHeap()->getTypeSystem()), aString);
     return;
   }
-- 
2.43.0


From 71e241a7f0bc3cfb75d65d05abb21b614bb362c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 22/96] fix: a CAS deletes its own copy of the document only

---
 src/cas/cas.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 6233550..9b2f921 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -303,10 +303,12 @@ namespace uima {
       delete iv_indexRepository;
       iv_indexRepository = NULL;
 		}
-    if (this->iv_cpDocument != NULL) {
-      delete[] this->iv_cpDocument;
-      this->iv_cpDocument = NULL;
+    // iv_cpDocument is either this copy or belongs to the caller of setDocumentText
+    if (this->iv_copyOfDocument != NULL) {
+      delete[] this->iv_copyOfDocument;
+      this->iv_copyOfDocument = NULL;
     }
+    this->iv_cpDocument = NULL;
     //initial call to delete object
     if (this->isbaseCas) {
       this->iv_baseCas->isDeletingViews = true;
-- 
2.43.0


From 0bfee5cd2d1e7bb593dc6d15080953ce04528c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 23/96] fix: x is a letter of language codes

---
 src/framework/language.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/language.cpp b/src/framework/language.cpp
index 77bf025..f46fdf0 100644
--- a/src/framework/language.cpp
+++ b/src/framework/language.cpp
@@ -74,7 +74,7 @@ namespace uima {
   Language::init( const char * cpszLanguageCode ) {
     // Check that have 2 chars (a-z) or 2 such pairs separated by - or _
 
-    static const char legalChars[] = "abcdefghijklmnopqrstuvwzyz";
+    static const char legalChars[] = "abcdefghijklmnopqrstuvwxyz";
 
     memset(iv_locale, '\0', 6);                           // Start with all 0's
     memset(iv_lang,   '\0', 3);
-- 
2.43.0


From 726d61b78ba268ebd28c9eeb6a6316328d219e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 24/96] fix: setting the data of a view sets the given mime
 type also when its Sofa exists

---
 src/cas/cas.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 9b2f921..0c3c92b 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -719,6 +719,7 @@ namespace uima {
       thisSofa = createInitialSofa(mimetype);
     }
     setDocumentText(text);
+    thisSofa.setSofaMime(mimetype);
   }
 
   UnicodeStringRef CAS::getDocumentText()const {
@@ -828,7 +829,8 @@ namespace uima {
     if (!thisSofa.isValid()) {
       thisSofa = createInitialSofa(mime);
     }
-    getSofa().setLocalSofaData(array);
+    thisSofa.setLocalSofaData(array);
+    thisSofa.setSofaMime(mime);
   }
 
   FeatureStructure CAS::getSofaDataArray() {
@@ -843,10 +845,12 @@ namespace uima {
     if (isbaseCas) {
       invalidBaseCasMethod();
     }
-    if (!getSofa().isValid()) {
-      createInitialSofa(mime);
+    SofaFS thisSofa = getSofa();
+    if (!thisSofa.isValid()) {
+      thisSofa = createInitialSofa(mime);
     }
-    getSofa().setRemoteSofaURI(uri);
+    thisSofa.setRemoteSofaURI(uri);
+    thisSofa.setSofaMime(mime);
   }
 
   UnicodeStringRef CAS::getSofaDataURI() {
-- 
2.43.0


From fe2cc81bd37b0b6e75344c6ad07e78f798199a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 25/96] fix: reading the data of a subject of analysis that
 does not exist raises an exception instead of crashing

---
 src/cas/cas.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 0c3c92b..fd484e4 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -535,6 +535,7 @@ namespace uima {
   // Get or Create CAS view for aSofa
 
   CAS* CAS::getView(SofaFS aSofa) {
+    aSofa.checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     CAS* aTcas;
     int sofaNum = iv_heap->getIntValue(internal::FSPromoter::demoteFS(aSofa), internal::gs_tySofaNumFeature);
     map<int, CAS*>::iterator cit = iv_baseCas->iv_sofa2tcasMap.find(sofaNum);
@@ -1238,26 +1239,32 @@ namespace uima {
   }
 
   UnicodeStringRef SofaFS::getSofaMime() {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return this->getStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaMimeFeature, iv_cas->getHeap()->getTypeSystem()));
   }
 
   UnicodeStringRef SofaFS::getSofaID() {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return this->getStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaIDFeature, iv_cas->getHeap()->getTypeSystem()));
   }
 
   UnicodeStringRef SofaFS::getSofaURI() {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return this->getStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaURIFeature, iv_cas->getHeap()->getTypeSystem()));
   }
 
   int SofaFS::getSofaRef() {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return this->getIntValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaNumFeature, iv_cas->getHeap()->getTypeSystem()));
   }
 
   FeatureStructure SofaFS::getLocalFSData() {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return this->getFSValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaArrayFeature, iv_cas->getHeap()->getTypeSystem()));
   }
 
   UnicodeStringRef SofaFS::getLocalStringData() {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return this->getStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaStringFeature, iv_cas->getHeap()->getTypeSystem()));
   }
 
-- 
2.43.0


From fc600a996481bdc7fba32a78f199e318fa5cbf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 26/96] fix: annotation and document accessors check the
 feature structure

---
 src/cas/cas.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index fd484e4..aea3c08 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1311,7 +1311,9 @@ namespace uima {
   }
 
   CAS * AnnotationFS::getView() {
-    assert(EXISTS(iv_cas));
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
+    checkFeature(internal::FSPromoter::promoteFeature(internal::gs_tySofaRefFeature, iv_cas->getHeap()->getTypeSystem()),
+                 UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     lowlevel::TyFS annSofaAddr = iv_cas->getHeap()->getFSValue(iv_tyFS, internal::gs_tySofaRefFeature);
     if (annSofaAddr == uima::lowlevel::FSHeap::INVALID_FS) {
       // made in the initial view before that had a Sofa
@@ -1322,16 +1324,14 @@ namespace uima {
   }
 
   size_t AnnotationFS::getBeginPosition( void ) const {
-    assert(EXISTS(iv_cas));
-    assert(iv_cas->getHeap()->getIntValue(iv_tyFS, uima::internal::gs_tyBeginPosFeature) >= 0);
-    return(size_t)iv_cas->getHeap()->getIntValue(iv_tyFS, uima::internal::gs_tyBeginPosFeature);
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
+    return(size_t)getIntValue(internal::FSPromoter::promoteFeature(internal::gs_tyBeginPosFeature, iv_cas->getHeap()->getTypeSystem()));
   }
 
 
   size_t AnnotationFS::getEndPosition( void ) const {
-    assert(EXISTS(iv_cas));
-    assert(iv_cas->getHeap()->getIntValue(iv_tyFS, uima::internal::gs_tyEndPosFeature) >= 0);
-    return(size_t)iv_cas->getHeap()->getIntValue(iv_tyFS, uima::internal::gs_tyEndPosFeature);
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
+    return(size_t)getIntValue(internal::FSPromoter::promoteFeature(internal::gs_tyEndPosFeature, iv_cas->getHeap()->getTypeSystem()));
   }
 
 
@@ -1407,8 +1407,8 @@ namespace uima {
   }
 
   Language DocumentFS::getLanguage() const {
-    assert(EXISTS(iv_cas));
-    assert( iv_cas->getHeap()->isValid(iv_tyFS) );
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
+    checkFeature(iv_cas->getTypeSystem().getFeatureByFullName(CAS::FEATURE_FULL_NAME_LANGUAGE), UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
 
     if ( iv_cas->getHeap()->getTypeSystem().isValidFeature(getCAS().iv_utDocumentLangAsIntFeat) ) {
       int iLangID = iv_cas->getHeap()->getIntValue(iv_tyFS, getCAS().iv_utDocumentLangAsIntFeat);
@@ -1422,8 +1422,8 @@ namespace uima {
   }
 
   void DocumentFS::setLanguage(Language const & lang) {
-    assert(EXISTS(iv_cas));
-    assert( iv_cas->getHeap()->isValid(iv_tyFS) );
+    checkValidity(UIMA_MSG_ID_EXCON_SETTING_FEATURE_VALUE);
+    checkFeature(iv_cas->getTypeSystem().getFeatureByFullName(CAS::FEATURE_FULL_NAME_LANGUAGE), UIMA_MSG_ID_EXCON_SETTING_FEATURE_VALUE);
 
     if ( iv_cas->getHeap()->getTypeSystem().isValidFeature(getCAS().iv_utDocumentLangAsIntFeat) ) {
       iv_cas->getHeap()->setIntValue(iv_tyFS, getCAS().iv_utDocumentLangAsIntFeat, lang.asNumber());
-- 
2.43.0


From 7d0e89dd37b8b2c3debf80cbbe08a4a56297b71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 27/96] fix: an unambiguous subiterator moves back to the
 annotation it came from

---
 src/cas/cas.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index aea3c08..b3174c4 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1639,6 +1639,29 @@ namespace uima {
 
       }
 
+      void moveToPrevious() {
+        assert( isValid() );
+        // which structures are skipped depends on what comes before them: look from the start
+        TyFS tyCurrent = get();
+        int iCurrBeginPos = iv_heap->getIntValue(tyCurrent, uima::internal::gs_tyBeginPosFeature);
+        TyFS tyPrevious = uima::lowlevel::FSHeap::INVALID_FS;
+        moveToFirst();
+        while (isValid() && get() != tyCurrent
+               && iv_heap->getIntValue(get(), uima::internal::gs_tyBeginPosFeature) <= iCurrBeginPos) {
+          tyPrevious = get();
+          moveToNext();
+        }
+        if (tyPrevious == uima::lowlevel::FSHeap::INVALID_FS) {
+          iv_pIterator->moveToLast();
+          iv_pIterator->moveToNext();
+          return;
+        }
+        moveToFirst();
+        while (get() != tyPrevious) {
+          moveToNext();
+        }
+      }
+
       IndexIterator* clone() const {
         assert( EXISTS(iv_heap) );
         assert( EXISTS(iv_pIterator) );
-- 
2.43.0


From d0264f21d26f7f6f08a50a9a9fd8a6b680891c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:50 +0000
Subject: [PATCH 28/96] fix: binary deserialization no longer loses the initial
 view's index when the CAS has no Sofas

The entry of the base CAS was skipped only when it was not empty, so
that an empty one was read again as the entry of the first view.
---
 src/cas/internal_casdeserializer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index 284bb5c..dae85b8 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -638,13 +638,14 @@ namespace uima {
       if (loopSize > 0) {
         lastSegmentUsed = 0;
         perLoopIndexedFSs.insert(perLoopIndexedFSs.end(), cit+1, cit+1+loopSize);
-        cit += loopSize + 1;
 
         for (loopit = perLoopIndexedFSs.begin(); loopit != perLoopIndexedFSs.end(); ++loopit) {
           assert( *loopit < iMaxOffset );
           crIndexRep->add( *loopit );
         }
       }
+      // the base CAS has an entry even if it has no Sofas
+      cit += loopSize + 1;
 
       // book keeping for all Sofas
       rCAS.getBaseCas()->iv_sofaCount = 1; // reserve for initial view
-- 
2.43.0


From 84a2bf3a7b36da8133c43fb7c0e18e5b12494fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 29/96] fix: binary deserialization rebuilds the indexes after
 all heaps are loaded

The indexes were filled while the 8, 16 and 64 bit heaps were still those
of the CAS before, so that double and long keys compared as garbage.
---
 src/cas/internal_casdeserializer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index dae85b8..5da5de5 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -899,13 +899,11 @@ namespace uima {
       }
       intPtr += 1 + uiRefHeapLength;
 
-      // create FS indexes
+      // indexed FSs
       size_t uiIndexedFSLength = intPtr[0];
       if (uiIndexedFSLength > 0) {
-        uima::CAS * baseCAS = rCAS.getBaseCas();
         iv_vecIndexedFSs.resize(uiIndexedFSLength);
         memcpy(&iv_vecIndexedFSs[0], intPtr+1, 4*uiIndexedFSLength);
-        deserializeIndexedFSs(iv_vecIndexedFSs, *baseCAS);
       }
       intPtr += 1 + uiIndexedFSLength;
 
@@ -940,8 +938,10 @@ namespace uima {
         memcpy(ty64BitHeap.getHeapStart(), intPtr+1, 8*ui64BitHeapLength);
       }
 
-
-
+      // create FS indexes, now that the values of all keys are there
+      if (uiIndexedFSLength > 0) {
+        deserializeIndexedFSs(iv_vecIndexedFSs, *rCAS.getBaseCas());
+      }
     }
 
     void CASDeserializer::deserializeData(uima::internal::SerializedCAS const & crSerializedCAS,
-- 
2.43.0


From a6b95535bb9ad3f0856ec00f2ffb3cd04582f495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 30/96] fix: a blob of the other byte order keeps all eight
 bytes of 64 bit values

---
 src/cas/internal_casdeserializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index 5da5de5..7c3200a 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -733,7 +733,7 @@ namespace uima {
       output[5] = ((char*)&in)[2];
       output[6] = ((char*)&in)[1];
       output[7] = ((char*)&in)[0];
-      in = *(int*)output;
+      in = *(INT64*)output;
       return in;
     }
 
-- 
2.43.0


From 079fd21a050461e85ea504816eba83fb56c5ce29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 31/96] fix: the indexed structures of a repository are listed
 once

---
 src/cas/lowlevel_indexrepository.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_indexrepository.cpp b/src/cas/lowlevel_indexrepository.cpp
index d8a90e1..600bc8f 100644
--- a/src/cas/lowlevel_indexrepository.cpp
+++ b/src/cas/lowlevel_indexrepository.cpp
@@ -197,7 +197,7 @@ namespace uima {
       }
 	  // eliminate duplicates
       sort(fillit.begin(), fillit.end());
-      vector<TyFS>::iterator end = unique(fillit.begin(), fillit.end());
+      fillit.erase(unique(fillit.begin(), fillit.end()), fillit.end());
     }
 
     void IndexRepository::reset() {
-- 
2.43.0


From d14fe20376a489bf52b47fc7008150fb72b97875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 32/96] fix: tabs in attribute values are escaped

---
 src/cas/xmlwriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index cbd305b..af0f332 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -81,6 +81,7 @@ namespace uima {
     static icu::UnicodeString const ustrQUOT_ESC("&quot;");
     static icu::UnicodeString const ustrCR_ESC("&#13;");
     static icu::UnicodeString const ustrLF_ESC("&#10;");
+    static icu::UnicodeString const ustrTAB_ESC("&#9;");
 
     static UChar const uAMP('&');
     static UChar const uGT('>');
@@ -89,6 +90,7 @@ namespace uima {
     static UChar const uQUOT('"');
     static UChar const uCR('\r');
     static UChar const uLF('\n');
+    static UChar const uTAB('\t');
     
     const UChar * srcPtr = in.getBuffer();
 
@@ -115,6 +117,9 @@ namespace uima {
         case uLF: 
           out.append(ustrLF_ESC);
           break;
+        case uTAB: 
+          out.append(ustrTAB_ESC);
+          break;
         default:
           out.append(*srcPtr);
       }
-- 
2.43.0


From 32f53c9e0bb464f49030e17f8e4b109e4e8f61fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 33/96] fix: XMI namespace prefixes are unique names

---
 src/cas/xmiwriter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index c462c8e..b47c6d7 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -164,6 +164,7 @@ namespace uima {
   */
  void XmiWriter::initTypeAndNamespaceMappings() {
    nsUriToPrefixMap[XMI_NS_URI] = XMI_NS_PREFIX;
+   nsPrefixesUsed.insert(XMI_NS_PREFIX);
 
    //Add any namespace prefix mappings used by out of type system data.
    //Need to do this before the in-typesystem namespaces so that the prefix
@@ -256,7 +257,7 @@ namespace uima {
      while (prefixIte != nsPrefixesUsed.end()) {
        num++;
        stringstream basePrefix;
-       basePrefix << prefix << num << endl;
+       basePrefix << prefix << num;
        prefixIte = nsPrefixesUsed.find(basePrefix.str());
        if (prefixIte == nsPrefixesUsed.end() ) {
          prefix = basePrefix.str();
-- 
2.43.0


From 332ba947f1f9f3ac30f2255b20da00c4e7110cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 34/96] fix: XMI elements of types whose name contains xmi are
 not ignored

---
 src/cas/xmideserializer_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 34fae1d..434c619 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -152,7 +152,7 @@ namespace uima {
 										}
 		case FS_STATE: {
 			// ignore elements with XMI prefix (such as XMI annotations)  
-			if (qualifiedName.indexOf("xmi") > 0) {
+			if (qualifiedName.startsWith("xmi:")) {
 				this->iv_state = IGNORING_XMI_ELEMENTS_STATE;
 				this->ignoreDepth++;
 				return;
-- 
2.43.0


From 0c7083d0b278588c97bbd14938d785f52fb3bd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:30 +0000
Subject: [PATCH 35/96] fix: XMI and XCAS text does not depend on the default
 codepage

---
 src/cas/xmideserializer_handler.cpp |  6 +++---
 src/cas/xmiwriter.cpp               | 22 +++++++++++-----------
 src/cas/xmlwriter.cpp               |  4 ++--
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 434c619..f31d8c6 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -696,7 +696,7 @@ namespace uima {
     case internal::gs_tyStringArrayType: {
         //add the striug
 				StringArrayFS strFS(fs);
-				icu::UnicodeString strval(buffer.c_str());
+				icu::UnicodeString strval = icu::UnicodeString::fromUTF8(buffer);
 				strFS.set( (size_t) arrayPos,strval);
 				break;
     }
@@ -1046,7 +1046,7 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
 		   } else {
 			   Type type = internal::FSPromoter::promoteType(rangeTypeCode,
 				   iv_cas->getTypeSystem().getLowlevelTypeSystem());
-				 icu::UnicodeString val(featVals.at(0).c_str());
+				 icu::UnicodeString val = icu::UnicodeString::fromUTF8(featVals.at(0));
 			   handleFeature(type,		   
 				   addr, featCode,val, true);
 		   }
@@ -1156,7 +1156,7 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
   int XmiDeserializerHandler::createStringList(vector<string>& stringList)	{   
     StringListFS listFS =   iv_cas->createStringListFS();
     for (size_t i = 0; i < stringList.size(); i++ ) {
-      icu::UnicodeString value(stringList.at(i).c_str()); //use xmiId to look up addr
+      icu::UnicodeString value = icu::UnicodeString::fromUTF8(stringList.at(i)); //use xmiId to look up addr
 	    listFS.addLast(value);
     }
 	  return internal::FSPromoter::demoteFS(listFS);
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index b47c6d7..629af1a 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -357,7 +357,7 @@ namespace uima {
         icu::UnicodeString us;
         normalize( ref, us );
         os << " " << f.getName() << "=\"";
-        os << us << "\"";
+        os << UnicodeStringRef(us) << "\"";
       }
       }
     } else if (t == iv_integerType) {
@@ -553,7 +553,7 @@ namespace uima {
         for (size_t i=0; i < n;i++) {
           ustr.setTo("");
           normalize( arrayfs.get(i), ustr );
-          str << "<" << tag << ">" << ustr << "</" << tag << ">";
+          str << "<" << tag << ">" << UnicodeStringRef(ustr) << "</" << tag << ">";
          
         }         
         break;
@@ -745,9 +745,9 @@ namespace uima {
       for (size_t a=0; a < oed->attributes.size(); a++) {
         XmlAttribute * attr = oed->attributes.at(a);
         icu::UnicodeString us;
-        icu::UnicodeString av(attr->value.c_str());
+        icu::UnicodeString av = icu::UnicodeString::fromUTF8(attr->value);
         normalize( av, us );
-        os << " " << attr->name << "=\"" << us << "\"";
+        os << " " << attr->name << "=\"" << UnicodeStringRef(us) << "\"";
       }
       //child elements
       map<string,vector<string>*>::iterator ite ;
@@ -756,10 +756,10 @@ namespace uima {
           vector<string> * values = ite->second;
           for (size_t v=0; v < values->size();v++) {
             icu::UnicodeString us;
-            icu::UnicodeString av(values->at(v).c_str());
+            icu::UnicodeString av = icu::UnicodeString::fromUTF8(values->at(v));
             normalize( av, us );
             strcontent << " <" << ite->first 
-              << ">" << us
+              << ">" << UnicodeStringRef(us)
               << "</" << ite->first << ">";
           }
         }
@@ -1159,7 +1159,7 @@ void XmiWriter::write(ostream & os) {
         ///string head = curNode.getHead().asUTF8();
         ustr.setTo("");
         normalize(curNode.getHead(), ustr);
-        str << "<" << tag << ">" << ustr << "</" << tag << ">";
+        str << "<" << tag << ">" << UnicodeStringRef(ustr) << "</" << tag << ">";
         curNode = curNode.getTail();
         int addr = internal::FSPromoter::demoteFS(curNode);
         if (visited[addr] == addr) {
@@ -1207,9 +1207,9 @@ void XmiWriter::serializeOutOfTypeSystemElements(ostream & os)  {
     for (size_t a=0; a < oed->attributes.size();a++) {
       XmlAttribute * attr = oed->attributes.at(a);
       icu::UnicodeString us;
-      icu::UnicodeString av(attr->value.c_str());
+      icu::UnicodeString av = icu::UnicodeString::fromUTF8(attr->value);
       normalize( av, us );
-      os << " " << attr->name << "=\"" << us << "\"";
+      os << " " << attr->name << "=\"" << UnicodeStringRef(us) << "\"";
     }
     if (oed->childElements.size() > 0) {
       os << ">";
@@ -1219,10 +1219,10 @@ void XmiWriter::serializeOutOfTypeSystemElements(ostream & os)  {
         vector<string> * values = ite->second;
         for (size_t v=0; v < values->size(); v++) {
 	        icu::UnicodeString us;
-			icu::UnicodeString av(values->at(v).c_str());
+			icu::UnicodeString av = icu::UnicodeString::fromUTF8(values->at(v));
 			normalize( av, us );
           os << " <" << ite->first << ">";
-          os << us;
+          os << UnicodeStringRef(us);
           os << "</" << ite->first << ">";
         }
       }
diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index af0f332..29b8871 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -435,7 +435,7 @@ namespace uima {
         icu::UnicodeString us;
         normalize( ref, us );
         os << " " << f.getName() << "=\"";
-        os << us << "\"";
+        os << UnicodeStringRef(us) << "\"";
       }
     } else if (t == iv_integerType) {
       os << " " << f.getName() << "=\"";
@@ -499,7 +499,7 @@ namespace uima {
         os << "  <" << tag << ">";
         ustr.setTo("");
 				normalize(array.get(i),ustr);
-        os << ustr;
+        os << UnicodeStringRef(ustr);
         os << "</" << tag << ">" << endl;
       }
       os << " </" << array.getType().getName() << ">" << endl;
-- 
2.43.0


From 97413cba37d7a08c23c25765512fedb6d74adbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:06 +0000
Subject: [PATCH 36/96] fix: XMI and XCAS numbers have as many digits as it
 takes to read them back

---
 src/cas/xmiwriter.cpp                  | 14 +++++------
 src/cas/xmlwriter.cpp                  | 32 +++++++++++++++++++-------
 src/framework/uima/caswriter_abase.hpp |  2 ++
 3 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 629af1a..65314a2 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -365,7 +365,8 @@ namespace uima {
       os << fs.getIntValue(f) << "\"";
     } else if (t == iv_floatType) {
       os << " " << f.getName() << "=\"";
-      os << fs.getFloatValue(f) << "\"";
+      writeNumber(os, fs.getFloatValue(f), 9);
+      os << "\"";
     } else if (t == iv_byteType) {
       os << " " << f.getName() << "=\"";
       int val = fs.getByteValue(f);
@@ -384,9 +385,8 @@ namespace uima {
       os << fs.getLongValue(f) << "\"";
     } else if (t == iv_doubleType) {
       os << " " << f.getName() << "=\"";
-      stringstream s;
-      s << fs.getDoubleValue(f);
-      os << s.str() << "\"";
+      writeNumber(os, fs.getDoubleValue(f), 17);
+      os << "\"";
     } else {
      
       FeatureStructure referencedFS = fs.getFSValue(f);
@@ -446,7 +446,7 @@ namespace uima {
         FloatArrayFS arrayfs(fs);
         size_t n = arrayfs.size();
         for (size_t i=0; i < n;i++) {
-          str << arrayfs.get(i);
+          writeNumber(str, arrayfs.get(i), 9);
           if (i+1 < n) {         
             str << " ";
           }
@@ -507,7 +507,7 @@ namespace uima {
         DoubleArrayFS arrayfs(fs);
         size_t n = arrayfs.size();
         for (size_t i=0; i < n;i++) {
-          str << arrayfs.get(i);
+          writeNumber(str, arrayfs.get(i), 17);
           if (i+1 < n) {         
             str << " ";
           }
@@ -1089,7 +1089,7 @@ void XmiWriter::write(ostream & os) {
     case internal::gs_tyNEFloatListType: {
       FloatListFS curNode(fs);
       while (!curNode.isEmpty()) { 
-        str << curNode.getHead();
+        writeNumber(str, curNode.getHead(), 9);
         curNode = curNode.getTail();
         int addr = internal::FSPromoter::demoteFS(curNode);
         if (visited[addr] == addr) {
diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index 29b8871..2789a50 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -128,6 +128,12 @@ namespace uima {
   }
 
 
+  void XMLWriterABase::writeNumber(ostream & os, double value, int digits) {
+    streamsize const oldDigits = os.precision(digits);
+    os << value;
+    os.precision(oldDigits);
+  }
+
   /////////////////////////////////////////////////////////////////////////////
   // DumpWriter
 
@@ -442,7 +448,8 @@ namespace uima {
       os << fs.getIntValue(f) << "\"";
     } else if (t == iv_floatType) {
       os << " " << f.getName() << "=\"";
-      os << fs.getFloatValue(f) << "\"";
+      writeNumber(os, fs.getFloatValue(f), 9);
+      os << "\"";
     } else if (t == iv_byteType) {
       os << " " << f.getName() << "=\"";
       int val = fs.getByteValue(f);
@@ -458,9 +465,8 @@ namespace uima {
       os << fs.getLongValue(f) << "\"";
     } else if (t == iv_doubleType) {
       os << " " << f.getName() << "=\"";
-      stringstream s;
-      s << fs.getDoubleValue(f);
-      os << s.str() << "\"";
+      writeNumber(os, fs.getDoubleValue(f), 17);
+      os << "\"";
     } else {
 
       FeatureStructure referencedFS = fs.getFSValue(f);
@@ -536,7 +542,19 @@ namespace uima {
       if ( t == iv_intArrayType ) {
         writeArray( os, IntArrayFS(fs), "i");
       } else if ( t == iv_floatArrayType ) {
-        writeArray( os, FloatArrayFS(fs), "i");
+        FloatArrayFS array(fs);
+        if (array.size() > 0) {
+          os << " size=\"" << array.size() << "\">" << endl;
+          size_t i;
+          for (i=0; i<array.size(); ++i) {
+            os << "  <" << "i" << ">";
+            writeNumber(os, array.get(i), 9);
+            os << "</" << "i" << ">" << endl;
+          }
+          os << " </" << array.getType().getName() << ">" << endl;
+        } else {
+          os << " size=\"0\"/>" << endl;
+        }
       } else if ( t == iv_stringArrayType ) {
         writeStringArray( os, StringArrayFS(fs), "i");
       } else if ( t == iv_byteArrayType ) {
@@ -565,9 +583,7 @@ namespace uima {
           size_t i;
           for (i=0; i<array.size(); ++i) {
             os << "  <" << "i" << ">";
-            stringstream s;
-            s << array.get(i);
-            os << s.str();
+            writeNumber(os, array.get(i), 17);
             os << "</" << "i" << ">" << endl;
           }
           os << " </" << array.getType().getName() << ">" << endl;
diff --git a/src/framework/uima/caswriter_abase.hpp b/src/framework/uima/caswriter_abase.hpp
index 961b285..42a6d8e 100644
--- a/src/framework/uima/caswriter_abase.hpp
+++ b/src/framework/uima/caswriter_abase.hpp
@@ -81,6 +81,8 @@ namespace uima {
   class UIMA_LINK_IMPORTSPEC XMLWriterABase : public CASWriterABase {
   public:
     static void normalize(UnicodeStringRef const & in, icu::UnicodeString& out);
+    /** writes a number with as many digits as it takes to read it back */
+    static void writeNumber(std::ostream & os, double value, int digits);
   public:
     XMLWriterABase(CAS const & crCAS, bool bAddDocBuffer);
     virtual ~XMLWriterABase();
-- 
2.43.0


From cf9b83b96801de7e50a2f2890c845413c945bfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:06 +0000
Subject: [PATCH 37/96] fix: infinite and NaN values are read from XMI and XCAS

---
 src/cas/xcasdeserializer_handler.cpp | 12 ++----------
 src/cas/xmideserializer_handler.cpp  | 12 ++----------
 2 files changed, 4 insertions(+), 20 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 53012d7..76fa759 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -674,11 +674,7 @@ namespace uima {
       }
     case internal::gs_tyDoubleArrayType: {
         DoubleArrayFS doubleFS(fs);
-        stringstream s;
-        s << UnicodeStringRef(buffer).asUTF8();
-        long double doubleval;
-        s >> doubleval;
-        doubleFS.set((size_t) arrayPos, doubleval);
+        doubleFS.set((size_t) arrayPos, atof(UnicodeStringRef(buffer).asUTF8().c_str()));
         break;
       }
     default: {    //array of FSs
@@ -809,11 +805,7 @@ namespace uima {
       case internal::gs_tyDoubleType: {
           if (featVal.length() > 0) {
             string strval = UnicodeStringRef(featVal).asUTF8();
-            long double doubleval;
-            stringstream s;
-            s << strval.c_str();
-            s >> doubleval;
-            fs.setDoubleValue(feat, doubleval );
+            fs.setDoubleValue(feat, atof(strval.c_str()));
           }
           break;
         }
diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index f31d8c6..b076a38 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -741,11 +741,7 @@ namespace uima {
       }
     case internal::gs_tyDoubleArrayType: {
         DoubleArrayFS doubleFS(fs);
-        stringstream s;
-        s << buffer;
-        long double doubleval;
-        s >> doubleval;
-        doubleFS.set((size_t) arrayPos, doubleval);
+        doubleFS.set((size_t) arrayPos, atof(buffer.c_str()));
         break;
       }
     default: {    //array of FSs
@@ -888,11 +884,7 @@ namespace uima {
       case internal::gs_tyDoubleType: {
         if (featVal.length() > 0) {
           string strval = UnicodeStringRef(featVal).asUTF8();
-          long double doubleval;
-          stringstream s;
-          s << strval.c_str();
-          s >> doubleval;
-          fs.setDoubleValue(feat, doubleval );
+          fs.setDoubleValue(feat, atof(strval.c_str()));
         }
         break;
       }	  
-- 
2.43.0


From 73cd9e23ea1112cc8c8099cc556c8926d452d913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:19 +0000
Subject: [PATCH 38/96] fix: null elements of FSArrays are written to XMI as 0

---
 src/cas/xmiwriter.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 65314a2..5dd6c30 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -532,14 +532,13 @@ namespace uima {
               while (ootsIndex < ootsList->size()) {
                 XmiArrayElement * arel = ootsList->at(ootsIndex++);
                 if (arel->index == j) {
-                  str << arel->xmiId;
+                  xmiId = arel->xmiId;
                   break;
                 }                
               }
             }
-          } else {
-            str << xmiId;
           }
+          str << xmiId;
           if (j+1 < size) {         
             str << " ";
           }
-- 
2.43.0


From 925c4bf14fd78d181a6e0ac3a4bdd791a4741b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:19 +0000
Subject: [PATCH 39/96] fix: the element of an FSArray outside of the type
 system is found behind null elements

---
 src/cas/xmiwriter.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 5dd6c30..bf100d8 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -528,13 +528,11 @@ namespace uima {
           if (xmiId == 0) {  //if 0 check if its an Oots FS 
             // However, this null array element might have been a reference to an 
             //out-of-typesystem FS, so check the ootsArrayElementsList
-            if (ootsList != NULL) {
-              while (ootsIndex < ootsList->size()) {
-                XmiArrayElement * arel = ootsList->at(ootsIndex++);
-                if (arel->index == j) {
-                  xmiId = arel->xmiId;
-                  break;
-                }                
+            if (ootsList != NULL && ootsIndex < ootsList->size()) {
+              XmiArrayElement * arel = ootsList->at(ootsIndex);
+              if (arel->index == (int) j) {
+                xmiId = arel->xmiId;
+                ++ootsIndex;
               }
             }
           }
-- 
2.43.0


From 0f3a0ed008575ca5cec10eae35fa52c7f19c5093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:27 +0000
Subject: [PATCH 40/96] fix: null elements of an FSList are written to XMI as 0
 with shared data too

---
 src/cas/xmiwriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index bf100d8..6ff9471 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -1126,6 +1126,8 @@ void XmiWriter::write(ostream & os) {
               XmlAttribute *  attr = oed->attributes.at(0);
               assert(attr->name.compare(CAS::FEATURE_BASE_NAME_HEAD)==0);
               str << attr->value;
+            } else {
+              str << head;
             }
           } else {
             str << head;
-- 
2.43.0


From bdedef3dbe01328fbc2d7d4a062f474825af2098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:41 +0000
Subject: [PATCH 41/96] fix: empty arrays are written to XMI

---
 src/cas/xmiwriter.cpp | 59 +++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 33 deletions(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 6ff9471..6f44eee 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -583,13 +583,10 @@ namespace uima {
   }
 
   void XmiWriter::writeStringArray(ostream & os, StringArrayFS const & array, char const * tag, int xmiid) {
-    if (array.size() > 0) {
-      //XCAS os << " size=\"" << array.size() << "\">" << endl;
-      os << " <" << tag;
-      os << " " << ID_ATTR_NAME << "=\"" << xmiid << "\">";
-        os << arrayToString(array, "elements").c_str();
-        os << "</" << tag << ">" << endl;
-    } 
+    os << " <" << tag;
+    os << " " << ID_ATTR_NAME << "=\"" << xmiid << "\">";
+    os << arrayToString(array, "elements").c_str();
+    os << "</" << tag << ">" << endl;
   }
 
   void XmiWriter::writeFSFlat(ostream & os,
@@ -606,33 +603,29 @@ namespace uima {
    
     // if array
     if ( iv_arrayType.subsumes(t) ) {
-      const CAS* ccasp = &iv_cas;
-      CAS* casp = const_cast<CAS*> (ccasp);
-        if (casp->getHeap()->getArraySize(internal::FSPromoter::demoteFS(fs)) >0) {
-            if ( t == iv_intArrayType ) {
-                writeArray( os, IntArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
-            } else if ( t == iv_floatArrayType ) {
-                writeArray( os, FloatArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
-            } else if ( t == iv_stringArrayType ) {
-                //cout << "got a string array " << endl;
-                writeStringArray( os, StringArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
-            } else if ( t == iv_byteArrayType ) {
-                writeArray(os, ByteArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
-            } else if ( t == iv_booleanArrayType ) {
-                writeArray( os, BooleanArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
-            } else if ( t == iv_shortArrayType ) {
-                writeArray( os, ShortArrayFS(fs),xmlElementName->qualifiedName.c_str(), xmiId );
-            } else if ( t == iv_longArrayType ) {
-                writeArray( os, LongArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
-            } else if ( t == iv_doubleArrayType ) {
-                writeArray( os, DoubleArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
+        if ( t == iv_intArrayType ) {
+            writeArray( os, IntArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
+        } else if ( t == iv_floatArrayType ) {
+            writeArray( os, FloatArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
+        } else if ( t == iv_stringArrayType ) {
+            //cout << "got a string array " << endl;
+            writeStringArray( os, StringArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
+        } else if ( t == iv_byteArrayType ) {
+            writeArray(os, ByteArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
+        } else if ( t == iv_booleanArrayType ) {
+            writeArray( os, BooleanArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
+        } else if ( t == iv_shortArrayType ) {
+            writeArray( os, ShortArrayFS(fs),xmlElementName->qualifiedName.c_str(), xmiId );
+        } else if ( t == iv_longArrayType ) {
+            writeArray( os, LongArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
+        } else if ( t == iv_doubleArrayType ) {
+            writeArray( os, DoubleArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
+        } else {
+            assert( t == iv_cas.getTypeSystem().getType(uima::CAS::TYPE_NAME_FS_ARRAY) );
+            if (internal::FSPromoter::demoteType(t) == internal::gs_tyFSArrayType) {
+                writeArray( os, ArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
             } else {
-                assert( t == iv_cas.getTypeSystem().getType(uima::CAS::TYPE_NAME_FS_ARRAY) );
-                if (internal::FSPromoter::demoteType(t) == internal::gs_tyFSArrayType) {
-                    writeArray( os, ArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
-                } else {
-                    cerr << "writeFSFlat unknown array type " << t.getName() << endl;
-                }
+                cerr << "writeFSFlat unknown array type " << t.getName() << endl;
             }
         }
     } else {
-- 
2.43.0


From b671c23d3c3b2bd0e930cee60642b3c40b70659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 42/96] fix: the array element of XMI does not take over the
 elements of the array before it

---
 src/cas/xmideserializer_handler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index b076a38..9ab5b61 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -468,6 +468,8 @@ namespace uima {
         icu::UnicodeString attrName; 
 				int xmiId=0;
 				icu::UnicodeString elements;
+				currentArrayId = -1;
+				currentArrayElements.remove();
 				for (size_t i = 0; i < attrs.getLength(); i++) {
 						attrName =  attrs.getQName(i);
 						if (attrName.compare(XMI_ID_ATTR_NAME) == 0) {
-- 
2.43.0


From 7be05b569a10dc46f00acb54f637bcdf84e8371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 43/96] fix: empty string arrays and lists of a feature are
 written to XMI

---
 src/cas/xmiwriter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 6f44eee..2ac2d14 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -661,6 +661,8 @@ namespace uima {
             StringArrayFS arrayFS = fs.getStringArrayFSValue(f);
             if (arrayFS.isValid() && arrayFS.size() > 0) {
               strcontent << arrayToString(arrayFS, f.getName().asUTF8().c_str());
+            } else if (arrayFS.isValid()) {
+              os << " " << f.getName() << "=\"\"";
             }
           }
           break;                             
@@ -711,8 +713,10 @@ namespace uima {
             } else {
               if (fs.getFSValue(f).isValid()) {
                 string str = listToString(fs.getFSValue(f), f.getName().asUTF8().c_str());          
-                if (listFS.isValid() && str.length() > 0) {
+                if (str.length() > 0) {
                   strcontent << str;
+                } else {
+                  os << " " << f.getName() << "=\"\"";
                 }
               }
             }
@@ -1094,6 +1098,9 @@ void XmiWriter::write(ostream & os) {
       }
       break;
                                          }
+    case internal::gs_tyEIntListType:
+    case internal::gs_tyEFloatListType:
+    case internal::gs_tyEStringListType:
     case internal::gs_tyEListType: {
       //cout << "listToString() Empty FSList SKIP"  << endl;
       break;
-- 
2.43.0


From 754efcc045bac8530903689e8ec9d002b24fad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 44/96] fix: the tail of a list node is a reference in XMI

---
 src/cas/lowlevel_typesystem.cpp | 8 ++++----
 src/cas/xmiwriter.cpp           | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cas/lowlevel_typesystem.cpp b/src/cas/lowlevel_typesystem.cpp
index cb92f04..ea53e93 100644
--- a/src/cas/lowlevel_typesystem.cpp
+++ b/src/cas/lowlevel_typesystem.cpp
@@ -96,13 +96,13 @@ namespace uima {
     TypeSystem::StFeatureInfo gs_arBuiltinFeatures[] = {
           {
             CAS::FEATURE_BASE_NAME_HEAD, CAS::TYPE_NAME_NON_EMPTY_FS_LIST, CAS::TYPE_NAME_TOP, false, "head"},
-          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_FS_LIST, CAS::TYPE_NAME_FS_LIST, false, "tail"},
+          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_FS_LIST, CAS::TYPE_NAME_FS_LIST, true, "tail"},
           { CAS::FEATURE_BASE_NAME_HEAD, CAS::TYPE_NAME_NON_EMPTY_FLOAT_LIST, CAS::TYPE_NAME_FLOAT, false, "head of float list"},
-          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_FLOAT_LIST, CAS::TYPE_NAME_FLOAT_LIST, false, "tail of float list"},
+          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_FLOAT_LIST, CAS::TYPE_NAME_FLOAT_LIST, true, "tail of float list"},
           { CAS::FEATURE_BASE_NAME_HEAD, CAS::TYPE_NAME_NON_EMPTY_INTEGER_LIST, CAS::TYPE_NAME_INTEGER, false, "head of integer list"},
-          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_INTEGER_LIST, CAS::TYPE_NAME_INTEGER_LIST, false, "tail of integer list"},
+          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_INTEGER_LIST, CAS::TYPE_NAME_INTEGER_LIST, true, "tail of integer list"},
           { CAS::FEATURE_BASE_NAME_HEAD, CAS::TYPE_NAME_NON_EMPTY_STRING_LIST, CAS::TYPE_NAME_STRING, false, "head of string list"},
-          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_STRING_LIST, CAS::TYPE_NAME_STRING_LIST, false, "tail of string list"}
+          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_STRING_LIST, CAS::TYPE_NAME_STRING_LIST, true, "tail of string list"}
         };
 
     char const * TYPE_NAME_INVALID               = "INVALID_TYPE";
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 2ac2d14..1e7008f 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -708,7 +708,7 @@ namespace uima {
         case internal::gs_tyNEStringListType: {
           FeatureStructure listFS = fs.getFSValue(f);
           if (listFS.isValid()) {
-            if (f.isMultipleReferencesAllowed() ) {
+            if (f.isMultipleReferencesAllowed() || insidelist) {
               writeFeatureValue(os, fs, f);
             } else {
               if (fs.getFSValue(f).isValid()) {
-- 
2.43.0


From 71d9caff94e38fc59c2f12a7ed5d125fd919d21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 45/96] fix: features whose range is an empty or non empty list
 type are references in XMI

---
 src/cas/xmideserializer_handler.cpp | 6 +++++-
 src/cas/xmiwriter.cpp               | 8 +-------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 9ab5b61..c5143e8 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -1213,7 +1213,11 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
           (iv_cas->getTypeSystem().isArrayType(rangetypecode) && 
           feat.isMultipleReferencesAllowed() ) || 
           (iv_cas->getTypeSystem().isListType(rangetypecode) && 
-          feat.isMultipleReferencesAllowed()) ) {
+          (feat.isMultipleReferencesAllowed()
+          || (rangetypecode != internal::gs_tyFSListType
+          && rangetypecode != internal::gs_tyIntListType
+          && rangetypecode != internal::gs_tyFloatListType
+          && rangetypecode != internal::gs_tyStringListType))) ) {
             //get the current feature value which is the id
             lowlevel::TyFS featVal = iv_casimpl.getHeap().getFeatureInternal(addr, featcode);
             if (featVal != 0) {
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 1e7008f..1a9aeb5 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -686,11 +686,7 @@ namespace uima {
           break;                               
         }
         case internal::gs_tyIntListType:
-        case internal::gs_tyEIntListType:
-        case internal::gs_tyNEIntListType:
         case internal::gs_tyFloatListType:
-        case internal::gs_tyEFloatListType:
-        case internal::gs_tyNEFloatListType:
         case internal::gs_tyFSListType:  {
           if (f.isMultipleReferencesAllowed() || insidelist) {
             writeFeatureValue(os, fs, f);
@@ -703,9 +699,7 @@ namespace uima {
           }
           break;
         }
-        case internal::gs_tyStringListType:
-        case internal::gs_tyEStringListType:
-        case internal::gs_tyNEStringListType: {
+        case internal::gs_tyStringListType: {
           FeatureStructure listFS = fs.getFSValue(f);
           if (listFS.isValid()) {
             if (f.isMultipleReferencesAllowed() || insidelist) {
-- 
2.43.0


From efa589af4a9e8f8adcad12d7461f6c442471aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 46/96] fix: empty values of string subtypes are read from XMI

---
 src/cas/xmideserializer_handler.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index c5143e8..f38feb0 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -946,9 +946,7 @@ namespace uima {
       }
       default: {
         if (rtype.isStringSubType()) {
-          if (featVal.length() > 0) {
-            fs.setStringValue(feat, featVal);
-          }
+          fs.setStringValue(feat, featVal);
         } else if (featVal.length() > 0) {
           lowlevel::TyFS val = (lowlevel::TyFS) atoi(UnicodeStringRef(featVal).asUTF8().c_str());
           iv_casimpl.getHeap().setFeatureInternal(addr, uima::internal::FSPromoter::demoteFeature(feat), val);
-- 
2.43.0


From d0d3f3540b7929b9e8aedf2684e1ae46f57ae4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 47/96] fix: an empty byte array is written to XCAS

---
 src/cas/xmlwriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index 2789a50..84ac978 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -569,6 +569,8 @@ namespace uima {
             os << "</" << "i" << ">" << endl;
           }
           os << " </" << array.getType().getName() << ">" << endl;
+        } else {
+          os << " size=\"0\"/>" << endl;
         }
       } else if ( t == iv_booleanArrayType ) {
         writeArray( os, BooleanArrayFS(fs), "i");
-- 
2.43.0


From 5979be4a7d05317150994fef1aa653d224770eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 48/96] fix: empty strings are read from XCAS

---
 src/cas/xcasdeserializer_handler.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 76fa759..7df2105 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -226,7 +226,9 @@ namespace uima {
       // Set the value of the content feature.
       //if (!isAllWhitespace(buffer))
       //{
-      handleFeature(currentAddr, currentContentFeat, buffer, true);
+      if (buffer.length() > 0) {
+        handleFeature(currentAddr, currentContentFeat, buffer, true);
+      }
       //}            }
       iv_state = FS_STATE;
       break;
@@ -756,9 +758,7 @@ namespace uima {
           break;
         }
       case internal::gs_tyStringType: {
-          if (featVal.length() > 0) {
-            fs.setStringValue(feat, featVal);
-          }
+          fs.setStringValue(feat, featVal);
           break;
         }
       case internal::gs_tyByteType: {
@@ -811,8 +811,7 @@ namespace uima {
         }
       default: {
         if (rtype.isStringSubType()) {
-          if (featVal.length() > 0)
-            fs.setStringValue(feat, featVal);
+          fs.setStringValue(feat, featVal);
         } else if (featVal.length() > 0) {
           lowlevel::TyFS val = (lowlevel::TyFS) atoi(UnicodeStringRef(featVal).asUTF8().c_str());
           iv_casimpl.getHeap().setFeatureInternal(addr, uima::internal::FSPromoter::demoteFeature(feat), val);
-- 
2.43.0


From 832adf347ff13bf580e1bd59ffa1cba97877240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:50 +0000
Subject: [PATCH 49/96] fix: an empty type priority list is accepted

---
 src/framework/casdefinition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index ad6ea2c..2e86324 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -450,7 +450,7 @@ namespace uima {
         vector<icu::UnicodeString> const & crTypeChain = cpTypePriority->getTypeOrder();
         size_t i;
         // walk along the chain
-        for (i=0; i<crTypeChain.size()-1; ++i) {
+        for (i=0; i+1<crTypeChain.size(); ++i) {
           uima::lowlevel::TyFSType t1 = rTypeSystem.getTypeByName(crTypeChain[i]);
           if (t1 == uima::lowlevel::TypeSystem::INVALID_TYPE) {
             UIMA_EXC_THROW_NEW(UnknownTypeException,
-- 
2.43.0


From 35563c99d7912398e8ce8fb515c57108dfe50cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 50/96] fix: report the error code returned by an annotator's
 process method

---
 src/framework/internal_primitive_engine.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/framework/internal_primitive_engine.cpp b/src/framework/internal_primitive_engine.cpp
index aaad5d9..ef02c99 100644
--- a/src/framework/internal_primitive_engine.cpp
+++ b/src/framework/internal_primitive_engine.cpp
@@ -199,17 +199,18 @@ namespace uima {
           }
         }
       }
+      TyErrorId utErrorId = UIMA_ERR_NONE;
       if (bCallAnnotator) {
         // link CAS to current component
         cas.setCurrentComponentInfo(&getAnnotatorContext());
         try {
-          iv_pAnnotator->processDocument(cas, crResultSpec);
+          utErrorId = iv_pAnnotator->processDocument(cas, crResultSpec);
         } catch (Exception e) {
           UIMA_EXC_RETHROW(e,0);
         }
       }
       // if annotator should not be called is not really an error
-      return UIMA_ERR_NONE;
+      return utErrorId;
     }
 
     TyErrorId PrimitiveEngine::destroyImpl()  {
-- 
2.43.0


From f618ad9aa9de25dacdbafc2ee97f7b18c532038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 51/96] fix: call batchProcessComplete, not
 collectionProcessComplete, on the delegates of an aggregate

---
 src/framework/internal_aggregate_engine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/internal_aggregate_engine.cpp b/src/framework/internal_aggregate_engine.cpp
index c0ca218..1e6f98b 100644
--- a/src/framework/internal_aggregate_engine.cpp
+++ b/src/framework/internal_aggregate_engine.cpp
@@ -211,7 +211,7 @@ namespace uima {
 
     TyErrorId AggregateEngine::batchProcessCompleteImpl(void) {
       util::Trace             clTrace(util::enTraceDetailMedium, UIMA_TRACE_ORIGIN, UIMA_TRACE_COMPID_ENGINE);
-      return iv_annotatorMgr.launchCollectionProcessComplete();
+      return iv_annotatorMgr.launchBatchProcessComplete();
     }
 
     TyErrorId AggregateEngine::collectionProcessCompleteImpl(void) {
-- 
2.43.0


From 51e7cf6cc3a9da9dc1d0023b08c94ec93cc97f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 52/96] fix: give a language the outputs declared for the
 unspecified language even when no inputs are declared for it

---
 src/framework/internal_capability_container.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/framework/internal_capability_container.cpp b/src/framework/internal_capability_container.cpp
index 238cdb5..d295b6a 100644
--- a/src/framework/internal_capability_container.cpp
+++ b/src/framework/internal_capability_container.cpp
@@ -253,8 +253,8 @@ namespace uima {
         return;
       }
       assert(EXISTS(iv_psetInputTOFsForUnspecifiedLang));
+      TyMapLang2TypeOrFeatures::iterator it;
       if (iv_psetInputTOFsForUnspecifiedLang->size() != 0) {
-        TyMapLang2TypeOrFeatures::iterator it;
         for (it = iv_mapLang2InputTypesOrFeatures.begin(); it != iv_mapLang2InputTypesOrFeatures.end(); ++it) {
           if (&(*it).second != iv_psetInputTOFsForUnspecifiedLang) { // don't append onto ourselves
             if ((*it).second.size() > 0) { // don't append to empty
@@ -270,13 +270,15 @@ namespace uima {
             }
           }
         }
+      }
 
-        // Now do the same copying for the output
+      // Now do the same copying for the output
 
-        // if it is in the input it must be in the output too
-        assert(findOutputTOFs(Language(Language::UNSPECIFIED)) != NULL);
-        assert(EXISTS(iv_psetOutputTOFsForUnspecifiedLang));
+      // if it is in the input it must be in the output too
+      assert(findOutputTOFs(Language(Language::UNSPECIFIED)) != NULL);
+      assert(EXISTS(iv_psetOutputTOFsForUnspecifiedLang));
 
+      if (iv_psetOutputTOFsForUnspecifiedLang->size() != 0) {
         for (it = iv_mapLang2OutputTypesOrFeatures.begin(); it != iv_mapLang2OutputTypesOrFeatures.end(); ++it) {
           if (&(*it).second != iv_psetOutputTOFsForUnspecifiedLang) { // don't append onto ourselves
             if ((*it).second.size() > 0) { // don't append to empty
-- 
2.43.0


From a18f73032e08cf6e94be3cca37e153413836fba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 53/96] fix: apply the sofa mappings of nested aggregates one
 after the other

---
 src/framework/annotator_context.cpp      | 34 +++++-------------------
 src/framework/uima/annotator_context.hpp |  4 +--
 2 files changed, 8 insertions(+), 30 deletions(-)

diff --git a/src/framework/annotator_context.cpp b/src/framework/annotator_context.cpp
index 8e3dcc6..7b245e2 100644
--- a/src/framework/annotator_context.cpp
+++ b/src/framework/annotator_context.cpp
@@ -79,37 +79,15 @@ namespace uima {
         // aggregate sofaname is the value
         // if component sofa name is not set,
         // set it to the default for tcas sofas.
-        if (sofamap->getComponentSofaName().length() == 0) {
-          icu::UnicodeString ustr(CAS::NAME_DEFAULT_TEXT_SOFA);
-          sofamap->setComponentSofaName(ustr);
+        icu::UnicodeString astr = sofamap->getComponentSofaName();
+        if (astr.length() == 0) {
+          astr = CAS::NAME_DEFAULT_TEXT_SOFA;
         }
         SofaID * pSofaid = new SofaID();
-        pSofaid->setSofaId(sofamap->getAggregateSofaName());
-        pSofaid->setComponentSofaName(sofamap->getComponentSofaName());
-        icu::UnicodeString astr = sofamap->getComponentSofaName();
+        // the aggregate may itself be a delegate whose sofa names are mapped
+        pSofaid->setSofaId(parent->mapToSofaID(sofamap->getAggregateSofaName()).getSofaId());
+        pSofaid->setComponentSofaName(astr);
         iv_mapSofaMappings[astr] = pSofaid;
-
-        //if this delegate is an aggregate and has sofamapping
-        //check if somponent sofaname is specified as the
-        //aggregate sofa name in this delegate specifier
-        //if so update that aggregate sofa name
-        if (!delegateSpec->isPrimitive()) {
-          AnalysisEngineDescription::TyVecpSofaMappings delegateSofaMappings = delegateSpec->getSofaMappings();
-          if (delegateSofaMappings.size() > 0 ) {
-            AnalysisEngineDescription::TyVecpSofaMappings::const_iterator iter;
-
-            for (iter = delegateSofaMappings.begin(); iter != delegateSofaMappings.end(); ++iter) {
-              SofaMapping  * delsofamap = * iter;
-              if (delsofamap->getAggregateSofaName().compare(astr)==0) {
-                delsofamap->setAggregateSofaName(pSofaid->getSofaId());
-              }
-            }
-
-
-          }
-        }
-
-
       }
 
     }
diff --git a/src/framework/uima/annotator_context.hpp b/src/framework/uima/annotator_context.hpp
index 5b63687..a6d9a4a 100644
--- a/src/framework/uima/annotator_context.hpp
+++ b/src/framework/uima/annotator_context.hpp
@@ -149,7 +149,7 @@ namespace uima {
      * Use this method to obtain a SofaID which is a handle to a Sofa in the CAS.  
      * This method looks up the SofaID in the Sofa name mapping provided for
      * this AnalysisEngine.  If there is no mapping for the specified Sofa name,
-     * it maps to itself.
+     * it maps to the name the enclosing aggregate, if any, maps it to.
      * Note: This AnnotatorContext still has memory ownership of the returned
      * object.
      **/
@@ -160,7 +160,7 @@ namespace uima {
       } else {
         SofaID * pSofaid = new SofaID();
         pSofaid->setComponentSofaName(componentSofaName);
-        pSofaid->setSofaId(componentSofaName);
+        pSofaid->setSofaId(EXISTS(iv_pParentAnC) ? iv_pParentAnC->mapToSofaID(componentSofaName).getSofaId() : componentSofaName);
         icu::UnicodeString astr = pSofaid->getComponentSofaName();
         iv_mapSofaMappings[astr] = pSofaid;
         return *pSofaid;
-- 
2.43.0


From b1c4d2abfe6f9b814ea1e852e34bcf6cf7c0f785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:06 +0000
Subject: [PATCH 54/96] fix: destroy a delegate whose capabilities turn out to
 be invalid

---
 src/framework/annotator_mgr.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/framework/annotator_mgr.cpp b/src/framework/annotator_mgr.cpp
index 19aa35c..8a9a4a2 100644
--- a/src/framework/annotator_mgr.cpp
+++ b/src/framework/annotator_mgr.cpp
@@ -190,6 +190,9 @@ namespace uima {
         uima::internal::CapabilityContainer * pCapContainer = new internal::CapabilityContainer();
         assert( EXISTS(pCapContainer) );
         entry.iv_pCapabilityContainer = pCapContainer;
+        /* add to set of delegate TAEs as managed by the AnnotatorManager:
+           from here on launchDeInit() takes care of it, also when its capabilities are not valid */
+        iv_vecEntries.insert(iv_vecEntries.end(), entry);
 
         vector<Capability*> const & crCapabilities = pDelegateANC->getTaeSpecifier().getAnalysisEngineMetaData()->getCapabilites();
 
@@ -226,9 +229,6 @@ namespace uima {
         printCapabilityContainer(cout, uima::Language("fr"), *pCapContainer);
         UIMA_TPRINT("  is like dump ? " << pCapContainer->hasEmptyOutputTypeOrFeatures(uima::Language("en") ));
 #endif
-
-        /* add to set of delegate TAEs as managed by the AnnotatorManager */
-        iv_vecEntries.insert(iv_vecEntries.end(), entry);
       }
 
       UIMA_ANNOTATOR_TIMING(iv_clTimerLaunchInit.stop());
-- 
2.43.0


From 9c05acb099a8530c3b7b82b7ac8faf7dd3382023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:06 +0000
Subject: [PATCH 55/96] fix: unlink the CAS from the component when its process
 method is left

---
 src/framework/internal_primitive_engine.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/framework/internal_primitive_engine.cpp b/src/framework/internal_primitive_engine.cpp
index ef02c99..81f90b2 100644
--- a/src/framework/internal_primitive_engine.cpp
+++ b/src/framework/internal_primitive_engine.cpp
@@ -206,7 +206,15 @@ namespace uima {
         try {
           utErrorId = iv_pAnnotator->processDocument(cas, crResultSpec);
         } catch (Exception e) {
+          cas.setCurrentComponentInfo(NULL);
           UIMA_EXC_RETHROW(e,0);
+        } catch (...) {
+          cas.setCurrentComponentInfo(NULL);
+          throw;
+        }
+        // a CAS multiplier goes on working with the CAS in hasNext() and next()
+        if (iv_pAnnotator->getCasInstancesRequired() <= 0) {
+          cas.setCurrentComponentInfo(NULL);
         }
       }
       // if annotator should not be called is not really an error
-- 
2.43.0


From b4200fa81a997de0fee9cea71e3aec0a37b8ebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:22 +0000
Subject: [PATCH 56/96] fix: release a CAS to its pool at most once

---
 src/framework/caspool.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/framework/caspool.cpp b/src/framework/caspool.cpp
index 78e966e..405fa94 100644
--- a/src/framework/caspool.cpp
+++ b/src/framework/caspool.cpp
@@ -31,6 +31,7 @@
 
 
 #include "uima/caspool.hpp"
+#include <algorithm>
 #include "uima/err_ids.h"
 #include "uima/msg.h"
 
@@ -113,8 +114,15 @@ namespace uima {
 
   void CASPool::releaseCAS(CAS & aCas) {
 
-    aCas.reset();
-    iv_vecFreeInstances.push_back(&aCas);
+    // the pool holds initial views, the CAS may be released through any of its views
+    CAS * pCas = aCas.getInitialView();
+    // ignore a CAS that is not one of this pool or has already been released
+    if (find(iv_vecAllInstances.begin(), iv_vecAllInstances.end(), pCas) == iv_vecAllInstances.end()
+        || find(iv_vecFreeInstances.begin(), iv_vecFreeInstances.end(), pCas) != iv_vecFreeInstances.end()) {
+      return;
+    }
+    pCas->reset();
+    iv_vecFreeInstances.push_back(pCas);
     return;
   }
 
-- 
2.43.0


From e8ed8276a499c4552fd3837de1965ad96ce1b316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:09 +0000
Subject: [PATCH 57/96] fix: a delegate sets a parameter of its aggregate only
 if it may be overridden for it

---
 src/framework/annotator_context.cpp      | 14 ++++++++------
 src/framework/taespecifier.cpp           |  7 ++++++-
 src/framework/uima/annotator_context.hpp |  6 ++++--
 src/framework/uima/taespecifier.hpp      | 20 ++++++++++++--------
 4 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/framework/annotator_context.cpp b/src/framework/annotator_context.cpp
index 7b245e2..d19b67b 100644
--- a/src/framework/annotator_context.cpp
+++ b/src/framework/annotator_context.cpp
@@ -502,29 +502,31 @@ namespace uima {
     return pValueLocal;
   }
 
-  TyErrorId AnnotatorContext::setNameValuePair(const NameValuePair & nvPair) {
+  TyErrorId AnnotatorContext::setNameValuePair(const NameValuePair & nvPair,
+      const icu::UnicodeString & ancKey) {
 
     TyErrorId errId=UIMA_ERR_CONFIG_INVALID_PARAM_NAME;
     if (EXISTS(iv_pParentAnC)) {
-      errId = iv_pParentAnC->setNameValuePair(nvPair);
+      errId = iv_pParentAnC->setNameValuePair(nvPair, iv_AnCKey);
     }
 
     if (errId != UIMA_ERR_NONE) {//there's either no parent or the nvPair couldn't be set at the parent
-      errId = iv_pTaeSpecifier->setNameValuePair(nvPair);
+      errId = iv_pTaeSpecifier->setNameValuePair(nvPair, ancKey);
     }
     return errId;
   }
 
   TyErrorId AnnotatorContext::setNameValuePair(const icu::UnicodeString & groupName,
-      const NameValuePair & nvPair) {
+      const NameValuePair & nvPair,
+      const icu::UnicodeString & ancKey) {
 
     TyErrorId errId=UIMA_ERR_CONFIG_INVALID_PARAM_NAME;
     if (EXISTS(iv_pParentAnC)) {
-      errId = iv_pParentAnC->setNameValuePair(groupName, nvPair);
+      errId = iv_pParentAnC->setNameValuePair(groupName, nvPair, iv_AnCKey);
     }
 
     if (errId != UIMA_ERR_NONE) {//there's either no parent or the nvPair couldn't be set at the parent
-      errId = iv_pTaeSpecifier->setNameValuePair(groupName, nvPair);
+      errId = iv_pTaeSpecifier->setNameValuePair(groupName, nvPair, ancKey);
     }
     return errId;
   }
diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index e7d4c62..d21e579 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -418,7 +418,8 @@ namespace uima {
   }
 
   TyErrorId AnalysisEngineMetaData::setNameValuePair(const icu::UnicodeString & groupName,
-      const NameValuePair & nvPair) {
+      const NameValuePair & nvPair,
+      const icu::UnicodeString & ancKey) {
 
     if (iv_configurationGroups.size() == 0) {
       return UIMA_ERR_CONFIG_PARAM_NOT_DEFINED;
@@ -451,6 +452,10 @@ namespace uima {
     }
 
     assert(EXISTS(pConfigParm));
+    //check if the parameter may be overridden for the delegate
+    if (! pConfigParm->isDefinedForAnnotatorContext(ancKey)) {
+      return UIMA_ERR_CONFIG_INVALID_PARAM_NAME;
+    }
     //check if types and multiplicity match
     if (pConfigParm->getType() != nvPair.getType()) {
       return UIMA_ERR_CONFIG_INVALID_TYPE_FOR_PARAM;
diff --git a/src/framework/uima/annotator_context.hpp b/src/framework/uima/annotator_context.hpp
index a6d9a4a..68a2284 100644
--- a/src/framework/uima/annotator_context.hpp
+++ b/src/framework/uima/annotator_context.hpp
@@ -420,7 +420,8 @@ namespace uima {
     * If not, it tries to set it in its own AnalysisEngineDescription.
     * @see AnalysisEngineDescription::setNameValuePair
     **/
-    TyErrorId setNameValuePair(const NameValuePair & nvPair);
+    TyErrorId setNameValuePair(const NameValuePair & nvPair,
+                               const icu::UnicodeString & ancKey="");
 
     /**
     * Sets nvPair in group groupName of the parent (or one of its ancestors), if possible.
@@ -428,7 +429,8 @@ namespace uima {
     * @see AnalysisEngineDescription::setNameValuePair
     **/
     TyErrorId setNameValuePair(const icu::UnicodeString & groupName,
-                               const NameValuePair & nvPair);
+                               const NameValuePair & nvPair,
+                               const icu::UnicodeString & ancKey="");
 
     LogFacility * iv_pLogger;
     AnnotatorContext * iv_pParentAnC;
diff --git a/src/framework/uima/taespecifier.hpp b/src/framework/uima/taespecifier.hpp
index f74945f..bd268e4 100644
--- a/src/framework/uima/taespecifier.hpp
+++ b/src/framework/uima/taespecifier.hpp
@@ -554,11 +554,12 @@ namespace uima {
     * a) the settings of the default group
     * b) the configuration settings
     **/
-    TyErrorId setNameValuePair(const NameValuePair & nvPair) {
+    TyErrorId setNameValuePair(const NameValuePair & nvPair,
+                               const icu::UnicodeString & ancKey="") {
       if (hasGroups()) {
-        return setNameValuePair(getDefaultGroupName(), nvPair);
+        return setNameValuePair(getDefaultGroupName(), nvPair, ancKey);
       } else {
-        return setNameValuePair(CONFIG_GROUP_NAME_WHEN_NO_GROUPS, nvPair);
+        return setNameValuePair(CONFIG_GROUP_NAME_WHEN_NO_GROUPS, nvPair, ancKey);
       }
     }
 
@@ -568,7 +569,8 @@ namespace uima {
     * b) the name of nvPair is a configuration parameter defined in groupName
     **/
     TyErrorId setNameValuePair(const icu::UnicodeString & groupName,
-                               const NameValuePair & nvPair);
+                               const NameValuePair & nvPair,
+                               const icu::UnicodeString & ancKey="");
 
 
     /**
@@ -1091,8 +1093,9 @@ namespace uima {
     * a) the settings of the default group
     * b) the configuration settings
     **/
-    TyErrorId setNameValuePair(const NameValuePair & nvPair) {
-      return iv_pAeMetaData->setNameValuePair(nvPair);
+    TyErrorId setNameValuePair(const NameValuePair & nvPair,
+                               const icu::UnicodeString & ancKey="") {
+      return iv_pAeMetaData->setNameValuePair(nvPair, ancKey);
     }
 
     /**
@@ -1101,8 +1104,9 @@ namespace uima {
     * b) the name of nvPair is a configuration parameter defined in groupName
     **/
     TyErrorId setNameValuePair(const icu::UnicodeString & groupName,
-                               const NameValuePair & nvPair) {
-      return iv_pAeMetaData->setNameValuePair(groupName, nvPair);
+                               const NameValuePair & nvPair,
+                               const icu::UnicodeString & ancKey="") {
+      return iv_pAeMetaData->setNameValuePair(groupName, nvPair, ancKey);
     }
 
     /**
-- 
2.43.0


From 75e20a88483928da1c25c9cb5786ffccd175517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:24 +0000
Subject: [PATCH 58/96] fix: keep the type of exceptions an engine passes on

---
 src/framework/internal_engine_base.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/framework/internal_engine_base.cpp b/src/framework/internal_engine_base.cpp
index 42f9f58..27d8ff6 100644
--- a/src/framework/internal_engine_base.cpp
+++ b/src/framework/internal_engine_base.cpp
@@ -188,7 +188,7 @@ namespace uima {
         }
       } catch (ExcWinCException & rclException) {
         // windows "exceptions" are really abort signals: we re-throw for app to handle
-        throw rclException;
+        throw;
       } catch (Exception & rclException) {
         clTrace.dump("Unexpected UIMACPP exception");
         clTrace.dump(rclException.asString().c_str());
@@ -430,7 +430,7 @@ namespace uima {
         return hasNextImpl();
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
-        throw rclException;
+        throw;
       }
     }
 
@@ -445,7 +445,7 @@ namespace uima {
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
         //return rclException.getErrorInfo().getErrorId();
-        throw rclException;
+        throw;
       }
     }
 
@@ -461,7 +461,7 @@ namespace uima {
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
         //return rclException.getErrorInfo().getErrorId();
-        throw rclException;
+        throw;
       }
     }
 
@@ -490,7 +490,7 @@ namespace uima {
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
         //return rclException.getErrorInfo().getErrorId();
-        throw rclException;
+        throw;
       }
     }
 
-- 
2.43.0


From eabd2b97cf3466600cde22fcfc95df88d5387995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:02 +0000
Subject: [PATCH 59/96] fix: accept empty arrays as parameter values

---
 src/framework/taespecifier.cpp        | 9 +++++++++
 src/framework/taespecifierbuilder.cpp | 5 ++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index d21e579..05ddfad 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -262,6 +262,15 @@ namespace uima {
                            ErrorInfo::recoverable);
       }
     }
+    if (nvPair->isMultiValued() && nvPair->getType() == ConfigurationParameter::STRING
+        && nvPair->extractStringValues().empty()) {
+      // an empty array has the type its parameter is declared with
+      TyConfigGroup::const_iterator declIte = iv_configurationGroups.find(groupName);
+      if (declIte == iv_configurationGroups.end() || ! declIte->second.hasConfigurationParameter(nvPair->getName())) {
+        declIte = iv_configurationGroups.find(CONFIG_GROUP_NAME_COMMON_PARMS);
+      }
+      nvPair->define(declIte->second.getConfigurationParameter(nvPair->getName())->getType(), ConfigurationParameter::MULTIPLE_VALUES);
+    }
     TyConfigSettings::iterator ite = iv_configurationSettings.find(groupName);
     if (ite == iv_configurationSettings.end()) {
       iv_configurationSettings [groupName] = SettingsForGroup();
diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index f450ae4..9e1386e 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -884,7 +884,10 @@ namespace uima {
         DOMNodeList * arrayEntries = child->getChildNodes();
         assert( EXISTS(arrayEntries) );
         //the type must be the same for all elements in the array
-        nvPair.define(findTypeForValue(findFirstElementNode(arrayEntries)), ConfigurationParameter::MULTIPLE_VALUES);
+        //(an empty array gets the type its parameter is declared with when the pair is added)
+        DOMElement * firstEntry = findFirstElementNode(arrayEntries);
+        nvPair.define(EXISTS(firstEntry) ? findTypeForValue(firstEntry) : ConfigurationParameter::STRING,
+                      ConfigurationParameter::MULTIPLE_VALUES);
         //now iterate over entries, adding the values
         size_t j;
         for (j=0; j < arrayEntries->getLength(); j++) {
-- 
2.43.0


From 6486c1dae8c4e9a6ae965ef153d90c3c6ac7ec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:03 +0000
Subject: [PATCH 60/96] fix: look up ungrouped parameters whatever the search
 strategy

---
 src/framework/taespecifier.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 05ddfad..e6dc877 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -486,6 +486,9 @@ namespace uima {
       vector < icu::UnicodeString> & fallbackGroups) {
     int i;
     bool cutOffPossible;
+    if (! hasGroups()) { // there is nothing to fall back to
+      return;
+    }
     switch (strategy) {
     case NONE:
       //nothing to be done
-- 
2.43.0


From 43119ed2d6dd7924f6ddcad3afd6b3bbbac42496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:03 +0000
Subject: [PATCH 61/96] fix: keep the text of CDATA sections in descriptors

---
 src/framework/taespecifierbuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 9e1386e..ecc3ed3 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -2244,7 +2244,8 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
     icu::UnicodeString spannedText;
     size_t i;
     for (i=0; i < children->getLength(); i++) {
-      if (children->item(i)->getNodeType() == DOMNode::TEXT_NODE) {
+      if (children->item(i)->getNodeType() == DOMNode::TEXT_NODE
+          || children->item(i)->getNodeType() == DOMNode::CDATA_SECTION_NODE) {
         spannedText.append(convert(children->item(i)->getNodeValue()));
       } else {
         const icu::UnicodeString & childTag = convert((children->item(i))->getNodeName());
-- 
2.43.0


From c9199cc9645b6161fbb130a348e6c4c0de597a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 62/96] fix: record the creator ID of a feature, not its name

---
 src/cas/lowlevel_typesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_typesystem.cpp b/src/cas/lowlevel_typesystem.cpp
index ea53e93..a4b68c0 100644
--- a/src/cas/lowlevel_typesystem.cpp
+++ b/src/cas/lowlevel_typesystem.cpp
@@ -273,7 +273,7 @@ namespace uima {
       iv_vecRangeTypes.push_back(tyRange);
       iv_vecMultiRefs.push_back(multiRef);
       iv_vecIntroducedFeatures[tyIntro].push_back(newFeature);
-      iv_vecFeatureCreatorIDs.push_back(crusName);
+      iv_vecFeatureCreatorIDs.push_back(crusCreatorID);
 
       assert( debugIsTreeConsistent() );
       return newFeature;
-- 
2.43.0


From 5c47e73eed0c421980ed9af2373e7905f0c824a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 63/96] fix: all primitive and array types and string subtypes
 are final

---
 src/cas/uima/lowlevel_typesystem.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/cas/uima/lowlevel_typesystem.hpp b/src/cas/uima/lowlevel_typesystem.hpp
index 2e30dbf..800cfec 100644
--- a/src/cas/uima/lowlevel_typesystem.hpp
+++ b/src/cas/uima/lowlevel_typesystem.hpp
@@ -172,7 +172,12 @@ namespace uima {
         assert( isValidType(tyType) );
         return ( tyType == uima::internal::gs_tyIntegerType )
                || ( tyType == uima::internal::gs_tyFloatType )
-               || ( tyType == uima::internal::gs_tyStringType );
+               || ( tyType == uima::internal::gs_tyStringType )
+               || ( tyType == uima::internal::gs_tyBooleanType )
+               || ( tyType == uima::internal::gs_tyByteType )
+               || ( tyType == uima::internal::gs_tyShortType )
+               || ( tyType == uima::internal::gs_tyLongType )
+               || ( tyType == uima::internal::gs_tyDoubleType );
       }
 
       void createPredefinedCASTypes();
@@ -297,13 +302,19 @@ namespace uima {
        */
       bool isAllowedToAddSubTypes(TyFSType tyType) const {
         assert( isValidType(tyType) );
-        // Integer, Float, String, ArrayBase, FSArray, IntArray, FloatArray, StringArray
+        // primitive types, ArrayBase, all array types, string subtypes
         return (!isBuiltinType(tyType))
+               && (iv_vecParents[tyType] != uima::internal::gs_tyStringType)
                && (tyType != uima::internal::gs_tyArrayBaseType)
                && (tyType != uima::internal::gs_tyFSArrayType)
                && (tyType != uima::internal::gs_tyIntArrayType)
                && (tyType != uima::internal::gs_tyFloatArrayType)
-               && (tyType != uima::internal::gs_tyStringArrayType);
+               && (tyType != uima::internal::gs_tyStringArrayType)
+               && (tyType != uima::internal::gs_tyBooleanArrayType)
+               && (tyType != uima::internal::gs_tyByteArrayType)
+               && (tyType != uima::internal::gs_tyShortArrayType)
+               && (tyType != uima::internal::gs_tyLongArrayType)
+               && (tyType != uima::internal::gs_tyDoubleArrayType);
       }
 
       /**
-- 
2.43.0


From ee9152f911fb7545cfabaecc922264c6720e2d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:38 +0000
Subject: [PATCH 64/96] fix: createFeature refuses a name that a subtype
 already introduces

---
 src/cas/lowlevel_typesystem.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_typesystem.cpp b/src/cas/lowlevel_typesystem.cpp
index a4b68c0..a9420b2 100644
--- a/src/cas/lowlevel_typesystem.cpp
+++ b/src/cas/lowlevel_typesystem.cpp
@@ -256,7 +256,22 @@ namespace uima {
 
       assert( debugIsTreeConsistent() );
 
-      if ( getFeatureByBaseName( tyIntro, crusName ) != INVALID_FEATURE ) {
+      // neither the type nor one of its subtypes may have a feature of that name already
+      bool bNameInUse = ( getFeatureByBaseName( tyIntro, crusName ) != INVALID_FEATURE );
+      if ( ! bNameInUse ) {
+        vector<TyFSType> tySubTypes;
+        getSubsumedTypes( tyIntro, tySubTypes );
+        for (size_t i=0; !bNameInUse && i<tySubTypes.size(); ++i) {
+          vector<TyFSFeature> const & crFeats = iv_vecIntroducedFeatures[ tySubTypes[i] ];
+          for (size_t j=0; j<crFeats.size(); ++j) {
+            if ( iv_vecFeatureBaseNames[ crFeats[j] ] == crusName ) {
+              bNameInUse = true;
+              break;
+            }
+          }
+        }
+      }
+      if ( bNameInUse ) {
         // throw exception
         ErrorMessage errMessage(UIMA_MSG_ID_EXCON_CREATING_FEATURE, crusName);
         errMessage.addParam(getTypeName(tyIntro) );
-- 
2.43.0


From 88f1ba2a02d5f541e72189056bf1f323afc1bb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:33 +0000
Subject: [PATCH 65/96] fix: resolve type system imports before the description
 becomes unmodifiable

---
 src/framework/uima/typesystemdescription.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/framework/uima/typesystemdescription.hpp b/src/framework/uima/typesystemdescription.hpp
index f97b343..280e7d9 100644
--- a/src/framework/uima/typesystemdescription.hpp
+++ b/src/framework/uima/typesystemdescription.hpp
@@ -364,10 +364,10 @@ namespace uima {
     }
 
     void commit() {
-      iv_bIsModifiable = false;
-
+      // imported types can only be added as long as this object is modifiable
       std::vector<icu::UnicodeString> alreadyImportedLocations;
       resolveImports(alreadyImportedLocations);
+      iv_bIsModifiable = false;
       size_t i;
       for (i=0; i < iv_vecpTypeDescriptions.size(); i++) {
         iv_vecpTypeDescriptions[i]->commit();
-- 
2.43.0


From edbb547d826b5bcb3eda91637d3500e9c9b14fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:53 +0000
Subject: [PATCH 66/96] fix: createTypeSystem from a file or buffer resolves
 the imports

---
 src/framework/casdefinition.cpp | 4 ++++
 src/framework/engine.cpp        | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index 2e86324..1576730 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -699,6 +699,10 @@ namespace uima {
 
 
     uima::lowlevel::TypeSystem * CASDefinition::createTypeSystem(AnalysisEngineMetaData const & casSpecifier) {
+      //resolve imports
+      if (casSpecifier.isModifiable() ) {
+        CONST_CAST(AnalysisEngineMetaData &, casSpecifier).commit();
+      }
 
       uima::lowlevel::TypeSystem * pTypeSystem = new uima::lowlevel::TypeSystem();
       assert( EXISTS(pTypeSystem) );
diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index 63b7672..92cc35f 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -466,6 +466,7 @@ namespace uima {
     
     LocalFileInputSource fileIS((XMLCh const *) arBuffer.get());
 
+    tsDesc->setXmlFileLocation(ufn);
     builder.parseTypeSystemDescription(*tsDesc, fileIS);
     pAe->setTypeSystemDescription(tsDesc);
 
-- 
2.43.0


From 876e8e401e9d1b4f7df04b20e442879dbefc019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:54 +0000
Subject: [PATCH 67/96] fix: createTypeSystem and createTypeSystemDescription
 read their input

---
 src/framework/engine.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index 92cc35f..f570e86 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -485,12 +485,12 @@ namespace uima {
   TypeSystem * Framework::createTypeSystem(UChar const * cpBuffer,
       size_t uiLength,
       ErrorInfo& rErrorInfo) {
-    UnicodeStringRef usRef(cpBuffer, uiLength);
+    std::string utf8 = UnicodeStringRef(cpBuffer, uiLength).asUTF8();
     XMLParser builder;
     AnalysisEngineMetaData * pAe = new AnalysisEngineMetaData();
 	TypeSystemDescription * tsDesc = new TypeSystemDescription();
-    MemBufInputSource memIS((XMLByte const *)usRef.asUTF8().c_str(),
-		                    usRef.asUTF8().length(),
+    MemBufInputSource memIS((XMLByte const *)utf8.c_str(),
+		                    utf8.length(),
 							"sysID");
 	builder.parseTypeSystemDescription(*tsDesc,memIS);
     pAe->setTypeSystemDescription(tsDesc);
@@ -574,11 +574,11 @@ namespace uima {
 
   //create TypeSystemDescription object from xml spec in buffer
   TypeSystemDescription * Framework::createTypeSystemDescription(UChar const * cpBuffer, size_t uiLength) {
-    UnicodeStringRef usRef(cpBuffer, uiLength);
+    std::string utf8 = UnicodeStringRef(cpBuffer, uiLength).asUTF8();
     XMLParser builder;
     TypeSystemDescription * tsDesc = new TypeSystemDescription();
-    MemBufInputSource memIS((XMLByte const *) usRef.asUTF8().c_str(), 
-		                     usRef.asUTF8().length(), "sysID");
+    MemBufInputSource memIS((XMLByte const *) utf8.c_str(), 
+		                     utf8.length(), "sysID");
 	builder.parseTypeSystemDescription(*tsDesc,memIS);
     return tsDesc;
   }
@@ -586,8 +586,10 @@ namespace uima {
   //read in xml from a file and create a TypeSystemDescription object
   TypeSystemDescription * Framework::createTypeSystemDescription(char const * crFileName) {
     XMLParser builder;
-	LocalFileInputSource fileIS((XMLCh const *)crFileName);
+    icu::UnicodeString ufn(crFileName);
+	LocalFileInputSource fileIS((XMLCh const *)ufn.getTerminatedBuffer());
 	TypeSystemDescription * tsDesc = new TypeSystemDescription();
+    tsDesc->setXmlFileLocation(ufn);
     builder.parseTypeSystemDescription(*tsDesc,fileIS);
 	return tsDesc;
   }
-- 
2.43.0


From 173846481506458dea584f361c9dacc11eaf3f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:19 +0000
Subject: [PATCH 68/96] fix: reject types that are their own ancestors

---
 src/framework/casdefinition.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index 1576730..ecf2024 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -109,14 +109,26 @@ namespace uima {
     uima::lowlevel::TyFSType mergeType(uima::lowlevel::TypeSystem & rTypeSystem,
                                        icu::UnicodeString const & crTypeToBeCreated,
                                        TypeSystemDescription const & crTSDesc,
-                                       icu::UnicodeString const & crCreatorID) {
+                                       icu::UnicodeString const & crCreatorID,
+                                       vector<icu::UnicodeString> & rSubTypes) {
       uima::lowlevel::TyFSType typeToBeCreated = rTypeSystem.getTypeByName(crTypeToBeCreated);
       if (crTSDesc.hasTypeDescription(crTypeToBeCreated)) {
         TypeDescription const * cpTypeDesc = crTSDesc.getTypeDescription(crTypeToBeCreated);
         icu::UnicodeString const & crSuperTypeName = cpTypeDesc->getSuperTypeName();
 
+        // a type must not be its own ancestor
+        if (find(rSubTypes.begin(), rSubTypes.end(), crTypeToBeCreated) != rSubTypes.end()) {
+          UIMA_EXC_THROW_NEW(IncompatibleParentTypesException,
+                             UIMA_ERR_INCOMPATIBLE_PARENT_TYPES,
+                             ErrorMessage(UIMA_MSG_ID_EXC_WRONG_PARENT_TYPE, crTypeToBeCreated),
+                             ErrorMessage(UIMA_MSG_ID_EXCON_CREATING_TYPESYSTEM_FROM_CONFIG),
+                             ErrorInfo::recoverable);
+        }
+
         // first merge the parent
-        uima::lowlevel::TyFSType parent = mergeType(rTypeSystem, crSuperTypeName, crTSDesc, crCreatorID);
+        rSubTypes.push_back(crTypeToBeCreated);
+        uima::lowlevel::TyFSType parent = mergeType(rTypeSystem, crSuperTypeName, crTSDesc, crCreatorID, rSubTypes);
+        rSubTypes.pop_back();
 
         // if string sub type
         if (parent == uima::internal::gs_tyStringType) {
@@ -382,7 +394,8 @@ namespace uima {
       for (cit = crTypeDescVector.begin(); cit != crTypeDescVector.end(); ++cit) {
         TypeDescription const * pTypeDesc = *cit;
         icu::UnicodeString const & crTypeName = pTypeDesc->getName();
-        mergeType( rTypeSystem, crTypeName, crTSDesc, crCreatorID );
+        vector<icu::UnicodeString> subTypes;
+        mergeType( rTypeSystem, crTypeName, crTSDesc, crCreatorID, subTypes );
       }
 
       // create features
-- 
2.43.0


From 1c91a86a68211256a80c26dc7dc2dd57544fd2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:19 +0000
Subject: [PATCH 69/96] fix: check the parent and the allowed values of a
 redeclared string subtype

---
 src/framework/casdefinition.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index ecf2024..bcca10d 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -130,6 +130,15 @@ namespace uima {
         uima::lowlevel::TyFSType parent = mergeType(rTypeSystem, crSuperTypeName, crTSDesc, crCreatorID, rSubTypes);
         rSubTypes.pop_back();
 
+        if (typeToBeCreated != uima::lowlevel::TypeSystem::INVALID_TYPE
+            && parent != rTypeSystem.getParentType(typeToBeCreated)) {
+          UIMA_EXC_THROW_NEW(IncompatibleParentTypesException,
+                             UIMA_ERR_INCOMPATIBLE_PARENT_TYPES,
+                             ErrorMessage(UIMA_MSG_ID_EXC_WRONG_PARENT_TYPE, crTypeToBeCreated),
+                             ErrorMessage(UIMA_MSG_ID_EXCON_CREATING_TYPESYSTEM_FROM_CONFIG),
+                             ErrorInfo::recoverable);
+        }
+
         // if string sub type
         if (parent == uima::internal::gs_tyStringType) {
           TypeDescription::TyVecpAllowedValues const & crAllowedValues = cpTypeDesc->getAllowedValues();
@@ -156,7 +165,7 @@ namespace uima {
                 // check that string occurs in the allowed values
                 bool bContainsString = false;
                 for (j=0; j<uiStringNum; ++j) {
-                  if (crString != allowedStringValues[j]) {
+                  if (crString == allowedStringValues[j]) {
                     bContainsString = true;
                     break;
                   }
@@ -182,15 +191,6 @@ namespace uima {
           assert(parent != uima::lowlevel::TypeSystem::INVALID_TYPE);
           if (typeToBeCreated == uima::lowlevel::TypeSystem::INVALID_TYPE) {
             return rTypeSystem.createType(parent, crTypeToBeCreated, crCreatorID);
-          } else {
-            if (parent != rTypeSystem.getParentType(typeToBeCreated)) {
-              UIMA_EXC_THROW_NEW(IncompatibleParentTypesException,
-                                 UIMA_ERR_INCOMPATIBLE_PARENT_TYPES,
-                                 ErrorMessage(UIMA_MSG_ID_EXC_WRONG_PARENT_TYPE, crTypeToBeCreated),
-                                 ErrorMessage(UIMA_MSG_ID_EXCON_CREATING_TYPESYSTEM_FROM_CONFIG),
-                                 ErrorInfo::recoverable);
-              return 0;
-            }
           }
         }
         return typeToBeCreated;
-- 
2.43.0


From 368493eda3830f2663f8389636d5b21352b2f14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:41 +0000
Subject: [PATCH 70/96] fix: create the features of a type before those of its
 subtypes

---
 src/framework/casdefinition.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index bcca10d..7f33b36 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -34,6 +34,9 @@
 /* ----------------------------------------------------------------------- */
 #include "uima/pragmas.hpp"
 
+#include <algorithm>
+#include <map>
+
 #include "xercesc/util/PlatformUtils.hpp"
 #include "xercesc/parsers/XercesDOMParser.hpp"
 #include "xercesc/parsers/SAXParser.hpp"
@@ -398,10 +401,17 @@ namespace uima {
         mergeType( rTypeSystem, crTypeName, crTSDesc, crCreatorID, subTypes );
       }
 
-      // create features
+      // create features, those of a type before those of its subtypes
+      // (a type is always created after its supertype)
+      multimap<uima::lowlevel::TyFSType, TypeDescription const *> typeDescs;
       for (cit = crTypeDescVector.begin(); cit != crTypeDescVector.end(); ++cit) {
-        TypeDescription const * pTypeDesc = *cit;
-        uima::lowlevel::TyFSType introType = rTypeSystem.getTypeByName( pTypeDesc->getName() );
+        typeDescs.insert( make_pair(rTypeSystem.getTypeByName( (*cit)->getName() ),
+                                    (TypeDescription const *) *cit) );
+      }
+      multimap<uima::lowlevel::TyFSType, TypeDescription const *>::const_iterator citDescs;
+      for (citDescs = typeDescs.begin(); citDescs != typeDescs.end(); ++citDescs) {
+        TypeDescription const * pTypeDesc = citDescs->second;
+        uima::lowlevel::TyFSType introType = citDescs->first;
         // type must have been merged before
         assert( rTypeSystem.isValidType(introType) );
 
-- 
2.43.0


From 36bd02de5714f554c095b43eb351f1173ef004bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:08 +0000
Subject: [PATCH 71/96] fix: recognize cyclic imports that go through parent
 directories

---
 src/framework/resmgr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 111ff0e..3402548 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -820,6 +820,8 @@ namespace uima {
     locSameDirAsLast.setNewName(filename_cstr.get());
 
     if (locSameDirAsLast.isExistent()) {
+      // one spelling per file, so that descriptors importing each other are recognized
+      locSameDirAsLast.normalizeAbsolute();
       return locSameDirAsLast.getAsCString();
     }
 
-- 
2.43.0


From 7ed3c16035f9500baa75f9c44d95e3da6f6452ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:03 +0000
Subject: [PATCH 72/96] fix: write descriptors that read back as the same
 description

---
 src/framework/taespecifier.cpp | 93 ++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 44 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index e6dc877..4a0ea14 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -687,6 +687,11 @@ namespace uima {
     }
   }
 
+  // text of an element or of an attribute value
+  void appendText(icu::UnicodeString const & text, icu::UnicodeString & s) {
+    XMLWriterABase::normalize(UnicodeStringRef(text), s);
+  }
+
   void appendCapabilities(Capability::TyVecCapabilityTofs const & v, char const * xmlTag, icu::UnicodeString & s) {
     size_t i;
     for (i=0; i<v.size(); ++i) {
@@ -694,7 +699,7 @@ namespace uima {
       s.append(xmlTag);
       s.append(">");
 
-      s.append(v[i]);
+      appendText(v[i], s);
 
       s.append("</");
       s.append(xmlTag);
@@ -709,7 +714,7 @@ namespace uima {
       s.append(xmlTag);
       s.append(">");
 
-      s.append(v[i]);
+      appendText(v[i], s);
 
       s.append("</");
       s.append(xmlTag);
@@ -727,7 +732,7 @@ namespace uima {
 
   void appendFloat(float f, icu::UnicodeString & s) {
     char c[256];
-    sprintf(c, "%f", f);
+    sprintf(c, "%.9g", f);      // enough digits to read the same value back
     s.append(c);
   }
 
@@ -745,10 +750,10 @@ namespace uima {
       ConfigurationParameter const * confParam = configParams[i];
       s.append("<configurationParameter>");
       s.append("<name>");
-      s.append(confParam->getName());
+      appendText(confParam->getName(), s);
       s.append("</name>");
       s.append("<description>");
-      s.append(confParam->getDescription());
+      appendText(confParam->getDescription(), s);
       s.append("</description>");
       s.append("<type>");
       ConfigurationParameter::EnParameterType paramType = confParam->getType();
@@ -786,7 +791,7 @@ namespace uima {
       NameValuePair const * nvp = nvps[i];
       s.append("<nameValuePair>");
       s.append("<name>");
-      s.append( nvp->getName() );
+      appendText(nvp->getName(), s);
       s.append("</name>");
 
       s.append("<value>");
@@ -827,7 +832,7 @@ namespace uima {
             vector<icu::UnicodeString> const & v = nvp->extractStringValues();
             for (j=0; j<v.size(); ++j) {
               s.append("<string>");
-              s.append(v[j]);
+              appendText(v[j], s);
               s.append("</string>");
             }
             break;
@@ -863,7 +868,7 @@ namespace uima {
         case ConfigurationParameter::STRING: {
             icu::UnicodeString const & v = nvp->extractStringValue();
             s.append("<string>");
-            s.append(v);
+            appendText(v, s);
             s.append("</string>");
             break;
           }
@@ -892,10 +897,10 @@ namespace uima {
       FSIndexDescription const * ixDesc = ixVec[i];
       s.append("<fsIndexDescription>");
       s.append("<label>");
-      s.append(ixDesc->getLabel());
+      appendText(ixDesc->getLabel(), s);
       s.append("</label>");
       s.append("<typeName>");
-      s.append(ixDesc->getTypeName());
+      appendText(ixDesc->getTypeName(), s);
       s.append("</typeName>");
       s.append("<kind>");
       FSIndexDescription::EnIndexKind ixKind = ixDesc->getIndexKind();
@@ -924,7 +929,7 @@ namespace uima {
             s.append("<typePriority/>");
           } else {
               s.append("<featureName>");
-              s.append(ixKeyDesc->getFeatureName());
+              appendText(ixKeyDesc->getFeatureName(), s);
               s.append("</featureName>");
 
               s.append("<comparator>");
@@ -968,7 +973,7 @@ namespace uima {
         for ( j = 0; j < vecTypeOrder.size();  ++j) {
 
           s.append("<type>");
-          s.append(vecTypeOrder[j]);
+          appendText(vecTypeOrder[j], s);
           s.append("</type>");
         }
         s.append("</priorityList>");
@@ -988,15 +993,15 @@ namespace uima {
       for (i=0; i<sofamappingVec.size(); ++i) {
         s.append("<sofaMapping>");
         s.append("<componentKey>");
-        s.append(sofamappingVec[i]->getComponentKey());
+        appendText(sofamappingVec[i]->getComponentKey(), s);
         s.append("</componentKey>");
 
         s.append("<componentSofaName>");
-        s.append(sofamappingVec[i]->getComponentSofaName());
+        appendText(sofamappingVec[i]->getComponentSofaName(), s);
         s.append("</componentSofaName>");
 
         s.append("<aggregateSofaName>");
-        s.append(sofamappingVec[i]->getAggregateSofaName());
+        appendText(sofamappingVec[i]->getAggregateSofaName(), s);
         s.append("</aggregateSofaName>");
 
         s.append("</sofaMapping>");
@@ -1017,7 +1022,7 @@ namespace uima {
 
       if (md.hasDefaultGroup()) {
         s.append(" defaultGroup=\"");
-        s.append( md.iv_defaultGroup );
+        appendText(md.iv_defaultGroup, s);
         s.append("\"");
       }
 
@@ -1047,7 +1052,7 @@ namespace uima {
           s.append("<commonParameters>");
         } else {
           s.append("<configurationGroup names=\"");
-          s.append(confGroupName);
+          appendText(confGroupName, s);
           s.append("\">");
         }
 
@@ -1085,7 +1090,7 @@ namespace uima {
         SettingsForGroup const & settings = (*cit).second;
 
         s.append("<settingsForGroup name=\"");
-        s.append(groupName);
+        appendText(groupName, s);
         s.append("\">");
         appendConfigGroupSettingsToXMLBuffer(settings, s);
         s.append("</settingsForGroup>");
@@ -1137,7 +1142,7 @@ namespace uima {
 
     if (isCasConsumer) {
       s.append("<implementationName>");
-      s.append(getAnnotatorImpName());
+      appendText(getAnnotatorImpName(), s);
       s.append("</implementationName>");
     }
     // primitive
@@ -1150,7 +1155,7 @@ namespace uima {
       if (isPrimitive()) {
         // annotator implementation
         s.append("<annotatorImplementationName>");
-        s.append(getAnnotatorImpName());
+        appendText(getAnnotatorImpName(), s);
         s.append("</annotatorImplementationName>");
       } else {
         // delegates
@@ -1159,7 +1164,7 @@ namespace uima {
         TyMapDelegateSpecs::const_iterator cit;
         for (cit = delegates.begin(); cit != delegates.end(); ++cit) {
           s.append("<delegateAnalysisEngine key=\"");
-          s.append( (*cit).first );
+          appendText((*cit).first, s);
           s.append("\">");
           icu::UnicodeString delBuf;
           (*cit).second->toXMLBufferNoXMLHeader(delBuf);
@@ -1179,15 +1184,15 @@ namespace uima {
         for (i=0; i<sofamappingVec.size(); ++i) {
           s.append("<sofaMapping>");
           s.append("<componentKey>");
-          s.append(sofamappingVec[i]->getComponentKey());
+          appendText(sofamappingVec[i]->getComponentKey(), s);
           s.append("</componentKey>");
 
           s.append("<componentSofaName>");
-          s.append(sofamappingVec[i]->getComponentSofaName());
+          appendText(sofamappingVec[i]->getComponentSofaName(), s);
           s.append("</componentSofaName>");
 
           s.append("<aggregateSofaName>");
-          s.append(sofamappingVec[i]->getAggregateSofaName());
+          appendText(sofamappingVec[i]->getAggregateSofaName(), s);
           s.append("</aggregateSofaName>");
 
           s.append("</sofaMapping>");
@@ -1232,7 +1237,7 @@ namespace uima {
 
     //   version
     s.append("<version>");
-    s.append( md.getVersion() );
+    appendText(md.getVersion(), s);
     s.append("</version>");
 
     //   vendor
@@ -1249,7 +1254,7 @@ namespace uima {
 
       if (md.hasDefaultGroup()) {
         s.append(" defaultGroup=\"");
-        s.append( md.iv_defaultGroup );
+        appendText(md.iv_defaultGroup, s);
         s.append("\"");
       }
 
@@ -1279,7 +1284,7 @@ namespace uima {
           s.append("<commonParameters>");
         } else {
           s.append("<configurationGroup names=\"");
-          s.append(confGroupName);
+          appendText(confGroupName, s);
           s.append("\">");
         }
 
@@ -1317,7 +1322,7 @@ namespace uima {
         SettingsForGroup const & settings = (*cit).second;
 
         s.append("<settingsForGroup name=\"");
-        s.append(groupName);
+        appendText(groupName, s);
         s.append("\">");
         appendConfigGroupSettingsToXMLBuffer(settings, s);
         s.append("</settingsForGroup>");
@@ -1347,7 +1352,7 @@ namespace uima {
       vector<icu::UnicodeString> const & v = flow->getNodes();
       for (i=0; i<v.size(); ++i) {
         s.append("<node>");
-        s.append(v[i]);
+        appendText(v[i], s);
         s.append("</node>");
       }
       if (flow->getFlowConstraintsType() == FlowConstraints::FIXED) {
@@ -1371,7 +1376,7 @@ namespace uima {
         for ( j = 0; j < vecTypeOrder.size();  ++j) {
 
           s.append("<type>");
-          s.append(vecTypeOrder[j]);
+          appendText(vecTypeOrder[j], s);
           s.append("</type>");
         }
         s.append("</priorityList>");
@@ -1390,11 +1395,11 @@ namespace uima {
           ImportDescription const * pImport = importVec[i];
           if ( pImport->getName().length() > 0) {
             s.append("<import name=\"");
-            s.append(pImport->getName());
+            appendText(pImport->getName(), s);
             s.append("\"/>");
           } else {
             s.append("<import location=\"");
-            s.append(pImport->getLocation());
+            appendText(pImport->getLocation(), s);
             s.append("\"/>");
           }
         }
@@ -1405,7 +1410,7 @@ namespace uima {
           TypeDescription const * td = tdVec[i];
           s.append("<typeDescription>");
           s.append("<name>");
-          s.append(td->getName());
+          appendText(td->getName(), s);
           s.append("</name>");
 
           s.append("<description>");
@@ -1415,7 +1420,7 @@ namespace uima {
           s.append("</description>");
 
           s.append("<supertypeName>");
-          s.append(td->getSuperTypeName());
+          appendText(td->getSuperTypeName(), s);
           s.append("</supertypeName>");
 
           TypeDescription::TyVecpFeatureDescriptions const & fdVec = td->getFeatureDescriptions();
@@ -1425,7 +1430,7 @@ namespace uima {
               FeatureDescription const * fs = fdVec[j];
               s.append("<featureDescription>");
               s.append("<name>");
-              s.append(fs->getName());
+              appendText(fs->getName(), s);
               s.append("</name>");
               s.append("<description>");
               out.setTo("");
@@ -1433,11 +1438,11 @@ namespace uima {
               s.append(out);
               s.append("</description>");
               s.append("<rangeTypeName>");
-              s.append(fs->getRangeTypeName());
+              appendText(fs->getRangeTypeName(), s);
               s.append("</rangeTypeName>");
               if (0 < fs->getElementType().length() ) {
                 s.append("<elementType>");
-                s.append(fs->getElementType());
+                appendText(fs->getElementType(), s);
                 s.append("</elementType>");
               }
               if (fs->isMultipleReferencesAllowed() ) {
@@ -1457,7 +1462,7 @@ namespace uima {
               AllowedValue const * value = allowVec[j];
               s.append("<value>");
               s.append("<string>");
-              s.append(value->getName());
+              appendText(value->getName(), s);
               s.append("</string>");
               s.append("<description>");
               out.setTo("");
@@ -1484,11 +1489,11 @@ namespace uima {
         ImportDescription const * pImport = ixImportVec[i];
         if ( pImport->getName().length() > 0) {
           s.append("<import name=\"");
-          s.append(pImport->getName());
+          appendText(pImport->getName(), s);
           s.append("\"/>");
         } else {
           s.append("<import location=\"");
-          s.append(pImport->getLocation());
+          appendText(pImport->getLocation(), s);
           s.append("\"/>");
         }
       }
@@ -1502,10 +1507,10 @@ namespace uima {
       FSIndexDescription const * ixDesc = ixVec[i];
       s.append("<fsIndexDescription>");
       s.append("<label>");
-      s.append(ixDesc->getLabel());
+      appendText(ixDesc->getLabel(), s);
       s.append("</label>");
       s.append("<typeName>");
-      s.append(ixDesc->getTypeName());
+      appendText(ixDesc->getTypeName(), s);
       s.append("</typeName>");
       s.append("<kind>");
       FSIndexDescription::EnIndexKind ixKind = ixDesc->getIndexKind();
@@ -1534,7 +1539,7 @@ namespace uima {
             s.append("<typePriority/>");
           } else {
             s.append("<featureName>");
-            s.append(ixKeyDesc->getFeatureName());
+            appendText(ixKeyDesc->getFeatureName(), s);
             s.append("</featureName>");
 
             s.append("<comparator>");
@@ -1591,7 +1596,7 @@ namespace uima {
       Capability::TyVecCapabilityLanguages const & suppLangVec = cap->getSupportedLanguages();
       for (j=0; j<suppLangVec.size(); ++j) {
         s.append("<language>");
-        s.append(suppLangVec[j]);
+        appendText(suppLangVec[j], s);
         s.append("</language>");
       }
       s.append("</languagesSupported>");
-- 
2.43.0


From ecf899ddf831e8962f77d907340bad31b4f74ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:04 +0000
Subject: [PATCH 73/96] fix: buildTaeFromMemory parses the text, not a freed
 copy of it

---
 src/framework/taespecifierbuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index ecc3ed3..f7c5967 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -2034,8 +2034,8 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
 
   void TextAnalysisEngineSpecifierBuilder::buildTaeFromMemory(AnalysisEngineDescription & taeSpec,
       icu::UnicodeString const & xmlString) {
-	UnicodeStringRef uref(xmlString);
-    MemBufInputSource memIS((XMLByte const *) uref.asUTF8().c_str(), uref.asUTF8().length(), "sysID");
+    std::string utf8 = UnicodeStringRef(xmlString).asUTF8();
+    MemBufInputSource memIS((XMLByte const *) utf8.c_str(), utf8.length(), "sysID");
     parseAnalysisEngineDescription(taeSpec, memIS);
   }
 
-- 
2.43.0


From fb3a898573206a6d087133fc7f04b5720124e909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:50 +0000
Subject: [PATCH 74/96] fix: write the delegates a parameter is restricted to

---
 src/framework/taespecifier.cpp      | 11 +++++++++++
 src/framework/uima/config_param.hpp |  6 +++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 4a0ea14..1ed5219 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -780,6 +780,17 @@ namespace uima {
       s.append("<mandatory>");
       appendBool(confParam->isMandatory(), s);
       s.append("</mandatory>");
+      vector<icu::UnicodeString> const & restrictedTo = confParam->getRestrictions();
+      if (restrictedTo.size() > 0) {
+        s.append("<restrictOverrideTo>");
+        for (size_t j=0; j<restrictedTo.size(); ++j) {
+          if (j > 0) {
+            s.append(" ");
+          }
+          appendText(restrictedTo[j], s);
+        }
+        s.append("</restrictOverrideTo>");
+      }
       s.append("</configurationParameter>");
     }
   }
diff --git a/src/framework/uima/config_param.hpp b/src/framework/uima/config_param.hpp
index f552377..5cbef89 100644
--- a/src/framework/uima/config_param.hpp
+++ b/src/framework/uima/config_param.hpp
@@ -153,9 +153,9 @@ namespace uima {
     * setting this parameter. If the vector is empty, all delegates
     * are possibly affected.
     **/
-    /*       const std::vector<icu::UnicodeString> & getRestrictions() const{ */
-    /*          return iv_vecRestrictedToDelegates;                           */
-    /*       }                                                                */
+    const std::vector<icu::UnicodeString> & getRestrictions() const {
+      return iv_vecRestrictedToDelegates;
+    }
 
   private:
     icu::UnicodeString iv_name;
-- 
2.43.0


From 11d795eafbce8905273ad74eec54f9d56276d0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:52 +0000
Subject: [PATCH 75/96] fix: write common parameters that are declared without
 any group

---
 src/framework/taespecifier.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 1ed5219..14a8d2d 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -1080,13 +1080,17 @@ namespace uima {
     } else {
       s.append("<configurationParameters>");
       AnalysisEngineMetaData::TyConfigGroup const & confGroups = md.iv_configurationGroups;
-      assert( confGroups.find(md.CONFIG_GROUP_NAME_COMMON_PARMS) == confGroups.end() );
-      if (confGroups.size() > 0) {
-        assert( confGroups.size() == 1);
-        AnalysisEngineMetaData::TyConfigGroup::const_iterator cit = confGroups.find(md.CONFIG_GROUP_NAME_WHEN_NO_GROUPS);
-        assert( cit != confGroups.end() );
+      AnalysisEngineMetaData::TyConfigGroup::const_iterator cit = confGroups.find(md.CONFIG_GROUP_NAME_WHEN_NO_GROUPS);
+      if (cit != confGroups.end()) {
         appendConfigGroupToXMLBuffer( (*cit).second, s);
       }
+      // common parameters may be declared without any group
+      cit = confGroups.find(md.CONFIG_GROUP_NAME_COMMON_PARMS);
+      if (cit != confGroups.end()) {
+        s.append("<commonParameters>");
+        appendConfigGroupToXMLBuffer( (*cit).second, s);
+        s.append("</commonParameters>");
+      }
       s.append("</configurationParameters>");
     }
 
@@ -1312,12 +1316,16 @@ namespace uima {
     } else {
       s.append("<configurationParameters>");
       AnalysisEngineMetaData::TyConfigGroup const & confGroups = md.iv_configurationGroups;
-      assert( confGroups.find(md.CONFIG_GROUP_NAME_COMMON_PARMS) == confGroups.end() );
-      if (confGroups.size() > 0) {
-        assert( confGroups.size() == 1);
-        AnalysisEngineMetaData::TyConfigGroup::const_iterator cit = confGroups.find(md.CONFIG_GROUP_NAME_WHEN_NO_GROUPS);
-        assert( cit != confGroups.end() );
+      AnalysisEngineMetaData::TyConfigGroup::const_iterator cit = confGroups.find(md.CONFIG_GROUP_NAME_WHEN_NO_GROUPS);
+      if (cit != confGroups.end()) {
+        appendConfigGroupToXMLBuffer( (*cit).second, s);
+      }
+      // common parameters may be declared without any group
+      cit = confGroups.find(md.CONFIG_GROUP_NAME_COMMON_PARMS);
+      if (cit != confGroups.end()) {
+        s.append("<commonParameters>");
         appendConfigGroupToXMLBuffer( (*cit).second, s);
+        s.append("</commonParameters>");
       }
       s.append("</configurationParameters>");
     }
-- 
2.43.0


From 2499d358163afb0c7776288d961723426241ad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:00 +0000
Subject: [PATCH 76/96] fix: unlink the CAS from a CAS multiplier that is a
 delegate

---
 src/framework/internal_primitive_engine.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/framework/internal_primitive_engine.cpp b/src/framework/internal_primitive_engine.cpp
index 81f90b2..a3c4b6a 100644
--- a/src/framework/internal_primitive_engine.cpp
+++ b/src/framework/internal_primitive_engine.cpp
@@ -212,10 +212,7 @@ namespace uima {
           cas.setCurrentComponentInfo(NULL);
           throw;
         }
-        // a CAS multiplier goes on working with the CAS in hasNext() and next()
-        if (iv_pAnnotator->getCasInstancesRequired() <= 0) {
-          cas.setCurrentComponentInfo(NULL);
-        }
+        cas.setCurrentComponentInfo(NULL);
       }
       // if annotator should not be called is not really an error
       return utErrorId;
-- 
2.43.0


From bf66044558b48c70b502732bae4da2f038751e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:50 +0000
Subject: [PATCH 77/96] fix: return the number of elements from a read of local
 sofa data

---
 src/cas/sofastream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index be3d237..06794d5 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -477,7 +477,8 @@ namespace uima {
     //move current read position
     iv_curpos += numbytesread;
 
-    return numbytesread;
+    // number of elements read
+    return numbytesread/elementSize;
   }
 
   //seek
-- 
2.43.0


From 96842732870a4fd33841d3518167e1b9f6b00563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:50 +0000
Subject: [PATCH 78/96] fix: keep the position of a local sofa stream within
 its data

---
 src/cas/sofastream.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index 06794d5..2e5ebf1 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -493,15 +493,16 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
 
+    INT64 newpos = 0;
     switch (origin) {
     case SEEK_SET:
-      iv_curpos = offset;
+      newpos = offset;
       break ;
     case SEEK_CUR:
-      iv_curpos += offset;
+      newpos = iv_curpos + offset;
       break ;
     case SEEK_END:
-      iv_curpos = getTotalStreamSizeInBytes() - offset;
+      newpos = iv_size - offset;
       break ;
     default:
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_SOFADATASTREAM_INVALID_SEEK_ORIGIN);
@@ -512,6 +513,11 @@ namespace uima {
                          UIMA_MSG_ID_EXCON_SOFADATASTREAM,
                          ErrorInfo::unrecoverable);
     }
+    //the position stays within the data
+    if (newpos < 0 || newpos > iv_size) {
+      return SOFASTREAMHANDLER_EOF;
+    }
+    iv_curpos = newpos;
     return 0;
   }
 
-- 
2.43.0


From db1a0c3ba1cf104583e898d85bee690774d259cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:08 +0000
Subject: [PATCH 79/96] fix: follow the arrays of the heap in a local sofa
 stream

---
 src/cas/sofastream.cpp      | 27 ++++++++++++++++++++++++++-
 src/cas/uima/sofastream.hpp |  2 ++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index 2e5ebf1..7d93e02 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -286,7 +286,7 @@ namespace uima {
 
   //Constructor
   LocalSofaDataStream::LocalSofaDataStream(SofaFS& aSofaFS) : iv_psofafs(NULL),
-      iv_psofadata(NULL), iv_pstringsofadata(NULL), iv_size(0),
+      iv_psofadata(NULL), iv_pstringsofadata(NULL), iv_tyArray(0), iv_size(0),
       iv_isstring(false), iv_isintarray(false),
       iv_isfloatarray(false), iv_isbooleanarray(false),
       iv_isbytearray(false),iv_isshortarray(false),
@@ -354,6 +354,7 @@ namespace uima {
       FeatureStructure arrayFS = iv_psofafs->getFSValue(arrayfeat);
       Type rangeType = arrayFS.getType();
       UnicodeStringRef rangeTypeName = rangeType.getName();
+      iv_tyArray = arrayFS.iv_tyFS;
 
       if (rangeTypeName.compare(CAS::TYPE_NAME_INTEGER_ARRAY) ==0) {
         iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->getCArrayFromFS(arrayFS.iv_tyFS);
@@ -405,6 +406,23 @@ namespace uima {
     return 0;
   }
 
+  //the arrays of the heap may have moved since the stream was opened
+  void LocalSofaDataStream::refreshDataPointer() {
+    if (iv_psofadata == NULL || iv_isstring) {
+      return;
+    }
+    lowlevel::FSHeap * pHeap = iv_psofafs->getCAS().getHeap();
+    if (iv_isintarray || iv_isfloatarray) {
+      iv_psofadata = (char*) pHeap->getCArrayFromFS(iv_tyArray);
+    } else if (iv_isbooleanarray || iv_isbytearray) {
+      iv_psofadata = (char*) pHeap->get8BitArray(iv_tyArray);
+    } else if (iv_isshortarray) {
+      iv_psofadata = (char*) pHeap->get16BitArray(iv_tyArray);
+    } else {
+      iv_psofadata = (char*) pHeap->get64BitArray(iv_tyArray);
+    }
+  }
+
   //getTotalStreamSize
   INT64 LocalSofaDataStream::getTotalStreamSizeInBytes() {
     if (iv_size==0) {
@@ -472,6 +490,7 @@ namespace uima {
     }
 
     //read bytes
+    refreshDataPointer();
     memcpy(pbuffer,iv_psofadata+iv_curpos,numbytesread);
 
     //move current read position
@@ -532,11 +551,17 @@ namespace uima {
     iv_isstring=false;
     iv_isintarray=false;
     iv_isfloatarray=false;
+    iv_isbooleanarray=false;
+    iv_isbytearray=false;
+    iv_isshortarray=false;
+    iv_islongarray=false;
+    iv_isdoublearray=false;
   }
 
   //getDataPointer
   const TySofaDataPointer LocalSofaDataStream::getDataPointer() {
     TySofaDataPointer dataptr=NULL;
+    refreshDataPointer();
     if (iv_psofadata != NULL) {
       dataptr = (TySofaDataPointer) iv_psofadata;
     }
diff --git a/src/cas/uima/sofastream.hpp b/src/cas/uima/sofastream.hpp
index a2e7d2c..0dbb60b 100644
--- a/src/cas/uima/sofastream.hpp
+++ b/src/cas/uima/sofastream.hpp
@@ -207,9 +207,11 @@ namespace uima {
     const TySofaDataPointer getDataPointer();
 
   private:
+    void refreshDataPointer();
     SofaFS * iv_psofafs;           //the SofaFS
     const char * iv_psofadata;    //ptr to the sofa data
     char * iv_pstringsofadata;    //ptr to UTF 8 string
+    lowlevel::TyFS iv_tyArray;    //the array if sofa data is stored in one
     INT64 iv_curpos;              //cursor position
     INT32 iv_size;                //total size of stream in bytes
     bool iv_isstring;             //is sofa data stored in a String Feature
-- 
2.43.0


From de49d75cdb947bb3a3539eac3034ab27f8852f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:08 +0000
Subject: [PATCH 80/96] fix: an open stream over empty sofa data has size zero

---
 src/cas/sofastream.cpp      | 17 +++++++++++------
 src/cas/uima/sofastream.hpp |  1 +
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index 7d93e02..b71d66d 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -286,7 +286,7 @@ namespace uima {
 
   //Constructor
   LocalSofaDataStream::LocalSofaDataStream(SofaFS& aSofaFS) : iv_psofafs(NULL),
-      iv_psofadata(NULL), iv_pstringsofadata(NULL), iv_tyArray(0), iv_size(0),
+      iv_psofadata(NULL), iv_pstringsofadata(NULL), iv_tyArray(0), iv_isopen(false), iv_size(0),
       iv_isstring(false), iv_isintarray(false),
       iv_isfloatarray(false), iv_isbooleanarray(false),
       iv_isbytearray(false),iv_isshortarray(false),
@@ -403,12 +403,13 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
 
+    iv_isopen = true;
     return 0;
   }
 
   //the arrays of the heap may have moved since the stream was opened
   void LocalSofaDataStream::refreshDataPointer() {
-    if (iv_psofadata == NULL || iv_isstring) {
+    if (!iv_isopen || iv_isstring) {
       return;
     }
     lowlevel::FSHeap * pHeap = iv_psofafs->getCAS().getHeap();
@@ -425,21 +426,24 @@ namespace uima {
 
   //getTotalStreamSize
   INT64 LocalSofaDataStream::getTotalStreamSizeInBytes() {
-    if (iv_size==0) {
+    if (!iv_isopen) {
       return SOFASTREAMHANDLER_EOF;
     } else return iv_size;
   }
 
   //howManyBytesAvailable
   INT64 LocalSofaDataStream::howManyBytesAvailable() {
-    return (getTotalStreamSizeInBytes()-iv_curpos);
+    if (!iv_isopen) {
+      return SOFASTREAMHANDLER_EOF;
+    }
+    return (iv_size-iv_curpos);
   }
 
 
   //read
   int LocalSofaDataStream::read( void * pbuffer, int elementSize, size_t numElements) {
     //check valid sofa data
-    if (iv_psofadata == NULL) {
+    if (!iv_isopen) {
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_NOTSET);
       errMsg.addParam(iv_psofafs->getType().getName());
       UIMA_EXC_THROW_NEW(SofaDataStreamException,
@@ -502,7 +506,7 @@ namespace uima {
 
   //seek
   int LocalSofaDataStream::seek(INT64 offset, int origin) {
-    if (iv_psofadata == NULL) {
+    if (!iv_isopen) {
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_NOTSET);
       errMsg.addParam(iv_psofafs->getType().getName());
       UIMA_EXC_THROW_NEW(SofaDataStreamException,
@@ -547,6 +551,7 @@ namespace uima {
     iv_pstringsofadata = NULL;
     iv_curpos=0;
     iv_psofadata = NULL;
+    iv_isopen=false;
     iv_size=0;
     iv_isstring=false;
     iv_isintarray=false;
diff --git a/src/cas/uima/sofastream.hpp b/src/cas/uima/sofastream.hpp
index 0dbb60b..b0d8a71 100644
--- a/src/cas/uima/sofastream.hpp
+++ b/src/cas/uima/sofastream.hpp
@@ -213,6 +213,7 @@ namespace uima {
     char * iv_pstringsofadata;    //ptr to UTF 8 string
     lowlevel::TyFS iv_tyArray;    //the array if sofa data is stored in one
     INT64 iv_curpos;              //cursor position
+    bool iv_isopen;               //stream is open
     INT32 iv_size;                //total size of stream in bytes
     bool iv_isstring;             //is sofa data stored in a String Feature
     bool iv_isintarray;           //is sofa data stored in a FS array of ints
-- 
2.43.0


From 42cad843e5e6b9695ec7e6650851ad041b95aea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:08 +0000
Subject: [PATCH 81/96] fix: release what an earlier open left when a sofa
 stream is reopened

---
 src/cas/sofastream.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index b71d66d..2e47092 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -128,6 +128,17 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
 
+    //release the handler of an earlier open
+    if (iv_pHandler != NULL) {
+      iv_pHandler->closeStream();
+      delete iv_pHandler;
+      iv_pHandler = NULL;
+    }
+    if (iv_pHandlerDll != NULL) {
+      delete iv_pHandlerDll;
+      iv_pHandlerDll = NULL;
+    }
+
     //load the handler
     iv_pHandlerDll  = new util::DllProcLoaderFile(*pDllFile);
     //assert(EXISTS(iv_pHandlerDll));
@@ -311,7 +322,8 @@ namespace uima {
     Feature stringfeat = type.getFeatureByBaseName(CAS::FEATURE_BASE_NAME_SOFASTRING);
     Feature arrayfeat = type.getFeatureByBaseName(CAS::FEATURE_BASE_NAME_SOFAARRAY);
 
-    iv_curpos=0;
+    //release what an earlier open left
+    close();
     if  ( !iv_psofafs->isUntouchedFSValue(stringfeat) ) {     //local sofa - data in string
       //convert string to UTF-8
       UErrorCode errorcode = U_ZERO_ERROR ;
-- 
2.43.0


From d6469bb5397cbc81fed346d10712f0257b0deab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:01 +0000
Subject: [PATCH 82/96] fix: write the type priorities of a description where
 its schema expects them

---
 src/framework/taespecifier.cpp | 40 +++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 14a8d2d..19deee3 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -1383,26 +1383,6 @@ namespace uima {
       s.append("</flowConstraints>");
     }
 
-    //type priorites
-    const AnalysisEngineMetaData::TyVecpTypePriorities  & prioDesc =  
-                    md.getTypePriorities();
-     if (prioDesc.size() > 0) {
-      s.append("<typePriorities>");
-      for (i=0; i<prioDesc.size() ;++i) {
-        s.append("<priorityList>");
-        TypePriority * prio = prioDesc[i];
-        vector <icu::UnicodeString> vecTypeOrder = prio->getTypeOrder();
-        for ( j = 0; j < vecTypeOrder.size();  ++j) {
-
-          s.append("<type>");
-          appendText(vecTypeOrder[j], s);
-          s.append("</type>");
-        }
-        s.append("</priorityList>");
-      }
-      s.append("</typePriorities>");
-    }
-
     // type system
 
       s.append("<typeSystemDescription>");
@@ -1498,6 +1478,26 @@ namespace uima {
       }
       s.append("</types></typeSystemDescription>");
 
+    //type priorites
+    const AnalysisEngineMetaData::TyVecpTypePriorities  & prioDesc =  
+                    md.getTypePriorities();
+     if (prioDesc.size() > 0) {
+      s.append("<typePriorities>");
+      for (i=0; i<prioDesc.size() ;++i) {
+        s.append("<priorityList>");
+        TypePriority * prio = prioDesc[i];
+        vector <icu::UnicodeString> vecTypeOrder = prio->getTypeOrder();
+        for ( j = 0; j < vecTypeOrder.size();  ++j) {
+
+          s.append("<type>");
+          appendText(vecTypeOrder[j], s);
+          s.append("</type>");
+        }
+        s.append("</priorityList>");
+      }
+      s.append("</typePriorities>");
+    }
+
     //fsIndexCollection
     s.append("<fsIndexCollection>");
     //fsIndexCollection -- imports
-- 
2.43.0


From 9e5ff1984f7e47dd74ec2c1292122ed96a008ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:22 +0000
Subject: [PATCH 83/96] fix: pin the range of a string reference's operations
 like icu's

---
 src/framework/uima/unistrref.hpp | 9 ++++++++-
 src/framework/unistrref.cpp      | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/framework/uima/unistrref.hpp b/src/framework/uima/unistrref.hpp
index dcb6bd6..f7859dc 100644
--- a/src/framework/uima/unistrref.hpp
+++ b/src/framework/uima/unistrref.hpp
@@ -1576,12 +1576,17 @@ namespace uima {
   UnicodeStringRef::pinIndices(int32_t& start,
                                int32_t& length) const {
     // pin indices
-    if (start > iv_uiLength) {
+    if (start < 0) {
+      start = 0;
+    } else if (start > iv_uiLength) {
       start = iv_uiLength;
     }
     if (length > (iv_uiLength - start)) {
       length = (iv_uiLength - start);
     }
+    if (length < 0) {
+      length = 0;
+    }
   }
 
   inline bool
@@ -2075,6 +2080,7 @@ namespace uima {
   UnicodeStringRef::extract(int32_t start,
                             int32_t length,
                             icu::UnicodeString& target) const {
+    pinIndices(start, length);
     target.replace(0, target.length(), getBuffer(), start, length);
   }
 // Replaces all of target by substring of src
@@ -2178,6 +2184,7 @@ namespace uima {
                                   int32_t srcStart,
                                   int32_t srcLength,
                                   uint32_t options) const {
+    pinIndices(start, length);
     icu::UnicodeString s(iv_pUChars+start, (int32_t)length);
     return s.caseCompare(srcChars + srcStart, (int32_t)srcLength, options);
   }
diff --git a/src/framework/unistrref.cpp b/src/framework/unistrref.cpp
index 32598ae..bab8d48 100644
--- a/src/framework/unistrref.cpp
+++ b/src/framework/unistrref.cpp
@@ -295,7 +295,8 @@ namespace uima {
                                     int32_t startLength,
                                     std::string & target,
                                     const char *codepage) const {
-    if (length() == 0) {
+    pinIndices(start, startLength);
+    if (startLength == 0) {
       target.clear();
       return 0;
     }
-- 
2.43.0


From bcc8046b0bbd9a02a3e3bc684cda928795165bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:22 +0000
Subject: [PATCH 84/96] fix: compareCodePointOrder of string references
 compares lengths and text after U+0000

---
 src/framework/unistrref.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/framework/unistrref.cpp b/src/framework/unistrref.cpp
index bab8d48..6c9fcb6 100644
--- a/src/framework/unistrref.cpp
+++ b/src/framework/unistrref.cpp
@@ -119,14 +119,19 @@ namespace uima {
       const UChar *srcChars,
       int32_t srcStart,
       int32_t srcLength) const {
+    // pin indices to legal values
+    pinIndices(start, length);
+
+    // a null string is an empty string
     if (srcChars==NULL) {
-      return 1;
+      return length == 0 ? 0 : 1;
     }
 
-    // pin indices to legal values
-    pinIndices(start, length);
+    if (getBuffer()==NULL) {
+      return srcLength == 0 ? 0 : -1;
+    }
 
-    int32_t diff = u_strncmpCodePointOrder(getBuffer() + start, srcChars + srcStart, min(length, srcLength));
+    int32_t diff = u_strCompare(getBuffer() + start, length, srcChars + srcStart, srcLength, true);
     /* translate the 32-bit result into an 8-bit one */
     if (diff!=0) {
       return (int8_t)(diff >> 15 | 1);
-- 
2.43.0


From 037b12da118ba3712ada7a8af21a3fa39f41bdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:23 +0000
Subject: [PATCH 85/96] fix: equality of string references does not stop at
 U+0000

---
 src/framework/uima/unistrref.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/framework/uima/unistrref.hpp b/src/framework/uima/unistrref.hpp
index f7859dc..49c37ef 100644
--- a/src/framework/uima/unistrref.hpp
+++ b/src/framework/uima/unistrref.hpp
@@ -1554,7 +1554,8 @@ namespace uima {
     if (iv_uiLength != crclRHS.iv_uiLength) {
       return false;
     }
-    return u_strncmp(iv_pUChars, crclRHS.iv_pUChars, iv_uiLength) == 0;
+    // (not u_strncmp, which takes U+0000 for the end of the string)
+    return u_memcmp(iv_pUChars, crclRHS.iv_pUChars, iv_uiLength) == 0;
   }
 
   inline int
-- 
2.43.0


From 22d9aab521670f5fa44ff55a55b5fd1a5d9869f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:23 +0000
Subject: [PATCH 86/96] fix: a null string compares equal to an empty one

---
 src/framework/unistrref.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/framework/unistrref.cpp b/src/framework/unistrref.cpp
index 6c9fcb6..2e2833c 100644
--- a/src/framework/unistrref.cpp
+++ b/src/framework/unistrref.cpp
@@ -50,14 +50,14 @@ namespace uima {
                                const UChar *srcChars,
                                int32_t srcStart,
                                int32_t srcLength) const {
-    // compare illegal string values
-    if (srcChars==0) {
-      return 1;
-    }
-
     // pin indices to legal values
     pinIndices(start, length);
 
+    // a null string is an empty string
+    if (srcChars==0) {
+      return length == 0 ? 0 : 1;
+    }
+
     // get the correct pointer
     const UChar *chars = getBuffer();
 
-- 
2.43.0


From 5628f4df6947f6e9fb6ba5b0594974bc4863fac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:23 +0000
Subject: [PATCH 87/96] fix: every log facility names its own component as
 origin

---
 src/framework/log.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index a408b78..2762cc6 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -245,11 +245,11 @@ namespace uima {
       iv_logStream(*this, LogStream::EnMessage),
       vecLoggers(ResourceManager::getInstance().getLoggers()),
       iv_logLevel(ResourceManager::getInstance().getLoggingLevel()) {
+    UnicodeStringRef ref(crEngineName);
+    ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
    if (logPool == NULL) {
       apr_status_t rv = apr_pool_create( &logPool,NULL );
       if ( rv == APR_SUCCESS ) {
-        UnicodeStringRef ref(crEngineName);
-        ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
         apr_thread_mutex_create(&logMutex,APR_THREAD_MUTEX_UNNESTED, logPool);
       } else {
         UIMA_EXC_THROW_NEW(ExcOutOfMemory,
@@ -267,12 +267,12 @@ namespace uima {
       iv_logStream(*this, crLoggingLevel),
       vecLoggers(ResourceManager::getInstance().getLoggers()),
       iv_logLevel(crLoggingLevel) {
+    UnicodeStringRef ref(crEngineName);
+    ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
 
     if (logPool == NULL) {
       apr_status_t rv = apr_pool_create( &logPool,NULL );
       if ( rv == APR_SUCCESS ) {
-        UnicodeStringRef ref(crEngineName);
-        ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
         apr_thread_mutex_create(&logMutex,APR_THREAD_MUTEX_UNNESTED, logPool);
       } else {
         UIMA_EXC_THROW_NEW(ExcOutOfMemory,
-- 
2.43.0


From a9a47a60ae280376a3d7fd2bf4b6a7f6f3ee98c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:23 +0000
Subject: [PATCH 88/96] fix: pending log stream text is logged once and under
 its own entry type

---
 src/framework/log.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index 2762cc6..05b3fcb 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -226,8 +226,9 @@ namespace uima {
   }
 
   LogStream & LogFacility::getLogStream(LogStream::EnEntryType enLogEntryType) {
-    iv_logStream.iv_enLogEntryType = enLogEntryType;
+    // what is still pending is an entry of the type it was started with
     flushLogStream();
+    iv_logStream.iv_enLogEntryType = enLogEntryType;
     return iv_logStream;
   }
 
@@ -236,6 +237,7 @@ namespace uima {
     if (strMsg.size() == 0) {
       return;
     }
+    iv_logStream.str("");
     log(iv_logStream.iv_enLogEntryType, strMsg.c_str());
   }
 
-- 
2.43.0


From 32622d2aa2a8cfad3aba7c0a14337e59a0a08be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:23 +0000
Subject: [PATCH 89/96] fix: getLastErrorAsCStr does not turn the last error
 into a pending one

---
 src/framework/log.cpp      | 5 +++--
 src/framework/uima/log.hpp | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index 05b3fcb..7362883 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -297,8 +297,9 @@ namespace uima {
     if (errInfo.getErrorId() == UIMA_ERR_NONE) {
       return (NULL);
     }
-    pclThis->iv_strLastError = getLastError().asString();
-    return(iv_strLastError.c_str());
+    // not in iv_strLastError, which holds an error that is not in the object yet
+    pclThis->iv_strLastErrorText = errInfo.asString();
+    return(iv_strLastErrorText.c_str());
   }
 
   ErrorInfo const & LogFacility::getLastError() const {
diff --git a/src/framework/uima/log.hpp b/src/framework/uima/log.hpp
index 4f0e56f..b51cdff 100644
--- a/src/framework/uima/log.hpp
+++ b/src/framework/uima/log.hpp
@@ -262,6 +262,7 @@ namespace uima {
     /* --- variables --- */
     std::string       iv_strOrigin;
     std::string       iv_strLastError;
+    std::string       iv_strLastErrorText;
     long              iv_lLastUserCode;
     ErrorInfo         iv_errInfo;
     LogStream         iv_logStream;
-- 
2.43.0


From 59e2e9963a67b6b263bdcf530691cc828f7587d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:32 +0000
Subject: [PATCH 90/96] fix: error messages of any length are put together

---
 src/framework/exceptions.cpp | 53 ++++++++----------------------------
 1 file changed, 11 insertions(+), 42 deletions(-)

diff --git a/src/framework/exceptions.cpp b/src/framework/exceptions.cpp
index bf6b084..4db8f54 100644
--- a/src/framework/exceptions.cpp
+++ b/src/framework/exceptions.cpp
@@ -198,7 +198,8 @@ namespace uima {
 
     // Check for unknown message id
     if (iv_utMsgId < 0 || iv_utMsgId > UIMA_MSG_ID_SIGNATURE_END) {
-      return string("Unknown message id " + iv_utMsgId);
+      string s;
+      return "Unknown message id " + long2String(iv_utMsgId, s);
     }
 
     //parameter substitution
@@ -207,66 +208,34 @@ namespace uima {
     const TCHAR ** messages = gs_aszMessageStringTable;
     const TCHAR * msg = messages[iv_utMsgId];
 
-    TCHAR * buf = new TCHAR[UIMA_MSG_MAX_STR_LEN];
-    memset(buf,'\0',UIMA_MSG_MAX_STR_LEN);
-
-    int numwritten=0;
-
-    TCHAR * trg = buf;
+    string target;
     while (*msg) {
-      if (numwritten > UIMA_MSG_MAX_STR_LEN) {
-        break;
-      }
       if (*msg == UIMA_MSG_REPLACE_CHAR) {
         msg = msg+1;
         if (*msg == UIMA_MSG_REPLACE_CHAR) {
-          *trg = *msg;
-          trg = trg +1;
-          ;
+          target += *msg;
           msg = msg+1;
-          numwritten++;
         } else {  //replace %n with the corresponding param
           unsigned long index;
-          int len;
-          string arg;
           // determine the number of the specified argument ...
           index = (unsigned long) atol(msg);
-          if (index > numparams)       // param not defined
+          if (index < 1 || index > numparams)       // param not defined
           {
-            arg = "???";      // replace it by "dont-know"
+            target += "???";      // replace it by "dont-know"
           } else {
-            // ... the indexed argument ...
-            arg = iv_vecParams[index - 1]; // zero-based array!
-            //assert(arg.length() > 0);
+            // ... and copy the indexed argument, of whatever length
+            target += iv_vecParams[index - 1]; // zero-based array!
           }
-          len = arg.length();
-          // ... and then copy the argument
-          if (UIMA_MSG_MAX_STR_LEN-numwritten < len) {
-            len = UIMA_MSG_MAX_STR_LEN - numwritten;
-          }
-          if (len > 0) {
-            strncpy(trg, arg.c_str(), len);
-            trg = trg+len;
-          }
-          msg = msg+1;
-          while ( isdigit(*msg) ) { //handle arg number 10 or more
+          while ( isdigit((unsigned char) *msg) ) { //handle arg number 10 or more
             msg = msg+1;
           }
         }
       } else {
-        *trg = *msg;
-        trg = trg+1;
+        target += *msg;
         msg = msg+1;
       }
     }
-    //cout << buf << endl;
-   string target(buf);
-   delete[] buf ;
-   return target;
-	 //string target;
-	 //target.assign(buf, UIMA_MSG_MAX_STR_LEN);                   // Copy the result to the string
-   //delete buf;
-	 //return target;
+    return target;
   }
 
   ostream &
-- 
2.43.0


From 6c09281018c2a44cb8dd2bdd04e6a844c1efaeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:32 +0000
Subject: [PATCH 91/96] fix: UTF-16 texts as message parameters

---
 src/framework/exceptions.cpp      | 8 ++++++++
 src/framework/uima/exceptions.hpp | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/src/framework/exceptions.cpp b/src/framework/exceptions.cpp
index 4db8f54..579a954 100644
--- a/src/framework/exceptions.cpp
+++ b/src/framework/exceptions.cpp
@@ -90,6 +90,14 @@ namespace uima {
     iv_vecParams.push_back(s);
   }
 
+  void ErrorMessage::addParam(const UChar * cpuszParam) {
+    string s;
+    if (cpuszParam != NULL) {
+      UnicodeStringRef(cpuszParam).extract(s);         // Convert to default encoding for platform
+    }
+    iv_vecParams.push_back(s);
+  }
+
 ///Constructor with a single UnicodeString parameter
   ErrorMessage::ErrorMessage(
     TyMessageId                         utMsgId,
diff --git a/src/framework/uima/exceptions.hpp b/src/framework/uima/exceptions.hpp
index f340113..6ac4afc 100644
--- a/src/framework/uima/exceptions.hpp
+++ b/src/framework/uima/exceptions.hpp
@@ -178,6 +178,11 @@ namespace uima {
       message << p;
       iv_vecParams.push_back(message.str());
 	}
+	/* streams would print the address of these */
+	void addParam(const UChar * cpuszParam);
+	void addParam(UChar * cpuszParam) {
+	  addParam((const UChar *) cpuszParam);
+	}
     /*------------------------- Attributes --------------------------------*/
     ///accessor for the message id
     TyMessageId                   getMessageID() const {
-- 
2.43.0


From 922c7df0174e1f1c89397224ed0e74da68ebef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:32 +0000
Subject: [PATCH 92/96] fix: unsigned message parameters stay unsigned

---
 src/framework/exceptions.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/framework/exceptions.cpp b/src/framework/exceptions.cpp
index 579a954..051d37c 100644
--- a/src/framework/exceptions.cpp
+++ b/src/framework/exceptions.cpp
@@ -129,7 +129,7 @@ namespace uima {
       iv_utMsgId(utMsgId) {
     assert( iv_utMsgId != 0 );
     string s;
-    iv_vecParams.push_back(long2String((int) uiParam1, s));
+    iv_vecParams.push_back(long2String((long) uiParam1, s));
   }
 
 
@@ -151,8 +151,9 @@ namespace uima {
   ) :
       iv_utMsgId(utMsgId) {
     assert( iv_utMsgId != 0 );
-    string s;
-    iv_vecParams.push_back(long2String((long) ulParam1, s));
+    ostringstream s;
+    s << ulParam1;
+    iv_vecParams.push_back(s.str());
   }
 
 ///Constructor with a single double parameter
-- 
2.43.0


From 0b6e1c3e8a01d0686b9dd7c94037cfa5ac269074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:32 +0000
Subject: [PATCH 93/96] fix: names of imported files are not limited to one
 byte per character

---
 src/framework/resmgr.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 3402548..ce5d15b 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -796,14 +796,14 @@ namespace uima {
   }
 
   icu::UnicodeString ResourceManager::resolveFilename(icu::UnicodeString const & filename, icu::UnicodeString const & lastFilename) {
-    auto_array<char> filename_cstr( new char[filename.length() + 1] );
-    filename.extract(0, filename.length(), filename_cstr.get());
-
-    auto_array<char> lastFilename_cstr( new char[lastFilename.length() + 1] );
-    lastFilename.extract(0, lastFilename.length(), lastFilename_cstr.get());
+    // in the default code page a name may have more bytes than characters
+    std::string filename_str;
+    UnicodeStringRef(filename).extract(filename_str);
+    std::string lastFilename_str;
+    UnicodeStringRef(lastFilename).extract(lastFilename_str);
 
     //build the filename
-    util::Filename fileLoc(filename_cstr.get());
+    util::Filename fileLoc(filename_str.c_str());
 
     // don't try our search mimic for absolute paths
     if (fileLoc.isAbsolute()) {
@@ -816,8 +816,8 @@ namespace uima {
     }
 
     // try in the same directory as lastFilename
-    util::Filename locSameDirAsLast(lastFilename_cstr.get());
-    locSameDirAsLast.setNewName(filename_cstr.get());
+    util::Filename locSameDirAsLast(lastFilename_str.c_str());
+    locSameDirAsLast.setNewName(filename_str.c_str());
 
     if (locSameDirAsLast.isExistent()) {
       // one spelling per file, so that descriptors importing each other are recognized
@@ -829,7 +829,7 @@ namespace uima {
     util::Location const & fallbackLoc = ResourceManager::getInstance().getLocationData();
 
     std::string nameInDataDir( fallbackLoc.getAsCString() );
-    nameInDataDir += filename_cstr.get();
+    nameInDataDir += filename_str.c_str();
     util::Filename fileInDataDir( nameInDataDir.c_str() );
     fileInDataDir.normalizeAbsolute();                // Normalize to native / or \ separators
     if (fileInDataDir.isExistent()) {
@@ -839,7 +839,7 @@ namespace uima {
     nameInDataDir.clear();
     nameInDataDir = fallbackLoc.getAsCString();
     nameInDataDir += "descriptors/";
-    nameInDataDir += filename_cstr.get();
+    nameInDataDir += filename_str.c_str();
     fileInDataDir.setNew(nameInDataDir.c_str());
     fileInDataDir.normalizeAbsolute();
     if (fileInDataDir.isExistent()) {
@@ -849,7 +849,7 @@ namespace uima {
     nameInDataDir.clear();
     nameInDataDir = fallbackLoc.getAsCString();
     nameInDataDir += "specifiers/";
-    nameInDataDir += filename_cstr.get();
+    nameInDataDir += filename_str.c_str();
     fileInDataDir.setNew(nameInDataDir.c_str());
     fileInDataDir.normalizeAbsolute();
     if (fileInDataDir.isExistent()) {
-- 
2.43.0


From f5e7196a786747a91d71e7dc050f0633fa287e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:32 +0000
Subject: [PATCH 94/96] fix: names of annotator libraries are not limited to
 one byte per character

---
 src/framework/res_annotator.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/framework/res_annotator.cpp b/src/framework/res_annotator.cpp
index fe89f18..061d8fb 100644
--- a/src/framework/res_annotator.cpp
+++ b/src/framework/res_annotator.cpp
@@ -65,11 +65,10 @@ namespace uima {
       icu::UnicodeString const & crAnnotatorFileName = getKey();
 
       // first we must convert our unicode filename to single byte
-      size_t nameLen = crAnnotatorFileName.length();
-      char* buf = new char[1+nameLen];
-      crAnnotatorFileName.extract(0, nameLen, buf);
-      util::Filename filename(buf);
-      delete[] buf;
+      // (in the default code page it may have more bytes than characters)
+      std::string name;
+      UnicodeStringRef(crAnnotatorFileName).extract(name);
+      util::Filename filename(name.c_str());
 
       /* No longer optionally remove the path before loading, or add "itu" prefix.
          Now load only what we're given, i.e. a full filename with path,
-- 
2.43.0


From c2164735440d371c9cb882cf0dfec5bf627d95c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:37 +0000
Subject: [PATCH 95/96] fix: an exception rethrown with a context keeps its
 class

---
 src/framework/internal_primitive_engine.cpp | 2 +-
 src/framework/uima/exceptions.hpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/framework/internal_primitive_engine.cpp b/src/framework/internal_primitive_engine.cpp
index a3c4b6a..04461fc 100644
--- a/src/framework/internal_primitive_engine.cpp
+++ b/src/framework/internal_primitive_engine.cpp
@@ -205,7 +205,7 @@ namespace uima {
         cas.setCurrentComponentInfo(&getAnnotatorContext());
         try {
           utErrorId = iv_pAnnotator->processDocument(cas, crResultSpec);
-        } catch (Exception e) {
+        } catch (Exception & e) {
           cas.setCurrentComponentInfo(NULL);
           UIMA_EXC_RETHROW(e,0);
         } catch (...) {
diff --git a/src/framework/uima/exceptions.hpp b/src/framework/uima/exceptions.hpp
index 6ac4afc..dee2464 100644
--- a/src/framework/uima/exceptions.hpp
+++ b/src/framework/uima/exceptions.hpp
@@ -750,7 +750,7 @@ namespace uima {
 #define UIMA_EXC_RETHROW(exc, cntxt)\
   exc.getErrorInfo().addContext(UIMA_EXC_CONTEXT(cntxt)),\
   exc.logExceptionData(),\
-  throw exc
+  throw
 
   /**This macro is intended to be used for throwing exceptions that are
      not yet defined. It defines an exception of type <TT>extype</TT> with
-- 
2.43.0


From d0f28111d4113904253cfa813d18040c3db3a72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:05 +0000
Subject: [PATCH 96/96] fix: XMI and XCAS files may have names longer than 1023
 bytes

---
 src/cas/xcasdeserializer.cpp |  7 ++-----
 src/cas/xmideserializer.cpp  | 14 ++++----------
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/cas/xcasdeserializer.cpp b/src/cas/xcasdeserializer.cpp
index 2bad3b6..a6f628c 100644
--- a/src/cas/xcasdeserializer.cpp
+++ b/src/cas/xcasdeserializer.cpp
@@ -84,11 +84,8 @@ namespace uima {
   }
 
   void XCASDeserializer::deserialize(icu::UnicodeString & xcasFilename, CAS & cas) {
-    char buff[1024];
-    xcasFilename.extract(0, xcasFilename.length(), buff);
-	XMLCh* native = XMLString::transcode(buff);
-	LocalFileInputSource fileIS (native);
-	XMLString::release(&native);
+    assertWithMsg(sizeof(XMLCh) == sizeof(UChar), "Port required");
+    LocalFileInputSource fileIS ((XMLCh const *) xcasFilename.getTerminatedBuffer());
     XCASDeserializer::deserialize(fileIS, cas);
   }
 
diff --git a/src/cas/xmideserializer.cpp b/src/cas/xmideserializer.cpp
index 846b944..c09691f 100644
--- a/src/cas/xmideserializer.cpp
+++ b/src/cas/xmideserializer.cpp
@@ -84,11 +84,8 @@ namespace uima {
   }
 
   void XmiDeserializer::deserialize(icu::UnicodeString & xmiFilename, CAS & cas, bool lenient) {
-    char buff[1024];
-    xmiFilename.extract(0, xmiFilename.length(), buff);
-    XMLCh* native = XMLString::transcode(buff);
-    LocalFileInputSource fileIS (native);
-	XMLString::release(&native);
+    assertWithMsg(sizeof(XMLCh) == sizeof(UChar), "Port required");
+    LocalFileInputSource fileIS ((XMLCh const *) xmiFilename.getTerminatedBuffer());
     XmiDeserializer::deserialize(fileIS, cas, lenient);
   }
 
@@ -314,11 +311,8 @@ namespace uima {
   void XmiDeserializer::deserialize(icu::UnicodeString & xmiFilename, 
 									CAS & cas,
 									XmiSerializationSharedData & sharedData) {
-    char buff[1024];
-    xmiFilename.extract(0, xmiFilename.length(), buff);
-    XMLCh* native = XMLString::transcode(buff);
-    LocalFileInputSource fileIS (native);
-	XMLString::release(&native);
+    assertWithMsg(sizeof(XMLCh) == sizeof(UChar), "Port required");
+    LocalFileInputSource fileIS ((XMLCh const *) xmiFilename.getTerminatedBuffer());
     XmiDeserializer::deserialize(fileIS, cas, sharedData);
   }
 }
-- 
2.43.0

