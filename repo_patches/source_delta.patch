From f870be2a67fe6a164658b0104c58ddd510da39e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 01/78] fix: do not merge (x^even)^fraction into one power
 (sign of x was lost)

---
 symbolics/functions/Pow.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index 5d4dc21..b28ab5d 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -213,6 +213,10 @@ BasicPtr Pow::simplify()
     case Type_Pow:
         {
             const Pow *c = Util::getAsConstPtr<Pow>(getArg1());
+            // (x^2)^0.5 is abs(x), not x
+            int iInner = 0, iOuter = 0;
+            if (Util::is_Int(c->getExponent(), iInner) && (iInner%2==0) && !Util::is_Int(getArg2(), iOuter))
+                break;
             setArg2(getArg2()*c->getExponent()->simplify());
             setArg1(c->getBase());
             m_simplified = true;
@@ -359,6 +363,10 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
     case Type_Pow:
         {
             const Pow *c = Util::getAsConstPtr<Pow>(arg1);
+            // (x^2)^0.5 is abs(x), not x
+            int iInner = 0, iOuter = 0;
+            if (Util::is_Int(c->getExponent(), iInner) && (iInner%2==0) && !Util::is_Int(arg2, iOuter))
+                break;
             return New(c->getBase(),Mul::New(arg2,c->getExponent()));
         }
         // move neg to front in case of round number remove it
-- 
2.43.0


From c7dddd7cdd6476006a4fd1719cf7095cfdf036c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 02/78] fix: (-x)^e is -(x^e) for odd integers e only

---
 symbolics/functions/Pow.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index b28ab5d..1136a93 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -229,7 +229,9 @@ BasicPtr Pow::simplify()
 
             // try arg2 as integer
             int iExp = 0;
-            if ( Util::is_Int(getArg2(), iExp) && (iExp%2==0))
+            if ( !Util::is_Int(getArg2(), iExp) )
+                break;
+            if (iExp%2==0)
             {
                 setArg1(c->getArg());
                 m_simplified = true;
@@ -377,7 +379,9 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
             // try arg2 as integer
             BasicPtr arg_1 = c->getArg();
             int iExp = 0;
-            if ( Util::is_Int(arg2, iExp) && (iExp%2==0))
+            if ( !Util::is_Int(arg2, iExp) )
+                break;
+            if (iExp%2==0)
             {
                 return New(arg_1,arg2);
             }
-- 
2.43.0


From f58321909a63a4f998b598b37197f2cdfa5e2d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 03/78] fix: cos/atan of the scalar identity folded to asin(1)

---
 symbolics/functions/Atan.cpp | 4 ++--
 symbolics/functions/Cos.cpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/functions/Atan.cpp b/symbolics/functions/Atan.cpp
index f9d5873..ff3ffc8 100644
--- a/symbolics/functions/Atan.cpp
+++ b/symbolics/functions/Atan.cpp
@@ -73,7 +73,7 @@ BasicPtr Atan::simplify()
     case Type_Eye:
         {
           if (getArg()->is_Scalar())
-            return BasicPtr( new Real(asin(1.0)) );
+            return BasicPtr( new Real(atan(1.0)) );
         }
     case Type_Int:
         {
@@ -124,7 +124,7 @@ BasicPtr Atan::New( BasicPtr const& arg)
     case Type_Eye:
         {
           if (arg->is_Scalar())
-            return BasicPtr( new Real(asin(1.0)) );
+            return BasicPtr( new Real(atan(1.0)) );
         }
     case Type_Int:
         {
diff --git a/symbolics/functions/Cos.cpp b/symbolics/functions/Cos.cpp
index 9757888..dc17b94 100644
--- a/symbolics/functions/Cos.cpp
+++ b/symbolics/functions/Cos.cpp
@@ -76,7 +76,7 @@ BasicPtr Cos::simplify()
     case Type_Eye:
         {
           if (getArg()->is_Scalar())
-            return BasicPtr( new Real(asin(1.0)) );
+            return BasicPtr( new Real(cos(1.0)) );
         }
     case Type_Int:
         {
-- 
2.43.0


From 0e1e3493c4ffc11f451a2c076edb244bce9b859d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 04/78] fix: derivative of atan2 used swapped arguments

---
 symbolics/functions/Atan2.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/symbolics/functions/Atan2.cpp b/symbolics/functions/Atan2.cpp
index 64abb8b..4b3a430 100644
--- a/symbolics/functions/Atan2.cpp
+++ b/symbolics/functions/Atan2.cpp
@@ -243,8 +243,8 @@ BasicPtr Atan2::New( BasicPtr const& arg1, BasicPtr const& arg2)
 BasicPtr Atan2::der()
 /*****************************************************************************/
 {   
-    // der(atan2(x,y)) = der(y/x) / (1+(y/x)^2 )
-  BasicPtr ydx = Util::div(getArg2(),getArg1());
+    // der(atan2(y,x)) = der(y/x) / (1+(y/x)^2 )
+  BasicPtr ydx = Util::div(getArg1(),getArg2());
   return Mul::New(ydx->der(),Pow::New(Add::New(Int::getOne(),Pow::New(ydx,Int::New(2))),Int::getMinusOne())); 
 }
 /*****************************************************************************/
@@ -253,8 +253,8 @@ BasicPtr Atan2::der()
 BasicPtr Atan2::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {   
-    // der(atan2(x,y)) = der(y/x) / (1+(y/x)^2 )
-  BasicPtr ydx = Util::div(getArg2(),getArg1());
+    // der(atan2(y,x)) = der(y/x) / (1+(y/x)^2 )
+  BasicPtr ydx = Util::div(getArg1(),getArg2());
   return Mul::New(ydx->der(symbol),Pow::New(Add::New(Int::getOne(),Pow::New(ydx,Int::New(2))),Int::getMinusOne())); 
 }
 /*****************************************************************************/
\ No newline at end of file
-- 
2.43.0


From f5c659d89559d6036dc0b09dfb96bc0ce5d85057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 05/78] fix: derivative of a comparison (Greater) is zero

---
 symbolics/functions/include/Greater.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/include/Greater.h b/symbolics/functions/include/Greater.h
index 8e9d33a..a0c28b2 100644
--- a/symbolics/functions/include/Greater.h
+++ b/symbolics/functions/include/Greater.h
@@ -24,8 +24,8 @@ namespace Symbolics
         static BasicPtr New( BasicPtr const& arg1, BasicPtr const& arg2 );
 
         // derivative
-        inline BasicPtr der() { return New(getArg1()->der(),getArg2()->der()); };
-        inline BasicPtr der(BasicPtr const& symbol) { return New(getArg1()->der(symbol),getArg2()->der(symbol)); };
+        inline BasicPtr der() { return Zero::getZero(); };
+        inline BasicPtr der(BasicPtr const& symbol) { return Zero::getZero(); };
     };
 };
 
-- 
2.43.0


From bb5a24ed30e93a23afeb6e4fb4328194230ad4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 06/78] fix: derivative of a comparison (Less) is zero

---
 symbolics/functions/include/Less.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/include/Less.h b/symbolics/functions/include/Less.h
index 33e426f..cfd45f5 100644
--- a/symbolics/functions/include/Less.h
+++ b/symbolics/functions/include/Less.h
@@ -24,8 +24,8 @@ namespace Symbolics
         static BasicPtr New( BasicPtr const& arg1, BasicPtr const& arg2 );
 
         // derivative
-        inline BasicPtr der() { return New(getArg1()->der(),getArg2()->der()); };
-        inline BasicPtr der(BasicPtr const& symbol) { return New(getArg1()->der(symbol),getArg2()->der(symbol)); };
+        inline BasicPtr der() { return Zero::getZero(); };
+        inline BasicPtr der(BasicPtr const& symbol) { return Zero::getZero(); };
     };
 };
 
-- 
2.43.0


From c6f1d7a45c32f3e2906a50e755b587bb6b698876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 07/78] fix: partial derivative of sign(x) is zero

---
 symbolics/functions/Sign.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/functions/Sign.cpp b/symbolics/functions/Sign.cpp
index 3bfbe65..268b421 100644
--- a/symbolics/functions/Sign.cpp
+++ b/symbolics/functions/Sign.cpp
@@ -157,6 +157,6 @@ inline BasicPtr Sign::der()
 inline BasicPtr Sign::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {
-  return New(getArg()->der(symbol));
+  return Zero::getZero();
 }
 /*****************************************************************************/
\ No newline at end of file
-- 
2.43.0


From d7a8039f1dd48b88c344b95fa9a0cd0dedd16f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 08/78] fix: outer product rule in Outer::der

---
 symbolics/functions/include/Outer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/include/Outer.h b/symbolics/functions/include/Outer.h
index 28af848..f1229f7 100644
--- a/symbolics/functions/include/Outer.h
+++ b/symbolics/functions/include/Outer.h
@@ -25,8 +25,8 @@ namespace Symbolics
         static BasicPtr New( BasicPtr const& arg1, BasicPtr const& arg2 );
 
         // derivative
-        inline BasicPtr der() { return New(getArg1()->der(), getArg2()->der()); };
-        inline BasicPtr der(BasicPtr const& symbol) { return New(getArg1()->der(symbol), getArg2()->der(symbol)); };
+        inline BasicPtr der() { return New(getArg1()->der(), getArg2()) + New(getArg1(), getArg2()->der()); };
+        inline BasicPtr der(BasicPtr const& symbol) { return New(getArg1()->der(symbol), getArg2()) + New(getArg1(), getArg2()->der(symbol)); };
 
 	protected:
 		void validate();
-- 
2.43.0


From 1296aab4e12378c4f2d61735c0e0ba50126ceccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 09/78] fix: inverse of a scalar is its reciprocal

---
 symbolics/functions/Inverse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Inverse.cpp b/symbolics/functions/Inverse.cpp
index 665f9c0..856f839 100644
--- a/symbolics/functions/Inverse.cpp
+++ b/symbolics/functions/Inverse.cpp
@@ -61,7 +61,7 @@ BasicPtr Inverse::simplify()
     
     // Ist es ein Skalar?
     if (getArg()->is_Scalar())
-        return getArg();
+        return Util::div(Int::getOne(),getArg());
 
     // simplify matrices
     switch(getArg()->getType())
@@ -92,7 +92,7 @@ BasicPtr Inverse::New( BasicPtr const& arg )
 {
     // Ist es ein Skalar?
     if (arg->is_Scalar())
-        return arg;
+        return Util::div(Int::getOne(),arg);
 
     // simplify matrices
     switch(arg->getType())
-- 
2.43.0


From 80d80e20e24908e4ca8d28f50c85185b824852a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 10/78] fix: derivative of the identity matrix is zero

---
 symbolics/functions/Der.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Der.cpp b/symbolics/functions/Der.cpp
index 9a087ba..381cc36 100644
--- a/symbolics/functions/Der.cpp
+++ b/symbolics/functions/Der.cpp
@@ -55,8 +55,9 @@ BasicPtr Der::simplify()
   switch( getArg()->getType())
   {
   case Type_Zero:
-  case Type_Eye:
         return getArg();
+  case Type_Eye:
+        return Zero::getZero(getArg()->getShape());
   case Type_Int:
   case Type_Real:
         return Zero::getZero();
@@ -80,8 +81,9 @@ BasicPtr Der::New( BasicPtr const& arg)
   switch( arg->getType())
   {
   case Type_Zero:
-  case Type_Eye:
         return arg;
+  case Type_Eye:
+        return Zero::getZero(arg->getShape());
   case Type_Int:
   case Type_Real:
         return Zero::getZero();
-- 
2.43.0


From 5b794e874a3b642fc2ba944df20c6e6f9014a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 11/78] fix: outer product with a zero vector keeps its shape

---
 symbolics/functions/Outer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Outer.cpp b/symbolics/functions/Outer.cpp
index 6cba047..9ea122c 100644
--- a/symbolics/functions/Outer.cpp
+++ b/symbolics/functions/Outer.cpp
@@ -109,8 +109,8 @@ BasicPtr Outer::New( BasicPtr const& arg1, BasicPtr const& arg2 )
 /*****************************************************************************/
 {
     // if zero, return zero
-    if (Util::is_Zero(arg1)) return Zero::getZero();
-    if (Util::is_Zero(arg2)) return Zero::getZero();
+    if (Util::is_Zero(arg1) || Util::is_Zero(arg2))
+        return Zero::getZero(arg1->getShape()*arg2->getShape().transpose());
 
 	// simplify matrices
 	if ( (arg1->getType() == Type_Matrix) && (arg2->getType() == Type_Matrix) )
-- 
2.43.0


From 15d228791b6a19217d9ecfe18bf9ffd676e053d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 12/78] fix: simplifying the transpose of a zero matrix lost
 the transposition

---
 symbolics/functions/Transpose.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolics/functions/Transpose.cpp b/symbolics/functions/Transpose.cpp
index f942b41..eba6e62 100644
--- a/symbolics/functions/Transpose.cpp
+++ b/symbolics/functions/Transpose.cpp
@@ -63,8 +63,9 @@ BasicPtr Transpose::simplify()
     // simplify matrices
     switch(getArg()->getType())
     {
-	  case Type_Eye:
     case Type_Zero:
+        return Zero::getZero(m_shape);
+	  case Type_Eye:
     case Type_Int:
     case Type_Real:
         return getArg();
-- 
2.43.0


From 3d91d136542257a6da1a7c46b443e5c084cb34f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:52 +0000
Subject: [PATCH 13/78] fix: derivative of comparisons needs Zero.h

---
 symbolics/functions/include/Greater.h | 1 +
 symbolics/functions/include/Less.h    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/symbolics/functions/include/Greater.h b/symbolics/functions/include/Greater.h
index a0c28b2..4497e39 100644
--- a/symbolics/functions/include/Greater.h
+++ b/symbolics/functions/include/Greater.h
@@ -2,6 +2,7 @@
 #define __GREATER_H_
 
 #include "BinaryOp.h"
+#include "Zero.h"
 
 namespace Symbolics
 {
diff --git a/symbolics/functions/include/Less.h b/symbolics/functions/include/Less.h
index cfd45f5..3f8279d 100644
--- a/symbolics/functions/include/Less.h
+++ b/symbolics/functions/include/Less.h
@@ -2,6 +2,7 @@
 #define __LESS_H_
 
 #include "BinaryOp.h"
+#include "Zero.h"
 
 namespace Symbolics
 {
-- 
2.43.0


From 2e61bbd0face7636b54a8fd747c3ff70e6b1ee0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 14/78] fix: partial derivative of an inverse was the time
 derivative

---
 symbolics/functions/Inverse.cpp       | 10 ++++++++++
 symbolics/functions/include/Inverse.h |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/symbolics/functions/Inverse.cpp b/symbolics/functions/Inverse.cpp
index 856f839..ce28c4b 100644
--- a/symbolics/functions/Inverse.cpp
+++ b/symbolics/functions/Inverse.cpp
@@ -2,6 +2,7 @@
 #include "Matrix.h"
 #include "Util.h"
 #include "Neg.h"
+#include "Mul.h"
 #include "Operators.h"
 
 using namespace Symbolics;
@@ -50,6 +51,15 @@ std::string Inverse::toString() const
 /*****************************************************************************/
 
 
+/*****************************************************************************/
+BasicPtr Inverse::der(BasicPtr const& symbol)
+/*****************************************************************************/
+{
+    // der(inv(A)) = -inv(A)*der(A)*inv(A)
+    return Neg::New(Mul::New(Mul::New(BasicPtr(this),getArg()->der(symbol)),BasicPtr(this)));
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 BasicPtr Inverse::simplify()
 /*****************************************************************************/
diff --git a/symbolics/functions/include/Inverse.h b/symbolics/functions/include/Inverse.h
index 79da607..a6c3ae0 100644
--- a/symbolics/functions/include/Inverse.h
+++ b/symbolics/functions/include/Inverse.h
@@ -27,7 +27,7 @@ namespace Symbolics
 
         // derivative
         inline BasicPtr der() { return Der::New(BasicPtr(this)); };
-        inline BasicPtr der(BasicPtr const& symbol) { return Der::New(BasicPtr(this)); };
+        BasicPtr der(BasicPtr const& symbol);
 
     };
 
-- 
2.43.0


From c18cebc6c128856b7e1c40f2c3870103817ac099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 15/78] fix: derivative of a matrix power ignored that matrices
 do not commute

---
 symbolics/functions/Pow.cpp       | 38 +++++++++++++++++++++++++++----
 symbolics/functions/include/Pow.h |  1 +
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/symbolics/functions/Pow.cpp b/symbolics/functions/Pow.cpp
index 1136a93..7545734 100644
--- a/symbolics/functions/Pow.cpp
+++ b/symbolics/functions/Pow.cpp
@@ -395,11 +395,42 @@ BasicPtr Pow::New( BasicPtr const& arg1, BasicPtr const& arg2)
 /*****************************************************************************/
 
 /*****************************************************************************/
-inline BasicPtr Pow::der()
+BasicPtr Pow::derBase(BasicPtr const& dbase)
 /*****************************************************************************/
 {
+  int n = 0;
   // pow(x,y) = der(x)*y*pow(x,y-1)
-  return Mul::New(getExponent(),Mul::New(getBase()->der(),New(getBase(),Add::New(getExponent(),Int::getMinusOne()))));
+  if (getBase()->is_Scalar() || !Util::is_Int(getExponent(),n))
+    return Mul::New(getExponent(),Mul::New(dbase,New(getBase(),Add::New(getExponent(),Int::getMinusOne()))));
+  if (n == 0)
+    return Zero::getZero(m_shape);
+  // matrices do not commute: der(A^3) = der(A)*A*A + A*der(A)*A + A*A*der(A)
+  BasicPtr base = getBase();
+  BasicPtr d = dbase;
+  if (n < 0)
+  {
+    // der(A^-1) = -A^-1*der(A)*A^-1
+    base = New(getBase(),Int::getMinusOne());
+    d = Neg::New(Mul::New(Mul::New(base,dbase),base));
+    n = -n;
+  }
+  BasicPtrVec addargs;
+  for (int i=0; i<n; ++i)
+  {
+    BasicPtrVec mulargs;
+    for (int j=0; j<n; ++j)
+      mulargs.push_back(i==j ? d : base);
+    addargs.push_back(BasicPtr(new Mul(mulargs)));
+  }
+  return BasicPtr(new Add(addargs));
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+inline BasicPtr Pow::der()
+/*****************************************************************************/
+{
+  return derBase(getBase()->der());
 }
 /*****************************************************************************/
 
@@ -407,7 +438,6 @@ inline BasicPtr Pow::der()
 inline BasicPtr Pow::der(BasicPtr const& symbol)
 /*****************************************************************************/
 {
-  // pow(x,y) = der(x)*y*pow(x,y-1)
-  return Mul::New(getExponent(),Mul::New(getBase()->der(symbol),New(getBase(),Add::New(getExponent(),Int::getMinusOne()))));
+  return derBase(getBase()->der(symbol));
 }
 /*****************************************************************************/
\ No newline at end of file
diff --git a/symbolics/functions/include/Pow.h b/symbolics/functions/include/Pow.h
index 8b5a3ae..bdd97bb 100644
--- a/symbolics/functions/include/Pow.h
+++ b/symbolics/functions/include/Pow.h
@@ -35,6 +35,7 @@ namespace Symbolics
         // derivative
         BasicPtr der();
         BasicPtr der(BasicPtr const& symbol);
+        BasicPtr derBase(BasicPtr const& dbase);
 
 	protected:
 		void validate();
-- 
2.43.0


From a24c25486efc4cd7c180a59e0bfec3016b4dd7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 16/78] fix: conditional in C# code needs parentheses

---
 symbolics/printer/CSharpPrinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/printer/CSharpPrinter.cpp b/symbolics/printer/CSharpPrinter.cpp
index 06ae49e..766b300 100644
--- a/symbolics/printer/CSharpPrinter.cpp
+++ b/symbolics/printer/CSharpPrinter.cpp
@@ -142,7 +142,7 @@ std::string CSharpPrinter::print_If( const If *e )
 { 
 	if (e==NULL) throw InternalError("CSharpPrinter: If is NULL");
     //Es muss die inline expression sein, da es ja kein Gleichheitszeichen als function gibt
-    return print(e->getArg(0)) + " ? " + print(e->getArg(1)) + " : " + print(e->getArg(2));
+    return "(" + print(e->getArg(0)) + " ? " + print(e->getArg(1)) + " : " + print(e->getArg(2)) + ")";
 }
 /*****************************************************************************/
 
-- 
2.43.0


From 5f3138dfc2e96c0f9b7979481931db87469ee65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:08 +0000
Subject: [PATCH 17/78] fix: sum lost the sign of numbers with coefficient
 minus one

---
 symbolics/functions/Add.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/symbolics/functions/Add.cpp b/symbolics/functions/Add.cpp
index 762ab19..6f555ae 100644
--- a/symbolics/functions/Add.cpp
+++ b/symbolics/functions/Add.cpp
@@ -210,16 +210,8 @@ BasicPtr Add::simplify()
             }
             else if (Util::is_One(Neg::New(iter->second)))
             {
-                BasicPtr arg = iter->first;
-                if (arg->getType() == Type_Real)
-                    other_args1.push_back(iter->first);
-                else if (arg->getType() == Type_Int)
-                    other_args1.push_back(iter->first);
-                else
-                {
-                    BasicPtr arg = Neg::New(iter->first);
-                    other_args1.push_back(arg);
-                }
+                BasicPtr arg = Neg::New(iter->first);
+                other_args1.push_back(arg);
             }
             else
             {
-- 
2.43.0


From 8dc8e24997b1efec51c99752e20a370000024b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:08 +0000
Subject: [PATCH 18/78] fix: uninitialised flag when simplifying sums of
 vectors

---
 symbolics/functions/Add.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/functions/Add.cpp b/symbolics/functions/Add.cpp
index 6f555ae..647f324 100644
--- a/symbolics/functions/Add.cpp
+++ b/symbolics/functions/Add.cpp
@@ -239,7 +239,7 @@ BasicPtr Add::simplify()
     {
       BasicPtrVec scalars;
       BasicPtrVec matrixes;
-      bool hasMatZero;
+      bool hasMatZero = false;
       for (size_t i=0; i<other_args1.size(); ++i)
       {
         if (other_args1[i]->getType() == Type_Matrix)
-- 
2.43.0


From 24de340b0e3939a359362c4c8af7436992692944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:08 +0000
Subject: [PATCH 19/78] fix: sum of a single matrix and scalars was dropped

---
 symbolics/functions/Add.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symbolics/functions/Add.cpp b/symbolics/functions/Add.cpp
index 647f324..e819a09 100644
--- a/symbolics/functions/Add.cpp
+++ b/symbolics/functions/Add.cpp
@@ -275,6 +275,7 @@ BasicPtr Add::simplify()
             Matrix *c = new Matrix( *(Util::getAsConstPtr<Matrix>(matrixes[0])) );
             for (size_t i=0; i<c->getNumEl(); ++i)
               c->set(i,c->get(i)+s);
+            addArg(BasicPtr(c));
           }
           else
             addArg(matrixes[0]);
-- 
2.43.0


From 1d082f9a8fe84dbafa77b34f86a412e832344bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:08 +0000
Subject: [PATCH 20/78] fix: matrices in a sum were multiplied

---
 symbolics/functions/Add.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/functions/Add.cpp b/symbolics/functions/Add.cpp
index e819a09..4d69096 100644
--- a/symbolics/functions/Add.cpp
+++ b/symbolics/functions/Add.cpp
@@ -286,7 +286,7 @@ BasicPtr Add::simplify()
           for (size_t i=1; i<matrixes.size(); ++i)
           {
             const Matrix *m = Util::getAsConstPtr<Matrix>(matrixes[i]);
-            *mat *= (*m); 
+            *mat += (*m); 
           }
           if (scalars.size() > 0)
           {
-- 
2.43.0


From 6c8fe3dc108be0d5bea1d0516b7e70973e743e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:08 +0000
Subject: [PATCH 21/78] fix: cancelled vector terms must not change the shape
 of a sum

---
 symbolics/functions/Add.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/symbolics/functions/Add.cpp b/symbolics/functions/Add.cpp
index 4d69096..e6872fb 100644
--- a/symbolics/functions/Add.cpp
+++ b/symbolics/functions/Add.cpp
@@ -218,6 +218,11 @@ BasicPtr Add::simplify()
                 other_args1.push_back(Mul::New(iter->second,iter->first));
             }
         }
+        else if (!iter->first->is_Scalar())
+        {
+            // Shape beibehalten
+            other_args1.push_back(Zero::getZero(iter->first->getShape()));
+        }
     }
     // Wenn wir keine Argumente mehr haben, dann eine eine 1 zurueckgeben
     if (other_args1.size() == 0)
-- 
2.43.0


From af8d59c5e80dea091f579e4f00d318e575dc632a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:52 +0000
Subject: [PATCH 22/78] fix: product of x and a power of x was counted twice

---
 symbolics/functions/Mul.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index f35de60..fc3da70 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -219,6 +219,7 @@ BasicPtr Mul::simplify()
             const Pow *c = Util::getAsConstPtr<Pow>(dst[i]);
             if (lastarg == c->getBase())
               lastarg = BasicPtr(new Pow(lastarg,Add::New(c->getExponent(),Int::getOne())));
+            else
             {
               addArg(lastarg->simplify());
               lastarg = dst[i];
-- 
2.43.0


From 5276f84a4c85346a15d05369bd83ee4f551c062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:01 +0000
Subject: [PATCH 23/78] fix: a vector of ones is no neutral element of the
 matrix product

---
 symbolics/functions/Mul.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index fc3da70..5362fea 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -195,11 +195,11 @@ BasicPtr Mul::simplify()
             // mul them
             lastarg = New(lastarg,dst[i]);
         }
-        else if (Util::is_One(lastarg) && (!dst[i]->is_Scalar()))
+        else if (Util::is_One(lastarg) && (!dst[i]->is_Scalar()) && (lastarg->getShape()*dst[i]->getShape() == dst[i]->getShape()))
         {
           lastarg=dst[i];
         }
-        else if (Util::is_One(dst[i]) && (!lastarg->is_Scalar()))
+        else if (Util::is_One(dst[i]) && (!lastarg->is_Scalar()) && (lastarg->getShape()*dst[i]->getShape() == lastarg->getShape()))
         {
           continue;
         }
-- 
2.43.0


From 4ee4c3173a3fbc292aa75e0c02902156cffdf2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:01 +0000
Subject: [PATCH 24/78] fix: a negated one is not one

---
 symbolics/functions/Util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/functions/Util.cpp b/symbolics/functions/Util.cpp
index 42341e4..0eb5733 100644
--- a/symbolics/functions/Util.cpp
+++ b/symbolics/functions/Util.cpp
@@ -189,7 +189,7 @@ bool Util::is_One( BasicPtr const& e)
     {
         const Basic *b = e.get();
         const Neg *c = dynamic_cast<const Neg*>(b);
-        return is_One(c->getArg());
+        return c->getArg() == Int::getMinusOne();
     }
     default:
         return false;
-- 
2.43.0


From 6c434a2d48b6104c866e80fafc4451e60ff118e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:26 +0000
Subject: [PATCH 25/78] fix: PythonWriter: position of states of different
 sizes in y

---
 symbolics/writer/PythonWriter.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 44facdc..2b7548b 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -139,16 +139,18 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 
 	// extract state from argument
 	f << "    # state" << std::endl;
+	size_t offset = 0;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
 		Shape n = states.at(i)->getShape();
 		f << "    " << m_p->print(states[i]) << " = ";
 		if (states[i]->is_Scalar())
-			f << "y[" << str(i) << "]" << std::endl;
+			f << "y[" << str(offset) << "]" << std::endl;
 		else
-			f << "matrix(y[" << str(n.getDimension(1) * i) << ":"
-			  << str(n.getDimension(1) * (i+1)) << "], dtype=float).T"
+			f << "matrix(y[" << str(offset) << ":"
+			  << str(offset + n.getDimension(1)) << "], dtype=float).T"
 			  << std::endl;
+		offset += n.getDimension(1);
 	}
 	f << std::endl;
 
@@ -285,16 +287,18 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 
 	// extract state from argument
 	f << "    # state" << std::endl;
+	size_t offset = 0;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
 		Shape n = states.at(i)->getShape();
 		f << "    " << m_p->print(states[i]) << " = ";
 		if (states[i]->is_Scalar())
-			f << "y[" << str(i) << "]" << std::endl;
+			f << "y[" << str(offset) << "]" << std::endl;
 		else
-			f << "matrix(y[" << str(n.getDimension(1) * i) << ":"
-			  << str(n.getDimension(1) * (i+1)) << "], dtype=float).T"
+			f << "matrix(y[" << str(offset) << ":"
+			  << str(offset + n.getDimension(1)) << "], dtype=float).T"
 			  << std::endl;
+		offset += n.getDimension(1);
 	}
 	f << std::endl;
 
@@ -415,16 +419,18 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 
 	// extract state from argument
 	f << "    # state" << std::endl;
+	size_t offset = 0;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
 		Shape n = states.at(i)->getShape();
 		f << "    " << m_p->print(states[i]) << " = ";
 		if (states[i]->is_Scalar())
-			f << "y[" << str(i) << "]" << std::endl;
+			f << "y[" << str(offset) << "]" << std::endl;
 		else
-			f << "matrix(y[" << str(n.getDimension(1) * i) << ":"
-			  << str(n.getDimension(1) * (i+1)) << "], dtype=float).T"
+			f << "matrix(y[" << str(offset) << ":"
+			  << str(offset + n.getDimension(1)) << "], dtype=float).T"
 			  << std::endl;
+		offset += n.getDimension(1);
 	}
 	f << std::endl;
 
-- 
2.43.0


From 89f42edad3540a72556f771016afdc35dde06b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:26 +0000
Subject: [PATCH 26/78] fix: MatlabWriter: position of states of different
 sizes in y

---
 symbolics/writer/MatlabWriter.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index 8c519ad..0c28358 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -175,12 +175,14 @@ double MatlabWriter::generateDerState(Graph::Graph& g)
 	f << "function yd = "<< m_name <<"_der_state(time, y)" << std::endl;
 
 	f << "% State" << std::endl;
+	size_t offset = 0;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
 		f << "	" << m_p->print(states.at(i)) << " = y("
-		  << str(states.at(i)->getShape().getDimension(1) * i + 1) << ":" 
-		  << str(states.at(i)->getShape().getDimension(1) * (i+1)) << ");" 
+		  << str(offset + 1) << ":" 
+		  << str(offset + states.at(i)->getShape().getDimension(1)) << ");" 
 		  << std::endl;
+		offset += states.at(i)->getShape().getDimension(1);
 	}
 	f << std::endl;
 
@@ -365,13 +367,15 @@ double MatlabWriter::generateSensors(Graph::Graph& g)
 	f << std::endl;
 	f << "% State" << std::endl;
 
+	size_t offset = 0;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
 		const Symbolics::BasicPtr s = states.at(i);
 		f << "	" << m_p->print(s) << " = y("
-		  << str(s->getShape().getDimension(1) * i + 1) << ":" 
-		  << str(s->getShape().getDimension(1) * (i+1)) << ");" 
+		  << str(offset + 1) << ":" 
+		  << str(offset + s->getShape().getDimension(1)) << ");" 
 		  << std::endl;
+		offset += s->getShape().getDimension(1);
 	}
 
 	f << "% Inputs" << std::endl;
-- 
2.43.0


From bb26639c9902fcd478d8aba98a6854fa166c4dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:26 +0000
Subject: [PATCH 27/78] fix: CWriter: position of states of different sizes in
 y and yd

---
 symbolics/writer/CWriter.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 0007cc9..b4fb4a2 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -124,16 +124,18 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
 	f << "{" << std::endl;
 
 	f << "/* declare state variables */" << std::endl;
+	size_t offset = 0;
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
 		dim = n;
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << offset+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;
 		f << "    double " << "der_" << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " 
           << m_p->print(Zero::getZero(states.at(i)->getShape())) << ";" << std::endl;	
+		offset += n;
 	}
 	f << std::endl; 
 
@@ -162,17 +164,19 @@ double CWriter::generateDerState(Graph::Graph& g, int &dim)
     f << std::endl;
 
 	f << "/* set return values */" << std::endl;
+	offset = 0;
 	for (size_t i=0;i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
 		for (size_t j=0; j < n ; ++j) 
 		{
-			f << "    yd[" << i*n+j << "] = der_" << m_p->print(states.at(i));
+			f << "    yd[" << offset+j << "] = der_" << m_p->print(states.at(i));
 			if (n>1) // hm.. was ist schneller "n-1" oder "n>1"?
 				f << "[" << j << "];" << std::endl;
 			else 
 				f << ";" << std::endl; 
 		}
+		offset += n;
 	}
 	f << std::endl; 
 
@@ -239,13 +243,15 @@ double CWriter::generateVisual(Graph::Graph& g)
 	f << "{" << std::endl;
 
 	f << "/* declare state variables */" << std::endl;
+	size_t offset = 0;
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << offset+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
+		offset += n;
 	}
 	f << std::endl; 
 
@@ -338,13 +344,15 @@ double CWriter::generateSensors(Graph::Graph& g)
 	f << "{" << std::endl;
 
 	f << "/* declare state variables */" << std::endl;
+	size_t offset = 0;
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << offset+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
+		offset += n;
 	}
 	f << std::endl; 
 
@@ -873,16 +881,18 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
 	f << std::endl;
 
 	f << "/* declare state variables */" << std::endl;
+	size_t offset = 0;
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
 		dim = n;
 		f << "    const double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << offset+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;
 		f << "    double " << "der_" << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " 
           << m_p->print(Zero::getZero(states.at(i)->getShape())) << ";" << std::endl;	
+		offset += n;
 	}
 
 	f << "/* Parameters */" << std::endl;
@@ -910,17 +920,19 @@ double CWriter::generateAll(Graph::Graph& g, int &dim)
     f << std::endl;
 
 	f << "/* set return values */" << std::endl;
+	offset = 0;
 	for (size_t i=0;i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
 		for (size_t j=0; j < n ; ++j) 
 		{
-			f << "    yd[" << i*n+j << "] = der_" << m_p->print(states.at(i));
+			f << "    yd[" << offset+j << "] = der_" << m_p->print(states.at(i));
 			if (n>1) // hm.. was ist schneller "n-1" oder "n>1"?
 				f << "[" << j << "];" << std::endl;
 			else 
 				f << ";" << std::endl; 
 		}
+		offset += n;
 	}
 	f << std::endl; 
 	
-- 
2.43.0


From 26cea54b9bba240d9211934be0005ce848c331e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:26 +0000
Subject: [PATCH 28/78] fix: CSharpWriter: position of states of different
 sizes in y and yd

---
 symbolics/writer/CSharpWriter.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/symbolics/writer/CSharpWriter.cpp b/symbolics/writer/CSharpWriter.cpp
index 4ea02ac..f3e2f9c 100644
--- a/symbolics/writer/CSharpWriter.cpp
+++ b/symbolics/writer/CSharpWriter.cpp
@@ -106,16 +106,18 @@ double CSharpWriter::generateDerState(Graph::Graph& g, int &dim)
 	f << "{" << std::endl;
 
 	f << "    /* declare state variables */" << std::endl;
+	size_t offset = 0;
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
 		dim = n;
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << offset+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;
 		f << "    double " << "der_" << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " 
           << m_p->print(Zero::getZero(states.at(i)->getShape())) << ";" << std::endl;	
+		offset += n;
 	}
 	f << std::endl; 
 
@@ -160,17 +162,19 @@ double CSharpWriter::generateDerState(Graph::Graph& g, int &dim)
 
 	f << "    /* set return values */" << std::endl;
 	f << "    yd = new double[" << states.size() << "];" << std::endl;
+	offset = 0;
  	for (size_t i=0;i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
 		for (size_t j=0; j < n ; ++j) 
 		{
-			f << "    yd[" << i*n+j << "] = der_" << m_p->print(states.at(i));
+			f << "    yd[" << offset+j << "] = der_" << m_p->print(states.at(i));
 			if (n>1) // hm.. was ist schneller "n-1" oder "n>1"?
 				f << "[" << j << "];" << std::endl;
 			else 
 				f << ";" << std::endl; 
 		}
+		offset += n;
 	}
 	f << std::endl; 
 
@@ -263,13 +267,15 @@ double CSharpWriter::generateVisual(Graph::Graph& g)
 	f << std::endl;
 
 	f << "    /* declare state variables */" << std::endl;
+	size_t offset = 0;
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << offset+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
+		offset += n;
 	}
 	f << std::endl; 
 
@@ -363,13 +369,15 @@ double CSharpWriter::generateSensors(Graph::Graph& g)
 	f << "{" << std::endl;
 
 	f << "/* declare state variables */" << std::endl;
+	size_t offset = 0;
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
 		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
 		for (size_t j=0; j < n ; ++j)
-			f << "y[" << i*n+j << "]" << (j+1 < n ? ", " : "");
+			f << "y[" << offset+j << "]" << (j+1 < n ? ", " : "");
 		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
+		offset += n;
 	}
 	f << std::endl; 
 
-- 
2.43.0


From 69a9abcc91babad5fb92138b5db8a763090f33db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:47 +0000
Subject: [PATCH 29/78] fix: CSharpWriter: length of yd for states that are
 vectors

---
 symbolics/writer/CSharpWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/CSharpWriter.cpp b/symbolics/writer/CSharpWriter.cpp
index f3e2f9c..870717f 100644
--- a/symbolics/writer/CSharpWriter.cpp
+++ b/symbolics/writer/CSharpWriter.cpp
@@ -161,7 +161,7 @@ double CSharpWriter::generateDerState(Graph::Graph& g, int &dim)
     f << std::endl;
 
 	f << "    /* set return values */" << std::endl;
-	f << "    yd = new double[" << states.size() << "];" << std::endl;
+	f << "    yd = new double[" << offset << "];" << std::endl;
 	offset = 0;
  	for (size_t i=0;i < states.size(); ++i)
 	{
-- 
2.43.0


From d233c7100aa9309335d8667373b436752ea42045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:47 +0000
Subject: [PATCH 30/78] fix: FortranWriter: position of states of different
 sizes in y

---
 symbolics/writer/FortranWriter.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index fe06b7b..f8311a1 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -141,16 +141,18 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 	std::stringstream fss;
 
 	fss << "!define states" << std::endl;
-	Shape n = states.at(0)->getShape(); 
+	size_t offset = 0;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
+		Shape n = states.at(i)->getShape();
 		fss << "    " << m_p->print(states[i]) << " = y(";
 		if (states[i]->is_Scalar())
-			fss << str(n.getDimension(1) * i + 1) << ",1)" << std::endl;
+			fss << str(offset + 1) << ",1)" << std::endl;
 		else
-			fss << str(n.getDimension(1) * i + 1) << ":" 
-			  << str(n.getDimension(1) * (i+1)) << ",:)" 
+			fss << str(offset + 1) << ":" 
+			  << str(offset + n.getDimension(1)) << ",:)" 
 			  << std::endl;
+		offset += n.getDimension(1);
 	}
 	fss << std::endl;
 	// fss << "write (*,*) \"y:=\", y" << std::endl; //for debug
@@ -280,16 +282,18 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 	std::stringstream fss;
 
 	fss << "!define states" << std::endl; 
+	size_t offset = 0;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
         Shape n = states.at(i)->getShape();
 		fss << "    " << m_p->print(states[i]) << " = y(";
 		if (states[i]->is_Scalar())
-			fss << str(n.getDimension(1) * i + 1) << ",1)" << std::endl;
+			fss << str(offset + 1) << ",1)" << std::endl;
 		else
-			fss << str(n.getDimension(1) * i + 1) << ":" 
-			  << str(n.getDimension(1) * (i+1)) << ",:)" 
+			fss << str(offset + 1) << ":" 
+			  << str(offset + n.getDimension(1)) << ",:)" 
 			  << std::endl;
+		offset += n.getDimension(1);
 	}
 	fss << std::endl;
 	// fss << "write (*,*) \"y:=\", y" << std::endl; //for debug
@@ -401,16 +405,18 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	std::stringstream fss;
 
 	fss << "!define states" << std::endl;
+	size_t offset = 0;
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
         Shape n = states.at(i)->getShape(); 
 		fss << "    " << m_p->print(states[i]) << " = y(";
 		if (states[i]->is_Scalar())
-			fss << str(n.getDimension(1) * i + 1) << ",1)" << std::endl;
+			fss << str(offset + 1) << ",1)" << std::endl;
 		else
-			fss << str(n.getDimension(1) * i + 1) << ":" 
-			  << str(n.getDimension(1) * (i+1)) << ",:)" 
+			fss << str(offset + 1) << ":" 
+			  << str(offset + n.getDimension(1)) << ",:)" 
 			  << std::endl;
+		offset += n.getDimension(1);
 	}
 	fss << std::endl;
 	// fss << "write (*,*) \"y:=\", y" << std::endl; //for debug
-- 
2.43.0


From fd9f57171f6cd4ee8f632a85da9c32a2b05ffc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:26 +0000
Subject: [PATCH 31/78] fix: sensor and visual functions of all targets: y
 holds every state, not only those the sensors use

---
 symbolics/writer/CSharpWriter.cpp  | 4 ++--
 symbolics/writer/CWriter.cpp       | 4 ++--
 symbolics/writer/FortranWriter.cpp | 4 ++--
 symbolics/writer/MatlabWriter.cpp  | 2 +-
 symbolics/writer/PythonWriter.cpp  | 4 ++--
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/symbolics/writer/CSharpWriter.cpp b/symbolics/writer/CSharpWriter.cpp
index 870717f..a282df5 100644
--- a/symbolics/writer/CSharpWriter.cpp
+++ b/symbolics/writer/CSharpWriter.cpp
@@ -201,7 +201,7 @@ double CSharpWriter::generateVisual(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR_VISUAL);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
@@ -327,7 +327,7 @@ double CSharpWriter::generateSensors(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR_VISUAL);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index b4fb4a2..83b1df0 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -208,7 +208,7 @@ double CWriter::generateVisual(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR_VISUAL);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR);
 	//Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
@@ -302,7 +302,7 @@ double CWriter::generateSensors(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR_VISUAL);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index f8311a1..cf634e9 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -196,7 +196,7 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR_VISUAL);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
@@ -331,7 +331,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR_VISUAL);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR);
 	//Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
diff --git a/symbolics/writer/MatlabWriter.cpp b/symbolics/writer/MatlabWriter.cpp
index 0c28358..f8ca49b 100644
--- a/symbolics/writer/MatlabWriter.cpp
+++ b/symbolics/writer/MatlabWriter.cpp
@@ -340,7 +340,7 @@ double MatlabWriter::generateSensors(Graph::Graph& g)
 
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 2b7548b..312f707 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -227,7 +227,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	// get equations of visual sensors
 	Graph::AssignmentsPtr a = g.getAssignments(Writer::SENSOR_VISUAL);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
@@ -359,7 +359,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	// get equations of visual sensors
 	Graph::AssignmentsPtr a = g.getAssignments(Writer::SENSOR);
 
-	Graph::VariableVec states = a->getVariables(STATE);
+	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
-- 
2.43.0


From 405d42744a6d3507d72732ac3adffa34d9b112ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:33 +0000
Subject: [PATCH 32/78] fix: PythonWriter: indentation of constants

---
 symbolics/writer/PythonWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 312f707..f9e8448 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -184,7 +184,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	f << "    # constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
 	{
-		f << "   " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	}
 	f << std::endl;
 
@@ -314,7 +314,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	f << "    # constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
 	{
-		f << "   " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	}
 	f << std::endl;
 
@@ -446,7 +446,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	f << "    # constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
 	{
-		f << "   " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+		f << "    " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	}
 	f << std::endl;
 
-- 
2.43.0


From ff41674ee11883d1fd279107c7e2f2eada9b2d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:33 +0000
Subject: [PATCH 33/78] fix: PythonWriter: import tan

---
 symbolics/writer/PythonWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index f9e8448..672eff0 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -93,7 +93,7 @@ double PythonWriter::generateStateDerivative(Graph::Graph &g)
 	f << std::endl << std::endl;
 
 	//f << "from numba import njit" << std::endl;
-	f << "from numpy import linalg, vstack, asarray, sin, cos, pi, sqrt, zeros, bmat, matrix" << std::endl;
+	f << "from numpy import linalg, vstack, asarray, sin, cos, tan, pi, sqrt, zeros, bmat, matrix" << std::endl;
 	f << "from numpy import arctan2 as atan2" << std::endl;
 	f << "from numpy import arctan as atan" << std::endl;
 	f << "from numpy import arcsin as asin" << std::endl;
@@ -253,7 +253,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl << std::endl;
 
-	f << "from numpy import linalg, vstack, asarray, sin, cos, pi, sqrt, zeros, bmat, matrix" << std::endl;
+	f << "from numpy import linalg, vstack, asarray, sin, cos, tan, pi, sqrt, zeros, bmat, matrix" << std::endl;
 	f << "from numpy import arctan2 as atan2" << std::endl;
 	f << "from numpy import arctan as atan" << std::endl;
 	f << "from numpy import arcsin as asin" << std::endl;
@@ -385,7 +385,7 @@ double PythonWriter::generateSensors(Graph::Graph &g)
 	f << "# " << getHeaderLine() << std::endl;
 	f << std::endl << std::endl;
 
-	f << "from numpy import linalg, vstack, asarray, sin, cos, pi, sqrt, zeros, bmat, matrix" << std::endl;
+	f << "from numpy import linalg, vstack, asarray, sin, cos, tan, pi, sqrt, zeros, bmat, matrix" << std::endl;
 	f << "from numpy import arctan2 as atan2" << std::endl;
 	f << "from numpy import arctan as atan" << std::endl;
 	f << "from numpy import arcsin as asin" << std::endl;
-- 
2.43.0


From 509b1fa7d3054eb972ca59b6956095b591f4f656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:33 +0000
Subject: [PATCH 34/78] fix: ModelicaWriter: constants print their dimension
 once

---
 symbolics/writer/ModelicaWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/ModelicaWriter.cpp b/symbolics/writer/ModelicaWriter.cpp
index 04bb019..1a9b712 100644
--- a/symbolics/writer/ModelicaWriter.cpp
+++ b/symbolics/writer/ModelicaWriter.cpp
@@ -123,7 +123,7 @@ double ModelicaWriter::generateTarget_Impl(Graph::Graph &g)
   f << "//Constants" << std::endl;
   for (Graph::VariableVec::iterator ii=constants.begin();ii!=constants.end();++ii)
   {
-    f << "   constant Real" <<  p.dimension(*ii) << " " <<  p.dimension(*ii) << (*ii)->getName() << " = " << p.print(g.getEquation(*ii)) << p.comment2(g,*ii) <<  ";" << std::endl;
+    f << "   constant Real" <<  p.dimension(*ii) << " " << (*ii)->getName() << " = " << p.print(g.getEquation(*ii)) << p.comment2(g,*ii) <<  ";" << std::endl;
   }
   f << "//Variables" << std::endl;
   for (Graph::VariableVec::iterator ii=variables.begin();ii!=variables.end();++ii)
-- 
2.43.0


From 9e4d91844e3622a973dc40ffd52c4b3685946a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:33 +0000
Subject: [PATCH 35/78] fix: FortranWriter: constants are declared as parameter

---
 symbolics/writer/FortranWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index cf634e9..089d256 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -121,7 +121,7 @@ double FortranWriter::generateDerState(Graph::Graph& g)
 
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, constant" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
@@ -262,7 +262,7 @@ double FortranWriter::generateSensors(Graph::Graph& g)
 
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, constant" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
@@ -385,7 +385,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 
 	f << "!Constants" << std::endl;
 	for (Graph::VariableVec::iterator it=constants.begin();it!=constants.end();++it)
-        f << "    double precision, constant" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
+        f << "    double precision, parameter" << m_p->dimension(*it) << " :: " << m_p->print(*it) << " = " << m_p->print(g.getEquation(*it)) << m_p->comment2(g,*it) << std::endl;
 	f << std::endl;
 
 	f << "!User Expression variables" << std::endl;
-- 
2.43.0


From c820b7d2140261d8174187bfcaaf130921358da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:33 +0000
Subject: [PATCH 36/78] fix: FortranWriter: read the temporary variable that
 has been assigned

---
 symbolics/writer/FortranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 089d256..2a3ed29 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -474,7 +474,7 @@ std::string FortranWriter::writeEquations(std::vector<Graph::Assignment> const&
 					s << "    temp_var_" << additionalVarDefs.size() << " = " << m_p->print(simple_exp) << std::endl; 
 					for (size_t j=0; j < mat->getShape().getDimension(1); j++)
 						for (size_t k=0; k < mat->getShape().getDimension(2); k++)
-							s << "    " << m_p->print(mat->get(j,k)) << " = temp_var_1(" << j+1<< "," << k+1 << ")" << std::endl;
+							s << "    " << m_p->print(mat->get(j,k)) << " = temp_var_" << additionalVarDefs.size() << "(" << j+1<< "," << k+1 << ")" << std::endl;
 				}
 			} else {
 				// ordinary equation
-- 
2.43.0


From 6ea2b5e3d9f086a6fc598b66996460d3fabdb147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:33 +0000
Subject: [PATCH 37/78] fix: CWriter: wrapper passes sensors to controllers

---
 symbolics/writer/CWriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 83b1df0..92456f0 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -519,6 +519,8 @@ double CWriter::generatePymbsWrapper(Graph::Graph& g)
 	f << "def ode_int(t, y):" << std::endl;
 	f << "    global _inputs" << std::endl;
 	f << std::endl;
+    if (!controller.empty())
+        f << "    sensors = " << (sensors.empty() ? "dict()" : "graphSensors(t, y)") << std::endl;
     for (Graph::VariableVec::iterator it=controller.begin();it!=controller.end();++it)
 	{
         std::string comment_tmp = m_p->comment2(g,*it);
-- 
2.43.0


From 28ded920b0c54fc41f6a64d649d33cbd957cca69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:06 +0000
Subject: [PATCH 38/78] fix: visual functions read only the states they use

---
 symbolics/writer/CSharpWriter.cpp  | 12 ++++++++----
 symbolics/writer/CWriter.cpp       | 12 ++++++++----
 symbolics/writer/FortranWriter.cpp | 18 +++++++++++-------
 symbolics/writer/PythonWriter.cpp  | 18 +++++++++++-------
 4 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/symbolics/writer/CSharpWriter.cpp b/symbolics/writer/CSharpWriter.cpp
index a282df5..4d756b3 100644
--- a/symbolics/writer/CSharpWriter.cpp
+++ b/symbolics/writer/CSharpWriter.cpp
@@ -202,6 +202,7 @@ double CSharpWriter::generateVisual(Graph::Graph& g)
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR_VISUAL);
 
 	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
+	Graph::VariableVec used = a->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
@@ -271,10 +272,13 @@ double CSharpWriter::generateVisual(Graph::Graph& g)
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
-		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
-		for (size_t j=0; j < n ; ++j)
-			f << "y[" << offset+j << "]" << (j+1 < n ? ", " : "");
-		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
+		if (std::find(used.begin(), used.end(), states.at(i)) != used.end())
+		{
+			f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
+			for (size_t j=0; j < n ; ++j)
+				f << "y[" << offset+j << "]" << (j+1 < n ? ", " : "");
+			f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
+		}
 		offset += n;
 	}
 	f << std::endl; 
diff --git a/symbolics/writer/CWriter.cpp b/symbolics/writer/CWriter.cpp
index 92456f0..962ad12 100644
--- a/symbolics/writer/CWriter.cpp
+++ b/symbolics/writer/CWriter.cpp
@@ -209,6 +209,7 @@ double CWriter::generateVisual(Graph::Graph& g)
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR_VISUAL);
 
 	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
+	Graph::VariableVec used = a->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR);
 	//Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
@@ -247,10 +248,13 @@ double CWriter::generateVisual(Graph::Graph& g)
 	for (size_t i=0; i < states.size(); ++i)
 	{
 		size_t n = states.at(i)->getShape().getNumEl();
-		f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
-		for (size_t j=0; j < n ; ++j)
-			f << "y[" << offset+j << "]" << (j+1 < n ? ", " : "");
-		f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
+		if (std::find(used.begin(), used.end(), states.at(i)) != used.end())
+		{
+			f << "    double "  << m_p->print(states.at(i)) << m_p->dimension(states.at(i)) << " = " << ( n>1 ? "{" : "");
+			for (size_t j=0; j < n ; ++j)
+				f << "y[" << offset+j << "]" << (j+1 < n ? ", " : "");
+			f << ( n>1 ? "}" : "") << ";" << m_p->comment2(g, states.at(i)) << std::endl;	
+		}
 		offset += n;
 	}
 	f << std::endl; 
diff --git a/symbolics/writer/FortranWriter.cpp b/symbolics/writer/FortranWriter.cpp
index 2a3ed29..8d67551 100644
--- a/symbolics/writer/FortranWriter.cpp
+++ b/symbolics/writer/FortranWriter.cpp
@@ -332,6 +332,7 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	Graph::AssignmentsPtr a = g.getAssignments(SENSOR_VISUAL);
 
 	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
+	Graph::VariableVec used = a->getVariables(STATE);
 	Graph::VariableVec variables = a->getVariables(VARIABLE|SENSOR);
 	//Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
@@ -409,13 +410,16 @@ double FortranWriter::generateVisual(Graph::Graph& g)
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i) 
 	{
         Shape n = states.at(i)->getShape(); 
-		fss << "    " << m_p->print(states[i]) << " = y(";
-		if (states[i]->is_Scalar())
-			fss << str(offset + 1) << ",1)" << std::endl;
-		else
-			fss << str(offset + 1) << ":" 
-			  << str(offset + n.getDimension(1)) << ",:)" 
-			  << std::endl;
+		if (std::find(used.begin(), used.end(), states.at(i)) != used.end())
+		{
+			fss << "    " << m_p->print(states[i]) << " = y(";
+			if (states[i]->is_Scalar())
+				fss << str(offset + 1) << ",1)" << std::endl;
+			else
+				fss << str(offset + 1) << ":" 
+				  << str(offset + n.getDimension(1)) << ",:)" 
+				  << std::endl;
+		}
 		offset += n.getDimension(1);
 	}
 	fss << std::endl;
diff --git a/symbolics/writer/PythonWriter.cpp b/symbolics/writer/PythonWriter.cpp
index 672eff0..032b5c4 100644
--- a/symbolics/writer/PythonWriter.cpp
+++ b/symbolics/writer/PythonWriter.cpp
@@ -228,6 +228,7 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	Graph::AssignmentsPtr a = g.getAssignments(Writer::SENSOR_VISUAL);
 
 	Graph::VariableVec states = g.getAssignments(DER_STATE)->getVariables(STATE);
+	Graph::VariableVec used = a->getVariables(STATE);
 	Graph::VariableVec inputs = a->getVariables(INPUT);
 	Graph::VariableVec parameter = a->getVariables(PARAMETER);
 	Graph::VariableVec constants = a->getVariables(CONSTANT);
@@ -291,13 +292,16 @@ double PythonWriter::generateVisualSensors(Graph::Graph &g)
 	for (Graph::VariableVec::size_type i = 0; i < states.size() ; ++i)
 	{
 		Shape n = states.at(i)->getShape();
-		f << "    " << m_p->print(states[i]) << " = ";
-		if (states[i]->is_Scalar())
-			f << "y[" << str(offset) << "]" << std::endl;
-		else
-			f << "matrix(y[" << str(offset) << ":"
-			  << str(offset + n.getDimension(1)) << "], dtype=float).T"
-			  << std::endl;
+		if (std::find(used.begin(), used.end(), states.at(i)) != used.end())
+		{
+			f << "    " << m_p->print(states[i]) << " = ";
+			if (states[i]->is_Scalar())
+				f << "y[" << str(offset) << "]" << std::endl;
+			else
+				f << "matrix(y[" << str(offset) << ":"
+				  << str(offset + n.getDimension(1)) << "], dtype=float).T"
+				  << std::endl;
+		}
 		offset += n.getDimension(1);
 	}
 	f << std::endl;
-- 
2.43.0


From e69a2eee0df18add898d4c58b912dbf9ad6788cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 39/78] fix: Generator_OrderN subtracts the gyroscopic torque

---
 pymbs/processing/generator_order_n.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 752ba33..927a0ea 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -616,8 +616,7 @@ class Generator_OrderN(Generator):
                 J_3 = graph.addEquation(J%bName+"_3", body.mass*eye((3,3)))
                 body._J = graph.addEquation(J%bName, block_matrix([[body.inertia, J_1], [J_2, J_3]]))        # (21 a)
     #            D_1 = graph.addEquation(D%bName+"_1", body._L_ext + body._l_tilde*body._F_ext - body._K_om_tilde*body.inertia*body.K_om)
-                # Warum  + body._K_om_tilde*body.inertia*body.K_om und nicht -
-                D_1 = graph.addEquation(D%bName+"_1", body._L_ext + body._K_om_tilde*body.inertia*body.K_om)
+                D_1 = graph.addEquation(D%bName+"_1", body._L_ext - body._K_om_tilde*body.inertia*body.K_om)
                 D_2 = graph.addEquation(D%bName+"_2", body._F_ext - body.mass*body._beta_star*body.cg)
                 body._d = graph.addEquation(D%bName, block_vector([D_1, D_2]))                               # (21 b)
                 tmp_e = block_vector([joint.Phi, joint.Psi])
-- 
2.43.0


From 5f9b72bc66e7070f83863986f4854382c01e5587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 40/78] fix: Generator_Explicit accepts three-dimensional loads
 on a single coordinate

---
 pymbs/processing/generator_explicit.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pymbs/processing/generator_explicit.py b/pymbs/processing/generator_explicit.py
index 6b52d40..b5caf3f 100644
--- a/pymbs/processing/generator_explicit.py
+++ b/pymbs/processing/generator_explicit.py
@@ -189,11 +189,13 @@ class Generator_Explicit(Generator):
             sWf = fel.Wf.shape()
             sWt = fel.Wt.shape()
             if (len(sWf) > 1):
-                Wf = Matrix((n,sWf[1]))
+                # a single coordinate yields row vectors
+                Wf = Matrix((n,sWf[1])) if n > 1 else transpose(Matrix((sWf[1],)))
             else:
                 Wf = Matrix((n,))
             if (len(sWt) > 1):
-                Wt = Matrix((n,sWt[1]))
+                # a single coordinate yields row vectors
+                Wt = Matrix((n,sWt[1])) if n > 1 else transpose(Matrix((sWt[1],)))
             else:
                 Wt = Matrix((n,))
 
@@ -242,11 +244,16 @@ class Generator_Explicit(Generator):
             Wt = scalar_if_possible(simple(transpose(J)*Wt))
 
             # Add Them to the List
+            isRow = len(self.state.q) == 1
             if (fel.force is not None):
-                Wf_sym = graph.addEquation('WF_%s' % fel.name, Wf)
+                # a row vector cannot be stored in a variable
+                Wf_sym = Wf if isRow and len(sWf) > 1 else \
+                    graph.addEquation('WF_%s' % fel.name, Wf)
                 f_ext += Wf_sym * fel.force
             if (fel.torque is not None):
-                Wt_sym = graph.addEquation('WT_%s' % fel.name, Wt)
+                # a row vector cannot be stored in a variable
+                Wt_sym = Wt if isRow and len(sWt) > 1 else \
+                    graph.addEquation('WT_%s' % fel.name, Wt)
                 f_ext += Wt_sym * fel.torque
 
         print("Simplifying M")
-- 
2.43.0


From 7e48bfd028d846d40795b05ca2d823cc02d578f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 41/78] fix: velocity and acceleration sensors between frames
 at rest

---
 pymbs/processing/sensors/acceleration_sensor.py | 2 +-
 pymbs/processing/sensors/velocity_sensor.py     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymbs/processing/sensors/acceleration_sensor.py b/pymbs/processing/sensors/acceleration_sensor.py
index 8bfe739..58fefc0 100644
--- a/pymbs/processing/sensors/acceleration_sensor.py
+++ b/pymbs/processing/sensors/acceleration_sensor.py
@@ -18,7 +18,7 @@ class AccelerationSensor(Sensor):
         # Calculate Vector Pointing From Child to Parent (w.r.t. Inertial Frame)
         a = transpose(self.ref.I_R)*(self.child.I_a - self.parent.I_a)
         if (a == 0):
-            a = sym.zeros(self.getShape())
+            a = sym.zeros((3,))
         
         # Add Result to the List of Equations
         self.writeResult(graph, a)
diff --git a/pymbs/processing/sensors/velocity_sensor.py b/pymbs/processing/sensors/velocity_sensor.py
index beefcf1..3bb0ef3 100644
--- a/pymbs/processing/sensors/velocity_sensor.py
+++ b/pymbs/processing/sensors/velocity_sensor.py
@@ -1,6 +1,8 @@
 from pymbs.processing.sensors.sensor import Sensor
 from pymbs.common.functions import transpose
 
+import pymbs.symbolics as sym
+
 
 
 class VelocitySensor(Sensor):
@@ -18,7 +20,7 @@ class VelocitySensor(Sensor):
         # Calculate Vector Pointing From Parent to Child (w.r.t. Inertial Frame)
         v = transpose(self.ref.I_R)*(self.child.I_v - self.parent.I_v)
         if (v == 0):
-            v = pymbs.Symbolics.zeros(self.getShape())
+            v = sym.zeros((3,))
         
         # Add Result to the List of Equations
         self.writeResult(graph, v)
-- 
2.43.0


From 0b3aeea2ec331dbbae42635937c86e63363ef21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 42/78] fix: angular sensors of the explicit generator relative
 to the world

---
 pymbs/processing/sensors/ang_acceleration_sensor.py | 6 +++---
 pymbs/processing/sensors/ang_velocity_sensor.py     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pymbs/processing/sensors/ang_acceleration_sensor.py b/pymbs/processing/sensors/ang_acceleration_sensor.py
index 5b7665c..3cd9cb8 100644
--- a/pymbs/processing/sensors/ang_acceleration_sensor.py
+++ b/pymbs/processing/sensors/ang_acceleration_sensor.py
@@ -17,12 +17,12 @@ class AngAccelerationSensor(Sensor):
         self.check()
 
         # Calculate Vector Pointing From Child to Parent (w.r.t. Inertial Frame)
-        if (isinstance(self.parent.I_a, sym.Matrix)):
+        if not (hasattr(self.parent, 'I_al') and hasattr(self.child, 'I_al')):
             alpha = transpose(self.ref.I_R)*(self.child.I_R*self.child.K_al - self.parent.I_R*self.parent.K_al)
         else:
             alpha = transpose(self.ref.I_R)*(self.child.I_al - self.parent.I_al)
-            if (alpha == 0):
-                alpha = sym.zeros(self.getShape())
+        if (alpha == 0):
+            alpha = sym.zeros(self.getShape())
 
         # Add Result to the List of Equations
         self.writeResult(graph, alpha)
diff --git a/pymbs/processing/sensors/ang_velocity_sensor.py b/pymbs/processing/sensors/ang_velocity_sensor.py
index 8351934..22381e4 100644
--- a/pymbs/processing/sensors/ang_velocity_sensor.py
+++ b/pymbs/processing/sensors/ang_velocity_sensor.py
@@ -17,12 +17,12 @@ class AngVelocitySensor(Sensor):
         self.check()
 
         # Calculate Vector Pointing From Child to Parent (w.r.t. Inertial Frame)
-        if (isinstance(self.parent.I_a, sym.Matrix)):
+        if not (hasattr(self.parent, 'I_om') and hasattr(self.child, 'I_om')):
             om = transpose(self.ref.I_R)*(self.child.I_R*self.child.K_om - self.parent.I_R*self.parent.K_om)
         else:
             om = transpose(self.ref.I_R)*(self.child.I_om - self.parent.I_om)
-            if (om == 0):
-                om = sym.zeros(self.getShape())
+        if (om == 0):
+            om = sym.zeros(self.getShape())
 
         # Add Result to the List of Equations
         self.writeResult(graph, om)
-- 
2.43.0


From 9c146dc3d4ae719892e2149b754f8b1b21c437d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 43/78] fix: Generator_OrderN separates the acceleration of
 bodies from gravity

---
 pymbs/processing/generator_order_n.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 927a0ea..bdea02b 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -996,7 +996,7 @@ class Generator_OrderN(Generator):
 
             b._a = graph.addEquation(A%b.name, b._RR*p._a + b._a_star + b._e*qdd[i]) # (22)
             graph.addEquation(b.K_al, b._a[0:3])
-            graph.addEquation(b.I_a, b.I_R*b._a[3:6])
+            graph.addEquation(b.I_a, b.I_R*b._a[3:6] + self.g)
 
             if isinstance(b,FlexibleBody):
                 # calculate the flexible accelerations
-- 
2.43.0


From 3f70c2e21bce220a90bc0b40f14cdc9df0501699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 44/78] fix: reaction torques of Generator_Recursive with
 external forces

---
 pymbs/processing/generator_recursive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymbs/processing/generator_recursive.py b/pymbs/processing/generator_recursive.py
index 612938b..05797fc 100644
--- a/pymbs/processing/generator_recursive.py
+++ b/pymbs/processing/generator_recursive.py
@@ -539,7 +539,7 @@ class Generator_Recursive(Generator):
             L_b += body._l_tilde*body._F + \
                    body.inertia*body.I_al + \
                    body._I_om_tilde*body.inertia*body.I_om - \
-                   body._L_ext   # (26)
+                   body._L_ext + body._l_tilde*body._F_ext  # (26)
             body._L = graph.addEquation(L%bName, L_b, shape=(3,))
 
             # Save result in joint
-- 
2.43.0


From 0e80ed90320b720423103dae9909479baf902976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 45/78] fix: Generator_OrderN keeps the inertia about the
 centre of gravity

---
 pymbs/processing/generator_order_n.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index bdea02b..dc72520 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -216,7 +216,7 @@ class Generator_OrderN(Generator):
                 body._l = graph.addEquation(l%bName, body.cg, shape=(3,))
                 body._l_tilde = graph.addEquation(l_tilde%bName, skew(body._l), shape=(3,3))
                 body.mass = graph.addEquation(m%bName, body.mass, shape=())
-                body.inertia = graph.addEquation(I%bName, body.inertia - body.mass*body._l_tilde*body._l_tilde, shape=(3,3))
+                body._inertia_0 = graph.addEquation(I%bName, body.inertia - body.mass*body._l_tilde*body._l_tilde, shape=(3,3))
 
                 # Position
                 body.I_r = graph.addEquation(I_p%bName, parentBody.I_r + parentBody.I_R*p_z_p_b, shape=(3,))
@@ -614,9 +614,9 @@ class Generator_OrderN(Generator):
                 J_1 = graph.addEquation(J%bName+"_1", body.mass*body._l_tilde)
                 J_2 = graph.addEquation(J%bName+"_2", -J_1)
                 J_3 = graph.addEquation(J%bName+"_3", body.mass*eye((3,3)))
-                body._J = graph.addEquation(J%bName, block_matrix([[body.inertia, J_1], [J_2, J_3]]))        # (21 a)
+                body._J = graph.addEquation(J%bName, block_matrix([[body._inertia_0, J_1], [J_2, J_3]]))        # (21 a)
     #            D_1 = graph.addEquation(D%bName+"_1", body._L_ext + body._l_tilde*body._F_ext - body._K_om_tilde*body.inertia*body.K_om)
-                D_1 = graph.addEquation(D%bName+"_1", body._L_ext - body._K_om_tilde*body.inertia*body.K_om)
+                D_1 = graph.addEquation(D%bName+"_1", body._L_ext - body._K_om_tilde*body._inertia_0*body.K_om)
                 D_2 = graph.addEquation(D%bName+"_2", body._F_ext - body.mass*body._beta_star*body.cg)
                 body._d = graph.addEquation(D%bName, block_vector([D_1, D_2]))                               # (21 b)
                 tmp_e = block_vector([joint.Phi, joint.Psi])
-- 
2.43.0


From e50218f1fed83215edad6ec2b017ed280834039f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 46/78] fix: energy sensors of the recursive generator

---
 pymbs/processing/sensors/energy_sensor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymbs/processing/sensors/energy_sensor.py b/pymbs/processing/sensors/energy_sensor.py
index 5fafbd6..e6fad69 100644
--- a/pymbs/processing/sensors/energy_sensor.py
+++ b/pymbs/processing/sensors/energy_sensor.py
@@ -36,10 +36,15 @@ class EnergySensor(Sensor):
         assert self.body.I_l is not None, 'Position of Body "%s" has not been calculated!'%self.body
         E_pot = -m*transpose(self.gravity)*self.body.I_l
 
+        # angular velocity, w.r.t. the frame the inertia tensor is given in
+        om = self.body.K_om
+        if om is None:
+            om = self.body.I_om
+
         # get kinetic energy
         assert self.body.I_ldot is not None, 'Velocity of Body "%s" has not been calculated!'%self.body
         E_kin = 0.5*m*transpose(self.body.I_ldot)*self.body.I_ldot + \
-                0.5*transpose(self.body.K_om)*I*self.body.K_om
+                0.5*transpose(om)*I*om
 
         # Total Energy
         E = E_pot + E_kin
-- 
2.43.0


From f2f4e594b3e19629b728238e2ea3ba09a6c53f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 47/78] fix: Generator_OrderN turns translations into the frame
 of the parent body

---
 pymbs/processing/generator_order_n.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index dc72520..142a36b 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -208,7 +208,7 @@ class Generator_OrderN(Generator):
                 body.I_R = graph.addEquation(T1%bName, T_cs*T_j, shape=(3,3))
                 body._R = graph.addEquation(T2%(pName,bName), transpose(cs.R*T_j))
 
-                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+joint.Psi*joint.q, shape=(3,))
+                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+cs.R*joint.Psi*joint.q, shape=(3,))
                 body._p_z = p_z_p_b
                 body._p_z_tilde = graph.addEquation(p_z_tilde%(pName,bName), skew(p_z_p_b), shape=(3,3))
 
@@ -228,7 +228,7 @@ class Generator_OrderN(Generator):
                 body._K_om_tilde = graph.addEquation(omega_tilde%bName, skew(body.K_om), shape=(3,3))
 
                 # Velocity
-                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*joint.Psi), shape=(3,))
+                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*cs.R*joint.Psi), shape=(3,))
                 body.I_ldot = graph.addEquation(I_ldot%bName, body.I_v + body.I_R*body._K_om_tilde*body._l, shape=(3,))
 
                 if (not self.kinematicsOnly):
@@ -275,7 +275,7 @@ class Generator_OrderN(Generator):
                 body.I_R = graph.addEquation(T1%bName, T_cs*T_j, shape=(3,3))
                 body._R = graph.addEquation(T2%(pName,bName), transpose(cs.R*T_j))
 
-                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+joint.Psi*joint.q, shape=(3,))
+                p_z_p_b = graph.addEquation(p_z%(pName,bName), cs.p+cs.R*joint.Psi*joint.q, shape=(3,))
                 body._p_z = p_z_p_b
                 body._p_z_tilde = graph.addEquation(p_z_tilde%(pName,bName), skew(p_z_p_b), shape=(3,3))
 
@@ -305,7 +305,7 @@ class Generator_OrderN(Generator):
                 #K_om_q = Symbolics.Matrix = ([[body.K_om[0,0]*body.K_om[0,0]],[body.K_om[1,0]*body.K_om[1,0]],[body.K_om[2,0]*body.K_om[2,0]],[body.K_om[0,0]*body.K_om[1,0]],[body.K_om[1,0]*body.K_om[2,0]],[body.K_om[0,0]*body.K_om[2,0]]])
                 body._K_om_q = graph.addEquation(omega_q%bName,omegaq)
 
-                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*joint.Psi), shape=(3,))
+                body.I_v = graph.addEquation(I_v%bName, parentBody.I_v + parentBody.I_R*(parentBody._K_om_tilde*p_z_p_b + joint.qd*cs.R*joint.Psi), shape=(3,))
                 body.I_ldot = graph.addEquation(I_ldot%bName, body.I_v + body.I_R*body._K_om_tilde*body._l, shape=(3,))
 
                 if (not self.kinematicsOnly):
@@ -1170,7 +1170,7 @@ class Generator_OrderN(Generator):
             R_rel = transpose(csref.I_R)*cs.I_R*cs.R     # to csref from cs
 
         R = cs.R*body._R    # to cs from parentBody
-        p_z_p_b = graph.addEquation(p_z%(pName,bcsName), joint.coordSys.p+joint.Psi*joint.q+transpose(body._R)*cs.p, shape=(3,))    # w.r.t. parentBody
+        p_z_p_b = graph.addEquation(p_z%(pName,bcsName), joint.coordSys.p+joint.coordSys.R*joint.Psi*joint.q+transpose(body._R)*cs.p, shape=(3,))    # w.r.t. parentBody
         # both _alpha_c and _omegad_C are w.r.t. csref
         _alpha_C = graph.addEquation(alpha_C%bcsName, R_rel*( body._R*(parentBody._alpha_C + parentBody._beta_C*p_z_p_b) + 2*body._K_om_tilde*joint.Psi*joint.qd ), shape=(3,)) # (21, Recursive Paper)
         _omegad_C = graph.addEquation(omegad_C%bcsName, R_rel*body._omegad_C, shape=(3,)) # (19, Recursive Paper)
-- 
2.43.0


From 29dfb8d823287095bf5849ac75a5a1b9d12e61fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 48/78] fix: Generator_Explicit defines the states of purely
 kinematic models

---
 pymbs/processing/generator_explicit.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pymbs/processing/generator_explicit.py b/pymbs/processing/generator_explicit.py
index b5caf3f..54f7da6 100644
--- a/pymbs/processing/generator_explicit.py
+++ b/pymbs/processing/generator_explicit.py
@@ -42,6 +42,7 @@ class Generator_Explicit(Generator):
 
         if (self.kinematicsOnly):
             self.handleLoops(graph)
+            self.defineStates(graph)
         else:
             # Obtain Equations
             print(self.q, self.q.__class__)
@@ -56,6 +57,21 @@ class Generator_Explicit(Generator):
         return True
 
 
+    def defineStates(self, graph):
+        '''
+        The accelerations are inputs, if only the kinematics are calculated
+        '''
+
+        q = graph.addVariable(name='q', shape=self.reduce_shape( self.q.shape() ), initialValue=scalar_if_possible(self.q0) )
+        qd = graph.addVariable(name='qd', shape=self.reduce_shape( self.qd.shape() ), initialValue=scalar_if_possible(self.qd0) )
+        qdd = graph.addVariable(name='qdd', shape=self.reduce_shape( self.qdd.shape() ), varKind=VarKind.Input)
+        graph.addEquation(self.state.q, q)
+        graph.addEquation(self.state.qd, qd)
+        graph.addEquation(self.state.qdd, qdd)
+        graph.addEquation(der(q), qd)
+        graph.addEquation(der(qd), qdd)
+
+
     def calcBodyStates(self, graph):
         '''
         Calculates All Positions w.r.t. Inertial Frame
-- 
2.43.0


From e6c346196e6dfe849fd9e92212c2a654cc34a21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 49/78] fix: Generator_OrderN turns loads into the frame of the
 body they act on

---
 pymbs/processing/generator_order_n.py | 36 +++++++++++++--------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 142a36b..9eecd6a 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -569,15 +569,15 @@ class Generator_OrderN(Generator):
                         assert child in (load.parent, load.child), "Internal Error: load %s must have this Coordinate System (child) as a parent or a child!"%(load.name)
 
                         # Calculate Rotation Matrix
-                        if ((load.ref is None) or (load.ref == child)): # ref = parent
-                            if (load.parent == child):
-                                T = 1
-                            else:
-                                # child <- world <- parent
-                                T = transpose(child.I_R)*load.parent.I_R
-                        else:   # ref = irgendetwas
-                            # child (child/parent) <- I <- ref
-                            T = transpose(child.I_R)*load.ref.I_R
+                        if (load.ref is None): # load is given in the inertial frame
+                            # body <- I
+                            T = transpose(body.I_R)
+                        elif (load.ref.parentBody == body):
+                            # body <- ref
+                            T = load.ref.R
+                        else:
+                            # body <- I <- ref
+                            T = transpose(body.I_R)*load.ref.I_R
 
 
                         if (not isinstance(load, Constraint)):  # We are dealing with a normal load
@@ -699,15 +699,15 @@ class Generator_OrderN(Generator):
                         assert child in (load.parent, load.child), "Internal Error: load %s must have this Coordinate System (child) as a parent or a child!"%(load.name)
 
                         # Calculate Rotation Matrix
-                        if ((load.ref is None) or (load.ref == child)): # ref = parent
-                            if (load.parent == child):
-                                T = 1
-                            else:
-                                # child <- world <- parent
-                                T = transpose(child.I_R)*load.parent.I_R
-                        else:   # ref = irgendetwas
-                            # child (child/parent) <- I <- ref
-                            T = transpose(child.I_R)*load.ref.I_R
+                        if (load.ref is None): # load is given in the inertial frame
+                            # body <- I
+                            T = transpose(body.I_R)
+                        elif (load.ref.parentBody == body):
+                            # body <- ref
+                            T = load.ref.R
+                        else:
+                            # body <- I <- ref
+                            T = transpose(body.I_R)*load.ref.I_R
 
                         if (not isinstance(load, Constraint)):  # We are dealing with a normal load
                             Phi_SID = None
-- 
2.43.0


From b2390a6fdc783cda8ddc1965455467e5a833d4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:48 +0000
Subject: [PATCH 50/78] fix: velocities and accelerations of the crank slider
 agree with its position

---
 pymbs/processing/loops/crank_slider.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymbs/processing/loops/crank_slider.py b/pymbs/processing/loops/crank_slider.py
index 1ff23e6..d3d6c01 100644
--- a/pymbs/processing/loops/crank_slider.py
+++ b/pymbs/processing/loops/crank_slider.py
@@ -235,9 +235,9 @@ class CrankSlider(Loop):
 
         alphad = q3d
 
-        Bvu = Matrix([[-l1*sin(alpha+q1)/cos(alpha)], [l1*cos(q1)/(l2*cos(alpha))]])
+        Bvu = Matrix([[-l1*sin(q1-alpha)/cos(alpha)], [l1*cos(q1)/(l2*cos(alpha))]])
 
-        b_prime = Matrix([-l1*q1d*(2*alphad*cos(q1)+q1d*cos(q1)+q1d*cos(2*alpha+q1))/(2*cos(alpha)*cos(alpha)),
+        b_prime = Matrix([-l1*q1d*(-2*alphad*cos(q1)+q1d*cos(q1)+q1d*cos(q1-2*alpha))/(2*cos(alpha)*cos(alpha)),
                           (-l1*q1d*q1d*cos(alpha)*sin(q1)+l1*alphad*q1d*cos(q1)*sin(alpha))/(l2*cos(alpha)*cos(alpha))])
 
         return ([v0, v1], Bvu, b_prime)
-- 
2.43.0


From 7627fdc55950cc98a94ee1d67a638bbe7c128204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:48 +0000
Subject: [PATCH 51/78] fix: crank slider whose frames are given in reverse
 order

---
 pymbs/processing/loops/crank_slider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymbs/processing/loops/crank_slider.py b/pymbs/processing/loops/crank_slider.py
index d3d6c01..d076d34 100644
--- a/pymbs/processing/loops/crank_slider.py
+++ b/pymbs/processing/loops/crank_slider.py
@@ -61,7 +61,7 @@ class CrankSlider(Loop):
         if j2.coordSys.parentBody.joint is None:
             j1 = csBb.parentBody.joint
             j2 = csBa.parentBody.joint
-            j3 = j1.coordSys.parentBody.joint
+            j3 = j2.coordSys.parentBody.joint
             csB1 = csBb
             csB2 = csBa
         else:
-- 
2.43.0


From 58b0a3a0745ff986a8e7befba94a43ada1de21b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:48 +0000
Subject: [PATCH 52/78] fix: velocities and accelerations of the hexapod agree
 with its position

---
 pymbs/processing/loops/hexapod.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pymbs/processing/loops/hexapod.py b/pymbs/processing/loops/hexapod.py
index 6aad9c8..c9388eb 100644
--- a/pymbs/processing/loops/hexapod.py
+++ b/pymbs/processing/loops/hexapod.py
@@ -219,9 +219,13 @@ class Hexapod(Loop):
 
         # assign dependent coordinates
         v0 = l_Zyl
-        v1 = Alpha_Zyl
         v2 = Beta_Zyl
 
+        # the formulas below measure the first angle against the sense of
+        # rotation of its joint
+        v1 = -Alpha_Zyl
+        v1d = -v1d
+
         # geometric parameters of base platform (bp) and tool platform (tp)
         bpx = self.jA2.coordSys.p[0]
         bpy = self.jA2.coordSys.p[1]
@@ -244,4 +248,9 @@ class Hexapod(Loop):
         (-tpx*u3d**2*sin(u3)*sin(u5)*cos(v1) + tpx*u3d**2*sin(u4)*cos(u3)*cos(u5)*cos(v1) + 2*tpx*u3d*u4d*sin(u3)*cos(u4)*cos(u5)*cos(v1) - 2*tpx*u3d*u5d*sin(u3)*sin(u4)*sin(u5)*cos(v1) + 2*tpx*u3d*u5d*cos(u3)*cos(u5)*cos(v1) + tpx*u4d**2*sin(u4)*cos(u3)*cos(u5)*cos(v1) + tpx*u4d**2*sin(v1)*cos(u4)*cos(u5) - 2*tpx*u4d*u5d*sin(u4)*sin(u5)*sin(v1) + 2*tpx*u4d*u5d*sin(u5)*cos(u3)*cos(u4)*cos(v1) - tpx*u5d**2*sin(u3)*sin(u5)*cos(v1) + tpx*u5d**2*sin(u4)*cos(u3)*cos(u5)*cos(v1) + tpx*u5d**2*sin(v1)*cos(u4)*cos(u5) - tpy*u3d**2*sin(u3)*cos(u5)*cos(v1) - tpy*u3d**2*sin(u4)*sin(u5)*cos(u3)*cos(v1) - 2*tpy*u3d*u4d*sin(u3)*sin(u5)*cos(u4)*cos(v1) - 2*tpy*u3d*u5d*sin(u3)*sin(u4)*cos(u5)*cos(v1) - 2*tpy*u3d*u5d*sin(u5)*cos(u3)*cos(v1) - tpy*u4d**2*sin(u4)*sin(u5)*cos(u3)*cos(v1) - tpy*u4d**2*sin(u5)*sin(v1)*cos(u4) - 2*tpy*u4d*u5d*sin(u4)*sin(v1)*cos(u5) + 2*tpy*u4d*u5d*cos(u3)*cos(u4)*cos(u5)*cos(v1) - tpy*u5d**2*sin(u3)*cos(u5)*cos(v1) - tpy*u5d**2*sin(u4)*sin(u5)*cos(u3)*cos(v1) - tpy*u5d**2*sin(u5)*sin(v1)*cos(u4) - tpz*u3d**2*cos(u3)*cos(u4)*cos(v1) + 2*tpz*u3d*u4d*sin(u3)*sin(u4)*cos(v1) + tpz*u4d**2*sin(u4)*sin(v1) - tpz*u4d**2*cos(u3)*cos(u4)*cos(v1) + 2*v0*v1d*v2d*sin(v2) - 2*v0d*v1d*cos(v2))/(v0*cos(v2)),
         -(tpx*u3d**2*sin(u3)*sin(u4)*cos(u5)*cos(v2) - tpx*u3d**2*sin(u3)*sin(u5)*sin(v1)*sin(v2) + tpx*u3d**2*sin(u4)*sin(v1)*sin(v2)*cos(u3)*cos(u5) + tpx*u3d**2*sin(u5)*cos(u3)*cos(v2) + 2*tpx*u3d*u4d*sin(u3)*sin(v1)*sin(v2)*cos(u4)*cos(u5) - 2*tpx*u3d*u4d*cos(u3)*cos(u4)*cos(u5)*cos(v2) - 2*tpx*u3d*u5d*sin(u3)*sin(u4)*sin(u5)*sin(v1)*sin(v2) + 2*tpx*u3d*u5d*sin(u3)*cos(u5)*cos(v2) + 2*tpx*u3d*u5d*sin(u4)*sin(u5)*cos(u3)*cos(v2) + 2*tpx*u3d*u5d*sin(v1)*sin(v2)*cos(u3)*cos(u5) + tpx*u4d**2*sin(u3)*sin(u4)*cos(u5)*cos(v2) + tpx*u4d**2*sin(u4)*sin(v1)*sin(v2)*cos(u3)*cos(u5) - tpx*u4d**2*sin(v2)*cos(u4)*cos(u5)*cos(v1) + 2*tpx*u4d*u5d*sin(u3)*sin(u5)*cos(u4)*cos(v2) + 2*tpx*u4d*u5d*sin(u4)*sin(u5)*sin(v2)*cos(v1) + 2*tpx*u4d*u5d*sin(u5)*sin(v1)*sin(v2)*cos(u3)*cos(u4) + tpx*u5d**2*sin(u3)*sin(u4)*cos(u5)*cos(v2) - tpx*u5d**2*sin(u3)*sin(u5)*sin(v1)*sin(v2) + tpx*u5d**2*sin(u4)*sin(v1)*sin(v2)*cos(u3)*cos(u5) + tpx*u5d**2*sin(u5)*cos(u3)*cos(v2) - tpx*u5d**2*sin(v2)*cos(u4)*cos(u5)*cos(v1) - tpy*u3d**2*sin(u3)*sin(u4)*sin(u5)*cos(v2) - tpy*u3d**2*sin(u3)*sin(v1)*sin(v2)*cos(u5) - tpy*u3d**2*sin(u4)*sin(u5)*sin(v1)*sin(v2)*cos(u3) + tpy*u3d**2*cos(u3)*cos(u5)*cos(v2) - 2*tpy*u3d*u4d*sin(u3)*sin(u5)*sin(v1)*sin(v2)*cos(u4) + 2*tpy*u3d*u4d*sin(u5)*cos(u3)*cos(u4)*cos(v2) - 2*tpy*u3d*u5d*sin(u3)*sin(u4)*sin(v1)*sin(v2)*cos(u5) - 2*tpy*u3d*u5d*sin(u3)*sin(u5)*cos(v2) + 2*tpy*u3d*u5d*sin(u4)*cos(u3)*cos(u5)*cos(v2) - 2*tpy*u3d*u5d*sin(u5)*sin(v1)*sin(v2)*cos(u3) - tpy*u4d**2*sin(u3)*sin(u4)*sin(u5)*cos(v2) - tpy*u4d**2*sin(u4)*sin(u5)*sin(v1)*sin(v2)*cos(u3) + tpy*u4d**2*sin(u5)*sin(v2)*cos(u4)*cos(v1) + 2*tpy*u4d*u5d*sin(u3)*cos(u4)*cos(u5)*cos(v2) + 2*tpy*u4d*u5d*sin(u4)*sin(v2)*cos(u5)*cos(v1) + 2*tpy*u4d*u5d*sin(v1)*sin(v2)*cos(u3)*cos(u4)*cos(u5) - tpy*u5d**2*sin(u3)*sin(u4)*sin(u5)*cos(v2) - tpy*u5d**2*sin(u3)*sin(v1)*sin(v2)*cos(u5) - tpy*u5d**2*sin(u4)*sin(u5)*sin(v1)*sin(v2)*cos(u3) + tpy*u5d**2*sin(u5)*sin(v2)*cos(u4)*cos(v1) + tpy*u5d**2*cos(u3)*cos(u5)*cos(v2) - tpz*u3d**2*sin(u3)*cos(u4)*cos(v2) - tpz*u3d**2*sin(v1)*sin(v2)*cos(u3)*cos(u4) + 2*tpz*u3d*u4d*sin(u3)*sin(u4)*sin(v1)*sin(v2) - 2*tpz*u3d*u4d*sin(u4)*cos(u3)*cos(v2) - tpz*u4d**2*sin(u3)*cos(u4)*cos(v2) - tpz*u4d**2*sin(u4)*sin(v2)*cos(v1) - tpz*u4d**2*sin(v1)*sin(v2)*cos(u3)*cos(u4) + v0*v1d**2*sin(v2)*cos(v2) - 2*v0d*v2d*sin(v1)**2*cos(v2)**2 + 2*v0d*v2d*sin(v1)**2 - 2*v0d*v2d*cos(v1)**2*cos(v2)**2 + 2*v0d*v2d*cos(v1)**2 + 2*v0d*v2d*cos(v2)**2)/v0,        ])
 
-        return ([v0,v1,v2],Bvu,b_prime)
\ No newline at end of file
+        # back to the angle of the joint
+        for i in range(6):
+            Bvu[1,i] = -Bvu[1,i]
+        b_prime[1] = -b_prime[1]
+
+        return ([v0,Alpha_Zyl,v2],Bvu,b_prime)
\ No newline at end of file
-- 
2.43.0


From 0c237e8c71c1bd7a38018a6e7d6adb80c9d7f113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 53/78] fix: Generator_OrderN does not add the accelerations of
 loops twice

---
 pymbs/processing/generator.py         | 7 +++++--
 pymbs/processing/generator_order_n.py | 7 ++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pymbs/processing/generator.py b/pymbs/processing/generator.py
index 8d82d5a..06a2e9d 100644
--- a/pymbs/processing/generator.py
+++ b/pymbs/processing/generator.py
@@ -335,7 +335,7 @@ class Generator(MbsElement):
             graph.addEquation(None,p)
 
 
-    def handleLoops(self, graph):
+    def handleLoops(self, graph, accelerations = True):
         '''
         return J and d_prime, such that
         pdd = J*qdd + d_prime
@@ -346,6 +346,8 @@ class Generator(MbsElement):
 
         loop.u: Vector of independent Positions of the Loop
         loop.v: Vector of dependent Positions of the Loops
+
+        accelerations: add equations for the dependent accelerations
         '''
 
         # are there any loops
@@ -459,7 +461,8 @@ class Generator(MbsElement):
                 wd_pick[0,i] = 1
                 graph.addEquation(loop.vd[i], (wd_pick*Bwu_loc*symbolics.Matrix(loop.ud))[0])
                 tmp = (wd_pick*(Bwu_loc*symbolics.Matrix(loop.udd)+b_prime_loc))
-                graph.addEquation(loop.vdd[i], tmp[0])
+                if accelerations:
+                    graph.addEquation(loop.vdd[i], tmp[0])
 
             # Assemble J
             Jpq = jacobian(qa_mat, qe_mat)
diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 9eecd6a..f6bdded 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -1043,11 +1043,8 @@ class Generator_OrderN(Generator):
                 HR = jacobian(Matrix(self.u), self.q)
                 HL = jacobian(Matrix(self.w), self.q)
 
-                # Temporarily set self.kinematicsOnly = True, so that no acceleration data is written
-                tmp = self.kinematicsOnly
-                self.kinematicsOnly = True
-                J, d = self.handleLoops(graph)
-                self.kinematicsOnly = tmp
+                # All accelerations are written below
+                J, d = self.handleLoops(graph, accelerations=False)
 
                 # Transform J and d
                 J = graph.addEquation( 'int_J', HL*(J*HR-eye(n)) )
-- 
2.43.0


From 9dbd8dbb29cfb1161cb967dd692c4b89dc49315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 54/78] fix: accelerations of constrained bodies in
 Generator_OrderN are turned into their frame

---
 pymbs/processing/generator_order_n.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index f6bdded..2dae6bd 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -253,7 +253,7 @@ class Generator_OrderN(Generator):
                         body._omegad_C = graph.addEquation(omegad_C%bName, body._R*parentBody._omegad_C + body._K_om_tilde*joint.Phi*joint.qd, shape=(3,)) # (19, Recursive Paper)
                         omegad_C_tilde_b = graph.addEquation(omegad_C_tilde%bName, skew(body._omegad_C), shape=(3,3))
                         body._beta_C = graph.addEquation(beta_C%bName, body._beta_star + omegad_C_tilde_b, shape=(3,3)) # (20, Recursive Paper)
-                        body._alpha_C = graph.addEquation(alpha_C%bName, body._R*parentBody._alpha_C + parentBody._beta_C*p_z_p_b + 2*body._K_om_tilde*joint.Psi*joint.qd, shape=(3,)) # (21, Recursive Paper)
+                        body._alpha_C = graph.addEquation(alpha_C%bName, body._R*(parentBody._alpha_C + parentBody._beta_C*p_z_p_b) + 2*body._K_om_tilde*joint.Psi*joint.qd, shape=(3,)) # (21, Recursive Paper)
 
                         # we will need Phi and Psi written w.r.t. the inertial frame
                         joint._I_Psi = graph.addEquation('int_%s_I_Psi'%joint.name, T_cs*joint.Psi)
@@ -330,7 +330,7 @@ class Generator_OrderN(Generator):
                         body._omegad_C = graph.addEquation(omegad_C%bName, body._R*parentBody._omegad_C + body._K_om_tilde*joint.Phi*joint.qd, shape=(3,)) # (19, Recursive Paper)
                         omegad_C_tilde_b = graph.addEquation(omegad_C_tilde%bName, skew(body._omegad_C), shape=(3,3))
                         body._beta_C = graph.addEquation(beta_C%bName, body._beta_star + omegad_C_tilde_b, shape=(3,3)) # (20, Recursive Paper)
-                        body._alpha_C = graph.addEquation(alpha_C%bName, body._R*parentBody._alpha_C + parentBody._beta_C*p_z_p_b + 2*body._K_om_tilde*joint.Psi*joint.qd, shape=(3,)) # (21, Recursive Paper)
+                        body._alpha_C = graph.addEquation(alpha_C%bName, body._R*(parentBody._alpha_C + parentBody._beta_C*p_z_p_b) + 2*body._K_om_tilde*joint.Psi*joint.qd, shape=(3,)) # (21, Recursive Paper)
 
                         # we will need Phi and Psi written w.r.t. the inertial frame
                         joint._I_Psi = graph.addEquation('int_%s_I_Psi'%joint.name, T_cs*joint.Psi)
-- 
2.43.0


From b90b9e1a41964c8941c80933c9591071566084b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 55/78] fix: accelerations with loops or constraints in
 Generator_OrderN include the constraint forces

---
 pymbs/processing/generator_order_n.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 2dae6bd..7253762 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -995,8 +995,9 @@ class Generator_OrderN(Generator):
                     qdd[i] = graph.addEquation(qdd_i, (1/b._rho)*(transpose(b._e)*b._d_hat + b._Q - transpose(b._e)*b._J_hat*(b._a_star + b._RR*p._a) ) )   # (26)
 
             b._a = graph.addEquation(A%b.name, b._RR*p._a + b._a_star + b._e*qdd[i]) # (22)
-            graph.addEquation(b.K_al, b._a[0:3])
-            graph.addEquation(b.I_a, b.I_R*b._a[3:6] + self.g)
+            if (not self.hasKinematicLoops):
+                graph.addEquation(b.K_al, b._a[0:3])
+                graph.addEquation(b.I_a, b.I_R*b._a[3:6] + self.g)
 
             if isinstance(b,FlexibleBody):
                 # calculate the flexible accelerations
@@ -1061,6 +1062,11 @@ class Generator_OrderN(Generator):
 
             # Adjust Accelerations
             qdd = graph.addEquation('int_qdd', qdd_star + Gamma_sym*gamma_sol)
+            for j in joints:
+                b = j.body
+                a = graph.addEquation(A%b.name + '_constr', b._a + b._a_gamma*gamma_sol, shape=(6,))
+                graph.addEquation(b.K_al, a[0:3])
+                graph.addEquation(b.I_a, b.I_R*a[3:6] + self.g)
 
             # in case of loops, extract only the independent qdd
             if (len(self.w) > 0):
-- 
2.43.0


From 15a98ae6521d60c4ac318e34a63f1788cf3bb9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 56/78] fix: velocity and bias of constraints in
 Generator_OrderN for every frame

---
 pymbs/processing/generator_order_n.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 7253762..5d20e6d 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -1158,24 +1158,22 @@ class Generator_OrderN(Generator):
         bName = body.name
         bcsName = bName + "_" + csName
         joint = body.joint
-        if (joint is None):
-            return 0, 0
 
         G = sym.Matrix( (6,n) )
         Gdqd = sym.Matrix( (6,) )
 
+        # the world does not move, but carries the acceleration of gravity
+        if (joint is None):
+            Gdqd[3:6] = transpose(csref.I_R)*body._alpha_C
+            return G, Gdqd
+
         parentBody = joint.coordSys.parentBody
-        pName = parentBody.name
 
-        if (cs == csref):
-            R_rel = cs.R
-        else:
-            R_rel = transpose(csref.I_R)*cs.I_R*cs.R     # to csref from cs
+        # to csref from body
+        R_rel = transpose(csref.I_R)*body.I_R
 
-        R = cs.R*body._R    # to cs from parentBody
-        p_z_p_b = graph.addEquation(p_z%(pName,bcsName), joint.coordSys.p+joint.coordSys.R*joint.Psi*joint.q+transpose(body._R)*cs.p, shape=(3,))    # w.r.t. parentBody
         # both _alpha_c and _omegad_C are w.r.t. csref
-        _alpha_C = graph.addEquation(alpha_C%bcsName, R_rel*( body._R*(parentBody._alpha_C + parentBody._beta_C*p_z_p_b) + 2*body._K_om_tilde*joint.Psi*joint.qd ), shape=(3,)) # (21, Recursive Paper)
+        _alpha_C = graph.addEquation(alpha_C%bcsName, R_rel*(body._alpha_C + body._beta_C*cs.p), shape=(3,)) # (21, Recursive Paper)
         _omegad_C = graph.addEquation(omegad_C%bcsName, R_rel*body._omegad_C, shape=(3,)) # (19, Recursive Paper)
 
         # w.r.t. csref
-- 
2.43.0


From 5cf4da66ef48ecb547c2ed747f52a1f2ddf902e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 57/78] fix: Generator_OrderN supports several constraints

---
 pymbs/processing/generator_order_n.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index 5d20e6d..cfed512 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -1140,9 +1140,9 @@ class Generator_OrderN(Generator):
                     Gdqd[row] = Gpdqd[i] - Gcdqd[i]
                     row = row + 1
 
-            # add them to the graph
-            G = graph.addEquation('int_J', G)
-            Gdqd = graph.addEquation('int_Jdqd', Gdqd)
+        # add them to the graph
+        G = graph.addEquation('int_J', G)
+        Gdqd = graph.addEquation('int_Jdqd', Gdqd)
 
         return (G, Gdqd)
 
-- 
2.43.0


From 2944e686aed48aca7397d333ec9cb06678b74be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 58/78] fix: shape of the product of a column matrix and a
 transposed vector

---
 symbolics/Shape.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symbolics/Shape.cpp b/symbolics/Shape.cpp
index 90ccdcf..1215821 100644
--- a/symbolics/Shape.cpp
+++ b/symbolics/Shape.cpp
@@ -181,6 +181,9 @@ Shape& Shape::operator*= ( Shape const& rhs)
     // Matrix * Matrix
     m_ndim = min(getNrDimensions(), rhs.getNrDimensions());
     m_dim2 = rhs.getDimension(2);
+    // several rows and columns (e.g. column matrix * transposed vector)
+    if ((m_dim1 > 1) && (m_dim2 > 1))
+        m_ndim = 2;
     m_numElem = m_dim1*m_dim2;    
     
 
-- 
2.43.0


From 44a4310635fe731b73642ab726b4d50c1a23f342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:06 +0000
Subject: [PATCH 59/78] fix: a frame may be used in several constraints in
 Generator_OrderN

---
 pymbs/processing/generator_order_n.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymbs/processing/generator_order_n.py b/pymbs/processing/generator_order_n.py
index cfed512..247d956 100644
--- a/pymbs/processing/generator_order_n.py
+++ b/pymbs/processing/generator_order_n.py
@@ -1127,10 +1127,10 @@ class Generator_OrderN(Generator):
 
             # G*qdd + Gdqd = 0 (constraints on acceleration level w.r.t. to c.parent frame)
             # get first (parent) cs (w.r.t. c.parent frame)
-            Gp, Gpdqd = self.getG(graph, n, c.parent, c.parent)
+            Gp, Gpdqd = self.getG(graph, n, c.parent, c.parent, c.name)
 
             # get second (child) cs (w.r.t. c.parent frame)
-            Gc, Gcdqd = self.getG(graph, n, c.child, c.parent)
+            Gc, Gcdqd = self.getG(graph, n, c.child, c.parent, c.name)
 
             # take the difference and pick elements
             for i in range(len(lock)):
@@ -1148,12 +1148,12 @@ class Generator_OrderN(Generator):
 
 
 
-    def getG(self, graph, n, cs, csref):
+    def getG(self, graph, n, cs, csref, name):
         '''
         Return G for a specific coordinate system
         '''
 
-        csName = cs.name
+        csName = cs.name + "_" + name
         body = cs.parentBody
         bName = body.name
         bcsName = bName + "_" + csName
-- 
2.43.0


From dca59b5430b675eb69d00b48cdd75a1c6efebb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:15 +0000
Subject: [PATCH 60/78] fix: matrices as default value of addParam

---
 pymbs/input/mbs_system.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 30b3000..5450301 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -774,19 +774,20 @@ class MbsSystem(Body):
         # End of <if isinstance(defaultValue, (list, tuple)):>
 
         if isinstance(defaultValue, symbolics.Matrix):
-            nr, nc = defaultValue.shape
+            shape = tuple(defaultValue.shape())
+            nr, nc = (shape + (1,))[:2]
 
-            if defaultValue.shape == (3,3):
+            if (nr, nc) == (3,3):
                 suffixes=["xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"]
-            elif defaultValue.shape == (3,1):
+            elif (nr, nc) == (3,1):
                 suffixes=["x", "y", "z"]
             else:
                 # create the crossproduct of the two index-sets:
                 suffixes=["__%d_%d" % (a,b) for a in range(nr) for b in range(nc)]
 
 
-            p = symbolics.zeros((nr,nc))
-            defaultValueList = defaultValue[:]# matrix to list
+            p = symbolics.zeros(shape)
+            defaultValueList = [defaultValue[k] for k in range(nr*nc)]# matrix to list
             for v, suffix, idx in zip(defaultValueList,
                                          suffixes, list(range(nr*nc))):
 
@@ -795,7 +796,7 @@ class MbsSystem(Body):
 
                 # create scalar Parameters for each component
                 # (the matrix p can still be accessed by a single index)
-                p[idx]=self.self.addParam(name=partName, symbol_str=partSymbolString, defaultValue=v)
+                p[idx]=self.addParam(name=partName, symbol_str=partSymbolString, defaultValue=v)
 
             # return the 3x3 matrix
             return p
-- 
2.43.0


From 19199f9bb09ef33634d70ed85b6811ac02cfe587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:15 +0000
Subject: [PATCH 61/78] fix: addJoint does not change the list of degrees of
 freedom of the caller

---
 pymbs/input/mbs_system.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymbs/input/mbs_system.py b/pymbs/input/mbs_system.py
index 5450301..3b9e871 100644
--- a/pymbs/input/mbs_system.py
+++ b/pymbs/input/mbs_system.py
@@ -372,6 +372,7 @@ class MbsSystem(Body):
         if (dofList is None):
             dofList = []
         assert isinstance(dofList, list)
+        dofList = dofList[:]
         assert 0 <= len(dofList) <=6
 
         if startVals is None:
-- 
2.43.0


From 6f0939c85c5a3660afccb475f812e135da650f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:15 +0000
Subject: [PATCH 62/78] fix: mass properties of bodies connected by fixed
 joints

---
 pymbs/input/transformation.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pymbs/input/transformation.py b/pymbs/input/transformation.py
index d3d859f..887be2d 100644
--- a/pymbs/input/transformation.py
+++ b/pymbs/input/transformation.py
@@ -658,12 +658,6 @@ def redefineCS(cs, body, p, R):
     # still point to the old coordinate system
     cs.parent = body
 
-    # change cg if it is a body (which was connected to a fixed joint)
-    # TODO: Check that
-    if (cs.__class__ is iBody):
-        cs.cg = R*cs.cg + cs.p
-        cs.inertia = transpose(R)*cs.inertia*R
-
 
 def updateChildCS(new_Body, p_bif, R_bif):
     """
@@ -704,8 +698,8 @@ def applyFixedJoints(iBody, stage):
 
 
                 # 4. Update Information of Child and Child's Body
-                body.p = -child.p
                 body.R = transpose(child.R)
+                body.p = -(body.R*child.p)
                 body.children.remove(child)
                 body.coordList.remove(child)
                 body.oldName = body.name
@@ -734,11 +728,18 @@ def applyFixedJoints(iBody, stage):
                 # Remove Child Body from List
                 del iBody.bodyDict[child.oldName]
 
+                # Properties of Child with respect to Parent
+                child_cg = child.p + child.R*child.cg
+                child_inertia = child.R*child.inertia*transpose(child.R)
+
                 # Calculate new Properties of Combined Body
                 m = parent.mass + child.mass;
-                cg = (parent.mass*parent.cg + child.mass*child.cg) / m;
-                # Inertia
-                inertia = parent.inertia + child.inertia + child.mass*transpose(skew(child.cg))*skew(child.cg)
+                cg = (parent.mass*parent.cg + child.mass*child_cg) / m;
+                # Inertia with respect to combined centre of gravity
+                r_p = parent.cg - cg
+                r_c = child_cg - cg
+                inertia = parent.inertia + parent.mass*transpose(skew(r_p))*skew(r_p) \
+                        + child_inertia + child.mass*transpose(skew(r_c))*skew(r_c)
 
                 # save new values
                 parent.mass = m
-- 
2.43.0


From c96d4610339169fa7b07234316e5cacf6260acf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:56 +0000
Subject: [PATCH 63/78] fix: substitution in Sign, Inverse, Outer and Jacobian

---
 symbolics/Factory.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/symbolics/Factory.cpp b/symbolics/Factory.cpp
index dcf17b8..3850371 100644
--- a/symbolics/Factory.cpp
+++ b/symbolics/Factory.cpp
@@ -46,6 +46,10 @@ BasicPtr Factory::newBasic( Basic_Type type,  BasicPtr &arg, Shape const& shape)
         return BasicPtr( new Atan(arg) );
     case Type_Abs:
         return BasicPtr( new Abs(arg) );
+    case Type_Sign:
+        return BasicPtr( new Sign(arg) );
+    case Type_Inverse:
+        return BasicPtr( new Inverse(arg) );
     case Type_Acos:
         return BasicPtr( new Acos(arg) );
     case Type_Asin:
@@ -88,6 +92,10 @@ BasicPtr Factory::newBasic( Basic_Type type,  BasicPtr &arg1, BasicPtr &arg2, Sh
         return BasicPtr( new Solve(arg1,arg2) );
     case Type_Atan2:
         return BasicPtr( new Atan2(arg1,arg2) );
+    case Type_Outer:
+        return BasicPtr( new Outer(arg1,arg2) );
+    case Type_Jacobian:
+        return BasicPtr( new Jacobian(arg1,arg2) );
     case Type_Less:
         return BasicPtr( new Less(arg1,arg2) );
     case Type_Greater:
@@ -140,6 +148,14 @@ BasicPtr Factory::newBasic( Basic_Type type,  BasicPtrVec &args, Shape const& sh
         return BasicPtr( new Atan2(args) );
     case Type_Abs:
         return BasicPtr( new Abs(args) );
+    case Type_Sign:
+        return BasicPtr( new Sign(args) );
+    case Type_Inverse:
+        return BasicPtr( new Inverse(args) );
+    case Type_Outer:
+        return BasicPtr( new Outer(args) );
+    case Type_Jacobian:
+        return BasicPtr( new Jacobian(args) );
     case Type_Acos:
         return BasicPtr( new Acos(args) );
     case Type_Asin:
-- 
2.43.0


From 605562176d831fe9546f533eb57d6dc62efe554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:56 +0000
Subject: [PATCH 64/78] fix: Mul::operator== compared a single scalar factor
 with the wrong operand

---
 symbolics/functions/Mul.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/functions/Mul.cpp b/symbolics/functions/Mul.cpp
index 5362fea..fe7d9c3 100644
--- a/symbolics/functions/Mul.cpp
+++ b/symbolics/functions/Mul.cpp
@@ -300,7 +300,7 @@ bool Mul::operator==(  Basic const& rhs ) const
     case 0:
         return true;
     case 1:
-        return (m_scalars[0] == mul->getArg(0));
+        return (m_scalars[0] == rhs_scalars[0]);
     case 2:
         return (((m_scalars[0] == rhs_scalars[0]) && (m_scalars[1] == rhs_scalars[1])) ||
                 ((m_scalars[0] == rhs_scalars[1]) && (m_scalars[1] == rhs_scalars[0])));
-- 
2.43.0


From 21d9e8faf52a51ebdc61cb5b7756ab62868d7208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:56 +0000
Subject: [PATCH 65/78] fix: a number equals only a zero of its own shape

---
 symbolics/Int.cpp  | 2 +-
 symbolics/Real.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolics/Int.cpp b/symbolics/Int.cpp
index 44d2004..2e539a7 100644
--- a/symbolics/Int.cpp
+++ b/symbolics/Int.cpp
@@ -79,7 +79,7 @@ bool Int::operator==(  Basic const& rhs ) const
     {
     case Type_Zero:
         {
-            if (m_shape != rhs.getShape()) return true;
+            if (m_shape != rhs.getShape()) return false;
             return m_value == 0;
         }
     case Type_Bool:
diff --git a/symbolics/Real.cpp b/symbolics/Real.cpp
index 337a7dc..1fb5e1f 100644
--- a/symbolics/Real.cpp
+++ b/symbolics/Real.cpp
@@ -65,7 +65,7 @@ bool Real::operator==(  Basic const& rhs ) const
     {
     case Type_Zero:
         {
-            if (m_shape != rhs.getShape()) return true;
+            if (m_shape != rhs.getShape()) return false;
             return m_value == 0.0;
         }
     case Type_Bool:
-- 
2.43.0


From 00b4116d6ad8e6931703fd457a5973410f52ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:56 +0000
Subject: [PATCH 66/78] fix: zeros and identities of different shapes differ

---
 symbolics/Eye.cpp        | 2 +-
 symbolics/Zero.cpp       | 2 +-
 symbolics/include/Eye.h  | 4 ++--
 symbolics/include/Zero.h | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/symbolics/Eye.cpp b/symbolics/Eye.cpp
index 86a765e..99cbfe5 100644
--- a/symbolics/Eye.cpp
+++ b/symbolics/Eye.cpp
@@ -50,7 +50,7 @@ bool Eye::operator==(  Basic const& rhs ) const
     switch (rhs.getType())
     {
     case Type_Eye: 
-        return true;
+        return m_shape == rhs.getShape();
     case Type_Int:
         {
             const Int &i = dynamic_cast<const Int&>(rhs);
diff --git a/symbolics/Zero.cpp b/symbolics/Zero.cpp
index d22e29b..9ea4b8f 100644
--- a/symbolics/Zero.cpp
+++ b/symbolics/Zero.cpp
@@ -50,7 +50,7 @@ bool Zero::operator==(  Basic const& rhs ) const
     switch (rhs.getType())
     {
     case Type_Zero: 
-        return true;
+        return m_shape == rhs.getShape();
     case Type_Bool:
         {
             const Bool &b = dynamic_cast<const Bool&>(rhs);
diff --git a/symbolics/include/Eye.h b/symbolics/include/Eye.h
index 9ccacbf..f3c2340 100644
--- a/symbolics/include/Eye.h
+++ b/symbolics/include/Eye.h
@@ -21,8 +21,8 @@ namespace Symbolics
         inline BasicPtr simplify() { return BasicPtr(this); };
 
         bool operator==(  Basic const& rhs ) const;
-        bool operator!=(  Basic const& rhs ) const { return m_type != rhs.getType(); };
-        bool operator<(Basic const& rhs) const { return m_type < rhs.getType(); };
+        bool operator!=(  Basic const& rhs ) const { return (m_type != rhs.getType()) || (m_shape != rhs.getShape()); };
+        bool operator<(Basic const& rhs) const { return (m_type == rhs.getType()) ? (m_shape < rhs.getShape()) : (m_type < rhs.getType()); };
 
         template< typename T >
         BasicPtr operator* ( T const& t) { return BasicPtr(this); };
diff --git a/symbolics/include/Zero.h b/symbolics/include/Zero.h
index 080d415..7893946 100644
--- a/symbolics/include/Zero.h
+++ b/symbolics/include/Zero.h
@@ -20,8 +20,8 @@ namespace Symbolics
         inline BasicPtr simplify() { return BasicPtr(this); };
 
         bool operator==(  Basic const& rhs ) const;
-        bool operator!=(  Basic const& rhs ) const { return m_type != rhs.getType(); };
-        bool operator<( Basic const& rhs ) const { return m_type < rhs.getType(); };
+        bool operator!=(  Basic const& rhs ) const { return (m_type != rhs.getType()) || (m_shape != rhs.getShape()); };
+        bool operator<( Basic const& rhs ) const { return (m_type == rhs.getType()) ? (m_shape < rhs.getShape()) : (m_type < rhs.getType()); };
 
         template< typename T >
         BasicPtr operator* ( T const& t) { return BasicPtr(this); };
-- 
2.43.0


From 4929f3609326e735cc30b0c6c228f1c0ca5068a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:56 +0000
Subject: [PATCH 67/78] fix: an identity matrix compared with numbers and
 matrices

---
 symbolics/Eye.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/symbolics/Eye.cpp b/symbolics/Eye.cpp
index 99cbfe5..f89bd1f 100644
--- a/symbolics/Eye.cpp
+++ b/symbolics/Eye.cpp
@@ -54,12 +54,12 @@ bool Eye::operator==(  Basic const& rhs ) const
     case Type_Int:
         {
             const Int &i = dynamic_cast<const Int&>(rhs);
-            return 0 == i.getValue();
+            return (m_shape == rhs.getShape()) && (1 == i.getValue());
         }
     case Type_Real:
         {
             const Real &r = dynamic_cast<const Real&>(rhs);
-            return 0 == r.getValue();
+            return (m_shape == rhs.getShape()) && (1 == r.getValue());
         }
     case Type_Matrix:
       {
@@ -76,13 +76,15 @@ bool Eye::operator==(  Basic const& rhs ) const
         size_t dim2 = mat.getShape().getDimension(2);
         if (dim1 != dim2)
             return false;
+        if ((m_shape.getNrDimensions() == 2) && (m_shape != mat.getShape()))
+            return false;
         for (size_t i=0; i<dim1; ++i)
           if (mat.get(i,i) != Int::getOne())
             return false;
         for (size_t i=0; i<dim1; ++i)
           for (size_t j=0; j<dim2; ++j)
             if (i!=j)
-              if (mat.get(i,i) != Int::getZero())
+              if (mat.get(i,j) != Int::getZero())
                 return false;
         return true;
       }
-- 
2.43.0


From 66bd5101768bc00e03686e04117848440259fb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:56 +0000
Subject: [PATCH 68/78] fix: functions of different names are different
 expressions

---
 symbolics/functions/Unknown.cpp       | 21 +++++++++++++++++++++
 symbolics/functions/include/Unknown.h |  4 ++++
 2 files changed, 25 insertions(+)

diff --git a/symbolics/functions/Unknown.cpp b/symbolics/functions/Unknown.cpp
index ec89660..b06c076 100644
--- a/symbolics/functions/Unknown.cpp
+++ b/symbolics/functions/Unknown.cpp
@@ -23,6 +23,27 @@ Unknown::~Unknown()
 /*****************************************************************************/
 
 
+/*****************************************************************************/
+bool Unknown::operator==( Basic const& rhs) const
+/*****************************************************************************/
+{
+    const Unknown *unknown = dynamic_cast<const Unknown*>(&rhs);
+    if (unknown == NULL) return false;
+    return (m_name == unknown->m_name) && NaryOp::operator==(rhs);
+}
+/*****************************************************************************/
+
+/*****************************************************************************/
+bool Unknown::operator<( Basic const& rhs) const
+/*****************************************************************************/
+{
+    const Unknown *unknown = dynamic_cast<const Unknown*>(&rhs);
+    if ((unknown != NULL) && (m_name != unknown->m_name))
+        return m_name < unknown->m_name;
+    return NaryOp::operator<(rhs);
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
 std::string Unknown::toString() const
 /*****************************************************************************/
diff --git a/symbolics/functions/include/Unknown.h b/symbolics/functions/include/Unknown.h
index 884d3f6..c1d4cb0 100644
--- a/symbolics/functions/include/Unknown.h
+++ b/symbolics/functions/include/Unknown.h
@@ -16,6 +16,10 @@ namespace Symbolics
         // Name
         inline std::string getName() const  { return m_name; };
 
+        // Vergleichen
+        bool operator==( Basic const& rhs) const;
+        bool operator<( Basic const& rhs) const;
+
         // toString
         std::string toString() const;
 
-- 
2.43.0


From 87e14a8baf15b37dd95e4e4258b570c760e8d9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:56 +0000
Subject: [PATCH 69/78] fix: one order between numbers, truth values and zeros

---
 symbolics/Int.cpp        |  4 ----
 symbolics/Real.cpp       |  4 ----
 symbolics/Zero.cpp       | 19 +++++++++++++++++++
 symbolics/include/Zero.h |  2 +-
 4 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/symbolics/Int.cpp b/symbolics/Int.cpp
index 2e539a7..b816f8c 100644
--- a/symbolics/Int.cpp
+++ b/symbolics/Int.cpp
@@ -159,10 +159,6 @@ bool Int::operator<(  Basic const& rhs ) const
     // Typ pruefen
     switch (rhs.getType())
     {
-    case Type_Zero:
-        {
-            return m_value < 0;
-        }
     case Type_Bool:
         {
             const Bool &b = dynamic_cast<const Bool&>(rhs);
diff --git a/symbolics/Real.cpp b/symbolics/Real.cpp
index 1fb5e1f..6242e03 100644
--- a/symbolics/Real.cpp
+++ b/symbolics/Real.cpp
@@ -145,10 +145,6 @@ bool Real::operator<(  Basic const& rhs ) const
     // Typ pruefen
     switch (rhs.getType())
     {
-    case Type_Zero:
-        {
-            return m_value < 0.0; 
-        }
     case Type_Bool:
         {
             const Bool &b = dynamic_cast<const Bool&>(rhs);
diff --git a/symbolics/Zero.cpp b/symbolics/Zero.cpp
index 9ea4b8f..6d4554b 100644
--- a/symbolics/Zero.cpp
+++ b/symbolics/Zero.cpp
@@ -80,6 +80,25 @@ bool Zero::operator==(  Basic const& rhs ) const
 }
 /*****************************************************************************/
  
+/*****************************************************************************/
+bool Zero::operator<(  Basic const& rhs ) const
+/*****************************************************************************/
+{
+    switch (rhs.getType())
+    {
+    case Type_Zero:
+        return m_shape < rhs.getShape();
+    case Type_Bool:
+        {
+            const Bool &b = dynamic_cast<const Bool&>(rhs);
+            return false < b.getValue();
+        }
+    default:
+        return m_type < rhs.getType();
+    }
+}
+/*****************************************************************************/
+
 /*****************************************************************************/
  BasicPtr Zero::subs( ConstBasicPtr const& old_exp, BasicPtr const& new_exp)
 /*****************************************************************************/
diff --git a/symbolics/include/Zero.h b/symbolics/include/Zero.h
index 7893946..6af1487 100644
--- a/symbolics/include/Zero.h
+++ b/symbolics/include/Zero.h
@@ -21,7 +21,7 @@ namespace Symbolics
 
         bool operator==(  Basic const& rhs ) const;
         bool operator!=(  Basic const& rhs ) const { return (m_type != rhs.getType()) || (m_shape != rhs.getShape()); };
-        bool operator<( Basic const& rhs ) const { return (m_type == rhs.getType()) ? (m_shape < rhs.getShape()) : (m_type < rhs.getType()); };
+        bool operator<( Basic const& rhs ) const;
 
         template< typename T >
         BasicPtr operator* ( T const& t) { return BasicPtr(this); };
-- 
2.43.0


From 0d24e149bca44ac4c9e11e99b8ec17db4a278034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:00 +0000
Subject: [PATCH 70/78] fix: the order of expression pointers compared a real
 number with an integer the wrong way round and was cyclic for Zero, Eye and
 negative numbers

---
 symbolics/functions/Operators.cpp | 27 +--------------------------
 1 file changed, 1 insertion(+), 26 deletions(-)

diff --git a/symbolics/functions/Operators.cpp b/symbolics/functions/Operators.cpp
index 795c072..9666039 100644
--- a/symbolics/functions/Operators.cpp
+++ b/symbolics/functions/Operators.cpp
@@ -18,31 +18,6 @@ bool Symbolics::operator<(BasicPtr const& lhs, BasicPtr  const& rhs)
 {
     // zuerst den Typ vergleichen
     // Ausnamen fuer Zero
-    if ((lhs->getType() == Type_Zero) &&
-        (rhs->getType() == Type_Real))
-    {
-        const Real *cd = Util::getAsConstPtr<Real>(rhs);
-        return 0.0 < cd->getValue();
-    }
-    if ((lhs->getType() == Type_Real) &&
-        (rhs->getType() == Type_Zero))
-    {
-        const Real *cd = Util::getAsConstPtr<Real>(lhs);
-        return cd->getValue() < 0.0;
-    }
-    if ((lhs->getType() == Type_Zero) &&
-        (rhs->getType() == Type_Int))
-    {
-        const Int *ci = Util::getAsConstPtr<Int>(rhs);
-        return 0 < ci->getValue();
-    }
-    if ((lhs->getType() == Type_Int) &&
-        (rhs->getType() == Type_Zero))
-    {
-        const Int *ci = Util::getAsConstPtr<Int>(lhs);
-        return ci->getValue() < 0;
-    }
-    // Ausnahme fuer Int==Dbl und andersherum
     if ((lhs->getType() == Type_Int) &&
         (rhs->getType() == Type_Real))
     {
@@ -55,7 +30,7 @@ bool Symbolics::operator<(BasicPtr const& lhs, BasicPtr  const& rhs)
     {
         const Real *cd = Util::getAsConstPtr<Real>(lhs);
         const Int *ci = Util::getAsConstPtr<Int>(rhs);
-        return (*ci) < (*cd);
+        return (*cd) < (*ci);
     }
     // Vergleich Type
     if (lhs->getType() != rhs->getType())
-- 
2.43.0


From fd37485d672e63ec17ab46e32fe1405179814fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:16 +0000
Subject: [PATCH 71/78] fix: a number combined with a symmetric matrix always
 raised an index error

---
 symbolics/SymmetricMatrix.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/symbolics/SymmetricMatrix.cpp b/symbolics/SymmetricMatrix.cpp
index e9053a4..54db605 100644
--- a/symbolics/SymmetricMatrix.cpp
+++ b/symbolics/SymmetricMatrix.cpp
@@ -553,7 +553,7 @@ SymmetricMatrix Symbolics::operator+ (Int const& lhs, SymmetricMatrix  const& rh
     SymmetricMatrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getShape().getNumEl(); ++i)
+    for (size_t i=0; i<rhs.getNumEl(); ++i)
         c.set(i,lhs + c(i));
     // Rueckgabe
     return c;
@@ -567,7 +567,7 @@ SymmetricMatrix Symbolics::operator+ (Real const& lhs, SymmetricMatrix  const& r
     SymmetricMatrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getShape().getNumEl(); ++i)
+    for (size_t i=0; i<rhs.getNumEl(); ++i)
         c.set(i,lhs + c(i));
     // Rueckgabe
     return c;
@@ -598,7 +598,7 @@ SymmetricMatrix Symbolics::operator- (Int const& lhs, SymmetricMatrix  const& rh
     SymmetricMatrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getShape().getNumEl(); ++i)
+    for (size_t i=0; i<rhs.getNumEl(); ++i)
         c.set(i,lhs - c(i));
     // Rueckgabe
     return c;
@@ -612,7 +612,7 @@ SymmetricMatrix Symbolics::operator- (Real const& lhs, SymmetricMatrix  const& r
     SymmetricMatrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getShape().getNumEl(); ++i)
+    for (size_t i=0; i<rhs.getNumEl(); ++i)
         c.set(i,lhs - c(i));
     // Rueckgabe
     return c;
@@ -643,7 +643,7 @@ SymmetricMatrix Symbolics::operator* (Int const& lhs, SymmetricMatrix  const& rh
     SymmetricMatrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getShape().getNumEl(); ++i)
+    for (size_t i=0; i<rhs.getNumEl(); ++i)
         c.set(i,lhs * c(i));
     // Rueckgabe
     return c;
@@ -657,7 +657,7 @@ SymmetricMatrix Symbolics::operator* (Real const& lhs, SymmetricMatrix  const& r
     SymmetricMatrix c( rhs );
     // Addition
     // Wert addieren
-    for (size_t i=0; i<rhs.getShape().getNumEl(); ++i)
+    for (size_t i=0; i<rhs.getNumEl(); ++i)
         c.set(i,lhs * c(i));
     // Rueckgabe
     return c;
-- 
2.43.0


From 678c7ac78db9212acf3b8806c558268e08a0199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:21 +0000
Subject: [PATCH 72/78] fix: an identity matrix was equal to identity matrices
 of every other size

---
 symbolics/Eye.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/symbolics/Eye.cpp b/symbolics/Eye.cpp
index f89bd1f..5d571c7 100644
--- a/symbolics/Eye.cpp
+++ b/symbolics/Eye.cpp
@@ -123,7 +123,7 @@ bool Symbolics::operator== (Eye const& lhs, BasicPtr  const& rhs)
 {
     if (rhs->getType() == Type_Eye)
     {
-        return true;
+        return lhs.getShape() == rhs->getShape();
 
     }
     if (rhs->getType() == Type_Int)
@@ -173,7 +173,7 @@ bool Symbolics::operator== (BasicPtr const& lhs, Eye  const& rhs)
 {
     if (lhs->getType() == Type_Eye)
     {
-        return true;
+        return lhs->getShape() == rhs.getShape();
 
     }
     if (lhs->getType() == Type_Int)
@@ -223,7 +223,7 @@ bool Symbolics::operator!= (Eye const& lhs, BasicPtr  const& rhs)
 {
     if (rhs->getType() == Type_Eye)
     {
-        return false;
+        return lhs.getShape() != rhs->getShape();
 
     }
     if (rhs->getType() == Type_Int)
@@ -273,7 +273,7 @@ bool Symbolics::operator!= (BasicPtr const& lhs, Eye  const& rhs)
 {
     if (lhs->getType() == Type_Eye)
     {
-        return false;
+        return lhs->getShape() != rhs.getShape();
 
     }
     if (lhs->getType() == Type_Int)
-- 
2.43.0


From 2b319f4827b49b092c945b6a70db9b8b3d27ab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:31 +0000
Subject: [PATCH 73/78] fix: numbers and matrix literals did not differ (!=)
 from expressions of another kind

---
 symbolics/Int.cpp    | 4 ++--
 symbolics/Matrix.cpp | 8 ++++++--
 symbolics/Real.cpp   | 4 ++--
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/symbolics/Int.cpp b/symbolics/Int.cpp
index b816f8c..89f09f2 100644
--- a/symbolics/Int.cpp
+++ b/symbolics/Int.cpp
@@ -327,7 +327,7 @@ bool Symbolics::operator!= (Int const& lhs, BasicPtr  const& rhs)
         return lhs.getValue() != (*crhs).getValue();
 
     }
-    return false;
+    return true;
 }
 /*****************************************************************************/
 /*****************************************************************************/
@@ -340,7 +340,7 @@ bool Symbolics::operator!= (BasicPtr const& lhs, Int  const& rhs)
         return (*clhs).getValue() != rhs.getValue();
 
     }
-    return false;
+    return true;
 }
 /*****************************************************************************/
 
diff --git a/symbolics/Matrix.cpp b/symbolics/Matrix.cpp
index 59c2906..959b22a 100644
--- a/symbolics/Matrix.cpp
+++ b/symbolics/Matrix.cpp
@@ -906,7 +906,9 @@ bool Symbolics::operator!= (Matrix const& lhs, BasicPtr  const& rhs)
         const Matrix *crhs = Util::getAsConstPtr<Matrix>(rhs);
         return lhs != (*crhs);
     }
-    return false;
+    if (lhs.getShape().getNrDimensions() == 0)
+        return lhs(0) != rhs;
+    return true;
 }
 /*****************************************************************************/
 /*****************************************************************************/
@@ -918,7 +920,9 @@ bool Symbolics::operator!= (BasicPtr const& lhs, Matrix  const& rhs)
         const Matrix *clhs = Util::getAsConstPtr<Matrix>(lhs);
         return (*clhs) != rhs;
     }
-    return false;
+    if (rhs.getShape().getNrDimensions() == 0)
+        return rhs(0) != lhs;
+    return true;
 }
 /*****************************************************************************/
 
diff --git a/symbolics/Real.cpp b/symbolics/Real.cpp
index 6242e03..ce31e4d 100644
--- a/symbolics/Real.cpp
+++ b/symbolics/Real.cpp
@@ -313,7 +313,7 @@ bool Symbolics::operator!= (Real const& lhs, BasicPtr  const& rhs)
         return lhs.getValue() != (*crhs).getValue();
 
     }
-    return false;
+    return true;
 }
 /*****************************************************************************/
 /*****************************************************************************/
@@ -326,7 +326,7 @@ bool Symbolics::operator!= (BasicPtr const& lhs, Real  const& rhs)
         return (*clhs).getValue() != rhs.getValue();
 
     }
-    return false;
+    return true;
 }
 /*****************************************************************************/
 
-- 
2.43.0


From a5fd4763520bdd1238097b02f06261001e378db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:01 +0000
Subject: [PATCH 74/78] fix: Equal of the Python module builds an Equal instead
 of a Less

---
 symbolics/wrapper/PySymbolics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/wrapper/PySymbolics.cpp b/symbolics/wrapper/PySymbolics.cpp
index 97fa665..6255ceb 100644
--- a/symbolics/wrapper/PySymbolics.cpp
+++ b/symbolics/wrapper/PySymbolics.cpp
@@ -152,7 +152,7 @@ PyMODINIT_FUNC PyInit_symbolics(void)
     if (!registerObject( &CGreaterObjectType, "Greater", m))
         return NULL;
     // CEqual
-    if (!registerObject( &CLessObjectType, "Equal", m))
+    if (!registerObject( &CEqualObjectType, "Equal", m))
         return NULL;
     // CGraph
     if (!registerObject( &CGraphObjectType, "CGraph", m))
-- 
2.43.0


From 95dce22f99189b054baef8e45a8470c08cc40b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:24 +0000
Subject: [PATCH 75/78] fix: integers beyond 32 bit keep their value when they
 enter an expression

---
 symbolics/wrapper/convert.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/symbolics/wrapper/convert.cpp b/symbolics/wrapper/convert.cpp
index 57053d2..a2dcd66 100644
--- a/symbolics/wrapper/convert.cpp
+++ b/symbolics/wrapper/convert.cpp
@@ -1,6 +1,7 @@
 #include "convert.h"
 #define _USE_MATH_DEFINES
 #include <math.h>
+#include <limits.h>
 #include <iostream>
 #include "CBasic.h"
 #include "str.h"
@@ -441,7 +442,17 @@ BasicPtr getBasic( PyObject *o )
     }
     // Type == int
     if (PyLong_Check(o))
-        return BasicPtr( new Int( PyLong_AsLong(o) ) );
+    {
+        int overflow = 0;
+        const long val = PyLong_AsLongAndOverflow(o, &overflow);
+        if ((overflow == 0) && (val >= INT_MIN) && (val <= INT_MAX))
+            return BasicPtr( new Int( static_cast<int>(val) ) );
+        // Int kann die Zahl nicht aufnehmen
+        const double real = PyLong_AsDouble(o);
+        if (PyErr_Occurred() != NULL)
+            throw InternalError("Integer is too large!");
+        return BasicPtr( new Real(real) );
+    }
     // Type == float
     if (PyFloat_Check(o))
         return BasicPtr( new Real( PyFloat_AsDouble(o) ) );
-- 
2.43.0


From beef2bd2e41ab7f0661d5e5055f63da25386d3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:42 +0000
Subject: [PATCH 76/78] fix: writeOutput rejects an unknown kind of output
 instead of using an uninitialised pointer

---
 symbolics/wrapper/CGraph.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symbolics/wrapper/CGraph.cpp b/symbolics/wrapper/CGraph.cpp
index 3ded973..877bddb 100644
--- a/symbolics/wrapper/CGraph.cpp
+++ b/symbolics/wrapper/CGraph.cpp
@@ -549,7 +549,7 @@ static PyObject* CGraph_writeOutput(CGraphObject *self, PyObject *args, PyObject
 		char *path = NULL;
 
 		double t;
-		Writer *writer;
+		Writer *writer = NULL;
 
 		// Argumente parsen
 		if (!PyArg_ParseTuple(args, "sss", &typeString, &name, &path))
@@ -580,6 +580,10 @@ static PyObject* CGraph_writeOutput(CGraphObject *self, PyObject *args, PyObject
 		if(!strcmp(typeString, "fmu"))
 			writer = new FMUWriter(keywords);
 
+		// Unbekanntes Ziel
+		if (writer == NULL)
+			throw InternalError("Unknown kind of output!");
+
 		// Code schreiben
 		t = writer->generateTarget(name, path, *(self->m_graph), true);
 		return PyFloat_FromDouble(t);
-- 
2.43.0


From dbaeee158f2d058b15204732baa860210041a64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:13 +0000
Subject: [PATCH 77/78] fix: the Python printer prints a matrix of scalar shape
 as a number

---
 symbolics/printer/PythonPrinter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symbolics/printer/PythonPrinter.cpp b/symbolics/printer/PythonPrinter.cpp
index 60375b8..b91a324 100644
--- a/symbolics/printer/PythonPrinter.cpp
+++ b/symbolics/printer/PythonPrinter.cpp
@@ -34,6 +34,8 @@ std::string PythonPrinter::print_Matrix( const Matrix *c )
 /*****************************************************************************/
 {
     if (c == NULL) throw InternalError("PythonPrinter: Matrix is NULL");
+    if (c->is_Scalar())
+        return print((*c)(0));
     return "matrix(" + Printer::print_Matrix(c, ',', ',',
                                                 '[', ']',
                                                 '[', ']' ) + ", dtype=float)";
-- 
2.43.0


From e7b1550998e047b89df9e9a42cecd0388a0ddf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:00 +0000
Subject: [PATCH 78/78] fix: the sides of a block of equations are listed
 element by element

---
 symbolics/wrapper/CAssignment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolics/wrapper/CAssignment.cpp b/symbolics/wrapper/CAssignment.cpp
index 11094e4..3926c03 100644
--- a/symbolics/wrapper/CAssignment.cpp
+++ b/symbolics/wrapper/CAssignment.cpp
@@ -140,7 +140,7 @@ static PyObject* returnBasicPtrVec(Symbolics::BasicPtrVec &basicVec)
 		for (size_t i=0;i<basicVec.size();i++)
 		{
 			CBasicObject* basic = new CBasicObject();
-			basic->m_basic = basicVec[0];
+			basic->m_basic = basicVec[i];
 			PyObject *obj = PyObject_Init( basic, &CBasicObjectType );
 			PyList_SetItem(pylist,i,obj);
 		}
-- 
2.43.0

