From e09e6537caecb7265c3e9c2e9f865c9d54f01997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:34 +0000
Subject: [PATCH 01/62] fix: fill at ordinals loops over the ordinals, not over
 the whole output

---
 src/BLAS1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BLAS1.hpp b/src/BLAS1.hpp
index b77afa6..327bcdc 100644
--- a/src/BLAS1.hpp
+++ b/src/BLAS1.hpp
@@ -156,7 +156,7 @@ inline void fill(const Plato::Scalar & aMultiplier,
         THROWERR(tMsg.str().c_str())
     }
 
-    const Plato::OrdinalType tNumLocalVals = aOutput.size();
+    const Plato::OrdinalType tNumLocalVals = aOrdinals.size();
     Kokkos::parallel_for(Kokkos::RangePolicy<>(0, tNumLocalVals), LAMBDA_EXPRESSION(const Plato::OrdinalType & aIndex)
     {
         aOutput(aOrdinals(aIndex)) = aMultiplier * aValues(aIndex);
-- 
2.43.0


From b97611411a6ca0ecc56f77e36b5fa8026beaca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:50 +0000
Subject: [PATCH 02/62] fix: eliminate constrained dofs from the free equations
 with the column entry, so nonsymmetric systems are right

---
 src/ApplyConstraints.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/ApplyConstraints.hpp b/src/ApplyConstraints.hpp
index a33dcfb..28fce8a 100644
--- a/src/ApplyConstraints.hpp
+++ b/src/ApplyConstraints.hpp
@@ -47,9 +47,6 @@ template<int NumDofPerNode>
                 }
                 else
                 {
-                    // correct the rhs to account for the fact that we'll be zeroing out (col,row) as well
-                    // to maintain symmetry
-                    Kokkos::atomic_add(&aRhs(tColumnDofOrdinal), -tMatrixEntries(tEntryOrdinal)*tValue);
                     tMatrixEntries(tEntryOrdinal) = 0.0;
                     OrdinalType tColRowStart = tRowMap(tColumnNodeOrdinal  );
                     OrdinalType tColRowEnd   = tRowMap(tColumnNodeOrdinal+1);
@@ -61,7 +58,9 @@ template<int NumDofPerNode>
                         auto tColRowDofOrdinal = NumDofPerNode*tColRowNodeOrdinal+tLocalRowDofOrdinal;
                         if (tColRowDofOrdinal == tRowDofOrdinal)
                         {
-                            // this is the (col, row) entry -- clear it, too
+                            // this is the (col, row) entry -- correct the rhs to account for it and clear it, too,
+                            // to maintain symmetry
+                            Kokkos::atomic_add(&aRhs(tColumnDofOrdinal), -tMatrixEntries(tColRowEntryOrdinal)*tValue);
                             tMatrixEntries(tColRowEntryOrdinal) = 0.0;
                         }
                     }
@@ -114,9 +113,6 @@ applyConstraints(
       }
       else
       {
-        // correct the rhs to account for the fact that we'll be zeroing out (col,row) as well
-        // to maintain symmetry
-        Kokkos::atomic_add(&rhs(column), -matrixEntries(entryOrdinal)*value);
         matrixEntries(entryOrdinal) = 0.0;
         OrdinalType colRowStart = rowMap(column  );
         OrdinalType colRowEnd   = rowMap(column+1);
@@ -125,7 +121,9 @@ applyConstraints(
           OrdinalType colRowColumn = columnIndices(colRowEntryOrdinal);
           if (colRowColumn == nodeNumber)
           {
-            // this is the (col, row) entry -- clear it, too
+            // this is the (col, row) entry -- correct the rhs to account for it and clear it, too,
+            // to maintain symmetry
+            Kokkos::atomic_add(&rhs(column), -matrixEntries(colRowEntryOrdinal)*value);
             matrixEntries(colRowEntryOrdinal) = 0.0;
           }
         }
-- 
2.43.0


From 6739ba405992a904f23946b0fcde387c3eea2974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:56 +0000
Subject: [PATCH 03/62] fix: the comma of pow(a,b) binds looser than any
 operator, so compound arguments are whole arguments

---
 src/ExpressionEvaluator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index 983b20b..88175d4 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -717,7 +717,7 @@ void ExpressionEvaluator::parse_expression( const char* expression )
     else if( c == ',' ) {
       if( twoParamFunctionIDs.size() )
       {
-        node.ID = twoParamFunctionIDs.back();  node.precedence = 5;  info = LeftAssociative;
+        node.ID = twoParamFunctionIDs.back();  node.precedence = 1;  info = LeftAssociative;
         twoParamFunctionIDs.pop_back();
         twoParamFunctionLocations.pop_back();
       }
-- 
2.43.0


From c88d316a456b0c31e766ece8a1505bd6d717c869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:56 +0000
Subject: [PATCH 04/62] fix: match function names without reading past the end
 of the expression

---
 src/ExpressionEvaluator.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index 88175d4..7e63772 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -13,6 +13,7 @@
 #include "PlatoTypes.hpp"
 
 #include <cmath>
+#include <cstring>
 #include <sstream>
 #include <vector>
 
@@ -672,32 +673,32 @@ void ExpressionEvaluator::parse_expression( const char* expression )
     }
 
     // Functions
-    else if( 0 == memcmp(expPtr-1, "sin" , 3) ) {
+    else if( 0 == strncmp(expPtr-1, "sin" , 3) ) {
       expPtr += 3-1;
       node.ID = SIN;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "cos" , 3) ) {
+    else if( 0 == strncmp(expPtr-1, "cos" , 3) ) {
       expPtr += 3-1;
       node.ID = COS;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "tan" , 3) ) {
+    else if( 0 == strncmp(expPtr-1, "tan" , 3) ) {
       expPtr += 3-1;
       node.ID = TAN;  node.precedence = 7;  info = LeftAssociative;
     }
 
-    else if( 0 == memcmp(expPtr-1, "exp" , 3) ) {
+    else if( 0 == strncmp(expPtr-1, "exp" , 3) ) {
       expPtr += 3-1;
       node.ID = EXPONENTIAL;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "log" , 3) ) {
+    else if( 0 == strncmp(expPtr-1, "log" , 3) ) {
       expPtr += 3-1;
       node.ID = LOG;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "sqrt", 3) ) {
+    else if( 0 == strncmp(expPtr-1, "sqrt", 4) ) {
       expPtr += 4-1;
       node.ID = SQRT;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "abs" , 3) ) {
+    else if( 0 == strncmp(expPtr-1, "abs" , 3) ) {
       expPtr += 3-1;
       node.ID = ABS;  node.precedence = 7;  info = LeftAssociative;
     }
@@ -705,7 +706,7 @@ void ExpressionEvaluator::parse_expression( const char* expression )
     // For two argument functions push the function on to the next ID
     // stack. But do not create a node. The node will be created when
     // the corresponding comma is found.
-    else if( 0 == memcmp(expPtr-1, "pow" , 3) ) {
+    else if( 0 == strncmp(expPtr-1, "pow" , 3) ) {
       expPtr += 3-1; twoParamFunctionIDs.push_back( POWER );
       twoParamFunctionLocations.push_back( strlen(expression) - strlen(expPtr) - 1 );
 
@@ -729,7 +730,7 @@ void ExpressionEvaluator::parse_expression( const char* expression )
       }
     }
     // Fixed constant
-    else if( 0 == memcmp(expPtr-1, "PI"  , 2) ) {
+    else if( 0 == strncmp(expPtr-1, "PI"  , 2) ) {
       expPtr += 2-1;
       node.ID = NUMBER;  node.precedence = 7;  info = LeftAssociative;
       node.number = M_PI;
-- 
2.43.0


From 3853381135a1d8350fe999b75c40275ee92c1140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:56 +0000
Subject: [PATCH 05/62] fix: factorials above 20! no longer overflow an integer

---
 src/ExpressionEvaluator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index 7e63772..5f4b99d 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -304,12 +304,13 @@ ExpressionEvaluator::validate_expression() const
 // Helper factorial function
 double ExpressionEvaluator::factorial( double n ) const
 {
-  long ans = 1, m = (long) n;
+  double ans = 1;
+  long m = (long) n;
 
   for( long i=1; i<=m; ++i )
     ans *= i;
 
-  return (double) ans;
+  return ans;
 }
 
 // ************************************************************************* //
-- 
2.43.0


From e5ca04af550e09986515bf239f536095e1d2c86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:09 +0000
Subject: [PATCH 06/62] fix: a malformed number in an expression is an error,
 not its leading part

---
 src/ExpressionEvaluator.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index 5f4b99d..9de9cf6 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -13,6 +13,7 @@
 #include "PlatoTypes.hpp"
 
 #include <cmath>
+#include <cstdlib>
 #include <cstring>
 #include <sstream>
 #include <vector>
@@ -795,7 +796,16 @@ void ExpressionEvaluator::parse_expression( const char* expression )
 
       // Get the actual number from the string.
       number[i] = '\0';
-      sscanf(number, "%lf", &node.number);
+      char* numberEnd = nullptr;
+      node.number = strtod(number, &numberEnd);
+
+      if( *numberEnd != '\0' )
+      {
+        errorMsg << "Invalid expression: "
+                 << "Malformed number '" << number << "'.";
+        break;
+      }
+
       node.ID = NUMBER;  node.precedence = 7;  info = LeftAssociative;
     }
 
-- 
2.43.0


From 717d791a4baa8f44835194e83d8990b92d442239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:34 +0000
Subject: [PATCH 07/62] fix: an over-long name or number stops the parse, so
 its error report stays inside the expression

---
 src/ExpressionEvaluator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index 9de9cf6..c650204 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -856,6 +856,10 @@ void ExpressionEvaluator::parse_expression( const char* expression )
       break;
     }
 
+    // A number or variable that is too long has been reported, stop here.
+    if( errorMsg.str().size() )
+      break;
+
     // Special case for a close parenthesis followed by an open
     // parenthesis with no operand between. Which implies a multiply.
     if( node.ID == OPEN_PARENTHESIS && previous.ID == CLOSE_PARENTHESIS)
-- 
2.43.0


From b1b9a4652c2a1255c399fd01913597c4d6246a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:38 +0000
Subject: [PATCH 08/62] fix: penalty models take defaults for missing
 parameters and store the regularization length in its own place

---
 src/Heaviside.hpp | 22 +++++++++++++++++-----
 src/Ramp.hpp      | 15 ++++++++++++---
 src/Simp.hpp      | 15 ++++++++++++---
 3 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/Heaviside.hpp b/src/Heaviside.hpp
index 4aad7d5..8f69853 100644
--- a/src/Heaviside.hpp
+++ b/src/Heaviside.hpp
@@ -78,28 +78,40 @@ public:
         {
             mPenaltyParam = 1.0; // default value
         }
-        mPenaltyParam = tParamMapIterator->second;
+        else
+        {
+            mPenaltyParam = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Minimum Value");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1e-9; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Regularization Length");
         if(tParamMapIterator == aInputs.end())
         {
-            mMinValue = 1.0; // default value
+            mRegLength = 1.0; // default value
+        }
+        else
+        {
+            mRegLength = tParamMapIterator->second;
         }
-        mMinValue = tParamMapIterator->second;
 
         tParamMapIterator = aInputs.find("Additive Continuation");
         if(tParamMapIterator == aInputs.end())
         {
             mAdditiveContinuationValue = 0.1; // default value
         }
-        mAdditiveContinuationValue = tParamMapIterator->second;
+        else
+        {
+            mAdditiveContinuationValue = tParamMapIterator->second;
+        }
     }
 
     /******************************************************************************//**
diff --git a/src/Ramp.hpp b/src/Ramp.hpp
index 6d593b6..1ef9078 100644
--- a/src/Ramp.hpp
+++ b/src/Ramp.hpp
@@ -69,21 +69,30 @@ public:
         {
             mPenaltyParam = 3.0; // default value
         }
-        mPenaltyParam = tParamMapIterator->second;
+        else
+        {
+            mPenaltyParam = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Minimum Value");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1e-9; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
         if(tParamMapIterator == aInputs.end())
         {
             mAdditiveContinuationValue = 0.1; // default value
         }
-        mAdditiveContinuationValue = tParamMapIterator->second;
+        else
+        {
+            mAdditiveContinuationValue = tParamMapIterator->second;
+        }
     }
 
     /******************************************************************************//**
diff --git a/src/Simp.hpp b/src/Simp.hpp
index afdd661..23d46c9 100644
--- a/src/Simp.hpp
+++ b/src/Simp.hpp
@@ -77,21 +77,30 @@ public:
         {
             mPenaltyParam = 3.0; // default value
         }
-        mPenaltyParam = tParamMapIterator->second;
+        else
+        {
+            mPenaltyParam = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Minimum Value");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1e-9; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
         if(tParamMapIterator == aInputs.end())
         {
             mAdditiveContinuationValue = 0.1; // default value
         }
-        mAdditiveContinuationValue = tParamMapIterator->second;
+        else
+        {
+            mAdditiveContinuationValue = tParamMapIterator->second;
+        }
     }
 
     /******************************************************************************//**
-- 
2.43.0


From 639f6332e41ec6dda102f44e68880379dbda36f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:42 +0000
Subject: [PATCH 09/62] fix: SIMP evaluates its expression before the
 temporaries it refers to go away

---
 src/Simp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Simp.hpp b/src/Simp.hpp
index 23d46c9..75054ea 100644
--- a/src/Simp.hpp
+++ b/src/Simp.hpp
@@ -138,7 +138,7 @@ public:
     template<typename ScalarType>
     DEVICE_TYPE inline ScalarType operator()( const ScalarType & aInput ) const
     {
-        auto tOutput = mMinValue + ( (static_cast<ScalarType>(1.0) - mMinValue) * pow(aInput, mPenaltyParam) );
+        ScalarType tOutput = mMinValue + ( (static_cast<ScalarType>(1.0) - mMinValue) * pow(aInput, mPenaltyParam) );
         return tOutput;
     }
 };
-- 
2.43.0


From 2ab47bd3ef9fdc6732fba2da7d7e10bb958f88cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:50 +0000
Subject: [PATCH 10/62] fix: the 1D temperature dependent stiffness divides by
 (1+v)(1-2v) like the constant one

---
 src/IsotropicStiffness.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/IsotropicStiffness.cpp b/src/IsotropicStiffness.cpp
index 6bdad7d..aaaf5b7 100644
--- a/src/IsotropicStiffness.cpp
+++ b/src/IsotropicStiffness.cpp
@@ -14,9 +14,9 @@ namespace Plato {
       T E1 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c1", 0.0);
       T E2 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c2", 0.0);
 
-      c0[0][0] = E0*((1.0+v)*(1.0-2.0*v))*(1.0-v);
-      c1[0][0] = E1*((1.0+v)*(1.0-2.0*v))*(1.0-v);
-      c2[0][0] = E2*((1.0+v)*(1.0-2.0*v))*(1.0-v);
+      c0[0][0] = E0/((1.0+v)*(1.0-2.0*v))*(1.0-v);
+      c1[0][0] = E1/((1.0+v)*(1.0-2.0*v))*(1.0-v);
+      c2[0][0] = E2/((1.0+v)*(1.0-2.0*v))*(1.0-v);
   }
 
   template<>
-- 
2.43.0


From 7eeaf7bda1bee1f7e5169fe5e0deb2ab8f484403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:50 +0000
Subject: [PATCH 11/62] fix: anisotropic thermoelastic stiffness is read from
 the Elastic Stiffness list itself

---
 src/ThermoelasticMaterial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThermoelasticMaterial.hpp b/src/ThermoelasticMaterial.hpp
index e797a1d..ce259b0 100644
--- a/src/ThermoelasticMaterial.hpp
+++ b/src/ThermoelasticMaterial.hpp
@@ -54,7 +54,7 @@ namespace Plato {
       }
       else
       {
-          this->parseRank4Voigt("Elastic Stiffness", tParams);
+          this->parseRank4Voigt("Elastic Stiffness", paramList);
       }
   }
 
-- 
2.43.0


From 057f8708775c1f199db29ca30e70d71533365d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:09 +0000
Subject: [PATCH 12/62] fix: the elastic stiffness of a thermoelastic material
 follows the model's temperature dependence instead of silently being zero

---
 src/ThermoelasticMaterial.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ThermoelasticMaterial.hpp b/src/ThermoelasticMaterial.hpp
index ce259b0..133c961 100644
--- a/src/ThermoelasticMaterial.hpp
+++ b/src/ThermoelasticMaterial.hpp
@@ -45,12 +45,26 @@ namespace Plato {
       auto tParams = paramList.sublist("Elastic Stiffness");
       if (tParams.isSublist("Youngs Modulus"))
       {
+          if (this->type() == Plato::MaterialModelType::Linear)
+          {
+              THROWERR("Found a temperature dependent Youngs Modulus in a linear model. Set 'Temperature Dependent' to 'true'.");
+          }
           this->setRank4VoigtFunctor("Elastic Stiffness", Plato::IsotropicStiffnessFunctor<SpatialDim>(tParams));
       }
       else
       if (tParams.isType<Plato::Scalar>("Youngs Modulus"))
       {
-          this->setRank4VoigtConstant("Elastic Stiffness", Plato::IsotropicStiffnessConstant<SpatialDim>(tParams));
+          if (this->type() == Plato::MaterialModelType::Nonlinear)
+          {
+              Teuchos::ParameterList tFunctorParams("Elastic Stiffness");
+              tFunctorParams.set<Plato::Scalar>("Poissons Ratio", Plato::ParseTools::getParam<Plato::Scalar>(tParams, "Poissons Ratio"));
+              tFunctorParams.sublist("Youngs Modulus").set<Plato::Scalar>("c0", tParams.get<Plato::Scalar>("Youngs Modulus"));
+              this->setRank4VoigtFunctor("Elastic Stiffness", Plato::IsotropicStiffnessFunctor<SpatialDim>(tFunctorParams));
+          }
+          else
+          {
+              this->setRank4VoigtConstant("Elastic Stiffness", Plato::IsotropicStiffnessConstant<SpatialDim>(tParams));
+          }
       }
       else
       {
-- 
2.43.0


From c516d5ac2f95527bf60d9e10c44172929039bdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:23 +0000
Subject: [PATCH 13/62] fix: Rayleigh damping in the frequency domain acts on
 every node of a cell, not only the first

---
 src/AdjointComplexRayleighDamping.hpp | 22 +++++++++++++++-------
 src/ComplexRayleighDamping.hpp        | 22 +++++++++++++++-------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/AdjointComplexRayleighDamping.hpp b/src/AdjointComplexRayleighDamping.hpp
index db65578..bfc3aee 100644
--- a/src/AdjointComplexRayleighDamping.hpp
+++ b/src/AdjointComplexRayleighDamping.hpp
@@ -75,15 +75,23 @@ public:
         assert(aElasticForces.extent(1) == aInertialForces.extent(1));
         assert(aDampingForces.extent(1) == aInertialForces.extent(1));
 
-        for(Plato::OrdinalType tDimIndex = 0; tDimIndex < SpaceDim; tDimIndex++)
+        // each node holds SpaceDim real dofs followed by SpaceDim imaginary dofs
+        const Plato::OrdinalType tNumDofsPerNode = static_cast<Plato::OrdinalType>(2) * SpaceDim;
+        const Plato::OrdinalType tNumNodes = aDampingForces.extent(1) / tNumDofsPerNode;
+        for(Plato::OrdinalType tNodeIndex = 0; tNodeIndex < tNumNodes; tNodeIndex++)
         {
-            aDampingForces(aCellOrdinal, tDimIndex) = static_cast<Plato::Scalar>(-1) *
-                    ( (mMassConstant * aInertialForces(aCellOrdinal, SpaceDim + tDimIndex)) +
-                            (mStiffConstant * aElasticForces(aCellOrdinal, SpaceDim + tDimIndex)) );
+            for(Plato::OrdinalType tDimIndex = 0; tDimIndex < SpaceDim; tDimIndex++)
+            {
+                const Plato::OrdinalType tRealDof = (tNodeIndex * tNumDofsPerNode) + tDimIndex;
+                const Plato::OrdinalType tImagDof = tRealDof + SpaceDim;
+                aDampingForces(aCellOrdinal, tRealDof) = static_cast<Plato::Scalar>(-1) *
+                        ( (mMassConstant * aInertialForces(aCellOrdinal, tImagDof)) +
+                                (mStiffConstant * aElasticForces(aCellOrdinal, tImagDof)) );
 
-            aDampingForces(aCellOrdinal, SpaceDim + tDimIndex) =
-                    ( (mMassConstant * aInertialForces(aCellOrdinal, tDimIndex)) +
-                            (mStiffConstant * aElasticForces(aCellOrdinal, tDimIndex)) );
+                aDampingForces(aCellOrdinal, tImagDof) =
+                        ( (mMassConstant * aInertialForces(aCellOrdinal, tRealDof)) +
+                                (mStiffConstant * aElasticForces(aCellOrdinal, tRealDof)) );
+            }
         }
     }
 };
diff --git a/src/ComplexRayleighDamping.hpp b/src/ComplexRayleighDamping.hpp
index a0bdf29..3c90aea 100644
--- a/src/ComplexRayleighDamping.hpp
+++ b/src/ComplexRayleighDamping.hpp
@@ -72,15 +72,23 @@ public:
         assert(aElasticForces.extent(1) == aInertialForces.extent(1));
         assert(aDampingForces.extent(1) == aInertialForces.extent(1));
 
-        for(Plato::OrdinalType tDimIndex = 0; tDimIndex < SpaceDim; tDimIndex++)
+        // each node holds SpaceDim real dofs followed by SpaceDim imaginary dofs
+        const Plato::OrdinalType tNumDofsPerNode = static_cast<Plato::OrdinalType>(2) * SpaceDim;
+        const Plato::OrdinalType tNumNodes = aDampingForces.extent(1) / tNumDofsPerNode;
+        for(Plato::OrdinalType tNodeIndex = 0; tNodeIndex < tNumNodes; tNodeIndex++)
         {
-            aDampingForces(aCellOrdinal, tDimIndex) = 
-                    ( (mMassConstant * aInertialForces(aCellOrdinal, SpaceDim + tDimIndex)) +
-                            (mStiffConstant * aElasticForces(aCellOrdinal, SpaceDim + tDimIndex)) );
+            for(Plato::OrdinalType tDimIndex = 0; tDimIndex < SpaceDim; tDimIndex++)
+            {
+                const Plato::OrdinalType tRealDof = (tNodeIndex * tNumDofsPerNode) + tDimIndex;
+                const Plato::OrdinalType tImagDof = tRealDof + SpaceDim;
+                aDampingForces(aCellOrdinal, tRealDof) =
+                        ( (mMassConstant * aInertialForces(aCellOrdinal, tImagDof)) +
+                                (mStiffConstant * aElasticForces(aCellOrdinal, tImagDof)) );
 
-            aDampingForces(aCellOrdinal, SpaceDim + tDimIndex) = static_cast<Plato::Scalar>(-1) *
-                    ( (mMassConstant * aInertialForces(aCellOrdinal, tDimIndex)) +
-                            (mStiffConstant * aElasticForces(aCellOrdinal, tDimIndex)) );
+                aDampingForces(aCellOrdinal, tImagDof) = static_cast<Plato::Scalar>(-1) *
+                        ( (mMassConstant * aInertialForces(aCellOrdinal, tRealDof)) +
+                                (mStiffConstant * aElasticForces(aCellOrdinal, tRealDof)) );
+            }
         }
     }
 };
-- 
2.43.0


From fee83466da1a1220a4a5def7f4637a9a76b4d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:00 +0000
Subject: [PATCH 14/62] fix: 2D principal values of a tensor with negative
 shear

---
 src/Eigenvalues.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Eigenvalues.hpp b/src/Eigenvalues.hpp
index 62a23e4..bc591be 100644
--- a/src/Eigenvalues.hpp
+++ b/src/Eigenvalues.hpp
@@ -194,7 +194,7 @@ Eigenvalues<2>::operator()(const Plato::OrdinalType & aCellOrdinal,
     ResultType tTensor11 = aVoigtTensor(aCellOrdinal, 0);
     ResultType tTensor22 = aVoigtTensor(aCellOrdinal, 1);
     ResultType tTau = tZero;
-    if (tTensor12 > tZero)
+    if (tTensor12 != tZero)
         tTau = (tTensor22 - tTensor11) / (tTwo * tTensor12);
 
     ResultType tTangent = tMinusOne / (sqrt(tOne + tTau*tTau) - tTau);
@@ -203,9 +203,9 @@ Eigenvalues<2>::operator()(const Plato::OrdinalType & aCellOrdinal,
 
     ResultType tCosine = tOne;
     ResultType tSine   = tZero;
-    if (tTensor12 > tZero)
+    if (tTensor12 != tZero)
         tCosine = tOne / sqrt(tOne + tTangent*tTangent);
-    if (tTensor12 > tZero)
+    if (tTensor12 != tZero)
         tSine   = tTangent * tCosine;
 
     aEigenvalues(aCellOrdinal, 0) = tCosine * (tTensor11*tCosine - tTensor12*tSine) -
-- 
2.43.0


From 46f5887bcc610d0495fbc5924baeb3c378f34516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:20 +0000
Subject: [PATCH 15/62] fix: the 1D von Mises stress is the magnitude of the
 stress

---
 src/VonMisesYieldFunction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VonMisesYieldFunction.hpp b/src/VonMisesYieldFunction.hpp
index 2b6d08e..54e9c07 100644
--- a/src/VonMisesYieldFunction.hpp
+++ b/src/VonMisesYieldFunction.hpp
@@ -116,7 +116,7 @@ VonMisesYieldFunction<1>::operator()(const Plato::OrdinalType & aCellOrdinal,
         const Plato::ScalarMultiVectorT<Inputype> & aCauchyStress,
         const Plato::ScalarVectorT<ResultType> & aVonMisesStress) const
 {
-    ResultType tOutput = aCauchyStress(aCellOrdinal, 0);
+    ResultType tOutput = fabs(aCauchyStress(aCellOrdinal, 0));
     aVonMisesStress(aCellOrdinal) = tOutput;
 }
 
-- 
2.43.0


From 7cf2389254ebac1ea32d25d75167f6b7228f73f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:20 +0000
Subject: [PATCH 16/62] fix: the 1D Voigt map refers to the first tensor entry

---
 src/VoigtMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VoigtMap.hpp b/src/VoigtMap.hpp
index 0fd3aa0..de52cf9 100644
--- a/src/VoigtMap.hpp
+++ b/src/VoigtMap.hpp
@@ -10,7 +10,7 @@ namespace Plato {
   struct VoigtMap<1> {
     Plato::OrdinalType I[1];
     Plato::OrdinalType J[1];
-    VoigtMap() : I{1}, J{1} {}
+    VoigtMap() : I{0}, J{0} {}
   };
   template<>
   struct VoigtMap<2> {
-- 
2.43.0


From 8fce303bcc1c4f37cc73f9b30fa0f59e8df12cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:20 +0000
Subject: [PATCH 17/62] fix: tensor norms use the exponent they were given, not
 its integer part

---
 src/TensorPNorm.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/TensorPNorm.hpp b/src/TensorPNorm.hpp
index 5b8b7e7..e9c5dad 100644
--- a/src/TensorPNorm.hpp
+++ b/src/TensorPNorm.hpp
@@ -29,7 +29,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType cellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> pnorm,
                                        Plato::ScalarMultiVectorT<TensorScalarType> voigtTensor,
-                                       Plato::OrdinalType p,
+                                       Plato::Scalar p,
                                        Plato::ScalarVectorT<VolumeScalarType> cellVolume) const
     {
 
@@ -81,7 +81,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType cellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> pnorm,
                                        Plato::ScalarMultiVectorT<TensorScalarType> voigtTensor,
-                                       Plato::OrdinalType p,
+                                       Plato::Scalar p,
                                        Plato::ScalarVectorT<VolumeScalarType> cellVolume) const
     {
 
@@ -182,7 +182,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType cellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> pnorm,
                                        Plato::ScalarMultiVectorT<TensorScalarType> voigtTensor,
-                                       Plato::OrdinalType p,
+                                       Plato::Scalar p,
                                        Plato::ScalarVectorT<VolumeScalarType> cellVolume) const
     {
         TensorScalarType s[barlatLength] = {0.0};
-- 
2.43.0


From b28c93d5dd3f53c8ba9d107b0cbdd32ed8384c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:20 +0000
Subject: [PATCH 18/62] fix: an integer Barlat Exponent can be read

---
 src/TensorPNorm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TensorPNorm.hpp b/src/TensorPNorm.hpp
index e9c5dad..4f12d27 100644
--- a/src/TensorPNorm.hpp
+++ b/src/TensorPNorm.hpp
@@ -128,7 +128,7 @@ public:
         auto p = params.sublist("Normalize").sublist("Barlat");
         if(p.isType < Plato::OrdinalType > ("Barlat Exponent"))
         {
-            mBarlatExponent = p.get<Plato::Scalar>("Barlat Exponent");
+            mBarlatExponent = p.get<Plato::OrdinalType>("Barlat Exponent");
         }
         if(p.isType<Plato::Scalar>("Reference Weight"))
         {
-- 
2.43.0


From b6212748a4f4703a52d5d33279df2cf4b2b7a84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:20 +0000
Subject: [PATCH 19/62] fix: the Barlat norm is a number where principal values
 repeat

---
 src/TensorPNorm.hpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/TensorPNorm.hpp b/src/TensorPNorm.hpp
index 4f12d27..8e10109 100644
--- a/src/TensorPNorm.hpp
+++ b/src/TensorPNorm.hpp
@@ -118,6 +118,22 @@ class BarlatNormFunctor
     Plato::Scalar mCp[barlatLength][barlatLength];
     Plato::Scalar mCpp[barlatLength][barlatLength];
 
+    // acos(q / p^(3/2)), also where roundoff takes the ratio out of [-1,1] (repeated principal values)
+    template<typename ScalarType>
+    DEVICE_TYPE inline static ScalarType angle(const ScalarType & aQ, const ScalarType & aP)
+    {
+        ScalarType tAngle = 0.0;
+        if(aP > 0.0)
+        {
+            ScalarType tRatio = aQ / pow(aP, 3.0 / 2.0);
+            if(tRatio <= -1.0)
+                tAngle = acos(-1.0);
+            else if(tRatio < 1.0)
+                tAngle = acos(tRatio);
+        }
+        return tAngle;
+    }
+
 public:
 
     BarlatNormFunctor(Teuchos::ParameterList& params) :
@@ -235,22 +251,22 @@ public:
         if(Hp1 * Hp1 + Hp2 > 0.0)
             Pp = Hp1 * Hp1 + Hp2;
         TensorScalarType Qp = (2.0 * Hp1 * Hp1 * Hp1 + 3.0 * Hp1 * Hp2 + 2.0 * Hp3) / 2.0;
-        TensorScalarType Thetap = acos(Qp / pow(Pp, 3.0 / 2.0));
+        TensorScalarType Thetap = angle(Qp, Pp);
 
         TensorScalarType Ppp = 0.0;
         if(Hpp1 * Hpp1 + Hpp2 > 0.0)
             Ppp = Hpp1 * Hpp1 + Hpp2;
         TensorScalarType Qpp = (2.0 * Hpp1 * Hpp1 * Hpp1 + 3.0 * Hpp1 * Hpp2 + 2.0 * Hpp3) / 2.0;
-        TensorScalarType Thetapp = acos(Qpp / pow(Ppp, 3.0 / 2.0));
+        TensorScalarType Thetapp = angle(Qpp, Ppp);
 
         //Apply the analytic solutions for the SVD stress deviators
-        TensorScalarType Sp1 = (Hp1 + 2.0 * sqrt(Hp1 * Hp1 + Hp2) * cos(Thetap / 3.0));
-        TensorScalarType Sp2 = (Hp1 + 2.0 * sqrt(Hp1 * Hp1 + Hp2) * cos((Thetap + 4.0 * acos(-1.0)) / 3.0));
-        TensorScalarType Sp3 = (Hp1 + 2.0 * sqrt(Hp1 * Hp1 + Hp2) * cos((Thetap + 2.0 * acos(-1.0)) / 3.0));
+        TensorScalarType Sp1 = (Hp1 + 2.0 * sqrt(Pp) * cos(Thetap / 3.0));
+        TensorScalarType Sp2 = (Hp1 + 2.0 * sqrt(Pp) * cos((Thetap + 4.0 * acos(-1.0)) / 3.0));
+        TensorScalarType Sp3 = (Hp1 + 2.0 * sqrt(Pp) * cos((Thetap + 2.0 * acos(-1.0)) / 3.0));
 
-        TensorScalarType Spp1 = (Hpp1 + 2.0 * sqrt(Hpp1 * Hpp1 + Hpp2) * cos(Thetapp / 3.0));
-        TensorScalarType Spp2 = (Hpp1 + 2.0 * sqrt(Hpp1 * Hpp1 + Hpp2) * cos((Thetapp + 4.0 * acos(-1.0)) / 3.0));
-        TensorScalarType Spp3 = (Hpp1 + 2.0 * sqrt(Hpp1 * Hpp1 + Hpp2) * cos((Thetapp + 2.0 * acos(-1.0)) / 3.0));
+        TensorScalarType Spp1 = (Hpp1 + 2.0 * sqrt(Ppp) * cos(Thetapp / 3.0));
+        TensorScalarType Spp2 = (Hpp1 + 2.0 * sqrt(Ppp) * cos((Thetapp + 4.0 * acos(-1.0)) / 3.0));
+        TensorScalarType Spp3 = (Hpp1 + 2.0 * sqrt(Ppp) * cos((Thetapp + 2.0 * acos(-1.0)) / 3.0));
 
         //Apply the Barlat yield function to get effective response.
         pnorm(cellOrdinal) = pow((pow(Sp1 - Spp1, mBarlatExponent) + pow(Sp1 - Spp2, mBarlatExponent)
-- 
2.43.0


From 3bd74be19b927648e3e20858e29a5bff39fbb8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:20 +0000
Subject: [PATCH 20/62] fix: the conditional expression if(X > Y) A = B also
 holds when X exceeds Y by less than one

---
 src/PlatoMathHelpers.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/PlatoMathHelpers.hpp b/src/PlatoMathHelpers.hpp
index 58d05f5..249d50f 100644
--- a/src/PlatoMathHelpers.hpp
+++ b/src/PlatoMathHelpers.hpp
@@ -39,11 +39,7 @@ conditional_expression(const Plato::Scalar & aX,
                        const Plato::Scalar & aA,
                        const Plato::Scalar & aB)
 {
-    auto tConditionalExpression = aX - aY - static_cast<Plato::Scalar>(1.0);
-    tConditionalExpression = exp(tConditionalExpression);
-    Plato::OrdinalType tCoeff = fmin(static_cast<Plato::Scalar>(1.0), tConditionalExpression);
-    Plato::Scalar tScalarCoeff = tCoeff;
-    auto tOutput = tScalarCoeff * aB + (static_cast<Plato::Scalar>(1.0) - tScalarCoeff) * aA;
+    auto tOutput = aX > aY ? aB : aA;
     return (tOutput);
 }
 // function conditional_expression
-- 
2.43.0


From 0692f81d231965c61210a03f6184176409070475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:01 +0000
Subject: [PATCH 21/62] fix: a saved state keeps its data instead of sharing it
 with the states computed later

---
 src/PlatoStaticsTypes.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/PlatoStaticsTypes.hpp b/src/PlatoStaticsTypes.hpp
index 0141965..8e54122 100644
--- a/src/PlatoStaticsTypes.hpp
+++ b/src/PlatoStaticsTypes.hpp
@@ -90,8 +90,12 @@ struct DataMap
 
   DataMap getState() const
   {
-    DataMap tState(*this);
-    tState.stateDataMaps.clear();
+    // copy the data, not just the views: entries are overwritten in place as the next state is computed
+    DataMap tState;
+    tState.mScalarValues = mScalarValues;
+    copyViews(scalarVectors, tState.scalarVectors);
+    copyViews(scalarMultiVectors, tState.scalarMultiVectors);
+    copyViews(scalarArray3Ds, tState.scalarArray3Ds);
     return tState;
   }
 
@@ -114,6 +118,18 @@ struct DataMap
       }
     }
   }
+
+private:
+  template <typename ViewType>
+  static void copyViews(const std::map<std::string, ViewType> & aFrom, std::map<std::string, ViewType> & aTo)
+  {
+    for(const auto & tEntry : aFrom)
+    {
+      auto tCopy = Kokkos::create_mirror(typename ViewType::memory_space(), tEntry.second);
+      Kokkos::deep_copy(tCopy, tEntry.second);
+      aTo[tEntry.first] = tCopy;
+    }
+  }
 };
 // struct DataMap
 
-- 
2.43.0


From 941698a5035889649f4fb6e3eebc944d2be75ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:20 +0000
Subject: [PATCH 22/62] fix: an empty vector in a restart file loads as an
 empty vector instead of aborting

---
 src/HDF5IO.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HDF5IO.hpp b/src/HDF5IO.hpp
index 7e6623d..b4566da 100644
--- a/src/HDF5IO.hpp
+++ b/src/HDF5IO.hpp
@@ -427,7 +427,7 @@ make_path_parallel( const std::string & aPath,
                     H5P_DEFAULT,
                     aVector.data() );
         }
-        else if( aStatus == 2 )
+        else if( aStatus == 1 )
         {
             // all good, reset status
             aStatus = 0;
@@ -516,7 +516,7 @@ make_path_parallel( const std::string & aPath,
                     H5P_DEFAULT,
                     aVector.data() );
         }
-        else if( aStatus == 2 )
+        else if( aStatus == 1 )
         {
             // all good, reset status
             aStatus = 0;
-- 
2.43.0


From 52b805248d8981fba1d9e5968a07397bcfa51871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:35 +0000
Subject: [PATCH 23/62] fix: an empty parenthesis in an expression is an error,
 also in front of a function

---
 src/ExpressionEvaluator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index c650204..cd2c1dd 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -564,6 +564,13 @@ void ExpressionEvaluator::parse_expression( const char* expression )
                  << "corresponding open parenthesis '('";
         break;
       }
+      // When closing make sure there is something to close
+      else if( previous.ID == OPEN_PARENTHESIS )
+      {
+        errorMsg << "Invalid expression: "
+                 << "Found an empty parenthesis '()'.";
+        break;
+      }
       // When closing make sure there is not an open absolute value bar
       else if( numOpenAbsBars.back() > 0 )
       {
-- 
2.43.0


From aff32d721f862b1d2c0b2b686d76e816092e6bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:14 +0000
Subject: [PATCH 24/62] fix: an equation index one past the end of an
 unterminated equation file is refused

---
 src/CustomMaterial.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CustomMaterial.cpp b/src/CustomMaterial.cpp
index f8c3a23..b42dd36 100644
--- a/src/CustomMaterial.cpp
+++ b/src/CustomMaterial.cpp
@@ -91,7 +91,10 @@ CustomMaterial::GetCustomExpressionValue(
 
           // Read the equation requested, default is the first.
           while( std::getline(infile, line) && equationIndex > 0)
+          {
             --equationIndex;
+            line.clear();
+          }
 
           if( line.empty() || equationIndex != 0 )
           {
-- 
2.43.0


From f8d367f082635f1957aa93807c80fa4e1d209cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:59 +0000
Subject: [PATCH 25/62] fix: surface integral weight kept references to expired
 expression temporaries

With an automatic differentiation configuration type, 'auto' stored expression
templates that refer to temporaries of the same statement; the weight was then
computed from dead stack slots (crash or arbitrary derivative).
---
 src/NaturalBCUtilities.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/NaturalBCUtilities.hpp b/src/NaturalBCUtilities.hpp
index 3c2cc83..a18f5d2 100644
--- a/src/NaturalBCUtilities.hpp
+++ b/src/NaturalBCUtilities.hpp
@@ -299,8 +299,8 @@ ComputeSurfaceIntegralWeight<2>::operator()
  const Plato::ScalarArray3DT<ConfigScalarType> & aJacobian,
  ResultScalarType & aOutput) const
 {
-    auto tJ11 = aJacobian(aFaceOrdinal, 0, 0) * aJacobian(aFaceOrdinal, 0, 0);
-    auto tJ12 = aJacobian(aFaceOrdinal, 0, 1) * aJacobian(aFaceOrdinal, 0, 1);
+    ConfigScalarType tJ11 = aJacobian(aFaceOrdinal, 0, 0) * aJacobian(aFaceOrdinal, 0, 0);
+    ConfigScalarType tJ12 = aJacobian(aFaceOrdinal, 0, 1) * aJacobian(aFaceOrdinal, 0, 1);
     aOutput = aMultiplier * sqrt( tJ11 + tJ12 );
 }
 // class ComputeSurfaceIntegralWeight<2>::operator()
@@ -317,9 +317,9 @@ ComputeSurfaceIntegralWeight<3>::operator()
  const Plato::ScalarArray3DT<ConfigScalarType> & aJacobian,
  ResultScalarType & aOutput) const
 {
-    auto tJ23 = aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,2) - aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,1);
-    auto tJ31 = aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,0) - aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,2);
-    auto tJ12 = aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,1) - aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,0);
+    ConfigScalarType tJ23 = aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,2) - aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,1);
+    ConfigScalarType tJ31 = aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,0) - aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,2);
+    ConfigScalarType tJ12 = aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,1) - aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,0);
     aOutput = aMultiplier * sqrt(tJ23*tJ23 + tJ31*tJ31 + tJ12*tJ12);
 }
 // class ComputeSurfaceIntegralWeight<3>::operator()
-- 
2.43.0


From 29e3496a3ac7e29828a779514df9fdaf5291dc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:59 +0000
Subject: [PATCH 26/62] fix: surface pressure did not depend on the node
 coordinates through the normal

The unit normal was computed from the plain mesh coordinates, so the shape
derivative of a pressure load left out the rotation of the normal.
---
 src/NaturalBCUtilities.hpp      | 80 +++++++++++++++++++++++++++++++++
 src/SurfacePressureIntegral.hpp | 18 +++++---
 2 files changed, 93 insertions(+), 5 deletions(-)

diff --git a/src/NaturalBCUtilities.hpp b/src/NaturalBCUtilities.hpp
index a18f5d2..8518c6e 100644
--- a/src/NaturalBCUtilities.hpp
+++ b/src/NaturalBCUtilities.hpp
@@ -324,5 +324,85 @@ ComputeSurfaceIntegralWeight<3>::operator()
 }
 // class ComputeSurfaceIntegralWeight<3>::operator()
 
+/***************************************************************************//**
+ * \brief Compute the normal vector to a face from its surface Jacobian.  The norm
+ *   of the vector is the factor used in ComputeSurfaceIntegralWeight; its sign is
+ *   set by the order of the nodes.
+ *
+ * \tparam SpatialDim  spatial dimensions
+ *
+*******************************************************************************/
+template<Plato::OrdinalType SpatialDim>
+class ComputeSurfaceNormal
+{
+public:
+    /***************************************************************************//**
+     * \brief Constructor
+    *******************************************************************************/
+    ComputeSurfaceNormal(){}
+
+    /***************************************************************************//**
+     * \brief Compute the normal vector
+     *
+     * \param [in]  aFaceOrdinal  face ordinal
+     * \param [in]  aJacobian     surface Jacobian
+     * \param [out] aNormal       normal vector
+    *******************************************************************************/
+    template<typename ConfigScalarType>
+    DEVICE_TYPE inline void operator()
+    (const Plato::OrdinalType & aFaceOrdinal,
+     const Plato::ScalarArray3DT<ConfigScalarType> & aJacobian,
+     ConfigScalarType aNormal[SpatialDim]) const;
+};
+// class ComputeSurfaceNormal
+
+/***************************************************************************//**
+ * \brief Compute the normal vector (1-D specialization)
+*******************************************************************************/
+template<>
+template<typename ConfigScalarType>
+DEVICE_TYPE inline void
+ComputeSurfaceNormal<1>::operator()
+(const Plato::OrdinalType & aFaceOrdinal,
+ const Plato::ScalarArray3DT<ConfigScalarType> & aJacobian,
+ ConfigScalarType aNormal[1]) const
+{
+    aNormal[0] = 1.0;
+}
+// class ComputeSurfaceNormal<1>::operator()
+
+/***************************************************************************//**
+ * \brief Compute the normal vector (2-D specialization)
+*******************************************************************************/
+template<>
+template<typename ConfigScalarType>
+DEVICE_TYPE inline void
+ComputeSurfaceNormal<2>::operator()
+(const Plato::OrdinalType & aFaceOrdinal,
+ const Plato::ScalarArray3DT<ConfigScalarType> & aJacobian,
+ ConfigScalarType aNormal[2]) const
+{
+    aNormal[0] =  aJacobian(aFaceOrdinal,0,1);
+    aNormal[1] = -aJacobian(aFaceOrdinal,0,0);
+}
+// class ComputeSurfaceNormal<2>::operator()
+
+/***************************************************************************//**
+ * \brief Compute the normal vector (3-D specialization)
+*******************************************************************************/
+template<>
+template<typename ConfigScalarType>
+DEVICE_TYPE inline void
+ComputeSurfaceNormal<3>::operator()
+(const Plato::OrdinalType & aFaceOrdinal,
+ const Plato::ScalarArray3DT<ConfigScalarType> & aJacobian,
+ ConfigScalarType aNormal[3]) const
+{
+    aNormal[0] = aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,2) - aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,1);
+    aNormal[1] = aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,0) - aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,2);
+    aNormal[2] = aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,1) - aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,0);
+}
+// class ComputeSurfaceNormal<3>::operator()
+
 }
 // namespace Plato
diff --git a/src/SurfacePressureIntegral.hpp b/src/SurfacePressureIntegral.hpp
index 604a885..261a2e8 100644
--- a/src/SurfacePressureIntegral.hpp
+++ b/src/SurfacePressureIntegral.hpp
@@ -118,7 +118,7 @@ void SurfacePressureIntegral<SpatialDim,NumDofs,DofsPerNode,DofOffset>::operator
 
     Plato::NodeCoordinate<SpatialDim> tCoords(&(aSpatialModel.Mesh));
     Plato::ComputeSurfaceJacobians<SpatialDim> tComputeSurfaceJacobians;
-    Plato::ComputeSurfaceIntegralWeight<SpatialDim> tComputeSurfaceIntegralWeight;
+    Plato::ComputeSurfaceNormal<SpatialDim> tComputeSurfaceNormal;
     Plato::CreateFaceLocalNode2ElemLocalNodeIndexMap<SpatialDim> tCreateFaceLocalNode2ElemLocalNodeIndexMap;
     Plato::ScalarArray3DT<ConfigScalarType> tJacobian("jacobian", tNumFaces, SpatialDim-1, SpatialDim);
 
@@ -145,21 +145,29 @@ void SurfacePressureIntegral<SpatialDim,NumDofs,DofsPerNode,DofOffset>::operator
           auto tCellOrdinal = tFace2Elems_elems[tElem];
           tCreateFaceLocalNode2ElemLocalNodeIndexMap(tCellOrdinal, tFaceOrdinal, tCell2Verts, tFace2Verts, tLocalNodeOrd);
 
-          ConfigScalarType tWeight(0.0);
           tComputeSurfaceJacobians(tCellOrdinal, aFaceI, tLocalNodeOrd, aConfig, tJacobian);
-          tComputeSurfaceIntegralWeight(aFaceI, tMultiplier, tJacobian, tWeight);
 
-          // compute unit normal vector
+          // compute unit normal vector, i.e. the outward direction
           auto tElemFaceOrdinal = Plato::get_face_ordinal<SpatialDim>(tCellOrdinal, tFaceOrdinal, tElem2Faces);
           auto tUnitNormalVec = Plato::unit_normal_vector(tCellOrdinal, tElemFaceOrdinal, tCoords);
 
+          // compute weighted normal vector from the configuration, so that it depends on the node coordinates
+          ConfigScalarType tNormalVec[SpatialDim];
+          tComputeSurfaceNormal(aFaceI, tJacobian, tNormalVec);
+          Plato::Scalar tProjection(0.0);
+          for( Plato::OrdinalType tDim=0; tDim<SpatialDim; tDim++)
+          {
+              tProjection += Sacado::ScalarValue<ConfigScalarType>::eval(tNormalVec[tDim]) * tUnitNormalVec(tDim);
+          }
+          const Plato::Scalar tWeight = tProjection < 0.0 ? -tMultiplier : tMultiplier;
+
           // project into aResult workset
           for( Plato::OrdinalType tNode=0; tNode<tNodesPerFace; tNode++)
           {
               for( Plato::OrdinalType tDof=0; tDof<tNumDofs; tDof++)
               {
                   auto tCellDofOrdinal = tLocalNodeOrd[tNode] * DofsPerNode + tDof + DofOffset;
-                  aResult(tCellOrdinal,tCellDofOrdinal) += tUnitNormalVec(tDof) * tFlux(tDof) * tWeight;
+                  aResult(tCellOrdinal,tCellDofOrdinal) += tWeight * tFlux(tDof) * tNormalVec[tDof];
               }
           }
       }
-- 
2.43.0


From e7cbd5763bdfa58db490c053141cbf3449399302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:19 +0000
Subject: [PATCH 27/62] fix: a least squares criterion reads its functions from
 the Criteria list

---
 src/elliptic/LeastSquaresFunction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic/LeastSquaresFunction.hpp b/src/elliptic/LeastSquaresFunction.hpp
index ceb9b70..3744797 100644
--- a/src/elliptic/LeastSquaresFunction.hpp
+++ b/src/elliptic/LeastSquaresFunction.hpp
@@ -62,7 +62,7 @@ private:
         mFunctionGoldValues.clear();
         mFunctionNormalization.clear();
 
-        auto tFunctionParams = aProblemParams.sublist("Criterial").sublist(mFunctionName);
+        auto tFunctionParams = aProblemParams.sublist("Criteria").sublist(mFunctionName);
 
         auto tFunctionNamesArray = tFunctionParams.get<Teuchos::Array<std::string>>("Functions");
         auto tFunctionWeightsArray = tFunctionParams.get<Teuchos::Array<Plato::Scalar>>("Weights");
-- 
2.43.0


From 75b0a227bc6fb20c66bdbf9a62effe90f992625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:19 +0000
Subject: [PATCH 28/62] fix: combined criteria differentiate by the state of
 the requested step

---
 src/elliptic/DivisionFunction.hpp     | 4 ++--
 src/elliptic/LeastSquaresFunction.hpp | 2 +-
 src/elliptic/WeightedSumFunction.hpp  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elliptic/DivisionFunction.hpp b/src/elliptic/DivisionFunction.hpp
index b374667..7b2d76d 100644
--- a/src/elliptic/DivisionFunction.hpp
+++ b/src/elliptic/DivisionFunction.hpp
@@ -199,8 +199,8 @@ public:
         Plato::Scalar tNumeratorValue = mScalarFunctionBaseNumerator->value(aSolution, aControl, aTimeStep);
         Plato::Scalar tDenominatorValue = mScalarFunctionBaseDenominator->value(aSolution, aControl, aTimeStep);
 
-        Plato::ScalarVector tNumeratorGradU = mScalarFunctionBaseNumerator->gradient_u(aSolution, aControl, aTimeStep);
-        Plato::ScalarVector tDenominatorGradU = mScalarFunctionBaseDenominator->gradient_u(aSolution, aControl, aTimeStep);
+        Plato::ScalarVector tNumeratorGradU = mScalarFunctionBaseNumerator->gradient_u(aSolution, aControl, aStepIndex, aTimeStep);
+        Plato::ScalarVector tDenominatorGradU = mScalarFunctionBaseDenominator->gradient_u(aSolution, aControl, aStepIndex, aTimeStep);
         Kokkos::parallel_for(Kokkos::RangePolicy<>(0, tNumDofs), LAMBDA_EXPRESSION(const Plato::OrdinalType & tDof)
         {
             tGradientU(tDof) = (tNumeratorGradU(tDof) * tDenominatorValue - 
diff --git a/src/elliptic/LeastSquaresFunction.hpp b/src/elliptic/LeastSquaresFunction.hpp
index 3744797..a5e2c60 100644
--- a/src/elliptic/LeastSquaresFunction.hpp
+++ b/src/elliptic/LeastSquaresFunction.hpp
@@ -295,7 +295,7 @@ public:
                 const Plato::Scalar tFunctionGoldValue = mFunctionGoldValues[tFunctionIndex];
                 const Plato::Scalar tFunctionScale = mFunctionNormalization[tFunctionIndex];
                 Plato::Scalar tFunctionValue = mScalarFunctionBaseContainer[tFunctionIndex]->value(aSolution, aControl, aTimeStep);
-                Plato::ScalarVector tFunctionGradU = mScalarFunctionBaseContainer[tFunctionIndex]->gradient_u(aSolution, aControl, aTimeStep);
+                Plato::ScalarVector tFunctionGradU = mScalarFunctionBaseContainer[tFunctionIndex]->gradient_u(aSolution, aControl, aStepIndex, aTimeStep);
                 Kokkos::parallel_for(Kokkos::RangePolicy<>(0, tNumDofs), LAMBDA_EXPRESSION(const Plato::OrdinalType & tDof)
                 {
                     tGradientU(tDof) += 2.0 * tFunctionWeight * (tFunctionValue - tFunctionGoldValue) 
diff --git a/src/elliptic/WeightedSumFunction.hpp b/src/elliptic/WeightedSumFunction.hpp
index bde46ce..afb1cdf 100644
--- a/src/elliptic/WeightedSumFunction.hpp
+++ b/src/elliptic/WeightedSumFunction.hpp
@@ -222,7 +222,7 @@ public:
         for (Plato::OrdinalType tFunctionIndex = 0; tFunctionIndex < mScalarFunctionBaseContainer.size(); ++tFunctionIndex)
         {
             const Plato::Scalar tFunctionWeight = mFunctionWeights[tFunctionIndex];
-            Plato::ScalarVector tFunctionGradU = mScalarFunctionBaseContainer[tFunctionIndex]->gradient_u(aSolution, aControl, aTimeStep);
+            Plato::ScalarVector tFunctionGradU = mScalarFunctionBaseContainer[tFunctionIndex]->gradient_u(aSolution, aControl, aStepIndex, aTimeStep);
             Kokkos::parallel_for(Kokkos::RangePolicy<>(0, tNumDofs), LAMBDA_EXPRESSION(const Plato::OrdinalType & tDof)
             {
                 tGradientU(tDof) += tFunctionWeight * tFunctionGradU(tDof);
-- 
2.43.0


From e2956c5c80d4e60e626473a27631b3d997eed7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:25 +0000
Subject: [PATCH 29/62] fix: effective energy without a cell problem is an
 error, not a stray column of the stiffness

---
 src/elliptic/EffectiveEnergy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elliptic/EffectiveEnergy.hpp b/src/elliptic/EffectiveEnergy.hpp
index 8d7bd74..2deb327 100644
--- a/src/elliptic/EffectiveEnergy.hpp
+++ b/src/elliptic/EffectiveEnergy.hpp
@@ -12,6 +12,7 @@
 #include "elliptic/AbstractScalarFunction.hpp"
 #include "ExpInstMacros.hpp"
 #include "ToMap.hpp"
+#include "AnalyzeMacros.hpp"
 #include "Simp.hpp"
 #include "Ramp.hpp"
 #include "Heaviside.hpp"
@@ -94,7 +95,7 @@ class EffectiveEnergy :
       }
       else
       {
-          // JR TODO: throw
+          THROWERR("Effective Energy criterion: 'Cell Problem Forcing' list is missing.")
       }
 
       mQuadratureWeight = 1.0; // for a 1-point quadrature rule for simplices
-- 
2.43.0


From 5b1cfc0aa2ad9ff28c45180bf656a8595be3822a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:22 +0000
Subject: [PATCH 30/62] fix: cell mass kept references to expired expression
 temporaries

---
 src/Plato_TopOptFunctors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Plato_TopOptFunctors.hpp b/src/Plato_TopOptFunctors.hpp
index 7c402ca..1ee0773 100644
--- a/src/Plato_TopOptFunctors.hpp
+++ b/src/Plato_TopOptFunctors.hpp
@@ -32,7 +32,7 @@ cell_mass(const Plato::OrdinalType & aCellOrdinal,
         ControlType tNodalMass = 0.0;
         for(Plato::OrdinalType tIndex_J = 0; tIndex_J < CellNumNodes; tIndex_J++)
         {
-            auto tValue = aBasisFunc(tIndex_I) * aBasisFunc(tIndex_J) * aCellControls(aCellOrdinal, tIndex_J);
+            ControlType tValue = aBasisFunc(tIndex_I) * aBasisFunc(tIndex_J) * aCellControls(aCellOrdinal, tIndex_J);
             tNodalMass += tValue;
         }
         tCellMass += tNodalMass;
-- 
2.43.0


From b8435002b79f0cbcd5f4239bd9d0dce0187d2ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:19 +0000
Subject: [PATCH 31/62] fix: thermal criteria use the conductivity at the
 temperature, as the residual does

---
 src/elliptic/FluxPNorm.hpp             | 11 ++++++++++-
 src/elliptic/InternalThermalEnergy.hpp | 13 ++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/FluxPNorm.hpp b/src/elliptic/FluxPNorm.hpp
index 7ad4c0a..4a48f8a 100644
--- a/src/elliptic/FluxPNorm.hpp
+++ b/src/elliptic/FluxPNorm.hpp
@@ -16,6 +16,7 @@
 #include "Heaviside.hpp"
 #include "NoPenalty.hpp"
 #include "LinearTetCubRuleDegreeOne.hpp"
+#include "InterpolateFromNodal.hpp"
 
 #include "ExpInstMacros.hpp"
 
@@ -37,6 +38,7 @@ class FluxPNorm :
     
     using Plato::Simplex<SpaceDim>::mNumNodesPerCell;
     using Plato::SimplexThermal<SpaceDim>::mNumDofsPerCell;
+    using Plato::SimplexThermal<SpaceDim>::mNumDofsPerNode;
 
     using Plato::Elliptic::AbstractScalarFunction<EvaluationType>::mSpatialDomain;
     using Plato::Elliptic::AbstractScalarFunction<EvaluationType>::mDataMap;
@@ -109,6 +111,12 @@ class FluxPNorm :
       Kokkos::View<ResultScalarType**, Plato::Layout, Plato::MemSpace>
         tflux("thermal flux",numCells,SpaceDim);
 
+      Plato::ScalarVectorT<StateScalarType>
+        temperature("Gauss point temperature", numCells);
+
+      Plato::InterpolateFromNodal<SpaceDim, mNumDofsPerNode> interpolateFromNodal;
+      auto basisFunctions = mCubatureRule->getBasisFunctions();
+
       auto tQuadratureWeight = mCubatureRule->getCubWeight();
       auto& applyWeighting  = mApplyWeighting;
       auto exponent         = mExponent;
@@ -123,7 +131,8 @@ class FluxPNorm :
 
         // compute flux
         //
-        thermalFlux(aCellOrdinal, tflux, tgrad);
+        interpolateFromNodal(aCellOrdinal, basisFunctions, aState, temperature);
+        thermalFlux(aCellOrdinal, tflux, tgrad, temperature);
 
         // apply weighting
         //
diff --git a/src/elliptic/InternalThermalEnergy.hpp b/src/elliptic/InternalThermalEnergy.hpp
index 66990cc..c384f94 100644
--- a/src/elliptic/InternalThermalEnergy.hpp
+++ b/src/elliptic/InternalThermalEnergy.hpp
@@ -10,6 +10,8 @@
 #include "SimplexThermal.hpp"
 #include "SimplexFadTypes.hpp"
 #include "ImplicitFunctors.hpp"
+#include "InterpolateFromNodal.hpp"
+#include "LinearTetCubRuleDegreeOne.hpp"
 #include "ThermalConductivityMaterial.hpp"
 #include "Simp.hpp"
 #include "Ramp.hpp"
@@ -40,6 +42,7 @@ class InternalThermalEnergy :
 
     using Plato::Simplex<mSpaceDim>::mNumNodesPerCell; /*!< number of nodes per cell */
     using Plato::SimplexThermal<mSpaceDim>::mNumDofsPerCell; /*!< number of degrees of freedom per cell */
+    using Plato::SimplexThermal<mSpaceDim>::mNumDofsPerNode; /*!< number of degrees of freedom per node */
 
     using Plato::Elliptic::AbstractScalarFunction<EvaluationType>::mSpatialDomain; /*!< mesh database */
     using Plato::Elliptic::AbstractScalarFunction<EvaluationType>::mDataMap; /*!< PLATO Analyze database */
@@ -123,6 +126,13 @@ class InternalThermalEnergy :
       Kokkos::View<ResultScalarType**, Plato::Layout, Plato::MemSpace>
         tThermalFlux("thermal flux", tNumCells, mSpaceDim);
 
+      Plato::ScalarVectorT<StateScalarType>
+        tTemperature("Gauss point temperature", tNumCells);
+
+      Plato::InterpolateFromNodal<mSpaceDim, mNumDofsPerNode> tInterpolateFromNodal;
+      Plato::LinearTetCubRuleDegreeOne<mSpaceDim> tCubatureRule;
+      auto tBasisFunctions = tCubatureRule.getBasisFunctions();
+
       auto tQuadratureWeight = mQuadratureWeight;
       auto tApplyWeighting  = mApplyWeighting;
       Kokkos::parallel_for(Kokkos::RangePolicy<int>(0, tNumCells), LAMBDA_EXPRESSION(const Plato::OrdinalType & aCellOrdinal)
@@ -136,7 +146,8 @@ class InternalThermalEnergy :
 
         // compute flux
         //
-        tComputeThermalFlux(aCellOrdinal, tThermalFlux, tThermalGrad);
+        tInterpolateFromNodal(aCellOrdinal, tBasisFunctions, aState, tTemperature);
+        tComputeThermalFlux(aCellOrdinal, tThermalFlux, tThermalGrad, tTemperature);
 
         // apply weighting
         //
-- 
2.43.0


From 0d5b014db2cde6182a8a70bf57fb8b772528372d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:19 +0000
Subject: [PATCH 32/62] fix: vector norms use the exponent they were given, not
 its integer part

---
 src/VectorPNorm.hpp        | 2 +-
 src/elliptic/FluxPNorm.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/VectorPNorm.hpp b/src/VectorPNorm.hpp
index 9966e6e..315af0f 100644
--- a/src/VectorPNorm.hpp
+++ b/src/VectorPNorm.hpp
@@ -22,7 +22,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType aCellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> aPnorm,
                                        Plato::ScalarMultiVectorT<VectorScalarType> aArgVector,
-                                       Plato::OrdinalType aPvalue,
+                                       Plato::Scalar aPvalue,
                                        Plato::ScalarVectorT<VolumeScalarType> aCellVolume) const
     {
 
diff --git a/src/elliptic/FluxPNorm.hpp b/src/elliptic/FluxPNorm.hpp
index 4a48f8a..a4c093a 100644
--- a/src/elliptic/FluxPNorm.hpp
+++ b/src/elliptic/FluxPNorm.hpp
@@ -54,7 +54,7 @@ class FluxPNorm :
     std::shared_ptr<Plato::LinearTetCubRuleDegreeOne<SpaceDim>> mCubatureRule;
     Teuchos::RCP<Plato::MaterialModel<SpaceDim>> mMaterialModel;
 
-    Plato::OrdinalType mExponent;
+    Plato::Scalar mExponent;
 
   public:
     /**************************************************************************/
-- 
2.43.0


From 8d2471b186d6fb92c2f65a3a1a8212cfeb3298c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:19 +0000
Subject: [PATCH 33/62] fix: von Mises output of the stress constraint covers
 every block

---
 src/Plato_AugLagStressCriterion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Plato_AugLagStressCriterion.hpp b/src/Plato_AugLagStressCriterion.hpp
index dbfadf6..60abca3 100644
--- a/src/Plato_AugLagStressCriterion.hpp
+++ b/src/Plato_AugLagStressCriterion.hpp
@@ -402,7 +402,7 @@ public:
             aResultWS(aCellOrdinal) = tMassContribution + ( static_cast<Plato::Scalar>(1.0 / tNumCells) * tStressContribution );
         },"Compute Augmented Lagrangian Function");
 
-        Plato::toMap(mDataMap, tOutputCellVonMises, "Vonmises");
+        Plato::toMap(mDataMap, tOutputCellVonMises, "Vonmises", mSpatialDomain);
     }
 
     /******************************************************************************//**
-- 
2.43.0


From b22b6f70b06f6e964ab4f0792c4a82168df7fc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:59 +0000
Subject: [PATCH 34/62] fix: elliptic mass properties read their inputs from
 Criteria and Material Models

---
 src/elliptic/MassPropertiesFunction.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/MassPropertiesFunction.hpp b/src/elliptic/MassPropertiesFunction.hpp
index 13f5f30..8b6255c 100644
--- a/src/elliptic/MassPropertiesFunction.hpp
+++ b/src/elliptic/MassPropertiesFunction.hpp
@@ -75,7 +75,7 @@ private:
             auto tMaterialModelsInputs = aInputParams.get<Teuchos::ParameterList>("Material Models");
             if( tMaterialModelsInputs.isSublist(tDomain.getMaterialName()) )
             {
-                auto tMaterialModelInputs = aInputParams.sublist(tDomain.getMaterialName());
+                auto tMaterialModelInputs = tMaterialModelsInputs.sublist(tDomain.getMaterialName());
                 mMaterialDensities[tName] = tMaterialModelInputs.get<Plato::Scalar>("Density", 1.0);
             }
         }
@@ -93,7 +93,7 @@ private:
               Teuchos::ParameterList & aInputParams
     )
     {
-        auto tProblemFunctionName = aInputParams.sublist(mFunctionName);
+        auto tProblemFunctionName = aInputParams.sublist("Criteria").sublist(mFunctionName);
 
         auto tPropertyNamesTeuchos      = tProblemFunctionName.get<Teuchos::Array<std::string>>("Properties");
         auto tPropertyWeightsTeuchos    = tProblemFunctionName.get<Teuchos::Array<Plato::Scalar>>("Weights");
-- 
2.43.0


From 2042cae715d3546b3f6b7abafed089cae8dedf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:36 +0000
Subject: [PATCH 35/62] fix: expanding a block matrix read one entry past its
 row map

---
 src/PlatoMathHelpers.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PlatoMathHelpers.hpp b/src/PlatoMathHelpers.hpp
index 249d50f..9f01165 100644
--- a/src/PlatoMathHelpers.hpp
+++ b/src/PlatoMathHelpers.hpp
@@ -206,7 +206,8 @@ getDataAsNonBlock( const Teuchos::RCP<Plato::CrsMatrixType>       & aMatrix,
             auto tBlockRowIndex = tMatrixRowIndex / tNumRowsPerBlock;
             auto tLocalRowIndex = tMatrixRowIndex % tNumRowsPerBlock;
             auto tFrom = tRowMap(tBlockRowIndex);
-            auto tTo   = tRowMap(tBlockRowIndex+1);
+            // the entry past the last row has no block row of its own
+            auto tTo   = tLocalRowIndex > 0 ? tRowMap(tBlockRowIndex+1) : tFrom;
             auto tBlockRowSize = tTo - tFrom;
             aMatrixRowMap(tMatrixRowIndex) = tFrom * tBlockSize + tLocalRowIndex * tBlockRowSize * tNumColsPerBlock;
         });
@@ -217,7 +218,8 @@ getDataAsNonBlock( const Teuchos::RCP<Plato::CrsMatrixType>       & aMatrix,
             auto tBlockRowIndex = tMatrixRowIndex / aRowStride;
             auto tLocalRowIndex = tMatrixRowIndex % aRowStride;
             auto tFrom = tRowMap(tBlockRowIndex);
-            auto tTo   = tRowMap(tBlockRowIndex+1);
+            // the entry past the last row has no block row of its own
+            auto tTo   = tLocalRowIndex > 0 ? tRowMap(tBlockRowIndex+1) : tFrom;
             auto tBlockRowSize = tTo - tFrom;
             aMatrixRowMap(tMatrixRowIndex) = tFrom * aRowStride * tNumColsPerBlock + tLocalRowIndex * tBlockRowSize * tNumColsPerBlock;
         });
-- 
2.43.0


From d8ef427b1d757f3450b625bd1cd6ebe74885fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:48 +0000
Subject: [PATCH 36/62] fix: shape gradients of criteria solved the adjoint
 problem with the state's boundary values and Jacobian

---
 src/elliptic/Problem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/Problem.hpp b/src/elliptic/Problem.hpp
index 8787000..c07eb46 100644
--- a/src/elliptic/Problem.hpp
+++ b/src/elliptic/Problem.hpp
@@ -537,8 +537,8 @@ public:
             Plato::blas1::scale(static_cast<Plato::Scalar>(-1), tPartialCriterionWRT_State);
 
             // compute dgdu: partial of PDE wrt state
-            mJacobian = mPDE->gradient_u(tStatesSubView, aControl);
-            this->applyStateConstraints(mJacobian, tPartialCriterionWRT_State, 1.0);
+            mJacobian = mPDE->gradient_u_T(tStatesSubView, aControl);
+            this->applyAdjointConstraints(mJacobian, tPartialCriterionWRT_State);
 
             // adjoint problem uses transpose of global stiffness, but we're assuming the constrained
             // system is symmetric.
-- 
2.43.0


From 219682763b5ec0bb97f18f3b6ca794931b0a0cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:17 +0000
Subject: [PATCH 37/62] fix: transient heat conduction ignored the temperature
 dependence of the conductivity

---
 src/parabolic/HeatEquationResidual.hpp  |  4 ++--
 src/parabolic/InternalThermalEnergy.hpp | 11 ++++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parabolic/HeatEquationResidual.hpp b/src/parabolic/HeatEquationResidual.hpp
index bf3e0bc..c4672d9 100644
--- a/src/parabolic/HeatEquationResidual.hpp
+++ b/src/parabolic/HeatEquationResidual.hpp
@@ -157,7 +157,8 @@ class HeatEquationResidual :
     
         // compute flux
         //
-        tThermalFlux(tCellOrdinal, tFlux, tGrad);
+        tInterpolateFromNodal(tCellOrdinal, tBasisFunctions, aState, tTemperature);
+        tThermalFlux(tCellOrdinal, tFlux, tGrad, tTemperature);
     
         // apply weighting
         //
@@ -172,7 +173,6 @@ class HeatEquationResidual :
         // compute temperature at gausspoints
         //
         tInterpolateFromNodal(tCellOrdinal, tBasisFunctions, aStateDot, tTemperatureRate);
-        tInterpolateFromNodal(tCellOrdinal, tBasisFunctions, aState,    tTemperature    );
 
         // compute the time rate of internal thermal energy
         //
diff --git a/src/parabolic/InternalThermalEnergy.hpp b/src/parabolic/InternalThermalEnergy.hpp
index e38d4eb..1547710 100644
--- a/src/parabolic/InternalThermalEnergy.hpp
+++ b/src/parabolic/InternalThermalEnergy.hpp
@@ -3,6 +3,7 @@
 
 #include "ScalarGrad.hpp"
 #include "ThermalFlux.hpp"
+#include "InterpolateFromNodal.hpp"
 #include "ScalarProduct.hpp"
 #include "ApplyWeighting.hpp"
 #include "SimplexThermal.hpp"
@@ -41,6 +42,7 @@ class InternalThermalEnergy :
 
     using Plato::Simplex<mSpaceDim>::mNumNodesPerCell;
     using Plato::SimplexThermal<mSpaceDim>::mNumDofsPerCell;
+    using Plato::SimplexThermal<mSpaceDim>::mNumDofsPerNode;
 
     using Plato::Parabolic::AbstractScalarFunction<EvaluationType>::mSpatialDomain;
     using Plato::Parabolic::AbstractScalarFunction<EvaluationType>::mDataMap;
@@ -113,7 +115,13 @@ class InternalThermalEnergy :
       Kokkos::View<ResultScalarType**, Plato::Layout, Plato::MemSpace>
         tflux("thermal flux", tNumCells,mSpaceDim);
 
+      Plato::ScalarVectorT<StateScalarType>
+        temperature("Gauss point temperature", tNumCells);
+
+      Plato::InterpolateFromNodal<mSpaceDim, mNumDofsPerNode> interpolateFromNodal;
+
       auto tQuadratureWeight = mCubatureRule->getCubWeight();
+      auto basisFunctions = mCubatureRule->getBasisFunctions();
       auto applyWeighting  = mApplyWeighting;
       Kokkos::parallel_for(Kokkos::RangePolicy<int>(0, tNumCells), LAMBDA_EXPRESSION(const int & aCellOrdinal)
       {
@@ -126,7 +134,8 @@ class InternalThermalEnergy :
 
         // compute flux
         //
-        thermalFlux(aCellOrdinal, tflux, tgrad);
+        interpolateFromNodal(aCellOrdinal, basisFunctions, aState, temperature);
+        thermalFlux(aCellOrdinal, tflux, tgrad, temperature);
 
         // apply weighting
         //
-- 
2.43.0


From 45c68e8d9cc2e6ea2156c8fd053c6075462e42aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:17 +0000
Subject: [PATCH 38/62] fix: initial states of two-dimensional transient
 mechanics were refused

---
 src/hyperbolic/ElastomechanicsResidual.hpp    | 12 ++++++++++--
 src/parabolic/TransientThermomechResidual.hpp | 12 +++++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/hyperbolic/ElastomechanicsResidual.hpp b/src/hyperbolic/ElastomechanicsResidual.hpp
index c08b870..f8b11ab 100644
--- a/src/hyperbolic/ElastomechanicsResidual.hpp
+++ b/src/hyperbolic/ElastomechanicsResidual.hpp
@@ -68,6 +68,15 @@ class TransientMechanicsResidual :
 
     std::vector<std::string> mPlottable;
 
+    /**************************************************************************/
+    static std::vector<std::string> dofNames(const std::string & aField)
+    /**************************************************************************/
+    {
+        std::vector<std::string> tNames({aField + "X", aField + "Y", aField + "Z"});
+        tNames.resize(SpaceDim);
+        return tNames;
+    }
+
   public:
     /**************************************************************************/
     TransientMechanicsResidual(
@@ -77,8 +86,7 @@ class TransientMechanicsResidual :
               Teuchos::ParameterList & aPenaltyParams
     ) :
         FunctionBaseType      (aSpatialDomain, aDataMap,
-                               {"Displacement X", "Displacement Y", "Displacement Z"},
-                               {"Velocity X",     "Velocity Y",     "Velocity Z"    }),
+                               dofNames("Displacement "), dofNames("Velocity ")),
         mIndicatorFunction    (aPenaltyParams),
         mApplyStressWeighting (mIndicatorFunction),
         mApplyMassWeighting   (mIndicatorFunction),
diff --git a/src/parabolic/TransientThermomechResidual.hpp b/src/parabolic/TransientThermomechResidual.hpp
index 0ce015c..5862334 100644
--- a/src/parabolic/TransientThermomechResidual.hpp
+++ b/src/parabolic/TransientThermomechResidual.hpp
@@ -83,6 +83,16 @@ class TransientThermomechResidual :
 
     std::vector<std::string> mPlotTable;
 
+    /**************************************************************************/
+    static std::vector<std::string> dofNames()
+    /**************************************************************************/
+    {
+        std::vector<std::string> tNames({"Displacement X", "Displacement Y", "Displacement Z"});
+        tNames.resize(SpaceDim);
+        tNames.push_back("Temperature");
+        return tNames;
+    }
+
   public:
     /**************************************************************************/
     TransientThermomechResidual(
@@ -91,7 +101,7 @@ class TransientThermomechResidual :
               Teuchos::ParameterList & aProblemParams,
               Teuchos::ParameterList & aPenaltyParams
      ) :
-         FunctionBaseType      (aSpatialDomain, aDataMap, {"Displacement X", "Displacement Y", "Displacement Z", "Temperature"}),
+         FunctionBaseType      (aSpatialDomain, aDataMap, dofNames()),
          mIndicatorFunction    (aPenaltyParams),
          mApplyStressWeighting (mIndicatorFunction),
          mApplyFluxWeighting   (mIndicatorFunction),
-- 
2.43.0


From a919ada5eeffa99f593f3a0cf0d517667e77a338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:34 +0000
Subject: [PATCH 39/62] fix: a transient problem solved again added its
 prescribed values to the previous solution

---
 src/parabolic/Problem.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parabolic/Problem.hpp b/src/parabolic/Problem.hpp
index f7d7027..1f88902 100644
--- a/src/parabolic/Problem.hpp
+++ b/src/parabolic/Problem.hpp
@@ -292,6 +292,10 @@ namespace Parabolic
               Plato::ScalarVector tState        = Kokkos::subview(mState,    tStepIndex,   Kokkos::ALL());
               Plato::ScalarVector tStateDot     = Kokkos::subview(mStateDot, tStepIndex,   Kokkos::ALL());
 
+              // essential boundary values are applied as increments from zero
+              Plato::blas1::fill(static_cast<Plato::Scalar>(0.0), tState);
+              Plato::blas1::fill(static_cast<Plato::Scalar>(0.0), tStateDot);
+
               // inner loop for non-linear models
               for(Plato::OrdinalType tNewtonIndex = 0; tNewtonIndex < mNumNewtonSteps; tNewtonIndex++)
               {
-- 
2.43.0


From 78a5dd7af820ab7a339f7c103d7a06132c547a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:34 +0000
Subject: [PATCH 40/62] fix: gradient of a transient criterion by control used
 the rates of the previous step

---
 src/parabolic/PhysicsScalarFunction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parabolic/PhysicsScalarFunction.hpp b/src/parabolic/PhysicsScalarFunction.hpp
index 66ef6f7..c62bfd9 100644
--- a/src/parabolic/PhysicsScalarFunction.hpp
+++ b/src/parabolic/PhysicsScalarFunction.hpp
@@ -506,7 +506,7 @@ public:
 
                // workset state dot
                //
-               auto tStateDot = Kokkos::subview(tStateDots, tStepIndex-1, Kokkos::ALL());
+               auto tStateDot = Kokkos::subview(tStateDots, tStepIndex, Kokkos::ALL());
                Plato::WorksetBase<PhysicsT>::worksetState(tStateDot, tStateDotWS, tDomain);
 
                // evaluate function
-- 
2.43.0


From 4277c093e14fd5f8eebaab1e945546ec3bce211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:53 +0000
Subject: [PATCH 41/62] fix: adjoint of transient problems used the state's
 boundary values and an untransposed Jacobian

---
 src/parabolic/Problem.hpp        |  20 +--
 src/parabolic/VectorFunction.hpp | 210 +++++++++++++++++++++++++++++++
 2 files changed, 220 insertions(+), 10 deletions(-)

diff --git a/src/parabolic/Problem.hpp b/src/parabolic/Problem.hpp
index 1f88902..a1d35e2 100644
--- a/src/parabolic/Problem.hpp
+++ b/src/parabolic/Problem.hpp
@@ -555,16 +555,16 @@ namespace Parabolic
                 // -F_{,u^k} += R_{v,u^k}^k F_{,v^k}
                 Plato::blas1::axpy(tR_vu, t_dFdv, t_dFdu);
 
-                // R_{u,u^k}
-                mJacobianU = mPDEConstraint.gradient_u(tU, tV, aControl, mTimeStep);
+                // R_{u,u^k}^T
+                mJacobianU = mPDEConstraint.gradient_u_T(tU, tV, aControl, mTimeStep);
 
-                // R_{u,v^k}
-                mJacobianV = mPDEConstraint.gradient_v(tU, tV, aControl, mTimeStep);
+                // R_{u,v^k}^T
+                mJacobianV = mPDEConstraint.gradient_v_T(tU, tV, aControl, mTimeStep);
 
                 // R_{u,u^k} -= R_{v,u^k} R_{u,v^k}
                 Plato::blas1::axpy(-tR_vu, mJacobianV->entries(), mJacobianU->entries());
 
-                this->applyStateConstraints(mJacobianU, t_dFdu, 1.0);
+                this->applyStateConstraints(mJacobianU, t_dFdu, 0.0);
 
                 // L_u^k
                 mSolver->solve(*mJacobianU, tAdjoint_U, t_dFdu);
@@ -712,16 +712,16 @@ namespace Parabolic
                 Plato::blas1::axpy(tR_vu, t_dFdv, t_dFdu);
 
 
-                // R_{u,u^k}
-                mJacobianU = mPDEConstraint.gradient_u(tU, tV, aControl, mTimeStep);
+                // R_{u,u^k}^T
+                mJacobianU = mPDEConstraint.gradient_u_T(tU, tV, aControl, mTimeStep);
 
-                // R_{u,v^k}
-                mJacobianV = mPDEConstraint.gradient_v(tU, tV, aControl, mTimeStep);
+                // R_{u,v^k}^T
+                mJacobianV = mPDEConstraint.gradient_v_T(tU, tV, aControl, mTimeStep);
 
                 // R_{u,u^k} -= R_{v,u^k} R_{u,v^k}
                 Plato::blas1::axpy(-tR_vu, mJacobianV->entries(), mJacobianU->entries());
 
-                this->applyStateConstraints(mJacobianU, t_dFdu, 1.0);
+                this->applyStateConstraints(mJacobianU, t_dFdu, 0.0);
 
                 // L_u^k
                 mSolver->solve(*mJacobianU, tAdjoint_U, t_dFdu);
diff --git a/src/parabolic/VectorFunction.hpp b/src/parabolic/VectorFunction.hpp
index 036df97..8d7385f 100644
--- a/src/parabolic/VectorFunction.hpp
+++ b/src/parabolic/VectorFunction.hpp
@@ -556,6 +556,216 @@ class VectorFunction : public Plato::WorksetBase<PhysicsT>
         return tGradientMat;
     }
 
+    /**************************************************************************/
+    Teuchos::RCP<Plato::CrsMatrixType>
+    gradient_u_T(
+        const Plato::ScalarVector & aState,
+        const Plato::ScalarVector & aStateDot,
+        const Plato::ScalarVector & aControl,
+              Plato::Scalar         aTimeStep = 0.0
+    ) const
+    /**************************************************************************/
+    {
+        using ConfigScalar   = typename GradientU::ConfigScalarType;
+        using StateScalar    = typename GradientU::StateScalarType;
+        using StateDotScalar = typename GradientU::StateDotScalarType;
+        using ControlScalar  = typename GradientU::ControlScalarType;
+        using ResultScalar   = typename GradientU::ResultScalarType;
+
+        // create return matrix
+        //
+        auto tMesh = mSpatialModel.Mesh;
+        Teuchos::RCP<Plato::CrsMatrixType> tGradientMat =
+             Plato::CreateBlockMatrix<Plato::CrsMatrixType, mNumDofsPerNode, mNumDofsPerNode>( &tMesh );
+
+        for(const auto& tDomain : mSpatialModel.Domains)
+        {
+            auto tNumCells = tDomain.numCells();
+            auto tName     = tDomain.getDomainName();
+
+            // Workset config
+            //
+            Plato::ScalarArray3DT<ConfigScalar> tConfigWS("Config Workset", tNumCells, mNumNodesPerCell, mNumSpatialDims);
+            Plato::WorksetBase<PhysicsT>::worksetConfig(tConfigWS, tDomain);
+
+            // Workset state
+            //
+            Plato::ScalarMultiVectorT<StateScalar> tStateWS("State Workset", tNumCells, mNumDofsPerCell);
+            Plato::WorksetBase<PhysicsT>::worksetState(aState, tStateWS, tDomain);
+
+            // Workset prev state
+            //
+            Plato::ScalarMultiVectorT<StateDotScalar> tStateDotWS("StateDot Workset", tNumCells, mNumDofsPerCell);
+            Plato::WorksetBase<PhysicsT>::worksetState(aStateDot, tStateDotWS, tDomain);
+
+            // Workset control
+            //
+            Plato::ScalarMultiVectorT<ControlScalar> tControlWS("Control Workset", tNumCells, mNumNodesPerCell);
+            Plato::WorksetBase<PhysicsT>::worksetControl(aControl, tControlWS, tDomain);
+
+            // create return view
+            //
+            Plato::ScalarMultiVectorT<ResultScalar> tGradient("GradientState", tNumCells, mNumDofsPerCell);
+
+            // evaluate function
+            //
+            mGradientUFunctions.at(tName)->evaluate( tStateWS, tStateDotWS, tControlWS, tConfigWS, tGradient, aTimeStep );
+
+            // assembly to return matrix
+            Plato::BlockMatrixTransposeEntryOrdinal<mNumSpatialDims, mNumDofsPerNode>
+                tGradientMatEntryOrdinal( tGradientMat, &tMesh );
+
+            auto tGradientMatEntries = tGradientMat->entries();
+            Plato::WorksetBase<PhysicsT>::assembleJacobianFad
+                (mNumDofsPerCell, mNumDofsPerCell, tGradientMatEntryOrdinal, tGradient, tGradientMatEntries, tDomain);
+        }
+
+        {
+            // Workset config
+            //
+            Plato::ScalarArray3DT<ConfigScalar> tConfigWS("Config Workset", mNumCells, mNumNodesPerCell, mNumSpatialDims);
+            Plato::WorksetBase<PhysicsT>::worksetConfig(tConfigWS);
+
+            // Workset state
+            //
+            Plato::ScalarMultiVectorT<StateScalar> tStateWS("State Workset", mNumCells, mNumDofsPerCell);
+            Plato::WorksetBase<PhysicsT>::worksetState(aState, tStateWS);
+
+            // Workset prev state
+            //
+            Plato::ScalarMultiVectorT<StateDotScalar> tStateDotWS("StateDot Workset", mNumCells, mNumDofsPerCell);
+            Plato::WorksetBase<PhysicsT>::worksetState(aStateDot, tStateDotWS);
+
+            // Workset control
+            //
+            Plato::ScalarMultiVectorT<ControlScalar> tControlWS("Control Workset", mNumCells, mNumNodesPerCell);
+            Plato::WorksetBase<PhysicsT>::worksetControl(aControl, tControlWS);
+
+            // create return view
+            //
+            Plato::ScalarMultiVectorT<ResultScalar> tGradient("GradientState", mNumCells, mNumDofsPerCell);
+
+            // evaluate function
+            //
+            mBoundaryLoadsGradientUFunction->evaluate_boundary(mSpatialModel, tStateWS, tStateDotWS, tControlWS, tConfigWS, tGradient, aTimeStep );
+
+            // assembly to return matrix
+            Plato::BlockMatrixTransposeEntryOrdinal<mNumSpatialDims, mNumDofsPerNode>
+                tGradientMatEntryOrdinal( tGradientMat, &tMesh );
+
+            auto tGradientMatEntries = tGradientMat->entries();
+            Plato::WorksetBase<PhysicsT>::assembleJacobianFad
+                (mNumDofsPerCell, mNumDofsPerCell, tGradientMatEntryOrdinal, tGradient, tGradientMatEntries);
+        }
+
+        return tGradientMat;
+    }
+
+    /**************************************************************************/
+    Teuchos::RCP<Plato::CrsMatrixType>
+    gradient_v_T(
+        const Plato::ScalarVector & aState,
+        const Plato::ScalarVector & aStateDot,
+        const Plato::ScalarVector & aControl,
+              Plato::Scalar         aTimeStep = 0.0
+    ) const
+    /**************************************************************************/
+    {
+        using ConfigScalar   = typename GradientV::ConfigScalarType;
+        using StateScalar    = typename GradientV::StateScalarType;
+        using StateDotScalar = typename GradientV::StateDotScalarType;
+        using ControlScalar  = typename GradientV::ControlScalarType;
+        using ResultScalar   = typename GradientV::ResultScalarType;
+
+        // create return matrix
+        //
+        auto tMesh = mSpatialModel.Mesh;
+        Teuchos::RCP<Plato::CrsMatrixType> tGradientMat =
+            Plato::CreateBlockMatrix<Plato::CrsMatrixType, mNumDofsPerNode, mNumDofsPerNode>( &tMesh );
+
+        for(const auto& tDomain : mSpatialModel.Domains)
+        {
+            auto tNumCells = tDomain.numCells();
+            auto tName     = tDomain.getDomainName();
+
+            // Workset config
+            //
+            Plato::ScalarArray3DT<ConfigScalar> tConfigWS("Config Workset", tNumCells, mNumNodesPerCell, mNumSpatialDims);
+            Plato::WorksetBase<PhysicsT>::worksetConfig(tConfigWS, tDomain);
+
+            // Workset state
+            //
+            Plato::ScalarMultiVectorT<StateScalar> tStateWS("State Workset", tNumCells, mNumDofsPerCell);
+            Plato::WorksetBase<PhysicsT>::worksetState(aState, tStateWS, tDomain);
+
+            // Workset prev state
+            //
+            Plato::ScalarMultiVectorT<StateDotScalar> tStateDotWS("StateDot Workset", tNumCells,mNumDofsPerCell);
+            Plato::WorksetBase<PhysicsT>::worksetState(aStateDot, tStateDotWS, tDomain);
+
+            // Workset control
+            //
+            Plato::ScalarMultiVectorT<ControlScalar> tControlWS("Control Workset", tNumCells, mNumNodesPerCell);
+            Plato::WorksetBase<PhysicsT>::worksetControl(aControl, tControlWS, tDomain);
+
+            // create return view
+            //
+            Plato::ScalarMultiVectorT<ResultScalar> tGradient("GradientState", tNumCells, mNumDofsPerCell);
+
+            // evaluate function
+            //
+            mGradientVFunctions.at(tName)->evaluate( tStateWS, tStateDotWS, tControlWS, tConfigWS, tGradient, aTimeStep );
+
+            // assembly to return matrix
+            Plato::BlockMatrixTransposeEntryOrdinal<mNumSpatialDims, mNumDofsPerNode>
+                tGradientMatEntryOrdinal( tGradientMat, &tMesh );
+
+            auto tGradientMatEntries = tGradientMat->entries();
+            Plato::WorksetBase<PhysicsT>::assembleJacobianFad
+                (mNumDofsPerCell, mNumDofsPerCell, tGradientMatEntryOrdinal, tGradient, tGradientMatEntries, tDomain);
+        }
+
+        {
+            // Workset config
+            //
+            Plato::ScalarArray3DT<ConfigScalar> tConfigWS("Config Workset", mNumCells, mNumNodesPerCell, mNumSpatialDims);
+            Plato::WorksetBase<PhysicsT>::worksetConfig(tConfigWS);
+
+            // Workset state
+            //
+            Plato::ScalarMultiVectorT<StateScalar> tStateWS("State Workset", mNumCells, mNumDofsPerCell);
+            Plato::WorksetBase<PhysicsT>::worksetState(aState, tStateWS);
+
+            // Workset prev state
+            //
+            Plato::ScalarMultiVectorT<StateDotScalar> tStateDotWS("StateDot Workset", mNumCells,mNumDofsPerCell);
+            Plato::WorksetBase<PhysicsT>::worksetState(aStateDot, tStateDotWS);
+
+            // Workset control
+            //
+            Plato::ScalarMultiVectorT<ControlScalar> tControlWS("Control Workset", mNumCells, mNumNodesPerCell);
+            Plato::WorksetBase<PhysicsT>::worksetControl(aControl, tControlWS);
+
+            // create return view
+            //
+            Plato::ScalarMultiVectorT<ResultScalar> tGradient("GradientState", mNumCells, mNumDofsPerCell);
+
+            // evaluate function
+            //
+            mBoundaryLoadsGradientVFunction->evaluate_boundary(mSpatialModel, tStateWS, tStateDotWS, tControlWS, tConfigWS, tGradient, aTimeStep );
+
+            // assembly to return matrix
+            Plato::BlockMatrixTransposeEntryOrdinal<mNumSpatialDims, mNumDofsPerNode>
+                tGradientMatEntryOrdinal( tGradientMat, &tMesh );
+
+            auto tGradientMatEntries = tGradientMat->entries();
+            Plato::WorksetBase<PhysicsT>::assembleJacobianFad
+                (mNumDofsPerCell, mNumDofsPerCell, tGradientMatEntryOrdinal, tGradient, tGradientMatEntries);
+        }
+
+        return tGradientMat;
+    }
+
     /**************************************************************************/
     Teuchos::RCP<Plato::CrsMatrixType>
     gradient_z(
-- 
2.43.0


From 4274e0eb335c542784ac9721fe0fd241a6802448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:54 +0000
Subject: [PATCH 42/62] fix: adjoint of structural dynamics used the state's
 boundary values

---
 src/hyperbolic/HyperbolicProblem.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/hyperbolic/HyperbolicProblem.hpp b/src/hyperbolic/HyperbolicProblem.hpp
index 4e640f5..0aef462 100644
--- a/src/hyperbolic/HyperbolicProblem.hpp
+++ b/src/hyperbolic/HyperbolicProblem.hpp
@@ -245,14 +245,25 @@ namespace Plato
           const Plato::ScalarVector & aVector
         )
         /******************************************************************************/
+        {
+            this->applyConstraints(aMatrix, aVector, 1.0);
+        }
+
+        /******************************************************************************/
+        void applyConstraints(
+          const Teuchos::RCP<Plato::CrsMatrixType> & aMatrix,
+          const Plato::ScalarVector & aVector,
+                Plato::Scalar aScale
+        )
+        /******************************************************************************/
         {
             if(mJacobianU->isBlockMatrix())
             {
-                Plato::applyBlockConstraints<mNumDofsPerNode>(aMatrix, aVector, mStateBcDofs, mStateBcValues);
+                Plato::applyBlockConstraints<mNumDofsPerNode>(aMatrix, aVector, mStateBcDofs, mStateBcValues, aScale);
             }
             else
             {
-                Plato::applyConstraints<mNumDofsPerNode>(aMatrix, aVector, mStateBcDofs, mStateBcValues);
+                Plato::applyConstraints<mNumDofsPerNode>(aMatrix, aVector, mStateBcDofs, mStateBcValues, aScale);
             }
         }
         void applyBoundaryLoads(const Plato::ScalarVector & aForce){}
@@ -585,7 +596,7 @@ namespace Plato
                 // R_{u,u^k} -= R_{a,u^k} R_{u,a^k}
                 Plato::blas1::axpy(-tR_au, mJacobianA->entries(), mJacobianU->entries());
 
-                this->applyConstraints(mJacobianU, t_dFdu);
+                this->applyConstraints(mJacobianU, t_dFdu, 0.0);
 
                 // L_u^k
                 mSolver->solve(*mJacobianU, tAdjoint_U, t_dFdu);
@@ -781,7 +792,7 @@ namespace Plato
                 // R_{u,u^k} -= R_{a,u^k} R_{u,a^k}
                 Plato::blas1::axpy(-tR_au, mJacobianA->entries(), mJacobianU->entries());
 
-                this->applyConstraints(mJacobianU, t_dFdu);
+                this->applyConstraints(mJacobianU, t_dFdu, 0.0);
 
                 // L_u^k
                 mSolver->solve(*mJacobianU, tAdjoint_U, t_dFdu);
-- 
2.43.0


From 2afc97bc6f7cb8634890124b8fbaa7e90c99abdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:54 +0000
Subject: [PATCH 43/62] fix: gradients of structural dynamics evaluated the
 loads one time step late

---
 src/hyperbolic/HyperbolicProblem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperbolic/HyperbolicProblem.hpp b/src/hyperbolic/HyperbolicProblem.hpp
index 0aef462..f197cc9 100644
--- a/src/hyperbolic/HyperbolicProblem.hpp
+++ b/src/hyperbolic/HyperbolicProblem.hpp
@@ -501,7 +501,7 @@ namespace Plato
             auto t_dFdz = aCriterion->gradient_z(tSolution, aControl, mTimeStep);
 
             auto tLastStepIndex = mNumSteps - 1;
-            Plato::Scalar tCurrentTime(mTimeStep*mNumSteps);
+            Plato::Scalar tCurrentTime(mTimeStep*tLastStepIndex);
             for(Plato::OrdinalType tStepIndex = tLastStepIndex; tStepIndex > 0; tStepIndex--)
             {
                 auto tU = Kokkos::subview(mDisplacement, tStepIndex, Kokkos::ALL());
@@ -697,7 +697,7 @@ namespace Plato
             auto t_dFdx = aCriterion->gradient_x(tSolution, aControl, mTimeStep);
 
             auto tLastStepIndex = mNumSteps - 1;
-            Plato::Scalar tCurrentTime(mTimeStep*mNumSteps);
+            Plato::Scalar tCurrentTime(mTimeStep*tLastStepIndex);
             for(Plato::OrdinalType tStepIndex = tLastStepIndex; tStepIndex > 0; tStepIndex--) {
 
                 auto tU = Kokkos::subview(mDisplacement, tStepIndex, Kokkos::ALL());
-- 
2.43.0


From 332a60ef7cef0d56e4e803f3b6e8f2fd5698d4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:54 +0000
Subject: [PATCH 44/62] fix: strain and velocity gradient of structural
 dynamics were output as stress

---
 src/hyperbolic/ElastomechanicsResidual.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hyperbolic/ElastomechanicsResidual.hpp b/src/hyperbolic/ElastomechanicsResidual.hpp
index f8b11ab..90bd6a7 100644
--- a/src/hyperbolic/ElastomechanicsResidual.hpp
+++ b/src/hyperbolic/ElastomechanicsResidual.hpp
@@ -235,7 +235,7 @@ class TransientMechanicsResidual :
       }, "Compute Residual");
 
      if( std::count(mPlottable.begin(),mPlottable.end(),"stress") ) toMap(mDataMap, tStress, "stress", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStress, "strain", mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStrain, "strain", mSpatialDomain);
 
       if( mBodyLoads != nullptr )
       {
@@ -341,8 +341,8 @@ class TransientMechanicsResidual :
       }, "Compute Residual");
 
      if( std::count(mPlottable.begin(),mPlottable.end(),"stress") ) toMap(mDataMap, tStress, "stress", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStress, "strain", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"velgrad") ) toMap(mDataMap, tStress, "velgrad", mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStrain, "strain", mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"velgrad") ) toMap(mDataMap, tVelGrad, "velgrad", mSpatialDomain);
 
       if( mBodyLoads != nullptr )
       {
-- 
2.43.0


From dc34c8f36ffb25ecc657ea4bca99f45cd0444a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:54 +0000
Subject: [PATCH 45/62] fix: cubic linear elastic material ignored the mass
 density

---
 src/CubicLinearElasticMaterial.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/CubicLinearElasticMaterial.cpp b/src/CubicLinearElasticMaterial.cpp
index 3b3eed7..0f54b4a 100644
--- a/src/CubicLinearElasticMaterial.cpp
+++ b/src/CubicLinearElasticMaterial.cpp
@@ -19,6 +19,11 @@ CubicLinearElasticMaterial(const Teuchos::ParameterList& paramList) :
 {
     Plato::Scalar tC11 = paramList.get<Plato::Scalar>("C11");
     mCellStiffness(0, 0) = tC11;
+
+    if(paramList.isType<Plato::Scalar>("Mass Density"))
+    {
+        mCellDensity = paramList.get<Plato::Scalar>("Mass Density");
+    }
 }
 
 /******************************************************************************//**
@@ -38,6 +43,11 @@ CubicLinearElasticMaterial(const Teuchos::ParameterList& paramList) :
     mCellStiffness(1, 0) = tC12;
     mCellStiffness(1, 1) = tC11;
     mCellStiffness(2, 2) = tC44;
+
+    if(paramList.isType<Plato::Scalar>("Mass Density"))
+    {
+        mCellDensity = paramList.get<Plato::Scalar>("Mass Density");
+    }
 }
 
 /******************************************************************************//**
@@ -64,6 +74,11 @@ CubicLinearElasticMaterial(const Teuchos::ParameterList& paramList) :
     mCellStiffness(3, 3) = tC44;
     mCellStiffness(4, 4) = tC44;
     mCellStiffness(5, 5) = tC44;
+
+    if(paramList.isType<Plato::Scalar>("Mass Density"))
+    {
+        mCellDensity = paramList.get<Plato::Scalar>("Mass Density");
+    }
 }
 
 }
-- 
2.43.0


From a44244f876ac5bd33903073bd87dd68bebc8bff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:18 +0000
Subject: [PATCH 46/62] fix: gradients of the stress p-norm of structural
 dynamics were scaled by one step's norm

---
 .../HyperbolicAbstractScalarFunction.hpp      |  6 +++
 .../HyperbolicPhysicsScalarFunction.hpp       | 45 ++++++++++++++++---
 src/hyperbolic/HyperbolicStressPNorm.hpp      |  8 ++++
 3 files changed, 53 insertions(+), 6 deletions(-)

diff --git a/src/hyperbolic/HyperbolicAbstractScalarFunction.hpp b/src/hyperbolic/HyperbolicAbstractScalarFunction.hpp
index fca1528..59c1598 100644
--- a/src/hyperbolic/HyperbolicAbstractScalarFunction.hpp
+++ b/src/hyperbolic/HyperbolicAbstractScalarFunction.hpp
@@ -85,6 +85,12 @@ public:
     virtual void postEvaluate(Plato::Scalar&)
     { return; }
 
+    /******************************************************************************//**
+     * @brief Return true if post evaluation changes the sum of the local contributions
+    **********************************************************************************/
+    virtual bool hasPostEvaluate() const
+    { return false; }
+
     /******************************************************************************//**
      * @brief Return name of time-dependent scalar function
      * @return function name
diff --git a/src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp b/src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp
index 9004f02..f5bd90b 100644
--- a/src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp
+++ b/src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp
@@ -148,18 +148,18 @@ public:
     }
 
     /******************************************************************************//**
-     * @brief Evaluate physics scalar function
+     * @brief Sum local contributions over elements and time steps
      * @param [in] aSolution Plato::Solution composed of state variables
      * @param [in] aControl 1D view of control variables
-     * @param [in] aTimeStep time step (default = 0.0)
-     * @return scalar physics function evaluation
+     * @param [in] aTimeStep time step
+     * @return sum before post evaluation
     **********************************************************************************/
     Plato::Scalar
-    value(
+    sum(
         const Plato::Solution     & aSolution,
         const Plato::ScalarVector & aControl,
-              Plato::Scalar         aTimeStep = 0.0
-    ) const override
+              Plato::Scalar         aTimeStep
+    ) const
     {
         using ConfigScalar      = typename Residual::ConfigScalarType;
         using StateScalar       = typename Residual::StateScalarType;
@@ -226,6 +226,24 @@ public:
                 tReturnVal += Plato::local_result_sum<Plato::Scalar>( tNumCells, tResult);
             }
         }
+        return tReturnVal;
+    }
+
+    /******************************************************************************//**
+     * @brief Evaluate physics scalar function
+     * @param [in] aSolution Plato::Solution composed of state variables
+     * @param [in] aControl 1D view of control variables
+     * @param [in] aTimeStep time step (default = 0.0)
+     * @return scalar physics function evaluation
+    **********************************************************************************/
+    Plato::Scalar
+    value(
+        const Plato::Solution     & aSolution,
+        const Plato::ScalarVector & aControl,
+              Plato::Scalar         aTimeStep = 0.0
+    ) const override
+    {
+        auto tReturnVal = this->sum(aSolution, aControl, aTimeStep);
         auto tName = mSpatialModel.Domains.front().getDomainName();
         mValueFunctions.at(tName)->postEvaluate( tReturnVal );
 
@@ -400,6 +418,11 @@ public:
             tValue += Plato::assemble_scalar_func_value<Plato::Scalar>(tNumCells, tResult);
         }
         auto tName = mSpatialModel.Domains.front().getDomainName();
+        if( mGradientUFunctions.at(tName)->hasPostEvaluate() )
+        {
+            // post evaluation depends on the sum over all steps
+            tValue = this->sum(aSolution, aControl, aTimeStep);
+        }
         mGradientUFunctions.at(tName)->postEvaluate( tObjGradientU, tValue );
 
         return tObjGradientU;
@@ -484,6 +507,11 @@ public:
             tValue += Plato::assemble_scalar_func_value<Plato::Scalar>(tNumCells, tResult);
         }
         auto tName = mSpatialModel.Domains.front().getDomainName();
+        if( mGradientVFunctions.at(tName)->hasPostEvaluate() )
+        {
+            // post evaluation depends on the sum over all steps
+            tValue = this->sum(aSolution, aControl, aTimeStep);
+        }
         mGradientVFunctions.at(tName)->postEvaluate( tObjGradientV, tValue );
 
         return tObjGradientV;
@@ -568,6 +596,11 @@ public:
             tValue += Plato::assemble_scalar_func_value<Plato::Scalar>(tNumCells, tResult);
         }
         auto tName = mSpatialModel.Domains.front().getDomainName();
+        if( mGradientAFunctions.at(tName)->hasPostEvaluate() )
+        {
+            // post evaluation depends on the sum over all steps
+            tValue = this->sum(aSolution, aControl, aTimeStep);
+        }
         mGradientAFunctions.at(tName)->postEvaluate( tObjGradientA, tValue );
 
         return tObjGradientA;
diff --git a/src/hyperbolic/HyperbolicStressPNorm.hpp b/src/hyperbolic/HyperbolicStressPNorm.hpp
index f6b71b4..e592f49 100644
--- a/src/hyperbolic/HyperbolicStressPNorm.hpp
+++ b/src/hyperbolic/HyperbolicStressPNorm.hpp
@@ -133,6 +133,14 @@ class StressPNorm :
       mNorm->evaluate(aResult, tStress, aControl, tCellVolume);
     }
 
+    /**************************************************************************/
+    bool
+    hasPostEvaluate() const override
+    /**************************************************************************/
+    {
+      return true;
+    }
+
     /**************************************************************************/
     void
     postEvaluate( 
-- 
2.43.0


From f508200fc209057ee30127cc77abed585e7f6d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:27 +0000
Subject: [PATCH 47/62] fix: output fields of transient thermomechanics kept
 only the last block

---
 src/parabolic/TransientThermomechResidual.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parabolic/TransientThermomechResidual.hpp b/src/parabolic/TransientThermomechResidual.hpp
index 5862334..17fbea4 100644
--- a/src/parabolic/TransientThermomechResidual.hpp
+++ b/src/parabolic/TransientThermomechResidual.hpp
@@ -239,8 +239,8 @@ class TransientThermomechResidual :
 
       },"stress and flux divergence");
 
-      if(std::count(mPlotTable.begin(), mPlotTable.end(), "strain")) { Plato::toMap(mDataMap, tStrain, "strain"); }
-      if(std::count(mPlotTable.begin(), mPlotTable.end(), "stress")) { Plato::toMap(mDataMap, tStress, "stress"); }
+      if(std::count(mPlotTable.begin(), mPlotTable.end(), "strain")) { Plato::toMap(mDataMap, tStrain, "strain", mSpatialDomain); }
+      if(std::count(mPlotTable.begin(), mPlotTable.end(), "stress")) { Plato::toMap(mDataMap, tStress, "stress", mSpatialDomain); }
     }
 
     /**************************************************************************/
-- 
2.43.0


From 711b92a2c93d9628a90831f30f8e7fccee8362ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:27 +0000
Subject: [PATCH 48/62] fix: electric fields of electromechanics were output as
 strain and stress, and could not be requested

---
 src/elliptic/ElectroelastostaticResidual.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/elliptic/ElectroelastostaticResidual.hpp b/src/elliptic/ElectroelastostaticResidual.hpp
index e4fcf39..c945f73 100644
--- a/src/elliptic/ElectroelastostaticResidual.hpp
+++ b/src/elliptic/ElectroelastostaticResidual.hpp
@@ -118,7 +118,7 @@ public:
                 (aProblemParams.sublist("Electrical Natural Boundary Conditions"));
         }
   
-        auto tResidualParams = aProblemParams.sublist("Electroelastostatics");
+        auto tResidualParams = aProblemParams.sublist("Elliptic");
         if( tResidualParams.isType<Teuchos::Array<std::string>>("Plottable") )
         {
             mPlottable = tResidualParams.get<Teuchos::Array<std::string>>("Plottable").toVector();
@@ -194,9 +194,9 @@ public:
       }
 
      if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, strain, "strain", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"efield") ) toMap(mDataMap, strain, "efield", mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"efield") ) toMap(mDataMap, efield, "efield", mSpatialDomain);
      if( std::count(mPlottable.begin(),mPlottable.end(),"stress") ) toMap(mDataMap, stress, "stress", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"edisp" ) ) toMap(mDataMap, stress, "edisp" , mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"edisp" ) ) toMap(mDataMap, edisp, "edisp" , mSpatialDomain);
 
     }
     /**************************************************************************/
-- 
2.43.0


From 384b0e4bfeff4f84de9e086f427103366da9e9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:50 +0000
Subject: [PATCH 49/62] fix: component loads refused or misplaced the y and z
 components of mixed problems

---
 src/NaturalBCs.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/NaturalBCs.hpp b/src/NaturalBCs.hpp
index 43a3665..9ae17c4 100644
--- a/src/NaturalBCs.hpp
+++ b/src/NaturalBCs.hpp
@@ -189,6 +189,13 @@ NaturalBCs<SpatialDim, NumDofs, DofsPerNode, DofOffset>::setUniformNaturalBC
     {
 
         auto tDof = aSubList.get<Plato::OrdinalType>("Index", 0);
+        if(tDof < 0 || tDof >= NumDofs)
+        {
+            std::stringstream tMsg;
+            tMsg << "Natural Boundary Condition: 'Index' Parameter Keyword in Parameter Sublist: '"
+                << aName.c_str() << "' is out of range.";
+            THROWERR(tMsg.str().c_str())
+        }
 
         if(aSubList.isType<Plato::Scalar>("Value"))
         {
@@ -279,12 +286,12 @@ NaturalBCs<SpatialDim, NumDofs, DofsPerNode, DofOffset>::setUniformComponentNatu
         tFluxVector[0] = tValue;
     }
     else
-    if( (tFluxComponent == "y" || tFluxComponent == "Y") && DofsPerNode > 1 )
+    if( (tFluxComponent == "y" || tFluxComponent == "Y") && NumDofs > 1 )
     {
         tFluxVector[1] = tValue;
     }
     else
-    if( (tFluxComponent == "z" || tFluxComponent == "Z") && DofsPerNode > 2 )
+    if( (tFluxComponent == "z" || tFluxComponent == "Z") && NumDofs > 2 )
     {
         tFluxVector[2] = tValue;
     }
-- 
2.43.0


From 509487150962049b76abfdf6dc3906bbbbdff013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:50 +0000
Subject: [PATCH 50/62] fix: loads of plasticity took one value per dof and
 never checked how many values a load gives

---
 src/InfinitesimalStrainPlasticityResidual.hpp | 4 ++--
 src/NaturalBC.hpp                             | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/InfinitesimalStrainPlasticityResidual.hpp b/src/InfinitesimalStrainPlasticityResidual.hpp
index 8f77b2c..41479ee 100644
--- a/src/InfinitesimalStrainPlasticityResidual.hpp
+++ b/src/InfinitesimalStrainPlasticityResidual.hpp
@@ -100,7 +100,7 @@ private:
 
     std::shared_ptr<Plato::BodyLoads<EvaluationType, SimplexPhysicsType>> mBodyLoads;   /*!< body loads interface */
     std::shared_ptr<CubatureType> mCubatureRule;                                        /*!< linear cubature rule */
-    std::shared_ptr<Plato::NaturalBCs<mSpaceDim, mNumGlobalDofsPerNode>> mNeumannLoads; /*!< Neumann loads interface */
+    std::shared_ptr<Plato::NaturalBCs<mSpaceDim, mNumMechDims, mNumGlobalDofsPerNode, mMechDofOffset>> mNeumannLoads; /*!< Neumann loads interface */
 
 // Private access functions
 private:
@@ -181,7 +181,7 @@ private:
             if(tNaturalBCsParams.isSublist("Mechanical Natural Boundary Conditions"))
             {
                 mNeumannLoads =
-                std::make_shared<Plato::NaturalBCs<mSpaceDim, mNumGlobalDofsPerNode>> (tNaturalBCsParams.sublist("Mechanical Natural Boundary Conditions"));
+                std::make_shared<Plato::NaturalBCs<mSpaceDim, mNumMechDims, mNumGlobalDofsPerNode, mMechDofOffset>> (tNaturalBCsParams.sublist("Mechanical Natural Boundary Conditions"));
             }
 
         }
diff --git a/src/NaturalBC.hpp b/src/NaturalBC.hpp
index c7f2a42..6323358 100644
--- a/src/NaturalBC.hpp
+++ b/src/NaturalBC.hpp
@@ -97,6 +97,10 @@ public:
         if (tIsValue)
         {
             auto tFlux = aSubList.get<Teuchos::Array<Plato::Scalar>>("Vector");
+            if(tFlux.size() < NumDofs)
+            {
+                THROWERR("Natural Boundary Condition: fewer 'Values' than degrees of freedom in Parameter Sublist: '" + mName + "'.")
+            }
             for(Plato::OrdinalType tDof=0; tDof<NumDofs; tDof++)
             {
                 mFlux(tDof) = tFlux[tDof];
@@ -106,6 +110,10 @@ public:
         if (tIsExpr)
         {
             auto tExpr = aSubList.get<Teuchos::Array<std::string>>("Vector");
+            if(tExpr.size() < NumDofs)
+            {
+                THROWERR("Natural Boundary Condition: fewer 'Values' than degrees of freedom in Parameter Sublist: '" + mName + "'.")
+            }
             for(Plato::OrdinalType tDof=0; tDof<NumDofs; tDof++)
             {
                 mFluxExpr[tDof] = std::make_shared<Plato::MathExpr>(tExpr[tDof]);
-- 
2.43.0


From c9f9de2f079d6c5b0d05509cae11a68a6e70617b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:50 +0000
Subject: [PATCH 51/62] fix: local residuals and their control and shape
 derivatives mixed up cells when a mesh has several blocks

---
 src/LocalVectorFunctionInc.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LocalVectorFunctionInc.hpp b/src/LocalVectorFunctionInc.hpp
index cdff3f8..d41cc70 100644
--- a/src/LocalVectorFunctionInc.hpp
+++ b/src/LocalVectorFunctionInc.hpp
@@ -374,7 +374,7 @@ public:
                                                    tLocalStateWS,  tPrevLocalStateWS,
                                                    tControlWS, tConfigWS, tResidualWS, aTimeStep);
 
-            Plato::flatten_vector_workset<mNumLocalDofsPerCell>(tNumCells, tResidualWS, tResidualVector);
+            Plato::flatten_vector_workset<mNumLocalDofsPerCell>(tDomain, tResidualWS, tResidualVector);
         }
         return tResidualVector;
     }
@@ -505,7 +505,7 @@ public:
             // Workset global state
             //
             Plato::ScalarMultiVectorT<StateScalar> tGlobalStateWS("State Workset", tNumCells, mNumGlobalDofsPerCell);
-            mWorksetBase.worksetState(aGlobalState, tGlobalStateWS);
+            mWorksetBase.worksetState(aGlobalState, tGlobalStateWS, tDomain);
 
             // Workset prev global state
             //
@@ -937,7 +937,7 @@ public:
                                                     tLocalStateWS,  tPrevLocalStateWS, 
                                                     tControlWS, tConfigWS, tJacobianWS, aTimeStep);
 
-            Plato::transform_ad_type_to_pod_3Dview<mNumLocalDofsPerCell, mNumNodesPerCell>(mNumCells, tJacobianWS, tOutputJacobian);
+            Plato::transform_ad_type_to_pod_3Dview<mNumLocalDofsPerCell, mNumNodesPerCell>(tDomain, tJacobianWS, tOutputJacobian);
         }
         return tOutputJacobian;
     }
-- 
2.43.0


From aa6f9f277fd2752a2e8892223610eacf9445e7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:50 +0000
Subject: [PATCH 52/62] fix: shape gradient of path-dependent criteria always
 failed

---
 src/BasicLocalScalarFunction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BasicLocalScalarFunction.hpp b/src/BasicLocalScalarFunction.hpp
index c7eb1ed..d598e3d 100644
--- a/src/BasicLocalScalarFunction.hpp
+++ b/src/BasicLocalScalarFunction.hpp
@@ -657,7 +657,7 @@ public:
                                                     tControlWS, tConfigWS, tResultWS, aTimeStep);
 
             // convert AD types to POD types
-            Plato::transform_ad_type_to_pod_2Dview<mNumSpatialDims>(tDomain, tResultWS, tCriterionPartialWrtConfiguration);
+            Plato::transform_ad_type_to_pod_2Dview<mNumConfigDofsPerCell>(tDomain, tResultWS, tCriterionPartialWrtConfiguration);
         }
         Plato::blas2::scale(mMultiplier, tCriterionPartialWrtConfiguration);
 
-- 
2.43.0


From 9194b8190ff595da1d0afc68291b3c5b8b3a4805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:50 +0000
Subject: [PATCH 53/62] fix: shape derivative of the plasticity residual left
 out the boundary loads

---
 src/GlobalVectorFunctionInc.hpp | 75 +++++++++++++++++++++++++++++++++
 1 file changed, 75 insertions(+)

diff --git a/src/GlobalVectorFunctionInc.hpp b/src/GlobalVectorFunctionInc.hpp
index 489edc4..70e893d 100644
--- a/src/GlobalVectorFunctionInc.hpp
+++ b/src/GlobalVectorFunctionInc.hpp
@@ -370,6 +370,75 @@ private:
         return (tJacobianWS);
     }
 
+    /***************************************************************************//**
+     * \brief Evaluate Jacobian of the boundary loads with respect to configuration
+     * \param [in] aCurrentGlobalState current global state
+     * \param [in] aPrevGlobalState    previous global state
+     * \param [in] aCurrentLocalState  current local state
+     * \param [in] aPrevLocalState     previous local state
+     * \param [in] aProjPressGrad      projected pressure gradient
+     * \param [in] aControls           control, i.e. design, variables
+     * \param [in] aTimeStep           current time step
+     * \return Jacobian of the boundary loads with respect to configuration for each cell
+    *******************************************************************************/
+    Plato::ScalarMultiVectorT<typename GradientX::ResultScalarType>
+    jacobianConfigurationBoundaryWorkset(
+        const Plato::ScalarVector  & aCurrentGlobalState,
+        const Plato::ScalarVector  & aPrevGlobalState,
+        const Plato::ScalarVector  & aCurrentLocalState,
+        const Plato::ScalarVector  & aPrevLocalState,
+        const Plato::ScalarVector  & aProjPressGrad,
+        const Plato::ScalarVector  & aControls,
+        const Plato::Scalar        & aTimeStep
+    ) const
+    {
+        // Workset config
+        using ConfigScalar = typename GradientX::ConfigScalarType;
+        Plato::ScalarArray3DT<ConfigScalar> tConfigWS("Configuration Workset", mNumCells, mNumNodesPerCell, mNumSpatialDims);
+        mWorksetBase.worksetConfig(tConfigWS);
+
+        // Workset current global state
+        using GlobalStateScalar = typename GradientX::StateScalarType;
+        Plato::ScalarMultiVectorT<GlobalStateScalar> tCurrentGlobalStateWS("Current Global State Workset", mNumCells, mNumGlobalDofsPerCell);
+        mWorksetBase.worksetState(aCurrentGlobalState, tCurrentGlobalStateWS);
+
+        // Workset previous global state
+        using PrevGlobalStateScalar = typename GradientX::PrevStateScalarType;
+        Plato::ScalarMultiVectorT<PrevGlobalStateScalar> tPrevGlobalStateWS("Previous Global State Workset", mNumCells, mNumGlobalDofsPerCell);
+        mWorksetBase.worksetState(aPrevGlobalState, tPrevGlobalStateWS);
+
+        // Workset local state
+        using LocalStateScalar = typename GradientX::LocalStateScalarType;
+        Plato::ScalarMultiVectorT<LocalStateScalar> tCurrentLocalStateWS("Current Local State Workset", mNumCells, mNumLocalDofsPerCell);
+        mWorksetBase.worksetLocalState(aCurrentLocalState, tCurrentLocalStateWS);
+
+        // Workset previous local state
+        using PrevLocalStateScalar = typename GradientX::PrevLocalStateScalarType;
+        Plato::ScalarMultiVectorT<PrevLocalStateScalar> tPrevLocalStateWS("Previous Local State Workset", mNumCells, mNumLocalDofsPerCell);
+        mWorksetBase.worksetLocalState(aPrevLocalState, tPrevLocalStateWS);
+
+        // Workset node state, i.e. projected pressure gradient
+        using NodeStateScalar = typename GradientX::NodeStateScalarType;
+        Plato::ScalarMultiVectorT<NodeStateScalar> tProjPressGradWS("Projected Pressure Gradient Workset", mNumCells, mNumNodeStatePerCell);
+        mWorksetBase.worksetNodeState(aProjPressGrad, tProjPressGradWS);
+
+        // Workset control
+        using ControlScalar = typename GradientX::ControlScalarType;
+        Plato::ScalarMultiVectorT<ControlScalar> tControlWS("Control Workset", mNumCells, mNumNodesPerCell);
+        mWorksetBase.worksetControl(aControls, tControlWS);
+
+        // create return view
+        using JacobianScalar = typename GradientX::ResultScalarType;
+        Plato::ScalarMultiVectorT<JacobianScalar> tJacobianWS("Jacobian Configuration Boundary", mNumCells, mNumGlobalDofsPerCell);
+
+        // Evaluate boundary loads - compute Jacobian wrt configuration
+        mBoundaryLoadsJacobianXFunction->evaluate_boundary(mSpatialModel, tCurrentGlobalStateWS, tPrevGlobalStateWS,
+                                                           tCurrentLocalStateWS, tPrevLocalStateWS,
+                                                           tProjPressGradWS, tControlWS, tConfigWS,
+                                                           tJacobianWS, aTimeStep);
+        return (tJacobianWS);
+    }
+
     /***************************************************************************//**
      * \brief Evaluate Jacobian of residual with respect to current global states
      * \param [in] aCurrentGlobalState current global state
@@ -999,6 +1068,12 @@ public:
                                                                   aProjPressGrad, aControls, aTimeStep, tDomain);
             Plato::transform_ad_type_to_pod_3Dview<mNumGlobalDofsPerCell, mNumConfigDofsPerCell>(tDomain, tJacobianWS, tOutputJacobian);
         }
+
+        auto tBoundaryJacobianWS = this->jacobianConfigurationBoundaryWorkset(aCurrentGlobalState, aPrevGlobalState,
+                                                                              aCurrentLocalState, aPrevLocalState,
+                                                                              aProjPressGrad, aControls, aTimeStep);
+        Plato::transform_ad_type_to_pod_3Dview<mNumGlobalDofsPerCell, mNumConfigDofsPerCell>(mNumCells, tBoundaryJacobianWS, tOutputJacobian);
+
         return tOutputJacobian;
     }
 
-- 
2.43.0


From 3d7428ef2d51d6c85a1c2cf98e396cfe113e7de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:45 +0000
Subject: [PATCH 54/62] fix: shape gradient of plasticity problems had the
 length of one cell

---
 src/PlasticityProblem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PlasticityProblem.hpp b/src/PlasticityProblem.hpp
index a17bd44..c74ad49 100644
--- a/src/PlasticityProblem.hpp
+++ b/src/PlasticityProblem.hpp
@@ -676,7 +676,7 @@ public:
 
         this->shouldOptimizationProblemStop();
         mAdjointSolver->appendScalarFunction(aCriterion);
-        Plato::ScalarVector tTotalDerivative("Total Derivative", mNumConfigDofsPerCell);
+        Plato::ScalarVector tTotalDerivative("Total Derivative", mGlobalEquation->numNodes() * mSpaceDim);
         this->backwardTimeIntegration(Plato::PartialDerivative::CONFIGURATION, aControls, tTotalDerivative);
         this->addCriterionPartialDerivativeX(*aCriterion, aControls, tTotalDerivative);
 
-- 
2.43.0


From b9a38cb9c85ed0bc07efa387f8eac7474ff715e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:45 +0000
Subject: [PATCH 55/62] fix: reaction forces of plasticity problems added up
 over repeated solves

---
 src/PlasticityProblem.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PlasticityProblem.hpp b/src/PlasticityProblem.hpp
index c74ad49..a01fa3f 100644
--- a/src/PlasticityProblem.hpp
+++ b/src/PlasticityProblem.hpp
@@ -800,6 +800,7 @@ private:
         Plato::blas2::fill(static_cast<Plato::Scalar>(0.0), mLocalStates);
         Plato::blas2::fill(static_cast<Plato::Scalar>(0.0), mGlobalStates);
         Plato::blas2::fill(static_cast<Plato::Scalar>(0.0), mProjectedPressGrad);
+        Plato::blas2::fill(static_cast<Plato::Scalar>(0.0), mReactionForce);
 
         bool tForwardProblemSolved = false;
         for(Plato::OrdinalType tCurrentStepIndex = 0; tCurrentStepIndex < mNumPseudoTimeSteps; tCurrentStepIndex++)
-- 
2.43.0


From 108dd1e7381097a92d3eea138a37effa4654b168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:45 +0000
Subject: [PATCH 56/62] fix: plasticity gradients left out the loads

---
 src/PlasticityProblem.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PlasticityProblem.hpp b/src/PlasticityProblem.hpp
index a01fa3f..bb9dfba 100644
--- a/src/PlasticityProblem.hpp
+++ b/src/PlasticityProblem.hpp
@@ -1056,6 +1056,7 @@ private:
 
             this->updateForwardState(tCurrentStates);
             this->updateAdjointState(tAdjointStates);
+            mDataMap.mScalarValues["LoadControlConstant"] = mPseudoTimeStep * static_cast<Plato::Scalar>(tCurrentStates.mCurrentStepIndex + 1);
 
             mAdjointSolver->updateAdjointVariables(aControls, tCurrentStates, tPreviousStates, tAdjointStates);
             mAdjointSolver->addContributionFromPDE(aControls, tCurrentStates, tAdjointStates, aTotalDerivative);
-- 
2.43.0


From 8cbfcbe362b382e4704d6b9f0acc148165532932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:17 +0000
Subject: [PATCH 57/62] fix: stabilized residuals of the first block were
 updated twice

---
 src/VectorFunctionVMS.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/VectorFunctionVMS.hpp b/src/VectorFunctionVMS.hpp
index b2ee93c..9597732 100644
--- a/src/VectorFunctionVMS.hpp
+++ b/src/VectorFunctionVMS.hpp
@@ -1385,12 +1385,6 @@ public:
             mJacobianXFunctions.at(tName)->updateProblem(aStates, aControls, aTimeStep);
             mJacobianZFunctions.at(tName)->updateProblem(aStates, aControls, aTimeStep);
         }
-
-        mBoundaryLoadsResidualFunction->updateProblem(aStates, aControls, aTimeStep);
-        mBoundaryLoadsJacobianUFunction->updateProblem(aStates, aControls, aTimeStep);
-        mBoundaryLoadsJacobianNFunction->updateProblem(aStates, aControls, aTimeStep);
-        mBoundaryLoadsJacobianXFunction->updateProblem(aStates, aControls, aTimeStep);
-        mBoundaryLoadsJacobianZFunction->updateProblem(aStates, aControls, aTimeStep);
     }
 };
 // class VectorFunctionVMS
-- 
2.43.0


From 5cf92751d23a71872b1d3aa189c1e3fb9ac7646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:17 +0000
Subject: [PATCH 58/62] fix: plasticity gradients differentiated the projected
 pressure gradient of the wrong step

---
 src/PathDependentAdjointSolver.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/PathDependentAdjointSolver.hpp b/src/PathDependentAdjointSolver.hpp
index 9e89155..193f2ef 100644
--- a/src/PathDependentAdjointSolver.hpp
+++ b/src/PathDependentAdjointSolver.hpp
@@ -529,7 +529,9 @@ private:
         // add projected pressure gradient adjoint contribution to total gradient, i.e. DfDz += (DpDz)^T * gamma
         Plato::ScalarMultiVector tCurrentGamma("Current Projected Pressure Gradient Adjoint", tNumCells, mNumPressGradDofsPerCell);
         mWorksetBase.worksetNodeState(aAdjointVars.mProjPressGradAdjoint, tCurrentGamma);
-        auto tDpDz = mProjectionEquation->gradient_z_workset(aStateVars.mProjectedPressGrad, aStateVars.mPressure,
+        Plato::ScalarVector tPreviousPressure("Previous Pressure Field", aStateVars.mPressure.size());
+        Plato::blas1::extract<mNumGlobalDofsPerNode, mPressureDofOffset>(aStateVars.mPreviousGlobalState, tPreviousPressure);
+        auto tDpDz = mProjectionEquation->gradient_z_workset(aStateVars.mProjectedPressGrad, tPreviousPressure,
                                                              aControls, aStateVars.mCurrentStepIndex);
         tBeta = 1.0;
         Plato::blas2::matrix_times_vector("T", tAlpha, tDpDz, tCurrentGamma, tBeta, tGradientControl);
@@ -587,7 +589,9 @@ private:
         // add projected pressure gradient adjoint contribution to total gradient, i.e. DfDx += (DpDx)^T * gamma
         Plato::ScalarMultiVector tCurrentGamma("Current Projected Pressure Gradient Adjoint", tNumCells, mNumPressGradDofsPerCell);
         mWorksetBase.worksetNodeState(aAdjointVars.mProjPressGradAdjoint, tCurrentGamma);
-        auto tDpDx = mProjectionEquation->gradient_x_workset(aStateVars.mProjectedPressGrad, aStateVars.mPressure,
+        Plato::ScalarVector tPreviousPressure("Previous Pressure Field", aStateVars.mPressure.size());
+        Plato::blas1::extract<mNumGlobalDofsPerNode, mPressureDofOffset>(aStateVars.mPreviousGlobalState, tPreviousPressure);
+        auto tDpDx = mProjectionEquation->gradient_x_workset(aStateVars.mProjectedPressGrad, tPreviousPressure,
                                                              aControls, aStateVars.mCurrentStepIndex);
         tBeta = 1.0;
         Plato::blas2::matrix_times_vector("T", tAlpha, tDpDx, tCurrentGamma, tBeta, tGradientConfiguration);
-- 
2.43.0


From 3ca8897be705f3a5f7176fdf2442331eb9a242c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:44 +0000
Subject: [PATCH 59/62] fix: principal values of small 3D tensors ignored the
 shear components

---
 src/Eigenvalues.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Eigenvalues.hpp b/src/Eigenvalues.hpp
index bc591be..e160f93 100644
--- a/src/Eigenvalues.hpp
+++ b/src/Eigenvalues.hpp
@@ -120,7 +120,8 @@ Eigenvalues<3>::operator()(const Plato::OrdinalType & aCellOrdinal,
         q = tCondition5 ? tOne : tTwo;
 
         // ########## Compute rotation sine and cosine ##########
-        auto tCondition6 = fabs(tTensor[p][q]) > 1.0e-15;
+        auto tCondition6 = fabs(tTensor[p][q]) > 1.0e-15 *
+            (fabs(tTensor[0][0]) + fabs(tTensor[1][1]) + fabs(tTensor[2][2]) + fabs(tTensor[p][q]));
         tTau = tZeroScalar;
         if (tCondition6)
             tTau = (tTensor[q][q] - tTensor[p][p]) / (tTwoScalar * tTensor[p][q]);
-- 
2.43.0


From 1817e22d870134b67036ed7684bcfd881ec3e332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:06 +0000
Subject: [PATCH 60/62] fix: deviatoric stress of 2D stabilized mixed
 elasticity removed a third of the in-plane trace

---
 src/Kinetics.hpp   | 2 +-
 src/TMKinetics.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Kinetics.hpp b/src/Kinetics.hpp
index 8169266..69efc89 100644
--- a/src/Kinetics.hpp
+++ b/src/Kinetics.hpp
@@ -97,7 +97,7 @@ public:
         }
         for(Plato::OrdinalType tDimIndex = 0; tDimIndex < SpaceDim; tDimIndex++)
         {
-            aDevStress(aCellOrdinal, tDimIndex) -= tTraceStress / static_cast<Plato::Scalar>(3.0);
+            aDevStress(aCellOrdinal, tDimIndex) -= tTraceStress / static_cast<Plato::Scalar>(SpaceDim);
         }
         //printf("DevStress(%d,1) = %.10f\n", aCellOrdinal, aDevStress(aCellOrdinal,0));
         //printf("DevStress(%d,2) = %.10f\n", aCellOrdinal, aDevStress(aCellOrdinal,1));
diff --git a/src/TMKinetics.hpp b/src/TMKinetics.hpp
index dc7192d..6d74ee7 100644
--- a/src/TMKinetics.hpp
+++ b/src/TMKinetics.hpp
@@ -257,7 +257,7 @@ class StabilizedTMKinetics : public Plato::SimplexStabilizedThermomechanics<Spac
         trace += aDevStress(cellOrdinal,iDim);
       }
       for( int iDim=0; iDim<SpaceDim; iDim++ ){
-        aDevStress(cellOrdinal,iDim) -= trace/3.0;
+        aDevStress(cellOrdinal,iDim) -= trace/static_cast<Plato::Scalar>(SpaceDim);
       }
 
       // compute flux
-- 
2.43.0


From 49fb4803f1c644149853a39f8b38389a2a85e60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:06 +0000
Subject: [PATCH 61/62] fix: stabilized elastic energy left out the shear
 stresses

---
 src/StabilizedElastostaticEnergy.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/StabilizedElastostaticEnergy.hpp b/src/StabilizedElastostaticEnergy.hpp
index 2fca5cc..41e6137 100644
--- a/src/StabilizedElastostaticEnergy.hpp
+++ b/src/StabilizedElastostaticEnergy.hpp
@@ -164,6 +164,10 @@ class StabilizedElastostaticEnergy :
         {
             tTotStress(cellOrdinal,i) = tDevStress(cellOrdinal,i) + tPressure(cellOrdinal);
         }
+        for( int i=mSpaceDim; i<mNumVoigtTerms; i++)
+        {
+            tTotStress(cellOrdinal,i) = tDevStress(cellOrdinal,i);
+        }
 
         // apply weighting
         //
-- 
2.43.0


From 22027d34f7352fb952aed8389e01fad323beb97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:06 +0000
Subject: [PATCH 62/62] fix: criteria of stabilized mechanics ignored their own
 penalty function

---
 src/StabilizedMechanics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StabilizedMechanics.hpp b/src/StabilizedMechanics.hpp
index 1e43d07..4875a8d 100644
--- a/src/StabilizedMechanics.hpp
+++ b/src/StabilizedMechanics.hpp
@@ -116,7 +116,7 @@ struct FunctionFactory
     /******************************************************************************/
     {
         std::shared_ptr<Plato::Elliptic::AbstractScalarFunction<EvaluationType>> tOutput;
-        auto tPenaltyParams = aParamList.sublist(aFuncName).sublist("Penalty Function");
+        auto tPenaltyParams = aParamList.sublist("Criteria").sublist(aFuncName).sublist("Penalty Function");
         if( aFuncType == "Internal Elastic Energy" )
         {
             std::string tPenaltyType = tPenaltyParams.get<std::string>("Type", "SIMP");
-- 
2.43.0

