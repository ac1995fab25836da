From 2ca3cc303f28b41e29ef348654a503f680ee1219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:29 +0000
Subject: [PATCH 1/9] fix: use the correct sign in the incremental rotation of
 the correspondence models

The rotation increment is the exponential of the spin, I + sin(w dt)/w W + (1 - cos(w dt))/w^2 W^2.
The last term was subtracted, so the tensor was not a rotation: its columns had norm squared 5 - 4 cos(w dt)
on the plane of rotation, and the accumulated rotation drifted away from orthogonality in every step.
---
 src/materials/correspondence.cxx | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/materials/correspondence.cxx b/src/materials/correspondence.cxx
index 2588ba0..f845b7f 100644
--- a/src/materials/correspondence.cxx
+++ b/src/materials/correspondence.cxx
@@ -1134,10 +1134,10 @@ int computeUnrotatedRateOfDeformationAndRotationTensor
     // Avoid a potential divide-by-zero
     if( OmegaSq > 1.e-30){
 
-      // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega - (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
+      // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega + (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
       //           = I + scaleFactor1 * OmegaTensor + scaleFactor2 * OmegaTensorSq
       scaleFactor1 = sin(dt*Omega) / Omega;
-      scaleFactor2 = -(1.0 - cos(dt*Omega)) / OmegaSq;
+      scaleFactor2 = (1.0 - cos(dt*Omega)) / OmegaSq;
       MatrixMultiply(false, false, 1.0, OmegaTensor, OmegaTensor, OmegaTensorSq);
       *(QMatrix)   = 1.0 + scaleFactor1 * *(OmegaTensor)   + scaleFactor2 * *(OmegaTensorSq)   ;
       *(QMatrix+1) =       scaleFactor1 * *(OmegaTensor+1) + scaleFactor2 * *(OmegaTensorSq+1) ;
@@ -2318,10 +2318,10 @@ int computeNodeLevelUnrotatedRateOfDeformationAndRotationTensor
       // Avoid a potential divide-by-zero
       if(OmegaSq > 1.e-30){
 
-        // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega - (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
+        // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega + (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
         //           = I + scaleFactor1 * OmegaTensor + scaleFactor2 * OmegaTensorSq
         scaleFactor1 = sin(dt*Omega) / Omega;
-        scaleFactor2 = -(1.0 - cos(dt*Omega)) / OmegaSq;
+        scaleFactor2 = (1.0 - cos(dt*Omega)) / OmegaSq;
         MatrixMultiply(false, false, 1.0, OmegaTensor, OmegaTensor, OmegaTensorSq);
         *(QMatrix)   = 1.0 + scaleFactor1 * *(OmegaTensor)   + scaleFactor2 * *(OmegaTensorSq)   ;
         *(QMatrix+1) =       scaleFactor1 * *(OmegaTensor+1) + scaleFactor2 * *(OmegaTensorSq+1) ;
@@ -2661,10 +2661,10 @@ int computeBondLevelUnrotatedRateOfDeformationAndRotationTensor
         // Avoid a potential divide-by-zero
         if(OmegaSq > 1.e-30){
 
-          // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega - (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
+          // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega + (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
           //           = I + scaleFactor1 * OmegaTensor + scaleFactor2 * OmegaTensorSq
           scaleFactor1 = sin(dt*Omega) / Omega;
-          scaleFactor2 = -(1.0 - cos(dt*Omega)) / OmegaSq;
+          scaleFactor2 = (1.0 - cos(dt*Omega)) / OmegaSq;
           MatrixMultiply(false, false, 1.0, OmegaTensor, OmegaTensor, OmegaTensorSq);
           *(QMatrix)   = 1.0 + scaleFactor1 * *(OmegaTensor)   + scaleFactor2 * *(OmegaTensorSq)   ;
           *(QMatrix+1) =       scaleFactor1 * *(OmegaTensor+1) + scaleFactor2 * *(OmegaTensorSq+1) ;
@@ -3562,10 +3562,10 @@ int computeNodeLevelUnrotatedRateOfDeformationAndRotationTensor
     // Avoid a potential divide-by-zero
     if( OmegaSq > 1.e-30){
 
-      // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega - (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
+      // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega + (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
       //           = I + scaleFactor1 * OmegaTensor + scaleFactor2 * OmegaTensorSq
       scaleFactor1 = sin(dt*Omega) / Omega;
-      scaleFactor2 = -(1.0 - cos(dt*Omega)) / OmegaSq;
+      scaleFactor2 = (1.0 - cos(dt*Omega)) / OmegaSq;
       MatrixMultiply(false, false, 1.0, OmegaTensor, OmegaTensor, OmegaTensorSq);
       *(QMatrix)   = 1.0 + scaleFactor1 * *(OmegaTensor)   + scaleFactor2 * *(OmegaTensorSq)   ;
       *(QMatrix+1) =       scaleFactor1 * *(OmegaTensor+1) + scaleFactor2 * *(OmegaTensorSq+1) ;
@@ -4017,10 +4017,10 @@ int computeBondLevelUnrotatedRateOfDeformationAndRotationTensor
         // Avoid a potential divide-by-zero
         if(OmegaSq > 1.e-30){
 
-          // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega - (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
+          // Compute Q = I + sin( dt * Omega ) * OmegaTensor / Omega + (1. - cos(dt * Omega)) * omegaTensor^2 / OmegaSq
           //           = I + scaleFactor1 * OmegaTensor + scaleFactor2 * OmegaTensorSq
           scaleFactor1 = sin(dt*Omega) / Omega;
-          scaleFactor2 = -(1.0 - cos(dt*Omega)) / OmegaSq;
+          scaleFactor2 = (1.0 - cos(dt*Omega)) / OmegaSq;
           MatrixMultiply(false, false, 1.0, OmegaTensor, OmegaTensor, OmegaTensorSq);
           *(QMatrix)   = 1.0 + scaleFactor1 * *(OmegaTensor)   + scaleFactor2 * *(OmegaTensorSq)   ;
           *(QMatrix+1) =       scaleFactor1 * *(OmegaTensor+1) + scaleFactor2 * *(OmegaTensorSq+1) ;
-- 
2.43.0


From 1b3c2fae7df7ebc84194992503dfbf35b1f1a63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:25:38 +0000
Subject: [PATCH 2/9] fix: carry bond damage over in the time dependent
 critical stretch model

The assignment replaced a temporary pointer and copied nothing, so that a
broken bond healed as soon as its stretch fell below the critical value.
Copy the values of the previous step instead.
---
 ...digm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp b/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
index c705cee..b024c69 100644
--- a/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
+++ b/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
@@ -184,8 +184,7 @@ PeridigmNS::UserDefinedTimeDependentCriticalStretchDamageModel::computeDamage(co
   double nodeInitialX[3], nodeCurrentX[3], initialDistance, currentDistance, relativeExtension, totalDamage;
 
   // Set the bond damage to the previous value
-  dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_NP1) =
-    dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_N);
+  *(dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_NP1)) = *(dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_N));
 
   // Update the bond damage
   // Break bonds if the extension is greater than the critical extension
-- 
2.43.0


From 1f86b479c3b8799f8fc5442745bdb1743a042106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:25:39 +0000
Subject: [PATCH 3/9] fix: keep broken bonds broken in the interface aware
 damage model

The bond damage of the previous step was never read.  After the states are
swapped, the new state holds the values from two steps ago, so that a bond
broken in the last step healed if its stretch was below the critical value.
---
 src/damage/Peridigm_InterfaceAwareDamageModel.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/damage/Peridigm_InterfaceAwareDamageModel.cpp b/src/damage/Peridigm_InterfaceAwareDamageModel.cpp
index 7672cf1..a4aa571 100644
--- a/src/damage/Peridigm_InterfaceAwareDamageModel.cpp
+++ b/src/damage/Peridigm_InterfaceAwareDamageModel.cpp
@@ -120,10 +120,11 @@ PeridigmNS::InterfaceAwareDamageModel::computeDamage(const double dt,
                                                       const int* neighborhoodList,
                                                       PeridigmNS::DataManager& dataManager) const
 {
-  double *x, *y, *damage, *bondDamage, *deltaTemperature, *criticalStretch;
+  double *x, *y, *damage, *bondDamageN, *bondDamage, *deltaTemperature, *criticalStretch;
   dataManager.getData(m_modelCoordinatesFieldId, PeridigmField::STEP_NONE)->ExtractView(&x);
   dataManager.getData(m_coordinatesFieldId, PeridigmField::STEP_NP1)->ExtractView(&y);
   dataManager.getData(m_damageFieldId, PeridigmField::STEP_NP1)->ExtractView(&damage);
+  dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_N)->ExtractView(&bondDamageN);
   dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_NP1)->ExtractView(&bondDamage);
   dataManager.getData(m_criticalStretchFieldId, PeridigmField::STEP_NONE)->ExtractView(&criticalStretch);
   deltaTemperature = NULL;
@@ -149,6 +150,9 @@ PeridigmNS::InterfaceAwareDamageModel::computeDamage(const double dt,
 
     for(iNID=0 ; iNID<numNeighbors ; ++iNID){
       neighborID = neighborhoodList[neighborhoodListIndex++];
+      // Bonds that were broken in a previous step remain broken
+      if(bondDamageN[bondIndex] > bondDamage[bondIndex])
+        bondDamage[bondIndex] = bondDamageN[bondIndex];
       const double neighborCriticalStretch = criticalStretch[neighborID];
       // Skip neighbors that do not allow bond breaking or bonds that are already broken
       if(bondDamage[bondIndex]!=0.0 || neighborCriticalStretch == 0.0){bondIndex+=1;continue;}
-- 
2.43.0


From ba77c7831e81f2149407fd64885be700e0c202e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:04 +0000
Subject: [PATCH 4/9] fix: global momentum is the norm of the total vector, not
 the sum of the norms of the blocks

---
 src/compute/Peridigm_Compute_Angular_Momentum.cpp | 9 +++++++--
 src/compute/Peridigm_Compute_Linear_Momentum.cpp  | 6 +++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/compute/Peridigm_Compute_Angular_Momentum.cpp b/src/compute/Peridigm_Compute_Angular_Momentum.cpp
index 34b2549..c255bea 100644
--- a/src/compute/Peridigm_Compute_Angular_Momentum.cpp
+++ b/src/compute/Peridigm_Compute_Angular_Momentum.cpp
@@ -85,6 +85,7 @@ int PeridigmNS::Compute_Angular_Momentum::computeAngularMomentum( Teuchos::RCP<
   int retval;
 
   double globalAM = 0.0;
+  double totalAngularMomentum[3] = {0.0, 0.0, 0.0};
   Teuchos::RCP<Epetra_Vector> velocity,  arm, volume, angular_momentum;
   std::vector<Block>::iterator blockIt;
   for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++)
@@ -152,13 +153,17 @@ int PeridigmNS::Compute_Angular_Momentum::computeAngularMomentum( Teuchos::RCP<
 
       epetraComm->SumAll(&localAngularMomentum[0], &globalAngularMomentum[0], 3);
 
-      globalAM += sqrt(globalAngularMomentum[0]*globalAngularMomentum[0] + globalAngularMomentum[1]*globalAngularMomentum[1] + globalAngularMomentum[2]*globalAngularMomentum[2]);
+      // The blocks contribute to one total momentum vector
+      for (int j=0;j<3;j++)
+        totalAngularMomentum[j] += globalAngularMomentum[j];
     }
   }
 
   // Store global angular momentum
-  if (!storeLocal)  
+  if (!storeLocal){
+    globalAM = sqrt(totalAngularMomentum[0]*totalAngularMomentum[0] + totalAngularMomentum[1]*totalAngularMomentum[1] + totalAngularMomentum[2]*totalAngularMomentum[2]);
     (*(blocks->begin()->getData(m_globalAngularMomentumFieldId, PeridigmField::STEP_NONE)))[0] = globalAM;
+  }
 
   return(0);
 
diff --git a/src/compute/Peridigm_Compute_Linear_Momentum.cpp b/src/compute/Peridigm_Compute_Linear_Momentum.cpp
index ac45d86..2685dc7 100644
--- a/src/compute/Peridigm_Compute_Linear_Momentum.cpp
+++ b/src/compute/Peridigm_Compute_Linear_Momentum.cpp
@@ -83,6 +83,7 @@ int PeridigmNS::Compute_Linear_Momentum::computeLinearMomentum( Teuchos::RCP< st
   int retval;
 
   double globalLM = 0.0;
+  double totalLinearMomentum[3] = {0.0, 0.0, 0.0};
   Teuchos::RCP<Epetra_Vector> velocity, volume, linear_momentum;
   std::vector<Block>::iterator blockIt;
   for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++)
@@ -145,7 +146,9 @@ int PeridigmNS::Compute_Linear_Momentum::computeLinearMomentum( Teuchos::RCP< st
 
       epetraComm->SumAll(&localLinearMomentum[0], &globalLinearMomentum[0], 3);
 
-      globalLM += sqrt(globalLinearMomentum[0]*globalLinearMomentum[0] + globalLinearMomentum[1]*globalLinearMomentum[1] + globalLinearMomentum[2]*globalLinearMomentum[2]);
+      // The blocks contribute to one total momentum vector
+      for (int j=0;j<3;j++)
+        totalLinearMomentum[j] += globalLinearMomentum[j];
     }
   }
 
@@ -163,6 +166,7 @@ int PeridigmNS::Compute_Linear_Momentum::computeLinearMomentum( Teuchos::RCP< st
   // Store global energy in block (block globals are static, so only need to assign data to first block)
   if (!storeLocal){
     Teuchos::RCP<Epetra_Vector> data = blocks->begin()->getData(m_globalLinearMomentumFieldId, PeridigmField::STEP_NONE);
+    globalLM = sqrt(totalLinearMomentum[0]*totalLinearMomentum[0] + totalLinearMomentum[1]*totalLinearMomentum[1] + totalLinearMomentum[2]*totalLinearMomentum[2]);
     (*data)[0] = globalLM;
   }
 
-- 
2.43.0


From eb5e7beb0b96eae73ad459dc4ea1538ca2584d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:04 +0000
Subject: [PATCH 5/9] fix: maxima of block and node-set data start below every
 value, so that negative maxima are reported

---
 src/compute/Peridigm_Compute_Block_Data.cpp    | 2 +-
 src/compute/Peridigm_Compute_Node_Set_Data.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compute/Peridigm_Compute_Block_Data.cpp b/src/compute/Peridigm_Compute_Block_Data.cpp
index 4eb3fa0..18c1608 100644
--- a/src/compute/Peridigm_Compute_Block_Data.cpp
+++ b/src/compute/Peridigm_Compute_Block_Data.cpp
@@ -132,7 +132,7 @@ int PeridigmNS::Compute_Block_Data::compute( Teuchos::RCP< std::vector<PeridigmN
   }
   else if(m_calculationType == MAXIMUM){
     for(int i=0 ; i<3 ; ++i)
-      localData[i] = DBL_MIN;
+      localData[i] = -DBL_MAX;
   }
   else if(m_calculationType == SUM){
     for(int i=0 ; i<3 ; ++i)
diff --git a/src/compute/Peridigm_Compute_Node_Set_Data.cpp b/src/compute/Peridigm_Compute_Node_Set_Data.cpp
index 8a2f155..c5f05d3 100644
--- a/src/compute/Peridigm_Compute_Node_Set_Data.cpp
+++ b/src/compute/Peridigm_Compute_Node_Set_Data.cpp
@@ -149,7 +149,7 @@ int PeridigmNS::Compute_Node_Set_Data::compute( Teuchos::RCP< std::vector<Peridi
   }
   else if(m_calculationType == MAXIMUM){
     for(int i=0 ; i<3 ; ++i)
-      localData[i] = DBL_MIN;
+      localData[i] = -DBL_MAX;
   }
   else if(m_calculationType == SUM){
     for(int i=0 ; i<3 ; ++i)
-- 
2.43.0


From 4ed641fcb2ac02af4f3d18f5026eebca24fa6530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:03:43 +0000
Subject: [PATCH 6/9] fix: keep all digits of a boundary condition value given
 as a number

A numeric value was turned into text with six significant digits before
being compiled, so 0.123456789 was applied as 0.123457.
---
 src/core/Peridigm_BoundaryCondition.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Peridigm_BoundaryCondition.cpp b/src/core/Peridigm_BoundaryCondition.cpp
index d1129f5..628e56e 100644
--- a/src/core/Peridigm_BoundaryCondition.cpp
+++ b/src/core/Peridigm_BoundaryCondition.cpp
@@ -71,6 +71,7 @@ PeridigmNS::BoundaryCondition::BoundaryCondition(const string & name_,
   coord = to_index(to_spatial_coordinate(bcParams));
   if(bcParams.isType<double>("Value")){
     std::stringstream ss;
+    ss.precision(17);
     ss << bcParams.get<double>("Value");
     bcParams.set("Value", ss.str());
   }
-- 
2.43.0


From fcfb1665f1332c8616b4c1bc65e2169409d8ab10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:45:38 +0000
Subject: [PATCH 7/9] fix: skip unallocated states when scattering to ghosts

A data manager allocates the stateless or the two-step state only when it
has fields of that kind. scatterToGhosts() dereferenced all three states, so
rebalancing a data manager with only one kind of field crashed.
---
 src/core/Peridigm_DataManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/Peridigm_DataManager.cpp b/src/core/Peridigm_DataManager.cpp
index 9da5bd9..7cefda8 100644
--- a/src/core/Peridigm_DataManager.cpp
+++ b/src/core/Peridigm_DataManager.cpp
@@ -298,6 +298,10 @@ void PeridigmNS::DataManager::scatterToGhosts()
     else if(iState == 2)
       state = stateNP1;
 
+    // A state is allocated only if there are fields to store in it
+    if(state.is_null())
+      continue;
+
     for(int iMultiVector = 0 ; iMultiVector < state->getMaxPointDataElementSize() ; ++iMultiVector){
 
       PeridigmField::Length length;      
-- 
2.43.0


From 142e0795fda4e7460b6f8b92dad082216f5c6ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:12:46 +0000
Subject: [PATCH 8/9] fix: place the cells of a tube around the centre of its
 ring

The mesh generator for tubes ignored the x and y coordinates of the ring
centre given in the input and always placed the cells around the origin.
---
 src/io/mesh_input/quick_grid/QuickGrid.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io/mesh_input/quick_grid/QuickGrid.cxx b/src/io/mesh_input/quick_grid/QuickGrid.cxx
index e361074..0133137 100644
--- a/src/io/mesh_input/quick_grid/QuickGrid.cxx
+++ b/src/io/mesh_input/quick_grid/QuickGrid.cxx
@@ -1446,8 +1446,8 @@ std::pair<Cell3D,QuickGridData> TensorProductCylinderMeshGenerator::computePdGri
         *gidsPtr = i + j * nx + k * nx * ny; gidsPtr++;
 
         double r = x[i];
-        point[0] = r * c;
-        point[1] = r * s;
+        point[0] = ringSpec.getCenter()[0] + r * c;
+        point[1] = ringSpec.getCenter()[1] + r * s;
         // copy point data
         for(size_t p=0;p<3;p++,XPtr++)
           *XPtr = point[p];
@@ -1477,8 +1477,8 @@ std::pair<Cell3D,QuickGridData> TensorProductCylinderMeshGenerator::computePdGri
               double theta = y[jj];
               double c = cos(theta);
               double s = sin(theta);
-              pointNeighbor[0] = r * c;
-              pointNeighbor[1] = r * s;
+              pointNeighbor[0] = ringSpec.getCenter()[0] + r * c;
+              pointNeighbor[1] = ringSpec.getCenter()[1] + r * s;
               pointNeighbor[2] = z[kk];
 
               if(norm(pointNeighbor,point,horizonRadius)){
-- 
2.43.0


From cbde86d3c39b8aecadcc03a2dd469d87bff3c418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:23:42 +0000
Subject: [PATCH 9/9] fix: send points to every processor whose points may have
 them as neighbors

With a search radius per point, a point was sent to the processors within its
own radius. A point with a small radius was then missing from the lists of
points on other processors with a larger radius. Use the largest radius on any
processor, both to select the points and to find the processors.
---
 src/io/pdneigh/NeighborhoodList.cxx | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/io/pdneigh/NeighborhoodList.cxx b/src/io/pdneigh/NeighborhoodList.cxx
index 0ebf8aa..a039cb4 100644
--- a/src/io/pdneigh/NeighborhoodList.cxx
+++ b/src/io/pdneigh/NeighborhoodList.cxx
@@ -378,12 +378,14 @@ void NeighborhoodList::createAndAddNeighborhood(){
 
   enum {COMM_CREATE=9,COMM_DO=10};
 
-  // Find the maximum horizon and use this to create the frame set
-  double maxHorizon = 0.0;
+  // Find the maximum horizon over all processors and use this to create the frame set
+  double myMaxHorizon = 0.0;
   for(int i=0 ; i<horizons->MyLength() ; ++i){
-    if((*horizons)[i] > maxHorizon)
-      maxHorizon = (*horizons)[i];
+    if((*horizons)[i] > myMaxHorizon)
+      myMaxHorizon = (*horizons)[i];
   }
+  double maxHorizon = 0.0;
+  epetraComm->MaxAll(&myMaxHorizon, &maxHorizon, 1);
 
 //  shared_ptr< std::set<int> > frameSet = constructParallelDecompositionFrameSet();
   shared_ptr< std::set<int> > frameSet = UTILITIES::constructFrameSet(num_owned_points,owned_x,maxHorizon);
@@ -428,8 +430,6 @@ void NeighborhoodList::createAndAddNeighborhood(){
     int numProcsPoint;
     std::set<int>::iterator myPointsIter = frameSet->begin();
     double *x = owned_x.get();
-    double *horizon;
-    horizons->ExtractView(&horizon);
 
     for(;myPointsIter!=frameSet->end();myPointsIter++){
 
@@ -438,8 +438,9 @@ void NeighborhoodList::createAndAddNeighborhood(){
        */
       int id = *myPointsIter;
       const double *xP = x+dimension*id;
-            const double *horizonP = horizon+id;
-      PointCenteredBoundingBox bb(xP,*horizonP);
+      // This point may be within the horizon of points on other processors,
+      // even if those points are beyond the horizon of this point
+      PointCenteredBoundingBox bb(xP,maxHorizon);
 //      if(1==rank){
 //        std::cout << "localId, x,y,z = " << id << ", " << *xP << ", " << *(xP+1) << ", " << *(xP+2) << std::endl;
 //        std::cout << "xMin, xMax " << bb.get_xMin() << ", " << bb.get_xMax() << std::endl;
-- 
2.43.0

