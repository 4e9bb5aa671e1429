From bfcc223b7cba2206c029c8b5e969d2802a98618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:15 +0000
Subject: [PATCH 01/22] fix: carry bond damage forward in the time-dependent
 critical stretch model

The two reference-counted pointers were assigned instead of the vectors they
point to, so the bond damage of the previous step was never copied and a bond
broken in the last step could become intact again.
---
 ...igm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp b/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
index c705cee..8eac61d 100644
--- a/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
+++ b/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
@@ -184,8 +184,8 @@ PeridigmNS::UserDefinedTimeDependentCriticalStretchDamageModel::computeDamage(co
   double nodeInitialX[3], nodeCurrentX[3], initialDistance, currentDistance, relativeExtension, totalDamage;
 
   // Set the bond damage to the previous value
-  dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_NP1) =
-    dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_N);
+  *(dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_NP1)) =
+    *(dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_N));
 
   // Update the bond damage
   // Break bonds if the extension is greater than the critical extension
-- 
2.43.0


From b0a6e5b900c0f4b491af6355d470b5f597fbd98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:15 +0000
Subject: [PATCH 02/22] fix: carry bond damage forward in the interface aware
 damage model

The bond damage of the previous step was never copied to the new step.  The
two time levels are exchanged after every step, so a bond broken in one step
was evaluated from the state before it broke.
---
 src/damage/Peridigm_InterfaceAwareDamageModel.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/damage/Peridigm_InterfaceAwareDamageModel.cpp b/src/damage/Peridigm_InterfaceAwareDamageModel.cpp
index 7672cf1..0f1ec11 100644
--- a/src/damage/Peridigm_InterfaceAwareDamageModel.cpp
+++ b/src/damage/Peridigm_InterfaceAwareDamageModel.cpp
@@ -135,6 +135,9 @@ PeridigmNS::InterfaceAwareDamageModel::computeDamage(const double dt,
   int nodeId, numNeighbors, neighborID, iID, iNID;
   double nodeInitialX[3], nodeCurrentX[3], initialDistance, currentDistance, relativeExtension, totalDamage;
 
+  // Set the bond damage to the previous value
+  *(dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_NP1)) = *(dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_N));
+
   // Update the bond damage
   // Break bonds if the extension is greater than the critical extension
   for(iID=0 ; iID<numOwnedPoints ; ++iID){
-- 
2.43.0


From 2d9b6cc1ed9d66b3047ef5f668596c80e94dcf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:18 +0000
Subject: [PATCH 03/22] fix: compute bond stress triaxiality from the updated
 stress

The bond-level saturation-exponential update evaluated the triaxiality before
storing the new stress, so it used values left from an earlier step.
---
 src/materials/isotropic_hardening_correspondence.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/materials/isotropic_hardening_correspondence.cxx b/src/materials/isotropic_hardening_correspondence.cxx
index fd28185..fa5f5de 100644
--- a/src/materials/isotropic_hardening_correspondence.cxx
+++ b/src/materials/isotropic_hardening_correspondence.cxx
@@ -1358,12 +1358,12 @@ void updateBondLevelElasticIsotropicSaturationExponentialHardeningPlasticCauchyS
                                         linearConstant, 
                                         dt);
 
-      // compute stress triaxiality
-      *triaxiality = (*stressXXNP1 + *stressYYNP1 + *stressZZNP1) / (3.0 * std::max(1.0e-20,*vmStress));
-
       *stressXXNP1 = *(stressNP1+0); *stressXYNP1 = *(stressNP1+1); *stressXZNP1 = *(stressNP1+2); 
       *stressYXNP1 = *(stressNP1+3); *stressYYNP1 = *(stressNP1+4); *stressYZNP1 = *(stressNP1+5); 
       *stressZXNP1 = *(stressNP1+6); *stressZYNP1 = *(stressNP1+7); *stressZZNP1 = *(stressNP1+8); 
+
+      // compute stress triaxiality
+      *triaxiality = (*stressXXNP1 + *stressYYNP1 + *stressZZNP1) / (3.0 * std::max(1.0e-20,*vmStress));
     }
   }
 }
-- 
2.43.0


From da46dce7c3aa5eaac3ba07e7657b8a88736d22ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:18 +0000
Subject: [PATCH 04/22] fix: reset force and fluid flow before assembling the
 NOX residual

In multiphysics analyses the contributions of every residual evaluation were
added to those of all earlier evaluations.
---
 src/core/Peridigm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index e1c7884..1c422bc 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -1744,6 +1744,8 @@ bool PeridigmNS::Peridigm::evaluateNOX(NOX::Epetra::Interface::Required::FillTyp
     if(analysisHasMultiphysics){
       PeridigmNS::Timer::self().startTimer("Gather/Scatter");
       unknownsForce->PutScalar(0.0);
+      force->PutScalar(0.0);
+      fluidFlow->PutScalar(0.0);
       for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++){
         scratch->PutScalar(0.0);
         scalarScratch->PutScalar(0.0);
-- 
2.43.0


From 1d36ff02cf48e972009722753dcf3a2baa08d3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:18 +0000
Subject: [PATCH 05/22] fix: register kinetic energy as element data in the
 energy compute class

The kinetic energy compute class registers the same quantity as element data;
requesting both stopped the run.
---
 src/compute/Peridigm_Compute_Energy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compute/Peridigm_Compute_Energy.cpp b/src/compute/Peridigm_Compute_Energy.cpp
index e3a83f6..371a252 100644
--- a/src/compute/Peridigm_Compute_Energy.cpp
+++ b/src/compute/Peridigm_Compute_Energy.cpp
@@ -65,7 +65,7 @@ PeridigmNS::Compute_Energy::Compute_Energy(Teuchos::RCP<const Teuchos::Parameter
   m_velocityFieldId = fieldManager.getFieldId("Velocity");
   m_weightedVolumeFieldId = fieldManager.getFieldId(PeridigmField::ELEMENT, PeridigmField::SCALAR, PeridigmField::CONSTANT, "Weighted_Volume");
   m_dilatationFieldId = fieldManager.getFieldId(PeridigmField::ELEMENT, PeridigmField::SCALAR, PeridigmField::TWO_STEP, "Dilatation");
-  m_kineticEnergyFieldId = fieldManager.getFieldId(PeridigmField::NODE, PeridigmField::SCALAR, PeridigmField::CONSTANT, "Kinetic_Energy");
+  m_kineticEnergyFieldId = fieldManager.getFieldId(PeridigmField::ELEMENT, PeridigmField::SCALAR, PeridigmField::CONSTANT, "Kinetic_Energy");
   m_strainEnergyDensityFieldId = fieldManager.getFieldId(PeridigmField::NODE, PeridigmField::SCALAR, PeridigmField::CONSTANT, "Strain_Energy_Density");
   m_strainEnergyFieldId = fieldManager.getFieldId(PeridigmField::NODE, PeridigmField::SCALAR, PeridigmField::CONSTANT, "Strain_Energy");
   m_globalKineticEnergyFieldId = fieldManager.getFieldId(PeridigmField::GLOBAL, PeridigmField::SCALAR, PeridigmField::CONSTANT, "Global_Kinetic_Energy");
-- 
2.43.0


From ffb9263ea95dd4dc5ba3f82183d53e2dc423972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:18 +0000
Subject: [PATCH 06/22] fix: register the velocity gradient of the J integral
 without time levels

The materials register it as a quantity without time levels; combining them
with the J integral stopped the run.
---
 src/compute/Peridigm_Compute_JIntegral.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compute/Peridigm_Compute_JIntegral.cpp b/src/compute/Peridigm_Compute_JIntegral.cpp
index 43162b4..92b132d 100644
--- a/src/compute/Peridigm_Compute_JIntegral.cpp
+++ b/src/compute/Peridigm_Compute_JIntegral.cpp
@@ -68,7 +68,7 @@ PeridigmNS::Compute_JIntegral::Compute_JIntegral(Teuchos::RCP<const Teuchos::Par
   m_modelCoordinatesFieldId = fieldManager.getFieldId("Model_Coordinates");
   m_coordinatesFieldId = fieldManager.getFieldId("Coordinates");
   m_velocityFieldId = fieldManager.getFieldId("Velocity");
-  m_velocityGradientFieldId = fieldManager.getFieldId(PeridigmField::ELEMENT, PeridigmField::FULL_TENSOR, PeridigmField::TWO_STEP, "Velocity_Gradient");
+  m_velocityGradientFieldId = fieldManager.getFieldId(PeridigmField::ELEMENT, PeridigmField::FULL_TENSOR, PeridigmField::CONSTANT, "Velocity_Gradient");
   m_storedElasticEnergyDensityFieldId = fieldManager.getFieldId(PeridigmField::ELEMENT, PeridigmField::SCALAR, PeridigmField::CONSTANT, "Stored_Elastic_Energy_Density");
   m_storedElasticEnergyFieldId = fieldManager.getFieldId(PeridigmField::ELEMENT, PeridigmField::SCALAR, PeridigmField::CONSTANT, "Stored_Elastic_Energy");
   m_bondDamageFieldId = fieldManager.getFieldId(PeridigmField::BOND,    PeridigmField::SCALAR, PeridigmField::TWO_STEP, "Bond_Damage");
@@ -113,7 +113,7 @@ int PeridigmNS::Compute_JIntegral::compute( Teuchos::RCP< std::vector<PeridigmNS
   dataManager->getData(m_coordinatesFieldId, PeridigmField::STEP_NP1)->ExtractView(&coord);
   dataManager->getData(m_velocityFieldId, PeridigmField::STEP_N)->ExtractView(&velocityStepN);
   dataManager->getData(m_velocityFieldId, PeridigmField::STEP_NP1)->ExtractView(&velocityStepNP1);
-  dataManager->getData(m_velocityGradientFieldId, PeridigmField::STEP_NP1)->ExtractView(&velocityGradient);
+  dataManager->getData(m_velocityGradientFieldId, PeridigmField::STEP_NONE)->ExtractView(&velocityGradient);
   dataManager->getData(m_storedElasticEnergyDensityFieldId, PeridigmField::STEP_NONE)->ExtractView(&storedElasticEnergyDensity);
   dataManager->getData(m_storedElasticEnergyFieldId, PeridigmField::STEP_NONE)->ExtractView(&storedElasticEnergy);
   dataManager->getData(m_bondDamageFieldId, PeridigmField::STEP_NP1)->ExtractView(&bondDamage);
-- 
2.43.0


From 243f775ef02ce2a502ece2ba35c21ad45d612bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:52 +0000
Subject: [PATCH 07/22] fix: clear the result of user-defined functions before
 every evaluation

A function that does not assign its result on every path, such as
"if(t > 1) value = 2;", returned the value of the previous evaluation at the
current time instead of zero.
---
 ...digm_UserDefinedTimeDependentShortRangeForceContactModel.cpp | 2 ++
 src/core/Peridigm_BoundaryCondition.cpp                         | 2 ++
 ...idigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/contact/Peridigm_UserDefinedTimeDependentShortRangeForceContactModel.cpp b/src/contact/Peridigm_UserDefinedTimeDependentShortRangeForceContactModel.cpp
index e9f5d75..0592a68 100644
--- a/src/contact/Peridigm_UserDefinedTimeDependentShortRangeForceContactModel.cpp
+++ b/src/contact/Peridigm_UserDefinedTimeDependentShortRangeForceContactModel.cpp
@@ -127,6 +127,8 @@ void PeridigmNS::UserDefinedTimeDependentShortRangeForceContactModel::evaluatePa
   if(success)
     previousValue = rtcFunction->getValueOfVar("value");
   // evaluate at current time
+  if(success)
+    success = rtcFunction->varValueFill(1, 0.0);
   if(success)
     success = rtcFunction->varValueFill(0, timeCurrent);
   if(success)
diff --git a/src/core/Peridigm_BoundaryCondition.cpp b/src/core/Peridigm_BoundaryCondition.cpp
index d1129f5..7158bc8 100644
--- a/src/core/Peridigm_BoundaryCondition.cpp
+++ b/src/core/Peridigm_BoundaryCondition.cpp
@@ -118,6 +118,8 @@ void PeridigmNS::BoundaryCondition::evaluateParser(const int & localNodeID, doub
   if(success)
     previousValue = rtcFunction->getValueOfVar("value");
   // evaluate at current time
+  if(success)
+    success = rtcFunction->varValueFill(4, 0.0);
   if(success)
     success = rtcFunction->varValueFill(3, timeCurrent);
   if(success)
diff --git a/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp b/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
index 8eac61d..3b849d7 100644
--- a/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
+++ b/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
@@ -116,6 +116,8 @@ void PeridigmNS::UserDefinedTimeDependentCriticalStretchDamageModel::evaluatePar
   if(success)
     previousValue = rtcFunction->getValueOfVar("value");
   // evaluate at current time
+  if(success)
+    success = rtcFunction->varValueFill(1, 0.0);
   if(success)
     success = rtcFunction->varValueFill(0, timeCurrent);
   if(success)
-- 
2.43.0


From c368ab2fa7819780269dd0f94e532d8636ad9705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:52 +0000
Subject: [PATCH 08/22] fix: report failing user-defined influence functions

A failing evaluation silently gave an influence of zero, and a function that
assigns its result conditionally kept the value of the previous bond.
---
 src/core/Peridigm_InfluenceFunction.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/Peridigm_InfluenceFunction.cpp b/src/core/Peridigm_InfluenceFunction.cpp
index d1be8ac..72496fc 100644
--- a/src/core/Peridigm_InfluenceFunction.cpp
+++ b/src/core/Peridigm_InfluenceFunction.cpp
@@ -72,9 +72,16 @@ double PeridigmNS::InfluenceFunction::userDefinedInfluenceFunction(double zeta,
   bool success = rtcFunction.varValueFill(0, zeta);
   if(success)
     success = rtcFunction.varValueFill(1, horizon);
+  if(success)
+    success = rtcFunction.varValueFill(2, 0.0);
   if(success)
     success = rtcFunction.execute();
   if(success)
     value = rtcFunction.getValueOfVar("value");
+  if(!success){
+    string msg = "\n**** Error in InfluenceFunction::userDefinedInfluenceFunction().\n";
+    msg += "**** " + rtcFunction.getErrors() + "\n";
+    TEUCHOS_TEST_FOR_EXCEPT_MSG(!success, msg);
+  }
   return value;
 }
-- 
2.43.0


From 99dc19c2203082503eb9174f9c965e0bacfa8c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:52 +0000
Subject: [PATCH 09/22] fix: start the maximum of block and node set data from
 the lowest value

The maximum of a quantity with only negative values was reported as the
smallest positive number.
---
 src/compute/Peridigm_Compute_Block_Data.cpp    | 2 +-
 src/compute/Peridigm_Compute_Node_Set_Data.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compute/Peridigm_Compute_Block_Data.cpp b/src/compute/Peridigm_Compute_Block_Data.cpp
index 4eb3fa0..18c1608 100644
--- a/src/compute/Peridigm_Compute_Block_Data.cpp
+++ b/src/compute/Peridigm_Compute_Block_Data.cpp
@@ -132,7 +132,7 @@ int PeridigmNS::Compute_Block_Data::compute( Teuchos::RCP< std::vector<PeridigmN
   }
   else if(m_calculationType == MAXIMUM){
     for(int i=0 ; i<3 ; ++i)
-      localData[i] = DBL_MIN;
+      localData[i] = -DBL_MAX;
   }
   else if(m_calculationType == SUM){
     for(int i=0 ; i<3 ; ++i)
diff --git a/src/compute/Peridigm_Compute_Node_Set_Data.cpp b/src/compute/Peridigm_Compute_Node_Set_Data.cpp
index 8a2f155..c5f05d3 100644
--- a/src/compute/Peridigm_Compute_Node_Set_Data.cpp
+++ b/src/compute/Peridigm_Compute_Node_Set_Data.cpp
@@ -149,7 +149,7 @@ int PeridigmNS::Compute_Node_Set_Data::compute( Teuchos::RCP< std::vector<Peridi
   }
   else if(m_calculationType == MAXIMUM){
     for(int i=0 ; i<3 ; ++i)
-      localData[i] = DBL_MIN;
+      localData[i] = -DBL_MAX;
   }
   else if(m_calculationType == SUM){
     for(int i=0 ; i<3 ; ++i)
-- 
2.43.0


From 8276c6c12d7b767e82408d12fb763eb22238749e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:24:27 +0000
Subject: [PATCH 10/22] fix: check the first coordinate of user-defined
 expressions like the others

---
 src/core/Peridigm_BoundaryCondition.cpp | 2 +-
 src/core/Peridigm_HorizonManager.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Peridigm_BoundaryCondition.cpp b/src/core/Peridigm_BoundaryCondition.cpp
index 7158bc8..8b6abc7 100644
--- a/src/core/Peridigm_BoundaryCondition.cpp
+++ b/src/core/Peridigm_BoundaryCondition.cpp
@@ -103,7 +103,7 @@ void PeridigmNS::BoundaryCondition::evaluateParser(const int & localNodeID, doub
   bool success(true);
   // set the coordinates and set the return value to 0.0
   if(success)
-    rtcFunction->varValueFill(0, (*x)[localNodeID*3]);
+    success = rtcFunction->varValueFill(0, (*x)[localNodeID*3]);
   if(success)
     success = rtcFunction->varValueFill(1, (*x)[localNodeID*3 + 1]);
   if(success)
diff --git a/src/core/Peridigm_HorizonManager.cpp b/src/core/Peridigm_HorizonManager.cpp
index f49d8ff..e45170d 100644
--- a/src/core/Peridigm_HorizonManager.cpp
+++ b/src/core/Peridigm_HorizonManager.cpp
@@ -156,7 +156,7 @@ double PeridigmNS::HorizonManager::evaluateHorizon(string blockName, double x, d
     rtcFunctionString = "value = " + rtcFunctionString;
   bool success = rtcFunction->addBody(rtcFunctionString);
   if(success)
-    rtcFunction->varValueFill(0, x);
+    success = rtcFunction->varValueFill(0, x);
   if(success)
     success = rtcFunction->varValueFill(1, y);
   if(success)
-- 
2.43.0


From a9a567ac0d49caf32e91fb10b63688ac05fef560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:03 +0000
Subject: [PATCH 11/22] fix: keep all digits of boundary values given as
 numbers

---
 src/core/Peridigm_BoundaryCondition.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Peridigm_BoundaryCondition.cpp b/src/core/Peridigm_BoundaryCondition.cpp
index 8b6abc7..839bd5b 100644
--- a/src/core/Peridigm_BoundaryCondition.cpp
+++ b/src/core/Peridigm_BoundaryCondition.cpp
@@ -71,6 +71,7 @@ PeridigmNS::BoundaryCondition::BoundaryCondition(const string & name_,
   coord = to_index(to_spatial_coordinate(bcParams));
   if(bcParams.isType<double>("Value")){
     std::stringstream ss;
+    ss.precision(17);
     ss << bcParams.get<double>("Value");
     bcParams.set("Value", ss.str());
   }
-- 
2.43.0


From 5f5031340a9e75c4f3fd39023afad214c41bce95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:39:46 +0000
Subject: [PATCH 12/22] fix: report failures while writing the interface
 database

---
 src/core/Peridigm_InterfaceData.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/Peridigm_InterfaceData.cpp b/src/core/Peridigm_InterfaceData.cpp
index 7f0004b..be37117 100644
--- a/src/core/Peridigm_InterfaceData.cpp
+++ b/src/core/Peridigm_InterfaceData.cpp
@@ -177,6 +177,7 @@ PeridigmNS::InterfaceData::InitializeExodusOutput(Teuchos::RCP<Epetra_Vector> ex
   }
 
   error_int = ex_put_coord(exoid, x, y, z);
+  TEUCHOS_TEST_FOR_EXCEPTION(error_int < 0,std::logic_error,"ex_put_coord(): Failure");
   char * coord_names[3];
   coord_names[0] = (char*) "coordinates_x";
   coord_names[1] = (char*) "coordinates_y";
@@ -229,6 +230,7 @@ PeridigmNS::InterfaceData::InitializeExodusOutput(Teuchos::RCP<Epetra_Vector> ex
     conn_index++;
   }
   error_int = ex_put_elem_conn(exoid, blockIndex, block_connect_q4);
+  TEUCHOS_TEST_FOR_EXCEPTION(error_int < 0,std::logic_error,"ex_put_elem_conn(): Failure");
   delete[] block_connect_q4;
   blockIndex ++;
   conn_index = 0;
@@ -244,6 +246,7 @@ PeridigmNS::InterfaceData::InitializeExodusOutput(Teuchos::RCP<Epetra_Vector> ex
     conn_index++;
   }
   error_int = ex_put_elem_conn(exoid, blockIndex, block_connect_t3);
+  TEUCHOS_TEST_FOR_EXCEPTION(error_int < 0,std::logic_error,"ex_put_elem_conn(): Failure");
   delete[] block_connect_t3;
 
   int numVariables = 1; // TODO careful with this, if more fields are added to the interface data this must be updated
@@ -253,7 +256,9 @@ PeridigmNS::InterfaceData::InitializeExodusOutput(Teuchos::RCP<Epetra_Vector> ex
   for (int i=0;i<numVariables;++i)
     eleVarNames[i] = (char*) (strNames[i].c_str());
   error_int = ex_put_var_param(exoid, (char*) "e", numVariables);
+  TEUCHOS_TEST_FOR_EXCEPTION(error_int < 0,std::logic_error,"ex_put_var_param(): Failure");
   error_int = ex_put_var_names(exoid, (char*) "e", numVariables, &eleVarNames[0]);
+  TEUCHOS_TEST_FOR_EXCEPTION(error_int < 0,std::logic_error,"ex_put_var_names(): Failure");
 
   delete [] eleVarNames;
 
@@ -262,6 +267,7 @@ PeridigmNS::InterfaceData::InitializeExodusOutput(Teuchos::RCP<Epetra_Vector> ex
   for(int i=0;i<numVariables*numBlocks;++i)
     truth_tab[i] = 1;
   error_int = ex_put_elem_var_tab (exoid, numBlocks, numVariables, truth_tab);
+  TEUCHOS_TEST_FOR_EXCEPTION(error_int < 0,std::logic_error,"ex_put_elem_var_tab(): Failure");
   delete [] truth_tab;
 
   error_int = ex_update(exoid);
-- 
2.43.0


From 703b526c74b89a049bbc20ebd93d2842a0841a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:39:46 +0000
Subject: [PATCH 13/22] fix: name the third coordinate of the interface
 database

---
 src/core/Peridigm_InterfaceData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Peridigm_InterfaceData.cpp b/src/core/Peridigm_InterfaceData.cpp
index be37117..6a8dabf 100644
--- a/src/core/Peridigm_InterfaceData.cpp
+++ b/src/core/Peridigm_InterfaceData.cpp
@@ -181,7 +181,7 @@ PeridigmNS::InterfaceData::InitializeExodusOutput(Teuchos::RCP<Epetra_Vector> ex
   char * coord_names[3];
   coord_names[0] = (char*) "coordinates_x";
   coord_names[1] = (char*) "coordinates_y";
-  coord_names[2] = (char*) "coordinates_x";
+  coord_names[2] = (char*) "coordinates_z";
   error_int = ex_put_coord_names(exoid, coord_names);
   TEUCHOS_TEST_FOR_EXCEPTION(error_int,std::logic_error,"ex_put_coord_names(): Failure");
   error_int = ex_put_elem_num_map(exoid, shellMap);
-- 
2.43.0


From 1488561ce2ddc66a4af48f3192c9d46940b41985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:27:43 +0000
Subject: [PATCH 14/22] fix: form the plane bulk modulus from every pair of
 elastic constants

---
 src/materials/Peridigm_Material.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/materials/Peridigm_Material.cpp b/src/materials/Peridigm_Material.cpp
index 69084bd..922c322 100644
--- a/src/materials/Peridigm_Material.cpp
+++ b/src/materials/Peridigm_Material.cpp
@@ -384,6 +384,15 @@ double PeridigmNS::Material::calculateBulkModulus(const Teuchos::ParameterList &
   else
     TEUCHOS_TEST_FOR_EXCEPT_MSG(true, "**** Error:  Exactly two elastic constants must be provided.  Allowable constants are \"Bulk Modulus\", \"Shear Modulus\", \"Young's Modulus\", \"Poisson's Ratio\".\n");
 
+  // The plane variants of the remaining pairs follow from the three-dimensional bulk modulus
+  if( !(youngsModulusDefined && poissonsRatioDefined) && (isPlaneStrain || isPlaneStress) ){
+    double computedShearModulus = calculateShearModulus(params);
+    if( isPlaneStrain )
+      computedValue += computedShearModulus / 3.0;
+    else
+      computedValue = (9.0*computedValue*computedShearModulus) / (3.0*computedValue + 4.0*computedShearModulus);
+  }
+
   return computedValue;
 }
 
-- 
2.43.0


From 5fbf2eaca1862b464c7bd02b0bf8be4684cd7663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:00:16 +0000
Subject: [PATCH 15/22] fix: address displacement fields by their own width in
 the finite-difference tangent

---
 src/materials/Peridigm_Material.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/materials/Peridigm_Material.cpp b/src/materials/Peridigm_Material.cpp
index 922c322..87f80cf 100644
--- a/src/materials/Peridigm_Material.cpp
+++ b/src/materials/Peridigm_Material.cpp
@@ -235,26 +235,26 @@ void PeridigmNS::Material::computeFiniteDifferenceJacobian(const double dt,
       for(int dof=0 ; dof<numDisplacementDof ; ++dof){
 
         // Perturb a dof and compute the forces.
-        double oldY = y[numDof*perturbID+dof];
-        double oldV = v[numDof*perturbID+dof];
+        double oldY = y[numDisplacementDof*perturbID+dof];
+        double oldV = v[numDisplacementDof*perturbID+dof];
 
         if(finiteDifferenceScheme == CENTRAL_DIFFERENCE){
           // Compute and store the negatively perturbed force.
-          y[numDof*perturbID+dof] -= epsilon;
-          v[numDof*perturbID+dof] -= epsilon/dt;
+          y[numDisplacementDof*perturbID+dof] -= epsilon;
+          v[numDisplacementDof*perturbID+dof] -= epsilon/dt;
           computeForce(dt, tempNumOwnedPoints, &tempOwnedIDs[0], &tempNeighborhoodList[0], tempDataManager);
-          y[numDof*perturbID+dof] = oldY;
-          v[numDof*perturbID+dof] = oldV;
+          y[numDisplacementDof*perturbID+dof] = oldY;
+          v[numDisplacementDof*perturbID+dof] = oldV;
           for(int i=0 ; i<forceVector->MyLength() ; ++i)
             tempForce[i] = force[i];
         }
 
         // Compute the purturbed force.
-        y[numDof*perturbID+dof] += epsilon;
-        v[numDof*perturbID+dof] += epsilon/dt;
+        y[numDisplacementDof*perturbID+dof] += epsilon;
+        v[numDisplacementDof*perturbID+dof] += epsilon/dt;
         computeForce(dt, tempNumOwnedPoints, &tempOwnedIDs[0], &tempNeighborhoodList[0], tempDataManager);
-        y[numDof*perturbID+dof] = oldY;
-        v[numDof*perturbID+dof] = oldV;
+        y[numDisplacementDof*perturbID+dof] = oldY;
+        v[numDisplacementDof*perturbID+dof] = oldV;
 
         for(int i=0 ; i<numNeighbors+1 ; ++i){
           int forceID;
@@ -263,8 +263,8 @@ void PeridigmNS::Material::computeFiniteDifferenceJacobian(const double dt,
           else
             forceID = 0;
 
-          for(int d=0 ; d<numDof ; ++d){
-            double value = ( force[numDof*forceID+d] - tempForce[numDof*forceID+d] ) / epsilon;
+          for(int d=0 ; d<numDisplacementDof ; ++d){
+            double value = ( force[numDisplacementDof*forceID+d] - tempForce[numDisplacementDof*forceID+d] ) / epsilon;
             if(finiteDifferenceScheme == CENTRAL_DIFFERENCE)
               value *= 0.5;
             scratchMatrix(numDof*forceID + displacementDofOffset + d, numDof*perturbID + displacementDofOffset + dof) = value;
-- 
2.43.0


From 94c953baa274b01068e18476b33659fb6c767870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:00:16 +0000
Subject: [PATCH 16/22] fix: clear coupling entries of the finite-difference
 tangent

---
 src/materials/Peridigm_Material.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/materials/Peridigm_Material.cpp b/src/materials/Peridigm_Material.cpp
index 87f80cf..a672257 100644
--- a/src/materials/Peridigm_Material.cpp
+++ b/src/materials/Peridigm_Material.cpp
@@ -196,6 +196,11 @@ void PeridigmNS::Material::computeFiniteDifferenceJacobian(const double dt,
     // Resize scratchMatrix if necessary
     if(scratchMatrix.Dimension() < numDof*(numNeighbors+1))
       scratchMatrix.Resize(numDof*(numNeighbors+1));
+    for(int row=0 ; row<numDof*(numNeighbors+1) ; ++row){
+      for(int col=0 ; col<numDof*(numNeighbors+1) ; ++col){
+        scratchMatrix(row, col) = 0.0;
+      }
+    }
 
     // Create a list of global indices for the rows/columns in the scratch matrix.
     vector<int> globalIndices(numDof*(numNeighbors+1));
-- 
2.43.0


From 676aa0ccbe959a1989a5b9c8f9259372194ccc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:56:07 +0000
Subject: [PATCH 17/22] fix: leave room for the terminator of names and titles
 read from Exodus files

---
 src/core/Peridigm_DataLoader.cpp                 |  4 ++--
 .../Peridigm_ExodusDiscretization.cpp            | 16 ++++++++--------
 .../Peridigm_GenesisToPolygons.cpp               |  4 ++--
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/core/Peridigm_DataLoader.cpp b/src/core/Peridigm_DataLoader.cpp
index 6083b29..035673d 100644
--- a/src/core/Peridigm_DataLoader.cpp
+++ b/src/core/Peridigm_DataLoader.cpp
@@ -109,7 +109,7 @@ PeridigmNS::DataLoader::DataLoader(const Teuchos::ParameterList& contactParams,
 
   // Read the initialization parameters
   int numDim, numNodes, numElem, numElemBlocks, numNodeSets, numSideSets;
-  char title[MAX_LINE_LENGTH];
+  char title[MAX_LINE_LENGTH+1];
   int retval = ex_get_init(exodusFileId, title, &numDim, &numNodes, &numElem, &numElemBlocks, &numNodeSets, &numSideSets);
   if (retval != 0) reportExodusError(retval, "DataLoader()", "ex_get_init");
 
@@ -134,7 +134,7 @@ PeridigmNS::DataLoader::DataLoader(const Teuchos::ParameterList& contactParams,
   if(numNodeMaps > 0){
     TEUCHOS_TEST_FOR_EXCEPT_MSG(numNodeMaps > 1,
                                 "**** Error in DataLoader(), genesis file contains invalid number of auxiliary node maps (>1).\n");
-    char mapName[MAX_STR_LENGTH];
+    char mapName[MAX_STR_LENGTH+1];
     retval = ex_get_name(exodusFileId, EX_NODE_MAP, 1, mapName);
     if (retval != 0) reportExodusError(retval, "DataLoader()", "ex_get_name");
     TEUCHOS_TEST_FOR_EXCEPT_MSG(std::string(mapName) != std::string("original_global_id_map"),
diff --git a/src/io/discretization/Peridigm_ExodusDiscretization.cpp b/src/io/discretization/Peridigm_ExodusDiscretization.cpp
index e4caa04..9c36ca6 100644
--- a/src/io/discretization/Peridigm_ExodusDiscretization.cpp
+++ b/src/io/discretization/Peridigm_ExodusDiscretization.cpp
@@ -245,7 +245,7 @@ void PeridigmNS::ExodusDiscretization::loadData(const string& meshFileName)
 
   // Read the initialization parameters
   int numDim, numNodes, numElem, numElemBlocks, numNodeSets, numSideSets;
-  char title[MAX_LINE_LENGTH];
+  char title[MAX_LINE_LENGTH+1];
   int retval = ex_get_init(exodusFileId, title, &numDim, &numNodes, &numElem, &numElemBlocks, &numNodeSets, &numSideSets);
   if (retval != 0) reportExodusError(retval, "ExodusDiscretization::loadData()", "ex_get_init");
 
@@ -282,7 +282,7 @@ void PeridigmNS::ExodusDiscretization::loadData(const string& meshFileName)
   if(numElemMaps > 0){
     TEUCHOS_TEST_FOR_TERMINATION(numElemMaps > 1,
                                 "**** Error in ExodusDiscretization::loadData(), genesis file contains invalid number of auxiliary element maps (>1).\n");
-    char mapName[MAX_STR_LENGTH];
+    char mapName[MAX_STR_LENGTH+1];
     retval = ex_get_name(exodusFileId, EX_ELEM_MAP, 1, mapName);
     if (retval != 0) reportExodusError(retval, "ExodusDiscretization::loadData()", "ex_get_name");
     TEUCHOS_TEST_FOR_TERMINATION(string(mapName) != string("original_global_id_map"),
@@ -298,7 +298,7 @@ void PeridigmNS::ExodusDiscretization::loadData(const string& meshFileName)
   if(numNodeMaps > 0){
     TEUCHOS_TEST_FOR_TERMINATION(numNodeMaps > 1,
                                 "**** Error in ExodusDiscretization::loadData(), genesis file contains invalid number of auxiliary node maps (>1).\n");
-    char mapName[MAX_STR_LENGTH];
+    char mapName[MAX_STR_LENGTH+1];
     retval = ex_get_name(exodusFileId, EX_NODE_MAP, 1, mapName);
     if (retval != 0) reportExodusError(retval, "ExodusDiscretization::loadData()", "ex_get_name");
     TEUCHOS_TEST_FOR_TERMINATION(string(mapName) != string("original_global_id_map"),
@@ -347,7 +347,7 @@ void PeridigmNS::ExodusDiscretization::loadData(const string& meshFileName)
     int elemBlockId = elemBlockIds[iElemBlock];
 
     // Get the block name, if there is one
-    char exodusElemBlockName[MAX_STR_LENGTH];
+    char exodusElemBlockName[MAX_STR_LENGTH+1];
     retval = ex_get_name(exodusFileId, EX_ELEM_BLOCK, elemBlockId, exodusElemBlockName);
     if (retval != 0) reportExodusError(retval, "ExodusDiscretization::loadData()", "ex_get_name");
     // If the block name came back blank, create one that looks like "block_1", "block_2", etc.
@@ -363,7 +363,7 @@ void PeridigmNS::ExodusDiscretization::loadData(const string& meshFileName)
     vector<int>& elementBlock = (*elementBlocks)[elemBlockName];
 
     // Get the block parameters and the element connectivity
-    char elemType[MAX_STR_LENGTH];
+    char elemType[MAX_STR_LENGTH+1];
     int numElemThisBlock, numNodesPerElem, numAttributes;
     retval = ex_get_elem_block(exodusFileId, elemBlockId, elemType, &numElemThisBlock, &numNodesPerElem, &numAttributes);
     if (retval != 0) reportExodusError(retval, "ExodusDiscretization::loadData()", "ex_get_elem_block");
@@ -461,7 +461,7 @@ void PeridigmNS::ExodusDiscretization::loadData(const string& meshFileName)
   if(storeExodusMesh){
     int* myGlobalElements = oneDimensionalMap->MyGlobalElements();
     vector<int> elementSizeList(numElem);
-    char elemType[MAX_STR_LENGTH];
+    char elemType[MAX_STR_LENGTH+1];
     int numElemThisBlock, numNodesPerElem, numAttributes;
     int index(0);
     for(int iElemBlock=0 ; iElemBlock<numElemBlocks ; ++iElemBlock){
@@ -502,7 +502,7 @@ void PeridigmNS::ExodusDiscretization::loadData(const string& meshFileName)
   localElemId = 0;
   for(int iElemBlock=0 ; iElemBlock<numElemBlocks ; ++iElemBlock){
     int elemBlockId = elemBlockIds[iElemBlock];
-    char elemType[MAX_STR_LENGTH];
+    char elemType[MAX_STR_LENGTH+1];
     int numElemThisBlock, numNodesPerElem, numAttributes;
     retval = ex_get_elem_block(exodusFileId, elemBlockId, elemType, &numElemThisBlock, &numNodesPerElem, &numAttributes);
     if (retval != 0) reportExodusError(retval, "ExodusDiscretization::loadData()", "ex_get_elem_block");
@@ -528,7 +528,7 @@ void PeridigmNS::ExodusDiscretization::loadData(const string& meshFileName)
     if (retval != 0) reportExodusError(retval, "ExodusDiscretization::loadData()", "ex_get_node_set_ids");
     for(int i=0 ; i<numNodeSets ; ++i){
       int nodeSetId = exodusNodeSetIds[i];
-      char exodusNodeSetName[MAX_STR_LENGTH];
+      char exodusNodeSetName[MAX_STR_LENGTH+1];
       retval = ex_get_name(exodusFileId, EX_NODE_SET, nodeSetId, exodusNodeSetName);
       if (retval != 0) reportExodusError(retval, "ExodusDiscretization::loadData()", "ex_get_name");
       // If the node set name came back blank, create one that looks like "nodelist_1", "nodelist_2", etc.
diff --git a/src/io/discretization/Peridigm_GenesisToPolygons.cpp b/src/io/discretization/Peridigm_GenesisToPolygons.cpp
index e4c3924..b9bb074 100644
--- a/src/io/discretization/Peridigm_GenesisToPolygons.cpp
+++ b/src/io/discretization/Peridigm_GenesisToPolygons.cpp
@@ -64,7 +64,7 @@ void PeridigmNS::GenesisToPolygons(std::string genesis_file_name,
 
   // Read the initialization parameters
   int numDim, numNodes, numElem, numElemBlocks, numNodeSets, numSideSets;
-  char title[MAX_LINE_LENGTH];
+  char title[MAX_LINE_LENGTH+1];
   int retval = ex_get_init(exodusFileId, title, &numDim, &numNodes, &numElem, &numElemBlocks, &numNodeSets, &numSideSets);
   if (retval != 0) report_exodus_error(retval, "ex_get_init");
 
@@ -83,7 +83,7 @@ void PeridigmNS::GenesisToPolygons(std::string genesis_file_name,
     int elemBlockId = elemBlockIds[iElemBlock];
 
     // Get the block parameters and the element connectivity
-    char elemType[MAX_STR_LENGTH];
+    char elemType[MAX_STR_LENGTH+1];
     int numElemThisBlock, numNodesPerElem, numAttributes;
     retval = ex_get_elem_block(exodusFileId, elemBlockId, elemType, &numElemThisBlock, &numNodesPerElem, &numAttributes);
     if (retval != 0) report_exodus_error(retval, "ex_get_elem_block");
-- 
2.43.0


From b69198ba9cd09824fbd8c2e3762515f8ad5943a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:56:07 +0000
Subject: [PATCH 18/22] fix: accept restart directory names of any length

---
 src/core/Peridigm.cpp | 50 +++++++++++++++----------------------------
 1 file changed, 17 insertions(+), 33 deletions(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 1c422bc..5b4460b 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -1007,70 +1007,54 @@ void PeridigmNS::Peridigm::InitializeRestart() {
 }
 
 void PeridigmNS::Peridigm::setRestartNames(	char const * restart_directory_namePtr) {
-char pathname[100];
+const std::string directory(restart_directory_namePtr);
 //path to current restart folder
 restartFiles["path"] = restart_directory_namePtr;
 //Current time restart file
-sprintf(pathname,"%s/currentTime.txt",restart_directory_namePtr);
-restartFiles["currentTime"] = pathname;
+restartFiles["currentTime"] = directory + "/currentTime.txt";
 //blockIDs restart file
-sprintf(pathname,"%s/blockIDs.mat",restart_directory_namePtr);
-restartFiles["blockIDs"] = pathname;
+restartFiles["blockIDs"] = directory + "/blockIDs.mat";
 //horizon restart file
-sprintf(pathname,"%s/horizon.mat",restart_directory_namePtr);
-restartFiles["horizon"] = pathname;
+restartFiles["horizon"] = directory + "/horizon.mat";
 
 //volume restart file
-sprintf(pathname,"%s/volume.mat",restart_directory_namePtr);
-restartFiles["volume"] = pathname;
+restartFiles["volume"] = directory + "/volume.mat";
 
 //density restart file
-sprintf(pathname,"%s/density.mat",restart_directory_namePtr);
-restartFiles["density"] = pathname;
+restartFiles["density"] = directory + "/density.mat";
 
 //deltaTemperature restart file
-sprintf(pathname,"%s/deltaTemperature.mat",restart_directory_namePtr);
-restartFiles["deltaTemperature"] = pathname;
+restartFiles["deltaTemperature"] = directory + "/deltaTemperature.mat";
 
 //x restart file
-sprintf(pathname,"%s/x.mat",restart_directory_namePtr);
-restartFiles["x"] = pathname;
+restartFiles["x"] = directory + "/x.mat";
 
 //u restart file
-sprintf(pathname,"%s/u.mat",restart_directory_namePtr);
-restartFiles["u"] = pathname;
+restartFiles["u"] = directory + "/u.mat";
 
 //y restart file
-sprintf(pathname,"%s/y.mat",restart_directory_namePtr);
-restartFiles["y"] = pathname;
+restartFiles["y"] = directory + "/y.mat";
 
 //v restart file
-sprintf(pathname,"%s/v.mat",restart_directory_namePtr);
-restartFiles["v"] = pathname;
+restartFiles["v"] = directory + "/v.mat";
 
 //a restart file
-sprintf(pathname,"%s/a.mat",restart_directory_namePtr);
-restartFiles["a"] = pathname;
+restartFiles["a"] = directory + "/a.mat";
 
 //force restart file
-sprintf(pathname,"%s/force.mat",restart_directory_namePtr);
-restartFiles["force"] = pathname;
+restartFiles["force"] = directory + "/force.mat";
 
 //contactForce restart file
-sprintf(pathname,"%s/contactForce.mat",restart_directory_namePtr);
-restartFiles["contactForce"] = pathname;
+restartFiles["contactForce"] = directory + "/contactForce.mat";
 
 //externalForce restart file
-sprintf(pathname,"%s/externalForce.mat",restart_directory_namePtr);
-restartFiles["externalForce"] = pathname;
+restartFiles["externalForce"] = directory + "/externalForce.mat";
 
 //deltaU restart file
-sprintf(pathname,"%s/deltaU.mat",restart_directory_namePtr);
-restartFiles["deltaU"] = pathname;
+restartFiles["deltaU"] = directory + "/deltaU.mat";
 
 //scratch restart file
-sprintf(pathname,"%s/scratch.mat",restart_directory_namePtr);
-restartFiles["scratch"] = pathname;
+restartFiles["scratch"] = directory + "/scratch.mat";
 }
 
 void PeridigmNS::Peridigm::instantiateComputeManager(Teuchos::RCP<Discretization> peridigmDiscretization) {
-- 
2.43.0


From d4973ec2cf799f1bedf1ea4db2440eae7ff9c0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:56:07 +0000
Subject: [PATCH 19/22] fix: accept block names of any length in restart files

---
 src/core/Peridigm_State.cpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/core/Peridigm_State.cpp b/src/core/Peridigm_State.cpp
index 74d6cc6..87e5e83 100644
--- a/src/core/Peridigm_State.cpp
+++ b/src/core/Peridigm_State.cpp
@@ -152,54 +152,52 @@ void PeridigmNS::State::copyLocallyOwnedDataFromState(Teuchos::RCP<PeridigmNS::S
 
 void PeridigmNS::State::writeStateData(Teuchos::RCP<PeridigmNS::State> source,  std::string stateName,  std::string blockName,  char const * path)
 {
-  char VectorName[100];
+  std::string VectorName;
   SetRestartFiles(stateName, blockName, path);
   for(unsigned int i=0 ; i<pointData.size() ; ++i){
     if(!pointData[i].is_null()){
-      sprintf(VectorName,"%s%s_Element%d",blockName.c_str(),stateName.c_str(),i);
+      VectorName = blockName + stateName + "_Element" + std::to_string(i);
       EpetraExt::MultiVectorToMatrixMarketFile(restartStateFiles[VectorName].c_str(),
-                                               *(source->getPointMultiVector(i)),VectorName,"",true);
+                                               *(source->getPointMultiVector(i)),VectorName.c_str(),"",true);
     }
   }
   if(!bondData.is_null()){
-    sprintf(VectorName,"%s%s",blockName.c_str(),stateName.c_str());
+    VectorName = blockName + stateName;
     EpetraExt::MultiVectorToMatrixMarketFile(restartStateFiles[VectorName].c_str(),
-                                             *(source->getBondMultiVector()),VectorName,"",true);
+                                             *(source->getBondMultiVector()),VectorName.c_str(),"",true);
   }
 }
 void PeridigmNS::State::SetRestartFiles( std::string stateName, std::string blockName, char const * path)
 {
-  char pathname[100], VectorName[50];
+  std::string VectorName;
   for(unsigned int i=0 ; i<pointData.size() ; ++i){
     if(!pointData[i].is_null()){
-      sprintf(VectorName,"%s%s_Element%d",blockName.c_str(),stateName.c_str(),i);
-      sprintf(pathname,"%s/pointData_%s.mat",path,VectorName);
-      restartStateFiles[VectorName] = pathname;
+      VectorName = blockName + stateName + "_Element" + std::to_string(i);
+      restartStateFiles[VectorName] = std::string(path) + "/pointData_" + VectorName + ".mat";
     }
   }
   if(!bondData.is_null()){
-    sprintf(VectorName,"%s%s",blockName.c_str(),stateName.c_str());
-    sprintf(pathname,"%s/BondData_%s.mat",path,VectorName);
-    restartStateFiles[VectorName] = pathname;
+    VectorName = blockName + stateName;
+    restartStateFiles[VectorName] = std::string(path) + "/BondData_" + VectorName + ".mat";
   }
 }
 
 
 void PeridigmNS::State::readStateData(Teuchos::RCP<PeridigmNS::State> source,  std::string stateName,  std::string blockName, char const * path)
 {
-  char VectorName[100];
+  std::string VectorName;
   Epetra_MultiVector * MultiVectorUpdate;
   SetRestartFiles(stateName, blockName, path);
   for(unsigned int i=0 ; i<pointData.size() ; ++i){
     if(!pointData[i].is_null()){
-      sprintf(VectorName,"%s%s_Element%d",blockName.c_str(),stateName.c_str(),i);
+      VectorName = blockName + stateName + "_Element" + std::to_string(i);
       EpetraExt::MatrixMarketFileToMultiVector(restartStateFiles[VectorName].c_str(),(source->getPointMultiVector(i))->Map(), MultiVectorUpdate);
       copyLocallyOwnedMultiVectorData( *MultiVectorUpdate, *pointData[i] );
     }
   }
 
   if(!bondData.is_null()){
-    sprintf(VectorName,"%s%s",blockName.c_str(),stateName.c_str());
+    VectorName = blockName + stateName;
     EpetraExt::MatrixMarketFileToMultiVector(restartStateFiles[VectorName].c_str(),source->getBondMultiVector()->Map(), MultiVectorUpdate);
     copyLocallyOwnedMultiVectorData( *MultiVectorUpdate, *bondData );
   }
-- 
2.43.0


From c80b82d17da5664abd4f61f3418cc9451a89f7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:56:07 +0000
Subject: [PATCH 20/22] fix: truncate long names instead of overrunning Exodus
 name buffers

---
 src/io/Peridigm_OutputManager_ExodusII.cpp    | 20 +++++++++++++------
 .../Peridigm_MeshConverter_Main.cpp           | 14 ++++++++++---
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/io/Peridigm_OutputManager_ExodusII.cpp b/src/io/Peridigm_OutputManager_ExodusII.cpp
index ea5fe7d..857643b 100644
--- a/src/io/Peridigm_OutputManager_ExodusII.cpp
+++ b/src/io/Peridigm_OutputManager_ExodusII.cpp
@@ -43,6 +43,7 @@
 // ************************************************************************
 //@HEADER
 
+#include <cstring>
 #include <fstream>
 #include <time.h>
 #include <vector>
@@ -64,6 +65,13 @@
 
 using namespace std;
 
+//! Copies a name into a buffer of MAX_STR_LENGTH+1 characters; longer names are truncated.
+static void copyName(char* target, const char* name)
+{
+  strncpy(target, name, MAX_STR_LENGTH);
+  target[MAX_STR_LENGTH] = '\0';
+}
+
 PeridigmNS::OutputManager_ExodusII::OutputManager_ExodusII(const Teuchos::RCP<Teuchos::ParameterList>& params, 
                                                            PeridigmNS::Peridigm *peridigm_,
                                                            Teuchos::RCP< std::vector<PeridigmNS::Block> > blocks) 
@@ -595,7 +603,7 @@ void PeridigmNS::OutputManager_ExodusII::initializeExodusDatabase(Teuchos::RCP<
     for(unsigned int i=0;i<numNodeSets;i++) node_set_names[i] = new char[MAX_STR_LENGTH+1];
     int index = 0;
     for(nsIt = exodusNodeSets->begin() ; nsIt != exodusNodeSets->end() ; nsIt++)
-      strcpy(node_set_names[index++], nsIt->first.c_str());
+      copyName(node_set_names[index++], nsIt->first.c_str());
     retval = ex_put_names(file_handle, EX_NODE_SET, node_set_names);
     if(retval!= 0) reportExodusError(retval, "initializeExodusDatabase", "ex_put_names EX_NODE_SET");
   }
@@ -647,7 +655,7 @@ void PeridigmNS::OutputManager_ExodusII::initializeExodusDatabase(Teuchos::RCP<
     block_names[i] = new char[MAX_STR_LENGTH+1];
   int index = 0;
   for(blockIt = blocks->begin(); blockIt != blocks->end(); blockIt++)
-    strcpy(block_names[index++], blockIt->getName().c_str());
+    copyName(block_names[index++], blockIt->getName().c_str());
   retval = ex_put_names(file_handle, EX_ELEM_BLOCK, block_names);
   if(retval!= 0) reportExodusError(retval, "initializeExodusDatabase", "ex_put_names EX_ELEM_BLOCK");
 
@@ -795,7 +803,7 @@ void PeridigmNS::OutputManager_ExodusII::initializeExodusDatabase(Teuchos::RCP<
     char **global_var_names = new char*[num_global_vars];
     for(i=0;i<num_global_vars;i++) global_var_names[i] = new char[MAX_STR_LENGTH+1]; // MAX_STR_LENGTH defined in ExodusII.h
     for(std::map<string,int>::iterator it=global_output_field_map.begin() ; it != global_output_field_map.end(); it++ )
-      strcpy(global_var_names[(it->second)-1], it->first.c_str() );
+      copyName(global_var_names[(it->second)-1], it->first.c_str());
     retval = ex_put_var_param(file_handle, "G", num_global_vars);
     if(retval!= 0) reportExodusError(retval, "initializeExodusDatabase", "ex_put_var_param");
     retval = ex_put_var_names (file_handle, "G", num_global_vars, global_var_names);
@@ -809,7 +817,7 @@ void PeridigmNS::OutputManager_ExodusII::initializeExodusDatabase(Teuchos::RCP<
     node_var_names = new char*[num_node_vars];
     for(i=0;i<num_node_vars;i++) node_var_names[i] = new char[MAX_STR_LENGTH+1]; // MAX_STR_LENGTH defined in ExodusII.h
     for(std::map<string,int>::iterator it=node_output_field_map.begin() ; it != node_output_field_map.end(); it++ ){
-      strcpy(node_var_names[(it->second)-1], it->first.c_str() );
+      copyName(node_var_names[(it->second)-1], it->first.c_str());
     }
     retval = ex_put_var_param(file_handle,"N",num_node_vars);
     if(retval!= 0) reportExodusError(retval, "initializeExodusDatabase", "ex_put_var_param");
@@ -824,7 +832,7 @@ void PeridigmNS::OutputManager_ExodusII::initializeExodusDatabase(Teuchos::RCP<
     element_var_names = new char*[num_element_vars];
     for(i=0;i<num_element_vars;i++) element_var_names[i] = new char[MAX_STR_LENGTH+1]; // MAX_STR_LENGTH defined in ExodusII.h
     for(std::map<string,int>::iterator it=element_output_field_map.begin() ; it != element_output_field_map.end(); it++){
-      strcpy(element_var_names[(it->second)-1], it->first.c_str() );
+      copyName(element_var_names[(it->second)-1], it->first.c_str());
     }
     retval = ex_put_var_param(file_handle,"E",num_element_vars);
     if(retval!= 0) reportExodusError(retval, "initializeExodusDatabase", "ex_put_var_param");
@@ -1029,7 +1037,7 @@ void PeridigmNS::OutputManager_ExodusII::initializeExodusDatabaseWithOnlyGlobalD
     char **global_var_names = new char*[num_global_vars];
     for(int i=0;i<num_global_vars;i++) global_var_names[i] = new char[MAX_STR_LENGTH+1]; // MAX_STR_LENGTH defined in ExodusII.h
     for(std::map<string,int>::iterator it=global_output_field_map.begin() ; it != global_output_field_map.end(); it++ )
-      strcpy(global_var_names[(it->second)-1], it->first.c_str() );
+      copyName(global_var_names[(it->second)-1], it->first.c_str());
     retval = ex_put_var_param(file_handle, "G", num_global_vars);
     if(retval!= 0) reportExodusError(retval, "initializeExodusDatabase", "ex_put_var_param");
     retval = ex_put_var_names (file_handle, "G", num_global_vars, global_var_names);
diff --git a/src/mesh_converter/Peridigm_MeshConverter_Main.cpp b/src/mesh_converter/Peridigm_MeshConverter_Main.cpp
index 1015cad..3938e5a 100644
--- a/src/mesh_converter/Peridigm_MeshConverter_Main.cpp
+++ b/src/mesh_converter/Peridigm_MeshConverter_Main.cpp
@@ -58,11 +58,19 @@
 #include "Peridigm_HorizonManager.hpp"
 #include "Peridigm_ExodusDiscretization.hpp"
 #include "exodusII.h"
+#include <cstring>
 #include <iostream>
 #include <sstream>
 #include <Teuchos_YamlParameterListCoreHelpers.hpp>
 #include <float.h>
 
+//! Copies a name into a buffer of MAX_STR_LENGTH+1 characters; longer names are truncated.
+static void copyName(char* target, const char* name)
+{
+  strncpy(target, name, MAX_STR_LENGTH);
+  target[MAX_STR_LENGTH] = '\0';
+}
+
 void reportExodusError(int errorCode, const char *methodName, const char*exodusMethodName)
 {
   std::stringstream ss;
@@ -278,9 +286,9 @@ int main(int argc, char *argv[]) {
     for(unsigned int i=0;i<numNodeSets;i++) node_set_names[i] = new char[MAX_STR_LENGTH+1];
     int index = 0;
     for(nsIt = nodeSets->begin() ; nsIt != nodeSets->end() ; nsIt++)
-      strcpy(node_set_names[index++], nsIt->first.c_str());
+      copyName(node_set_names[index++], nsIt->first.c_str());
     for(nsIt = boundaryLayerNodeSets.begin() ; nsIt != boundaryLayerNodeSets.end() ; nsIt++)
-      strcpy(node_set_names[index++], nsIt->first.c_str());
+      copyName(node_set_names[index++], nsIt->first.c_str());
     retval = ex_put_names(file_handle, EX_NODE_SET, node_set_names);
     if (retval!= 0) reportExodusError(retval, "MeshConverter", "ex_put_names EX_NODE_SET");
   }
@@ -334,7 +342,7 @@ int main(int argc, char *argv[]) {
     block_names[i] = new char[MAX_STR_LENGTH+1];
   int index = 0;
   for(blockIt = blocks->begin(); blockIt != blocks->end(); blockIt++)
-    strcpy(block_names[index++], blockIt->first.c_str());
+    copyName(block_names[index++], blockIt->first.c_str());
   retval = ex_put_names(file_handle, EX_ELEM_BLOCK, block_names);
   if(retval!= 0) reportExodusError(retval, "MeshConverter", "ex_put_names EX_ELEM_BLOCK");
 
-- 
2.43.0


From 0269e00588683b7551d9a4f3e3991c7545d919ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:11:45 +0000
Subject: [PATCH 21/22] fix: report the names by which correspondence materials
 are selected

---
 src/materials/Peridigm_ElasticPlasticCorrespondenceMaterial.hpp | 2 +-
 ...opicHardeningPlasticBondAssociatedCorrespondenceMaterial.hpp | 2 +-
 ...Peridigm_IsotropicHardeningPlasticCorrespondenceMaterial.hpp | 2 +-
 ...otropicHardeningPlasticHypoelasticCorrespondenceMaterial.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/materials/Peridigm_ElasticPlasticCorrespondenceMaterial.hpp b/src/materials/Peridigm_ElasticPlasticCorrespondenceMaterial.hpp
index a538eab..1f95475 100644
--- a/src/materials/Peridigm_ElasticPlasticCorrespondenceMaterial.hpp
+++ b/src/materials/Peridigm_ElasticPlasticCorrespondenceMaterial.hpp
@@ -62,7 +62,7 @@ namespace PeridigmNS {
     virtual ~ElasticPlasticCorrespondenceMaterial();
 
     //! Return name of material type
-    virtual std::string Name() const { return("Plastic Correspondence"); }
+    virtual std::string Name() const { return("Elastic Plastic Correspondence"); }
 
     //! Initialize the derived class
     virtual void initialize(const double dt, 
diff --git a/src/materials/Peridigm_IsotropicHardeningPlasticBondAssociatedCorrespondenceMaterial.hpp b/src/materials/Peridigm_IsotropicHardeningPlasticBondAssociatedCorrespondenceMaterial.hpp
index a53f392..d5c42f1 100644
--- a/src/materials/Peridigm_IsotropicHardeningPlasticBondAssociatedCorrespondenceMaterial.hpp
+++ b/src/materials/Peridigm_IsotropicHardeningPlasticBondAssociatedCorrespondenceMaterial.hpp
@@ -62,7 +62,7 @@ namespace PeridigmNS {
     virtual ~IsotropicHardeningPlasticBondAssociatedCorrespondenceMaterial();
 
     //! Return name of material type
-    virtual std::string Name() const { return("Isotropic Hardening Plastic Bond Associated Correspondence"); }
+    virtual std::string Name() const { return("Isotropic Hardening Bond Associated Correspondence"); }
 
     //! Initialize the derived class
     virtual void initialize(const double dt, 
diff --git a/src/materials/Peridigm_IsotropicHardeningPlasticCorrespondenceMaterial.hpp b/src/materials/Peridigm_IsotropicHardeningPlasticCorrespondenceMaterial.hpp
index 3ab6d7e..8db5511 100644
--- a/src/materials/Peridigm_IsotropicHardeningPlasticCorrespondenceMaterial.hpp
+++ b/src/materials/Peridigm_IsotropicHardeningPlasticCorrespondenceMaterial.hpp
@@ -62,7 +62,7 @@ namespace PeridigmNS {
     virtual ~IsotropicHardeningPlasticCorrespondenceMaterial();
 
     //! Return name of material type
-    virtual std::string Name() const { return("Isotropic Hardening Plastic Correspondence"); }
+    virtual std::string Name() const { return("Isotropic Hardening Correspondence"); }
 
     //! Initialize the derived class
     virtual void initialize(const double dt, 
diff --git a/src/materials/Peridigm_IsotropicHardeningPlasticHypoelasticCorrespondenceMaterial.hpp b/src/materials/Peridigm_IsotropicHardeningPlasticHypoelasticCorrespondenceMaterial.hpp
index bfd59ff..0092b5f 100644
--- a/src/materials/Peridigm_IsotropicHardeningPlasticHypoelasticCorrespondenceMaterial.hpp
+++ b/src/materials/Peridigm_IsotropicHardeningPlasticHypoelasticCorrespondenceMaterial.hpp
@@ -62,7 +62,7 @@ namespace PeridigmNS {
     virtual ~IsotropicHardeningPlasticHypoelasticCorrespondenceMaterial();
 
     //! Return name of material type
-    virtual std::string Name() const { return("Elastic Plastic Hypoelastic Correspondence"); }
+    virtual std::string Name() const { return("Isotropic Hardening Hypoelastic Correspondence"); }
 
     //! Initialize the derived class
     virtual void initialize(const double dt, 
-- 
2.43.0


From b42aa3f4d5d0f484bbe4f574a3227ef44e186989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:11:45 +0000
Subject: [PATCH 22/22] fix: keep all digits of the time in restart sets

---
 src/core/Peridigm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 5b4460b..7e75b91 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -4451,6 +4451,7 @@ void PeridigmNS::Peridigm::writeRestart(Teuchos::RCP<Teuchos::ParameterList> sol
   currentTime += solverParams->get("Final Time", 1.0)-timeInitial;
   ofstream outputFile;
   outputFile.open(restartFiles["currentTime"].c_str());
+  outputFile.precision(17);
   outputFile << "Current time is " << "\n" << currentTime  << "\n";
   outputFile.close();
   }
-- 
2.43.0

