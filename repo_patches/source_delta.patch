From 73a30ae8f7bcb4eed90add3fae8668b5ead56d67 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 01/34] fix: return a zero reference, not an uninitialised one,
 when no position is active

---
 src/PositionReferenceGenerator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PositionReferenceGenerator.cpp b/src/PositionReferenceGenerator.cpp
index 2f2673e..93549a5 100644
--- a/src/PositionReferenceGenerator.cpp
+++ b/src/PositionReferenceGenerator.cpp
@@ -99,6 +99,7 @@ const iDynTree::VectorDynSize &TimeVaryingWeight::get(double time, bool &isValid
 
 PositionReference::PositionReference(std::shared_ptr<PositionReferenceGeneratorData> data) {
     m_data = data;
+    m_zeroPosition.zero();
 }
 
 const iDynTree::Position &PositionReference::get(double time, bool &isValid) {
-- 
2.43.0


From 74c1be5b9db7fcb8ec18a6577a0aede8a080a61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 02/34] fix: finite position reference weight for instantaneous
 and any-time ranges

---
 src/PositionReferenceGenerator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/PositionReferenceGenerator.cpp b/src/PositionReferenceGenerator.cpp
index 93549a5..61dedd4 100644
--- a/src/PositionReferenceGenerator.cpp
+++ b/src/PositionReferenceGenerator.cpp
@@ -88,7 +88,12 @@ const iDynTree::VectorDynSize &TimeVaryingWeight::get(double time, bool &isValid
         return m_outputWeight;
     }
 
-    double increaseAmount = (time - activeElement->activeRange.initTime())/(activeElement->activeRange.endTime() - activeElement->activeRange.initTime());
+    double rangeLength = activeElement->activeRange.endTime() - activeElement->activeRange.initTime();
+    double increaseAmount = 0.0;
+
+    if (rangeLength > 0.0) { //The range may also be an instant or "any time". In this case there is no interval over which to increase the weight
+        increaseAmount = (time - activeElement->activeRange.initTime())/rangeLength;
+    }
 
     for (unsigned int i = 0; i < 3; ++i) {
         m_outputWeight(i) = (m_increaseFactors(i) * increaseAmount + 1.0) * (m_increaseFactors(i) * increaseAmount + 1.0);
-- 
2.43.0


From 8916339664ee19b9c5eeefe7b22af5c38c5677bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 03/34] fix: check the force derivative reference, not the
 rotation one, when the force derivative cost is active

---
 src/Settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Settings.cpp b/src/Settings.cpp
index 01be9c6..e9550ea 100644
--- a/src/Settings.cpp
+++ b/src/Settings.cpp
@@ -126,7 +126,7 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
     }
 
     if (inputSettings.forceDerivativeCostActive) {
-        errors += checkError(!(inputSettings.desiredRotationTrajectory), " The desiredRotationTrajectory is empty.");
+        errors += checkError(!(inputSettings.desiredForceDerivativeTrajectory), " The desiredForceDerivativeTrajectory is empty.");
         errors += checkError(inputSettings.forceDerivativeWeights.size() != 3, "The forceDerivativeWeights is expected to be three dimensional.");
     }
 
-- 
2.43.0


From e020bca783259c4bdf1793c8afb51f1709c84abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 04/34] fix: do not read the joints velocity limits out of
 bounds when their number is wrong

---
 src/Settings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Settings.cpp b/src/Settings.cpp
index e9550ea..7452444 100644
--- a/src/Settings.cpp
+++ b/src/Settings.cpp
@@ -82,7 +82,9 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
     for (size_t j = 0; j < inputSettings.jointsLimits.size(); ++j) {
         errors += checkError(inputSettings.jointsLimits[j].first > inputSettings.jointsLimits[j].second,
                              "The lower limit of joint " + std::to_string(j) + " is bigger than its upper limit.");
+    }
 
+    for (size_t j = 0; j < inputSettings.jointsVelocityLimits.size(); ++j) {
         errors += checkError(inputSettings.jointsVelocityLimits[j].first > inputSettings.jointsVelocityLimits[j].second,
                              "The lower velocity limit of joint " + std::to_string(j) + " is bigger than its upper limit.");
     }
-- 
2.43.0


From 8fd7de01aad5256e91340f96abbc9cf394f5a39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 05/34] fix: refuse settings whose active tasks lack their
 references or have weights of the wrong size

---
 src/Settings.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/Settings.cpp b/src/Settings.cpp
index 7452444..53bdf89 100644
--- a/src/Settings.cpp
+++ b/src/Settings.cpp
@@ -106,6 +106,7 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
 
     if (inputSettings.comVelocityCostActive) {
         errors += checkError(inputSettings.comVelocityWeights.size() != 3, "The comVelocityWeights vector is expected to be three dimensional.");
+        errors += checkError(!inputSettings.comVelocityCostActiveRange.isValid(), "The specified time range for the CoM velocity cost is not valid.");
         errors += checkError(!inputSettings.desiredCoMVelocityTrajectory, "The desiredCoMVelocityTrajectory is empty.");
     }
 
@@ -122,6 +123,20 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
                              "The jointRegularizationWeights size does not match the robot DoFs.");
     }
 
+    if (inputSettings.jointsVelocityCostActive) {
+        errors += checkError(!(inputSettings.desiredJointsVelocityTrajectory), "The desiredJointsVelocityTrajectory is empty.");
+        errors += checkError(inputSettings.jointsVelocityCostWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
+                             "The jointsVelocityCostWeights size does not match the robot DoFs.");
+    }
+
+    if (inputSettings.jointsVelocityForPosturalCostActive) {
+        errors += checkError(!(inputSettings.desiredJointsTrajectory), "The desiredJointsTrajectory is empty.");
+        errors += checkError(inputSettings.jointsRegularizationWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
+                             "The jointRegularizationWeights size does not match the robot DoFs.");
+        errors += checkError(inputSettings.jointsVelocityCostWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
+                             "The jointsVelocityCostWeights size does not match the robot DoFs.");
+    }
+
     if (inputSettings.staticTorquesCostActive) {
         errors += checkError(inputSettings.staticTorquesCostWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
                              "The staticTorquesCostWeights size does not match the robot DoFs.");
@@ -147,6 +162,20 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
         errors += checkError(!inputSettings.meanPointPositionCostTimeVaryingWeight, "The meanPointPositionCostTimeVaryingWeight pointer is empty.");
     }
 
+    if (inputSettings.leftFootYawCostActive) {
+        errors += checkError(!inputSettings.desiredLeftFootYaw, "The desiredLeftFootYaw is empty.");
+    }
+
+    if (inputSettings.rightFootYawCostActive) {
+        errors += checkError(!inputSettings.desiredRightFootYaw, "The desiredRightFootYaw is empty.");
+    }
+
+    if (inputSettings.frameAngularVelocityCostActive) {
+        errors += checkError(!(inputSettings.robotModel.isFrameNameUsed(inputSettings.frameForOrientationCost)),
+                             "The frameForOrientationCost does not appear in the model.");
+        errors += checkError(!inputSettings.desiredRotationTrajectory, "The desiredRotationTrajectory is empty.");
+    }
+
     if (inputSettings.basePositionCostActive) {
         errors += checkError(inputSettings.basePositionCostWeights.size() != 3,
                              "The basePositionCostWeights vector is expected to be three dimensional.");
-- 
2.43.0


From bea0a5c8e60dd1dc4c91608cccfce19884393f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 06/34] fix: a state guess is not valid when the CoM reference
 it follows is not

---
 src/Utilities.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 332a2a9..9131b70 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -221,8 +221,6 @@ State &TranslatingCoMStateGuess::get(double time, bool &isValid) {
         iDynTree::toEigen(m_state.rightContactPointsState[i].pointPosition) = iDynTree::toEigen(m_initialState.rightContactPointsState[i].pointPosition) + iDynTree::toEigen(comDifference);
     }
 
-    isValid = true;
-
     m_state.time = time;
     return m_state;
 }
-- 
2.43.0


From 850096cae4492c1789765808dfceea92a8580d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 07/34] fix: update the robot state after a model has been
 reloaded

---
 src/private/SharedKinDynComputations.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/private/SharedKinDynComputations.cpp b/src/private/SharedKinDynComputations.cpp
index a206685..2166602 100644
--- a/src/private/SharedKinDynComputations.cpp
+++ b/src/private/SharedKinDynComputations.cpp
@@ -235,6 +235,7 @@ bool SharedKinDynComputations::loadRobotModel(const iDynTree::Model &model)
     bool ok = m_data->kinDyn.loadRobotModel(model);
 
     if (ok) {
+        m_data->updateNecessary = true;
         m_data->state.s.resize(m_data->kinDyn.getNrOfDegreesOfFreedom());
         m_data->state.s.zero();
         m_data->state.s_dot.resize(m_data->kinDyn.getNrOfDegreesOfFreedom());
-- 
2.43.0


From 28854bd5e9ec7521be42f2222078278b2577e6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 08/34] fix: return the base transform by value, the shared one
 may be updated by another caller

---
 .../Utilities/SharedKinDynComputations.h                        | 2 +-
 src/private/SharedKinDynComputations.cpp                        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/DynamicalPlannerPrivate/Utilities/SharedKinDynComputations.h b/include/DynamicalPlannerPrivate/Utilities/SharedKinDynComputations.h
index 5dd1ef1..0297028 100644
--- a/include/DynamicalPlannerPrivate/Utilities/SharedKinDynComputations.h
+++ b/include/DynamicalPlannerPrivate/Utilities/SharedKinDynComputations.h
@@ -116,7 +116,7 @@ public:
 
     iDynTree::Transform getWorldTransform(const RobotState &currentState, const iDynTree::FrameIndex frameIndex);
 
-    const iDynTree::Transform& getBaseTransform(const RobotState &currentState);
+    iDynTree::Transform getBaseTransform(const RobotState &currentState);
 
     bool getFrameFreeFloatingJacobian(const RobotState &currentState,
                                       const std::string & frameName,
diff --git a/src/private/SharedKinDynComputations.cpp b/src/private/SharedKinDynComputations.cpp
index 2166602..2377b33 100644
--- a/src/private/SharedKinDynComputations.cpp
+++ b/src/private/SharedKinDynComputations.cpp
@@ -400,7 +400,7 @@ iDynTree::Transform SharedKinDynComputations::getWorldTransform(const RobotState
     return m_data->kinDyn.getWorldTransform(frameIndex);
 }
 
-const iDynTree::Transform &SharedKinDynComputations::getBaseTransform(const RobotState &currentState)
+iDynTree::Transform SharedKinDynComputations::getBaseTransform(const RobotState &currentState)
 {
     std::lock_guard<std::mutex> guard(m_data->mutex);
 
-- 
2.43.0


From d5d58a4f680974083b6fe6ab377cdc9ec5b40cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 09/34] fix: forget the instants of the previous timings when
 setting fewer of them

---
 src/private/TimelySharedKinDynComputations.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/private/TimelySharedKinDynComputations.cpp b/src/private/TimelySharedKinDynComputations.cpp
index 7961d85..7dc8185 100644
--- a/src/private/TimelySharedKinDynComputations.cpp
+++ b/src/private/TimelySharedKinDynComputations.cpp
@@ -138,6 +138,15 @@ bool TimelySharedKinDynComputations::setTimings(const std::vector<double> &timin
         return false;
     }
 
+    if (timings.empty()) {
+        return false;
+    }
+
+    if (timings.size() < m_pointerContainer.size()) {
+        m_pointerContainer.resize(timings.size());
+    }
+    m_previousIndex = 0;
+
     for (size_t i = 0; i < timings.size(); ++i) {
         if (i < m_pointerContainer.size()) {
             m_pointerContainer[i].time = timings[i];
-- 
2.43.0


From 8f1aae5979aa795e59ac5c1287bcbef8987d7387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 10/34] fix: apply changes of model, base, gravity and
 tolerance to the already timed kinematics

---
 src/private/TimelySharedKinDynComputations.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/private/TimelySharedKinDynComputations.cpp b/src/private/TimelySharedKinDynComputations.cpp
index 7dc8185..ad0a253 100644
--- a/src/private/TimelySharedKinDynComputations.cpp
+++ b/src/private/TimelySharedKinDynComputations.cpp
@@ -89,6 +89,9 @@ TimelySharedKinDynComputations::~TimelySharedKinDynComputations()
 
 bool TimelySharedKinDynComputations::loadRobotModel(const iDynTree::Model &model)
 {
+    m_pointerContainer.clear(); //they refer to the previous model
+    m_timingsSet = false;
+    m_previousIndex = 0;
     return m_sharedTemplate->loadRobotModel(model);
 }
 
@@ -104,6 +107,9 @@ bool TimelySharedKinDynComputations::isValid() const
 
 void TimelySharedKinDynComputations::setGravity(const iDynTree::Vector3 &gravity)
 {
+    for (auto& element : m_pointerContainer) {
+        element.pointer->setGravity(gravity);
+    }
     return m_sharedTemplate->setGravity(gravity);
 }
 
@@ -114,6 +120,9 @@ const iDynTree::Vector3 &TimelySharedKinDynComputations::gravity() const
 
 bool TimelySharedKinDynComputations::setToleranceForUpdate(double tol)
 {
+    for (auto& element : m_pointerContainer) {
+        element.pointer->setToleranceForUpdate(tol);
+    }
     return m_sharedTemplate->setToleranceForUpdate(tol);
 }
 
@@ -124,7 +133,13 @@ double TimelySharedKinDynComputations::getUpdateTolerance() const
 
 bool TimelySharedKinDynComputations::setFloatingBase(const std::string &floatingBaseName)
 {
-    return m_sharedTemplate->setFloatingBase(floatingBaseName);
+    if (!m_sharedTemplate->setFloatingBase(floatingBaseName)) {
+        return false;
+    }
+    for (auto& element : m_pointerContainer) {
+        element.pointer->setFloatingBase(floatingBaseName);
+    }
+    return true;
 }
 
 std::string TimelySharedKinDynComputations::getFloatingBase() const
-- 
2.43.0


From e960b19f49f39ecb333d2ed1b4036be1c0223ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 11/34] fix: refresh the server variables when going back to an
 instant whose kinematics is already updated

---
 src/private/ExpressionsServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/ExpressionsServer.cpp b/src/private/ExpressionsServer.cpp
index 147bfe0..8c1ed95 100644
--- a/src/private/ExpressionsServer.cpp
+++ b/src/private/ExpressionsServer.cpp
@@ -128,7 +128,7 @@ bool ExpressionsServer::updateRobotState(double time, const RobotState &currentS
     m_pimpl->time = time;
     m_pimpl->kinDyn = m_pimpl->timelySharedKinDyn->get(time);
 
-    if (m_pimpl->first || !(m_pimpl->kinDyn->sameState(currentState))) {
+    if (m_pimpl->first || !(m_pimpl->kinDyn->sameState(currentState)) || !(m_pimpl->kinDyn->sameState(m_pimpl->robotState))) {
         if (!(m_pimpl->kinDyn->updateRobotState(currentState))){
             return false;
         }
-- 
2.43.0


From 9ec28de68ab812d22ee62b49ca90a23c502ebcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 12/34] fix: derivative of the adjoint transforms when the
 target frame is not its link

---
 src/private/AdjointTransformExpression.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/private/AdjointTransformExpression.cpp b/src/private/AdjointTransformExpression.cpp
index 85ae8c4..02728a8 100644
--- a/src/private/AdjointTransformExpression.cpp
+++ b/src/private/AdjointTransformExpression.cpp
@@ -251,7 +251,9 @@ public:
             parentLink = traversal.getParentLinkIndexFromJointIndex(model, jointPtr->getIndex());
 
             jointsDerivative[jointIndex] =
-                expressionsServer->adjointTransform(baseFrame, targetFrame) * expressionsServer->motionSubSpaceAsCrossProduct(jointPtr->getIndex(), parentLink, targetLink);
+                expressionsServer->adjointTransform(baseFrame, model.getLinkName(targetLink)) *
+                expressionsServer->motionSubSpaceAsCrossProduct(jointPtr->getIndex(), parentLink, targetLink) *
+                expressionsServer->adjointTransform(model.getLinkName(targetLink), targetFrame);
 
             m_nonZeros.push_back(jointIndex);
 
@@ -377,7 +379,9 @@ public:
             parentLink = traversal.getParentLinkIndexFromJointIndex(model, jointPtr->getIndex());
 
             jointsDerivative[jointIndex] =
-                expressionsServer->adjointTransformWrench(baseFrame, targetFrame) * expressionsServer->motionSubSpaceAsCrossProductWrench(jointPtr->getIndex(), parentLink, targetLink);
+                expressionsServer->adjointTransformWrench(baseFrame, model.getLinkName(targetLink)) *
+                expressionsServer->motionSubSpaceAsCrossProductWrench(jointPtr->getIndex(), parentLink, targetLink) *
+                expressionsServer->adjointTransformWrench(model.getLinkName(targetLink), targetFrame);
 
             m_nonZeros.push_back(jointIndex);
 
-- 
2.43.0


From f358b5c133c699bb1f1a27fcc29c201d992a1c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 13/34] fix: base angular velocity in body coordinates from the
 quaternion velocity

---
 src/private/ExpressionsServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/ExpressionsServer.cpp b/src/private/ExpressionsServer.cpp
index 8c1ed95..4a86b6c 100644
--- a/src/private/ExpressionsServer.cpp
+++ b/src/private/ExpressionsServer.cpp
@@ -80,7 +80,7 @@ ExpressionsServer::ExpressionsServer(std::shared_ptr<TimelySharedKinDynComputati
     m_pimpl->s_dot = levi::Variable(timelySharedKinDyn->model().getNrOfDOFs(), "s_dot");
 
     levi::Expression minusQuaternion = -quaternionImaginary;
-    levi::Expression angularVelocity = 2.0 * (minusQuaternion * m_pimpl->baseQuaternionVelocity(0,0) + (quaternionReal(0,0) * levi::Identity(3,3) - minusQuaternion.skew()) * m_pimpl->baseQuaternionVelocity.block(1,0,3,1));
+    levi::Expression angularVelocity = 2.0 * (minusQuaternion * m_pimpl->baseQuaternionVelocity(0,0) + (quaternionReal(0,0) * levi::Identity(3,3) + minusQuaternion.skew()) * m_pimpl->baseQuaternionVelocity.block(1,0,3,1));
 
     m_pimpl->baseTwist = levi::Expression::Vertcat(m_pimpl->baseLinearVelocity, angularVelocity, "baseTwist");
 
-- 
2.43.0


From f0c21e5c65a5425b6ef2187cdf5dcac2f7b3846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 14/34] fix: do not return the quaternion error and the
 momentum hessian of another variable

---
 src/private/ExpressionsServer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/private/ExpressionsServer.cpp b/src/private/ExpressionsServer.cpp
index 4a86b6c..29fe1d6 100644
--- a/src/private/ExpressionsServer.cpp
+++ b/src/private/ExpressionsServer.cpp
@@ -513,13 +513,15 @@ levi::Expression ExpressionsServer::absoluteVelocityJointsDerivative(const std::
 
 levi::Expression ExpressionsServer::quaternionError(const std::string &desiredFrame, const levi::Variable &desiredQuaternion)
 {
-    ExpressionMap::iterator element = m_pimpl->quaternionsErrorsMap.find(desiredFrame);
+    std::string label = desiredFrame + "__" + desiredQuaternion.name();
+
+    ExpressionMap::iterator element = m_pimpl->quaternionsErrorsMap.find(label);
 
     if (element != m_pimpl->quaternionsErrorsMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = desiredFrame;
+        newElement.first = label;
         newElement.second = QuaternionError(desiredFrame, this, desiredQuaternion);
         auto result = m_pimpl->quaternionsErrorsMap.insert(newElement);
         assert(result.second);
@@ -638,7 +640,7 @@ levi::Expression ExpressionsServer::compositeRigidBodyInertia()
 
 levi::Expression ExpressionsServer::momentumInBaseJointsDoubleDerivative(const levi::Variable &baseTwist, long column)
 {
-    std::string label = std::to_string(column);
+    std::string label = baseTwist.name() + "__" + std::to_string(column);
 
     ExpressionMap::iterator element = m_pimpl->momentumDoubleDerivativeMap.find(label);
 
-- 
2.43.0


From 96092346a143ecc90a54048c2e0daf464fda1a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:21 +0000
Subject: [PATCH 15/34] fix: labels of the memoised expressions are unique for
 every couple of frames

---
 src/private/ExpressionsServer.cpp | 53 +++++++++++++++++--------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/private/ExpressionsServer.cpp b/src/private/ExpressionsServer.cpp
index 29fe1d6..62b070b 100644
--- a/src/private/ExpressionsServer.cpp
+++ b/src/private/ExpressionsServer.cpp
@@ -27,6 +27,11 @@ using namespace DynamicalPlanner::Private;
 using ExpressionMap = std::unordered_map<std::string, levi::Expression>;
 using TransformsMap = std::unordered_map<std::string, TransformExpression>;
 
+// The length avoids that the concatenation of different names results in the same label
+static std::string framesLabel(const std::string& first, const std::string& second) {
+    return std::to_string(first.size()) + "_" + first + "_" + second;
+}
+
 class ExpressionsServer::Implementation {
 public:
     std::shared_ptr<TimelySharedKinDynComputations> timelySharedKinDyn;
@@ -265,13 +270,13 @@ levi::Expression ExpressionsServer::comInBaseHessian(long column)
 
 levi::Expression ExpressionsServer::adjointTransform(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->adjointMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->adjointMap.find(framesLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->adjointMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = framesLabel(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Identity(6,6);
         } else {
@@ -285,7 +290,7 @@ levi::Expression ExpressionsServer::adjointTransform(const std::string &baseFram
 
 levi::Expression ExpressionsServer::adjointTransformJointsDerivative(const std::string &baseFrame, const std::string &targetFrame, long column)
 {
-    std::string label = baseFrame + targetFrame + "__" + std::to_string(column);
+    std::string label = framesLabel(baseFrame, targetFrame) + "__" + std::to_string(column);
 
     ExpressionMap::iterator element = m_pimpl->adjointDerivativeMap.find(label);
 
@@ -307,13 +312,13 @@ levi::Expression ExpressionsServer::adjointTransformJointsDerivative(const std::
 
 levi::Expression ExpressionsServer::adjointTransformWrench(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->adjointWrenchMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->adjointWrenchMap.find(framesLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->adjointWrenchMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = framesLabel(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Identity(6, 6);
         } else {
@@ -327,7 +332,7 @@ levi::Expression ExpressionsServer::adjointTransformWrench(const std::string &ba
 
 levi::Expression ExpressionsServer::adjointTransformWrenchJointsDerivative(const std::string &baseFrame, const std::string &targetFrame, long column)
 {
-    std::string label = baseFrame + targetFrame + "__" + std::to_string(column);
+    std::string label = framesLabel(baseFrame, targetFrame) + "__" + std::to_string(column);
 
     ExpressionMap::iterator element = m_pimpl->adjointWrenchDerivativeMap.find(label);
 
@@ -349,13 +354,13 @@ levi::Expression ExpressionsServer::adjointTransformWrenchJointsDerivative(const
 
 levi::Expression ExpressionsServer::relativePosition(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->relativePositionsMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->relativePositionsMap.find(framesLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->relativePositionsMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = framesLabel(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Null(3, 1);
         } else {
@@ -369,13 +374,13 @@ levi::Expression ExpressionsServer::relativePosition(const std::string &baseFram
 
 levi::Expression ExpressionsServer::relativeQuaternion(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->relativeQuaternionsMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->relativeQuaternionsMap.find(framesLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->relativeQuaternionsMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = framesLabel(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Identity(4,4).col(0);
         } else {
@@ -389,13 +394,13 @@ levi::Expression ExpressionsServer::relativeQuaternion(const std::string &baseFr
 
 levi::Expression ExpressionsServer::relativeRotation(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->relativeRotationsMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->relativeRotationsMap.find(framesLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->relativeRotationsMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = framesLabel(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Identity(3, 3);
         } else {
@@ -409,13 +414,13 @@ levi::Expression ExpressionsServer::relativeRotation(const std::string &baseFram
 
 TransformExpression ExpressionsServer::relativeTransform(const std::string &baseFrame, const std::string &targetFrame)
 {
-    TransformsMap::iterator element = m_pimpl->transformsMap.find(baseFrame+targetFrame);
+    TransformsMap::iterator element = m_pimpl->transformsMap.find(framesLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->transformsMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, TransformExpression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = framesLabel(baseFrame, targetFrame);
         newElement.second = TransformExpression(relativePosition(baseFrame, targetFrame), relativeRotation(baseFrame, targetFrame));
         auto result = m_pimpl->transformsMap.insert(newElement);
         assert(result.second);
@@ -425,13 +430,13 @@ TransformExpression ExpressionsServer::relativeTransform(const std::string &base
 
 levi::Expression ExpressionsServer::relativeLeftJacobian(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->relativeJacobiansMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->relativeJacobiansMap.find(framesLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->relativeJacobiansMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = framesLabel(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Null(6, m_pimpl->s.rows());
         } else {
@@ -445,13 +450,13 @@ levi::Expression ExpressionsServer::relativeLeftJacobian(const std::string &base
 
 levi::Expression ExpressionsServer::relativeVelocity(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->velocitiesMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->velocitiesMap.find(framesLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->velocitiesMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = framesLabel(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Null(6, 1);
         } else {
@@ -465,7 +470,7 @@ levi::Expression ExpressionsServer::relativeVelocity(const std::string &baseFram
 
 levi::Expression ExpressionsServer::absoluteVelocity(const std::string &targetFrame, const levi::Variable &baseTwist)
 {
-    std::string key = targetFrame + baseTwist.name();
+    std::string key = framesLabel(targetFrame, baseTwist.name());
     ExpressionMap::iterator element = m_pimpl->absoluteVelocitiesMap.find(key);
 
     if (element != m_pimpl->absoluteVelocitiesMap.end()) {
@@ -491,7 +496,7 @@ levi::Expression ExpressionsServer::absoluteVelocity(const std::string &targetFr
 
 levi::Expression ExpressionsServer::absoluteVelocityJointsDerivative(const std::string &targetFrame, const levi::Variable &baseTwist)
 {
-    std::string label = targetFrame + baseTwist.name();
+    std::string label = framesLabel(targetFrame, baseTwist.name());
 
     ExpressionMap::iterator element = m_pimpl->absoluteVelocitiesDerivativeMap.find(label);
 
@@ -513,7 +518,7 @@ levi::Expression ExpressionsServer::absoluteVelocityJointsDerivative(const std::
 
 levi::Expression ExpressionsServer::quaternionError(const std::string &desiredFrame, const levi::Variable &desiredQuaternion)
 {
-    std::string label = desiredFrame + "__" + desiredQuaternion.name();
+    std::string label = framesLabel(desiredFrame, desiredQuaternion.name());
 
     ExpressionMap::iterator element = m_pimpl->quaternionsErrorsMap.find(label);
 
@@ -531,7 +536,7 @@ levi::Expression ExpressionsServer::quaternionError(const std::string &desiredFr
 
 levi::Expression ExpressionsServer::motionSubSpaceVector(iDynTree::JointIndex joint, iDynTree::LinkIndex parentLink, iDynTree::LinkIndex childLink)
 {
-    std::string label = model().getJointName(joint) + std::to_string(parentLink) + std::to_string(childLink);
+    std::string label = std::to_string(joint) + "__" + std::to_string(parentLink) + "__" + std::to_string(childLink);
     ExpressionMap::iterator element = m_pimpl->motionSubspacesMap.find(label);
 
     if (element != m_pimpl->motionSubspacesMap.end()) {
@@ -553,7 +558,7 @@ levi::Expression ExpressionsServer::motionSubSpaceVector(iDynTree::JointIndex jo
 
 levi::Expression ExpressionsServer::motionSubSpaceAsCrossProduct(iDynTree::JointIndex joint, iDynTree::LinkIndex parentLink, iDynTree::LinkIndex childLink)
 {
-    std::string label = model().getJointName(joint) + std::to_string(parentLink) + std::to_string(childLink);
+    std::string label = std::to_string(joint) + "__" + std::to_string(parentLink) + "__" + std::to_string(childLink);
     ExpressionMap::iterator element = m_pimpl->motionSubspacesMatrixMap.find(label);
 
     if (element != m_pimpl->motionSubspacesMatrixMap.end()) {
@@ -576,7 +581,7 @@ levi::Expression ExpressionsServer::motionSubSpaceAsCrossProduct(iDynTree::Joint
 
 levi::Expression ExpressionsServer::motionSubSpaceAsCrossProductWrench(iDynTree::JointIndex joint, iDynTree::LinkIndex parentLink, iDynTree::LinkIndex childLink)
 {
-    std::string label = model().getJointName(joint) + std::to_string(parentLink) + std::to_string(childLink);
+    std::string label = std::to_string(joint) + "__" + std::to_string(parentLink) + "__" + std::to_string(childLink);
     ExpressionMap::iterator element = m_pimpl->motionSubspacesWrenchMap.find(label);
 
     if (element != m_pimpl->motionSubspacesWrenchMap.end()) {
-- 
2.43.0


From 09bdbbbc9d35fa18c481e92672f0ab5deb6a7a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 16/34] fix: a levi quotient declares the columns of its
 numerator

---
 extern/levi/include/levi/OperatorsEvaluables.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extern/levi/include/levi/OperatorsEvaluables.h b/extern/levi/include/levi/OperatorsEvaluables.h
index 02dcf95..809d6f1 100644
--- a/extern/levi/include/levi/OperatorsEvaluables.h
+++ b/extern/levi/include/levi/OperatorsEvaluables.h
@@ -823,7 +823,7 @@ private:
 public:
 
     DivisionEvaluable(const levi::ExpressionComponent<LeftEvaluable>& lhs, const levi::ExpressionComponent<RightEvaluable>& rhs)
-        : levi::BinaryOperator<product_type, LeftEvaluable, RightEvaluable>(lhs, rhs, lhs.rows(), rhs.cols(), lhs.name() + "/(" + rhs.name() + ")")
+        : levi::BinaryOperator<product_type, LeftEvaluable, RightEvaluable>(lhs, rhs, lhs.rows(), lhs.cols(), lhs.name() + "/(" + rhs.name() + ")")
     {
         assert(rhs.rows() == 1 && rhs.cols() == 1);
         this->m_info->type = levi::EvaluableType::Division;
-- 
2.43.0


From ccc4ced1a5e8fd4f5314c1b5fa8ac241b974b627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 17/34] fix: add the yaw of the right edge of the foot to the
 desired yaw

---
 src/private/FootYawCost.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/private/FootYawCost.cpp b/src/private/FootYawCost.cpp
index 2e85abf..171a227 100644
--- a/src/private/FootYawCost.cpp
+++ b/src/private/FootYawCost.cpp
@@ -136,7 +136,7 @@ bool FootYawCost::costEvaluation(double time, const iDynTree::VectorDynSize &sta
     m_pimpl->stateVariables = state;
 
     bool isValid = false;
-    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) - m_pimpl->initialYaw;
+    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) + m_pimpl->initialYaw;
     assert(isValid);
 
     double sy = std::sin(desiredYaw);
@@ -160,7 +160,7 @@ bool FootYawCost::costFirstPartialDerivativeWRTState(double time, const iDynTree
     m_pimpl->stateVariables = state;
 
     bool isValid = false;
-    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) - m_pimpl->initialYaw;
+    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) + m_pimpl->initialYaw;
     assert(isValid);
 
     iDynTree::Vector3 currentTopBottomDistance, currentLeftRightDistance;
@@ -196,7 +196,7 @@ bool FootYawCost::costSecondPartialDerivativeWRTState(double time, const iDynTre
     m_pimpl->stateVariables = state;
 
     bool isValid = false;
-    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) - m_pimpl->initialYaw;
+    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) + m_pimpl->initialYaw;
     assert(isValid);
 
     double sy = std::sin(desiredYaw);
-- 
2.43.0


From c23ed7b74b934332ca46aac1be2b51021c11853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:33 +0000
Subject: [PATCH 18/34] fix: evaluate the frame angular velocity cost at the
 velocities of the control

---
 src/private/FrameAngularVelocityCost.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/private/FrameAngularVelocityCost.cpp b/src/private/FrameAngularVelocityCost.cpp
index 89c34fa..fe0d7dd 100644
--- a/src/private/FrameAngularVelocityCost.cpp
+++ b/src/private/FrameAngularVelocityCost.cpp
@@ -55,6 +55,10 @@ public:
         robotState.base_position = basePosition;
 
         robotState.s = stateVariables(jointsPositionRange);
+
+        robotState.base_quaternionVelocity = controlVariables(baseQuaternionDerivativeRange);
+        robotState.s_dot = controlVariables(jointsVelocityRange);
+
         sharedKinDyn->updateRobotState(robotState);
 
     }
-- 
2.43.0


From cebdc39963d4501e85235589ea82db8cc3423c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:33 +0000
Subject: [PATCH 19/34] fix: Hessian of the frame angular velocity cost with
 respect to the control

---
 src/private/FrameAngularVelocityCost.cpp | 43 +++++++++++++++++++++---
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/private/FrameAngularVelocityCost.cpp b/src/private/FrameAngularVelocityCost.cpp
index fe0d7dd..7e4d8a0 100644
--- a/src/private/FrameAngularVelocityCost.cpp
+++ b/src/private/FrameAngularVelocityCost.cpp
@@ -35,7 +35,8 @@ public:
 
     levi::Expression asExpression, quaternionDerivative, jointsDerivative, baseQuaternionVelocityDerivative, jointsVelocityDerivative,
         quaternionHessian, jointsHessian, quaternionJointsHessian, quaternionQuaternionDerivativeHessian,
-        quaternionJointsVelocityHessian, jointsQuaternionDerivativeHessian, jointsJointsVelocityHessian;
+        quaternionJointsVelocityHessian, jointsQuaternionDerivativeHessian, jointsJointsVelocityHessian,
+        quaternionDerivativeHessian, quaternionDerivativeJointsVelocityHessian, jointsVelocityHessian;
 
     std::shared_ptr<iDynTree::optimalcontrol::TimeVaryingRotation> desiredTrajectory;
 
@@ -90,6 +91,9 @@ public:
         quaternionJointsVelocityHessian = quaternionDerivative.getColumnDerivative(0, expressionsServer->jointsVelocity());
         jointsQuaternionDerivativeHessian = jointsDerivative.getColumnDerivative(0, expressionsServer->baseQuaternionVelocity());
         jointsJointsVelocityHessian = jointsDerivative.getColumnDerivative(0, expressionsServer->jointsVelocity());
+        quaternionDerivativeHessian = baseQuaternionVelocityDerivative.getColumnDerivative(0, expressionsServer->baseQuaternionVelocity());
+        quaternionDerivativeJointsVelocityHessian = baseQuaternionVelocityDerivative.getColumnDerivative(0, expressionsServer->jointsVelocity());
+        jointsVelocityHessian = jointsVelocityDerivative.getColumnDerivative(0, expressionsServer->jointsVelocity());
     }
 
 };
@@ -149,7 +153,10 @@ FrameAngularVelocityCost::FrameAngularVelocityCost(const VariablesLabeller &stat
     m_pimpl->mixedHessianSparsity.addDenseBlock(m_pimpl->jointsPositionRange, m_pimpl->baseQuaternionDerivativeRange);
     m_pimpl->mixedHessianSparsity.addDenseBlock(m_pimpl->jointsPositionRange, m_pimpl->jointsVelocityRange);
 
-    m_pimpl->controlHessianSparsity.clear();
+    m_pimpl->controlHessianSparsity.addDenseBlock(m_pimpl->baseQuaternionDerivativeRange, m_pimpl->baseQuaternionDerivativeRange);
+    m_pimpl->controlHessianSparsity.addDenseBlock(m_pimpl->baseQuaternionDerivativeRange, m_pimpl->jointsVelocityRange);
+    m_pimpl->controlHessianSparsity.addDenseBlock(m_pimpl->jointsVelocityRange, m_pimpl->baseQuaternionDerivativeRange);
+    m_pimpl->controlHessianSparsity.addDenseBlock(m_pimpl->jointsVelocityRange, m_pimpl->jointsVelocityRange);
 
 }
 
@@ -167,6 +174,9 @@ FrameAngularVelocityCost::~FrameAngularVelocityCost()
     m_pimpl->quaternionJointsVelocityHessian.clearDerivativesCache();
     m_pimpl->jointsQuaternionDerivativeHessian.clearDerivativesCache();
     m_pimpl->jointsJointsVelocityHessian.clearDerivativesCache();
+    m_pimpl->quaternionDerivativeHessian.clearDerivativesCache();
+    m_pimpl->quaternionDerivativeJointsVelocityHessian.clearDerivativesCache();
+    m_pimpl->jointsVelocityHessian.clearDerivativesCache();
 }
 
 bool FrameAngularVelocityCost::setDesiredRotationTrajectory(std::shared_ptr<iDynTree::optimalcontrol::TimeVaryingRotation> desiredRotationTrajectory)
@@ -309,9 +319,34 @@ bool FrameAngularVelocityCost::costSecondPartialDerivativeWRTState(double time,
     return true;
 }
 
-bool FrameAngularVelocityCost::costSecondPartialDerivativeWRTControl(double /*time*/, const iDynTree::VectorDynSize &/*state*/,
-                                                                 const iDynTree::VectorDynSize &/*control*/, iDynTree::MatrixDynSize &/*partialDerivative*/)
+bool FrameAngularVelocityCost::costSecondPartialDerivativeWRTControl(double time, const iDynTree::VectorDynSize &state,
+                                                                     const iDynTree::VectorDynSize &control, iDynTree::MatrixDynSize &partialDerivative)
 {
+    m_pimpl->stateVariables = state;
+    m_pimpl->controlVariables = control;
+
+    m_pimpl->sharedKinDyn = m_pimpl->timedSharedKinDyn->get(time);
+
+    m_pimpl->updateRobotState();
+    m_pimpl->expressionsServer->updateRobotState(time);
+
+    iDynTree::iDynTreeEigenMatrixMap hessianMap = iDynTree::toEigen(partialDerivative);
+
+    const iDynTree::IndexRange& quaternionDerivativeRange = m_pimpl->baseQuaternionDerivativeRange;
+    const iDynTree::IndexRange& jointsVelocityRange = m_pimpl->jointsVelocityRange;
+
+    hessianMap.block<4,4>(quaternionDerivativeRange.offset, quaternionDerivativeRange.offset) =
+        m_pimpl->quaternionDerivativeHessian.evaluate();
+
+    hessianMap.block(jointsVelocityRange.offset, jointsVelocityRange.offset, jointsVelocityRange.size, jointsVelocityRange.size) =
+        m_pimpl->jointsVelocityHessian.evaluate();
+
+    const Eigen::MatrixXd& mixedHessian = m_pimpl->quaternionDerivativeJointsVelocityHessian.evaluate();
+
+    hessianMap.block(quaternionDerivativeRange.offset, jointsVelocityRange.offset, quaternionDerivativeRange.size, jointsVelocityRange.size) = mixedHessian;
+
+    hessianMap.block(jointsVelocityRange.offset, quaternionDerivativeRange.offset, jointsVelocityRange.size, quaternionDerivativeRange.size) = mixedHessian.transpose();
+
     return true;
 }
 
-- 
2.43.0


From 8a7810a7e492712c9c981908fde2070cdac68c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 20/34] fix: Hessian of the phantom forces cost with respect to
 the height of the point

---
 src/private/PhantomForcesCost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/PhantomForcesCost.cpp b/src/private/PhantomForcesCost.cpp
index 23dede1..26dc486 100644
--- a/src/private/PhantomForcesCost.cpp
+++ b/src/private/PhantomForcesCost.cpp
@@ -134,7 +134,7 @@ bool PhantomForcesCost::costSecondPartialDerivativeWRTState(double /*time*/, con
 
     double phantomForce = (1- delta) * fz;
 
-    partialDerivative(pzCol, pzCol) = (deltaDerivative * fz) * (deltaDerivative * fz) - phantomForce * deltaDoubleDerivative;
+    partialDerivative(pzCol, pzCol) = (deltaDerivative * fz) * (deltaDerivative * fz) - phantomForce * deltaDoubleDerivative * fz;
     partialDerivative(fzCol, fzCol) = (1- delta) * (1- delta);
     partialDerivative(fzCol, pzCol) = -2.0 * phantomForce * deltaDerivative;
     partialDerivative(pzCol, fzCol) = partialDerivative(fzCol, pzCol);
-- 
2.43.0


From 234f9fe77a3b77e9b29b4f4c69ec2ba463064f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 21/34] fix: Hessian of the planar velocity constraints at the
 given state and multipliers

---
 src/private/PlanarVelocityControlConstraints.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/private/PlanarVelocityControlConstraints.cpp b/src/private/PlanarVelocityControlConstraints.cpp
index a8b3685..db4fc1a 100644
--- a/src/private/PlanarVelocityControlConstraints.cpp
+++ b/src/private/PlanarVelocityControlConstraints.cpp
@@ -173,11 +173,13 @@ bool PlanarVelocityControlConstraints::constraintSecondPartialDerivativeWRTState
 {
     m_pimpl->stateVariables = state;
 
+    m_pimpl->pointPosition = m_pimpl->stateVariables(m_pimpl->positionPointRange);
+
     unsigned int positionIndex = static_cast<unsigned int>(m_pimpl->positionPointRange.offset + 2);
     double deltaDoubleDerivative = m_pimpl->planarVelocityActivation.evalDoubleDerivative(m_pimpl->pointPosition(2));
 
-    hessian(positionIndex, positionIndex) = (((lambda(0) + lambda(1)) * m_pimpl->maximumDerivatives(0)) +
-                                             ((lambda(2) + lambda(3)) * m_pimpl->maximumDerivatives(1))) * deltaDoubleDerivative;
+    hessian(positionIndex, positionIndex) = (((lambda(0) + lambda(2)) * m_pimpl->maximumDerivatives(0)) +
+                                             ((lambda(1) + lambda(3)) * m_pimpl->maximumDerivatives(1))) * deltaDoubleDerivative;
 
     return true;
 }
-- 
2.43.0


From d3afcbcaf7f37f43b7a02e5319e2a4f699b60a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:39 +0000
Subject: [PATCH 22/34] fix: declare the normal force dissipation in the
 sparsity of the dynamics

---
 src/private/DynamicalConstraints.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/private/DynamicalConstraints.cpp b/src/private/DynamicalConstraints.cpp
index c497ef1..534e56d 100644
--- a/src/private/DynamicalConstraints.cpp
+++ b/src/private/DynamicalConstraints.cpp
@@ -264,6 +264,7 @@ public:
             stateJacobianSparsity.addDenseBlock(static_cast<size_t>(foot.positionPoints[i].offset),
                                                 static_cast<size_t>(foot.positionPoints[i].offset) + 2, 2, 1);
             stateJacobianSparsity.add(static_cast<size_t>(foot.forcePoints[i].offset + 2), static_cast<size_t>(foot.positionPoints[i].offset + 2));
+            stateJacobianSparsity.add(static_cast<size_t>(foot.forcePoints[i].offset + 2), static_cast<size_t>(foot.forcePoints[i].offset + 2));
 
             stateHessianSparsity.addDenseBlock(comPositionRange, foot.forcePoints[i]);
             stateHessianSparsity.addDenseBlock(foot.forcePoints[i], comPositionRange);
-- 
2.43.0


From 9eb0284bde1b6b8ce77f5d56748169dede1bc811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 23/34] fix: weigh the force ratio costs with their own overall
 weight

---
 src/Solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 1356e7a..85b3f4f 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -464,7 +464,7 @@ public:
             for (size_t i = 0; i < st.leftPointsPosition.size(); ++i) {
                 costs.leftForceRatios[i] = std::make_shared<ForceRatioCost>(stateStructure, controlStructure, "Left", i);
                 costs.leftForceRatios[i]->setDesiredRatio(st.desiredLeftRatios[i]);
-                ok = ocProblem->addLagrangeTerm(st.forceMeanCostOverallWeight, costs.leftForceRatios[i]);
+                ok = ocProblem->addLagrangeTerm(st.forceRatioCostOverallWeight, costs.leftForceRatios[i]);
                 if (!ok) {
                     return false;
                 }
@@ -473,7 +473,7 @@ public:
             for (size_t i = 0; i < st.rightPointsPosition.size(); ++i) {
                 costs.rightForceRatios[i] = std::make_shared<ForceRatioCost>(stateStructure, controlStructure, "Right", i);
                 costs.rightForceRatios[i]->setDesiredRatio(st.desiredRightRatios[i]);
-                ok = ocProblem->addLagrangeTerm(st.forceMeanCostOverallWeight, costs.rightForceRatios[i]);
+                ok = ocProblem->addLagrangeTerm(st.forceRatioCostOverallWeight, costs.rightForceRatios[i]);
                 if (!ok) {
                     return false;
                 }
-- 
2.43.0


From 477167b2ef44a21ece0c709ae7497b1cf0048773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 24/34] fix: plan with the gravity and the floating base of the
 settings

---
 src/Solver.cpp                       | 9 +++++++++
 src/private/DynamicalConstraints.cpp | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 85b3f4f..0c80272 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -1440,6 +1440,15 @@ bool Solver::specifySettings(const Settings &settings)
         return false;
     }
 
+    m_pimpl->timelySharedKinDyn->setGravity(st.gravity);
+
+    ok = m_pimpl->timelySharedKinDyn->setFloatingBase(st.floatingBaseName);
+
+    if (!ok) {
+        std::cerr << "[ERROR][Solver::specifySettings] Failed to set the floating base." << std::endl;
+        return false;
+    }
+
     m_pimpl->expressionsServer = std::make_shared<ExpressionsServer>(m_pimpl->timelySharedKinDyn);
 
     HyperbolicTangent velocityActivationXY;
diff --git a/src/private/DynamicalConstraints.cpp b/src/private/DynamicalConstraints.cpp
index 534e56d..ef37767 100644
--- a/src/private/DynamicalConstraints.cpp
+++ b/src/private/DynamicalConstraints.cpp
@@ -350,7 +350,7 @@ DynamicalConstraints::DynamicalConstraints(const VariablesLabeller &stateVariabl
 
 
     m_pimpl->gravityVector.zero();
-    m_pimpl->gravityVector(2) = -9.81;
+    iDynTree::toEigen(m_pimpl->gravityVector).topRows<3>() = iDynTree::toEigen(timelySharedKinDyn->gravity());
 
 //    m_pimpl->stateJacobianBuffer.resize(static_cast<unsigned int>(stateVariables.size()), static_cast<unsigned int>(stateVariables.size()));
 //    m_pimpl->stateJacobianBuffer.zero();
-- 
2.43.0


From 43bf16bab87cd858c8500fc06ba36778338f6cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 25/34] fix: compute the variable bounds from the initial time
 and the optimizer in use

---
 src/Solver.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 0c80272..d5f1aff 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -1215,24 +1215,26 @@ public:
             iDynTree::toEigen(segment(secondControlUpperBound, ranges.right.forceControlPoints[i])).setZero();
         }
 
+        double switchTime = initialState.time + st.horizon * st.activeControlPercentage;
+
         std::shared_ptr<VariableBound> variableStateLowerBounds;
         std::shared_ptr<VariableBound> variableStateUpperBounds;
         std::shared_ptr<VariableBound> variableControlLowerBounds;
         std::shared_ptr<VariableBound> variableControlUpperBounds;
 
         if (st.constrainTargetCoMPosition) {
-            variableStateLowerBounds = std::make_shared<VariableBound>(stateLowerBound, secondStateLowerBound, st.horizon * st.activeControlPercentage,
+            variableStateLowerBounds = std::make_shared<VariableBound>(stateLowerBound, secondStateLowerBound, switchTime,
                                                                        st.constrainTargetCoMPositionRange, ranges.comPosition, -1.0,
                                                                        st.desiredCoMTrajectory, st.targetCoMPositionTolerance);
-            variableStateUpperBounds = std::make_shared<VariableBound>(stateUpperBound, secondStateUpperBound, st.horizon * st.activeControlPercentage,
+            variableStateUpperBounds = std::make_shared<VariableBound>(stateUpperBound, secondStateUpperBound, switchTime,
                                                                        st.constrainTargetCoMPositionRange, ranges.comPosition, +1.0,
                                                                        st.desiredCoMTrajectory, st.targetCoMPositionTolerance);
         } else {
-            variableStateLowerBounds = std::make_shared<VariableBound>(stateLowerBound, secondStateLowerBound, st.horizon * st.activeControlPercentage);
-            variableStateUpperBounds = std::make_shared<VariableBound>(stateUpperBound, secondStateUpperBound, st.horizon * st.activeControlPercentage);
+            variableStateLowerBounds = std::make_shared<VariableBound>(stateLowerBound, secondStateLowerBound, switchTime);
+            variableStateUpperBounds = std::make_shared<VariableBound>(stateUpperBound, secondStateUpperBound, switchTime);
         }
-        variableControlLowerBounds = std::make_shared<VariableBound>(controlLowerBound, secondControlLowerBound, st.horizon * st.activeControlPercentage);
-        variableControlUpperBounds = std::make_shared<VariableBound>(controlUpperBound, secondControlUpperBound, st.horizon * st.activeControlPercentage);
+        variableControlLowerBounds = std::make_shared<VariableBound>(controlLowerBound, secondControlLowerBound, switchTime);
+        variableControlUpperBounds = std::make_shared<VariableBound>(controlUpperBound, secondControlUpperBound, switchTime);
 
         bool ok = ocProblem->setStateBoxConstraints(variableStateLowerBounds, variableStateUpperBounds);
         if (!ok) {
@@ -1718,6 +1720,14 @@ bool Solver::solve(std::vector<State> &optimalStates, std::vector<Control> &opti
         return false;
     }
 
+    //The bounds depend on the initial time, and on the infinity of the optimizer
+    ok = m_pimpl->setBounds(m_pimpl->settings);
+
+    if (!ok) {
+        std::cerr << "[ERROR][Solver::solve] Failed to set the variables bounds." << std::endl;
+        return false;
+    }
+
     if (m_pimpl->stateGuess && m_pimpl->controlGuess) {
         ok = m_pimpl->multipleShootingSolver->setGuesses(m_pimpl->stateGuess, m_pimpl->controlGuess);
         if (!ok) {
-- 
2.43.0


From 3614ae764ef2f6cd27d6ecf6b2e1ab4d485d29c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:25 +0000
Subject: [PATCH 26/34] fix: solution vectors kept the dimensions of the
 previous settings

---
 src/Solver.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index d5f1aff..4e24cfc 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -1251,11 +1251,12 @@ public:
 
     void resizeSolutionVector(size_t numberOfDofs, size_t numberOfPoints) {
 
-        unstructuredOptimalStates.resize(stateTimings.size(), iDynTree::VectorDynSize(static_cast<unsigned int>(stateStructure.size())));
-        unstructuredOptimalControl.resize(controlTimings.size(), iDynTree::VectorDynSize(static_cast<unsigned int>(controlStructure.size())));
+        //All the elements are reset, those already there may have the dimensions of the previous settings
+        unstructuredOptimalStates.assign(stateTimings.size(), iDynTree::VectorDynSize(static_cast<unsigned int>(stateStructure.size())));
+        unstructuredOptimalControl.assign(controlTimings.size(), iDynTree::VectorDynSize(static_cast<unsigned int>(controlStructure.size())));
 
-        optimalStates.resize(stateTimings.size(), State(numberOfDofs, numberOfPoints));
-        optimalControls.resize(controlTimings.size(), Control(numberOfDofs, numberOfPoints));
+        optimalStates.assign(stateTimings.size(), State(numberOfDofs, numberOfPoints));
+        optimalControls.assign(controlTimings.size(), Control(numberOfDofs, numberOfPoints));
     }
 
 
-- 
2.43.0


From fb6e3874e216677b8a6ccb95b7518123e7eacabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:25 +0000
Subject: [PATCH 27/34] fix: a failed specification of the settings left the
 solver prepared with a mixture of settings

---
 src/Solver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 4e24cfc..3666fa6 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -1412,6 +1412,9 @@ bool Solver::specifySettings(const Settings &settings)
         return false;
     }
 
+    //In case of failure, the solver is left partially configured. It cannot be used until new settings are correctly specified.
+    m_pimpl->prepared = false;
+
     m_pimpl->settings = settings.getSettings();
 
     const SettingsStruct& st = m_pimpl->settings;
-- 
2.43.0


From 13206bc0aeb5596dc5d6b8d09d7a0a2593692758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:25 +0000
Subject: [PATCH 28/34] fix: guesses with the dimensions of other settings were
 kept

---
 src/Solver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 3666fa6..3345831 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -1429,6 +1429,9 @@ bool Solver::specifySettings(const Settings &settings)
         std::cerr << "[WARNING][Solver::specifySettings] The initial state was set but with different dimensions. Setting it to zero." << std::endl;
         m_pimpl->initialState.resize(numberOfDofs, numberOfPoints);
         m_pimpl->initialState.zero();
+        //The guesses have been set with the old dimensions too
+        m_pimpl->stateGuess = nullptr;
+        m_pimpl->controlGuess = nullptr;
     }
 
     bool ok = m_pimpl->setVariablesStructure(numberOfDofs, numberOfPoints);
-- 
2.43.0


From fb889374436f54bdcf6995d20f74feeab59897b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:25 +0000
Subject: [PATCH 29/34] fix: a new optimizer was used as if it already had a
 previous solution

---
 src/Solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 3345831..b8ffbb0 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -1666,6 +1666,7 @@ bool Solver::setOptimizer(std::shared_ptr<iDynTree::optimization::Optimizer> opt
             std::cerr << "[ERROR][Solver::setOptimizer] Failed to set the specified optimizer." << std::endl;
             return false;
         }
+        m_pimpl->firstRun = true; //the new optimizer does not have a previous solution to start from
     }
 
     m_pimpl->optimizer = optimizer;
-- 
2.43.0


From 0dcf61f1cdb2d8f0f486195c8cb8c82e9309c138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:36 +0000
Subject: [PATCH 30/34] fix: compiled expressions divided by the first factor
 only of a divisor which is a product

---
 extern/levi/include/levi/AutogeneratedHelper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extern/levi/include/levi/AutogeneratedHelper.h b/extern/levi/include/levi/AutogeneratedHelper.h
index da6a03f..eaadafd 100644
--- a/extern/levi/include/levi/AutogeneratedHelper.h
+++ b/extern/levi/include/levi/AutogeneratedHelper.h
@@ -185,7 +185,7 @@ private:
 
         } else if (type == Type::Division) {
 
-            literalSubExpr.literal = lhs.literal + " / " + rhs.literal;
+            literalSubExpr.literal = lhs.literal + " / (" + rhs.literal + ")";
             literalSubExpr.isScalar = lhs.isScalar;
             literalSubExpr.isSimple = false;
 
-- 
2.43.0


From 0bd57ae3eb91b28f90c0f4b6b2a3a9d6e5ae368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:34 +0000
Subject: [PATCH 31/34] fix: exponents of compiled expressions were truncated
 to six decimals

---
 extern/levi/include/levi/AutogeneratedHelper.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extern/levi/include/levi/AutogeneratedHelper.h b/extern/levi/include/levi/AutogeneratedHelper.h
index eaadafd..76521d6 100644
--- a/extern/levi/include/levi/AutogeneratedHelper.h
+++ b/extern/levi/include/levi/AutogeneratedHelper.h
@@ -20,6 +20,8 @@
 
 #include <ostream>
 #include <cstdlib>
+#include <iomanip>
+#include <limits>
 
 #include <fstream>
 
@@ -199,7 +201,9 @@ private:
 
         } else if (type == Type::Pow) {
 
-            literalSubExpr.literal = "std::pow(" + lhs.literal +", " + std::to_string(subExpr.exponent) + ")";
+            std::ostringstream exponent;
+            exponent << std::fixed << std::setprecision(std::numeric_limits<typename EvaluableT::value_type>::max_digits10) << subExpr.exponent;
+            literalSubExpr.literal = "std::pow(" + lhs.literal +", " + exponent.str() + ")";
             literalSubExpr.isScalar = true;
             literalSubExpr.isSimple = false;
 
-- 
2.43.0


From 74c7eaf7e44368c6179febbf177df0543d6e0c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:36 +0000
Subject: [PATCH 32/34] fix: expressions with elements, blocks or transposes of
 scalars could not be compiled

---
 extern/levi/include/levi/AutogeneratedHelper.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/extern/levi/include/levi/AutogeneratedHelper.h b/extern/levi/include/levi/AutogeneratedHelper.h
index 76521d6..50af407 100644
--- a/extern/levi/include/levi/AutogeneratedHelper.h
+++ b/extern/levi/include/levi/AutogeneratedHelper.h
@@ -208,6 +208,13 @@ private:
             literalSubExpr.isSimple = false;
 
 
+        } else if (lhs.isScalar && (type == Type::Transpose || type == Type::Row || type == Type::Column ||
+                                    type == Type::Element || type == Type::Block)) { //There is only one element
+
+            literalSubExpr.literal = lhs.literal;
+            literalSubExpr.isScalar = true;
+            literalSubExpr.isSimple = true;
+
         } else if (type == Type::Transpose) {
 
             assert(!lhs.isScalar);
-- 
2.43.0


From 598de86c72f2c0fcd21a2409d0ae536364e2aca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:36 +0000
Subject: [PATCH 33/34] fix: the names of compiled expressions could be invalid
 names of classes

---
 extern/levi/include/levi/AutogeneratedHelper.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extern/levi/include/levi/AutogeneratedHelper.h b/extern/levi/include/levi/AutogeneratedHelper.h
index 50af407..7972095 100644
--- a/extern/levi/include/levi/AutogeneratedHelper.h
+++ b/extern/levi/include/levi/AutogeneratedHelper.h
@@ -566,10 +566,14 @@ public:
             if (letter == ' ') {
                 letter = '_';
             } else if (!(((letter >= 'a') && (letter <= 'z')) || ((letter >= 'A') && (letter <= 'Z')) || ((letter >= '0') && (letter <= '9')))) {
-                letter = '-';
+                letter = '_';
             }
         }
 
+        if (m_cleanName.empty() || (m_cleanName[0] >= '0' && m_cleanName[0] <= '9')) {
+            m_cleanName = "_" + m_cleanName; //It is used as name of a class
+        }
+
         for (size_t generic : m_generics) {
             m_genericsRefs.emplace_back(m_expandedExpression[generic].buffer);
         }
-- 
2.43.0


From dee42f185353856af89ef6abe1433277bc098449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:36 +0000
Subject: [PATCH 34/34] fix: an expression compiled with the name of another
 one was evaluated as the other one

---
 extern/levi/include/levi/AutogeneratedHelper.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extern/levi/include/levi/AutogeneratedHelper.h b/extern/levi/include/levi/AutogeneratedHelper.h
index 7972095..87b07ac 100644
--- a/extern/levi/include/levi/AutogeneratedHelper.h
+++ b/extern/levi/include/levi/AutogeneratedHelper.h
@@ -574,6 +574,12 @@ public:
             m_cleanName = "_" + m_cleanName; //It is used as name of a class
         }
 
+        static std::unordered_map<std::string, size_t> usedNames; //A library which is already open would be used again if another one has the same name
+        size_t previousUses = usedNames[m_cleanName]++;
+        if (previousUses) {
+            m_cleanName += "_" + std::to_string(previousUses);
+        }
+
         for (size_t generic : m_generics) {
             m_genericsRefs.emplace_back(m_expandedExpression[generic].buffer);
         }
-- 
2.43.0

