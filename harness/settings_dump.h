// Field-wise dump of the settings struct (used to compare what was stored with what was given).
#pragma once
#include "mc.h"
#include <DynamicalPlanner/Settings.h>
#include <iDynTree/Core/EigenHelpers.h>
namespace mc {
template <class F> inline std::string at3(F&& f) { std::string s; for (double t : {0.0, 0.3, 1.0, 2.5}) s += f(t); return s; }
inline std::string dumpV(double v) { return num(v); }
inline std::string dumpV(bool v) { return v ? "1" : "0"; }
inline std::string dumpV(unsigned v) { return std::to_string(v); }
inline std::string dumpV(const std::string& s) { return s; }
inline std::string dumpV(const iDynTree::Vector3& v) { return vec(v, 3); }
inline std::string dumpV(const iDynTree::VectorDynSize& v) { return vec(v, v.size()); }
inline std::string dumpV(const std::vector<double>& v) { return vec(v, v.size()); }
inline std::string dumpV(const std::vector<std::pair<double, double>>& v) { std::string s; for (auto& p : v) s += num(p.first) + ":" + num(p.second) + " "; return s; }
inline std::string dumpV(const std::vector<iDynTree::Position>& v) { std::string s; for (auto& p : v) s += vec(p, 3); return s; }
inline std::string dumpV(const iDynTree::optimalcontrol::TimeRange& r) { return num(r.initTime()) + ".." + num(r.endTime()) + (r == iDynTree::optimalcontrol::TimeRange::AnyTime() ? " any" : ""); }
inline std::string dumpV(const std::shared_ptr<iDynTree::optimalcontrol::TimeVaryingDouble>& p) { if (!p) return "null"; return at3([&](double t) { bool ok = false; double v = p->get(t, ok); return num(v) + (ok ? " " : "? "); }); }
inline std::string dumpV(const std::shared_ptr<iDynTree::optimalcontrol::TimeVaryingVector>& p) { if (!p) return "null"; return at3([&](double t) { bool ok = false; auto& v = p->get(t, ok); return vec(v, v.size()) + (ok ? " " : "? "); }); }
inline std::string dumpV(const std::shared_ptr<iDynTree::optimalcontrol::TimeVaryingPosition>& p) { if (!p) return "null"; return at3([&](double t) { bool ok = false; auto& v = p->get(t, ok); return vec(v, 3) + (ok ? " " : "? "); }); }
inline std::string dumpV(const std::shared_ptr<iDynTree::optimalcontrol::TimeVaryingRotation>& p) { if (!p) return "null"; return at3([&](double t) { bool ok = false; auto& v = p->get(t, ok); std::string s; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) s += num(v(i, j)) + ","; return s + (ok ? " " : "? "); }); }
inline std::string dumpV(const iDynTree::Model& m) { std::string s = std::to_string(m.getNrOfDOFs()) + "/" + std::to_string(m.getNrOfLinks()); for (size_t i = 0; i < m.getNrOfJoints(); ++i) s += " " + m.getJointName(i); return s; }
inline std::string dumpV(DynamicalPlanner::ComplementarityType t) { return std::to_string(int(t)); }
inline std::string dumpV(DynamicalPlanner::PlanarComplementarityType t) { return std::to_string(int(t)); }
inline std::string dumpSettings(const DynamicalPlanner::SettingsStruct& s) {
    std::string o;
    o += "minimumDt=" + dumpV(s.minimumDt) + "\n";
    o += "maximumDt=" + dumpV(s.maximumDt) + "\n";
    o += "controlPeriod=" + dumpV(s.controlPeriod) + "\n";
    o += "horizon=" + dumpV(s.horizon) + "\n";
    o += "activeControlPercentage=" + dumpV(s.activeControlPercentage) + "\n";
    o += "robotModel=" + dumpV(s.robotModel) + "\n";
    o += "gravity=" + dumpV(s.gravity) + "\n";
    o += "updateTolerance=" + dumpV(s.updateTolerance) + "\n";
    o += "floatingBaseName=" + dumpV(s.floatingBaseName) + "\n";
    o += "leftPointsPosition=" + dumpV(s.leftPointsPosition) + "\n";
    o += "rightPointsPosition=" + dumpV(s.rightPointsPosition) + "\n";
    o += "leftFrameName=" + dumpV(s.leftFrameName) + "\n";
    o += "rightFrameName=" + dumpV(s.rightFrameName) + "\n";
    o += "complementarity=" + dumpV(s.complementarity) + "\n";
    o += "forceMaximumDerivative=" + dumpV(s.forceMaximumDerivative) + "\n";
    o += "normalForceDissipationRatio=" + dumpV(s.normalForceDissipationRatio) + "\n";
    o += "normalForceHyperbolicSecantScaling=" + dumpV(s.normalForceHyperbolicSecantScaling) + "\n";
    o += "complementarityDissipation=" + dumpV(s.complementarityDissipation) + "\n";
    o += "dynamicComplementarityUpperBound=" + dumpV(s.dynamicComplementarityUpperBound) + "\n";
    o += "classicalComplementarityTolerance=" + dumpV(s.classicalComplementarityTolerance) + "\n";
    o += "frictionCoefficient=" + dumpV(s.frictionCoefficient) + "\n";
    o += "planarComplementarity=" + dumpV(s.planarComplementarity) + "\n";
    o += "velocityMaximumDerivative=" + dumpV(s.velocityMaximumDerivative) + "\n";
    o += "planarVelocityHyperbolicTangentScaling=" + dumpV(s.planarVelocityHyperbolicTangentScaling) + "\n";
    o += "normalVelocityHyperbolicSecantScaling=" + dumpV(s.normalVelocityHyperbolicSecantScaling) + "\n";
    o += "classicalPlanarComplementarityTolerance=" + dumpV(s.classicalPlanarComplementarityTolerance) + "\n";
    o += "indexOfLateralDirection=" + dumpV(s.indexOfLateralDirection) + "\n";
    o += "minimumFeetDistance=" + dumpV(s.minimumFeetDistance) + "\n";
    o += "referenceFrameNameForFeetDistance=" + dumpV(s.referenceFrameNameForFeetDistance) + "\n";
    o += "otherFrameNameForFeetDistance=" + dumpV(s.otherFrameNameForFeetDistance) + "\n";
    o += "feetMaximumRelativeHeight=" + dumpV(s.feetMaximumRelativeHeight) + "\n";
    o += "comPositionConstraintTolerance=" + dumpV(s.comPositionConstraintTolerance) + "\n";
    o += "centroidalMomentumConstraintTolerance=" + dumpV(s.centroidalMomentumConstraintTolerance) + "\n";
    o += "quaternionModulusConstraintTolerance=" + dumpV(s.quaternionModulusConstraintTolerance) + "\n";
    o += "pointPositionConstraintTolerance=" + dumpV(s.pointPositionConstraintTolerance) + "\n";
    o += "minimumCoMHeight=" + dumpV(s.minimumCoMHeight) + "\n";
    o += "jointsLimits=" + dumpV(s.jointsLimits) + "\n";
    o += "jointsVelocityLimits=" + dumpV(s.jointsVelocityLimits) + "\n";
    o += "constrainTargetCoMPosition=" + dumpV(s.constrainTargetCoMPosition) + "\n";
    o += "targetCoMPositionTolerance=" + dumpV(s.targetCoMPositionTolerance) + "\n";
    o += "constrainTargetCoMPositionRange=" + dumpV(s.constrainTargetCoMPositionRange) + "\n";
    o += "maximumAngularMomentum=" + dumpV(s.maximumAngularMomentum) + "\n";
    o += "comCostActive=" + dumpV(s.comCostActive) + "\n";
    o += "comCostOverallWeight=" + dumpV(s.comCostOverallWeight) + "\n";
    o += "comCostActiveRange=" + dumpV(s.comCostActiveRange) + "\n";
    o += "comWeights=" + dumpV(s.comWeights) + "\n";
    o += "desiredCoMTrajectory=" + dumpV(s.desiredCoMTrajectory) + "\n";
    o += "comVelocityCostActive=" + dumpV(s.comVelocityCostActive) + "\n";
    o += "comVelocityCostOverallWeight=" + dumpV(s.comVelocityCostOverallWeight) + "\n";
    o += "comVelocityWeights=" + dumpV(s.comVelocityWeights) + "\n";
    o += "comVelocityCostActiveRange=" + dumpV(s.comVelocityCostActiveRange) + "\n";
    o += "desiredCoMVelocityTrajectory=" + dumpV(s.desiredCoMVelocityTrajectory) + "\n";
    o += "frameCostActive=" + dumpV(s.frameCostActive) + "\n";
    o += "frameCostOverallWeight=" + dumpV(s.frameCostOverallWeight) + "\n";
    o += "frameForOrientationCost=" + dumpV(s.frameForOrientationCost) + "\n";
    o += "desiredRotationTrajectory=" + dumpV(s.desiredRotationTrajectory) + "\n";
    o += "frameCostTimeVaryingWeight=" + dumpV(s.frameCostTimeVaryingWeight) + "\n";
    o += "forceMeanCostActive=" + dumpV(s.forceMeanCostActive) + "\n";
    o += "forceMeanCostOverallWeight=" + dumpV(s.forceMeanCostOverallWeight) + "\n";
    o += "forceRatioCostActive=" + dumpV(s.forceRatioCostActive) + "\n";
    o += "forceRatioCostOverallWeight=" + dumpV(s.forceRatioCostOverallWeight) + "\n";
    o += "desiredLeftRatios=" + dumpV(s.desiredLeftRatios) + "\n";
    o += "desiredRightRatios=" + dumpV(s.desiredRightRatios) + "\n";
    o += "jointsRegularizationCostActive=" + dumpV(s.jointsRegularizationCostActive) + "\n";
    o += "jointsRegularizationCostOverallWeight=" + dumpV(s.jointsRegularizationCostOverallWeight) + "\n";
    o += "desiredJointsTrajectory=" + dumpV(s.desiredJointsTrajectory) + "\n";
    o += "jointsRegularizationWeights=" + dumpV(s.jointsRegularizationWeights) + "\n";
    o += "jointsVelocityCostActive=" + dumpV(s.jointsVelocityCostActive) + "\n";
    o += "jointsVelocityCostOverallWeight=" + dumpV(s.jointsVelocityCostOverallWeight) + "\n";
    o += "desiredJointsVelocityTrajectory=" + dumpV(s.desiredJointsVelocityTrajectory) + "\n";
    o += "jointsVelocityCostWeights=" + dumpV(s.jointsVelocityCostWeights) + "\n";
    o += "staticTorquesCostActive=" + dumpV(s.staticTorquesCostActive) + "\n";
    o += "staticTorquesCostOverallWeight=" + dumpV(s.staticTorquesCostOverallWeight) + "\n";
    o += "staticTorquesCostWeights=" + dumpV(s.staticTorquesCostWeights) + "\n";
    o += "forceDerivativeCostActive=" + dumpV(s.forceDerivativeCostActive) + "\n";
    o += "forceDerivativesCostOverallWeight=" + dumpV(s.forceDerivativesCostOverallWeight) + "\n";
    o += "desiredForceDerivativeTrajectory=" + dumpV(s.desiredForceDerivativeTrajectory) + "\n";
    o += "forceDerivativeWeights=" + dumpV(s.forceDerivativeWeights) + "\n";
    o += "pointAccelerationCostActive=" + dumpV(s.pointAccelerationCostActive) + "\n";
    o += "pointAccelerationCostOverallWeight=" + dumpV(s.pointAccelerationCostOverallWeight) + "\n";
    o += "desiredPointAccelerationTrajectory=" + dumpV(s.desiredPointAccelerationTrajectory) + "\n";
    o += "pointAccelerationWeights=" + dumpV(s.pointAccelerationWeights) + "\n";
    o += "swingCostActive=" + dumpV(s.swingCostActive) + "\n";
    o += "swingCostOverallWeight=" + dumpV(s.swingCostOverallWeight) + "\n";
    o += "desiredSwingHeight=" + dumpV(s.desiredSwingHeight) + "\n";
    o += "swingCostWeights=" + dumpV(s.swingCostWeights) + "\n";
    o += "phantomForcesCostActive=" + dumpV(s.phantomForcesCostActive) + "\n";
    o += "phantomForcesCostOverallWeight=" + dumpV(s.phantomForcesCostOverallWeight) + "\n";
    o += "meanPointPositionCostActive=" + dumpV(s.meanPointPositionCostActive) + "\n";
    o += "meanPointPositionCostOverallWeight=" + dumpV(s.meanPointPositionCostOverallWeight) + "\n";
    o += "meanPointPositionCostTimeVaryingWeight=" + dumpV(s.meanPointPositionCostTimeVaryingWeight) + "\n";
    o += "meanPointPositionCostActiveRange=" + dumpV(s.meanPointPositionCostActiveRange) + "\n";
    o += "desiredMeanPointPosition=" + dumpV(s.desiredMeanPointPosition) + "\n";
    o += "leftFootYawCostActive=" + dumpV(s.leftFootYawCostActive) + "\n";
    o += "leftFootYawCostOverallWeight=" + dumpV(s.leftFootYawCostOverallWeight) + "\n";
    o += "desiredLeftFootYaw=" + dumpV(s.desiredLeftFootYaw) + "\n";
    o += "rightFootYawCostActive=" + dumpV(s.rightFootYawCostActive) + "\n";
    o += "rightFootYawCostOverallWeight=" + dumpV(s.rightFootYawCostOverallWeight) + "\n";
    o += "desiredRightFootYaw=" + dumpV(s.desiredRightFootYaw) + "\n";
    o += "feetDistanceCostActive=" + dumpV(s.feetDistanceCostActive) + "\n";
    o += "feetDistanceCostOverallWeight=" + dumpV(s.feetDistanceCostOverallWeight) + "\n";
    o += "jointsVelocityForPosturalCostActive=" + dumpV(s.jointsVelocityForPosturalCostActive) + "\n";
    o += "jointsVelocityForPosturalCostOverallWeight=" + dumpV(s.jointsVelocityForPosturalCostOverallWeight) + "\n";
    o += "complementarityCostActive=" + dumpV(s.complementarityCostActive) + "\n";
    o += "complementarityCostOverallWeight=" + dumpV(s.complementarityCostOverallWeight) + "\n";
    o += "basePositionCostActive=" + dumpV(s.basePositionCostActive) + "\n";
    o += "basePositionCostOverallWeight=" + dumpV(s.basePositionCostOverallWeight) + "\n";
    o += "basePositionCostActiveRange=" + dumpV(s.basePositionCostActiveRange) + "\n";
    o += "basePositionCostWeights=" + dumpV(s.basePositionCostWeights) + "\n";
    o += "desiredBasePositionTrajectory=" + dumpV(s.desiredBasePositionTrajectory) + "\n";
    o += "baseQuaternionCostActive=" + dumpV(s.baseQuaternionCostActive) + "\n";
    o += "baseQuaternionCostOverallWeight=" + dumpV(s.baseQuaternionCostOverallWeight) + "\n";
    o += "desiredBaseQuaternionTrajectory=" + dumpV(s.desiredBaseQuaternionTrajectory) + "\n";
    o += "frameAngularVelocityCostActive=" + dumpV(s.frameAngularVelocityCostActive) + "\n";
    o += "frameAngularVelocityCostOverallWeight=" + dumpV(s.frameAngularVelocityCostOverallWeight) + "\n";
    o += "rotationalPIDgain=" + dumpV(s.rotationalPIDgain) + "\n";
    o += "baseLinearVelocityCostActive=" + dumpV(s.baseLinearVelocityCostActive) + "\n";
    o += "baseLinearVelocityCostOverallWeight=" + dumpV(s.baseLinearVelocityCostOverallWeight) + "\n";
    o += "baseLinearVelocityCostWeights=" + dumpV(s.baseLinearVelocityCostWeights) + "\n";
    o += "desiredBaseLinearVelocityTrajectory=" + dumpV(s.desiredBaseLinearVelocityTrajectory) + "\n";
    o += "baseQuaternionVelocityCostActive=" + dumpV(s.baseQuaternionVelocityCostActive) + "\n";
    o += "baseQuaternionVelocityCostOverallWeight=" + dumpV(s.baseQuaternionVelocityCostOverallWeight) + "\n";
    o += "desiredBaseQuaternionVelocityTrajectory=" + dumpV(s.desiredBaseQuaternionVelocityTrajectory) + "\n";
    o += "angularMomentumCostActive=" + dumpV(s.angularMomentumCostActive) + "\n";
    o += "angularMomentumCostOverallWeight=" + dumpV(s.angularMomentumCostOverallWeight) + "\n";
    o += "useConstraintsHessianRegularization=" + dumpV(s.useConstraintsHessianRegularization) + "\n";
    o += "constraintsHessianRegularization=" + dumpV(s.constraintsHessianRegularization) + "\n";
    o += "useCostsHessianRegularization=" + dumpV(s.useCostsHessianRegularization) + "\n";
    o += "costsHessianRegularization=" + dumpV(s.costsHessianRegularization) + "\n";
    return o;
}
}
