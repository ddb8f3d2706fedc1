// V11: settings. Every combination (singles, pairs, thorough: triples) of edits of a settings struct, and every
// sequence of imports up to a depth, against a reference validity predicate and a store-last-accepted model.
#include "dp.h"
#include "poison.h"
#include "settings_dump.h"
using namespace DynamicalPlanner;
using iDynTree::optimalcontrol::TimeRange;
typedef SettingsStruct S;
typedef iDynTree::optimalcontrol::TimeInvariantVector TIV;
typedef iDynTree::optimalcontrol::TimeInvariantDouble TID;
typedef iDynTree::optimalcontrol::TimeInvariantPosition TIP;
typedef iDynTree::optimalcontrol::TimeInvariantRotation TIR;

static bool link(const S& s, const std::string& n) { for (size_t i = 0; i < s.robotModel.getNrOfLinks(); ++i) if (s.robotModel.getLinkName(iDynTree::LinkIndex(i)) == n) return true; return false; }
static bool frame(const S& s, const std::string& n) { for (size_t i = 0; i < s.robotModel.getNrOfFrames(); ++i) if (s.robotModel.getFrameName(iDynTree::FrameIndex(i)) == n) return true; return false; }

static bool expectValid(const S& s) {
    size_t n = s.robotModel.getNrOfDOFs();
    bool ok = s.minimumDt >= 0 && s.maximumDt > 2 * s.minimumDt && s.controlPeriod >= 0 && s.horizon >= 0 && s.activeControlPercentage >= 0 && s.activeControlPercentage <= 1;
    ok = ok && link(s, s.floatingBaseName) && s.leftPointsPosition.size() == s.rightPointsPosition.size() && frame(s, s.leftFrameName) && frame(s, s.rightFrameName);
    ok = ok && s.complementarityDissipation >= 0 && s.frictionCoefficient >= 0 && s.indexOfLateralDirection <= 2 && s.minimumFeetDistance >= 0;
    ok = ok && frame(s, s.referenceFrameNameForFeetDistance) && frame(s, s.otherFrameNameForFeetDistance);
    ok = ok && s.comPositionConstraintTolerance >= 0 && s.centroidalMomentumConstraintTolerance >= 0 && s.quaternionModulusConstraintTolerance >= 0 && s.pointPositionConstraintTolerance >= 0 && s.minimumCoMHeight >= 0 && s.maximumAngularMomentum >= 0 && s.feetMaximumRelativeHeight >= 0;
    ok = ok && s.jointsLimits.size() == n && s.jointsVelocityLimits.size() == n;
    for (auto& p : s.jointsLimits) ok = ok && p.first <= p.second;
    for (auto& p : s.jointsVelocityLimits) ok = ok && p.first <= p.second;
    if (s.constrainTargetCoMPosition) ok = ok && s.constrainTargetCoMPositionRange.isValid() && s.targetCoMPositionTolerance;
    if (s.comCostActive) ok = ok && s.comWeights.size() == 3 && s.comCostActiveRange.isValid() && s.desiredCoMTrajectory;
    if (s.comVelocityCostActive) ok = ok && s.comVelocityWeights.size() == 3 && s.comVelocityCostActiveRange.isValid() && s.desiredCoMVelocityTrajectory;
    if (s.frameCostActive) ok = ok && frame(s, s.frameForOrientationCost) && s.desiredRotationTrajectory && s.frameCostTimeVaryingWeight;
    if (s.jointsRegularizationCostActive) ok = ok && s.desiredJointsTrajectory && s.jointsRegularizationWeights.size() == n;
    if (s.jointsVelocityCostActive) ok = ok && s.desiredJointsVelocityTrajectory && s.jointsVelocityCostWeights.size() == n;
    if (s.staticTorquesCostActive) ok = ok && s.staticTorquesCostWeights.size() == n;
    if (s.forceDerivativeCostActive) ok = ok && s.desiredForceDerivativeTrajectory && s.forceDerivativeWeights.size() == 3;
    if (s.pointAccelerationCostActive) ok = ok && s.desiredPointAccelerationTrajectory && s.pointAccelerationWeights.size() == 3;
    if (s.swingCostActive) ok = ok && s.desiredSwingHeight >= 0;
    if (s.meanPointPositionCostActive) ok = ok && s.meanPointPositionCostActiveRange.isValid() && s.desiredMeanPointPosition && s.meanPointPositionCostTimeVaryingWeight;
    if (s.leftFootYawCostActive) ok = ok && s.desiredLeftFootYaw;
    if (s.rightFootYawCostActive) ok = ok && s.desiredRightFootYaw;
    if (s.jointsVelocityForPosturalCostActive) ok = ok && s.desiredJointsTrajectory && s.jointsRegularizationWeights.size() == n && s.jointsVelocityCostWeights.size() == n;
    if (s.basePositionCostActive) ok = ok && s.basePositionCostWeights.size() == 3 && s.basePositionCostActiveRange.isValid() && s.desiredBasePositionTrajectory;
    if (s.baseQuaternionCostActive) ok = ok && s.desiredBaseQuaternionTrajectory;
    if (s.frameAngularVelocityCostActive) ok = ok && frame(s, s.frameForOrientationCost) && s.desiredRotationTrajectory;
    if (s.baseLinearVelocityCostActive) ok = ok && s.baseLinearVelocityCostWeights.size() == 3 && s.desiredBaseLinearVelocityTrajectory;
    if (s.baseQuaternionVelocityCostActive) ok = ok && s.desiredBaseQuaternionVelocityTrajectory;
    auto ratios = [&](const std::vector<double>& r, size_t k) { bool o = r.size() == k; for (double v : r) o = o && v >= 0 && v <= 1; return o; };
    if (s.forceRatioCostActive) ok = ok && ratios(s.desiredLeftRatios, s.leftPointsPosition.size()) && ratios(s.desiredRightRatios, s.rightPointsPosition.size());
    if (s.complementarity == ComplementarityType::Dynamical) ok = ok && s.dynamicComplementarityUpperBound >= 0;
    if (s.complementarity == ComplementarityType::Classical) ok = ok && s.classicalComplementarityTolerance >= 0;
    if (s.planarComplementarity == PlanarComplementarityType::Classical) ok = ok && s.classicalPlanarComplementarityTolerance >= 0;
    else ok = ok && s.planarVelocityHyperbolicTangentScaling >= 0;
    for (unsigned k = 0; k < 3; ++k) ok = ok && s.velocityMaximumDerivative(k) >= 0;
    return ok;
}

// plain assignment would run into an iDynTree defect (assigning a longer vector to one that was emptied)
static void setW(iDynTree::VectorDynSize& d, const iDynTree::VectorDynSize& v) { d.~VectorDynSize(); new (&d) iDynTree::VectorDynSize(v); }
struct Mut { std::string n; std::function<void(S&)> f; };
static std::vector<Mut> muts() {
    std::vector<Mut> m;
    auto sz = [](int n, double v) { iDynTree::VectorDynSize x(n); for (int i = 0; i < n; ++i) x(i) = v + i; return x; };
#define NUM(field, ...) for (double v : {__VA_ARGS__}) m.push_back({std::string(#field "=") + mc::num(v), [v](S& s) { s.field = v; }});
#define STR(field, ...) for (std::string v : {__VA_ARGS__}) m.push_back({#field "=" + v, [v](S& s) { s.field = v; }});
#define FLAG(field) m.push_back({"flip " #field, [](S& s) { s.field = !s.field; }});
#define NUL(field) m.push_back({#field "=null", [](S& s) { s.field = nullptr; }});
#define WSZ(field) for (int k : {0, 2, 4}) m.push_back({#field " size " + std::to_string(k), [k, sz](S& s) { setW(s.field, sz(k, 1.5)); }}); m.push_back({#field " size 5", [sz](S& s) { setW(s.field, sz(5, 0.25)); }});
#define RNG(field) m.push_back({#field " reversed", [](S& s) { s.field = TimeRange(2, 1); }}); m.push_back({#field " [0.2,0.4]", [](S& s) { s.field = TimeRange(0.2, 0.4); }});
    NUM(minimumDt, -0.01, 0.0, 0.02, 0.05, 0.06) NUM(maximumDt, -0.1, 0.02, 0.021, 0.0) NUM(controlPeriod, -0.01, 0.0) NUM(horizon, -1.0, 0.0, 2.0)
    NUM(activeControlPercentage, -0.01, 0.0, 0.4, 1.01) NUM(updateTolerance, 1e-3)
    STR(floatingBaseName, "nothing", "l_sole", "chest", "") STR(leftFrameName, "nothing", "l_lower_leg") STR(rightFrameName, "nothing", "chest")
    STR(referenceFrameNameForFeetDistance, "nothing", "l_sole") STR(otherFrameNameForFeetDistance, "nothing") STR(frameForOrientationCost, "nothing", "chest")
    m.push_back({"one left point less", [](S& s) { s.leftPointsPosition.pop_back(); }});
    m.push_back({"one right point less", [](S& s) { s.rightPointsPosition.pop_back(); }});
    NUM(complementarityDissipation, -1.0, 0.0) NUM(frictionCoefficient, -0.1, 0.0) NUM(minimumFeetDistance, -0.1, 0.0)
    for (unsigned v : {0u, 2u, 3u}) m.push_back({"indexOfLateralDirection=" + std::to_string(v), [v](S& s) { s.indexOfLateralDirection = v; }});
    NUM(comPositionConstraintTolerance, -1e-3, 0.0) NUM(centroidalMomentumConstraintTolerance, -1e-3, 0.0) NUM(quaternionModulusConstraintTolerance, -1e-3, 0.0) NUM(pointPositionConstraintTolerance, -1e-3, 0.0)
    NUM(minimumCoMHeight, -0.1, 0.0) NUM(maximumAngularMomentum, -1.0, 0.0) NUM(feetMaximumRelativeHeight, -0.1, 0.0)
    for (int j = 0; j < 5; ++j) {
        m.push_back({"joint " + std::to_string(j) + " limits reversed", [j](S& s) { if (size_t(j) < s.jointsLimits.size()) s.jointsLimits[j] = {0.5, -0.5}; }});
        m.push_back({"joint " + std::to_string(j) + " velocity limits reversed", [j](S& s) { if (size_t(j) < s.jointsVelocityLimits.size()) s.jointsVelocityLimits[j] = {0.5, -0.5}; }});
    }
    m.push_back({"joint 2 locked", [](S& s) { if (s.jointsLimits.size() > 2) s.jointsLimits[2] = {0.5, 0.5}; if (s.jointsVelocityLimits.size() > 2) s.jointsVelocityLimits[2] = {0, 0}; }});
    m.push_back({"joints limits too short", [](S& s) { s.jointsLimits.resize(2); }});
    m.push_back({"joints limits too long", [](S& s) { s.jointsLimits.resize(40, {-1, 1}); }});
    m.push_back({"joints velocity limits too short", [](S& s) { s.jointsVelocityLimits.resize(1); s.jointsVelocityLimits.shrink_to_fit(); }});
    m.push_back({"joints velocity limits too long", [](S& s) { s.jointsVelocityLimits.resize(9, {-1, 1}); }});
    FLAG(constrainTargetCoMPosition) NUL(targetCoMPositionTolerance) RNG(constrainTargetCoMPositionRange)
    FLAG(comCostActive) WSZ(comWeights) RNG(comCostActiveRange) NUL(desiredCoMTrajectory)
    FLAG(comVelocityCostActive) WSZ(comVelocityWeights) RNG(comVelocityCostActiveRange) NUL(desiredCoMVelocityTrajectory)
    FLAG(frameCostActive) NUL(desiredRotationTrajectory) NUL(frameCostTimeVaryingWeight)
    FLAG(forceMeanCostActive) FLAG(forceRatioCostActive)
    m.push_back({"left ratios too short", [](S& s) { s.desiredLeftRatios.pop_back(); }});
    m.push_back({"right ratios too long", [](S& s) { s.desiredRightRatios.push_back(0.1); }});
    for (int i = 0; i < 3; i += 2) for (double v : {-0.1, 0.0, 1.0, 1.1}) {
        m.push_back({"left ratio " + std::to_string(i) + "=" + mc::num(v), [i, v](S& s) { s.desiredLeftRatios[i] = v; }});
        m.push_back({"right ratio " + std::to_string(i) + "=" + mc::num(v), [i, v](S& s) { s.desiredRightRatios[i] = v; }});
    }
    FLAG(jointsRegularizationCostActive) NUL(desiredJointsTrajectory) WSZ(jointsRegularizationWeights)
    FLAG(jointsVelocityCostActive) NUL(desiredJointsVelocityTrajectory) WSZ(jointsVelocityCostWeights)
    FLAG(staticTorquesCostActive) WSZ(staticTorquesCostWeights)
    FLAG(forceDerivativeCostActive) NUL(desiredForceDerivativeTrajectory) WSZ(forceDerivativeWeights)
    FLAG(pointAccelerationCostActive) NUL(desiredPointAccelerationTrajectory) WSZ(pointAccelerationWeights)
    FLAG(swingCostActive) NUM(desiredSwingHeight, -0.1, 0.0) FLAG(phantomForcesCostActive)
    FLAG(meanPointPositionCostActive) NUL(meanPointPositionCostTimeVaryingWeight) RNG(meanPointPositionCostActiveRange) NUL(desiredMeanPointPosition)
    FLAG(leftFootYawCostActive) NUL(desiredLeftFootYaw) FLAG(rightFootYawCostActive) NUL(desiredRightFootYaw)
    FLAG(feetDistanceCostActive) FLAG(jointsVelocityForPosturalCostActive) FLAG(complementarityCostActive)
    FLAG(basePositionCostActive) RNG(basePositionCostActiveRange) WSZ(basePositionCostWeights) NUL(desiredBasePositionTrajectory)
    FLAG(baseQuaternionCostActive) NUL(desiredBaseQuaternionTrajectory) FLAG(frameAngularVelocityCostActive)
    FLAG(baseLinearVelocityCostActive) WSZ(baseLinearVelocityCostWeights) NUL(desiredBaseLinearVelocityTrajectory)
    FLAG(baseQuaternionVelocityCostActive) NUL(desiredBaseQuaternionVelocityTrajectory) FLAG(angularMomentumCostActive)
    for (int v = 0; v < 4; ++v) m.push_back({"complementarity=" + std::to_string(v), [v](S& s) { s.complementarity = ComplementarityType(v); }});
    for (int v = 0; v < 3; ++v) m.push_back({"planarComplementarity=" + std::to_string(v), [v](S& s) { s.planarComplementarity = PlanarComplementarityType(v); }});
    NUM(dynamicComplementarityUpperBound, -0.1, 0.0) NUM(classicalComplementarityTolerance, -0.1, 0.0) NUM(classicalPlanarComplementarityTolerance, -0.1, 0.0) NUM(planarVelocityHyperbolicTangentScaling, -1.0, 0.0)
    for (unsigned k = 0; k < 3; ++k) for (double v : {-1.0, 0.0}) m.push_back({"velocityMaximumDerivative " + std::to_string(k) + "=" + mc::num(v), [k, v](S& s) { s.velocityMaximumDerivative(k) = v; }});
    m.push_back({"reduced robot", [](S& s) { s.robotModel = mc::bipedReduced(); }});
    NUM(comCostOverallWeight, 7.5) NUM(rotationalPIDgain, -2.0) NUM(constraintsHessianRegularization, 0.5) FLAG(useCostsHessianRegularization)
    return m;
}
static S base(int k) {
    S s = Settings::Defaults(mc::biped());
    if (k == 1) {
        s.constrainTargetCoMPosition = s.comCostActive = s.comVelocityCostActive = s.frameCostActive = s.forceMeanCostActive = s.forceRatioCostActive = s.jointsRegularizationCostActive = s.jointsVelocityCostActive = s.staticTorquesCostActive = s.forceDerivativeCostActive = s.pointAccelerationCostActive = s.swingCostActive = s.phantomForcesCostActive = s.meanPointPositionCostActive = s.leftFootYawCostActive = s.rightFootYawCostActive = s.feetDistanceCostActive = s.jointsVelocityForPosturalCostActive = s.complementarityCostActive = s.basePositionCostActive = s.baseQuaternionCostActive = s.frameAngularVelocityCostActive = s.baseLinearVelocityCostActive = s.baseQuaternionVelocityCostActive = s.angularMomentumCostActive = false;
    }
    return s;
}
static void judge(mc::Runner& R, const S& s, const std::string& what, bool full) {
    bool e = expectValid(s);
    R.evals();
    auto t = [](bool b) { return b ? std::string("accepted") : std::string("refused"); };
    {
        Settings st;
        R.check(!st.isValid(), "fresh-valid", "fresh settings claim to be valid");
        bool r = st.setFromStruct(s);
        R.check(r == e, e ? "valid-refused" : "invalid-accepted", "settings were " + t(r) + " but must be " + t(e) + ": " + what);
        R.check(st.isValid() == e, "validity-flag", what);
        if (e && full) R.check(mc::dumpSettings(st.getSettings()) == mc::dumpSettings(s), "stored-settings", "the stored settings differ from the accepted ones: " + what);
    }
    if (!full) return;
    {
        Settings st(s);
        R.check(st.isValid() == e, "constructor", "construction from the struct: valid=" + std::to_string(st.isValid()) + ", " + what);
        if (e) R.check(mc::dumpSettings(st.getSettings()) == mc::dumpSettings(s), "stored-settings", "the stored settings differ from the accepted ones: " + what);
    }
    // a previously accepted struct survives a refused one and is replaced by an accepted one
    static const S prev = [] { S p = base(0); p.horizon = 1.7; p.frictionCoefficient = 0.77; p.comCostOverallWeight = 3; return p; }();
    static const std::string dprev = mc::dumpSettings(prev);
    Settings st;
    R.check(st.setFromStruct(prev), "valid-refused", "reference settings");
    bool r = st.setFromStruct(s);
    R.check(r == e && st.isValid(), "validity-flag", "second import: " + what);
    R.check(mc::dumpSettings(st.getSettings()) == (e ? mc::dumpSettings(s) : dprev), e ? "stored-settings" : "refused-import-modified-settings", "after a second import: " + what);
    R.states();
}
static void explore(mc::Runner& R) {
    auto M = muts();
    R.rule = "two base structs (every task active / none active) x every combination of up to two (thorough: three) of " + std::to_string(M.size()) + " single-field edits at and beyond each validity limit; and every import history up to a depth over representative structs; the defaults are produced under two heap fill patterns";
    R.stateWord = "edit combinations and import histories";
    R.assumptions = {"NaN values are not edited in"};
    for (int b = 0; b < 2; ++b) R.run("base " + std::to_string(b), [&] { judge(R, base(b), "base", true); });
    R.run("defaults deterministic", [&] {
        std::string d[3];
        for (int k = 0; k < 3; ++k) { mc::g_fill = (unsigned char)(k ? 0x3C : 0xA5); S s = Settings::Defaults(mc::biped()); Settings t(s); R.check(t.isValid(), "defaults-invalid", "the default settings are refused"); d[k] = mc::dumpSettings(t.getSettings()); }
        R.check(d[0] == d[1] && d[1] == d[2], "defaults-nondeterministic", "two calls give different defaults");
        S s = Settings::Defaults(mc::biped());
        const auto& m = mc::biped();
        R.check(s.jointsLimits.size() == m.getNrOfDOFs(), "defaults-joint-limits", "size");
        for (size_t j = 0; j < m.getNrOfDOFs(); ++j) { double lo, hi; m.getJoint(iDynTree::JointIndex(j))->getPosLimits(0, lo, hi); R.check(s.jointsLimits[j].first == lo && s.jointsLimits[j].second == hi, "defaults-joint-limits", "joint " + std::to_string(j)); }
        R.check(Settings(Settings::Defaults(mc::bipedReduced())).isValid(), "defaults-invalid", "reduced robot");
    });
    for (int b = 0; b < 2; ++b) for (size_t i = 0; i < M.size(); ++i) R.run("edit base " + std::to_string(b) + ": " + M[i].n, [&] {
        S s = base(b); M[i].f(s);
        judge(R, s, "base " + std::to_string(b) + ", " + M[i].n, true);
        for (size_t j = 0; j < M.size(); ++j) {
            if (j == i) continue;
            S t = base(b); M[i].f(t); M[j].f(t);
            if (t.desiredLeftRatios.empty() || t.desiredRightRatios.empty()) continue;
            judge(R, t, "base " + std::to_string(b) + ", " + M[i].n + ", " + M[j].n, true);
            R.transitions();
            if (R.thorough() && j > i) for (size_t k = j + 1; k < M.size(); ++k) { S u = t; M[k].f(u); judge(R, u, "base " + std::to_string(b) + ", " + M[i].n + ", " + M[j].n + ", " + M[k].n, false); R.transitions(); }
        }
    });
    // import histories
    std::vector<std::pair<std::string, S>> reps;
    std::vector<std::string> dumps;
    auto add = [&](const std::string& n, std::function<void(S&)> f, int b) { S s = base(b); f(s); reps.push_back({n, s}); dumps.push_back(mc::dumpSettings(s)); };
    add("A", [](S& s) { s.horizon = 3; }, 0);
    add("B", [](S& s) { s.controlPeriod = 0.05; }, 1);
    add("bad scalar", [](S& s) { s.frictionCoefficient = -1; s.horizon = 9; }, 0);
    add("bad last check", [](S& s) { s.planarVelocityHyperbolicTangentScaling = -1; s.horizon = 9; }, 1);
    add("bad task", [](S& s) { s.comWeights.resize(2); }, 0);
    add("reduced robot", [](S& s) { s = Settings::Defaults(mc::bipedReduced()); }, 0);
    int depth = R.thorough() ? 6 : 4;
    uint64_t total = 1; for (int i = 0; i < depth; ++i) total *= reps.size() + 2;
    for (uint64_t c0 = 0; c0 < reps.size() + 2; ++c0) R.run("import histories from " + std::to_string(c0), [&] {
        for (uint64_t c = c0; c < total; c += reps.size() + 2) {
            std::vector<int> q; uint64_t x = c; for (int i = 0; i < depth; ++i) { q.push_back(int(x % (reps.size() + 2))); x /= reps.size() + 2; }
            std::unique_ptr<Settings> s(new Settings);
            int cur = -1;
            for (int i = 0; i < depth; ++i) {
                if (q[i] == int(reps.size())) { s.reset(new Settings(*s)); }
                else if (q[i] == int(reps.size()) + 1) { Settings t; if (cur >= 0) t.setFromStruct(reps[cur == 0 ? 1 : 0].second); t = *s; *s = t; }
                else { bool e = expectValid(reps[q[i]].second); R.check(s->setFromStruct(reps[q[i]].second) == e, "history-verdict", "step " + std::to_string(i)); if (e) cur = q[i]; }
                R.transitions();
                auto h = [&] { std::string o; for (int k = 0; k <= i; ++k) o += (q[k] < int(reps.size()) ? reps[q[k]].first : q[k] == int(reps.size()) ? std::string("copy") : std::string("assign")) + "; "; return o; };
                R.check(s->isValid() == (cur >= 0), "history-flag", "isValid()=" + std::to_string(s->isValid()) + " after " + h());
                if (i + 1 == depth || c < 300) if (cur >= 0) R.check(mc::dumpSettings(s->getSettings()) == dumps[cur], "history-settings", "stored settings are not those of the last accepted import after " + h());
            }
            R.states();
        }
    });
}
int main(int argc, char** argv) { mc::Runner R; return R.main(argc, argv, "V11", explore); }
