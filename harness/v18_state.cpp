// V18: state/control containers, initial-state utilities, guesses and weights.
#include "dp.h"
#include "poison.h"
#include <DynamicalPlanner/State.h>
#include <DynamicalPlanner/Control.h>
#include <DynamicalPlanner/Utilities.h>
#include <iDynTree/KinDynComputations.h>
using namespace DynamicalPlanner;
typedef std::array<double, 3> V3;

struct MState { size_t n = 0, l = 0, r = 0; };

static void containers(mc::Runner& R) {
    // histories of resize / zero / copy / write over all sizes, State and Control together
    const int NOP = 9;
    int depth = R.thorough() ? 5 : 4;
    for (int a = 0; a < NOP; ++a) for (int ctor = 0; ctor < 3; ++ctor) R.run("container histories " + std::to_string(ctor) + " from op " + std::to_string(a), [&] {
        uint64_t total = 1; for (int i = 1; i < depth; ++i) total *= NOP;
        for (uint64_t c = 0; c < total; ++c) {
            std::vector<int> q = {a}; uint64_t x = c; for (int i = 1; i < depth; ++i) { q.push_back(int(x % NOP)); x /= NOP; }
            std::unique_ptr<State> s(ctor == 0 ? new State : ctor == 1 ? new State(2, 1) : new State(3, 4));
            std::unique_ptr<Control> u(ctor == 0 ? new Control : ctor == 1 ? new Control(2, 1) : new Control(3, 4));
            size_t n = ctor == 0 ? 0 : ctor == 1 ? 2 : 3, p = ctor == 0 ? 0 : ctor == 1 ? 1 : 4;
            bool zero = ctor != 0;
            std::string h;
            auto isZero = [&] {
                std::string w = " after " + h;
                for (auto* v : {&s->leftContactPointsState, &s->rightContactPointsState}) for (auto& e : *v) for (unsigned k = 0; k < 3; ++k) R.check(e.pointForce(k) == 0 && e.pointPosition(k) == 0, "state-zero", "contact point" + w);
                for (unsigned k = 0; k < 6; ++k) R.check(s->momentumInCoM(k) == 0, "state-zero", "momentum" + w);
                for (unsigned k = 0; k < 3; ++k) { R.check(s->comPosition(k) == 0 && s->worldToBaseTransform.getPosition()(k) == 0, "state-zero", "position" + w); for (unsigned j = 0; j < 3; ++j) R.check(s->worldToBaseTransform.getRotation()(k, j) == (k == j), "state-zero", "rotation" + w); }
                for (unsigned k = 0; k < s->jointsConfiguration.size(); ++k) R.check(s->jointsConfiguration(k) == 0, "state-zero", "joint" + w);
                R.check(s->time == 0 && u->time == 0, "state-zero", "time" + w);
                for (auto* v : {&u->leftContactPointsControl, &u->rightContactPointsControl}) for (auto& e : *v) for (unsigned k = 0; k < 3; ++k) R.check(e.pointForceControl(k) == 0 && e.pointVelocityControl(k) == 0, "control-zero", "contact point" + w);
                for (unsigned k = 0; k < 3; ++k) R.check(u->baseLinearVelocity(k) == 0, "control-zero", "base velocity" + w);
                for (unsigned k = 0; k < 4; ++k) R.check(u->baseQuaternionDerivative(k) == 0, "control-zero", "quaternion derivative" + w);
                for (unsigned k = 0; k < u->jointsVelocity.size(); ++k) R.check(u->jointsVelocity(k) == 0, "control-zero", "joint velocity" + w);
            };
            if (zero) isZero();
            for (int i = 0; i < depth; ++i) {
                int o = q[i];
                static const size_t SZ[5][2] = {{1, 0}, {2, 1}, {3, 4}, {2, 4}, {5, 1}};
                if (o < 5) { s->resize(SZ[o][0], SZ[o][1]); u->resize(SZ[o][0], SZ[o][1]); n = SZ[o][0]; p = SZ[o][1]; h += "resize(" + std::to_string(n) + "," + std::to_string(p) + "); "; zero = false; }
                else if (o == 5) { s->zero(); u->zero(); h += "zero; "; isZero(); }
                else if (o == 6) {
                    double v = 10 * (i + 1); h += "write; ";
                    for (auto* w : {&s->leftContactPointsState, &s->rightContactPointsState}) for (auto& e : *w) for (unsigned k = 0; k < 3; ++k) { e.pointForce(k) = ++v; e.pointPosition(k) = ++v; }
                    for (auto* w : {&u->leftContactPointsControl, &u->rightContactPointsControl}) for (auto& e : *w) for (unsigned k = 0; k < 3; ++k) { e.pointForceControl(k) = ++v; e.pointVelocityControl(k) = ++v; }
                    for (unsigned k = 0; k < 6; ++k) s->momentumInCoM(k) = ++v;
                    for (unsigned k = 0; k < 3; ++k) { s->comPosition(k) = ++v; u->baseLinearVelocity(k) = ++v; }
                    for (unsigned k = 0; k < 4; ++k) u->baseQuaternionDerivative(k) = ++v;
                    s->worldToBaseTransform = iDynTree::Transform(iDynTree::Rotation::RPY(0.1, 0.2, 0.3), iDynTree::Position(1, 2, 3));
                    for (unsigned k = 0; k < s->jointsConfiguration.size(); ++k) { s->jointsConfiguration(k) = ++v; u->jointsVelocity(k) = ++v; }
                    s->time = u->time = ++v;
                } else if (o == 7) { s.reset(new State(*s)); u.reset(new Control(*u)); h += "copy; "; }
                else { State t(4, 2); t = *s; *s = t; Control z(4, 2); z = *u; *u = z; h += "assign; "; }
                R.transitions();
                R.check(s->leftContactPointsState.size() == p && s->rightContactPointsState.size() == p && s->jointsConfiguration.size() == n, "state-size", "after " + h);
                R.check(u->leftContactPointsControl.size() == p && u->rightContactPointsControl.size() == p && u->jointsVelocity.size() == n, "control-size", "after " + h);
                for (size_t a1 = 0; a1 < 6; ++a1) for (size_t b1 = 0; b1 < 6; ++b1) {
                    bool e = a1 == n && b1 == p;
                    R.check(s->checkSize(a1, b1) == e && u->checkSize(a1, b1) == e, "check-size", "checkSize(" + std::to_string(a1) + "," + std::to_string(b1) + ") after " + h);
                    State t; Control v; t.resize(a1, b1); v.resize(a1, b1);
                    R.check(s->sameSize(t) == e && t.sameSize(*s) == e && u->sameSize(v) == e && v.sameSize(*u) == e, "same-size", "sameSize with (" + std::to_string(a1) + "," + std::to_string(b1) + ") after " + h);
                    if (b1 && a1 == n) { t.rightContactPointsState.pop_back(); v.rightContactPointsControl.pop_back(); R.check(!t.sameSize(*s) || (p == b1 && false), "same-size", "different right foot, after " + h); R.check(!v.sameSize(*u), "same-size", "different right foot (control), after " + h); R.check(!t.checkSize(a1, b1) && !v.checkSize(a1, b1), "check-size", "right foot after " + h); }
                    if (b1 && a1 == n) { State t2; Control v2; t2.resize(a1, b1); v2.resize(a1, b1); t2.leftContactPointsState.pop_back(); v2.leftContactPointsControl.pop_back(); R.check(!t2.sameSize(*s) && !v2.sameSize(*u) && !t2.checkSize(a1, b1) && !v2.checkSize(a1, b1), "same-size", "different left foot after " + h); }
                }
                R.evals();
            }
            R.states();
        }
    });
}
static void feet(mc::Runner& R) {
    // all placements of points/forces on a small grid
    std::vector<V3> pos = {{0, 0, 0}, {1, 0.5, 0}, {-0.5, 1, 0.25}, {0.25, -2, 1}};
    std::vector<double> mag = {0, 1, 2, 5};
    std::vector<V3> dirs = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 2, 0.5}, {0.3, -1, 0}};
    for (size_t np = 1; np <= (R.thorough() ? 4u : 3u); ++np) for (int pl = 0; pl < 4; ++pl) R.run("feet points " + std::to_string(np) + " first " + std::to_string(pl), [&] {
        uint64_t tot = 1; for (size_t i = 1; i < 2 * np; ++i) tot *= pos.size();
        if (tot > 70000) tot = 70000;
        for (uint64_t c = 0; c < tot; ++c) {
            State s(1, np);
            uint64_t x = c * 1; V3 sl = {0, 0, 0}, sr = {0, 0, 0};
            uint64_t f = c * 2654435761u;
            std::vector<double> fl, fr;
            for (size_t i = 0; i < 2 * np; ++i) {
                int k = i == 0 ? pl : int(x % pos.size()); if (i) x /= pos.size();
                double m = mag[(f >> (2 * i)) % 4];
                auto& pt = i < np ? s.leftContactPointsState[i] : s.rightContactPointsState[i - np];
                static const V3 FD[4] = {{0, 0, 1}, {1, 0, 0}, {0, -0.6, 0.8}, {0, 0, -1}};
                const V3& d = FD[(i + c) % 4];
                for (unsigned q = 0; q < 3; ++q) { pt.pointPosition(q) = pos[k][q]; pt.pointForce(q) = m * d[q]; (i < np ? sl : sr)[q] += pos[k][q]; }
                (i < np ? fl : fr).push_back(m);
            }
            auto cen = s.computeFeetCentroid();
            std::string w = " (placement " + std::to_string(c) + ", " + std::to_string(np) + " points per foot)";
            for (unsigned q = 0; q < 3; ++q) R.check(std::fabs(cen(q) - (sl[q] + sr[q]) / (2.0 * np)) < 1e-12, "centroid", "coordinate " + std::to_string(q) + " is " + mc::num(cen(q)) + " expected " + mc::num((sl[q] + sr[q]) / (2.0 * np)) + w);
            for (auto& d : dirs) {
                iDynTree::Vector3 v; double dot = 0; for (unsigned q = 0; q < 3; ++q) { v(q) = d[q]; dot += d[q] * (sl[q] - sr[q]) / np; }
                if (std::fabs(dot) < 1e-9 && dot != 0) continue;
                bool rounding = std::fabs(dot) < 1e-9;
                bool lf = s.leftIsForward(v);
                if (!rounding) R.check(lf == (dot > 0), "forward-foot", "left is forward: " + std::to_string(lf) + ", difference along the direction " + mc::num(dot) + w);
                double e = *std::min_element((lf ? fl : fr).begin(), (lf ? fl : fr).end());
                double m = s.minimumPointForceOnForwardFoot(v);
                R.check(std::fabs(m - e) < 1e-9, "minimum-force", "minimum force on the forward foot is " + mc::num(m) + " expected " + mc::num(e) + w);
                R.evals();
            }
            State u(1, np); // uneven feet
            R.states(); R.transitions();
        }
        State un(0, 0); auto z = un.computeFeetCentroid(); for (unsigned q = 0; q < 3; ++q) R.check(z(q) == 0, "centroid", "no points");
        State uneven(1, np); uneven.rightContactPointsState.clear(); for (size_t i = 0; i < np; ++i) uneven.leftContactPointsState[i].pointPosition(0) = double(i + 1);
        R.check(std::fabs(uneven.computeFeetCentroid()(0) - (np + 1) / 2.0) < 1e-12, "centroid", "uneven feet");
    });
}
static Settings settingsFor(const iDynTree::Model& m, int variant) {
    SettingsStruct s = Settings::Defaults(m);
    if (variant == 1) { s.floatingBaseName = "chest"; }
    if (variant == 2) { s.leftFrameName = "r_sole"; s.rightFrameName = "l_sole"; std::swap(s.leftPointsPosition, s.rightPointsPosition); }
    return Settings(s);
}
static V3 pointOf(const iDynTree::Transform& t, const iDynTree::Position& p) { V3 o; for (unsigned k = 0; k < 3; ++k) { o[k] = t.getPosition()(k); for (unsigned j = 0; j < 3; ++j) o[k] += t.getRotation()(k, j) * p(j); } return o; }
static void robot(mc::Runner& R) {
    std::vector<double> jv = {-0.4, 0.0, 0.5};
    for (int variant = 0; variant < 3; ++variant) for (int joints = 0; joints < 243; ++joints) {
        if (!R.thorough() && joints % 4 != variant) continue;
        R.run("robot joints " + std::to_string(joints) + " settings " + std::to_string(variant), [&] {
            const auto& model = mc::biped();
            Settings set = settingsFor(model, variant);
            R.check(set.isValid(), "settings", "");
            const auto& st = set.getSettings();
            iDynTree::VectorDynSize q(5); int x = joints; for (unsigned j = 0; j < 5; ++j) { q(j) = jv[x % 3] + 0.01 * j; x /= 3; }
            iDynTree::Vector3 g; g.zero(); g(2) = -9.81;
            std::string w = " (joints " + q.toString() + ", settings " + std::to_string(variant) + ")";
            // default initial state
            RectangularFoot lf, rf;
            double d = 0.08, l = 0.188;
            lf.setFoot(l, d, iDynTree::Position(0.125, 0.04, 0.0)); rf.setFoot(l, d, iDynTree::Position(0.125, 0.04, 0.0));
            State s(1, 1); s.time = 5;
            R.check(Utilities::FillDefaultInitialState(set, q, lf, rf, s), "default-state-refused", w);
            R.check(s.checkSize(5, 4), "default-state-size", w);
            iDynTree::KinDynComputations kd; kd.loadRobotModel(model); kd.setFloatingBase(st.floatingBaseName);
            R.check(kd.setRobotState(s.worldToBaseTransform, s.jointsConfiguration, iDynTree::Twist::Zero(), iDynTree::VectorDynSize(5), g), "kinematics", w);
            R.check(s.time == 0, "default-state", "time" + w);
            for (unsigned j = 0; j < 5; ++j) R.check(s.jointsConfiguration(j) == q(j), "default-state", "joints" + w);
            for (unsigned j = 0; j < 6; ++j) R.check(std::fabs(s.momentumInCoM(j)) < 1e-9, "default-state", "momentum " + mc::num(s.momentumInCoM(j)) + w);
            auto T = kd.getWorldTransform(st.leftFrameName), Tr = kd.getWorldTransform(st.rightFrameName);
            auto com = kd.getCenterOfMassPosition();
            for (unsigned k = 0; k < 3; ++k) {
                R.check(std::fabs(T.getPosition()(k)) < 1e-9, "default-state", "the left sole is not at the world origin" + w);
                for (unsigned j = 0; j < 3; ++j) R.check(std::fabs(T.getRotation()(k, j) - (k == j)) < 1e-9, "default-state", "the left sole is not aligned with the world" + w);
                R.check(std::fabs(com(k) - s.comPosition(k)) < 1e-9, "default-state", "centre of mass coordinate " + std::to_string(k) + " " + mc::num(s.comPosition(k)) + " but the configuration gives " + mc::num(com(k)) + w);
            }
            double mass = 0; for (size_t i = 0; i < model.getNrOfLinks(); ++i) mass += model.getLink(i)->getInertia().getMass();
            double W = mass * 9.81, dl = std::fabs(com(1) - T.getPosition()(1)), dr = std::fabs(com(1) - Tr.getPosition()(1));
            double fl = W * dr / (dr + dl), fr = W - fl;
            for (int foot = 0; foot < 2; ++foot) {
                auto& pts = foot ? s.rightContactPointsState : s.leftContactPointsState;
                auto& ref = foot ? st.rightPointsPosition : st.leftPointsPosition;
                const auto& tf = foot ? Tr : T;
                double F = 0; double fx = 0, fy = 0;
                for (int i = 0; i < 4; ++i) {
                    V3 e = pointOf(tf, ref[i]);
                    for (unsigned k = 0; k < 3; ++k) R.check(std::fabs(pts[i].pointPosition(k) - e[k]) < 1e-9, "default-state-points", std::string(foot ? "right" : "left") + " point " + std::to_string(i) + w);
                    F += pts[i].pointForce(2); fx += pts[i].pointForce(0); fy += pts[i].pointForce(1);
                }
                R.check(std::fabs(F - (foot ? fr : fl)) < 1e-4, "default-state-forces", std::string(foot ? "right" : "left") + " normal force " + mc::num(F) + " expected " + mc::num(foot ? fr : fl) + w);
                R.check(std::fabs(fx) < 1e-4 && std::fabs(fy) < 1e-4, "default-state-forces", "tangential force" + w);
            }
            R.evals(); R.transitions();
            // lowering/raising the robot onto the ground
            for (double z : {-2.5, -0.3, -1e-6, 0.0, 1e-9, 0.2, 0.45, 3.0}) for (int rot = 0; rot < 3; ++rot) {
                State t = s;
                t.worldToBaseTransform = iDynTree::Transform(rot == 0 ? iDynTree::Rotation::Identity() : iDynTree::Rotation::RPY(0.2 * rot, -0.15 * rot, 0.9 * rot), iDynTree::Position(0.3, -0.2, z));
                State b = t;
                std::string ww = " base height " + mc::num(z) + " orientation " + std::to_string(rot) + w;
                R.check(Utilities::SetMinContactPointToZero(set, t), "ground-refused", ww);
                kd.setRobotState(t.worldToBaseTransform, t.jointsConfiguration, iDynTree::Twist::Zero(), iDynTree::VectorDynSize(5), g);
                double mn = 1e9;
                for (int foot = 0; foot < 2; ++foot) for (int i = 0; i < 4; ++i) {
                    V3 e = pointOf(kd.getWorldTransform(foot ? st.rightFrameName : st.leftFrameName), (foot ? st.rightPointsPosition : st.leftPointsPosition)[i]);
                    auto& pt = (foot ? t.rightContactPointsState : t.leftContactPointsState)[i];
                    for (unsigned k = 0; k < 3; ++k) R.check(std::fabs(pt.pointPosition(k) - e[k]) < 1e-7, "ground-points", "point " + std::to_string(i) + " of foot " + std::to_string(foot) + " is not where the kinematics puts it" + ww);
                    for (unsigned k = 0; k < 3; ++k) R.check(pt.pointForce(k) == (foot ? b.rightContactPointsState : b.leftContactPointsState)[i].pointForce(k), "ground-side-effect", "force" + ww);
                    mn = std::min(mn, e[2]);
                }
                R.check(std::fabs(mn) < 1e-7, "ground-height", "the lowest contact point is at height " + mc::num(mn) + ww);
                auto c2 = kd.getCenterOfMassPosition();
                for (unsigned k = 0; k < 3; ++k) {
                    R.check(std::fabs(c2(k) - t.comPosition(k)) < 1e-7, "ground-com", "centre of mass" + ww);
                    if (k < 2) R.check(t.worldToBaseTransform.getPosition()(k) == b.worldToBaseTransform.getPosition()(k), "ground-side-effect", "the base moved horizontally" + ww);
                    for (unsigned j = 0; j < 3; ++j) R.check(t.worldToBaseTransform.getRotation()(k, j) == b.worldToBaseTransform.getRotation()(k, j), "ground-side-effect", "the base rotated" + ww);
                }
                for (unsigned j = 0; j < 5; ++j) R.check(t.jointsConfiguration(j) == b.jointsConfiguration(j), "ground-side-effect", "joints" + ww);
                for (unsigned j = 0; j < 6; ++j) R.check(t.momentumInCoM(j) == b.momentumInCoM(j), "ground-side-effect", "momentum" + ww);
                R.check(t.time == b.time, "ground-side-effect", "time" + ww);
                R.evals(); R.states(); R.transitions();
            }
            State keep = s; Settings bad;
            R.check(!Utilities::SetMinContactPointToZero(bad, keep) && !Utilities::FillDefaultInitialState(bad, q, lf, rf, keep), "invalid-settings-accepted", w);
        });
    }
}
class Ref : public iDynTree::optimalcontrol::TimeVaryingVector {
    iDynTree::VectorDynSize v;
public:
    Ref() : v(3) {}
    static V3 at(double t) { return {1 + t, -2 * t, 0.5 + 0.25 * t * t}; }
    const iDynTree::VectorDynSize& get(double t, bool& ok) override { V3 x = at(t); for (unsigned k = 0; k < 3; ++k) v(k) = x[k]; ok = t >= -1; return v; }
};
static void guesses(mc::Runner& R) {
    std::vector<double> T = {0, 0.5, 2, -0.5, 1, -3};
    int depth = R.thorough() ? 6 : 4;
    for (size_t np = 0; np < 4; ++np) for (size_t first = 0; first < T.size(); ++first) R.run("guess histories points " + std::to_string(np) + " first " + mc::num(T[first]), [&] {
        uint64_t tot = 1; for (int i = 1; i < depth; ++i) tot *= T.size();
        State s0(2, np);
        double v = 0.1;
        for (auto* w : {&s0.leftContactPointsState, &s0.rightContactPointsState}) for (auto& e : *w) for (unsigned k = 0; k < 3; ++k) { e.pointForce(k) = v += 0.3; e.pointPosition(k) = v += 0.7; }
        for (unsigned k = 0; k < 6; ++k) s0.momentumInCoM(k) = v += 1;
        for (unsigned k = 0; k < 3; ++k) s0.comPosition(k) = v += 0.2;
        s0.worldToBaseTransform = iDynTree::Transform(iDynTree::Rotation::RPY(0.3, 0.1, -0.7), iDynTree::Position(0.4, 0.5, 0.6));
        s0.jointsConfiguration(0) = 0.3; s0.jointsConfiguration(1) = -0.8; s0.time = 9;
        for (uint64_t c = 0; c < tot; ++c) {
            Utilities::TranslatingCoMStateGuess g(std::make_shared<Ref>(), s0);
            uint64_t x = c;
            for (int i = 0; i < depth; ++i) {
                double t = i == 0 ? T[first] : T[x % T.size()]; if (i) x /= T.size();
                bool ok = false;
                State& s = g.get(t, ok);
                V3 r = Ref::at(t);
                std::string w = " at t=" + mc::num(t) + " (history " + std::to_string(c) + " step " + std::to_string(i) + ")";
                R.check(ok == (t >= -1), "guess-validity", "guess flagged " + std::string(ok ? "valid" : "invalid") + w);
                R.transitions();
                if (!ok) continue;
                R.check(s.checkSize(2, np) && s.time == t, "guess", "size or time" + w);
                for (unsigned k = 0; k < 3; ++k) {
                    double dlt = r[k] - s0.comPosition(k);
                    R.check(std::fabs(s.comPosition(k) - r[k]) < 1e-12, "guess-com", "" + w);
                    R.check(std::fabs(s.worldToBaseTransform.getPosition()(k) - s0.worldToBaseTransform.getPosition()(k) - dlt) < 1e-12, "guess-base", "base coordinate " + std::to_string(k) + w);
                    for (unsigned j = 0; j < 3; ++j) R.check(s.worldToBaseTransform.getRotation()(k, j) == s0.worldToBaseTransform.getRotation()(k, j), "guess-base", "rotation" + w);
                    for (size_t i2 = 0; i2 < np; ++i2) {
                        R.check(std::fabs(s.leftContactPointsState[i2].pointPosition(k) - s0.leftContactPointsState[i2].pointPosition(k) - dlt) < 1e-12 && std::fabs(s.rightContactPointsState[i2].pointPosition(k) - s0.rightContactPointsState[i2].pointPosition(k) - dlt) < 1e-12, "guess-points", "point " + std::to_string(i2) + w);
                        R.check(s.leftContactPointsState[i2].pointForce(k) == s0.leftContactPointsState[i2].pointForce(k) && s.rightContactPointsState[i2].pointForce(k) == s0.rightContactPointsState[i2].pointForce(k), "guess-forces", w);
                    }
                }
                for (unsigned j = 0; j < 6; ++j) R.check(s.momentumInCoM(j) == 0, "guess-momentum", w);
                for (unsigned j = 0; j < 2; ++j) R.check(s.jointsConfiguration(j) == s0.jointsConfiguration(j), "guess-joints", w);
                R.evals();
                // the answer is handed out as a modifiable state: what the caller does to it must not leak into the next answer
                if ((c + i) % 2) {
                    s.time = 55;
                    for (unsigned k = 0; k < 3; ++k) s.comPosition(k) = -7;
                    s.worldToBaseTransform = iDynTree::Transform(iDynTree::Rotation::RPY(1, -1, 1), iDynTree::Position(8, 8, 8));
                    s.jointsConfiguration(0) = 5; s.jointsConfiguration(1) = 6;
                    for (unsigned k = 0; k < 6; ++k) s.momentumInCoM(k) = 3;
                    for (auto* q : {&s.leftContactPointsState, &s.rightContactPointsState}) for (auto& e : *q) for (unsigned k = 0; k < 3; ++k) e.pointPosition(k) = 44;
                }
            }
            R.states();
        }
    });
    R.run("exponential weights", [&] {
        for (double a : {0.0, 1.0, -2.5}) for (double b : {0.0, 1.5, -3.0}) for (double c : {0.0, 4.0}) for (double d : {0.0, 0.7}) {
            Utilities::ExponentialWeight w(a, b, c, d);
            for (int rep = 0; rep < 2; ++rep) for (double t : {1.0, 0.0, -0.5, 2.0, 0.7}) { bool ok = false; double v = w.get(t, ok); double e = a * std::exp(b * (t - d)) + c; R.check(ok && std::fabs(v - e) < 1e-12 * (1 + std::fabs(e)), "exponential-weight", mc::num(v) + " expected " + mc::num(e)); R.evals(); }
        }
        R.states();
    });
}
static void explore(mc::Runner& R) {
    R.rule = "all resize/zero/write/copy histories up to a depth on state and control containers; all placements of contact points on a grid for the feet queries; initial-state utilities over a grid of joint configurations, base poses and settings, judged by forward kinematics; all query histories on the state guess; exponential weights on a grid";
    R.stateWord = "histories, placements and robot configurations";
    R.assumptions = {"iDynTree's own forward kinematics is the reference for robot poses"};
    containers(R); feet(R); guesses(R); robot(R);
}
int main(int argc, char** argv) { mc::Runner R; return R.main(argc, argv, "V18", explore); }
