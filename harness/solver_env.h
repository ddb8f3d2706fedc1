// The public entry point of the planner (Settings -> Solver -> optimizer), driven through a scripted optimizer, with an independent
// statement of the nonlinear programme those settings ask for. Shared by V14, V15 and V24.
// The layout of the optimizer's variables is not assumed: it is read off a guess whose every entry is coded with its own identity and time.
#pragma once
#include "components.h"
#include <DynamicalPlanner/Solver.h>
#include <iDynTree/Optimizer.h>
#include <iDynTree/OptimizationProblem.h>
#include <iDynTree/Integrators/ForwardEuler.h>
#include <iDynTree/Integrators/ImplicitTrapezoidal.h>
namespace mc {
using DynamicalPlanner::State; using DynamicalPlanner::Control; using DynamicalPlanner::Settings; using DynamicalPlanner::SettingsStruct; using DynamicalPlanner::Solver;
using DynamicalPlanner::ComplementarityType; using DynamicalPlanner::PlanarComplementarityType;
namespace op = iDynTree::optimization;

// ---------------------------------------------------------------- the names and sizes of the variables of the planner
struct Names {
    unsigned n = 0; size_t np = 0; int nx = 0, nu = 0;
    std::map<std::string, std::pair<int, int>> x, u;
    Names() {}
    Names(unsigned dofs, size_t points) : n(dofs), np(points) {
        auto X = [&](const std::string& s, int k) { x[s] = {nx, k}; nx += k; }; auto U = [&](const std::string& s, int k) { u[s] = {nu, k}; nu += k; };
        for (const char* s : {"Left", "Right"}) for (size_t i = 0; i < np; ++i) { std::string ix = std::to_string(i); X(s + ("Force" + ix), 3); X(s + ("Position" + ix), 3); U(s + ("Velocity" + ix), 3); U(s + ("ForceDerivative" + ix), 3); }
        X("Momentum", 6); X("CoM", 3); X("BasePosition", 3); X("BaseQuaternion", 4); X("Joints", int(n)); U("BaseVelocity", 3); U("BaseQuaternionVelocity", 4); U("JointsVelocity", int(n));
    }
    static const std::pair<int, int>& at(const std::map<std::string, std::pair<int, int>>& m, const std::string& k) { auto i = m.find(k); if (i == m.end()) { fprintf(stderr, "harness: %s\n", k.c_str()); _exit(9); } return i->second; }
    Vec xv(const Pt& p, const std::string& k) const { auto& r = at(x, k); return p.x.segment(r.first, r.second); }
    Vec uv(const Pt& p, const std::string& k) const { auto& r = at(u, k); return p.u.segment(r.first, r.second); }
    std::string xname(int i) const { for (auto& q : x) if (i >= q.second.first && i < q.second.first + q.second.second) return q.first + "[" + std::to_string(i - q.second.first) + "]"; return "?"; }
    std::string uname(int i) const { for (auto& q : u) if (i >= q.second.first && i < q.second.first + q.second.second) return q.first + "[" + std::to_string(i - q.second.first) + "]"; return "?"; }

    State state(const Vec& v, double t) const {
        State s(n, np); s.zero(); Pt p; p.x = v; s.time = t;
        for (int sd = 0; sd < 2; ++sd) for (size_t i = 0; i < np; ++i) { auto& c = sd ? s.rightContactPointsState[i] : s.leftContactPointsState[i]; Vec f = xv(p, (sd ? "RightForce" : "LeftForce") + std::to_string(i)), q = xv(p, (sd ? "RightPosition" : "LeftPosition") + std::to_string(i)); for (unsigned k = 0; k < 3; ++k) { c.pointForce(k) = f(k); c.pointPosition(k) = q(k); } }
        Vec m = xv(p, "Momentum"), c = xv(p, "CoM"), b = xv(p, "BasePosition"), q = xv(p, "BaseQuaternion"), j = xv(p, "Joints");
        for (unsigned k = 0; k < 6; ++k) s.momentumInCoM(k) = m(k);
        for (unsigned k = 0; k < 3; ++k) s.comPosition(k) = c(k);
        for (unsigned k = 0; k < n; ++k) s.jointsConfiguration(k) = j(k);
        Eigen::Matrix3d R = rotation(q); iDynTree::Rotation r(R(0, 0), R(0, 1), R(0, 2), R(1, 0), R(1, 1), R(1, 2), R(2, 0), R(2, 1), R(2, 2));
        s.worldToBaseTransform = iDynTree::Transform(r, iDynTree::Position(b(0), b(1), b(2)));
        return s;
    }
    Control control(const Vec& v, double t) const {
        Control c(n, np); Pt p; p.u = v; c.time = t;
        for (int sd = 0; sd < 2; ++sd) for (size_t i = 0; i < np; ++i) { auto& k = sd ? c.rightContactPointsControl[i] : c.leftContactPointsControl[i]; Vec f = uv(p, (sd ? "RightForceDerivative" : "LeftForceDerivative") + std::to_string(i)), q = uv(p, (sd ? "RightVelocity" : "LeftVelocity") + std::to_string(i)); for (unsigned d = 0; d < 3; ++d) { k.pointForceControl(d) = f(d); k.pointVelocityControl(d) = q(d); } }
        Vec b = uv(p, "BaseVelocity"), q = uv(p, "BaseQuaternionVelocity"), j = uv(p, "JointsVelocity");
        for (unsigned d = 0; d < 3; ++d) c.baseLinearVelocity(d) = b(d);
        for (unsigned d = 0; d < 4; ++d) c.baseQuaternionDerivative(d) = q(d);
        for (unsigned d = 0; d < n; ++d) c.jointsVelocity(d) = j(d);
        return c;
    }
    static Eigen::Matrix3d rotation(const Vec& q) { return Eigen::Quaterniond(q(0), q(1), q(2), q(3)).normalized().toRotationMatrix(); }
    Vec flat(const State& s) const {      // the quaternion of non negative real part
        Vec v = Vec::Zero(nx); auto put = [&](const std::string& k, int i, double d) { v(at(x, k).first + i) = d; };
        for (int sd = 0; sd < 2; ++sd) for (size_t i = 0; i < np; ++i) { auto& c = sd ? s.rightContactPointsState.at(i) : s.leftContactPointsState.at(i); for (int k = 0; k < 3; ++k) { put((sd ? "RightForce" : "LeftForce") + std::to_string(i), k, c.pointForce(unsigned(k))); put((sd ? "RightPosition" : "LeftPosition") + std::to_string(i), k, c.pointPosition(unsigned(k))); } }
        for (int k = 0; k < 6; ++k) put("Momentum", k, s.momentumInCoM(unsigned(k)));
        for (int k = 0; k < 3; ++k) { put("CoM", k, s.comPosition(unsigned(k))); put("BasePosition", k, s.worldToBaseTransform.getPosition()(unsigned(k))); }
        Eigen::Quaterniond q(Fixture::rot(s.worldToBaseTransform.getRotation())); double sg = q.w() < 0 ? -1 : 1; put("BaseQuaternion", 0, sg * q.w()); put("BaseQuaternion", 1, sg * q.x()); put("BaseQuaternion", 2, sg * q.y()); put("BaseQuaternion", 3, sg * q.z());
        for (unsigned k = 0; k < n; ++k) put("Joints", int(k), s.jointsConfiguration(k));
        return v;
    }
    Vec flat(const Control& c) const {
        Vec v = Vec::Zero(nu); auto put = [&](const std::string& k, int i, double d) { v(at(u, k).first + i) = d; };
        for (int sd = 0; sd < 2; ++sd) for (size_t i = 0; i < np; ++i) { auto& p = sd ? c.rightContactPointsControl.at(i) : c.leftContactPointsControl.at(i); for (int k = 0; k < 3; ++k) { put((sd ? "RightForceDerivative" : "LeftForceDerivative") + std::to_string(i), k, p.pointForceControl(unsigned(k))); put((sd ? "RightVelocity" : "LeftVelocity") + std::to_string(i), k, p.pointVelocityControl(unsigned(k))); } }
        for (int k = 0; k < 3; ++k) put("BaseVelocity", k, c.baseLinearVelocity(unsigned(k)));
        for (int k = 0; k < 4; ++k) put("BaseQuaternionVelocity", k, c.baseQuaternionDerivative(unsigned(k)));
        for (unsigned k = 0; k < n; ++k) put("JointsVelocity", int(k), c.jointsVelocity(k));
        return v;
    }
    bool fits(const State& s) const { return s.leftContactPointsState.size() == np && s.rightContactPointsState.size() == np && s.jointsConfiguration.size() == n; }
    bool fits(const Control& s) const { return s.leftContactPointsControl.size() == np && s.rightContactPointsControl.size() == np && s.jointsVelocity.size() == n; }
    // values that name themselves: entry k of the state at time t is k + 2 + t / 1000, of the control 1000 + k + t / 1000
    Vec codedQuaternion(double t, double shift) const { Eigen::Quaterniond q = Eigen::AngleAxisd(0.3 + 0.31 * t + shift, Eigen::Vector3d(0.3, -0.5, 0.8).normalized()) * Eigen::AngleAxisd(0.2 + 0.17 * t, Eigen::Vector3d::UnitX()); if (q.w() < 0) q.coeffs() *= -1; Vec v(4); v << q.w(), q.x(), q.y(), q.z(); return v; }
    Vec codedState(double t, bool initial) const { Vec v(nx); for (int k = 0; k < nx; ++k) v(k) = k + 2 + t * 1e-3 + (initial ? 0.5 : 0); auto& q = at(x, "BaseQuaternion"); v.segment(q.first, 4) = codedQuaternion(t, initial ? 0.05 : 0); return v; }
    Vec codedControl(double t) const { Vec v(nu); for (int k = 0; k < nu; ++k) v(k) = 1000 + k + t * 1e-3; return v; }
    // an ordinary point, different for each seed
    Pt generic(int seed, double t) const {
        Pt p; p.x.resize(nx); p.u.resize(nu); p.t = t; double z = 0.29 + 0.137 * seed; auto nxt = [&] { z = std::fmod(z * 3.7 + 0.61, 2.0); return z - 1.0; };
        for (int k = 0; k < nx; ++k) p.x(k) = 0.5 * nxt();
        for (int k = 0; k < nu; ++k) p.u(k) = nxt();
        for (int sd = 0; sd < 2; ++sd) for (size_t i = 0; i < np; ++i) { int f = at(x, (sd ? "RightForce" : "LeftForce") + std::to_string(i)).first, q = at(x, (sd ? "RightPosition" : "LeftPosition") + std::to_string(i)).first; p.x(f) *= 4; p.x(f + 1) *= 4; p.x(f + 2) = 6 + 4 * nxt(); p.x(q + 2) = 0.06 + 0.05 * nxt(); }
        auto& q = at(x, "BaseQuaternion"); p.x(q.first) += 1.5; if (seed % 2 == 0) p.x.segment(q.first, 4).normalize();
        return p;
    }
};

struct GuessX : DynamicalPlanner::TimeVaryingState { Names nm; std::vector<double> asked; State v; GuessX(const Names& k) : nm(k) {} const State& get(double t, bool& ok) override { ok = true; asked.push_back(t); v = nm.state(nm.codedState(t, false), t); return v; } };
struct GuessU : DynamicalPlanner::TimeVaryingControl { Names nm; Control v; GuessU(const Names& k) : nm(k) {} const Control& get(double t, bool& ok) override { ok = true; v = nm.control(nm.codedControl(t), t); return v; } };

// ---------------------------------------------------------------- the layout of the variables of the optimizer
struct Mesh { double t = 0; std::vector<int> x, u; bool own = false; int uFrom = -1; };   // u: the control that acts at this instant
struct Layout {
    std::vector<Mesh> m; unsigned nv = 0;
    static Layout discover(const VectorDynSize& g, const Names& nm, double t0) {
        Layout L; L.nv = g.size(); struct D { int var; double t; int kind; int k; }; std::vector<D> d; std::vector<int> quat;
        for (int i = 0; i < int(g.size()); ++i) {
            double v = g(unsigned(i));
            if (!(v >= 1.5)) { quat.push_back(i); continue; }
            if (v < 999.5) { int k = int(std::floor(v + 1e-6)) - 2; double f = v - (k + 2); bool ini = f > 0.4; d.push_back({i, ini ? t0 : f * 1e3, ini ? 2 : 0, k}); if (ini && std::fabs((f - 0.5) * 1e3 - t0) > 1e-6) throw Violation{"guess-time", "the initial value of variable " + std::to_string(i) + " of the optimizer is that of the initial state at another time"}; }
            else { int k = int(std::floor(v - 1000 + 1e-6)); d.push_back({i, (v - 1000 - k) * 1e3, 1, k}); }
        }
        std::vector<double> ts; for (auto& q : d) { bool in = false; for (double t : ts) in = in || std::fabs(t - q.t) < 1e-6; if (!in) ts.push_back(q.t); }
        std::sort(ts.begin(), ts.end()); L.m.resize(ts.size()); std::vector<int> initial(ts.size(), 0);
        for (size_t i = 0; i < ts.size(); ++i) { L.m[i].t = ts[i]; L.m[i].x.assign(size_t(nm.nx), -1); L.m[i].u.assign(size_t(nm.nu), -1); }
        auto find = [&](double t) { for (size_t i = 0; i < ts.size(); ++i) if (std::fabs(ts[i] - t) < 1e-6) return i; return size_t(0); };
        auto put = [&](std::vector<int>& w, int k, int var) { if (k < 0 || k >= int(w.size()) || w[size_t(k)] >= 0) throw Violation{"guess-layout", "the guess handed to the optimizer is not the transcription of the given one: variable " + std::to_string(var) + " starts from " + num(g(unsigned(var)))}; w[size_t(k)] = var; };
        for (auto& q : d) { Mesh& m = L.m[find(q.t)]; if (q.kind == 1) put(m.u, q.k, q.var); else { put(m.x, q.k, q.var); if (q.kind == 2) initial[find(q.t)]++; } }
        auto& qr = Names::at(nm.x, "BaseQuaternion");
        for (size_t i = 0; i < ts.size(); ++i) { Vec e = nm.codedQuaternion(ts[i], initial[i] ? 0.05 : 0); for (int k = 0; k < 4; ++k) for (int& v : quat) if (v >= 0 && (std::fabs(g(unsigned(v)) - e(k)) < 1e-8 || false)) { put(L.m[i].x, qr.first + k, v); v = -1; break; } }
        // the opposite quaternion stands for the same rotation
        for (size_t i = 0; i < ts.size(); ++i) for (int k = 0; k < 4; ++k) if (L.m[i].x[size_t(qr.first + k)] < 0) { Vec e = nm.codedQuaternion(ts[i], initial[i] ? 0.05 : 0); for (int& v : quat) if (v >= 0 && std::fabs(g(unsigned(v)) + e(k)) < 1e-8) { put(L.m[i].x, qr.first + k, v); v = -1; break; } }
        for (int v : quat) if (v >= 0) throw Violation{"guess-layout", "variable " + std::to_string(v) + " of the optimizer starts from " + num(g(unsigned(v))) + ", which is in neither guess"};
        int last = -1;
        for (size_t i = 0; i < L.m.size(); ++i) {
            for (int k = 0; k < nm.nx; ++k) if (L.m[i].x[size_t(k)] < 0) throw Violation{"guess-layout", "no variable of the optimizer starts from the guess of " + nm.xname(k) + " at time " + num(ts[i])};
            int cnt = 0; for (int v : L.m[i].u) cnt += v >= 0;
            if (cnt && cnt != nm.nu) throw Violation{"guess-layout", "only " + std::to_string(cnt) + " of the " + std::to_string(nm.nu) + " control guesses at time " + num(ts[i]) + " reach the optimizer"};
            if (cnt) { L.m[i].own = true; last = int(i); } else if (last >= 0) L.m[i].u = L.m[size_t(last)].u; else throw Violation{"guess-layout", "no control at the first instant"};
            L.m[i].uFrom = last;
        }
        return L;
    }
    Pt at(const Vec& v, size_t i) const { Pt p; p.t = m[i].t; p.x.resize(long(m[i].x.size())); p.u.resize(long(m[i].u.size())); for (size_t k = 0; k < m[i].x.size(); ++k) p.x(long(k)) = v(m[i].x[k]); for (size_t k = 0; k < m[i].u.size(); ++k) p.u(long(k)) = v(m[i].u[k]); return p; }
    Vec vector(const Names& nm, int seed) const { Vec v(long(nv) + 0); v.setZero(); for (size_t i = 0; i < m.size(); ++i) { Pt p = nm.generic(seed * 7 + int(i), m[i].t); for (size_t k = 0; k < m[i].x.size(); ++k) v(m[i].x[k]) = p.x(long(k)); if (m[i].own) for (size_t k = 0; k < m[i].u.size(); ++k) v(m[i].u[k]) = p.u(long(k)); } return v; }
    std::string name(const Names& nm, int var) const { for (auto& q : m) { for (size_t k = 0; k < q.x.size(); ++k) if (q.x[k] == var) return nm.xname(int(k)) + " at time " + num(q.t); if (q.own) for (size_t k = 0; k < q.u.size(); ++k) if (q.u[k] == var) return nm.uname(int(k)) + " at time " + num(q.t); } return "?"; }
};

// ---------------------------------------------------------------- the scripted optimizer
struct Scripted : op::Optimizer {
    double inf = 1e19; bool available = true; std::function<bool(op::OptimizationProblem&, Vec&)> body; Vec primal; int solves = 0; bool gives = true;
    bool isAvailable() const override { return available; }
    bool solve() override { ++solves; if (!m_problem) throw Violation{"optimizer-without-problem", "solve() reaches an optimizer that was given no problem"}; return body ? body(*m_problem, primal) : true; }
    bool getPrimalVariables(VectorDynSize& v) override { if (!gives) return false; v = Fixture::V(primal); return true; }
    double plusInfinity() override { return inf; }
    double minusInfinity() override { return -inf; }
};

// ---------------------------------------------------------------- settings
struct CostDef { const char* name; bool SettingsStruct::*active; double SettingsStruct::*weight; };
inline const std::vector<CostDef>& costDefs() {
    static const std::vector<CostDef> d = {
#define MC_COST(a, w) {#a, &SettingsStruct::a, &SettingsStruct::w}
        MC_COST(comCostActive, comCostOverallWeight), MC_COST(comVelocityCostActive, comVelocityCostOverallWeight), MC_COST(frameCostActive, frameCostOverallWeight), MC_COST(forceMeanCostActive, forceMeanCostOverallWeight), MC_COST(forceRatioCostActive, forceRatioCostOverallWeight), MC_COST(jointsRegularizationCostActive, jointsRegularizationCostOverallWeight), MC_COST(jointsVelocityCostActive, jointsVelocityCostOverallWeight), MC_COST(staticTorquesCostActive, staticTorquesCostOverallWeight), MC_COST(forceDerivativeCostActive, forceDerivativesCostOverallWeight), MC_COST(pointAccelerationCostActive, pointAccelerationCostOverallWeight), MC_COST(swingCostActive, swingCostOverallWeight), MC_COST(phantomForcesCostActive, phantomForcesCostOverallWeight), MC_COST(meanPointPositionCostActive, meanPointPositionCostOverallWeight), MC_COST(leftFootYawCostActive, leftFootYawCostOverallWeight), MC_COST(rightFootYawCostActive, rightFootYawCostOverallWeight), MC_COST(feetDistanceCostActive, feetDistanceCostOverallWeight), MC_COST(jointsVelocityForPosturalCostActive, jointsVelocityForPosturalCostOverallWeight), MC_COST(complementarityCostActive, complementarityCostOverallWeight), MC_COST(basePositionCostActive, basePositionCostOverallWeight), MC_COST(baseQuaternionCostActive, baseQuaternionCostOverallWeight), MC_COST(frameAngularVelocityCostActive, frameAngularVelocityCostOverallWeight), MC_COST(baseLinearVelocityCostActive, baseLinearVelocityCostOverallWeight), MC_COST(baseQuaternionVelocityCostActive, baseQuaternionVelocityCostOverallWeight), MC_COST(angularMomentumCostActive, angularMomentumCostOverallWeight)
#undef MC_COST
    };
    return d;
}
struct TvQuat : oc::TimeVaryingVector { VectorDynSize v; TvQuat() : v(4) {} Vec at(double t) const { Vec q(4); q << 0.9, 0.1 + 0.2 * t, -0.3, 0.2 - 0.1 * t; return q.normalized(); } const VectorDynSize& get(double t, bool& ok) override { ok = true; iDynTree::toEigen(v) = at(t); return v; } };

struct Range { bool any = true; double a = 0, b = 0; oc::TimeRange r() const { return any ? oc::TimeRange::AnyTime() : oc::TimeRange(a, b); } bool in(double t) const { return any || (t >= a - 1e-9 && t <= b + 1e-9); } };

// A planning problem: the settings and, beside them, what they mean.
struct Problem {
    iDynTree::Model model; Names nm; SettingsStruct s; double t0 = 0; double mass = 0;
    Range comRange, comVelRange, meanRange, baseRange, targetRange;
    bool euler = false;
    std::shared_ptr<TvVector> com, comVel, joints, jointsVel, forceDer, pointAcc, meanW, basePos, baseVel, baseQuatVel; std::shared_ptr<TvQuat> baseQuat; std::shared_ptr<TvPosition> mean; std::shared_ptr<TvDouble> frameW, yawL, yawR, tol; std::shared_ptr<TvRotation> rot;
    static Vec v3(double a, double b, double c) { Vec v(3); v << a, b, c; return v; }
    static std::shared_ptr<TvVector> tv(unsigned k, double z) { Vec a(k), b(k); for (unsigned i = 0; i < k; ++i) { a(i) = 0.2 * std::sin(z + 1.3 * i); b(i) = 0.4 * std::cos(2 * z + 0.7 * i); } return std::make_shared<TvVector>(a, b); }
    static VectorDynSize w(unsigned k, double z) { VectorDynSize v(k); for (unsigned i = 0; i < k; ++i) v(i) = z * (1 + 0.37 * i); return v; }

    // robot 0: five joints, three points per foot; 1: four joints, four points; 2: four joints, three other points
    Problem(int robot) {
        model = robot == 0 ? biped() : bipedReduced(); size_t np = robot == 1 ? 4 : 3; unsigned n = unsigned(model.getNrOfDOFs()); nm = Names(n, np);
        for (size_t l = 0; l < model.getNrOfLinks(); ++l) mass += model.getLink(iDynTree::LinkIndex(l))->getInertia().getMass();
        s = Settings::Defaults(model);
        for (auto& c : costDefs()) s.*(c.active) = false;
        for (size_t i = 0; i < costDefs().size(); ++i) s.*(costDefs()[i].weight) = 0.31 + 0.17 * double(i);
        std::vector<iDynTree::Position> all = {iDynTree::Position(-0.06, -0.03, 0.01), iDynTree::Position(0.11, -0.04, 0.0), iDynTree::Position(0.12, 0.035, -0.005), iDynTree::Position(-0.05, 0.03, 0.0)};
        s.leftPointsPosition.assign(all.begin(), all.begin() + long(np)); s.rightPointsPosition = s.leftPointsPosition; for (auto& q : s.rightPointsPosition) q = iDynTree::Position(q(0) * 1.1, q(1) * 0.9, q(2) + 0.003);
        if (robot == 2) { s.leftPointsPosition = {all[1], all[2], all[0]}; s.rightPointsPosition = {all[2], all[0], all[1]}; }
        s.desiredLeftRatios.clear(); s.desiredRightRatios.clear(); for (size_t i = 0; i < np; ++i) { s.desiredLeftRatios.push_back(0.2 + 0.1 * double(i)); s.desiredRightRatios.push_back(0.45 - 0.07 * double(i)); }
        s.leftFrameName = "l_sole"; s.rightFrameName = "r_sole"; s.frameForOrientationCost = "neck_2"; s.referenceFrameNameForFeetDistance = "r_sole"; s.otherFrameNameForFeetDistance = "l_sole"; s.floatingBaseName = "root_link";
        s.minimumDt = 0.1; s.maximumDt = 0.3; s.controlPeriod = 0.3; s.horizon = 0.9; s.activeControlPercentage = 1.0;
        s.complementarity = ComplementarityType::Classical; s.planarComplementarity = PlanarComplementarityType::Classical;
        for (unsigned i = 0; i < 3; ++i) { s.forceMaximumDerivative(i) = 40.0 + 7 * i; s.velocityMaximumDerivative(i) = 1.1 + 0.3 * i; }
        s.normalForceDissipationRatio = 11; s.normalForceHyperbolicSecantScaling = 23; s.complementarityDissipation = 12; s.dynamicComplementarityUpperBound = 0.05; s.classicalComplementarityTolerance = 0.013;
        s.frictionCoefficient = 0.45; s.planarVelocityHyperbolicTangentScaling = 7; s.normalVelocityHyperbolicSecantScaling = 3; s.classicalPlanarComplementarityTolerance = 0.017; s.indexOfLateralDirection = 1; s.minimumFeetDistance = 0.11; s.feetMaximumRelativeHeight = 0.07;
        s.comPositionConstraintTolerance = 0.06; s.centroidalMomentumConstraintTolerance = 0.04; s.quaternionModulusConstraintTolerance = 0.02; s.pointPositionConstraintTolerance = 0.05;
        s.minimumCoMHeight = 0.21; s.maximumAngularMomentum = 9;
        s.jointsLimits.clear(); s.jointsVelocityLimits.clear(); for (unsigned i = 0; i < n; ++i) { s.jointsLimits.push_back({-0.9 - 0.1 * i, 1.2 + 0.05 * i}); s.jointsVelocityLimits.push_back({-2.1 - 0.2 * i, 1.7 + 0.1 * i}); }
        s.constrainTargetCoMPosition = false; tol = std::make_shared<TvDouble>(0.02, 0.01); s.targetCoMPositionTolerance = tol;
        com = std::make_shared<TvVector>(v3(0.05, -0.02, 0.5), v3(0.3, 0.1, 0.02)); s.desiredCoMTrajectory = com; s.comWeights = w(3, 1.1);
        comVel = tv(3, 0.9); s.desiredCoMVelocityTrajectory = comVel; s.comVelocityWeights = w(3, 0.7);
        rot = std::make_shared<TvRotation>(0.3, 0.9); s.desiredRotationTrajectory = rot; frameW = std::make_shared<TvDouble>(1.4, -0.6); s.frameCostTimeVaryingWeight = frameW;
        joints = tv(n, 1.7); s.desiredJointsTrajectory = joints; s.jointsRegularizationWeights = w(n, 1.3); jointsVel = tv(n, 2.9); s.desiredJointsVelocityTrajectory = jointsVel; s.jointsVelocityCostWeights = w(n, 0.6); s.staticTorquesCostWeights = w(n, 0.9);
        forceDer = tv(3, 3.1); s.desiredForceDerivativeTrajectory = forceDer; s.forceDerivativeWeights = w(3, 0.8); pointAcc = tv(3, 4.4); s.desiredPointAccelerationTrajectory = pointAcc; s.pointAccelerationWeights = w(3, 1.4);
        s.desiredSwingHeight = 0.035; s.swingCostWeights(0) = 1.7; s.swingCostWeights(1) = 0.6; s.swingCostWeights(2) = 2.3;
        meanW = std::make_shared<TvVector>(v3(1, 2, 0.5), v3(0.5, -0.7, 1.5)); s.meanPointPositionCostTimeVaryingWeight = meanW; mean = std::make_shared<TvPosition>(Eigen::Vector3d(0.1, -0.2, 0.3), Eigen::Vector3d(0.4, 0.3, -0.2)); s.desiredMeanPointPosition = mean;
        yawL = std::make_shared<TvDouble>(0.2, 0.7); yawR = std::make_shared<TvDouble>(0.7, -0.4); s.desiredLeftFootYaw = yawL; s.desiredRightFootYaw = yawR;
        basePos = tv(3, 5.3); s.desiredBasePositionTrajectory = basePos; s.basePositionCostWeights = w(3, 1.2); baseQuat = std::make_shared<TvQuat>(); s.desiredBaseQuaternionTrajectory = baseQuat; s.rotationalPIDgain = 2.5;
        baseVel = tv(3, 6.1); s.desiredBaseLinearVelocityTrajectory = baseVel; s.baseLinearVelocityCostWeights = w(3, 0.55); baseQuatVel = tv(4, 7.7); s.desiredBaseQuaternionVelocityTrajectory = baseQuatVel;
        s.useConstraintsHessianRegularization = false; s.useCostsHessianRegularization = false; s.constraintsHessianRegularization = 0.0; s.costsHessianRegularization = 0.0;
        ranges();
    }
    void ranges() { s.comCostActiveRange = comRange.r(); s.comVelocityCostActiveRange = comVelRange.r(); s.meanPointPositionCostActiveRange = meanRange.r(); s.basePositionCostActiveRange = baseRange.r(); s.constrainTargetCoMPositionRange = targetRange.r(); }

    Vec xv(const Pt& p, const std::string& k) const { return nm.xv(p, k); }
    Vec uv(const Pt& p, const std::string& k) const { return nm.uv(p, k); }
    Vec pos(const Pt& p, int sd, size_t i) const { return xv(p, (sd ? "RightPosition" : "LeftPosition") + std::to_string(i)); }
    Vec force(const Pt& p, int sd, size_t i) const { return xv(p, (sd ? "RightForce" : "LeftForce") + std::to_string(i)); }
    Vec vel(const Pt& p, int sd, size_t i) const { return uv(p, (sd ? "RightVelocity" : "LeftVelocity") + std::to_string(i)); }
    Vec fder(const Pt& p, int sd, size_t i) const { return uv(p, (sd ? "RightForceDerivative" : "LeftForceDerivative") + std::to_string(i)); }
    Eigen::Vector3d gravity() const { return Eigen::Vector3d(s.gravity(0), s.gravity(1), s.gravity(2)); }
    RobotState rs(const Pt& p) const {
        RobotState r; r.s.resize(nm.n); r.s_dot.resize(nm.n); Vec b = xv(p, "BasePosition"), q = xv(p, "BaseQuaternion"), j = xv(p, "Joints"), v = uv(p, "BaseVelocity"), wq = uv(p, "BaseQuaternionVelocity"), jd = uv(p, "JointsVelocity");
        for (unsigned i = 0; i < 3; ++i) { r.base_position(i) = b(i); r.base_linearVelocity(i) = v(i); }
        for (unsigned i = 0; i < 4; ++i) { r.base_quaternion(i) = q(i); r.base_quaternionVelocity(i) = wq(i); }
        for (unsigned i = 0; i < nm.n; ++i) { r.s(i) = j(i); r.s_dot(i) = jd(i); }
        return r;
    }
    std::shared_ptr<KD> kd(const Pt& p, iDynTree::FrameVelocityRepresentation rep = iDynTree::MIXED_REPRESENTATION) const { return std::make_shared<KD>(model, s.floatingBaseName, rs(p), s.gravity, rep); }
    iDynTree::FrameIndex frame(const std::string& f) const { return model.getFrameIndex(f); }
    static double sech(double a) { return Fixture::sech(a); }
    static double th(double a) { return Fixture::tanh_(a); }
    Eigen::Vector3d meanPoint(const Pt& p, int sd) const { Eigen::Vector3d m = Eigen::Vector3d::Zero(); for (size_t i = 0; i < nm.np; ++i) m += pos(p, sd, i); return m / double(nm.np); }
    static double wl2(const Vec& e, const VectorDynSize* wt) { double o = 0; for (long i = 0; i < e.size(); ++i) o += 0.5 * (wt ? (*wt)(unsigned(i)) : 1.0) * e(i) * e(i); return o; }

    // ---- the cost of one instant
    double cost(size_t c, const Pt& p) const {
        double o = 0; double t = p.t; std::string nmC = costDefs()[c].name; size_t np = nm.np;
        auto points = [&](std::function<double(int, size_t)> f) { for (int sd = 0; sd < 2; ++sd) for (size_t i = 0; i < np; ++i) o += f(sd, i); return o; };
        if (nmC == "comCostActive") return comRange.in(t) ? wl2(xv(p, "CoM") - com->at(t), &s.comWeights) : 0;
        if (nmC == "comVelocityCostActive") return comVelRange.in(t) ? wl2(Vec(xv(p, "Momentum").head(3)) - mass * comVel->at(t), &s.comVelocityWeights) : 0;
        if (nmC == "frameCostActive") { auto k = kd(p); Eigen::Matrix3d E = rot->at(t).transpose() * Fixture::rot(k->k.getWorldTransform(frame(s.frameForOrientationCost)).getRotation()); return frameW->at(t) * (1 - 0.5 * std::sqrt(std::max(0.0, 1 + E.trace()))); }
        if (nmC == "forceMeanCostActive") return points([&](int sd, size_t i) { Vec m = Vec::Zero(3); for (size_t j = 0; j < np; ++j) m += force(p, sd, j) / double(np); return 0.5 * (force(p, sd, i) - m).head(2).squaredNorm(); });
        if (nmC == "forceRatioCostActive") return points([&](int sd, size_t i) { double m = 0; for (size_t j = 0; j < np; ++j) m += force(p, sd, j)(2); double e = force(p, sd, i)(2) - (sd ? s.desiredRightRatios : s.desiredLeftRatios)[i] * m; return 0.5 * e * e; });
        if (nmC == "jointsRegularizationCostActive") return wl2(xv(p, "Joints") - joints->at(t), &s.jointsRegularizationWeights);
        if (nmC == "jointsVelocityCostActive") return wl2(uv(p, "JointsVelocity") - jointsVel->at(t), &s.jointsVelocityCostWeights);
        if (nmC == "staticTorquesCostActive") {
            auto k = kd(p); unsigned n = nm.n; Vec tau = Vec::Zero(n); MatrixDynSize J(6, n + 6);
            auto col = [&](unsigned j, Eigen::Vector3d& v, Eigen::Vector3d& wv) { v = Eigen::Vector3d(J(0, 6 + j), J(1, 6 + j), J(2, 6 + j)); wv = Eigen::Vector3d(J(3, 6 + j), J(4, 6 + j), J(5, 6 + j)); }; Eigen::Vector3d v, wv;
            for (size_t l = 0; l < model.getNrOfLinks(); ++l) { auto I = model.getLink(iDynTree::LinkIndex(l))->getInertia(); k->k.getFrameFreeFloatingJacobian(iDynTree::FrameIndex(l), J); Eigen::Vector3d c_ = Fixture::rot(k->k.getWorldTransform(iDynTree::FrameIndex(l)).getRotation()) * Fixture::pos(I.getCenterOfMass()); for (unsigned j = 0; j < n; ++j) { col(j, v, wv); tau(j) -= (v + wv.cross(c_)).dot(gravity()) * I.getMass(); } }
            for (int sd = 0; sd < 2; ++sd) { auto f = frame(sd ? s.rightFrameName : s.leftFrameName); k->k.getFrameFreeFloatingJacobian(f, J); Eigen::Matrix3d R = Fixture::rot(k->k.getWorldTransform(f).getRotation()); for (size_t i = 0; i < np; ++i) { Eigen::Vector3d r = R * Fixture::pos((sd ? s.rightPointsPosition : s.leftPointsPosition)[i]), F = force(p, sd, i); for (unsigned j = 0; j < n; ++j) { col(j, v, wv); tau(j) -= (v + wv.cross(r)).dot(F); } } }
            return wl2(tau, &s.staticTorquesCostWeights); }
        if (nmC == "forceDerivativeCostActive") return points([&](int sd, size_t i) { return wl2(fder(p, sd, i) - forceDer->at(t), &s.forceDerivativeWeights); });
        if (nmC == "pointAccelerationCostActive") return points([&](int sd, size_t i) { return wl2(vel(p, sd, i) - pointAcc->at(t), &s.pointAccelerationWeights); });
        if (nmC == "swingCostActive") return points([&](int sd, size_t i) { double h = pos(p, sd, i)(2) - s.desiredSwingHeight; Vec u = vel(p, sd, i); double q = 0; for (unsigned k = 0; k < 3; ++k) q += s.swingCostWeights(k) * u(k) * u(k); return 0.5 * h * h * q; });
        if (nmC == "phantomForcesCostActive") return points([&](int sd, size_t i) { double f = (1 - sech(s.normalForceHyperbolicSecantScaling * pos(p, sd, i)(2))) * force(p, sd, i)(2); return 0.5 * f * f; });
        if (nmC == "meanPointPositionCostActive") { if (!meanRange.in(t)) return 0; Eigen::Vector3d e = 0.5 * (meanPoint(p, 0) + meanPoint(p, 1)) - mean->at(t); return 0.5 * e.dot(Eigen::Vector3d(meanW->at(t)).asDiagonal() * e); }
        if (nmC == "leftFootYawCostActive" || nmC == "rightFootYawCostActive") {
            int sd = nmC[0] == 'r'; auto& pts = sd ? s.rightPointsPosition : s.leftPointsPosition; Eigen::Vector3d c_ = Eigen::Vector3d::Zero(); for (auto& q : pts) c_ += Fixture::pos(q) / double(pts.size());
            int br = -1, tr = -1, tl = -1; auto area = [&](size_t i) { Eigen::Vector3d d = Fixture::pos(pts[i]) - c_; return std::fabs(d(0) * d(1)); };
            for (size_t i = 0; i < pts.size(); ++i) { Eigen::Vector3d d = Fixture::pos(pts[i]) - c_; int* q = d(1) < 0 ? (d(0) < 0 ? &br : &tr) : (d(0) > 0 ? &tl : nullptr); if (q && (*q < 0 || area(i) > area(size_t(*q)))) *q = int(i); }
            Eigen::Vector3d e0 = Fixture::pos(pts[size_t(tr)]) - Fixture::pos(pts[size_t(br)]); double y = (sd ? yawR : yawL)->at(t) + std::atan2(e0(1), e0(0));
            Vec a = pos(p, sd, size_t(tr)) - pos(p, sd, size_t(br)), b = pos(p, sd, size_t(tl)) - pos(p, sd, size_t(tr)); double e1 = a(1) * std::cos(y) - a(0) * std::sin(y), e2 = b(0) * std::cos(y) + b(1) * std::sin(y); return 0.5 * (e1 * e1 + e2 * e2); }
        if (nmC == "feetDistanceCostActive") return 0.5 * (meanPoint(p, 0) - meanPoint(p, 1)).squaredNorm();
        if (nmC == "jointsVelocityForPosturalCostActive") { Vec e = xv(p, "Joints") - joints->at(t), d = uv(p, "JointsVelocity"); for (unsigned i = 0; i < nm.n; ++i) { double v = s.jointsVelocityCostWeights(i) * (d(i) + s.jointsRegularizationWeights(i) * e(i)); o += 0.5 * v * v; } return o; }
        if (nmC == "complementarityCostActive") return points([&](int sd, size_t i) { double f = force(p, sd, i)(2), v = vel(p, sd, i)(2); return 0.5 * v * v * f * f; });
        if (nmC == "basePositionCostActive") return baseRange.in(t) ? wl2(xv(p, "BasePosition") - basePos->at(t), &s.basePositionCostWeights) : 0;
        if (nmC == "baseQuaternionCostActive") return wl2(xv(p, "BaseQuaternion") - baseQuat->at(t), nullptr);
        if (nmC == "frameAngularVelocityCostActive") { auto k = kd(p, iDynTree::BODY_FIXED_REPRESENTATION); auto f = frame(s.frameForOrientationCost); auto V = k->k.getFrameVel(f); Eigen::Matrix3d E = Fixture::rot(k->k.getWorldTransform(f).getRotation()) * rot->at(t).transpose(), S = 0.5 * (E - E.transpose()); Eigen::Vector3d om(V.getAngularVec3()(0), V.getAngularVec3()(1), V.getAngularVec3()(2)); return 0.5 * (om + s.rotationalPIDgain * Eigen::Vector3d(S(2, 1), S(0, 2), S(1, 0))).squaredNorm(); }
        if (nmC == "baseLinearVelocityCostActive") return wl2(uv(p, "BaseVelocity") - baseVel->at(t), &s.baseLinearVelocityCostWeights);
        if (nmC == "baseQuaternionVelocityCostActive") return wl2(uv(p, "BaseQuaternionVelocity") - baseQuatVel->at(t), nullptr);
        if (nmC == "angularMomentumCostActive") return 0.5 * xv(p, "Momentum").tail(3).squaredNorm();
        fprintf(stderr, "harness: unknown cost %s\n", nmC.c_str()); _exit(9);
    }
    double cost(const Layout& L, const Vec& v) const { double o = 0; for (size_t c = 0; c < costDefs().size(); ++c) if (s.*(costDefs()[c].active)) for (size_t i = 0; i < L.m.size(); ++i) o += s.*(costDefs()[c].weight) * cost(c, L.at(v, i)); return o; }

    // ---- the constraints of one instant
    struct Row { double v, lo, hi; std::string name; };
    static constexpr double INF = 1e300;
    void constraints(const Pt& p, std::vector<Row>& o) const {
        auto k = kd(p); size_t np = nm.np;
        Eigen::Vector3d c_ = Fixture::pos(k->k.getCenterOfMassPosition()), Lm = Eigen::Vector3d::Zero();
        for (size_t l = 0; l < model.getNrOfLinks(); ++l) {
            auto I = model.getLink(iDynTree::LinkIndex(l))->getInertia(); auto T = k->k.getWorldTransform(iDynTree::FrameIndex(l)); auto V = k->k.getFrameVel(iDynTree::FrameIndex(l));
            Eigen::Matrix3d R = Fixture::rot(T.getRotation()), Io; Eigen::Vector3d wv(V.getAngularVec3()(0), V.getAngularVec3()(1), V.getAngularVec3()(2)), v(V.getLinearVec3()(0), V.getLinearVec3()(1), V.getLinearVec3()(2)), c1 = R * Fixture::pos(I.getCenterOfMass());
            for (unsigned i = 0; i < 3; ++i) for (unsigned j = 0; j < 3; ++j) Io(i, j) = I.getRotationalInertiaWrtCenterOfMass()(i, j);
            Lm += R * Io * R.transpose() * wv + I.getMass() * (Fixture::pos(T.getPosition()) + c1 - c_).cross(v + wv.cross(c1));
        }
        auto vec = [&](const Vec& v, double lo, double hi, const std::string& name) { for (long i = 0; i < v.size(); ++i) o.push_back({v(i), lo, hi, name + "[" + std::to_string(i) + "] at time " + num(p.t)}); };
        auto one = [&](double v, double lo, double hi, const std::string& name) { o.push_back({v, lo, hi, name + " at time " + num(p.t)}); };
        vec(Vec(Lm) - Vec(xv(p, "Momentum").tail(3)), -s.centroidalMomentumConstraintTolerance / 2, s.centroidalMomentumConstraintTolerance / 2, "centroidal momentum");
        vec(Vec(c_) - xv(p, "CoM"), -s.comPositionConstraintTolerance / 2, s.comPositionConstraintTolerance / 2, "centre of mass");
        one(Fixture::pos(k->k.getRelativeTransform(frame(s.referenceFrameNameForFeetDistance), frame(s.otherFrameNameForFeetDistance)).getPosition())(s.indexOfLateralDirection), s.minimumFeetDistance, INF, "feet lateral distance");
        one(xv(p, "BaseQuaternion").squaredNorm() - 1, -s.quaternionModulusConstraintTolerance / 2, s.quaternionModulusConstraintTolerance / 2, "quaternion norm");
        one(meanPoint(p, 0)(2) - meanPoint(p, 1)(2), -s.feetMaximumRelativeHeight, s.feetMaximumRelativeHeight, "feet relative height");
        for (int sd = 0; sd < 2; ++sd) for (size_t i = 0; i < np; ++i) {
            std::string nn = std::string(sd ? " of right point " : " of left point ") + std::to_string(i); Vec P = pos(p, sd, i), F = force(p, sd, i), V = vel(p, sd, i), D = fder(p, sd, i);
            if (s.planarComplementarity == PlanarComplementarityType::HyperbolicTangentInequality) { double d = th(s.planarVelocityHyperbolicTangentScaling * P(2)); Vec q(4); q << d * s.velocityMaximumDerivative(0) - V(0), d * s.velocityMaximumDerivative(1) - V(1), V(0) + d * s.velocityMaximumDerivative(0), V(1) + d * s.velocityMaximumDerivative(1); vec(q, 0, INF, "planar velocity" + nn); }
            if (s.planarComplementarity == PlanarComplementarityType::Classical) vec(V.head(2) * F(2), -s.classicalPlanarComplementarityTolerance, s.classicalPlanarComplementarityTolerance, "planar complementarity" + nn);
            if (s.complementarity == ComplementarityType::Dynamical) one(V(2) * F(2) + P(2) * D(2) + s.complementarityDissipation * P(2) * F(2), -INF, s.dynamicComplementarityUpperBound, "dynamical complementarity" + nn);
            if (s.complementarity == ComplementarityType::HyperbolicSecantInequality) { double d = sech(s.normalForceHyperbolicSecantScaling * P(2)); one(D(2) - d * s.forceMaximumDerivative(2) + (1 - d) * s.normalForceDissipationRatio * F(2), -INF, 0, "force control" + nn); }
            if (s.complementarity == ComplementarityType::Classical) one(P(2) * F(2), -INF, s.classicalComplementarityTolerance, "complementarity" + nn);
            one(F(0) * F(0) + F(1) * F(1) - s.frictionCoefficient * s.frictionCoefficient * F(2) * F(2), -INF, 0, "friction" + nn);
            vec(Vec(Fixture::pos(k->k.getWorldTransform(frame(sd ? s.rightFrameName : s.leftFrameName)) * (sd ? s.rightPointsPosition : s.leftPointsPosition)[i])) - P, -s.pointPositionConstraintTolerance / 2, s.pointPositionConstraintTolerance / 2, "position" + nn);
        }
    }
    Vec dynamics(const Pt& p) const {
        Vec o = Vec::Zero(nm.nx); auto put = [&](const std::string& k, const Vec& v) { o.segment(Names::at(nm.x, k).first, v.size()) = v; };
        Eigen::Vector3d lin = mass * gravity(), ang = Eigen::Vector3d::Zero(), c_ = xv(p, "CoM");
        for (int sd = 0; sd < 2; ++sd) for (size_t i = 0; i < nm.np; ++i) {
            Eigen::Vector3d P = pos(p, sd, i), F = force(p, sd, i), V = vel(p, sd, i), D = fder(p, sd, i); lin += F; ang += (P - c_).cross(F);
            double a = s.planarComplementarity == PlanarComplementarityType::HyperbolicTangentInDynamics ? th(s.planarVelocityHyperbolicTangentScaling * P(2)) : 1, b = s.complementarity == ComplementarityType::HyperbolicSecantInDynamics ? sech(s.normalForceHyperbolicSecantScaling * P(2)) : 1;
            put((sd ? "RightPosition" : "LeftPosition") + std::to_string(i), Eigen::Vector3d(a * V(0), a * V(1), V(2))); put((sd ? "RightForce" : "LeftForce") + std::to_string(i), Eigen::Vector3d(D(0), D(1), b * D(2) - s.normalForceDissipationRatio * (1 - b) * F(2)));
        }
        Vec m(6); m << lin, ang; put("Momentum", m); put("CoM", xv(p, "Momentum").head(3) / mass); put("BasePosition", Fixture::rot(baseOf(rs(p)).getRotation()) * uv(p, "BaseVelocity")); put("BaseQuaternion", uv(p, "BaseQuaternionVelocity")); put("Joints", uv(p, "JointsVelocity"));
        return o;
    }
    std::vector<Row> rows(const Layout& L, const Vec& v, const Vec& x0) const {
        std::vector<Row> o;
        for (size_t i = 0; i < L.m.size(); ++i) {
            Pt p = L.at(v, i);
            if (i) {
                Pt q = L.at(v, i - 1); double dt = p.t - q.t; Vec d = euler ? Vec(q.x + dt * dynamics(q) - p.x) : Vec(q.x + dt / 2 * (dynamics(q) + dynamics(p)) - p.x);
                for (long k = 0; k < d.size(); ++k) o.push_back({d(k), 0, 0, "dynamics of " + nm.xname(int(k)) + " between " + num(q.t) + " and " + num(p.t)});
            } else p.x = x0;      // the state of the first instant is given
            constraints(p, o);
        }
        return o;
    }
    // ---- the bounds of the variables at one instant
    void bounds(double t, Vec& xl, Vec& xu, Vec& ul, Vec& uu, bool& eitherContact) const {
        xl = Vec::Constant(nm.nx, -INF); xu = Vec::Constant(nm.nx, INF); ul = Vec::Constant(nm.nu, -INF); uu = Vec::Constant(nm.nu, INF);
        double sw = t0 + s.horizon * s.activeControlPercentage; eitherContact = std::fabs(t - sw) < 1e-6; bool free = t < sw;
        for (int sd = 0; sd < 2; ++sd) for (size_t i = 0; i < nm.np; ++i) {
            std::string sn = sd ? "Right" : "Left", ix = std::to_string(i); xl(Names::at(nm.x, sn + "Position" + ix).first + 2) = 0; xl(Names::at(nm.x, sn + "Force" + ix).first + 2) = 0;
            for (int k = 0; k < 3; ++k) { double f = free ? s.forceMaximumDerivative(unsigned(k)) : 0, v = free ? s.velocityMaximumDerivative(unsigned(k)) : 0; int a = Names::at(nm.u, sn + "ForceDerivative" + ix).first + k, b = Names::at(nm.u, sn + "Velocity" + ix).first + k; ul(a) = -f; uu(a) = f; ul(b) = -v; uu(b) = v; }
        }
        int c_ = Names::at(nm.x, "CoM").first; xl(c_ + 2) = s.minimumCoMHeight; int m = Names::at(nm.x, "Momentum").first; for (int k = 3; k < 6; ++k) { xl(m + k) = -s.maximumAngularMomentum; xu(m + k) = s.maximumAngularMomentum; }
        for (int k = 0; k < int(nm.n); ++k) { int j = Names::at(nm.x, "Joints").first + k, d = Names::at(nm.u, "JointsVelocity").first + k; xl(j) = s.jointsLimits[size_t(k)].first; xu(j) = s.jointsLimits[size_t(k)].second; ul(d) = s.jointsVelocityLimits[size_t(k)].first; uu(d) = s.jointsVelocityLimits[size_t(k)].second; }
        if (s.constrainTargetCoMPosition && targetRange.in(t)) { Vec c0 = com->at(t); double e = tol->at(t); for (int k = 0; k < 3; ++k) { xl(c_ + k) = c0(k) - e; xu(c_ + k) = c0(k) + e; } }
    }
};
} // namespace mc
