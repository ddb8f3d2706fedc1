// The queries of the shared kinematics with their references.
#pragma once
#include "kd_ref.h"
using namespace DynamicalPlanner::Private;
using namespace mc;
typedef iDynTree::FrameVelocityRepresentation Rep;
static const Rep REPS[3] = {iDynTree::MIXED_REPRESENTATION, iDynTree::BODY_FIXED_REPRESENTATION, iDynTree::INERTIAL_FIXED_REPRESENTATION};

struct Config { int model = 0; std::string base; int grav = 0; };
static const iDynTree::Model& modelOf(int i) { return i ? bipedReduced() : biped(); }
static iDynTree::Vector3 gravOf(int i) { iDynTree::Vector3 g; g.zero(); g(2) = -9.81; if (i == 1) { g(0) = 0.7; g(1) = -1.1; g(2) = -3; } return g; }
static RobotState stateOf(int model, int s) { // 0,1: A, B; 2..7: A with one component changed; 8: A with resting joints
    unsigned n = unsigned(modelOf(model).getNrOfDOFs());
    if (s == 8) { RobotState r = robotState(n, 0); r.s.zero(); r.s_dot.zero(); return r; }
    return s < 2 ? robotState(n, s) : robotState(n, 0, s - 1);
}
static iDynTree::LinkNetExternalWrenches wrenches(int model, int which) {
    iDynTree::LinkNetExternalWrenches w(modelOf(model)); w.zero();
    if (which) for (size_t l = 0; l < modelOf(model).getNrOfLinks(); ++l) for (unsigned i = 0; i < 3; ++i) { w(iDynTree::LinkIndex(l)).getLinearVec3()(i) = 3.0 * double(i) - double(l) + 0.5; w(iDynTree::LinkIndex(l)).getAngularVec3()(i) = 0.3 * double(l) - 0.2 * double(i); }
    return w;
}
enum Kind { COM, COMJ, WT_NAME, WT_IDX, BASE, FFJ_NAME, FFJ_IDX, RT_IDX, RT_NAME, RJ, FV_NAME, FV_IDX, FVJD, MOM, MOMJ, MOMJD, SF, SF2, SFJD, MASS, UPDATE, SAME, NKIND };
static const char* KN[] = {"com", "comJacobian", "worldTransform(name)", "worldTransform", "baseTransform", "frameJacobian(name)", "frameJacobian", "relativeTransform", "relativeTransform(name)", "relativeJacobian", "frameVelocity(name)", "frameVelocity", "frameVelocityJointsDerivative", "momentum", "momentumJacobian", "momentumJointsDerivative", "staticForces", "staticForces(links)", "staticForcesJointsDerivative", "massMatrix", "updateState", "sameState"};
struct Query { int kind, rep, arg; };   // arg: frame / wrench choice
static const char* FR[2] = {"l_sole", "neck_2"};
static const char* REF[2] = {"r_lower_leg", "root_link"};

static std::vector<Query> allQueries() {
    std::vector<Query> q;
    for (int k = 0; k < NKIND; ++k) {
        bool rep = k == COMJ || k == FFJ_NAME || k == FFJ_IDX || k == RJ || k == FV_NAME || k == FV_IDX || k == MOM || k == MOMJ || k == MASS;
        bool arg = k == WT_IDX || k == FFJ_IDX || k == RT_IDX || k == RJ || k == FV_IDX || k == FVJD || k == SF || k == SFJD;
        for (int r = 0; r < (rep ? (k == RJ ? 2 : 3) : 1); ++r) for (int a = 0; a < (arg ? 2 : 1); ++a) q.push_back({k, r, a});
    }
    return q;
}
static std::map<std::string, std::pair<Num, double>> g_cache;
static const std::pair<Num, double>& reference(const Query& q, const RobotState& s, const std::string& stateKey, const Config& c) {
    std::string key = std::to_string(q.kind) + "/" + std::to_string(q.rep) + "/" + std::to_string(q.arg) + "/" + stateKey + "/" + std::to_string(c.model) + c.base + std::to_string(c.grav);
    auto it = g_cache.find(key);
    if (it != g_cache.end()) return it->second;
    const auto& m = modelOf(c.model);
    auto g = gravOf(c.grav);
    auto kd = [&](const RobotState& st, Rep r) { return std::make_unique<KD>(m, c.base, st, g, r); };
    Rep rep = REPS[q.rep];
    iDynTree::FrameIndex f = m.getFrameIndex(FR[q.arg]), ref = m.getFrameIndex(REF[q.arg]);
    iDynTree::MatrixDynSize M;
    Num out; double tol = 1e-10;
    unsigned n = unsigned(m.getNrOfDOFs());
    auto K = kd(s, rep);
    switch (q.kind) {
    case COM: out = flatV(K->k.getCenterOfMassPosition(), 3); break;
    case COMJ: M.resize(3, n + 6); K->k.getCenterOfMassJacobian(M); out = flat(M); break;
    case WT_NAME: case WT_IDX: out = flat(K->k.getWorldTransform(f)); break;
    case BASE: out = flat(baseOf(s)); break;
    case FFJ_NAME: case FFJ_IDX: M.resize(6, n + 6); K->k.getFrameFreeFloatingJacobian(f, M); out = flat(M); break;
    case RT_IDX: case RT_NAME: out = flat(K->k.getRelativeTransform(ref, f)); break;
    case RJ: M.resize(6, n); K->k.getRelativeJacobian(ref, f, M); out = flat(M); break;
    case FV_NAME: case FV_IDX: out = flatV(K->k.getFrameVel(f), 6); break;
    case FVJD: out = jointsDerivative(s, [&](const RobotState& x) { return flatV(kd(x, REPS[1])->k.getFrameVel(f), 6); }); tol = 1e-6; break;
    case MOM: out = flatV(K->k.getLinearAngularMomentum(), 6); break;
    case MOMJ: M.resize(6, n + 6); K->k.getLinearAngularMomentumJacobian(M); out = flat(M); break;
    case MOMJD: out = jointsDerivative(s, [&](const RobotState& x) { return flatV(kd(x, REPS[1])->k.getLinearAngularMomentum(), 6); }); tol = 1e-6; break;
    case SF: case SF2: out = staticTorques(m, c.base, s, g, wrenches(c.model, q.arg)); tol = 1e-8; break;
    case SFJD: out = jointsDerivative(s, [&](const RobotState& x) { Num t = staticTorques(m, c.base, x, g, wrenches(c.model, q.arg)); return Num(t.begin() + 6, t.end()); }); tol = 1e-6; break;
    case MASS: M.resize(n + 6, n + 6); K->k.getFreeFloatingMassMatrix(M); out = flat(M); break;
    default: break;
    }
    return g_cache[key] = {out, tol};
}
#ifndef MC_CALL
#define MC_CALL(x) (x)
#endif
static Num ask(SharedKinDynComputations& k, const Query& q, const RobotState& s, const Config& c, bool& ok) {
    const auto& m = modelOf(c.model);
    Rep rep = REPS[q.rep];
    iDynTree::FrameIndex f = m.getFrameIndex(FR[q.arg]), ref = m.getFrameIndex(REF[q.arg]);
    iDynTree::MatrixDynSize M;
    unsigned n = unsigned(m.getNrOfDOFs());
    ok = true;
    switch (q.kind) {
    case COM: return flatV(MC_CALL(k.getCenterOfMassPosition(s)), 3);
    case COMJ: M.resize(3, n + 6); ok = MC_CALL(k.getCenterOfMassJacobian(s, M, rep)); return flat(M);
    case WT_NAME: return flat(MC_CALL(k.getWorldTransform(s, std::string(FR[q.arg]))));
    case WT_IDX: return flat(MC_CALL(k.getWorldTransform(s, f)));
    case BASE: return flat(MC_CALL(k.getBaseTransform(s)));
    case FFJ_NAME: M.resize(6, n + 6); ok = MC_CALL(k.getFrameFreeFloatingJacobian(s, std::string(FR[q.arg]), M, rep)); return flat(M);
    case FFJ_IDX: M.resize(6, n + 6); ok = MC_CALL(k.getFrameFreeFloatingJacobian(s, f, M, rep)); return flat(M);
    case RT_IDX: return flat(MC_CALL(k.getRelativeTransform(s, ref, f)));
    case RT_NAME: return flat(MC_CALL(k.getRelativeTransform(s, std::string(REF[q.arg]), std::string(FR[q.arg]))));
    case RJ: M.resize(6, n); ok = MC_CALL(k.getRelativeJacobian(s, ref, f, M, rep)); return flat(M);
    case FV_NAME: return flatV(MC_CALL(k.getFrameVel(s, std::string(FR[q.arg]), rep)), 6);
    case FV_IDX: return flatV(MC_CALL(k.getFrameVel(s, f, rep)), 6);
    case FVJD: ok = MC_CALL(k.getFrameVelJointsDerivative(s, f, M)); return flat(M);
    case MOM: return flatV(MC_CALL(k.getLinearAngularMomentum(s, rep)), 6);
    case MOMJ: M.resize(6, n + 6); ok = MC_CALL(k.getLinearAngularMomentumJacobian(s, M, rep)); return flat(M);
    case MOMJD: ok = MC_CALL(k.getLinearAngularMomentumJointsDerivative(s, M)); return flat(M);
    case SF: case SF2: {
        iDynTree::FreeFloatingGeneralizedTorques t(m); iDynTree::LinkWrenches lw(m);
        auto w = wrenches(c.model, q.arg);
        ok = q.kind == SF ? MC_CALL(k.getStaticForces(s, w, t)) : MC_CALL(k.getStaticForces(s, w, t, lw));
        Num o = flatV(t.baseWrench(), 6); Num j = flatV(t.jointTorques(), n); o.insert(o.end(), j.begin(), j.end()); return o;
    }
    case SFJD: { auto w = wrenches(c.model, q.arg); ok = MC_CALL(k.getStaticForcesJointsDerivative(s, w, M)); return flat(M); }
    case MASS: M.resize(n + 6, n + 6); ok = MC_CALL(k.getFreeFloatingMassMatrix(s, M, rep)); return flat(M);
    case UPDATE: ok = MC_CALL(k.updateRobotState(s)); return {};
    case SAME: return {MC_CALL(k.sameState(s)) ? 1.0 : 0.0};
    }
    return {};
}
static bool rowsWithin(const RobotState& a, const RobotState& b, double tol) {
    auto d = [&](const auto& x, const auto& y) { if (x.size() != y.size()) return false; for (unsigned i = 0; i < x.size(); ++i) if (!(std::fabs(x(i) - y(i)) < tol)) return false; return true; };
    return d(a.base_position, b.base_position) && d(a.base_quaternion, b.base_quaternion) && d(a.s, b.s) && d(a.base_linearVelocity, b.base_linearVelocity) && d(a.base_quaternionVelocity, b.base_quaternionVelocity) && d(a.s_dot, b.s_dot);
}
static std::string qn(const Query& q, int s) { return std::string(KN[q.kind]) + (q.rep ? (q.rep == 1 ? "[body]" : "[inertial]") : "") + (q.arg ? "#1" : "") + "@" + std::to_string(s); }

