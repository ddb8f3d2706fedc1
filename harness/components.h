// All the constraints, costs and the dynamical system of the planner, built over one shared robot (as the Solver does),
// with an independent formula for the value of each. Shared by V16, V17, V19, V20, V21, V22.
#pragma once
#include <levi/levi.h>
#include "mc.h"
#include "poison.h"
#include "kd_ref.h"
#include <DynamicalPlannerPrivate/Utilities/ExpressionsServer.h>
#include <DynamicalPlannerPrivate/Utilities/VariablesLabeller.h>
#include <DynamicalPlannerPrivate/Constraints.h>
#include <DynamicalPlannerPrivate/Constraints/DynamicalConstraints.h>
#include <DynamicalPlannerPrivate/Costs.h>
#include <iDynTree/TimeVaryingObject.h>
#include <iDynTree/SparsityStructure.h>
#include <Eigen/Geometry>
namespace mc {
using namespace DynamicalPlanner::Private;
using iDynTree::VectorDynSize; using iDynTree::MatrixDynSize;
namespace oc = iDynTree::optimalcontrol;
typedef Eigen::VectorXd Vec;
typedef Eigen::MatrixXd Mat;

struct Pt { Vec x, u; double t; };

// ---------------------------------------------------------------- references that change with the time
struct TvDouble : oc::TimeVaryingDouble { double a, b, v; TvDouble(double x, double y) : a(x), b(y) {} const double& get(double t, bool& ok) override { ok = true; v = a + b * t; return v; } double at(double t) const { return a + b * t; } };
struct TvVector : oc::TimeVaryingVector { Vec a, b; VectorDynSize v; TvVector(Vec x, Vec y) : a(x), b(y), v(unsigned(x.size())) {} Vec at(double t) const { return a + t * b; } const VectorDynSize& get(double t, bool& ok) override { ok = true; iDynTree::toEigen(v) = at(t); return v; } };
struct TvPosition : oc::TimeVaryingPosition { Eigen::Vector3d a, b; iDynTree::Position v; TvPosition(Eigen::Vector3d x, Eigen::Vector3d y) : a(x), b(y), v(0, 0, 0) {} Eigen::Vector3d at(double t) const { return a + t * b; } const iDynTree::Position& get(double t, bool& ok) override { ok = true; auto p = at(t); v = iDynTree::Position(p(0), p(1), p(2)); return v; } };
struct TvRotation : oc::TimeVaryingRotation { double a, b; iDynTree::Rotation v; TvRotation(double x, double y) : a(x), b(y) {}
    Eigen::Matrix3d at(double t) const { double k = a + b * t; return (Eigen::AngleAxisd(k, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(0.4 * k, Eigen::Vector3d::UnitX()) * Eigen::AngleAxisd(-0.3 + k * 0.2, Eigen::Vector3d::UnitY())).toRotationMatrix(); }
    const iDynTree::Rotation& get(double t, bool& ok) override { ok = true; auto r = at(t); v = iDynTree::Rotation(r(0, 0), r(0, 1), r(0, 2), r(1, 0), r(1, 1), r(1, 2), r(2, 0), r(2, 1), r(2, 2)); return v; } };

// ---------------------------------------------------------------- one component of the optimal control problem
enum Op { VALUE, DX, DU, HXX, HUU, HXU, SP_DX, SP_DU, SP_XX, SP_UU, SP_XU, NOPS };
inline const char* opName(int o) { static const char* n[] = {"value", "stateDerivative", "controlDerivative", "stateHessian", "controlHessian", "mixedHessian", "sparsity(stateDerivative)", "sparsity(controlDerivative)", "sparsity(stateHessian)", "sparsity(controlHessian)", "sparsity(mixedHessian)"}; return n[o]; }
struct Comp {
    std::string name; char kind = 0;            // 'c'onstraint, cost 'k', 'd'ynamics
    std::shared_ptr<oc::Constraint> c; std::shared_ptr<oc::Cost> k; std::shared_ptr<oc::DynamicalSystem> d;
    unsigned rows = 1; bool hessians = true;
    std::function<Vec(const Pt&)> ref;          // independent value
    Vec lo, hi; bool isLo = false, isHi = false; // declared bounds of a constraint
    // the caller's buffers: created zeroed, then re-used by this component and function only
    MatrixDynSize bDx, bDu, bXx, bUu, bXu; VectorDynSize vDx, vDu;
};
struct Res { bool ok = false; Mat m; };

struct Fixture {
    int cfg; iDynTree::Model model; unsigned n, nx, nu;
    size_t nl, nr;
    VariablesLabeller xs, us;
    std::shared_ptr<TimelySharedKinDynComputations> kin;
    std::shared_ptr<ExpressionsServer> es;
    std::vector<Comp> comps;
    std::vector<std::pair<std::string, char>> listed;   // with only == "#": nothing is built, everything is listed
    std::string left = "l_sole", right = "r_sole";
    std::vector<iDynTree::Position> lp, rp;
    double mass = 0;

    iDynTree::IndexRange X(const std::string& l) const { return xs.getIndexRange(l); }
    iDynTree::IndexRange U(const std::string& l) const { return us.getIndexRange(l); }
    Vec xv(const Pt& p, const std::string& l) const { auto r = X(l); return p.x.segment(r.offset, r.size); }
    Vec uv(const Pt& p, const std::string& l) const { auto r = U(l); return p.u.segment(r.offset, r.size); }
    RobotState rs(const Pt& p) const {
        RobotState r; r.s.resize(n); r.s_dot.resize(n);
        Vec b = xv(p, "BasePosition"), q = xv(p, "BaseQuaternion"), s = xv(p, "JointsPosition"), v = uv(p, "BaseLinearVelocity"), w = uv(p, "BaseQuaternionDerivative"), sd = uv(p, "JointsVelocity");
        for (unsigned i = 0; i < 3; ++i) { r.base_position(i) = b(i); r.base_linearVelocity(i) = v(i); }
        for (unsigned i = 0; i < 4; ++i) { r.base_quaternion(i) = q(i); r.base_quaternionVelocity(i) = w(i); }
        for (unsigned i = 0; i < n; ++i) { r.s(i) = s(i); r.s_dot(i) = sd(i); }
        return r;
    }
    static Eigen::Matrix3d rot(const iDynTree::Rotation& r) { Eigen::Matrix3d o; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o(i, j) = r(i, j); return o; }
    static Eigen::Vector3d pos(const iDynTree::Position& r) { return Eigen::Vector3d(r(0), r(1), r(2)); }
    KD kd(const Pt& p, iDynTree::FrameVelocityRepresentation rep = iDynTree::MIXED_REPRESENTATION) const { iDynTree::Vector3 g; g.zero(); g(2) = -9.81; return KD(model, kin->getFloatingBase(), rs(p), g, rep); }
    size_t points(int side) const { return side ? nr : nl; }
    static std::string sideName(int s) { return s ? "Right" : "Left"; }
    Eigen::Vector3d meanPoint(const Pt& p, int side) const { Eigen::Vector3d m = Eigen::Vector3d::Zero(); for (size_t i = 0; i < points(side); ++i) m += xv(p, sideName(side) + "PositionPoint" + std::to_string(i)); return m / double(points(side)); }
    static double sech(double a) { return 2.0 / (std::exp(a) + std::exp(-a)); }
    static double tanh_(double a) { double e = std::exp(2 * a); return (e - 1) / (e + 1); }
    static Vec one(double v) { return Vec::Constant(1, v); }

    // only: build the components whose name starts with it (empty: all of them)
    Fixture(int c, const std::string& only = "", bool second = false) : cfg(c) {
        model = cfg == 1 ? bipedReduced() : biped();
        n = unsigned(model.getNrOfDOFs());
        nl = cfg == 0 ? 4 : cfg == 1 ? 3 : 5; nr = cfg == 0 ? 3 : cfg == 1 ? 4 : 4;
        for (size_t l = 0; l < model.getNrOfLinks(); ++l) mass += model.getLink(iDynTree::LinkIndex(l))->getInertia().getMass();
        std::vector<iDynTree::Position> all = {iDynTree::Position(-0.06, -0.03, 0.01), iDynTree::Position(0.11, -0.04, 0.0), iDynTree::Position(0.12, 0.035, -0.005), iDynTree::Position(-0.05, 0.03, 0.0), iDynTree::Position(0.02, 0.01, 0.002)};
        if (cfg == 2) { std::swap(all[0], all[3]); std::swap(all[1], all[4]); }   // the corners in another order
        lp.assign(all.begin(), all.begin() + long(nl)); rp.assign(all.begin(), all.begin() + long(nr)); for (auto& q : rp) q = iDynTree::Position(q(0) * 1.1, q(1) * 0.9, q(2) + 0.003);
        if (cfg == 2) rp = {all[3], all[4], all[2], all[0]};
        for (int s = 0; s < 2; ++s) for (size_t i = 0; i < points(s); ++i) {
            xs.addLabel(sideName(s) + "ForcePoint" + std::to_string(i), 3); xs.addLabel(sideName(s) + "PositionPoint" + std::to_string(i), 3);
            us.addLabel(sideName(s) + "VelocityControlPoint" + std::to_string(i), 3); us.addLabel(sideName(s) + "ForceControlPoint" + std::to_string(i), 3);
        }
        xs.addLabel("Momentum", 6); xs.addLabel("CoMPosition", 3); xs.addLabel("BasePosition", 3); xs.addLabel("BaseQuaternion", 4); xs.addLabel("JointsPosition", n);
        us.addLabel("BaseLinearVelocity", 3); us.addLabel("BaseQuaternionDerivative", 4); us.addLabel("JointsVelocity", n);
        nx = unsigned(xs.size()); nu = unsigned(us.size());
        kin = std::make_shared<TimelySharedKinDynComputations>();
        if (!kin->loadRobotModel(model)) throw Violation{"setup", "the model is refused"};
        kin->setTimings({0.0, 0.5, 1.0});
        es = std::make_shared<ExpressionsServer>(kin);
        build(only);
        for (auto& q : comps) {
            q.bDx.resize(q.rows, nx); q.bDu.resize(q.rows, nu); q.bXx.resize(nx, nx); q.bUu.resize(nu, nu); q.bXu.resize(nx, nu); q.vDx.resize(nx); q.vDu.resize(nu);
            q.bDx.zero(); q.bDu.zero(); q.bXx.zero(); q.bUu.zero(); q.bXu.zero(); q.vDx.zero(); q.vDu.zero();
        }
        (void)second;
    }
    void build(const std::string& only) {
        auto want = [&](const std::string& nm, char kind) { if (only == "#") { listed.push_back({nm, kind}); return false; } if (!only.empty() && only[0] == '?') return only.find("|" + nm + "|") != std::string::npos; return only.empty() || nm == only || (only.back() == '*' && nm.compare(0, only.size() - 1, only, 0, only.size() - 1) == 0); };
        typedef std::shared_ptr<oc::Constraint> PC; typedef std::shared_ptr<oc::Cost> PK;
        auto C = [&](const std::string& nm, std::function<PC()> mk, unsigned rows, std::function<Vec(const Pt&)> ref, bool isLo, double lo, bool isHi, double hi) {
            if (!want(nm, 'c')) return;
            Comp q; q.name = nm; q.kind = 'c'; q.c = mk(); q.rows = rows; q.ref = ref; q.isLo = isLo; q.isHi = isHi; q.lo = Vec::Constant(rows, lo); q.hi = Vec::Constant(rows, hi); comps.push_back(q); };
        auto K = [&](const std::string& nm, std::function<PK()> mk, std::function<double(const Pt&)> ref, bool hess = true) { if (!want(nm, 'k')) return; Comp q; q.name = nm; q.kind = 'k'; q.k = mk(); q.ref = [ref](const Pt& p) { return one(ref(p)); }; q.hessians = hess; comps.push_back(q); };
        auto fi = [&](const std::string& f) { return model.getFrameIndex(f); };
        std::string base = kin->getFloatingBase();
        // ---------------- constraints
        C("CentroidalMomentum", [=] { auto c = std::make_shared<CentroidalMomentumConstraint>(xs, us, kin, es); c->setEqualityTolerance(0.04); return PC(c); }, 3, [=](const Pt& p) {
            // angular momentum about the centre of mass, summed link by link in inertial coordinates
            KD k = kd(p); Eigen::Vector3d com = pos(k.k.getCenterOfMassPosition()), L = Eigen::Vector3d::Zero();
            for (size_t l = 0; l < model.getNrOfLinks(); ++l) {
                auto I = model.getLink(iDynTree::LinkIndex(l))->getInertia(); auto T = k.k.getWorldTransform(iDynTree::FrameIndex(l)); auto V = k.k.getFrameVel(iDynTree::FrameIndex(l));   // mixed: inertial coordinates
                Eigen::Matrix3d R = rot(T.getRotation()); Eigen::Vector3d w(V.getAngularVec3()(0), V.getAngularVec3()(1), V.getAngularVec3()(2)), v(V.getLinearVec3()(0), V.getLinearVec3()(1), V.getLinearVec3()(2)), c = R * pos(I.getCenterOfMass());
                double m = I.getMass(); Eigen::Matrix3d Io; for (unsigned i = 0; i < 3; ++i) for (unsigned j = 0; j < 3; ++j) Io(i, j) = I.getRotationalInertiaWrtCenterOfMass()(i, j);
                Eigen::Vector3d vc = v + w.cross(c); L += R * Io * R.transpose() * w + m * (pos(T.getPosition()) + c - com).cross(vc);
            }
            return Vec(L - xv(p, "Momentum").tail(3)); }, true, -0.02, true, 0.02);
        C("CoMPosition", [=] { auto c = std::make_shared<CoMPositionConstraint>(xs, us, kin, es); c->setEqualityTolerance(0.06); return PC(c); }, 3, [=](const Pt& p) { KD k = kd(p); return Vec(pos(k.k.getCenterOfMassPosition()) - xv(p, "CoMPosition")); }, true, -0.03, true, 0.03);
        C("QuaternionNorm", [=] { auto c = std::make_shared<QuaternionNormConstraint>(xs, us); c->setEqualityTolerance(0.02); return PC(c); }, 1, [=](const Pt& p) { return one(xv(p, "BaseQuaternion").squaredNorm() - 1); }, true, -0.01, true, 0.01);
        C("FeetRelativeHeight", [=] { return PC(std::make_shared<FeetRelativeHeightConstraint>(xs, us, 0.07)); }, 1, [=](const Pt& p) { return one(meanPoint(p, 0)(2) - meanPoint(p, 1)(2)); }, true, -0.07, true, 0.07);
        for (unsigned lat = 0; lat < 3; ++lat) for (int sw = 0; sw < 2; ++sw) {
            std::string ref = sw ? left : right, oth = sw ? right : left;
            if (cfg == 1 && sw) { ref = "chest"; oth = left; }
            C("FeetLateralDistance(" + std::to_string(lat) + "," + ref + ")", [=] { auto c = std::make_shared<FeetLateralDistanceConstraint>(xs, us, kin, es, lat, fi(ref), fi(oth)); if (!c->setMinimumDistance(0.11)) throw Violation{"minimumDistance", "refused"}; return PC(c); }, 1,
              [=](const Pt& p) { KD k = kd(p); return one(pos(k.k.getRelativeTransform(fi(ref), fi(oth)).getPosition())(lat)); }, true, 0.11, false, 0);
        }
        for (int s = 0; s < 2; ++s) for (size_t i = 0; i < points(s); ++i) {
            std::string sd = sideName(s), ix = std::to_string(i), tag = "(" + sd + "," + ix + ")";
            std::string PP = sd + "PositionPoint" + ix, FP = sd + "ForcePoint" + ix, VC = sd + "VelocityControlPoint" + ix, FC = sd + "ForceControlPoint" + ix;
            iDynTree::Position local = s ? rp[i] : lp[i]; std::string foot = s ? right : left;
            double kx = 7.0 + double(i), kf = 9.0 - double(i);
            HyperbolicTangent th; th.setScaling(kx); HyperbolicSecant se; se.setScaling(kf);
            C("PlanarVelocityControl" + tag, [=] { return PC(std::make_shared<PlanarVelocityControlConstraints>(xs, us, sd, i, th, 1.5, 0.7)); }, 4, [=](const Pt& p) { double d = tanh_(kx * xv(p, PP)(2)); Vec v = uv(p, VC), o(4); o << d * 1.5 - v(0), d * 0.7 - v(1), v(0) + d * 1.5, v(1) + d * 0.7; return o; }, true, 0, false, 0);
            C("NormalVelocityControl" + tag, [=] { return PC(std::make_shared<NormalVelocityControlConstraints>(xs, us, sd, i, th, 1.3)); }, 2, [=](const Pt& p) { double d = tanh_(kx * xv(p, PP)(2)); double v = uv(p, VC)(2); Vec o(2); o << 1.3 - v, v + d * 1.3; return o; }, true, 0, false, 0);
            C("DynamicalComplementarity" + tag, [=] { return PC(std::make_shared<DynamicalComplementarityConstraint>(xs, us, sd, i, 12.0, 0.05)); }, 1, [=](const Pt& p) { double pz = xv(p, PP)(2), fz = xv(p, FP)(2), vz = uv(p, VC)(2), uz = uv(p, FC)(2); return one(vz * fz + pz * uz + 12.0 * pz * fz); }, false, 0, true, 0.05);
            C("ContactForceControl" + tag, [=] { return PC(std::make_shared<ContactForceControlConstraints>(xs, us, sd, i, se, 80.0, 15.0)); }, 1, [=](const Pt& p) { double d = sech(kf * xv(p, PP)(2)), fz = xv(p, FP)(2), uz = uv(p, FC)(2); return one(uz - d * 80.0 + (1 - d) * 15.0 * fz); }, false, 0, true, 0);
            C("ClassicalComplementarity" + tag, [=] { return PC(std::make_shared<ClassicalComplementarityConstraint>(xs, us, sd, i, 0.013)); }, 1, [=](const Pt& p) { return one(xv(p, PP)(2) * xv(p, FP)(2)); }, false, 0, true, 0.013);
            C("ClassicalPlanarComplementarity" + tag, [=] { return PC(std::make_shared<ClassicalPlanarComplementarityConstraint>(xs, us, sd, i, 0.017)); }, 2, [=](const Pt& p) { return Vec(uv(p, VC).head(2) * xv(p, FP)(2)); }, true, -0.017, true, 0.017);
            C("ContactFriction" + tag, [=] { auto c = std::make_shared<ContactFrictionConstraint>(xs, us, sd, i); if (!c->setFrictionCoefficient(0.45)) throw Violation{"friction", "refused"}; return PC(c); }, 1, [=](const Pt& p) { Vec f = xv(p, FP); return one(f(0) * f(0) + f(1) * f(1) - 0.45 * 0.45 * f(2) * f(2)); }, false, 0, true, 0);
            C("ContactPositionConsistency" + tag, [=] { auto c = std::make_shared<ContactPositionConsistencyConstraint>(xs, us, kin, es, fi(foot), sd, local, i); c->setEqualityTolerance(0.05); return PC(c); }, 3, [=](const Pt& p) { KD k = kd(p); return Vec(pos(k.k.getWorldTransform(fi(foot)) * local) - xv(p, PP)); }, true, -0.025, true, 0.025);
            // ---------------- costs of a point
            K("ForceMean" + tag, [=] { return PK(std::make_shared<ForceMeanCost>(xs, us, sd, i)); }, [=](const Pt& p) { Eigen::Vector2d m(0, 0); for (size_t j = 0; j < points(s); ++j) m += xv(p, sd + "ForcePoint" + std::to_string(j)).head(2); return 0.5 * (xv(p, FP).head(2) - m / double(points(s))).squaredNorm(); });
            for (int r = 0; r < 2; ++r) K(std::string("ForceRatio") + (r ? "Default" : "") + tag, [=] { auto c = std::make_shared<ForceRatioCost>(xs, us, sd, i); if (!r) c->setDesiredRatio(0.37); return PK(c); }, [=](const Pt& p) { double m = 0; for (size_t j = 0; j < points(s); ++j) m += xv(p, sd + "ForcePoint" + std::to_string(j))(2); double e = xv(p, FP)(2) - (r ? 1.0 / double(points(s)) : 0.37) * m; return 0.5 * e * e; });
            iDynTree::Vector3 w; w(0) = 1.7; w(1) = 0.6; w(2) = 2.3;
            K("Swing" + tag, [=] { return PK(std::make_shared<SwingCost>(xs, us, sd, i, 0.035, w)); }, [=](const Pt& p) { double h = xv(p, PP)(2) - 0.035; Vec u = uv(p, VC); return 0.5 * h * h * (1.7 * u(0) * u(0) + 0.6 * u(1) * u(1) + 2.3 * u(2) * u(2)); });
            K("PhantomForces" + tag, [=] { return PK(std::make_shared<PhantomForcesCost>(xs, us, sd, i, se)); }, [=](const Pt& p) { double f = (1 - sech(kf * xv(p, PP)(2))) * xv(p, FP)(2); return 0.5 * f * f; });
            K("Complementarity" + tag, [=] { return PK(std::make_shared<ComplementarityCost>(xs, us, sd, i)); }, [=](const Pt& p) { double f = xv(p, FP)(2), v = uv(p, VC)(2); return 0.5 * v * v * f * f; });
        }
        // ---------------- whole body costs
        K("FeetDistance", [=] { return PK(std::make_shared<FeetDistanceCost>(xs, us)); }, [=](const Pt& p) { return 0.5 * (meanPoint(p, 0) - meanPoint(p, 1)).squaredNorm(); });
        auto dPos = std::make_shared<TvPosition>(Eigen::Vector3d(0.1, -0.2, 0.3), Eigen::Vector3d(0.4, 0.3, -0.2)); auto dW = std::make_shared<TvVector>((Vec(3) << 1.0, 2.0, 0.5).finished(), (Vec(3) << 0.5, -0.7, 1.5).finished());
        K("MeanPointPosition", [=] { auto c = std::make_shared<MeanPointPositionCost>(xs, us); if (!c->setDesiredPositionTrajectory(dPos)) throw Violation{"meanPoint", "refused"}; c->setTimeVaryingWeight(dW); return PK(c); }, [=](const Pt& p) { Eigen::Vector3d m = (meanPoint(p, 0) * double(nl) + meanPoint(p, 1) * double(nr)) / double(nl + nr) - dPos->at(p.t); return 0.5 * m.dot(dW->at(p.t).asDiagonal() * m); });
        auto dq = std::make_shared<TvRotation>(0.3, 0.9); auto dw = std::make_shared<TvDouble>(1.4, -0.6);
        for (std::string f : {std::string("neck_2"), left}) {
            K("FrameOrientation(" + f + ")", [=] { auto c = std::make_shared<FrameOrientationCost>(xs, us, kin, es, fi(f)); if (!c->setDesiredRotationTrajectory(dq)) throw Violation{"orientation", "refused"}; c->setTimeVaryingWeight(dw); return PK(c); }, [=](const Pt& p) {
                KD k = kd(p); Eigen::Matrix3d E = dq->at(p.t).transpose() * rot(k.k.getWorldTransform(fi(f)).getRotation());
                double re = 0.5 * std::sqrt(std::max(0.0, 1 + E.trace()));     // |e - identity|^2 = 2 (1 - re) for a unit quaternion of non negative real part
                return 0.5 * dw->at(p.t) * 2 * (1 - re); });
            K("FrameAngularVelocity(" + f + ")", [=] { auto c = std::make_shared<FrameAngularVelocityCost>(xs, us, kin, es, fi(f), 2.5); if (!c->setDesiredRotationTrajectory(dq)) throw Violation{"angularVelocity", "refused"}; return PK(c); }, [=](const Pt& p) {
                KD k = kd(p, iDynTree::BODY_FIXED_REPRESENTATION); auto V = k.k.getFrameVel(fi(f)); Eigen::Matrix3d R = rot(k.k.getWorldTransform(fi(f)).getRotation()), E = R * dq->at(p.t).transpose(), S = 0.5 * (E - E.transpose());
                Eigen::Vector3d w(V.getAngularVec3()(0), V.getAngularVec3()(1), V.getAngularVec3()(2)); return 0.5 * (w + 2.5 * Eigen::Vector3d(S(2, 1), S(0, 2), S(1, 0))).squaredNorm(); });
        }
        VectorDynSize jw(n), pg(n); Vec jd(n), jd2(n); for (unsigned i = 0; i < n; ++i) { jw(i) = 0.5 + 0.3 * i; pg(i) = 2.0 - 0.25 * i; jd(i) = 0.1 * i - 0.2; jd2(i) = 0.3 - 0.1 * i; }
        auto dj = std::make_shared<TvVector>(jd, jd2);
        K("JointsVelocityForPostural", [=] { return PK(std::make_shared<JointsVelocityForPosturalCost>(xs, us, jw, pg, dj)); }, [=](const Pt& p) { double o = 0; Vec sd = uv(p, "JointsVelocity"), e = xv(p, "JointsPosition") - dj->at(p.t); for (unsigned i = 0; i < n; ++i) { double v = jw(i) * (sd(i) + pg(i) * e(i)); o += 0.5 * v * v; } return o; });
        auto dcv = std::make_shared<TvVector>((Vec(3) << 0.3, -0.1, 0.05).finished(), (Vec(3) << 0.2, 0.2, -0.4).finished()); VectorDynSize cw(3); cw(0) = 1.2; cw(1) = 0.4; cw(2) = 2.0;
        K("CoMVelocity", [=] { auto c = std::make_shared<CoMVelocityCost>(xs, us, unsigned(X("Momentum").offset), kin); if (!c->setStateWeight(cw)) throw Violation{"comVelocity", "refused"}; c->setLinearVelocityReference(dcv); return PK(c); }, [=](const Pt& p) { Eigen::Vector3d e = xv(p, "Momentum").head(3) - mass * dcv->at(p.t); return 0.5 * (cw(0) * e(0) * e(0) + cw(1) * e(1) * e(1) + cw(2) * e(2) * e(2)); });
        K("StaticTorques", [=] { auto c = std::make_shared<StaticTorquesCost>(xs, us, kin, fi(left), fi(right), lp, rp); if (!c->setWeights(jw)) throw Violation{"staticTorques", "refused"}; return PK(c); }, [=](const Pt& p) {
            // virtual work of gravity and of the contact forces
            KD k = kd(p); Vec tau = Vec::Zero(n);
            for (size_t l = 0; l < model.getNrOfLinks(); ++l) { auto I = model.getLink(iDynTree::LinkIndex(l))->getInertia(); MatrixDynSize J(6, n + 6); k.k.getFrameFreeFloatingJacobian(iDynTree::FrameIndex(l), J); Eigen::Vector3d c = rot(k.k.getWorldTransform(iDynTree::FrameIndex(l)).getRotation()) * pos(I.getCenterOfMass()); for (unsigned j = 0; j < n; ++j) { Eigen::Vector3d w(J(3, 6 + j), J(4, 6 + j), J(5, 6 + j)), v(J(0, 6 + j), J(1, 6 + j), J(2, 6 + j)); tau(j) -= (v + w.cross(c))(2) * -9.81 * I.getMass(); } }
            for (int s = 0; s < 2; ++s) { MatrixDynSize J(6, n + 6); auto f = fi(s ? right : left); k.k.getFrameFreeFloatingJacobian(f, J); Eigen::Matrix3d R = rot(k.k.getWorldTransform(f).getRotation()); for (size_t i = 0; i < points(s); ++i) { Eigen::Vector3d r = R * pos(s ? rp[i] : lp[i]), F = xv(p, sideName(s) + "ForcePoint" + std::to_string(i)); for (unsigned j = 0; j < n; ++j) { Eigen::Vector3d w(J(3, 6 + j), J(4, 6 + j), J(5, 6 + j)), v(J(0, 6 + j), J(1, 6 + j), J(2, 6 + j)); tau(j) -= (v + w.cross(r)).dot(F); } } }
            double o = 0; for (unsigned j = 0; j < n; ++j) o += 0.5 * jw(j) * tau(j) * tau(j); return o; }, false);
        for (int s = 0; s < 2; ++s) {
            auto dy = std::make_shared<TvDouble>(0.2 + 0.5 * s, 0.7);
            auto pts = s ? rp : lp;
            // the corners, from their meaning
            Eigen::Vector3d c = Eigen::Vector3d::Zero(); for (auto& q : pts) c += pos(q) / double(pts.size());
            int br = -1, tr = -1, tl = -1; auto area = [&](size_t i) { Eigen::Vector3d d = pos(pts[i]) - c; return std::fabs(d(0) * d(1)); };
            for (size_t i = 0; i < pts.size(); ++i) { Eigen::Vector3d d = pos(pts[i]) - c; int* t = d(1) < 0 ? (d(0) < 0 ? &br : &tr) : (d(0) > 0 ? &tl : nullptr); if (t && (*t < 0 || area(i) > area(size_t(*t)))) *t = int(i); }
            Eigen::Vector3d e0 = pos(pts[size_t(tr)]) - pos(pts[size_t(br)]); double yaw0 = std::atan2(e0(1), e0(0)); std::string sd = sideName(s);
            K("FootYaw(" + sd + ")", [=] { auto k = std::make_shared<FootYawCost>(xs, sd, pts); k->setDesiredYawTrajectory(dy); return PK(k); }, [=](const Pt& p) {
                double y = dy->at(p.t) + yaw0; Eigen::Vector3d a = xv(p, sd + "PositionPoint" + std::to_string(tr)) - xv(p, sd + "PositionPoint" + std::to_string(br)), b = xv(p, sd + "PositionPoint" + std::to_string(tl)) - xv(p, sd + "PositionPoint" + std::to_string(tr));
                double e1 = a(1) * std::cos(y) - a(0) * std::sin(y), e2 = b(0) * std::cos(y) + b(1) * std::sin(y); return 0.5 * e1 * e1 + 0.5 * e2 * e2; });
        }
        // ---------------- dynamics, with and without the smoothed activations
        for (int v = 0; v < 4; ++v) {
            std::string nm = "Dynamics(" + std::to_string(v) + ")"; if (!want(nm, 'd')) continue;
            HyperbolicTangent th; th.setScaling(11.0); HyperbolicSecant se; se.setScaling(6.0); bool dis1 = v & 1, dis2 = v & 2; if (dis1) th.disable(); if (dis2) se.disable();
            Comp q; q.name = nm; q.kind = 'd'; q.rows = nx; double diss = 13.0;
            q.d = std::make_shared<DynamicalConstraints>(xs, us, kin, es, th, se, diss);
            q.ref = [=](const Pt& p) {
                Vec o = Vec::Zero(nx); auto put = [&](const std::string& l, const Vec& w) { auto r = X(l); o.segment(r.offset, r.size) = w; };
                Eigen::Vector3d lin(0, 0, -9.81 * mass), ang = Eigen::Vector3d::Zero(), com = xv(p, "CoMPosition");
                for (int s = 0; s < 2; ++s) for (size_t i = 0; i < points(s); ++i) {
                    std::string sd = sideName(s), ix = std::to_string(i); Eigen::Vector3d P = xv(p, sd + "PositionPoint" + ix), F = xv(p, sd + "ForcePoint" + ix), V = uv(p, sd + "VelocityControlPoint" + ix), D = uv(p, sd + "ForceControlPoint" + ix);
                    double a = dis1 ? 1 : tanh_(11.0 * P(2)), b = dis2 ? 1 : sech(6.0 * P(2)); lin += F; ang += (P - com).cross(F);
                    put(sd + "PositionPoint" + ix, Eigen::Vector3d(a * V(0), a * V(1), V(2))); put(sd + "ForcePoint" + ix, Eigen::Vector3d(D(0), D(1), b * D(2) - diss * (1 - b) * F(2)));
                }
                Vec m(6); m << lin, ang; put("Momentum", m); put("CoMPosition", xv(p, "Momentum").head(3) / mass); put("BasePosition", rot(baseOf(rs(p)).getRotation()) * uv(p, "BaseLinearVelocity")); put("BaseQuaternion", uv(p, "BaseQuaternionDerivative")); put("JointsPosition", uv(p, "JointsVelocity"));
                return o; };
            comps.push_back(q);
        }
    }
    // ---------------- points of the enumeration
    Pt base(int which) const {
        Pt p; p.x.resize(nx); p.u.resize(nu); p.t = which % 2 ? 0.5 : 0.0;
        double z = 0.29 + 0.37 * which; auto nx_ = [&] { z = std::fmod(z * 3.7 + 0.61, 2.0); return z - 1.0; };
        for (int s = 0; s < 2; ++s) for (size_t i = 0; i < points(s); ++i) {
            std::string sd = sideName(s), ix = std::to_string(i);
            auto P = X(sd + "PositionPoint" + ix), F = X(sd + "ForcePoint" + ix), V = U(sd + "VelocityControlPoint" + ix), D = U(sd + "ForceControlPoint" + ix);
            for (int k = 0; k < 3; ++k) { p.x(P.offset + k) = 0.4 * nx_(); p.x(F.offset + k) = 3.0 * nx_(); p.u(V.offset + k) = nx_(); p.u(D.offset + k) = 5.0 * nx_(); }
            p.x(P.offset + 2) = 0.06 + 0.05 * nx_(); p.x(F.offset + 2) = 6.0 + 4.0 * nx_();
        }
        auto set = [&](const iDynTree::IndexRange& r, Vec& v, double sc) { for (long k = 0; k < r.size; ++k) v(r.offset + k) = sc * nx_(); };
        set(X("Momentum"), p.x, 2.0); set(X("CoMPosition"), p.x, 0.5); set(X("BasePosition"), p.x, 1.0); set(X("BaseQuaternion"), p.x, 1.0); set(X("JointsPosition"), p.x, 0.6);
        set(U("BaseLinearVelocity"), p.u, 1.0); set(U("BaseQuaternionDerivative"), p.u, 1.0); set(U("JointsVelocity"), p.u, 1.0);
        auto q = X("BaseQuaternion"); p.x(q.offset) += 1.5; if (which % 2 == 0) p.x.segment(q.offset, 4).normalize();
        return p;
    }
    static const int SPECIALS = 12;
    Pt special(int k) const {      // boundary points of the domain
        Pt p = base(k % 3);
        auto all = [&](const char* what, std::function<void(double*)> f) { for (int s = 0; s < 2; ++s) for (size_t i = 0; i < points(s); ++i) { std::string l = sideName(s) + what + std::to_string(i); bool st = X(l).isValid(); f(st ? &p.x(X(l).offset) : &p.u(U(l).offset)); } };
        auto q = X("BaseQuaternion");
        switch (k) {
        case 0: all("PositionPoint", [](double* v) { v[2] = 0; }); break;
        case 1: all("ForcePoint", [](double* v) { v[2] = 0; }); break;
        case 2: all("ForcePoint", [](double* v) { v[0] = v[1] = v[2] = 0; }); break;
        case 3: all("PositionPoint", [](double* v) { v[2] = 1.5; }); break;        // far above the ground
        case 4: all("PositionPoint", [](double* v) { v[2] = -0.02; }); break;      // below it
        case 5: p.x.segment(q.offset, 4) << 1, 0, 0, 0; break;
        case 6: p.x.segment(q.offset, 4) *= -1; break;                             // the same rotation
        case 7: p.x.segment(q.offset, 4) *= 0.5; break;
        case 8: p.x.segment(X("JointsPosition").offset, n).setZero(); p.u.setZero(); break;
        case 9: p.x.segment(q.offset, 4) << 0.1, 0.2, 0.95, -0.1; break;           // half a turn away
        case 10: all("ForceControlPoint", [](double* v) { v[2] = -40; }); all("VelocityControlPoint", [](double* v) { v[2] = 3; }); break;
        case 11: p.x.segment(q.offset, 4) << 0.7, 0.0, 0.0, -0.72; p.t = 1.0; break;
        }
        return p;
    }
    std::vector<std::pair<bool, std::string>> blocks() const { std::vector<std::pair<bool, std::string>> o; for (auto& l : xs.listOfLabels()) o.push_back({true, l}); for (auto& l : us.listOfLabels()) o.push_back({false, l}); return o; }
    Pt changed(const Pt& p, const std::pair<bool, std::string>& b) const { Pt o = p; if (b.first) { auto r = X(b.second); for (long k = 0; k < r.size; ++k) o.x(r.offset + k) += 0.11 * double(k + 1); } else { auto r = U(b.second); for (long k = 0; k < r.size; ++k) o.u(r.offset + k) += 0.13 * double(k + 1); } return o; }
    int points() const { return 4 + SPECIALS; }
    Pt point(int k) const { return k < 4 ? base(k) : special(k - 4); }
    static std::string pointName(int k) { return k < 4 ? "generic" + std::to_string(k) : "special" + std::to_string(k - 4); }
    Vec lambda(unsigned rows) const { Vec l(rows); for (unsigned i = 0; i < rows; ++i) l(i) = 0.4 + 0.3 * double(i % 7) - 0.9 * double(i % 3); return l; }

    // ---------------- the calls of the optimal control problem
    static VectorDynSize V(const Vec& v) { VectorDynSize o(unsigned(v.size())); for (unsigned i = 0; i < o.size(); ++i) o(i) = v(i); return o; }
    static Mat M(const MatrixDynSize& m) { Mat o(m.rows(), m.cols()); for (unsigned i = 0; i < m.rows(); ++i) for (unsigned j = 0; j < m.cols(); ++j) o(i, j) = m(i, j); return o; }
    static Mat M(const VectorDynSize& v) { Mat o(v.size(), 1); for (unsigned i = 0; i < v.size(); ++i) o(i, 0) = v(i); return o; }
    Res call(size_t ci, int op, const Pt& p, const Vec* lam = nullptr) {
        Comp& q = comps[ci]; Res r; VectorDynSize x = V(p.x), u = V(p.u);
        Vec l0 = lambda(q.rows); VectorDynSize lv = V(lam ? *lam : l0);
        VectorDynSize val(q.rows); for (unsigned i = 0; i < q.rows; ++i) val(i) = 1e3 + i; double cost = 1e3;
        oc::SparsityStructure sp;
        if (q.kind == 'd') q.d->setControlInput(u);
        auto spRes = [&](bool ok, unsigned rr, unsigned cc) { r.ok = ok; r.m = Mat::Zero(rr, cc); if (!ok) return; for (size_t i = 0; i < sp.size(); ++i) { if (sp[i].row >= rr || sp[i].col >= cc) throw Violation{"sparsity-range", q.name + " declares the entry (" + std::to_string(sp[i].row) + "," + std::to_string(sp[i].col) + ") in " + opName(op) + " of size " + std::to_string(rr) + "x" + std::to_string(cc)}; r.m(long(sp[i].row), long(sp[i].col)) = 1; } };
        unsigned rows = q.rows;
        switch (op) {
        case VALUE: if (q.kind == 'c') r.ok = q.c->evaluateConstraint(p.t, x, u, val); else if (q.kind == 'k') { r.ok = q.k->costEvaluation(p.t, x, u, cost); val(0) = cost; } else r.ok = q.d->dynamics(x, p.t, val); r.m = M(val); break;
        case DX: if (q.kind == 'c') { r.ok = q.c->constraintJacobianWRTState(p.t, x, u, q.bDx); r.m = M(q.bDx); } else if (q.kind == 'k') { r.ok = q.k->costFirstPartialDerivativeWRTState(p.t, x, u, q.vDx); r.m = M(q.vDx).transpose(); } else { r.ok = q.d->dynamicsStateFirstDerivative(x, p.t, q.bDx); r.m = M(q.bDx); } break;
        case DU: if (q.kind == 'c') { r.ok = q.c->constraintJacobianWRTControl(p.t, x, u, q.bDu); r.m = M(q.bDu); } else if (q.kind == 'k') { r.ok = q.k->costFirstPartialDerivativeWRTControl(p.t, x, u, q.vDu); r.m = M(q.vDu).transpose(); } else { r.ok = q.d->dynamicsControlFirstDerivative(x, p.t, q.bDu); r.m = M(q.bDu); } break;
        case HXX: if (q.kind == 'c') r.ok = q.c->constraintSecondPartialDerivativeWRTState(p.t, x, u, lv, q.bXx); else if (q.kind == 'k') r.ok = q.k->costSecondPartialDerivativeWRTState(p.t, x, u, q.bXx); else r.ok = q.d->dynamicsSecondPartialDerivativeWRTState(p.t, x, lv, q.bXx); r.m = M(q.bXx); break;
        case HUU: if (q.kind == 'c') r.ok = q.c->constraintSecondPartialDerivativeWRTControl(p.t, x, u, lv, q.bUu); else if (q.kind == 'k') r.ok = q.k->costSecondPartialDerivativeWRTControl(p.t, x, u, q.bUu); else r.ok = q.d->dynamicsSecondPartialDerivativeWRTControl(p.t, x, lv, q.bUu); r.m = M(q.bUu); break;
        case HXU: if (q.kind == 'c') r.ok = q.c->constraintSecondPartialDerivativeWRTStateControl(p.t, x, u, lv, q.bXu); else if (q.kind == 'k') r.ok = q.k->costSecondPartialDerivativeWRTStateControl(p.t, x, u, q.bXu); else r.ok = q.d->dynamicsSecondPartialDerivativeWRTStateControl(p.t, x, lv, q.bXu); r.m = M(q.bXu); break;
        case SP_DX: if (q.kind == 'k') { r.ok = false; break; } spRes(q.kind == 'c' ? q.c->constraintJacobianWRTStateSparsity(sp) : q.d->dynamicsStateFirstDerivativeSparsity(sp), rows, nx); break;
        case SP_DU: if (q.kind == 'k') { r.ok = false; break; } spRes(q.kind == 'c' ? q.c->constraintJacobianWRTControlSparsity(sp) : q.d->dynamicsControlFirstDerivativeSparsity(sp), rows, nu); break;
        case SP_XX: spRes(q.kind == 'c' ? q.c->constraintSecondPartialDerivativeWRTStateSparsity(sp) : q.kind == 'k' ? q.k->costSecondPartialDerivativeWRTStateSparsity(sp) : q.d->dynamicsSecondPartialDerivativeWRTStateSparsity(sp), nx, nx); break;
        case SP_UU: spRes(q.kind == 'c' ? q.c->constraintSecondPartialDerivativeWRTControlSparsity(sp) : q.kind == 'k' ? q.k->costSecondPartialDerivativeWRTControlSparsity(sp) : q.d->dynamicsSecondPartialDerivativeWRTControlSparsity(sp), nu, nu); break;
        case SP_XU: spRes(q.kind == 'c' ? q.c->constraintSecondPartialDerivativeWRTStateControlSparsity(sp) : q.kind == 'k' ? q.k->costSecondPartialDerivativeWRTStateControlSparsity(sp) : q.d->dynamicsSecondPartialDerivativeWRTStateControlSparsity(sp), nx, nu); break;
        }
        return r;
    }
};
inline std::string mdiff(const Mat& got, const Mat& want, double tol, double scale = 0) {
    if (got.rows() != want.rows() || got.cols() != want.cols()) return "size " + std::to_string(got.rows()) + "x" + std::to_string(got.cols()) + ", expected " + std::to_string(want.rows()) + "x" + std::to_string(want.cols());
    for (long i = 0; i < got.rows(); ++i) for (long j = 0; j < got.cols(); ++j) if (!(std::fabs(got(i, j) - want(i, j)) <= tol * (1 + scale + std::fabs(want(i, j))))) return "entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + num(got(i, j)) + ", expected " + num(want(i, j));
    return "";
}
inline std::string wherein(const VariablesLabeller& l, long idx) { for (auto& s : l.listOfLabels()) { auto r = l.getIndexRange(s); if (idx >= r.offset && idx < r.offset + r.size) return s + "[" + std::to_string(idx - r.offset) + "]"; } return "?"; }
} // namespace mc
