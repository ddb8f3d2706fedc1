// V09: expressions of the robot state. Values, first and second derivatives against a fresh kinematics computation
// (and finite differences of it); then all histories of state updates, times and foreign queries.
#include <levi/levi.h>
#include "mc.h"
#include "poison.h"
#include "kd_ref.h"
#include <DynamicalPlannerPrivate/Utilities/ExpressionsServer.h>
#include <DynamicalPlannerPrivate/Utilities/levi/MomentumInBaseExpression.h>
#include <DynamicalPlannerPrivate/Utilities/levi/CoMInBaseExpression.h>
#include <DynamicalPlannerPrivate/Utilities/levi/QuaternionExpressions.h>
#include <DynamicalPlannerPrivate/Utilities/levi/RelativeQuaternionExpression.h>
#include <Eigen/Geometry>
using namespace DynamicalPlanner::Private;
using namespace mc;
typedef Eigen::MatrixXd Mat;
typedef iDynTree::KinDynComputations KDC;
struct Ctx { iDynTree::Model m; std::string base; };
struct Eval { const Ctx& c; const RobotState& s; KDC& k; };
static Mat toM(const iDynTree::MatrixDynSize& x) { Mat o(x.rows(), x.cols()); for (unsigned i = 0; i < x.rows(); ++i) for (unsigned j = 0; j < x.cols(); ++j) o(i, j) = x(i, j); return o; }
template <class M6> Mat fixedM(const M6& x) { Mat o(x.rows(), x.cols()); for (unsigned i = 0; i < x.rows(); ++i) for (unsigned j = 0; j < x.cols(); ++j) o(i, j) = x(i, j); return o; }
static Mat rotM(const iDynTree::Rotation& x) { Mat o(3, 3); for (unsigned i = 0; i < 3; ++i) for (unsigned j = 0; j < 3; ++j) o(i, j) = x(i, j); return o; }
static Mat posM(const iDynTree::Position& x) { Mat o(3, 1); for (unsigned i = 0; i < 3; ++i) o(i, 0) = x(i); return o; }
static Mat quatM(const Mat& R) { Eigen::Matrix3d r = R; Eigen::Quaterniond q(r); if (q.w() < 0) q.coeffs() *= -1; Mat o(4, 1); o << q.w(), q.x(), q.y(), q.z(); return o; }
static iDynTree::Transform rel(const Eval& e, const std::string& a, const std::string& b) { return e.k.getRelativeTransform(e.c.m.getFrameIndex(a), e.c.m.getFrameIndex(b)); }
static Mat baseTwist(const RobotState& s) { std::array<double, 4> q; auto w = bodyOmega(s, q); Mat o(6, 1); for (int i = 0; i < 3; ++i) { o(i, 0) = s.base_linearVelocity(i); o(3 + i, 0) = w[i]; } return o; }
static Mat relJ(const Eval& e, const std::string& a, const std::string& b) { iDynTree::MatrixDynSize J(6, unsigned(e.c.m.getNrOfDOFs())); e.k.setFrameVelocityRepresentation(iDynTree::BODY_FIXED_REPRESENTATION); if (a == b) { J.zero(); return toM(J); } e.k.getRelativeJacobian(e.c.m.getFrameIndex(a), e.c.m.getFrameIndex(b), J); return toM(J); }
static Mat sdot(const RobotState& s) { Mat o(s.s_dot.size(), 1); for (unsigned i = 0; i < s.s_dot.size(); ++i) o(i, 0) = s.s_dot(i); return o; }
static Mat absV(const Eval& e, const std::string& f, const Mat& twist) { return fixedM(rel(e, f, e.c.base).asAdjointTransform()) * twist + relJ(e, e.c.base, f) * sdot(e.s); }
static Mat momentum(const Eval& e, const Mat& twist) {
    Mat h = Mat::Zero(6, 1);
    for (size_t l = 0; l < e.c.m.getNrOfLinks(); ++l) { auto n = e.c.m.getLinkName(iDynTree::LinkIndex(l)); h += fixedM(rel(e, e.c.base, n).asAdjointTransformWrench()) * fixedM(e.c.m.getLink(iDynTree::LinkIndex(l))->getInertia().asMatrix()) * absV(e, n, twist); }
    return h;
}
static Mat comB(const Eval& e) { return posM(baseOf(e.s).inverse() * e.k.getCenterOfMassPosition()); }

struct Srv { std::shared_ptr<TimelySharedKinDynComputations> t; std::shared_ptr<ExpressionsServer> es; levi::Variable desired{4, "desired"}, desired2{4, "desired2"}, twist{6, "someTwist"}, twist2{6, "otherTwist"}; Ctx c; };
static Eigen::Vector4d desiredQ(int k) { Eigen::Vector4d q(0.9, 0.2, -0.3, 0.1); if (k) q << 0.8, -0.1, 0.2, 0.4; return q.normalized(); }
static Eigen::VectorXd twistV(int k) { Eigen::VectorXd t(6); t << 0.3, -0.2, 0.5, 0.7, -0.4, 0.1; return k ? Eigen::VectorXd(-2.0 * t.reverse()) : t; }
static Mat rotOfQ(const Eigen::Vector4d& q) { return Eigen::Quaterniond(q(0), q(1), q(2), q(3)).toRotationMatrix(); }
struct Entry {
    std::string name;
    std::function<levi::Expression(Srv&)> make;
    std::function<Mat(const Eval&)> ref;
    int order = 2;        // orders of derivative to check
    bool sign = false;    // quaternion: defined up to the sign
};
static std::vector<Entry> catalogue(const Ctx& c) {
    std::vector<Entry> v;
    auto add = [&](std::string n, std::function<levi::Expression(Srv&)> m, std::function<Mat(const Eval&)> r, int o = 2, bool s = false) { v.push_back({n, m, r, o, s}); };
    std::string b = c.base;
    unsigned n = unsigned(c.m.getNrOfDOFs());
    add("baseRotation", [](Srv& s) { return s.es->baseRotation(); }, [](const Eval& e) { return rotM(baseOf(e.s).getRotation()); });
    add("normalizedBaseQuaternion", [](Srv& s) { return s.es->normalizedBaseQuaternion(); }, [](const Eval& e) { Mat q(4, 1); double k = 0; for (unsigned i = 0; i < 4; ++i) k += e.s.base_quaternion(i) * e.s.base_quaternion(i); for (unsigned i = 0; i < 4; ++i) q(i, 0) = e.s.base_quaternion(i) / std::sqrt(k); return q; });
    add("baseTwist", [](Srv& s) { return s.es->baseTwist(); }, [](const Eval& e) { return baseTwist(e.s); });
    add("worldToBase.position", [](Srv& s) { return s.es->worldToBase().position(); }, [](const Eval& e) { return posM(baseOf(e.s).getPosition()); });
    add("worldToBase.rotation", [](Srv& s) { return s.es->worldToBase().rotation(); }, [](const Eval& e) { return rotM(baseOf(e.s).getRotation()); });
    add("comInBase", [](Srv& s) { return s.es->comInBase(); }, comB);
    add("worldToBase*comInBase", [](Srv& s) { return s.es->worldToBase() * s.es->comInBase(); }, [](const Eval& e) { return posM(e.k.getCenterOfMassPosition()); });
    for (unsigned j : {0u, n - 1, 1u}) add("comInBaseHessian(" + std::to_string(j) + ")", [j](Srv& s) { return s.es->comInBaseHessian(j); }, [j](const Eval& e) {
        Num d = jointsDerivative(e.s, [&](const RobotState& x) { KD k(e.c.m, e.c.base, x, iDynTree::Vector3(), iDynTree::MIXED_REPRESENTATION); iDynTree::MatrixDynSize J(3, unsigned(x.s.size()) + 6); k.k.getCenterOfMassJacobian(J); Mat Jb = rotM(baseOf(x).getRotation()).transpose() * toM(J); Num o; for (int i = 0; i < 3; ++i) o.push_back(Jb(i, 6 + j)); return o; });
        Mat o(3, e.s.s.size()); for (int i = 0; i < 3; ++i) for (unsigned k = 0; k < e.s.s.size(); ++k) o(i, k) = d[size_t(i) * e.s.s.size() + k]; return o; }, -6);
    std::string l0 = c.m.getLinkName(0), ll = "l_lower_leg", sole = "l_sole", rs = "r_sole", neck = "neck_2", chest = "chest", rl = "r_lower_leg";
    bool std_ = c.m.isFrameNameUsed(sole);
    std::vector<std::pair<std::string, std::string>> pairs;
    if (std_) pairs = {{"root_link", sole}, {sole, neck}, {rl, "root_link"}, {sole, sole}, {chest, neck}, {ll, rs}};
    else if (c.m.getNrOfLinks() > 10) pairs = {{"k9", "z11"}, {"z11", "k9"}, {"k0", "z11"}, {"z11", "k0"}, {"k3", "k12"}};
    else for (size_t i = 0; i < c.m.getNrOfLinks(); ++i) for (size_t j = 0; j < c.m.getNrOfLinks(); ++j) pairs.push_back({c.m.getLinkName(i), c.m.getLinkName(j)});
    for (auto& p : pairs) {
        std::string x = p.first, y = p.second, tag = "(" + x + "," + y + ")";
        bool same = x == y;
        add("adjointTransform" + tag, [=](Srv& s) { return s.es->adjointTransform(x, y); }, [=](const Eval& e) { return fixedM(rel(e, x, y).asAdjointTransform()); });
        add("adjointTransformWrench" + tag, [=](Srv& s) { return s.es->adjointTransformWrench(x, y); }, [=](const Eval& e) { return fixedM(rel(e, x, y).asAdjointTransformWrench()); });
        add("relativePosition" + tag, [=](Srv& s) { return s.es->relativePosition(x, y); }, [=](const Eval& e) { return posM(rel(e, x, y).getPosition()); });
        add("relativeRotation" + tag, [=](Srv& s) { return s.es->relativeRotation(x, y); }, [=](const Eval& e) { return rotM(rel(e, x, y).getRotation()); });
        add("relativeQuaternion" + tag, [=](Srv& s) { return s.es->relativeQuaternion(x, y); }, [=](const Eval& e) { return quatM(rotM(rel(e, x, y).getRotation())); }, 2, true);
        add("relativeTransform" + tag, [=](Srv& s) { return s.es->relativeTransform(x, y) * s.es->comInBase(); }, [=](const Eval& e) { return Mat(rotM(rel(e, x, y).getRotation()) * comB(e) + posM(rel(e, x, y).getPosition())); });
        add("relativeTransform*relativeTransform" + tag, [=](Srv& s) { auto t = s.es->worldToBase() * s.es->relativeTransform(s.c.base, y); return levi::Expression::Horzcat(t.rotation(), t.position(), "T"); }, [=](const Eval& e) { auto t = baseOf(e.s) * rel(e, e.c.base, y); Mat o(3, 4); o << rotM(t.getRotation()), posM(t.getPosition()); return o; });
        add("relativeLeftJacobian" + tag, [=](Srv& s) { return s.es->relativeLeftJacobian(x, y); }, [=](const Eval& e) { return relJ(e, x, y); });
        add("relativeVelocity" + tag, [=](Srv& s) { return s.es->relativeVelocity(x, y); }, [=](const Eval& e) { return Mat(relJ(e, x, y) * sdot(e.s)); });
        if (!same) {
            add("adjointTransformJointsDerivative" + tag, [=](Srv& s) { return s.es->adjointTransformJointsDerivative(x, y, 1); }, [=](const Eval& e) { Num d = jointsDerivative(e.s, [&](const RobotState& q) { KD k(e.c.m, e.c.base, q, iDynTree::Vector3(), iDynTree::MIXED_REPRESENTATION); Eval f{e.c, q, k.k}; Mat a = fixedM(rel(f, x, y).asAdjointTransform()); Num o; for (int i = 0; i < 6; ++i) o.push_back(a(i, 1)); return o; }); Mat o(6, e.s.s.size()); for (int i = 0; i < 6; ++i) for (unsigned k = 0; k < e.s.s.size(); ++k) o(i, k) = d[size_t(i) * e.s.s.size() + k]; return o; }, -6);
            add("adjointTransformWrenchJointsDerivative" + tag, [=](Srv& s) { return s.es->adjointTransformWrenchJointsDerivative(x, y, 4); }, [=](const Eval& e) { Num d = jointsDerivative(e.s, [&](const RobotState& q) { KD k(e.c.m, e.c.base, q, iDynTree::Vector3(), iDynTree::MIXED_REPRESENTATION); Eval f{e.c, q, k.k}; Mat a = fixedM(rel(f, x, y).asAdjointTransformWrench()); Num o; for (int i = 0; i < 6; ++i) o.push_back(a(i, 4)); return o; }); Mat o(6, e.s.s.size()); for (int i = 0; i < 6; ++i) for (unsigned k = 0; k < e.s.s.size(); ++k) o(i, k) = d[size_t(i) * e.s.s.size() + k]; return o; }, -6);
        }
    }
    std::vector<std::string> fr = std_ ? std::vector<std::string>{sole, neck, "root_link", b} : std::vector<std::string>{pairs[1].first, pairs[1].second};
    for (auto& f : fr) {
        add("absoluteVelocity(" + f + ")", [=](Srv& s) { return s.es->absoluteVelocity(f); }, [=](const Eval& e) { return absV(e, f, baseTwist(e.s)); });
        for (int k = 0; k < 2; ++k) {
            add("absoluteVelocity(" + f + ",twist" + std::to_string(k) + ")", [=](Srv& s) { return s.es->absoluteVelocity(f, k ? s.twist2 : s.twist); }, [=](const Eval& e) { return absV(e, f, twistV(k)); });
            add("quaternionError(" + f + "," + std::to_string(k) + ")", [=](Srv& s) { return s.es->quaternionError(f, k ? s.desired2 : s.desired); }, [=](const Eval& e) { return quatM(rotOfQ(desiredQ(k)).transpose() * rotM(e.k.getWorldTransform(e.c.m.getFrameIndex(f)).getRotation())); }, 2, true);
        }
    }
    for (iDynTree::LinkIndex l = 0; l < iDynTree::LinkIndex(c.m.getNrOfLinks()); ++l) {
        std::string ln = c.m.getLinkName(l);
        add("linkInertia(" + ln + ")", [=](Srv& s) { return s.es->linkInertia(l); }, [=](const Eval& e) { return fixedM(e.c.m.getLink(l)->getInertia().asMatrix()); });
        add("linkInertiaInBase(" + ln + ")", [=](Srv& s) { return s.es->linkInertiaInBase(l); }, [=](const Eval& e) { return Mat(fixedM(rel(e, e.c.base, ln).asAdjointTransformWrench()) * fixedM(e.c.m.getLink(l)->getInertia().asMatrix())); });
    }
    add("compositeRigidBodyInertia", [](Srv& s) { return s.es->compositeRigidBodyInertia(); }, [](const Eval& e) { Mat o = Mat::Zero(6, 6); for (size_t l = 0; l < e.c.m.getNrOfLinks(); ++l) { auto ln = e.c.m.getLinkName(iDynTree::LinkIndex(l)); o += fixedM(rel(e, e.c.base, ln).asAdjointTransformWrench()) * fixedM(e.c.m.getLink(iDynTree::LinkIndex(l))->getInertia().asMatrix()) * fixedM(rel(e, ln, e.c.base).asAdjointTransform()); } return o; });
    add("momentumInBase(baseTwist)", [](Srv& s) { return MomentumInBaseExpression(s.es.get(), s.es->baseTwist().asVariable()); }, [](const Eval& e) { return momentum(e, baseTwist(e.s)); });
    for (int k = 0; k < 2; ++k) add("momentumInBase(twist" + std::to_string(k) + ")", [k](Srv& s) { return MomentumInBaseExpression(s.es.get(), k ? s.twist2 : s.twist); }, [k](const Eval& e) { return momentum(e, twistV(k)); }, -9);   // its joints derivative is defined at the twist of the state only
    for (int k = 0; k < 2; ++k) for (unsigned j : {0u, n - 1}) add("momentumInBaseJointsDoubleDerivative(twist" + std::to_string(k) + "," + std::to_string(j) + ")", [k, j](Srv& s) { return s.es->momentumInBaseJointsDoubleDerivative(k ? s.twist2 : s.twist, j); }, [k, j](const Eval& e) {
        // second differences of the momentum
        unsigned nn = unsigned(e.s.s.size()); Mat o(6, nn); const double h = 2e-4;
        auto f = [&](double a, unsigned q, double bb) { RobotState x = e.s; x.s(j) += a; x.s(q) += bb; KD kk(e.c.m, e.c.base, x, iDynTree::Vector3(), iDynTree::MIXED_REPRESENTATION); return momentum(Eval{e.c, x, kk.k}, twistV(k)); };
        for (unsigned q = 0; q < nn; ++q) o.col(q) = (f(h, q, h) - f(h, q, -h) - f(-h, q, h) + f(-h, q, -h)) / (4 * h * h);
        return o; }, -4);
    add("CoMAdjointTransformWrench", [](Srv& s) { return CoMAdjointTransformWrench(s.es->baseRotation(), s.es->comInBase()); }, [](const Eval& e) { iDynTree::Position p; Mat q = comB(e); for (unsigned i = 0; i < 3; ++i) p(i) = q(i, 0); iDynTree::Transform t(baseOf(e.s).getRotation(), iDynTree::Position(0, 0, 0)), u(iDynTree::Rotation::Identity(), iDynTree::Position(-p(0), -p(1), -p(2))); return Mat(fixedM(t.asAdjointTransformWrench()) * fixedM(u.asAdjointTransformWrench())); });
    return v;
}
static Srv makeServer(const Ctx& c, double tolerance = -1) {
    Srv s; s.c = c; s.t = std::make_shared<TimelySharedKinDynComputations>();
    if (!s.t->loadRobotModel(c.m) || !s.t->setFloatingBase(c.base)) throw Violation{"setup", "model refused"};
    if (tolerance > 0) s.t->setToleranceForUpdate(tolerance);
    s.t->setTimings({0.0, 1.0});
    s.es = std::make_shared<ExpressionsServer>(s.t);
    s.desired = desiredQ(0); s.desired2 = desiredQ(1); s.twist = twistV(0); s.twist2 = twistV(1);
    return s;
}
// the six variables of a state, flattened
static std::vector<std::pair<std::string, int>> varDims(unsigned n) { return {{"baseQuaternion", 4}, {"basePosition", 3}, {"joints", int(n)}, {"jointsVelocity", int(n)}, {"baseLinearVelocity", 3}, {"baseQuaternionVelocity", 4}}; }
static levi::Variable var(Srv& s, int v) { switch (v) { case 0: return s.es->baseQuaternion(); case 1: return s.es->basePosition(); case 2: return s.es->jointsPosition(); case 3: return s.es->jointsVelocity(); case 4: return s.es->baseLinearVelocity(); default: return s.es->baseQuaternionVelocity(); } }
static double& comp(RobotState& r, int v, int i) { unsigned u = unsigned(i); switch (v) { case 0: return r.base_quaternion(u); case 1: return r.base_position(u); case 2: return r.s(u); case 3: return r.s_dot(u); case 4: return r.base_linearVelocity(u); default: return r.base_quaternionVelocity(u); } }
static Mat refAt(const Entry& en, const Ctx& c, const RobotState& s) { KD k(c.m, c.base, s, iDynTree::Vector3(), iDynTree::BODY_FIXED_REPRESENTATION); return en.ref(Eval{c, s, k.k}); }
static std::string diff(const Mat& got, const Mat& want, double tol) {
    if (got.rows() != want.rows() || got.cols() != want.cols()) return "size " + std::to_string(got.rows()) + "x" + std::to_string(got.cols()) + ", expected " + std::to_string(want.rows()) + "x" + std::to_string(want.cols());
    for (int i = 0; i < got.rows(); ++i) for (int j = 0; j < got.cols(); ++j) if (!(std::fabs(got(i, j) - want(i, j)) <= tol * (1 + std::fabs(want(i, j))))) return "entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + num(got(i, j)) + ", expected " + num(want(i, j));
    return "";
}
static iDynTree::Model renamed() { // same robot; names whose concatenations coincide
    std::ifstream f(std::string(VERIF_DIR) + "/harness/biped.urdf"); std::stringstream ss; ss << f.rdbuf(); std::string t = ss.str();
    auto rep = [&](const std::string& a, const std::string& b) { std::string x = "\"" + a + "\"", y = "\"" + b + "\""; for (size_t p = 0; (p = t.find(x, p)) != std::string::npos; p += y.size()) t.replace(p, x.size(), y); };
    rep("l_sole", "frameA"); rep("r_sole", "frameB"); rep("neck_2", "frameC");
    rep("root_link", "leg"); rep("chest", "legleg"); rep("l_upper_leg", "leglegleg"); rep("l_lower_leg", "g"); rep("r_upper_leg", "le"); rep("r_lower_leg", "gleg");
    iDynTree::ModelLoader l; if (!l.loadModelFromString(t)) throw Violation{"setup", "renamed model"};
    return l.model();
}
static iDynTree::Model longChain() { // thirteen links; the links of index 1 and 11 are adjacent
    std::ostringstream u; auto nm = [](int i) { return (i == 11 ? "z" : "k") + std::to_string(i); }; u << "<robot name=\"chain\">";
    for (int i = 0; i < 13; ++i) u << "<link name=\"" << nm(i) << "\"><inertial><origin xyz=\"0.01 0." << i << " 0\" rpy=\"0.1 0 0\"/><mass value=\"1.0\"/><inertia ixx=\"0.02\" ixy=\"0\" ixz=\"0\" iyy=\"0.03\" iyz=\"0\" izz=\"0.04\"/></inertial></link>";
    for (int i = 0; i < 12; ++i) { int a = i < 10 ? 0 : i == 10 ? 9 : i, b = i + 1; 
        u << "<joint name=\"q" << i << "\" type=\"" << "revolute" << "\"><parent link=\"" << nm(a) << "\"/><child link=\"" << nm(b) << "\"/><origin xyz=\"0.1 0 0." << i << "\" rpy=\"0.1 0.2 0\"/><axis xyz=\"0 0.6 0.8\"/><limit lower=\"-1\" upper=\"1\" effort=\"1\" velocity=\"1\"/></joint>"; }
    u << "</robot>"; iDynTree::ModelLoader l; if (!l.loadModelFromString(u.str())) throw Violation{"setup", "chain model"};
    iDynTree::Model m = l.model();
    if (m.getLinkIndex("k9") != 1 || m.getLinkIndex("z11") != 11) throw Violation{"setup", "links are not in the intended order"};
    return m;
}
static void explore(mc::Runner& R) {
    R.rule = "every expression of the catalogue (all kinds, six frame pairs) x base links x generic states: value, all first derivatives with respect to the six state variables, all second derivatives; and every history up to a depth of state updates (two instants, three states), updates by time only, foreign kinematic queries, evaluations in both orders, late requests of expressions and derivatives";
    R.stateWord = "(expression, base, state) and history prefixes";
    R.assumptions = {"iDynTree freshly built is the reference; derivatives are judged by central differences", "the derivative with respect to the desired quaternion is documented as not provided"};
    std::vector<Ctx> ctxs = {{biped(), "root_link"}, {biped(), "r_lower_leg"}, {bipedReduced(), "root_link"}, {renamed(), "leg"}, {longChain(), "k0"}};
    for (size_t ci = 0; ci < ctxs.size(); ++ci) {
        const Ctx& c = ctxs[ci];
        unsigned n = unsigned(c.m.getNrOfDOFs());
        auto C = catalogue(c);
        int states = ci >= 3 ? 1 : R.thorough() ? 4 : 2;
        for (auto& en : C) for (int st = 0; st < states; ++st) R.run(std::string("robot ") + std::to_string(ci) + " base " + c.base + " state " + std::to_string(st) + " " + en.name, [&] {
            RobotState s = robotState(n, st);
            Srv srv = makeServer(c);
            // requests of other expressions first: an answer must not depend on what was asked before
            if (ci >= 3) for (auto& o : C) { auto x = o.make(srv); if (o.order > 0) { auto y = x.getColumnDerivative(0, srv.es->jointsPosition()); if (x.cols() > 3) (void)x.getColumnDerivative(3, srv.es->jointsPosition()); (void)y; } }
            else if (st % 2) for (auto& o : C) if (o.name != en.name && o.name.substr(0, 8) == en.name.substr(0, 8)) (void)o.make(srv).isValidExpression();
            R.check(srv.es->updateRobotState(0.0, s), "update-failed", "");
            levi::Expression e = en.make(srv);
            R.check(e.isValidExpression(), "invalid-expression", en.name);
            Mat want = refAt(en, c, s), got = e.evaluate();
            double sg = 1;
            if (en.sign) { if (std::fabs(want(0, 0)) < 0.05) return; if (got.size() == want.size() && (got - want).norm() > (got + want).norm()) { sg = -1; want = -want; } }
            double vt = en.order == -6 ? 1e-6 : en.order == -4 ? 1e-4 : 1e-9;
            std::string d = diff(got, want, vt);
            R.evals(); R.states(); R.transitions();
            R.check(d.empty(), "value", en.name + ": " + d);
            R.check(e.rows() == want.rows() && e.cols() == want.cols(), "declared-size", en.name + " declares " + std::to_string(e.rows()) + "x" + std::to_string(e.cols()));
            // derivatives
            auto D = varDims(n);
            std::vector<std::pair<int, int>> flat; for (int v = 0; v < 6; ++v) for (int i = 0; i < D[v].second; ++i) flat.push_back({v, i});
            int cols = int(want.cols());
            bool heavy = en.order < 0;
            if (heavy) return;      // already second derivatives
            const double h1 = 1e-5, h2 = 3e-4;
            std::vector<Mat> G(flat.size());
            auto at = [&](std::vector<std::pair<int, double>> dl) { RobotState x = s; for (auto& q : dl) comp(x, flat[size_t(q.first)].first, flat[size_t(q.first)].second) += q.second; Mat r = refAt(en, c, x); return Mat(sg * r); };
            for (size_t a = 0; a < flat.size(); ++a) G[a] = (at({{int(a), h1}}) - at({{int(a), -h1}})) / (2 * h1);
            // second differences only in the directions which matter: quadratic cost
            bool second = ci < 3 && (st == 0 || R.thorough()) && c.base == "root_link";
            std::vector<std::vector<Mat>> H;
            if (second) { H.assign(flat.size(), std::vector<Mat>(flat.size())); for (size_t a = 0; a < flat.size(); ++a) for (size_t b = a; b < flat.size(); ++b) { if (G[a].cwiseAbs().maxCoeff() < 1e-8 && G[b].cwiseAbs().maxCoeff() < 1e-8) H[a][b] = Mat::Zero(want.rows(), cols); else H[a][b] = (at({{int(a), h2}, {int(b), h2}}) - at({{int(a), h2}, {int(b), -h2}}) - at({{int(a), -h2}, {int(b), h2}}) + at({{int(a), -h2}, {int(b), -h2}})) / (4 * h2 * h2); H[b][a] = H[a][b]; } }
            size_t offV[7] = {0}; for (int v = 0; v < 6; ++v) offV[v + 1] = offV[v] + size_t(D[v].second);
            for (int col = 0; col < cols; ++col) for (int v = 0; v < 6; ++v) {
                std::string where = en.name + ", derivative of column " + std::to_string(col) + " with respect to " + D[v].first;
                R.note(where);
                levi::Expression de = e.getColumnDerivative(col, var(srv, v));
                R.check(de.isValidExpression(), "derivative-invalid", where);
                Mat w(want.rows(), D[v].second); for (int i = 0; i < D[v].second; ++i) w.col(i) = G[offV[v] + size_t(i)].col(col);
                Mat g = de.evaluate();
                std::string dd = diff(g, w, 2e-6);
                R.evals(); R.transitions();
                R.check(dd.empty(), "first-derivative", where + ": " + dd);
                if (!second) continue;
                for (int k = 0; k < D[v].second; ++k) for (int u = 0; u < 6; ++u) {
                    std::string where2 = where + ", then of its column " + std::to_string(k) + " with respect to " + D[u].first;
                    R.note(where2);
                    levi::Expression d2 = de.getColumnDerivative(k, var(srv, u));
                    R.check(d2.isValidExpression(), "derivative-invalid", where2);
                    Mat w2(want.rows(), D[u].second); for (int i = 0; i < D[u].second; ++i) w2.col(i) = H[offV[v] + size_t(k)][offV[u] + size_t(i)].col(col);
                    std::string d3 = diff(d2.evaluate(), w2, 3e-5);
                    R.evals();
                    R.check(d3.empty(), "second-derivative", where2 + ": " + d3);
                }
            }
        });
    }
    // ---- histories
    const Ctx& c = ctxs[0];
    unsigned n = unsigned(c.m.getNrOfDOFs());
    auto all = catalogue(c);
    std::vector<Entry> C;
    for (auto& nm : {"baseRotation", "baseTwist", "worldToBase*comInBase", "comInBaseHessian(1)", "adjointTransform(root_link,l_sole)", "adjointTransformWrench(r_lower_leg,root_link)", "adjointTransformJointsDerivative(l_sole,neck_2)", "relativePosition(root_link,l_sole)", "relativeQuaternion(l_sole,neck_2)", "relativeRotation(r_lower_leg,root_link)",
                     "relativeLeftJacobian(l_lower_leg,r_sole)", "relativeVelocity(root_link,l_sole)", "absoluteVelocity(l_sole)", "absoluteVelocity(neck_2,twist1)", "quaternionError(l_sole,0)", "linkInertiaInBase(l_lower_leg)", "compositeRigidBodyInertia", "momentumInBase(baseTwist)", "CoMAdjointTransformWrench"})
        for (auto& e : all) if (e.name == nm) C.push_back(e);
    std::vector<RobotState> S = {robotState(n, 0), robotState(n, 1)};
    for (int o = 1; o <= 6; ++o) S.push_back(robotState(n, 0, o, 1e-3));
    // reference: value and joints derivative, velocity derivative of every expression in every state
    struct Refs { Mat v, dq, db; }; std::vector<std::vector<Refs>> ref;
    for (auto& e : C) { std::vector<Refs> row; for (auto& s : S) { Refs r; r.v = refAt(e, c, s); if (e.order > 0) { const double h = 1e-5; r.dq = Mat(r.v.rows(), n); for (unsigned j = 0; j < n; ++j) { RobotState a = s, b = s; a.s(j) += h; b.s(j) -= h; r.dq.col(j) = (refAt(e, c, a).col(0) - refAt(e, c, b).col(0)) / (2 * h); }
        r.db = Mat(r.v.rows(), 4); for (unsigned j = 0; j < 4; ++j) { RobotState a = s, b = s; a.base_quaternion(j) += h; b.base_quaternion(j) -= h; r.db.col(j) = (refAt(e, c, a).col(0) - refAt(e, c, b).col(0)) / (2 * h); } } row.push_back(r); } ref.push_back(row); }
    struct Op { std::string name; char k; double t; int s; };
    auto run = [&](const std::vector<Op>& h) {
        Srv srv = makeServer(c);
        int cur = -1, curT = 0; int kin[2] = {-1, -1};
        std::vector<levi::Expression> E(C.size()), DQ(C.size()), DB(C.size()); std::vector<char> have(C.size(), 0), haveD(C.size(), 0);
        std::string trace;
        auto same = [&](const Mat& g, const Mat& w, double tol, bool sign) { std::string d = diff(g, w, tol); return d.empty() || (sign && diff(g, -w, tol).empty()) ? std::string() : d; };
        auto evaluate = [&](bool rev, int what) { // what: 1 values, 2 derivatives, 3 both
            if (cur < 0) return;
            for (size_t q = 0; q < C.size(); ++q) {
                size_t i = rev ? C.size() - 1 - q : q; const Entry& en = C[i];
                if (!have[i]) { E[i] = en.make(srv); have[i] = 1; }
                R.evals();
                double vt = en.order == -6 ? 1e-6 : 1e-9;
                if (what & 1) { std::string d = same(E[i].evaluate(), ref[i][size_t(cur)].v, vt, en.sign); R.check(d.empty(), "history-value", trace + ": " + en.name + " " + d); }
                if ((what & 2) && en.order > 0) {
                    if (!haveD[i]) { DQ[i] = E[i].getColumnDerivative(0, srv.es->jointsPosition()); DB[i] = E[i].getColumnDerivative(0, srv.es->baseQuaternion()); haveD[i] = 1; }
                    std::string d = same(DQ[i].evaluate(), ref[i][size_t(cur)].dq, 2e-6, en.sign); R.check(d.empty(), "history-derivative", trace + ": joints derivative of " + en.name + " " + d);
                    d = same(DB[i].evaluate(), ref[i][size_t(cur)].db, 2e-6, en.sign); R.check(d.empty(), "history-derivative", trace + ": base quaternion derivative of " + en.name + " " + d);
                }
            }
            if (kin[curT] != cur) kin[curT] = -1;
        };
        auto variables = [&] {
            if (cur < 0) return;
            const RobotState& w = S[size_t(cur)]; std::string d;
            auto D = varDims(n);
            for (int v = 0; v < 6; ++v) { Mat g = var(srv, v).evaluate(); RobotState x = w; for (int i = 0; i < D[size_t(v)].second; ++i) if (g(i, 0) != comp(x, v, i)) d = D[size_t(v)].first + "[" + std::to_string(i) + "] is " + num(g(i, 0)) + ", the state has " + num(comp(x, v, i)); }
            R.check(d.empty(), "stale-variable", trace + ": " + d);
            RobotState got = srv.es->currentState(); bool eq = true; for (int v = 0; v < 6; ++v) for (int i = 0; i < D[size_t(v)].second; ++i) { RobotState x = w; if (comp(got, v, i) != comp(x, v, i)) eq = false; }
            R.check(eq, "stale-state", trace + ": currentState() is not the state the server was updated to");
        };
        for (auto& o : h) {
            int ti = o.t < 0.5 ? 0 : 1;
            trace += (trace.empty() ? "" : "; ") + o.name; R.transitions();
            switch (o.k) {
            case 'U': R.check(srv.es->updateRobotState(o.t, S[size_t(o.s)]), "update-failed", trace); cur = o.s; curT = ti; kin[ti] = o.s; break;
            case 'u': if (kin[ti] < 0) { trace += "(skipped)"; continue; } R.check(srv.es->updateRobotState(o.t), "update-failed", trace); cur = kin[ti]; curT = ti; break;
            case 'f': { RobotState x = S[size_t(o.s)]; iDynTree::MatrixDynSize J(6, n + 6); srv.t->get(o.t)->getFrameFreeFloatingJacobian(x, c.m.getFrameIndex("l_sole"), J, iDynTree::MIXED_REPRESENTATION); kin[ti] = o.s; break; }
            case 'E': evaluate(o.s, 1); break;
            case 'D': evaluate(o.s, 2); break;
            }
            variables();
        }
        trace += "; (final)";
        evaluate(false, 3);
        R.states();
    };
    std::vector<Op> A;
    for (int t = 0; t < 2; ++t) for (int s : {0, 1}) A.push_back({"update(t=" + std::to_string(t) + ", state " + std::to_string(s) + ")", 'U', double(t), s});
    A.push_back({"update(t=0.3, state 0)", 'U', 0.3, 0});
    for (int t = 0; t < 2; ++t) A.push_back({"update(t=" + std::to_string(t) + ")", 'u', double(t), 0});
    for (int t = 0; t < 2; ++t) A.push_back({"query of the kinematics at t=" + std::to_string(t) + " in state 1", 'f', double(t), 1});
    A.push_back({"evaluate", 'E', 0, 0}); A.push_back({"evaluate backwards", 'E', 0, 1}); A.push_back({"evaluate derivatives", 'D', 0, 0});
    int depth = R.thorough() ? 5 : 4;
    for (size_t a = 0; a < A.size(); ++a) for (size_t b = 0; b < A.size(); ++b) {
        if (A[a].k == 'E' || A[a].k == 'D' || A[a].k == 'u') continue; // nothing to observe yet
        R.run("histories from " + A[a].name + "; " + A[b].name, [&, a, b] {
            std::vector<Op> h{A[a], A[b]};
            std::function<void()> rec = [&] { if (int(h.size()) == depth) { run(h); return; } for (auto& o : A) { h.push_back(o); rec(); h.pop_back(); } };
            rec();
        });
    }
    // states which differ in one component only
    for (int o = 2; o < 8; ++o) R.run("one component changes: " + std::to_string(o - 1), [&, o] {
        for (int t2 = 0; t2 < 2; ++t2) for (int ev = 0; ev < 3; ++ev) for (int back = 0; back < 3; ++back) {
            std::vector<Op> h{{"update(t=0, state 0)", 'U', 0, 0}};
            if (ev) h.push_back({"evaluate", ev == 1 ? 'E' : 'D', 0, 0});
            h.push_back({"update(t=" + std::to_string(t2) + ", state 0 with component " + std::to_string(o - 1) + " changed)", 'U', double(t2), o});
            if (ev) h.push_back({"evaluate", ev == 1 ? 'E' : 'D', 0, 0});
            if (back == 1) h.push_back({"update(t=0, state 0)", 'U', 0, 0}); if (back == 2) h.push_back({"update(t=0)", 'u', 0, 0});
            run(h);
        }
    });
}
int main(int argc, char** argv) { mc::Runner R; return R.main(argc, argv, "V09", explore); }
