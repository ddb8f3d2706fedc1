// Independent references for robot quantities: a *fresh* iDynTree::KinDynComputations per evaluation and
// central finite differences of it for the joints derivatives. Shared by the kinematics harnesses.
#pragma once
#include "dp.h"
#include <DynamicalPlannerPrivate/Utilities/SharedKinDynComputations.h>
#include <DynamicalPlannerPrivate/Utilities/TimelySharedKinDynComputations.h>
#include <iDynTree/KinDynComputations.h>
#include <iDynTree/Core/EigenHelpers.h>
namespace mc {
using DynamicalPlanner::Private::RobotState;
typedef std::vector<double> Num;
inline Num flat(const iDynTree::Transform& t) { Num r; for (unsigned i = 0; i < 3; ++i) { r.push_back(t.getPosition()(i)); for (unsigned j = 0; j < 3; ++j) r.push_back(t.getRotation()(i, j)); } return r; }
inline Num flat(const iDynTree::MatrixDynSize& m) { Num r; for (unsigned i = 0; i < m.rows(); ++i) for (unsigned j = 0; j < m.cols(); ++j) r.push_back(m(i, j)); return r; }
template <class V> Num flatV(const V& v, size_t n) { Num r; for (size_t i = 0; i < n; ++i) r.push_back(v(unsigned(i))); return r; }
// the velocity of the base in body coordinates, from the quaternion and its derivative
inline std::array<double, 3> bodyOmega(const RobotState& s, std::array<double, 4>& q) {
    double n = 0; for (unsigned i = 0; i < 4; ++i) n += s.base_quaternion(i) * s.base_quaternion(i); n = std::sqrt(n);
    for (unsigned i = 0; i < 4; ++i) q[i] = s.base_quaternion(i) / n;
    const auto& d = s.base_quaternionVelocity;
    // 2 * vec( conj(q) (x) qdot )
    return {2 * (q[0] * d(1) - q[1] * d(0) - q[2] * d(3) + q[3] * d(2)),
            2 * (q[0] * d(2) - q[2] * d(0) - q[3] * d(1) + q[1] * d(3)),
            2 * (q[0] * d(3) - q[3] * d(0) - q[1] * d(2) + q[2] * d(1))};
}
inline iDynTree::Transform baseOf(const RobotState& s) {
    std::array<double, 4> q; bodyOmega(s, q);
    double w = q[0], x = q[1], y = q[2], z = q[3];
    iDynTree::Rotation R(1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y));
    return iDynTree::Transform(R, iDynTree::Position(s.base_position(0), s.base_position(1), s.base_position(2)));
}
struct KD {
    iDynTree::KinDynComputations k;
    KD(const iDynTree::Model& m, const std::string& base, const RobotState& s, const iDynTree::Vector3& g, iDynTree::FrameVelocityRepresentation rep) {
        k.loadRobotModel(m); k.setFloatingBase(base);
        k.setFrameVelocityRepresentation(iDynTree::BODY_FIXED_REPRESENTATION);
        std::array<double, 4> q; auto w = bodyOmega(s, q);
        iDynTree::Twist t; t.zero(); for (unsigned i = 0; i < 3; ++i) { t.getLinearVec3()(i) = s.base_linearVelocity(i); t.getAngularVec3()(i) = w[i]; }
        k.setRobotState(baseOf(s), s.s, t, s.s_dot, g);
        k.setFrameVelocityRepresentation(rep);
    }
};
// static joint torques with external wrenches expressed in the links
inline Num staticTorques(const iDynTree::Model& m, const std::string& base, const RobotState& s, const iDynTree::Vector3& g, const iDynTree::LinkNetExternalWrenches& w) {
    // virtual work: tau_j = -( sum_links J_l^T w_l + gravity work ), from jacobians of a fresh computation
    RobotState z = s; z.s_dot.zero(); z.base_linearVelocity.zero(); z.base_quaternionVelocity.zero();
    KD k(m, base, z, g, iDynTree::BODY_FIXED_REPRESENTATION);
    unsigned n = unsigned(s.s.size());
    Num t(n + 6, 0.0);
    for (size_t l = 0; l < m.getNrOfLinks(); ++l) {
        iDynTree::MatrixDynSize J(6, n + 6);
        k.k.getFrameFreeFloatingJacobian(iDynTree::FrameIndex(l), J);
        // gravity as a wrench on the link, in link coordinates
        auto in = m.getLink(iDynTree::LinkIndex(l))->getInertia();
        double ms = in.getMass(); auto c = in.getCenterOfMass();
        auto R = k.k.getWorldTransform(iDynTree::FrameIndex(l)).getRotation();
        double f[3], mo[3];
        for (unsigned i = 0; i < 3; ++i) { f[i] = 0; for (unsigned j = 0; j < 3; ++j) f[i] += R(j, i) * g(j) * ms; }
        mo[0] = c(1) * f[2] - c(2) * f[1]; mo[1] = c(2) * f[0] - c(0) * f[2]; mo[2] = c(0) * f[1] - c(1) * f[0];
        for (unsigned j = 0; j < n + 6; ++j) for (unsigned i = 0; i < 3; ++i)
            t[j] -= J(i, j) * (f[i] + w(iDynTree::LinkIndex(l)).getLinearVec3()(i)) + J(i + 3, j) * (mo[i] + w(iDynTree::LinkIndex(l)).getAngularVec3()(i));
    }
    return t;
}
template <class F> Num jointsDerivative(const RobotState& s, F f) { // row-major rows x n, central differences
    unsigned n = unsigned(s.s.size());
    std::vector<Num> cols;
    for (unsigned j = 0; j < n; ++j) {
        const double h = 1e-5;
        RobotState a = s, b = s; a.s(j) += h; b.s(j) -= h;
        Num x = f(a), y = f(b); for (size_t i = 0; i < x.size(); ++i) x[i] = (x[i] - y[i]) / (2 * h);
        cols.push_back(x);
    }
    Num o; for (size_t i = 0; i < cols[0].size(); ++i) for (unsigned j = 0; j < n; ++j) o.push_back(cols[j][i]);
    return o;
}
inline std::string cmp(const Num& got, const Num& want, double tol) {
    if (got.size() != want.size()) return "size " + std::to_string(got.size()) + " expected " + std::to_string(want.size());
    for (size_t i = 0; i < got.size(); ++i) if (!(std::fabs(got[i] - want[i]) <= tol * (1 + std::fabs(want[i])))) return "entry " + std::to_string(i) + " is " + num(got[i]) + " expected " + num(want[i]);
    return "";
}
// a deterministic, generic robot state; `which` selects a base point, `only` (1..6) perturbs one component of it
inline RobotState robotState(unsigned n, int which, int only = 0, double amount = 0.3) {
    RobotState r; r.s.resize(n); r.s_dot.resize(n);
    double x = 0.37 + 0.71 * which; auto nx = [&] { x = std::fmod(x * 3.7 + 0.61, 2.0); return x - 1.0; };
    for (unsigned i = 0; i < 3; ++i) r.base_position(i) = nx();
    for (unsigned i = 0; i < 4; ++i) r.base_quaternion(i) = nx();
    r.base_quaternion(0) += 1.5;
    if (which % 2 == 0) { double q = 0; for (unsigned i = 0; i < 4; ++i) q += r.base_quaternion(i) * r.base_quaternion(i); for (unsigned i = 0; i < 4; ++i) r.base_quaternion(i) /= std::sqrt(q); }
    for (unsigned i = 0; i < n; ++i) r.s(i) = 0.6 * nx();
    for (unsigned i = 0; i < 3; ++i) r.base_linearVelocity(i) = nx();
    for (unsigned i = 0; i < 4; ++i) r.base_quaternionVelocity(i) = nx();
    for (unsigned i = 0; i < n; ++i) r.s_dot(i) = nx();
    switch (only) {
    case 1: r.base_position(2) += amount; break;
    case 2: r.base_quaternion(3) += amount; break;
    case 3: r.s(n - 1) += amount; break;
    case 4: r.base_linearVelocity(2) += amount; break;
    case 5: r.base_quaternionVelocity(3) += amount; break;
    case 6: r.s_dot(n - 1) += amount; break;
    }
    return r;
}
} // namespace mc
