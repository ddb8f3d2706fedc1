// Terms built from operands with sizes known at compile time (vectors, matrices, scalars), mixed with dynamic ones.
#include "levi_enum.h"
#include "levi_typed.h"
using namespace lt;
namespace {
struct Ctx { mc::Runner& R; bool derivatives; };
template<class EV> constexpr int rows() { return int(EV::rows_at_compile_time); }
template<class EV> constexpr int cols() { return int(EV::cols_at_compile_time); }
constexpr bool compat(int a, int b) { return a == b || a == -1 || b == -1; }

struct TEnv {
    levi::FixedSizeVariable<3> X{3, "x"}; levi::Variable Y{2, "y"}; levi::FixedSizeVariable<1> Z{1, "z"};
    levi::ExpressionComponent<levi::Evaluable<Eigen::Matrix<double, 3, 1>>> x; levi::ColumnExpression y; levi::ScalarExpression z; levi::ExpressionComponent<levi::Evaluable<Eigen::Matrix<double, 1, 1>>> z1;
    levi::ExpressionComponent<levi::Evaluable<Eigen::Matrix<double, 3, 3>>> B; levi::ExpressionComponent<levi::Evaluable<Eigen::Matrix<double, 1, 3>>> r; levi::ExpressionComponent<levi::Evaluable<Eigen::Matrix<double, 2, 3>>> A; levi::ScalarExpression k; levi::Expression Ad;
    TEnv() : z(Z(0, 0)), k(levi::Scalar(constant(6)(0, 0))) {
        x = X; y = Y; z1 = Z;
        B = levi::FixedSizeConstant<3, 3>(Eigen::Matrix3d(constant(4)), "B");
        r = levi::FixedSizeConstant<1, 3>(Eigen::Matrix<double, 1, 3>(constant(5)), "r");
        A = levi::FixedSizeConstant<2, 3>(Eigen::Matrix<double, 2, 3>(constant(3)), "A");
        Ad = levi::Constant(constant(3), "A");
    }
    void set(const Val& v) { X = Eigen::Vector3d(v[0], v[1], v[2]); Y = Eigen::VectorXd(Eigen::Vector2d(v[3], v[4])); Eigen::Matrix<double, 1, 1> w; w << v[5]; Z = w; }
};

template<class EV> void judge(Ctx& C, TEnv& env, levi::ExpressionComponent<EV> e, const TP& t) {
    C.R.run("typed " + t->s, [&] {
        if (!tame(*t)) return;
        levi::Expression d = e;
        for (int step = 0; step < 2; ++step) {
            Val v = assignments()[step]; env.set(v);
            Mat m = ref(*t, v);
            double tol = 1e-8 * (1 + span(m));
            Eigen::MatrixXd g = d.evaluate();
            if (!(g.rows() == t->r && g.cols() == t->c && e.rows() == t->r && e.cols() == t->c)) C.R.check(false, "typed-size", t->s);
            if (!C.derivatives) for (int i = 0; i < t->r; ++i) for (int j = 0; j < t->c; ++j) if (!(std::fabs(g(i, j) - m(i, j).v) <= tol)) C.R.check(false, "typed-value", "entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + mc::num(g(i, j)) + " expected " + mc::num(m(i, j).v) + ": " + t->s);
            else for (int c = 0; c < t->c; ++c) for (int k = 0; k < 3; ++k) {
                auto der = [&](auto& ex, int col, int kk) -> levi::Expression { return kk == 0 ? levi::Expression(ex.getColumnDerivative(col, env.X)) : kk == 1 ? levi::Expression(ex.getColumnDerivative(col, env.Y)) : levi::Expression(ex.getColumnDerivative(col, env.Z)); };
                levi::Expression dd = der(e, c, k);
                Eigen::MatrixXd q = dd.evaluate();
                if (!(q.rows() == t->r && q.cols() == DIM[k])) C.R.check(false, "typed-derivative-size", t->s);
                for (int i = 0; i < t->r; ++i) for (int j = 0; j < DIM[k]; ++j) if (!(std::fabs(q(i, j) - m(i, c).g[OFF[k] + j]) <= tol)) C.R.check(false, "typed-derivative", std::string("d") + VNAME[k] + " column " + std::to_string(c) + " entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + mc::num(q(i, j)) + " expected " + mc::num(m(i, c).g[OFF[k] + j]) + ": " + t->s);
                for (int i = 0; i < DIM[k]; ++i) for (int k2 = 0; k2 < 3; ++k2) {
                    levi::Expression d2 = der(dd, i, k2);
                    Eigen::MatrixXd q2 = d2.evaluate();
                    for (int a = 0; a < t->r; ++a) for (int j = 0; j < DIM[k2]; ++j) { double w = m(a, c).h[(OFF[k] + i) * NV + OFF[k2] + j]; if (!(std::fabs(q2(a, j) - w) <= tol)) C.R.check(false, "typed-second-derivative", std::string("d") + VNAME[k] + VNAME[k2] + " is " + mc::num(q2(a, j)) + " expected " + mc::num(w) + ": " + t->s); }
                }
            }
            C.R.evals();
        }
        C.R.states(); C.R.transitions(2);
    });
}
TP un(Op op, const TP& a, int r, int c, const std::string& s, std::array<int, 4> p = {0, 0, 0, 0}, double e = 0) { auto t = mk(op, a, nullptr, r, c, s + "(" + a->s + ")"); for (int i = 0; i < 4; ++i) t->p[i] = p[i]; t->e = e; return t; }
TP bi(Op op, const TP& a, const TP& b, int r, int c, const std::string& s) { return mk(op, a, b, r, c, s + "(" + a->s + "," + b->s + ")"); }

// accessors of a typed expression
template<class EV> void probe(Ctx& C, TEnv& env, levi::ExpressionComponent<EV> e, const TP& t, bool deep) {
    constexpr bool scalar = std::is_arithmetic<typename EV::matrix_type>::value;
    judge(C, env, e, t);
    if (!deep) return;
    judge(C, env, -e, un(NEG, t, t->r, t->c, "neg"));
    judge(C, env, 0.5 * KMUL * e * 2.0, un(MULC, t, t->r, t->c, "scale"));
    judge(C, env, e / KMUL, un(DIVC, t, t->r, t->c, "div"));
    judge(C, env, e(t->r - 1, t->c - 1), un(ELEM, t, 1, 1, "el", {t->r - 1, t->c - 1}));
    judge(C, env, e(0, t->c - 1), un(ELEM, t, 1, 1, "el0", {0, t->c - 1}));
    if constexpr (!scalar) {
        judge(C, env, e.transpose(), un(TR, t, t->c, t->r, "tr"));
        judge(C, env, e.row(t->r - 1), un(ROW, t, 1, t->c, "row", {t->r - 1}));
        judge(C, env, e.col(t->c - 1), un(COL, t, t->r, 1, "col", {t->c - 1}));
        judge(C, env, e.block(t->r - 1, 0, 1, t->c), un(BLOCK, t, 1, t->c, "blk", {t->r - 1, 0, 1, t->c}));
        if constexpr (rows<EV>() == 3 && cols<EV>() == 3) { judge(C, env, e.template block<2, 2>(1, 0), un(BLOCK, t, 2, 2, "fblk", {1, 0, 2, 2})); judge(C, env, e.vee(), un(VEE, t, 3, 1, "vee")); judge(C, env, e.template block<3, 1>(0, 2), un(BLOCK, t, 3, 1, "fcol", {0, 2, 3, 1})); }
        if constexpr (rows<EV>() == 3 && cols<EV>() == 1) judge(C, env, e.skew(), un(SKEW, t, 3, 3, "skew"));
    } else judge(C, env, e.pow(3), un(POW, t, 1, 1, "pow3", {}, 3));
}
template<class L, class Rr> void pair(Ctx& C, TEnv& env, levi::ExpressionComponent<L> a, const TP& ta, levi::ExpressionComponent<Rr> b, const TP& tb, bool deep) {
    constexpr int ar = rows<L>(), ac = cols<L>(), br = rows<Rr>(), bc = cols<Rr>();
    constexpr bool as = std::is_arithmetic<typename L::matrix_type>::value, bs = std::is_arithmetic<typename Rr::matrix_type>::value;
    if constexpr (as == bs && compat(ar, br) && compat(ac, bc)) if (ta->r == tb->r && ta->c == tb->c) {
        probe(C, env, a + b, bi(ADD, ta, tb, ta->r, ta->c, "add"), deep);
        probe(C, env, a - b, bi(SUB, ta, tb, ta->r, ta->c, "sub"), deep);
    }
    if constexpr (as || bs) { TP t = bi(MUL, ta, tb, as ? tb->r : ta->r, as ? tb->c : ta->c, "mul"); if (as && bs) t->r = t->c = 1; probe(C, env, a * b, t, deep); }
    else if constexpr (compat(ac, br)) if (ta->c == tb->r && !(ta->r == 1 && ta->c == 1) && !(tb->r == 1 && tb->c == 1)) probe(C, env, a * b, bi(MUL, ta, tb, ta->r, tb->c, "mul"), deep);
    if constexpr (bs) probe(C, env, a / b, bi(DIV, ta, tb, ta->r, ta->c, "div"), deep);
    if constexpr (!as && !bs && compat(ar, br)) if (ta->r == tb->r) {
        judge(C, env, levi::Expression::Horzcat(a, b, "H"), bi(HORZ, ta, tb, ta->r, ta->c + tb->c, "horz"));
    }
    if constexpr (!as && !bs && compat(ac, bc)) if (ta->c == tb->c) judge(C, env, levi::Expression::Vertcat(a, b, "V"), bi(VERT, ta, tb, ta->r + tb->r, ta->c, "vert"));
}
}
void typedTerms(mc::Runner& R, bool derivatives) {
    Ctx C{R, derivatives};
    TEnv e;
    auto L = leaves();
    auto each = [&](auto f) { f(e.x, L[0]); f(e.z, L[2]); f(e.B, L[4]); f(e.r, L[5]); f(e.A, L[3]); f(e.k, L[6]); f(e.y, L[1]); f(e.Ad, L[3]); };
    each([&](auto a, const TP& ta) { probe(C, e, a, ta, true); each([&](auto b, const TP& tb) { pair(C, e, a, ta, b, tb, true); }); });
    // one level deeper with the products a robot expression is made of
    auto M = [&](const TP& a, const TP& b, int r, int c) { return bi(MUL, a, b, r, c, "mul"); };
    TP tBx = M(L[4], L[0], 3, 1), trx = M(L[5], L[0], 1, 1), tsk = un(SKEW, L[0], 3, 3, "skew"), txr = M(L[0], L[5], 3, 3), tzx = M(L[2], L[0], 3, 1), ttr = un(TR, L[0], 1, 3, "tr");
    auto deepEach = [&](auto f) { f(e.B * e.x, tBx); f(e.x.skew(), tsk); f(e.x * e.r, txr); f(e.z * e.x, tzx); f(e.x.transpose(), ttr); };
    deepEach([&](auto a, const TP& ta) { each([&](auto b, const TP& tb) { pair(C, e, a, ta, b, tb, false); pair(C, e, b, tb, a, ta, false); }); });
    deepEach([&](auto a, const TP& ta) { deepEach([&](auto b, const TP& tb) { pair(C, e, a, ta, b, tb, false); }); });
}
