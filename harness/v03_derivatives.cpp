// V03: first and second derivatives of every expression term equal the derivatives of the term.
#include "levi_enum.h"
#include "levi_typed.h"
using namespace lt;
static std::string nm(int k) { return VNAME[k]; }
static void one(mc::Runner& R, const std::string& fam, const TP& t, int order) {
    R.run(fam + " " + t->s, [&] {
        if (!tame(*t)) { R.note("skipped"); return; }
        auto A = assignments();
        Mat M[2] = {ref(*t, A[0]), ref(*t, A[1])};
        Env env;
        env.set(A[0]);
        levi::Expression e = env.build(t);
        struct D1 { int c, k; levi::Expression e; };
        struct D2 { int c, k, i, k2; levi::Expression e; };
        std::vector<D1> d1; std::vector<D2> d2;
        for (int c = 0; c < t->c; ++c) for (int k = 0; k < 3; ++k) {
            levi::Expression d = e.getColumnDerivative(c, env.var[k]);
            std::string w = "derivative of column " + std::to_string(c) + " with respect to " + nm(k) + " of " + t->s;
            if (!(d.isValidExpression())) R.check(false, "derivative-missing", w);
            if (!(d.rows() == t->r && d.cols() == DIM[k])) R.check(false, "derivative-size", "declares " + std::to_string(d.rows()) + "x" + std::to_string(d.cols()) + ": " + w);
            d1.push_back({c, k, d});
            if (order > 1) for (int i = 0; i < DIM[k]; ++i) for (int k2 = 0; k2 < 3; ++k2) {
                levi::Expression dd = d.getColumnDerivative(i, env.var[k2]);
                std::string w2 = "derivative of column " + std::to_string(i) + " with respect to " + nm(k2) + " of the " + w;
                if (!(dd.isValidExpression())) R.check(false, "second-derivative-missing", w2);
                if (!(dd.rows() == t->r && dd.cols() == DIM[k2])) R.check(false, "second-derivative-size", "declares " + std::to_string(dd.rows()) + "x" + std::to_string(dd.cols()) + ": " + w2);
                d2.push_back({c, k, i, k2, dd});
            }
        }
        for (int step = 0; step < 2; ++step) {
            if (step) env.set(A[1]);
            const Mat& m = M[step];
            double tol = 1e-8 * (1 + span(m));
            for (auto& d : d1) {
                const Eigen::MatrixXd& g = d.e.evaluate();
                auto w = [&] { return "derivative of column " + std::to_string(d.c) + " with respect to " + nm(d.k) + " of " + t->s + " at assignment " + std::to_string(step); };
                if (!(g.rows() == t->r && g.cols() == DIM[d.k])) R.check(false, "derivative-value-size", w());
                for (int r = 0; r < t->r; ++r) for (int j = 0; j < DIM[d.k]; ++j)
                    if (!(std::fabs(g(r, j) - m(r, d.c).g[OFF[d.k] + j]) <= tol)) R.check(false, "derivative", "entry (" + std::to_string(r) + "," + std::to_string(j) + ") is " + mc::num(g(r, j)) + ", expected " + mc::num(m(r, d.c).g[OFF[d.k] + j]) + ": " + w());
                R.evals();
            }
            for (auto& d : d2) {
                const Eigen::MatrixXd& g = d.e.evaluate();
                auto w = [&] { return "second derivative (" + nm(d.k) + std::to_string(d.i) + ", " + nm(d.k2) + ") of column " + std::to_string(d.c) + " of " + t->s + " at assignment " + std::to_string(step); };
                if (!(g.rows() == t->r && g.cols() == DIM[d.k2])) R.check(false, "second-derivative-value-size", w());
                for (int r = 0; r < t->r; ++r) for (int j = 0; j < DIM[d.k2]; ++j) {
                    double x = m(r, d.c).h[(OFF[d.k] + d.i) * NV + OFF[d.k2] + j];
                    if (!(std::fabs(g(r, j) - x) <= tol)) R.check(false, "second-derivative", "entry (" + std::to_string(r) + "," + std::to_string(j) + ") is " + mc::num(g(r, j)) + ", expected " + mc::num(x) + ": " + w());
                }
                R.evals();
            }
        }
        R.states();
        R.transitions(d1.size() + d2.size());
    });
}
static void explore(mc::Runner& R) {
    R.rule = "every term of the expression language over 12 leaves: first derivatives of all terms of depth up to 2, of sums of up to 3 (4) addends and products of up to 4 (5) factors with every association; second derivatives of all of them at depth 1 and for a fixed subset (thorough: all) beyond; every column and every variable, at two assignments";
    R.stateWord = "expression terms";
    R.assumptions = {"terms whose intermediate values or derivatives exceed 2000 are skipped", "oracle: second-order jets of the term, equality within 1e-8"};
    typedTerms(R, true);
    Families F;
    bool th = R.thorough();
    uint64_t n = 0;
    F.depth1([&](const TP& t) { one(R, "d1", t, 2); });
    F.depth2([&](const TP& t) { one(R, "d2", t, (n++ % 8 == 0 || th) ? 2 : 1); }, false);
    F.sums([&](const TP& t) { one(R, "sum", t, (n++ % 8 == 0 || th) ? 2 : 1); }, 3);
    F.products([&](const TP& t) { one(R, "prod", t, (n++ % 8 == 0 || th) ? 2 : 1); }, th ? 5 : 4);
}
int main(int argc, char** argv) { mc::Runner R; return R.main(argc, argv, "V03", explore); }
