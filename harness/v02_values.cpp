// V02: the value of an expression is the value of the mathematical term it was built from.
#include "levi_enum.h"
#include "levi_typed.h"
using namespace lt;
static void compare(mc::Runner& R, const Eigen::MatrixXd& got, const Mat& want, const std::string& sig, const std::string& w) {
    if (!(got.rows() == want.r && got.cols() == want.c)) R.check(false, sig + "-size", "size " + std::to_string(got.rows()) + "x" + std::to_string(got.cols()) + " expected " + std::to_string(want.r) + "x" + std::to_string(want.c) + ": " + w);
    double tol = 1e-9 * (1 + span(want));
    for (int i = 0; i < want.r; ++i) for (int j = 0; j < want.c; ++j)
        if (!(std::fabs(got(i, j) - want(i, j).v) <= tol)) R.check(false, sig, "entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + mc::num(got(i, j)) + ", expected " + mc::num(want(i, j).v) + ": " + w);
    R.evals();
}
static void one(mc::Runner& R, const std::string& fam, const TP& t) {
    R.run(fam + " " + t->s, [&] {
        if (!tame(*t)) { R.note("skipped"); return; }
        auto A = assignments();
        for (int share = 0; share < 2; ++share) {
            Env env; env.share = share;
            levi::Expression e = env.build(t);
            if (!(e.rows() == t->r && e.cols() == t->c)) R.check(false, "declared-size", "declares " + std::to_string(e.rows()) + "x" + std::to_string(e.cols()) + " expected " + std::to_string(t->r) + "x" + std::to_string(t->c) + ": " + t->s);
            // histories of assignments: all variables, then one variable at a time, then nothing
            Val cur = A[0];
            env.set(cur); compare(R, e.evaluate(), ref(*t, cur), "value", t->s + (share ? " shared" : ""));
            for (int k = 0; k < 3; ++k) {
                Val n = cur; for (int i = 0; i < DIM[k]; ++i) n[OFF[k] + i] = A[1][OFF[k] + i];
                if (!(spanAll(*t, n) < 2000)) continue;
                env.set(k, n); cur = n;
                compare(R, e.evaluate(), ref(*t, cur), "value-after-change", t->s + " after changing " + VNAME[k] + (share ? " shared" : ""));
                compare(R, e.evaluate(), ref(*t, cur), "value-again", t->s);
                R.transitions(2);
            }
        }
        R.states();
    });
}
static void explore(mc::Runner& R) {
    R.rule = "every term of the expression language over 12 leaves (3 variables, constants, identities, nulls): all terms of depth up to 2 (thorough: over the full depth-1 set on both sides), sums of up to 3 (4) addends with both associations, products of up to 4 (5) factors with every association";
    R.stateWord = "expression terms";
    R.assumptions = {"terms whose intermediate values exceed 2000 are skipped", "two generic assignments; equality within 1e-9"};
    typedTerms(R, false);
    Families F;
    F.depth1([&](const TP& t) { one(R, "d1", t); });
    F.depth2([&](const TP& t) { one(R, "d2", t); }, R.thorough());
    F.sums([&](const TP& t) { one(R, "sum", t); }, R.thorough() ? 4 : 3);
    F.products([&](const TP& t) { one(R, "prod", t); }, R.thorough() ? 5 : 4);
}
int main(int argc, char** argv) { mc::Runner R; return R.main(argc, argv, "V02", explore); }
