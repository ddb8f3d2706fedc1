// V05: a squeezed expression, and a set of expressions squeezed together, evaluate to the expressions themselves
// after every history of assignments and evaluations.
#include "levi_enum.h"
using namespace lt;
static void compare(mc::Runner& R, const Eigen::MatrixXd& got, const Mat& want, const std::string& sig, const std::string& w) {
    if (!(got.rows() == want.r && got.cols() == want.c)) R.check(false, sig + "-size", "size " + std::to_string(got.rows()) + "x" + std::to_string(got.cols()) + " expected " + std::to_string(want.r) + "x" + std::to_string(want.c) + ": " + w);
    double tol = 1e-9 * (1 + span(want));
    for (int i = 0; i < want.r; ++i) for (int j = 0; j < want.c; ++j)
        if (!(std::fabs(got(i, j) - want(i, j).v) <= tol)) R.check(false, sig, "entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + mc::num(got(i, j)) + ", expected " + mc::num(want(i, j).v) + ": " + w);
    R.evals();
}
static Mat derivative(const Mat& m, int col, int k) { Mat d(m.r, DIM[k]); for (int i = 0; i < m.r; ++i) for (int j = 0; j < DIM[k]; ++j) d(i, j) = Jet(m(i, col).g[OFF[k] + j]); return d; }
// the order of evaluations after each assignment is enumerated too: s squeezed, m together, e plain
static void one(mc::Runner& R, const std::string& fam, const TP& t, bool histories) {
    R.run(fam + " " + t->s, [&] {
        if (!tame(*t)) { R.note("skipped"); return; }
        auto A = assignments();
        static const char* ORD[] = {"smed", "edms", "m-s-", "s-m-", "d-e-"};
        for (int o = 0; o < (histories ? 5 : 2); ++o) {
            Env env; env.share = true;
            levi::Expression e = env.build(t);
            if (!e.isValidExpression()) return;
            levi::Expression s = e.squeeze("s");
            int dk = -1; for (int k = 0; k < 3 && dk < 0; ++k) if (e.isDependentFrom(levi::Variable(env.var[k]))) dk = k;
            levi::Expression d, ds;
            if (dk >= 0) { d = e.getColumnDerivative(t->c - 1, env.var[dk]); ds = d.squeeze("ds"); }
            levi::DefaultMultipleExpressionsMap map;
            map["e"] = e; map["n"] = -e; map["x"] = env.leaf[0]; map["t"] = (t->r == 1 && t->c == 1) ? e : levi::Expression(e.transpose());
            if (t->a) map["a"] = env.build(t->a);
            if (t->b) map["b"] = env.build(t->b);
            if (dk >= 0) map["d"] = d;
            auto multi = levi::SqueezeMultipleExpressions(map);
            levi::Expression again = s + e;       // a squeezed expression inside another one
            auto readAll = [&](const Val& v, const std::string& w) {
                Mat m = ref(*t, v);
                for (const char* c = ORD[o]; *c; ++c) switch (*c) {
                case 's': compare(R, s.evaluate(), m, "squeezed", w); break;
                case 'e': compare(R, e.evaluate(), m, "plain", w); { Mat q = m; for (auto& j : q.d) j = j + j; compare(R, again.evaluate(), q, "squeezed-operand", w); } break;
                case 'd': if (dk >= 0) compare(R, ds.evaluate(), derivative(m, t->c - 1, dk), "squeezed-derivative", w); break;
                case 'm': {
                    auto& out = multi->evaluate();
                    if (!(out.size() == map.size())) R.check(false, "multi-missing", w);
                    compare(R, out.at("e"), m, "multi", w);
                    Mat n = m; for (auto& j : n.d) j = -j; compare(R, out.at("n"), n, "multi-negated", w);
                    Mat tr(m.c, m.r); for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) tr(j, i) = m(i, j); compare(R, out.at("t"), tr, "multi-transposed", w);
                    Mat x(3, 1); for (int i = 0; i < 3; ++i) x(i, 0) = Jet(v[i]); compare(R, out.at("x"), x, "multi-variable", w);
                    if (t->a) compare(R, out.at("a"), ref(*t->a, v), "multi-operand", w);
                    if (t->b) compare(R, out.at("b"), ref(*t->b, v), "multi-operand", w);
                    if (dk >= 0) compare(R, out.at("d"), derivative(m, t->c - 1, dk), "multi-derivative", w);
                    break; }
                default: break;
                }
            };
            Val cur = A[0]; env.set(cur);
            readAll(cur, t->s + " order " + ORD[o]);
            for (int k = 0; k < 3; ++k) {
                Val n = cur; for (int i = 0; i < DIM[k]; ++i) n[OFF[k] + i] = A[1][OFF[k] + i];
                if (!(spanAll(*t, n) < 2000)) continue;
                env.set(k, n); cur = n;
                readAll(cur, t->s + " order " + ORD[o] + " after changing " + VNAME[k]);
                R.transitions(4);
            }
        }
        R.states();
    });
}
static void explore(mc::Runner& R) {
    R.rule = "every term of depth up to 2 and every sum of up to 3 and product of up to 4 operands of a family, squeezed alone, with its derivative, inside another expression, and together with its operands and variants; all variables assigned in turn, with enumerated orders of evaluation";
    R.stateWord = "expression terms";
    R.assumptions = {"terms whose intermediate values exceed 2000 are skipped"};
    Families F;
    F.depth1([&](const TP& t) { one(R, "d1", t, true); });
    F.depth2([&](const TP& t) { one(R, "d2", t, R.thorough()); }, false);
    F.sums([&](const TP& t) { one(R, "sum", t, false); }, R.thorough() ? 4 : 3);
    F.products([&](const TP& t) { one(R, "prod", t, false); }, 4);
}
int main(int argc, char** argv) { mc::Runner R; return R.main(argc, argv, "V05", explore); }
