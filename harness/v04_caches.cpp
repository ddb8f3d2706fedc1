// V04: whatever the history of assignments, evaluations, copies, re-bindings, derivative requests and cache clearing,
// an evaluation returns the value of the formula at the current values of its variables.
#define LT_NV 9
#include "levi_terms.h"
using namespace lt;
struct World { Val v; int m; };
static Eigen::Matrix3d mut(int i) { Eigen::Matrix3d a; a << 0.4, -1.3, 0.2, 0.8, 0.5, -0.7, -0.15, 1.1, 0.95; return i ? Eigen::Matrix3d(-0.6 * a.transpose() + Eigen::Matrix3d::Identity()) : a; }
enum { LX = 0, LY = 1, LZ = 2, LA = 3, LB = 4, Lr = 5, Lk = 6, LI = 7, LF = 11, LM = 12, LW = 13, LV = 14 };
struct Kit {                                // terms shared by the templates
    std::vector<TP> L; TP M, W, V;
    std::vector<TP> wdef;                   // what w follows
    Kit() {
        L = leaves();
        auto leaf = [&](int k, int r, int c, const char* n) { auto t = std::make_shared<Term>(); t->op = LEAF; t->p[0] = k; t->r = r; t->c = c; t->s = n; return t; };
        M = leaf(LM, 3, 3, "M"); W = leaf(LW, 3, 1, "w"); V = leaf(LV, 3, 1, "v");
        TP x = L[LX], z = L[LZ], B = L[LB];
        wdef = {mk(MUL, B, x, 3, 1, "B*x"), mk(MUL, z, x, 3, 1, "z*x"), mk(MUL, M, x, 3, 1, "M*x")};
    }
};
struct Template { TP root; int w; bool dependent; };
static TP un(Op op, TP a, int r, int c, const std::string& n, std::array<int, 4> p = {0, 0, 0, 0}, double e = 0) { auto t = mk(op, a, nullptr, r, c, n + "(" + a->s + ")"); for (int i = 0; i < 4; ++i) t->p[i] = p[i]; t->e = e; return t; }
static TP bi(Op op, TP a, TP b, int r, int c, const std::string& n) { return mk(op, a, b, r, c, "(" + a->s + n + b->s + ")"); }
static std::vector<Template> templates(const Kit& K, bool thorough) {
    TP x = K.L[LX], y = K.L[LY], z = K.L[LZ], B = K.L[LB], r = K.L[Lr], k = K.L[Lk], A = K.L[LA], I = K.L[LI], F = K.L[LF];
    std::vector<Template> o;
    auto add = [&](TP t, int w = -1) { if (w < 0) o.push_back({t, -1, true}); else for (int i = 0; i < (thorough ? 3 : 1); ++i) for (int d = 0; d < 2; ++d) o.push_back({t, (w + i) % 3, bool(d)}); };
    std::vector<TP> vec = {x, bi(MUL, K.M, x, 3, 1, "*"), K.W};
    for (size_t i = 0; i < vec.size(); ++i) {
        TP u = vec[i]; int w = i == 2 ? 1 : -1;
        TP zu = bi(MUL, z, u, 3, 1, "*"), sq = bi(MUL, un(TR, u, 1, 3, "tr"), u, 1, 1, "*");
        for (TP t : std::vector<TP>{un(NEG, u, 3, 1, "-"), un(TR, zu, 1, 3, "tr"), un(ROW, zu, 1, 1, "row2", {2}), un(ELEM, zu, 1, 1, "el1", {1, 0}), un(BLOCK, zu, 2, 1, "blk", {1, 0, 2, 1}), un(SKEW, zu, 3, 3, "skew"),
             un(VEE, un(SKEW, zu, 3, 3, "skew"), 3, 1, "vee"), un(POW, un(ELEM, u, 1, 1, "el0", {0, 0}), 1, 1, "pow2", {}, 2), un(POW, sq, 1, 1, "pow-1", {}, -1), bi(ADD, u, zu, 3, 1, "+"), bi(SUB, zu, u, 3, 1, "-"), bi(MUL, un(SKEW, u, 3, 3, "skew"), zu, 3, 1, "*"), bi(MUL, un(SKEW, u, 3, 3, "skew"), u, 3, 1, "*"), bi(MUL, sq, u, 3, 1, "*"),
             bi(DIV, zu, sq, 3, 1, "/"), bi(HORZ, u, zu, 3, 2, ","), bi(VERT, zu, y, 5, 1, ";"), bi(BYCOLS, zu, u, 3, 2, "|"), bi(BYROWS, un(TR, u, 1, 3, "tr"), un(TR, zu, 1, 3, "tr"), 2, 3, "/"), un(COL, bi(HORZ, u, zu, 3, 2, ","), 3, 1, "col1", {1}),
             un(ELEM, bi(MUL, B, un(SKEW, zu, 3, 3, "skew"), 3, 3, "*"), 1, 1, "el12", {1, 2}), bi(ADD, bi(MUL, K.M, zu, 3, 1, "*"), bi(MUL, K.M, u, 3, 1, "*"), 3, 1, "+"), un(MULC, zu, 3, 1, "c"), un(ADDC, zu, 3, 1, "+C"), bi(SMUL, sq, K.M, 3, 3, ".*")})
            add(t, w);
    }
    TP v2 = bi(MUL, K.M, K.W, 3, 1, "*");
    for (TP t : std::vector<TP>{bi(ADD, K.W, x, 3, 1, "+"), bi(MUL, un(SKEW, K.W, 3, 3, "skew"), x, 3, 1, "*"), bi(ADD, K.W, K.wdef[1], 3, 1, "+"), v2, bi(MUL, un(TR, x, 1, 3, "tr"), K.W, 1, 1, "*"), bi(ADD, K.V, bi(MUL, z, K.W, 3, 1, "*"), 3, 1, "+"), bi(MUL, un(SKEW, K.V, 3, 3, "skew"), K.W, 3, 1, "*")}) add(t, 0);
    return o;
}
struct Sys {
    Env env; levi::Mutable M{3, 3, "M"}; World w;
    std::vector<levi::Variable> W;         // w follows its expression, v follows w
    const Template& T; const Kit& K; TP sub;
    levi::Expression root, subE, h; TP hT; std::array<int, 3> hd{}, dd{};  // what h is bound to: term and derivative (-1: value)
    bool seen = false; Eigen::MatrixXd last;
    Mat wRef(const Val& v) { Mat m = ref(*K.wdef[T.w], v); if (!T.dependent) for (auto& j : m.d) { Jet q(j.v); j = q; } for (int i = 0; i < 3; ++i) m(i, 0).g[6 + i] += 1; return m; }
    Sys(const Template& t, const Kit& k) : T(t), K(k) {
        env.share = true;
        w.v = assignments()[0]; w.m = 0;
        env.set(w.v); M = mut(0);
        env.leaf[LM] = M;
        extraLeaf() = [this](int l, const Val& v) {
            if (l == LM) { Mat m(3, 3); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = Jet(mut(w.m)(i, j)); return m; }
            if (l == LV) { Mat m = wRef(v), f(3, 1); for (int i = 0; i < 3; ++i) { f(i, 0) = m(i, 0) + m(0, 0) * m(i, 0); } return f; }
            return wRef(v);
        };
        if (T.w >= 0) {
            levi::Expression e = env.build(K.wdef[T.w]);
            W.push_back(T.dependent ? levi::Variable(e.asVariable()) : levi::Variable(e.asIndependentVariable()));
            env.leaf[LW] = W[0];
            levi::Expression we = W[0];
            env.leaf[LV] = we + we(0, 0) * we;
        }
        root = env.build(T.root);
        sub = T.root->a; subE = env.build(sub);
    }
    // the reference values, computed once per template and assignment
    typedef std::map<std::pair<const Term*, int>, std::pair<Mat, double>> Memo;
    static Memo& memo() { static Memo m; return m; }
    const std::pair<Mat, double>& at(const TP& t) {
        int world = (w.v[0] == assignments0()[0]) + 2 * (w.v[5] == assignments0()[5]) + 4 * w.m;
        auto key = std::make_pair((const Term*)t.get(), world);
        auto it = memo().find(key);
        if (it == memo().end()) { Mat m = ref(*t, w.v); double s = span(m); it = memo().emplace(key, std::make_pair(m, s)).first; }
        return it->second;
    }
    static const Val& assignments0() { static Val v = assignments()[0]; return v; }
};
// what is asked of an expression
static const std::vector<std::string> OPS = {"x:=1", "x:=0", "z:=1", "M:=1", "M:=0", "eval", "evalSub", "h:=root", "h:=sub", "h:=d/dx", "h:={}", "eval h", "isNew h", "d/dx", "d/dw", "ddx/dz", "ddw/dx", "clear", "rebuild", "set x twice"};
static bool isEval(int o) { return o == 5 || o == 6 || o == 11 || o == 12 || (o >= 13 && o <= 16); }

static void step(mc::Runner& R, Sys& S, int op, const std::string& trace) {
    auto value = [&](levi::Expression& e, double sp, int r, int c, auto want, const char* sig) {
        Eigen::MatrixXd g = e.evaluate();
        if (!(g.rows() == r && g.cols() == c)) R.check(false, std::string(sig) + "-size", trace);
        for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (!(std::fabs(g(i, j) - want(i, j)) <= 1e-8 * (1 + sp))) R.check(false, sig, "entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + mc::num(g(i, j)) + " expected " + mc::num(want(i, j)) + ": " + trace);
        R.evals();
        return g;
    };
    auto plain = [&](levi::Expression& e, const TP& t, const char* sig) { auto& ms = S.at(t); auto& m = ms.first; return value(e, ms.second, t->r, t->c, [&](int i, int j) { return m(i, j).v; }, sig); };
    auto D = [&](levi::Expression e, int col, int k) -> levi::Expression { return k == 3 ? levi::Expression(e.getColumnDerivative(col, S.W[0])) : levi::Expression(e.getColumnDerivative(col, S.env.var[k])); };
    auto first = [&](levi::Expression& e, const TP& t, int col, int k, const char* sig) { auto& ms = S.at(t); auto& m = ms.first; return value(e, ms.second, t->r, DIM[k], [&](int i, int j) { return m(i, col).g[OFF[k] + j]; }, sig); };
    auto second = [&](int k, int i2, int k2, const char* sig) {
        int col = S.T.root->c - 1;
        levi::Expression d = D(S.root, col, k), dd = D(d, i2, k2);
        auto& ms = S.at(S.T.root); auto& m = ms.first;
        value(dd, ms.second, S.T.root->r, DIM[k2], [&](int i, int j) { return m(i, col).h[(OFF[k] + i2) * NV + OFF[k2] + j]; }, sig);
    };
    auto setx = [&](int q) { for (int i = 0; i < 3; ++i) S.w.v[i] = assignments()[q][i]; S.env.set(0, S.w.v); };
    auto hval = [&] { return S.hd[0] < 0 ? plain(S.h, S.hT, "handle") : first(S.h, S.hT, S.hd[1], S.hd[0], "handle-derivative"); };
    bool hasW = S.T.w >= 0; int col = S.T.root->c - 1;
    switch (op) {
    case 0: setx(1); break;
    case 1: setx(0); break;
    case 2: S.w.v[5] = S.w.v[5] == assignments()[0][5] ? assignments()[1][5] : assignments()[0][5]; S.env.set(2, S.w.v); break;
    case 3: case 4: S.w.m = op == 3; S.M = mut(S.w.m); break;
    case 5: plain(S.root, S.T.root, "value"); break;
    case 6: plain(S.subE, S.sub, "operand-value"); break;
    case 7: S.h = S.root; S.hT = S.T.root; S.hd = {-1, 0, 0}; S.seen = false; break;
    case 8: S.h = S.subE; S.hT = S.sub; S.hd = {-1, 0, 0}; S.seen = false; break;
    case 9: S.h = D(S.root, col, 0); S.hT = S.T.root; S.hd = {0, col, 0}; S.seen = false; break;
    case 10: S.h = levi::Expression(); S.hT = nullptr; S.seen = false; break;
    case 11: if (S.hT) { S.last = hval(); S.seen = true; } break;
    case 12: if (S.hT) { bool n = S.h.isNew(); if (!n) { if (!(S.seen)) R.check(false, "isnew-false", "a value never read is not new: " + trace); Eigen::MatrixXd l = S.last; Eigen::MatrixXd g = hval(); if (!(l.rows() == g.rows() && l.cols() == g.cols() && (l - g).cwiseAbs().maxCoeff() <= 1e-9)) R.check(false, "isnew-false", "the value changed: " + trace); } } break;
    case 13: { levi::Expression d = D(S.root, col, 0); first(d, S.T.root, col, 0, "derivative"); break; }
    case 14: if (hasW) { levi::Expression d = D(S.root, col, 3); first(d, S.T.root, col, 3, "derivative-w"); } break;
    case 15: second(0, 1, 2, "second-derivative"); break;
    case 16: if (hasW) second(3, 1, 0, "second-derivative-w"); break;
    case 17: S.root.clearDerivativesCache(); break;
    case 18: S.env.memo.erase(S.T.root.get()); S.root = S.env.build(S.T.root); break;
    case 19: setx(1); setx(0); break;
    }
}
static void explore(mc::Runner& R) {
    R.rule = std::string("every history of 4 operations") + (R.thorough() ? " (5 for every eighth template)" : "") + " (assign a variable or a mutable, evaluate an expression, an operand or a handle, re-bind or empty a handle, ask first and second derivatives, clear the derivative caches, rebuild on shared operands), for a template of every operator over variables, mutables and variables which follow an expression";
    R.stateWord = "histories";
    R.assumptions = {"histories which end with an operation that observes nothing are covered by the longer ones"};
    Kit K;
    auto T = templates(K, R.thorough());
    int n = OPS.size();
    for (size_t ti = 0; ti < T.size(); ++ti) for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b)
        R.run("t" + std::to_string(ti) + " " + T[ti].root->s + (T[ti].w >= 0 ? std::string(" w=") + K.wdef[T[ti].w]->s + (T[ti].dependent ? " dependent" : " independent") : "") + " [" + OPS[a] + "; " + OPS[b] + "]", [&] {
            bool hasW = T[ti].w >= 0;
            int depth = R.thorough() && ti % 8 == 0 ? 5 : 4;
            std::function<bool(const Term&)> usesM = [&](const Term& t) { return (t.op == LEAF && t.p[0] == LM) || (t.a && usesM(*t.a)) || (t.b && usesM(*t.b)); };
            bool hasM = usesM(*T[ti].root) || (hasW && usesM(*K.wdef[T[ti].w]));
            Sys::memo().clear();
            std::vector<int> seq;
            // operations without an effect on this template, or reading a handle which is not bound
            auto skip = [&](int o) {
                if (!hasW && (o == 14 || o == 16)) return true;
                if (!hasM && (o == 3 || o == 4)) return true;
                if (seq.empty() && (o == 1 || o == 4)) return true;
                bool bound = false; for (int q : seq) { if (q >= 7 && q <= 9) bound = true; if (q == 10) bound = false; }
                return !bound && o >= 10 && o <= 12;
            };
            if (skip(a)) return;
            seq = {a};
            if (skip(b)) return;
            seq = {a, b};
            std::function<void()> rec = [&] {
                if ((int)seq.size() == depth) {
                    if (!isEval(seq.back())) return;
                    Sys S(T[ti], K);
                    std::string trace = T[ti].root->s + ":";
                    for (int o : seq) { trace += " " + OPS[o] + ";"; step(R, S, o, trace); }
                    // at the end every way of reading agrees
                    step(R, S, 5, trace + " eval"); step(R, S, 6, trace + " evalSub"); step(R, S, 11, trace + " eval h");
                    R.states(); R.transitions(seq.size());
                    return;
                }
                for (int o = 0; o < n; ++o) if (!skip(o)) { seq.push_back(o); rec(); seq.pop_back(); }
            };
            rec();
        });
}
int main(int argc, char** argv) { mc::Runner R; return R.main(argc, argv, "V04", explore); }
