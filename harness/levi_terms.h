// Terms of the levi expression language: enumeration, construction with the library, and an
// independent evaluation with second-order jets (value, gradient, Hessian).
#pragma once
#include <levi/levi.h>
#include "mc.h"
#include <array>
#include <memory>
#include <map>
namespace lt {
using ::operator+; using ::operator-; using ::operator*;
#ifndef LT_NV
#define LT_NV 6
#endif
static const int NV = LT_NV;            // x(3) y(2) z(1), optionally a variable w(3) which follows an expression
static const int OFF[4] = {0, 3, 5, 6}, DIM[4] = {3, 2, 1, 3};
static const char* VNAME[4] = {"x", "y", "z", "w"};

struct Jet {
    double v = 0; std::array<double, NV> g{}; std::array<double, NV * NV> h{};
    Jet(double x = 0) : v(x) {}
};
inline Jet operator+(const Jet& a, const Jet& b) { Jet r(a.v + b.v); for (int i = 0; i < NV; ++i) r.g[i] = a.g[i] + b.g[i]; for (int i = 0; i < NV * NV; ++i) r.h[i] = a.h[i] + b.h[i]; return r; }
inline Jet operator-(const Jet& a) { Jet r(-a.v); for (int i = 0; i < NV; ++i) r.g[i] = -a.g[i]; for (int i = 0; i < NV * NV; ++i) r.h[i] = -a.h[i]; return r; }
inline Jet operator-(const Jet& a, const Jet& b) { return a + (-b); }
inline Jet operator*(const Jet& a, const Jet& b) {
    Jet r(a.v * b.v);
    for (int i = 0; i < NV; ++i) r.g[i] = a.v * b.g[i] + b.v * a.g[i];
    for (int i = 0; i < NV; ++i) for (int j = 0; j < NV; ++j) r.h[i * NV + j] = a.v * b.h[i * NV + j] + b.v * a.h[i * NV + j] + a.g[i] * b.g[j] + a.g[j] * b.g[i];
    return r;
}
inline Jet chain(const Jet& a, double f, double d, double dd) {
    Jet r(f);
    for (int i = 0; i < NV; ++i) r.g[i] = d * a.g[i];
    for (int i = 0; i < NV; ++i) for (int j = 0; j < NV; ++j) r.h[i * NV + j] = d * a.h[i * NV + j] + dd * a.g[i] * a.g[j];
    return r;
}
inline Jet jpow(const Jet& a, double e) {
    double d = e == 0 ? 0 : e * std::pow(a.v, e - 1), dd = (e == 0 || e == 1) ? 0 : e * (e - 1) * std::pow(a.v, e - 2);
    return chain(a, std::pow(a.v, e), d, dd);
}

struct Mat {
    int r = 0, c = 0; std::vector<Jet> d;
    Mat() {}
    Mat(int r_, int c_) : r(r_), c(c_), d(r_ * c_) {}
    Jet& operator()(int i, int j) { return d[i * c + j]; }
    const Jet& operator()(int i, int j) const { return d[i * c + j]; }
};

enum Op { LEAF, NEG, POS, TR, ROW, COL, ELEM, BLOCK, SKEW, VEE, POW, MULC, CMUL, DIVC, ADDC, CSUB, ASVAR, ASIND,
          ADD, SUB, MUL, DIV, HORZ, VERT, SMUL, MULS, BYROWS, BYCOLS };
struct Term {
    Op op; int p[4] = {0, 0, 0, 0}; double e = 0;
    std::shared_ptr<Term> a, b; int r, c; std::string s; int depth = 0;
};
typedef std::shared_ptr<Term> TP;
static const double KADD = 0.75, KMUL = -1.5;

inline Eigen::MatrixXd constant(int which) {
    Eigen::MatrixXd m;
    if (which == 3) { m.resize(2, 3); m << 0.7, -1.1, 0.4, 1.3, 0.2, -0.6; }
    if (which == 4) { m.resize(3, 3); m << 1.2, 0.3, -0.5, -0.8, 0.9, 0.6, 0.1, -1.4, 0.35; }
    if (which == 5) { m.resize(1, 3); m << -0.9, 0.55, 1.6; }
    if (which == 6) { m.resize(1, 1); m << 1.7; }
    return m;
}
inline std::vector<TP> leaves() {
    struct L { const char* n; int r, c; } l[] = {{"x", 3, 1}, {"y", 2, 1}, {"z", 1, 1}, {"A", 2, 3}, {"B", 3, 3}, {"r", 1, 3}, {"k", 1, 1}, {"I3", 3, 3}, {"I1", 1, 1}, {"N33", 3, 3}, {"N31", 3, 1}, {"F", 3, 1}};
    std::vector<TP> o;
    int i = 0;
    for (auto& x : l) { auto t = std::make_shared<Term>(); t->op = LEAF; t->p[0] = i++; t->r = x.r; t->c = x.c; t->s = x.n; o.push_back(t); }
    return o;
}
inline TP mk(Op op, TP a, TP b, int r, int c, const std::string& s) { auto t = std::make_shared<Term>(); t->op = op; t->a = a; t->b = b; t->r = r; t->c = c; t->s = s; t->depth = 1 + std::max(a->depth, b ? b->depth : 0); return t; }

// level: 0 few, 1 all
inline void unary(const TP& a, std::vector<TP>& o, int level) {
    auto N = [&](Op op, int r, int c, std::string s, std::array<int, 4> p = {0, 0, 0, 0}, double e = 0) { auto t = mk(op, a, nullptr, r, c, s); for (int i = 0; i < 4; ++i) t->p[i] = p[i]; t->e = e; o.push_back(t); };
    const std::string& s = a->s; int r = a->r, c = a->c;
    N(NEG, r, c, "-(" + s + ")");
    if (r > 1 || c > 1) N(TR, c, r, "tr(" + s + ")");
    if (r > 1) N(ROW, 1, c, "row" + std::to_string(r - 1) + "(" + s + ")", {r - 1});
    if (c > 1) N(COL, r, 1, "col" + std::to_string(c - 1) + "(" + s + ")", {c - 1});
    if (r > 1 || c > 1) N(ELEM, 1, 1, "el" + std::to_string(r - 1) + std::to_string(c - 1) + "(" + s + ")", {r - 1, c - 1});
    if (r == 3 && c == 1) N(SKEW, 3, 3, "skew(" + s + ")");
    if (r == 3 && c == 3) N(VEE, 3, 1, "vee(" + s + ")");
    if (r == 1 && c == 1) { N(POW, 1, 1, "pow2(" + s + ")", {}, 2); N(POW, 1, 1, "pow-1(" + s + ")", {}, -1); }
    if (r > 1 || c > 1) N(BLOCK, r > 1 ? r - 1 : 1, c > 1 ? c - 1 : 1, "blk(" + s + ")", {r > 1 ? 1 : 0, c > 1 ? 1 : 0, r > 1 ? r - 1 : 1, c > 1 ? c - 1 : 1});
    if (!level) return;
    N(POS, r, c, "+(" + s + ")");
    if (r > 1) N(ROW, 1, c, "row0(" + s + ")", {0});
    else N(ROW, 1, c, "row0(" + s + ")", {0});
    N(COL, r, 1, "col0(" + s + ")", {0});
    N(ELEM, 1, 1, "el00(" + s + ")", {0, 0});
    if (r > 1) N(ELEM, 1, 1, "el" + std::to_string(r - 1) + "0(" + s + ")", {r - 1, 0});
    if (r == 1 && c == 1) { N(TR, 1, 1, "tr(" + s + ")"); N(POW, 1, 1, "pow1(" + s + ")", {}, 1); N(POW, 1, 1, "pow3(" + s + ")", {}, 3); N(POW, 1, 1, "pow0(" + s + ")", {}, 0); }
    N(BLOCK, r, c, "blkall(" + s + ")", {0, 0, r, c});
    N(MULC, r, c, "(" + s + ")*c", {}); N(CMUL, r, c, "c*(" + s + ")", {}); N(DIVC, r, c, "(" + s + ")/c", {});
    N(ADDC, r, c, "(" + s + ")+C", {}); N(CSUB, r, c, "C-(" + s + ")", {});
}
inline void binary(const TP& a, const TP& b, std::vector<TP>& o, int level) {
    std::string l = "(" + a->s + ")", r = "(" + b->s + ")";
    bool as = a->r == 1 && a->c == 1, bs = b->r == 1 && b->c == 1;
    if (a->r == b->r && a->c == b->c) { o.push_back(mk(ADD, a, b, a->r, a->c, l + "+" + r)); o.push_back(mk(SUB, a, b, a->r, a->c, l + "-" + r)); }
    if (as || bs || a->c == b->r) {
        int R = as ? b->r : a->r, C = bs ? a->c : b->c; 
        if (as && bs) { R = 1; C = 1; }
        o.push_back(mk(MUL, a, b, R, C, l + "*" + r));
    }
    if (bs) o.push_back(mk(DIV, a, b, a->r, a->c, l + "/" + r));
    if (a->r == b->r) o.push_back(mk(HORZ, a, b, a->r, a->c + b->c, "[" + a->s + "," + b->s + "]"));
    if (a->c == b->c) o.push_back(mk(VERT, a, b, a->r + b->r, a->c, "[" + a->s + ";" + b->s + "]"));
    if (!level) return;
    if (as) o.push_back(mk(SMUL, a, b, b->r, b->c, l + ".*" + r));
    if (bs) o.push_back(mk(MULS, a, b, a->r, a->c, l + "*." + r));
    if (a->r == 1 && b->r == 1 && a->c == b->c) o.push_back(mk(BYROWS, a, b, 2, a->c, "rows(" + a->s + "," + b->s + ")"));
    if (a->c == 1 && b->c == 1 && a->r == b->r) o.push_back(mk(BYCOLS, a, b, a->r, 2, "cols(" + a->s + "," + b->s + ")"));
}

typedef std::array<double, 6> Val;
inline std::function<Mat(int, const Val&)>& extraLeaf() { static std::function<Mat(int, const Val&)> f; return f; }
inline std::vector<Val> assignments() { return {{0.7, -1.2, 0.45, 1.1, -0.35, 0.85}, {-0.4, 0.9, 1.3, -0.75, 0.6, -1.25}}; }
inline Eigen::Vector3d fixedLeaf() { return Eigen::Vector3d(0.25, -0.65, 1.15); }

inline Mat ref(const Term& t, const Val& v) {
    Mat o(t.r, t.c);
    auto each = [&](auto f) { for (int i = 0; i < t.r; ++i) for (int j = 0; j < t.c; ++j) o(i, j) = f(i, j); };
    if (t.op == LEAF) {
        int k = t.p[0];
        if (k < 3) { each([&](int i, int) { Jet x(v[OFF[k] + i]); x.g[OFF[k] + i] = 1; return x; }); return o; }
        if (k <= 6) { auto m = constant(k); each([&](int i, int j) { return Jet(m(i, j)); }); return o; }
        if (k <= 8) { each([&](int i, int j) { return Jet(i == j); }); return o; }
        if (k <= 10) return o;
        if (k > 11) return extraLeaf()(k, v);
        each([&](int i, int) { return Jet(fixedLeaf()(i)); });
        return o;
    }
    Mat a = ref(*t.a, v), b;
    if (t.b) b = ref(*t.b, v);
    switch (t.op) {
    case NEG: each([&](int i, int j) { return -a(i, j); }); break;
    case POS: case ASVAR: return a;
    case ASIND: each([&](int i, int j) { return Jet(a(i, j).v); }); break;
    case TR: each([&](int i, int j) { return a(j, i); }); break;
    case ROW: each([&](int, int j) { return a(t.p[0], j); }); break;
    case COL: each([&](int i, int) { return a(i, t.p[0]); }); break;
    case ELEM: o(0, 0) = a(t.p[0], t.p[1]); break;
    case BLOCK: each([&](int i, int j) { return a(t.p[0] + i, t.p[1] + j); }); break;
    case SKEW: o(0, 1) = -a(2, 0); o(0, 2) = a(1, 0); o(1, 0) = a(2, 0); o(1, 2) = -a(0, 0); o(2, 0) = -a(1, 0); o(2, 1) = a(0, 0); break;
    case VEE: o(0, 0) = a(2, 1); o(1, 0) = a(0, 2); o(2, 0) = a(1, 0); break;
    case POW: o(0, 0) = jpow(a(0, 0), t.e); break;
    case MULC: case CMUL: each([&](int i, int j) { return Jet(KMUL) * a(i, j); }); break;
    case DIVC: each([&](int i, int j) { return Jet(1 / KMUL) * a(i, j); }); break;
    case ADDC: each([&](int i, int j) { return a(i, j) + Jet(KADD * (1 + i - 2 * j)); }); break;
    case CSUB: each([&](int i, int j) { return Jet(KADD * (1 + i - 2 * j)) - a(i, j); }); break;
    case ADD: each([&](int i, int j) { return a(i, j) + b(i, j); }); break;
    case SUB: each([&](int i, int j) { return a(i, j) - b(i, j); }); break;
    case MUL: case SMUL: case MULS: {
        bool as = a.r == 1 && a.c == 1, bs = b.r == 1 && b.c == 1;
        if (as) each([&](int i, int j) { return a(0, 0) * b(i, j); });
        else if (bs) each([&](int i, int j) { return a(i, j) * b(0, 0); });
        else each([&](int i, int j) { Jet s; for (int k = 0; k < a.c; ++k) s = s + a(i, k) * b(k, j); return s; });
        break; }
    case DIV: { Jet inv = jpow(b(0, 0), -1); each([&](int i, int j) { return a(i, j) * inv; }); break; }
    case HORZ: case BYCOLS: each([&](int i, int j) { return j < a.c ? a(i, j) : b(i, j - a.c); }); break;
    case VERT: case BYROWS: each([&](int i, int j) { return i < a.r ? a(i, j) : b(i - a.r, j); }); break;
    default: break;
    }
    return o;
}
// largest magnitude met while evaluating (values and derivatives); terms that blow up are skipped
inline double span(const Mat& m) {
    double s = 0;
    for (auto& j : m.d) { auto u = [&](double v) { s = std::isfinite(v) ? std::max(s, std::fabs(v)) : INFINITY; }; u(j.v); for (double v : j.g) u(v); for (double v : j.h) u(v); }
    return s;
}
inline double spanAll(const Term& t, const Val& v) {
    double s = span(ref(t, v));
    if (t.a) s = std::max(s, spanAll(*t.a, v));
    if (t.b) s = std::max(s, spanAll(*t.b, v));
    return s;
}

struct Env {
    levi::Variable var[3] = {levi::Variable(3, "x"), levi::Variable(2, "y"), levi::Variable(1, "z")};
    std::map<int, levi::Expression> leaf;
    std::map<const Term*, levi::Expression> memo;
    bool share = true;
    Env() {
        for (int i = 0; i < 3; ++i) leaf[i] = var[i];
    }
    levi::Expression leafOf(int k) {
        auto it = leaf.find(k);
        if (it != leaf.end()) return it->second;
        static const char* CN[] = {"A", "B", "r", "k"};
        levi::Expression e;
        if (k >= 3 && k <= 6) e = levi::Constant(constant(k), CN[k - 3]);
        if (k == 7) e = levi::Identity(3, 3);
        if (k == 8) e = levi::Identity(1, 1);
        if (k == 9) e = levi::Null(3, 3);
        if (k == 10) e = levi::Null(3, 1);
        if (k == 11) e = levi::FixedSizeConstant<3, 1>(fixedLeaf(), "F");
        leaf[k] = e;
        return e;
    }
    void set(const Val& v) { for (int k = 0; k < 3; ++k) set(k, v); }
    void set(int k, const Val& v) { Eigen::VectorXd x(DIM[k]); for (int i = 0; i < DIM[k]; ++i) x(i) = v[OFF[k] + i]; var[k] = x; }
    static Eigen::MatrixXd shift(int r, int c) { Eigen::MatrixXd m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = KADD * (1 + i - 2 * j); return m; }
    levi::Expression build(const TP& tp) {
        if (share) { auto it = memo.find(tp.get()); if (it != memo.end()) return it->second; }
        levi::Expression e = make(*tp);
        if (share) memo[tp.get()] = e;
        return e;
    }
    levi::Expression make(const Term& t) {
        if (t.op == LEAF) return leafOf(t.p[0]);
        levi::Expression a = build(t.a), b;
        if (t.b) b = build(t.b);
        switch (t.op) {
        case NEG: return -a;
        case POS: return +a;
        case TR: return a.transpose();
        case ROW: return a.row(t.p[0]);
        case COL: return a.col(t.p[0]);
        case ELEM: return a(t.p[0], t.p[1]);
        case BLOCK: return a.block(t.p[0], t.p[1], t.p[2], t.p[3]);
        case SKEW: return a.skew();
        case VEE: return a.vee();
        case POW: return a.pow(t.e);
        case MULC: return a * KMUL;
        case CMUL: return KMUL * a;
        case DIVC: return a / KMUL;
        case ADDC: return a + shift(t.r, t.c);
        case CSUB: return shift(t.r, t.c) - a;
        case ASVAR: return a.asVariable();
        case ASIND: return a.asIndependentVariable();
        case ADD: return a + b;
        case SUB: return a - b;
        case MUL: return a * b;
        case DIV: return a / b;
        case HORZ: return levi::Expression::Horzcat(a, b, "H");
        case VERT: return levi::Expression::Vertcat(a, b, "V");
        case SMUL: { levi::ScalarExpression s = a(0, 0); return s * b; }
        case MULS: { levi::ScalarExpression s = b(0, 0); return a * s; }
        case BYROWS: return levi::Expression::ComposeByRows({a, b}, "R");
        case BYCOLS: return levi::Expression::ComposeByCols({a, b}, "C");
        default: throw std::logic_error("op");
        }
    }
};
// every intermediate value stays moderate, so that a difference is not rounding
inline bool tame(const Term& t) { for (auto& v : assignments()) if (!(spanAll(t, v) < 2000)) return false; return true; }
}
