// Families of terms explored by the levi harnesses.
#pragma once
#include "levi_terms.h"
namespace lt {
struct Families {
    std::vector<TP> t0, t1, t1small;
    explicit Families() {
        t0 = leaves();
        for (auto& a : t0) unary(a, t1, 1);
        for (auto& a : t0) for (auto& b : t0) binary(a, b, t1, 1);
        std::vector<TP> u;
        for (auto& a : t0) unary(a, u, 0);
        for (auto& a : t0) for (auto& b : t0) if (a->p[0] < 8 && b->p[0] < 8) binary(a, b, u, 0);
        t1small = u;
    }
    // calls f on every term of the family; the order is fixed
    void depth1(const std::function<void(const TP&)>& f) const { for (auto& t : t0) f(t); for (auto& t : t1) f(t); }
    void depth2(const std::function<void(const TP&)>& f, bool all) const {
        for (auto& t : t1) { std::vector<TP> o; unary(t, o, 1); for (auto& x : o) f(x); }
        for (auto& a : t0) for (auto& b : t1) { std::vector<TP> o; binary(a, b, o, 1); binary(b, a, o, 1); for (auto& x : o) f(x); }
        const auto& s = all ? t1 : t1small;
        for (auto& a : s) for (auto& b : s) { std::vector<TP> o; binary(a, b, o, all); for (auto& x : o) f(x); }
    }
    // sums and differences of products, with both associations and negations: exercises the re-association of addends and factors
    void sums(const std::function<void(const TP&)>& f, int len) const {
        auto L = [&](int k) { return t0[k]; };   // x0 y1 z2 A3 B4 r5 k6 I3 7 I1 8 N33 9 N31 10 F11
        auto M = [&](TP a, TP b) { std::vector<TP> o; binary(a, b, o, 0); for (auto& t : o) if (t->op == MUL) return t; throw std::logic_error("mul"); };
        auto E1 = [&](TP a, int i) { return [&, a, i] { auto t = mk(ELEM, a, nullptr, 1, 1, "el" + std::to_string(i) + "0(" + a->s + ")"); t->p[0] = i; return t; }(); };
        TP x = L(0), z = L(2), B = L(4), r = L(5), k = L(6), I3 = L(7);
        std::vector<std::vector<TP>> groups;
        // 3x1 addends
        groups.push_back({x, M(B, x), M(z, x), M(k, x), M(B, M(z, x)), M(M(B, B), x), M(z, M(B, x)), M(x, M(r, x)), M(M(x, r), x), L(11), M(I3, x), M(E1(x, 1), x)});
        // 3x3 addends
        groups.push_back({B, M(B, B), M(x, r), M(z, B), M(M(x, r), B), M(B, M(x, r)), I3, M(z, I3), L(9), mk(TR, B, nullptr, 3, 3, "tr(B)")});
        // scalars
        groups.push_back({z, k, M(z, z), M(r, x), M(z, M(r, x)), M(M(r, B), x), E1(x, 0), L(8), M(k, z)});
        for (auto& g : groups) {
            std::vector<TP> q;
            for (auto& t : g) { q.push_back(t); }
            std::vector<std::vector<TP>> lev = {q};
            for (int n = 2; n <= len; ++n) {
                std::vector<TP> nx;
                for (auto& acc : lev.back()) for (auto& t : q) for (int s = 0; s < 2; ++s) {
                    nx.push_back(mk(s ? SUB : ADD, acc, t, t->r, t->c, "(" + acc->s + ")" + (s ? "-" : "+") + "(" + t->s + ")"));
                    if (n > 2 || s) nx.push_back(mk(s ? SUB : ADD, t, acc, t->r, t->c, "(" + t->s + ")" + (s ? "-" : "+") + "(" + acc->s + ")"));
                }
                for (auto& t : nx) f(t);
                lev.push_back(nx);
            }
        }
    }
    // chains of products with every association
    void products(const std::function<void(const TP&)>& f, int len) const {
        std::vector<TP> base = {t0[0], t0[2], t0[3], t0[4], t0[5], t0[6], t0[7], mk(NEG, t0[0], nullptr, 3, 1, "-x"), mk(TR, t0[0], nullptr, 1, 3, "tr(x)"), mk(SKEW, t0[0], nullptr, 3, 3, "skew(x)")};
        std::vector<std::vector<TP>> by(len + 1);
        by[1] = base;
        for (int n = 2; n <= len; ++n) {
            for (int i = 1; i < n; ++i) for (auto& a : by[i]) for (auto& b : by[n - i]) {
                std::vector<TP> o; binary(a, b, o, 0);
                for (auto& t : o) if (t->op == MUL) by[n].push_back(t);
            }
            for (auto& t : by[n]) f(t);
        }
    }
};
}
