// V13: position reference generator: every edit history up to a depth and every range assignment on a grid,
// against a list model ("last element whose interval contains t").
#include "mc.h"
#include "poison.h"
#include <DynamicalPlanner/PositionReferenceGenerator.h>
using namespace DynamicalPlanner;
using iDynTree::optimalcontrol::TimeRange;
struct Rg { std::string n; double a, b; bool any; };
static const std::vector<Rg> RG = {{"[0,1]", 0, 1, false}, {"[1,2]", 1, 2, false}, {"[0.5,1.5]", 0.5, 1.5, false}, {"[1,1]", 1, 1, false}, {"[0,0]", 0, 0, false}, {"[0,3]", 0, 3, false}, {"any", 0, 0, true}};
static const std::vector<double> TIMES = {-0.5, 0, 0.25, 0.5, 0.99, 1, 1.5, 1.75, 2, 2.5, 3, 7};
struct El { int r; std::array<double, 3> p; };
static void setR(PositionWithTimeRange& e, int r) { if (RG[r].any) e.activeRange = TimeRange::AnyTime(); else e.activeRange.setTimeInterval(RG[r].a, RG[r].b); }
static bool in(int r, double t) { return RG[r].any || (t >= RG[r].a && t <= RG[r].b); }
static void judge(mc::Runner& R, iDynTree::optimalcontrol::TimeVaryingVector& w, iDynTree::optimalcontrol::TimeVaryingPosition& p, const std::vector<El>& m, const std::array<double, 3>& fac, const std::function<std::string()>& where, bool reversed) {
    for (size_t q = 0; q < TIMES.size(); ++q) {
        double t = TIMES[reversed ? TIMES.size() - 1 - q : q];
        int act = -1;
        for (size_t i = 0; i < m.size(); ++i) if (in(m[i].r, t)) act = int(i);
        bool v1 = false, v2 = false;
        auto& ww = w.get(t, v1);
        auto& pp = p.get(t, v2);
        R.evals(2);
        R.check(v1 && v2, "validity", "answer flagged invalid at t=" + mc::num(t) + where());
        R.check(ww.size() == 3, "weight-size", where());
        std::array<double, 3> ep = {0, 0, 0};
        if (act >= 0) ep = m[act].p;
        for (unsigned k = 0; k < 3; ++k) {
            R.check(pp(k) == ep[k], "reference", "reference coordinate " + std::to_string(k) + " at t=" + mc::num(t) + " is " + mc::num(pp(k)) + ", expected " + mc::num(ep[k]) + where());
            R.check(std::isfinite(ww(k)), "weight-not-finite", "weight " + std::to_string(k) + " at t=" + mc::num(t) + " is " + mc::num(ww(k)) + where());
        }
        if (act < 0) { for (unsigned k = 0; k < 3; ++k) R.check(ww(k) == 0.0, "weight-inactive", "non-zero weight " + mc::num(ww(k)) + " at t=" + mc::num(t) + where()); continue; }
        const Rg& g = RG[m[act].r];
        double lo = 0, hi = 1;
        if (!g.any && g.b > g.a) lo = hi = (t - g.a) / (g.b - g.a);
        for (unsigned k = 0; k < 3; ++k) {
            double e1 = (fac[k] * lo + 1) * (fac[k] * lo + 1), e2 = (fac[k] * hi + 1) * (fac[k] * hi + 1);
            double tol = 1e-9 * (1 + std::fabs(e1) + std::fabs(e2));
            double mn = std::min(e1, e2) - tol, mx = std::max(e1, e2) + tol;
            R.check(ww(k) >= mn && ww(k) <= mx, "weight", "weight " + std::to_string(k) + " at t=" + mc::num(t) + " is " + mc::num(ww(k)) + ", expected " + mc::num(e1) + (lo == hi ? "" : " to " + mc::num(e2)) + where());
        }
    }
}
static void explore(mc::Runner& R) {
    R.rule = "every assignment of intervals to up to 4 references x weight growth factors x query times (forward and backward), and every edit history up to a depth (init, resize, range edit, position edit) with the time-varying objects queried after each edit";
    R.stateWord = "interval assignments and edit histories";
    R.assumptions = {"for an interval of zero or unbounded length only finiteness and the range between the initial and final weight are required", "heap memory is filled with a non-zero pattern so that never-written references are seen"};
    std::vector<std::array<double, 3>> facs = {{0, 0, 0}, {1, 2, 3}, {-1, 0.5, 10}};
    size_t nmax = R.thorough() ? 4 : 3;
    for (size_t n = 0; n <= nmax; ++n) {
        uint64_t total = 1; for (size_t i = 0; i < n; ++i) total *= RG.size();
        for (uint64_t c = 0; c < total; ++c) for (size_t f = 0; f < facs.size(); ++f) {
            std::string id = "ranges"; uint64_t x = c; std::vector<int> rs;
            for (size_t i = 0; i < n; ++i) { rs.push_back(int(x % RG.size())); x /= RG.size(); id += " " + RG[rs.back()].n; }
            R.run(id + " factors " + std::to_string(f), [&] {
                PositionReferenceGenerator g(unsigned(n), facs[f][0], facs[f][1], facs[f][2]);
                auto w = g.timeVaryingWeight(); auto p = g.timeVaryingReference();
                std::vector<El> m;
                for (size_t i = 0; i < n; ++i) { m.push_back({rs[i], {1.0 + i, 2.0 - 3.0 * i, 0.5 * i}}); setR(i % 2 ? g[i] : g.at(i), rs[i]); for (unsigned k = 0; k < 3; ++k) g[i].desiredPosition(k) = m[i].p[k]; }
                auto where = [&] { return " with " + id; };
                judge(R, *w, *p, m, facs[f], where, false);
                judge(R, *w, *p, m, facs[f], where, true);
                R.states(); R.transitions(2 * TIMES.size());
            });
        }
    }
    // histories
    struct Op { std::string n; int k, i, v; };
    std::vector<Op> ops;
    for (int i = 0; i < 3; ++i) { ops.push_back({"init(" + std::to_string(i) + ")", 0, i, i}); ops.push_back({"resize(" + std::to_string(i + 0) + ")", 1, i, 0}); }
    ops.push_back({"resize(4)", 1, 4, 0});
    for (int i = 0; i < 2; ++i) { for (int v : {0, 1, 3, 5}) ops.push_back({"range" + std::to_string(i) + "=" + RG[v].n, 2, i, v}); ops.push_back({"pos" + std::to_string(i), 3, i, 0}); }
    ops.push_back({"range3=[0.5,1.5]", 2, 3, 2});
    ops.push_back({"clear range1", 4, 1, 0});
    int depth = R.thorough() ? 5 : 4;
    for (size_t a = 0; a < ops.size(); ++a) for (size_t b = 0; b < ops.size(); ++b) for (int ctor = 0; ctor < 2; ++ctor) R.run("history from " + std::string(ctor ? "default-constructed " : "constructed(2) ") + ops[a].n + "; " + ops[b].n, [&] {
        uint64_t total = 1; for (int i = 2; i < depth; ++i) total *= ops.size();
        for (uint64_t c = 0; c < total; ++c) {
            std::vector<int> s = {int(a), int(b)}; uint64_t x = c; for (int i = 2; i < depth; ++i) { s.push_back(int(x % ops.size())); x /= ops.size(); }
            std::unique_ptr<PositionReferenceGenerator> g(ctor ? new PositionReferenceGenerator() : new PositionReferenceGenerator(2, facs[1][0], facs[1][1], facs[1][2]));
            std::vector<El> m; std::array<double, 3> fac = facs[1];
            auto fresh = [&](size_t n) { m.clear(); for (size_t i = 0; i < n; ++i) m.push_back({4, {0, 0, 0}}); };
            bool inited = !ctor; fresh(ctor ? 0 : 2);
            auto w = g->timeVaryingWeight(); auto p = g->timeVaryingReference();
            double stamp = 1;
            for (size_t i = 0; i < s.size(); ++i) {
                const Op& o = ops[s[i]];
                if (o.k == 0) { fac = facs[o.v]; g->init(unsigned(o.i), fac[0], fac[1], fac[2]); fresh(o.i); w = g->timeVaryingWeight(); p = g->timeVaryingReference(); inited = true; }
                else if (o.k == 1) { g->resize(size_t(o.i)); while (m.size() > size_t(o.i)) m.pop_back(); while (m.size() < size_t(o.i)) m.push_back({4, {0, 0, 0}}); }
                else if (o.k == 2) { if (size_t(o.i) >= m.size()) continue; setR((*g)[o.i], o.v); m[o.i].r = o.v; }
                else if (o.k == 3) { if (size_t(o.i) >= m.size()) continue; for (unsigned k = 0; k < 3; ++k) { stamp += 1; g->at(o.i).desiredPosition(k) = stamp; m[o.i].p[k] = stamp; } }
                else if (o.k == 4) { if (size_t(o.i) >= m.size()) continue; (*g)[o.i].activeRange = TimeRange(); m[o.i].r = 4; }
                R.transitions();
                if (i + 1 < s.size() && i > 1) continue;
                if (!inited) continue;
                auto where = [&] { std::string h = " after"; for (size_t j = 0; j <= i; ++j) h += " " + ops[s[j]].n + ";"; return h; };
                const PositionReferenceGenerator& cg = *g;
                for (size_t k = 0; k < m.size(); ++k) for (unsigned q = 0; q < 3; ++q) R.check(cg[k].desiredPosition(q) == m[k].p[q] && cg.at(k).desiredPosition(q) == m[k].p[q], "stored", "stored reference " + std::to_string(k) + where());
                judge(R, *w, *p, m, fac, where, false);
            }
            R.states();
        }
    });
}
int main(int argc, char** argv) { mc::Runner R; return R.main(argc, argv, "V13", explore); }
