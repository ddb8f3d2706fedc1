// V12: walking state machine. Explicit-state exploration of the plan: all update sequences up to a depth, and
// breadth-first search over the reachable plans (each one re-created on the real object by replaying its history),
// every transition compared with a reference machine.
#include "mc.h"
#include "poison.h"
#include <deque>
#include <DynamicalPlanner/Utilities.h>
#include <iDynTree/Core/EigenHelpers.h>
using namespace DynamicalPlanner;
using DynamicalPlanner::Utilities::SimpleWalkingStateMachine;
typedef std::array<double, 3> V3;

struct Cfg { double H, D, minDt, F, thr; V3 start, inc; };
static const std::vector<Cfg> CFG = {
    {1.0, 0.5, 0.125, 40.0, 0.0078125, {0.5, -0.25, 0.0}, {0.125, 0.0, 0.0}},
    {2.0, 1.5, 0.25, 10.0, 0.0625, {0.0, 0.0, 0.0}, {-0.25, 0.125, 0.5}},
    {0.75, 0.75, 0.5, 0.0, 0.25, {1.0, 2.0, 3.0}, {0.0, 0.5, 0.0}},
    {1.0, 0.25, 0.0625, 100.0, 0.5, {0.0, 1.0, 0.0}, {0.0, -0.0625, 0.0}},
};
struct Op { int fut; int force; double dt; };
static std::vector<Op> ops() {
    std::vector<Op> o;
    for (int f = 0; f < 2; ++f) for (int g = 0; g < 4; ++g) for (double dt : {0.0, 0.0625, 0.25, 0.5}) o.push_back({f, g, dt});
    return o;
}
static const char* FORCE[] = {"left forward, low force", "right forward, low force", "left forward, high force", "right forward, force at the threshold"};
static std::string opName(const Op& o) { return std::string("advance(future error ") + (o.fut ? "large" : "small") + ", " + FORCE[o.force] + ", dt " + mc::num(o.dt) + ")"; }

struct Plan { double a0, b0, a1, b1; V3 p0, p1; int steps = 0; };
static Plan init(const Cfg& c) { return {0, c.D, c.H + 1, c.H + 1, c.start, c.start, 0}; }

static double minForce(const Cfg& c, const Op& o) { return o.force < 2 ? c.F * 0.5 - (c.F == 0 ? 0 : 0) : o.force == 2 ? c.F + 8 : c.F; }
static void refAdvance(const Cfg& c, Plan& p, const Op& o) {
    bool close = o.fut == 0;
    bool low = minForce(c, o) < c.F;
    if (p.a1 > c.H && p.b0 <= 0.6 * c.H && (close || p.b0 - p.a0 > 2.0 * c.D)) {
        p.a1 = c.H; p.b1 = c.H + c.D;
        for (int k = 0; k < 3; ++k) p.p1[k] = p.p0[k] + c.inc[k];
    }
    double s = p.a0 - o.dt;
    if (p.a1 <= c.H) {
        if (s < 0.3 * c.H && low) { p.a0 = s; }
        else if (s + c.D < c.minDt) { p.p0 = p.p1; p.a0 = 0; p.b0 = c.D; p.a1 = p.b1 = c.H + 1; ++p.steps; }
        else { p.a0 = s; p.b0 = s + c.D; double s1 = p.a1 - o.dt; p.a1 = s1; p.b1 = s1 + c.D; }
    } else { p.a0 = s; p.b0 = std::max(s + c.D, 0.6 * c.H); }
}
static void place(State& s, const V3& centroid, bool leftForward, double fwdForce, double otherForce, const V3& fwd) {
    // two points per foot, symmetric around the foot centre; foot centres symmetric around the centroid along fwd
    double sgn = leftForward ? 0.25 : -0.25;
    for (int foot = 0; foot < 2; ++foot) {
        auto& pts = foot ? s.rightContactPointsState : s.leftContactPointsState;
        bool isFwd = (foot == 0) == leftForward;
        for (int i = 0; i < 2; ++i) {
            for (int k = 0; k < 3; ++k) pts[i].pointPosition(k) = centroid[k] + (foot ? -1 : 1) * sgn * fwd[k] + (k == 1 ? (i ? 0.25 : -0.25) : 0);
            double f = isFwd ? fwdForce : otherForce;
            // the minimum sits alternately on the first and on the second point, and not always along z
            bool minHere = (i == 0) != leftForward;
            double v = minHere ? f : f + 16;
            pts[i].pointForce.zero();
            if (foot) pts[i].pointForce(2) = v; else pts[i].pointForce(0) = -v;
        }
    }
}
static bool realAdvance(SimpleWalkingStateMachine& m, const Cfg& c, const Plan& before, const Op& o) {
    static thread_local State cur(2, 2), fut(2, 2);
    cur.zero(); fut.zero();
    V3 x = before.p0, y = before.p0;
    double e = o.fut ? 2.0 * c.thr : 0.25 * c.thr;
    y[0] += e * 0.5; y[1] -= e * 0.5; y[2] += e * 0.5;   // norm e*0.866
    x[0] += o.fut ? 0 : 4 * c.thr;                        // the present error must not matter
    bool lf = o.force % 2 == 0;
    double f = minForce(c, o);
    place(cur, x, lf, f, f < c.F ? c.F + 8 : c.F * 0.25, c.inc);
    place(fut, y, !lf, 3.0, 3.0, c.inc);
    cur.time = o.dt;
    fut.time = 7.0;
    return m.advance(cur, fut);
}
static void compare(mc::Runner& R, SimpleWalkingStateMachine& m, const Plan& p, const std::function<std::string()>& where) {
    auto r = m.references();
    R.check(bool(r), "no-references", where());
    auto eq = [&](double a, double b) { return std::fabs(a - b) <= 1e-9; };
    R.evals();
    auto& e0 = (*r)[0]; auto& e1 = (*r)[1];
    R.check(eq(e0.activeRange.initTime(), p.a0) && eq(e0.activeRange.endTime(), p.b0), "first-interval", "first step interval [" + mc::num(e0.activeRange.initTime()) + "," + mc::num(e0.activeRange.endTime()) + "], expected [" + mc::num(p.a0) + "," + mc::num(p.b0) + "]" + where());
    R.check(eq(e1.activeRange.initTime(), p.a1) && eq(e1.activeRange.endTime(), p.b1), "second-interval", "second step interval [" + mc::num(e1.activeRange.initTime()) + "," + mc::num(e1.activeRange.endTime()) + "], expected [" + mc::num(p.a1) + "," + mc::num(p.b1) + "]" + where());
    for (unsigned k = 0; k < 3; ++k) {
        R.check(eq(e0.desiredPosition(k), p.p0[k]), "first-position", "coordinate " + std::to_string(k) + " of the first step is " + mc::num(e0.desiredPosition(k)) + ", expected " + mc::num(p.p0[k]) + where());
        R.check(eq(e1.desiredPosition(k), p.p1[k]), "second-position", "coordinate " + std::to_string(k) + " of the second step is " + mc::num(e1.desiredPosition(k)) + ", expected " + mc::num(p.p1[k]) + where());
    }
}
// independent requirements on a single transition
static void laws(mc::Runner& R, const Cfg& c, const Plan& a, const Plan& b, const Op& o, const std::function<std::string()>& where) {
    bool moved = b.steps != a.steps;
    R.check(b.a0 <= b.b0 && b.a1 <= b.b1, "interval-order", where());
    if (moved) for (int k = 0; k < 3; ++k) R.check(std::fabs(b.p0[k] - a.p0[k] - c.inc[k]) < 1e-9, "increment", where());
    (void)o;
}
static void initM(mc::Runner& R, SimpleWalkingStateMachine& m, const Cfg& c, double w0 = 1, double w1 = 2, double w2 = 4) {
    iDynTree::Vector3 st, in;
    for (unsigned k = 0; k < 3; ++k) { st(k) = c.start[k]; in(k) = c.inc[k]; }
    R.check(m.initialize(st, in, c.D, c.H, c.minDt, w0, w1, w2, c.F, c.thr), "initialize-refused", "valid parameters refused");
}
static bool badInit(SimpleWalkingStateMachine& m, int k) {
    iDynTree::Vector3 st, in; st.zero(); in.zero(); in(0) = 1; st(1) = 9;
    if (k == 0) return m.initialize(st, in, 0.5, 1.0, 0.1, 1, 1, 1, -0.5, 0.1);
    if (k == 1) return m.initialize(st, in, 3.0, 1.0, 1.5, 1, 1, 1, 10, 0.1);
    return m.initialize(st, in, 0.5, 3.0, 1.5, 1, 1, 1, 10, 0.1);
}
static void explore(mc::Runner& R) {
    R.rule = "4 parameter sets x (every sequence of updates up to a depth over 32 update kinds: future error small/large, forward foot left/right, force low/high/at the threshold, elapsed time 0..0.5 s) plus breadth-first search over reachable plans; refused and repeated initialisations interleaved";
    R.stateWord = "update-sequence prefixes and breadth-first searches";
    R.assumptions = {"elapsed times and parameters are binary fractions, so the reference machine computes exact times", "the centroid error is either well below or well above the threshold"};
    auto O = ops();
    int depth = R.thorough() ? 5 : 4;
    for (size_t ci = 0; ci < CFG.size(); ++ci) for (size_t a = 0; a < O.size(); ++a) R.run("sequences cfg" + std::to_string(ci) + " " + opName(O[a]), [&] {
        const Cfg& c = CFG[ci];
        uint64_t total = 1; for (int i = 1; i < depth; ++i) total *= O.size();
        for (uint64_t n = 0; n < total; ++n) {
            std::vector<int> s = {int(a)}; uint64_t x = n; for (int i = 1; i < depth; ++i) { s.push_back(int(x % O.size())); x /= O.size(); }
            SimpleWalkingStateMachine m;
            initM(R, m, c);
            Plan p = init(c);
            for (size_t i = 0; i < s.size(); ++i) {
                Plan q = p;
                refAdvance(c, q, O[s[i]]);
                auto where = [&] { std::string h = " (cfg" + std::to_string(ci) + ") after"; for (size_t j = 0; j <= i; ++j) h += " " + opName(O[s[j]]) + ";"; return h; };
                R.check(realAdvance(m, c, p, O[s[i]]), "advance-failed", where());
                R.transitions();
                if (i + 1 == s.size() || n == 0) { compare(R, m, q, where); laws(R, c, p, q, O[s[i]], where); }
                p = q;
            }
            R.states();
        }
    });
    // breadth-first over reachable plans
    size_t limit = R.thorough() ? 20000 : 1500;
    R.caseTimeoutMs = 600000;
    for (size_t ci = 0; ci < CFG.size(); ++ci) for (int verbose = 0; verbose < 2; ++verbose) R.run("reachable plans cfg" + std::to_string(ci) + (verbose ? " verbose" : ""), [&] {
        const Cfg& c = CFG[ci];
        typedef std::vector<int> Hist;
        auto key = [&](const Plan& p) { double rel[] = {p.a0, p.b0, p.a1, p.b1, p.p1[0] - p.p0[0], p.p1[1] - p.p0[1]}; return std::string(reinterpret_cast<char*>(rel), sizeof rel); };
        std::set<std::string> seen;
        std::deque<std::pair<Plan, Hist>> q;
        q.push_back({init(c), {}});
        seen.insert(key(init(c)));
        size_t lim = verbose ? limit / 20 : limit;
        while (!q.empty()) {
            auto [p, h] = q.front(); q.pop_front();
            if (p.a0 < -4) continue;      // time bound
            for (size_t k = 0; k < O.size(); ++k) {
                SimpleWalkingStateMachine m;
                if (verbose) m.setVerbose();
                initM(R, m, c);
                Plan r = init(c);
                for (int o : h) { realAdvance(m, c, r, O[o]); refAdvance(c, r, O[o]); }
                auto where = [&] { std::string s = " (cfg" + std::to_string(ci) + ") after"; for (int o : h) s += " " + opName(O[o]) + ";"; return s + " " + opName(O[k]); };
                Plan n = r;
                refAdvance(c, n, O[k]);
                R.check(realAdvance(m, c, r, O[k]), "advance-failed", where());
                compare(R, m, n, where);
                laws(R, c, r, n, O[k], where);
                R.transitions();
                if (seen.size() < lim && seen.insert(key(n)).second) { Hist hh = h; hh.push_back(int(k)); q.push_back({n, hh}); }
            }
            R.states();
        }
    });
    // initialisation: refused ones change nothing, a repeated one starts over, and the published references follow
    for (size_t ci = 0; ci < CFG.size(); ++ci) for (int bad = 0; bad < 3; ++bad) for (int at = -1; at < 3; ++at) R.run("initialisation cfg" + std::to_string(ci) + " invalid " + std::to_string(bad) + " at " + std::to_string(at), [&] {
        const Cfg& c = CFG[ci];
        for (size_t a = 0; a < O.size(); ++a) for (size_t b = 0; b < O.size(); ++b) {
            SimpleWalkingStateMachine m;
            auto where = [&] { return " invalid initialisation " + std::to_string(bad) + " at position " + std::to_string(at) + ", then " + opName(O[a]) + "; " + opName(O[b]); };
            if (at == -1) {
                R.check(!badInit(m, bad), "invalid-accepted", where());
                R.check(!m.references(), "references-before-init", where());
                R.check(!realAdvance(m, c, init(c), O[a]), "advance-before-init", "advance succeeded on a machine that was never initialised" + where());
            }
            if (a % 3 == 0) { initM(R, m, CFG[(ci + 1) % CFG.size()], 5, 7, 11); realAdvance(m, CFG[(ci + 1) % CFG.size()], init(CFG[(ci + 1) % CFG.size()]), O[b]); }
            initM(R, m, c);
            Plan p = init(c);
            compare(R, m, p, where);
            if (at == 0) R.check(!badInit(m, bad), "invalid-accepted", where());
            for (int i = 0; i < 2; ++i) { const Op& o = O[i ? b : a]; Plan n = p; refAdvance(c, n, o); R.check(realAdvance(m, c, p, o), "advance-failed", where()); p = n; compare(R, m, p, where); if (at == i + 1) R.check(!badInit(m, bad), "invalid-accepted", where()); R.transitions(); }
            compare(R, m, p, where);
            auto w = m.references()->timeVaryingWeight(); auto r = m.references()->timeVaryingReference();
            for (double t : {0.0, 0.25, 0.5, 1.0, 1.25}) {
                bool v = false;
                int act = (t >= p.a1 && t <= p.b1) ? 1 : (t >= p.a0 && t <= p.b0) ? 0 : -1;
                double A = act == 1 ? p.a1 : p.a0, B = act == 1 ? p.b1 : p.b0;
                const V3& pos = act == 1 ? p.p1 : p.p0;
                auto& x = r->get(t, v);
                for (unsigned k = 0; k < 3; ++k) R.check(std::fabs(x(k) - (act < 0 ? 0 : pos[k])) < 1e-9, "published-reference", "t=" + mc::num(t) + where());
                auto& ww = w->get(t, v);
                double f[3] = {1, 2, 4};
                for (unsigned k = 0; k < 3; ++k) { double al = act < 0 || B <= A ? 0 : (t - A) / (B - A); double e = act < 0 ? 0 : (f[k] * al + 1) * (f[k] * al + 1); if (act >= 0 && B <= A) continue; R.check(std::fabs(ww(k) - e) < 1e-9 * (1 + e), "published-weight", "axis " + std::to_string(k) + " t=" + mc::num(t) + " weight " + mc::num(ww(k)) + " expected " + mc::num(e) + where()); }
            }
            R.states();
        }
    });
}
int main(int argc, char** argv) { mc::Runner R; return R.main(argc, argv, "V12", explore); }
