// V10: rectangular foot. All (geometry, wrench on a grid of CoPs/loads) x (call history) combinations; the
// oracle re-assembles the wrench from the returned vertex forces.
#include "mc.h"
#include "poison.h"
#include <DynamicalPlanner/RectangularFoot.h>
#include <iDynTree/Core/EigenHelpers.h>
using namespace DynamicalPlanner;
typedef std::array<double, 3> V3;
struct Geo { double l, d; V3 top; };
static const std::vector<Geo> GEOS = {{0.19, 0.09, {0.125, 0.045, 0.0}}, {0.2, 0.1, {0.1, 0.05, 0.0}}, {1.0, 0.25, {0.3, 0.4, -0.2}}, {0.05, 0.4, {-0.1, 0.0, 0.05}}};

static V3 cross(const V3& a, const V3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }

struct W { double cx, cy, fz, fx, fy, tz; };   // cop as fraction of the half lengths, in the centre frame

static iDynTree::Wrench wrench(const Geo& g, const W& w) {
    // wrench at the foot centre -> foot frame
    V3 c = {g.top[0] - g.l / 2, g.top[1] - g.d / 2, g.top[2]};
    V3 f = {w.fx, w.fy, w.fz};
    V3 tc = {w.cy * g.d / 2 * w.fz, -w.cx * g.l / 2 * w.fz, w.tz};
    V3 m = cross(c, f);
    iDynTree::Wrench o;
    for (unsigned i = 0; i < 3; ++i) { o(i) = f[i]; o(3 + i) = tc[i] + m[i]; }
    return o;
}
static std::string desc(const Geo& g, const W& w) {
    std::ostringstream s; s << "foot " << g.l << "x" << g.d << " top(" << g.top[0] << "," << g.top[1] << "," << g.top[2] << ") cop fraction (" << w.cx << "," << w.cy << ") fz " << w.fz << " fx " << w.fx << " fy " << w.fy << " tz " << w.tz;
    return s.str();
}
static std::vector<V3> corners(const Geo& g) {
    std::vector<V3> c;
    for (double sx : {0.0, -1.0}) for (double sy : {0.0, -1.0}) c.push_back({g.top[0] + sx * g.l, g.top[1] + sy * g.d, g.top[2]});
    return c;
}

// checks the answer of getForces; returns it for comparisons
static std::vector<V3> judge(mc::Runner& R, RectangularFoot& f, const Geo& g, const W& w, const std::string& hist) {
    std::vector<iDynTree::Force> out(7);
    for (auto& x : out) for (unsigned k = 0; k < 3; ++k) x(k) = 77.0 + k;      // the caller's vector may hold old results
    iDynTree::Wrench in = wrench(g, w);
    std::string where = desc(g, w) + (hist.empty() ? "" : " after " + hist);
    R.check(f.getForces(in, out), "forces-refused", "getForces failed: " + where);
    R.check(out.size() == 4, "forces-size", "getForces returned " + std::to_string(out.size()) + " forces: " + where);
    std::vector<V3> r;
    for (auto& x : out) r.push_back({x(0), x(1), x(2)});
    std::vector<V3> c = corners(g);
    R.evals();
    bool loaded = w.fz >= 2e-7;
    double scale = std::fabs(w.fx) + std::fabs(w.fy) + std::fabs(w.fz) + std::fabs(w.tz) + 1e-3;
    for (auto& x : r) for (double v : x) R.check(std::isfinite(v), "forces-not-finite", where);
    if (w.fz < 0.5e-7) {
        for (auto& x : r) for (double v : x) R.check(v == 0.0, "unloaded-not-zero", "an unloaded foot got vertex forces: " + where);
        return r;
    }
    if (!loaded) return r;
    V3 sf = {0, 0, 0}, sm = {0, 0, 0};
    for (int i = 0; i < 4; ++i) { V3 m = cross(c[i], r[i]); for (int k = 0; k < 3; ++k) { sf[k] += r[i][k]; sm[k] += m[k]; } }
    double tol = 2e-6 * scale * (1 + std::fabs(w.cx) + std::fabs(w.cy));
    for (int k = 0; k < 3; ++k)
        R.check(std::fabs(sf[k] - in(k)) <= tol, "resultant-force", "component " + std::to_string(k) + ": vertex forces sum to " + mc::num(sf[k]) + ", wrench has " + mc::num(in(k)) + ": " + where);
    bool corner = std::fabs(w.cx) == 1 && std::fabs(w.cy) == 1;
    for (int k = 0; k < 3; ++k) {
        if (corner && k == 2) {
            // a single loaded vertex can only give the torque of the tangential force at that vertex
            V3 p = {g.top[0] - g.l / 2 + w.cx * g.l / 2, g.top[1] - g.d / 2 + w.cy * g.d / 2, g.top[2]};
            V3 m = cross(p, {in(0), in(1), in(2)});
            R.check(std::fabs(sm[2] - m[2]) <= tol, "corner-torque", "vertical torque " + mc::num(sm[2]) + " expected " + mc::num(m[2]) + ": " + where);
            continue;
        }
        R.check(std::fabs(sm[k] - in(3 + k)) <= tol, "resultant-torque", "component " + std::to_string(k) + ": vertex forces give " + mc::num(sm[k]) + ", wrench has " + mc::num(in(3 + k)) + ": " + where);
    }
    if (std::fabs(w.cx) <= 1 && std::fabs(w.cy) <= 1)
        for (int i = 0; i < 4; ++i) R.check(r[i][2] >= -tol, "negative-normal-force", "vertex " + std::to_string(i) + " has normal force " + mc::num(r[i][2]) + " although the centre of pressure is inside: " + where);
    return r;
}

static void explore(mc::Runner& R) {
    R.rule = "4 foot geometries x every centre of pressure on a grid (inside, edges, corners, outside) x normal load x tangential force x torque (resultant of returned vertex forces against the input wrench), and every call history up to a depth on one object with re-configuration, refused configuration, wrenches that load one, two or four vertices; each query is compared with a fresh object";
    R.stateWord = "(geometry, wrench) grid cells and call histories";
    R.assumptions = {"tolerance 2e-6 of the load (the implementation treats |ratio| <= 1e-7 as zero)"};
    std::vector<double> cf = {-1, -0.75, -0.5, -0.3, -0.1, 0, 0.2, 0.4, 0.5, 0.8, 1};
    if (R.thorough()) { cf.clear(); for (int i = -20; i <= 20; ++i) cf.push_back(i / 20.0); }
    std::vector<double> out = {-2.5, -1.5, 1.2, 3};
    std::vector<double> all = cf; all.insert(all.end(), out.begin(), out.end());
    for (size_t gi = 0; gi < GEOS.size(); ++gi) for (double cx : all) {
        R.run("grid geo" + std::to_string(gi) + " cx" + mc::num(cx), [&] {
            const Geo& g = GEOS[gi];
            for (double cy : all) {
                RectangularFoot f;
                R.check(f.setFoot(g.l, g.d, iDynTree::Position(g.top[0], g.top[1], g.top[2])), "setfoot-refused", "valid foot refused");
                // normal ratios
                std::vector<double> a(2);
                f.getNormalRatiosFromCoP(cx * g.l / 2, cy * g.d / 2, a);
                R.check(a.size() == 4, "ratios-size", "");
                std::vector<V3> c = corners(g);
                double s = 0, x = 0, y = 0;
                for (int i = 0; i < 4; ++i) { s += a[i]; x += a[i] * (c[i][0] - (g.top[0] - g.l / 2)); y += a[i] * (c[i][1] - (g.top[1] - g.d / 2)); }
                R.evals();
                std::string where = desc(g, {cx, cy, 0, 0, 0, 0});
                R.check(std::fabs(s - 1) < 1e-9, "ratios-sum", "ratios sum to " + mc::num(s) + ": " + where);
                R.check(std::fabs(x - cx * g.l / 2) < 1e-9 && std::fabs(y - cy * g.d / 2) < 1e-9, "ratios-cop", "ratios put the centre of pressure at (" + mc::num(x) + "," + mc::num(y) + "): " + where);
                if (std::fabs(cx) <= 1 && std::fabs(cy) <= 1) for (double v : a) R.check(v >= -1e-9 && v <= 1 + 1e-9, "ratios-range", "ratio " + mc::num(v) + ": " + where);
                for (double fz : {-50.0, 0.0, 1e-8, 1e-3, 1.0, 320.0}) for (double fx : {0.0, -7.0, 25.0}) for (double fy : {0.0, 11.0}) for (double tz : {0.0, 3.5, -2.0}) {
                    W w{cx, cy, fz, fx, fy, tz};
                    judge(R, f, g, w, "");
                    R.states(); R.transitions();
                }
                // placement of the points: a frame transform moves all of them rigidly
                for (int tf = 0; tf < 4; ++tf) {
                    iDynTree::Rotation rot = tf == 0 ? iDynTree::Rotation::Identity() : iDynTree::Rotation::RPY(0.3 * tf, -0.2 * tf, 1.1 * tf);
                    iDynTree::Position pos(0.5 * tf, -0.25 * tf, 0.1 * tf);
                    std::vector<iDynTree::Position> pts(tf);
                    R.check(f.getPoints(iDynTree::Transform(rot, pos), pts) && pts.size() == 4, "points", "getPoints failed");
                    for (int i = 0; i < 4; ++i) for (unsigned k = 0; k < 3; ++k) {
                        double e = pos(k); for (unsigned q = 0; q < 3; ++q) e += rot(k, q) * c[i][q];
                        R.check(std::fabs(pts[i](k) - e) < 1e-12, "points-position", "vertex " + std::to_string(i) + " coordinate " + std::to_string(k) + ": " + mc::num(pts[i](k)) + " expected " + mc::num(e));
                    }
                }
            }
        });
    }
    // call histories
    struct Op { std::string name; int kind; int geo; W w; };
    std::vector<Op> ops;
    for (int g = 0; g < 3; ++g) ops.push_back({"setFoot(" + std::to_string(g) + ")", 0, g, {}});
    ops.push_back({"setFoot(0 length)", 1, 0, {}});
    ops.push_back({"setFoot(negative width)", 2, 0, {}});
    std::vector<std::pair<std::string, W>> ws = {{"corner", {1, 1, 100, 4, 5, 0}}, {"othercorner", {-1, 1, 80, -4, 2, 1}}, {"edge", {1, 0.3, 90, 3, -6, 2}}, {"otheredge", {0.2, -1, 60, 7, 2, -1}}, {"inside", {0.25, -0.4, 120, -9, 4, 3}}, {"diagonal", {0.5, 0.5, 50, 1, 2, 3}}, {"zero", {0, 0, 0, 5, 5, 5}}, {"outside", {1.5, 0.2, 40, 2, 1, 1}}};
    for (auto& p : ws) ops.push_back({"forces(" + p.first + ")", 3, 0, p.second});
    ops.push_back({"ratios", 4, 0, {}});
    ops.push_back({"points", 5, 0, {}});
    int depth = R.thorough() ? 6 : 5;
    std::vector<int> seq;
    std::function<void(RectangularFoot&, int)> dummy;
    // one case = all histories with a fixed prefix of two operations
    for (size_t a = 0; a < ops.size(); ++a) for (size_t b = 0; b < ops.size(); ++b) {
        R.run("histories from " + ops[a].name + "; " + ops[b].name, [&] {
            std::vector<int> s = {int(a), int(b)};
            uint64_t total = 1; for (int i = 2; i < depth; ++i) total *= ops.size();
            for (uint64_t n = 0; n < total; ++n) {
                s.resize(2); uint64_t x = n; for (int i = 2; i < depth; ++i) { s.push_back(int(x % ops.size())); x /= ops.size(); }
                RectangularFoot f;
                int geo = -1;
                for (size_t i = 0; i < s.size(); ++i) {
                    const Op& o = ops[s[i]];
                    auto hist = [&] { std::string h; for (size_t j = 0; j < i; ++j) h += ops[s[j]].name + "; "; return h; };
                    bool last = i + 1 == s.size() || i < 2;
                    R.transitions();
                    if (o.kind == 0) { const Geo& g = GEOS[o.geo]; R.check(f.setFoot(g.l, g.d, iDynTree::Position(g.top[0], g.top[1], g.top[2])), "setfoot-refused", hist()); geo = o.geo; }
                    else if (o.kind == 1) R.check(!f.setFoot(0.0, 0.3, iDynTree::Position(1, 1, 1)), "invalid-foot-accepted", "zero length accepted after " + hist());
                    else if (o.kind == 2) R.check(!f.setFoot(0.3, -0.1, iDynTree::Position(1, 1, 1)), "invalid-foot-accepted", "negative width accepted after " + hist());
                    else if (o.kind == 3) {
                        if (geo < 0) { std::vector<iDynTree::Force> v; R.check(!f.getForces(wrench(GEOS[0], o.w), v), "forces-without-foot", "getForces succeeded before any configuration: " + hist()); continue; }
                        if (!last) { std::vector<iDynTree::Force> v; f.getForces(wrench(GEOS[geo], o.w), v); continue; }
                        auto r = judge(R, f, GEOS[geo], o.w, hist());
                        RectangularFoot fresh; const Geo& g = GEOS[geo];
                        fresh.setFoot(g.l, g.d, iDynTree::Position(g.top[0], g.top[1], g.top[2]));
                        std::vector<iDynTree::Force> v; fresh.getForces(wrench(g, o.w), v);
                        for (int k = 0; k < 4; ++k) for (unsigned q = 0; q < 3; ++q) R.check(std::fabs(v[k](q) - r[k][q]) <= 1e-9, "history-dependence", "vertex " + std::to_string(k) + ": " + mc::num(r[k][q]) + " but a fresh foot gives " + mc::num(v[k](q)) + " after " + hist());
                    } else if (o.kind == 4) { if (geo >= 0) { std::vector<double> v; f.getNormalRatiosFromCoP(0.01, -0.02, v); } }
                    else {
                        std::vector<iDynTree::Position> pts;
                        bool ok = f.getPoints(iDynTree::Transform::Identity(), pts);
                        R.check(ok == (geo >= 0), "points", "getPoints returned " + std::to_string(ok) + " after " + hist());
                        if (ok) { auto c = corners(GEOS[geo]); for (int k = 0; k < 4; ++k) for (unsigned q = 0; q < 3; ++q) R.check(std::fabs(pts[k](q) - c[k][q]) < 1e-12, "points-position", "after " + hist()); }
                    }
                }
                R.states();
            }
        });
    }
}
int main(int argc, char** argv) { mc::Runner R; return R.main(argc, argv, "V10", explore); }
