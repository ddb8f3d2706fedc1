// V16, V17, V19, V20, V21, V22, V23: the constraints, the costs and the dynamics, over all their points, single-block changes and histories.
#include "components.h"
#include <map>
using namespace mc;
typedef mc::Runner Runner_;
static Fixture* g_list[3];
static Fixture& listOf(int cfg) { if (!g_list[cfg]) g_list[cfg] = new Fixture(cfg, "#"); return *g_list[cfg]; }
static std::string at(const Fixture& f, const std::string& comp, int cfg, const std::string& where) { (void)f; return comp + " (robot " + std::to_string(cfg) + ") at " + where; }

// every point and every single-block change around it; each visited, left and visited again
static void sweep(const Fixture& f, bool thorough, const std::function<void(const Pt&, const std::string&)>& visit) {
    auto B = f.blocks(); int P = f.points();
    for (int k = 0; k < P; ++k) {
        Pt p = f.point(k); std::string n = Fixture::pointName(k);
        visit(p, n);
        if (k < 4 || thorough) for (auto& b : B) { visit(f.changed(p, b), n + " with another " + b.second); visit(p, n + " again, after another " + b.second); }
        for (double t : {1.0, 0.0, 0.5}) { Pt o = p; o.t = t; visit(o, n + " at time " + mc::num(t)); }
    }
    if (thorough) for (int a = 0; a < P; ++a) for (int b = 0; b < P; ++b) { visit(f.point(a), Fixture::pointName(a)); visit(f.point(b), Fixture::pointName(b) + " after " + Fixture::pointName(a)); }
}

static void values(Runner_& R, char kind) {
    R.stateWord = "component/robot cases"; R.caseTimeoutMs = 240000;
    for (int cfg = 0; cfg < 3; ++cfg) for (auto& q0 : listOf(cfg).listed) {
        if (q0.second != kind) continue;
        std::string name = q0.first;
        R.run(name + " robot " + std::to_string(cfg), [&, cfg, name] {
            Fixture f(cfg, name); Comp& q = f.comps.at(0);
            if (kind == 'c') {
                R.check(q.c->constraintSize() == q.rows, "size", name + " has size " + std::to_string(q.c->constraintSize()));
                for (int s = 0; s < 2; ++s) {
                    VectorDynSize b(q.rows); b.zero(); bool has = s ? q.c->getUpperBound(b) : q.c->getLowerBound(b), want = s ? q.isHi : q.isLo; const char* w = s ? "upper" : "lower";
                    R.check(has == want, "bounded", name + (has ? " has an unexpected " : " misses the ") + w + " bound");
                    if (!want) continue;
                                        std::string d = mdiff(Fixture::M(b), s ? q.hi : q.lo, 1e-12); R.check(d.empty(), "bound", name + ": " + w + " bound, " + d); R.evals();
                }
            }
            sweep(f, R.thorough(), [&](const Pt& p, const std::string& w) {
                Res r = f.call(0, VALUE, p); if (!r.ok) R.fail("refused", at(f, name, cfg, w));
                std::string d = mdiff(r.m, q.ref(p), 1e-7); if (!d.empty()) R.fail("value", at(f, name, cfg, w) + ": " + d);
                if (kind == 'c') { // the feasibility answer is the one of the value and of the bounds
                    VectorDynSize x = Fixture::V(p.x), u = Fixture::V(p.u); bool want = true, tie = false;
                    Vec v = q.ref(p); for (unsigned i = 0; i < q.rows; ++i) { if (q.isLo) { if (v(i) < q.lo(i)) want = false; tie = tie || std::fabs(v(i) - q.lo(i)) < 1e-9; } if (q.isHi) { if (v(i) > q.hi(i)) want = false; tie = tie || std::fabs(v(i) - q.hi(i)) < 1e-9; } }
                    if (!tie && q.c->isFeasiblePoint(p.t, x, u) != want) R.fail("feasibility", at(f, name, cfg, w) + (want ? " is called infeasible" : " is called feasible"));
                }
                R.transitions(); R.evals();
            });
            R.states();
        });
    }
}

// derivative of fun along every state or control variable
static const double H = 1e-5;
template <class F> static Mat fd(const Pt& p, bool wrtState, long rows, double h, F fun) {
    long c = wrtState ? p.x.size() : p.u.size(); Mat J(rows, c);
    for (long j = 0; j < c; ++j) { Pt a = p, b = p; (wrtState ? a.x : a.u)(j) += h; (wrtState ? b.x : b.u)(j) -= h; J.col(j) = (fun(a) - fun(b)) / (2 * h); }
    return J;
}
// compares with the numerical derivative; where they differ, the step is changed before calling it a difference
template <class F> static std::string fdiff(const Mat& got, const Pt& p, bool wrtState, F fun, double tol) {
    std::string d, d0;
    for (double h : {H, 1e-4, 3e-6, 1e-3}) { Mat N = fd(p, wrtState, got.rows(), h, fun); double sc = N.cwiseAbs().maxCoeff(); d = mdiff(got, N, tol, 0.01 * sc); if (d.empty()) return ""; if (d0.empty()) d0 = d; }
    return d0;
}
static std::string wher(const Fixture& f, const std::string& d, bool colState, int rowKind) {   // rowKind 0: a row of the component, 1: state, 2: control
    int r, c; if (sscanf(d.c_str(), "entry (%d,%d)", &r, &c) != 2) return d;
    return d + " [row " + (rowKind == 0 ? std::to_string(r) : wherein(rowKind == 1 ? f.xs : f.us, r)) + ", column " + wherein(colState ? f.xs : f.us, c) + "]";
}

static void firstDerivatives(Runner_& R) {
    R.stateWord = "component/robot cases"; R.caseTimeoutMs = 240000;
    for (int cfg = 0; cfg < 3; ++cfg) for (auto& q0 : listOf(cfg).listed) {
        std::string name = q0.first;
        R.run(name + " robot " + std::to_string(cfg), [&, cfg, name] {
            Fixture f(cfg, name), v(cfg, name); Comp& q = f.comps.at(0);
            std::vector<std::pair<Pt, std::string>> P; for (int k = 0; k < f.points(); ++k) P.push_back({f.point(k), Fixture::pointName(k)});
            for (auto& b : f.blocks()) if (R.thorough() || (b.first ? b.second.find("Point") == std::string::npos : b.second.find("Point") == std::string::npos) || b.second.back() == '0') P.push_back({f.changed(f.point(0), b), "generic0 with another " + b.second});
            if (R.thorough()) for (int k = 1; k < 4; ++k) for (auto& b : f.blocks()) P.push_back({f.changed(f.point(k), b), Fixture::pointName(k) + " with another " + b.second});
            for (auto& pw : P) for (int op : {DX, DU}) {
                const Pt& p = pw.first;
                Res r = f.call(0, op, p); if (!r.ok) R.fail("refused", at(f, name, cfg, pw.second) + " refuses " + opName(op));
                auto fun = [&](const Pt& o) -> Vec { Res z = v.call(0, VALUE, o); if (!z.ok) R.fail("value-refused", at(f, name, cfg, pw.second)); return z.m.col(0); };
                std::string d = fdiff(r.m, p, op == DX, fun, 2e-5);
                if (!d.empty()) R.fail(opName(op), at(f, name, cfg, pw.second) + ": " + opName(op) + " " + wher(f, d, op == DX, 0));
                R.evals(); R.transitions();
            }
            (void)q; R.states();
        });
    }
}

static std::string outside(const Fixture& f, const Mat& sp, const Mat& m, double eps, bool colState, int rowKind) {
    for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) if (sp(i, j) == 0 && !(std::fabs(m(i, j)) <= eps)) return wher(f, "entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + mc::num(m(i, j)), colState, rowKind);
    return "";
}
static const int SPOF[] = {0, SP_DX, SP_DU, SP_XX, SP_UU, SP_XU};
static void sparsity(Runner_& R) {
    R.stateWord = "component/robot cases"; R.caseTimeoutMs = 240000;
    for (int cfg = 0; cfg < 3; ++cfg) for (auto& q0 : listOf(cfg).listed) {
        std::string name = q0.first;
        R.run(name + " robot " + std::to_string(cfg), [&, cfg, name] {
            Fixture f(cfg, name), v(cfg, name); Comp& q = f.comps.at(0);
            Mat S[6]; for (int op = DX; op <= HXU; ++op) { if (q.kind == 'k' && op <= DU) continue; if (op >= HXX && !q.hessians) continue; Res r = f.call(0, SPOF[op], f.point(0)); R.check(r.ok, "sparsity-refused", name + " does not give " + opName(SPOF[op])); S[op] = r.m; R.evals(); }
            int P = R.thorough() ? f.points() : 7;
            auto judge = [&](const Pt& p, const std::string& w) {
                for (int op = DX; op <= HXU; ++op) {
                    if (!S[op].size()) continue;
                    int rk = op <= DU ? 0 : op == HUU ? 2 : 1; bool cs = op == DX || op == HXX;
                    Res r = f.call(0, op, p); if (!r.ok) R.fail("refused", at(f, name, cfg, w) + " refuses " + opName(op));
                    std::string d = outside(f, S[op], r.m, 1e-12, cs, rk);
                    if (!d.empty()) R.fail("outside-declared", at(f, name, cfg, w) + ": " + opName(op) + " outside of the declared sparsity, " + d);
                    // and what the function really does
                    Mat N; Vec l = f.lambda(q.rows);
                    if (op <= DU) N = fd(p, cs, q.rows, H, [&](const Pt& o) -> Vec { return v.call(0, VALUE, o).m.col(0); });
                    else N = fd(p, cs, rk == 2 ? f.nu : f.nx, H, [&](const Pt& o) -> Vec { Mat J = v.call(0, rk == 2 ? DU : DX, o).m; return q.kind == 'k' ? Vec(J.row(0).transpose()) : Vec(J.transpose() * l); });
                    d = outside(f, S[op], N, 1e-5 * (1 + 0.1 * N.cwiseAbs().maxCoeff()), cs, rk);
                    if (!d.empty()) R.fail("missing-nonzero", at(f, name, cfg, w) + ": the declared sparsity of " + opName(op) + " misses a nonzero, numerically " + d);
                    R.evals();
                }
                R.transitions();
            };
            for (int k = 0; k < P; ++k) judge(f.point(k), Fixture::pointName(k));
            R.states();
        });
    }
}

static void hessians(Runner_& R) {
    R.stateWord = "component/robot cases"; R.caseTimeoutMs = 240000;
    for (int cfg = 0; cfg < 3; ++cfg) for (auto& q0 : listOf(cfg).listed) {
        if (q0.first == "StaticTorques") continue;   // no second derivatives declared
        std::string name = q0.first;
        R.run(name + " robot " + std::to_string(cfg), [&, cfg, name] {
            Fixture f(cfg, name), v(cfg, name); Comp& q = f.comps.at(0);
            std::vector<Vec> L = {f.lambda(q.rows)};
            if (q.kind != 'k') { for (unsigned i = 0; i < q.rows && i < 6; ++i) L.push_back(Vec::Unit(q.rows, i)); if (q.kind == 'd') { L.push_back(Vec::Unit(q.rows, f.X("Momentum").offset + 4)); L.push_back(Vec::Unit(q.rows, f.X("BasePosition").offset + 1)); } L.push_back(-2.0 * f.lambda(q.rows)); }
            auto judge = [&](const Pt& p, const std::string& w, bool full) {
                for (size_t li = 0; li < (full ? L.size() : 1); ++li) {
                    const Vec& l = L[li]; std::string ws = w + (q.kind == 'k' ? "" : ", multipliers " + std::to_string(li));
                    for (int op : {HXX, HUU, HXU}) {
                        Res r = f.call(0, op, p, &l); if (!r.ok) R.fail("refused", at(f, name, cfg, ws) + " refuses " + opName(op));
                        bool cs = op == HXX; int rk = op == HUU ? 2 : 1;
                        auto fun = [&](const Pt& o) -> Vec { Mat J = v.call(0, rk == 2 ? DU : DX, o).m; return q.kind == 'k' ? Vec(J.row(0).transpose()) : Vec(J.transpose() * l); };
                        std::string d = fdiff(r.m, p, cs, fun, 2e-5);
                        if (!d.empty()) R.fail(opName(op), at(f, name, cfg, ws) + ": " + opName(op) + " " + wher(f, d, cs, rk));
                        R.evals();
                    }
                }
                R.transitions();
            };
            int P = f.points();
            for (int k = 0; k < P; ++k) judge(f.point(k), Fixture::pointName(k), k == 0 || R.thorough());
            for (auto& b : f.blocks()) if (R.thorough() || b.second.find("Point") == std::string::npos || b.second.back() == '0') judge(f.changed(f.point(0), b), "generic0 with another " + b.second, false);
            if (R.thorough()) for (int k = 1; k < 4; ++k) for (auto& b : f.blocks()) judge(f.changed(f.point(k), b), Fixture::pointName(k) + " with another " + b.second, false);
            R.states();
        });
    }
}

// ---------------------------------------------------------------- histories over the shared robot
#include <unistd.h>
#include <sys/wait.h>
// what a component answers when nothing was called before, on any of the components: each answer is computed in a process of its own
struct Shape { std::vector<std::string> names; std::vector<Pt> pts; std::vector<std::string> pn; int NP = 0; std::map<std::string, Res> ref; };
static Shape shapes[3];
static std::string refKey(size_t c, int op, int k) { return std::to_string(c) + "/" + std::to_string(op) + "/" + std::to_string(k); }
static void putAll(int fd, const void* d, size_t n) { const char* b = static_cast<const char*>(d); while (n) { ssize_t w = write(fd, b, n); if (w <= 0) _exit(4); b += w; n -= size_t(w); } }
static void prepareRefs(int cfgs, int NP) {
    struct Job { int cfg; size_t c; int fd; pid_t pid; }; std::vector<Job> jobs;
    for (int cfg = 0; cfg < cfgs; ++cfg) {
        Shape& S = shapes[cfg]; S.NP = NP;
        // the components which evaluate the shared robot, and one which does not
        S.names = {"CentroidalMomentum", "CoMPosition", "FeetLateralDistance(1," + std::string(cfg == 1 ? "chest)" : "l_sole)"), "ContactPositionConsistency(Left,1)", "ContactPositionConsistency(Right,2)", "FrameOrientation(neck_2)", "FrameAngularVelocity(l_sole)", "StaticTorques", "CoMVelocity", "Dynamics(0)", "Swing(Left,0)"};
        Fixture e(cfg, "#"); Pt a = e.point(0); S.pts = {a, e.point(1)}; S.pn = {"generic0", "generic1"};
        for (const char* b : {"JointsVelocity", "BaseQuaternion", "JointsPosition", "BaseQuaternionDerivative"}) { bool st = e.X(b).isValid(); S.pts.push_back(e.changed(a, {st, b})); S.pn.push_back(std::string("generic0 with another ") + b); }
        Pt t = a; t.t = 0.5; S.pts.push_back(t); S.pn.push_back("generic0 at time 0.5");
        for (size_t c = 0; c < S.names.size(); ++c) {
            int fdp[2]; if (pipe(fdp)) exit(2);
            pid_t pid = fork();
            if (!pid) {
                int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
                try {
                    Fixture g(cfg, S.names[c]);
                    for (int op = VALUE; op <= HXU; ++op) if (op < HXX || g.comps.at(0).hessians) for (int k = 0; k < NP; ++k) {
                        pid_t q = fork();
                        if (!q) { Res r; try { r = g.call(0, op, S.pts[size_t(k)]); } catch (...) { _exit(3); } double h[5] = {double(op), double(k), double(r.ok), double(r.m.rows()), double(r.m.cols())}; putAll(fdp[1], h, sizeof h); putAll(fdp[1], r.m.data(), size_t(r.m.size()) * 8); _exit(0); }
                        int st; waitpid(q, &st, 0); if (st) _exit(1);
                    }
                } catch (...) { _exit(2); }
                _exit(0);
            }
            close(fdp[1]); jobs.push_back({cfg, c, fdp[0], pid});
        }
    }
    for (auto& j : jobs) {
        std::string all; char buf[1 << 16]; ssize_t n; while ((n = read(j.fd, buf, sizeof buf)) > 0) all.append(buf, size_t(n));
        close(j.fd); int st; waitpid(j.pid, &st, 0);
        size_t o = 0; while (o + 40 <= all.size()) { double h[5]; memcpy(h, &all[o], 40); o += 40; Res r; r.ok = h[2] != 0; r.m.resize(long(h[3]), long(h[4])); size_t b = size_t(r.m.size()) * 8; if (o + b > all.size()) break; memcpy(r.m.data(), &all[o], b); o += b; shapes[j.cfg].ref[refKey(j.c, int(h[0]), int(h[1]))] = r; }
    }
}
static void histories(Runner_& R) {
    R.stateWord = "first-call cases"; R.caseTimeoutMs = 600000;
    for (int cfg = 0; cfg < 3; ++cfg) {
        Shape& S = shapes[cfg]; if (!S.NP) continue;
        static std::string built; static std::unique_ptr<Fixture> F;
        for (size_t a = 0; a < S.names.size(); ++a) for (int oa = VALUE; oa <= HXU; ++oa) for (int ka = 0; ka < S.NP; ++ka)
            R.run("robot " + std::to_string(cfg) + ": " + S.names[a] + " " + opName(oa) + " point " + std::to_string(ka), [&, a, oa, ka] {
                if (built != std::to_string(cfg)) { F.reset(); std::string s = "?|"; for (auto& n : S.names) s += n + "|"; F = std::make_unique<Fixture>(cfg, s); built = std::to_string(cfg); }
                std::vector<size_t> id; for (auto& n : S.names) { size_t i = 0; while (i < F->comps.size() && F->comps[i].name != n) ++i; if (i == F->comps.size()) R.fail("setup", n); id.push_back(i); }
                auto skip = [&](size_t c, int op) { return op >= HXX && !F->comps[id[c]].hessians; };
                if (skip(a, oa)) { R.states(); R.evals(); return; }
                auto what = [&](size_t c, int op, int k) { return S.names[c] + " " + opName(op) + " at " + S.pn[size_t(k)]; };
                size_t pc = 0; int po = -1, pk = 0;
                auto go = [&](size_t c, int op, int k) {
                    Res r = F->call(id[c], op, S.pts[size_t(k)]); auto w = S.ref.find(refKey(c, op, k)); R.transitions(); R.evals();
                    if (w == S.ref.end()) R.fail("first-call-died", what(c, op, k) + " dies when it is the first call");
                    if (r.ok != w->second.ok) R.fail("answer", what(c, op, k) + (r.ok ? " succeeds" : " fails") + ", unlike when called first; the call before: " + (po < 0 ? "none" : what(pc, po, pk)));
                    std::string d = mdiff(r.m, w->second.m, 1e-9); if (!d.empty()) R.fail("history", what(c, op, k) + " depends on the calls before: " + d + "; the call before: " + (po < 0 ? "none" : what(pc, po, pk)));
                    pc = c; po = op; pk = k;
                };
                for (size_t b = 0; b < S.names.size(); ++b) for (int ob = VALUE; ob <= HXU; ++ob) for (int kb = 0; kb < S.NP; ++kb) {
                    if (skip(b, ob)) continue;
                    go(a, oa, ka); go(b, ob, kb); go(a, oa, ka);
                    if (R.thorough()) for (size_t c = 0; c < S.names.size(); ++c) for (int oc = VALUE; oc <= DU; ++oc) { go(c, oc, (kb + 1) % S.NP); go(b, ob, kb); go(a, oa, ka); }
                }
                R.states();
            });
    }
}

int main(int argc, char** argv) {
    std::string prop = "V17"; for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--prop") prop = argv[i + 1];
    bool deep = getenv("VERIF_TIER") && std::string(getenv("VERIF_TIER")) == "thorough"; for (int i = 1; i + 1 < argc; ++i) { if (std::string(argv[i]) == "--tier") deep = std::string(argv[i + 1]) == "thorough"; if (std::string(argv[i]) == "--replay") { std::ifstream rf(argv[i + 1]); std::string l; while (std::getline(rf, l)) if (l == "tier=thorough") deep = true; } }
    if (prop == "V16") prepareRefs(deep ? 3 : 2, deep ? 7 : 5);
    mc::Runner R;
    R.assumptions = {"robot models: the two bipeds of harness/biped.urdf", "numerical derivatives: central differences, 2e-5 relative"};
    auto explore = [&](mc::Runner& r) {
        if (prop == "V16") histories(r); else if (prop == "V17") values(r, 'c'); else if (prop == "V19") values(r, 'k'); else if (prop == "V20") firstDerivatives(r); else if (prop == "V21") sparsity(r); else if (prop == "V22") hessians(r); else values(r, 'd');
    };
    if (prop == "V16") R.rule = "every sequence a, b, a of calls, a and b any of 11 components x 6 functions x the points (thorough: every a, b, a and then c, b, a with c any first-order function), on one shared robot and expressions server whose earlier calls are never undone; each answer against that of a process in which it is the first call";
    if (prop == "V19") R.rule = "every cost x 3 robots: the value at 16 points, at every single-block change of the generic ones and back, at 3 times";
    if (prop == "V23") R.rule = "the dynamics with either activation on and off x 3 robots: the value at 16 points, at every single-block change of the generic ones and back, at 3 times";
    if (prop == "V20") R.rule = "every constraint, cost and the dynamics x 3 robots x 16 points and single-block changes: every column of both first derivatives";
    if (prop == "V21") R.rule = "every constraint, cost and the dynamics x 3 robots x points: every entry outside of the five declared sparsity patterns, as returned and numerically; every declared index";
    if (prop == "V22") R.rule = "every constraint, cost and the dynamics x 3 robots x 16 points and single-block changes x multipliers: every entry of the three second derivatives against the numerical derivative of the analytic gradients";
    if (prop == "V17") R.rule = "every constraint x 3 robots: sizes, bounds, and the value at 16 points, at every single-block change of the generic ones and back, at 3 times";
    return R.main(argc, argv, prop, explore);
}
