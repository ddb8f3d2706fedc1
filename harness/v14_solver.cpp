// V14: every history of calls on the Solver. V15: the nonlinear programme handed to the optimizer is the one the settings describe.
// V24: its derivatives and sparsity are those of its values.
#include "solver_env.h"
#include "settings_dump.h"
using namespace mc;
static Runner R;
static std::string sh(double v) { char b[32]; snprintf(b, sizeof b, "%g", v); return b; }

// ---------------------------------------------------------------- V15
struct Options { double inf = 1e19; int optimizerWhen = 0; /* 0 before the settings, 1 after, 2 replaced after by one with another infinity */ int integrator = 0; /* 0 default, 1 forward Euler, 2 trapezoidal */ int seeds = 2; bool t0Late = false; };
typedef std::function<void(op::OptimizationProblem&, const Layout&, const Vec& x0)> OnProblem;

static void present(Problem& P, const Options& o, const OnProblem& cb) {
    Settings st; if (!st.setFromStruct(P.s)) R.fail("settings-refused", "well formed settings are refused");
    Solver sol; auto opt = std::make_shared<Scripted>(); opt->inf = o.inf; auto first = std::make_shared<Scripted>(); first->inf = 1e15;
    if (o.integrator == 1) { if (!sol.setIntegrator(std::make_shared<oc::integrators::ForwardEuler>())) R.fail("integrator-refused", "setIntegrator before the settings"); P.euler = true; }
    if (o.integrator == 2 && !sol.setIntegrator(std::make_shared<oc::integrators::ImplicitTrapezoidal>())) R.fail("integrator-refused", "setIntegrator before the settings");
    if (o.optimizerWhen != 1 && !sol.setOptimizer(o.optimizerWhen == 2 ? first : opt)) R.fail("optimizer-refused", "setOptimizer");
    if (!sol.specifySettings(st)) R.fail("settings-not-accepted", "specifySettings refuses valid settings");
    if (o.optimizerWhen != 0 && !sol.setOptimizer(opt)) R.fail("optimizer-refused", "setOptimizer after the settings");
    Vec x0 = P.nm.codedState(P.t0, true); if (!sol.setInitialState(P.nm.state(x0, P.t0))) R.fail("initial-state-refused", "setInitialState");
    auto gx = std::make_shared<GuessX>(P.nm); auto gu = std::make_shared<GuessU>(P.nm); if (!sol.setGuesses(gx, gu)) R.fail("guess-refused", "setGuesses");
    bool called = false;
    opt->body = [&](op::OptimizationProblem& pr, Vec& primal) {
        called = true; if (!pr.prepare()) R.fail("prepare", "the nonlinear programme cannot be prepared");
        VectorDynSize g; if (!pr.getGuess(g)) R.fail("guess-missing", "the optimizer gets no guess although one was given");
        Layout L = Layout::discover(g, P.nm, P.t0); if (g.size() != pr.numberOfVariables()) R.fail("guess-size", "the guess has " + std::to_string(g.size()) + " entries for " + std::to_string(pr.numberOfVariables()) + " variables");
        cb(pr, L, x0); primal = Fixture::M(g).col(0); return true; };
    std::vector<State> xs; std::vector<Control> us; if (!sol.solve(xs, us)) R.fail("solve-failed", "solve() fails although the optimizer succeeds");
    if (!called) R.fail("optimizer-not-called", "solve() succeeds without calling the optimizer");
}
static bool asInf(double v, double inf) { return std::fabs(v) >= 0.49 * inf; }
static void programme(const Problem& P, const Options& o, op::OptimizationProblem& pr, const Layout& L, const Vec& x0) {
    // the instants
    if (std::fabs(L.m.front().t - P.t0) > 1e-6) R.fail("first-instant", "the first instant is " + num(L.m.front().t) + ", the initial state is at " + num(P.t0));
    if (!P.euler && std::fabs(L.m.back().t - P.t0 - P.s.horizon) > 1e-6) R.fail("last-instant", "the last instant is " + num(L.m.back().t) + ", the horizon ends at " + num(P.t0 + P.s.horizon));
    for (size_t i = 1; i < L.m.size(); ++i) { double d = L.m[i].t - L.m[i - 1].t; if (d > P.s.maximumDt + 1e-6 || d < P.s.minimumDt - 1e-6) R.fail("step-size", "a step of " + num(d) + " with bounds " + num(P.s.minimumDt) + ", " + num(P.s.maximumDt)); }
    double lastU = P.t0; for (size_t i = 1; i < L.m.size(); ++i) if (L.m[i].own) { double d = L.m[i].t - lastU; if (std::fabs(d - P.s.controlPeriod) > 1e-6 && !(i + 1 == L.m.size() && d <= P.s.controlPeriod + P.s.minimumDt + 1e-6)) R.fail("control-period", "controls at " + num(lastU) + " and " + num(L.m[i].t) + " with a period of " + num(P.s.controlPeriod)); lastU = L.m[i].t; }
    // the bounds of the variables
    VectorDynSize lo, hi; if (!pr.getVariablesLowerBound(lo) || !pr.getVariablesUpperBound(hi)) R.fail("bounds-missing", "no bounds of the variables");
    auto bcheck = [&](double got, double want, bool upper, const std::string& what, double alt) {
        bool ok = std::fabs(want) >= 1e200 ? (upper ? got == o.inf : got == -o.inf) : std::fabs(got - want) <= 1e-9; if (!ok) ok = std::fabs(alt) < 1e200 && std::fabs(got - alt) <= 1e-9;
        if (!ok) R.fail("variable-bound", std::string("the ") + (upper ? "upper" : "lower") + " bound of " + what + " is " + num(got) + ", the settings say " + (std::fabs(want) >= 1e200 ? "none (the optimizer's infinity is " + num(o.inf) + ")" : num(want))); };
    for (size_t i = 0; i < L.m.size(); ++i) {
        Vec xl, xu, ul, uu; bool either; P.bounds(L.m[i].t, xl, xu, ul, uu, either);
        for (int k = 0; k < P.nm.nx; ++k) { int v = L.m[i].x[size_t(k)]; std::string what = P.nm.xname(k) + " at time " + num(L.m[i].t); if (!i) { double q = x0(k); auto& b = Names::at(P.nm.x, "BaseQuaternion"); bool isq = k >= b.first && k < b.first + 4; bcheck(lo(unsigned(v)), q, false, what, isq ? -q : q); bcheck(hi(unsigned(v)), q, true, what, isq ? -q : q); } else { bcheck(lo(unsigned(v)), xl(k), false, what, xl(k)); bcheck(hi(unsigned(v)), xu(k), true, what, xu(k)); } }
        if (L.m[i].own) for (int k = 0; k < P.nm.nu; ++k) { int v = L.m[i].u[size_t(k)]; std::string what = P.nm.uname(k) + " at time " + num(L.m[i].t); bool contact = k < Names::at(P.nm.u, "BaseVelocity").first; double alt = 0; double full = 0; if (either && contact) { std::string nmk = P.nm.uname(k); unsigned c = unsigned(nmk[nmk.size() - 2] - '0'); full = nmk.find("ForceDerivative") != std::string::npos ? P.s.forceMaximumDerivative(c) : P.s.velocityMaximumDerivative(c); } bcheck(lo(unsigned(v)), ul(k), false, what, either && contact ? (ul(k) == 0 ? -full : alt) : ul(k)); bcheck(hi(unsigned(v)), uu(k), true, what, either && contact ? (uu(k) == 0 ? full : alt) : uu(k)); }
        R.states();
    }
    // the value of the cost and of the constraints
    VectorDynSize clo, chi, c; if (!pr.getConstraintsBounds(clo, chi)) R.fail("bounds-missing", "no bounds of the constraints");
    for (int seed = 0; seed < o.seeds; ++seed) {
        Vec v = L.vector(P.nm, seed); if (!pr.setVariables(Fixture::V(v))) R.fail("variables-refused", "setVariables");
        double cost = 1e9; if (!pr.evaluateCostFunction(cost)) R.fail("cost-failed", "the cost cannot be evaluated");
        double want = P.cost(L, v); if (!(std::fabs(cost - want) <= 1e-8 * (1 + std::fabs(want)))) R.fail("cost-value", "the cost of the programme is " + num(cost) + ", the settings ask for " + num(want));
        if (!pr.evaluateConstraints(c)) R.fail("constraints-failed", "the constraints cannot be evaluated");
        auto rows = P.rows(L, v, x0); if (rows.size() != c.size()) { R.fail("constraint-count", std::to_string(c.size()) + " constraints, the settings ask for " + std::to_string(rows.size())); }
        std::vector<char> used(c.size(), 0); std::vector<std::pair<double, unsigned>> idx; for (unsigned i = 0; i < c.size(); ++i) idx.push_back({c(i), i}); std::sort(idx.begin(), idx.end());
        for (auto& r : rows) {
            double tol = 1e-8 * (1 + std::fabs(r.v)); auto it = std::lower_bound(idx.begin(), idx.end(), std::make_pair(r.v - tol, 0u)); bool ok = false;
            for (; it != idx.end() && it->first <= r.v + tol && !ok; ++it) { unsigned i = it->second; if (used[i]) continue; bool l = r.lo <= -1e200 ? asInf(clo(i), o.inf) && clo(i) < 0 : std::fabs(clo(i) - r.lo) <= 1e-9, h = r.hi >= 1e200 ? asInf(chi(i), o.inf) && chi(i) > 0 : std::fabs(chi(i) - r.hi) <= 1e-9; if (l && h) { used[i] = 1; ok = true; } }
            if (!ok) { std::string near; double best = 1e300; for (unsigned i = 0; i < c.size(); ++i) if (!used[i] && std::fabs(c(i) - r.v) < best) { best = std::fabs(c(i) - r.v); near = num(clo(i)) + " <= " + num(c(i)) + " <= " + num(chi(i)); } R.fail("constraint-row", "no constraint of the programme is the " + r.name + ": " + num(r.lo) + " <= " + num(r.v) + " <= " + num(r.hi) + " (closest: " + near + ")"); }
        }
        R.evals(1 + rows.size()); R.transitions(); R.outcome(std::hash<std::string>()(num(cost)));
    }
}
static void v15(const std::string& id, int robot, const std::function<void(Problem&)>& cfg, const Options& o = Options()) {
    R.run(id, [&] { Problem P(robot); cfg(P); P.ranges(); present(P, o, [&](op::OptimizationProblem& pr, const Layout& L, const Vec& x0) { programme(P, o, pr, L, x0); }); });
}
static void exploreV15() {
    bool deep = R.thorough(); auto& cd = costDefs(); size_t nc = cd.size();
    for (int robot = 0; robot < 3; ++robot) v15("no-cost r" + std::to_string(robot), robot, [](Problem&) {});
    for (int robot = 0; robot < (deep ? 3 : 2); ++robot) for (size_t i = 0; i < nc; ++i) v15("cost " + std::string(cd[i].name) + " r" + std::to_string(robot), robot, [&](Problem& P) { P.s.*(cd[i].active) = true; });
    // every pair of costs
    for (size_t i = 0; i < nc; ++i) for (size_t j = i + 1; j < nc; ++j) v15("costs " + std::string(cd[i].name) + "+" + cd[j].name, int(1 + (i + j) % 2), [&](Problem& P) { P.s.*(cd[i].active) = P.s.*(cd[j].active) = true; });
    if (deep) for (size_t i = 0; i < nc; ++i) for (size_t j = i + 1; j < nc; ++j) for (size_t k = j + 1; k < nc; ++k) v15("costs " + std::to_string(i) + "+" + std::to_string(j) + "+" + std::to_string(k), 2, [&](Problem& P) { P.s.*(cd[i].active) = P.s.*(cd[j].active) = P.s.*(cd[k].active) = true; });
    for (int robot = 0; robot < 3; ++robot) v15("all-costs r" + std::to_string(robot), robot, [&](Problem& P) { for (auto& c : cd) P.s.*(c.active) = true; });
    for (size_t i = 0; i < nc; ++i) v15("all-but " + std::string(cd[i].name), 2, [&](Problem& P) { for (auto& c : cd) P.s.*(c.active) = true; P.s.*(cd[i].active) = false; });
    // every complementarity
    for (int robot = 0; robot < (deep ? 3 : 2); ++robot) for (auto ct : {ComplementarityType::HyperbolicSecantInequality, ComplementarityType::Dynamical, ComplementarityType::Classical, ComplementarityType::HyperbolicSecantInDynamics}) for (auto pt : {PlanarComplementarityType::HyperbolicTangentInDynamics, PlanarComplementarityType::HyperbolicTangentInequality, PlanarComplementarityType::Classical}) for (int in = 0; in < 3; ++in)
        v15("complementarity " + std::to_string(int(ct)) + "," + std::to_string(int(pt)) + " integrator " + std::to_string(in) + " r" + std::to_string(robot), robot, [&](Problem& P) { P.s.complementarity = ct; P.s.planarComplementarity = pt; P.s.comCostActive = true; }, [&] { Options o; o.integrator = in; return o; }());
    // times
    struct T { double mn, mx, cp, h; }; std::vector<T> ts = {{0.1, 0.3, 0.3, 0.9}, {0.1, 0.3, 0.2, 0.6}, {0.04, 0.1, 0.2, 0.8}, {0.1, 0.5, 0.3, 0.3}, {0.02, 0.07, 0.04, 0.2}};
    for (size_t i = 0; i < ts.size(); ++i) for (double pc : {0.0, 0.3, 0.55, 1.0}) for (double t0 : {0.0, 0.7}) for (int in = 0; in < (deep ? 3 : 1); ++in)
        v15("times " + std::to_string(i) + " control " + sh(pc) + " from " + sh(t0) + " integrator " + std::to_string(in), 2, [&](Problem& P) { P.s.minimumDt = ts[i].mn; P.s.maximumDt = ts[i].mx; P.s.controlPeriod = ts[i].cp; P.s.horizon = ts[i].h; P.s.activeControlPercentage = pc; P.t0 = t0; P.s.comVelocityCostActive = P.s.jointsVelocityCostActive = true; }, [&] { Options o; o.integrator = in; o.seeds = 1; return o; }());
    // the ranges of activity
    std::vector<Range> rs = {Range{true, 0, 0}, Range{false, 0.1, 0.5}, Range{false, 0.45, 0.95}, Range{false, 1.2, 1.4}, Range{false, 0.9, 0.9}};
    for (double t0 : {0.0, 0.7}) for (size_t i = 0; i < rs.size(); ++i) for (int w = 0; w < 6; ++w) { if (t0 != 0 && rs[i].a == 0.9) continue;
        v15("range " + std::to_string(i) + " of " + std::to_string(w) + " from " + sh(t0), 2, [&](Problem& P) { P.t0 = t0; P.s.comCostActive = P.s.comVelocityCostActive = P.s.meanPointPositionCostActive = P.s.basePositionCostActive = true; Range* r[] = {&P.comRange, &P.comVelRange, &P.meanRange, &P.baseRange, &P.targetRange}; if (w < 5) { *r[w] = rs[i]; P.s.constrainTargetCoMPosition = w == 4; } else { for (auto* q : r) *q = rs[i]; P.s.constrainTargetCoMPosition = true; } }); }
    // the optimizer
    for (double inf : {1e10, 1e19, 1e30}) for (int when = 0; when < 3; ++when) v15("infinity " + sh(inf) + " when " + std::to_string(when), 2, [](Problem&) {}, [&] { Options o; o.inf = inf; o.optimizerWhen = when; return o; }());
    // gravity, base, frames
    struct G { double x, y, z; }; for (G g : {G{0, 0, -9.81}, G{0, 0, -1.62}, G{0.5, -0.3, -9.0}}) for (const char* b : {"root_link", "chest", "l_upper_leg", "r_lower_leg"}) for (int all = 0; all < 2; ++all)
        v15("gravity " + sh(g.z) + " base " + b + (all ? " costs" : ""), all ? 1 : 0, [&](Problem& P) { P.s.gravity(0) = g.x; P.s.gravity(1) = g.y; P.s.gravity(2) = g.z; if (P.model.getLinkIndex(b) == iDynTree::LINK_INVALID_INDEX) b = "root_link"; P.s.floatingBaseName = b; if (all) P.s.staticTorquesCostActive = P.s.frameCostActive = P.s.frameAngularVelocityCostActive = true; });
    for (unsigned lat = 0; lat < 3; ++lat) for (int sw = 0; sw < 2; ++sw) for (int fr = 0; fr < 2; ++fr) v15("lateral " + std::to_string(lat) + " swap " + std::to_string(sw) + " frame " + std::to_string(fr), 0, [&](Problem& P) { P.s.indexOfLateralDirection = lat; if (sw) std::swap(P.s.referenceFrameNameForFeetDistance, P.s.otherFrameNameForFeetDistance); if (fr) { P.s.leftFrameName = "l_lower_leg"; P.s.rightFrameName = "r_lower_leg"; P.s.frameForOrientationCost = "chest"; } P.s.frameCostActive = P.s.staticTorquesCostActive = true; });
}

// ---------------------------------------------------------------- V14
// A small abstract solver, and the real one driven through the same calls. The abstract one says which calls are accepted, which
// programme a solve() must present (that of a fresh solver), with which guess, and what it returns.
struct Tiny : Problem {      // few variables, so that thousands of histories are affordable
    Tiny(int robot, unsigned points, double horizon, double z) : Problem(robot) {
        nm = Names(unsigned(model.getNrOfDOFs()), points); s.leftPointsPosition.resize(points); s.rightPointsPosition.resize(points); s.desiredLeftRatios.resize(points); s.desiredRightRatios.resize(points);
        s.minimumDt = 0.1; s.maximumDt = 0.25; s.controlPeriod = 0.25; s.horizon = horizon; s.minimumCoMHeight = 0.2 + z; s.frictionCoefficient = 0.4 + z; s.activeControlPercentage = 0.6;
        s.comCostActive = true; s.forceDerivativeCostActive = z > 0; s.angularMomentumCostActive = z == 0; s.comCostOverallWeight = 1.5 + z; s.gravity(2) = -9.81 + z;
    }
};
enum { NoSettings = -1, SA = 0, SB = 1, SC = 2, Refused = 3, MidA = 4, MidC = 5 };
static const Tiny& tiny(int k) { static std::map<int, std::shared_ptr<Tiny>> m; auto& t = m[k]; if (!t) { t = k == SB ? std::make_shared<Tiny>(2, 1, 0.25, 0.07) : k == SC || k == MidC ? std::make_shared<Tiny>(0, 2, 0.25, 0.0) : std::make_shared<Tiny>(2, 1, 0.5, 0.0); if (k == Refused) t->s.horizon = -1; if (k == MidA || k == MidC) { t->s.controlPeriod = 0.05; t->s.minimumCoMHeight = 0.33; } } return *t; }
static int dims(int k) { return k == SC || k == MidC ? 1 : 0; }

struct Record { bool guessed = false; Vec guess, lo, hi, clo, chi, c, g; double cost = 0; };
static Record record(op::OptimizationProblem& pr, const std::function<Vec(unsigned)>& at) {
    Record r; VectorDynSize a, b; if (!pr.prepare()) throw Violation{"prepare", "the nonlinear programme cannot be prepared"};
    r.guessed = pr.getGuess(a); if (r.guessed) r.guess = Fixture::M(a).col(0);
    if (!pr.getVariablesLowerBound(a) || !pr.getVariablesUpperBound(b)) throw Violation{"bounds-missing", "no bounds of the variables"}; r.lo = Fixture::M(a).col(0); r.hi = Fixture::M(b).col(0);
    if (!pr.getConstraintsBounds(a, b)) throw Violation{"bounds-missing", "no bounds of the constraints"}; r.clo = Fixture::M(a).col(0); r.chi = Fixture::M(b).col(0);
    Vec v = at(pr.numberOfVariables()); if (!pr.setVariables(Fixture::V(v)) || !pr.evaluateCostFunction(r.cost) || !pr.evaluateConstraints(a) || !pr.evaluateCostGradient(b)) throw Violation{"evaluation", "the programme cannot be evaluated"}; r.c = Fixture::M(a).col(0); r.g = Fixture::M(b).col(0);
    return r;
}
static double t0Of(int x0) { return x0 == 2 ? 0.7 : 0.0; }
static State stateOf(int k, int x0) { const Tiny& P = tiny(k); if (x0 == 0) { State s(P.nm.n, P.nm.np); s.zero(); return s; } Vec v = P.nm.codedState(t0Of(x0), true); return P.nm.state(v, t0Of(x0)); }
// what a fresh solver presents
struct Reference { Layout L; Record r; };
static const Reference& reference(int k, int x0, double inf, bool euler) {
    static std::map<std::string, std::shared_ptr<Reference>> cache; std::string key = std::to_string(k) + "," + std::to_string(x0) + "," + num(inf) + "," + std::to_string(euler); auto& p = cache[key]; if (p) return *p;
    const Tiny& P = tiny(k); Settings st; if (!st.setFromStruct(P.s)) R.fail("settings-refused", "well formed settings are refused"); Layout L; Record r;
    for (int pass = x0 == 0 ? 0 : 1; pass < 2; ++pass) {      // the layout is read off a coded initial state at the same time
        Solver sol; auto opt = std::make_shared<Scripted>(); opt->inf = inf; if (euler) sol.setIntegrator(std::make_shared<oc::integrators::ForwardEuler>());
        int xx = pass == 0 ? 1 : x0; bool coded = xx != 0;
        if (!sol.setOptimizer(opt) || !sol.specifySettings(st) || !sol.setInitialState(stateOf(k, xx)) || !sol.setGuesses(std::make_shared<GuessX>(P.nm), std::make_shared<GuessU>(P.nm))) R.fail("fresh-solver", "a fresh solver refuses valid settings, initial state and guesses");
        opt->body = [&](op::OptimizationProblem& pr, Vec& primal) { r = record(pr, [&](unsigned n) { if (coded && (pass == 0 || x0 != 0)) { VectorDynSize g; pr.getGuess(g); L = Layout::discover(g, P.nm, t0Of(xx)); } (void)n; return L.vector(P.nm, 3); }); primal = r.guess; return true; };
        std::vector<State> xs; std::vector<Control> us; if (!sol.solve(xs, us)) R.fail("fresh-solver", "a fresh solver fails to solve");
    }
    p = std::make_shared<Reference>(); p->L = L; p->r = r; return *p;
}
struct Abs {      // the abstract solver
    int s = NoSettings, opt = 0, x0 = 0, x0dims = -1, guess = 0 /* 1 good, 2 fails */; int integ = 0 /* 0 default, 1 given and unused, 2 bound to some settings */; int euler = 0; bool given = false; int fresh = 1 /* the optimizer in use has not solved yet; 2: either */; bool broken = false;
    std::string key() const { return std::to_string(s) + "/" + std::to_string(opt) + "/" + std::to_string(x0) + "," + std::to_string(x0dims) + "/" + std::to_string(guess) + "/" + std::to_string(integ) + std::to_string(euler) + "/" + std::to_string(fresh) + (broken ? "b" : ""); }
};
enum Call { SpecA, SpecB, SpecC, SpecBad, SpecMidA, SpecMidC, X0a, X0b, X0bad, Guess, GuessFails, GuessNullX, GuessNullU, Opt1, Opt2, OptNull, Integ, IntegNull, SolveOk, SolveFail, SolveNoPrimal, OPS };
static const char* callName[OPS] = {"settings A", "settings B", "settings C", "refused settings", "settings A that cannot be transcribed", "settings C that cannot be transcribed", "initial state a", "initial state b", "initial state of wrong size", "guesses", "guesses that fail", "null state guess", "null control guess", "optimizer 1", "optimizer 2", "null optimizer", "integrator", "null integrator", "solve", "solve, optimizer fails", "solve, optimizer gives nothing"};

struct BadGuess : DynamicalPlanner::TimeVaryingState { State s; const State& get(double, bool& ok) override { ok = false; return s; } };
struct History {
    Solver sol; std::shared_ptr<Scripted> opt[3]; std::vector<Abs> cand{Abs()}; std::vector<State> xs, lastX; std::vector<Control> us, lastU; bool have = false; int n = 0; std::string log;
    History() { for (int i = 1; i < 3; ++i) { opt[i] = std::make_shared<Scripted>(); opt[i]->inf = i == 1 ? 1e19 : 1e15; opt[i]->primal.resize(0); } }
    template <class A> static bool same(const std::vector<A>& a, const std::vector<A>& b, const Names& nm) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { if (a[i].time != b[i].time || !nm.fits(a[i]) || !nm.fits(b[i])) return false; if ((nm.flat(a[i]) - nm.flat(b[i])).cwiseAbs().maxCoeff() > 0) return false; } return true; }
    Names lastNm;
    [[noreturn]] void bad(const std::string& sig, const std::string& m) { throw Violation{sig, m + " after: " + log}; }
    void close(const std::string& what, const Vec& got, const Vec& want) { if (got.size() != want.size()) bad("programme-" + what, "the " + what + " has " + std::to_string(got.size()) + " entries, a solver used for the first time presents " + std::to_string(want.size())); for (long i = 0; i < got.size(); ++i) if (!(std::fabs(got(i) - want(i)) <= 1e-9 * (1 + std::fabs(want(i))))) bad("programme-" + what, "the " + what + "[" + std::to_string(i) + "] is " + num(got(i)) + ", a solver used for the first time presents " + num(want(i))); }
    // a candidate's view of a call that returned ok; fills the successors, throws when impossible
    void apply(const Abs& a, Call o, bool ok, std::vector<Abs>& next) {
        Abs b = a; auto expect = [&](bool w) { if (ok != w) bad(std::string(w ? "refused: " : "accepted: ") + callName[o], std::string(callName[o]) + (w ? " is refused" : " is accepted")); };
        bool prepared = a.s >= 0;
        auto spec = [&](int k) { expect(true); b.s = k; b.broken = false; if (b.x0dims != dims(k)) { b.x0 = 0; b.x0dims = dims(k); b.guess = 0; } b.fresh = 1; std::vector<Abs> r{b}; if (b.given) { if (b.integ == 1) { r[0].integ = 2; r[0].euler = 1; } else { r[0].euler = 0; Abs c = r[0]; c.euler = 1; r.push_back(c); } } for (auto& q : r) next.push_back(q); };
        switch (o) {
        case SpecA: spec(SA); return; case SpecB: spec(SB); return; case SpecC: spec(SC); return;
        case SpecBad: expect(false); break;
        case SpecMidA: case SpecMidC: { expect(false); next.push_back(b); Abs c = b; c.s = NoSettings; c.broken = true; next.push_back(c); if (c.given) { Abs d = c; d.integ = 2; next.push_back(d); } Abs e = c; e.x0 = 0; e.x0dims = dims(o == SpecMidA ? SA : SC); if (e.x0dims != c.x0dims) { e.guess = 0; next.push_back(e); if (e.given) { e.integ = 2; next.push_back(e); } } return; }
        case X0a: case X0b: expect(prepared); if (prepared) b.x0 = o == X0a ? 1 : 2; break;
        case X0bad: case GuessNullX: case GuessNullU: case OptNull: case IntegNull: expect(false); break;
        case Guess: expect(prepared); if (prepared) b.guess = 1; break;
        case GuessFails: expect(prepared); if (prepared) b.guess = 2; break;
        case Opt1: case Opt2: { expect(true); int k = o == Opt1 ? 1 : 2; b.fresh = k != b.opt ? 1 : b.fresh == 1 ? 1 : 2; b.opt = k; break; }
        case Integ: if (prepared) { if (ok) bad("accepted: integrator", "an integrator is accepted although the one in use cannot be replaced"); } else { expect(true); b.given = true; b.integ = 1; } break;
        case SolveOk: case SolveFail: case SolveNoPrimal: {
            bool can = prepared && a.opt != 0; int called = 0; for (int i = 1; i < 3; ++i) if (calls[i]) { called = i; if (calls[i] > 1) bad("optimizer-called-twice", "one solve() calls the optimizer " + std::to_string(calls[i]) + " times"); }
            if (!can) { expect(false); if (called) bad("optimizer-called", "solve() calls an optimizer although it cannot solve"); break; }
            if (called != a.opt) bad("optimizer-not-called", called ? "solve() calls the optimizer that was replaced" : "solve() does not call the optimizer");
            if (!solveError.sig.empty()) throw solveError;
            const Reference& f = reference(a.s, a.x0, opt[a.opt]->inf, a.euler); const Tiny& P = tiny(a.s);
            close("lower bounds", rec.lo, f.r.lo); close("upper bounds", rec.hi, f.r.hi); close("constraint lower bounds", rec.clo, f.r.clo); close("constraint upper bounds", rec.chi, f.r.chi); close("constraints", rec.c, f.r.c); close("gradient", rec.g, f.r.g); Vec c1(1), c2(1); c1 << rec.cost; c2 << f.r.cost; close("cost", c1, c2); R.evals(7);
            if (a.guess == 1) { if (!rec.guessed) bad("guess-lost", "the guesses given are not presented to the optimizer"); close("guess", rec.guess, f.r.guess); }
            else if (a.guess == 2) { if (rec.guessed) bad("guess-invented", "guesses that fail are presented to the optimizer"); }
            else if (a.fresh == 1) {
                if (!rec.guessed) bad("first-guess-missing", "an optimizer that never solved this problem gets no guess");
                Vec x0 = P.nm.flat(stateOf(a.s, a.x0)); auto& q = Names::at(P.nm.x, "BaseQuaternion");
                for (auto& m : f.L.m) { double sg = rec.guess(m.x[size_t(q.first)]) < 0 ? -1 : 1; for (int k = 0; k < P.nm.nx; ++k) { double w = x0(k) * (k >= q.first && k < q.first + 4 ? sg : 1); if (std::fabs(rec.guess(m.x[size_t(k)]) - w) > 1e-9) bad("default-guess", "the default guess of " + P.nm.xname(k) + " is " + num(rec.guess(m.x[size_t(k)])) + ", the initial state has " + num(w)); } if (m.own) for (int v : m.u) if (std::fabs(rec.guess(v)) > 1e-12) bad("default-guess", "the default guess of a control is not zero"); }
            } else if (a.fresh == 0 && rec.guessed) bad("previous-solution-dropped", "the optimizer is given a guess although none was set and it has a previous solution");
            bool w = o == SolveOk && a.guess != 2; expect(w); if (!w) break;
            b.guess = 0; b.fresh = 0;
            std::vector<double> ts, tu; for (size_t i = 0; i < f.L.m.size(); ++i) { if (i) ts.push_back(f.L.m[i].t); if (f.L.m[i].own) tu.push_back(f.L.m[i].t); }
            if (xs.size() != ts.size() || us.size() != tu.size()) bad("solution-size", std::to_string(xs.size()) + " states and " + std::to_string(us.size()) + " controls for " + std::to_string(ts.size()) + " and " + std::to_string(tu.size()) + " instants");
            size_t ix = 0, iu = 0; const Vec& v = opt[a.opt]->primal; auto& q = Names::at(P.nm.x, "BaseQuaternion");
            for (size_t i = 0; i < f.L.m.size(); ++i) {
                Pt p = f.L.at(v, i);
                if (i) { State& x = xs[ix++]; if (!P.nm.fits(x)) bad("solution-state-size", "a state of the solution has the dimensions of other settings"); if (std::fabs(x.time - p.t) > 1e-9) bad("solution-time", "state at time " + num(x.time) + " instead of " + num(p.t)); Vec w2 = p.x; w2.segment(q.first, 4).normalize(); if (w2(q.first) < 0) w2.segment(q.first, 4) *= -1; Vec g = P.nm.flat(x); for (int k = 0; k < P.nm.nx; ++k) if (std::fabs(g(k) - w2(k)) > 1e-8) bad("solution-state", P.nm.xname(k) + " of the solution at time " + num(p.t) + " is " + num(g(k)) + ", the optimizer found " + num(w2(k))); }
                if (f.L.m[i].own) { Control& u = us[iu++]; if (!P.nm.fits(u)) bad("solution-control-size", "a control of the solution has the dimensions of other settings"); if (std::fabs(u.time - p.t) > 1e-9) bad("solution-time", "control at time " + num(u.time) + " instead of " + num(p.t)); Vec g = P.nm.flat(u); for (int k = 0; k < P.nm.nu; ++k) if (std::fabs(g(k) - p.u(k)) > 1e-9) bad("solution-control", P.nm.uname(k) + " of the solution at time " + num(p.t) + " is " + num(g(k)) + ", the optimizer found " + num(p.u(k))); }
            }
            R.evals(ix + iu); break; }
        default: break;
        }
        next.push_back(b);
    }
    Record rec; int calls[3] = {0, 0, 0}; Violation solveError{"", ""};
    void step(Call o) {
        log += (n++ ? ", " : "") + std::string(callName[o]); R.note(log.size() < 500 ? log : log.substr(log.size() - 500)); R.transitions(); bool ok = false; int cur = -1; for (auto& a : cand) if (a.s >= 0) cur = a.s; if (cur < 0) cur = SA; const Tiny& P = tiny(cur);
        auto settings = [&](int k) { Settings st; bool valid = st.setFromStruct(tiny(k).s); (void)valid; return sol.specifySettings(st); };
        bool solving = false; size_t nx = xs.size(), nu = us.size(); std::vector<State> px = xs; std::vector<Control> pu = us;
        switch (o) {
        case SpecA: ok = settings(SA); break; case SpecB: ok = settings(SB); break; case SpecC: ok = settings(SC); break; case SpecBad: ok = settings(Refused); break; case SpecMidA: ok = settings(MidA); break; case SpecMidC: ok = settings(MidC); break;
        case X0a: ok = sol.setInitialState(stateOf(cur, 1)); break; case X0b: ok = sol.setInitialState(stateOf(cur, 2)); break;
        case X0bad: { State s(P.nm.n + 1, P.nm.np); s.zero(); State z(P.nm.n, P.nm.np + 1); z.zero(); bool o1 = sol.setInitialState(s), o2 = sol.setInitialState(z); ok = o1 || o2; break; }
        case Guess: ok = sol.setGuesses(std::make_shared<GuessX>(P.nm), std::make_shared<GuessU>(P.nm)); break; case GuessFails: ok = sol.setGuesses(std::make_shared<BadGuess>(), std::make_shared<GuessU>(P.nm)); break;
        case GuessNullX: ok = sol.setGuesses(nullptr, std::make_shared<GuessU>(P.nm)); break; case GuessNullU: ok = sol.setGuesses(std::make_shared<GuessX>(P.nm), nullptr); break;
        case Opt1: ok = sol.setOptimizer(opt[1]); break; case Opt2: ok = sol.setOptimizer(opt[2]); break; case OptNull: ok = sol.setOptimizer(nullptr); break;
        case Integ: ok = sol.setIntegrator(std::make_shared<oc::integrators::ForwardEuler>()); break; case IntegNull: ok = sol.setIntegrator(nullptr); break;
        default: {
            solving = true; rec = Record(); solveError = Violation{"", ""}; for (int i = 1; i < 3; ++i) { calls[i] = 0; opt[i]->gives = o != SolveNoPrimal; }
            std::vector<std::pair<const Reference*, int>> refs; for (auto& a : cand) if (a.s >= 0 && a.opt) refs.push_back({&reference(a.s, a.x0, opt[a.opt]->inf, a.euler), a.s}); int it = n;
            for (int i = 1; i < 3; ++i) opt[i]->body = [this, i, refs, it, o](op::OptimizationProblem& pr, Vec& primal) {
                auto point = [&](unsigned k, int seed) { for (auto& f : refs) if (f.first->L.nv == k) return f.first->L.vector(tiny(f.second).nm, seed); return Vec(Vec::Zero(long(k))); };
                calls[i]++; try { rec = record(pr, [&](unsigned k) { return point(k, 3); }); } catch (const Violation& v) { solveError = v; }
                primal = point(pr.numberOfVariables(), 11 + it);
                return o != SolveFail && !(guessFailsNow); };
            guessFailsNow = false; for (auto& a : cand) if (a.guess == 2) guessFailsNow = true;
            ok = sol.solve(xs, us); break; }
        }
        std::vector<Abs> next; Violation last{"", ""}; for (auto& a : cand) try { apply(a, o, ok, next); } catch (const Violation& v) { last = v; }
        if (next.empty()) throw last;
        std::map<std::string, Abs> uniq; for (auto& a : next) uniq[a.key()] = a; cand.clear(); for (auto& a : uniq) cand.push_back(a.second);
        R.states(cand.size());
        if (solving && !ok) { if (xs.size() != nx || us.size() != nu) bad("failed-solve-changes-output", "a failed solve() changes the vectors it was given"); for (size_t i = 0; i < nx; ++i) if (xs[i].time != px[i].time) bad("failed-solve-changes-output", "a failed solve() changes the states it was given"); }
        if (solving && ok) { have = true; lastNm = tiny(cand[0].s).nm; lastX = xs; lastU = us; }
        bool respecified = o == SpecA || o == SpecB || o == SpecC || o == SpecMidA || o == SpecMidC; if (respecified) have = false;
        if (have && (!same(sol.optimalStates(), lastX, lastNm) || !same(sol.optimalControls(), lastU, lastNm))) bad("accessors", "optimalStates() and optimalControls() are not the last solution");
        std::string h; for (auto& a : cand) h += a.key() + ";"; R.outcome(fnv(h));
    }
    bool guessFailsNow = false;
    // a solver nobody gave an optimizer to may come with Ipopt: not to be run here
    bool wouldRunIpopt(Call o) const { if (o != SolveOk && o != SolveFail && o != SolveNoPrimal) return false; for (auto& a : cand) if (a.s >= 0 && a.opt == 0) return true; return false; }
};
static std::string pathName(const std::vector<Call>& p) { std::string s; for (auto o : p) s += (s.empty() ? "" : ", ") + std::string(callName[o]); return s.empty() ? "nothing" : s; }
static void runHistory(const std::string& id, const std::vector<Call>& p, bool probe) {
    R.run(id, [&] { History h; for (auto o : p) { if (h.wouldRunIpopt(o)) h.step(Opt1); h.step(o); } if (!probe) return; if (h.wouldRunIpopt(SolveOk)) h.step(Opt1); h.step(SolveOk); h.step(Opt1); h.step(SolveOk); h.step(X0a); h.step(SolveOk); });
}
// successors in the abstract solver alone, following the code's choice after a failed specification
static Abs predict(Abs a, Call o) {
    bool prepared = a.s >= 0; auto spec = [&](int k) { a.s = k; a.broken = false; if (a.x0dims != dims(k)) { a.x0 = 0; a.x0dims = dims(k); a.guess = 0; } a.fresh = 1; if (a.given) { a.euler = a.integ == 1; a.integ = 2; } };
    switch (o) { case SpecA: spec(SA); break; case SpecB: spec(SB); break; case SpecC: spec(SC); break; case SpecMidA: case SpecMidC: a.s = NoSettings; a.broken = true; if (a.given) a.integ = 2; { int d = dims(o == SpecMidA ? SA : SC); if (a.x0dims != d) { a.x0 = 0; a.x0dims = d; a.guess = 0; } } break;
    case X0a: if (prepared) a.x0 = 1; break; case X0b: if (prepared) a.x0 = 2; break; case Guess: if (prepared) a.guess = 1; break; case GuessFails: if (prepared) a.guess = 2; break;
    case Opt1: case Opt2: { int k = o == Opt1 ? 1 : 2; a.fresh = 1; a.opt = k; break; } case Integ: if (!prepared) { a.given = true; a.integ = 1; } break; case SolveOk: if (prepared && a.opt && a.guess != 2) { a.guess = 0; a.fresh = 0; } break; default: break; }
    return a;
}
static void exploreV14() {
    bool deep = R.thorough();
    // every transition of the abstract solver, reached along a shortest path, then probed
    std::map<std::string, std::vector<Call>> seen; std::vector<std::pair<Abs, std::vector<Call>>> queue{{Abs(), {}}}; seen[Abs().key()] = {};
    auto keep = [&](const Abs& a) { if (deep) return true; if (a.s == SB) return false; if (a.given && (a.opt == 2 || a.x0 == 2 || a.guess == 2)) return false; if (a.guess == 2 && (a.opt != 1 || a.x0 == 2)) return false; if (a.broken && (a.opt != 1 || a.guess || a.x0 > 1 || (a.x0 && (a.given || !a.fresh)))) return false; if (a.given && a.s >= 0 && a.x0 && a.guess) return false; if (!a.fresh && a.x0 && a.guess) return false; return !(a.opt == 0 && (a.x0 == 2 || a.guess == 2)) && !(a.x0 == 2 && a.opt == 2); };
    for (size_t i = 0; i < queue.size(); ++i) {
        auto cur = queue[i];
        for (int o = 0; o < OPS; ++o) { Abs b = predict(cur.first, Call(o)); auto p = cur.second; p.push_back(Call(o)); if (!seen.count(b.key()) && keep(b)) { seen[b.key()] = p; queue.push_back({b, p}); } }
    }
    if (getenv("V14_STATES")) { fprintf(stderr, "%zu abstract states\n", queue.size()); for (auto& q : queue) fprintf(stderr, "K %s\n", q.first.key().c_str()); }
    for (auto& q : queue) {
        if (!deep) {       // one case per state: every call that is refused or leaves the state alone, one after the other, then the others each in its own case
            std::vector<Call> self = q.second; for (int o = 0; o < OPS; ++o) if (predict(q.first, Call(o)).key() == q.first.key()) self.push_back(Call(o)); runHistory("all harmless calls after: " + pathName(q.second), self, true);
            for (int o = 0; o < OPS; ++o) if (predict(q.first, Call(o)).key() != q.first.key() && o != SpecB) { auto p = q.second; p.push_back(Call(o)); runHistory("state: " + pathName(p), p, true); }
        } else for (int o = 0; o < OPS; ++o) { auto p = q.second; p.push_back(Call(o)); runHistory("state: " + pathName(p), p, true); }
    }
    // every history of a prepared solver up to a depth
    std::vector<Call> alpha = {SpecA, SpecB, SpecC, SpecMidA, SpecMidC, X0a, X0b, Guess, Opt1, Opt2, SolveOk, SolveFail}; int depth = deep ? 4 : 3;
    std::function<void(std::vector<Call>&)> rec; rec = [&](std::vector<Call>& p) { if (int(p.size()) == depth + 2) { runHistory("history: " + pathName(p), p, true); return; } for (auto o : alpha) { p.push_back(o); rec(p); p.pop_back(); } };
    if (deep) { std::vector<Call> p{Opt1, SpecA}; rec(p); }
    std::vector<Call> p{Opt1, SpecA}; depth = deep ? 4 : 2; if (!deep) rec(p);
}

// ---------------------------------------------------------------- V24
struct Deriv { bool hessian = true; int integrator = 0; double regCost = 0, regCons = 0; double t0 = 0; int seed = 5; };
static void v24(const std::string& id, const std::function<std::shared_ptr<Tiny>()>& mk, const Deriv& D = Deriv()) {
    R.run(id, [&] {
        auto Pp = mk(); Tiny& P = *Pp; P.t0 = D.t0; P.s.useCostsHessianRegularization = D.regCost != 0; P.s.costsHessianRegularization = D.regCost; P.s.useConstraintsHessianRegularization = D.regCons != 0; P.s.constraintsHessianRegularization = D.regCons;
        Options o; o.integrator = D.integrator;
        present(P, o, [&](op::OptimizationProblem& pr, const Layout& L, const Vec&) {
            unsigned nv = pr.numberOfVariables(), nc = pr.numberOfConstraints(); Vec v = L.vector(P.nm, D.seed);
            auto at = [&](const Vec& w) { if (!pr.setVariables(Fixture::V(w))) R.fail("variables-refused", "setVariables"); };
            auto cost = [&](const Vec& w) { at(w); double c; if (!pr.evaluateCostFunction(c)) R.fail("cost-failed", "the cost cannot be evaluated"); return c; };
            auto grad = [&](const Vec& w) { at(w); VectorDynSize g(nv); g.zero(); if (!pr.evaluateCostGradient(g)) R.fail("gradient-failed", "the gradient cannot be evaluated"); return Vec(Fixture::M(g).col(0)); };
            auto cons = [&](const Vec& w) { at(w); VectorDynSize c(nc); c.zero(); if (!pr.evaluateConstraints(c)) R.fail("constraints-failed", "the constraints cannot be evaluated"); return Vec(Fixture::M(c).col(0)); };
            MatrixDynSize buf(nc, nv); auto jac = [&](const Vec& w) { at(w); buf.zero(); if (!pr.evaluateConstraintsJacobian(buf)) R.fail("jacobian-failed", "the Jacobian cannot be evaluated"); return Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(buf.data(), nc, nv); };
            Vec g = grad(v); Eigen::MatrixXd J = jac(v);
            std::vector<size_t> jr, jc, hr, hc; if (!pr.getConstraintsJacobianInfo(jr, jc) || !pr.getHessianInfo(hr, hc)) R.fail("sparsity-failed", "no sparsity");
            std::vector<char> js(size_t(nc) * nv, 0), hs(size_t(nv) * nv, 0); for (size_t i = 0; i < jr.size(); ++i) { if (jr[i] >= nc || jc[i] >= nv) R.fail("sparsity-range", "the sparsity of the Jacobian declares an entry outside of it"); js[jr[i] * nv + jc[i]] = 1; } for (size_t i = 0; i < hr.size(); ++i) { if (hr[i] >= nv || hc[i] >= nv) R.fail("sparsity-range", "the sparsity of the Hessian declares an entry outside of it"); hs[hr[i] * nv + hc[i]] = 1; }
            Vec lam(nc); { double z = 0.37; for (unsigned i = 0; i < nc; ++i) { z = std::fmod(z * 3.7 + 0.61, 2.0); lam(i) = z - 1; } }
            Eigen::MatrixXd H, HC; bool hess = D.hessian;
            if (hess) { MatrixDynSize h(nv, nv); h.zero(); at(v); if (!pr.evaluateCostHessian(h)) R.fail("hessian-failed", "the Hessian of the cost cannot be evaluated"); H = Fixture::M(h); h.zero(); at(v); if (!pr.evaluateConstraintsHessian(Fixture::V(lam), h)) R.fail("hessian-failed", "the Hessian of the constraints cannot be evaluated"); HC = Fixture::M(h); }
            double gmax = g.cwiseAbs().maxCoeff(); auto nameOf = [&](unsigned k) { return L.name(P.nm, int(k)); };
            for (unsigned k = 0; k < nv; ++k) {
                double e = 1e-5; Vec a = v, b = v; a(k) += e; b(k) -= e; double ga = (cost(a) - cost(b)) / (2 * e); if (!(std::fabs(ga - g(k)) <= 2e-5 * (1 + std::fabs(ga)) + 1e-7 * gmax)) R.fail("gradient", "the derivative of the cost with respect to " + nameOf(k) + " is " + num(g(k)) + ", its values say " + num(ga));
                Vec ja = (cons(a) - cons(b)) / (2 * e);
                for (unsigned i = 0; i < nc; ++i) { if (!(std::fabs(ja(i) - J(i, k)) <= 2e-5 * (1 + std::fabs(ja(i))))) R.fail("jacobian", "the derivative of constraint " + std::to_string(i) + " with respect to " + nameOf(k) + " is " + num(J(i, k)) + ", its values say " + num(ja(i))); if (!js[size_t(i) * nv + k] && (std::fabs(J(i, k)) > 1e-12 || std::fabs(ja(i)) > 1e-5)) R.fail("jacobian-sparsity", "the derivative of constraint " + std::to_string(i) + " with respect to " + nameOf(k) + " is " + num(ja(i)) + " but is declared zero"); }
                R.evals(nc + 1);
                if (hess) {
                    Vec da = (grad(a) - grad(b)) / (2 * e), dc = Vec(jac(a).transpose() * lam); dc = (dc - Vec(jac(b).transpose() * lam)) / (2 * e);
                    for (unsigned i = 0; i < nv; ++i) { double wa = da(i) + (i == k ? D.regCost : 0), wc = dc(i) + (i == k ? D.regCons : 0);
                        if (!(std::fabs(wa - H(i, k)) <= 5e-5 * (1 + std::fabs(wa)) + 1e-6 * gmax)) R.fail("cost-hessian", "the second derivative of the cost with respect to " + nameOf(i) + " and " + nameOf(k) + " is " + num(H(i, k)) + ", the gradient says " + num(wa));
                        if (!(std::fabs(wc - HC(i, k)) <= 5e-5 * (1 + std::fabs(wc)))) R.fail("constraints-hessian", "the second derivative of the constraints with respect to " + nameOf(i) + " and " + nameOf(k) + " is " + num(HC(i, k)) + ", the Jacobian says " + num(wc));
                        bool decl = hs[size_t(i) * nv + k] || hs[size_t(k) * nv + i]; if (!decl && (std::fabs(H(i, k)) > 1e-12 || std::fabs(HC(i, k)) > 1e-12 || std::fabs(wa) > 1e-4 || std::fabs(wc) > 1e-4)) R.fail("hessian-sparsity", "the second derivative with respect to " + nameOf(i) + " and " + nameOf(k) + " is " + num(wa) + " + " + num(wc) + " but is declared zero"); }
                    R.evals(2 * nv); }
                R.transitions();
            }
            R.states(); R.outcome(fnv(num(g.sum()) + num(J.sum())));
        }); });
}
static void exploreV24() {
    bool deep = R.thorough(); auto& cd = costDefs(); auto base = [](int robot, unsigned np, double h) { return [=] { auto p = std::make_shared<Tiny>(robot, np, h, 0.0); p->s.comCostActive = true; p->s.angularMomentumCostActive = false; return p; }; };
    for (auto ct : {ComplementarityType::HyperbolicSecantInequality, ComplementarityType::Dynamical, ComplementarityType::Classical, ComplementarityType::HyperbolicSecantInDynamics}) for (auto pt : {PlanarComplementarityType::HyperbolicTangentInDynamics, PlanarComplementarityType::HyperbolicTangentInequality, PlanarComplementarityType::Classical}) for (int in = 0; in < (deep ? 3 : 2); ++in) for (int rb = 0; rb < (deep ? 2 : 1); ++rb) { Deriv D; D.integrator = in == 0 ? 0 : in; D.t0 = in ? 0.7 : 0; D.hessian = deep || in == 0;
        v24("complementarity " + std::to_string(int(ct)) + "," + std::to_string(int(pt)) + " integrator " + std::to_string(in) + " r" + std::to_string(rb), [=] { auto p = base(rb ? 0 : 2, rb ? 2 : 1, rb ? 0.5 : 0.25)(); p->s.complementarity = ct; p->s.planarComplementarity = pt; return p; }, D); }
    auto points = [](const std::string& n, int robot) { return n.find("FootYaw") != std::string::npos ? 3u : n.find("orce") != std::string::npos ? 2u : robot == 0 ? 2u : 1u; };
    for (int rb = 0; rb < 2; ++rb) for (int in = 0; in < (deep ? 3 : 1); ++in) for (int seed : {5, 8}) { if (!deep && seed == 8 && rb) continue; for (size_t i = 0; i < cd.size(); ++i) { std::string n = cd[i].name; Deriv D; D.integrator = in; D.seed = seed; D.t0 = rb ? 0.7 : 0; D.hessian = n != "staticTorquesCostActive" && (deep || (n != "frameAngularVelocityCostActive" && !rb)); unsigned np = points(n, rb ? 0 : 2);
        v24("cost " + n + " r" + std::to_string(rb) + " integrator " + std::to_string(in) + " point " + std::to_string(seed), [=] { auto p = base(rb ? 0 : 2, np, 0.25)(); p->s.*(costDefs()[i].active) = true; return p; }, D); } }
    for (size_t i = 0; i < cd.size(); ++i) for (size_t j = i + 1; j < cd.size(); ++j) { std::string n = cd[i].name, m = cd[j].name; if (!deep && (i + j) % 4) continue; Deriv D; D.hessian = deep && n != "staticTorquesCostActive" && m != "staticTorquesCostActive"; D.seed = int(4 + (i + j) % 3); unsigned np = std::max(points(n, 2), points(m, 2)); v24("costs " + n + "+" + m, [=] { auto p = base(2, np, 0.25)(); p->s.*(costDefs()[i].active) = p->s.*(costDefs()[j].active) = true; return p; }, D); }
    { Deriv D; D.hessian = false; v24("all costs", [=] { auto p = base(2, 3, 0.25)(); for (auto& c : costDefs()) p->s.*(c.active) = true; return p; }, D); D.t0 = 0.7; if (deep) v24("all costs of the other robot", [=] { auto p = base(0, 3, 0.5)(); for (auto& c : costDefs()) p->s.*(c.active) = true; return p; }, D); }
    for (double a : {0.0, 0.5}) for (double b : {0.0, 0.25}) { Deriv D; D.regCost = a; D.regCons = b; v24("regularisation " + sh(a) + ", " + sh(b), base(2, 1, 0.5), D); }
    for (const char* bs : {"root_link", "l_upper_leg"}) for (double t0 : {0.0, 0.7}) { Deriv D; D.t0 = t0; D.hessian = deep; v24(std::string("base ") + bs + " from " + sh(t0), [=] { auto p = base(2, 2, 0.5)(); p->s.floatingBaseName = bs; p->s.gravity(0) = 0.4; p->s.comCostActiveRange = oc::TimeRange(0.1, 2.0); p->s.angularMomentumCostActive = true; return p; }, D); }
}

int main(int argc, char** argv) {
    std::string prop = "V15"; for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--prop") prop = argv[i + 1];
    bool deep = false; for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "thorough") deep = true; (void)deep;
    R.caseTimeoutMs = 240000;
    if (prop == "V14") { R.rule = deep ? "every reachable state of the abstract solver and every call in it, then probes; every history of 4 calls after a prepared solver" : "every reachable state of the abstract solver and every call in it, then probes; every history of 2 calls after a prepared solver"; R.stateWord = "solver histories"; R.assumptions = {"the optimizer is scripted and returns coded solutions or failures", "a specification that fails midway may keep the previous settings or leave the solver unprepared"}; }
    if (prop == "V15") { R.rule = "every configuration of a family (single costs, pairs, all but one, complementarities and integrators, time grids, ranges, infinities, gravities, bases, frames); every variable and row of the programme at two generic points"; R.stateWord = "programmes"; R.assumptions = {"the optimizer is scripted", "the transcription of iDynTree is taken as it is"}; }
    if (prop == "V24") { R.rule = "every configuration of a family; every entry of the gradient, the Jacobian and the Hessians, and every undeclared entry, at a generic point"; R.stateWord = "programmes"; R.assumptions = {"central differences with relative tolerance 2e-5 (first) and 5e-5 (second)"}; }
    return R.main(argc, argv, prop, [&](Runner&) { if (prop == "V15") exploreV15(); if (prop == "V14") exploreV14(); if (prop == "V24") exploreV24(); });
}
