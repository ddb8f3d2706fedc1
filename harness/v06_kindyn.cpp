// V06: every robot quantity returned by the shared kinematics is the one of the state it is asked for,
// whatever was asked or configured before.
#include "kd_queries.h"
#include "poison.h"
using namespace DynamicalPlanner::Private;
using namespace mc;
enum { CFG_BASE0 = 0, CFG_BASE1, CFG_GRAV0, CFG_GRAV1, CFG_LOAD0, CFG_LOAD1, CFG_COPY, CFG_BADBASE, NCFG };
static const char* CN[] = {"setFloatingBase(root_link)", "setFloatingBase(l_lower_leg)", "setGravity(default)", "setGravity(tilted)", "load(full)", "load(reduced)", "copy", "setFloatingBase(unknown)"};
struct Op { int cfg; Query q; int state; };
static std::string on(const Op& o) { return o.cfg >= 0 ? CN[o.cfg] : qn(o.q, o.state); }

static void step(mc::Runner& R, std::unique_ptr<SharedKinDynComputations>& k, Config& c, const Op& o, const std::string& h) {
    R.transitions();
    if (o.cfg >= 0) {
        switch (o.cfg) {
        case CFG_BASE0: case CFG_BASE1: c.base = o.cfg == CFG_BASE0 ? "root_link" : "l_lower_leg"; R.check(k->setFloatingBase(c.base), "refused", "setFloatingBase" + h); R.check(k->getFloatingBase() == c.base, "floating-base", h); break;
        case CFG_BADBASE: R.check(!k->setFloatingBase("no_such_link"), "unknown-base-accepted", h); break;
        case CFG_GRAV0: case CFG_GRAV1: c.grav = o.cfg == CFG_GRAV1; k->setGravity(gravOf(c.grav)); break;
        case CFG_LOAD0: case CFG_LOAD1: c.model = o.cfg == CFG_LOAD1; c.base = "root_link"; R.check(k->loadRobotModel(modelOf(c.model)), "refused", "loadRobotModel" + h); break;
        case CFG_COPY: k = std::make_unique<SharedKinDynComputations>(*k); break;
        }
        R.check(k->isValid() && k->model().getNrOfDOFs() == modelOf(c.model).getNrOfDOFs() && k->getFloatingBase() == c.base, "configuration", h);
        auto g = gravOf(c.grav); for (unsigned i = 0; i < 3; ++i) R.check(k->gravity()(i) == g(i), "gravity", h);
        return;
    }
    RobotState s = stateOf(c.model, o.state);
    bool ok;
    Num got = ask(*k, o.q, s, c, ok);
    R.check(ok, std::string("refused:") + KN[o.q.kind], h);
    if (o.q.kind == UPDATE) { R.check(k->sameState(s), "update", "the state was updated but is not the current one" + h); R.check(rowsWithin(k->currentState(), s, 1e-9), "update", "the current state is not the one set" + h); }
    else if (o.q.kind == SAME) { if (got[0]) R.check(rowsWithin(k->currentState(), s, 1e-9), "same-state", "a state was reported as the current one, but it is not" + h); }
    else {
        auto& ref = reference(o.q, s, std::to_string(o.state), c);
        std::string d = cmp(got, ref.first, ref.second);
        if (!d.empty()) R.fail(std::string("wrong:") + KN[o.q.kind], d + h);
        R.evals();
    }
}
static void explore(mc::Runner& R) {
    R.rule = "all histories, up to a depth, of kinematic/dynamic queries (every query, representation and frame choice) and configuration changes (base link, gravity, model reload, copy), over states that differ in all or in exactly one component; every answer is compared with a freshly built iDynTree computation, or with central finite differences/virtual work built on it";
    R.stateWord = "history prefixes";
    R.assumptions = {"iDynTree's KinDynComputations, freshly built for every reference, is trusted", "joints derivatives are compared with central finite differences (relative tolerance 1e-6)"};
    auto Q = allQueries();
    std::vector<Op> wide, narrow;
    for (int i = 0; i < NCFG; ++i) { wide.push_back({i, {}, 0}); narrow.push_back({i, {}, 0}); }
    for (int s = 0; s < 9; ++s) for (auto& q : Q) wide.push_back({-1, q, s});
    std::vector<int> used(NKIND, 0);
    for (int s = 0; s < 2; ++s) for (auto& q : Q) if (q.arg == 0 && (q.rep == 0 || q.kind == FV_IDX || q.kind == MASS) && q.kind != WT_NAME && q.kind != FFJ_NAME && q.kind != RT_NAME && q.kind != FV_NAME) narrow.push_back({-1, q, s});
    auto history = [&](const std::vector<Op>& ops) {
        auto k = std::make_unique<SharedKinDynComputations>(); Config c; c.base = "root_link";
        R.check(k->loadRobotModel(biped()), "load", "");
        std::string h = " in history: ";
        for (auto& o : ops) { h += on(o) + "; "; step(R, k, c, o, h); }
        R.states();
    };
    for (auto& a : wide) R.run("pair " + on(a), [&] { for (auto& b : wide) history({a, b}); });
    // update with a state that differs in one component, then ask for the original again
    for (auto& a : wide) if (a.cfg < 0 && a.state == 0) R.run("toggle " + on(a), [&] { for (auto& b : wide) if (b.cfg < 0 && b.state >= 1) { { history({a, b, a}); for (int c = 0; c < NCFG; ++c) history({a, {c, {}, 0}, b}); } if (R.thorough()) for (auto& z : narrow) history({a, b, z, a}); } });
    for (auto& a : narrow) for (auto& b : narrow) R.run("triple " + on(a) + "; " + on(b), [&] {
        for (auto& z : narrow) { if (!R.thorough()) history({a, b, z}); else for (auto& y : narrow) history({a, b, z, y}); }
    });
    // update tolerance: sequences of small displacements along each component; an answer must be the exact one of a state within tolerance
    for (int comp = 1; comp <= 6; ++comp) for (double tol : {0.0, 0.1, 0.25}) R.run("tolerance " + mc::num(tol) + " component " + std::to_string(comp), [&] {
        const double d = 0.08;
        int N = R.thorough() ? 6 : 5;
        std::vector<Query> qs; for (auto& q : Q) if (q.kind == FV_IDX || q.kind == WT_IDX || q.kind == MOM || q.kind == BASE || q.kind == MOMJD) if (q.rep < 2 && q.arg == 0) qs.push_back(q);
        int tot = 1; for (int i = 0; i < N; ++i) tot *= 4;
        Config c; c.base = "root_link";
        for (auto& q : qs) for (int x = 0; x < tot; ++x) {
            SharedKinDynComputations k; k.loadRobotModel(biped()); R.check(k.setToleranceForUpdate(tol), "tolerance", "refused"); R.check(!k.setToleranceForUpdate(-0.5), "tolerance", "negative accepted"); R.check(k.getUpdateTolerance() == tol, "tolerance", "value");
            int y = x; std::string h = " positions ";
            for (int i = 0; i < N; ++i) {
                int p = y % 4; y /= 4; h += std::to_string(p) + " ";
                RobotState s = robotState(5, 0, comp, p * d);
                bool ok; Num got = ask(k, q, s, c, ok);
                bool any = false; std::string why;
                for (int j = 0; j < 4; ++j) {
                    if (j != p && !(std::abs(j - p) * d <= tol + 1e-9)) continue;
                    auto& ref = reference(q, robotState(5, 0, comp, j * d), "t" + std::to_string(comp) + "/" + std::to_string(j), c);
                    std::string e = cmp(got, ref.first, ref.second);
                    if (e.empty()) any = true; else why = e;
                }
                R.check(ok && any, "tolerance", std::string(KN[q.kind]) + " answered for a state farther than the update tolerance" + h + ": " + why);
                R.evals(); R.transitions();
            }
            R.states();
        }
    });
}
int main(int argc, char** argv) { mc::Runner R; return R.main(argc, argv, "V06", explore); }
