// V08: a query at a time is answered by the kinematics of the closest instant of the current mesh, configured as last asked.
#include "kd_ref.h"
#include "poison.h"
using namespace DynamicalPlanner::Private;
using namespace mc;
typedef std::vector<double> Times;
static std::vector<Times> meshes(bool th) {
    std::vector<Times> m = {{0.5}, {0, 1}, {0, 0.5, 1}, {0.1, 0.2, 0.9}, {0, 0.1, 0.3, 0.6, 1.0}, {-1, 0.2, 0.25, 0.9, 1.3, 2}, {0, 1, 2, 3, 4, 5, 6, 7}};
    // all subsets of a small grid
    for (int s = 1; s < (th ? 256 : 64); ++s) { Times t; for (int i = 0; i < 8; ++i) if (s >> i & 1) t.push_back(i < 3 ? 0.25 * i : i == 3 ? 0.8 : 0.9 + 0.5 * (i - 4)); m.push_back(t); }
    return m;
}
static Times queries(const Times& t) {
    Times q;
    auto add = [&](double x) { for (double y : q) if (y == x) return; q.push_back(x); };
    add(t.front() - 1);
    for (size_t i = 0; i < t.size(); ++i) { add(t[i]); if (i + 1 < t.size()) { double d = t[i + 1] - t[i]; add(t[i] + 0.25 * d); add(t[i] + 0.499 * d); add(t[i] + 0.501 * d); add(t[i] + 0.9 * d); } }
    add(t.back() + 1);
    return q;
}
static std::string ts(const Times& t) { std::string s = "{"; for (double x : t) s += mc::num(x) + " "; return s + "}"; }
// checks that `got` answers `q`: closest to q among the mesh, where instants[i] is the instance of t[i]
static void closest(mc::Runner& R, const Times& t, const std::vector<SharedKinDynComputations*>& inst, double q, SharedKinDynComputations* got, const std::string& h) {
    size_t i = 0; while (i < inst.size() && inst[i] != got) ++i;
    R.check(i < inst.size(), "foreign-instance", "the query at " + mc::num(q) + " was answered by an instance of no current instant " + h);
    double best = 1e300; for (double x : t) best = std::min(best, std::fabs(x - q));
    R.check(std::fabs(t[i] - q) <= best + 1e-9, "not-closest", "the query at " + mc::num(q) + " was answered by the instant " + mc::num(t[i]) + " of the mesh " + ts(t) + h);
    R.evals();
}
static std::vector<SharedKinDynComputations*> instants(mc::Runner& R, TimelySharedKinDynComputations& k, const Times& t, const std::string& h) {
    std::vector<SharedKinDynComputations*> r;
    for (double x : t) r.push_back(k.get(x).get());
    for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < i; ++j) R.check(r[i] != r[j], "shared-instance", "the instants " + mc::num(t[i]) + " and " + mc::num(t[j]) + " of the mesh " + ts(t) + " share their kinematics" + h);
    return r;
}
static void explore(mc::Runner& R) {
    R.rule = "all query sequences of length 3 (4 thorough) on every mesh of a family (all subsets of a grid included), and all histories of mesh changes, queries and configuration changes up to a depth; oracle: exhaustive search of the nearest instant, and the last configuration applied";
    R.stateWord = "mesh/prefix cases";
    R.assumptions = {"meshes are strictly increasing", "a tie, or a query within 1e-9 of one, may go either way"};
    auto M = meshes(R.thorough());
    for (auto& t : M) R.run("mesh " + ts(t), [&] {
        auto Q = queries(t);
        TimelySharedKinDynComputations k; R.check(k.loadRobotModel(biped()), "load", "");
        R.check(k.setTimings(t), "timings-refused", ts(t));
        auto inst = instants(R, k, t, "");
        int L = R.thorough() && t.size() < 6 ? 4 : 3;
        uint64_t tot = 1; for (int i = 0; i < L; ++i) tot *= Q.size();
        for (uint64_t x = 0; x < tot; ++x) { uint64_t y = x; std::string h; for (int i = 0; i < L; ++i) { double q = Q[y % Q.size()]; y /= Q.size(); auto g = k.get(q); if (i + 1 == L || true) { closest(R, t, inst, q, g.get(), L ? " (sequence " + std::to_string(x) + ")" : ""); } R.transitions(); } R.states(); }
    });
    // histories
    std::vector<Times> H = {{0, 1}, {0, 0.5, 1, 1.5}, {2, 3, 7}, {0, 5}, {0.5}};
    std::vector<double> q = {-1, 0, 0.45, 0.7, 1.4, 2.4, 4, 8};
    std::vector<std::string> ops;
    for (auto& t : H) ops.push_back("setTimings" + ts(t));
    for (double x : q) ops.push_back("get(" + mc::num(x) + ")");
    size_t cfg0 = ops.size();
    ops.insert(ops.end(), {"gravity 1", "gravity 0", "base l_lower_leg", "base root_link", "tolerance 0.5", "load reduced", "base unknown"});
    size_t N = ops.size();
    int D = R.thorough() ? 5 : 4;
    for (size_t a = 0; a < N; ++a) for (size_t b = 0; b < N; ++b) R.run("history " + ops[a] + "; " + ops[b], [&] {
        uint64_t tot = 1; for (int i = 2; i < D; ++i) tot *= N;
        for (uint64_t x = 0; x < tot; ++x) {
            std::vector<size_t> seq = {a, b}; uint64_t y = x; for (int i = 2; i < D; ++i) { seq.push_back(y % N); y /= N; }
            TimelySharedKinDynComputations k; R.check(k.loadRobotModel(biped()), "load", "");
            Times t; bool set = false; int g = 0, dofs = 5; std::string base = "root_link"; double tol = k.getUpdateTolerance();
            std::string h = " in history: ";
            std::vector<std::pair<double, SharedKinDynComputations*>> pend; std::vector<std::shared_ptr<SharedKinDynComputations>> keep;
            auto flush = [&] { if (set && !t.empty() && !pend.empty()) { auto inst = instants(R, k, t, h); for (auto& p : pend) closest(R, t, inst, p.first, p.second, h); } pend.clear(); };
            for (size_t o : seq) {
                h += ops[o] + "; "; R.transitions();
                if (o < H.size()) { flush(); t = H[o]; R.check(k.setTimings(t), "timings-refused", h); set = true; }
                else if (o < cfg0) {
                    double tq = q[o - H.size()]; auto p = k.get(tq); keep.push_back(p);
                    if (set) pend.push_back({tq, p.get()});
                    auto want = [&] { iDynTree::Vector3 v; v.zero(); v(2) = g ? -1.6 : -9.81; return v; }();
                    for (unsigned i = 0; i < 3; ++i) R.check(p->gravity()(i) == want(i), "gravity", "the instance at " + mc::num(tq) + " has another gravity" + h);
                    R.check(p->getFloatingBase() == base, "floating-base", "the instance at " + mc::num(tq) + " has base " + p->getFloatingBase() + h);
                    R.check(p->getUpdateTolerance() == tol, "tolerance", "the instance at " + mc::num(tq) + " has tolerance " + mc::num(p->getUpdateTolerance()) + h);
                    R.check(int(p->model().getNrOfDOFs()) == dofs && p->isValid(), "model", "the instance at " + mc::num(tq) + " has another model" + h);
                    // and it answers accordingly
                    RobotState s = robotState(unsigned(dofs), 0); KD ref(dofs == 5 ? biped() : bipedReduced(), base, s, want, iDynTree::MIXED_REPRESENTATION);
                    std::string e = cmp(flatV(p->getCenterOfMassPosition(s), 3), flatV(ref.k.getCenterOfMassPosition(), 3), 1e-9); R.check(e.empty(), "answer", e + h);
                } else switch (o - cfg0) {
                case 0: case 1: { g = o == cfg0; iDynTree::Vector3 v; v.zero(); v(2) = g ? -1.6 : -9.81; k.setGravity(v); break; }
                case 2: case 3: base = o - cfg0 == 2 ? "l_lower_leg" : "root_link"; R.check(k.setFloatingBase(base), "refused", h); break;
                case 4: tol = 0.5; R.check(k.setToleranceForUpdate(tol), "refused", h); break;
                case 5: flush(); R.check(k.loadRobotModel(bipedReduced()), "refused", h); dofs = 4; base = "root_link"; set = false; break;
                case 6: R.check(!k.setFloatingBase("nope"), "unknown-base-accepted", h); break;
                }
                R.check(k.isValid() && k.getFloatingBase() == base && k.getUpdateTolerance() == tol && int(k.model().getNrOfDOFs()) == dofs, "configuration", h);
            }
            flush(); R.states();
        }
    });
    R.run("before a model", [&] { TimelySharedKinDynComputations k; R.check(!k.isValid() && !k.setTimings({0, 1}), "timings-without-model", ""); R.evals(); R.states(); });
}
int main(int argc, char** argv) { mc::Runner R; return R.main(argc, argv, "V08", explore); }
