// V07: concurrent users of the same shared kinematics each get the answer of the state they asked for,
// under every schedule with a bounded number of preemptions.
#include "fiber_sched.h"
#define MC_CALL(x) ([&] { mc::InsideOp io; return (x); }())
#include "kd_queries.h"
#include "poison.h"
struct TOp { Query q; int state; int cfg; };  // cfg: 0 query, 1 gravity, 2 base, 3 tolerance
static std::string tn(const TOp& o) { return o.cfg == 1 ? "setGravity" : o.cfg == 2 ? "setFloatingBase" : o.cfg == 3 ? "setTolerance" : qn(o.q, o.state); }
struct Prep { RobotState s; bool ok = true; Num got; };
static mc::Runner* RR;
static void explorePair(mc::Runner& R, const std::vector<std::vector<TOp>>& threads, int bound) {
    // warm up the references (and every lazily built global) outside the scheduler
    Config c0; c0.base = "root_link";
    std::vector<Config> configs = {c0};
    for (auto& t : threads) for (auto& o : t) if (o.cfg == 1 || o.cfg == 2) { auto old = configs; for (auto c : old) { if (o.cfg == 1) c.grav = 1; else c.base = "l_lower_leg"; configs.push_back(c); } }
    for (auto& c : configs) for (auto& t : threads) for (auto& o : t) if (!o.cfg && o.q.kind != UPDATE && o.q.kind != SAME) reference(o.q, stateOf(0, o.state), std::to_string(o.state), c);
    static SharedKinDynComputations* tmpl = [] { auto* k = new SharedKinDynComputations; k->loadRobotModel(biped()); return k; }();
    std::string h = " with threads";
    for (auto& t : threads) { h += " {"; for (auto& o : t) h += tn(o) + "; "; h += "}"; }
    mc::Sched S;
    uint64_t steps = 0;
    auto once = [&] {
        SharedKinDynComputations k(*tmpl);
        RobotState init = stateOf(0, 1); k.updateRobotState(init);
        std::vector<std::vector<Prep>> res(threads.size());
        for (size_t i = 0; i < threads.size(); ++i) for (auto& o : threads[i]) { Prep p; p.s = stateOf(0, o.state); res[i].push_back(p); }
        iDynTree::Vector3 g1 = gravOf(1); std::string b1 = "l_lower_leg";
        std::vector<std::function<void()>> bodies;
        for (size_t i = 0; i < threads.size(); ++i) bodies.push_back([&, i] {
            for (size_t j = 0; j < threads[i].size(); ++j) {
                auto& o = threads[i][j]; auto& p = res[i][j];
                if (o.cfg == 1) MC_CALL(k.setGravity(g1)); else if (o.cfg == 2) p.ok = MC_CALL(k.setFloatingBase(b1)); else if (o.cfg == 3) p.ok = MC_CALL(k.setToleranceForUpdate(1e-9));
                else p.got = ask(k, o.q, p.s, c0, p.ok);
            }
        });
        S.execute(bodies);
        std::string hs = h + " under schedule " + S.schedule();
        if (S.diverged) R.fail("replay-divergence", "the same schedule prefix behaved differently" + hs);
        if (S.deadlock) R.fail("deadlock", "no thread can proceed" + hs);
        Config last = configs.back();
        uint64_t oh = 7;
        for (size_t i = 0; i < threads.size(); ++i) {
            if (!S.f[i]->err.empty()) R.fail(S.f[i]->err.substr(0, S.f[i]->err.find('\x1f')), S.f[i]->err.substr(S.f[i]->err.find('\x1f') + 1) + hs);
            for (size_t j = 0; j < threads[i].size(); ++j) {
                auto& o = threads[i][j]; auto& p = res[i][j];
                R.check(p.ok, "refused", tn(o) + hs);
                if (o.cfg || o.q.kind == UPDATE || o.q.kind == SAME) continue;
                bool any = false; std::string why;
                for (auto& c : configs) { auto& ref = reference(o.q, p.s, std::to_string(o.state), c); std::string e = cmp(p.got, ref.first, ref.second); if (e.empty()) any = true; else if (why.empty()) why = e; }
                R.check(any, std::string("wrong:") + KN[o.q.kind], tn(o) + " of thread " + std::to_string(i) + ": " + why + hs);
                oh = mc::fnv(p.got.data(), p.got.size() * 8, oh); R.evals();
            }
        }
        // afterwards the object is coherent with the last configuration
        for (int st : {0, 1}) for (int kd : {int(COM), int(MASS), int(SF)}) {
            Query q{kd, 0, 0}; bool ok; RobotState s = stateOf(0, st); Num g = ask(k, q, s, last, ok); auto& ref = reference(q, s, std::to_string(st), last);
            std::string e = cmp(g, ref.first, ref.second); R.check(ok && e.empty(), "left-incoherent", std::string(KN[kd]) + " after the threads: " + e + hs);
        }
        R.outcome(oh);
    };
    uint64_t n = S.explore(bound, once, steps);
    // one schedule twice: identical
    if (getenv("MC_STAT")) fprintf(stderr, "%llu schedules %llu steps%s\n", (unsigned long long)n, (unsigned long long)steps, h.c_str());
    R.states(n); R.transitions(steps);
}
static void explore(mc::Runner& R) {
    RR = &R;
    R.rule = "every schedule, up to a bound on preemptions, of 2 threads x 1 operation (all pairs of operations, configuration changes included), 2 threads x 2 operations and 3 threads x 1 operation on one shared kinematics object; scheduling points: mutex operations and every call into iDynTree";
    R.stateWord = "thread programs";
    R.assumptions = {"between two scheduling points a thread is not interrupted", "sequentially consistent memory"};
    std::vector<TOp> all; auto Q = allQueries();
    for (auto& q : Q) if (q.arg == 0 && q.rep < 2) all.push_back({q, 0, 0});
    for (int c = 1; c <= 3; ++c) all.push_back({{}, 0, c});
    int bound = R.thorough() ? 3 : 2;
    for (auto& a : all) for (auto& b : all) {
        if (a.cfg && b.cfg) continue;
        R.run("2x1 " + tn(a) + " | " + tn(b), [&] { TOp y = b; y.state = 1; explorePair(R, {{a}, {y}}, bound); TOp z = b; z.state = 8; explorePair(R, {{a}, {z}}, bound); });
    }
    std::vector<TOp> narrow; for (int k : {COM, BASE, FV_IDX, MOM, SFJD, SF, UPDATE}) narrow.push_back({{k, k == FV_IDX ? 1 : 0, 0}, 0, 0});
    auto at = [](TOp o, int s) { o.state = s; return o; };
    for (auto& a : narrow) for (auto& b : narrow) for (auto& c : narrow) {
        R.run("2x2 " + tn(a) + " " + tn(b) + " | " + tn(c), [&] { for (auto& d : narrow) explorePair(R, {{at(a, 0), at(b, 8)}, {at(c, 1), at(d, 0)}}, R.thorough() ? 2 : 1); });
        R.run("3x1 " + tn(a) + " | " + tn(b) + " | " + tn(c), [&] { explorePair(R, {{at(a, 0)}, {at(b, 1)}, {at(c, 8)}}, R.thorough() ? 3 : 2); });
    }
}
int main(int argc, char** argv) { mc::Runner R; return R.main(argc, argv, "V07", explore); }
