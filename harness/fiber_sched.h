// Controlled scheduler for bounded-preemption exploration of the real code.
// Threads are fibers; the scheduling points are the mutex operations and every call that the code under test makes
// into iDynTree (link-time interposition, see tools/targets.py), while a fiber executes an operation.
#pragma once
#include "mc.h"
#include <pthread.h>
#include <ucontext.h>
extern "C" {
char mc_inside = 0;
void mc_point();
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_sched_yield();
}
namespace mc {
struct Sched {
    struct Fiber { ucontext_t ctx; std::vector<char> stack; std::function<void()> body; bool done = false; void* want = nullptr; bool wantShared = false; std::string err; bool yielded = false; };
    struct Lock { int owner = -1, depth = 0; std::multiset<int> readers; };
    std::vector<std::unique_ptr<Fiber>> f;
    std::map<void*, Lock> locks;
    ucontext_t main;
    int running = -1;
    bool active = false;
    // exploration
    std::vector<int> prefix;
    struct Point { int chosen, n; bool runningEnabled; };
    std::vector<Point> points;
    bool diverged = false, deadlock = false;
    uint64_t steps = 0;
    static Sched*& cur() { static Sched* s = nullptr; return s; }

    bool enabled(int i) const {
        auto& x = *f[i];
        if (x.done) return false;
        if (!x.want) return true;
        auto it = locks.find(x.want);
        if (it == locks.end()) return true;
        const Lock& l = it->second;
        if (x.wantShared) return l.owner < 0;
        return l.owner < 0 && l.readers.empty();
    }
    void yieldToScheduler() { int me = running; char in = mc_inside; mc_inside = 0; swapcontext(&f[me]->ctx, &main); mc_inside = in; }
    static void entry() {
        Sched* s = cur();
        Fiber& me = *s->f[s->running];
        try { me.body(); } catch (const Violation& v) { me.err = v.sig + "\x1f" + v.msg; } catch (const std::exception& e) { me.err = std::string("exception\x1f") + e.what(); }
        mc_inside = 0;
        me.done = true;
        while (true) swapcontext(&me.ctx, &s->main);
    }
    // executes the fibers under `prefix`; afterwards takes the first choice
    void execute(const std::vector<std::function<void()>>& bodies) {
        cur() = this; points.clear(); locks.clear(); diverged = deadlock = false; steps = 0;
        if (f.size() != bodies.size()) { f.clear(); for (size_t i = 0; i < bodies.size(); ++i) { f.emplace_back(new Fiber); f[i]->stack.resize(1 << 18); } }
        for (size_t i = 0; i < bodies.size(); ++i) { auto& x = *f[i]; x.body = bodies[i]; x.done = false; x.want = nullptr; x.err.clear(); x.yielded = false; getcontext(&x.ctx); x.ctx.uc_stack.ss_sp = x.stack.data(); x.ctx.uc_stack.ss_size = x.stack.size(); x.ctx.uc_link = nullptr; makecontext(&x.ctx, entry, 0); }
        active = true;
        // bring every fiber to its first scheduling point (what precedes it is local)
        for (int i = 0; i < int(f.size()); ++i) { running = i; swapcontext(&main, &f[size_t(i)]->ctx); }
        running = -1;
        while (true) {
            std::vector<int> en;
            if (running >= 0 && enabled(running) && !f[running]->yielded) en.push_back(running);
            bool re = !en.empty();
            for (int i = 0; i < int(f.size()); ++i) if (!(re && i == running) && enabled(i) && !f[i]->yielded) en.push_back(i);
            if (en.empty()) for (int i = 0; i < int(f.size()); ++i) if (enabled(i)) en.push_back(i);
            for (auto& x : f) x->yielded = false;
            if (en.empty()) { for (auto& x : f) if (!x->done) deadlock = true; break; }
            int c = 0;
            if (en.size() > 1) {
                size_t at = points.size();
                if (at < prefix.size()) { c = prefix[at]; if (c >= int(en.size())) { diverged = true; break; } }
                points.push_back({c, int(en.size()), re});
            }
            running = en[size_t(c)];
            auto& x = *f[running];
            if (x.want) { Lock& l = locks[x.want]; if (x.wantShared) l.readers.insert(running); else { l.owner = running; l.depth = 1; } x.want = nullptr; }
            ++steps;
            swapcontext(&main, &x.ctx);
        }
        active = false; mc_inside = 0;
        if (points.size() < prefix.size()) diverged = true;
    }
    // all schedules with at most `bound` preemptions; `run` must call execute() with fresh objects and check.
    // returns the number of schedules; transitions are counted in steps
    template <class F> uint64_t explore(int bound, F run, uint64_t& steps_) {
        uint64_t n = 0;
        std::vector<std::vector<int>> stack = {{}};
        while (!stack.empty()) {
            prefix = stack.back(); stack.pop_back();
            size_t from = prefix.size();
            run(); ++n; steps_ += steps;
            auto pts = points;
            int cost = 0;
            for (size_t i = 0; i < pts.size(); ++i) {
                if (i >= from) {
                    int c2 = cost + (pts[i].runningEnabled ? 1 : 0);
                    if (c2 <= bound) for (int alt = 1; alt < pts[i].n; ++alt) { std::vector<int> p; for (size_t j = 0; j < i; ++j) p.push_back(pts[j].chosen); p.push_back(alt); stack.push_back(p); }
                }
                if (pts[i].chosen && pts[i].runningEnabled) ++cost;
            }
        }
        return n;
    }
    std::string schedule() const { std::string s; for (auto& p : points) s += std::to_string(p.chosen); return s; }
};
struct InsideOp { InsideOp() { mc_inside = 1; } ~InsideOp() { mc_inside = 0; } };
} // namespace mc
extern "C" {
inline mc::Sched* mc_s() { mc::Sched* s = mc::Sched::cur(); return s && s->active && s->running >= 0 ? s : nullptr; }
__attribute__((used)) void mc_point() { if (auto* s = mc_s()) s->yieldToScheduler(); }
static int mcLock(void* m, bool shared, bool recursive) {
    auto* s = mc_s();
    auto& l = s->locks[m];
    if (!shared && l.owner == s->running && recursive) { ++l.depth; return 0; }
    s->f[s->running]->want = m; s->f[s->running]->wantShared = shared;
    s->yieldToScheduler();
    return 0;
}
static int mcTry(void* m, bool shared, bool recursive) {
    auto* s = mc_s(); s->yieldToScheduler();
    auto& l = s->locks[m];
    if (!shared && l.owner == s->running && recursive) { ++l.depth; return 0; }
    if (l.owner >= 0 || (!shared && !l.readers.empty())) return EBUSY;
    if (shared) l.readers.insert(s->running); else { l.owner = s->running; l.depth = 1; }
    return 0;
}
static int mcUnlock(void* m) {
    auto* s = mc_s(); auto& l = s->locks[m];
    if (l.owner == s->running) { if (--l.depth == 0) l.owner = -1; }
    else { auto it = l.readers.find(s->running); if (it != l.readers.end()) l.readers.erase(it); }
    s->yieldToScheduler();
    return 0;
}
#define MC_REC(m) ((m)->__data.__kind == PTHREAD_MUTEX_RECURSIVE)
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return mc_s() && mc_inside ? mcLock(m, false, MC_REC(m)) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return mc_s() && mc_inside ? mcTry(m, false, MC_REC(m)) : __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return mc_s() && mc_inside ? mcUnlock(m) : __real_pthread_mutex_unlock(m); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return mc_s() && mc_inside ? mcLock(m, true, false) : __real_pthread_rwlock_rdlock(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return mc_s() && mc_inside ? mcLock(m, false, false) : __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return mc_s() && mc_inside ? mcTry(m, true, false) : __real_pthread_rwlock_tryrdlock(m); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return mc_s() && mc_inside ? mcTry(m, false, false) : __real_pthread_rwlock_trywrlock(m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { return mc_s() && mc_inside ? mcUnlock(m) : __real_pthread_rwlock_unlock(m); }
int __wrap_sched_yield() { if (auto* s = mc_s()) if (mc_inside) { s->f[s->running]->yielded = true; s->yieldToScheduler(); return 0; } return __real_sched_yield(); }
}
