// V25: expressions compiled at run time, alone and together, evaluate to the expressions they replace after every
// history of assignments. The generated sources are the ones of the library; only the build tool which it starts
// (cmake) is replaced with a script that calls the compiler directly, with precompiled headers.
#include "levi_enum.h"
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sys/wait.h>
using namespace lt;
static std::string scratch;
static void sh(const std::string& cmd) { if (std::system(cmd.c_str()) != 0) { std::fprintf(stderr, "failed: %s\n", cmd.c_str()); std::_Exit(3); } }
static void prepareTools() {
    char tmpl[] = "/tmp/v25.XXXXXX";
    scratch = mkdtemp(tmpl);
    std::filesystem::create_directory(scratch + "/bin");
    std::string inc = "-I" REPO_DIR "/extern/levi/include -I" GEN_DIR " -I" REPO_DIR "/extern/levi/deps/zupply/include -I" REPO_DIR "/extern/levi/deps/sharedlibpp/src -I/usr/include/eigen3", flags = "-std=c++14 -O0 -DNDEBUG -w -fPIC " + inc;
    { std::ofstream f(scratch + "/all.h"); f << "#include <levi/CompiledEvaluable.h>\n#include <shlibpp/SharedLibraryClass.h>\n"; }
    sh("g++ " + flags + " -x c++-header " + scratch + "/all.h -o " + scratch + "/all.h.gch");
    { std::ofstream f(scratch + "/bin/cmake");
      f << "#!/bin/sh\ncase \"$1\" in\n--build) src=${2%/build}; mkdir -p \"$2/lib\"; exec g++ " << flags << " -include " << scratch
        << "/all.h -shared \"$src/source.cpp\" -o \"$2/lib/lib$(basename \"$src\")Lib.so\" 2>\"$src/errors\";;\n*) exit 0;;\nesac\n"; }
    { std::ofstream f(scratch + "/bin/ninja"); f << "#!/bin/sh\nexit 0\n"; }
    sh("chmod +x " + scratch + "/bin/cmake " + scratch + "/bin/ninja");
    setenv("PATH", (scratch + "/bin:" + std::getenv("PATH")).c_str(), 1);
}
struct Place {   // a directory of its own for a case, removed afterwards
    std::string dir;
    Place() { char t[64]; std::snprintf(t, sizeof t, "%s/cXXXXXX", scratch.c_str()); dir = mkdtemp(t); if (chdir(dir.c_str())) {} std::cout.setstate(std::ios::failbit); }
    ~Place() { if (chdir(scratch.c_str())) {} std::filesystem::remove_all(dir); }
};
static void compare(mc::Runner& R, const Eigen::MatrixXd& got, const Mat& want, const std::string& sig, const std::string& w) {
    if (!(got.rows() == want.r && got.cols() == want.c)) R.check(false, sig + "-size", "size " + std::to_string(got.rows()) + "x" + std::to_string(got.cols()) + " expected " + std::to_string(want.r) + "x" + std::to_string(want.c) + ": " + w);
    double tol = 1e-9 * (1 + span(want));
    for (int i = 0; i < want.r; ++i) for (int j = 0; j < want.c; ++j)
        if (!(std::fabs(got(i, j) - want(i, j).v) <= tol)) R.check(false, sig, "entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + mc::num(got(i, j)) + ", expected " + mc::num(want(i, j).v) + ": " + w);
    R.evals();
}
static Mat derivative(const Mat& m, int col, int k) { Mat d(m.r, DIM[k]); for (int i = 0; i < m.r; ++i) for (int j = 0; j < DIM[k]; ++j) d(i, j) = Jet(m(i, col).g[OFF[k] + j]); return d; }
static int dependsOn(const levi::Expression& e, Env& env) { for (int k = 0; k < 3; ++k) if (e.isDependentFrom(levi::Variable(env.var[k]))) return k; return -1; }
static void walk(Env& env, const std::vector<TP>& ts, const std::function<void(const Val&, const std::string&)>& f) {
    auto A = assignments();
    Val cur = A[0]; env.set(cur); f(cur, "first values");
    for (int k = 0; k < 3; ++k) {
        Val n = cur; for (int i = 0; i < DIM[k]; ++i) n[OFF[k] + i] = A[1][OFF[k] + i];
        bool ok = true; for (auto& t : ts) ok = ok && spanAll(*t, n) < 2000;
        if (!ok) continue;
        env.set(k, n); cur = n;
        f(cur, std::string("after changing ") + VNAME[k]);
    }
}
// many expressions compiled together, with the derivatives of some
static void batch(mc::Runner& R, const std::string& id, const std::vector<TP>& all, bool deriv) {
    R.run(id, [&] {
        std::vector<TP> ts; for (auto& t : all) if (tame(*t)) ts.push_back(t);
        Place here;
        Env env;
        levi::DefaultMultipleExpressionsMap map;
        struct Item { TP t; int dk; };
        std::map<std::string, Item> items;
        for (size_t i = 0; i < ts.size(); ++i) {
            levi::Expression e = env.build(ts[i]);
            std::string l = "e" + std::to_string(i);
            map[l] = e; items[l] = {ts[i], -1};
            int dk = deriv ? dependsOn(e, env) : -1;
            if (dk >= 0) { map["d" + l] = e.getColumnDerivative(ts[i]->c - 1, env.var[dk]); items["d" + l] = {ts[i], dk}; }
        }
        if (map.empty()) { R.note("skipped"); return; }
        auto multi = levi::CompileMultipleExpressions(map, "batch");
        walk(env, ts, [&](const Val& v, const std::string& w) {
            auto& out = multi->evaluate();
            R.check(out.size() == map.size(), "missing", w);
            for (auto& it : items) {
                Mat m = ref(*it.second.t, v);
                std::string what = w + ", " + std::to_string(map.size()) + " expressions compiled together: " + (it.second.dk >= 0 ? std::string("derivative with respect to ") + VNAME[it.second.dk] + " of " : "") + it.second.t->s;
                if (it.second.dk >= 0) m = derivative(m, it.second.t->c - 1, it.second.dk);
                compare(R, out.at(it.first), m, it.second.dk >= 0 ? "compiled-derivative" : "compiled", what);
            }
            R.transitions();
        });
        R.states(map.size());
        double sum = 0; for (auto& o : multi->evaluate()) sum += o.second.sum() * (1 + o.first.size());
        R.outcome(mc::fnv(mc::num(sum)));
    });
}
// compiled alone, under a name, and used inside another expression
static void alone(mc::Runner& R, const std::string& id, const TP& t, const std::string& name) {
    R.run(id + " " + t->s, [&] {
        if (!tame(*t)) { R.note("skipped"); return; }
        Place here;
        Env env;
        levi::Expression e = env.build(t);
        levi::Expression s = e.compile(name);
        levi::Expression twice = s + e;
        R.check(s.rows() == t->r && s.cols() == t->c, "compiled-size", t->s);
        for (int k = 0; k < 3; ++k) if (e.isDependentFrom(levi::Variable(env.var[k]))) R.check(s.isDependentFrom(levi::Variable(env.var[k])), "compiled-dependencies", t->s);
        walk(env, {t}, [&](const Val& v, const std::string& w) {
            Mat m = ref(*t, v);
            Mat q = m; for (auto& j : q.d) j = j + j;
            compare(R, twice.evaluate(), q, "compiled-operand", w + ": " + t->s);
            compare(R, s.evaluate(), m, "compiled-alone", w + ": " + t->s);
            compare(R, e.evaluate(), m, "plain", w + ": " + t->s);
            R.transitions();
        });
        R.states();
        R.outcome(mc::fnv(mc::num(twice.evaluate().sum())));
    });
}
static void again(mc::Runner& R, const TP& a, const TP& b, bool keep) {     // the same name compiled again, the first one alive or not
    R.run(std::string("same name ") + (keep ? "alive " : "gone ") + a->s + " then " + b->s, [&] {
        Place here;
        Env env;
        levi::Expression ea = env.build(a), eb = env.build(b), ca = ea.compile("same");
        if (!keep) ca = levi::Expression();
        levi::Expression cb = eb.compile("same");
        walk(env, {a, b}, [&](const Val& v, const std::string& w) {
            compare(R, cb.evaluate(), ref(*b, v), "recompiled", w + ": " + b->s);
            if (keep) compare(R, ca.evaluate(), ref(*a, v), "recompiled-earlier", w + ": " + a->s);
            R.transitions();
        });
        R.states();
    });
}
// powers with exponents that have no short decimal representation, of quantities that are positive
static void roots(const Families& F, const std::function<void(const TP&)>& f) {
    TP x = F.t0[0], z = F.t0[2];
    auto el = mk(ELEM, x, nullptr, 1, 1, "el00(x)");
    for (auto& b : std::vector<TP>{z, el, mk(MUL, mk(TR, x, nullptr, 1, 3, "tr(x)"), x, 1, 1, "tr(x)*x")}) {
        auto p = mk(POW, b, nullptr, 1, 1, "pow2(" + b->s + ")"); p->e = 2;
        for (double e : {0.5, 1.0 / 3.0, -2.0 / 3.0, 1e-7, 1.0000001, -1.5, 12.0, 3e-9}) { auto t = mk(POW, p, nullptr, 1, 1, "pow" + mc::num(e) + "(" + p->s + ")"); t->e = e; f(t); }
    }
}
static void explore(mc::Runner& R) {
    R.rule = "terms of depth 1 compiled alone, used alone and inside another expression; all terms of depth 1 in sets of several sizes, with derivatives; terms of depth 2, sums, products and powers in sets; names; the same name twice; all variables assigned in turn";
    R.stateWord = "compiled expressions";
    R.assumptions = {"terms whose intermediate values exceed 2000 are skipped", "the generated sources are built with g++ -O0 by a script that stands for cmake"};
    R.caseTimeoutMs = 300000;
    Families F;
    auto sets = [&](const std::string& fam, size_t size, bool deriv, const std::function<void(const std::function<void(const TP&)>&)>& gen) {
        std::vector<TP> acc; int n = 0;
        auto flush = [&] { if (!acc.empty()) batch(R, fam + " " + std::to_string(size) + "/" + std::to_string(n++), acc, deriv); acc.clear(); };
        gen([&](const TP& t) { acc.push_back(t); if (acc.size() == size) flush(); });
        flush();
    };
    if (R.thorough()) F.depth1([&](const TP& t) { alone(R, "alone", t, "Alone"); });
    else { for (auto& t : F.t0) alone(R, "alone", t, "Alone"); for (auto& t : F.t1small) alone(R, "alone", t, "Alone"); }
    for (auto n : {"with space", "under_score", "a+b", "x.y(0)", "-n", "A1", "[q; w]", "2x", ""}) { auto t = F.t1.back(); alone(R, std::string("name ") + n, t, n); }
    for (size_t i = 0; i + 1 < F.t1.size(); i += 31) for (int k = 0; k < 2; ++k) again(R, F.t1[i], F.t1[i + 1], k);
    for (size_t size : {2, 7, 40}) sets("d1", size, true, [&](auto f) { F.depth1(f); });
    auto unary2 = [&](auto f) { for (auto& t : F.t1) { std::vector<TP> o; unary(t, o, 1); for (auto& x : o) f(x); } };
    auto binary2 = [&](auto f) { for (auto& a : F.t0) for (auto& b : F.t1) { std::vector<TP> o; binary(a, b, o, 1); binary(b, a, o, 1); for (auto& x : o) f(x); } };
    sets("unary", 200, false, unary2);
    sets("binary", 600, false, binary2);
    sets("sum", 50, true, [&](auto f) { F.sums(f, 2); });
    sets("prod", 50, true, [&](auto f) { F.products(f, 3); });
    sets("root", 5, false, [&](auto f) { roots(F, f); });
    sets("negated", 200, false, [&](auto f) {
        for (auto& a : F.t0) { auto n = mk(NEG, a, nullptr, a->r, a->c, "-(" + a->s + ")");
            for (auto& b : F.t0) { std::vector<TP> o; binary(n, b, o, 0); binary(b, n, o, 0); for (auto& x : o) { std::vector<TP> q; unary(x, q, 0); for (auto& y : q) f(y); } } }
    });
    // long sums: the generated source is broken into lines
    sets("long", 10, false, [&](auto f) {
        for (int shape = 0; shape < 3; ++shape) { std::vector<TP> g;
            roots(F, [&](const TP& t) { if (shape == 0) g.push_back(t); });
            for (auto& t : F.t1) if (t->r == (shape == 2 ? 3 : 1) && t->c == (shape == 1 ? 3 : 1)) g.push_back(t);
            for (size_t len : {12, 40}) for (size_t i = 0; i + len <= g.size(); i += len / 3) {
                TP acc = g[i];
                for (size_t k = i + 1; k < i + len; ++k) { bool s = (k * 7 / 3) % 2; acc = mk(s ? SUB : ADD, acc, g[k], acc->r, acc->c, "(" + acc->s + ")" + (s ? "-" : "+") + "(" + g[k]->s + ")"); }
                f(acc);
            } }
    });
    if (!R.thorough()) return;
    sets("d1", 3, true, [&](auto f) { F.depth1(f); });
    sets("unary", 11, true, unary2);
    sets("binary", 30, false, binary2);
    sets("d2", 400, false, [&](auto f) { F.depth2(f, false); });
    sets("sum", 200, false, [&](auto f) { F.sums(f, 3); });
    sets("prod", 100, false, [&](auto f) { F.products(f, 4); });
}
int main(int argc, char** argv) {
    prepareTools();
    std::fflush(stdout);
    pid_t p = fork();
    if (p == 0) { mc::Runner R; return R.main(argc, argv, "V25", explore); }
    int st = 0; waitpid(p, &st, 0);
    std::filesystem::remove_all(scratch);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}
