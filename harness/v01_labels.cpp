// V01: every operation sequence (up to a depth) on the named-variable layout, against a list-of-blocks model.
#include "mc.h"
#include <DynamicalPlannerPrivate/Utilities/VariablesLabeller.h>
using namespace DynamicalPlanner::Private;

struct Block { std::string name; size_t dim; };
struct Model {
    std::vector<Block> blocks;
    std::vector<double> v;
    int find(const std::string& n) const { for (size_t i = 0; i < blocks.size(); ++i) if (blocks[i].name == n) return int(i); return -1; }
    size_t off(int i) const { size_t o = 0; for (int k = 0; k < i; ++k) o += blocks[k].dim; return o; }
};

enum Kind { ADD, ADDR, WNAME, WRANGE, WINDEX, ASSIGN, WVALUES, ZERO, CLEAR, COPY, COPYASSIGN, WUNKNOWN };
struct Op { Kind k; std::string name; size_t dim; std::string str; };

static std::vector<Op> alphabet() {
    std::vector<Op> a;
    // names with a common prefix / one being a suffix-extension of the other, as the planner uses them
    std::vector<std::string> names = {"P", "P1", "Q"};
    for (auto& n : names) for (size_t d : {size_t(1), size_t(3)}) a.push_back({ADD, n, d, "add(" + n + "," + std::to_string(d) + ")"});
    a.push_back({ADD, "Q", 0, "add(Q,0)"});
    a.push_back({ADDR, "P", 2, "addR(P,2)"});
    a.push_back({ADDR, "P1", 4, "addR(P1,4)"});
    a.push_back({ADDR, "", 1, "addR('',1)"});
    a.push_back({WNAME, "P", 0, "setByName(P)"});
    a.push_back({WNAME, "P1", 0, "setByName(P1)"});
    a.push_back({WRANGE, "P", 0, "setByRange(P)"});
    a.push_back({WINDEX, "", 0, "setLastIndex"});
    a.push_back({ASSIGN, "", 0, "assignWhole"});
    a.push_back({ZERO, "", 0, "zero"});
    a.push_back({CLEAR, "", 0, "clear"});
    a.push_back({COPY, "", 0, "copyConstruct"});
    a.push_back({COPYASSIGN, "", 0, "copyAssignBack"});
    return a;
}

struct Sys {
    VariablesLabeller l;
    Model m;
};

static double stamp = 0;

static void compare(mc::Runner& R, VariablesLabeller& l, const Model& m, const std::function<std::string()>& seq) {
    auto F = [&](const std::string& s, const std::string& msg) { R.fail(s, msg + "  after: " + seq()); };
    const VariablesLabeller& cl = l;
    if (l.size() != m.v.size()) F("size", "total size " + std::to_string(l.size()) + " expected " + std::to_string(m.v.size()));
    if (l.numberOfLabels() != m.blocks.size()) F("count", "number of labels " + std::to_string(l.numberOfLabels()) + " expected " + std::to_string(m.blocks.size()));
    auto& lst = l.listOfLabels();
    if (lst.size() != m.blocks.size()) F("list", "label list has " + std::to_string(lst.size()) + " entries");
    for (size_t i = 0; i < lst.size(); ++i) if (lst[i] != m.blocks[i].name) F("list", "label list entry " + std::to_string(i) + " is " + lst[i]);
    auto vs = l.values();
    auto cvs = cl.values();
    if (size_t(vs.size()) != m.v.size() || size_t(cvs.size()) != m.v.size()) F("values", "values() size");
    for (size_t i = 0; i < m.v.size(); ++i) {
        if (!(vs[i] == m.v[i]) || !(cvs[i] == m.v[i])) F("values", "entry " + std::to_string(i) + " is " + mc::num(vs[i]) + " expected " + mc::num(m.v[i]));
        if (!(cl(unsigned(i)) == m.v[i])) F("index", "entry read by index " + std::to_string(i));
    }
    for (const char* nm : {"P", "P1", "Q", "", "unknown"}) {
        std::string n = nm;
        int b = m.find(n);
        auto r = l.getIndexRange(n);
        auto s = l(n);
        auto cs = cl(n);
        if (b < 0) {
            if (r.isValid()) F("unknown", "range of unknown label '" + n + "' is valid");
            if (s.size() != 0 || cs.size() != 0) F("unknown", "span of unknown label '" + n + "' is not empty");
            continue;
        }
        size_t off = m.off(b), dim = m.blocks[b].dim;
        if (size_t(r.offset) != off || size_t(r.size) != dim) F("range", "range of '" + n + "' is [" + std::to_string(r.offset) + "," + std::to_string(r.size) + "] expected [" + std::to_string(off) + "," + std::to_string(dim) + "]");
        if (size_t(s.size()) != dim || size_t(cs.size()) != dim) F("span", "span size of '" + n + "'");
        for (size_t i = 0; i < dim; ++i) if (!(s[i] == m.v[off + i]) || !(cs[i] == m.v[off + i])) F("span", "span value of '" + n + "'[" + std::to_string(i) + "]");
        if (dim && r.isValid()) {
            auto rs = l(r); auto crs = cl(r);
            if (size_t(rs.size()) != dim || size_t(crs.size()) != dim) F("rspan", "range span size of '" + n + "'");
            for (size_t i = 0; i < dim; ++i) if (!(rs[i] == m.v[off + i]) || !(crs[i] == m.v[off + i])) F("rspan", "range span value of '" + n + "'");
        }
    }
}

static void explore(mc::Runner& R) {
    R.rule = "all operation sequences over add (two ways, clashing names, dimensions 0..4), write by name/range/index/whole vector, zero, clear, copy-construct and copy-assign, compared after every operation with a list-of-blocks model; a case is the family of sequences sharing a 2-operation prefix";
    R.stateWord = "sequence families";
    auto A = alphabet();
    int depth = R.thorough() ? 6 : 5;
    for (size_t i = 0; i < A.size(); ++i) for (size_t j = 0; j < A.size(); ++j) {
        R.run(A[i].str + ";" + A[j].str, [&] {
            std::vector<size_t> seq;
            std::function<void(const VariablesLabeller&, const Model&, std::vector<std::pair<VariablesLabeller*, Model*>>&)> rec;
            auto str = [&] { std::string s; for (size_t k : seq) s += A[k].str + ";"; return s; };
            // every sequence is replayed from a fresh object
            auto execute = [&](const std::vector<size_t>& ops, size_t checkFrom) {
                Sys s;
                std::vector<std::unique_ptr<Sys>> olds;   // originals left behind by copies: must not change any more
                stamp = 0;
                for (size_t n = 0; n < ops.size(); ++n) {
                    const Op& o = A[ops[n]];
                    int b = s.m.find(o.name);
                    switch (o.k) {
                    case ADD: case ADDR: {
                        bool expect = b < 0;
                        bool got;
                        if (o.k == ADD) got = s.l.addLabel(o.name, o.dim);
                        else {
                            auto r = s.l.addLabelAndGetIndexRange(o.name, o.dim);
                            got = r.isValid();
                            if (got && expect && (size_t(r.offset) != s.m.v.size() || size_t(r.size) != o.dim)) R.fail("addrange", "returned range wrong after " + str());
                        }
                        if (got != expect) R.fail("add", std::string("add returned ") + (got ? "true" : "false") + " after " + str());
                        if (expect) { s.m.blocks.push_back({o.name, o.dim}); s.m.v.resize(s.m.v.size() + o.dim, 0.0); }
                        break;
                    }
                    case WNAME: if (b >= 0) { auto sp = s.l(o.name); for (long q = 0; q < long(sp.size()); ++q) sp[q] = ++stamp; stamp -= double(sp.size()); size_t of = s.m.off(b); for (size_t q = 0; q < s.m.blocks[b].dim; ++q) s.m.v[of + q] = ++stamp; } break;
                    case WRANGE: if (b >= 0 && s.m.blocks[b].dim) { auto sp = s.l(s.l.getIndexRange(o.name)); for (long q = 0; q < long(sp.size()); ++q) sp[q] = stamp + 1.0 + double(q); size_t of = s.m.off(b); for (size_t q = 0; q < s.m.blocks[b].dim; ++q) s.m.v[of + q] = ++stamp; } break;
                    case WINDEX: if (!s.m.v.empty() && s.l.size() == s.m.v.size()) { ++stamp; s.l(unsigned(s.m.v.size() - 1)) = stamp; s.m.v.back() = stamp; } break;
                    case ASSIGN: if (s.l.size() == s.m.v.size()) { iDynTree::VectorDynSize v(unsigned(s.m.v.size())); for (size_t q = 0; q < s.m.v.size(); ++q) { v(unsigned(q)) = ++stamp; s.m.v[q] = stamp; } s.l = v; } break;
                    case ZERO: s.l.zero(); for (auto& x : s.m.v) x = 0; break;
                    case CLEAR: s.l.clear(); s.m = Model(); break;
                    case COPY: {
                        auto old = std::make_unique<Sys>();
                        old->m = s.m;
                        old->l = s.l;
                        VariablesLabeller c(s.l);
                        std::swap(old->l, s.l);
                        s.l = c;
                        olds.push_back(std::move(old));
                        break; }
                    case COPYASSIGN: if (!olds.empty()) { s.l = olds.back()->l; s.m = olds.back()->m; } break;
                    default: break;
                    }
                    R.transitions();
                    if (n + 1 >= checkFrom) {
                        compare(R, s.l, s.m, str);
                        for (auto& q : olds) compare(R, q->l, q->m, str);
                        R.evals();
                    }
                }
                R.states();
                R.outcome(mc::fnv(s.m.v.data(), s.m.v.size() * 8));
            };
            seq = {i, j};
            execute(seq, 1);
            std::function<void()> go = [&] {
                if (int(seq.size()) >= depth) return;
                for (size_t k = 0; k < A.size(); ++k) {
                    seq.push_back(k);
                    execute(seq, seq.size());
                    go();
                    seq.pop_back();
                }
            };
            go();
        });
    }
}

int main(int c, char** v) { mc::Runner R; return R.main(c, v, "V01", explore); }
