// Small explicit-enumeration model-checking runner shared by all harnesses of /verif.
//
// A harness enumerates *cases* (operation sequences, schedules, configurations, expression
// programs...) in a fixed order.  Every case is executed on the real code; the harness calls
// R.fail(...) when the oracle disagrees.  The runner shards the cases over worker processes,
// turns crashes, aborts, failed assertions and hangs of a case into violations, confirms a violation by
// re-running the single case, filters known findings, writes the replay file and the evidence.
#pragma once
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

struct Violation {
    std::string sig, msg;
};

inline std::string jsonEscape(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}

struct Shared {              // one per worker, in shared memory
    volatile uint64_t caseIndex;      // index of the running case (1-based), 0 = none
    volatile uint64_t startMs;
    volatile uint64_t cases, states, transitions, evaluations, outcomes;
    volatile uint64_t knownHits;
    char caseId[1 << 14];
    char note[1 << 12];
};

inline uint64_t nowMs() {
    return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

class Runner {
public:
    // ---- called by harness ----
    bool thorough() const { return m_tier == "thorough"; }
    uint64_t seed() const { return m_seed; }

    // Runs one case (or skips it, when it belongs to another shard).
    void run(const std::string& id, const std::function<void()>& body) {
        ++m_index;
        if (m_mode == Replay) { if (id != m_replayId) return; }
        else if (m_mode == Worker) {
            if (m_index % m_shards != m_shard || m_index <= m_resumeAfter) return;
            if (m_stopFlag && *m_stopFlag) return;
        } else return;
        m_found = true;
        if (m_sh) {
            strncpy(m_sh->caseId, id.c_str(), sizeof m_sh->caseId - 1);
            m_sh->note[0] = 0;
            m_sh->startMs = nowMs();
            m_sh->caseIndex = m_index;
        }
        try {
            body();
        } catch (const Violation& v) {
            report(id, v.sig, v.msg);
        } catch (const std::exception& e) {
            report(id, std::string("exception"), std::string("exception escaped: ") + e.what());
        }
        if (m_sh) { m_sh->cases = m_sh->cases + 1; m_sh->caseIndex = 0; }
        if (m_mode == Worker && (m_sampleEvery == 0 || m_ownCases % m_sampleEvery == 0) && m_samples.size() < 3) m_samples.push_back(id);
        ++m_ownCases;
        if (m_ownCases == 5 || m_ownCases == 500) m_samples.push_back(id);
    }
    // free form progress note: appears in the replay file of a crash
    void note(const std::string& s) { if (m_sh) { strncpy(m_sh->note, s.c_str(), sizeof m_sh->note - 1); } if (m_mode == Replay && m_verbose) std::cerr << "  [step] " << s << "\n"; }
    void states(uint64_t n = 1) { if (m_sh) m_sh->states = m_sh->states + n; }
    void transitions(uint64_t n = 1) { if (m_sh) m_sh->transitions = m_sh->transitions + n; }
    void evals(uint64_t n = 1) { if (m_sh) m_sh->evaluations = m_sh->evaluations + n; }
    void outcome(uint64_t h) { if (m_outcomes.insert(h).second && m_sh) m_sh->outcomes = m_outcomes.size(); }
    [[noreturn]] void fail(const std::string& sig, const std::string& msg) { throw Violation{sig, msg}; }
    void check(bool ok, const std::string& sig, const std::string& msg) { if (!ok) fail(sig, msg); }
    bool replaying() const { return m_mode == Replay; }
    // declare the space
    std::string rule;                       // description of the space, goes to evidence
    std::vector<std::string> assumptions;
    uint64_t caseTimeoutMs = 60000;         // a single case longer than this is re-run alone, then called a hang
    bool exhaustive = true;
    std::string stateWord = "cases";

    int main(int argc, char** argv, const std::string& property, const std::function<void(Runner&)>& explore) {
        m_property = property;
        m_explore = explore;
        const char* t = getenv("VERIF_TIER");
        m_tier = t ? t : "quick";
        const char* s = getenv("VERIF_SEED");
        m_seed = s ? strtoull(s, nullptr, 10) : 1;
        m_dir = VERIF_DIR;
        std::string replay;
        int jobs = 8;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a == "--tier" && i + 1 < argc) m_tier = argv[++i];
            else if (a == "--replay" && i + 1 < argc) replay = argv[++i];
            else if (a == "--case" && i + 1 < argc) { m_replayId = argv[++i]; replay = "-"; }
            else if (a == "--jobs" && i + 1 < argc) jobs = atoi(argv[++i]);
            else if (a == "--verbose") m_verbose = true;
            else if (a == "--no-evidence") m_writeEvidence = false;
        }
        if (m_tier != "thorough") m_tier = "quick";
        loadKnown();
        if (!replay.empty()) return doReplay(replay);
        return doCheck(jobs);
    }

private:
    enum Mode { Idle, Worker, Replay } m_mode = Idle;
    std::string m_property, m_tier, m_dir, m_replayId;
    uint64_t m_seed = 1;
    std::function<void(Runner&)> m_explore;
    uint64_t m_index = 0, m_shards = 1, m_shard = 0, m_resumeAfter = 0, m_ownCases = 0, m_sampleEvery = 0;
    bool m_found = false, m_verbose = false, m_writeEvidence = true;
    Shared* m_sh = nullptr;
    volatile uint64_t* m_stopFlag = nullptr;
    std::set<uint64_t> m_outcomes;
    std::vector<std::string> m_samples;
    int m_pipe = -1;
    int m_violations = 0;
    struct Known { std::string sig, caseId, text; };
    std::vector<Known> m_known;

    void loadKnown() {
        // known_findings.txt lines:  finding|<property>|<signature>|<case id or *>|<text>
        std::ifstream f(m_dir + "/known_findings.txt");
        std::string line;
        while (std::getline(f, line)) {
            if (line.rfind("finding|", 0) != 0) continue;
            std::vector<std::string> p;
            std::stringstream ss(line);
            std::string x;
            while (std::getline(ss, x, '|')) p.push_back(x);
            if (p.size() >= 5 && p[1] == m_property) m_known.push_back({p[2], p[3], p[4]});
        }
    }
    int knownIndex(const std::string& id, const std::string& sig) const {
        for (size_t i = 0; i < m_known.size(); ++i)
            if (m_known[i].sig == sig && (m_known[i].caseId == "*" || m_known[i].caseId == id)) return int(i);
        return -1;
    }
    void report(const std::string& id, const std::string& sig, const std::string& msg) {
        if (m_mode == Replay) {
            std::cout << "REPLAY case: " << id << "\n  signature: " << sig << "\n  " << msg << std::endl;
            ++m_violations;
            return;
        }
        std::string line = "V\x1f" + std::to_string(m_index) + "\x1f" + id + "\x1f" + sig + "\x1f" + msg + "\x1e";
        (void)!write(m_pipe, line.data(), line.size());
        if (knownIndex(id, sig) < 0 && ++m_violations >= 3 && m_stopFlag) *m_stopFlag = 1;
    }
    int doReplay(const std::string& file) {
        if (file != "-") {
            std::ifstream f(file);
            std::string line;
            while (std::getline(f, line)) if (line.rfind("case=", 0) == 0) m_replayId = line.substr(5);
            f.close();
            std::ifstream g(file);
            while (std::getline(g, line)) if (line.rfind("tier=", 0) == 0) m_tier = line.substr(5);
        }
        m_mode = Replay;
        m_explore(*this);
        if (!m_found) { std::cout << "REPLAY: case not found: " << m_replayId << std::endl; return 2; }
        std::cout << (m_violations ? "REPLAY: violated" : "REPLAY: held") << std::endl;
        return m_violations ? 1 : 0;
    }
    struct Found { uint64_t index; std::string id, sig, msg; };

    pid_t spawn(int shard, int shards, uint64_t resumeAfter, Shared* sh, int wfd) {
        fflush(stdout); fflush(stderr); std::cout.flush();
        pid_t p = fork();
        if (p) return p;
        m_mode = Worker; m_shards = shards; m_shard = shard; m_resumeAfter = resumeAfter; m_sh = sh; m_pipe = wfd;
        // the code under test prints to stdout/stderr: keep it out of the check's own output
        int dn = open("/dev/null", O_WRONLY);
        if (!m_verbose && dn >= 0) { dup2(dn, 1); dup2(dn, 2); }
        m_explore(*this);
        std::string line;
        for (auto& s : m_samples) line += "S\x1f" + s + "\x1e";
        line += "I\x1f" + rule + "\x1f" + std::to_string(exhaustive ? 1 : 0) + "\x1f" + std::to_string(m_index) + "\x1f" + stateWord + "\x1f";
        for (auto& a : assumptions) line += a + "\x1d";
        line += "\x1e";
        size_t off = 0;
        while (off < line.size()) { ssize_t w = write(wfd, line.data() + off, line.size() - off); if (w <= 0) break; off += size_t(w); }
        _exit(0);
    }

    int doCheck(int jobs) {
        uint64_t t0 = nowMs();
        Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared) * size_t(jobs) + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        m_stopFlag = reinterpret_cast<volatile uint64_t*>(reinterpret_cast<char*>(sh) + sizeof(Shared) * size_t(jobs));
        std::vector<pid_t> pids(jobs, -1);
        std::vector<int> fds(jobs, -1);
        std::vector<std::string> bufs(jobs);
        std::vector<bool> killedForHang(jobs, false);
        std::vector<Found> found;
        std::vector<std::string> samples;
        std::string ruleOut, stateWordOut = "cases";
        std::vector<std::string> assumptionsOut;
        bool exh = true;
        uint64_t totalCases = 0;
        int crashes = 0;
        auto start = [&](int i, uint64_t after) {
            int p[2];
            if (pipe(p)) exit(2);
            fcntl(p[0], F_SETFL, O_NONBLOCK);
            pids[i] = spawn(i, jobs, after, &sh[i], p[1]);
            close(p[1]);
            fds[i] = p[0];
            killedForHang[i] = false;
        };
        auto drain = [&](int i) {
            char b[65536];
            ssize_t n;
            while ((n = read(fds[i], b, sizeof b)) > 0) bufs[i].append(b, size_t(n));
            size_t pos;
            while ((pos = bufs[i].find('\x1e')) != std::string::npos) {
                std::string rec = bufs[i].substr(0, pos);
                bufs[i].erase(0, pos + 1);
                std::vector<std::string> f;
                size_t a = 0;
                while (true) { size_t e = rec.find('\x1f', a); f.push_back(rec.substr(a, e == std::string::npos ? e : e - a)); if (e == std::string::npos) break; a = e + 1; }
                if (f[0] == "V" && f.size() >= 5) found.push_back({strtoull(f[1].c_str(), nullptr, 10), f[2], f[3], f[4]});
                else if (f[0] == "S" && f.size() >= 2) { if (samples.size() < 12) samples.push_back(f[1]); }
                else if (f[0] == "I" && f.size() >= 6) {
                    ruleOut = f[1]; if (f[2] != "1") exh = false; totalCases = strtoull(f[3].c_str(), nullptr, 10); stateWordOut = f[4];
                    assumptionsOut.clear();
                    std::stringstream ss(f[5]); std::string x;
                    while (std::getline(ss, x, '\x1d')) if (!x.empty()) assumptionsOut.push_back(x);
                }
            }
        };
        for (int i = 0; i < jobs; ++i) start(i, 0);
        int alive = jobs;
        bool brokenWorker = false;
        while (alive > 0) {
            usleep(20000);
            for (int i = 0; i < jobs; ++i) {
                if (pids[i] < 0) continue;
                drain(i);
                uint64_t idx = sh[i].caseIndex;
                if (idx && nowMs() - sh[i].startMs > caseTimeoutMs && !killedForHang[i] && sh[i].startMs) { killedForHang[i] = true; kill(pids[i], SIGKILL); }
                int st = 0;
                if (waitpid(pids[i], &st, WNOHANG) == pids[i]) {
                    drain(i);
                    close(fds[i]);
                    bufs[i].clear();
                    bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
                    if (!clean) {
                        idx = sh[i].caseIndex;
                        if (!idx) { brokenWorker = true; pids[i] = -1; --alive; continue; }
                        std::string why = killedForHang[i] ? "hang" : WIFSIGNALED(st) ? std::string("crash-signal-") + std::to_string(WTERMSIG(st)) : std::string("exit-") + std::to_string(WEXITSTATUS(st));
                        std::string id = sh[i].caseId, nt = sh[i].note;
                        if (killedForHang[i]) {
                            // re-run alone with a longer limit before calling it a hang
                            int st2 = runAlone(id, caseTimeoutMs * 4);
                            if (st2 != 2) { why = st2 == 3 ? "crash" : ""; }
                        }
                        if (!why.empty()) {
                            found.push_back({idx, id, why, why + " while executing the case" + (nt.empty() ? "" : " at step: " + nt)});
                            if (knownIndex(id, why) < 0) ++crashes;
                        }
                        sh[i].caseIndex = 0;
                        if (crashes >= 3) *m_stopFlag = 1;
                        if (*m_stopFlag) { pids[i] = -1; --alive; }
                        else start(i, idx);
                        continue;
                    }
                    pids[i] = -1;
                    --alive;
                }
            }
        }
        uint64_t cases = 0, states = 0, trans = 0, evals = 0, outc = 0;
        for (int i = 0; i < jobs; ++i) { cases += sh[i].cases; states += sh[i].states; trans += sh[i].transitions; evals += sh[i].evaluations; outc = std::max<uint64_t>(outc, uint64_t(sh[i].outcomes)); }
        std::sort(found.begin(), found.end(), [](const Found& a, const Found& b) { return a.index < b.index; });
        std::map<int, int> knownHits;
        std::vector<Found> fresh;
        for (auto& f : found) {
            int k = knownIndex(f.id, f.sig);
            if (k >= 0) { knownHits[k]++; continue; }
            fresh.push_back(f);
        }
        for (auto& k : knownHits) std::cout << "KNOWN-FINDING: property=" << m_property << " " << m_known[k.first].text << std::endl;
        int rc = 0;
        int n = 0;
        for (auto& f : fresh) {
            if (n >= 5) break;
            int alone = runAlone(f.id, caseTimeoutMs * 4);
            std::string path = m_dir + "/replays/" + m_property + "-" + std::to_string(n) + ".replay";
            mkdir((m_dir + "/replays").c_str(), 0755);
            std::ofstream o(path);
            o << "property=" << m_property << "\ntier=" << m_tier << "\ncase=" << f.id << "\nsignature=" << f.sig << "\nconfirmed_alone=" << (alone != 0 ? "yes" : "no (depends on earlier cases of the same process)")
              << "\nreplay_with=" << m_dir << "/check " << m_property << " --replay " << path << "\n---\n" << f.msg << "\n";
            o.close();
            std::cout << "VIOLATION property=" << m_property << " replay=" << path << std::endl;
            std::cout << "  case: " << f.id << "\n  signature: " << f.sig << "\n  " << f.msg << std::endl;
            rc = 1;
            ++n;
        }
        if (!rc && brokenWorker) { std::cout << "ERROR: a worker died outside any case" << std::endl; rc = 2; }
        double wall = double(nowMs() - t0) / 1000.0;
        if (!rc && cases == 0) { std::cout << "ERROR: nothing explored" << std::endl; rc = 2; }
        if (m_writeEvidence) {
            mkdir((m_dir + "/evidence").c_str(), 0755);
            std::ofstream o(m_dir + "/evidence/" + m_property + ".json");
            o << "{\n \"property\": \"" << m_property << "\",\n \"tier\": \"" << m_tier << "\",\n \"seed\": " << m_seed << ",\n \"level\": \"model_checking\",\n \"coverage\": {\n"
              << "  \"states\": " << states << ",\n  \"transitions\": " << trans << ",\n  \"traces_validated_against_impl\": " << cases
              << ",\n  \"evaluations\": " << evals << ",\n  \"rule\": \"" << jsonEscape(ruleOut) << "\",\n  \"case_unit\": \"" << jsonEscape(stateWordOut) << "\",\n  \"distinct_outcomes_max_per_worker\": " << outc << ",\n  \"exhaustive\": " << ((exh && !rc && cases == totalCases) ? "true" : "false") << ",\n  \"samples\": [";
            for (size_t i = 0; i < samples.size(); ++i) o << (i ? ", " : "") << "\"" << jsonEscape(samples[i].substr(0, 1500)) << "\"";
            o << "]\n },\n \"assumptions\": [";
            for (size_t i = 0; i < assumptionsOut.size(); ++i) o << (i ? ", " : "") << "\"" << jsonEscape(assumptionsOut[i]) << "\"";
            o << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << fresh.size() << "\n}\n";
        }
        std::cout << m_property << " [" << m_tier << "]: " << cases << "/" << totalCases << " " << stateWordOut << " executed on the implementation, states=" << states << " transitions=" << trans
                  << " oracle evaluations=" << evals << " distinct outcomes(max/worker)=" << outc << " wall=" << wall << "s -> " << (rc == 0 ? "held" : rc == 1 ? "VIOLATED" : "ERROR") << std::endl;
        return rc;
    }
    // 0 held, 1 violated, 2 timed out, 3 crashed
    int runAlone(const std::string& id, uint64_t limitMs) {
        pid_t p = fork();
        if (!p) {
            int dn = open("/dev/null", O_WRONLY);
            if (dn >= 0) { dup2(dn, 1); dup2(dn, 2); }
            m_mode = Replay; m_replayId = id; m_index = 0; m_violations = 0; m_found = false; m_verbose = false;
            m_explore(*this);
            _exit(m_violations ? 1 : 0);
        }
        uint64_t t = nowMs();
        int st;
        while (nowMs() - t < limitMs) {
            if (waitpid(p, &st, WNOHANG) == p) return WIFEXITED(st) ? (WEXITSTATUS(st) == 0 ? 0 : 1) : 3;
            usleep(10000);
        }
        kill(p, SIGKILL);
        waitpid(p, &st, 0);
        return 2;
    }
};

inline uint64_t fnv(const void* d, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* p = static_cast<const unsigned char*>(d);
    for (size_t i = 0; i < n; ++i) { h ^= p[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

inline std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }

template <class V> std::string vec(const V& v, size_t n) {
    std::string s = "[";
    for (size_t i = 0; i < n; ++i) { if (i) s += ", "; s += num(v[i]); }
    return s + "]";
}

} // namespace mc
