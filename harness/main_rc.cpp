// Driver: rapidcheck generates and shrinks choice sequences; journal + statistics for the runner.
#include "core.h"
#include <rapidcheck.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <fstream>
#include <unordered_set>

static uint32_t* g_journal = nullptr;   // [0]=number of words in use, [1..] the words
static const size_t JCAP = 1 << 16;
static const char* g_stage = "case";
static int g_cpu_limit = 20;

static void onProf(int) {
    static const char m[] = "\nHARNESS-HANG: one case used up its processor time limit\n";
    ssize_t r = write(2, m, sizeof m - 1); (void)r;
    _exit(70);
}
static void armTimer(int secs) { struct itimerval t = {{0, 0}, {secs, 0}}; setitimer(ITIMER_PROF, &t, nullptr); }
static void onExit() { // Triangle calls exit(1) on internal errors
    if (g_stage) {
        static const char m[] = "\nHARNESS-EXIT: the library called exit() during a case\n";
        ssize_t r = write(2, m, sizeof m - 1); (void)r;
        _exit(71);
    }
}
static uint64_t hashWords(const std::vector<uint32_t>& v, size_t used) {
    uint64_t h = 1469598103934665603ull;
    size_t n = std::min(used, v.size()); while (n && v[n - 1] == 0) --n;
    for (size_t i = 0; i < n; ++i) { h ^= v[i]; h *= 1099511628211ull; h ^= h >> 29; }
    return h;
}
static std::string jsonStr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}
static std::vector<uint32_t> readReplay(const char* path) {
    std::ifstream f(path); std::vector<uint32_t> v; std::string line;
    while (std::getline(f, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream is(line); unsigned long x; while (is >> x) v.push_back((uint32_t)x);
    }
    return v;
}
static void writeReplay(const std::string& path, const char* prop, const std::vector<uint32_t>& v, const std::string& msg, const std::string& desc) {
    std::ofstream f(path);
    f << "# property " << prop << "\n";
    std::istringstream m(msg), d(desc); std::string l;
    while (std::getline(m, l)) f << "# failure: " << l << "\n";
    while (std::getline(d, l)) f << "# case: " << l << "\n";
    for (size_t i = 0; i < v.size(); ++i) f << v[i] << ((i % 16 == 15 || i + 1 == v.size()) ? "\n" : " ");
}

int main(int argc, char** argv) {
    std::string known, prop, out, fail, journal, replay; long seed = 1, cases = 100; int maxlen = 0; long shrinkCap = 800; int maxTime = 0;
    bool verbose = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = atol(val().c_str());
        else if (a == "--cases") cases = atol(val().c_str());
        else if (a == "--maxlen") maxlen = atoi(val().c_str());
        else if (a == "--out") out = val();
        else if (a == "--fail") fail = val();
        else if (a == "--journal") journal = val();
        else if (a == "--replay") replay = val();
        else if (a == "--shrink") shrinkCap = atol(val().c_str());
        else if (a == "--maxtime") maxTime = atoi(val().c_str());
        else if (a == "--cpu") g_cpu_limit = atoi(val().c_str());
        else if (a == "--known") known = val();
        else if (a == "-v") verbose = true;
        else if (a == "--list") { g_stage = nullptr; for (auto& p : registry()) printf("%s\n", p.id); return 0; }
        else prop = a;
    }
    if (!known.empty()) {
        for (auto& k : knowns()) if (known == k.id) { g_stage = nullptr; try { k.fn(); } catch (const Fail& f) { printf("FAIL: %s\n", f.msg.c_str()); return 3; } catch (const std::exception& e) { printf("FAIL: %s\n", e.what()); return 3; } return 0; }
        g_stage = nullptr; return 66;
    }
    const PropDef* P = nullptr;
    for (auto& p : registry()) if (prop == p.id) P = &p;
    if (!P) { fprintf(stderr, "harness: no property %s\n", prop.c_str()); return 66; }
    if (!maxlen) maxlen = P->maxlen;
    signal(SIGPROF, onProf);
    atexit(onExit);

    if (!replay.empty()) {
        std::vector<uint32_t> v = readReplay(replay.c_str());
        armTimer(g_cpu_limit);
        Ctx* c = nullptr;
        std::string r = runCase(*P, v.data(), v.size(), &c);
        armTimer(0);
        if (verbose || !r.empty()) printf("case: %s\n", c->desc.str().c_str());
        if (!r.empty()) printf("FAIL: %s\n", r.c_str()); else printf("held\n");
        if (!r.empty() && !fail.empty()) writeReplay(fail, P->id, v, r, c->desc.str());
        g_stage = nullptr;
        fflush(stdout);
        _exit(r.empty() ? 0 : 3);
    }

    if (!journal.empty()) {
        int fd = open(journal.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, JCAP * 4) != 0) { fprintf(stderr, "harness: journal\n"); g_stage = nullptr; return 66; }
        g_journal = (uint32_t*)mmap(nullptr, JCAP * 4, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (g_journal == MAP_FAILED) { g_stage = nullptr; return 66; }
    }
    { std::ostringstream rcp; rcp << "seed=" << seed << " max_success=" << cases << " max_size=100 verbose_progress=0"; setenv("RC_PARAMS", rcp.str().c_str(), 1); }

    const time_t t0 = time(nullptr); long skipped = 0; long evals = 0, nontriv = 0, afterFail = 0; bool failed = false;
    std::map<std::string, long> labels; std::unordered_set<uint64_t> hashes; std::vector<std::string> samples;
    std::vector<uint32_t> worst; std::string worstMsg, worstDesc; size_t maxUsed = 0;

    auto gen = rc::gen::resize(maxlen, rc::gen::container<std::vector<uint32_t>>(rc::gen::resize(100, rc::gen::arbitrary<uint32_t>())));
    bool ok = rc::check([&]() {
        std::vector<uint32_t> v = *gen;
        if (!failed && maxTime && time(nullptr) - t0 > maxTime) { ++skipped; return; }
        if (failed && ++afterFail > shrinkCap) return;      // bounded shrinking: pretend the rest holds
        if (g_journal) { size_t n = std::min(v.size(), JCAP - 1); g_journal[0] = (uint32_t)n; if (n) memcpy(g_journal + 1, v.data(), n * 4); }
        armTimer(g_cpu_limit);
        Ctx* c = nullptr;
        std::string r = runCase(*P, v.data(), v.size(), &c);
        armTimer(0);
        if (!failed) {
            ++evals;
            maxUsed = std::max(maxUsed, c->s.pos);
            for (auto& l : c->labels) labels[l]++;
            if (c->nontrivial && r.empty()) {
                if (hashes.insert(hashWords(v, c->s.pos)).second) {
                    ++nontriv;
                    if (samples.size() < 3 || (evals % 97 == 0 && samples.size() < 6)) samples.push_back(c->desc.str().substr(0, 600));
                }
            }
        }
        if (!r.empty()) {
            failed = true; worst = v; worst.resize(std::min(v.size(), c->s.pos)); worstMsg = r; worstDesc = c->desc.str();
            if (!fail.empty()) writeReplay(fail, P->id, worst, worstMsg, worstDesc);
        }
        delete c;
        if (!r.empty()) RC_FAIL(r.substr(0, 200));
    });
    g_stage = nullptr;
    if (!out.empty()) {
        std::ofstream f(out);
        f << "{\"skipped\":" << skipped << ",\"ok\":" << (failed ? "false" : (ok ? "true" : "\"gaveup\"")) << ",\"evaluations\":" << evals << ",\"nontrivial\":" << nontriv << ",\"max_used\":" << maxUsed << ",\n\"labels\":{";
        bool first = true;
        for (auto& l : labels) { f << (first ? "" : ",") << jsonStr(l.first) << ":" << l.second; first = false; }
        f << "},\n\"samples\":["; first = true;
        for (auto& s : samples) { f << (first ? "" : ",") << jsonStr(s); first = false; }
        f << "],\n\"message\":" << jsonStr(worstMsg) << ",\"hashes\":["; first = true;
        for (auto h : hashes) { f << (first ? "" : ",") << h; first = false; }
        f << "]}\n";
    }
    fflush(stdout); fflush(stderr);
    _exit(failed ? 3 : 0);
}
