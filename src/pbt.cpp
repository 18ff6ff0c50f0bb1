#include "pbt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <cmath>
#include <algorithm>
#include <unordered_set>
#include <map>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/personality.h>

extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:exitcode=71:allocator_may_return_null=1:"
           "max_malloc_fill_size=1048576:malloc_fill_byte=190:"
           "max_free_fill_size=1048576:free_fill_byte=222:"
           "quarantine_size_mb=16:hard_rss_limit_mb=2600:detect_stack_use_after_return=0:"
           "print_legend=0:handle_abort=1:symbolize=1";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }

namespace pbt {

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

uint64_t hashBytes(const void *p, size_t n, uint64_t h) {
    const unsigned char *c = (const unsigned char *)p;
    for(size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}

uint64_t Gen::next64() {
    uint64_t z = (state += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

uint32_t Gen::below(uint32_t n) {
    uint32_t v = 0;
    if(n > 1) {
        if(in) {
            v = inPos < inLen ? in[inPos++] : 0;
            if(v >= n) v %= n;
        } else {
            v = (uint32_t)(((next64() >> 32) * (uint64_t)n) >> 32);
        }
        if(out) {
            if(*outLen < outCap) out[(*outLen)++] = v;
            else v = 0;
        }
    }
    return v;
}

uint32_t Gen::bits() { return (below(65536) << 16) | below(65536); }

size_t Gen::weighted(const std::vector<uint32_t> &w) {
    uint32_t t = 0;
    for(auto x : w) t += x;
    uint32_t v = below(t);
    for(size_t i = 0; i < w.size(); i++) { if(v < w[i]) return i; v -= w[i]; }
    return 0;
}
size_t Gen::weighted(std::initializer_list<uint32_t> w) { return weighted(std::vector<uint32_t>(w)); }

int32_t Gen::integer() {
    static const int32_t special[] = { 0, 1, -1, 2, 255, 256, -256, 65536, 2147483647, -2147483647 - 1, 1073741824, 16777217, 2147483646, -2147483647, 128, 1000000007 };
    switch(weighted({12, 4, 2, 1})) {
        case 0: return (int32_t)range(-8, 24) + 0;
        case 1: return (int32_t)range(-1000, 1000);
        case 2: return special[below(16)];
        default: return (int32_t)bits();
    }
}

float Gen::flt() {
    static const float special[] = { 0.0f, 0.5f, 1.0f, 1.5f, 0.25f, 100.0f, 3.0e9f, 1e10f, 0.1f, 0.000001f, 16777216.0f, 1e-5f, 123456.789f, 2147483648.0f, 0.333333f, 1e20f };
    switch(weighted({6, 3, 2, 1})) {
        case 0: return (float)range(-16, 48) / 4.0f;
        case 1: return special[below(16)];
        case 2: return (float)range(-100000, 100000) / 1000.0f;
        default: {
            uint32_t b = bits(); float f; memcpy(&f, &b, 4);
            if(!std::isfinite(f)) f = 1.0f;
            return f;
        }
    }
}

// ---- shared memory per worker --------------------------------------------
static const size_t TAPE_CAP = 1u << 20;
static const size_t HASH_CAP = 1u << 21;
static const size_t TEXT_CAP = 1u << 18;
static const size_t MSG_CAP = 1u << 15;
static const int LABELS = 200;
static const int SAMPLES = 3;

struct Shm {
    volatile uint64_t caseIndex;
    volatile int inCase;
    uint32_t tapeLen;
    int directed, size;
    uint64_t done, discarded, evals, nontriv;
    double slowest; uint64_t slowestIdx;   // seconds of CPU
    uint64_t nHashes;
    int nLabels;
    char labelName[LABELS][56];
    uint64_t labelCount[LABELS];
    int nSamples;
    char samples[SAMPLES][4096];
    uint32_t msgLen, textLen;
    char msg[MSG_CAP];
    char text[TEXT_CAP];
    uint32_t tape[TAPE_CAP];
    uint64_t hashes[HASH_CAP];
};

static Shm *cur = nullptr;        // this process's area
static bool curNontrivial = false;

void Case::failStr(const std::string &s) {
    size_t n = std::min(s.size(), MSG_CAP - 1);
    memcpy(cur->msg, s.data(), n); cur->msg[n] = 0; cur->msgLen = (uint32_t)n;
    _exit(70);
}
void Case::fail(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    char buf[16384]; vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    failStr(buf);
}
void Case::discard(const char *why) {
    std::string l = std::string("discarded: ") + why;
    label(l.c_str());
    throw DiscardEx();
}
void Case::describe(const std::string &s) {
    size_t n = std::min(s.size(), TEXT_CAP - 1);
    memcpy(cur->text, s.data(), n); cur->text[n] = 0; cur->textLen = (uint32_t)n;
}
void Case::appendDescription(const std::string &s) {
    size_t room = TEXT_CAP - 1 - cur->textLen;
    size_t n = std::min(s.size(), room);
    memcpy(cur->text + cur->textLen, s.data(), n); cur->textLen += (uint32_t)n; cur->text[cur->textLen] = 0;
}
void Case::label(const char *name, uint64_t n) {
    for(int i = 0; i < cur->nLabels; i++) if(!strncmp(cur->labelName[i], name, 55)) { cur->labelCount[i] += n; return; }
    if(cur->nLabels < LABELS) {
        strncpy(cur->labelName[cur->nLabels], name, 55);
        cur->labelCount[cur->nLabels++] = n;
    }
}
void Case::nontrivial(uint64_t h) {
    if(cur->nHashes < HASH_CAP) cur->hashes[cur->nHashes++] = h;
    cur->nontriv++;
    curNontrivial = true;
}
void Case::evaluations(uint64_t extra) { cur->evals += extra; }

static Shm *newShm() {
    void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shm *)p;
}

static double cpuNow() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }

static int cpuFactor = 1;   // for a second look at a case that took too long

static void armTimer(int sec) {
    itimerval t; memset(&t, 0, sizeof t);
    t.it_value.tv_sec = sec * cpuFactor;
    setitimer(ITIMER_PROF, &t, nullptr);
}

static uint64_t caseSeed(const Property &p, uint64_t seed, uint64_t idx) {
    uint64_t h = hashBytes(p.id, strlen(p.id));
    h = hashMix(h, seed);
    h = hashMix(h, idx);
    return h;
}

static int caseSize(const Property &p, uint64_t idx) {
    // Mostly cycles through sizes, so that every stretch of cases has small and large ones.
    static const int cyc[] = { 3, 10, 25, 6, 40, 15, 60, 20, 5, 30, 80, 12, 100, 8, 50, 18 };
    int s = cyc[(idx + idx / 8) % 16];   // idx / 8: the same mixture for each of 8 workers
    return p.minSize + (p.maxSize - p.minSize) * s / 100;
}

// Runs one case in this process on area `cur`.
static void runCase(const Property &p, uint64_t idx, int directed, int size, uint64_t seed,
                    const uint32_t *tape, size_t tapeLen, bool replaying) {
    Gen g;
    cur->tapeLen = 0; cur->msgLen = 0; cur->msg[0] = 0; cur->textLen = 0; cur->text[0] = 0;
    cur->directed = directed; cur->size = size;
    g.out = cur->tape; g.outCap = TAPE_CAP; g.outLen = &cur->tapeLen;
    if(tape) { g.in = tape; g.inLen = tapeLen; }
    else g.state = seed;
    Case c(g);
    c.index = idx; c.directed = directed; c.size = size; c.replaying = replaying;
    curNontrivial = false;
    cur->caseIndex = idx;
    cur->inCase = 1;
    armTimer(p.caseCpu);
    bool disc = false; double cpu0 = cpuNow();
    try { p.run(c); }
    catch(DiscardEx &) { disc = true; }
    armTimer(0);
    cur->inCase = 0;
    cpu0 = cpuNow() - cpu0; if(cpu0 > cur->slowest) { cur->slowest = cpu0; cur->slowestIdx = idx; }
    cur->evals++;
    if(disc) cur->discarded++;
    else if(curNontrivial && cur->textLen) {
        bool take = cur->nSamples == 0 || (cur->nSamples < SAMPLES && (cur->done % 97) == 0);
        if(take) {
            char *s = cur->samples[cur->nSamples++];
            size_t n = std::min<size_t>(cur->textLen, 4000);
            memcpy(s, cur->text, n); s[n] = 0;
        }
    }
    cur->done++;
}

static std::string buildDir() { const char *d = getenv("VERIF_BUILD"); return d ? d : "build"; }
static std::string replayDir() { const char *d = getenv("VERIF_REPLAY"); return d ? d : "replay"; }
static std::string evidenceDir() { const char *d = getenv("VERIF_EVIDENCE"); return d ? d : "evidence"; }

static void redirectStderr(const std::string &path, bool trunc) {
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | (trunc ? O_TRUNC : O_APPEND), 0644);
    if(fd >= 0) { dup2(fd, 2); close(fd); }
}

static std::string slurp(const std::string &path, size_t max = 1 << 20) {
    std::ifstream f(path, std::ios::binary); std::stringstream ss; ss << f.rdbuf();
    std::string s = ss.str(); if(s.size() > max) s.resize(max); return s;
}

static std::string describeStatus(int st) {
    char b[128];
    if(WIFEXITED(st)) {
        if(WEXITSTATUS(st) == 70) return "property violated";
        if(WEXITSTATUS(st) == 71) return "sanitizer report";
        snprintf(b, sizeof b, "exit status %d", WEXITSTATUS(st)); return b;
    }
    if(WIFSIGNALED(st)) {
        if(WTERMSIG(st) == SIGPROF) return "did not finish within its CPU allowance";
        snprintf(b, sizeof b, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); return b;
    }
    return "?";
}

// Key lines of a sanitizer report.
static std::string crashSummary(const std::string &log) {
    std::string out; std::istringstream is(log); std::string l; int frames = 0;
    while(std::getline(is, l)) {
        if(l.find("ERROR: ") != std::string::npos || l.find("runtime error:") != std::string::npos || l.find("Assertion") != std::string::npos || l.find("SUMMARY") != std::string::npos)
            out += l + "\n";
        else if(l.find("    #") != std::string::npos && frames < 14) { out += l + "\n"; frames++; }
    }
    if(out.size() > 6000) out.resize(6000);
    return out;
}

struct Failure {
    int status = 0; uint64_t idx = 0; int directed = -1; int size = 0;
    std::vector<uint32_t> tape; std::string msg, text, log;
    bool sequence = false; uint64_t seqFrom = 0, seqStride = 1; // process-history dependent
};

static Shm *attemptShm = nullptr;
static std::string attemptLog;

// Run a tape in a forked child. Returns true if it FAILS.
static bool attempt(const Property &p, const Failure &f, const std::vector<uint32_t> &tape, Failure *outF, bool keepLog) {
    attemptShm->nLabels = 0; attemptShm->nHashes = 0; attemptShm->nSamples = 0;
    fflush(stdout);
    pid_t pid = fork();
    if(pid == 0) {
        cur = attemptShm;
        redirectStderr(keepLog ? attemptLog : "/dev/null", true);
        runCase(p, f.idx, f.directed, f.size, 0, tape.data() ? tape.data() : (const uint32_t *)"\0\0\0", tape.size(), true);
        _exit(0);
    }
    int st = 0;
    while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if(bad && outF) {
        *outF = f;
        outF->status = st;
        outF->tape.assign(attemptShm->tape, attemptShm->tape + std::min<size_t>(attemptShm->tapeLen, TAPE_CAP));
        outF->msg = std::string(attemptShm->msg, attemptShm->msgLen);
        outF->text = std::string(attemptShm->text, attemptShm->textLen);
        outF->log = keepLog ? crashSummary(slurp(attemptLog)) : "";
    }
    return bad;
}

// Failures are of the same kind if the way they failed is the same.
static bool sameKind(int a, int b) {
    if(WIFEXITED(a) != WIFEXITED(b)) return false;
    return WIFEXITED(a) ? WEXITSTATUS(a) == WEXITSTATUS(b) : WTERMSIG(a) == WTERMSIG(b);
}

static Failure shrink(const Property &p, Failure best, double budget) {
    double end = now() + budget;
    auto tryTape = [&](const std::vector<uint32_t> &t) {
        Failure r;
        if(attempt(p, best, t, &r, false) && sameKind(r.status, best.status)) {
            // r.tape is the canonical tape actually consumed.
            if(r.tape.size() < best.tape.size() ||
               (r.tape.size() == best.tape.size() && std::lexicographical_compare(r.tape.begin(), r.tape.end(), best.tape.begin(), best.tape.end()))) {
                best = r; return true;
            }
        }
        return false;
    };
    bool timeoutKind = WIFSIGNALED(best.status) && WTERMSIG(best.status) == SIGPROF;
    if(timeoutKind) return best;
    // Smaller size parameter first.
    for(int s = 1; s < best.size && now() < end; s = s * 2 + 1) {
        Failure f2 = best; f2.size = s; Failure r;
        if(attempt(p, f2, best.tape, &r, false) && sameKind(r.status, best.status) && r.tape.size() <= best.tape.size()) { best = r; break; }
    }
    bool improved = true;
    while(improved && now() < end) {
        improved = false;
        // Delete chunks.
        for(size_t k = std::max<size_t>(best.tape.size() / 2, 1); k >= 1 && now() < end; k = k > 4 ? k / 2 : k - 1) {
            size_t i = best.tape.size();
            while(i >= k && now() < end) {
                i -= k;
                if(i + k > best.tape.size()) { if(best.tape.size() < k) break; i = best.tape.size() - k; }
                std::vector<uint32_t> t(best.tape.begin(), best.tape.begin() + i);
                t.insert(t.end(), best.tape.begin() + i + k, best.tape.end());
                if(tryTape(t)) improved = true;
                if(i == 0) break;
                if(i > best.tape.size()) i = best.tape.size();
            }
            if(k == 1) break;
        }
        // Zero chunks.
        for(size_t k = std::max<size_t>(best.tape.size() / 4, 1); k >= 1 && now() < end; k /= 2) {
            for(size_t i = 0; i + k <= best.tape.size() && now() < end; i += k) {
                bool nz = false;
                for(size_t j = i; j < i + k; j++) nz |= best.tape[j] != 0;
                if(!nz) continue;
                std::vector<uint32_t> t = best.tape;
                std::fill(t.begin() + i, t.begin() + i + k, 0);
                if(tryTape(t)) improved = true;
            }
            if(k == 1) break;
        }
        // Reduce values.
        for(size_t i = 0; i < best.tape.size() && now() < end; i++) {
            for(int step = 0; step < 12 && i < best.tape.size() && best.tape[i]; step++) {
                std::vector<uint32_t> t = best.tape;
                t[i] = step % 2 == 0 ? t[i] / 2 : t[i] - 1;
                if(tryTape(t)) improved = true; else if(step % 2) break;
            }
        }
    }
    return best;
}

static std::string jsonEsc(const std::string &s) {
    std::string o = "\"";
    for(unsigned char ch : s) {
        if(ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
        else if(ch == '\n') o += "\\n";
        else if(ch == '\t') o += "\\t";
        else if(ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += (char)ch;
    }
    return o + "\"";
}

static std::string writeReplay(const Property &p, const Failure &f) {
    mkdir(replayDir().c_str(), 0755);
    char nm[64]; uint64_t h = hashBytes(f.tape.data(), f.tape.size() * 4, f.idx + 17 * (uint64_t)(f.directed + 1));
    snprintf(nm, sizeof nm, "/%s-%016llx.replay", p.id, (unsigned long long)h);
    std::string path = replayDir() + nm;
    std::ofstream o(path);
    o << "property=" << p.id << "\n";
    o << "index=" << f.idx << "\ndirected=" << f.directed << "\nsize=" << f.size << "\n";
    o << "sequence=" << (f.sequence ? 1 : 0) << " " << f.seqFrom << " " << f.seqStride << "\n";
    o << "tape=" << f.tape.size();
    for(auto v : f.tape) o << " " << v;
    o << "\n--- how it failed: " << describeStatus(f.status) << "\n" << f.msg << "\n" << f.log
      << "\n--- the case\n" << f.text << "\n";
    return path;
}

static void usage() { fprintf(stderr, "usage: [--replay FILE] [--cases N] [--seed N] [--wall S]\n"); exit(2); }

// Replays a history of cases in one process, for failures that need it.
static bool attemptSequence(const Property &p, const Failure &f, uint64_t seed, Failure *outF) {
    pid_t pid = fork();
    if(pid == 0) {
        cur = attemptShm;
        redirectStderr(attemptLog, true);
        for(uint64_t i = f.seqFrom; i <= f.idx; i += f.seqStride) {
            int d = i < (uint64_t)p.directedCases ? (int)i : -1;
            runCase(p, i, d, caseSize(p, i), caseSeed(p, seed, i), nullptr, 0, false);
        }
        _exit(0);
    }
    int st; while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if(bad && outF) {
        *outF = f; outF->status = st; outF->idx = attemptShm->caseIndex;
        outF->msg = std::string(attemptShm->msg, attemptShm->msgLen);
        outF->text = std::string(attemptShm->text, attemptShm->textLen);
        outF->log = crashSummary(slurp(attemptLog));
    }
    return bad;
}

int main(const Property &p, int argc, char **argv) {
    // Fixed addresses, so that a run is a function of code and seed only.
    if(!getenv("VERIF_NOASLR")) {
        int pers = personality(0xffffffff);
        if(pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) {
            setenv("VERIF_NOASLR", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    const char *tierE = getenv("VERIF_TIER");
    const char *seedE = getenv("VERIF_SEED");
    bool thorough = tierE && !strcmp(tierE, "thorough");
    uint64_t seed = seedE ? strtoull(seedE, nullptr, 10) : 1;
    uint64_t cases = thorough ? p.thoroughCases : p.quickCases;
    int wall = thorough ? p.thoroughWall : p.quickWall;
    std::string replay;
    uint64_t from = 0;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if(i + 1 >= argc) usage();
        if(a == "--replay") replay = argv[++i];
        else if(a == "--cases") cases = strtoull(argv[++i], nullptr, 10);
        else if(a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
        else if(a == "--wall") wall = atoi(argv[++i]);
        else if(a == "--from") from = strtoull(argv[++i], nullptr, 10);
        else if(a == "--show") { // print case N's description and run it here
            cur = newShm(); uint64_t idx = strtoull(argv[++i], nullptr, 10);
            int d = idx < (uint64_t)p.directedCases ? (int)idx : -1;
            fflush(stdout);
            pid_t pid = fork();
            if(!pid) { runCase(p, idx, d, caseSize(p, idx), caseSeed(p, seed, idx), nullptr, 0, false); _exit(0); }
            int st; waitpid(pid, &st, 0);
            printf("%s\n--- %s\n%s\n", cur->text, describeStatus(st).c_str(), cur->msg);
            for(int k = 0; k < cur->nLabels; k++) printf("label %s %llu\n", cur->labelName[k], (unsigned long long)cur->labelCount[k]);
            return 0;
        }
        else usage();
    }
    mkdir(buildDir().c_str(), 0755);
    attemptShm = newShm();
    attemptLog = buildDir() + "/" + p.id + ".attempt.log";

    if(!replay.empty()) {
        std::ifstream f(replay);
        std::string line; Failure fl; std::vector<uint32_t> tape;
        int seqFlag = 0;
        while(std::getline(f, line)) {
            if(line.rfind("index=", 0) == 0) fl.idx = strtoull(line.c_str() + 6, nullptr, 10);
            else if(line.rfind("directed=", 0) == 0) fl.directed = atoi(line.c_str() + 9);
            else if(line.rfind("size=", 0) == 0) fl.size = atoi(line.c_str() + 5);
            else if(line.rfind("sequence=", 0) == 0) { unsigned long long a, b; sscanf(line.c_str() + 9, "%d %llu %llu", &seqFlag, &a, &b); fl.seqFrom = a; fl.seqStride = b; fl.sequence = seqFlag; }
            else if(line.rfind("tape=", 0) == 0) {
                std::istringstream is(line.substr(5)); size_t n; is >> n; uint32_t v;
                while(is >> v) tape.push_back(v);
            } else if(line.rfind("---", 0) == 0) break;
        }
        fl.tape = tape;
        Failure r;
        cpuFactor = 4; bool bad = fl.sequence ? attemptSequence(p, fl, seed, &r) : attempt(p, fl, tape, &r, true);
        if(bad) {
            printf("%s\n--- %s\n%s\n%s\n", r.text.c_str(), describeStatus(r.status).c_str(), r.msg.c_str(), r.log.c_str());
            printf("VIOLATION property=%s replay=%s\n", p.id, replay.c_str());
            return 1;
        }
        printf("replay passes: property=%s\n", p.id);
        return 0;
    }

    double t0 = now();
    int nw = 8;
    if(const char *e = getenv("VERIF_WORKERS")) nw = atoi(e);
    if((uint64_t)nw > cases) nw = cases ? (int)cases : 1;
    std::vector<Shm *> shm(nw); std::vector<pid_t> pids(nw);
    std::vector<std::string> logs(nw);
    volatile int *stop = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for(int w = 0; w < nw; w++) {
        shm[w] = newShm();
        logs[w] = buildDir() + "/" + p.id + "." + std::to_string(w) + ".log";
        fflush(stdout);
        pid_t pid = fork();
        if(pid == 0) {
            cur = shm[w];
            redirectStderr(logs[w], true);
            for(uint64_t i = from + w; i < cases; i += nw) {
                if(*stop || now() - t0 > wall) break;
                int d = i < (uint64_t)p.directedCases ? (int)i : -1;
                runCase(p, i, d, caseSize(p, i), caseSeed(p, seed, i), nullptr, 0, false);
            }
            _exit(0);
        }
        pids[w] = pid;
    }
    // Wait for all; on the first failure stop the others.
    std::vector<Failure> fails;
    int left = nw;
    while(left) {
        int st; pid_t pid = waitpid(-1, &st, 0);
        if(pid < 0) { if(errno == EINTR) continue; break; }
        int w = -1;
        for(int k = 0; k < nw; k++) if(pids[k] == pid) w = k;
        if(w < 0) continue;
        left--;
        if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            *stop = 1;
            Failure f; f.status = st; f.idx = shm[w]->caseIndex; f.directed = shm[w]->directed; f.size = shm[w]->size;
            f.tape.assign(shm[w]->tape, shm[w]->tape + std::min<size_t>(shm[w]->tapeLen, TAPE_CAP));
            f.msg = std::string(shm[w]->msg, shm[w]->msgLen);
            f.text = std::string(shm[w]->text, shm[w]->textLen);
            f.log = crashSummary(slurp(logs[w]));
            f.seqFrom = from + w; f.seqStride = nw;
            fails.push_back(f);
        }
    }
    uint64_t done = 0, disc = 0, evals = 0, nontriv = 0;
    std::unordered_set<uint64_t> uniq; std::map<std::string, uint64_t> labels; std::vector<std::string> samples;
    for(int w = 0; w < nw; w++) {
        done += shm[w]->done; disc += shm[w]->discarded; evals += shm[w]->evals; nontriv += shm[w]->nontriv;
        for(uint64_t i = 0; i < shm[w]->nHashes; i++) uniq.insert(shm[w]->hashes[i]);
        for(int i = 0; i < shm[w]->nLabels; i++) labels[shm[w]->labelName[i]] += shm[w]->labelCount[i];
        if(shm[w]->nSamples && samples.size() < 4) samples.push_back(shm[w]->samples[0]);
    }
    for(int w = 0; w < nw && samples.size() < 6; w++) if(shm[w]->nSamples > 1) samples.push_back(shm[w]->samples[1]);

    int violations = 0; std::string unrepro;
    std::sort(fails.begin(), fails.end(), [](const Failure &a, const Failure &b) { return a.idx < b.idx; });
    for(auto &f : fails) {
        if(violations) break;
        Failure r; bool rep = false; int got = 0;
        // One that took too long may only be long: it gets four times as much before it counts.
        bool slow = WIFSIGNALED(f.status) && WTERMSIG(f.status) == SIGPROF; if(slow) cpuFactor = 4;
        // kill -9 from outside (out of memory) is not a verdict by itself: it must reproduce.
        for(int k = 0; k < (slow ? 1 : 4) && !got; k++) if(attempt(p, f, f.tape, &r, true)) got++;
        rep = got > 0;
        Failure fin;
        if(rep) {
            r.seqFrom = f.seqFrom; r.seqStride = f.seqStride;
            const char *se = getenv("VERIF_SHRINK"); fin = shrink(p, r, se ? atof(se) : thorough ? 90 : 45);
            Failure r2;
            if(attempt(p, fin, fin.tape, &r2, true)) fin = r2; else fin = r;
        } else if(!slow) {
            f.sequence = true;
            if(attemptSequence(p, f, seed, &r)) { fin = r; rep = true; }
        }
        cpuFactor = 1;
        if(rep) {
            std::string path = writeReplay(p, fin);
            printf("%s\n--- %s\n%s\n%s\n", fin.text.substr(0, 6000).c_str(), describeStatus(fin.status).c_str(), fin.msg.c_str(), fin.log.c_str());
            printf("VIOLATION property=%s replay=%s\n", p.id, path.c_str());
            fflush(stdout);
            violations++;
        } else {
            unrepro += "case " + std::to_string(f.idx) + " failed once and not again: " + (slow ? "with more CPU it finished; it " : "") + describeStatus(f.status) + " " + f.msg + f.log + "\n";
            printf("note: %s", unrepro.c_str());
        }
    }
    double wallS = now() - t0;
    mkdir(evidenceDir().c_str(), 0755);
    {
        std::ofstream o(evidenceDir() + "/" + p.id + ".json");
        o << "{\n \"property\": " << jsonEsc(p.id) << ",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
          << ",\n \"level\": " << jsonEsc(p.level) << ",\n \"coverage\": {\n  \"evaluations\": " << evals
          << ",\n  \"cases\": " << done << ",\n  \"discarded\": " << disc
          << ",\n  \"planned_cases\": " << cases
          << ",\n  \"nontrivial\": " << nontriv << ",\n  \"distinct_nontrivial\": " << uniq.size()
          << ",\n  \"rule\": " << jsonEsc(p.rule) << ",\n  \"labels\": {";
        bool first = true;
        for(auto &l : labels) { o << (first ? "" : ", ") << jsonEsc(l.first) << ": " << l.second; first = false; }
        o << "},\n  \"unreproducible_failures\": " << jsonEsc(unrepro) << ",\n  \"samples\": [";
        for(size_t i = 0; i < samples.size(); i++) o << (i ? ",\n   " : "\n   ") << jsonEsc(samples[i]);
        o << "]\n },\n \"assumptions\": [";
        for(size_t i = 0; i < p.assumptions.size(); i++) o << (i ? ", " : "") << jsonEsc(p.assumptions[i]);
        o << "],\n \"wall_s\": " << wallS << ",\n \"violations\": " << violations << "\n}\n";
    }
    printf("%s: %llu cases (%llu executions, %llu discarded), %zu distinct non-trivial, %.1f s\n", p.id,
        (unsigned long long)done, (unsigned long long)evals, (unsigned long long)disc, uniq.size(), wallS);
    int sl = 0; for(int w = 1; w < nw; w++) if(shm[w]->slowest > shm[sl]->slowest) sl = w;
    if(nw) printf("  slowest case: %llu, %.2f s of CPU\n", (unsigned long long)shm[sl]->slowestIdx, shm[sl]->slowest);
    for(auto &l : labels) printf("  %-48s %llu\n", l.first.c_str(), (unsigned long long)l.second);
    return violations ? 1 : 0;
}

bool inChild(const std::function<void()> &fn, int cpuSeconds, int *statusOut) {
    fflush(stdout);
    pid_t pid = fork();
    if(pid == 0) { armTimer(cpuSeconds); fn(); _exit(0); }
    int st; while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if(statusOut) *statusOut = st;
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

} // namespace pbt
