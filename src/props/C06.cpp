// C06: a failed allocation at any point is contained.
#include "history.h"
#include <cstring>
#include <algorithm>

namespace {
struct Step { size_t vm; uint64_t from, to; std::string name; };   // requests of one VM during one step
struct Fault { size_t vm; int64_t at; int mode; uint64_t width; };  // mode 0: one request, 1: everything from there on, 2: some requests

bool isPrefix(const std::string &a, const std::string &b) { return a.size() <= b.size() && !b.compare(0, a.size(), a); }

void run(pbt::Case &c) {
    History h; generateHistory(c, h, c.size, false); c.describe(h.description);
    // The run without failures.
    std::vector<Step> steps; std::vector<uint64_t> counts; std::vector<std::string> logs; bool takeOver = false; uint64_t loads, saves;
    for(auto &o : h.ops) if(o.takesOver()) takeOver = true;
    {
        HistoryRun r(h); r.disposeEarly = true; std::vector<uint64_t> seen;
        r.prepareAlloc = [](Alloc &a, size_t) { a.fill = 0xa5; };
        r.after = [&](HistoryRun &rr, size_t, const char *name) {
            seen.resize(rr.allocs.size());
            for(size_t k = 0; k < rr.allocs.size(); k++) { uint64_t n = rr.allocs[k]->requests; if(n > seen[k]) steps.push_back({ k, seen[k], n, name }); seen[k] = n; }
        };
        r.run(); loads = r.loads; saves = r.saves;
        for(auto &a : r.allocs) { counts.push_back(a->requests); if(a->live || a->trouble.size()) c.fail("without failures: %llu blocks left, %s", (unsigned long long)a->live, a->trouble.c_str()); }
        for(auto &x : r.hosts) logs.push_back(x->log);
    }
    uint64_t total = 0; for(auto n : counts) total += n;
    std::vector<Fault> faults; bool all = total <= (c.size < 30 ? 200u : 120u) || c.g.chance(1, 60);
    if(all && total <= 1500) { c.label("every request refused in turn"); for(size_t k = 0; k < counts.size(); k++) for(uint64_t i = 0; i < counts[k]; i++) { faults.push_back({ k, (int64_t)i, 0, 0 }); if(c.g.chance(1, 4)) faults.push_back({ k, (int64_t)i, 1, 0 }); } }
    else {
        for(int i = 0, n = 4 + c.g.below(16); i < n; i++) {
            // A step first, so that those with few requests have their share.
            size_t k; uint64_t at;
            if(c.g.chance(2, 3)) { auto &s = steps[c.g.below((uint32_t)steps.size())]; k = s.vm; at = s.from + c.g.below((uint32_t)(s.to - s.from)); }
            else { k = c.g.below((uint32_t)counts.size()); at = c.g.below((uint32_t)counts[k]); }
            int mode = c.g.below(3); faults.push_back({ k, (int64_t)at, mode, mode == 2 ? 2 + c.g.below(6) : 0 });
        }
    }
    uint64_t hash = pbt::hashStr(h.description); std::set<std::string> hit; uint64_t natives = 0, callbacks = 0;
    std::string base = h.description;
    for(auto &f : faults) {
        char t[200]; std::string where = "?"; for(auto &s : steps) if(s.vm == f.vm && (uint64_t)f.at >= s.from && (uint64_t)f.at < s.to) { where = s.name; break; }
        snprintf(t, sizeof t, "\n--- refused: request %lld of VM %zu%s (during: %s)", (long long)f.at, f.vm, f.mode == 0 ? "" : f.mode == 1 ? " and all later ones" : (" and the " + std::to_string(f.width - 1) + " following ones").c_str(), where.c_str()); c.describe(base + t);
        HistoryRun r(h); r.disposeEarly = true; std::vector<bool> known; std::vector<uint64_t> reqs; std::vector<std::string> logAt;
        r.prepareAlloc = [&](Alloc &a, size_t k) { a.fill = 0xa5; if(k == f.vm) { a.failAt = f.at; if(f.mode == 1) a.persistent = true; if(f.mode == 2) a.failUntil = f.at + (int64_t)f.width; } };
        r.inNative = [&](HistoryRun &, Host &x, const char *name) { natives++; if(x.alloc->failed || (x.forced && strcmp(name, "force"))) c.fail("host function %s called after an allocation failed", name); };
        r.inCallback = [&](HistoryRun &rr, Host &x, const char *kind) { callbacks++; if((!x.alloc->failed && !x.forced) || !strcmp(kind, "subsystem cleanup")) return; bool before = false; for(size_t k = 0; k < known.size(); k++) if(rr.hosts[k].get() == &x) before = known[k]; if(before || strcmp(kind, "cleanup")) c.fail("%s callback called after an allocation failed", kind); };
        r.after = [&](HistoryRun &rr, size_t, const char *step) {
            known.resize(rr.allocs.size()); reqs.resize(rr.allocs.size()); logAt.resize(rr.allocs.size());
            for(size_t k = 0; k < rr.allocs.size(); k++) {
                Alloc &a = *rr.allocs[k]; Host &x = *rr.hosts[k];
                if(a.trouble.size()) c.failStr(std::string(step) + ": " + a.trouble);
                if(!x.vm) { if(a.live) c.fail("%s: %llu blocks (%llu bytes) not given back by VM deletion", step, (unsigned long long)a.live, (unsigned long long)a.cur); continue; }
                bool failure = nkxVmHasAllocationFailure(x.vm);
                if(a.failed && !failure) c.fail("%s: request %llu was refused, but no allocation failure is reported", step, (unsigned long long)f.at);
                if(x.forced && !failure) c.fail("%s: a forced failure is not reported", step);
                if(!a.failed && !x.forced && failure) c.fail("%s: an allocation failure is reported, but no request was refused", step);
                if(failure) {
                    if(!nkxVmHasErrors(x.vm)) c.fail("%s: an allocation failure, but no error", step);
                    if(!nkxGetErrorCount(x.vm)) c.fail("%s: an allocation failure, but an error count of zero", step);
                    if(x.errorText().find("Allocation failure") == std::string::npos) c.fail("%s: the error text does not mention the allocation failure: %s", step, x.errorText().c_str());
                    if(known[k] && a.requests != reqs[k]) c.fail("%s: asks for memory after an allocation failure", step);
                    if(known[k] && x.log != logAt[k]) c.fail("%s: the script goes on after an allocation failure", step);
                    known[k] = true; reqs[k] = a.requests; logAt[k] = x.log;
                }
            }
        };
        r.run();
        if(r.allocs.size() > f.vm && r.allocs[f.vm]->failed) hit.insert(where);
        else c.fail("the history is not the same each time: request %lld was not made", (long long)f.at);
        if(r.subsystemsMissing()) c.fail("%lld subsystem cleanups did not run", (long long)r.subsystemsMissing());
        for(auto &x : r.hosts) {
            if(x->boxTrouble.size()) c.failStr(x->boxTrouble);
            if(x->libInits != x->libCleanups) c.fail("the subsystem that owns the native objects was initialised %d times and cleaned up %d times", x->libInits, x->libCleanups);
            if(x->boxesMade != x->boxesCleaned) c.fail("%lld native payloads attached, %lld disposed of", (long long)x->boxesMade, (long long)x->boxesCleaned);
        }
        // What happened before is what happens without failures; other VMs do not notice.
        for(size_t k = 0; k < r.hosts.size() && k < logs.size(); k++) {
            if(!takeOver && k != f.vm && k == 0 && r.hosts[k]->log != logs[k]) c.failStr("an allocation failure in another VM changed what this one does:\n" + r.hosts[k]->log + "\nwithout it:\n" + logs[k]);
            if(k == f.vm && !isPrefix(r.hosts[k]->log, logs[k])) c.failStr("host calls before the failure differ from those without failures:\n" + r.hosts[k]->log + "\nwithout:\n" + logs[k]);
        }
    }
    c.evaluations(faults.size()); for(auto &s : hit) c.label(("during: " + s).c_str()); if(loads) c.label("with images loaded"); if(saves) c.label("with images saved");
    c.describe(base + "\n--- " + std::to_string(faults.size()) + " of " + std::to_string(total) + " requests refused");
    if(hit.size() >= 2 && faults.size() >= 4) c.nontrivial(hash);
}
}

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C06";
    P.rule = "Random histories over the whole API (creating, compiling good and bad text and files, running, stepping, calling, collecting, shrinking, objects, fields, handles, conversions, saving, loading into further VMs, types, subsystems, natives, errors and clearing them, host memory, dumps, deletion), executed once to count the requests of each VM's allocator, then once for each injected fault: a single refused request, all from one on, or a few in a row; at every request of short histories, at sampled requests (spread over the steps) of longer ones. After each step the failure must be reported exactly if a request was refused, the error text must name it, no host function may be entered and no request made afterwards, every later operation of the history must be harmless, host calls before it must be those of the run without failures, and other VMs must not notice; after deletion every block must have been given back, every subsystem and native payload cleaned up exactly once. Memory errors are caught by ASan and UBSan. Non-trivial: at least 4 faults in at least two kinds of step; distinct by history.";
    P.assumptions = {"after an allocation failure cleanup callbacks of single objects are not run; the subsystem that owns them disposes of them by enumeration"};
    P.quickCases = 60000; P.thoroughCases = 600000; P.quickWall = 28; P.thoroughWall = 800; P.caseCpu = 60;
    P.run = run;
    return pbt::main(P, argc, argv);
}
