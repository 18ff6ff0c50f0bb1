// C07: memory accounting and the memory limit are exact.
#include "history.h"
#include <cstring>
#include <algorithm>

namespace {
uint64_t outstanding(const Alloc &a) { return a.cur - a.firstSize; }
struct Request { uint64_t seq, before, size; };
struct LimitEvent { size_t vm; uint64_t request; uint32_t limit; };

struct Watch {
    pbt::Case &c; uint64_t checks = 0; std::vector<uint64_t> peaks; uint64_t seq = 0; std::vector<std::vector<Request>> log; bool logging = false;
    std::vector<uint64_t> failedAt;    // requests made when a failure was first seen at a further one (a failure in a cleanup callback does not end the collection it is part of)
    explicit Watch(pbt::Case &cc) : c(cc) {}
    // The figures the VM reports, against what the allocator has given out.
    void figures(Host &h, size_t k, const char *where) {
        if(!h.vm) return;
        Alloc &a = *h.alloc; uint64_t real = outstanding(a); checks++;
        if(peaks.size() <= k) peaks.resize(k + 1);
        peaks[k] = std::max(peaks[k], real);
        uint32_t cur = nkxVmGetCurrentMemoryUsage(h.vm), peak = nkxVmGetPeakMemoryUsage(h.vm);
        if(cur != real) c.fail("%s: %u bytes reported in use, %llu are", where, cur, (unsigned long long)real);
        if(peak != a.peak - a.firstSize) c.fail("%s: a peak of %u reported, it was %llu", where, peak, (unsigned long long)(a.peak - a.firstSize));
        if(a.trouble.size()) c.failStr(std::string(where) + ": " + a.trouble);
    }
    void attach(HistoryRun &r) {
        r.prepareAlloc = [this, &r](Alloc &a, size_t k) {
            if(log.size() <= k) log.resize(k + 1);
            a.fill = 0xa5; a.logSizes = logging;
            a.onGet = [this, &r, &a, k] { if(logging) log[k].push_back({ seq++, a.requests ? outstanding(a) : 0, 0 }); if(k < r.hosts.size()) { Host &h = *r.hosts[k]; if(failedAt.size() <= k) failedAt.resize(k + 1, ~0ull); if(h.vm && failedAt[k] == ~0ull && nkxVmHasAllocationFailure(h.vm)) failedAt[k] = a.requests; figures(h, k, "at a request"); } };
        };
        r.inNative = [this](HistoryRun &rr, Host &h, const char *) { for(size_t k = 0; k < rr.hosts.size(); k++) if(rr.hosts[k].get() == &h) figures(h, k, "in a host function"); };
        r.inCallback = [this](HistoryRun &rr, Host &h, const char *) { for(size_t k = 0; k < rr.hosts.size(); k++) if(rr.hosts[k].get() == &h) figures(h, k, "in a callback"); };
        r.after = [this](HistoryRun &rr, size_t, const char *step) {
            for(size_t k = 0; k < rr.hosts.size(); k++) {
                Host &h = *rr.hosts[k]; figures(h, k, step);
                if(!h.vm && h.alloc->live) c.fail("%llu blocks (%llu bytes) not given back by VM deletion", (unsigned long long)h.alloc->live, (unsigned long long)h.alloc->cur);
                if(h.alloc->trouble.size()) c.failStr(std::string(step) + ": " + h.alloc->trouble);
            }
        };
    }
};

void histories(pbt::Case &c) {
    History h; generateHistory(c, h, c.size, true); c.describe(h.description);
    // Without limits: figures everywhere, and what is requested when.
    std::vector<LimitEvent> events; Watch w(c); w.logging = true; uint64_t sets = 0; std::vector<std::vector<uint64_t>> sizes; uint64_t loads;
    auto limitFor = [](Alloc &a, uint32_t v) -> uint32_t { if(v == 0xffffffffu) return v; uint64_t cur = outstanding(a); return v % 11 == 0 ? (uint32_t)(cur > v ? cur - v : 0) : v % 7 == 0 ? v : (uint32_t)std::min<uint64_t>(cur + v, 0xfffffffe); };
    {
        HistoryRun r(h); r.disposeEarly = true; w.attach(r);
        r.memoryLimit = [&](HistoryRun &rr, Host &hh, uint32_t v) { for(size_t k = 0; k < rr.hosts.size(); k++) if(rr.hosts[k].get() == &hh) { events.push_back({ k, hh.alloc->requests, limitFor(*hh.alloc, v) }); sets++; } };
        r.run(); loads = r.loads;
        for(size_t k = 0; k < r.allocs.size(); k++) { auto &s = r.allocs[k]->sizesWanted; if(s.size() != w.log[k].size()) c.fail("bookkeeping of the check is off"); for(size_t i = 0; i < s.size(); i++) w.log[k][i].size = s[i]; }
        if(r.subsystemsMissing()) c.fail("subsystem cleanups did not run");
        for(auto &x : r.hosts) if(x->boxesMade != x->boxesCleaned) c.fail("native payloads not cleaned up");
    }
    c.label("figures compared", w.checks); if(loads) c.label("with images");
    size_t total = 0; for(auto &l : w.log) total += l.size();
    if(total >= 40) c.nontrivial(pbt::hashStr(h.description));
    // With limits: the first request beyond the limit in force must not be made, every earlier one must.
    std::vector<std::vector<LimitEvent>> plans; if(events.size()) plans.push_back(events);
    for(int i = 0; i < 2; i++) { // one more limit, at a point and of a size that makes sense
        std::vector<LimitEvent> e; size_t k = c.g.below((uint32_t)w.log.size()); auto &l = w.log[k]; if(l.size() < 3) continue;
        uint64_t target = 2 + c.g.below((uint32_t)l.size() - 2); int64_t lim = (int64_t)(l[target].before + l[target].size) + (c.g.chance(1, 2) ? c.g.range(-2, 2) : c.g.range(-200, 200));
        e.push_back({ k, 0, (uint32_t)std::max<int64_t>(0, lim) }); plans.push_back(e);
    }
    for(auto &plan : plans) {
        bool whole = &plan == &plans[0] && events.size();
        size_t vm = SIZE_MAX; uint64_t at = 0, seq = ~0ull; uint32_t inForce = 0;
        for(size_t k = 0; k < w.log.size(); k++) for(uint64_t i = 1; i < w.log[k].size(); i++) {
            uint32_t lim = 0xffffffffu; bool known = whole;
            for(auto &e : plan) if(e.vm == k && i >= e.request) { lim = e.limit; known = true; }
            if(!known) continue;
            if(w.log[k][i].before + w.log[k][i].size > lim && w.log[k][i].seq < seq) { seq = w.log[k][i].seq; vm = k; at = i; inForce = lim; break; }
        }
        // The limit of a plan of our own is set as soon as the VM exists: requests before that do not count.
        size_t ev = 0; uint64_t setAt = 0; bool early = false; Watch q(c); HistoryRun r(h); r.disposeEarly = true; q.attach(r);
        auto oldAfter = r.after;
        r.after = [&](HistoryRun &rr, size_t i, const char *step) {
            if(!whole && !strncmp(step, "creation", 8)) { size_t k = rr.hosts.size() - 1; if(k == plan[0].vm && rr.hosts[k]->vm) { setAt = rr.hosts[k]->alloc->requests; nkxSetMaxAllocatedMemory(rr.hosts[k]->vm, plan[0].limit); if(nkxGetMaxAllocatedMemory(rr.hosts[k]->vm) != plan[0].limit) c.fail("the limit read back is not the one set"); } }
            oldAfter(rr, i, step);
            for(size_t k = 0; k < rr.hosts.size(); k++) { Host &x = *rr.hosts[k]; if(x.vm && k == vm && !early && !nkxVmHasAllocationFailure(x.vm) && x.alloc->requests > at && (whole || at >= setAt)) c.fail("%s: request %llu of %llu bytes was made with %llu in use and a limit of %u", step, (unsigned long long)at, (unsigned long long)w.log[vm][at].size, (unsigned long long)w.log[vm][at].before, inForce); }
        };
        r.memoryLimit = [&](HistoryRun &rr, Host &hh, uint32_t) { if(!whole) return; if(ev < events.size() && rr.hosts[events[ev].vm].get() == &hh) nkxSetMaxAllocatedMemory(hh.vm, events[ev].limit); ev++; };
        if(!whole) { // find the first violating request after the VM has been set up
            HistoryRun probe(h); probe.disposeEarly = true; uint64_t created = ~0ull; probe.after = [&](HistoryRun &rr, size_t, const char *step) { if(!strncmp(step, "creation", 8) && rr.hosts.size() - 1 == plan[0].vm) created = rr.allocs.back()->requests; }; probe.run();
            vm = SIZE_MAX; seq = ~0ull; auto &l = w.log[plan[0].vm]; for(uint64_t i = created; i < l.size(); i++) if(l[i].before + l[i].size > plan[0].limit) { vm = plan[0].vm; at = i; seq = l[i].seq; inForce = plan[0].limit; break; }
        }
        // Whether VMs have failed, and when.
        std::vector<bool> failed; auto a2 = r.after;
        auto unmade = [&](uint64_t requests) { early = true; if(requests > at) c.fail("in deletion: request %llu of %llu bytes was made with %llu in use and a limit of %u", (unsigned long long)at, (unsigned long long)w.log[vm][at].size, (unsigned long long)w.log[vm][at].before, inForce); c.label("limit reached in deletion"); };
        r.after = [&](HistoryRun &rr, size_t i, const char *step) {
            a2(rr, i, step); failed.resize(rr.hosts.size());
            // The request may belong to the deletion of its VM, which cannot be asked afterwards: it must not have been made.
            if(!early && vm < rr.hosts.size() && !rr.hosts[vm]->vm && rr.hosts[vm]->alloc->requests >= at) unmade(rr.hosts[vm]->alloc->requests);
            for(size_t k = 0; k < rr.hosts.size(); k++) if(Host &x = *rr.hosts[k]; x.vm && nkxVmHasAllocationFailure(x.vm) && !failed[k]) {
                failed[k] = true; if(early) continue;
                early = true;
                if(k != vm) c.fail("%s: VM %zu reports an allocation failure, with %llu bytes in use%s", step, k, (unsigned long long)outstanding(*x.alloc), vm == SIZE_MAX ? "; no request exceeds a limit" : "; another one should have");
                uint64_t when = k < q.failedAt.size() && q.failedAt[k] != ~0ull ? q.failedAt[k] : x.alloc->requests;
                if(when != at) c.fail("%s: allocation failure at request %llu, but %llu (%llu bytes with %llu in use) is the first to exceed the limit of %u", step, (unsigned long long)when, (unsigned long long)at, (unsigned long long)w.log[vm][at].size, (unsigned long long)w.log[vm][at].before, inForce);
                if(!nkxVmHasErrors(x.vm)) c.fail("an allocation failure, but no error");
            }
        };
        char pl[120]; snprintf(pl, sizeof pl, "\n--- limit %u for VM %zu: request %lld is the first too large", plan[0].limit, plan[0].vm, vm == SIZE_MAX ? -1ll : (long long)at); if(!whole) c.appendDescription(pl);
        r.run();
        if(vm != SIZE_MAX && !early && vm < r.allocs.size() && r.allocs[vm]->requests == at) unmade(at);
        if(vm != SIZE_MAX && !early) c.fail("request %llu of %llu bytes was made with %llu in use and a limit of %u", (unsigned long long)at, (unsigned long long)w.log[vm][at].size, (unsigned long long)w.log[vm][at].before, inForce);
        if(r.subsystemsMissing()) c.fail("under a memory limit: subsystem cleanups did not run");
        for(auto &x : r.hosts) { if(x->boxTrouble.size()) c.failStr("under a memory limit: " + x->boxTrouble); if(x->boxesMade != x->boxesCleaned) c.fail("under a memory limit: %lld native payloads attached, %lld cleaned up", (long long)x->boxesMade, (long long)x->boxesCleaned); }
        c.label(early ? "limit reached" : "limit not reached"); c.evaluations(1);
    }
}

// ---- requests that cannot be served -----------------------------------------------------------------
void huge(pbt::Case &c) {
    Alloc a; Host h(&a); if(!h.create()) c.fail("creating the VM failed");
    uint32_t lim = c.g.chance(1, 2) ? 0xffffffffu : c.g.chance(1, 2) ? 0xfffffff0u + c.g.below(15) : 100000 + c.g.below(1000000); nkxSetMaxAllocatedMemory(h.vm, lim);
    std::string d; void *p = nullptr; uint64_t psize = 0; uint64_t before = a.requests; (void)before;
    for(int i = 0, n = 1 + c.g.below(8); i < n; i++) {
        auto num = [&]() -> uint32_t { switch(c.g.below(6)) { case 0: return 0xffffffffu - c.g.below(100); case 1: return 0x80000000u - 2 + c.g.below(5); case 2: return 0x10000u - 2 + c.g.below(5); case 3: return c.g.below(5); case 4: return 1u << c.g.below(32); default: return c.g.below(2000); } };
        uint32_t s = num(), k = num(); int kind = c.g.below(4); uint64_t want = kind < 2 ? s : (uint64_t)s * k; bool re = kind & 1;
        char t[100]; snprintf(t, sizeof t, "\n%s %u x %u", kind == 0 ? "malloc" : kind == 1 ? "realloc" : kind == 2 ? "mallocarray" : "reallocarray", s, kind < 2 ? 1 : k); d += t; c.describe("limit " + std::to_string(lim) + d);
        uint64_t used = outstanding(a), req = a.requests; uint64_t refused = a.failed;
        void *q = kind == 0 ? nkxMalloc(h.vm, s) : kind == 1 ? nkxRealloc(h.vm, p, s) : kind == 2 ? nkxMallocArray(h.vm, s, k) : nkxReallocArray(h.vm, p, s, k);
        bool fail = nkxVmHasAllocationFailure(h.vm);
        if(a.requests > req + 1) c.fail("one request became several");
        if(want > 0xffffffffull && (q || !fail || a.requests != req)) c.fail("%llu bytes cannot be had, but %s", (unsigned long long)want, q ? "a block was returned" : fail ? "the allocator was asked" : "no failure is reported");
        if(q && fail) c.fail("a block and an allocation failure");
        if(!q && !fail && want) c.fail("no block and no failure for %llu bytes", (unsigned long long)want);
        if(used + want > lim && (q || !fail || a.requests != req)) c.fail("%llu bytes with %llu in use and a limit of %u: %s", (unsigned long long)want, (unsigned long long)used, lim, q ? "granted" : fail ? "asked for" : "no failure");
        if(used + want + 4096 < lim && want < (1u << 29) && fail) c.fail("%llu bytes with %llu in use and a limit of %u: refused", (unsigned long long)want, (unsigned long long)used, lim);
        if(a.requests == req + 1 && a.failed == refused && q && outstanding(a) < want) c.fail("a smaller block than requested");
        if(nkxVmGetCurrentMemoryUsage(h.vm) != outstanding(a) || nkxVmGetPeakMemoryUsage(h.vm) != a.peak - a.firstSize) c.fail("reported figures are wrong: %u in use of %llu", nkxVmGetCurrentMemoryUsage(h.vm), (unsigned long long)outstanding(a));
        if(fail) { c.label("request refused"); break; }
        if(q) memset(q, 0x11, std::min<uint64_t>(want, 1u << 20));
        if(re) { p = q; psize = want; } else if(q) { if(c.g.chance(1, 2) && !p) { p = q; psize = want; } else nkxFree(h.vm, q); }
        if(p && psize > (1u << 27)) { nkxFree(h.vm, p); p = nullptr; }
    }
    if(p && !nkxVmHasAllocationFailure(h.vm)) nkxFree(h.vm, p);
    finish(c, h); if(a.trouble.size()) c.failStr(a.trouble);
    c.label("requests of any size"); c.nontrivial(pbt::hashStr(d));
}
}

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C07";
    P.rule = "Random histories over the whole API (creating, compiling good and bad text and files, running, stepping, calling, collecting, shrinking, objects, fields, handles, conversions, saving, loading into further VMs of other allocators, whole or truncated images, types, subsystems, natives, errors and clearing them, host memory, dumps), every VM with an allocator that knows its blocks. At every request, in every host function and callback and after every step the reported use and peak are compared with the real ones; at deletion nothing may be left, freed twice, or freed with another VM's user data. The history is then repeated with the memory limits it contains and with two limits placed around the need of a random request: the first request to exceed the limit in force, computed from the first run, must be refused as an allocation failure without asking the allocator, and none before. Or sequences of host requests of any size up to and beyond 32 bits. Non-trivial: at least 40 allocator requests; distinct by history.";
    P.assumptions = {"the block of the VM itself is not part of its use", "the limit and the figures count the library's own block headers, as the allocator sees them"};
    P.quickCases = 60000; P.thoroughCases = 600000; P.quickWall = 28; P.thoroughWall = 800;
    P.run = [](pbt::Case &c) { if(c.g.chance(1, 6)) huge(c); else histories(c); };
    return pbt::main(P, argc, argv);
}
