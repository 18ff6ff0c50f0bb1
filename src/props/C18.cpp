// C18: shrinking a VM is invisible to the program.
#include "drive.h"
#include <set>
using namespace lang;

// Both VMs get the same treatment, one of them is also shrunk.
struct Side { Host h; std::vector<NKValue> held; };

// A session: the program comes in pieces, compiled when garbage of earlier ones is still around, and
// collections and shrinking happen before, while and after each runs.
static void session(pbt::Case &c) {
    GenOpts o; o.stmts = 4 + c.size / 5; o.coroutines = c.g.chance(1, 2); o.boxes = c.g.chance(1, 6);
    GenProgram gp; makeProgram(c, gp, o);
    Outcome ref = referenceRun(c, gp);
    std::vector<std::string> parts = printPieces(gp.p), pieces; uint32_t den = 1 + c.g.below(4);
    for(size_t i = 0; i < parts.size(); i++) { if(i == 0 || c.g.chance(1, den)) pieces.push_back(""); pieces.back() += parts[i]; }
    std::string d = "\n--- in pieces:"; uint64_t hash = 3; for(auto &x : pieces) { d += "\n~~~~\n" + x; hash = pbt::hashStr(x, hash * 31 + 7); }
    uint32_t gi = c.g.chance(1, 2) ? 1 + c.g.below(50) : 1024, noi = 1 + c.g.below(60);
    Host a, b; Host *two[2] = { &a, &b }; int shrinks = 0; bool stopped = false;
    for(Host *h : two) { if(!h->create()) c.fail("creating the VM failed"); nkxSetGarbageCollectionInterval(h->vm, gi); nkxSetGarbageCollectionNewObjectInterval(h->vm, noi); }
    c.appendDescription(d + "\n--- collection interval " + std::to_string(gi) + ", new object interval " + std::to_string(noi) + "\n");
    auto garbage = [&](int n) { for(Host *h : two) for(int i = 0; i < n; i++) { NKValue v = strValue(h->vm, ("garbage string " + std::to_string(i)).c_str()), ob = nilValue(), k = intValue(h->vm, 3); if(i % 3 == 0) { nkxCreateObject(h->vm, &ob); if(NKValue *e = nkxVmObjectFindOrAddEntry(h->vm, &ob, &k, nkfalse)) *e = v; } } };
    auto disturb = [&](const char *when) {
        if(c.g.chance(1, 3)) { int n = c.g.below(30); garbage(n); c.appendDescription(std::string(when) + ": " + std::to_string(n) + " strings of garbage\n"); }
        if(c.g.chance(1, 2)) { for(Host *h : two) nkxVmGarbageCollect(h->vm); c.appendDescription(std::string(when) + ": collected\n"); }
        if(c.g.chance(1, 2)) { uint64_t before = b.alloc->cur; nkxVmShrink(b.vm); shrinks++; c.appendDescription(std::string(when) + ": shrunk\n"); if(b.alloc->cur > before) c.fail("shrinking raised the memory in use from %llu to %llu", (unsigned long long)before, (unsigned long long)b.alloc->cur); }
    };
    for(size_t i = 0; i < pieces.size() && !stopped; i++) {
        if(c.g.chance(1, 2)) disturb("before compiling");
        for(Host *h : two) if(!nkxCompilerCompileScript(h->cs, pieces[i].c_str(), "main.nks") || h->hasErrors()) c.failStr(std::string(h == &a ? "without" : "with") + " shrinking piece " + std::to_string(i) + " does not compile: " + (h->hasErrors() ? h->errorText() : ""));
        if(c.g.chance(2, 3)) disturb("after compiling");
        bool last = i + 1 == pieces.size() && c.g.chance(1, 2);
        for(Host *h : two) { if(last) h->finalize(); else nkxCompilerPartiallyFinalize(h->cs); }
        disturb("before running");
        for(uint64_t n = 0; n < RUN_CAP && !a.hasErrors() && !nkxVmProgramHasEnded(a.vm);) {
            uint32_t k = c.g.chance(1, 2) ? 0xffffffffu : 1 + c.g.below(60); for(Host *h : two) nkxVmIterate(h->vm, k); n += k; if(k != 0xffffffffu) disturb("while running");
        }
        std::vector<std::string> some; for(auto &x : gp.names) if(nkxVmFindGlobalVariable(a.vm, nullptr, x.c_str())) some.push_back(x);
        std::string w = "after piece " + std::to_string(i);
        compareText(c, (w + ": host calls").c_str(), a.log, b.log); compareText(c, (w + ": errors").c_str(), a.hasErrors() ? a.errorText() : "", b.hasErrors() ? b.errorText() : "");
        compareText(c, (w + ": globals").c_str(), dumpGlobals(a.vm, some), dumpGlobals(b.vm, some));
        stopped = a.hasErrors();
    }
    compareText(c, "at the end: host calls", ref.log, b.log); if(ref.error != b.hasErrors()) c.fail("at the end: %s", ref.error ? "no error" : "an error");
    if(!stopped) compareText(c, "at the end: globals", ref.globals, dumpGlobals(b.vm, gp.names));
    uint32_t oc = (uint32_t)b.outCount; for(Host *h : two) finish(c, *h);
    c.label("sessions"); c.label("shrinks", shrinks); c.evaluations(shrinks); if(ref.error) c.label("ends with an error");
    if(shrinks && pieces.size() > 1 && oc >= 2) c.nontrivial(hash);
}

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C18";
    P.rule = "A random program runs in two VMs in lockstep with the same collection settings; a random number of host objects (held through handles, with fields) is created first in both and released along the way, so that both tables have holes below the program's own objects and strings. At generated instruction boundaries (every one for short programs) one of the VMs is shrunk, sometimes twice, sometimes after a forced collection in both, sometimes followed by saving and loading. Host calls, globals (looked up afresh), sizes, native payloads cleaned up so far and errors must agree at every point and at the end, and memory in use must not grow by shrinking. One case in four is a session instead: the program is compiled and run piece by piece, with garbage, collections and shrinking before and after compiling and while running. Non-trivial: at least one shrink strictly inside the run and 2 host calls; distinct by program text and points.";
    P.assumptions = {"values the host looked up before shrinking and did not hold through a handle are not used afterwards", "saving and loading (C04)"};
    P.quickCases = 22000; P.thoroughCases = 600000; P.quickWall = 28; P.thoroughWall = 800;
    P.run = [](pbt::Case &c) {
        if(c.g.chance(1, 4)) { session(c); return; }
        GenOpts o; o.stmts = 2 + c.size / 5; o.coroutines = c.g.chance(2, 3); o.boxes = c.g.chance(1, 4);
        GenProgram gp; makeProgram(c, gp, o);
        Outcome ref = referenceRun(c, gp, true);
        uint64_t total = ref.instructions;
        std::set<uint64_t> points; uint64_t hash = pbt::hashStr(gp.text); std::string how;
        if(total <= 80) for(uint64_t i = 0; i <= total; i++) points.insert(i);
        else { int n = 1 + c.g.below(12); for(int i = 0; i < n; i++) points.insert(c.g.below((uint32_t)total + 1)); }
        for(auto x : points) { hash = pbt::hashMix(hash, x); if(how.size() < 200) how += " " + std::to_string(x); }
        uint32_t gi = c.g.chance(1, 2) ? 1 + c.g.below(50) : 1024, noi = 1 + c.g.below(60);
        int pre = c.g.chance(3, 4) ? (int)c.g.below(40) : 0;
        c.appendDescription("\n--- host objects: " + std::to_string(pre) + ", collection interval " + std::to_string(gi) + ", new object interval " + std::to_string(noi) + ", shrunk after instruction:" + how);
        auto a = std::make_unique<Side>(), b = std::make_unique<Side>();
        auto both = [&](auto f) { f(*a); f(*b); };
        both([&](Side &s) {
            prepare(c, s.h, gp.text);
            nkxSetGarbageCollectionInterval(s.h.vm, gi); nkxSetGarbageCollectionNewObjectInterval(s.h.vm, noi);
            for(int i = 0; i < pre; i++) {
                NKValue v = nilValue(); nkxCreateObject(s.h.vm, &v); nkxVmObjectAcquireHandle(s.h.vm, &v);
                NKValue k = intValue(s.h.vm, 7), x = strValue(s.h.vm, ("host object " + std::to_string(i)).c_str());
                nkxVmObjectFindOrAddEntry(s.h.vm, &v, &k, nkfalse) ? (void)(*nkxVmObjectFindOrAddEntry(s.h.vm, &v, &k, nkfalse) = x) : (void)0;
                if(i) { k = s.held[i - 1]; NKValue *p = nkxVmObjectFindOrAddEntry(s.h.vm, &v, &k, nkfalse); if(p) *p = s.held[i - 1]; }
                s.held.push_back(v);
            }
        });
        std::vector<int> alive; for(int i = 0; i < pre; i++) alive.push_back(i);
        uint64_t at = 0; bool inside = false; int shrinks = 0; std::string dump[2];
        auto compare = [&](const char *what) {
            std::string w = std::string(what) + " after " + std::to_string(at) + " instructions";
            compareText(c, (w + ": host calls").c_str(), a->h.log, b->h.log);
            compareText(c, (w + ": errors").c_str(), a->h.hasErrors() ? a->h.errorText() : "", b->h.hasErrors() ? b->h.errorText() : "");
            compareText(c, (w + ": globals").c_str(), dumpGlobals(a->h.vm, gp.names), dumpGlobals(b->h.vm, gp.names));
            if(a->h.boxesCleaned != b->h.boxesCleaned) c.failStr(w + ": " + std::to_string(b->h.boxesCleaned) + " native payloads cleaned up, " + std::to_string(a->h.boxesCleaned) + " without shrinking");
            for(int i : alive) {
                NKValue k = intValue(a->h.vm, 7); Side *ss[2] = { a.get(), b.get() }; std::string t[2];
                for(int n = 0; n < 2; n++) { NKValue *p = nkxVmObjectFindOrAddEntry(ss[n]->h.vm, &ss[n]->held[i], &k, nktrue); NKValue v = p ? *p : nilValue(); t[n] = p ? showValue(ss[n]->h.vm, &v) : "missing"; t[n] += " of " + std::to_string(nkxVmObjectGetSize(ss[n]->h.vm, &ss[n]->held[i]));
                    if(i) { NKValue k2 = ss[n]->held[i - 1]; p = nkxVmObjectFindOrAddEntry(ss[n]->h.vm, &ss[n]->held[i], &k2, nktrue); t[n] += p ? p->type == NK_VALUETYPE_OBJECTID && p->objectId == k2.objectId ? " linked" : " wrong link" : " unlinked"; } }
                compareText(c, (w + ": object held by the host").c_str(), t[0], t[1]);
            }
        };
        for(uint64_t x : points) {
            if(x > at) { uint32_t n = (uint32_t)(x - at); both([&](Side &s) { nkxVmIterate(s.h.vm, n); }); at = x; }
            while(alive.size() && c.g.chance(1, 2)) {
                size_t k = c.g.below((uint32_t)alive.size()); int i = alive[k]; alive.erase(alive.begin() + k);
                both([&](Side &s) { nkxVmObjectReleaseHandle(s.h.vm, &s.held[i]); });
            }
            if(c.g.chance(1, 2)) both([&](Side &s) { nkxVmGarbageCollect(s.h.vm); });
            int times = c.g.chance(1, 8) ? 2 : 1;
            for(int i = 0; i < times; i++) {
                uint64_t before = b->h.alloc->cur; int64_t cleaned = b->h.boxesCleaned;
                nkxVmShrink(b->h.vm);
                if(b->h.alloc->cur > before) c.fail("after %llu instructions shrinking raised the memory in use from %llu to %llu", (unsigned long long)at, (unsigned long long)before, (unsigned long long)b->h.alloc->cur);
                if(cleaned != b->h.boxesCleaned) c.fail("shrinking cleaned up native payloads");
                shrinks++;
            }
            if(at > 0 && at < total) inside = true;
            if(c.g.chance(1, 3)) compare("shrunk");
            if(c.g.chance(1, 12) && !b->h.hasErrors() && alive.empty()) {
                both([&](Side &s) { // images restart the pass counting in both
                    Image img; if(!saveImage(s.h.vm, img)) c.fail("saving failed");
                    auto n = std::make_unique<Side>(); if(!n->h.createVmOnly() || !n->h.start() || !loadImage(n->h.vm, img)) c.fail("loading failed");
                    n->h.takeOver(s.h); n->held = s.held; finish(c, s.h);
                    if(&s == a.get()) { a = std::move(n); } else { b = std::move(n); }
                });
                c.label("saved and loaded after shrinking");
            }
        }
        both([&](Side &s) { s.h.run(RUN_CAP); });
        at = total; compare("at the end");
        compareOutcome(c, "with shrinking", ref, outcomeOf(b->h, gp.names));
        uint32_t oc = (uint32_t)b->h.outCount;
        both([&](Side &s) { finish(c, s.h); });
        c.label("shrinks", shrinks);
        for(auto f : { "coroutine", "box", "hold", "object key", "callable object", "yield" }) if(gp.m.features.count(f)) c.label(f);
        if(ref.error) c.label("ends with an error");
        c.evaluations(shrinks);
        if(inside && oc >= 2) c.nontrivial(hash);
    };
    return pbt::main(P, argc, argv);
}
