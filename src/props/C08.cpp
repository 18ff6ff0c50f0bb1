// C08: the instruction limit stops every runaway program, and no other.
#include "drive.h"
#include <algorithm>
#include <cstring>
using namespace lang;

namespace {
const uint32_t BIG = 2000000000u;

// ---- keeping the books on one limit -----------------------------------------------------
struct Budget {
    pbt::Case &c; uint64_t e0 = 0, limit = 0; uint32_t maxI = 1, curI = 1, last = 0; bool unlimited = true;
    Budget(pbt::Case &cc) : c(cc) {}
    void interval(Host &h, uint32_t i, uint64_t) { nkxSetGarbageCollectionInterval(h.vm, i); curI = std::max(1u, i); maxI = std::max(maxI, curI); }
    void set(Host &h, uint32_t l, uint64_t e, uint32_t runningI) { nkxSetRemainingInstructionLimit(h.vm, l); e0 = e; limit = l; last = l; unlimited = l == 0xffffffffu; maxI = std::max(curI, runningI); uint32_t r = nkxGetRemainingInstructionLimit(h.vm); if(r != l) c.fail("the limit was set to %u, but is reported as %u", l, r); }
    // Reading the remaining count when at most `executed` instructions have been executed and at least `low`.
    void read(Host &h, uint64_t executed, const char *where) {
        uint32_t r = nkxGetRemainingInstructionLimit(h.vm);
        if(unlimited) { if(r != 0xffffffffu) c.fail("%s: no limit is set, but %u are reported to remain", where, r); return; }
        if(r > last) c.fail("%s: the remaining count went up from %u to %u", where, last, r);
        if(limit - r > executed - e0 + 1 && !h.hasErrors()) c.fail("%s: %llu of the limit of %llu are gone, but only %llu instructions have been executed since it was set", where, (unsigned long long)(limit - r), (unsigned long long)limit, (unsigned long long)(executed - e0));
        last = r;
    }
    void running(uint64_t executedLow, const char *where) { if(!unlimited && executedLow - e0 > limit + maxI) c.fail("%s: still running after %llu instructions, with a limit of %llu checked every %u", where, (unsigned long long)(executedLow - e0), (unsigned long long)limit, maxI); }
    void stopped(uint64_t executedHigh, const char *where) { if(unlimited) c.fail("%s: stopped without a limit", where); if(executedHigh - e0 + 1 < limit) c.fail("%s: stopped after at most %llu instructions, with a limit of %llu", where, (unsigned long long)(executedHigh - e0), (unsigned long long)limit); }
};
uint32_t someInterval(pbt::Gen &g, uint64_t n) {
    switch(g.below(9)) { case 0: return 1; case 1: return 2; case 2: return 3 + g.below(10); case 3: return 1024; case 4: return 0; case 5: return 1 + g.below((uint32_t)std::min<uint64_t>(n + 2, 100000)); case 6: return 1000000; default: return 10 + g.below(200); }
}
uint32_t someLimit(pbt::Gen &g, uint64_t n, uint32_t i) {
    int64_t l;
    switch(g.below(9)) { case 0: l = 0; break; case 1: l = g.below(4); break; case 2: l = (int64_t)n + g.range(-2, 3); break; case 3: l = (int64_t)n + i + g.range(-3, 3); break; case 4: l = (int64_t)n - i + g.range(-3, 3); break; case 5: l = (int64_t)i * g.range(1, 4) + g.range(-1, 1); break; case 6: l = (int64_t)n * 2; break; default: l = g.below((uint32_t)n + 2); }
    return l < 0 ? 0 : (uint32_t)std::min<int64_t>(l, BIG);
}

// ---- any program ---------------------------------------------------------------------------
void anyProgram(pbt::Case &c) {
    GenOpts o; o.stmts = 2 + c.size / 5; o.coroutines = c.g.chance(1, 2); o.hostCalls = c.g.chance(1, 2); o.nativeErrors = c.g.chance(1, 4); o.wildAllowed = c.g.chance(1, 4);
    GenProgram gp; makeProgram(c, gp, o);
    if(c.g.chance(1, 2)) { // calls made through the host instead
        for(size_t i = 0, n = gp.p.exprs.size(); i < n; i++) { Expr *e = gp.p.exprs[i].get(); if(e->k == EK::Call && c.g.chance(1, 2)) e->kids.insert(e->kids.begin(), gp.p.eNative(N_CALL)); }
        gp.text = print(gp.p); c.describe(gp.text); gp.m = Model(); gp.m.fuel = 20000; gp.m.run(gp.p); if(gp.m.discarded) c.discard(gp.m.why);
    }
    // Counting run: the library's own count at every native entry, with a check before every instruction.
    std::vector<uint64_t> at; uint64_t N = 0, steps = 0; bool nested = false; Outcome ref;
    {
        Host h; prepare(c, h, gp.text);
        nkxSetGarbageCollectionInterval(h.vm, 1); nkxSetGarbageCollectionNewObjectInterval(h.vm, 20); nkxSetRemainingInstructionLimit(h.vm, BIG);
        h.onNative = [&](Host &hh, const char *n) { at.push_back(BIG - nkxGetRemainingInstructionLimit(hh.vm)); if(!strcmp(n, "call")) nested = true; };
        while(!h.hasErrors() && !nkxVmProgramHasEnded(h.vm)) { nkxVmIterate(h.vm, 1); if(++steps > 60000) c.discard("many instructions"); if(!nested && BIG - nkxGetRemainingInstructionLimit(h.vm) != steps) c.fail("%llu instructions executed, %u taken off the limit (checked before every instruction)", (unsigned long long)steps, BIG - nkxGetRemainingInstructionLimit(h.vm)); }
        N = BIG - nkxGetRemainingInstructionLimit(h.vm);
        if(N < steps) c.fail("%llu single steps, only %llu instructions counted", (unsigned long long)steps, (unsigned long long)N);
        ref = outcomeOf(h, gp.names); finish(c, h);
    }
    // Limited runs.
    for(int r = 0; r < 3; r++) {
        uint32_t I = someInterval(c.g, N), L = someLimit(c.g, N, I), slice = c.g.chance(1, 3) ? 1 : c.g.chance(1, 2) ? 0xffffffffu : 1 + c.g.below(500); bool changes = c.g.chance(1, 3);
        Host h; prepare(c, h, gp.text); Budget b(c);
        b.curI = 1024; b.interval(h, I, 0); nkxSetGarbageCollectionNewObjectInterval(h.vm, 1 + c.g.below(50));
        uint32_t running = 1024; b.set(h, L, 0, std::min(running, std::max(1u, I)));
        char plan[100]; snprintf(plan, sizeof plan, "\n--- limit %u, checked every %u, run in slices of %u%s; needs %llu", L, I, slice, changes ? ", changed while running" : "", (unsigned long long)N); c.appendDescription(plan);
        size_t k = 0; uint64_t sets = 0; std::string change;
        h.onNative = [&](Host &hh, const char *) {
            if(k >= at.size()) c.fail("more native calls than without a limit");
            uint64_t e = at[k++];
            b.running(e, "in a native"); b.read(hh, e, "in a native");
            if(!changes || !c.g.chance(1, 6) || hh.hasErrors()) return;
            uint32_t before = b.curI; if(c.g.chance(1, 3)) { uint32_t i = someInterval(c.g, N); b.interval(hh, i, e); change += " I=" + std::to_string(i) + "@" + std::to_string(e); }
            if(c.g.chance(2, 3)) { uint32_t l = c.g.chance(1, 8) ? 0xffffffffu : someLimit(c.g, N > e ? N - e : 1, I); b.set(hh, l, e, std::max(before, b.maxI)); sets++; change += " L=" + std::to_string(l) + "@" + std::to_string(e); }
        };
        uint64_t n = 0; bool exact = slice == 1 && !nested;
        while(!h.hasErrors() && !nkxVmProgramHasEnded(h.vm)) {
            nkxVmIterate(h.vm, slice); n += slice;
            if(exact) { b.read(h, n, "between steps"); if(!h.hasErrors()) b.running(n, "between steps"); if(c.g.chance(1, 200) && changes && !h.hasErrors()) { uint32_t l = someLimit(c.g, N - n + 1, I); b.set(h, l, n, b.maxI); sets++; change += " L=" + std::to_string(l) + "@@" + std::to_string(n); } }
            else b.read(h, k < at.size() ? at[k] : N, "between slices");
            if(n > 100000 && slice == 1) c.fail("the program with a limit runs for ever");
        }
        if(change.size()) c.appendDescription("\n--- changes:" + change);
        Outcome out = outcomeOf(h, gp.names);
        bool stopped = out.error && (!ref.error || out.errors != ref.errors || out.log != ref.log);
        if(stopped) {
            if(out.errors.find("nstruction") == std::string::npos) c.failStr("stopped by something other than the limit: " + out.errors);
            if(ref.log.compare(0, out.log.size(), out.log)) c.fail("the stopped program did something else than the full one");
            b.stopped(exact ? n : k < at.size() ? at[k] : N, "at the end");
            c.label("stopped by the limit");
            std::string log = h.log; nkxVmIterate(h.vm, 1000); if(h.log != log) c.fail("the program went on after the limit was reached");
        } else { b.running(N, "at the end"); compareOutcome(c, "with a sufficient limit", ref, out); c.label("ran to its end"); }
        if(sets) c.label("limit changed while running");
        h.onNative = nullptr; finish(c, h); c.evaluations(1);
    }
    if(nested) c.label("with host calls"); c.label("any program");
    if(N >= 30) c.nontrivial(pbt::hashStr(gp.text));
}

// ---- runaway loops in any context -------------------------------------------------------------
struct Ticks { uint64_t n = 0; };
void nTick(NKVMFunctionCallbackData *d) { ((Ticks *)hostOf(d->vm)->extra)->n++; }
void nCallTwice(NKVMFunctionCallbackData *d) { // a host function making a host call through another host function
    Host &h = *hostOf(d->vm); NKValue *f = nkxVmFindGlobalVariable(d->vm, nullptr, "call"); NKValue fv = *f; (void)h;
    nkxVmCallFunction(d->vm, &fv, d->argumentCount, d->arguments, &d->returnValue);
}
struct Shape { std::string text, direct; double perTick = 0; uint64_t setup = 0; bool nested = false; };
std::string junk(pbt::Gen &g, bool &nested, std::string &direct) {
    static const char *a[] = { "x = x + 1;", "g(1);", "resume(co);", "{ var c2 = coroutine(g, 1); resume(c2); }", "ob[i % 7] = object();", "s = \"a\" + i;", "ob.f = g; ob->f();", "if(i % 2 == 0) { x = 1; } else { x = 2; }", "for(var k = 0; k < 3; k++) { x = k; }" };
    static const char *hc[][2] = { { "call(g, 1);", "g(1);" }, { "call2(g, 1);", "g(1);" }, { "call(h);", "h();" } };
    if(g.chance(1, 4)) { size_t k = g.below(3); nested = true; direct = hc[k][1]; return hc[k][0]; }
    std::string s = a[g.below(9)]; direct = s; return s;
}
uint64_t stepsOf(pbt::Case &c, const std::string &text, uint64_t cap) {
    Host h; Ticks t; h.extra = &t; h.extraNatives = { { "tick", nTick }, { "call2", nCallTwice } }; prepare(c, h, text); nkxSetGarbageCollectionInterval(h.vm, 1000000);
    uint64_t n = 0; while(!h.hasErrors() && !nkxVmProgramHasEnded(h.vm) && n < cap) { nkxVmIterate(h.vm, 1); n++; }
    if(h.hasErrors()) c.failStr("unexpected error: " + h.errorText());
    if(n >= cap) c.fail("the finite loop did not end");
    h.extra = nullptr; finish(c, h); return n;
}
void runaway(pbt::Case &c) {
    pbt::Gen &g = c.g; bool nested = false; std::string j1, j2;
    for(uint32_t i = 0, n = g.below(4); i < n; i++) { std::string d, s = junk(g, nested, d); j1 += "  " + s + "\n"; j2 += "  " + d + "\n"; }
    const char *head = "var last = 0; function g(a) { var k = 0; while(k < 4) { k = k + 1; } return k; }\nfunction h() { var q = coroutine(g, 1); resume(q); return g(2); }\nfunction gen() { while(1) { yield(1); } }\n";
    std::string pre = "  var x = 0; var i = 0; var s = \"\"; var ob = object(); ob[0] = 0; ob[1] = 1; ob[2] = 2; ob[3] = 3; ob[4] = 4; ob[5] = 5; ob[6] = 6; ob.f = nil; var co = coroutine(gen); resume(co);\n";
    uint32_t loop = g.below(4);
    auto body = [&](const std::string &cond, const std::string &j) {
        switch(loop) {
            case 0: return "function w0() {\n" + pre + "  while(" + cond + ") { tick(); i = i + 1;\n" + j + "  }\n  return i; }\n";
            case 1: return "function w0() {\n" + pre + "  for(i = 0; " + cond + "; i = i + 1) { tick();\n" + j + "  }\n  return i; }\n";
            case 2: return "function w0() {\n" + pre + "  do { tick(); i = i + 1;\n" + j + "  } while(" + cond + ");\n  return i; }\n";
            default: return "function rep(i, x, s, ob, co) { tick();\n" + j + "  return 1; }\nfunction w0() {\n" + pre + "  while(" + cond + ") { rep(i, x, s, ob, co); i = i + 1; }\n  return i; }\n";
        }
    };
    uint64_t s4 = stepsOf(c, head + body("i < 4", j2) + "w0();\n", 20000), s14 = stepsOf(c, head + body("i < 14", j2) + "w0();\n", 40000);
    double per = (double)(s14 - s4) / 10;
    // Finite or infinite, through a chain of contexts.
    bool finite = g.chance(1, 4); int64_t iters = g.chance(1, 4) ? 200 : 1 + g.below(60);
    std::string text = head + body(finite ? "i < " + std::to_string(iters) : std::string("i >= 0"), j1), prev = "w0"; int depth = g.below(5); std::string chain;
    for(int d = 1; d <= depth; d++) {
        std::string w = "w" + std::to_string(d), k;
        switch(g.below(7)) {
            case 0: k = "return " + prev + "();"; chain += " direct"; break;
            case 1: k = "var c = coroutine(" + prev + "); return resume(c);"; chain += " coroutine"; break;
            case 2: k = "return call(" + prev + ");"; chain += " host"; break;
            case 3: k = "return call2(" + prev + ");"; chain += " host-host"; break;
            case 4: k = "var o = object(); o.m = " + prev + "_m; return o->m();"; text += "function " + prev + "_m(self) { return " + prev + "(); }\n"; chain += " method"; break;
            case 5: k = "var o = object(); o._data = 1; o._exec = " + prev + "_m; return o();"; text += "function " + prev + "_m(data) { return " + prev + "(); }\n"; chain += " callable"; break;
            default: k = "var c = coroutine(" + prev + "_y); resume(c, 1); return resume(c, 2);"; text += "function " + prev + "_y() { yield(1); return " + prev + "(); }\n"; chain += " yielding"; break;
        }
        text += "function " + w + "() { " + k + " }\n"; prev = w;
    }
    bool fromHost = g.chance(1, 4), session = g.chance(1, 4);
    uint64_t need = finite ? (uint64_t)(per * iters) + 300 : 3000;
    uint32_t I = someInterval(g, need), L = finite ? someLimit(g, need, I) : g.chance(1, 12) ? 100000 + g.below(200000) : someLimit(g, need, std::min(I, 5000u));
    if(!finite && L > 400000) L = 400000;
    if(!finite && I > 400000) I = 400000;
    std::string use = fromHost ? "" : "last = " + prev + "();\n"; char pl[200]; snprintf(pl, sizeof pl, "--- limit %u, checked every %u; chain:%s; about %.1f instructions per tick", L, I, chain.c_str(), per);
    c.describe(text + use + (fromHost ? "--- " + prev + " called by the host\n" : "") + pl);
    Host h; Ticks t; h.extra = &t; h.extraNatives = { { "tick", nTick }, { "call2", nCallTwice } };
    if(!h.create()) c.fail("creating the VM failed");
    nkxSetGarbageCollectionInterval(h.vm, I); uint32_t mi = std::max(1u, std::min(I, 1024u)); (void)mi;
    auto compile = [&](const std::string &s) { if(!nkxCompilerCompileScript(h.cs, s.c_str(), "piece.nks")) c.failStr("did not compile: " + h.errorText()); nkxCompilerPartiallyFinalize(h.cs); };
    auto go = [&]() { uint32_t slice = g.chance(1, 2) ? 0xffffffffu : 1 + g.below(300); while(!h.hasErrors() && !nkxVmProgramHasEnded(h.vm)) nkxVmIterate(h.vm, slice); };
    compile(text); nkxSetRemainingInstructionLimit(h.vm, 0xffffffffu); go();
    if(h.hasErrors()) c.failStr("unexpected error: " + h.errorText());
    int rounds = session ? 2 + g.below(3) : 1;
    for(int r = 0; r < rounds; r++) {
        uint32_t l = L; bool kept = r > 0 && h.hasErrors() && g.chance(1, 3);
        if(h.hasErrors()) nkxCompilerClearReplErrorState(h.cs, nkxCompilerGetInstructionWriteIndex(h.cs));
        if(kept) l = 0; else { if(r) l = L = someLimit(g, need, std::min(I, 5000u)); nkxSetRemainingInstructionLimit(h.vm, l); }
        uint32_t startWrite = nkxCompilerGetInstructionWriteIndex(h.cs);
        t.n = 0; uint64_t window = (uint64_t)l + std::max(1u, std::max(I, 0u)) + (r == 0 ? 1024 : 0);
        if(I && I < 1024 && r == 0) window -= 1024 - I;      // the countdown under way was cut to I
        if(fromHost) { NKValue f = *nkxVmFindGlobalVariable(h.vm, nullptr, prev.c_str()), rv = nilValue(); nkxVmCallFunction(h.vm, &f, 0, nullptr, &rv); }
        else { compile(use); go(); }
        bool stopped = h.hasErrors(); std::string et = stopped ? h.errorText() : "";
        char what[160]; snprintf(what, sizeof what, "round %d%s: %llu ticks, limit %u, interval %u: ", r, kept ? " (limit left as it was)" : "", (unsigned long long)t.n, l, I);
        if(stopped && et.find("nstruction") == std::string::npos) c.failStr(what + ("stopped by something else: " + et));
        double lo = t.n > 0 ? (t.n - 1) * per * (nested ? 0.8 : 1.0) : 0, hi = (t.n + 1) * per * (nested ? 1.6 : 1.0) + 80 + 40 * (depth + 1) + 60 * (loop == 2);
        if(lo > (double)window) c.failStr(what + ("about " + std::to_string((uint64_t)lo) + " instructions were executed"));
        if(!finite && !stopped) c.failStr(what + std::string("the endless loop ended"));
        if(stopped && hi < (double)l) c.failStr(what + ("stopped after about " + std::to_string((uint64_t)hi) + " instructions"));
        if(!stopped) { if(finite && t.n != (uint64_t)iters) c.failStr(what + ("the loop of " + std::to_string(iters) + " did not complete")); c.label("completed"); } else c.label("stopped by the limit");
        if(fromHost && !session) {} else if(stopped && startWrite) nkxCompilerClearReplErrorState(h.cs, startWrite);
        if(r) c.label("stopped again in a session"); if(kept) c.label("went on with an exhausted limit");
        c.evaluations(1);
    }
    h.extra = nullptr; finish(c, h);
    c.label("runaway loops"); if(fromHost) c.label("called by the host"); if(depth) c.label("through other contexts");
    if(depth || nested) c.nontrivial(pbt::hashStr(text));
}

// ---- runaway recursion -----------------------------------------------------------------------------
void recursion(pbt::Case &c) {
    pbt::Gen &g = c.g; int nf = 1 + g.below(3); std::string text = "var z = 0;\n", bodies;
    // Functions calling one another in every way there is. Declared with parameters through which the others arrive.
    std::string params, args; for(int i = 0; i < nf; i++) { params += (i ? ", f" : "f") + std::to_string(i); args += (i ? ", f" : "f") + std::to_string(i); }
    bool host = false, co = false;
    for(int i = 0; i < nf; i++) {
        std::string callee = "f" + std::to_string(nf == 1 ? 0 : (int)((i + 1 + g.below((uint32_t)nf - 1)) % nf)), k;
        switch(g.below(6)) {
            case 0: k = "return " + callee + "(" + args + ");"; break;
            case 1: case 2: k = "return call(" + callee + ", " + args + ");"; host = true; break;
            case 3: k = "var c = coroutine(" + callee + ", " + args + "); return resume(c);"; co = true; break;
            case 4: k = "var c = coroutine(" + callee + ", " + args + "); var r = call(m, c); return r;"; host = co = true; break;
            default: k = "var o = object(); o.m = " + callee + "; o._exec = m2; return call2(" + callee + ", " + args + ");"; host = true; break;
        }
        bodies += "function fun" + std::to_string(i) + "(" + params + ") { tick(); " + k + " }\n";
    }
    std::string real; for(int i = 0; i < nf; i++) real += (i ? ", fun" : "fun") + std::to_string(i);
    text += "function m(c) { return resume(c); }\nfunction m2() { return 1; }\n" + bodies + "fun0(" + real + ");\n";
    uint32_t L = 100 + g.below(g.chance(1, 4) ? 150000 : 12000), I = g.chance(1, 2) ? 1024 : 1 + g.below(2000);
    c.describe(text + "--- limit " + std::to_string(L) + ", checked every " + std::to_string(I));
    Host h; Ticks t; h.extra = &t; h.extraNatives = { { "tick", nTick }, { "call2", nCallTwice } }; prepare(c, h, text);
    nkxSetGarbageCollectionInterval(h.vm, I); nkxSetRemainingInstructionLimit(h.vm, L); nkxSetMaxAllocatedMemory(h.vm, 200u << 20);
    while(!h.hasErrors() && !nkxVmProgramHasEnded(h.vm)) nkxVmIterate(h.vm, 100000);
    if(!h.hasErrors()) c.fail("endless recursion ended");
    if(t.n > ((uint64_t)L + std::max(I, 1024u)) / 4 + 2) c.fail("%llu levels with a limit of %u", (unsigned long long)t.n, L);
    if(t.n < 2 && L > 400) c.fail("stopped at once");
    h.extra = nullptr; finish(c, h);
    c.label("runaway recursion"); if(host && co) c.label("recursion through host calls and coroutines");
    c.nontrivial(pbt::hashStr(text));
}
}

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C08";
    P.rule = "Either a random program (functions, coroutines, callbacks, errors) counted with a check before every instruction (against single steps where no callback hides instructions), then run with 3 random limits, intervals (0 to beyond its length) and slicings, limits and intervals also changed from inside natives and between steps: it may not be running when more than limit + interval have been executed, not be stopped when fewer than the limit have, the remaining count read at every native and slice may only go down and by no more than was executed, and whatever it did before being stopped is the beginning of what it does without a limit. Or an endless or finite loop reached through up to 4 direct, method, callable, coroutine, yielding and host calls, by the program or by the host, in one go or again and again in a session after clearing the error, with the cost of one iteration measured by single steps of a version without host calls. Or endless recursion through a mixture of calls, coroutines and host calls. Non-trivial: a program of at least 30 instructions; a loop in another context; every recursion. Distinct by text.";
    P.assumptions = {"the number of instructions inside host calls is taken from the library's own count in the first kind of case, from the direct form of the same loop (within 20 percent below and 60 above) in the second", "limits are not part of images"};
    P.quickCases = 30000; P.thoroughCases = 1000000; P.quickWall = 28; P.thoroughWall = 800;
    P.run = [](pbt::Case &c) {
        switch(c.g.weighted({5, 4, 1})) { case 0: anyProgram(c); break; case 1: runaway(c); break; default: recursion(c); }
    };
    return pbt::main(P, argc, argv);
}
