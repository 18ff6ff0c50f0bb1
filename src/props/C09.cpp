// C09: stack and field limits are enforced and cleanly so.
#include "drive.h"
#include <algorithm>
#include <cmath>
#include <cstring>
using namespace lang;

namespace {
// ---- field limit: programs, against the reference interpreter with the same limit ---------------
void fieldPrograms(pbt::Case &c) {
    GenOpts o; o.stmts = 3 + c.size / 4; o.coroutines = c.g.chance(1, 4); o.nativeErrors = c.g.chance(1, 6); o.wildAllowed = c.g.chance(1, 6);
    GenProgram gp; generate(gp.p, c.g, o); gp.names = gp.p.userGlobals();
    std::vector<std::string> parts = printPieces(gp.p); gp.text = print(gp.p);
    bool pieces = c.g.chance(1, 2); std::vector<size_t> limits; std::string d;
    size_t cur = c.g.chance(1, 3) ? SIZE_MAX : c.g.below(5);
    for(size_t i = 0; i < parts.size(); i++) { if(i && pieces && c.g.chance(1, 5)) cur = c.g.chance(1, 4) ? SIZE_MAX : c.g.below(7); limits.push_back(cur); d += " " + (cur == SIZE_MAX ? std::string("-") : std::to_string(cur)); }
    c.describe(gp.text + "\n--- fields allowed, by statement:" + d);
    gp.m.fuel = 20000; gp.m.begin(gp.p);
    for(size_t i = 0; i < parts.size() && !gp.m.error; i++) { gp.m.maxFields = limits[i]; gp.m.runTop(i, i + 1); if(gp.m.discarded) c.discard(gp.m.why); }
    Host h; if(!h.create()) c.fail("creating the VM failed");
    auto set = [&](size_t l) { uint32_t v = l == SIZE_MAX ? 0xffffffffu : (uint32_t)l; nkxSetMaxFieldsPerObject(h.vm, v); if(nkxGetMaxFieldsPerObject(h.vm) != v) c.fail("the limit read back is not the one set"); };
    nkxSetGarbageCollectionInterval(h.vm, 1 + c.g.below(100)); nkxSetGarbageCollectionNewObjectInterval(h.vm, 1 + c.g.below(30));
    if(!pieces) { if(!h.compile(gp.text)) c.failStr("did not compile: " + h.errorText()); h.finalize(); set(limits[0]); if(!h.run(RUN_CAP)) c.discard("many instructions"); }
    else for(size_t i = 0; i < parts.size() && !h.hasErrors(); i++) { set(limits[i]); if(!nkxCompilerCompileScript(h.cs, parts[i].c_str(), "piece.nks")) c.failStr("a piece did not compile: " + h.errorText()); nkxCompilerPartiallyFinalize(h.cs); nkxVmIterate(h.vm, 0xffffffffu); }
    std::vector<std::string> names; for(auto &n : gp.names) if(nkxVmFindGlobalVariable(h.vm, nullptr, n.c_str())) names.push_back(n);
    if(h.hasErrors()) c.appendDescription("\n--- reported: " + h.errorText());
    compareText(c, "host calls", gp.m.log, h.log);
    if(h.hasErrors() != gp.m.error) c.failStr(gp.m.error ? "missing error: " + gp.m.errorText : "unexpected error: " + h.errorText());
    compareText(c, "globals", gp.m.globalsNow(names), dumpGlobals(h.vm, names));
    bool hit = gp.m.features.count("field limit");
    if(hit && h.errorText().find("field") == std::string::npos) c.failStr("another error than that of the field limit: " + h.errorText());
    if(h.hasErrors()) { std::string g1 = dumpGlobals(h.vm, names), l = h.log; nkxVmGarbageCollect(h.vm); nkxVmIterate(h.vm, 100); if(l != h.log) c.fail("something ran after the error"); compareText(c, "globals after a collection", g1, dumpGlobals(h.vm, names)); }
    // The image keeps what is within the limit of whoever loads it.
    if(!h.hasErrors() && c.g.chance(1, 3)) {
        Image img; if(!saveImage(h.vm, img)) c.fail("saving failed");
        size_t biggest = 0; NKValue v = nilValue();
        for(auto &n : names) { NKValue *x = nkxVmFindGlobalVariable(h.vm, nullptr, n.c_str()); v = *x; if(v.type == NK_VALUETYPE_OBJECTID) { NKVMExternalDataTypeID t = nkxVmObjectGetExternalType(h.vm, &v); (void)t; uint32_t s = nkxVmObjectGetSize(h.vm, &v); biggest = std::max<size_t>(biggest, s); } }
        uint32_t F = c.g.chance(1, 2) ? c.g.below((uint32_t)biggest + 3) : (uint32_t)biggest + 1 + c.g.below(8); Host n; n.setup = [&](Host &hh, NKCompilerState *) { nkxSetMaxFieldsPerObject(hh.vm, F); };
        if(!n.createVmOnly() || !n.start()) c.fail("creating a VM to load into failed");
        bool ok = loadImage(n.vm, img);
        if(ok && biggest > F) c.fail("an image with an object of %zu fields was loaded with a limit of %u", biggest, F);
        if(!ok && !n.hasErrors()) c.fail("loading failed without an error");
        if(ok) { n.slots = h.slots; compareText(c, "globals in the loaded VM", dumpGlobals(h.vm, names), dumpGlobals(n.vm, names)); c.label("image loaded under a field limit"); } else { c.label("image refused for the field limit"); if(n.errorText().find("field count") == std::string::npos) c.failStr("the image was refused for another reason: " + n.errorText()); }
        n.boxesMade = n.boxesCleaned = 0; n.libInits = n.libCleanups = 0; n.destroy(); if(n.alloc->live) c.fail("loading under a field limit leaked");
    }
    gp.m.globals.clear(); finish(c, h);
    c.label("programs under a field limit"); if(hit) { c.label("field limit reached in a program"); c.nontrivial(pbt::hashStr(gp.text + d)); }
}

// ---- field limit: the host's own operations -------------------------------------------------------
void fieldHistory(pbt::Case &c) {
    Host h; if(!h.create()) c.fail("creating the VM failed");
    if(!nkxCompilerCompileScript(h.cs, "var r = 0;\nfunction put(o, k, v) { o[k] = v; out(\"done\"); return 1; }\nfunction get(o, k) { return o[k]; }\n", "x.nks")) c.fail("did not compile");
    nkxCompilerPartiallyFinalize(h.cs); nkxVmIterate(h.vm, 0xffffffffu);
    uint32_t clear = nkxCompilerGetInstructionWriteIndex(h.cs);
    struct M { NKValue v; std::map<std::string, int> f; }; std::vector<M> obs; uint32_t F = 0xffffffffu; std::string d; uint64_t hits = 0;
    auto fn = [&](const char *n) { return *nkxVmFindGlobalVariable(h.vm, nullptr, n); };
    auto mk = [&](uint32_t k) { return k % 3 == 0 ? intValue(h.vm, (int)k) : k % 3 == 1 ? strValue(h.vm, ("k" + std::to_string(k)).c_str()) : floatValue(h.vm, (float)k + 0.5f); };
    auto check = [&](M &m) { if(nkxVmObjectGetSize(h.vm, &m.v) != m.f.size()) c.fail("an object has %u fields, expected %zu", nkxVmObjectGetSize(h.vm, &m.v), m.f.size()); };
    uint32_t keys = 3 + c.g.below(60); int ops = 5 + c.size * 2;
    for(int i = 0; i < ops; i++) {
        switch(obs.empty() ? 0 : c.g.below(10)) {
            case 0: if(obs.size() < 5) { M m; m.v = nilValue(); nkxCreateObject(h.vm, &m.v); nkxVmObjectAcquireHandle(h.vm, &m.v); obs.push_back(m); d += "\nnew"; } break;
            case 1: F = c.g.chance(1, 5) ? 0xffffffffu : c.g.below(keys + 2); nkxSetMaxFieldsPerObject(h.vm, F); d += "\nlimit " + std::to_string(F); break;
            case 2: { M &m = obs[c.g.below((uint32_t)obs.size())]; uint32_t k = c.g.below(keys); NKValue kv = mk(k); nkxVmObjectClearEntry(h.vm, &m.v, &kv); m.f.erase(std::to_string(k)); d += "\nclear " + std::to_string(k); check(m); break; }
            case 3: nkxVmGarbageCollect(h.vm); break;
            case 4: { M &m = obs[c.g.below((uint32_t)obs.size())]; uint32_t k = c.g.below(keys); NKValue kv = mk(k), *p = nkxVmObjectFindOrAddEntry(h.vm, &m.v, &kv, nktrue); if((p != nullptr) != (m.f.count(std::to_string(k)) != 0)) c.fail("looking up %u without adding: %s", k, p ? "found" : "not found"); if(p && p->intData != m.f[std::to_string(k)]) c.fail("field %u changed", k); check(m); break; }
            case 5: case 6: { // by a script function
                M &m = obs[c.g.below((uint32_t)obs.size())]; uint32_t k = c.g.below(keys); NKValue a[3] = { m.v, mk(k), intValue(h.vm, i) }, f = fn("put"), r = nilValue(); std::string ks = std::to_string(k); bool bad = !m.f.count(ks) && m.f.size() >= F; d += "\nput " + ks + (bad ? " (over)" : "");
                std::string lb = h.log; nkxVmCallFunction(h.vm, &f, 3, a, &r);
                if(h.hasErrors() != bad) { c.describe(d); c.failStr(bad ? "no error" : "unexpected error: " + h.errorText()); }
                if(bad && h.log != lb) c.fail("the function went on after the limit was reached");
                if(bad) { hits++; nkxCompilerClearReplErrorState(h.cs, clear); } else m.f[ks] = i;
                check(m); break; }
            default: { // by the host
                M &m = obs[c.g.below((uint32_t)obs.size())]; uint32_t k = c.g.below(keys); std::string ks = std::to_string(k); bool bad = !m.f.count(ks) && m.f.size() >= F; d += "\nadd " + ks + (bad ? " (over)" : "");
                NKValue kv = mk(k), *p = nkxVmObjectFindOrAddEntry(h.vm, &m.v, &kv, nkfalse);
                if(bad != (p == nullptr) || h.hasErrors() != bad) { c.describe(d); c.fail("adding a field with %zu of %u: %s, %s", m.f.size(), F, p ? "added" : "not added", h.hasErrors() ? "error" : "no error"); }
                if(bad) { hits++; nkxCompilerClearReplErrorState(h.cs, clear); if(h.hasErrors()) c.fail("the error was not cleared"); } else { nkxValueSetInt(h.vm, p, i); m.f[ks] = i; }
                check(m); break; }
        }
    }
    c.describe(d);
    for(auto &m : obs) for(uint32_t k = 0; k < keys; k++) { NKValue kv = mk(k), *p = nkxVmObjectFindOrAddEntry(h.vm, &m.v, &kv, nktrue); auto it = m.f.find(std::to_string(k)); if((p != nullptr) != (it != m.f.end())) c.fail("in the end field %u is %s", k, p ? "there" : "missing"); if(p && p->intData != it->second) c.fail("in the end field %u has another value", k); }
    finish(c, h);
    c.label("host histories under a field limit"); c.label("field limit reached by the host", hits);
    if(hits) c.nontrivial(pbt::hashStr(d));
}

// ---- stack limit: any program ---------------------------------------------------------------------------
void stackPrograms(pbt::Case &c) {
    GenOpts o; o.stmts = 2 + c.size / 5; o.coroutines = c.g.chance(1, 2); o.nativeErrors = c.g.chance(1, 6); o.wildAllowed = c.g.chance(1, 6);
    GenProgram gp; makeProgram(c, gp, o); Outcome ref;
    // Reference, in single steps: where in the log each step is, and whether steps hide host calls.
    std::vector<uint32_t> logAt; bool nested = false; uint32_t gi = 1 + c.g.below(200);
    { Host h; prepare(c, h, gp.text); h.onNative = [&](Host &, const char *n) { if(!strcmp(n, "call")) nested = true; }; while(!h.hasErrors() && !nkxVmProgramHasEnded(h.vm)) { logAt.push_back((uint32_t)h.log.size()); nkxVmIterate(h.vm, 1); if(logAt.size() > 60000) c.discard("many instructions"); } logAt.push_back((uint32_t)h.log.size()); ref = outcomeOf(h, gp.names); h.onNative = nullptr; finish(c, h); }
    // The same under several limits; what passes under one passes under every larger one.
    uint32_t smallestPass = 0xffffffffu, largestFail = 0; std::map<uint32_t, std::string> logs; std::string d;
    for(int r = 0; r < 5; r++) {
        uint32_t L = c.g.chance(1, 2) ? 1u << c.g.below(9) : c.g.below(c.g.chance(1, 4) ? 400 : 70), slice = c.g.chance(1, 2) ? 1 : 0xffffffffu;
        d += " " + std::to_string(L); c.describe(gp.text + "\n--- stack limits:" + d);
        Host h; prepare(c, h, gp.text); nkxSetMaxStackSize(h.vm, L); if(nkxGetMaxStackSize(h.vm) != L) c.fail("the limit read back is not the one set");
        nkxSetGarbageCollectionInterval(h.vm, gi); uint64_t n = 0;
        while(!h.hasErrors() && !nkxVmProgramHasEnded(h.vm)) { nkxVmIterate(h.vm, slice); n++; if(n > 100000) c.fail("runs for ever"); }
        Outcome out = outcomeOf(h, gp.names);
        bool stopped = out.error && (!ref.error || out.log != ref.log || out.errors != ref.errors);
        if(stopped) {
            if(out.errors.find("tack") == std::string::npos) c.failStr("stopped by something other than the limit: " + out.errors);
            if(ref.log.compare(0, out.log.size(), out.log)) c.fail("under the limit the program did something else");
            if(slice == 1 && !nested) { // nothing but the failing instruction is missing
                Host q; prepare(c, q, gp.text); nkxSetGarbageCollectionInterval(q.vm, gi); for(uint64_t i = 1; i < n; i++) nkxVmIterate(q.vm, 1);
                compareText(c, "host calls up to the failing instruction", q.log, out.log);
                compareText(c, "globals at the failing instruction", dumpGlobals(q.vm, gp.names), out.globals); finish(c, q);
            }
            std::string log = h.log; nkxVmIterate(h.vm, 1000); nkxVmGarbageCollect(h.vm); if(h.log != log) c.fail("the program went on after the stack limit was reached");
            compareText(c, "globals after the error and a collection", out.globals, dumpGlobals(h.vm, gp.names));
            largestFail = std::max(largestFail, L); logs[L] = out.log; c.label("stopped by the stack limit");
        } else { compareOutcome(c, "under a sufficient stack limit", ref, out); smallestPass = std::min(smallestPass, L); c.label("passed under a stack limit"); }
        if(largestFail && largestFail >= smallestPass) c.fail("the program fails with a stack of %u, but not of %u", largestFail, smallestPass);
        finish(c, h); c.evaluations(1);
    }
    for(auto a = logs.begin(); a != logs.end(); ++a) { auto b = std::next(a); if(b != logs.end() && b->second.size() < a->second.size()) c.fail("with a stack of %u the program gets less far than with %u", b->first, a->first); }
    c.label("programs under stack limits"); if(largestFail) c.nontrivial(pbt::hashStr(gp.text));
}

// ---- stack limit: recursion whose need is known ------------------------------------------------------------
struct Depth { int64_t n = 0, lowerAt = -1, raiseAt = -1; uint32_t to = 0; };
void nTick(NKVMFunctionCallbackData *d) { Depth *t = (Depth *)hostOf(d->vm)->extra; t->n++; if(t->n == t->lowerAt) nkxSetMaxStackSize(d->vm, t->to); }
void stackRecursion(pbt::Case &c) {
    pbt::Gen &g = c.g; int args = g.below(5), locals = g.below(6), pend = g.below(4); uint32_t every = g.chance(1, 3) ? 1 + g.below(30) : 0; bool viaHost = every == 0 && g.chance(1, 3);
    int64_t depth = g.chance(1, 10) ? 3000 + g.below(4000) : 1 + g.below(g.chance(1, 3) ? 400 : 40); bool endless = !viaHost && g.chance(1, 5); if(viaHost) depth = std::min<int64_t>(depth, 300);
    if(every) depth = std::min<int64_t>(depth, 300);
    if(endless && every) endless = false;
    std::string ps, as, ls, us = "0"; for(int i = 0; i < args; i++) { ps += ", a" + std::to_string(i); as += ", n + " + std::to_string(i); us += " + a" + std::to_string(i); }
    for(int i = 0; i < locals; i++) { ls += "  var v" + std::to_string(i) + " = n * " + std::to_string(i + 2) + ";\n"; us += " + v" + std::to_string(i); }
    std::string down = endless ? "n + 1" : "n - 1", call = viaHost ? "call(f, " + down + as + ")" : "f(" + down + as + ")", pre, post; for(int i = 0; i < pend; i++) { pre += "1 + ("; post += ")"; }
    std::string text = "var last = 0;\nfunction f(n" + ps + ") {\n  tick();\n" + ls + "  if(n < 1) { return " + us + "; }\n  var r = 0;\n";
    if(every) text += "  if(n % " + std::to_string(every) + " == 0) { var co = coroutine(f, " + down + as + "); r = " + pre + "resume(co)" + post + "; } else { r = " + pre + call + post + "; }\n";
    else text += "  r = " + pre + call + post + ";\n";
    text += "  return r + (" + us + ");\n}\n";
    std::string use = "last = f(" + std::to_string(endless ? 1 : depth) + std::string([&] { std::string s; for(int i = 0; i < args; i++) s += ", " + std::to_string(i); return s; }()) + ");\nout(last);\n";
    // Values one level surely holds while the next one runs, and surely does not exceed.
    uint64_t low = 2 + args + locals + 1 + pend - (locals ? 0 : 0), high = low + args + 14 + (every ? 6 : 0) + (viaHost ? 12 + args : 0);
    uint64_t levels = every ? std::min<uint64_t>(every + 1, depth + 1) : (uint64_t)depth + 1; // deepest run within one context
    uint64_t needLow = every ? 0 : levels * low, needHigh = levels * high + 40;
    bool unlimited = g.chance(1, 6); uint32_t L;
    switch(g.below(5)) { case 0: L = g.below(64); break; case 1: L = 1u << g.below(17); break; case 2: L = (uint32_t)(needHigh * 2); break; case 3: L = (uint32_t)std::max<uint64_t>(1, needLow) - g.below(2); break; default: L = g.below((uint32_t)needHigh * 3); }
    if(unlimited) L = 0xffffffffu;
    bool fromHost = g.chance(1, 4), inCo = !every && !viaHost && !fromHost && g.chance(1, 3); Depth t; if(g.chance(1, 5)) { t.lowerAt = 1 + g.below((uint32_t)depth + 1); t.to = g.below(200); }
    char pl[240]; snprintf(pl, sizeof pl, "--- stack limit %u%s; one level holds between %llu and %llu values%s", L, t.lowerAt > 0 ? ", changed while running" : "", (unsigned long long)low, (unsigned long long)high, fromHost ? "; called by the host" : inCo ? "; in a coroutine" : "");
    c.describe(text + use + pl);
    Host h; h.extra = &t; h.extraNatives = { { "tick", nTick } }; if(!h.create()) c.fail("creating the VM failed");
    auto compile = [&](const std::string &s) { if(!nkxCompilerCompileScript(h.cs, s.c_str(), "piece.nks")) c.failStr("did not compile: " + h.errorText()); nkxCompilerPartiallyFinalize(h.cs); };
    auto go = [&]() { uint32_t slice = g.chance(1, 2) ? 0xffffffffu : 1 + g.below(300); while(!h.hasErrors() && !nkxVmProgramHasEnded(h.vm)) nkxVmIterate(h.vm, slice); };
    compile(text); go(); if(h.hasErrors()) c.failStr("unexpected error: " + h.errorText());
    // What it should give, for a finite recursion: computed here.
    auto value = [&](int64_t top) { // args at the top level are 0,1,2...; below n+1 + i of the caller's n
        uint32_t r = 0; for(int64_t n = top; n >= 0; n--) { uint32_t us2 = 0; for(int i = 0; i < args; i++) us2 += (uint32_t)(n == top ? i : n + 1 + i); for(int i = 0; i < locals; i++) us2 += (uint32_t)n * (uint32_t)(i + 2); r += us2; if(n > 0) r += pend; }
        return (int32_t)r;
    };
    uint32_t reset = nkxCompilerGetInstructionWriteIndex(h.cs); nkxSetMaxStackSize(h.vm, L); std::string log0 = h.log; NKValue rv = nilValue();
    auto start = [&](int64_t n) { if(fromHost) { std::vector<NKValue> a{ intValue(h.vm, (int)n) }; for(int i = 0; i < args; i++) a.push_back(intValue(h.vm, i)); NKValue f = *nkxVmFindGlobalVariable(h.vm, nullptr, "f"); nkxVmCallFunction(h.vm, &f, (uint32_t)a.size(), a.data(), &rv); if(!h.hasErrors()) h.line("out " + showValue(h.vm, &rv)); } else { compile(std::string(inCo ? "last = resume(coroutine(f, " : "last = f(") + std::to_string(n) + [&] { std::string s; for(int i = 0; i < args; i++) s += ", " + std::to_string(i); return s; }() + (inCo ? "));" : ");") + "\nout(last);\n"); go(); } };
    start(endless ? 1 : depth);
    bool stopped = h.hasErrors(); std::string et = stopped ? h.errorText() : "";
    uint64_t allowed = std::min<uint64_t>(L, 65536); char what[120]; snprintf(what, sizeof what, "stack limit %u, %lld levels entered: ", L, (long long)t.n);
    if(stopped && et.find("tack") == std::string::npos) c.failStr(what + ("stopped by something else: " + et));
    if(!every && t.lowerAt < 0 && t.n > 1 && (uint64_t)(t.n - 1) * low > allowed) c.failStr(what + ("at least " + std::to_string((t.n - 1) * low) + " values were on the stack"));
    if(t.lowerAt < 0 && stopped && needHigh * 2 <= allowed && !endless) c.failStr(what + ("stopped although " + std::to_string(needHigh) + " values are enough: " + et));
    if(endless && !stopped) c.failStr(what + std::string("endless recursion ended"));
    if(endless && unlimited && t.lowerAt < 0 && (uint64_t)(t.n + 1) * high < 32768) c.failStr(what + std::string("stopped far below what fits by default"));
    if(stopped && h.log != log0) c.failStr(what + ("went on after the error: " + h.log));
    if(!stopped) { compareText(c, "result", log0 + "out int:" + std::to_string(value(depth)) + "\n", h.log); if(t.n != depth + 1) c.failStr(what + std::string("not all levels ran")); }
    nkxVmGarbageCollect(h.vm); dumpGlobals(h.vm, { "last", "f" });
    // The session can go on.
    if(stopped) {
        nkxCompilerClearReplErrorState(h.cs, reset); if(h.hasErrors()) c.fail("the error was not cleared");
        nkxSetMaxStackSize(h.vm, 0xffffffffu); t = Depth(); int64_t n = g.below(20); log0 = h.log; if(endless) { compile("last = 7; out(last);\n"); go(); } else start(n);
        if(h.hasErrors()) c.failStr("after clearing the error: " + h.errorText());
        compareText(c, "result after clearing the error", log0 + "out int:" + std::to_string(endless ? 7 : value(n)) + "\n", h.log); c.label("went on after the error was cleared");
    }
    h.extra = nullptr; finish(c, h);
    c.label("recursion under a stack limit"); if(stopped) c.label("recursion stopped"); else c.label("recursion completed"); if(every) c.label("recursion through coroutines"); if(viaHost) c.label("recursion through host calls"); if(fromHost) c.label("called by the host"); if(inCo) c.label("recursion inside a coroutine");
    if(depth > 3) c.nontrivial(pbt::hashStr(text + use + pl));
}

// ---- many arguments --------------------------------------------------------------------------------------------
void manyArguments(pbt::Case &c) {
    pbt::Gen &g = c.g; Host h; if(!h.create()) c.fail("creating the VM failed");
    uint32_t n = g.chance(1, 8) ? 30000 + g.below(50000) : g.below(g.chance(1, 2) ? 40 : 2000), L = g.chance(1, 6) ? 0xffffffffu : g.chance(1, 2) ? 1u << g.below(17) : g.below(n * 4 + 20); bool busy = g.chance(1, 2);
    c.describe("a host call of a native with " + std::to_string(n) + " arguments under a stack limit of " + std::to_string(L) + (busy ? ", in the middle of a program" : ""));
    if(!h.compile("function f(a, b) { var x = 1; if(a) { return a + f(a - 1, b); } return x; }\nvar r = 0;\nr = f(10, 1);\nout(r);\n")) c.fail("did not compile");
    h.finalize(); uint32_t steps = busy ? g.below(80) : 0; if(busy) nkxVmIterate(h.vm, 8 + steps);
    std::vector<NKValue> a; for(uint32_t i = 0; i < n; i++) a.push_back(i % 3 ? intValue(h.vm, (int)i) : strValue(h.vm, "s"));
    NKValue f = *nkxVmFindGlobalVariable(h.vm, nullptr, "out"), r = nilValue(); if(f.type != NK_VALUETYPE_FUNCTIONID) c.discard("not set yet");
    std::string expect = "out"; for(auto &v : a) expect += " " + showValue(h.vm, &v);
    std::string before = h.log; h.maxLog = 1u << 24; nkxSetMaxStackSize(h.vm, L); nkxVmCallFunction(h.vm, &f, n, a.data(), &r);
    uint64_t allowed = std::min<uint64_t>(L, 65536);
    if(h.hasErrors()) { if(h.log != before) c.fail("the native ran although the call failed"); if((uint64_t)n * 2 + 300 <= allowed) c.failStr("a call with few arguments failed: " + h.errorText()); if(h.errorText().find("tack") == std::string::npos) c.failStr("another error: " + h.errorText()); if(nkxGetErrorCount(h.vm) > 3) c.fail("%u errors for one failed call", nkxGetErrorCount(h.vm)); c.label("call refused"); }
    else { if(n > std::max<uint64_t>(allowed, 128 /* room the stack already had */)) c.fail("%u arguments were passed with room for %llu values", n, (unsigned long long)allowed); compareText(c, "arguments", before + expect + "\n", h.log); c.label("call made"); nkxSetMaxStackSize(h.vm, 0xffffffffu); before = h.log; if(!h.run(10000) || h.hasErrors()) c.failStr("the program did not go on: " + (h.hasErrors() ? h.errorText() : "")); if(h.log.compare(0, before.size(), before) || (before.find("out int:56") == std::string::npos && h.log.find("out int:56") == std::string::npos)) c.failStr("the program went on differently: " + h.log.substr(std::min(before.size(), h.log.size()))); }
    finish(c, h); c.label("many arguments"); c.nontrivial(n * 7919ull + L);
}
}

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C09";
    P.rule = "One of: a random program, whole or in pieces, with field limits of 0 to 6 changed between pieces, against the reference interpreter with the same limits (host calls, error or not, all globals), then collected, and its image loaded under another field limit; a history of host and script writes to up to 5 objects under changing limits, against a map; a random program under 5 stack limits, single-stepped or not: either just as without limit, or stopped by a stack error after a prefix, with the globals of the unlimited run one instruction earlier, and what passes under one limit passes under every larger one; a recursion of known depth, arguments, locals and pending operands (direct, inside one coroutine, through host calls, every k-th level in a coroutine, finite and endless, limits changed in mid-run): never more levels than fit, completed with the computed result if twice the need is allowed, and the session goes on after clearing the error; host calls with up to 80000 arguments. Non-trivial: a limit was reached (programs, histories), recursion deeper than 3, every many-argument case; distinct by text and limits.";
    P.assumptions = {"the stack limit bounds the capacity, which is a power of two: a program may be stopped when it needs more than half of the limit", "a default cap of 65536 values per context"};
    P.quickCases = 30000; P.thoroughCases = 1000000; P.quickWall = 28; P.thoroughWall = 800;
    P.run = [](pbt::Case &c) {
        switch(c.g.weighted({4, 2, 4, 3, 1})) { case 0: fieldPrograms(c); break; case 1: fieldHistory(c); break; case 2: stackPrograms(c); break; case 3: stackRecursion(c); break; default: manyArguments(c); }
    };
    return pbt::main(P, argc, argv);
}
