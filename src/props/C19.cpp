// C19: a host call of a script function behaves like a call in the script.
#include "drive.h"
#include <cstring>
using namespace lang;

namespace {
// ---- calls in a program turned into host calls ----------------------------------------
void eachExpr(Program &p, const std::function<void(Expr *)> &f) { for(size_t i = 0, n = p.exprs.size(); i < n; i++) f(p.exprs[i].get()); }
void throughHost(pbt::Case &c) {
    GenOpts o; o.stmts = 2 + c.size / 5; o.coroutines = c.g.chance(1, 2); o.nativeErrors = c.g.chance(1, 3); o.hostCalls = c.g.chance(1, 2); o.wildAllowed = c.g.chance(1, 3);
    GenProgram gp; makeProgram(c, gp, o);
    Outcome ref = referenceRun(c, gp);
    Model first = gp.m; std::string direct = gp.text;
    uint32_t den = o.coroutines ? 1 + c.g.below(6) : 1 + c.g.below(3); uint64_t turned = 0; bool hasSelf = false;
    eachExpr(gp.p, [&](Expr *e) {
        if(e->k == EK::Call && c.g.chance(1, den)) {
            e->kids.insert(e->kids.begin(), gp.p.eNative(N_CALL)); turned++;
            if(c.g.chance(1, 8)) { e->kids.insert(e->kids.begin(), gp.p.eNative(N_CALL)); turned++; }    // the host calls the native that makes a host call
        } else if(e->k == EK::Self && e->kids[0]->k == EK::Var && c.g.chance(1, den)) { // ob->f(x): call(ob.f, ob, x)
            Expr *fld = gp.p.eField(e->kids[0], e->s); e->k = EK::Call; e->kids.insert(e->kids.begin(), fld); e->kids.insert(e->kids.begin(), gp.p.eNative(N_CALL)); hasSelf = true; turned++;
        }
    });
    GenProgram tp; tp.text = print(gp.p); tp.m.fuel = 30000; c.describe(tp.text);
    tp.m.run(gp.p);
    if(tp.m.discarded) c.discard(tp.m.why);
    Host h; h.onNative = nullptr; prepare(c, h, tp.text);
    uint32_t gi = 1 + c.g.below(200); nkxSetGarbageCollectionInterval(h.vm, gi); nkxSetGarbageCollectionNewObjectInterval(h.vm, 1 + c.g.below(30));
    bool sliced = c.g.chance(1, 2); uint64_t n = 0;
    if(sliced) { uint32_t k = 1 + c.g.below(40); while(!h.hasErrors() && !nkxVmProgramHasEnded(h.vm)) { nkxVmIterate(h.vm, k); n += k; if(n > RUN_CAP) c.discard("many instructions"); } }
    else if(!h.run(RUN_CAP)) c.discard("many instructions");
    compareWithModel(c, h, tp.m, gp.p);
    // The program with direct calls did the same, unless a yield had to cross a host call, or a function object was called.
    bool same = tp.m.error == first.error && tp.m.log == first.log;
    if(same) { compareText(c, "host calls, against direct calls", ref.log, h.log); if(!ref.error) compareText(c, "globals, against direct calls", ref.globals, dumpGlobals(h.vm, gp.names)); if(ref.error != h.hasErrors()) c.fail("error state differs from the program with direct calls"); }
    if(h.hasErrors()) { std::string before = h.log, g1 = dumpGlobals(h.vm, gp.names); nkxVmIterate(h.vm, 5000); nkxVmGarbageCollect(h.vm); if(h.log != before) c.fail("something ran after the error"); compareText(c, "globals some time after the error", g1, dumpGlobals(h.vm, gp.names)); }
    c.label("programs with calls through the host"); c.label("calls turned", turned); if(hasSelf) c.label("self-calls turned"); if(same) c.label("compared with direct calls"); if(tp.m.error) c.label("ends with an error");
    uint64_t oc = h.outCount; finish(c, h);
    if(turned >= 2 && oc >= 2) c.nontrivial(pbt::hashStr(tp.text));
}

// ---- host calls between pieces of a program --------------------------------------------
void betweenPieces(pbt::Case &c) {
    GenOpts o; o.stmts = 3 + c.size / 6; o.coroutines = c.g.chance(1, 2); o.nativeErrors = c.g.chance(1, 4); o.wildAllowed = false;
    GenProgram gp; generate(gp.p, c.g, o);
    // After some statements: a call of a global function declared so far.
    struct Arg { Expr *e; }; struct HostCall { std::string fn; std::vector<Expr *> args; };
    std::vector<Stmt *> top; std::vector<int> callAt; std::vector<HostCall> calls; std::vector<Stmt *> fns;
    auto scalar = [&]() -> Expr * { switch(c.g.below(5)) { case 0: return gp.p.eFloat((float)c.g.range(-20, 20) * 0.5f); case 1: return gp.p.eStr(randomString(c.g, 5)); case 2: return gp.p.eNil(); default: return gp.p.eInt((int)c.g.range(0, 20)); } };
    for(auto s : gp.p.top) {
        top.push_back(s); callAt.push_back(-1);
        if(s->k == SK::Func && s->fn->native == N_NONE) fns.push_back(s);
        while(fns.size() && c.g.chance(1, 3)) {
            Stmt *f = fns[c.g.below((uint32_t)fns.size())]; HostCall hc; hc.fn = f->name; size_t n = f->fn->params.size(); if(c.g.chance(1, 25)) n += 1;
            for(size_t i = 0; i < n; i++) hc.args.push_back(c.g.chance(1, 20) ? scalar() : gp.p.eInt((int)c.g.range(0, 9)));
            std::vector<Expr *> a = hc.args; Expr *callee = gp.p.eGlobal(f->slot);
            top.push_back(gp.p.sExpr(gp.p.eCall(gp.p.eNative(N_DUMP), { gp.p.eCall(callee, a) }))); callAt.push_back((int)calls.size()); calls.push_back(hc);
        }
    }
    if(calls.empty()) c.discard("no function to call");
    gp.p.top = top; gp.text = print(gp.p); gp.names = gp.p.userGlobals(); c.describe(gp.text); gp.m.fuel = 20000; gp.m.run(gp.p);
    if(gp.m.discarded) c.discard(gp.m.why);
    std::vector<std::string> parts = printPieces(gp.p);
    std::string d = "\n--- by the host:"; for(size_t i = 0; i < parts.size(); i++) if(callAt[i] >= 0) d += " " + parts[i].substr(0, parts[i].find('\n')) + ";"; c.appendDescription(d);
    Host h; if(!h.create()) c.fail("creating the VM failed");
    nkxSetGarbageCollectionInterval(h.vm, 1 + c.g.below(100)); nkxSetGarbageCollectionNewObjectInterval(h.vm, 1 + c.g.below(30));
    uint64_t made = 0; bool peek = c.g.chance(1, 2);
    for(size_t i = 0; i < parts.size() && !h.hasErrors(); i++) {
        if(callAt[i] < 0) {
            std::string text = parts[i]; while(i + 1 < parts.size() && callAt[i + 1] < 0 && c.g.chance(2, 3)) text += parts[++i];
            if(!nkxCompilerCompileScript(h.cs, text.c_str(), "piece.nks")) c.failStr("a piece did not compile: " + h.errorText());
            nkxCompilerPartiallyFinalize(h.cs); nkxVmIterate(h.vm, 0xffffffffu);
        } else {
            HostCall &hc = calls[callAt[i]]; std::vector<NKValue> a; NKValue *f = nkxVmFindGlobalVariable(h.vm, c.g.chance(1, 2) ? h.cs : nullptr, hc.fn.c_str());
            if(!f) c.failStr("function " + hc.fn + " not found");
            for(auto e : hc.args) switch(e->k) { case EK::Int: a.push_back(intValue(h.vm, e->i)); break; case EK::Float: a.push_back(floatValue(h.vm, e->f)); break; case EK::Str: a.push_back(strValue(h.vm, e->s.c_str())); break; default: a.push_back(nilValue()); }
            NKValue fv = *f, r = nilValue(); made++;
            nkxVmCallFunction(h.vm, &fv, (uint32_t)a.size(), a.empty() ? nullptr : a.data(), &r);
            if(!h.hasErrors()) { NKValue dv = *nkxVmFindGlobalVariable(h.vm, nullptr, "dump"), ig = nilValue(); nkxVmCallFunction(h.vm, &dv, 1, &r, c.g.chance(1, 2) ? &ig : nullptr); }
            if(!h.hasErrors() && !nkxVmProgramHasEnded(h.vm)) c.fail("after a host call between runs the program is not at its end any more");
        }
        if(peek && !h.hasErrors()) { std::vector<std::string> some; for(auto &x : gp.names) if(nkxVmFindGlobalVariable(h.vm, nullptr, x.c_str())) some.push_back(x); dumpGlobals(h.vm, some); }
    }
    if(!h.hasErrors()) h.finalize();
    if(h.hasErrors() != gp.m.error || h.log != gp.m.log) { if(h.hasErrors()) c.appendDescription("\n--- reported: " + h.errorText()); }
    compareText(c, "host calls", gp.m.log, h.log);
    if(h.hasErrors() != gp.m.error) c.fail("error reported: %d, expected: %d", (int)h.hasErrors(), (int)gp.m.error);
    if(!gp.m.error) compareText(c, "globals", gp.m.globals, dumpGlobals(h.vm, gp.names));
    c.label("programs with host calls between pieces"); c.label("calls between runs", made); if(gp.m.error) c.label("ends with an error");
    finish(c, h);
    if(made >= 1 && gp.m.log.size()) c.nontrivial(pbt::hashStr(gp.text));
}

// ---- host calls at any instruction boundary ------------------------------------------------
// Functions whose effects on the rest of the program are none; each with what it must give.
const char *helpers =
    "function h_fact(n) { if(n < 2) { return 1; } return n * h_fact(n - 1); }\n"
    "function h_cat(s, n) { var r = \"\"; var i; for(i = 0; i < n; ++i) { r = r + s; } return r; }\n"
    "function h_gen(n) { var t = 0; var co = coroutine(function(k) { var j; for(j = 0; j < k; ++j) { yield(j); } return 100; }, n); while(!is_finished(co)) { t = t + resume(co); } return t; }\n"
    "function h_list(a, b) { var o = object(); var i; for(i = 0; i < 20; ++i) { var q = object(); q.o = o; } o.a = a; o.b = b; return o; }\n"
    "function h_deep(n, f) { if(n == 0) { return f(3); } return call(h_deep, n - 1, f) + 1; }\n"
    "function h_in(n) { return resume(coroutine(function(k) { return call(h_fact, k); }, n)); }\n"
    "function h_nothing() { }\n"
    "function h_count() { return _argumentCount; }\n"
    "function h_throw(n) { var a = object(); if(n == 0) { err(); } out(\"throwing\"); var r = h_throw(n - 1); out(\"never\"); return r; }\n"
    "function h_cothrow(n) { var co = coroutine(function(k) { yield(k); call(h_throw, k); out(\"never\"); return 1; }, n); resume(co); resume(co); out(\"never\"); return 2; }\n"
    "function h_yield(n) { if(n == 0) { yield(1); out(\"never\"); } else { h_yield(n - 1); } return 0; }\n"
    "function h_loop(n) { while(n > 0) { n = n - 1; } return n; }\n";
const std::vector<std::string> helperNames{"h_fact", "h_cat", "h_gen", "h_list", "h_deep", "h_in", "h_nothing", "h_count", "h_throw", "h_cothrow", "h_yield", "h_loop"};

void anywhere(pbt::Case &c) {
    GenOpts o; o.stmts = 2 + c.size / 5; o.coroutines = c.g.chance(2, 3);
    GenProgram gp; makeProgram(c, gp, o);
    std::string text = helpers + gp.text; c.describe(text);
    std::vector<uint32_t> logAt; uint64_t ready = 0; Outcome ref;
    uint32_t gi = 1 + c.g.below(300);
    auto isReady = [](Host &h) { for(auto &n : helperNames) { NKValue *v = nkxVmFindGlobalVariable(h.vm, nullptr, n.c_str()); if(!v || v->type != NK_VALUETYPE_FUNCTIONID) return false; } return true; };
    {
        Host h; prepare(c, h, text); bool r = false;
        while(logAt.size() < RUN_CAP && !h.hasErrors() && !nkxVmProgramHasEnded(h.vm)) { logAt.push_back((uint32_t)h.log.size()); if(!r && (r = isReady(h))) ready = logAt.size() - 1; nkxVmIterate(h.vm, 1); }
        if(logAt.size() >= RUN_CAP) c.discard("many instructions");
        if(!r) { if(!isReady(h)) c.fail("function globals are not set"); ready = logAt.size(); }
        logAt.push_back((uint32_t)h.log.size()); ref = outcomeOf(h, gp.names); finish(c, h);
    }
    Host h; prepare(c, h, text); nkxSetGarbageCollectionInterval(h.vm, gi); nkxSetGarbageCollectionNewObjectInterval(h.vm, 1 + c.g.below(30));
    std::vector<uint64_t> at; int want = 1 + c.g.below(6); uint64_t last = logAt.size() - 1;
    for(int i = 0; i < want; i++) at.push_back(ready + c.g.below((uint32_t)(last - ready) + 1));
    std::sort(at.begin(), at.end());
    int finalKind = c.g.chance(1, 2) ? (int)c.g.below(6) : -1;  // the last of them fails
    uint64_t n = 0, made = 0; std::string d = "\n--- calls:", inserted; bool failed = false;
    auto fnv = [&](const char *name) { NKValue *v = nkxVmFindGlobalVariable(h.vm, nullptr, name); if(!v) c.failStr(std::string("no global ") + name); return *v; };
    std::string expectedLog; size_t refPos = 0;
    for(size_t k = 0; k < at.size() && !failed; k++) {
        if(at[k] > n) { nkxVmIterate(h.vm, (uint32_t)(at[k] - n)); n = at[k]; }
        if(h.hasErrors()) break;         // the program itself ends with an error
        if(ref.error && n == last) break;
        expectedLog += ref.log.substr(refPos, logAt[n] - refPos); refPos = logAt[n];
        if(h.log != expectedLog) c.fail("after %llu instructions the host calls differ from those of the run without calls from the host", (unsigned long long)n);
        NKValue r = nilValue(); made++;
        auto callf = [&](const NKValue &f, std::vector<NKValue> a) { NKValue fv = f; r = intValue(h.vm, -12345); nkxVmCallFunction(h.vm, &fv, (uint32_t)a.size(), a.empty() ? nullptr : a.data(), &r); };
        auto expectInt = [&](const char *what, int v) { if(h.hasErrors()) c.failStr(std::string(what) + " reported an error: " + h.errorText()); if(r.type != NK_VALUETYPE_INT || r.intData != v) c.failStr(std::string(what) + " gave " + showValue(h.vm, &r) + " instead of " + std::to_string(v)); };
        bool last1 = k + 1 == at.size();
        d += " " + std::to_string(n) + ":"; 
        if(last1 && finalKind >= 0) {
            failed = true; int depth = c.g.below(30);
            std::string g0 = dumpGlobals(h.vm, gp.names);
            static const char *fk[] = { "h_throw", "h_cothrow", "h_yield", "not a function", "wrong arguments", "err" }; d += fk[finalKind]; c.appendDescription(d);
            switch(finalKind) {
                case 0: callf(fnv("h_throw"), { intValue(h.vm, depth) }); for(int i = 0; i < depth; i++) expectedLog += "out str:\"throwing\"\n"; break;
                case 1: callf(fnv("h_cothrow"), { intValue(h.vm, depth) }); for(int i = 0; i < depth; i++) expectedLog += "out str:\"throwing\"\n"; break;
                case 2: callf(fnv("h_yield"), { intValue(h.vm, depth) }); break;
                case 3: { NKValue v = nilValue(); switch(c.g.below(5)) { case 0: v = intValue(h.vm, depth); break; case 1: v = strValue(h.vm, "h_fact"); break; case 2: v = floatValue(h.vm, 1); break; case 3: break; default: { nkxCreateObject(h.vm, &v); if(c.g.chance(1, 2)) { NKValue kk = strValue(h.vm, "_exec"); NKValue *e = nkxVmObjectFindOrAddEntry(h.vm, &v, &kk, nkfalse); *e = fnv("h_fact"); kk = strValue(h.vm, "_data"); e = nkxVmObjectFindOrAddEntry(h.vm, &v, &kk, nkfalse); *e = intValue(h.vm, 3); } } } callf(v, c.g.chance(1, 2) ? std::vector<NKValue>{} : std::vector<NKValue>{ intValue(h.vm, 1) }); break; }
                case 4: callf(fnv("h_fact"), c.g.chance(1, 2) ? std::vector<NKValue>{} : std::vector<NKValue>{ intValue(h.vm, 1), intValue(h.vm, 2) }); break;
                default: callf(fnv("err"), {}); break;
            }
            if(!h.hasErrors()) c.failStr("a host call that must fail (" + std::string(fk[finalKind]) + ") reported no error");
            std::string log = h.log;
            compareText(c, "host calls up to the failed one", expectedLog, log);
            // Nothing runs any more; everything can be looked at.
            std::string g1 = dumpGlobals(h.vm, gp.names);
            compareText(c, "globals at the failed host call", g0, g1);
            NKValue v = intValue(h.vm, 5); callf(fnv("out"), { v }); nkxVmIterate(h.vm, 1000); nkxVmGarbageCollect(h.vm);
            if(h.log != log) c.fail("something ran after a failed host call");
            compareText(c, "globals after the failed host call", g1, dumpGlobals(h.vm, gp.names));
            break;
        }
        switch(c.g.below(11)) {
            case 0: { int a = c.g.below(12), f = 1; for(int i = 2; i <= a; i++) f *= i; d += "h_fact"; callf(fnv("h_fact"), { intValue(h.vm, a) }); expectInt("h_fact", f); break; }
            case 1: { int a = c.g.below(20); d += "h_cat"; callf(fnv("h_cat"), { strValue(h.vm, "ab"), intValue(h.vm, a) }); std::string w; for(int i = 0; i < a; i++) w += "ab"; if(h.hasErrors() || r.type != NK_VALUETYPE_STRING || w != nkxValueToString(h.vm, &r)) c.failStr("h_cat gave " + showValue(h.vm, &r)); break; }
            case 2: { int a = c.g.below(10); d += "h_gen"; callf(fnv("h_gen"), { intValue(h.vm, a) }); expectInt("h_gen", a * (a - 1) / 2 + 100); break; }
            case 3: { d += "h_list"; callf(fnv("h_list"), { intValue(h.vm, 4), strValue(h.vm, "x") }); if(h.hasErrors() || r.type != NK_VALUETYPE_OBJECTID || nkxVmObjectGetSize(h.vm, &r) != 2) c.failStr("h_list gave " + showValue(h.vm, &r)); NKValue kk = strValue(h.vm, "a"); NKValue *e = nkxVmObjectFindOrAddEntry(h.vm, &r, &kk, nktrue); if(!e || e->type != NK_VALUETYPE_INT || e->intData != 4) c.fail("h_list: wrong field"); break; }
            case 4: { int a = c.g.below(25); d += "h_deep"; callf(fnv("h_deep"), { intValue(h.vm, a), fnv(c.g.chance(1, 2) ? "h_fact" : "id") }); r.type == NK_VALUETYPE_INT && r.intData == 3 + a ? (void)0 : expectInt("h_deep", 6 + a); break; }
            case 5: { int a = c.g.below(10), f = 1; for(int i = 2; i <= a; i++) f *= i; d += "h_in"; callf(fnv("h_in"), { intValue(h.vm, a) }); expectInt("h_in", f); break; }
            case 6: d += "h_nothing"; callf(fnv("h_nothing"), {}); expectInt("h_nothing", 0); break;
            case 7: d += "h_count"; callf(fnv("h_count"), {}); expectInt("h_count", 0); break;
            case 8: { d += "id"; int a = (int)c.g.range(-99, 99); callf(fnv("id"), { intValue(h.vm, a) }); expectInt("id", a); break; }
            case 9: { int a = c.g.below(900); d += "h_loop"; callf(fnv("h_loop"), { intValue(h.vm, a) }); expectInt("h_loop", 0); break; }
            default: { d += "call"; int a = c.g.below(8), f = 1; for(int i = 2; i <= a; i++) f *= i; callf(fnv("call"), { fnv("h_in"), intValue(h.vm, a) }); expectInt("call(h_in)", f); }
        }
        if(h.log != expectedLog) c.failStr("a call from the host made host calls of its own: " + h.log.substr(std::min(h.log.size(), expectedLog.size())));
        if(nkxVmProgramHasEnded(h.vm) != (n == last && !ref.error)) c.fail("after a host call the program is at another place");
    }
    if(!failed) {
        c.appendDescription(d);
        if(!h.run(RUN_CAP)) c.fail("the program does not end");
        Outcome a = outcomeOf(h, gp.names); compareOutcome(c, "after the host calls", ref, a);
    }
    c.label("programs with host calls at instruction boundaries"); c.label("calls at instruction boundaries", made); if(failed) c.label("failed host calls");
    finish(c, h);
    if(made >= 1 && ref.log.size()) c.nontrivial(pbt::hashStr(d, pbt::hashStr(text)));
}
}

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C19";
    P.rule = "Three kinds. (1) Calls and self-calls of a random program, some or all, go through a native function that makes a host call (re-entrantly at any depth, in coroutines, twice nested): host calls, globals and errors must be those of the reference interpreter, and those of the unchanged program where no yield crosses a host call. (2) A random program run piece by piece, with the host calling its functions between runs: as if the calls stood in the program. (3) The host calls functions (recursion, coroutines, objects, nested host calls, natives) at random instruction boundaries of a running program: values must be right and the program continue as if nothing had happened; some end with a failing call (error thrown at any depth, in a coroutine, yield out of the call, not a function, wrong argument count): only an error remains, nothing runs afterwards, everything can be inspected. Non-trivial: at least 2 calls turned and 2 outputs (1), or at least one host call (2, 3); distinct by program and calls.";
    P.assumptions = {"yielding out of a host call is an error, as decided by the repair 71e3727"};
    P.quickCases = 32000; P.thoroughCases = 1200000; P.quickWall = 28; P.thoroughWall = 800;
    P.run = [](pbt::Case &c) { switch(c.g.below(3)) { case 0: throughHost(c); break; case 1: betweenPieces(c); break; default: anywhere(c); } };
    return pbt::main(P, argc, argv);
}
