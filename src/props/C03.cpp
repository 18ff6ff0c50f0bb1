// C03: garbage is reclaimed, and each native payload is cleaned up exactly once.
#include "graph.h"
using namespace lang;

// A random history over an object graph against the reachability model.
static void graphCase(pbt::Case &c) {
    GraphOpts o; o.nodesMax = 10 + c.size; o.saves = c.g.chance(1, 2); o.handleWeight = 2;
    Graph g(c, o);
    bool autoGc = c.g.chance(2, 3);
    g.start(autoGc ? 1 + c.g.below(60) : 1u << 20, 1 + c.g.below(autoGc ? 20 : 1000));
    int n = 10 + c.g.below(10 + 3 * c.size);
    for(int i = 0; i < n; i++) g.op();
    g.checkAlive();
    // Let go of everything: nothing with data may be left after two collections
    // (the first may run cleanups that let go of handles) - and then as many as those cleanups chain.
    if(c.g.chance(1, 2)) {
        for(int k = 0; k < 8; k++) { nkxValueSetInt(g.h->vm, g.global(k), 0); g.globals[k] = Graph::Val(); }
        std::set<Graph::Payload *> kept;
        for(auto &x : g.nodes) if(!x->gone) { uint32_t held = 0; for(auto &p : g.payloads) if(p->current && !p->cleaned && p->keep == x.get()) held++; while(x->handles > held) { NKValue v = x->v; nkxVmObjectReleaseHandle(g.h->vm, &v); x->handles--; } }
        g.note("everything let go");
        for(int k = 0; k < 3; k++) { g.collect(); g.afterOp(true); }
        g.enumerateTypes(); c.label("everything let go");
    }
    g.finishAll();
    c.label("graph history"); c.label("collections", g.collections); c.label("reclaimed", g.reclaimed); c.label("payloads", g.payloads.size());
    if(g.collections && g.reclaimed) c.nontrivial(g.hash);
}

static uint64_t dropAll(pbt::Case &c, Host &h, const std::vector<std::string> &names) {
    for(auto &s : h.slots) { NKValue v = s.second; nkxVmObjectReleaseHandle(h.vm, &v); }
    h.slots.clear();
    for(auto &n : names) { NKValue *v = nkxVmFindGlobalVariable(h.vm, nullptr, n.c_str()); if(!v) c.failStr("global " + n + " not found"); nkxValueSetInt(h.vm, v, 0); }
    nkxVmGarbageCollect(h.vm);
    NKValue v = nilValue(); uint32_t at = 0; int n = 0;
    while(nkxGetNextObjectOfExternalType(h.vm, nkxVmFindExternalType(h.vm, "coroutine"), &v, &at)) n++;
    if(n) c.fail("%d coroutines survive although nothing refers to them", n);
    at = 0; n = 0; while(nkxGetNextObjectOfExternalType(h.vm, h.boxType, &v, &at)) n++;
    if(n) c.fail("%d native objects survive although nothing refers to them", n);
    if(h.boxesMade != h.boxesCleaned) c.fail("%lld native payloads made, %lld cleaned up although nothing refers to them", (long long)h.boxesMade, (long long)h.boxesCleaned);
    nkxVmShrink(h.vm); uint64_t once = h.alloc->cur;
    // One collection was enough.
    nkxVmGarbageCollect(h.vm); nkxVmShrink(h.vm);
    if(h.alloc->cur != once) c.fail("%llu bytes in use after everything was let go and collected, %llu after a second collection", (unsigned long long)once, (unsigned long long)h.alloc->cur);
    return h.alloc->cur;
}
// A program leaves nothing behind once its globals and handles are let go.
static void programCase(pbt::Case &c) {
    GenOpts o; o.stmts = 2 + c.size / 4; o.coroutines = c.g.chance(3, 4);
    GenProgram gp; makeProgram(c, gp, o);
    Host h; prepare(c, h, gp.text);
    nkxSetGarbageCollectionInterval(h.vm, c.g.chance(1, 2) ? 1u << 30 : 1 + c.g.below(100)); nkxSetGarbageCollectionNewObjectInterval(h.vm, 1 + c.g.below(30));
    nkxVmGarbageCollect(h.vm); nkxVmShrink(h.vm);
    uint64_t before = h.alloc->cur;
    if(!h.run(RUN_CAP)) c.discard("many instructions");
    if(h.hasErrors()) { nkxVmGarbageCollect(h.vm); finish(c, h); c.label("ends with an error"); return; }
    uint64_t peak = h.alloc->peak, after = dropAll(c, h, gp.names);
    // Native functions used as values get a function entry on first use; everything else must be back.
    if(after > before + 32) c.fail("%llu bytes in use before the program ran, %llu after everything it made was let go and collected", (unsigned long long)before, (unsigned long long)after);
    finish(c, h);
    c.label("program"); if(after != before) c.label("figures differ");
    for(auto f : { "coroutine", "box", "hold" }) if(gp.m.features.count(f)) c.label(f);
    if(peak > before + 1000 && gp.m.log.size()) c.nontrivial(pbt::hashStr(gp.text));
}

// The program's statements in a loop: memory must not grow from one round to the next.
static Program *loopOf(GenProgram &gp, int reps) {
    Program &p = gp.p; std::vector<Stmt *> decl, body;
    for(auto s : p.top) {
        if(s->k == SK::Func) { decl.push_back(s); continue; }
        if(s->k == SK::Var) {
            Stmt *d = p.st(SK::Var); *d = *s; d->e = nullptr; decl.push_back(d);
            Expr *l = p.eGlobal(s->slot); body.push_back(p.sExpr(p.eAssign(l, s->e ? s->e : p.eInt(0)))); continue;
        }
        body.push_back(s);
    }
    (void)reps;
    p.top = decl; Stmt *b = p.st(SK::Block); b->b1 = body; p.top.push_back(b);
    return &p;
}
static void loopCase(pbt::Case &c) {
    GenOpts o; o.stmts = 2 + c.size / 6; o.coroutines = c.g.chance(3, 4); o.wildAllowed = false; o.nativeErrors = false;
    GenProgram gp; makeProgram(c, gp, o);
    if(gp.m.error) c.discard("ends with an error");
    loopOf(gp, 0);
    PrintOpts po; auto parts = printPieces(gp.p, po); std::string text;
    for(size_t i = 0; i + 1 < parts.size(); i++) text += parts[i];
    text += "var rounds_ = 0;\nwhile(rounds_ < 100000) {\n" + parts.back() + "round_();\nrounds_++;\n}\n";
    // What the statements do is checked elsewhere; here only that they can run over and over.
    bool autoGc = c.g.chance(1, 3); uint32_t gi = 1 + c.g.below(150), noi = 1 + c.g.below(30);
    c.describe(text + "\n--- " + (autoGc ? "automatic collections " + std::to_string(gi) + "/" + std::to_string(noi) : "a collection after each round"));
    struct Rounds { int n = 0; std::vector<uint64_t> use; bool collect; uint64_t early = 0, late = 0; } r; r.collect = !autoGc;
    Host h; h.extra = &r; h.maxLog = 2000;
    h.extraNatives = { { "round_", [](NKVMFunctionCallbackData *d) {
        Host &x = *hostOf(d->vm); Rounds *rr = (Rounds *)x.extra;
        for(auto &s : x.slots) { NKValue v = s.second; nkxVmObjectReleaseHandle(x.vm, &v); }
        x.slots.clear(); x.nextHold = 1; rr->n++;
        if(rr->collect) nkxVmGarbageCollect(x.vm);
        rr->use.push_back(x.alloc->cur);
    } } };
    prepare(c, h, text);
    nkxSetGarbageCollectionInterval(h.vm, autoGc ? gi : 1u << 30); nkxSetGarbageCollectionNewObjectInterval(h.vm, autoGc ? noi : 1u << 30);
    int want = autoGc ? 40 : 8; uint64_t cap = 0;
    uint64_t early = 0; int earlyAt = autoGc ? 8 : 0;
    while(r.n < want && !h.hasErrors() && !nkxVmProgramHasEnded(h.vm) && cap < RUN_CAP) {
        nkxVmIterate(h.vm, 200); cap += 200;
        if(earlyAt && r.n >= earlyAt && !early) { early = h.alloc->peak; h.alloc->peak = h.alloc->cur; }
    }
    if(h.hasErrors()) { c.label("loop stopped with an error"); finish(c, h); c.discard("the loop ends with an error"); }
    if(r.n < want) { finish(c, h); c.discard("many instructions"); }
    if(!autoGc) {
        for(int i = 3; i < want; i++) if(r.use[i] != r.use[2]) c.fail("memory in use after a round and a collection: %llu bytes after round 3, %llu after round %d", (unsigned long long)r.use[2], (unsigned long long)r.use[i], i + 1);
    } else {
        uint64_t bound = 2 * early + (gi + noi) * 500ull;
        if(h.alloc->peak > bound) c.fail("peak use was %llu bytes in the first 8 rounds and %llu in the next 32", (unsigned long long)early, (unsigned long long)h.alloc->peak);
        c.label("loop, automatic collections");
    }
    c.label("loop"); c.nontrivial(pbt::hashStr(text));
    finish(c, h);
}

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C03";
    P.rule = "Three kinds of cases. Graph histories (see C14, here rich in native data, coroutines and dropping): after each forced collection exactly the typed objects the model knows to be unreachable have been cleaned up, each with the data last attached, by its own type's callback, once; reachable ones never; at deletion the rest, once. Programs: after a random program has ended, its globals and handles are let go and a collection runs: no coroutine and no native object may be left, and memory in use must be back at what it was before the run. Loops: a program's statements run over and over; with a collection after each round memory in use must be the same after every round from the third on, and with automatic collections the peak of later rounds must stay within a bound given by the earlier ones and the intervals. Non-trivial: a history with a collection that reclaimed something, a program that allocated, a loop that ran all rounds; distinct by history / text.";
    P.assumptions = {"object values are used by the host only while the objects are reachable"};
    P.quickCases = 31000; P.thoroughCases = 800000; P.quickWall = 28; P.thoroughWall = 700;
    P.run = [](pbt::Case &c) {
        switch(c.g.weighted({5, 3, 2})) { case 0: graphCase(c); break; case 1: programCase(c); break; default: loopCase(c); }
    };
    return pbt::main(P, argc, argv);
}
