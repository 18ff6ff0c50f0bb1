// C04: saving a VM and continuing from the image is invisible to the program.
#include "drive.h"
using namespace lang;

// The function value of a native is the same before and after, as a global and as the host gets it.
static void sameNatives(pbt::Case &c, Host &h, Host &n) {
    for(const NativeDef &d : stdNatives) {
        Host *hs[2] = { &h, &n }; unsigned got[2];
        for(int i = 0; i < 2; i++) {
            NKVM *vm = hs[i]->vm; NKVMExternalFunctionID e = nkxVmRegisterExternalFunction(vm, d.name, d.fn);
            NKVMInternalFunctionID f = nkxVmGetOrCreateInternalFunctionForExternalFunction(vm, e); got[i] = f.id;
            NKValue *g = nkxVmFindGlobalVariable(vm, nullptr, d.name);
            if(!g || g->type != NK_VALUETYPE_FUNCTIONID || g->functionId.id != f.id) c.fail("%s: the function made for native %s is not the one its global holds", i ? "after loading" : "before saving", d.name);
        }
        if(got[0] != got[1]) c.fail("native %s is function %u, and %u after loading", d.name, got[0], got[1]);
    }
    c.label("natives compared");
}

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C04";
    P.rule = "A random program runs uninterrupted (reference) and again with saves at generated instruction boundaries (every one for short programs, random ones otherwise, up to 40); at each the image is loaded into a fresh VM with the same natives, and the run goes on from there (sometimes also in the saved VM, to see that saving did not disturb it; sometimes through several generations). Host calls, errors and globals must be those of the reference. Non-trivial: at least one save strictly inside the run and 3 host calls; distinct by program text and save points.";
    P.assumptions = {"the host keeps its own state (handles it holds, log) and carries it over; object and function ids are stable in an image"};
    P.quickCases = 26000; P.thoroughCases = 600000; P.quickWall = 28; P.thoroughWall = 800;
    P.run = [](pbt::Case &c) {
        GenOpts o; o.stmts = 2 + c.size / 6; o.coroutines = c.g.chance(2, 3);
        GenProgram gp; makeProgram(c, gp, o);
        Outcome ref = referenceRun(c, gp, true);
        uint64_t total = ref.instructions;
        std::vector<uint64_t> points; uint64_t hash = pbt::hashStr(gp.text);
        int mode = c.g.below(4); std::string how;
        if(total <= 60 || (mode == 0 && total <= 400)) { uint64_t st = 1 + total / 60; uint64_t off = c.g.below((uint32_t)st); for(uint64_t i = off; i <= total + 1; i += st) points.push_back(i); how = "every " + std::to_string(st) + " instructions from " + std::to_string(off); }
        else {
            int n = mode == 1 ? 1 : 1 + c.g.below(mode == 2 ? 5 : 40);
            std::set<uint64_t> s; for(int i = 0; i < n; i++) s.insert(c.g.below((uint32_t)total + 2));
            points.assign(s.begin(), s.end());
            for(auto x : points) how += " " + std::to_string(x);
        }
        for(auto x : points) hash = pbt::hashMix(hash, x);
        bool keepOld = c.g.chance(1, 4);
        uint32_t gi = c.g.chance(1, 2) ? 1 + c.g.below(50) : 1024;
        c.appendDescription("\n--- saved and reloaded after instruction:" + how + (keepOld ? " (saved VM also continued)" : ""));
        auto h = std::make_unique<Host>(); prepare(c, *h, gp.text);
        nkxSetGarbageCollectionInterval(h->vm, gi); nkxSetGarbageCollectionNewObjectInterval(h->vm, 1 + c.g.below(30));
        uint64_t at = 0; bool inside = false; int saves = 0;
        for(uint64_t x : points) {
            if(x > at) { nkxVmIterate(h->vm, (uint32_t)(x - at)); at = x; }
            Image img;
            std::string before = h->log;
            if(!saveImage(h->vm, img)) c.failStr("saving after " + std::to_string(at) + " instructions failed: " + (h->hasErrors() ? h->errorText() : std::string("no error reported")));
            if(h->log != before) c.fail("saving made host calls");
            saves++; if(at > 0 && at < total) inside = true;
            auto n = std::make_unique<Host>();
            if(c.g.chance(1, 3)) { // natives are found by name: their order and additional ones do not matter
                n->nativeOrder = 1 + c.g.below(1000000); static const NativeDef one{ "unrelated", [](NKVMFunctionCallbackData *) {} }, two{ "i", [](NKVMFunctionCallbackData *) {} };
                if(c.g.chance(1, 2)) n->extraNatives = { one, two };
                c.label("natives in another order");
            }
            if(!n->createVmOnly() || !n->start()) c.fail("creating a VM to load into failed");
            if(!loadImage(n->vm, img)) c.failStr("loading the image saved after " + std::to_string(at) + " instructions failed: " + (n->hasErrors() ? n->errorText() : std::string("no error reported")));
            if(img.pos != img.data.size()) c.fail("loading used %zu of %zu bytes", img.pos, img.data.size());
            if(nkxGetGarbageCollectionInterval(n->vm) != nkxGetGarbageCollectionInterval(h->vm) || nkxGetGarbageCollectionNewObjectInterval(n->vm) != nkxGetGarbageCollectionNewObjectInterval(h->vm)) c.fail("collection intervals are not those of the saved VM");
            if(c.g.chance(1, 6) && !n->hasErrors()) sameNatives(c, *h, *n);
            if(!keepOld) n->takeOver(*h);
            else {
                // Both go on: a copy of the host's state.
                n->log = h->log; n->outCount = h->outCount; n->slots = h->slots; n->nextHold = h->nextHold;
                h->run(RUN_CAP);
                compareOutcome(c, "in the VM that was saved", ref, outcomeOf(*h, gp.names));
            }
            finish(c, *h);
            h = std::move(n);
        }
        h->run(RUN_CAP);
        if(c.g.chance(1, 6)) { // errors are part of an image, and more can follow them
            auto add = [&](Host &x, const char *t) { nkxAddError(x.vm, t); };
            static const char *texts[] = { "first", "a second one", "", "third\n" }; int k = c.g.below(4); for(int i = 0; i < k; i++) add(*h, texts[i]);
            compareOutcome(c, "continued from images, before errors were added", ref, [&] { Outcome q = outcomeOf(*h, gp.names); q.errors = ref.errors; q.error = ref.error; return q; }());
            Image img; if(!saveImage(h->vm, img)) c.fail("saving a VM that has ended failed");
            Host n; if(!n.createVmOnly() || !n.start() || !loadImage(n.vm, img)) c.fail("loading an image of a VM that has ended failed");
            auto same = [&](const char *w) { if(nkxGetErrorCount(h->vm) != nkxGetErrorCount(n.vm)) c.fail("%s: %u errors, and %u after loading", w, nkxGetErrorCount(h->vm), nkxGetErrorCount(n.vm)); compareText(c, w, h->hasErrors() ? h->errorText() : "", n.hasErrors() ? n.errorText() : ""); };
            same("errors of an image"); compareText(c, "globals of an image of a VM that has ended", dumpGlobals(h->vm, gp.names), dumpGlobals(n.vm, gp.names));
            for(int i = 0; i < 2; i++) { add(*h, texts[i]); add(n, texts[i]); same("errors after those of an image"); }
            c.label("errors saved", nkxGetErrorCount(h->vm)); n.slots.clear(); if(inside && h->outCount >= 3) c.nontrivial(hash); finish(c, n); finish(c, *h); return;
        }
        compareOutcome(c, "continued from images", ref, outcomeOf(*h, gp.names));
        uint32_t oc = (uint32_t)h->outCount;
        finish(c, *h);
        c.label(mode == 0 ? "dense" : "random points", 1); c.label("saves", saves); if(keepOld) c.label("saved VM also continued");
        for(auto f : { "coroutine", "box", "hold", "callable object", "host call", "yield" }) if(gp.m.features.count(f)) c.label(f);
        if(ref.error) c.label("ends with an error");
        c.evaluations(saves);
        if(inside && oc >= 3) c.nontrivial(hash);
    };
    return pbt::main(P, argc, argv);
}
