// C23: images are complete and reproducible; write failures are reported.
#include "drive.h"
using namespace lang;

static void sameBytes(pbt::Case &c, const char *what, const Image &a, const Image &b) {
    if(a.data == b.data) return;
    size_t n = std::min(a.data.size(), b.data.size()), i = 0;
    while(i < n && a.data[i] == b.data[i]) i++;
    std::string ctx;
    for(size_t k = i > 24 ? i - 24 : 0; k < i + 24 && k < n; k++) { char t[16]; snprintf(t, sizeof t, k == i ? " [%02x/%02x]" : " %02x/%02x", (unsigned char)a.data[k], (unsigned char)b.data[k]); ctx += t; }
    c.fail("%s: the images differ (%zu and %zu bytes) at offset %zu:%s", what, a.data.size(), b.data.size(), i, ctx.c_str());
}

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C23";
    P.rule = "A random program is run to a random instruction; the VM is saved twice, a second VM (whose allocator fills new blocks with other junk) is brought to the same point by random slices and saved, and the image is loaded into a third (junk again different) and saved again: all images must be the same bytes. Then saving and loading are repeated with the host's writer failing at random calls (each failing call for small images): they must return false, not call the writer again, leave the saved VM able to be saved again identically and to finish as the reference does, and leave the VM loaded into deletable without leak. Non-trivial: image taken strictly inside the run or holding at least 3 objects' worth of writer calls (over 400), and at least one failing save and load; distinct by program, point and failing calls.";
    P.assumptions = {"the host's serialization callbacks stop writing when told that a write failed"};
    P.quickCases = 26000; P.thoroughCases = 600000; P.quickWall = 28; P.thoroughWall = 800;
    P.run = [](pbt::Case &c) {
        GenOpts o; o.stmts = 2 + c.size / 6; o.coroutines = c.g.chance(2, 3);
        GenProgram gp; makeProgram(c, gp, o);
        Outcome ref = referenceRun(c, gp, true);
        uint64_t total = ref.instructions;
        uint32_t k = c.g.chance(1, 8) ? (uint32_t)total + 1 : c.g.below((uint32_t)total + 2);
        uint32_t gi = c.g.pick(std::vector<uint32_t>{1024, 1, 2, 7, 100, 65536}), ni = 1 + c.g.below(30);
        c.appendDescription("\n--- saved after instruction " + std::to_string(k) + ", gc interval " + std::to_string(gi));
        auto mk = [&](Host &h, int fill) {
            h.alloc->fill = fill;
            prepare(c, h, gp.text);
            nkxSetGarbageCollectionInterval(h.vm, gi); nkxSetGarbageCollectionNewObjectInterval(h.vm, ni);
        };
        auto save = [&](Host &h, Image &im, const char *what) {
            if(!saveImage(h.vm, im)) c.failStr(std::string(what) + ": saving failed: " + (h.hasErrors() ? h.errorText() : std::string("no error reported")));
        };
        Host a; mk(a, 0xbe);
        if(k) nkxVmIterate(a.vm, k);
        Image i1, i2; save(a, i1, "first save"); const int64_t calls = i1.calls; save(a, i2, "second save");
        sameBytes(c, "saved twice", i1, i2);
        {
            Host b; mk(b, 0x41);
            for(uint32_t left = k; left;) { uint32_t s = 1 + c.g.below(c.g.chance(1, 3) ? left : std::min(left, 9u)); nkxVmIterate(b.vm, s); left -= s; }
            Image i3; save(b, i3, "same state reached in slices");
            sameBytes(c, "the same state reached in slices", i1, i3);
            finish(c, b);
        }
        {
            Host n; n.alloc->fill = 0x7c;
            if(!n.createVmOnly() || !n.start()) c.fail("creating a VM to load into failed");
            if(!loadImage(n.vm, i1)) c.failStr("loading failed: " + (n.hasErrors() ? n.errorText() : std::string("no error reported")));
            if(i1.pos != i1.data.size()) c.fail("loading used %zu of %zu bytes", i1.pos, i1.data.size());
            Image i4; save(n, i4, "save after load");
            sameBytes(c, "saved, loaded and saved", i1, i4);
            finish(c, n);
        }
        // Failing writers.
        int fails = 0; uint64_t hash = pbt::hashMix(pbt::hashStr(gp.text), k);
        int n = 1 + c.g.below(5);
        for(int i = 0; i < n; i++) {
            Image f; f.failAtCall = c.g.chance(1, 3) ? calls - 1 - std::min<int64_t>(calls - 1, c.g.below(60)) : c.g.below((uint32_t)calls);
            hash = pbt::hashMix(hash, f.failAtCall);
            if(c.g.chance(1, 2)) {
                c.appendDescription("\n--- save with call " + std::to_string(f.failAtCall) + " of " + std::to_string(calls) + " failing");
                if(saveImage(a.vm, f)) c.fail("saving reported success although writer call %lld of %lld failed", (long long)f.failAtCall, (long long)calls);
                if(f.callsAfterFailure) c.fail("after writer call %lld failed, saving called the writer %lld more times", (long long)f.failAtCall, (long long)f.callsAfterFailure);
                Image i5; save(a, i5, "save after a failed save");
                sameBytes(c, "saved after a failed save", i1, i5);
            } else {
                c.appendDescription("\n--- load with call " + std::to_string(f.failAtCall) + " of " + std::to_string(calls) + " failing");
                f.data = i1.data;
                Host l; l.alloc->fill = c.g.chance(1, 2) ? 0 : 0xbe;
                if(!l.createVmOnly() || !l.start()) c.fail("creating a VM to load into failed");
                if(loadImage(l.vm, f)) c.fail("loading reported success although reader call %lld of %lld failed", (long long)f.failAtCall, (long long)calls);
                if(f.callsAfterFailure) c.fail("after reader call %lld failed, loading called the reader %lld more times", (long long)f.failAtCall, (long long)f.callsAfterFailure);
                finish(c, l);
            }
            fails++;
        }
        a.run(RUN_CAP);
        compareOutcome(c, "after being saved", ref, outcomeOf(a, gp.names));
        finish(c, a);
        c.label("failed saves and loads", fails); c.evaluations(3 + fails);
        for(auto f : { "coroutine", "box", "hold", "callable object" }) if(gp.m.features.count(f)) c.label(f);
        if((k > 0 && k < total) || calls > 400) c.nontrivial(hash);
    };
    return pbt::main(P, argc, argv);
}
