// C02: when garbage collection runs makes no difference to a program.
#include "drive.h"
using namespace lang;

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C02";
    P.rule = "A random program (objects, strings, callable objects, coroutines, host calls, native boxes marked by callback, host-held handles) is run once with collection practically off, then under generated schedules: collection intervals down to 1 instruction / 1 object, collections forced between instructions at generated boundaries (down to every one), and collections forced inside native functions. Same host calls, errors, globals expected each time. Non-trivial: at least one scheduled run with 5 or more forced or due collections, and the program made at least 3 host calls; distinct by program text and schedule.";
    P.assumptions = {"native code keeps values it needs across a collection rooted (handle, mark callback, or the argument array)"};
    P.quickCases = 22000; P.thoroughCases = 1000000; P.quickWall = 28; P.thoroughWall = 800;
    P.run = [](pbt::Case &c) {
        GenOpts o; o.stmts = 2 + c.size / 5; o.coroutines = c.g.chance(2, 3);
        GenProgram gp; makeProgram(c, gp, o);
        Outcome ref = referenceRun(c, gp);
        int runs = 1 + c.g.below(2);
        for(int r = 0; r < runs; r++) {
            Host h; prepare(c, h, gp.text);
            uint64_t collections = 0; std::string how; uint64_t hash = pbt::hashStr(gp.text);
            int mode = c.g.below(5);
            bool inNatives = c.g.chance(1, 2);
            if(inNatives) {
                uint32_t every = 1 + c.g.below(3); uint64_t *n = new uint64_t(0); std::shared_ptr<uint64_t> keep(n);
                h.onNative = [keep, every, &collections](Host &hh, const char *) { if(++*keep % every == 0) { nkxVmGarbageCollect(hh.vm); collections++; } };
                how += " collecting in every " + std::to_string(every) + "th native call;";
            }
            if(mode == 0 || mode == 1) {
                uint32_t gi = mode == 0 ? 1 : 1 + c.g.below(200), no = mode == 0 ? 1 : 1 + c.g.below(20);
                nkxSetGarbageCollectionInterval(h.vm, gi); nkxSetGarbageCollectionNewObjectInterval(h.vm, no);
                how += " interval " + std::to_string(gi) + "/" + std::to_string(no);
                h.run(RUN_CAP); collections += 5; hash = pbt::hashMix(hash, gi * 1000 + no);
            } else {
                uint32_t step = mode == 2 ? 1 : 1 + c.g.below(60); bool fixed = mode != 4;
                how += std::string(fixed ? " collecting every " : " collecting at random within ") + std::to_string(step) + " instructions";
                uint64_t n = 0;
                nkxVmGarbageCollect(h.vm);
                // The collector is slow next to an instruction: at most 1500 forced collections.
                while(n < RUN_CAP && !h.hasErrors() && !nkxVmProgramHasEnded(h.vm)) {
                    uint32_t k = collections > 1500 ? 4096 : fixed ? step : 1 + c.g.below(step);
                    nkxVmIterate(h.vm, k); n += k;
                    nkxVmGarbageCollect(h.vm); collections++;
                    if(!fixed) hash = pbt::hashMix(hash, k);
                }
                hash = pbt::hashMix(hash, step);
            }
            c.appendDescription("\n--- schedule:" + how);
            if(c.g.chance(1, 2)) nkxVmGarbageCollect(h.vm);
            Outcome a = outcomeOf(h, gp.names);
            compareOutcome(c, "with other collections", ref, a);
            if(!a.error) { nkxVmGarbageCollect(h.vm); compareText(c, "globals after one more collection", ref.globals, dumpGlobals(h.vm, gp.names)); }
            static const char *ml[] = { "interval 1", "random interval", "forced at every boundary", "forced every k instructions", "forced at random boundaries" };
            c.label(ml[mode]); if(inNatives) c.label("forced inside natives");
            if(collections >= 5 && h.outCount >= 3) c.nontrivial(hash);
            finish(c, h);
            c.evaluations(1);
        }
        for(auto f : { "coroutine", "box", "hold", "callable object", "host call", "yield" }) if(gp.m.features.count(f)) c.label(f);
    };
    return pbt::main(P, argc, argv);
}
