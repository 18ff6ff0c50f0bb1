// C24: how execution is sliced makes no difference.
#include <cstring>
#include "drive.h"
using namespace lang;

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C24";
    P.rule = "A random program is single-stepped (recording after every instruction how many host calls were made), then run by generated slice sequences (lengths 0, 1, small, large, or the execute-to-the-end call, mixed). After every slice the host-call log must be exactly as long as after the same number of single steps; at the end host calls, errors, globals and the end-of-program report must agree; a program that ended must stay ended and unchanged under further iteration and a function called in it must work. Non-trivial: at least 5 slices and 3 host calls; distinct by program text and slices.";
    P.quickCases = 24000; P.thoroughCases = 1000000; P.quickWall = 28; P.thoroughWall = 800;
    P.run = [](pbt::Case &c) {
        GenOpts o; o.stmts = 2 + c.size / 5; o.coroutines = c.g.chance(2, 3);
        GenProgram gp; makeProgram(c, gp, o);
        std::vector<uint32_t> logAt{0}; Outcome ref;
        uint32_t gi = 1 + c.g.below(300);
        {
            Host h; prepare(c, h, gp.text);
            nkxSetGarbageCollectionInterval(h.vm, gi);
            while(logAt.size() < RUN_CAP && !h.hasErrors() && !nkxVmProgramHasEnded(h.vm)) { nkxVmIterate(h.vm, 1); logAt.push_back((uint32_t)h.log.size()); }
            if(logAt.size() >= RUN_CAP) c.discard("many instructions");
            // The END instruction itself.
            if(!h.hasErrors()) { nkxVmIterate(h.vm, 1); if((uint32_t)h.log.size() != logAt.back()) c.fail("executing the end of the program made a host call"); }
            ref = outcomeOf(h, gp.names);
            finish(c, h);
        }
        for(int r = 0; r < 2; r++) {
            Host h; prepare(c, h, gp.text);
            nkxSetGarbageCollectionInterval(h.vm, gi);
            uint64_t n = 0, slices = 0, hash = pbt::hashStr(gp.text); std::string how = "\n--- slices:";
            int mode = c.g.below(4);
            while(!h.hasErrors() && !nkxVmProgramHasEnded(h.vm)) {
                uint32_t k;
                switch(mode) {
                    case 0: k = c.g.below(4); break;
                    case 1: k = c.g.below(60); break;
                    case 2: k = c.g.below(3) ? c.g.below(10) : c.g.below(2000); break;
                    default: k = c.g.chance(1, 200) ? 0xffffffff : c.g.below(40);
                }
                if(slices > 4000) k = 100000;
                if(slices < 30) how += " " + std::to_string(k);
                hash = pbt::hashMix(hash, k);
                slices++;
                if(k == 0xffffffff && c.g.chance(1, 2)) {
                    how += "(execute)";
                    nkbool ok = nkxVmExecuteProgram(h.vm);
                    c.appendDescription(how); how = "";
                    if((bool)ok == h.hasErrors()) c.fail("execute returned %d but errors reported are %d", (int)ok, (int)h.hasErrors());
                    n = logAt.size() - 1;
                } else { if(k == 0xffffffff) k = RUN_CAP; nkxVmIterate(h.vm, k); n += k; }
                uint64_t at = n < logAt.size() ? n : logAt.size() - 1;
                if(h.log.size() != logAt[at]) { c.appendDescription(how); c.fail("after %llu instructions in %llu slices the host saw %zu bytes of calls, with single steps %u", (unsigned long long)n, (unsigned long long)slices, h.log.size(), logAt[at]); }
                bool ended = nkxVmProgramHasEnded(h.vm) || h.hasErrors();
                if(ended != (n >= logAt.size() - 1)) { c.appendDescription(how); c.fail("after %llu instructions in slices the program has%s stopped; with single steps it takes %zu", (unsigned long long)n, ended ? "" : " not", logAt.size() - 1); }
            }
            c.appendDescription(how);
            if(!h.hasErrors()) nkxVmIterate(h.vm, 1 + c.g.below(5));
            Outcome a = outcomeOf(h, gp.names);
            compareOutcome(c, "in slices", ref, a);
            // Nothing happens after the end or after an error.
            uint64_t ec = nkxGetErrorCount(h.vm);
            for(int i = 0; i < 3; i++) nkxVmIterate(h.vm, c.g.below(3000));
            if(!a.error) { if(!nkxVmExecuteProgram(h.vm)) c.fail("executing an ended program failed: %s", h.errorText().c_str()); }
            if(nkxGetErrorCount(h.vm) != ec) c.failStr("iterating a stopped program reported another error:\n" + h.errorText());
            Outcome b = outcomeOf(h, gp.names);
            compareOutcome(c, "iterating a stopped program", ref, b);
            if(!a.error && r == 0) { // a function still works
                NKValue *f = nkxVmFindGlobalVariable(h.vm, nullptr, "mk");
                if(!f) c.fail("global function not found");
                NKValue fv = *f, arg = intValue(h.vm, 2), ret = nilValue();
                nkxVmCallFunction(h.vm, &fv, 1, &arg, &ret);
                if(h.hasErrors()) c.failStr("calling a function after the end failed: " + h.errorText());
                std::string s = Dumper(h.vm).dump(&ret);
                const char *want = "obj#0(8){\"i1\"=int:2,\"i2\"=int:6,\"f1\"=float:2.5,\"s1\"=str:\"s2\",\"o1\"=obj#1(8)";
                if(s.compare(0, strlen(want), want)) c.failStr("calling a function after the end returned " + s);
                if(!nkxVmProgramHasEnded(h.vm)) c.fail("the program has not ended any more after a host call");
            }
            if(slices >= 5 && h.outCount >= 3) c.nontrivial(hash);
            static const char *ml[] = { "slices of 0..3", "slices of 0..59", "mixed short and long", "with execute" };
            c.label(ml[mode]);
            finish(c, h); c.evaluations(1);
        }
        if(ref.error) c.label("ends with an error");
    };
    return pbt::main(P, argc, argv);
}
