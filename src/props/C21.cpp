// C21: VMs are independent of each other.
#include "drive.h"
#include <thread>
#include <atomic>
using namespace lang;

enum Op { CREATE, COMPILE, FINALIZE, ITERATE, EXECUTE, COLLECT, SHRINK, SAVE, RELOAD, DUMP, CALL, LIMITS, ERRORS, DESTROY };
struct Act { Op op; uint32_t a = 0, b = 0; };
// One VM and what the host does with it, in order. Everything observed goes into the trace.
struct Actor {
    std::string text; std::vector<std::string> names; std::vector<Act> acts;
    std::unique_ptr<Host> h; Alloc alloc; size_t next = 0; bool busy = false; std::string trace, finalTrouble;
    std::function<void()> onInterrupt;       // called inside natives and the allocator
    uint64_t interruptions = 0;
    bool done() const { return next >= acts.size(); }
    void say(const std::string &s) { if(trace.size() < (1u << 20)) trace += s + "\n"; }
    void hook(Host &x) { x.onNative = [this](Host &, const char *) { if(onInterrupt) onInterrupt(); }; }
    void step() {
        Act &t = acts[next++]; busy = true;
        alloc.onGet = [this] { if(onInterrupt) onInterrupt(); };
        char w[160];
        switch(t.op) {
            case CREATE: h = std::make_unique<Host>(&alloc); hook(*h); say(h->create() ? "created" : "not created"); if(h->vm) { nkxSetRemainingInstructionLimit(h->vm, 300000); nkxSetGarbageCollectionInterval(h->vm, t.a); nkxSetGarbageCollectionNewObjectInterval(h->vm, t.b); } break;
            case COMPILE: if(h->cs) say(std::string("compile ") + (nkxCompilerCompileScript(h->cs, text.c_str(), "actor.nks") ? "1" : "0")); break;
            case FINALIZE: if(h->cs) h->finalize(); break;
            case ITERATE: if(h->vm && !h->cs) nkxVmIterate(h->vm, t.a); break;
            case EXECUTE: if(h->vm && !h->cs && !h->hasErrors()) say(std::string("execute ") + (nkxVmExecuteProgram(h->vm) ? "1" : "0")); break;
            case COLLECT: if(h->vm) nkxVmGarbageCollect(h->vm); break;
            case SHRINK: if(h->vm) nkxVmShrink(h->vm); break;
            case SAVE: case RELOAD:
                if(h->vm && !h->cs) {
                    Image img; bool ok = saveImage(h->vm, img);
                    snprintf(w, sizeof w, "saved %d %zu %llx", ok, img.data.size(), (unsigned long long)pbt::hashStr(img.data)); say(w);
                    if(t.op == RELOAD && ok && !h->hasErrors()) {
                        auto n = std::make_unique<Host>(&alloc); hook(*n); n->takeOver(*h); hook(*n);
                        bool up = n->createVmOnly() && n->start(); say(up ? "new VM" : "no new VM");
                        if(up) { nkxSetRemainingInstructionLimit(n->vm, 300000); bool l = loadImage(n->vm, img); say(l ? "loaded" : "not loaded"); }
                        h->destroy(); h = std::move(n);
                    }
                } break;
            case DUMP: if(h->vm && !h->cs) say(dumpGlobals(h->vm, names)); break;
            case CALL: if(h->vm && !h->cs && !h->hasErrors() && names.size()) { NKValue *v = nkxVmFindGlobalVariable(h->vm, nullptr, names[t.a % names.size()].c_str()); if(v && v->type == NK_VALUETYPE_FUNCTIONID && nkxVmProgramHasEnded(h->vm)) { NKValue f = *v, a[2] = { intValue(h->vm, 3), strValue(h->vm, "argument") }, r = nilValue(); nkxVmCallFunction(h->vm, &f, t.b % 3, a, &r); say("call " + showValue(h->vm, &r)); } } break;
            case LIMITS: if(h->vm) { if(t.a == 0) nkxSetMaxStackSize(h->vm, t.b); else if(t.a == 1) nkxSetMaxFieldsPerObject(h->vm, t.b % 8); else if(t.a == 2) nkxSetRemainingInstructionLimit(h->vm, t.b * 40); else nkxSetMaxAllocatedMemory(h->vm, nkxVmGetCurrentMemoryUsage(h->vm) + t.b * 16); } break;
            case ERRORS: if(h->vm) { say(h->hasErrors() ? "errors " + h->errorText() : "no errors"); if(nkxVmHasAllocationFailure(h->vm)) say("allocation failure"); } break;
            case DESTROY: { h->destroy(); snprintf(w, sizeof w, "log %zu %s", h->log.size(), h->log.c_str() + (h->log.size() > 120 ? h->log.size() - 120 : 0)); say(w); say(h->log);
                if(alloc.live) finalTrouble = std::to_string(alloc.live) + " blocks not given back"; if(h->boxTrouble.size()) finalTrouble = h->boxTrouble; if(alloc.trouble.size()) finalTrouble = alloc.trouble; break; }
        }
        if(h && h->vm) {
            if(nkxGetUserData(h->vm) != h.get()) say("user data lost");
            snprintf(w, sizeof w, "%d: memory %u peak %u stack %u fields %u instructions %u limit %u gc %u/%u ended %d errors %u log %zu blocks %llu", (int)t.op, nkxVmGetCurrentMemoryUsage(h->vm), nkxVmGetPeakMemoryUsage(h->vm), nkxGetMaxStackSize(h->vm), nkxGetMaxFieldsPerObject(h->vm), nkxGetRemainingInstructionLimit(h->vm), nkxGetMaxAllocatedMemory(h->vm), nkxGetGarbageCollectionInterval(h->vm), nkxGetGarbageCollectionNewObjectInterval(h->vm), h->cs ? 0 : (int)nkxVmProgramHasEnded(h->vm), nkxGetErrorCount(h->vm), h->log.size(), (unsigned long long)alloc.live);
            say(w);
        }
        alloc.onGet = nullptr; busy = false;
    }
};

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C21";
    P.rule = "2-4 random programs (some damaged so that they do not compile, some meant to hit memory, stack, field or instruction limits), each with its own random sequence of host actions (create, compile, finalize, run in slices, collect, shrink, save, reload, call, set limits, read globals and errors, delete), are run each alone and then together in one process: interleaved action by action, and also in the middle of actions - inside native functions and inside the allocator another VM takes its next actions - or, in some cases, each in its own thread. After every action memory figures, limits, user data, error counts and images (hash), and at the end host calls, must be those of the run alone. Non-trivial: at least 2 VMs made progress while another was in the middle of its actions; distinct by programs and schedule.";
    P.assumptions = {};
    P.quickCases = 12000; P.thoroughCases = 300000; P.quickWall = 28; P.thoroughWall = 700;
    P.run = [](pbt::Case &c) {
        int n = 2 + c.g.below(3); uint64_t hash = 1;
        std::vector<std::unique_ptr<Actor>> alone, together;
        for(int i = 0; i < n; i++) {
            auto a = std::make_unique<Actor>();
            GenOpts o; o.stmts = 2 + c.size / 8; o.coroutines = c.g.chance(2, 3);
            if(i && c.g.chance(1, 4)) { a->text = alone[0]->text; a->names = alone[0]->names; }
            else {
                GenProgram gp; makeProgram(c, gp, o); a->text = gp.text; a->names = gp.names;
                if(c.g.chance(1, 8) && a->text.size() > 4) { size_t at = c.g.below((uint32_t)a->text.size()); a->text.erase(at, 1 + c.g.below(6)); c.label("damaged program"); }
            }
            hash = pbt::hashStr(a->text, hash);
            a->acts = { {CREATE, 1 + c.g.below(c.g.chance(1, 2) ? 40 : 2000), 1 + c.g.below(60)} };
            if(c.g.chance(1, 6)) a->acts.push_back({LIMITS, c.g.below(4), c.g.below(400)});
            a->acts.push_back({COMPILE}); if(c.g.chance(1, 3)) a->acts.push_back({ERRORS});
            a->acts.push_back({FINALIZE});
            int m = 2 + c.g.below(14);
            for(int k = 0; k < m; k++) {
                static const std::vector<Op> ops{ITERATE, EXECUTE, COLLECT, SHRINK, SAVE, RELOAD, DUMP, CALL, LIMITS, ERRORS};
                Op op = ops[c.g.weighted({10, 1, 2, 2, 2, 2, 2, 2, 1, 1})];
                Act t{op}; if(op == ITERATE) t.a = c.g.below(c.g.chance(1, 2) ? 30 : 600); else { t.a = c.g.below(op == LIMITS ? 4 : 16); t.b = c.g.below(400); }
                a->acts.push_back(t); hash = pbt::hashMix(hash, (uint64_t)t.op * 1000003 + t.a * 401 + t.b);
            }
            a->acts.push_back({ITERATE, 200000}); a->acts.push_back({DUMP}); a->acts.push_back({ERRORS}); a->acts.push_back({DESTROY});
            auto b = std::make_unique<Actor>(); b->text = a->text; b->names = a->names; b->acts = a->acts;
            alone.push_back(std::move(a)); together.push_back(std::move(b));
        }
        bool threads = c.g.chance(1, 8); bool nested = !threads && c.g.chance(2, 3);
        std::string d; for(int i = 0; i < n; i++) { d += "\n=== VM " + std::to_string(i) + "\n" + alone[i]->text + "\n--- actions:"; for(auto &t : alone[i]->acts) d += " " + std::to_string(t.op) + "(" + std::to_string(t.a) + "," + std::to_string(t.b) + ")"; }
        c.describe((threads ? "threads" : nested ? "interleaved, also inside natives and the allocator" : "interleaved") + d);
        for(auto &a : alone) { while(!a->done()) a->step(); if(a->finalTrouble.size()) c.failStr("alone: " + a->finalTrouble); }
        uint64_t nests = 0, switches = 0;
        if(threads) {
            std::vector<std::thread> ts; std::atomic<int> go{0};
            for(auto &a : together) ts.emplace_back([&a, &go, n] { go++; while(go < n) {} while(!a->done()) a->step(); });
            for(auto &t : ts) t.join();
        } else {
            uint32_t rate = 1 + c.g.below(200); int depth = 0; uint64_t rng = c.g.next64() | 1;
            // Interruptions are frequent: a private generator keeps the tape short.
            auto rnd = [&](uint32_t k) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (uint32_t)((rng >> 20) % k); };
            if(nested) for(auto &a : together) a->onInterrupt = [&] {
                if(depth >= 3 || rnd(rate)) return;
                depth++;
                for(auto &b : together) if(!b->busy && !b->done() && rnd(2)) { nests++; b->step(); }
                depth--;
            };
            int last = -1;
            for(;;) {
                std::vector<int> ready; for(int i = 0; i < n; i++) if(!together[i]->done()) ready.push_back(i);
                if(ready.empty()) break;
                int k = ready[c.g.below((uint32_t)ready.size())];
                if(k != last && last >= 0 && !together[last]->done()) switches++;
                last = k; together[k]->step();
            }
        }
        for(int i = 0; i < n; i++) {
            compareText(c, ("VM " + std::to_string(i) + ", alone and together").c_str(), alone[i]->trace, together[i]->trace);
            if(together[i]->finalTrouble.size()) c.failStr("together: " + together[i]->finalTrouble);
        }
        c.label(threads ? "threads" : nested ? "nested" : "interleaved"); c.label("nested actions", nests); c.label("switches", switches);
        c.evaluations(2 * n - 1);
        if(threads || switches || nests) c.nontrivial(hash);
    };
    return pbt::main(P, argc, argv);
}
