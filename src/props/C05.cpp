// C05: loading a damaged or hostile image never harms the host.
#include "drive.h"
#include <cstring>
#include <algorithm>
using namespace lang;

static const uint32_t MEM = 1u << 20;      // limit set on the loading VM
static const uint32_t INSTR = 6000;

static void put32(std::string &s, size_t at, uint32_t v) { if(at + 4 <= s.size()) memcpy(&s[at], &v, 4); }
static uint32_t get32(const std::string &s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }

static std::string mutate(pbt::Gen &g, std::string s, const std::vector<uint32_t> &cuts, std::string &what) {
    static const std::vector<uint32_t> odd{0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 63, 127, 255, 256, 1023, 1024, 4095, 65535, 65536, 0xfffff, 0x100000, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu, 0x3fffffff, 0x40000000, 0x1fffffff, 0x20000000};
    int n = 1 + g.below(4); char t[160];
    for(int i = 0; i < n && !s.empty(); i++) {
        // Mostly at the start of something the writer wrote; sometimes in the middle of it.
        size_t at = cuts.size() && g.chance(4, 5) ? cuts[g.below((uint32_t)cuts.size())] : g.below((uint32_t)s.size());
        if(g.chance(1, 3)) at += 4 * g.below(8);
        if(at >= s.size()) at = s.size() - 1;
        switch(g.weighted({10, 6, 6, 3, 2, 2, 2, 1})) {
            case 0: { uint32_t v = g.pick(odd); snprintf(t, sizeof t, " [%zu]:%u->%u", at, get32(s, at), v); put32(s, at, v); break; }
            case 1: { uint32_t v = g.below(64); snprintf(t, sizeof t, " [%zu]:%u->%u", at, get32(s, at), v); put32(s, at, v); break; }
            case 2: { uint32_t o = get32(s, at), v = o + (uint32_t)g.range(-3, 3); snprintf(t, sizeof t, " [%zu]:%u->%u", at, o, v); put32(s, at, v); break; }
            case 3: { uint32_t from = cuts.size() ? cuts[g.below((uint32_t)cuts.size())] : 0, v = get32(s, from); snprintf(t, sizeof t, " [%zu]:%u->%u", at, get32(s, at), v); put32(s, at, v); break; }
            case 4: { uint8_t b = (uint8_t)(1u << g.below(8)); snprintf(t, sizeof t, " [%zu]^%u", at, b); s[at] = (char)(s[at] ^ b); break; }
            case 5: { size_t len = 1 + g.below(40); len = std::min(len, s.size() - at); snprintf(t, sizeof t, " delete[%zu,%zu]", at, len); s.erase(at, len); break; }
            case 6: { size_t from = g.below((uint32_t)s.size()), len = std::min<size_t>(1 + g.below(64), s.size() - from); std::string part = s.substr(from, len); snprintf(t, sizeof t, " insert[%zu,%zu,%zu]", at, from, len); s.insert(at, part); break; }
            default: snprintf(t, sizeof t, " truncate %zu", at); s.resize(at);
        }
        what += t;
    }
    return s;
}

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C05";
    P.rule = "Images of random programs (saved at random points of their run: coroutines, pending calls, native objects, handles, errors) are damaged by 1-4 mutations that know where the writer's fields start (odd numbers, small changes, values of other fields, bit flips, deletions, duplications, truncation), or replaced by random bytes; then loaded into a VM with a memory limit of 1 MiB, a random stack limit and an instruction limit of 6000. Whatever loading returned, a random sequence of host operations follows (running, collecting, shrinking, looking at globals, calling functions, handles, enumerating typed objects, error text, state dumps, saving, loading the saved image again), then deletion. Memory errors, undefined behaviour and assertions are caught by ASan, UBSan and assert; hangs by a CPU limit; outstanding memory is compared with the limit after every operation and with zero after deletion. Non-trivial: the damaged image loaded and ran at least one instruction; distinct by image bytes.";
    P.assumptions = {"the host's own serialization callbacks check what they read"};
    P.quickCases = 100000; P.thoroughCases = 3000000; P.quickWall = 28; P.thoroughWall = 850; P.caseCpu = 25;
    P.run = [](pbt::Case &c) {
        std::string bytes, how; GenProgram gp;
        if(c.g.chance(1, 40)) {
            uint32_t n = c.g.below(200); bytes = c.g.chance(1, 2) ? std::string("\0NKVM\5\0\0\0", 9) : "";
            for(uint32_t i = 0; i < n; i++) bytes += (char)c.g.below(256);
            how = "random bytes"; c.label("random bytes");
        } else {
            GenOpts o; o.stmts = 1 + c.size / 12; o.coroutines = c.g.chance(3, 4);
            makeProgram(c, gp, o);
            Host h; prepare(c, h, gp.text);
            nkxSetGarbageCollectionInterval(h.vm, 1 + c.g.below(200)); nkxSetGarbageCollectionNewObjectInterval(h.vm, 1 + c.g.below(30));
            uint32_t k = c.g.chance(1, 6) ? 0 : c.g.below(c.g.chance(1, 2) ? 4000 : 300);
            if(k) nkxVmIterate(h.vm, k);
            Image img; std::vector<uint32_t> cuts; img.cuts = &cuts;
            if(!saveImage(h.vm, img)) c.fail("saving failed");
            finish(c, h);
            how = "saved after " + std::to_string(k) + ":";
            bytes = c.g.chance(1, 30) ? img.data : mutate(c.g, img.data, cuts, how);
            if(bytes == img.data) c.label("undamaged");
        }
        c.appendDescription("\n--- " + how);
        Host n; n.maxLog = 4096; n.hostile = true;
        if(!n.createVmOnly() || !n.start()) c.fail("creating a VM to load into failed");
        nkxSetMaxAllocatedMemory(n.vm, MEM);
        nkxSetRemainingInstructionLimit(n.vm, INSTR);
        nkxSetMaxStackSize(n.vm, c.g.pick(std::vector<uint32_t>{0xffffffffu, 256, 64, 16}));
        if(c.g.chance(1, 6)) nkxSetMaxFieldsPerObject(n.vm, c.g.below(20));
        auto memory = [&](const char *when) {
            if(n.alloc->peak > n.alloc->firstSize + MEM) c.fail("%s: %llu bytes in use beyond the VM itself, the limit is %u", when, (unsigned long long)(n.alloc->peak - n.alloc->firstSize), MEM);
            if(nkxVmGetCurrentMemoryUsage(n.vm) != n.alloc->cur - n.alloc->firstSize) c.fail("%s: %u bytes reported in use, %llu are", when, nkxVmGetCurrentMemoryUsage(n.vm), (unsigned long long)(n.alloc->cur - n.alloc->firstSize));
        };
        if(c.g.chance(1, 20)) { nkxAddError(n.vm, "an error before loading"); how += " into a VM with an error"; }
        Image img; img.data = bytes;
        bool ok = loadImage(n.vm, img);
        memory("after loading");
        c.label(ok ? "loaded" : "refused");
        bool ran = false; std::string ops;
        int m = 2 + c.g.below(8);
        for(int i = 0; i < m; i++) {
            size_t op = i == 0 && c.g.chance(2, 3) ? 0 : c.g.weighted({8, 4, 3, 3, 3, 2, 2, 2, 2, 1, 1});
            const char *nm = "";
            switch(op) {
                case 0: { nm = "iterate"; uint32_t cnt = 1 + c.g.below(3000); nkxVmIterate(n.vm, cnt); ran = true; break; }
                case 1: nm = "execute"; if(!nkxVmHasErrors(n.vm)) { nkxVmExecuteProgram(n.vm); ran = true; } break;
                case 2: nm = "collect"; nkxVmGarbageCollect(n.vm); break;
                case 3: nm = "globals"; dumpGlobals(n.vm, gp.names); break;
                case 4: { nm = "save"; Image s; bool r = saveImage(n.vm, s); memory("after saving");
                    if(r && c.g.chance(1, 2)) { Host z; z.maxLog = 4096; z.hostile = true; if(z.createVmOnly() && z.start()) { nkxSetMaxAllocatedMemory(z.vm, MEM); nkxSetRemainingInstructionLimit(z.vm, INSTR); if(loadImage(z.vm, s)) nkxVmIterate(z.vm, 500); } finish(c, z); } break; }
                case 5: nm = "shrink"; nkxVmShrink(n.vm); break;
                case 6: { nm = "call"; if(gp.names.size()) { NKValue *v = nkxVmFindGlobalVariable(n.vm, nullptr, gp.names[c.g.below((uint32_t)gp.names.size())].c_str());
                    if(v) { NKValue f = *v, a[3] = { intValue(n.vm, 3), floatValue(n.vm, 0.5f), nilValue() }, r = nilValue(); nkxVmCallFunction(n.vm, &f, c.g.below(4), a, &r); showValue(n.vm, &r); } } break; }
                case 7: { nm = "enumerate"; NKVMExternalDataTypeID t = n.boxType; if(c.g.chance(1, 2)) t = nkxVmFindExternalType(n.vm, "coroutine"); NKValue v = nilValue(); uint32_t at = 0; int cnt = 0;
                    while(nkxGetNextObjectOfExternalType(n.vm, t, &v, &at) && cnt++ < 1000) { nkxVmObjectGetExternalData(n.vm, &v); nkxVmObjectGetSize(n.vm, &v); if(c.g.chance(1, 4)) { nkxVmObjectAcquireHandle(n.vm, &v); if(c.g.chance(1, 2)) nkxVmObjectReleaseHandle(n.vm, &v); } } break; }
                case 8: nm = "errors"; if(n.hasErrors()) n.errorText(); break;
                case 10: { nm = "dump"; static FILE *null = fopen("/dev/null", "w"); if(null) nkxDbgDumpState(n.vm, c.g.chance(1, 2) ? nullptr : "var a = 1;\nout(a);\n", null); break; }
                default: { nm = "convert"; if(gp.names.size()) { NKValue *v = nkxVmFindGlobalVariable(n.vm, nullptr, gp.names[0].c_str()); if(v) { NKValue f = *v; nkxValueToString(n.vm, &f); nkxValueToInt(n.vm, &f); nkxValueToFloat(n.vm, &f); } } }
            }
            ops += std::string(" ") + nm;
            memory(nm);
            if(ok && !n.hasErrors() && nkxGetRemainingInstructionLimit(n.vm) > INSTR) c.failStr("the instruction limit is gone after" + ops);
        }
        c.appendDescription("\n--- then" + ops);
        bool af = nkxVmHasAllocationFailure(n.vm);
        if(af) c.label("memory limit reached");
        if(ok && n.hasErrors()) c.label("loaded, stopped with an error");
        if(ok && !n.hasErrors()) c.label("loaded and ran");
        finish(c, n);
        if(ok && ran) c.nontrivial(pbt::hashStr(bytes));
    };
    return pbt::main(P, argc, argv);
}
