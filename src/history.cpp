#include "history.h"
#include <cstring>
#include <unistd.h>
#include <fcntl.h>
using namespace lang;

enum { O_COMPILE, O_BAD, O_PARTIAL, O_RUN, O_STEP, O_GC, O_SHRINK, O_CALL, O_FIND, O_OBJECT, O_FIELD, O_CLEARFIELD, O_RELEASE, O_TOSTRING, O_SAVE, O_LOAD, O_TYPE, O_SUBSYS, O_NATIVE, O_ERROR, O_CLEAR, O_MALLOC, O_REALLOC, O_FREE, O_ENUM, O_FILE, O_FINAL, O_LIMIT, O_CGLOBAL, O_GCPARAM, O_DUMP, O_EXECUTE, O_CFUNC, O_CONVERT, O_SUBDATA, O_LIMITS, O_FORCE, O_COUNT };
static const char *opNames[O_COUNT] = { "compile", "compile bad text", "partially finalize", "run", "step", "collect", "shrink", "call", "find", "make object", "set field", "clear field", "release", "convert to string", "save", "load", "register type", "init subsystem", "register native", "add error", "clear error", "malloc", "realloc", "free", "enumerate", "compile file", "finalize", "memory limit", "create global", "gc parameters", "dump state", "execute", "create function variable", "convert", "subsystem data", "other limits", "force failure" };

static uint64_t subInits = 0, subCleanups = 0;   // of further subsystems: single-threaded

void generateHistory(pbt::Case &c, History &h, int size, bool memoryLimits) {
    pbt::Gen &g = c.g; GenOpts o; o.stmts = 1 + g.below(2 + size / 12); o.coroutines = g.chance(1, 2); o.nativeErrors = g.chance(1, 8); o.wildAllowed = g.chance(1, 8); o.forceGc = true;
    GenProgram gp; makeProgram(c, gp, o);
    std::vector<std::string> parts = printPieces(gp.p); h.globals = gp.names;
    for(auto s : gp.p.top) if(s->k == SK::Func) h.functions.push_back(s->name);
    h.gcInterval = g.chance(1, 2) ? 1 + g.below(60) : 1024; h.gcObjects = g.chance(1, 2) ? 1 + g.below(20) : 256;
    auto add = [&](int k, uint32_t a = 0, uint32_t b = 0, uint32_t cc = 0, const std::string &t = "") { h.ops.push_back({ k, a, b, cc, t }); h.description += std::string("\n") + opNames[k] + " " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(cc) + (t.size() ? "\n" + t : ""); };
    bool whole = g.chance(1, 3); size_t next = 0; int extra = size / 5, n = 0;
    auto other = [&]() {
        switch(g.weighted({2, 3, 3, 2, 1, 4, 3, 1, 2, 2, 2, 3, 3, 1, 1, 1, 1, 1, 3, 1, 1, 2, memoryLimits ? 4u : 0u, 1, 1, 1, 1, 1, 2, 1, 1})) {
            case 0: add(O_STEP, 1 + g.below(60)); break;
            case 1: add(O_GC); break;
            case 2: add(O_SHRINK); break;
            case 3: if(h.functions.size()) add(O_CALL, g.below((uint32_t)h.functions.size()), g.below(4), g.below(100)); break;
            case 4: add(O_FIND, g.below((uint32_t)h.globals.size() + 1), g.below(2)); break;
            case 5: add(O_OBJECT, g.below(2), g.chance(1, 3) ? 1 + g.below(6) : 0); break;
            case 6: add(O_FIELD, g.below(8), g.below(30), g.below(6), randomString(g, 12)); break;
            case 7: add(O_CLEARFIELD, g.below(8), g.below(30)); break;
            case 8: add(O_RELEASE, g.below(8)); break;
            case 9: add(O_TOSTRING, g.bits() % 1000, g.below(3)); break;
            case 10: add(O_SAVE); break;
            case 11: if(g.chance(3, 4)) add(O_SAVE); add(O_LOAD, g.below(3), g.chance(1, 6) ? g.bits() % 4000 : 0); break;
            case 12: add(O_TYPE, g.chance(1, 2) ? 0 : g.below(4)); break;
            case 13: add(O_SUBSYS, g.below(4), g.below(2)); break;
            case 14: add(O_NATIVE, g.below(4), g.below(5), g.below(3)); break;
            case 15: add(O_ERROR, g.weighted({4, 1, 5}), g.below(4), g.below(100), randomString(g, 20)); break;
            case 16: add(O_CLEAR); break;
            case 17: { static const std::vector<std::string> bad{ "var x = ;", "if(", "out(1", "nope();", "function f(a { }", "1 +", "\"unterminated", "while(1) { ", "var v1; var v1;", "return 5", "x = = 2;", "a.b.c = 1;", "#line 3\nout(;", "break;", "function q() { return nothing; }", "var z = object(; var y = 3;", "{ { { { { {", "((((((((1))))))))));" }; if(g.chance(1, 2)) add(O_BAD, 0, 0, 0, g.pick(bad)); else { std::string t = parts[g.below((uint32_t)parts.size())]; if(t.size() > 2) t.resize(1 + g.below((uint32_t)t.size() - 1)); add(O_BAD, 0, 0, 0, t); } break; }
            case 18: add(O_MALLOC, g.below(300), g.below(3), 0, randomString(g, 8)); break;
            case 19: add(O_REALLOC, g.below(6), g.below(500)); break;
            case 20: add(O_FREE, g.below(6)); break;
            case 21: add(O_ENUM); break;
            case 22: add(O_LIMIT, g.chance(1, 5) ? 0xffffffffu : g.chance(1, 2) ? g.below(3000) : g.below(60000), g.below(10)); break;
            case 23: add(O_CGLOBAL, g.below(5)); break;
            case 24: add(O_GCPARAM, 1 + g.below(100), 1 + g.below(20)); break;
            case 25: add(O_DUMP); break;
            case 26: add(O_EXECUTE); break;
            case 27: add(O_CFUNC, g.below(5)); break;
            case 28: add(O_CONVERT, g.below(8), g.below(3), g.below(3), g.chance(1, 2) ? randomString(g, 12) : std::to_string(g.bits() % 5000)); break;
            case 29: add(O_SUBDATA, g.below(4), g.below(2)); break;
            default: if(!memoryLimits && g.chance(1, 6)) add(O_FORCE, g.below(2)); else add(O_LIMITS, g.below(3), 1 + g.below(g.chance(1, 2) ? 40 : 3000)); break;
        }
        n++;
    };
    for(uint32_t i = g.below(3); i > 0; i--) other();
    while(next < parts.size()) {
        std::string t; do t += parts[next++]; while(next < parts.size() && (whole || g.chance(1, 2)));
        add(g.chance(1, 12) ? O_FILE : O_COMPILE, 0, 0, 0, t);
        if(whole && g.chance(1, 2)) add(O_FINAL); else add(O_PARTIAL);
        if(whole) for(uint32_t i = g.below(4); i > 0; i--) { add(O_STEP, g.below(80)); if(g.chance(1, 2)) other(); }
        add(O_RUN);
        for(uint32_t i = g.below(3); i > 0 && n < extra + 6; i--) other();
    }
    while(n < extra) other();
    for(auto &x : h.ops) h.features |= (size_t)1 << x.kind;
}

// ---- execution -----------------------------------------------------------------------------------
static HistoryRun *active = nullptr;
static void tellCallback(NKVM *vm, const char *kind) { if(active && active->inCallback) active->inCallback(*active, *hostOf(vm), kind); }
// Callbacks that need memory.
static void use(NKVM *vm, uint32_t n) { void *p = nkxMalloc(vm, n); if(p) { memset(p, 0x33, n); nkxFree(vm, p); } }
static void subCleanup(NKVM *vm, void *) { subCleanups++; tellCallback(vm, "subsystem cleanup"); use(vm, 24); }
static void subSerialize(NKVM *vm, void *) { tellCallback(vm, "subsystem serialize"); use(vm, 12); uint32_t x = 9; nkxSerializeData(vm, &x, sizeof x); }
static void typCleanup(NKVM *vm, NKValue *, void *) { tellCallback(vm, "cleanup"); use(vm, 40); }
static void typSerialize(NKVM *vm, NKValue *v, void *) { tellCallback(vm, "serialize"); use(vm, 10); uint32_t x = 7; nkxSerializeData(vm, &x, sizeof x); if(!nkxSerializerGetWriteMode(vm)) nkxVmObjectSetExternalData(vm, v, active); }
static void typMark(NKVM *vm, NKValue *, void *, NKVMGCState *) { tellCallback(vm, "mark"); use(vm, 16); }
static void nExtra(NKVMFunctionCallbackData *d) { Host &h = *hostOf(d->vm); if(h.onNative) h.onNative(h, "extra"); nkxValueSetString(d->vm, &d->returnValue, "extra"); }
static void nExtra2(NKVMFunctionCallbackData *d) { Host &h = *hostOf(d->vm); if(h.onNative) h.onNative(h, "extra2"); char *s = nkxStrdup(d->vm, "extra2"); if(s) { nkxValueSetString(d->vm, &d->returnValue, s); nkxFree(d->vm, s); } }
// Natives that check what they are given.
static void nCheck(NKVMFunctionCallbackData *d) {
    Host &h = *hostOf(d->vm); if(h.onNative) h.onNative(h, "check");
    if(d->argumentCount == 2) { if(!nkxFunctionCallbackCheckArguments(d, "check", 2, NK_VALUETYPE_INT, NK_VALUETYPE_STRING)) return; }
    else if(!nkxFunctionCallbackCheckArgCount(d, 1, "check")) return;
    if(nkxFunctionCallbackGetExternalDataArgument(d, "check", 0, h.boxType)) nkxValueSetInt(d->vm, &d->returnValue, 1);
}
// A native that meets with a failure of the host's own making.
static void nForce(NKVMFunctionCallbackData *d) { Host &h = *hostOf(d->vm); if(h.onNative) h.onNative(h, "force"); h.forced = true; nkxForceCatastrophicFailure(d->vm); nkxValueSetString(d->vm, &d->returnValue, "not kept"); use(d->vm, 8); }
struct Wr { Image *img; HistoryRun *r; Host *h; };
static nkbool writer(void *data, nkuint32_t size, void *ud, nkbool wm) { Wr *w = (Wr *)ud; if(w->r->inCallback) w->r->inCallback(*w->r, *w->h, wm ? "write" : "read"); return imageWriter(data, size, w->img, wm); }

Host *HistoryRun::make(bool compiler) {
    size_t k = allocs.size(); allocs.emplace_back(new Alloc); if(prepareAlloc) prepareAlloc(*allocs.back(), k);
    hosts.emplace_back(new Host(allocs.back().get())); Host *n = hosts.back().get();
    n->disposeEarly = disposeEarly;
    n->onNative = [this](Host &hh, const char *name) { nativesEntered++; if(inNative) inNative(*this, hh, name); };
    Host *before = cur; cur = n; step = compiler ? "creation" : "creation for loading";
    if(!compiler) n->setup = [this](Host &hh, NKCompilerState *) { for(auto &f : again) f(hh.vm); };
    if(compiler) n->create(); else if(n->createVmOnly()) n->start();
    if(n->vm) { nkxSetRemainingInstructionLimit(n->vm, 200000); nkxSetGarbageCollectionInterval(n->vm, h.gcInterval); nkxSetGarbageCollectionNewObjectInterval(n->vm, h.gcObjects); }
    tell(); if(!compiler) cur = before;
    return n;
}
void HistoryRun::drop(Host *x) {
    Host *before = cur; cur = x; if(x->cs) { step = "end of compilation"; x->finalize(); tell(); } step = "deletion"; x->destroy(); tell(); cur = before;
}
void HistoryRun::run() {
    active = this; subInits = subCleanups = 0;
    Host *first = make(true); cur = first;
    if(first->vm) {
        for(at = 0; at < h.ops.size(); at++) { step = opNames[h.ops[at].kind]; if(cur->vm) op(h.ops[at]); step = opNames[h.ops[at].kind]; tell(); }
        for(void *p : mem) nkxFree(cur->vm, p);
        for(auto &v : objs) nkxVmObjectReleaseHandle(cur->vm, &v);
        mem.clear(); objs.clear();
    }
    for(auto &x : hosts) if(x->vm) drop(x.get());
    active = nullptr;
}
void HistoryRun::op(const HOp &o) {
    Host &x = *cur; NKVM *vm = x.vm;
    auto ob = [&](uint32_t i) -> NKValue * { return objs.empty() ? nullptr : &objs[i % objs.size()]; };
    auto note = [&](const std::string &s) { if(text.size() < 100000) text += s + "\n"; };
    auto key = [&](uint32_t k) { return k % 3 == 0 ? intValue(vm, (int)k) : k % 3 == 1 ? floatValue(vm, (float)k) : strValue(vm, ("key" + std::to_string(k)).c_str()); };
    switch(o.kind) {
        case O_COMPILE: case O_BAD: if(x.cs) { if(!nkxVmHasErrors(vm)) writeReset = nkxCompilerGetInstructionWriteIndex(x.cs); bool r = nkxCompilerCompileScript(x.cs, o.text.c_str(), "piece.nks"); note(r ? "compiled" : "not compiled"); } break;
        case O_FILE: if(x.cs) {
            char name[] = "/tmp/vp-hist-XXXXXX"; int fd = mkstemp(name); if(fd < 0) { perror("mkstemp"); exit(2); }
            size_t done = 0; while(done < o.text.size()) { ssize_t k = write(fd, o.text.data() + done, o.text.size() - done); if(k <= 0) { perror("write"); exit(2); } done += (size_t)k; } close(fd);
            // The name goes into the program, so it has to be the same each time.
            char fixedName[64]; snprintf(fixedName, sizeof fixedName, "/tmp/vp-hist-%08d", (int)getpid()); rename(name, fixedName);
            bool r = nkxCompilerCompileScriptFile(x.cs, fixedName); unlink(fixedName); note(r ? "compiled" : "not compiled"); } break;
        case O_PARTIAL: if(x.cs) nkxCompilerPartiallyFinalize(x.cs); break;
        case O_FINAL: if(x.cs) x.finalize(); break;
        case O_RUN: for(int i = 0; i < 80 && x.alloc->requests < 500000 && !nkxVmHasErrors(vm) && !nkxVmProgramHasEnded(vm); i++) nkxVmIterate(vm, 1000); break;
        case O_STEP: nkxVmIterate(vm, o.a); break;
        case O_GC: nkxVmGarbageCollect(vm); break;
        case O_SHRINK: nkxVmShrink(vm); break;
        case O_CALL: {
            NKValue *f = nkxVmFindGlobalVariable(vm, nullptr, h.functions[o.a].c_str()); if(!f) break;
            NKValue fv = *f, r = nilValue(), a[4]; uint32_t n = 0; for(; n < o.b; n++) a[n] = n == 1 ? strValue(vm, "arg") : intValue(vm, (int)(o.c + n));
            if(fv.type == NK_VALUETYPE_FUNCTIONID) { nkxVmCallFunction(vm, &fv, n, a, &r); note("called"); } break; }
        case O_FIND: { NKValue *v = nkxVmFindGlobalVariable(vm, o.b && x.cs ? x.cs : nullptr, o.a < h.globals.size() ? h.globals[o.a].c_str() : "no_such_global"); note(v ? "found" : "not found"); break; }
        case O_OBJECT: for(uint32_t left = o.b + 1; left > 0; left--) { // all but the last are left to the garbage collector
            NKValue v = nilValue(); nkxCreateObject(vm, &v); if(v.type != NK_VALUETYPE_OBJECTID) break;
            if(o.a && types) { NKVMExternalDataTypeID t = nkxVmFindExternalType(vm, "xt0"); if(t.id != NK_INVALID_VALUE) { nkxVmObjectSetExternalType(vm, &v, t); nkxVmObjectSetExternalData(vm, &v, this); } }
            if(left > 1) continue;
            nkxVmObjectAcquireHandle(vm, &v); if(!nkxVmHasAllocationFailure(vm) && nkxVmObjectGetExternalHandleCount(vm, &v)) objs.push_back(v);
        } break;
        case O_FIELD: if(NKValue *v = ob(o.a)) { NKValue k = key(o.b); NKValue *e = nkxVmObjectFindOrAddEntry(vm, v, &k, nkfalse); if(!e) break; switch(o.c) { case 0: nkxValueSetInt(vm, e, (int)o.b); break; case 1: nkxValueSetFloat(vm, e, 2.5f); break; case 2: if(NKValue *w = ob(o.b)) *e = *w; break; default: { NKValue sv = nilValue(); nkxValueSetString(vm, &sv, o.text.c_str()); k = key(o.b); e = nkxVmObjectFindOrAddEntry(vm, v, &k, nktrue); if(e) *e = sv; } } note("size " + std::to_string(nkxVmObjectGetSize(vm, v))); } break;
        case O_CLEARFIELD: if(NKValue *v = ob(o.a)) { NKValue k = key(o.b); nkxVmObjectClearEntry(vm, v, &k); } break;
        case O_RELEASE: if(objs.size()) { size_t i = o.a % objs.size(); NKValue v = objs[i]; objs.erase(objs.begin() + i); nkxVmObjectReleaseHandle(vm, &v); } break;
        case O_TOSTRING: { NKValue v = o.b == 0 ? intValue(vm, (int)o.a) : o.b == 1 ? floatValue(vm, (float)o.a / 8) : nilValue(); const char *s = nkxValueToString(vm, &v); note(s ? s : "no string"); break; }
        case O_SAVE: { Image im; Wr w{ &im, this, cur }; bool r = nkxVmSerialize(vm, writer, &w, nktrue); note(r ? "saved" : "not saved"); if(r) { img = im; saves++; } break; }
        case O_LOAD: if(img.data.size()) {
            Host *n = make(false); if(!n->vm) break;
            Image im = img; im.pos = 0; im.calls = 0; if(o.b && o.b < im.data.size()) im.data.resize(o.b);
            if(o.b) n->hostile = true; Wr w{ &im, this, n }; Host *before = cur; cur = n; step = "load"; bool r = nkxVmSerialize(n->vm, writer, &w, nkfalse); tell(); cur = before; note(r ? "loaded" : "not loaded"); loads++;
            if(r) { cur = n; step = "run of the loaded VM"; for(int i = 0; i < 5 && !nkxVmHasErrors(n->vm) && !nkxVmProgramHasEnded(n->vm); i++) nkxVmIterate(n->vm, o.a == 0 ? 100 : 3000); tell(); cur = before; }
            if(o.a == 2 && r) { // the loaded VM takes over
                for(void *p : mem) nkxFree(vm, p);
                mem.clear();
                for(auto &v : objs) nkxVmObjectReleaseHandle(vm, &v);
                objs.clear(); n->slots = before->slots; n->nextHold = before->nextHold; drop(before); cur = n;
            } else drop(n);
        } break;
        case O_TYPE: { std::string n = "xt" + std::to_string(o.a); NKVMExternalDataTypeID t = nkxVmFindExternalType(vm, n.c_str()); if(t.id == NK_INVALID_VALUE) { t = nkxVmRegisterExternalType(vm, n.c_str(), typSerialize, typCleanup, typMark); again.push_back([n](NKVM *v) { nkxVmRegisterExternalType(v, n.c_str(), typSerialize, typCleanup, typMark); }); if(o.a == 0) types = 1; } const char *nm = nkxVmGetExternalTypeName(vm, t); note(nm ? nm : "no name"); break; }
        case O_SUBSYS: { if(o.b) { again.push_back([o, this](NKVM *v) { std::string m = "sub" + std::to_string(o.a); bool had = nkxGetExternalSubsystemData(v, m.c_str()) != nullptr; if(nkxInitSubsystem(v, nullptr, m.c_str(), this, subCleanup, subSerialize) && !had) subInits++; }); } std::string n = "sub" + std::to_string(o.a); bool had = nkxGetExternalSubsystemData(vm, n.c_str()) != nullptr; if(nkxInitSubsystem(vm, x.cs, n.c_str(), this, subCleanup, o.b ? subSerialize : nullptr) && !had) subInits++; break; }
        case O_NATIVE: {
            std::string n = "more" + std::to_string(o.a);
            if(o.b == 0) { nkxVmRegisterExternalFunction(vm, n.c_str(), nExtra); again.push_back([n](NKVM *v) { nkxVmRegisterExternalFunction(v, n.c_str(), nExtra); }); }
            else if(o.b == 1) { nkxVmSetupExternalFunction(vm, x.cs, n.c_str(), nExtra2, nkfalse, 2, NK_VALUETYPE_INT, NK_VALUETYPE_STRING); again.push_back([n](NKVM *v) { nkxVmSetupExternalFunction(v, nullptr, n.c_str(), nExtra2, nkfalse, 2, NK_VALUETYPE_INT, NK_VALUETYPE_STRING); }); }
            else if(o.b == 3) {
                nkxVmSetupExternalFunction(vm, x.cs, n.c_str(), nCheck, nktrue, NK_INVALID_VALUE); again.push_back([n](NKVM *v) { nkxVmSetupExternalFunction(v, nullptr, n.c_str(), nCheck, nktrue, NK_INVALID_VALUE); });
                NKValue *f = nkxVmFindGlobalVariable(vm, x.cs, n.c_str());
                if(f && f->type == NK_VALUETYPE_FUNCTIONID && !nkxVmHasErrors(vm)) { NKValue fn = *f, r = nilValue(), args[2] = { objs.size() && o.c == 0 ? objs[0] : intValue(vm, 3), o.c == 1 ? nilValue() : strValue(vm, "two") }; nkxVmCallFunction(vm, &fn, o.c, args, &r); note("checked " + std::to_string(r.type)); }
            }
            else {
                NKVMExternalFunctionID e = nkxVmRegisterExternalFunction(vm, n.c_str(), nExtra); again.push_back([n](NKVM *v) { nkxVmRegisterExternalFunction(v, n.c_str(), nExtra); });
                if(e.id == NK_INVALID_VALUE) break;
                NKVMInternalFunctionID f = nkxVmGetOrCreateInternalFunctionForExternalFunction(vm, e);
                if(f.id != NK_INVALID_VALUE && !nkxVmHasErrors(vm)) { NKValue v = nilValue(), r = nilValue(); nkxValueSetFunction(vm, &v, f); nkxVmCallFunction(vm, &v, 0, nullptr, &r); }
            }
            break; }
        case O_ERROR: if(o.a == 2) nkxAddErrorEx(vm, o.text.c_str(), o.b ? ("file" + std::to_string(o.b)).c_str() : "piece.nks", o.c); else if(o.a) { uint32_t x = 5; nkxSerializeData(vm, &x, sizeof x); } else nkxAddError(vm, o.text.c_str()); errorOps++; break;
        case O_CLEAR: if(x.cs) { nkxCompilerClearReplErrorState(x.cs, writeReset); } break;
        case O_MALLOC: { void *p = o.b == 0 ? nkxMalloc(vm, o.a) : o.b == 1 ? nkxMallocArray(vm, o.a % 17 + 1, o.a / 17) : (void *)nkxStrdup(vm, o.text.c_str()); if(p) { if(o.b == 0) memset(p, 0x5a, o.a); mem.push_back(p); } break; }
        case O_REALLOC: if(mem.size()) { size_t i = o.a % mem.size(); if(o.b == 0) break; void *p = o.b % 3 ? nkxRealloc(vm, mem[i], o.b) : nkxReallocArray(vm, mem[i], 3, o.b / 3); if(p) { memset(p, 0x5b, o.b); mem[i] = p; } } break;
        case O_FREE: if(mem.size()) { size_t i = o.a % mem.size(); void *p = mem[i]; mem.erase(mem.begin() + i); nkxFree(vm, p); } break;
        case O_ENUM: { uint32_t k = 0; NKValue v = nilValue(); int n = 0; while(n < 100000 && nkxGetNextObjectOfExternalType(vm, x.boxType, &v, &k)) n++; note("boxes " + std::to_string(n)); note(x.hasErrors() ? x.errorText() : ""); break; }
        case O_LIMIT: if(memoryLimit) memoryLimit(*this, x, o.a); break;
        case O_CGLOBAL: if(x.cs && !nkxVmHasErrors(vm)) { NKValue *v = nkxCompilerCreateGlobalVariable(x.cs, ("hostglobal" + std::to_string(o.a)).c_str()); if(v) nkxValueSetInt(vm, v, 5); } break;
        case O_GCPARAM: nkxSetGarbageCollectionInterval(vm, o.a); nkxSetGarbageCollectionNewObjectInterval(vm, o.b); break;
        case O_EXECUTE: note(nkxVmExecuteProgram(vm) ? "executed" : "not executed"); break;
        case O_CFUNC: if(x.cs && !nkxVmHasErrors(vm)) { std::string n = "hostfunc" + std::to_string(o.a); nkxCompilerCreateCFunctionVariable(x.cs, n.c_str(), nExtra); again.push_back([n](NKVM *v) { nkxVmRegisterExternalFunction(v, n.c_str(), nExtra); }); } break;
        case O_CONVERT: { NKValue v = nilValue(); if(o.b == 0) nkxValueSetString(vm, &v, o.text.c_str()); else if(o.b == 1) { if(NKValue *w = ob(o.a)) v = *w; } else nkxValueSetFloat(vm, &v, (float)o.a * 0.75f); if(o.c == 0) note(std::to_string(nkxValueToInt(vm, &v))); else if(o.c == 1) note(std::to_string(nkxValueToFloat(vm, &v))); else { const char *s = nkxValueToString(vm, &v); note(s ? s : "no string"); } break; }
        case O_SUBDATA: { std::string n = "sub" + std::to_string(o.a); void *p = o.b ? nkxGetExternalSubsystemDataOrError(vm, n.c_str()) : nkxGetExternalSubsystemData(vm, n.c_str()); note(p ? "subsystem" : "no subsystem"); break; }
        case O_LIMITS: if(o.a == 0) nkxSetMaxStackSize(vm, o.b); else if(o.a == 1) nkxSetMaxFieldsPerObject(vm, o.b); else nkxSetRemainingInstructionLimit(vm, o.b); break;
        case O_FORCE: if(o.a == 0) { x.forced = true; nkxForceCatastrophicFailure(vm); } else {
            NKVMExternalFunctionID e = nkxVmRegisterExternalFunction(vm, "forces", nForce); again.push_back([](NKVM *v) { nkxVmRegisterExternalFunction(v, "forces", nForce); });
            if(e.id == NK_INVALID_VALUE) break;
            NKVMInternalFunctionID f = nkxVmGetOrCreateInternalFunctionForExternalFunction(vm, e);
            if(f.id != NK_INVALID_VALUE && !nkxVmHasErrors(vm)) { NKValue v = nilValue(), r = nilValue(); nkxValueSetFunction(vm, &v, f); nkxVmCallFunction(vm, &v, 0, nullptr, &r); note("forced " + std::to_string(r.type)); }
        } break;
        case O_DUMP: { static FILE *null = fopen("/dev/null", "w"); if(null) nkxDbgDumpState(vm, "", null); break; }
    }
}
uint64_t HistoryRun::subsystemsMissing() const { return subInits - subCleanups; }
bool HOp::takesOver() const { return kind == O_LOAD && a == 2; }
