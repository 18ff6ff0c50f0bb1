#include "vm.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>

// ---- allocator -----------------------------------------------------------
static Alloc *fallbackAlloc = nullptr;   // most recent user, when user data does not arrive

void *Alloc::get(uint64_t size) {
    if(onGet) onGet();
    uint64_t n = requests++;
    if(!n) firstSize = size;
    if(logSizes) sizesWanted.push_back(size);
    if(failAt >= 0 && n >= (uint64_t)failAt && (persistent || n < (uint64_t)(failUntil < 0 ? failAt + 1 : failUntil))) { failed++; return nullptr; }
    if(size > (1u << 30)) { failed++; return nullptr; } // nothing generated needs this much
    Block *b = (Block *)malloc(sizeof(Block) + size);
    if(!b) { failed++; return nullptr; }
    b->magic = LIVE; b->owner = this; b->size = size; b->serial = n; b->pad = 0;
    b->prev = nullptr; b->next = head; if(head) head->prev = b; head = b;
    cur += size; live++; if(cur > peak) peak = cur;
    memset(b + 1, fill, size < 65536 ? size : 65536);
    return b + 1;
}
void Alloc::put(void *p) {
    if(!p) return;
    Block *b = (Block *)p - 1;
    if(b->magic != LIVE) {
        trouble = b->magic == DEAD ? "block freed twice" : "free of a pointer that did not come from this allocator";
        fprintf(stderr, "%s\n", trouble.c_str());
        abort();
    }
    if(b->owner != this) { if(trouble.empty()) trouble = "block freed with the user data of another VM"; b->owner->put(p); return; }
    if(b->prev) b->prev->next = b->next; else head = b->next;
    if(b->next) b->next->prev = b->prev;
    cur -= b->size; live--;
    b->magic = DEAD;
    free(b);
}
void Alloc::releaseAll() {
    while(head) { Block *n = head->next; head->magic = DEAD; free(head); head = n; }
    cur = live = 0;
    if(fallbackAlloc == this) fallbackAlloc = nullptr;
}
void *Alloc::cbMalloc(nkuint32_t size, void *ud) {
    Alloc *a = (Alloc *)ud;
    if(!a) { a = fallbackAlloc; if(a->trouble.empty()) a->trouble = "allocator called without its user data"; }
    return a->get(size);
}
void Alloc::cbFree(void *p, void *ud) {
    Alloc *a = (Alloc *)ud;
    if(!p) return;
    if(!a) {
        Block *b = (Block *)p - 1;
        if(b->magic != LIVE) { fprintf(stderr, "free of something that is not a live block\n"); abort(); }
        a = b->owner; if(a->trouble.empty()) a->trouble = "allocator called without its user data";
    }
    a->put(p);
}

// ---- text ------------------------------------------------------------------
std::string showFloat(float f) {
    if(f != f) return "nan";
    char b[64]; snprintf(b, sizeof b, "%.9g", f); return b;
}
std::string showStr(const std::string &s) {
    std::string o = "\"";
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if(c == '\n') o += "\\n";
        else if(c < 32 || c == 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
std::string quoteForLog(const char *s) { return showStr(s ? s : "(null)"); }

std::string showValue(NKVM *vm, const NKValue *cv) {
    NKValue *v = const_cast<NKValue *>(cv);
    switch(v->type) {
        case NK_VALUETYPE_INT: return "int:" + std::to_string(v->intData);
        case NK_VALUETYPE_FLOAT: return "float:" + showFloat(v->floatData);
        case NK_VALUETYPE_STRING: { const char *s = nkxValueToString(vm, v); return "str:" + quoteForLog(s); }
        case NK_VALUETYPE_FUNCTIONID: return "fn";
        case NK_VALUETYPE_OBJECTID: return "obj(" + std::to_string(nkxVmObjectGetSize(vm, v)) + ")";
        case NK_VALUETYPE_NIL: return "nil";
    }
    return "badtype(" + std::to_string((unsigned)v->type_uint) + ")";
}

const std::vector<ProbeKey> probeKeys = [] {
    std::vector<ProbeKey> k;
    for(int i = -2; i <= 9; i++) k.push_back({0, i, 0, nullptr});
    for(float f : { 0.5f, 1.0f, 2.0f, -1.5f }) k.push_back({1, 0, f, nullptr});
    for(const char *s : { "i1", "i2", "i3", "f1", "f2", "s1", "s2", "o1", "o2", "m1", "m2", "m3", "_exec", "_data", "x1", "x2", "1", "2", "" }) k.push_back({2, 0, 0, s});
    return k;
}();

static NKValue probeValue(NKVM *vm, const ProbeKey &k) {
    if(k.kind == 0) return intValue(vm, k.i);
    if(k.kind == 1) return floatValue(vm, k.f);
    return strValue(vm, k.s);
}

std::string Dumper::dump(const NKValue *v, int depth) {
    if(v->type != NK_VALUETYPE_OBJECTID) return showValue(vm, v);
    auto it = ids.find(v->objectId);
    if(it != ids.end()) return "#" + std::to_string(it->second);
    int me = next++; ids[v->objectId] = me;
    NKValue ob = *v;
    std::string o = "obj#" + std::to_string(me) + "(" + std::to_string(nkxVmObjectGetSize(vm, &ob)) + "){";
    if(depth < depthMax) {
        for(const auto &k : probeKeys) {
            NKValue kv = probeValue(vm, k);
            if(nkxVmHasErrors(vm) && nkxVmHasAllocationFailure(vm)) break;
            NKValue *e = nkxVmObjectFindOrAddEntry(vm, &ob, &kv, nktrue);
            if(!e || e->type == NK_VALUETYPE_NIL) continue;
            NKValue ev = *e;
            o += showValue(vm, &kv).substr(k.kind == 2 ? 4 : 0) + "=" + dump(&ev, depth + 1) + ",";
        }
    } else o += "...";
    return o + "}";
}

std::string dumpGlobals(NKVM *vm, const std::vector<std::string> &names) {
    std::string o; Dumper d(vm);
    for(auto &n : names) {
        NKValue *v = nkxVmFindGlobalVariable(vm, nullptr, n.c_str());
        if(!v) { o += n + " missing\n"; continue; }
        NKValue c = *v;
        o += n + " = " + d.dump(&c) + "\n";
    }
    return o;
}

// ---- natives ---------------------------------------------------------------
#define H Host &h = *hostOf(d->vm)
static void nOut(NKVMFunctionCallbackData *d) {
    H; if(h.onNative) h.onNative(h, "out");
    std::string s = "out";
    for(nkuint32_t i = 0; i < d->argumentCount; i++) s += " " + showValue(d->vm, &d->arguments[i]);
    h.outCount++; h.line(s);
}
static void nDump(NKVMFunctionCallbackData *d) {
    H; if(h.onNative) h.onNative(h, "dump");
    std::string s = "dump"; Dumper du(d->vm);
    for(nkuint32_t i = 0; i < d->argumentCount; i++) s += " " + du.dump(&d->arguments[i]);
    h.outCount++; h.line(s);
}
static void nId(NKVMFunctionCallbackData *d) {
    if(!nkxFunctionCallbackCheckArgCount(d, 1, "id")) return;
    H; if(h.onNative) h.onNative(h, "id");
    d->returnValue = d->arguments[0];
}
static void nCall(NKVMFunctionCallbackData *d) {
    H; if(h.onNative) h.onNative(h, "call");
    if(d->argumentCount < 1) { nkxAddError(d->vm, "call needs a function"); return; }
    NKValue ret = nilValue();
    h.callDepth++;
    nkxVmCallFunction(d->vm, &d->arguments[0], d->argumentCount - 1, d->arguments + 1, &ret);
    h.callDepth--;
    if(nkxVmHasErrors(d->vm)) return;
    d->returnValue = ret;
}
static void nGc(NKVMFunctionCallbackData *d) {
    H; if(h.onNative) h.onNative(h, "gc");
    nkxVmGarbageCollect(d->vm);
}
static void nErr(NKVMFunctionCallbackData *d) {
    H; if(h.onNative) h.onNative(h, "err");
    nkxAddError(d->vm, "raised by native code");
}
static void nSum(NKVMFunctionCallbackData *d) { // typed: int, int
    H; if(h.onNative) h.onNative(h, "sum");
    if(d->argumentCount != 2 || d->arguments[0].type != NK_VALUETYPE_INT || d->arguments[1].type != NK_VALUETYPE_INT) { h.line("sum entered with wrong arguments"); return; }
    nkxValueSetInt(d->vm, &d->returnValue, (int)((unsigned)d->arguments[0].intData + (unsigned)d->arguments[1].intData));
}
static void nTag(NKVMFunctionCallbackData *d) { // typed: string, any
    H; if(h.onNative) h.onNative(h, "tag");
    if(d->argumentCount != 2 || d->arguments[0].type != NK_VALUETYPE_STRING) { h.line("tag entered with wrong arguments"); return; }
    h.line("tag " + showValue(d->vm, &d->arguments[0]) + " " + showValue(d->vm, &d->arguments[1]));
    d->returnValue = d->arguments[1];
}

// Boxes: objects of an external type whose native data refers to a value.
struct Box { uint64_t magic; NKValue v; };
static const uint64_t BOX_LIVE = 0xB0C5B0C5B0C50001ull, BOX_DEAD = 0xB0C5DEADB0C5DEADull;
static void boxSerialize(NKVM *vm, NKValue *ob, void *data) {
    Host *h = hostOf(vm);
    Box *b = (Box *)data;
    if(!b) {
        if(nkxSerializerGetWriteMode(vm) && h->hostile) { NKValue n = nilValue(); nkxSerializeData(vm, &n, sizeof n); return; }
        if(nkxSerializerGetWriteMode(vm)) { h->boxTrouble = "box saved without its data"; return; }
        b = (Box *)malloc(sizeof(Box)); b->magic = BOX_LIVE; b->v = nilValue();
        h->boxesMade++;
        if(!nkxVmObjectSetExternalData(vm, ob, b)) { free(b); h->boxesMade--; return; }
    } else if(b->magic != BOX_LIVE) { h->boxTrouble = "box saved after its cleanup"; return; }
    nkxSerializeData(vm, &b->v, sizeof b->v);
    if(b->v.type_uint > NK_VALUETYPE_NIL) b->v = nilValue();
}
static void boxCleanup(NKVM *vm, NKValue *, void *data) {
    Host *h = hostOf(vm);
    Box *b = (Box *)data;
    if(!b) return;
    if(b->magic != BOX_LIVE) { h->boxTrouble = "cleanup of a box ran twice"; return; }
    b->magic = BOX_DEAD; h->boxesCleaned++;
    free(b);
}
static void boxMark(NKVM *vm, NKValue *, void *data, NKVMGCState *st) {
    Box *b = (Box *)data;
    if(b) nkxVmGarbageCollect_markValue(vm, st, &b->v);
}
// Runs at VM deletion. After an allocation failure it is the only one to dispose of the boxes.
static void boxLibCleanup(NKVM *vm, void *) {
    Host *h = hostOf(vm);
    h->libCleanups++;
    NKValue v = nilValue(); uint32_t at = 0;
    while(nkxGetNextObjectOfExternalType(vm, h->boxType, &v, &at)) {
        Box *b = (Box *)nkxVmObjectGetExternalData(vm, &v);
        if(b && b->magic != BOX_LIVE) { h->boxTrouble = "a box seen at deletion had been cleaned up"; return; }
        if(!nkxVmHasAllocationFailure(vm)) { if(!h->disposeEarly) continue; nkxVmObjectSetExternalData(vm, &v, nullptr); }
        if(b) { b->magic = BOX_DEAD; h->boxesCleaned++; free(b); }
    }
}
static void nBox(NKVMFunctionCallbackData *d) {
    H; if(h.onNative) h.onNative(h, "box");
    if(!nkxFunctionCallbackCheckArgCount(d, 1, "box")) return;
    NKValue o = nilValue();
    nkxCreateObject(d->vm, &o);
    if(o.type != NK_VALUETYPE_OBJECTID || nkxVmHasErrors(d->vm)) return;
    Box *b = (Box *)malloc(sizeof(Box)); b->magic = BOX_LIVE; b->v = d->arguments[0];
    h.boxesMade++;
    nkxVmObjectSetExternalType(d->vm, &o, h.boxType);
    nkxVmObjectSetExternalData(d->vm, &o, b);
    d->returnValue = o;
}
static void nUnbox(NKVMFunctionCallbackData *d) {
    H; if(h.onNative) h.onNative(h, "unbox");
    if(!nkxFunctionCallbackCheckArgCount(d, 1, "unbox")) return;
    Box *b = (Box *)nkxFunctionCallbackGetExternalDataArgument(d, "unbox", 0, h.boxType);
    if(!b) { if(!nkxVmHasErrors(d->vm)) nkxAddError(d->vm, "box without data"); return; }
    d->returnValue = b->v;
}
static void nRebox(NKVMFunctionCallbackData *d) {
    H; if(h.onNative) h.onNative(h, "rebox");
    if(!nkxFunctionCallbackCheckArgCount(d, 2, "rebox")) return;
    Box *b = (Box *)nkxFunctionCallbackGetExternalDataArgument(d, "rebox", 0, h.boxType);
    if(!b) { if(!nkxVmHasErrors(d->vm)) nkxAddError(d->vm, "box without data"); return; }
    b->v = d->arguments[1];
}
static void nHold(NKVMFunctionCallbackData *d) {
    H; if(h.onNative) h.onNative(h, "hold");
    if(!nkxFunctionCallbackCheckArgCount(d, 1, "hold")) return;
    if(d->arguments[0].type != NK_VALUETYPE_OBJECTID) { nkxAddError(d->vm, "hold of a non-object"); return; }
    NKValue v = d->arguments[0];
    nkxVmObjectAcquireHandle(d->vm, &v);
    if(nkxVmHasErrors(d->vm)) return;
    h.slots[h.nextHold] = v;
    nkxValueSetInt(d->vm, &d->returnValue, h.nextHold++);
}
static void nHeld(NKVMFunctionCallbackData *d) {
    H; if(h.onNative) h.onNative(h, "held");
    if(!nkxFunctionCallbackCheckArguments(d, "held", 1, NK_VALUETYPE_INT)) return;
    auto it = h.slots.find(d->arguments[0].intData);
    if(it == h.slots.end()) nkxValueSetNil(d->vm, &d->returnValue);
    else d->returnValue = it->second;
}
static void nDrop(NKVMFunctionCallbackData *d) {
    H; if(h.onNative) h.onNative(h, "drop");
    if(!nkxFunctionCallbackCheckArguments(d, "drop", 1, NK_VALUETYPE_INT)) return;
    auto it = h.slots.find(d->arguments[0].intData);
    int n = 0;
    if(it != h.slots.end()) { NKValue v = it->second; h.slots.erase(it); nkxVmObjectReleaseHandle(d->vm, &v); n = 1; }
    nkxValueSetInt(d->vm, &d->returnValue, n);
}
static void nStr(NKVMFunctionCallbackData *d) {
    H; if(h.onNative) h.onNative(h, "str");
    if(!nkxFunctionCallbackCheckArgCount(d, 1, "str")) return;
    NKValue v = d->arguments[0];
    const char *s = nkxValueToString(d->vm, &v);
    std::string copy = s ? s : "";
    nkxValueSetString(d->vm, &d->returnValue, copy.c_str());
}
void Host::takeOver(Host &from) {
    log = std::move(from.log); outCount = from.outCount; slots = from.slots; nextHold = from.nextHold;
    callDepth = from.callDepth; extra = from.extra; onNative = from.onNative;
}

const std::vector<NativeDef> stdNatives = {
    { "out", nOut }, { "dump", nDump }, { "id", nId }, { "call", nCall }, { "gc", nGc }, { "err", nErr },
};

void registerNatives(Host &h, NKCompilerState *cs) {
    nkbool g = cs ? nktrue : nkfalse;
    std::vector<std::function<void()>> all;
    auto plain = [&](const NativeDef &n) { const NativeDef *d = &n; all.push_back([&h, cs, g, d] { nkxVmSetupExternalFunction(h.vm, cs, d->name, d->fn, g, NK_INVALID_VALUE); }); };
    for(auto &n : stdNatives) plain(n);
    all.push_back([&] { nkxVmSetupExternalFunction(h.vm, cs, "sum", nSum, g, 2, NK_VALUETYPE_INT, NK_VALUETYPE_INT); });
    all.push_back([&] { nkxVmSetupExternalFunction(h.vm, cs, "tag", nTag, g, 2, NK_VALUETYPE_STRING, NK_VALUETYPE_NIL); });
    static const NativeDef more[] = { { "box", nBox }, { "unbox", nUnbox }, { "rebox", nRebox }, { "hold", nHold }, { "held", nHeld }, { "drop", nDrop }, { "str", nStr } };
    for(auto &n : more) plain(n);
    for(auto &n : h.extraNatives) plain(n);
    if(uint32_t r = h.nativeOrder) for(size_t i = all.size() - 1; i > 0; i--) { r = r * 1664525u + 1013904223u; std::swap(all[i], all[(r >> 8) % (i + 1)]); }
    for(auto &f : all) f();
}

// ---- host -------------------------------------------------------------------
bool Host::createVmOnly() {
    fallbackAlloc = alloc;
    NKVMCreateParams p; memset(&p, 0, sizeof p);
    p.mallocReplacement = Alloc::cbMalloc; p.freeReplacement = Alloc::cbFree; p.mallocAndFreeReplacementUserData = alloc;
    vm = nkxVmCreateEx(&p);
    if(!vm) return false;
    nkxSetUserData(vm, this);
    return true;
}
bool Host::start() {
    boxType = nkxVmRegisterExternalType(vm, "box", boxSerialize, boxCleanup, boxMark);
    if(nkxInitSubsystem(vm, cs, "boxlib", this, boxLibCleanup, nullptr)) libInits = 1;
    if(setup) setup(*this, cs);
    registerNatives(*this, cs);
    return !nkxVmHasErrors(vm);
}
bool Host::create() {
    if(!createVmOnly()) return false;
    cs = nkxCompilerCreate(vm);
    if(!cs) return false;
    return start();
}
void Host::destroy() {
    fallbackAlloc = alloc;
    if(cs) { nkxCompilerFinalize(cs); cs = nullptr; }
    if(vm) { NKVM *v = vm; nkxVmDelete(v); vm = nullptr; }
}
bool Host::compile(const std::string &text, const char *file) { return nkxCompilerCompileScript(cs, text.c_str(), file); }
void Host::finalize() { if(cs) { NKCompilerState *c = cs; cs = nullptr; nkxCompilerFinalize(c); } }
std::string Host::errorText() {
    uint32_t n = nkxGetErrorLength(vm);
    std::vector<char> b(n + 1, 0);
    nkxGetErrorText(vm, b.data());
    return b.data();
}
bool Host::run(uint64_t maxInstr) {
    while(maxInstr && !nkxVmHasErrors(vm) && !nkxVmProgramHasEnded(vm)) {
        uint32_t n = maxInstr > 4096 ? 4096 : (uint32_t)maxInstr;
        nkxVmIterate(vm, n);
        maxInstr -= n;
    }
    return nkxVmHasErrors(vm) || nkxVmProgramHasEnded(vm);
}

// ---- images -------------------------------------------------------------------
nkbool imageWriter(void *data, nkuint32_t size, void *ud, nkbool writeMode) {
    Image *im = (Image *)ud;
    int64_t n = im->calls++;
    if(im->failedOnce) { im->callsAfterFailure++; return nkfalse; }
    if(im->failAtCall >= 0 && n >= im->failAtCall) { im->failedOnce = true; return nkfalse; }
    if(writeMode) {
        if(im->data.size() + size > (64u << 20)) { im->failedOnce = true; return nkfalse; }
        if(im->cuts) im->cuts->push_back((uint32_t)im->data.size());
        im->data.append((const char *)data, size);
        return nktrue;
    }
    if(size > im->data.size() - im->pos) { im->failedOnce = true; return nkfalse; }
    memcpy(data, im->data.data() + im->pos, size);
    im->pos += size;
    return nktrue;
}
bool saveImage(NKVM *vm, Image &img) { return nkxVmSerialize(vm, imageWriter, &img, nktrue); }
bool loadImage(NKVM *vm, Image &img) { img.pos = 0; return nkxVmSerialize(vm, imageWriter, &img, nkfalse); }
