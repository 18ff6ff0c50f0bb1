// C25: external types and subsystems are found, saved and torn down as registered.
#include "drive.h"
#include <cstring>

namespace {
static const int MAXT = 8, MAXS = 6;
static const uint64_t LIVE = 0x0a71a0add00dfeedull;
static const char *const NAMES[] = {
    "t", "t1", "t10", "T1", "t1 ", "texture", "textures", "tex", "", "bdb", "cbc", "aef", "bcg", "coroutines", "box", "hostlib2", "%s%n", "\xff\x80", "very long name " "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789", "very long name" };
static const int NNAMES = sizeof NAMES / sizeof *NAMES;
struct Data { uint64_t magic = LIVE; int obj = 0; std::vector<uint8_t> bytes; int cleaned = 0; };
struct Type { std::string name; bool ser = false, clean = false, mark = false; NKVMExternalDataTypeID id{NK_INVALID_VALUE}; };
struct Sub { std::string name; int cb = 0; bool ser = false, clean = false; void *data = nullptr; std::vector<uint8_t> bytes; };
struct Obj { NKValue v; int type = -1; Data *data = nullptr; uint32_t handles = 0; int ref = -1; bool gone = false, cleaned = false; };

struct World {
    pbt::Case &c; pbt::Gen &g; Alloc alloc; std::unique_ptr<Host> h;
    std::vector<Type> types; std::vector<Sub> subs; std::vector<Obj> objs; std::vector<std::unique_ptr<Data>> pool;
    std::string history, trouble; uint64_t hash = 11, ops = 0, enumerated = 0, saves = 0, finds = 0; bool errs = false, faulty = false, deleting = false, allocFailed = false;
    int datas[MAXS + 4]; std::vector<int> subSer, objSer, subClean; std::vector<int> reclaimed; bool loading = false; std::vector<int> cleanupEnumerates; bool cleanupDetaches = false;
    std::vector<Data *> loadData; bool inflight = false;
    explicit World(pbt::Case &cc) : c(cc), g(cc.g) {}
    static World *of(NKVM *vm) { return (World *)hostOf(vm)->extra; }
    void note(const std::string &s) { history += "\n" + s; if(history.size() > 12000) history.erase(0, 4000); c.describe(history); hash = pbt::hashStr(s, hash); }
    void fail(const std::string &s) { c.failStr(s + (trouble.size() ? " (" + trouble + ")" : "")); }
    void bad(const std::string &s) { if(trouble.empty()) trouble = s; }

    // ---- callbacks: which one was called is part of what is checked ----
    template <int T> static void tSer(NKVM *vm, NKValue *ob, void *data) { of(vm)->objectSerialization(vm, T, ob, data); }
    template <int T> static void tClean(NKVM *vm, NKValue *ob, void *data) { of(vm)->objectCleanup(vm, T, ob, data); }
    template <int T> static void tMark(NKVM *vm, NKValue *ob, void *data, NKVMGCState *st) { of(vm)->objectMark(vm, T, ob, data, st); }
    template <int S> static void sSer(NKVM *vm, void *data) { of(vm)->subSerialization(vm, S, data); }
    template <int S> static void sClean(NKVM *vm, void *data) { of(vm)->subCleanup(vm, S, data); }
    int objectOf(NKValue *ob) { if(ob->type != NK_VALUETYPE_OBJECTID) return -1; for(size_t i = 0; i < objs.size(); i++) if(!objs[i].gone && objs[i].v.objectId == ob->objectId) return (int)i; return -1; }
    void blob(NKVM *vm, std::vector<uint8_t> &b) {     // bytes of a random length, in several pieces
        uint32_t n = (uint32_t)b.size(); if(!nkxSerializeData(vm, &n, sizeof n)) return bad("serializing data failed");
        if(n > 100000) return bad("the bytes read are not the ones written");
        b.resize(n); uint32_t at = 0; while(at < n) { uint32_t k = n - at; if(k > 7 && n % 3) k = 7; if(!nkxSerializeData(vm, b.data() + at, k)) return bad("serializing data failed"); at += k; }
    }
    void objectSerialization(NKVM *vm, int t, NKValue *ob, void *data) {
        if(t >= (int)types.size() || !types[t].ser) return bad("a serialization callback was called that is not registered");
        bool write = nkxSerializerGetWriteMode(vm); if(write == loading) return bad("wrong write mode reported");
        if(write) {
            int i = objectOf(ob); if(i < 0) return bad("serialization callback for an unknown object");
            if(objs[i].type != t) return bad("serialization callback of another type called for #" + std::to_string(i));
            if(data != (void *)objs[i].data) return bad("serialization callback got other data than attached to #" + std::to_string(i));
            objSer[i]++;
            std::vector<uint8_t> b; if(objs[i].data) b = objs[i].data->bytes; int32_t id = objs[i].data ? objs[i].data->obj : -1; nkxSerializeData(vm, &id, sizeof id); blob(vm, b);
        } else {
            if(data) return bad("loading: the object has data already");
            int32_t id = -2; if(!nkxSerializeData(vm, &id, sizeof id)) return bad("reading failed"); std::vector<uint8_t> b; blob(vm, b);
            int i = objectOf(ob); if(i < 0) return bad("loading: serialization callback for an unknown object");
            if(objs[i].type != t) return bad("loading: serialization callback of another type called for #" + std::to_string(i));
            objSer[i]++;
            if(id != (objs[i].data ? objs[i].data->obj : -1) || (objs[i].data && b != objs[i].data->bytes)) return bad("loading: the bytes of another object, or none, arrived for #" + std::to_string(i));
            if(id >= 0) { pool.emplace_back(new Data); Data *d = pool.back().get(); d->obj = i; d->bytes = b; nkxVmObjectSetExternalData(vm, ob, d); loadData[i] = d; }
        }
    }
    void objectCleanup(NKVM *vm, int t, NKValue *ob, void *data) {
        if(allocFailed && nkxVmHasAllocationFailure(vm)) return bad("an object's cleanup callback was called after an allocation failure");
        if(t >= (int)types.size() || !types[t].clean) return bad("a cleanup callback was called that is not registered");
        int i = objectOf(ob);
        if(i < 0) { if(inflight) return; return bad("cleanup callback for an unknown object"); }
        if(objs[i].type != t) return bad("cleanup callback of another type called for #" + std::to_string(i));
        if(data != (void *)objs[i].data) return bad("cleanup callback got other data than attached to #" + std::to_string(i));
        if(objs[i].cleaned) return bad("#" + std::to_string(i) + " was cleaned up twice");
        objs[i].cleaned = true; if(objs[i].data) objs[i].data->cleaned++; reclaimed.push_back(i);
    }
    void objectMark(NKVM *vm, int t, NKValue *ob, void *data, NKVMGCState *st) {
        if(t >= (int)types.size() || !types[t].mark) return bad("a mark callback was called that is not registered");
        int i = objectOf(ob); if(i < 0) { if(inflight) return; return bad("mark callback for an unknown object"); }
        if(objs[i].type != t) return bad("mark callback of another type called for #" + std::to_string(i));
        if(data != (void *)objs[i].data) return bad("mark callback got other data than attached to #" + std::to_string(i));
        if(objs[i].ref >= 0) { NKValue v = objs[objs[i].ref].v; nkxVmGarbageCollect_markValue(vm, st, &v); }
    }
    int subOf(int cb, void *data) { for(size_t i = 0; i < subs.size(); i++) if(subs[i].cb == cb && subs[i].data == data) return (int)i; return -1; }
    void subSerialization(NKVM *vm, int s, void *data) {
        int i = subOf(s, data); if(i < 0 || !subs[i].ser) return bad("serialization callback of a subsystem called that is not registered, or with other data");
        bool write = nkxSerializerGetWriteMode(vm); if(write == loading) return bad("wrong write mode reported");
        subSer[i]++;
        if(nkxGetExternalSubsystemData(vm, subs[i].name.c_str()) != data) bad("inside its serialization callback a subsystem's data is not found");
        if(write) { std::vector<uint8_t> b = subs[i].bytes; blob(vm, b); }
        else { std::vector<uint8_t> b; blob(vm, b); if(b != subs[i].bytes) bad("loading: subsystem " + showStr(subs[i].name) + " got other bytes than it wrote"); }
    }
    void subCleanup(NKVM *vm, int s, void *data) {
        int i = subOf(s, data); if(i < 0 || !subs[i].clean) return bad("cleanup callback of a subsystem called that is not registered, or with other data");
        if(!deleting) return bad("a subsystem was cleaned up before the VM was deleted");
        if(subClean[i]++) return bad("subsystem " + showStr(subs[i].name) + " was cleaned up twice");
        if(nkxGetExternalSubsystemData(vm, subs[i].name.c_str()) != data) bad("inside its cleanup callback a subsystem's data is not found");
        for(int t : cleanupEnumerates) enumerate(vm, t, false, true);
        if(cleanupDetaches && !allocFailed) { // disposes of the data of its objects itself
            int t = cleanupEnumerates.empty() ? -1 : cleanupEnumerates[0]; if(t < 0) return;
            auto live = alive(); for(int k : live) if(Obj &o = objs[k]; o.type == t && o.data) { NKValue v = o.v; if(!nkxVmObjectSetExternalData(vm, &v, nullptr)) bad("detaching data in a cleanup callback failed"); o.data = nullptr; }
        }
    }

    // ---- model ----
    std::set<int> alive() {
        std::set<int> s; std::vector<int> open; for(size_t i = 0; i < objs.size(); i++) if(objs[i].handles && !objs[i].gone) { s.insert((int)i); open.push_back((int)i); }
        while(open.size()) { int i = open.back(); open.pop_back(); if(objs[i].type >= 0 && types[objs[i].type].mark && objs[i].ref >= 0 && s.insert(objs[i].ref).second) open.push_back(objs[i].ref); }
        return s;
    }
    int anyAlive() { auto s = alive(); if(s.empty()) return -1; auto it = s.begin(); std::advance(it, g.below((uint32_t)s.size())); return *it; }
    void settle(bool collected) {
        if(trouble.size()) fail("callbacks");
        auto s = alive();
        for(int i : reclaimed) { if(s.count(i)) fail("#" + std::to_string(i) + " was cleaned up although it is alive"); objs[i].gone = true; }
        reclaimed.clear();
        if(collected) for(size_t i = 0; i < objs.size(); i++) { Obj &o = objs[i]; if(o.gone || s.count((int)i)) continue; if(o.type >= 0 && types[o.type].clean) fail("#" + std::to_string(i) + " is not alive but was not cleaned up by a collection"); o.gone = true; }
    }
    void enumerate(NKVM *vm, int t, bool exact, bool inCleanup) {
        std::map<unsigned, int> got; NKValue v = nilValue(); uint32_t at = 0; unsigned guard = 0;
        auto err = [&](const std::string &s) { if(inCleanup) bad(s); else fail(s); };
        while(nkxGetNextObjectOfExternalType(vm, types[t].id, &v, &at)) {
            if(v.type != NK_VALUETYPE_OBJECTID) return err("enumeration gave something that is not an object");
            if(got[v.objectId]++) return err("enumeration gave an object twice");
            if(++guard > 100000) return err("enumeration does not end");
            enumerated++;
        }
        auto s = alive();
        for(int i : s) if(objs[i].type == t && !got.count(objs[i].v.objectId)) return err("enumeration of " + showStr(types[t].name) + " left out #" + std::to_string(i));
        for(auto &x : got) {
            int i = -1; for(size_t k = 0; k < objs.size(); k++) if(!objs[k].gone && objs[k].v.objectId == x.first) i = (int)k;
            if(i < 0) { if(inflight) continue; return err("enumeration of " + showStr(types[t].name) + " gave an object that does not exist"); }
            if(objs[i].type != t) return err("enumeration of " + showStr(types[t].name) + " gave #" + std::to_string(i) + " of another type");
            if(exact && !s.count(i)) return err("enumeration of " + showStr(types[t].name) + " gave #" + std::to_string(i) + " which was collected");
            NKValue w = objs[i].v; if(nkxVmObjectGetExternalData(vm, &w) != (void *)objs[i].data) return err("data of #" + std::to_string(i) + " differs during enumeration");
        }
    }
    void checkObject(int i) {
        Obj &o = objs[i]; NKValue v = o.v; std::string me = "#" + std::to_string(i);
        unsigned want = o.type < 0 ? NK_INVALID_VALUE : types[o.type].id.id;
        if(nkxVmObjectGetExternalType(h->vm, &v).id != want) fail(me + ": type changed");
        if(nkxVmObjectGetExternalData(h->vm, &v) != (void *)o.data) fail(me + ": data changed");
    }
    void checkRegistry() {
        NKVM *vm = h->vm;
        for(int k = 0; k < NNAMES; k++) {
            std::string n = NAMES[k]; unsigned want = NK_INVALID_VALUE; for(auto &t : types) if(t.name == n) want = t.id.id;
            bool mine = n != "box";
            if(mine && nkxVmFindExternalType(vm, n.c_str()).id != want) fail("type " + showStr(n) + (want == NK_INVALID_VALUE ? " is found, but was never registered" : " is not found, or as another type"));
            void *d = nullptr; for(auto &s : subs) if(s.name == n) d = s.data;
            if(nkxGetExternalSubsystemData(vm, n.c_str()) != d) fail("data of subsystem " + showStr(n) + (d ? " is not what was registered" : " is found, but was never registered"));
            finds += 2;
        }
        for(auto &t : types) { const char *n = nkxVmGetExternalTypeName(vm, t.id); if(!n || t.name != n) fail("name of type " + showStr(t.name) + " reads back as " + quoteForLog(n)); }
        NKVMExternalDataTypeID none = { NK_INVALID_VALUE }, past = { 1000 }; const char *e = nkxVmGetExternalTypeName(vm, none), *e2 = nkxVmGetExternalTypeName(vm, past); if(!e || *e || !e2 || *e2) fail("an invalid type id has a name");
    }

    // ---- steps ----
    static NKVMExternalObjectSerializationCallback serOf(int i) { static const NKVMExternalObjectSerializationCallback x[] = { tSer<0>, tSer<1>, tSer<2>, tSer<3>, tSer<4>, tSer<5>, tSer<6>, tSer<7> }; return x[i]; }
    static NKVMExternalObjectCleanupCallback cleanOf(int i) { static const NKVMExternalObjectCleanupCallback x[] = { tClean<0>, tClean<1>, tClean<2>, tClean<3>, tClean<4>, tClean<5>, tClean<6>, tClean<7> }; return x[i]; }
    static NKVMExternalObjectGCMarkCallback markOf(int i) { static const NKVMExternalObjectGCMarkCallback x[] = { tMark<0>, tMark<1>, tMark<2>, tMark<3>, tMark<4>, tMark<5>, tMark<6>, tMark<7> }; return x[i]; }
    static NKVMSubsystemSerializationCallback subSerOf(int i) { static const NKVMSubsystemSerializationCallback x[] = { sSer<0>, sSer<1>, sSer<2>, sSer<3> }; return x[i]; }
    static NKVMSubsystemCleanupCallback subCleanOf(int i) { static const NKVMSubsystemCleanupCallback x[] = { sClean<0>, sClean<1>, sClean<2>, sClean<3> }; return x[i]; }
    NKVMExternalDataTypeID doRegister(NKVM *vm, int i, const char *name) { Type &t = types[i]; return nkxVmRegisterExternalType(vm, name ? name : t.name.c_str(), t.ser ? serOf(i) : nullptr, t.clean ? cleanOf(i) : nullptr, t.mark ? markOf(i) : nullptr); }
    bool doInit(NKVM *vm, const Sub &s, const char *name = nullptr) { return nkxInitSubsystem(vm, nullptr, name ? name : s.name.c_str(), s.data, s.clean ? subCleanOf(s.cb) : nullptr, s.ser ? subSerOf(s.cb) : nullptr); }
    std::vector<uint8_t> bytes() { std::vector<uint8_t> b; int n = g.below(g.chance(1, 10) ? 400 : 20); for(int i = 0; i < n; i++) b.push_back((uint8_t)g.below(256)); return b; }
    void registerType() {
        std::string n = NAMES[g.below(NNAMES)]; if(n == "box" || types.size() >= MAXT) return;
        for(auto &t : types) if(t.name == n) return;
        Type t; t.name = n; t.ser = g.chance(1, 2); t.clean = g.chance(2, 3); t.mark = g.chance(1, 3); types.push_back(t);
        note("register type " + showStr(n) + (t.ser ? " ser" : "") + (t.clean ? " cleanup" : "") + (t.mark ? " mark" : ""));
        auto id = doRegister(h->vm, (int)types.size() - 1, nullptr); types.back().id = id;
        if(faulty && nkxVmHasAllocationFailure(h->vm)) return;
        if(id.id == NK_INVALID_VALUE) fail("registering failed");
        for(size_t i = 0; i + 1 < types.size(); i++) if(types[i].id.id == id.id) fail("two types have the same id");
    }
    void registerTwice() {
        if(types.empty()) return;
        std::string n = types[g.below((uint32_t)types.size())].name; if(g.chance(1, 6)) n = "coroutine";
        note("register type " + showStr(n) + " again"); uint32_t before = nkxGetErrorCount(h->vm);
        auto id = nkxVmRegisterExternalType(h->vm, n.c_str(), nullptr, nullptr, nullptr);
        if(faulty && nkxVmHasAllocationFailure(h->vm)) return;
        if(id.id != NK_INVALID_VALUE || nkxGetErrorCount(h->vm) != before + 1) fail("registering a type twice was not refused with an error");
        errs = true;
    }
    void initSub() {
        std::string n = NAMES[g.below(NNAMES)]; int at = -1;
        for(size_t i = 0; i < subs.size(); i++) if(subs[i].name == n) at = (int)i;
        if(at < 0 && subs.size() >= MAXS) at = (int)g.below((uint32_t)subs.size());
        Sub s; s.name = at >= 0 ? subs[at].name : n; s.cb = (int)g.below(4); s.ser = g.chance(1, 2); s.clean = g.chance(2, 3); s.bytes = bytes();
        std::vector<int> free; for(int i = 0; i < MAXS + 4; i++) { bool used = false; for(auto &x : subs) if(x.data == &datas[i]) used = true; if(!used) free.push_back(i); }
        s.data = &datas[free[g.below((uint32_t)free.size())]];
        note("init subsystem " + showStr(s.name) + " callbacks " + std::to_string(s.cb) + (s.ser ? " ser" : "") + (s.clean ? " cleanup" : "") + (at >= 0 ? " again" : ""));
        uint32_t before = nkxGetErrorCount(h->vm); bool ok = doInit(h->vm, s);
        if(faulty && nkxVmHasAllocationFailure(h->vm)) { return; }
        if(errs) { if(ok || nkxGetErrorCount(h->vm) != before + 1) fail("initializing a subsystem of a VM with errors was not refused"); return; }
        if(!ok) fail("initializing a subsystem failed");
        if(at >= 0) subs[at] = s; else subs.push_back(s);
    }
    void makeObject() {
        NKValue v = nilValue(); inflight = true; note("object #" + std::to_string(objs.size())); nkxCreateObject(h->vm, &v);
        if(faulty && nkxVmHasAllocationFailure(h->vm)) return;
        if(v.type != NK_VALUETYPE_OBJECTID) fail("no object was made");
        inflight = false;
        settle(false);
        for(auto &o : objs) if(!o.gone && o.v.objectId == v.objectId) { if(alive().count((int)(&o - objs.data()))) fail("a new object has the id of a live one"); if(o.type >= 0 && types[o.type].clean) fail("the slot of an object was reused before its cleanup"); o.gone = true; }
        Obj o; o.v = v; o.handles = 1; objs.push_back(o); nkxVmObjectAcquireHandle(h->vm, &v);
        if(faulty && nkxVmHasAllocationFailure(h->vm)) { objs.pop_back(); inflight = true; return; }
        checkObject((int)objs.size() - 1);
        if(g.chance(3, 4)) setType((int)objs.size() - 1);
        if(g.chance(2, 3)) setData((int)objs.size() - 1);
    }
    void setType(int i) {
        if(i < 0 || types.empty()) return; int t = g.chance(1, 8) ? -1 : (int)g.below((uint32_t)types.size());
        NKValue v = objs[i].v; NKVMExternalDataTypeID id = t < 0 ? NKVMExternalDataTypeID{NK_INVALID_VALUE} : types[t].id;
        note("#" + std::to_string(i) + " gets type " + (t < 0 ? "none" : showStr(types[t].name))); if(!nkxVmObjectSetExternalType(h->vm, &v, id) && !faulty) fail("setting the type failed");
        objs[i].type = t; objs[i].ref = -1; checkObject(i);
    }
    void setData(int i) {
        if(i < 0) return; NKValue v = objs[i].v; Data *d = nullptr;
        if(!g.chance(1, 8)) { pool.emplace_back(new Data); d = pool.back().get(); d->obj = i; d->bytes = bytes(); }
        note("#" + std::to_string(i) + (d ? " gets data" : " loses its data")); if(!nkxVmObjectSetExternalData(h->vm, &v, d) && !faulty) fail("setting the data failed");
        objs[i].data = d; if(!d) objs[i].ref = -1; checkObject(i);
    }
    void notAnObject() {
        NKValue v = intValue(h->vm, 3); if(g.chance(1, 2)) v = nilValue(); note("type and data of something that is not an object");
        if(nkxVmObjectGetExternalType(h->vm, &v).id != NK_INVALID_VALUE || nkxVmObjectGetExternalData(h->vm, &v)) fail("a value that is not an object has a type or data");
        uint32_t before = nkxGetErrorCount(h->vm); bool t = g.chance(1, 2) && types.size(); bool r = t ? nkxVmObjectSetExternalType(h->vm, &v, types[0].id) : nkxVmObjectSetExternalData(h->vm, &v, &datas[0]);
        if(faulty && nkxVmHasAllocationFailure(h->vm)) return;
        if(r || nkxGetErrorCount(h->vm) != before + 1) fail("setting the type or data of a value that is not an object was not refused"); errs = true;
    }
    void lookup() {
        std::string n = NAMES[g.below(NNAMES)]; void *d = nullptr; for(auto &s : subs) if(s.name == n) d = s.data;
        if(!d && !g.chance(1, 10)) return;
        note("data of subsystem " + showStr(n)); uint32_t before = nkxGetErrorCount(h->vm);
        void *got = nkxGetExternalSubsystemDataOrError(h->vm, n.c_str());
        if(faulty && nkxVmHasAllocationFailure(h->vm)) return;
        if(got != d) fail("the subsystem's data is not what was registered");
        if(nkxGetErrorCount(h->vm) != before + (d ? 0 : 1)) fail(d ? "an error was reported although the subsystem exists" : "no error was reported");
        if(!d) errs = true;
    }
    void hold(bool more) {
        int i = anyAlive(); if(i < 0) return; NKValue v = objs[i].v;
        if(more) { note("handle on #" + std::to_string(i)); nkxVmObjectAcquireHandle(h->vm, &v); if(!(faulty && nkxVmHasAllocationFailure(h->vm))) objs[i].handles++; }
        else if(objs[i].handles) { note("handle on #" + std::to_string(i) + " released"); nkxVmObjectReleaseHandle(h->vm, &v); objs[i].handles--; }
    }
    void refer() { int i = anyAlive(), j = anyAlive(); if(i < 0 || !objs[i].data || objs[i].type < 0 || !types[objs[i].type].mark) return; note("data of #" + std::to_string(i) + " refers to #" + std::to_string(j)); objs[i].ref = j; }
    void collect() { note("collect"); nkxVmGarbageCollect(h->vm); if(faulty && nkxVmHasAllocationFailure(h->vm)) { reclaimed.clear(); return; } settle(true); for(size_t t = 0; t < types.size(); t++) enumerate(h->vm, (int)t, true, false); }
    void shrink() { collect(); if(failed()) return; note("shrink"); nkxVmShrink(h->vm); }
    std::unique_ptr<Host> fresh(bool ready) { auto x = std::make_unique<Host>(&alloc); x->extra = this; (void)ready; return x; }
    void saveLoad() {
        if(errs) return;
        note("save"); saves++; loading = false; objSer.assign(objs.size(), 0); subSer.assign(subs.size(), 0);
        Image img; bool ok = saveImage(h->vm, img);
        if(faulty && nkxVmHasAllocationFailure(h->vm)) return;
        if(!ok) fail("saving failed: " + h->errorText()); if(trouble.size()) fail("saving");
        for(size_t i = 0; i < subs.size(); i++) if(subSer[i] != (subs[i].ser ? 1 : 0)) fail("saving called the serialization callback of " + showStr(subs[i].name) + " " + std::to_string(subSer[i]) + " times");
        auto s = alive(); for(int i : s) { bool want = objs[i].type >= 0 && types[objs[i].type].ser; if(objSer[i] != (want ? 1 : 0)) fail("saving called the serialization callback for #" + std::to_string(i) + " " + std::to_string(objSer[i]) + " times"); }
        if(faulty) return;
        // Into a fresh VM: same types in the same order, subsystems in any order, perhaps something missing.
        int lack = g.chance(1, 6) ? 1 + (int)g.below(3) : 0; if(lack == 1 && subs.empty()) lack = 0; if(lack >= 2 && types.empty()) lack = 0;
        note(lack ? "load where something is missing" : "load");
        auto old = std::move(h); h = fresh(true); if(!h->createVmOnly() || !h->start()) fail("creating a VM failed");
        size_t without = lack == 1 ? g.below((uint32_t)subs.size()) : lack >= 2 ? g.below((uint32_t)types.size()) : 0;
        std::vector<NKVMExternalDataTypeID> ids;
        for(size_t i = 0; i < types.size(); i++) {
            if(lack == 2 && i == without) continue;
            auto id = doRegister(h->vm, (int)i, lack == 3 && i == without ? "quite another name" : nullptr); ids.push_back(id);
            if(!lack && id.id != types[i].id.id) fail("the same registrations gave other ids");
        }
        std::vector<size_t> order; for(size_t i = 0; i < subs.size(); i++) order.insert(order.begin() + g.below((uint32_t)i + 1), i);
        for(size_t i : order) if(!(lack == 1 && i == without) && !doInit(h->vm, subs[i])) fail("initializing a subsystem failed");
        loading = true; auto saver = objSer; objSer.assign(objs.size(), 0); subSer.assign(subs.size(), 0); loadData.assign(objs.size(), nullptr); img.pos = 0;
        if(lack) { // no data of the subject may be lost in a VM where nobody can take it
            std::string t0 = trouble; bool r = loadImage(h->vm, img); trouble = t0;
            if(r) fail("an image was loaded into a VM where a type or subsystem is missing");
            if(!h->hasErrors()) fail("loading failed without an error");
            // Its deletion still tears down what was registered there.
            deleting = true; subClean.assign(subs.size(), 0); auto keep = objs; inflight = true; std::vector<int> ce; ce.swap(cleanupEnumerates); bool cd = cleanupDetaches; cleanupDetaches = false; auto tr = trouble;
            for(auto &o : objs) o.gone = true; h->destroy(); trouble = tr; objs = keep; inflight = false; ce.swap(cleanupEnumerates); cleanupDetaches = cd; reclaimed.clear(); deleting = false; loading = false;
            for(size_t i = 0; i < subs.size(); i++) if(subClean[i] != (subs[i].clean && !(lack == 1 && i == without) ? 1 : 0)) fail("after a failed load, deletion cleaned up subsystem " + showStr(subs[i].name) + " " + std::to_string(subClean[i]) + " times");
            h = std::move(old); settle(false); return;
        }
        if(!loadImage(h->vm, img)) fail("loading failed: " + h->errorText()); if(trouble.size()) fail("loading");
        for(size_t i = 0; i < subs.size(); i++) if(subSer[i] != (subs[i].ser ? 1 : 0)) fail("loading called the serialization callback of " + showStr(subs[i].name) + " " + std::to_string(subSer[i]) + " times");
        for(int i : s) { bool want = objs[i].type >= 0 && types[objs[i].type].ser; if(objSer[i] != (want ? 1 : 0)) fail("loading called the serialization callback for #" + std::to_string(i) + " " + std::to_string(objSer[i]) + " times"); }
        // The saved VM goes: its objects are cleaned up with the data they had there.
        auto nh = std::move(h); h = std::move(old); auto keep = objs; teardown(false); objs = keep; h = std::move(nh);
        for(size_t i = 0; i < objs.size(); i++) if(!objs[i].gone) { objs[i].data = loadData[i]; if(!objs[i].data) objs[i].ref = -1; }
        loading = false; for(int i : alive()) checkObject(i);
    }
    void teardown(bool final) {
        deleting = true; subClean.assign(subs.size(), 0); allocFailed = nkxVmHasAllocationFailure(h->vm); reclaimed.clear();
        auto s = alive();
        h->destroy();
        if(trouble.size()) fail("deletion");
        for(size_t i = 0; i < subs.size(); i++) if(subClean[i] != (subs[i].clean ? 1 : 0)) fail("deletion cleaned up subsystem " + showStr(subs[i].name) + " " + std::to_string(subClean[i]) + " times");
        for(size_t i = 0; i < objs.size(); i++) { Obj &o = objs[i]; if(o.gone || o.type < 0 || !types[o.type].clean) continue; if(!allocFailed && !o.cleaned) fail("deletion did not clean up #" + std::to_string(i)); }
        reclaimed.clear(); deleting = false; allocFailed = false;
        if(final) { if(alloc.live) fail(std::to_string(alloc.live) + " blocks not given back by VM deletion"); if(alloc.trouble.size()) fail(alloc.trouble); }
    }
    bool failed() { return faulty && nkxVmHasAllocationFailure(h->vm); }
    void go() {
        h = fresh(false); if(!h->create() || !h->compile("var g0;\nfunction junk(n) { var i = 0; while(i < n) { var o = object(); o.me = o; i++; } return n; }\n", "c25.nks")) fail("setting up failed");
        h->finalize(); h->run();
        nkxSetGarbageCollectionInterval(h->vm, 1 + g.below(30)); nkxSetGarbageCollectionNewObjectInterval(h->vm, 1 + g.below(6));
        cleanupDetaches = g.chance(1, 3); bool wantErrors = g.chance(1, 4), wantFault = g.chance(1, 4);
        int n = 8 + g.below(8 + (uint32_t)c.size), faultFrom = wantFault ? (int)g.below((uint32_t)n) : n + 1;
        for(int i = 0; i < n; i++) {
            if(i == faultFrom) { faulty = true; alloc.failAt = (int64_t)alloc.requests + g.below(12); alloc.persistent = g.chance(1, 2); note("an allocation will be refused"); }
            ops++;
            switch(g.weighted({5, 5, 10, 5, 5, 3, 4, 4, 4, 2, 3, 2, wantErrors ? 1u : 0, wantErrors ? 1u : 0, 2})) {
                case 0: registerType(); break; case 1: initSub(); break; case 2: makeObject(); break; case 3: setType(anyAlive()); break; case 4: setData(anyAlive()); break;
                case 5: hold(true); break; case 6: hold(false); break; case 7: refer(); break; case 8: collect(); break; case 9: shrink(); break;
                case 10: saveLoad(); break; case 11: if(wantErrors || g.chance(1, 1)) lookup(); break; case 12: registerTwice(); break; case 13: notAnObject(); break;
                default: if(!errs) { note("junk"); NKValue f = *nkxVmFindGlobalVariable(h->vm, nullptr, "junk"), a = intValue(h->vm, 1 + (int)g.below(30)), r = nilValue(); nkxVmCallFunction(h->vm, &f, 1, &a, &r); }
            }
            if(failed()) { note("allocation failed"); c.label("allocation failures"); break; }
            settle(false); for(int k : alive()) checkObject(k);
            if(!errs && h->hasErrors()) fail("unexpected error: " + h->errorText());
            if(g.chance(1, 4)) { checkRegistry(); for(size_t t = 0; t < types.size(); t++) enumerate(h->vm, (int)t, false, false); }
        }
        if(trouble.size()) fail("callbacks");
        bool oom = failed();
        if(oom) { // later calls do nothing, whatever they are; lookups stay safe
            inflight = true; if(reclaimed.size()) { for(int i : reclaimed) objs[i].gone = true; reclaimed.clear(); }
            for(int k = 0; k < 4; k++) nkxVmFindExternalType(h->vm, NAMES[g.below(NNAMES)]);
            for(auto &s : subs) { nkxGetExternalSubsystemData(h->vm, s.name.c_str()); }
            nkxVmGarbageCollect(h->vm); if(reclaimed.size()) fail("a collection after an allocation failure cleaned up objects");
        } else if(!faulty) checkRegistry();
        for(size_t t = 0; t < types.size(); t++) if(types[t].id.id != NK_INVALID_VALUE && g.chance(1, 2)) cleanupEnumerates.push_back((int)t);
        note("delete"); if(oom && g.chance(1, 2)) alloc.failAt = -1;
        teardown(true);
        c.label("steps", ops); c.label("objects enumerated", enumerated); c.label("lookups", finds); c.label("saves", saves);
        if(types.size() >= 2 && subs.size() >= 1 && objs.size() >= 2 && enumerated >= 1) c.nontrivial(hash);
    }
};
}

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C25";
    P.rule = "Histories of 8-116 steps: registering types and subsystems under names chosen to be confusable (prefixes, case, blanks, empty, hash collisions, longer than a buffer), with every combination of serialization, cleanup and mark callbacks, subsystems again under the same name; creating objects, giving them types and data, handles, references from native data, script garbage, collections, shrinking, saving and loading (into VMs that lack or rename a type, lack a subsystem: must be refused), double registrations and operations on non-objects (must be refused), some with an allocation refused at a random point. Each type and subsystem has its own callback functions, so a wrong callback, object, data pointer or byte is noticed. Checked against a model: lookups by every name, names by id, types and data of every object after each step, enumerations, which callbacks run when, what they read back, tear-down. Non-trivial: at least 2 types, a subsystem, 2 objects and one object enumerated; distinct by history.";
    P.assumptions = {"an image is loaded where the same types were registered in the same order, as the code documents", "type ids given to objects come from registration"};
    P.quickCases = 60000; P.thoroughCases = 2000000; P.quickWall = 28; P.thoroughWall = 800;
    P.run = [](pbt::Case &c) { World w(c); w.go(); };
    return pbt::main(P, argc, argv);
}
