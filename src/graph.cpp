#include "graph.h"
#include <cstring>

static Graph *graphOf(NKVM *vm) { return (Graph *)hostOf(vm)->extra; }

// ---- callbacks ------------------------------------------------------------------
template <int T> static void gSerialize(NKVM *vm, NKValue *ob, void *data) {
    Graph *g = graphOf(vm); auto *p = (Graph::Payload *)data;
    struct { int node, type, hasRef, hasKeep; NKValue ref, keep; } rec; memset(&rec, 0, sizeof rec);
    if(nkxSerializerGetWriteMode(vm)) {
        rec.node = -1; rec.ref = nilValue(); rec.keep = nilValue();
        if(p) { if(p->magic != Graph::LIVE || p->cleaned) { g->trouble = "an object was saved with data already cleaned up"; return; } if(p->type != T) g->trouble = "serialization callback of another type was called"; rec.node = p->node; rec.type = p->type; rec.hasRef = p->ref != nullptr; rec.hasKeep = p->keep != nullptr; if(p->ref) rec.ref = p->refV; if(p->keep) rec.keep = p->keepV; }
        nkxSerializeData(vm, &rec, sizeof rec);
    } else {
        if(p) g->trouble = "loading: the object had data before its serialization callback ran";
        if(!nkxSerializeData(vm, &rec, sizeof rec)) { g->trouble = "loading: reading what was written failed"; return; }
        if(rec.node < 0) return;
        if(rec.type != T) g->trouble = "loading: bytes of another type arrived";
        auto np = std::make_unique<Graph::Payload>(); np->magic = Graph::LIVE; np->owner = g; np->node = rec.node; np->type = T; np->generation = g->generation;
        Graph::Node *n = g->nodes[rec.node].get();
        if(n->v.objectId != ob->objectId) g->trouble = "loading: bytes of another object arrived";
        if(n->p) { np->ref = n->p->ref; np->keep = n->p->keep; np->refV = rec.ref; np->keepV = rec.keep; }
        n->p = np.get();
        nkxVmObjectSetExternalData(vm, ob, np.get());
        g->payloads.push_back(std::move(np));
    }
}
template <int T> static void gCleanup(NKVM *vm, NKValue *ob, void *data) {
    Graph *g = graphOf(vm); auto *p = (Graph::Payload *)data;
    g->cleanups++;
    if(!p) { // an object that carries the type without data
        Graph::Node *n = nullptr; for(auto &m : g->nodes) if(!m->gone && m->v.objectId == ob->objectId) n = m.get();
        if(!n || n->type != T) { g->trouble = "cleanup callback for an object that does not carry its type"; return; }
        if(n->p) { g->trouble = "cleanup callback of object " + std::to_string(n->id) + " did not get its data"; return; }
        if(n->bareCleanups++) { g->trouble = "object " + std::to_string(n->id) + " was cleaned up twice"; return; }
        g->justCleanedBare.push_back(n);
        return;
    }
    if(p->magic != Graph::LIVE) { g->trouble = "cleanup callback with a pointer that was never attached"; return; }
    if(p->type != T) { g->trouble = "cleanup callback of another type was called"; return; }
    if(p->cleaned++) { g->trouble = "data of object " + std::to_string(p->node) + " was cleaned up twice"; return; }
    if(!p->current) { g->trouble = "cleanup of object " + std::to_string(p->node) + " got data that had been replaced"; return; }
    if(ob->type != NK_VALUETYPE_OBJECTID || (!g->deleting && ob->objectId != g->nodes[p->node]->v.objectId)) g->trouble = "cleanup callback got the wrong object value";
    g->justCleaned.push_back(p);
    if(p->keep) { NKValue v = p->keepV; nkxVmObjectReleaseHandle(vm, &v); }
}
static void gMark(NKVM *vm, NKValue *, void *data, NKVMGCState *st) {
    auto *p = (Graph::Payload *)data;
    if(p && p->ref) { NKValue v = p->refV; nkxVmGarbageCollect_markValue(vm, st, &v); }
}
static void nYielder(NKVMFunctionCallbackData *) {}

// ---- set-up -----------------------------------------------------------------------
const char *Graph::script() {
    return
    "var g0; var g1; var g2; var g3; var g4; var g5; var g6; var g7;\n"
    "function link(a, k, b) { a[k] = b; return a[k]; }\n"
    "function cut(a, k) { a[k] = nil; }\n"
    "function get(a, k) { return a[k]; }\n"
    "function fresh() { var o = newobject; return o; }\n"
    "function junk(n) { var i = 0; var last; while(i < n) { var o = object(); o.me = o; o.last = last; o[\"t\" + i] = \"text \" + i; last = o; i++; } return len(last); }\n"
    "function lost(n) { var i = 0; while(i < n) { var co = coroutine(function(x) { var y = object(); y.x = x; x.y = y; yield(y); return x; }, object()); resume(co); i++; } return n; }\n"
    "function body(x, y) { yield(1); var z = x; yield(2); return 3; }\n"
    "function make(a, b) { return coroutine(body, a, b); }\n"
    "function go(c) { return resume(c); }\n"
    "function done(c) { return is_finished(c); }\n"
    "function nothing() { return 0; }\n";
}
static void setupTypes(Graph *g, Host &h) {
    static const NKVMExternalObjectSerializationCallback s[] = { gSerialize<0>, gSerialize<1>, gSerialize<2> };
    static const NKVMExternalObjectCleanupCallback k[] = { gCleanup<0>, gCleanup<1>, gCleanup<2> };
    static const char *names[] = { "alpha", "beta", "alphabet" };
    for(int i = 0; i < Graph::TYPES; i++) g->types[i] = nkxVmRegisterExternalType(h.vm, names[i], s[i], k[i], i == 0 ? gMark : nullptr);
}
void Graph::start(uint32_t gi, uint32_t noi) {
    h = std::make_unique<Host>(&alloc); h->extra = this;
    h->setup = [this](Host &x, NKCompilerState *) { setupTypes(this, x); };
    if(!h->create() || !h->compile(script(), "graph.nks") || h->hasErrors()) c.failStr("setting up failed: " + (h->vm && h->hasErrors() ? h->errorText() : std::string()));
    h->finalize(); h->run();
    nkxSetGarbageCollectionInterval(h->vm, gi); nkxSetGarbageCollectionNewObjectInterval(h->vm, noi);
    NKValue r = callFn("nothing", {}); (void)r;
    note("collection interval " + std::to_string(gi) + "/" + std::to_string(noi));
    for(auto &x : globals) x = Val();
}
NKValue *Graph::global(int i) {
    std::string n = "g" + std::to_string(i);
    NKValue *v = nkxVmFindGlobalVariable(h->vm, nullptr, n.c_str());
    if(!v) fail("global " + n + " not found");
    return v;
}
NKValue Graph::callFn(const char *name, std::vector<NKValue> args) {
    NKValue *f = nkxVmFindGlobalVariable(h->vm, nullptr, name), r = nilValue();
    if(!f) fail(std::string("function ") + name + " not found");
    NKValue fn = *f;
    nkxVmCallFunction(h->vm, &fn, (uint32_t)args.size(), args.data(), &r);
    if(h->hasErrors()) fail(std::string("calling ") + name + " failed: " + h->errorText());
    return r;
}

// ---- model --------------------------------------------------------------------------
std::set<Graph::Node *> Graph::reachable(bool generous) {
    std::set<Node *> seen; std::vector<Node *> open;
    auto add = [&](Node *n) { if(n && seen.insert(n).second) open.push_back(n); };
    for(auto &g : globals) if(g.kind == 2) add(g.n);
    for(auto &n : nodes) if(n->handles && !n->gone) add(n.get());
    while(open.size()) {
        Node *n = open.back(); open.pop_back();
        for(auto &f : n->fields) { if(f.second.first.kind == 2) add(f.second.first.n); if(f.second.second.kind == 2) add(f.second.second.n); }
        if(n->type == 0 && n->p && n->p->ref) add(n->p->ref);
        if(n->co && (generous || n->coRuns < 3)) { add(n->a); add(n->b); }
    }
    return seen;
}
std::vector<Graph::Node *> Graph::usable() { auto s = reachable(false); std::vector<Node *> r; for(auto &n : nodes) if(s.count(n.get())) r.push_back(n.get()); return r; }
Graph::Node *Graph::pickNode(bool plain) {
    auto u = usable(); if(plain) { std::vector<Node *> k; for(auto n : u) if(!n->co) k.push_back(n); u = k; }
    if(u.empty()) return nullptr;
    return u[c.g.below((uint32_t)u.size())];
}
Graph::Val Graph::randomVal() {
    Val v;
    if(c.g.chance(3, 4)) { v.n = pickNode(); if(v.n) { v.kind = 2; return v; } }
    if(c.g.chance(1, 2)) { v.kind = 1; v.s = "string " + std::to_string(c.g.below(100)); } else v.i = (int)c.g.below(1000);
    return v;
}
Graph::Val Graph::randomKey() {
    Val v;
    switch(c.g.below(4)) { case 0: v.n = pickNode(); if(v.n) { v.kind = 2; return v; } [[fallthrough]]; case 1: v.kind = 1; v.s = "k" + std::to_string(c.g.below(6)); return v; default: v.i = (int)c.g.below(40); return v; }
}
NKValue Graph::toValue(const Val &v) { return v.kind == 2 ? v.n->v : v.kind == 1 ? strValue(h->vm, v.s.c_str()) : v.kind == 3 ? nilValue() : intValue(h->vm, v.i); }
std::string Graph::keyName(const Val &v) { return v.kind == 2 ? "#" + std::to_string(v.n->id) : v.kind == 1 ? "\"" + v.s + "\"" : v.kind == 3 ? "nil" : std::to_string(v.i); }
Graph::Node *Graph::addNode(const NKValue &v) {
    nodes.emplace_back(new Node); Node *n = nodes.back().get(); n->id = (int)nodes.size() - 1; n->v = v;
    for(auto &m : nodes) if(m.get() != n && !m->gone && m->v.objectId == v.objectId) {
        // The slot was reused: whatever was there must have been reclaimed.
        if(reachable(false).count(m.get())) fail("a new object took the place of #" + std::to_string(m->id) + ", which is still reachable");
        if(m->p && !m->p->cleaned && m->type >= 0) fail("the slot of #" + std::to_string(m->id) + " was reused but its data was not cleaned up");
        m->gone = true;
    }
    return n;
}
void Graph::place(Node *n) {
    size_t w = c.g.weighted({3, 4, o.handles ? o.handleWeight : 0});
    Node *host = w == 1 ? nullptr : nullptr;
    if(w == 1) { auto u = usable(); if(u.size()) host = u[c.g.below((uint32_t)u.size())]; }
    if(host) {
        Val k = randomKey(); NKValue kv = toValue(k), hv = host->v;
        NKValue *e = nkxVmObjectFindOrAddEntry(h->vm, &hv, &kv, nkfalse); if(!e) fail("adding a field failed");
        *e = n->v; Val v; v.kind = 2; v.n = n; host->fields[keyName(k)] = { k, v };
        note("  placed in #" + std::to_string(host->id) + "[" + keyName(k) + "]");
    } else if(w == 2) { NKValue v = n->v; nkxVmObjectAcquireHandle(h->vm, &v); n->handles++; note("  held by a handle"); }
    else { int g = c.g.below(8); *global(g) = n->v; globals[g].kind = 2; globals[g].n = n; note("  placed in g" + std::to_string(g)); }
}

// ---- steps ---------------------------------------------------------------------------
void Graph::createObject() {
    NKValue v = nilValue();
    if(c.g.chance(1, 3)) { v = callFn("fresh", {}); note("object made by the script"); afterOp(false); } else { nkxCreateObject(h->vm, &v); note("object made by the host"); }
    if(v.type != NK_VALUETYPE_OBJECTID) fail("no object was made");
    Node *n = addNode(v); note("  is #" + std::to_string(n->id)); place(n);
    if(o.payloads && c.g.chance(2, 3)) {
        n->type = c.g.below(TYPES);
        auto p = std::make_unique<Payload>(); p->magic = LIVE; p->owner = this; p->node = n->id; p->type = n->type; p->generation = generation;
        n->p = p.get(); payloads.push_back(std::move(p));
        NKValue w = n->v; nkxVmObjectSetExternalType(h->vm, &w, types[n->type]); nkxVmObjectSetExternalData(h->vm, &w, n->p);
        note("  type " + std::to_string(n->type));
    }
}
void Graph::link() {
    Node *n = pickNode(); if(!n) return;
    if(c.g.chance(1, 12)) { // many at once
        int m = 10 + c.g.below(50); note("#" + std::to_string(n->id) + ": " + std::to_string(m) + " more fields");
        for(int i = 0; i < m; i++) { Val k, v = i % 8 ? Val() : randomVal(); if(!v.kind) v.i = i; if(i & 1) { k.kind = 1; k.s = "f" + std::to_string(i); } else k.i = 100 + i; NKValue nv = n->v, kv = toValue(k), vv = toValue(v); NKValue *e = nkxVmObjectFindOrAddEntry(h->vm, &nv, &kv, nkfalse); if(!e) fail("adding a field failed"); *e = vv; n->fields[keyName(k)] = { k, v }; }
        return;
    }
    Val k = randomKey(), v = randomVal(); bool byScript = c.g.chance(1, 2);
    note("#" + std::to_string(n->id) + "[" + keyName(k) + "] = " + keyName(v) + (byScript ? " (script)" : ""));
    // What is in the model must be in place before the call: operands stay reachable anyway.
    if(byScript) callFn("link", { n->v, toValue(k), toValue(v) });
    else { NKValue nv = n->v, kv = toValue(k), vv = toValue(v); NKValue *e = nkxVmObjectFindOrAddEntry(h->vm, &nv, &kv, nkfalse); if(!e) fail("adding a field failed"); *e = vv; }
    n->fields[keyName(k)] = { k, v };
}
void Graph::unlink() {
    Node *n = pickNode(); if(!n) return;
    Val k; if(n->fields.size() && c.g.chance(4, 5)) { auto it = n->fields.begin(); std::advance(it, c.g.below((uint32_t)n->fields.size())); k = it->second.first; } else k = randomKey();
    bool byScript = c.g.chance(1, 2);
    note("#" + std::to_string(n->id) + "[" + keyName(k) + "] removed" + (byScript ? " (script)" : ""));
    if(byScript) callFn("cut", { n->v, toValue(k) });
    else { NKValue nv = n->v, kv = toValue(k); nkxVmObjectClearEntry(h->vm, &nv, &kv); }
    n->fields.erase(keyName(k));
}
void Graph::setGlobal() {
    int g = c.g.below(8); Val v = randomVal();
    note("g" + std::to_string(g) + " = " + keyName(v));
    *global(g) = toValue(v); globals[g] = v;
}
void Graph::clearGlobal() { int g = c.g.below(8); note("g" + std::to_string(g) + " = 0"); nkxValueSetInt(h->vm, global(g), 0); globals[g] = Val(); }
void Graph::acquire() {
    Node *n = pickNode(); if(!n || n->handles > 5) return;
    note("handle on #" + std::to_string(n->id)); NKValue v = n->v; nkxVmObjectAcquireHandle(h->vm, &v); n->handles++;
}
void Graph::release() {
    std::vector<Node *> k; for(auto &n : nodes) if(!n->gone && n->handles) { uint32_t kept = 0; for(auto &p : payloads) if(p->current && !p->cleaned && p->keep == n.get()) kept++; if(n->handles > kept) k.push_back(n.get()); }
    if(k.empty()) return;
    Node *n = k[c.g.below((uint32_t)k.size())];
    note("handle on #" + std::to_string(n->id) + " released"); NKValue v = n->v; nkxVmObjectReleaseHandle(h->vm, &v); n->handles--;
}
void Graph::attach() {
    Node *n = pickNode(true); if(!n) return;
    // Replace type and data; the old data is the host's own to dispose of.
    if(n->p) { if(n->p->keep) { NKValue v = n->p->keepV; nkxVmObjectReleaseHandle(h->vm, &v); n->p->keep->handles--; n->p->keep = nullptr; } n->p->current = false; n->p = nullptr; }
    int t = c.g.below(TYPES + 1);
    NKValue w = n->v;
    if(t == TYPES) {
        note("#" + std::to_string(n->id) + " loses its data"); nkxVmObjectSetExternalData(h->vm, &w, nullptr);
        return;
    }
    auto p = std::make_unique<Payload>(); p->magic = LIVE; p->owner = this; p->node = n->id; p->type = t; p->generation = generation;
    n->p = p.get(); n->type = t; payloads.push_back(std::move(p));
    note("#" + std::to_string(n->id) + " gets new data of type " + std::to_string(t));
    if(c.g.chance(1, 2)) { nkxVmObjectSetExternalType(h->vm, &w, types[t]); nkxVmObjectSetExternalData(h->vm, &w, n->p); }
    else { nkxVmObjectSetExternalData(h->vm, &w, n->p); nkxVmObjectSetExternalType(h->vm, &w, types[t]); }
}
void Graph::retarget() {
    std::vector<Node *> k; for(auto n : usable()) if(n->p && n->type < 2) k.push_back(n);
    if(k.empty()) return;
    Node *n = k[c.g.below((uint32_t)k.size())]; Node *t = pickNode(); if(!t) return;
    if(n->type == 0) { note("data of #" + std::to_string(n->id) + " refers to #" + std::to_string(t->id)); n->p->ref = t; n->p->refV = t->v; }
    else if(o.handles) {
        if(n->p->keep) { NKValue v = n->p->keepV; nkxVmObjectReleaseHandle(h->vm, &v); n->p->keep->handles--; n->p->keep = nullptr; }
        note("data of #" + std::to_string(n->id) + " holds a handle on #" + std::to_string(t->id));
        NKValue v = t->v; nkxVmObjectAcquireHandle(h->vm, &v); t->handles++; n->p->keep = t; n->p->keepV = v;
    }
}
void Graph::makeCoroutine() {
    Node *a = pickNode(), *b = pickNode(); if(!a) return;
    note("coroutine over #" + std::to_string(a->id) + " and #" + std::to_string(b->id));
    NKValue v = callFn("make", { a->v, b->v }); afterOp(false);
    if(v.type != NK_VALUETYPE_OBJECTID) fail("no coroutine was made");
    Node *n = addNode(v); n->co = true; n->a = a; n->b = b; note("  is #" + std::to_string(n->id)); place(n);
}
void Graph::resumeCoroutine() {
    std::vector<Node *> k; for(auto n : usable()) if(n->co && n->coRuns < 3) k.push_back(n);
    if(k.empty()) return;
    Node *n = k[c.g.below((uint32_t)k.size())]; note("resume #" + std::to_string(n->id));
    NKValue v = callFn("go", { n->v });
    n->coRuns++;
    if(v.type != NK_VALUETYPE_INT || v.intData != n->coRuns) fail("resume number " + std::to_string(n->coRuns) + " of #" + std::to_string(n->id) + " gave " + showValue(h->vm, &v));
}
void Graph::junk() { int n = 1 + c.g.below(60); bool co = c.g.chance(1, 3); note(std::string(co ? "lost coroutines " : "junk ") + std::to_string(n)); callFn(co ? "lost" : "junk", { intValue(h->vm, n) }); }
void Graph::collect() { note("collect"); nkxVmGarbageCollect(h->vm); if(h->hasErrors()) fail("collecting reported an error: " + h->errorText()); collections++; }
void Graph::enumerateTypes() {
    auto sure = reachable(false), maybe = reachable(true);
    for(int t = 0; t <= TYPES; t++) {
        NKVMExternalDataTypeID id = t < TYPES ? types[t] : nkxVmFindExternalType(h->vm, "coroutine");
        std::set<unsigned> got; NKValue v = nilValue(); uint32_t at = 0;
        while(nkxGetNextObjectOfExternalType(h->vm, id, &v, &at)) {
            if(!got.insert(v.objectId).second) fail("enumerating type " + std::to_string(t) + " gave an object twice");
            if(nkxVmObjectGetExternalType(h->vm, &v).id != id.id) fail("enumerating type " + std::to_string(t) + " gave an object of another type");
        }
        for(auto n : sure) if((t < TYPES ? n->type == t : n->co) && !got.count(n->v.objectId)) fail("enumerating type " + std::to_string(t) + " left out #" + std::to_string(n->id));
        for(auto id2 : got) { bool known = false; for(auto &n : nodes) if(!n->gone && n->v.objectId == id2 && (t < TYPES ? n->type == t : n->co)) known = true; if(!known && t < TYPES) fail("enumerating type " + std::to_string(t) + " gave an object that does not have it"); }
    }
}
void Graph::saveLoad() {
    note("save and load");
    Image img; if(!saveImage(h->vm, img)) fail("saving failed");
    if(trouble.size()) fail(trouble);
    auto old = std::move(h);
    auto keepOld = justCleaned; generation++;
    // The payloads of the saved VM die with it; loading makes new ones.
    std::vector<Payload *> before; for(auto &n : nodes) if(!n->gone && n->p && n->type >= 0) before.push_back(n->p);
    h = std::make_unique<Host>(&alloc); h->extra = this; h->setup = [this](Host &x, NKCompilerState *) { setupTypes(this, x); };
    if(!h->createVmOnly() || !h->start()) fail("creating a VM to load into failed");
    if(!loadImage(h->vm, img)) fail("loading failed: " + (h->hasErrors() ? h->errorText() : std::string()));
    if(trouble.size()) fail(trouble);
    nkxSetGarbageCollectionInterval(h->vm, nkxGetGarbageCollectionInterval(old->vm));
    for(auto p : before) {
        Node *n = nodes[p->node].get();
        if(n->p == p) { if(reachable(true).count(n)) fail("the data of #" + std::to_string(n->id) + " was not offered for loading"); }
        for(auto &q : payloads) if(q->generation == generation && q->node == p->node) { q->ref = p->ref; q->refV = p->refV; q->keep = p->keep; q->keepV = p->keepV; }
    }
    // Objects already unreachable may be missing in neither: they are saved too.
    deleting = true; old->destroy(); deleting = false;
    for(auto &n : nodes) if(!n->gone && n->type >= 0 && !n->p && n->bareCleanups != 1 && reachable(true).count(n.get())) fail("deleting the saved VM did not clean up #" + std::to_string(n->id));
    for(auto &n : nodes) if(!n->gone) n->bareCleanups = 0;
    justCleanedBare.clear();
    if(trouble.size()) fail(trouble);
    for(auto p : before) if(!p->cleaned) fail("deleting the saved VM did not clean up the data of #" + std::to_string(p->node));
    justCleaned.clear();
    note("  done");
}
void Graph::op() {
    ops++;
    bool many = nodes.size() > (size_t)o.nodesMax;
    switch(c.g.weighted({many ? 1u : 10u, 8, 7, 4, o.handles ? o.handleWeight : 0, o.handles ? o.handleWeight + 1 : 0, o.payloads ? 2u : 0, o.payloads ? 3u : 0, o.coroutines ? 3u : 0, o.coroutines ? 4u : 0, 2, 6, o.saves ? 1u : 0, 6, 1})) {
        case 0: createObject(); break; case 1: link(); break; case 2: unlink(); break; case 3: setGlobal(); break;
        case 4: acquire(); break; case 5: release(); break; case 6: attach(); break; case 7: retarget(); break;
        case 8: makeCoroutine(); break; case 9: resumeCoroutine(); break; case 10: junk(); break;
        case 11: afterOp(false); collect(); afterOp(true); checkAlive(); return;
        case 12: afterOp(false); saveLoad(); checkAlive(); return;
        case 13: clearGlobal(); break; default: enumerateTypes();
    }
    afterOp(false);
    if(c.g.chance(1, 10)) checkAlive();
}
void Graph::afterOp(bool collected) {
    if(trouble.size()) fail(trouble);
    if(h->hasErrors()) fail("an error was reported: " + h->errorText());
    auto sure = reachable(false);
    std::set<Node *> maybe; if(collected) maybe = reachable(true); // before the releases done by cleanups of this very pass
    // A cleanup lets go of the handles its data held: one of the next passes may reclaim what they were on.
    for(auto p : justCleaned) {
        Node *n = nodes[p->node].get(); reclaimed++;
        if(sure.count(n)) fail("#" + std::to_string(n->id) + " was cleaned up although it is reachable");
        if(n->p != p) fail("#" + std::to_string(n->id) + " was cleaned up with data that is not its own");
        n->gone = true;
        if(p->keep) { p->keep->handles--; sure = reachable(false); }
    }
    justCleaned.clear();
    for(auto n : justCleanedBare) { reclaimed++; if(sure.count(n)) fail("#" + std::to_string(n->id) + " was cleaned up although it is reachable"); n->gone = true; }
    justCleanedBare.clear();
    if(collected) for(auto &n : nodes) if(!n->gone && !maybe.count(n.get())) {
        if(n->type >= 0) fail("#" + std::to_string(n->id) + " is unreachable but survived a collection");
        n->gone = true;
    }
}
void Graph::checkAlive() {
    for(auto n : usable()) {
        std::string me = "#" + std::to_string(n->id);
        NKValue v = n->v;
        if(n->type >= 0 || !n->co) { if(nkxVmObjectGetExternalData(h->vm, &v) != (void *)n->p) fail(me + ": its data pointer has changed"); unsigned want = n->type >= 0 ? types[n->type].id : NK_INVALID_VALUE; if(nkxVmObjectGetExternalType(h->vm, &v).id != want) fail(me + ": its type has changed"); }
        if(n->p && (n->p->cleaned || !n->p->current)) fail(me + ": its data was cleaned up");
        if(nkxVmObjectGetExternalHandleCount(h->vm, &v) != n->handles) fail(me + ": " + std::to_string(nkxVmObjectGetExternalHandleCount(h->vm, &v)) + " handles reported, " + std::to_string(n->handles) + " are held");
        if(nkxVmObjectGetSize(h->vm, &v) != n->fields.size()) fail(me + ": size " + std::to_string(nkxVmObjectGetSize(h->vm, &v)) + ", has " + std::to_string(n->fields.size()) + " fields");
        for(auto &f : n->fields) {
            NKValue k = toValue(f.second.first); NKValue *e = nkxVmObjectFindOrAddEntry(h->vm, &v, &k, nktrue);
            if(!e) fail(me + ": field " + f.first + " is missing");
            NKValue got = *e; const Val &w = f.second.second; std::string g = showValue(h->vm, &got);
            if(w.kind == 2) { if(got.type != NK_VALUETYPE_OBJECTID || got.objectId != w.n->v.objectId) fail(me + ": field " + f.first + " is " + g + " instead of #" + std::to_string(w.n->id)); }
            else { NKValue want = toValue(w); if(showValue(h->vm, &want) != g) fail(me + ": field " + f.first + " is " + g + " instead of " + showValue(h->vm, &want)); }
        }
    }
    if(h->hasErrors()) fail("inspecting reported an error: " + h->errorText());
}
void Graph::finishAll() {
    deleting = true;
    h->destroy();
    if(trouble.size()) fail(trouble);
    for(auto &p : payloads) {
        if(p->current && p->cleaned != 1 && nodes[p->node]->p == p.get()) fail("after deletion: data of #" + std::to_string(p->node) + " was cleaned up " + std::to_string(p->cleaned) + " times");
        if(!p->current && p->cleaned) fail("after deletion: replaced data was cleaned up");
    }
    for(auto &n : nodes) if(!n->gone && n->type >= 0 && !n->p && n->bareCleanups != 1) fail("after deletion: #" + std::to_string(n->id) + ", which carries a type, was cleaned up " + std::to_string(n->bareCleanups) + " times");
    if(alloc.live) fail(std::to_string(alloc.live) + " blocks (" + std::to_string(alloc.cur) + " bytes) not given back by VM deletion");
    if(alloc.trouble.size()) fail(alloc.trouble);
    (void)nYielder;
}
