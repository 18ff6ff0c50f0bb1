// C11: an object is a map from typed keys to values.
#include "drive.h"
#include <cstring>
#include <algorithm>
#include <unordered_map>

namespace {
const int OBJS = 6;
const char *SCRIPT =
    "var g0 = object(); var g1 = newobject; var g2 = object(); var g3 = object(); var g4 = newobject; var g5 = object();\n"
    "function set(o, k, v) { o[k] = v; return o[k]; }\n"
    "function get(o, k) { return o[k]; }\n"
    "function size(o) { return len(o); }\n"
    "function del(o, k) { o[k] = nil; return o[k]; }\n"
    "function chain(o, k, v) { return (o[k] = v); }\n"
    "function postInc(o, k) { return o[k]++; }\n"
    "function preDec(o, k) { return --o[k]; }\n"
    "function add(o, k, v) { o[k] = o[k] + v; return o[k]; }\n"
    "function move(o, k, p, l) { var t = o[k]; o[k] = nil; p[l] = t; return t; }\n"
    "function swap(o, k, l) { var t = o[k]; o[k] = o[l]; o[l] = t; return 0; }\n"
    "function fill(o, from, n, step) { for(var i = 0; i < n; i++) { o[from + i * step] = i; } return len(o); }\n"
    "function fillStr(o, p, n) { for(var i = 0; i < n; i++) { o[p + i] = i * 3; } return len(o); }\n"
    "function fillFlt(o, n) { for(var i = 0; i < n; i++) { o[i * 0.5] = \"f\" + i; } return len(o); }\n"
    "function wipe(o, from, n, step) { var r = 0; for(var i = 0; i < n; i++) { if(o[from + i * step] != nil) { r++; } o[from + i * step] = nil; } return r; }\n"
    "function nested(o, k, l) { return o[k][l]; }\n"
    "function setNested(o, k, l, v) { o[k][l] = v; return len(o[k]); }\n"
    "function dotSet(o, v) { o.alpha = v; return o.alpha; }\n"
    "function dotGet(o) { return o.alpha; }\n"
    "function dotDel(o) { o.alpha = nil; return len(o); }\n"
    "function fresh(v) { var o = object(); o.v = v; return o; }\n"
    "function f0() { return 0; }\nfunction f1(a) { return a; }\n";

// kind: 0 int 1 float 2 string 3 function 4 object 5 nil
struct K {
    int kind = 0; int32_t i = 0; float f = 0; std::string s;
    bool operator<(const K &o) const {
        if(kind != o.kind) return kind < o.kind;
        switch(kind) { case 0: case 3: case 4: return i < o.i; case 1: return f < o.f; case 2: return s < o.s; }
        return false;
    }
    bool operator==(const K &o) const { return !(*this < o) && !(o < *this); }
};
bool same(const K &a, const K &b) { return a.kind == b.kind && (a.kind == 1 ? memcmp(&a.f, &b.f, 4) == 0 : a == b); }
struct Run {
    pbt::Case &c; pbt::Gen &g; std::unique_ptr<Host> h; std::string history; uint64_t hash = 3;
    std::vector<std::map<K, K>> obs; std::vector<NKValue> vals; std::vector<K> fns; std::vector<NKValue> fnVals; // objects by model id
    std::vector<int> at;                        // global slot -> object
    std::vector<K> recent; std::vector<bool> alive; int styles; uint64_t checks = 0, removed = 0, ops = 0; size_t biggest = 0;
    bool fewKeys;
    explicit Run(pbt::Case &cc) : c(cc), g(cc.g), h(new Host()) { styles = g.below(4); fewKeys = g.chance(1, 2); }
    void note(const std::string &s) { history += "\n" + s; if(history.size() > 14000) history.erase(0, 4000); c.describe(history); hash = pbt::hashStr(s, hash); }
    [[noreturn]] void fail(const std::string &s) { c.failStr(s); }
    void errors(const std::string &what) { if(h->hasErrors()) fail(what + " reported an error: " + h->errorText()); }

    static std::string show(const K &k) {
        char b[40];
        switch(k.kind) { case 0: return std::to_string(k.i); case 1: snprintf(b, sizeof b, "%.9gf", k.f); return b; case 2: return showStr(k.s); case 3: return "f" + std::to_string(k.i); case 4: return "object" + std::to_string(k.i); }
        return "nil";
    }
    NKValue value(const K &k) {
        switch(k.kind) { case 0: return intValue(h->vm, k.i); case 1: return floatValue(h->vm, k.f); case 2: return strValue(h->vm, k.s.c_str()); case 3: return fnVals[k.i]; case 4: return vals[k.i]; }
        return nilValue();
    }
    bool matches(const NKValue *v, const K &k) {
        if(!v) return k.kind == 5;
        switch(k.kind) {
            case 0: return v->type == NK_VALUETYPE_INT && v->intData == k.i;
            case 1: return v->type == NK_VALUETYPE_FLOAT && !memcmp(&v->floatData, &k.f, 4);
            case 2: { if(v->type != NK_VALUETYPE_STRING) return false; NKValue t = *v; const char *s = nkxValueToString(h->vm, &t); return s && k.s == s; }
            case 3: return v->type == NK_VALUETYPE_FUNCTIONID && v->functionId.id == fnVals[k.i].functionId.id;
            case 4: return v->type == NK_VALUETYPE_OBJECTID && v->objectId == vals[k.i].objectId;
        }
        return v->type == NK_VALUETYPE_NIL;
    }
    std::string text(const NKValue *v) { if(!v) return "(absent)"; NKValue t = *v; return showValue(h->vm, &t); }
    NKValue call(const char *fn, std::vector<NKValue> a) {
        NKValue *f = nkxVmFindGlobalVariable(h->vm, nullptr, fn), r = nilValue();
        if(!f) fail(std::string("function ") + fn + " not found");
        NKValue fv = *f; nkxVmCallFunction(h->vm, &fv, (uint32_t)a.size(), a.data(), &r);
        errors(std::string("calling ") + fn);
        return r;
    }
    NKValue *slot(int i) { std::string n = "g" + std::to_string(i); NKValue *v = nkxVmFindGlobalVariable(h->vm, nullptr, n.c_str()); if(!v) fail("global " + n + " not found"); return v; }
    void expect(const char *what, const NKValue &r, const K &k) { if(!matches(&r, k)) fail(std::string(what) + ": expected " + show(k) + ", got " + text(&r)); }
    void expectInt(const char *what, const NKValue &r, int64_t n) { K k; k.i = (int32_t)n; expect(what, r, k); }

    std::vector<int> live() { // reachable from the globals
        std::vector<int> todo(at), r; std::vector<bool> seen(obs.size());
        while(todo.size()) { int o = todo.back(); todo.pop_back(); if(seen[o]) continue; seen[o] = true; r.push_back(o); for(auto &e : obs[o]) { if(e.first.kind == 4) todo.push_back(e.first.i); if(e.second.kind == 4) todo.push_back(e.second.i); } }
        return r;
    }
    void start() {
        if(!h->create() || !h->compile(SCRIPT, "map.nks")) fail("setting up failed");
        h->finalize(); h->run(); errors("setting up");
        uint32_t gi = g.chance(1, 2) ? 1 + g.below(30) : 1024;
        nkxSetGarbageCollectionInterval(h->vm, gi); nkxSetGarbageCollectionNewObjectInterval(h->vm, 1 + g.below(8));
        for(int i = 0; i < OBJS; i++) { at.push_back(i); obs.emplace_back(); vals.push_back(*slot(i)); alive.push_back(true); }
        for(const char *n : { "f0", "f1", "set", "out", "id" }) { NKValue *v = nkxVmFindGlobalVariable(h->vm, nullptr, n); if(!v) fail(std::string(n) + " not found"); fnVals.push_back(*v); }
    }
    K key() {
        if(recent.size() && g.chance(3, 5)) { K k = recent[g.below((uint32_t)recent.size())]; if(k.kind != 4 || isLive(k.i)) { if(g.chance(1, 5)) k = sibling(k); return k; } }
        K k = scalar();
        recent.push_back(k); if(recent.size() > (fewKeys ? 6u : 40u)) recent.erase(recent.begin() + g.below((uint32_t)recent.size()));
        return k;
    }
    // A key the object has, mostly.
    K keyOf(int o) {
        if(obs[o].size() && g.chance(2, 3)) { auto it = obs[o].begin(); std::advance(it, g.below((uint32_t)obs[o].size())); return it->first; }
        return key();
    }
    // The same "number" in another type.
    K sibling(const K &k) {
        K r;
        switch(k.kind) {
            case 0: r.kind = 1 + g.below(4); r.f = (float)k.i; r.s = std::to_string(k.i); r.i = k.i; if(r.kind == 3) r.i = (int)((unsigned)k.i % fnVals.size()); if(r.kind == 4) r.i = at[(unsigned)k.i % OBJS]; return r;
            case 1: r.kind = g.below(2) ? 0 : 2; if(r.kind == 0) memcpy(&r.i, &k.f, 4); else r.s = showFloat(k.f); return r;
            case 2: if(g.chance(1, 2)) { r = k; r.s += g.chance(1, 2) ? " " : "a"; return r; } r.i = atoi(k.s.c_str()); return r;
            case 4: r.i = (int32_t)vals[k.i].objectId; return r;
            default: r.i = k.i; return r;
        }
    }
    bool isLive(int o) { auto l = live(); return std::find(l.begin(), l.end(), o) != l.end(); }
    K scalar() {
        K k;
        switch(g.weighted({6, 4, 7, 1, 2, 1})) {
            case 0: k.i = fewKeys || g.chance(1, 2) ? (int)g.below(20) - 3 : g.integer(); break;
            case 1: k.kind = 1; k.f = g.chance(1, 2) ? g.below(12) * 0.5f - 1 : g.flt(); if(k.f != k.f) k.f = 1; break;
            case 2: k.kind = 2; { static const std::vector<std::string> w{"alpha", "", "1", "1.0", "a", "b", "Alpha", "alph", "alphaa", "v", "nil", "_exec", "\xc3\xa9", "key 7"}; k.s = g.chance(1, 2) ? g.pick(w) : g.chance(1, 3) ? "s" + std::to_string(g.below(400)) : lang::randomString(g, 12); } break;
            case 3: k.kind = 3; k.i = g.below((uint32_t)fnVals.size()); break;
            case 4: k.kind = 4; k.i = at[g.below(OBJS)]; break;
            default: k.kind = 5;
        }
        return k;
    }
    K val() { K k = g.chance(1, 4) ? [&] { K x; x.kind = 4; auto l = live(); x.i = l[g.below((uint32_t)l.size())]; return x; }() : scalar(); return k; }
    void put(int o, const K &k, const K &v) { if(v.kind == 5) { removed += obs[o].erase(k); return; } auto it = obs[o].find(k); if(it != obs[o].end()) it->second = v; else obs[o][k] = v; biggest = std::max(biggest, obs[o].size()); }
    K look(int o, const K &k) { auto it = obs[o].find(k); if(it == obs[o].end()) { K n; n.kind = 5; return n; } return it->second; }
    int pickObj() { auto l = live(); return g.chance(2, 3) ? at[g.below(OBJS)] : l[g.below((uint32_t)l.size())]; }

    void checkSize(int o) {
        NKValue v = vals[o]; uint32_t n = nkxVmObjectGetSize(h->vm, &v); errors("size"); checks++;
        if(n != obs[o].size()) fail("object" + std::to_string(o) + " reports " + std::to_string(n) + " keys, expected " + std::to_string(obs[o].size()));
        if(g.chance(1, 4)) expectInt("len", call("size", {vals[o]}), (int64_t)obs[o].size());
    }
    void checkKey(int o, const K &k) {
        K want = look(o, k); checks++;
        if(g.chance(1, 3)) { NKValue r = call("get", {vals[o], value(k)}); if(!matches(&r, want)) fail("script reads object" + std::to_string(o) + "[" + show(k) + "] as " + text(&r) + ", expected " + show(want)); return; }
        NKValue ov = vals[o], kv = value(k); NKValue *r = nkxVmObjectFindOrAddEntry(h->vm, &ov, &kv, nktrue); errors("lookup");
        bool present = obs[o].count(k);
        if(present != (r != nullptr)) fail("object" + std::to_string(o) + "[" + show(k) + "] is " + (r ? "present (" + text(r) + ")" : "absent") + " for the host");
        if(!matches(r, want)) fail("host reads object" + std::to_string(o) + "[" + show(k) + "] as " + text(r) + ", expected " + show(want));
    }
    void checkAll() {
        for(int o : live()) {
            checkSize(o);
            for(auto &e : obs[o]) checkKey(o, e.first);
            for(auto &k : recent) { if(k.kind == 4 && !isLive(k.i)) continue; checkKey(o, k); checkKey(o, sibling(k)); }
        }
    }
    bool number(const K &k) { return k.kind <= 1; }
    void op() {
        ops++;
        int o = pickObj(); std::string on = "object" + std::to_string(o);
        switch(g.weighted({8, 4, 4, 3, 3, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 2, 2, 2, 1, 1, 2})) {
            case 0: { K k = key(), v = val(); note(on + "[" + show(k) + "] = " + show(v)); NKValue r = call("set", {vals[o], value(k), value(v)}); put(o, k, v); expect("reading back", r, v); break; }
            case 1: { K k = keyOf(o); note("get " + on + "[" + show(k) + "]"); expect("get", call("get", {vals[o], value(k)}), look(o, k)); break; }
            case 2: { K k = keyOf(o); note("delete " + on + "[" + show(k) + "]"); NKValue r = call("del", {vals[o], value(k)}); removed += obs[o].erase(k); K n; n.kind = 5; expect("reading a deleted key", r, n); break; }
            case 3: { // host write
                K k = key(), v = val(); note("host: " + on + "[" + show(k) + "] = " + show(v));
                NKValue ov = vals[o], kv = value(k), vv = value(v); NKValue *e = nkxVmObjectFindOrAddEntry(h->vm, &ov, &kv, nkfalse); errors("adding an entry");
                if(!e) fail("adding an entry returned nothing");
                K old = look(o, k); if(obs[o].count(k) && !matches(e, old)) fail("the entry for " + on + "[" + show(k) + "] holds " + text(e) + ", expected " + show(old));
                *e = vv; auto it = obs[o].find(k); if(it != obs[o].end()) it->second = v; else obs[o][k] = v; // a nil written this way stays a key
                break; }
            case 4: { K k = keyOf(o); note("host: clear " + on + "[" + show(k) + "]"); NKValue ov = vals[o], kv = value(k); nkxVmObjectClearEntry(h->vm, &ov, &kv); errors("clearing an entry"); removed += obs[o].erase(k); break; }
            case 5: { K k = keyOf(o); K v = look(o, k); if(!number(v)) break; note(on + "[" + show(k) + "]++");
                NKValue r = call("postInc", {vals[o], value(k)}); K before = v;
                if(v.kind == 0) v.i = (int32_t)((uint32_t)v.i + 1); else { v.f = v.f + 1.0f; before.f = v.f - 1.0f; }
                put(o, k, v); if(before.kind == 0 || before.f == before.f) expect("post-increment", r, before); break; }
            case 6: { K k = keyOf(o); K v = look(o, k); if(!number(v)) break; note("--" + on + "[" + show(k) + "]");
                NKValue r = call("preDec", {vals[o], value(k)}); if(v.kind == 0) v.i = (int32_t)((uint32_t)v.i - 1); else v.f = v.f - 1.0f; put(o, k, v); expect("pre-decrement", r, v); break; }
            case 7: { K k = keyOf(o); K v = look(o, k); if(v.kind != 2 || v.s.size() > 300) break; K a; a.kind = 2; a.s = "+" + std::to_string(g.below(10)); note(on + "[" + show(k) + "] + " + show(a)); v.s += a.s; NKValue r = call("add", {vals[o], value(k), value(a)}); put(o, k, v); expect("append", r, v); break; }
            case 8: { int p2 = pickObj(); K k = keyOf(o), l = key(); K t = look(o, k); note("move " + on + "[" + show(k) + "] to object" + std::to_string(p2) + "[" + show(l) + "]");
                if(k.kind == 4 || t.kind == 4) { } NKValue r = call("move", {vals[o], value(k), vals[p2], value(l)}); obs[o].erase(k); put(p2, l, t); expect("move", r, t); checkSize(p2); break; }
            case 9: { K k = keyOf(o), l = keyOf(o); note("swap " + on + "[" + show(k) + "], [" + show(l) + "]"); call("swap", {vals[o], value(k), value(l)}); K t = look(o, k), u = look(o, l); put(o, k, u); put(o, l, t); break; }
            case 10: { K k = key(), v = val(); note(on + "[" + show(k) + "] = " + show(v) + " as an expression"); NKValue r = call("chain", {vals[o], value(k), value(v)}); put(o, k, v); expect("assignment", r, v); break; }
            case 11: { int n = 1 + g.below(fewKeys ? 20 : 120), from = (int)g.below(50) - 20, st = 1 + g.below(40); note("fill " + on + " from " + std::to_string(from) + ", " + std::to_string(n) + " by " + std::to_string(st));
                NKValue r = call("fill", {vals[o], intValue(h->vm, from), intValue(h->vm, n), intValue(h->vm, st)}); for(int i = 0; i < n; i++) { K k, v; k.i = from + i * st; v.i = i; put(o, k, v); } expectInt("len", r, (int64_t)obs[o].size()); break; }
            case 12: { int n = 1 + g.below(60); static const std::vector<std::string> pre{"k", "", "1.", "alph", "s"}; std::string pf = g.pick(pre); note("fill " + on + " with strings " + pf + "0.." + std::to_string(n));
                NKValue r = call("fillStr", {vals[o], strValue(h->vm, pf.c_str()), intValue(h->vm, n)}); for(int i = 0; i < n; i++) { K k, v; k.kind = 2; k.s = pf + std::to_string(i); v.i = i * 3; put(o, k, v); } expectInt("len", r, (int64_t)obs[o].size()); break; }
            case 13: { int n = 1 + g.below(30); note("fill " + on + " with floats"); NKValue r = call("fillFlt", {vals[o], intValue(h->vm, n)}); for(int i = 0; i < n; i++) { K k, v; k.f = i * 0.5f; k.kind = i == 0 ? 1 : 1; if(i == 0) k.f = 0; v.kind = 2; v.s = "f" + std::to_string(i);
                    // int * float is int arithmetic: the left operand decides.
                    k.kind = 0; k.i = 0; put(o, k, v); } expectInt("len", r, (int64_t)obs[o].size()); break; }
            case 14: { int n = 1 + g.below(60), from = (int)g.below(50) - 20, st = 1 + g.below(40); note("wipe " + on); int had = 0;
                for(int i = 0; i < n; i++) { K k; k.i = from + i * st; if(look(o, k).kind != 5) had++; }
                NKValue r = call("wipe", {vals[o], intValue(h->vm, from), intValue(h->vm, n), intValue(h->vm, st)}); for(int i = 0; i < n; i++) { K k; k.i = from + i * st; removed += obs[o].erase(k); } expectInt("keys wiped", r, had); break; }
            case 15: { K k = keyOf(o); K v = look(o, k); if(v.kind != 4) break; K l = key(), w = val(); if(v.i == o && l == k && w.kind != 4) break; note(on + "[" + show(k) + "][" + show(l) + "] = " + show(w)); NKValue r = call("setNested", {vals[o], value(k), value(l), value(w)});
                put(v.i, l, w);
                // The outer field may just have been overwritten (an object that holds itself).
                K again = look(o, k); if(again.kind == 4) expectInt("size of the inner object", r, (int64_t)obs[again.i].size()); checkSize(v.i); break; }
            case 16: { K v = val(); note(on + ".alpha = " + show(v)); K k; k.kind = 2; k.s = "alpha"; NKValue r = call("dotSet", {vals[o], value(v)}); put(o, k, v); expect("dotted access", r, v); if(g.chance(1, 2)) { note("remove .alpha"); r = call("dotDel", {vals[o]}); obs[o].erase(k); expectInt("len", r, (int64_t)obs[o].size()); } else expect("dotted access", call("dotGet", {vals[o]}), look(o, k)); break; }
            case 17: { // a new object in a global
                int s = g.below(OBJS); K v = val(); NKValue r;
                if(g.chance(1, 2)) { note("new object" + std::to_string(obs.size()) + " by the script in g" + std::to_string(s)); r = call("fresh", {value(v)}); obs.emplace_back(); K k; k.kind = 2; k.s = "v"; vals.push_back(r); put((int)obs.size() - 1, k, v); }
                else { note("new object" + std::to_string(obs.size()) + " by the host in g" + std::to_string(s)); nkxCreateObject(h->vm, &r); obs.emplace_back(); vals.push_back(r); }
                errors("creating an object");
                if(r.type != NK_VALUETYPE_OBJECTID) fail("creating an object gave " + text(&r));
                for(int x : live()) if(vals[x].objectId == r.objectId) fail("a new object has the identity of object" + std::to_string(x));
                *slot(s) = r; at[s] = (int)obs.size() - 1;
                // Keys remembered may name objects that are gone now.
                recent.erase(std::remove_if(recent.begin(), recent.end(), [&](const K &k) { return k.kind == 4 && !isLive(k.i); }), recent.end());
                o = at[s]; break; }
            case 18: note("collect"); nkxVmGarbageCollect(h->vm); errors("collecting"); break;
            case 19: { if(g.chance(1, 2)) { note("shrink");
                // Shrinking may renumber objects without handles: those in globals are looked up again, the others held.
                auto l = live(); std::vector<int> held; for(int x : l) if(std::find(at.begin(), at.end(), x) == at.end()) held.push_back(x);
                for(int x : held) { NKValue v = vals[x]; nkxVmObjectAcquireHandle(h->vm, &v); }
                nkxVmShrink(h->vm); errors("shrinking");
                for(int i = 0; i < OBJS; i++) { NKValue v = *slot(i); if(v.type != NK_VALUETYPE_OBJECTID) fail("a global lost its object"); vals[at[i]] = v; }
                for(int x : held) { NKValue v = vals[x]; nkxVmObjectReleaseHandle(h->vm, &v); }
                errors("releasing handles"); break; }
                note("save and load"); Image img; if(!saveImage(h->vm, img)) fail("saving failed");
                auto n = std::make_unique<Host>(); if(!n->createVmOnly() || !n->start()) fail("creating a VM failed"); if(!loadImage(n->vm, img)) fail("loading failed: " + n->errorText());
                finish(c, *h); h = std::move(n); break; }
            default: { int a = g.below(OBJS), b = g.below(OBJS); note("g" + std::to_string(a) + " = g" + std::to_string(b)); *slot(a) = *slot(b); at[a] = at[b]; o = at[a];
                recent.erase(std::remove_if(recent.begin(), recent.end(), [&](const K &k) { return k.kind == 4 && !isLive(k.i); }), recent.end()); break; }
        }
        checkSize(o);
        for(int i = 0; i < 2; i++) if(recent.size()) { K k = recent[g.below((uint32_t)recent.size())]; if(k.kind != 4 || isLive(k.i)) checkKey(g.chance(1, 2) ? o : pickObj(), k); }
    }
};
}

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C11";
    P.rule = "A history of 5 to 130 operations on 6 or more objects by script and host: store, read, delete, increment, append, move, swap, nested and dotted access, bulk insertion and removal, host lookup / insertion / clearing, new objects, aliases, collections, shrinking, saving and loading; keys are integers, floats, strings, functions, objects and nil, repeated and perturbed (the same number in another type, the same bits, near-equal strings). A map keyed by type and value predicts every result, every size and, at the end, every key of every reachable object, present or not. Non-trivial: at least 15 operations, 3 removals and an object of 3 keys; distinct by history.";
    P.assumptions = {"NaN keys are left out", "-0.0 and 0.0 are one key, as they compare equal", "a nil written by the host through an entry pointer leaves the key present"};
    P.quickCases = 46000; P.thoroughCases = 800000; P.quickWall = 28; P.thoroughWall = 800;
    P.run = [](pbt::Case &c) {
        Run r(c); r.start();
        int n = 5 + c.g.below((uint32_t)(10 + c.size * 115 / 100));
        for(int i = 0; i < n; i++) { r.op(); if(c.g.chance(1, 40)) r.checkAll(); }
        r.note("check everything"); r.checkAll();
        finish(c, *r.h);
        c.label("operations", r.ops); c.label("checks", r.checks); c.label("removals", r.removed); if(r.biggest >= 50) c.label("objects of 50 or more keys");
        if(r.ops >= 15 && r.removed >= 3 && r.biggest >= 3) c.nontrivial(r.hash);
    };
    return pbt::main(P, argc, argv);
}
