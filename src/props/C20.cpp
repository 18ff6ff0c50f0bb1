// C20: values survive conversion to and from the host unchanged.
#include "drive.h"
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <cmath>

namespace {
const char *SCRIPT =
    "var keep = object(); var g = nil; var h = nil;\n"
    "function pass(v) { return v; }\n"
    "function local(v) { var a = v; { var b = a; if(1) { var d = b; return d; } } return 0; }\n"
    "function field(v) { var o = object(); o.x = v; return o.x; }\n"
    "function index(k, v) { keep[k] = v; return keep[k]; }\n"
    "function read(k) { return keep[k]; }\n"
    "function global(v) { h = v; return h; }\n"
    "function middle(a, b, c) { return b; }\n"
    "function deep(v, n) { if(n > 0) { return deep(v, n - 1); } return v; }\n"
    "function co(v) { var c = coroutine(function(x) { var y = yield(x); return y; }, v); var r = resume(c); return resume(c, r); }\n"
    "function data(v) { var f = object(); f._exec = function(d) { return d; }; f._data = v; return f(); }\n"
    "function self(v) { var o = object(); o.v = v; o.get = function(me) { return me.v; }; return o->get(); }\n"
    "function viaNative(v) { return echo(v); }\n"
    "function keyed(v) { var o = object(); o[v] = \"here\"; return o[v]; }\n"
    "function toS(v) { return \"\" + v; }\nfunction toI(v) { return 0 + v; }\nfunction toF(v) { return 0.0 + v; }\n"
    "function same(a, b) { return a === b; }\n"
    "function equal(a, b) { return a == b; }\n"
    "function join(a, b) { return a + b; }\n"
    "function less(a, b) { return (a < b) + 2 * (a > b) + 4 * (a <= b) + 8 * (a >= b); }\n"
    "function nop() { return 0; }\n";

struct V { int kind = 0; int32_t i = 0; float f = 0; std::string s; NKValue v; };  // int float string function object nil
struct Run {
    pbt::Case &c; pbt::Gen &g; std::unique_ptr<Host> h; std::string history; uint64_t hash = 11; uint64_t checks = 0, routes = 0; std::vector<V> vs;
    std::vector<NKValue> echoed; bool strings = false, special = false;
    explicit Run(pbt::Case &cc) : c(cc), g(cc.g) {}
    void note(const std::string &s) { history += "\n" + (s.size() > 300 ? s.substr(0, 300) + "... (" + std::to_string(s.size()) + " characters)" : s); if(history.size() > 12000) history.erase(0, 3000); c.describe(history); hash = pbt::hashStr(s, hash); }
    void errors(const std::string &w) { if(h->hasErrors()) c.failStr(w + " reported an error: " + h->errorText()); }
    static std::string name(const V &v) { char b[40]; switch(v.kind) { case 0: return std::to_string(v.i); case 1: snprintf(b, sizeof b, "%.9gf", v.f); return b; case 2: return showStr(v.s); case 3: return "function " + std::to_string(v.i); case 4: return "object " + std::to_string(v.i); } return "nil"; }
    static void echo(NKVMFunctionCallbackData *d) {
        Run *r = (Run *)hostOf(d->vm)->extra;
        r->echoed.assign(d->arguments, d->arguments + d->argumentCount);
        if(d->argumentCount) d->returnValue = d->arguments[0];
    }
    std::unique_ptr<Host> newHost() { auto x = std::make_unique<Host>(); x->extra = this; x->extraNatives.push_back({"echo", echo}); return x; }
    void start() {
        h = newHost();
        if(!h->create() || !h->compile(SCRIPT, "v.nks")) c.failStr("setting up failed: " + h->errorText());
        // A global the host made.
        NKValue *gv = nkxCompilerCreateGlobalVariable(h->cs, "hostMade");
        if(!gv) c.fail("creating a global variable failed");
        h->finalize(); h->run(); errors("setting up");
        nkxSetGarbageCollectionInterval(h->vm, g.chance(1, 2) ? 1 + g.below(20) : 1024); nkxSetGarbageCollectionNewObjectInterval(h->vm, 1 + g.below(4));
    }
    NKValue *global(const char *n) { NKValue *v = nkxVmFindGlobalVariable(h->vm, nullptr, n); if(!v) c.fail("global %s not found", n); return v; }
    NKValue call(const char *fn, std::vector<NKValue> a) { NKValue f = *global(fn), r = nilValue(); nkxVmCallFunction(h->vm, &f, (uint32_t)a.size(), a.data(), &r); errors(std::string("calling ") + fn); return r; }

    std::string numeric() {
        static const std::vector<std::string> w{"12", "-7", "3.75", " 42", "0x10", "1e3", "-.5", "+5", "", "abc", "12abc", "99999999999", "-99999999999999999999", "inf", "-infinity", "nan", "1.0", "00012", "2147483648", "4294967297", ".", "-", "1e-50", "7\n", "\t8"};
        return g.pick(w);
    }
    std::string text() {
        std::string s;
        switch(g.weighted({3, 3, 2, 3, 1, 2})) {
            case 0: return lang::randomString(g, 20);
            case 1: return numeric();
            case 2: { int n = 1 + g.below(30); for(int i = 0; i < n; i++) s += (char)(1 + g.below(255)); return s; }
            case 3: { // the same checksum as another one
                std::string base; for(auto &x : vs) if(x.kind == 2 && x.s.size() >= 3 && x.s.size() < 4000 && g.chance(1, 2)) base = x.s;
                if(base.empty()) { int n = 3 + g.below(12); if(g.chance(1, 3)) n = 20 + g.below(g.chance(1, 3) ? 1000 : 60); for(int i = 0; i < n; i++) base += (char)('b' + g.below(20)); }
                int k = 1 + g.below(3);
                for(int t = 0; t < k; t++) { size_t p = g.below((uint32_t)base.size() - 2); int d = g.chance(1, 2) ? 1 : -1; base[p] += d; base[p + 1] -= 2 * d; base[p + 2] += d; if(!base[p] || !base[p + 1] || !base[p + 2]) return "x"; }
                return base; }
            case 4: { size_t n = g.chance(1, 2) ? 1000 + g.below(70000) : g.pick(std::vector<int>{ 127, 128, 255, 256, 1023, 1024, 4096, 65535, 65536 }); char ch = (char)('a' + g.below(26)); s.assign(n, ch); s += std::to_string(g.below(100)); return s; }
            default: { std::string b; for(auto &x : vs) if(x.kind == 2 && x.s.size() < 1200 && (b.empty() || g.chance(2, 3))) b = x.s; switch(g.below(6)) { case 4: case 5: if(b.size()) { size_t at = g.chance(1, 2) ? b.size() - 1 : g.below((uint32_t)b.size()); b[at] = b[at] == 7 ? 8 : (char)(g.chance(1, 2) ? b[at] + 1 : 1 + g.below(255)); if(!b[at]) b[at] = 1; } return b; case 0: return b; case 1: return b + "a"; case 2: return b.substr(0, b.size() / 2); default: for(auto &ch : b) if(ch >= 'a' && ch <= 'z') ch -= 32; return b; } }
        }
    }
    V make() {
        V v; v.v = nilValue();
        switch(v.kind = (int)g.weighted({4, 4, 8, 2, 2, 1})) {
            case 0: v.i = g.integer(); nkxValueSetInt(h->vm, &v.v, v.i); break;
            case 1: v.f = g.flt(); if(g.chance(1, 10)) { static const float sp[] = { INFINITY, -INFINITY, -0.0f, 1e-45f, 3.4028235e38f, 2147483648.0f, -2147483904.0f }; v.f = sp[g.below(7)]; special = true; } nkxValueSetFloat(h->vm, &v.v, v.f); break;
            case 2: { if(g.chance(1, 30)) { nkxValueSetString(h->vm, &v.v, nullptr); break; } v.s = text(); std::vector<char> buf(v.s.begin(), v.s.end()); buf.push_back(0); nkxValueSetString(h->vm, &v.v, buf.data()); std::fill(buf.begin(), buf.end(), 'Z'); strings = true; break; }
            case 3: { static const char *f[] = { "pass", "toS", "nop", "out", "echo" }; v.i = g.below(5); NKValue x = *global(f[v.i]); if(x.type != NK_VALUETYPE_FUNCTIONID) c.fail("%s is not a function", f[v.i]); nkxValueSetFunction(h->vm, &v.v, x.functionId); break; }
            case 4: { nkxCreateObject(h->vm, &v.v); v.i = (int)vs.size(); NKValue k = strValue(h->vm, "tag"); NKValue *e = nkxVmObjectFindOrAddEntry(h->vm, &v.v, &k, nkfalse); if(!e) c.fail("adding an entry returned nothing"); NKValue t = intValue(h->vm, v.i); *e = t; break; }
            case 5: nkxValueSetNil(h->vm, &v.v); break;
        }
        errors("making a value");
        return v;
    }
    bool is(const NKValue &r, const V &v, std::string *why = nullptr) {
        static const NKValueType types[] = { NK_VALUETYPE_INT, NK_VALUETYPE_FLOAT, NK_VALUETYPE_STRING, NK_VALUETYPE_FUNCTIONID, NK_VALUETYPE_OBJECTID, NK_VALUETYPE_NIL };
        checks++;
        if(r.type != types[v.kind]) return false;
        NKValue x = r;
        switch(v.kind) {
            case 0: return r.intData == v.i && nkxValueToInt(h->vm, &x) == v.i;
            case 1: { float f = nkxValueToFloat(h->vm, &x); return !memcmp(&r.floatData, &v.f, 4) && !memcmp(&f, &v.f, 4); }
            case 2: { const char *s = nkxValueToString(h->vm, &x); return s && v.s == s; }
            case 3: return r.functionId.id == v.v.functionId.id;
            case 4: { if(r.objectId != v.v.objectId) return false; NKValue k = strValue(h->vm, "tag"); NKValue *e = nkxVmObjectFindOrAddEntry(h->vm, &x, &k, nktrue); return e && e->type == NK_VALUETYPE_INT && e->intData == v.i; }
        }
        return true;
    }
    void expect(const std::string &how, const NKValue &r, const V &v) { if(!is(r, v)) { NKValue t = r; std::string got = showValue(h->vm, &t); c.failStr(how + ": expected " + name(v).substr(0, 2000) + ", got " + got.substr(0, 2000)); } }
    void route(const V &v) {
        routes++;
        switch(g.below(16)) {
            case 0: expect("passed through a function", call("pass", {v.v}), v); break;
            case 1: expect("through local variables", call("local", {v.v}), v); break;
            case 2: expect("through a field", call("field", {v.v}), v); break;
            case 3: expect("through a script global", call("global", {v.v}), v); expect("global read by the host", *global("h"), v); break;
            case 4: { const char *n = g.chance(1, 2) ? "g" : "hostMade"; *global(n) = v.v; expect("global written by the host", *global(n), v); if(g.chance(1, 3)) nkxVmGarbageCollect(h->vm); expect("global written by the host", *global(n), v); break; }
            case 5: expect("second argument", call("middle", {intValue(h->vm, 1), v.v, strValue(h->vm, "z")}), v); break;
            case 6: expect("through recursion", call("deep", {v.v, intValue(h->vm, g.below(40))}), v); break;
            case 7: expect("through a coroutine", call("co", {v.v}), v); break;
            case 8: if(v.kind == 5) break; expect("through a callable object's data", call("data", {v.v}), v); break;
            case 9: expect("through a self call", call("self", {v.v}), v); break;
            case 10: { echoed.clear(); NKValue r = call("viaNative", {v.v}); expect("through a native function", r, v); if(echoed.size() != 1) c.fail("native function got %zu arguments", echoed.size()); expect("argument of a native function", echoed[0], v); break; }
            case 11: { NKValue ob = *global("keep"), k = intValue(h->vm, g.below(20)); NKValue *e = nkxVmObjectFindOrAddEntry(h->vm, &ob, &k, nkfalse); *e = v.v; NKValue r = call("read", {k}); expect("field written by the host", r, v); e = nkxVmObjectFindOrAddEntry(h->vm, &ob, &k, nktrue); if(!e) c.fail("the field is gone"); expect("field read by the host", *e, v); break; }
            case 12: { NKValue k = strValue(h->vm, ("k" + std::to_string(g.below(20))).c_str()); expect("through an index", call("index", {k, v.v}), v); break; }
            case 13: { NKValue r = call("keyed", {v.v}); V w; w.kind = 2; w.s = "here"; expect("used as a key", r, w); break; }
            case 14: { NKValue r = call("same", {v.v, v.v}); if(r.intData != 1) c.failStr(name(v) + " is not the same as itself"); break; }
            default: expect("read back at once", v.v, v);
        }
    }
    void convert(const V &v) {
        NKValue x = v.v; V w; std::string what = name(v).substr(0, 1000);
        char b[80];
        // string
        if(v.kind <= 2 || v.kind == 5) {
            w.kind = 2;
            switch(v.kind) { case 0: w.s = std::to_string(v.i); break; case 1: snprintf(b, sizeof b, "%f", (double)v.f); w.s = b; break; case 2: w.s = v.s; break; default: w.s = "<nil:0>"; }
            const char *s = nkxValueToString(h->vm, &x); if(!s || w.s != s) c.failStr("host: " + what + " as a string is " + std::string(s ? s : "(nothing)").substr(0, 1000));
            expect(what + " as a string", call("toS", {v.v}), w);
        } else {
            NKValue r = call("toS", {v.v}); const char *s = nkxValueToString(h->vm, &x); std::string hs = s ? s : ""; std::string pre = v.kind == 3 ? "<function:" : "<object:";
            if(hs.compare(0, pre.size(), pre)) c.failStr("host: " + what + " as a string is " + hs);
            V e; e.kind = 2; e.s = hs; expect(what + " as a string", r, e);
        }
        // integer
        if(v.kind != 3) {
            w = V(); w.kind = 0;
            switch(v.kind) { case 0: w.i = v.i; break; case 1: w.i = lang::floatToInt(v.f); break; case 2: w.i = (int32_t)atol(v.s.c_str()); break; case 4: w.i = 1; break; default: w.i = 0; }
            int32_t i = nkxValueToInt(h->vm, &x); errors("conversion to an integer");
            if(i != w.i) c.failStr("host: " + what + " as an integer is " + std::to_string(i) + ", expected " + std::to_string(w.i));
            expect(what + " as an integer", call("toI", {v.v}), w);
        }
        // float
        if(v.kind != 3 && v.kind != 4) {
            w = V(); w.kind = 1;
            switch(v.kind) { case 0: w.f = (float)v.i; break; case 1: w.f = v.f; break; case 2: w.f = (float)atof(v.s.c_str()); break; default: w.f = 0; }
            float f = nkxValueToFloat(h->vm, &x); errors("conversion to a float");
            if(memcmp(&f, &w.f, 4) && !(f != f && w.f != w.f)) { c.fail("host: %s as a float is %.9g, expected %.9g", what.c_str(), f, w.f); }
            if(w.f == w.f) { w.f = 0.0f + w.f; expect(what + " as a float", call("toF", {v.v}), w); }
        }
        // Conversion changes nothing.
        expect("after conversions", x, v);
    }
    void pairs() {
        for(size_t i = 0; i < vs.size(); i++) for(size_t j = 0; j < vs.size(); j++) {
            V &a = vs[i], &b = vs[j];
            if(a.kind == 2 && b.kind == 2) {
                bool eq = a.s == b.s; checks++;
                if(eq != (a.v.stringTableEntry == b.v.stringTableEntry)) c.failStr("strings " + name(a).substr(0, 800) + " and " + name(b).substr(0, 800) + (eq ? " are equal but two values" : " differ but are one value"));
            }
            if(a.kind == 2 && b.kind == 2 && g.chance(1, 4)) { // ordered by their characters; all four comparisons agree
                size_t q = 0; while(q < a.s.size() && q < b.s.size() && a.s[q] == b.s[q]) q++;
                unsigned char x = q < a.s.size() ? a.s[q] : 0, y = q < b.s.size() ? b.s[q] : 0; int got = call("less", {a.v, b.v}).intData; checks++;
                bool known = x < 128 && y < 128; int want = x == y ? 4 + 8 : x < y ? 1 + 4 : 2 + 8;
                if(known ? got != want : got != 5 && got != 10) c.failStr("the order of " + name(a).substr(0, 1500) + " and " + name(b).substr(0, 1500) + " is given as " + std::to_string(got));
            }
            if(g.chance(1, 6)) {
                bool eq = a.kind == b.kind && (a.kind == 0 ? a.i == b.i : a.kind == 1 ? a.f == b.f : a.kind == 2 ? a.s == b.s : a.kind == 3 ? a.v.functionId.id == b.v.functionId.id : a.kind == 4 ? a.i == b.i : true);
                NKValue r = call("same", {a.v, b.v});
                if(r.intData != (int)eq) c.failStr(name(a).substr(0, 500) + " === " + name(b).substr(0, 500) + " is " + std::to_string(r.intData));
            }
            if(a.kind == 2 && b.kind <= 2 && g.chance(1, 8) && a.s.size() + b.s.size() < 3000) { // joined by the script, made by the host: one value
                NKValue r = call("join", {a.v, b.v}); char bb[80]; V w; w.kind = 2;
                if(b.kind == 1) snprintf(bb, sizeof bb, "%f", (double)b.f);
                w.s = a.s + (b.kind == 0 ? std::to_string(b.i) : b.kind == 1 ? bb : b.s);
                expect("joined", r, w); NKValue t = strValue(h->vm, w.s.c_str()); if(t.stringTableEntry != r.stringTableEntry) c.fail("a string made by the host and the same made by the script are two values");
            }
        }
    }
    // Everything is kept alive in fields of keep.
    void holdAll(size_t i) { NKValue ob = *global("keep"), k = intValue(h->vm, 1000 + (int)i); NKValue *e = nkxVmObjectFindOrAddEntry(h->vm, &ob, &k, nkfalse); if(!e) c.fail("adding an entry returned nothing"); *e = vs[i].v; }
    void checkHeld() { for(size_t i = 0; i < vs.size(); i++) { NKValue ob = *global("keep"), k = intValue(h->vm, 1000 + (int)i); NKValue *e = nkxVmObjectFindOrAddEntry(h->vm, &ob, &k, nktrue); if(!e) { if(vs[i].kind == 5) continue; c.failStr("kept value " + name(vs[i]).substr(0, 500) + " is gone"); } expect("kept value", *e, vs[i]); } }
    void saveLoad() {
        note("save and load"); Image img; if(!saveImage(h->vm, img)) c.fail("saving failed");
        auto n = newHost(); if(!n->createVmOnly() || !n->start()) c.fail("creating a VM failed");
        if(!loadImage(n->vm, img)) c.failStr("loading failed: " + n->errorText());
        finish(c, *h); h = std::move(n);
        for(size_t i = 0; i < vs.size(); i++) { NKValue ob = *global("keep"), k = intValue(h->vm, 1000 + (int)i); NKValue *e = nkxVmObjectFindOrAddEntry(h->vm, &ob, &k, nktrue); if(e) vs[i].v = *e; }
        checkHeld();
    }
};
}

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C20";
    P.rule = "2 to 16 values made by the host (boundary and random integers and floats, strings of any bytes up to 71000 characters, number-like strings, strings with equal checksums or that differ in one place, script and native functions, objects, nil), kept in a field, then sent through random routes (arguments, locals, recursion, globals, fields, indices, keys, coroutines, callable objects, self calls, native functions) with collections and images in between, each read back by type and content; conversions to string, integer and float by the host and by the script, against the rule (C's %d, %f, atol truncated to 32 bits, atof, saturating truncation of floats); all pairs of strings one value exactly if equal and ordered by their characters. Non-trivial: at least 3 values, 8 routes and one string; distinct by history.";
    P.assumptions = {"NaN is left out of === and routes it cannot be compared through", "text of functions and objects: only its kind and that host and script agree"};
    P.quickCases = 60000; P.thoroughCases = 700000; P.quickWall = 28; P.thoroughWall = 800;
    P.run = [](pbt::Case &c) {
        Run r(c); r.start();
        int n = 2 + c.g.below((uint32_t)(3 + c.size / 8));
        for(int i = 0; i < n; i++) { r.vs.push_back(r.make()); r.note("value " + Run::name(r.vs.back())); r.holdAll(r.vs.size() - 1); if(c.g.chance(1, 3)) r.route(r.vs.back()); }
        int ops = 4 + c.g.below((uint32_t)(8 + c.size / 3));
        for(int i = 0; i < ops; i++) switch(c.g.weighted({12, 5, 1, 1, 1})) {
            case 0: { V &v = r.vs[c.g.below((uint32_t)r.vs.size())]; r.note("route " + Run::name(v)); r.route(v); break; }
            case 1: { V &v = r.vs[c.g.below((uint32_t)r.vs.size())]; r.note("convert " + Run::name(v)); r.convert(v); break; }
            case 2: r.note("collect"); nkxVmGarbageCollect(r.h->vm); r.checkHeld(); break;
            case 3: r.saveLoad(); break;
            default: { // unrelated strings come and go
                int m = c.g.below(60); r.note("churn " + std::to_string(m)); for(int k = 0; k < m; k++) strValue(r.h->vm, ("churn" + std::to_string(c.g.below(500))).c_str()); r.call("nop", {}); }
        }
        r.note("pairs"); r.pairs(); r.checkHeld();
        // Functions have no numeric value: an error, for the host as for the script.
        for(auto &v : r.vs) if(v.kind == 3 || v.kind == 4) {
            if(c.g.chance(1, 2)) break;
            bool toInt = v.kind == 3 && c.g.chance(1, 2); NKValue x = v.v; r.note(std::string("convert to a ") + (toInt ? "integer" : "float") + ", which fails: " + Run::name(v));
            if(c.g.chance(1, 2)) { if(toInt) nkxValueToInt(r.h->vm, &x); else nkxValueToFloat(r.h->vm, &x); } else { NKValue f = *r.global(toInt ? "toI" : "toF"), res; nkxVmCallFunction(r.h->vm, &f, 1, &x, &res); }
            if(!r.h->hasErrors()) c.failStr("converting " + Run::name(v) + " to a number reported no error");
            break;
        }
        finish(c, *r.h);
        c.label("routes", r.routes); c.label("checks", r.checks); if(r.strings) c.label("with strings"); if(r.special) c.label("special floats");
        if(r.vs.size() >= 3 && r.routes >= 8 && r.strings) c.nontrivial(r.hash);
    };
    return pbt::main(P, argc, argv);
}
