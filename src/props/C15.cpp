// C15: native functions get exactly the arguments they were declared for.
#include "drive.h"
#include <cstring>

namespace {
enum K { INT, FLT, STR, FN, OBJ, NIL };          // in the order of NKValueType
struct Arg { K k = NIL; int i = 0; float f = 0; std::string s; int ob = -1; std::string text; };   // FN: s is the name
struct Sig { int count = -1; std::vector<int> types, ext; };   // type NIL: anything; ext -1: any object
enum B { NOTHING, RETURN_ARG, RETURN_STR, RETURN_NIL, SCRIBBLE, RAISE, CHECK_ARGS, GET_DATA, CALL_SCRIPT, CALL_NATIVE, CHECK_COUNT, RETURN_NEW, BEHAVIOURS };
struct Beh { int kind = 0; std::vector<int> types; int n = 0, ext = 0, target = 0; };
struct Native { std::string name; int shared = -1; Sig sig; std::vector<Beh> beh; size_t expectCalls = 0, calls = 0; bool viaVariable = false, twice = false; };
static const int MAXN = 8, TYPES = 3, OBJS = 6;  // objects 0,1: plain; 2,3,4: types 0,1,2; 5: a coroutine

struct Run {
    pbt::Case &c; pbt::Gen &g; std::unique_ptr<Host> h; std::vector<Native> nat; NKVMExternalDataTypeID type[TYPES + 1]; int cells[OBJS + 50];
    std::string expected, text; bool stop = false; uint64_t entered = 0, rejected = 0, routes = 0; int fresh = 100; std::string trouble; int uniq = 0;
    explicit Run(pbt::Case &cc) : c(cc), g(cc.g) {}
    static Run *of(NKVM *vm) { return (Run *)hostOf(vm)->extra; }
    static int extOf(int ob) { return ob >= 2 && ob <= 5 ? ob - 2 : -2; }          // -2: none; 3: coroutine

    // ---- what the library does ----
    static std::string fnName(NKVM *vm, NKVMInternalFunctionID id) {
        Run *r = of(vm);
        auto same = [&](const std::string &n) { NKValue *v = nkxVmFindGlobalVariable(vm, nullptr, n.c_str()); return v && v->type == NK_VALUETYPE_FUNCTIONID && v->functionId.id == id.id; };
        for(auto &n : r->nat) if(same(n.name)) return n.name;
        return same("f") ? "f" : same("show") ? "show" : "?";
    }
    static std::string desc(NKVM *vm, NKValue *v) {
        if(v->type == NK_VALUETYPE_FUNCTIONID) return "fn:" + fnName(vm, v->functionId);
        if(v->type != NK_VALUETYPE_OBJECTID) return showValue(vm, v);
        NKValue k = strValue(vm, "tag"); NKValue *e = nkxVmObjectFindOrAddEntry(vm, v, &k, nktrue);
        return "ob:" + (e ? std::to_string(e->intData) : "untagged");
    }
    static void show(NKVMFunctionCallbackData *d) { std::string s = "="; for(uint32_t i = 0; i < d->argumentCount; i++) s += " " + desc(d->vm, &d->arguments[i]); hostOf(d->vm)->line(s); }
    static void mk(NKVMFunctionCallbackData *d) {
        Run *r = of(d->vm); NKValue o = nilValue(); nkxCreateObject(d->vm, &o); int k = d->arguments[0].intData;
        nkxVmObjectSetExternalType(d->vm, &o, r->type[k]); nkxVmObjectSetExternalData(d->vm, &o, &r->cells[k + 2]); d->returnValue = o;
    }
    template <int N> static void cb(NKVMFunctionCallbackData *d) { of(d->vm)->entry(N, d); }
    void entry(int n, NKVMFunctionCallbackData *d) {
        Native &me = nat[n]; Host &hh = *hostOf(d->vm); NKVM *vm = d->vm;
        std::string s = "enter " + me.name; for(uint32_t i = 0; i < d->argumentCount; i++) s += " " + desc(vm, &d->arguments[i]);
        hh.line(s);
        const Beh &b = me.beh[me.calls++ % me.beh.size()];
        switch(b.kind) {
            case NOTHING: break;
            case RETURN_ARG: if(d->argumentCount) d->returnValue = d->arguments[b.n % d->argumentCount]; break;
            case RETURN_STR: nkxValueSetString(vm, &d->returnValue, ("r" + std::to_string(b.n)).c_str()); break;
            case RETURN_NIL: nkxValueSetNil(vm, &d->returnValue); break;
            case SCRIBBLE: for(uint32_t i = 0; i < d->argumentCount; i++) nkxValueSetInt(vm, &d->arguments[i], -99); break;
            case RAISE: nkxValueSetInt(vm, &d->returnValue, 5); nkxAddError(vm, "raised on purpose"); break;
            case CHECK_ARGS: { int t[4] = {0, 0, 0, 0}; for(size_t i = 0; i < b.types.size(); i++) t[i] = b.types[i]; bool ok = nkxFunctionCallbackCheckArguments(d, me.name.c_str(), (uint32_t)b.types.size(), t[0], t[1], t[2], t[3]); hh.line(ok ? "checked" : "refused"); if(ok == (bool)nkxVmHasErrors(vm)) trouble = "checking arguments: the result and the error state do not agree"; break; }
            case CHECK_COUNT: { bool ok = nkxFunctionCallbackCheckArgCount(d, b.n, me.name.c_str()); hh.line(ok ? "checked" : "refused"); if(ok == (bool)nkxVmHasErrors(vm)) trouble = "checking the argument count: the result and the error state do not agree"; break; }
            case GET_DATA: { void *p = nkxFunctionCallbackGetExternalDataArgument(d, me.name.c_str(), b.n, type[b.ext]); if(!p) hh.line("no data"); else hh.line("data " + std::to_string((int *)p - cells)); if(!p != (bool)nkxVmHasErrors(vm)) trouble = "getting external data: the result and the error state do not agree"; break; }
            case CALL_SCRIPT: { NKValue a = d->argumentCount ? d->arguments[0] : nilValue(), r = nilValue(); NKValue f = *nkxVmFindGlobalVariable(vm, nullptr, "f"); nkxVmCallFunction(vm, &f, 1, &a, &r); if(!nkxVmHasErrors(vm)) d->returnValue = r; break; }
            case CALL_NATIVE: { NKValue r = nilValue(); NKValue f = *nkxVmFindGlobalVariable(vm, nullptr, nat[b.target].name.c_str()); nkxVmCallFunction(vm, &f, d->argumentCount, d->arguments, &r); if(!nkxVmHasErrors(vm)) d->returnValue = r; break; }
            case RETURN_NEW: { nkxVmGarbageCollect(vm); NKValue o = nilValue(); nkxCreateObject(vm, &o); NKValue k = strValue(vm, "tag"); NKValue *e = nkxVmObjectFindOrAddEntry(vm, &o, &k, nkfalse); *e = intValue(vm, 77); d->returnValue = o; break; }
        }
    }
    std::unique_ptr<Host> newHost() {
        auto x = std::make_unique<Host>(); x->extra = this; x->extraNatives.push_back({"show", show}); x->extraNatives.push_back({"mk", mk});
        x->setup = [this](Host &hh, NKCompilerState *cs) {
            for(int i = 0; i < TYPES; i++) type[i] = nkxVmRegisterExternalType(hh.vm, ("type" + std::to_string(i)).c_str(), nullptr, nullptr, nullptr);
            type[TYPES] = nkxVmFindExternalType(hh.vm, "coroutine");
            for(size_t i = 0; i < nat.size(); i++) {
                static const NKVMFunctionCallback cbs[MAXN] = { cb<0>, cb<1>, cb<2>, cb<3>, cb<4>, cb<5>, cb<6>, cb<7> };
                Native &n = nat[i];
                if(n.viaVariable && cs) { nkxCompilerCreateCFunctionVariable(cs, n.name.c_str(), cbs[n.shared >= 0 ? n.shared : (int)i]); continue; }
                if(n.viaVariable) { nkxVmRegisterExternalFunction(hh.vm, n.name.c_str(), cbs[n.shared >= 0 ? n.shared : (int)i]); continue; }
                uint32_t a[44]; int at = 0; memset(a, 0, sizeof a);
                for(size_t k = 0; k < n.sig.types.size(); k++) { a[at++] = (uint32_t)n.sig.types[k]; if(n.sig.types[k] == OBJ) a[at++] = n.sig.ext[k] < 0 ? NK_INVALID_VALUE : type[n.sig.ext[k]].id; }
                if(n.twice) nkxVmSetupExternalFunction(hh.vm, cs, n.name.c_str(), cbs[n.shared >= 0 ? n.shared : (int)i], nkfalse, 2, NK_VALUETYPE_OBJECTID, type[0], NK_VALUETYPE_STRING);
                nkxVmSetupExternalFunction(hh.vm, cs, n.name.c_str(), cbs[n.shared >= 0 ? n.shared : (int)i], cs ? nktrue : nkfalse, n.sig.count < 0 ? NK_INVALID_VALUE : (uint32_t)n.sig.count, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23], a[24], a[25], a[26], a[27], a[28], a[29], a[30], a[31], a[32], a[33], a[34], a[35], a[36], a[37], a[38], a[39]);
            }
        };
        return x;
    }

    // ---- what it should do ----
    std::string show(const Arg &a) { switch(a.k) { case INT: return "int:" + std::to_string(a.i); case FLT: return "float:" + showFloat(a.f); case STR: return "str:" + showStr(a.s); case FN: return "fn:" + a.s; case OBJ: return "ob:" + std::to_string(a.ob); default: return "nil"; } }
    static Arg mkInt(int i) { Arg a; a.k = INT; a.i = i; return a; }
    bool accepts(const Sig &s, const std::vector<Arg> &a) {
        if(s.count < 0) return true;
        if((int)a.size() != s.count) return false;
        for(size_t i = 0; i < a.size(); i++) {
            if(s.types[i] == NIL) continue;
            if(s.types[i] != a[i].k) return false;
            if(a[i].k == OBJ && s.ext[i] >= 0 && s.ext[i] != extOf(a[i].ob)) return false;
        }
        return true;
    }
    // False: an error.
    bool call(int n, std::vector<Arg> a, Arg &ret) {
        Native &me = nat[n];
        if(!accepts(me.sig, a)) { rejected++; return false; }
        entered++; Native &as = me.shared >= 0 ? nat[me.shared] : me;   // one callback under two names cannot tell which it was called by
        expected += "enter " + as.name; for(auto &x : a) expected += " " + show(x); expected += "\n";
        const Beh &b = as.beh[as.expectCalls++ % as.beh.size()];
        ret = mkInt(0);
        switch(b.kind) {
            case RETURN_ARG: if(a.size()) ret = a[b.n % a.size()]; break;
            case RETURN_STR: ret.k = STR; ret.s = "r" + std::to_string(b.n); break;
            case RETURN_NIL: ret.k = NIL; break;
            case RAISE: return false;
            case CHECK_ARGS: { bool ok = a.size() == b.types.size(); for(size_t i = 0; ok && i < a.size(); i++) ok = a[i].k == b.types[i]; expected += ok ? "checked\n" : "refused\n"; return ok; }
            case CHECK_COUNT: { bool ok = (int)a.size() == b.n; expected += ok ? "checked\n" : "refused\n"; return ok; }
            case GET_DATA: { bool ok = b.n < (int)a.size() && a[b.n].k == OBJ && extOf(a[b.n].ob) == b.ext; expected += ok ? "data " + std::to_string(a[b.n].ob) + "\n" : "no data\n"; return ok; }
            case CALL_SCRIPT: { Arg x; if(a.size()) x = a[0]; expected += "= " + show(x) + "\n"; ret = x; break; }
            case CALL_NATIVE: return call(b.target, a, ret);
            case RETURN_NEW: ret.k = OBJ; ret.ob = 77; break;
        }
        return true;
    }

    // ---- generation ----
    Arg value(int k = -1, int ext = -1) {
        Arg a; a.k = k >= 0 ? (K)k : (K)g.below(6);
        switch(a.k) {
            case INT: a.i = (int)g.range(-1000, 1000); if(g.chance(1, 8)) a.i = g.chance(1, 2) ? 2147483647 : -2147483647; a.text = std::to_string(a.i); break;
            case FLT: a.f = (float)g.range(-40, 40) * 0.25f; { char b[40]; snprintf(b, sizeof b, "%.2f", a.f); a.text = b; if(a.f == 0) a.f = 0; } if(a.text == "-0.00") a.text = "0.00"; break;
            case STR: a.s = lang::randomString(g, 6); { std::string t; for(char ch : a.s) { if(ch == '"' || ch == '\\' || ch < 32 || ch > 126) continue; t += ch; } a.s = t; a.text = "\"" + t + "\""; } break;
            case FN: a.s = g.chance(1, 2) ? "f" : nat[g.below((uint32_t)nat.size())].name; a.text = a.s; break;
            case OBJ: a.ob = ext >= 0 ? ext + 2 : (int)g.below(OBJS); a.text = "o" + std::to_string(a.ob); break;
            default: a.text = "nil";
        }
        return a;
    }
    Arg valueFor(const Sig &s, size_t i) { return s.types[i] == NIL ? value() : value(s.types[i], s.ext[i]); }
    // Arguments for a call, starting with `first` if it is passed for us.
    std::vector<Arg> arguments(int n, const Arg *first, bool mayFail) {
        const Sig &s = nat[n].sig; std::vector<Arg> a; if(first) a.push_back(*first);
        if(s.count < 0) { int most = g.chance(1, 12) ? 12 + g.below(40) : 6; while((int)a.size() < most && (most > 6 || g.chance(2, 3))) a.push_back(value()); return a; }
        while((int)a.size() < s.count) a.push_back(valueFor(s, a.size()));
        if(mayFail && g.chance(1, 3)) switch(g.below(4)) {
            case 0: a.push_back(value()); break;
            case 1: if(a.size() > (first ? 1u : 0u)) a.pop_back(); break;
            default: if(a.size() > (first ? 1u : 0u)) { size_t i = first ? 1 + g.below((uint32_t)a.size() - 1) : g.below((uint32_t)a.size()); a[i] = value(g.chance(1, 2) ? a[i].k : -1); }
        }
        return a;
    }
    static std::string list(const std::vector<Arg> &a, size_t from = 0) { std::string s; for(size_t i = from; i < a.size(); i++) s += (i > from ? ", " : "") + a[i].text; return s; }
    void makeNatives() {
        int n = 2 + g.below(MAXN - 1);
        for(int i = 0; i < n; i++) {
            Native x; x.name = "nat" + std::to_string(i);
            if(g.chance(1, 5)) { x.viaVariable = g.chance(1, 2); }
            else { x.sig.count = g.chance(1, 12) ? 6 + (int)g.below(15) : (int)g.weighted({1, 3, 4, 3, 2, 1}); for(int k = 0; k < x.sig.count; k++) { int t = (int)g.weighted({3, 2, 3, 2, 6, 2}); x.sig.types.push_back(t); x.sig.ext.push_back(t == OBJ && g.chance(2, 3) ? (int)g.below(TYPES + 1) : -1); } x.twice = g.chance(1, 10); }
            if(i && g.chance(1, 6)) { int to = (int)g.below((uint32_t)i); while(nat[to].shared >= 0) to = nat[to].shared; x.shared = to; }
            nat.push_back(x);
        }
        for(int i = 0; i < n; i++) {
            int m = 1 + g.below(3);
            for(int k = 0; k < m; k++) {
                Beh b; b.kind = (int)g.weighted({4, 6, 2, 2, 3, 1, 2, 2, 2, 2, 1, 2}); b.n = g.chance(1, 8) ? g.below(30) : g.below(5); b.ext = g.below(TYPES);
                if(b.kind == CALL_NATIVE) { if(i + 1 >= n) b.kind = NOTHING; else b.target = i + 1 + g.below(n - i - 1); if(b.kind == CALL_NATIVE && nat[b.target].shared >= 0 && nat[b.target].shared <= i) b.kind = NOTHING; }
                const Sig &s = nat[i].sig;
                if(b.kind == CHECK_ARGS) { if(s.count >= 0 && s.count <= 4 && g.chance(3, 4)) { for(int t : s.types) b.types.push_back(t); if(b.types.size() && g.chance(1, 6)) b.types[g.below((uint32_t)b.types.size())] = (int)g.below(6); } else { int q = g.below(4); for(int t = 0; t < q; t++) b.types.push_back((int)g.below(6)); } }
                if(b.kind == CHECK_COUNT && s.count >= 0 && g.chance(3, 4)) b.n = s.count;
                if(b.kind == GET_DATA) for(int q = 0; q < s.count; q++) if(s.types[q] == OBJ && s.ext[q] >= 0 && s.ext[q] < TYPES && g.chance(3, 4)) { b.n = q; b.ext = s.ext[q]; }
                nat[i].beh.push_back(b);
            }
        }
    }
    // One statement; sets stop when it fails.
    void statement(bool mayFail) {
        int n = (int)g.below((uint32_t)nat.size()); const std::string &f = nat[n].name; std::string u = std::to_string(uniq++);
        Arg ret; auto run = [&](const std::vector<Arg> &a) { if(!call(n, a, ret)) stop = true; };
        auto result = [&] { if(!stop) expected += "= " + show(ret) + "\n"; };
        routes++;
        int route = (int)g.below(12);
        if(route == 3) { Arg me = value(OBJ); if(me.ob == 5) me = value(OBJ, -1); me.ob = (int)g.below(5); me.text = "o" + std::to_string(me.ob); auto a = arguments(n, &me, mayFail); text += me.text + ".m" + u + " = " + f + "; show(" + me.text + "->m" + u + "(" + list(a, 1) + "));\n"; run(a); result(); return; }
        if(route == 4 || route == 10) {
            Arg d; const Sig &s = nat[n].sig; int extra = route == 10 ? 2 : 1;
            std::vector<Arg> a; 
            if(s.count >= 0 && s.count < extra) route = 0;
            else {
                for(int i = 0; i < extra; i++) { Arg x = s.count >= 0 ? valueFor(s, i) : value(); if(x.k == NIL) x = value(INT); a.push_back(x); }
                std::vector<Arg> rest; if(s.count >= 0) { for(int i = extra; i < s.count; i++) rest.push_back(valueFor(s, i)); } else while(rest.size() < 4 && g.chance(1, 2)) rest.push_back(value());
                if(mayFail && g.chance(1, 4)) rest.push_back(value());
                text += "{ var t = object(); t._exec = " + f + "; t._data = " + a[0].text + "; ";
                if(extra == 2) text += "var s = object(); s._exec = t; s._data = " + a[1].text + "; show(s(" + list(rest) + ")); }\n"; else text += "show(t(" + list(rest) + ")); }\n";
                for(auto &r : rest) a.push_back(r);
                run(a); result(); return;
            }
        }
        auto a = arguments(n, nullptr, mayFail); std::string l = list(a), params; for(size_t i = 0; i < a.size(); i++) params += (i ? ", p" : "p") + std::to_string(i);
        switch(route) {
            case 1: text += "{ var q = " + f + "; show(q(" + l + ")); }\n"; run(a); result(); break;
            case 2: text += "{ var t = object(); t.f = " + f + "; show(t.f(" + l + ")); }\n"; run(a); result(); break;
            case 5: text += "show(call(" + f + (l.empty() ? "" : ", " + l) + "));\n"; run(a); result(); break;
            case 6: text += "{ var w = function(" + params + ") { var z = 3; return " + f + "(" + params + "); }; show(w(" + l + ")); }\n"; run(a); result(); break;
            case 7: text += "{ var w = function(" + params + ") { return " + f + "(" + params + "); }; show(resume(coroutine(w" + (l.empty() ? "" : ", " + l) + "))); }\n"; run(a); result(); break;
            case 8: { text += "{ var z = 5; var y = \"s\"; show(z, " + f + "(" + l + "), y, z); }\n"; run(a); if(!stop) expected += "= int:5 " + show(ret) + " str:\"s\" int:5\n"; break; }
            case 9: { // the result as an argument of another one
                int m = (int)g.below((uint32_t)nat.size()); std::string outer = nat[m].name; run(a);
                Arg r1 = ret; std::vector<Arg> b; b.push_back(r1); const Sig &s = nat[m].sig; std::string rest;
                if(s.count >= 0) { for(int i = 1; i < s.count; i++) b.push_back(valueFor(s, i)); } else if(g.chance(1, 2)) b.push_back(value());
                text += "show(" + outer + "(" + f + "(" + l + ")" + (b.size() > 1 ? ", " + list(b, 1) : "") + "));\n";
                if(!stop) { n = m; run(b); result(); } break; }
            case 11: { // arguments that are variables, changed by nobody
                text += "{ "; std::string names, shown; for(size_t i = 0; i < a.size(); i++) { std::string v = "v" + std::to_string(i); text += "var " + v + " = " + a[i].text + "; "; names += (i ? ", " : "") + v; shown += ", " + v; }
                text += "var r = " + f + "(" + names + "); show(r" + shown + "); }\n"; run(a); if(!stop) { expected += "= " + show(ret); for(auto &x : a) expected += " " + show(x); expected += "\n"; } break; }
            default: text += "show(" + f + "(" + l + "));\n"; run(a); result();
        }
    }
    NKValue hostValue(const Arg &a) { NKVM *vm = h->vm; switch(a.k) { case INT: return intValue(vm, a.i); case FLT: return floatValue(vm, a.f); case STR: return strValue(vm, a.s.c_str()); case NIL: return nilValue(); default: return *nkxVmFindGlobalVariable(vm, nullptr, a.text.c_str()); } }
    void hostCall(bool mayFail) {
        routes++; int n = (int)g.below((uint32_t)nat.size()); auto a = arguments(n, nullptr, mayFail); Arg ret; bool ok = call(n, a, ret); if(!ok) stop = true;
        std::vector<NKValue> v; for(auto &x : a) v.push_back(hostValue(x));
        NKValue f = *nkxVmFindGlobalVariable(h->vm, nullptr, nat[n].name.c_str()), r = nilValue();
        text += "// host calls " + nat[n].name + "(" + list(a) + ")\n";
        c.describe(describe());
        nkxVmCallFunction(h->vm, &f, (uint32_t)v.size(), v.data(), &r);
        if(ok) { expected += "= " + show(ret) + "\n"; h->line("= " + desc(h->vm, &r)); }
    }
    std::string describe() {
        static const char *tn[] = { "int", "float", "string", "function", "object", "any" }; std::string s;
        for(auto &n : nat) { s += n.name + (n.sig.count < 0 ? " unchecked" : "("); for(size_t i = 0; i < n.sig.types.size(); i++) s += std::string(i ? ", " : "") + tn[n.sig.types[i]] + (n.sig.ext[i] >= 0 ? ":type" + std::to_string(n.sig.ext[i]) : ""); s += n.sig.count < 0 ? "" : ")"; s += " does"; for(auto &b : n.beh) s += " " + std::to_string(b.kind); s += std::string(n.shared >= 0 ? " (the callback of " + nat[n.shared].name + ")" : "") + (n.twice ? " (registered twice)\n" : "\n"); }
        return s + text;
    }
    void compare() {
        c.describe(describe());
        if(trouble.size()) c.failStr(trouble);
        if(h->log != expected) { if(h->hasErrors()) c.appendDescription("\n--- reported: " + h->errorText()); compareText(c, "calls", expected, h->log); }
        if(stop && !h->hasErrors()) c.fail("a call that does not match, or whose function raised an error, reported no error");
        if(!stop && h->hasErrors()) c.failStr("unexpected error: " + h->errorText());
    }
};
}

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C15";
    P.rule = "2 to 8 native functions with random signatures (unchecked, or 0 to 5, sometimes up to 20 parameters out of integer, float, string, function, object, object of one of three types or a coroutine, anything; some registered twice with different signatures, some through a C function variable, some sharing a callback under different names) and random behaviours (return nothing, an argument, a string, nil, a new object; overwrite the argument array; raise an error; check count or types or external data through the helper functions; call a script or another native function); a script of up to 30 calls through random routes (direct, variable, field, self call, callable object of one or two levels, through the host, from a function, from a coroutine, nested, among locals), then host calls, half of them in a VM loaded from an image; calls match the signature until the last one, which may be wrong in count, type or object type. Oracle: acceptance model; the log of entries, arguments, results and the error state. Non-trivial: at least 3 entries through 3 routes; distinct by text and signatures.";
    P.assumptions = {"NK_VALUETYPE_NIL in a signature means anything, as documented"};
    P.quickCases = 180000; P.thoroughCases = 4000000; P.quickWall = 28; P.thoroughWall = 800;
    P.run = [](pbt::Case &c) {
        Run r(c); r.makeNatives();
        r.text = "var o0 = object(); o0.tag = 0; var o1 = object(); o1.tag = 1; var o2 = mk(0); o2.tag = 2; var o3 = mk(1); o3.tag = 3; var o4 = mk(2); o4.tag = 4;\nfunction f(x) { show(x); return x; }\nvar o5 = coroutine(f, 1); o5.tag = 5;\n";
        int n = 1 + c.g.below((uint32_t)(4 + c.size / 4)); int failFrom = c.g.chance(1, 2) ? (int)c.g.below((uint32_t)n + 1) : n + 10;
        for(int i = 0; i < n && !r.stop; i++) r.statement(i >= failFrom);
        if(r.stop) r.text += "show(\"after\");\n";
        r.h = r.newHost(); c.describe(r.describe());
        if(!r.h->create()) c.failStr("setting up failed: " + r.h->errorText());
        nkxSetGarbageCollectionInterval(r.h->vm, 1 + c.g.below(40)); nkxSetGarbageCollectionNewObjectInterval(r.h->vm, 1 + c.g.below(4));
        if(!r.h->compile(r.text)) c.failStr("compiling failed: " + r.h->errorText());
        r.h->finalize(); r.h->run(); r.compare();
        if(!r.stop) {
            if(c.g.chance(1, 2)) {
                Image img; if(!saveImage(r.h->vm, img)) c.fail("saving failed");
                auto nh = r.newHost(); if(!nh->createVmOnly() || !nh->start() || !loadImage(nh->vm, img)) c.failStr("loading failed: " + nh->errorText());
                for(int k = 0; k < 3; k++) { NKValue o = *nkxVmFindGlobalVariable(nh->vm, nullptr, ("o" + std::to_string(k + 2)).c_str()); nkxVmObjectSetExternalData(nh->vm, &o, &r.cells[k + 2]); }
                nh->log = r.h->log; finish(c, *r.h); r.h = std::move(nh); r.text += "// saved and loaded\n"; c.label("through an image");
            }
            int m = c.g.below(6); bool mf = c.g.chance(1, 2); for(int i = 0; i < m && !r.stop; i++) { r.hostCall(mf); r.compare(); }
        }
        finish(c, *r.h);
        c.label("entries", r.entered); c.label("calls refused", r.rejected); if(r.stop) c.label("ended by an error");
        if(r.entered >= 3 && r.routes >= 3) c.nontrivial(pbt::hashStr(r.describe()));
    };
    return pbt::main(P, argc, argv);
}
