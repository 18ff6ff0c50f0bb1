// Type-guided program generator.
#include "lang.h"
#include <cstring>
#include <cmath>

namespace lang {

enum T { TI, TF, TS, TO, TARR, TFN, TCALL, TCO, TA, TBOX, THOLD };
struct Ty { T t; int sig = -1; };
struct Sig { std::vector<T> params; T ret; };
static const std::vector<Sig> sigs = {
    {{TI, TI}, TI}, {{TI}, TI}, {{TS, TI}, TS}, {{TO}, TI}, {{}, TI}, {{TA}, TA}, {{TARR, TI}, TI}, {{TO, TI}, TI}, {{TF}, TF}, {{}, TS},
};
static const int COSIG = 100; // coroutine bodies: (I, I) -> I, never called directly
static const int CODRIVE = 101; // (coroutine) -> I

std::string randomString(pbt::Gen &g, int maxLen) {
    static const char *words[] = { "", "a", "b", "x", "12", "-7", "3.5", "ab", "i1", "hello", " 9", "0", "zz", "A", "1e3", "abc", "~", "2147483648", "tab\t", "nl\n", "q\"q", "caf\xc3\xa9", "\xe6\x97\xa5", "b\\\\", "\\q", "\\\\n", "C:\\\\x\"" };
    int k = g.below(8);
    if(k < 7) return words[g.below(sizeof words / sizeof *words)];
    std::string s; int n = g.below(maxLen + 1);
    for(int i = 0; i < n; i++) {
        char c = (char)(32 + g.below(95));
        if(c == '\\') c = '/';
        s += c;
    }
    return s;
}

struct GenP {
    Program &p; pbt::Gen &g; const GenOpts &o;
    struct VarInfo { std::string name; Ty ty; bool global; int slot; bool ro; };
    struct Scope { std::vector<VarInfo> vars; };
    struct FnCtx {
        Func *fn = nullptr; std::vector<Scope> scopes; int loopDepth = 0; bool isCo = false; T ret = TI; int *nslots; int sig = -1; bool recursive = false; int selfSlot = -1;
    };
    std::vector<FnCtx> ctx;
    int counter = 0; bool wild = false; int budget = 0; int totalWeight = 0;
    int mkSlot = -1;
    GenP(Program &p_, pbt::Gen &g_, const GenOpts &o_) : p(p_), g(g_), o(o_) {}

    FnCtx &cur() { return ctx.back(); }
    // ---- scopes
    std::vector<const VarInfo *> visible() {
        std::vector<const VarInfo *> r; std::vector<std::string> seen;
        auto add = [&](FnCtx &c) {
            for(size_t i = c.scopes.size(); i-- > 0;)
                for(size_t j = c.scopes[i].vars.size(); j-- > 0;) {
                    auto &v = c.scopes[i].vars[j];
                    bool dup = false;
                    for(auto &s : seen) if(s == v.name) { dup = true; break; }
                    if(!dup) { r.push_back(&v); seen.push_back(v.name); }
                }
        };
        add(ctx.back());
        if(ctx.size() > 1) {
            // Only root-scope variables (globals) are visible from functions.
            FnCtx rootOnly; rootOnly.scopes.push_back(ctx[0].scopes[0]); rootOnly.nslots = nullptr;
            // keep pointers valid: iterate the real one
            auto &sc = ctx[0].scopes[0];
            for(size_t j = sc.vars.size(); j-- > 0;) {
                auto &v = sc.vars[j]; bool dup = false;
                for(auto &s : seen) if(s == v.name) { dup = true; break; }
                if(!dup) { r.push_back(&v); seen.push_back(v.name); }
            }
        }
        return r;
    }
    bool atRoot() { return ctx.size() == 1 && ctx[0].scopes.size() == 1; }
    std::string freshName(const char *pre) {
        if(!atRoot() && g.chance(1, 8)) { // shadow something from an outer scope
            auto v = visible(); std::vector<std::string> cand;
            for(auto x : v) {
                bool here = false;
                for(auto &y : cur().scopes.back().vars) if(y.name == x->name) here = true;
                if(!here && x->slot >= N_COUNT && x->name != "mk" && !(cur().recursive && x->global && x->slot == cur().selfSlot)) cand.push_back(x->name);
            }
            if(!cand.empty()) return g.pick(cand);
        }
        static const char *odd[] = { "_v", "va", "nilx", "ifx", "forty", "\xc3\xa9t", "X_9", "elsee", "varx" };
        if(g.chance(1, 12)) return std::string(odd[g.below(9)]) + std::to_string(counter++);
        return std::string(pre) + std::to_string(counter++);
    }
    VarInfo declare(const std::string &name, Ty ty, bool ro = false) {
        VarInfo v{name, ty, atRoot(), 0, ro};
        if(v.global) { v.slot = (int)p.globals.size(); p.globals.push_back(name); }
        else v.slot = (*cur().nslots)++;
        cur().scopes.back().vars.push_back(v);
        return v;
    }
    Expr *ref(const VarInfo &v) { Expr *e = p.ex(EK::Var); e->s = v.name; e->global = v.global; e->slot = v.slot; return e; }
    const VarInfo *pickVar(Ty ty, bool writable) {
        std::vector<const VarInfo *> c;
        for(auto v : visible()) if(v->ty.t == ty.t && (ty.sig < 0 || v->ty.sig == ty.sig) && !(writable && v->ro)) c.push_back(v);
        if(c.empty()) return nullptr;
        // Recently declared ones come first.
        return c[g.below((uint32_t)c.size())];
    }
    const VarInfo *anyVar() {
        std::vector<const VarInfo *> c;
        for(auto v : visible()) if(v->slot >= N_COUNT || !v->global) c.push_back(v);
        if(c.empty()) return nullptr;
        return c[g.below((uint32_t)c.size())];
    }

    // ---- expressions
    Expr *lit(T t) {
        switch(t) {
            case TI: return p.eInt(g.integer());
            case TF: return p.eFloat(g.flt());
            case TS: return p.eStr(randomString(g, 12));
            default: return p.eNil();
        }
    }
    Expr *num(int d) { return g.chance(1, 4) ? expr({TF}, d) : expr({TI}, d); }
    Expr *toI(Expr *e) { return p.eBin("+", p.eInt(0), e); }
    std::vector<Expr *> argsFor(const std::vector<T> &ps, int d, size_t skip = 0) {
        std::vector<Expr *> a;
        for(size_t i = skip; i < ps.size(); i++) a.push_back(expr({ps[i]}, d - 1));
        if(wild && g.chance(1, 60)) { if(a.size() && g.chance(1, 2)) a.pop_back(); else a.push_back(p.eInt(1)); }
        return a;
    }
    // A call of something returning type t.
    Expr *callOf(T t, int d) {
        std::vector<const VarInfo *> c;
        for(auto v : visible()) if((v->ty.t == TFN || v->ty.t == TCALL) && v->ty.sig >= 0 && v->ty.sig < (int)sigs.size() && sigs[v->ty.sig].ret == t) c.push_back(v);
        if(c.empty()) return nullptr;
        const VarInfo *v = c[g.below((uint32_t)c.size())];
        VarInfo vi = *v;
        bool selfCall = cur().recursive && vi.global && vi.slot == cur().selfSlot;
        if(selfCall) return nullptr;
        std::vector<Expr *> a = argsFor(sigs[vi.ty.sig].params, d);
        if(o.hostCalls && vi.ty.t == TFN && g.chance(1, 6)) { a.insert(a.begin(), ref(vi)); return p.eCall(p.eNative(N_CALL), a); }
        return p.eCall(ref(vi), a);
    }
    Expr *lvalue(T t, int d) {
        // Variable, field or element of the type.
        int k = g.below(6);
        if(k < 4 || !o.objects) { auto v = pickVar({t}, true); if(v) return ref(*v); }
        if(!o.objects) return nullptr;
        switch(t) {
            case TI: {
                if(g.chance(1, 3)) { auto v = pickVar({TARR}, false); if(v) { VarInfo vi = *v; return p.eIndex(ref(vi), smallIdx(d)); } }
                Expr *ob = expr({TO}, d - 2);
                static const char *f[] = { "i1", "i2", "i3" };
                const char *n = f[g.below(2)];
                return g.chance(1, 4) ? p.eIndex(ob, p.eStr(n)) : p.eField(ob, n);
            }
            case TF: return p.eField(expr({TO}, d - 2), "f1");
            case TS: return p.eField(expr({TO}, d - 2), "s1");
            case TO: return p.eField(expr({TO}, d - 2), "o1");
            case TA: { static const char *f[] = { "x1", "x2" }; return p.eField(expr({TO}, d - 2), f[g.below(2)]); }
            default: return nullptr;
        }
    }
    Expr *smallIdx(int d) {
        if(g.chance(1, 3)) { auto v = pickVar({TI}, false); if(v) return p.eBin("%", ref(*v), p.eInt(5)); }
        return p.eInt(g.below(6));
    }
    Expr *fnLiteral(int sig) {
        Func *f = p.fu();
        beginFn(f, sig);
        body(f, 1 + g.below(2));
        endFn();
        Expr *e = p.ex(EK::Fn); e->fn = f; return e;
    }

    Expr *expr(Ty ty, int d) {
        if(wild && g.chance(1, 70)) {
            static const T ts[] = { TI, TF, TS, TO, TA, TARR, TCO };
            T t = ts[g.below(7)];
            if((t != TO && t != TARR) || o.objects) { if(t != TCO || o.coroutines) ty = {t}; }
        }
        if(--budget < 0) d = 0;
        switch(ty.t) {
            case TI: return exprI(d);
            case TF: return exprF(d);
            case TS: return exprS(d);
            case TO: return exprO(d);
            case TARR: { auto v = pickVar({TARR}, false); if(v) return ref(*v); Expr *e = p.ex(EK::NewObj); e->i = g.below(2); return e; }
            case TCO: { auto v = pickVar({TCO}, false); if(v) return ref(*v); return coNew(d); }
            case TFN: {
                auto v = pickVar(ty, false);
                if(v && (ctx.size() == 1 || !g.chance(1, 3))) return ref(*v);
                if(ty.sig >= 100) { if(v) return ref(*v); return p.eNil(); }
                if(ctx.size() >= 3 || d <= 0) { if(v) return ref(*v); }
                return fnLiteral(ty.sig);
            }
            case TCALL: { auto v = pickVar(ty, false); if(v) return ref(*v); return p.eNil(); }
            case TA: return exprA(d);
            case TBOX: { auto v = pickVar({TBOX}, false); if(v) return ref(*v); return boxOf(d); }
            case THOLD: { auto v = pickVar({THOLD}, false); if(v) return ref(*v); return holdOf(d); }
        }
        return p.eNil();
    }
    // A box holding an object of the usual shape.
    Expr *boxOf(int d) { return p.eCall(p.eNative(N_BOX), {expr({TO}, d - 1)}); }
    Expr *holdOf(int d) { return p.eCall(p.eNative(N_HOLD), {expr({TO}, d - 1)}); }
    bool hasCo() {
        for(auto v : visible()) if(v->ty.t == TCO || (v->ty.t == TFN && v->ty.sig == COSIG)) return true;
        return false;
    }
    Expr *exprI(int d) {
        if(d <= 0) {
            if(g.chance(1, 2)) { auto v = pickVar({TI}, false); if(v) return ref(*v); }
            return lit(TI);
        }
        switch(g.weighted({6, 7, 12, 6, 3, 4, 3, o.objects ? 5u : 0u, o.objects ? 3u : 0u, 6, 2, 2, o.objects ? 2u : 0u, o.coroutines ? 2u * o.coroutineWeight : 0u, o.coroutines && cur().isCo ? 6u : 0u, o.objects ? 2u : 0u, 1, 2, o.hostCalls ? 1u : 0u})) {
            case 0: return lit(TI);
            case 1: { auto v = pickVar({TI}, false); return v ? ref(*v) : lit(TI); }
            case 2: {
                static const char *ops[] = { "+", "-", "*" };
                Expr *a = expr({TI}, d - 1);
                Expr *b = g.chance(1, 8) ? expr({TS}, d - 1) : num(d - 1);
                return p.eBin(ops[g.below(3)], a, b);
            }
            case 3: {
                static const char *ops[] = { "<", ">", "<=", ">=", "==", "!=", "===" };
                const char *op = ops[g.below(7)];
                int k = g.below(7);
                if(k < 4) return p.eBin(op, num(d - 1), num(d - 1));
                if(k == 4) return p.eBin(op, expr({TS}, d - 1), expr({TS}, d - 1));
                if(k == 5) { // mixed, numeric left
                    return p.eBin(op, num(d - 1), g.chance(1, 2) ? expr({TS}, d - 1) : p.eNil());
                }
                // identity
                static const char *eops[] = { "==", "!=", "===" };
                Expr *a = exprA(d - 1), *b = g.chance(1, 2) ? p.eNil() : exprA(d - 1);
                if(wild || a->k == EK::Nil) return p.eBin(eops[g.below(3)], a, b);
                return p.eBin("===", a, b);
            }
            case 4: return p.eBin(g.chance(1, 2) ? "&&" : "||", cond(d - 1), cond(d - 1));
            case 5: {
                Expr *a = expr({TI}, d - 1);
                Expr *b;
                if(wild && g.chance(1, 5)) b = expr({TI}, d - 1);
                else { static const int dv[] = { 1, 2, 3, 7, -2, -3, 10, 256, 65536 }; b = p.eInt(dv[g.below(9)]); }
                return p.eBin(g.chance(1, 2) ? "/" : "%", a, b);
            }
            case 6: return g.chance(1, 2) ? p.eUn("-", expr({TI}, d - 1)) : p.eUn("!", cond(d - 1));
            case 7: {
                if(g.chance(1, 3)) { auto v = pickVar({TARR}, false); if(v) { VarInfo vi = *v; return toI(p.eIndex(ref(vi), smallIdx(d))); } }
                static const char *f[] = { "i1", "i2" };
                Expr *ob = exprO(d - 1); const char *n = f[g.below(2)];
                return g.chance(1, 4) ? p.eIndex(ob, p.eStr(n)) : p.eField(ob, n);
            }
            case 8: { // method
                if(g.chance(1, 2)) return p.eSelf(exprO(d - 1), "m1", {expr({TI}, d - 1)});
                return p.eCall(p.eField(exprO(d - 1), "m3"), {expr({TI}, d - 1), expr({TI}, d - 1)});
            }
            case 9: { Expr *e = callOf(TI, d); if(e) return e; return lit(TI); }
            case 10: { // increment
                Expr *l = lvalue(TI, 2); if(!l || hasInc(l)) return lit(TI);
                if(l->k == EK::Index && !isArrSafe(l)) return lit(TI);
                Expr *e = p.ex(EK::Inc); e->op = g.chance(1, 2) ? "++" : "--"; e->i = g.below(2); e->kids = {l};
                return e;
            }
            case 11: { Expr *l = lvalue(TI, d - 1); if(!l) return lit(TI); return p.eAssign(l, expr({TI}, d - 1)); }
            case 12: return p.eBuiltin("len", {g.chance(1, 2) ? expr({TARR}, d - 1) : exprO(d - 1)});
            case 13: {
                if(!hasCo() && !g.chance(1, 5)) return lit(TI);
                if(g.chance(1, 3)) return p.eBuiltin("is_finished", {expr({TCO}, d - 1)});
                return toI(resumeOf(d));
            }
            case 14: return toI(yieldOf(d));
            case 15: { Expr *e = p.ex(EK::Special); if(ctx.size() == 1) return lit(TI); e->s = "_argumentCount"; return e; }
            case 16: { // anonymous function called at once
                if(ctx.size() >= 3) return lit(TI);
                int s = g.pick(std::vector<int>{0, 1, 4});
                Expr *f = fnLiteral(s);
                return p.eCall(f, argsFor(sigs[s].params, d));
            }
            case 17: return sumOrId(d);
            default: return p.eCall(p.eNative(N_TAG), {expr({TS}, d - 1), expr({TI}, d - 1)});
        }
    }
    Expr *sumOrId(int d) {
        if(g.chance(1, 2)) return p.eCall(p.eNative(N_SUM), {expr({TI}, d - 1), expr({TI}, d - 1)});
        return p.eCall(p.eNative(N_ID), {expr({TI}, d - 1)});
    }
    bool isArrSafe(Expr *l) { (void)l; return wild; } // a[k]++ on a missing element is an error
    bool hasInc(Expr *e) {
        if(e->k == EK::Inc || e->k == EK::Fn || e->k == EK::Assign) return true;
        for(auto k : e->kids) if(hasInc(k)) return true;
        return false;
    }
    Expr *resumeOf(int d) {
        std::vector<Expr *> a{expr({TCO}, d - 1)};
        switch(g.below(5)) { case 0: break; case 1: a.push_back(expr({TS}, d - 1)); break; default: a.push_back(expr({TI}, d - 1)); }
        return p.eBuiltin("resume", a);
    }
    Expr *yieldOf(int d) {
        if(g.chance(1, 6)) return p.eBuiltin("yield", {});
        return p.eBuiltin("yield", {expr({g.chance(1, 6) ? TS : TI}, d - 1)});
    }
    Expr *coNew(int d) {
        std::vector<const VarInfo *> c;
        for(auto v : visible()) if(v->ty.t == TFN && v->ty.sig == COSIG) c.push_back(v);
        if(c.empty()) {
            if(ctx.size() >= 3 || budget < 0 || totalWeight < 0) { // the simplest body
                Func *f = p.fu(); beginFn(f, 1);
                Stmt *r = p.st(SK::Return); r->e = ref(cur().scopes[0].vars[0]); f->body.push_back(r);
                endFn();
                Expr *e = p.ex(EK::Fn); e->fn = f;
                return p.eBuiltin("coroutine", {e, expr({TI}, d - 1)});
            }
            if(ctx.size() >= 2) return p.eBuiltin("coroutine", {fnLiteral(1), expr({TI}, d - 1)});
            return p.eBuiltin("coroutine", {coLiteral(), expr({TI}, d - 1), expr({TI}, d - 1)});
        }
        VarInfo v = *c[g.below((uint32_t)c.size())];
        return p.eBuiltin("coroutine", {ref(v), expr({TI}, d - 1), expr({TI}, d - 1)});
    }
    Expr *coLiteral() {
        Func *f = p.fu();
        beginFn(f, COSIG);
        body(f, 1 + g.below(3));
        endFn();
        Expr *e = p.ex(EK::Fn); e->fn = f; return e;
    }
    Expr *exprF(int d) {
        if(d <= 0) {
            if(g.chance(1, 2)) { auto v = pickVar({TF}, false); if(v) return ref(*v); }
            return lit(TF);
        }
        switch(g.weighted({4, 5, 8, 2, o.objects ? 3u : 0u, 3, 2})) {
            case 0: return lit(TF);
            case 1: { auto v = pickVar({TF}, false); return v ? ref(*v) : lit(TF); }
            case 2: { static const char *ops[] = { "+", "-", "*", "/" }; Expr *a = expr({TF}, d - 1); return p.eBin(ops[g.below(4)], a, g.chance(1, 8) ? expr({TS}, d - 1) : num(d - 1)); }
            case 3: return p.eUn("-", expr({TF}, d - 1));
            case 4: return p.eField(exprO(d - 1), "f1");
            case 5: { Expr *e = callOf(TF, d); return e ? e : lit(TF); }
            default: { Expr *l = lvalue(TF, d - 1); if(!l) return lit(TF); return p.eAssign(l, expr({TF}, d - 1)); }
        }
    }
    Expr *exprS(int d) {
        if(d <= 0) {
            if(g.chance(1, 2)) { auto v = pickVar({TS}, false); if(v) return ref(*v); }
            return lit(TS);
        }
        switch(g.weighted({4, 5, 8, o.objects ? 2u : 0u, 3, o.objects ? 1u : 0u, 1, 2, 1})) {
            case 0: return lit(TS);
            case 1: { auto v = pickVar({TS}, false); return v ? ref(*v) : lit(TS); }
            case 2: {
                Expr *a = expr({TS}, d - 1); Expr *b;
                switch(g.below(5)) { case 0: b = expr({TF}, d - 1); break; case 1: b = expr({TI}, d - 1); break; case 2: b = g.chance(1, 6) ? p.eNil() : lit(TS); break; default: b = expr({TS}, d - 1); }
                return p.eBin("+", a, b);
            }
            case 3: return p.eField(exprO(d - 1), "s1");
            case 4: { Expr *e = callOf(TS, d); return e ? e : lit(TS); }
            case 5: return p.eSelf(exprO(d - 1), "m2", {});
            case 6: { Expr *l = lvalue(TS, d - 1); if(!l) return lit(TS); return p.eAssign(l, expr({TS}, d - 1)); }
            case 7: return p.eCall(p.eNative(N_STR), {expr({g.chance(1, 2) ? TI : TF}, d - 1)});
            default: return p.eCall(p.eNative(N_ID), {expr({TS}, d - 1)});
        }
    }
    Expr *exprO(int d) {
        auto v = pickVar({TO}, false);
        if(d <= 0) { if(v) return ref(*v); return mk(0); }
        VarInfo vi; if(v) vi = *v;
        uint32_t wb = o.boxes && pickVar({TBOX}, false) ? 3 : 0, wh = o.holds && pickVar({THOLD}, false) ? 3 : 0;
        switch(g.weighted({v ? 8u : 0u, 2, 3, 1, wb, wh})) {
            case 4: return p.eCall(p.eNative(N_UNBOX), {expr({TBOX}, d - 1)});
            case 5: return p.eCall(p.eNative(N_HELD), {expr({THOLD}, d - 1)});
            case 0: return ref(vi);
            case 1: return mk(g.below(3));
            case 2: return p.eField(exprO(d - 1), "o1");
            default: return p.eCall(p.eNative(N_ID), {exprO(d - 1)});
        }
    }
    Expr *mk(int n) {
        if(mkSlot < 0) return p.ex(EK::NewObj);
        return p.eCall(p.eGlobal(mkSlot), {p.eInt(n)});
    }
    Expr *exprA(int d) {
        switch(g.weighted({5, 3, 3, o.objects ? 3u : 0u, 2, 2, 2, o.objects ? 2u : 0u, o.objects ? 1u : 0u, o.coroutines ? 1u : 0u, 1})) {
            case 0: return expr({TI}, d - 1);
            case 1: return expr({TF}, d - 1);
            case 2: return expr({TS}, d - 1);
            case 3: return expr({TO}, d - 1);
            case 4: return p.eNil();
            case 5: { auto v = pickVar({TA}, false); return v ? ref(*v) : p.eNil(); }
            case 6: { auto v = anyVar(); return v ? ref(*v) : lit(TI); }
            case 7: { static const char *f[] = { "x1", "x2", "i1", "s1", "i3" }; return p.eField(expr({TO}, d - 1), f[g.below(5)]); }
            case 8: { auto v = pickVar({TARR}, false); if(!v) return p.eNil(); VarInfo vi = *v; return p.eIndex(ref(vi), smallIdx(d)); }
            case 9: if(!hasCo() && !g.chance(1, 5)) return p.eNil(); return resumeOf(d);
            default: { Expr *e = callOf(TA, d); return e ? e : p.eNil(); }
        }
    }
    Expr *cond(int d) {
        switch(g.weighted({6, 1, 1, o.objects ? 1u : 0u, 1})) {
            case 0: return expr({TI}, d);
            case 1: return expr({TF}, d);
            case 2: return expr({TS}, d);
            case 3: return expr({TO}, d);
            default: return p.eNil();
        }
    }
    Expr *ofVarType(Ty t, int d) {
        return expr(t, d);
    }

    // ---- functions
    void beginFn(Func *f, int sig) {
        ctx.emplace_back();
        FnCtx &c = ctx.back();
        c.fn = f; c.nslots = &f->nslots; c.sig = sig;
        c.scopes.emplace_back();
        std::vector<T> ps; T ret;
        if(sig == COSIG) { ps = {TI, TI}; ret = TI; c.isCo = true; }
        else if(sig == CODRIVE) { ps = {TCO}; ret = TI; }
        else { ps = sigs[sig].params; ret = sigs[sig].ret; }
        c.ret = ret;
        for(auto t : ps) {
            std::string n = "p" + std::to_string(counter++);
            f->params.push_back(n);
            c.scopes.back().vars.push_back({n, {t}, false, f->nslots++, false});
        }
    }
    void endFn() { ctx.pop_back(); }
    void body(Func *f, int n) {
        for(int i = 0; i < n; i++) stmt(f->body, 2);
        if(!g.chance(1, 6) || cur().ret != TI) {
            Stmt *r = p.st(SK::Return); r->e = expr({cur().ret}, 2); f->body.push_back(r);
        }
    }
    // A self-recursive function with a decreasing first parameter.
    void recursiveFn(std::vector<Stmt *> &out) {
        Func *f = p.fu();
        std::string name = freshName("rec");
        VarInfo v = declare(name, {TFN, 1}, true);
        f->name = name;
        beginFn(f, 1);
        cur().recursive = true; cur().selfSlot = v.slot;
        VarInfo n = cur().scopes[0].vars[0];
        const_cast<VarInfo &>(cur().scopes[0].vars[0]).ro = true;
        Stmt *iff = p.st(SK::If); iff->e = p.eBin(g.chance(1, 3) ? "<=" : "<", ref(n), p.eInt(1));
        Stmt *r = p.st(SK::Return); r->e = expr({TI}, 1); iff->b1.push_back(r);
        // Bound the depth whatever is passed in.
        Stmt *iff2 = p.st(SK::If); iff2->e = p.eBin(">", ref(n), p.eInt(5 + g.below(6)));
        Stmt *r2 = p.st(SK::Return); r2->e = p.eInt(g.integer()); iff2->b1.push_back(r2);
        f->body.push_back(iff); f->body.push_back(iff2);
        if(g.chance(1, 2)) stmt(f->body, 1);
        Expr *rc = p.eCall(ref(v), {p.eBin("-", ref(n), p.eInt(1 + g.below(2)))});
        if(g.chance(1, 4)) rc = p.eBin("+", rc, p.eCall(ref(v), {p.eBin("-", ref(n), p.eInt(2))}));
        Stmt *rr = p.st(SK::Return); rr->e = p.eBin(g.chance(1, 2) ? "+" : "*", expr({TI}, 1), rc);
        f->body.push_back(rr);
        endFn();
        Stmt *s = p.st(SK::Func); s->name = name; s->global = v.global; s->slot = v.slot; s->fn = f;
        out.push_back(s);
    }
    void function(std::vector<Stmt *> &out, int sig) {
        Func *f = p.fu();
        std::string name = freshName(sig == COSIG ? "cob" : "fun");
        bool byVar = g.chance(1, 4);
        // As a declaration the name is visible in the body at root level only; never called there.
        f->name = name;
        beginFn(f, sig);
        body(f, 1 + g.below(3));
        endFn();
        VarInfo v = declare(name, {TFN, sig}, !byVar || sig == COSIG);
        if(byVar) {
            Stmt *s = p.st(SK::Var); s->name = name; s->global = v.global; s->slot = v.slot;
            s->e = p.ex(EK::Fn); s->e->fn = f; out.push_back(s);
        } else {
            Stmt *s = p.st(SK::Func); s->name = name; s->global = v.global; s->slot = v.slot; s->fn = f;
            out.push_back(s);
        }
    }

    // ---- statements
    Stmt *outStmt(int d) {
        std::vector<Expr *> a; int n = 1 + g.below(3);
        for(int i = 0; i < n; i++) a.push_back(exprA(d));
        return p.sExpr(p.eCall(p.eNative(N_OUT), a));
    }
    void scoped(std::vector<Stmt *> &b, int n, int d) {
        cur().scopes.emplace_back();
        for(int i = 0; i < n; i++) stmt(b, d);
        cur().scopes.pop_back();
    }
    void varStmt(std::vector<Stmt *> &out, Ty ty, int d, bool fresh = false) {
        Expr *e;
        if(ty.t == TA && g.chance(1, 5)) { e = nullptr; }
        else if(ty.t == TI && g.chance(1, 8)) e = nullptr;
        else if(fresh && ty.t == TBOX) e = boxOf(d);
        else if(fresh && ty.t == THOLD) e = holdOf(d);
        else e = expr(ty, d);
        VarInfo v = declare(freshName("v"), ty);
        Stmt *s = p.st(SK::Var); s->name = v.name; s->global = v.global; s->slot = v.slot; s->e = e;
        out.push_back(s);
    }
    void callableStmts(std::vector<Stmt *> &out) {
        // c = newobject; c._exec = f; [c._data = v;]
        std::vector<const VarInfo *> c;
        for(auto v : visible()) if((v->ty.t == TFN || v->ty.t == TCALL) && v->ty.sig >= 0 && v->ty.sig < (int)sigs.size()) c.push_back(v);
        if(c.empty()) { out.push_back(outStmt(2)); return; }
        VarInfo f = *c[g.below((uint32_t)c.size())];
        int resSig = f.ty.sig; bool data = false;
        // With data the first parameter is bound.
        if(g.chance(1, 2) && !sigs[f.ty.sig].params.empty()) {
            std::vector<T> rest(sigs[f.ty.sig].params.begin() + 1, sigs[f.ty.sig].params.end());
            for(size_t i = 0; i < sigs.size(); i++) if(sigs[i].params == rest && sigs[i].ret == sigs[f.ty.sig].ret) { resSig = (int)i; data = true; break; }
        }
        Stmt *s = p.st(SK::Var); s->e = p.ex(EK::NewObj);
        Expr *dv = data ? expr({sigs[f.ty.sig].params[0]}, 1) : nullptr;
        VarInfo v = declare(std::string("c") + std::to_string(counter++), {TCALL, resSig}, true);
        s->name = v.name; s->global = v.global; s->slot = v.slot;
        out.push_back(s);
        out.push_back(p.sExpr(p.eAssign(p.eField(ref(v), "_exec"), ref(f))));
        if(dv) out.push_back(p.sExpr(p.eAssign(p.eField(ref(v), "_data"), dv)));
        if(g.chance(1, 2) && resSig < (int)sigs.size()) out.push_back(p.sExpr(p.eCall(p.eNative(N_OUT), {p.eCall(ref(v), argsFor(sigs[resSig].params, 1))})));
    }
    // Calls with many arguments, functions with many variables, and callable objects calling each other.
    VarInfo addVar(std::vector<Stmt *> &out, const char *pre, Ty t, Expr *e) {
        VarInfo v = declare(std::string(pre) + std::to_string(counter++), t, true);
        Stmt *x = p.st(SK::Var); x->name = v.name; x->global = v.global; x->slot = v.slot; x->e = e; out.push_back(x);
        return v;
    }
    void wideFnStmts(std::vector<Stmt *> &out) {
        static const T kinds[] = { TI, TI, TF, TS, TA };
        int n = g.chance(1, 3) ? 12 + g.below(30) : 4 + g.below(8);
        std::vector<T> ts; for(int i = 0; i < n; i++) ts.push_back(kinds[g.below(5)]);
        bool self = o.objects && g.chance(1, 3); if(self) ts[0] = TO;
        Func *f = p.fu(); std::string name = "wide" + std::to_string(counter++); f->name = name;
        ctx.emplace_back(); { FnCtx &c = ctx.back(); c.fn = f; c.nslots = &f->nslots; c.sig = 0; c.ret = TS; c.scopes.emplace_back(); }
        for(int i = 0; i < n; i++) { std::string pn = "q" + std::to_string(i); f->params.push_back(pn); cur().scopes.back().vars.push_back({pn, {ts[i]}, false, f->nslots++, false}); }
        std::vector<VarInfo> all = cur().scopes[0].vars;
        int extra = g.chance(1, 3) ? 20 + g.below(120) : 0;
        for(int i = 0; i < extra; i++) all.push_back(addVar(f->body, "t", {TI}, g.chance(1, 4) ? nullptr : p.eInt(g.integer())));
        auto some = [&](int m) { std::vector<Expr *> a; for(int i = 0; i < m; i++) { const VarInfo &v = all[i == 0 ? 0 : i == 1 ? all.size() - 1 : g.below((uint32_t)all.size())]; if(v.ty.t == TO) a.push_back(p.eField(ref(v), "i1")); else a.push_back(ref(v)); } return a; };
        f->body.push_back(p.sExpr(p.eCall(p.eNative(N_OUT), some(g.chance(1, 3) ? 13 + g.below(24) : 3 + g.below(4)))));
        if(g.chance(1, 2)) stmt(f->body, 1);
        if(g.chance(1, 2)) { // leave from inside of blocks with variables of their own
            Stmt *b = p.st(SK::Block); cur().scopes.emplace_back();
            int m = 1 + g.below(extra ? 80 : 4); std::vector<VarInfo> in; for(int i = 0; i < m; i++) in.push_back(addVar(b->b1, "u", {TI}, p.eInt(i)));
            Stmt *iff = p.st(SK::If); iff->e = cond(1); cur().scopes.emplace_back();
            Stmt *r = p.st(SK::Return); r->e = p.eBin("+", p.eStr("in"), ref(in[g.below((uint32_t)in.size())])); iff->b1.push_back(r); cur().scopes.pop_back();
            b->b1.push_back(iff); cur().scopes.pop_back(); f->body.push_back(b);
        }
        std::vector<Expr *> last = some(2); Stmt *r = p.st(SK::Return); r->e = p.eBin("+", p.eBin("+", p.eStr("w"), last[1]), p.eBin("+", p.eStr("/"), p.eCall(p.eNative(N_STR), {some(1)[0]}))); if(all.back().ty.t == TA || ts[0] == TA) r->e = p.eStr("any"); f->body.push_back(r);
        ctx.pop_back();
        VarInfo v = declare(name, {TFN, 97}, true);
        Stmt *fs = p.st(SK::Func); fs->name = name; fs->global = v.global; fs->slot = v.slot; fs->fn = f; out.push_back(fs);
        auto args = [&](int skip) { std::vector<Expr *> a; for(int i = skip; i < n; i++) a.push_back(g.chance(1, 3) ? expr({ts[i]}, 1) : ts[i] == TO ? expr({TO}, 0) : lit(ts[i])); return a; };
        int uses = 1 + g.below(2);
        for(int u = 0; u < uses; u++) {
            Expr *e = nullptr;
            switch(g.weighted({3, self ? 4u : 0u, o.objects && o.callables ? 4u : 0u, o.coroutines ? 3u : 0u, o.hostCalls ? 2u : 0u})) {
                case 0: e = p.eCall(ref(v), args(0)); break;
                case 1: { VarInfo ob = addVar(out, "o", {TA}, p.ex(EK::NewObj)); out.push_back(p.sExpr(p.eAssign(p.eField(ref(ob), "m9"), ref(v)))); e = p.eSelf(ref(ob), "m9", args(1)); break; }
                case 2: { int bound = 0; VarInfo c = chain(out, v, ts, bound, true); e = p.eCall(ref(c), args(bound)); break; }
                case 3: { std::vector<Expr *> a = args(0); a.insert(a.begin(), ref(v)); VarInfo c = addVar(out, "co", {TA}, p.eBuiltin("coroutine", a)); e = p.eBuiltin("resume", {ref(c)}); break; }
                default: { std::vector<Expr *> a = args(0); a.insert(a.begin(), ref(v)); e = p.eCall(p.eNative(N_CALL), a); }
            }
            out.push_back(p.sExpr(p.eCall(p.eNative(N_OUT), {e, lit(TI)})));
        }
    }
    // Objects calling f, or one another; bound: how many of its parameters are given by them.
    VarInfo chain(std::vector<Stmt *> &out, VarInfo f, const std::vector<T> &ts, int &bound, bool typed) {
        int n = 1 + g.below(g.chance(1, 3) ? 8 : 3);
        for(int i = 0; i < n; i++) {
            VarInfo c = addVar(out, "c", {TA}, p.ex(EK::NewObj));
            if(g.chance(1, 2) && (!typed || bound < (int)ts.size())) { out.push_back(p.sExpr(p.eAssign(p.eField(ref(c), "_data"), typed ? (ts[bound] == TO ? expr({TO}, 0) : lit(ts[bound])) : g.chance(1, 3) ? expr({TA}, 1) : lit(g.chance(1, 2) ? TI : TS)))); if(out.back()->e->kids[1]->k == EK::Nil) out.back()->e->kids[1] = p.eInt(7); bound++; }
            out.push_back(p.sExpr(p.eAssign(p.eField(ref(c), "_exec"), ref(f))));
            f = c;
        }
        return f;
    }
    void wideStmts(std::vector<Stmt *> &out) {
        if(g.chance(1, 2)) { wideFnStmts(out); return; }
        if(o.objects && o.callables && g.chance(1, 2)) {
            // A native behind callable objects.
            VarInfo nv{nativeNames[N_OUT], {TFN, 98}, true, N_OUT, true}; int bound = 0; VarInfo c = chain(out, nv, {}, bound, false);
            std::vector<Expr *> a; for(int i = g.below(4); i > 0; i--) a.push_back(exprA(1));
            out.push_back(p.sExpr(p.eCall(ref(c), a))); return;
        }
        std::vector<Expr *> a; for(int i = 10 + g.below(30); i > 0; i--) a.push_back(g.chance(1, 4) ? exprA(1) : lit(g.chance(1, 2) ? TI : TS));
        out.push_back(p.sExpr(p.eCall(p.eNative(N_OUT), a)));
    }
    void stmt(std::vector<Stmt *> &out, int d) {
        if(--totalWeight < 0) { out.push_back(outStmt(1)); return; }
        bool inFn = ctx.size() > 1; bool root = atRoot();
        uint32_t co = o.coroutines ? o.coroutineWeight : 0;
        switch(g.weighted({
            14,                                  // 0 var
            10,                                  // 1 assignment
            14,                                  // 2 out
            o.objects ? 3u : 0u,                 // 3 dump
            d > 0 ? 6u : 0u,                     // 4 if
            d > 0 ? 4u : 0u,                     // 5 for
            d > 0 ? 3u : 0u,                     // 6 while
            d > 0 ? 2u : 0u,                     // 7 do while
            cur().loopDepth ? 3u : 0u,           // 8 conditional break
            inFn ? 3u : 0u,                      // 9 conditional return
            d > 0 ? 2u : 0u,                     // 10 block
            root ? 7u : (ctx.size() < 3 && d > 0 ? 1u : 0u), // 11 function
            root ? 3u : 0u,                      // 12 recursive function
            6,                                   // 13 expression statement
            o.objects ? 4u : 0u,                 // 14 array element set / removal
            o.callables && o.objects ? 2u : 0u,  // 15 callable object
            root ? 4u * co : 0u,                 // 16 coroutine body function
            co ? 4u * co : 0u,                   // 17 coroutine variable
            co ? 5u * co : 0u,                   // 18 resume statement
            cur().isCo ? 10u : 0u,               // 19 yield statement
            o.forceGc ? 1u : 0u,                 // 20 gc()
            wild && o.nativeErrors ? 1u : 0u,    // 21 err() under a condition
            d > 0 && co ? 1u * co : 0u,          // 22 drain loop
            o.boxes && o.objects ? 2u : 0u,      // 23 box variable
            o.boxes && o.objects ? 1u : 0u,      // 24 new contents for a box
            o.holds && o.objects ? 2u : 0u,      // 25 handle variable
            o.holds && o.objects ? 1u : 0u,      // 26 dropped and taken again
            o.boxes && o.objects ? 1u : 0u,      // 27 box with any content, read back
            o.objects ? 1u : 0u,                 // 28 one value as key and value of an entry, read back later
            root ? 2u : 0u,                      // 29 many arguments, many variables, objects calling objects
        })) {
            case 0: {
                std::vector<Ty> ts = { {TI}, {TI}, {TI}, {TF}, {TS}, {TS}, {TA} };
                if(o.objects) { ts.push_back({TO}); ts.push_back({TO}); ts.push_back({TARR}); }
                Ty t = ts[g.below((uint32_t)ts.size())];
                if(g.chance(1, 10)) { int s = g.below((uint32_t)sigs.size()); if(o.objects || (s != 3 && s != 6 && s != 7)) t = {TFN, s}; }
                varStmt(out, t, 3);
                break;
            }
            case 1: {
                static const T ts[] = { TI, TI, TI, TF, TS, TA, TO };
                T t = ts[g.below(o.objects ? 7 : 6)];
                Expr *l = lvalue(t, 2);
                if(!l) { out.push_back(outStmt(2)); break; }
                out.push_back(p.sExpr(p.eAssign(l, expr({t}, 3))));
                break;
            }
            case 3: out.push_back(p.sExpr(p.eCall(p.eNative(N_DUMP), {g.chance(2, 3) ? expr({TO}, 2) : expr({TARR}, 1)}))); break;
            case 4: {
                Stmt *s = p.st(SK::If); s->e = cond(2); s->braces = !g.chance(1, 4);
                scoped(s->b1, 1 + g.below(2), d - 1);
                if(g.chance(1, 2)) { s->hasElse = true; scoped(s->b2, 1 + g.below(2), d - 1); }
                out.push_back(s); break;
            }
            case 5: {
                Stmt *s = p.st(SK::For);
                cur().scopes.emplace_back();
                int n = 1 + g.below(5);
                if(g.chance(1, 6)) {
                    auto v = pickVar({TI}, true);
                    if(v && !v->global) { // an existing local as counter
                        VarInfo vi = *v;
                        s->init = p.sExpr(p.eAssign(ref(vi), p.eInt(0)));
                        setRo(vi, true);
                        loopRest(s, vi, n, d);
                        setRo(vi, false);
                        cur().scopes.pop_back(); out.push_back(s); break;
                    }
                }
                VarInfo v = declare(freshName("i"), {TI}, true);
                s->init = p.st(SK::Var); s->init->name = v.name; s->init->slot = v.slot; s->init->global = false; s->init->e = g.chance(1, 6) ? nullptr : p.eInt(0);
                loopRest(s, v, n, d);
                cur().scopes.pop_back();
                out.push_back(s); break;
            }
            case 6: case 7: {
                VarInfo v = declare(freshName("w"), {TI}, true);
                Stmt *i = p.st(SK::Var); i->name = v.name; i->slot = v.slot; i->global = v.global; i->e = p.eInt(1 + g.below(4));
                out.push_back(i);
                bool dw = g.chance(1, 3);
                Stmt *s = p.st(dw ? SK::DoWhile : SK::While);
                Expr *dec = p.ex(EK::Inc); dec->op = "--"; dec->i = g.below(2); dec->kids = {ref(v)};
                cur().loopDepth++;
                cur().scopes.emplace_back();
                if(g.chance(1, 2)) {
                    s->e = dw ? p.eBin(">", dec, p.eInt(0)) : p.eBin(">", dec, p.eInt(0));
                    s->b1.clear();
                    int n = 1 + g.below(2);
                    for(int k = 0; k < n; k++) stmt(s->b1, d - 1);
                } else {
                    s->e = p.eBin(">", ref(v), p.eInt(0));
                    s->b1.push_back(p.sExpr(dec));
                    int n = 1 + g.below(2);
                    for(int k = 0; k < n; k++) stmt(s->b1, d - 1);
                }
                cur().scopes.pop_back();
                cur().loopDepth--;
                s->braces = !g.chance(1, 4);
                out.push_back(s); break;
            }
            case 8: {
                Stmt *s = p.st(SK::If); s->e = cond(2); 
                cur().scopes.emplace_back();
                if(g.chance(1, 3)) varStmt(s->b1, {TI}, 1);
                cur().scopes.pop_back();
                s->b1.push_back(p.st(SK::Break));
                out.push_back(s); break;
            }
            case 9: {
                Stmt *s = p.st(SK::If); s->e = cond(2);
                cur().scopes.emplace_back();
                if(g.chance(1, 3)) varStmt(s->b1, {TI}, 1);
                Stmt *r = p.st(SK::Return); r->e = expr({cur().ret}, 2);
                cur().scopes.pop_back();
                s->b1.push_back(r); out.push_back(s); break;
            }
            case 10: { Stmt *s = p.st(SK::Block); scoped(s->b1, 1 + g.below(3), d - 1); out.push_back(s); break; }
            case 11: {
                std::vector<int> ok = { 0, 1, 2, 4, 5, 8, 9 };
                if(o.objects) { ok.push_back(3); ok.push_back(6); ok.push_back(7); }
                function(out, ok[g.below((uint32_t)ok.size())]); break;
            }
            case 12: recursiveFn(out); break;
            case 13: {
                switch(g.below(3)) {
                    case 0: { Expr *e = callOf(g.chance(1, 2) ? TI : TS, 2); if(e) { out.push_back(p.sExpr(e)); break; } }
                        [[fallthrough]];
                    case 1: {
                        Expr *l = lvalue(g.chance(1, 5) ? TF : TI, 2);
                        if(l && !hasInc(l) && (l->k != EK::Index || wild)) {
                            Expr *e = p.ex(EK::Inc); e->op = g.chance(1, 2) ? "++" : "--"; e->i = g.below(2); e->kids = {l};
                            out.push_back(p.sExpr(e)); break;
                        }
                    }
                        [[fallthrough]];
                    default: out.push_back(outStmt(3));
                }
                break;
            }
            case 14: {
                auto v = pickVar({TARR}, false);
                if(!v) { varStmt(out, {TARR}, 1); break; }
                VarInfo vi = *v;
                Expr *l = p.eIndex(ref(vi), smallIdx(2));
                out.push_back(p.sExpr(p.eAssign(l, g.chance(1, 4) ? p.eNil() : expr({TI}, 2))));
                break;
            }
            case 15: callableStmts(out); break;
            case 16: function(out, COSIG); break;
            case 17: {
                Expr *e = coNew(2);
                VarInfo v = declare(freshName("co"), {TCO}, false);
                Stmt *s = p.st(SK::Var); s->name = v.name; s->global = v.global; s->slot = v.slot; s->e = e;
                out.push_back(s); break;
            }
            case 18: if(!hasCo() && !g.chance(1, 5)) { out.push_back(outStmt(2)); break; }
                out.push_back(p.sExpr(p.eCall(p.eNative(N_OUT), {resumeOf(2), p.eBuiltin("is_finished", {expr({TCO}, 1)})}))); break;
            case 19: out.push_back(p.sExpr(yieldOf(2))); break;
            case 20: out.push_back(p.sExpr(p.eCall(p.eNative(N_GC), {}))); break;
            case 21: { Stmt *s = p.st(SK::If); s->e = cond(2); s->b1.push_back(p.sExpr(p.eCall(p.eNative(N_ERR), {}))); out.push_back(s); break; }
            case 22: { // drain a coroutine
                auto v = pickVar({TCO}, false);
                if(!v) { out.push_back(outStmt(2)); break; }
                VarInfo vi = *v;
                VarInfo c = declare(std::string("w") + std::to_string(counter++), {TI}, true);
                Stmt *i = p.st(SK::Var); i->name = c.name; i->slot = c.slot; i->global = c.global; i->e = p.eInt(0);
                out.push_back(i);
                Stmt *s = p.st(SK::While);
                Expr *inc = p.ex(EK::Inc); inc->op = "++"; inc->i = 0; inc->kids = {ref(c)};
                s->e = p.eBin("&&", p.eUn("!", p.eBuiltin("is_finished", {ref(vi)})), p.eBin("<", inc, p.eInt(6)));
                s->b1.push_back(p.sExpr(p.eCall(p.eNative(N_OUT), {p.eBuiltin("resume", {ref(vi), ref(c)})})));
                out.push_back(s); break;
            }
            case 23: varStmt(out, {TBOX}, 2, true); break;
            case 24: if(pickVar({TBOX}, false)) { out.push_back(p.sExpr(p.eCall(p.eNative(N_REBOX), {expr({TBOX}, 1), exprO(2)}))); break; } varStmt(out, {TBOX}, 2, true); break;
            case 25: varStmt(out, {THOLD}, 2, true); break;
            case 26: {
                auto v = pickVar({THOLD}, true);
                if(!v) { varStmt(out, {THOLD}, 2, true); break; }
                VarInfo vi = *v;
                out.push_back(p.sExpr(p.eCall(p.eNative(N_OUT), {p.eCall(p.eNative(N_DROP), {ref(vi)}), p.eCall(p.eNative(N_HELD), {ref(vi)})})));
                out.push_back(p.sExpr(p.eAssign(ref(vi), holdOf(2))));
                break;
            }
            case 28: {
                auto var = [&](Ty t, const char *pre, Expr *e) { VarInfo v = declare(std::string(pre) + std::to_string(counter++), t, true); Stmt *x = p.st(SK::Var); x->name = v.name; x->global = v.global; x->slot = v.slot; x->e = e; out.push_back(x); return v; };
                Expr *ke = g.chance(1, 2) ? p.eBin("+", p.eStr(g.chance(1, 2) ? "k" : ""), expr({TI}, 1)) : g.chance(1, 2) ? expr({TS}, 2) : exprO(1); if(!ke) { out.push_back(outStmt(2)); break; }
                if(g.chance(1, 3)) { // an object under a key that is made and let go at once
                    VarInfo m = var({TA}, "m", p.ex(EK::NewObj)); std::string base = g.chance(1, 2) ? "key" : randomString(g, 8); Expr *b = expr({TI}, 1);
                    VarInfo n = var({TA}, "n", b); auto key = [&] { return p.eBin("+", p.eStr(base), ref(n)); };
                    out.push_back(p.sExpr(p.eAssign(p.eIndex(ref(m), key()), g.chance(1, 3) ? p.ex(EK::NewObj) : exprO(1))));
                    for(int i = g.below(4); i > 0; i--) out.push_back(g.chance(1, 2) ? p.sExpr(p.eCall(p.eNative(N_GC), {})) : g.chance(1, 2) ? outStmt(2) : p.sExpr(p.eCall(p.eNative(N_OUT), {p.eBin("+", p.eStr("z" + std::to_string(g.below(50))), ref(n))})));
                    out.push_back(p.sExpr(p.eCall(p.eNative(N_OUT), {p.eBin("==", p.eIndex(ref(m), key()), p.eNil()), p.eBuiltin("len", {ref(m)})})));
                    break;
                }
                if(o.boxes && o.holds && g.chance(1, 3)) { // a native object only the host holds
                    VarInfo hv = var({TA}, "h", p.eCall(p.eNative(N_HOLD), {boxOf(2)}));
                    for(int i = g.below(4); i > 0; i--) out.push_back(g.chance(1, 2) ? p.sExpr(p.eCall(p.eNative(N_GC), {})) : outStmt(2));
                    out.push_back(p.sExpr(p.eCall(p.eNative(N_OUT), {p.eCall(p.eNative(N_UNBOX), {p.eCall(p.eNative(N_HELD), {ref(hv)})})})));
                    if(g.chance(1, 2)) out.push_back(p.sExpr(p.eCall(p.eNative(N_DROP), {ref(hv)})));
                    break;
                }
                VarInfo k = var({TA}, "k", ke); VarInfo m = var({TA}, "m", p.ex(EK::NewObj));
                int n = 1 + g.below(2); out.push_back(p.sExpr(p.eAssign(p.eIndex(ref(m), ref(k)), ref(k))));
                if(n == 2) out.push_back(p.sExpr(p.eAssign(p.eIndex(ref(m), p.eIndex(ref(m), ref(k))), p.eIndex(ref(m), ref(k)))));
                for(int i = g.below(3); i > 0; i--) out.push_back(g.chance(1, 2) ? p.sExpr(p.eCall(p.eNative(N_GC), {})) : outStmt(2));
                out.push_back(p.sExpr(p.eCall(p.eNative(N_OUT), {p.eBin("==", p.eIndex(ref(m), ref(k)), ref(k)), p.eBuiltin("len", {ref(m)})})));
                break;
            }
            case 29: wideStmts(out); break;
            case 27: out.push_back(p.sExpr(p.eCall(p.eNative(N_OUT), {p.eCall(p.eNative(N_UNBOX), {p.eCall(p.eNative(N_BOX), {exprA(2)})})}))); break;
            default: out.push_back(outStmt(3));
        }
    }
    void setRo(const VarInfo &v, bool ro) {
        for(auto &s : cur().scopes) for(auto &x : s.vars) if(x.slot == v.slot && x.global == v.global && x.name == v.name) x.ro = ro;
    }
    void loopRest(Stmt *s, const VarInfo &v, int n, int d) {
        s->e = p.eBin(g.chance(1, 3) ? "<=" : "<", ref(v), p.eInt(n));
        Expr *inc = p.ex(EK::Inc); inc->op = "++"; inc->i = g.below(2); inc->kids = {ref(v)};
        s->e2 = g.chance(1, 4) ? p.eAssign(ref(v), p.eBin("+", ref(v), p.eInt(1 + g.below(2)))) : inc;
        cur().loopDepth++;
        cur().scopes.emplace_back();
        int k = 1 + g.below(2);
        for(int i = 0; i < k; i++) stmt(s->b1, d - 1);
        cur().scopes.pop_back();
        cur().loopDepth--;
        s->braces = !g.chance(1, 4);
    }

    // mk(n): an object with every conventional field.
    void prelude() {
        auto nm = [&](const char *n) { return std::string(n); };
        auto local = [&](int slot, const char *n) { Expr *e = p.ex(EK::Var); e->s = n; e->slot = slot; return e; };
        Func *f = p.fu(); f->name = "mk"; f->params = {nm("n")}; f->nslots = 2;
        mkSlot = (int)p.globals.size(); p.globals.push_back("mk");
        ctx[0].scopes[0].vars.push_back({"mk", {TFN, 99}, true, mkSlot, true});
        auto N = [&] { return local(0, "n"); };
        auto O = [&] { return local(1, "o"); };
        Stmt *s = p.st(SK::Var); s->name = "o"; s->slot = 1; s->e = p.ex(EK::NewObj); f->body.push_back(s);
        auto set = [&](const char *fld, Expr *e) { f->body.push_back(p.sExpr(p.eAssign(p.eField(O(), fld), e))); };
        set("i1", N()); set("i2", p.eBin("*", N(), p.eInt(3)));
        set("f1", p.eBin("+", p.eFloat(0.5f), N()));
        set("s1", p.eBin("+", p.eStr("s"), N()));
        { Func *m = p.fu(); m->params = {"self", "a"}; m->nslots = 2;
          Stmt *a = p.sExpr(p.eAssign(p.eField(local(0, "self"), "i2"), p.eBin("+", p.eField(local(0, "self"), "i2"), local(1, "a"))));
          Stmt *r = p.st(SK::Return); r->e = p.eBin("+", p.eField(local(0, "self"), "i1"), local(1, "a"));
          m->body = {a, r}; Expr *e = p.ex(EK::Fn); e->fn = m; set("m1", e); }
        { Func *m = p.fu(); m->params = {"self"}; m->nslots = 1;
          Stmt *r = p.st(SK::Return); r->e = p.eBin("+", p.eField(local(0, "self"), "s1"), p.eStr("!"));
          m->body = {r}; Expr *e = p.ex(EK::Fn); e->fn = m; set("m2", e); }
        { Func *m = p.fu(); m->params = {"a", "b"}; m->nslots = 2;
          Stmt *r = p.st(SK::Return); r->e = p.eBin("-", local(0, "a"), local(1, "b"));
          m->body = {r}; Expr *e = p.ex(EK::Fn); e->fn = m; set("m3", e); }
        Stmt *iff = p.st(SK::If); iff->e = p.eBin(">", N(), p.eInt(0)); iff->hasElse = true;
        iff->b1 = { p.sExpr(p.eAssign(p.eField(O(), "o1"), p.eCall(p.eGlobal(mkSlot), {p.eBin("-", N(), p.eInt(1))}))) };
        iff->b2 = { p.sExpr(p.eAssign(p.eField(O(), "o1"), O())) };
        f->body.push_back(iff);
        Stmt *r = p.st(SK::Return); r->e = O(); f->body.push_back(r);
        Stmt *fs = p.st(SK::Func); fs->name = "mk"; fs->global = true; fs->slot = mkSlot; fs->fn = f;
        p.top.push_back(fs);
    }
    void run() {
        ctx.emplace_back();
        ctx[0].nslots = &p.rootSlots;
        ctx[0].scopes.emplace_back();
        for(int n = 0; n < N_COUNT; n++) ctx[0].scopes[0].vars.push_back({nativeNames[n], {TFN, 98}, true, n, true});
        wild = o.wildAllowed && g.chance(1, 3);
        p.wild = wild;
        if(o.objects) prelude();
        totalWeight = 40 + o.stmts * 8;
        for(int i = 0; i < o.stmts; i++) { budget = 60; stmt(p.top, 3); }
        budget = 30;
        p.top.push_back(outStmt(2));
    }
};

void generate(Program &p, pbt::Gen &g, const GenOpts &o) { GenP(p, g, o).run(); }

} // namespace lang
