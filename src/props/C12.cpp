// C12: coroutines suspend and resume exactly where and with what they should.
#include "drive.h"
using namespace lang;

namespace {
// A program about coroutines and little else: several global coroutine variables, bodies that yield at
// various depths, resume, create and query each other, with and without mistakes.
struct CoGen {
    Program &p; pbt::Gen &g; bool mistakes; int size;
    struct L { int slot; std::string name; bool co; };
    struct Fn { Func *f = nullptr; std::vector<L> vis; bool body = false; };
    int nCo = 0, nBody = 0, deepSlot = 0, drainSlot = 0, makeSlot = 0, bagSlot = 0, budget = 0, declared = 0, rsSlot = 0, busySlot = 0; bool careful = false;
    std::vector<int> coSlot, bodySlot, bodyParams;
    Fn root, *cur = &root;
    CoGen(Program &pp, pbt::Gen &gg, int s) : p(pp), g(gg), size(s) { mistakes = g.chance(1, 3); }

    int global(const std::string &n) { p.globals.push_back(n); return (int)p.globals.size() - 1; }
    Expr *loc(const L &l) { Expr *e = p.ex(EK::Var); e->slot = l.slot; e->s = l.name; return e; }
    L newLocal(const char *n, bool co = false) {
        int &count = cur->f ? cur->f->nslots : p.rootSlots;
        L l{count, n + std::to_string(count), co}; count++;
        return l;
    }
    Stmt *declare(const L &l, Expr *e) { Stmt *s = p.st(SK::Var); s->name = l.name; s->slot = l.slot; s->e = e; cur->vis.push_back(l); return s; }
    Stmt *varGlobal(int slot, Expr *e) { Stmt *s = p.st(SK::Var); s->name = p.globals[slot]; s->slot = slot; s->global = true; s->e = e; return s; }
    Stmt *outS(std::vector<Expr *> a) { return p.sExpr(p.eCall(p.eNative(N_OUT), a)); }
    Expr *num() {
        std::vector<const L *> ls; for(auto &l : cur->vis) if(!l.co) ls.push_back(&l);
        if(ls.size()) switch(g.below(4)) {
            case 0: case 1: return loc(*ls[g.below((uint32_t)ls.size())]);
            case 2: return p.eBin("+", p.eInt(g.below(20)), loc(*ls[g.below((uint32_t)ls.size())]));
        }
        switch(g.below(12)) {
            case 0: return p.eStr("t" + std::to_string(g.below(9)));
            case 1: return p.eFloat(g.below(8) * 0.25f);
            case 2: return p.eNil();
            default: return p.eInt(g.below(1000));
        }
    }
    Expr *co() {
        std::vector<const L *> ls; for(auto &l : cur->vis) if(l.co) ls.push_back(&l);
        if(ls.size() && g.chance(1, 3)) return loc(*ls[g.below((uint32_t)ls.size())]);
        if(mistakes && g.chance(1, 60)) return g.chance(1, 2) ? p.eNil() : g.chance(1, 2) ? p.eInt(3) : p.ex(EK::NewObj);
        if(g.chance(1, 10)) return p.eField(p.eGlobal(bagSlot), "co");
        return p.eGlobal(coSlot[g.below(nCo)]);
    }
    // Without mistakes, resumed through a function that knows what is running.
    Expr *resume() { if(careful) return p.eCall(p.eGlobal(rsSlot), {co(), num()}); return g.chance(1, 5) ? p.eBuiltin("resume", {co()}) : p.eBuiltin("resume", {co(), num()}); }
    Expr *create() {
        int b = g.below(nBody); int n = bodyParams[b];
        if(mistakes && g.chance(1, 60)) n = g.below(5);
        Expr *f = b < declared && g.chance(2, 3) ? p.eGlobal(bodySlot[b]) : p.eField(p.eGlobal(bagSlot), "f" + std::to_string(b));
        if(mistakes && g.chance(1, 80)) f = g.chance(1, 3) ? p.eNative(N_ID) : g.chance(1, 2) ? p.eInt(5) : p.eNil();
        else if(n && g.chance(1, 6)) { f = p.eCall(p.eGlobal(makeSlot), {f, num()}); n--; } // a callable object in place of the function
        std::vector<Expr *> a{f};
        for(int i = 0; i < n; i++) a.push_back(num());
        return p.eBuiltin("coroutine", a);
    }
    Expr *yieldE() { return g.chance(1, 6) ? p.eBuiltin("yield", {}) : p.eBuiltin("yield", {num()}); }
    void block(std::vector<Stmt *> &o, int n, int d) { size_t keep = cur->vis.size(); for(int i = 0; i < n; i++) stmt(o, d); cur->vis.resize(keep); }
    void stmt(std::vector<Stmt *> &o, int d) {
        if(budget-- <= 0) { o.push_back(outS({num()})); return; }
        bool body = cur->body || (mistakes && g.chance(1, 50)), in = cur->f != nullptr;
        switch(g.weighted({3, body ? 8u : 0u, body ? 4u : 0u, 6, 3, 3, d > 0 ? 3u : 0u, d > 0 ? 2u : 0u, 2, in ? 3u : 0u, in ? 1u : 0u, 1, 1, 2, 1, 1})) {
            case 0: o.push_back(outS({num(), num()})); break;
            case 1: if(in && g.chance(1, 2)) { Expr *e = yieldE(); L l = newLocal("v"); o.push_back(declare(l, e)); o.push_back(outS({loc(l)})); }
                    else o.push_back(g.chance(1, 2) ? outS({p.eInt(g.below(9)), yieldE()}) : p.sExpr(yieldE())); break;
            case 2: o.push_back(outS({p.eCall(p.eGlobal(deepSlot), {p.eInt(g.below(6)), num()})})); break;
            case 3: o.push_back(outS({resume()})); break;
            case 4: o.push_back(outS({p.eBuiltin("is_finished", {co()}), p.eBuiltin("is_finished", {co()})})); break;
            case 5: o.push_back(p.sExpr(p.eAssign(g.chance(1, 6) ? p.eField(p.eGlobal(bagSlot), "co") : p.eGlobal(coSlot[g.below(nCo)]), g.chance(1, 8) ? co() : create()))); break;
            case 6: { // a loop, in bodies often one that yields
                Stmt *s = p.st(SK::For); size_t keep = cur->vis.size();
                L l = newLocal("i"); s->init = declare(l, p.eInt(0));
                s->e = p.eBin("<", loc(l), p.eInt(1 + g.below(4)));
                Expr *inc = p.ex(EK::Inc); inc->op = "++"; inc->i = 1; inc->kids = {loc(l)}; s->e2 = inc;
                block(s->b1, 1 + g.below(2), d - 1);
                if(g.chance(1, 8)) { Stmt *i = p.st(SK::If); i->e = p.eBin("==", loc(l), p.eInt(1)); i->b1 = {p.st(SK::Break)}; s->b1.push_back(i); }
                cur->vis.resize(keep);
                o.push_back(s); break;
            }
            case 7: { Stmt *s = p.st(SK::If); s->e = p.eBin(g.chance(1, 2) ? "==" : "<", p.eInt(g.below(3)), p.eInt(g.below(3)));
                block(s->b1, 1, d - 1);
                if(g.chance(1, 2)) { s->hasElse = true; block(s->b2, 1, d - 1); }
                o.push_back(s); break; }
            case 8: o.push_back(outS({p.eCall(p.eGlobal(drainSlot), {co(), p.eInt(g.below(5))})})); break;
            case 9: if(g.chance(1, 3)) { Expr *e = g.chance(1, 3) ? co() : create(); o.push_back(declare(newLocal("c", true), e)); } else { Expr *e = num(); o.push_back(declare(newLocal("x"), e)); } break;
            case 10: { Stmt *s = p.st(SK::Return); s->e = g.chance(1, 2) ? num() : body ? yieldE() : resume(); Stmt *i = p.st(SK::If); i->e = p.eBin("==", p.eInt(g.below(2)), p.eInt(g.below(2))); i->b1 = {s}; o.push_back(i); break; }
            case 11: o.push_back(p.sExpr(p.eCall(p.eNative(N_GC), {}))); break;
            case 12: // resumes from inside a host call
                if(mistakes && g.chance(1, 3)) o.push_back(outS({p.eCall(p.eNative(N_CALL), {p.eGlobal(deepSlot), p.eInt(0), mistakes || !body ? num() : p.eInt(1)})}));
                else o.push_back(outS({p.eCall(p.eNative(N_CALL), {p.eGlobal(drainSlot), co(), p.eInt(g.below(3))})}));
                break;
            case 13: { // suspended in the middle of an expression, with values before it on the stack
                Expr *a = num(), *b = body ? yieldE() : resume(), *c = num(), *e = resume();
                o.push_back(g.chance(1, 2) ? outS({a, b, c, e}) : outS({p.eBin("+", p.eInt(g.below(9)), p.eCall(p.eNative(N_ID), {p.eBin("==", b, a)})), e})); break; }
            case 14: { Expr *f = p.eGlobal(bagSlot); Expr *k = p.eField(f, "n"); o.push_back(p.sExpr(p.eAssign(k, body ? yieldE() : resume()))); o.push_back(outS({p.eField(p.eGlobal(bagSlot), "n")})); break; }
            default: o.push_back(p.sExpr(p.eAssign(p.eGlobal(coSlot[g.below(nCo)]), p.eGlobal(coSlot[g.below(nCo)])))); break;
        }
    }
    void function(int slot, const std::vector<std::string> &params, bool body, const std::function<void(Func *)> &fill) {
        Func *f = p.fu(); f->name = p.globals[slot]; f->params = params; f->nslots = (int)params.size();
        Fn n; n.f = f; n.body = body; cur = &n;
        for(size_t i = 0; i < params.size(); i++) n.vis.push_back({(int)i, params[i], params[i][0] == 'c'});
        fill(f);
        cur = &root;
        Stmt *s = p.st(SK::Func); s->name = f->name; s->global = true; s->slot = slot; s->fn = f; p.top.push_back(s);
    }
    Stmt *ret(Expr *e) { Stmt *s = p.st(SK::Return); s->e = e; return s; }
    void run() {
        nCo = 1 + g.below(4); nBody = 1 + g.below(3);
        bagSlot = global("bag"); p.top.push_back(varGlobal(bagSlot, p.ex(EK::NewObj)));
        for(int i = 0; i < nCo; i++) { coSlot.push_back(global("co" + std::to_string(i))); p.top.push_back(varGlobal(coSlot[i], p.eNil())); }
        careful = !mistakes && g.chance(4, 5);
        if(careful) {
            busySlot = global("busy"); p.top.push_back(varGlobal(busySlot, p.ex(EK::NewObj)));
            rsSlot = global("rs");
            function(rsSlot, {"c", "v"}, false, [&](Func *f) {
                auto flag = [&] { return p.eIndex(p.eGlobal(busySlot), loc(cur->vis[0])); };
                Stmt *i = p.st(SK::If); i->e = p.eBin("==", flag(), p.eInt(1)); i->b1 = {ret(p.eStr("busy"))}; f->body.push_back(i);
                f->body.push_back(p.sExpr(p.eAssign(flag(), p.eInt(1))));
                L r = newLocal("r"); f->body.push_back(declare(r, g.chance(1, 3) ? p.eBin("+", p.eStr(""), p.eBuiltin("resume", {loc(cur->vis[0]), loc(cur->vis[1])})) : p.eBuiltin("resume", {loc(cur->vis[0]), loc(cur->vis[1])})));
                f->body.push_back(p.sExpr(p.eAssign(flag(), g.chance(1, 2) ? p.eNil() : p.eInt(0))));
                f->body.push_back(ret(loc(r)));
            });
        }
        deepSlot = global("deep");
        // deep(n, v): yields n calls further down; every level keeps locals.
        function(deepSlot, {"n", "v"}, true, [&](Func *f) {
            auto n = [&] { return loc(cur->vis[0]); }; auto v = [&] { return loc(cur->vis[1]); };
            Stmt *i = p.st(SK::If); i->e = p.eBin(">", n(), p.eInt(0));
            L a = newLocal("k"); i->b1.push_back(declare(a, p.eBin("+", p.eBin("*", n(), p.eInt(10)), p.eInt(1))));
            L b = newLocal("r"); i->b1.push_back(declare(b, p.eCall(p.eGlobal(deepSlot), {p.eBin("-", n(), p.eInt(1)), v()})));
            if(g.chance(1, 2)) i->b1.push_back(p.sExpr(p.eBuiltin("yield", {loc(a)})));
            i->b1.push_back(outS({n(), loc(a), loc(b), v()}));
            i->b1.push_back(ret(loc(b)));
            f->body = {i, ret(p.eBuiltin("yield", {v()}))};
        });
        drainSlot = global("drain");
        function(drainSlot, {"c", "m"}, false, [&](Func *f) {
            L w = newLocal("w");
            f->body.push_back(declare(w, p.eInt(0)));
            Stmt *s = p.st(SK::While);
            s->e = p.eBin("&&", p.eUn("!", p.eBuiltin("is_finished", {loc(cur->vis[0])})), p.eBin("<", loc(w), loc(cur->vis[1])));
            Expr *inc = p.ex(EK::Inc); inc->op = "++"; inc->i = 1; inc->kids = {loc(w)};
            s->b1.push_back(outS({careful ? p.eCall(p.eGlobal(rsSlot), {loc(cur->vis[0]), inc}) : p.eBuiltin("resume", {loc(cur->vis[0]), inc})}));
            f->body.push_back(s);
            f->body.push_back(ret(loc(w)));
        });
        makeSlot = global("callable");
        function(makeSlot, {"f", "d"}, false, [&](Func *f) {
            L o = newLocal("o"); f->body.push_back(declare(o, p.ex(EK::NewObj)));
            f->body.push_back(p.sExpr(p.eAssign(p.eField(loc(o), "_exec"), loc(cur->vis[0]))));
            f->body.push_back(p.sExpr(p.eAssign(p.eField(loc(o), "_data"), loc(cur->vis[1]))));
            f->body.push_back(ret(loc(o)));
        });
        for(int i = 0; i < nBody; i++) { bodySlot.push_back(global("body" + std::to_string(i))); bodyParams.push_back(g.chance(1, 6) ? 4 + g.below(13) : g.below(4)); }
        for(int i = 0; i < nBody; i++) {
            static const char *names[] = { "a", "b", "d", "e", "h", "j", "k", "l", "m", "n", "q", "r", "t", "u", "x", "y", "z" };
            std::vector<std::string> ps(names, names + bodyParams[i]);
            function(bodySlot[i], ps, true, [&](Func *f) {
                budget = 8 + size / 8;
                int n = 1 + g.below(6);
                for(int k = 0; k < n; k++) stmt(f->body, 2);
                if(g.chance(2, 3)) f->body.push_back(ret(num()));
            });
            declared++;
            p.top.push_back(p.sExpr(p.eAssign(p.eField(p.eGlobal(bagSlot), "f" + std::to_string(i)), p.eGlobal(bodySlot[i]))));
        }
        for(int i = 0; i < nCo; i++) if(!mistakes || g.chance(9, 10)) p.top.push_back(p.sExpr(p.eAssign(p.eGlobal(coSlot[i]), create())));
        p.top.push_back(p.sExpr(p.eAssign(p.eField(p.eGlobal(bagSlot), "co"), create())));
        int n = 3 + g.below((uint32_t)(4 + size / 4));
        for(int i = 0; i < n; i++) { budget = 10; stmt(p.top, 2); }
        std::vector<Expr *> last; for(int i = 0; i < nCo; i++) last.push_back(p.eBuiltin("is_finished", {p.eGlobal(coSlot[i])}));
        p.top.push_back(outS(last));
    }
};
}

int main(int argc, char **argv) {
    pbt::Property P;
    P.id = "C12";
    P.rule = "A random program about coroutines (1-5 of them at a time, bodies with up to 16 parameters and locals that yield at call depths 0-6, inside loops, conditions, arguments, stores and return statements, resume, create, replace and query each other, are resumed from host calls, made from callable objects; a third with mistakes: recursive resume, resuming other things, wrong argument counts, native functions, yields at the root and out of host calls) or a general random program heavy in coroutines, run under a generated collection interval and slicing; compared with the reference interpreter, whose coroutines are real ones. Non-trivial: at least 4 resumes and 3 yields; distinct by program text.";
    P.assumptions = {"the reference interpreter's rules were read from the code and documentation and are trusted"};
    P.quickCases = 55000; P.thoroughCases = 1200000; P.quickWall = 28; P.thoroughWall = 800;
    P.run = [](pbt::Case &c) {
        Program p; bool own = c.g.chance(3, 4);
        if(own) CoGen(p, c.g, c.size).run();
        else { GenOpts o; o.stmts = 3 + c.size / 5; o.coroutineWeight = 4; generate(p, c.g, o); }
        std::string text = print(p); c.describe(text);
        Model m; m.fuel = 20000; m.run(p);
        if(m.discarded) c.discard(m.why);
        Host h; prepare(c, h, text);
        uint32_t gi = c.g.chance(1, 2) ? 1 + c.g.below(40) : 1024, slice = c.g.chance(1, 2) ? 1 + c.g.below(20) : 100000;
        nkxSetGarbageCollectionInterval(h.vm, gi); nkxSetGarbageCollectionNewObjectInterval(h.vm, c.g.chance(1, 2) ? 1 : 256);
        c.appendDescription("\n--- interval " + std::to_string(gi) + ", slices of " + std::to_string(slice));
        uint64_t n = 0;
        while(n < RUN_CAP * 4 && !h.hasErrors() && !nkxVmProgramHasEnded(h.vm)) { nkxVmIterate(h.vm, slice); n += slice; }
        if(!h.hasErrors() && !nkxVmProgramHasEnded(h.vm)) c.fail("the program does not end");
        compareWithModel(c, h, m, p);
        for(auto &f : m.features) if(f.first.find("resume") != std::string::npos || f.first.find("yield") != std::string::npos || f.first.find("corout") != std::string::npos) c.label(f.first.c_str());
        c.label(own ? "coroutine program" : "general program"); c.label(m.error ? "ends with an error" : "ends normally");
        if(m.error) c.label(("error: " + m.errorText.substr(0, 40)).c_str());
        if(m.features["resume"] >= 4 && m.features["yield"] >= 3) c.nontrivial(pbt::hashStr(text));
        finish(c, h);
    };
    return pbt::main(P, argc, argv);
}
